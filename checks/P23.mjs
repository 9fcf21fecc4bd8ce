// P23 — store middlewares: transparent, never stale, retry/breaker/health as documented.
import { exploreAll, canon, same, sequences, product } from '../lib/explore.mjs'
import { attempt, errName } from '../lib/noy.mjs'
import { Data, plainStore, hookedStore, applyCall, Sched } from '../lib/stores.mjs'
import { resetWorld, settle, advance, W } from '../lib/world.mjs'

const V = 'V'
const TTL = 1000
const SECRET = 'CIPHERTEXT-PAYLOAD'
const env = (v, tag) => ({ _noydb: 1, _v: v, _ts: '2026-01-01T00:00:00.000Z', _iv: `IVIVIV-${tag}`, _data: `${SECRET}-${tag}` })
const EXTRA = ['listVaults', 'listPage', 'ping', 'tx']
const CORE = ['get', 'put', 'delete', 'list', 'loadAll', 'saveAll']

/** The middlewares under test; each mk returns { mw, and what it was seen to do }. */
const LAYERS = {
  retry: (st) => st.withRetry({ maxRetries: 2, backoffMs: 10 }),
  log: (st, o) => st.withLogging({ level: 'debug', logger: o.logger }),
  metrics: (st, o) => st.withMetrics({ onOperation: (op) => o.ops.push(op) }),
  cache: (st) => st.withCache({ maxEntries: 10, ttlMs: TTL }),
  cache1: (st) => st.withCache({ maxEntries: 1, ttlMs: TTL }),
  cacheInf: (st) => st.withCache({ ttlMs: 0 }),
  breaker: (st) => st.withCircuitBreaker({ failureThreshold: 100 }),
  health: (st) => st.withHealthCheck({ checkIntervalMs: 1e9 }),
}
const STACKS = (() => {
  const out = []
  const names = Object.keys(LAYERS)
  for (const a of names) out.push([a])
  for (const a of names) for (const b of names) if (a !== b) out.push([a, b])
  out.push(['retry', 'log', 'metrics', 'cache'], ['cache', 'metrics', 'log', 'retry'], ['metrics', 'cache', 'breaker', 'retry'], ['health', 'breaker', 'cache', 'retry'])
  return out
})()
function observer() {
  const o = { ops: [], lines: [] }
  const w = (l) => (...a) => o.lines.push([l, a.map((x) => (typeof x === 'string' ? x : JSON.stringify(x))).join(' ')])
  o.logger = { debug: w('debug'), info: w('info'), warn: w('warn'), error: w('error') }
  return o
}
const build = (st, bare, stack, o) => st.wrapStore(bare, ...stack.map((n) => LAYERS[n](st, o)))

/** Store calls of the histories: k, method, args(cur, n). */
const OPS = [
  { k: 'put a', m: 'put', args: (cur, n) => [V, 'c', 'a', env((cur?._v ?? 0) + 1, `a${n}`)] },
  { k: 'cas a', m: 'put', args: (cur, n) => [V, 'c', 'a', env((cur?._v ?? 0) + 1, `a${n}`), cur?._v ?? 0] },
  { k: 'badcas a', m: 'put', args: (cur, n) => [V, 'c', 'a', env((cur?._v ?? 0) + 1, `x${n}`), (cur?._v ?? 0) + 5] },
  { k: 'put b', m: 'put', args: (cur, n) => [V, 'c', 'b', env(1, `b${n}`)] },
  { k: 'del a', m: 'delete', args: () => [V, 'c', 'a'] },
  { k: 'get a', m: 'get', args: () => [V, 'c', 'a'] },
  { k: 'get b', m: 'get', args: () => [V, 'c', 'b'] },
  { k: 'get a of d', m: 'get', args: () => [V, 'd', 'a'] },
  { k: 'get a of V2', m: 'get', args: () => ['V2', 'c', 'a'] },
  { k: 'list', m: 'list', args: () => [V, 'c'] },
  { k: 'loadAll', m: 'loadAll', args: () => [V] },
  { k: 'saveAll', m: 'saveAll', args: (cur, n) => [V, { c: { b: env(9, `s${n}`) }, d: { a: env(1, `t${n}`) } }] },
  { k: 'tx put', m: 'tx', args: (cur, n) => [[{ type: 'put', vault: V, collection: 'c', id: 'a', envelope: env((cur?._v ?? 0) + 1, `q${n}`), expectedVersion: cur?._v ?? 0 }, { type: 'delete', vault: V, collection: 'c', id: 'b' }]] },
  { k: 'listPage', m: 'listPage', args: () => [V, 'c', undefined, 1] },
]
const WRITES = OPS.filter((o) => ['put', 'delete', 'saveAll', 'tx'].includes(o.m))
const RACERS = ['put a', 'cas a', 'put b', 'del a', 'get a', 'saveAll', 'tx put'].map((k) => OPS.find((o) => o.k === k))
const shown = (v) => canon(v && typeof v === 'object' && v.c && !v._v && !Object.keys(v.c).length ? (({ c, ...rest }) => rest)(v) : v ?? null)
const result = (r) => (r.ok ? `ok ${shown(r.val)}` : `${errName(r)} ${r.err.message}`)

function checkReports(o, stack, calls, ctx, key, what) {
  for (const [lvl, line] of o.lines) if (line.includes(SECRET) || line.includes('IVIVIV')) ctx.violation(`${key}:logdata`, `${what}: the log line "${line.slice(0, 120)}" contains the payload`)
  if (stack.includes('metrics')) {
    const seen = o.ops
    // what the metrics layer sees: every call of its caller; retries below it are invisible, above it repeated
    if (!stack.slice(0, stack.indexOf('metrics')).some((n) => n === 'retry' || n.startsWith('cache'))) {
      const want = calls.filter((c) => CORE.includes(c.m))
      if (seen.length !== want.length) return ctx.violation(`${key}:metrics`, `${what}: ${want.length} store calls, ${seen.length} metric reports`)
      for (const [i, c] of want.entries()) {
        const s = seen[i], a = c.args
        const ok = s.method === c.m && s.vault === a[0] && (c.m === 'loadAll' || c.m === 'saveAll' ? s.collection === undefined : s.collection === a[1]) && (['get', 'put', 'delete'].includes(c.m) ? s.id === a[2] : s.id === undefined) && s.success === c.ok && (c.ok ? s.error === undefined : s.error === c.err) && s.durationMs === c.took
        if (!ok) return ctx.violation(`${key}:metrics`, `${what}: metric report ${JSON.stringify(s)} for ${c.m}(${a.slice(0, 3).filter((x) => typeof x === 'string')}) ${c.ok ? 'succeeding' : 'failing'} after ${c.took} ms`)
      }
    }
  }
  if (stack.includes('log') && !stack.slice(0, stack.indexOf('log')).some((n) => n === 'retry' || n.startsWith('cache'))) {
    const want = calls.filter((c) => CORE.includes(c.m))
    if (o.lines.length !== want.length) return ctx.violation(`${key}:log`, `${what}: ${want.length} store calls, ${o.lines.length} log lines`)
    for (const [i, c] of want.entries()) {
      const [lvl, line] = o.lines[i]
      if (!line.includes(c.m) || lvl !== (c.ok ? 'debug' : 'error') || !line.includes(c.args[0]) || (!c.ok && !line.includes(c.err.message))) return ctx.violation(`${key}:log`, `${what}: logged ${lvl} "${line}" for ${c.m} ${c.ok ? 'succeeding' : 'failing'}`)
    }
  }
}

/** One history through a stack and on the bare store, with at most one failing or slow backing call. */
async function history(ctx, stack, hist, fault) {
  const { nb } = ctx, st = nb.store
  ctx.exec()
  resetWorld(1)
  return settle(async () => {
    const data = new Data(), ref = new Data(), o = observer(), calls = []
    data.coll('V2', 'c', true).set('a', env(1, 'other')); ref.coll('V2', 'c', true).set('a', env(1, 'other'))
    let n = 0, hit = false, inFault = null, done = false
    const bare = hookedStore(nb.hub, data, (m, a, f) => {
      if (done || !fault || ++n !== fault.k) return f()
      hit = true
      if (fault.kind === 'after') f()
      inFault = Object.assign(new Error('backend down'), { code: 'NET' })
      throw inFault
    }, { extra: EXTRA })
    const s = build(st, bare, stack, o)
    const key = stack.join('+'), what = `${stack.join(' over ')}: ${hist.map((x) => x.k).join('; ')}${fault ? ` with backing call ${fault.k} failing (${fault.kind} it took effect)` : ''}`
    for (const m of EXTRA) if (typeof s[m] !== 'function') { ctx.violation(`${key}:lost-method`, `${stack.join(' over ')} hides the store's ${m}`); return hit }
    for (const [i, op] of hist.entries()) {
      ctx.trans()
      if (op.t === 'advance') { W.now += op.ms; continue }
      if (op.t === 'foreign') { for (const d of [data, ref]) applyCall(d, nb.hub, 'put', [V, 'c', 'a', env(50 + i, `f${i}`)]); continue }
      const args = op.args(data.get(V, 'c', 'a'), i)
      inFault = null
      const t = W.now
      const r = await attempt(() => s[op.m](...args))
      calls.push({ m: op.m, args, ok: r.ok, err: r.err, took: W.now - t })
      if (inFault) {
        if (r.ok && !stack.includes('retry')) { ctx.violation(`${key}:swallowed`, `${what}: ${op.k} reports success`); return hit }
        if (!r.ok && r.err !== inFault && r.err?.name !== 'ConflictError') { ctx.violation(`${key}:error`, `${what}: ${op.k} fails with ${r.err?.message}`); return hit }
        ref.restore(data.snapshot())
        continue
      }
      const w = await attempt(() => applyCall(ref, nb.hub, op.m, args))
      if (result(r) !== result(w)) { ctx.violation(`${key}:${op.m}`, `${what}: ${op.k} gives ${result(r)}, the store itself ${result(w)}`); return hit }
    }
    done = true
    if (!same(data.snapshot(), ref.snapshot())) ctx.violation(`${key}:contents`, `${what}: the store holds ${canon(data.snapshot())}, without the stack ${canon(ref.snapshot())}`)
    for (const a of [[V, 'c', 'a'], [V, 'c', 'b'], [V, 'd', 'a'], ['V2', 'c', 'a']]) {
      const g = canon(await s.get(...a)), w = canon(ref.get(...a))
      calls.push({ m: 'get', args: a, ok: true, took: 0 })
      if (g !== w) ctx.violation(`${key}:stale`, `${what}: afterwards get(${a.join('/')}) gives ${g}, the store holds ${w}`)
    }
    checkReports(o, stack, calls, ctx, key, what)
    ctx.state([stack.join(), canon(data.snapshot())])
    ctx.sample({ stack, history: hist.map((x) => x.k), fault })
    return hit
  })
}

/** A get may give the value from before a write only if it overlapped that write. */
async function race(ctx, stack, pre, progs, mode) {
  const { nb } = ctx
  const key = `race:${stack.join('+')}:${progs.map((p) => p.map((o) => o.k).join(',')).join('|')}`
  const res = await exploreAll(async (ch) => {
    ctx.exec(); resetWorld(1)
    const data = new Data()
    const sched = new Sched(nb.hub, ch, { mode, preempt: ctx.tier === 'quick' ? 3 : null })
    let gate = false
    const p = plainStore(nb.hub, data, null, { extra: EXTRA }), q = sched.store(data, 's', { extra: EXTRA })
    const bare = { name: 'g' }
    for (const m of [...CORE, ...EXTRA]) bare[m] = (...x) => (gate ? q : p)[m](...x)
    const s = build(nb.store, bare, stack, observer())
    await settle(async () => { for (const [i, o] of pre.entries()) await s[o.m](...o.args(data.get(V, 'c', 'a'), `p${i}`)) })
    const v0 = data.get(V, 'c', 'a')
    gate = true
    const log = [] // writes and reads of record a with begin and end times
    let clock = 0
    const tasks = await sched.run(progs.map((prog, t) => [`T${t}`, async () => {
      for (const [i, o] of prog.entries()) {
        const args = o.args(v0, `${t}${i}`)
        const e = { k: o.k, m: o.m, b: ++clock, e: Infinity }
        log.push(e)
        const r = await attempt(() => s[o.m](...args))
        e.e = ++clock; e.ok = r.ok
        if (o.m === 'get') e.val = canon(r.val ?? null)
        else if (o.k === 'del a' || o.m === 'saveAll') e.sets = 'null'
        else if (o.m === 'tx') e.sets = canon(args[0][0].envelope)
        else if (args[2] === 'a') e.sets = canon(args[3])
      }
    }]))
    gate = false
    ctx.trans(sched.transitions)
    void tasks
    const what = `${stack.join(' over ')}, after ${pre.map((o) => o.k).join('; ') || 'nothing'}, ${progs.map((x) => x.map((o) => o.k).join(';')).join(' || ')} [${sched.trace.join(' ')}]`
    const writes = log.filter((x) => x.sets !== undefined && x.ok)
    // regular reads: a value is admissible if it is the initial one and no write completed before the read began,
    // or it was set by a write that began before the read ended and was not followed entirely by another before the read began
    for (const g of log.filter((x) => x.m === 'get' && x.k === 'get a')) {
      const ok = [{ sets: canon(v0), b: -1, e: 0 }, ...writes].some((w) => w.sets === g.val && w.b < g.e && !writes.some((x) => x !== w && x.b > w.e && x.e < g.b))
      if (!ok) ctx.violation(`${key}:read`, `${what}: get gives ${g.val}`)
    }
    const now = canon(await settle(() => s.get(V, 'c', 'a'))), w = canon(data.get(V, 'c', 'a'))
    if (now !== w) ctx.violation(`${key}:stale`, `${what}: afterwards get gives ${now}, the store holds ${w}`)
    const nb2 = canon(await settle(() => s.get(V, 'c', 'b'))), wb = canon(data.get(V, 'c', 'b'))
    if (nb2 !== wb) ctx.violation(`${key}:stale`, `${what}: afterwards get b gives ${nb2}, the store holds ${wb}`)
  }, { maxExec: 20000 })
  if (!res.complete) ctx.capped(key)
}

async function retry(ctx, max, method) {
  const { nb } = ctx
  const op = OPS.find((o) => o.m === method)
  for (const on of [undefined, ['NET'], []]) for (const pat of product(...Array.from({ length: max + 2 }, () => ['ok', 'NET', 'OTHER']))) {
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      const data = new Data(), at = []
      let n = 0
      const bare = hookedStore(nb.hub, data, (m, a, f) => {
        at.push(W.now)
        const p = pat[n++] ?? 'ok'
        if (p === 'ok') return f()
        throw Object.assign(new Error(`fail ${n}`), { code: p })
      })
      const s = nb.store.wrapStore(bare, nb.store.withRetry({ maxRetries: max, backoffMs: 100, jitter: 0.5, ...(on ? { retryOn: on } : {}) }))
      let want = 0, ok = false
      for (;;) { const p = pat[want++]; if (p === 'ok') { ok = true; break } if (want > max || (on && !on.includes(p))) break }
      const r = await attempt(() => s[method](...op.args(null, 0))), ended = W.now
      ctx.trans(at.length)
      const key = `retry:${method}:${max}:${on ? `only ${on.join()}` : 'all'}`, what = `${method} with maxRetries ${max}${on ? `, retryOn [${on}]` : ''} and attempts ${pat.join(', ')}`
      if (at.length !== want) ctx.violation(key, `${what}: ${at.length} attempts, expected ${want}`)
      else if (r.ok !== ok) ctx.violation(key, `${what}: ${r.ok ? 'succeeds' : `fails: ${r.err.message}`}`)
      else if (!ok && r.err.message !== `fail ${want}`) ctx.violation(key, `${what}: reports ${r.err.message}, the last error was fail ${want}`)
      for (let i = 1; i < at.length; i++) { const d = at[i] - at[i - 1], lo = 100 * 2 ** (i - 1); if (d < lo || d > lo * 1.5 + 1) ctx.violation(`${key}:delay`, `${what}: waits ${d} ms before attempt ${i + 1}, expected ${lo} to ${lo * 1.5}`) }
      if (ended - at.at(-1) >= 100) ctx.violation(`${key}:delay`, `${what}: answers ${ended - at.at(-1)} ms after the last attempt`)
    })
  }
}

const RESET = 500
const FALLBACK = { get: 'null', put: 'null', delete: 'null', list: '[]', loadAll: '{}', saveAll: 'null' }
/** Threshold 0 stands for the documented defaults: five failures, 30 seconds. */
async function breaker(ctx, th, first, len) {
  const { nb } = ctx
  const dflt = th === 0, threshold = th || 5, RESET = dflt ? 30_000 : 500
  const EV = ['ok', 'fail', 'almost', 'reset']
  for (const rest of sequences(EV.length, len - 1)) {
    const hist = [first, ...rest].map((i) => EV[i])
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      const data = new Data()
      let reached = 0, failing = false, opens = 0, closes = 0
      const bare = hookedStore(nb.hub, data, (m, a, f) => { reached++; if (failing) throw new Error('down'); return f() })
      data.coll(V, 'c', true).set('a', env(1, 'a'))
      const s = nb.store.wrapStore(bare, nb.store.withCircuitBreaker({ ...(dflt ? {} : { failureThreshold: threshold, resetTimeoutMs: RESET }), onOpen: () => opens++, onClose: () => closes++ }))
      let open = false, fails = 0, at = 0, wo = 0, wc = 0
      const key = `breaker:${dflt ? 'default' : threshold}`
      for (const [i, e] of hist.entries()) {
        ctx.trans()
        const what = `threshold ${threshold}: ${hist.slice(0, i + 1).join(', ')}`
        if (e === 'almost') { W.now += RESET - 1; continue }
        if (e === 'reset') { W.now += RESET; continue }
        const m = CORE[i % CORE.length], op = OPS.find((o) => o.m === m)
        failing = e === 'fail'; reached = 0
        const passes = !open || W.now - at >= RESET
        const args = op.args(data.get(V, 'c', 'a'), i)
        const expect = passes ? (failing ? 'fails' : canon((m === 'get' || m === 'list' || m === 'loadAll' ? applyCall(data, nb.hub, m, args) : null) ?? null)) : FALLBACK[m]
        const r = await attempt(() => s[m](...args))
        const got = r.ok ? canon(r.val ?? null) : 'fails'
        if (reached !== (passes ? 1 : 0)) { ctx.violation(`${key}:reach`, `${what}: ${m} reaches the store ${reached} times, expected ${passes ? 1 : 0}`); return }
        if (got !== expect) { ctx.violation(`${key}:result`, `${what}: ${m} gives ${got}, expected ${expect}`); return }
        if (passes) {
          if (failing) { fails++; at = W.now; if (!open && fails >= threshold) { open = true; wo++ } } else { if (open) { open = false; wc++ } fails = 0 }
        }
        if (!(opens >= wo && (opens === wo || open)) || closes !== wc) { ctx.violation(`${key}:callbacks`, `${what}: onOpen called ${opens} times, onClose ${closes}; it opened ${wo} times and closed ${wc}`); return }
      }
    })
  }
}
/** Several calls at once around the half-open state: one probe only, and late results of older calls do not close it. */
async function breakerRace(ctx, calls) {
  const { nb } = ctx
  for (const outcome of sequences(2, calls)) {
    const res = await exploreAll(async (ch) => {
      ctx.exec(); resetWorld(1)
      const data = new Data()
      let down = true, gate = false, reached = 0
      const sched = new Sched(nb.hub, ch, {})
      const gated = sched.store(data, 's')
      const s = nb.store.wrapStore({ ...gated, list: async (...a) => { reached++; if (gate) await gated.list(...a); if (typeof a[1] === 'string' ? down || a[1] === 'bad' : true) throw new Error('down'); return ['x'] } }, nb.store.withCircuitBreaker({ failureThreshold: 2, resetTimeoutMs: RESET }))
      await settle(async () => { for (let i = 0; i < 2; i++) await attempt(() => s.list(V, 'c')) })
      W.now += RESET; down = false; reached = 0; gate = true
      const order = []
      const tasks = await sched.run(outcome.map((o, i) => [`T${i}`, async () => { const r = await attempt(() => s.list(V, o ? 'bad' : 'c')); order.push(i); return r }]))
      gate = false
      ctx.trans(sched.transitions)
      const what = `${calls} calls at once after the reset time (${outcome.map((o) => (o ? 'failing' : 'ok')).join(', ')})`
      const fallback = tasks.filter((t) => t.val.ok && same(t.val.val, [])).length
      if (reached !== 1 || fallback !== calls - 1) ctx.violation(`breaker-race:${calls}:probes`, `${what}: ${reached} reach the store, expected one probe [${sched.trace.join(' ')}]`)
      // afterwards: closed iff the probe (the first) succeeded
      reached = 0
      const r = await settle(() => attempt(() => s.list(V, 'c')))
      if (reached !== (outcome[0] ? 0 : 1)) ctx.violation(`breaker-race:${calls}:after`, `${what}: the next call ${reached ? 'reaches' : 'does not reach'} the store, result ${r.ok ? canon(r.val) : r.err.message}`)
    }, { maxExec: 5000 })
    if (!res.complete) ctx.capped('breaker race')
  }
}
/** suspend 0 stands for the documented defaults: three failures, one success, every 30 seconds. */
async function health(ctx, source, suspend, resume, first, len) {
  const { nb } = ctx
  const dflt = suspend === 0, susp = suspend || 3, res = resume || 1, every = dflt ? 30_000 : 100
  const EV = source === 'list' ? ['good', 'error'] : ['good', 'error', 'false']
  for (const rest of sequences(EV.length, len - 1)) {
    if (first >= EV.length) return
    const hist = [first, ...rest].map((i) => EV[i])
    ctx.exec(); resetWorld(1)
    await (async () => {
      const data = new Data()
      data.coll(V, 'c', true).set('a', env(1, 'a'))
      let state = 'good', suspends = 0, resumes = 0, reached = 0
      const probe = async () => { if (state === 'error') throw new Error('down'); return state === 'good' }
      const base = hookedStore(nb.hub, data, (m, a, f) => { reached++; return f() }, { extra: [] })
      const bare = source === 'ping' ? { ...base, ping: probe } : source === 'list' ? { ...base, list: async (v, c) => { if (v !== V) { if (state === 'error') throw new Error('down'); return [] } return base.list(v, c) } } : base
      const s = nb.store.wrapStore(bare, nb.store.withHealthCheck({ ...(dflt ? {} : { checkIntervalMs: 100, suspendAfterFailures: susp, resumeAfterSuccess: res }), onSuspend: () => suspends++, onResume: () => resumes++, ...(source === 'check' ? { check: probe } : {}) }))
      let down = false, bad = 0, good = 0, ws = 0, wr = 0
      const key = `health:${source}:${suspend}/${resume}`
      for (let i = 0; i <= hist.length; i++) {
        const what = `health by ${source}, suspend after ${susp}, resume after ${res}: ${hist.slice(0, i).join(', ') || 'no check yet'}`
        for (const m of CORE) {
          const op = OPS.find((o) => o.m === m), args = op.args(data.get(V, 'c', 'a'), i)
          const expect = down ? FALLBACK[m] : canon((['get', 'list', 'loadAll'].includes(m) ? applyCall(data, nb.hub, m, args) : null) ?? null)
          reached = 0
          const r = await attempt(() => s[m](...args))
          ctx.trans()
          if (reached !== (down ? 0 : 1)) { ctx.violation(`${key}:reach`, `${what}: ${m} reaches the store ${reached} times`); return }
          if (!r.ok || canon(r.val ?? null) !== expect) { ctx.violation(`${key}:result`, `${what}: ${m} gives ${r.ok ? canon(r.val ?? null) : r.err.message}, expected ${expect}`); return }
        }
        if (suspends !== ws || resumes !== wr) { ctx.violation(`${key}:callbacks`, `${what}: onSuspend ${suspends}, onResume ${resumes}; expected ${ws}, ${wr}`); return }
        if (i === hist.length) break
        state = hist[i]
        await advance(every)
        if (state === 'good') { bad = 0; good++; if (down && good >= res) { down = false; wr++; good = 0 } } else { good = 0; bad++; if (!down && bad >= susp) { down = true; ws++; bad = 0 } }
      }
      ctx.state([source, susp, res, down, bad, good])
    })()
  }
}
/** One middleware value used for two stores keeps them apart. */
async function shared(ctx) {
  const { nb } = ctx
  for (const len of [1, 2, 3]) for (const seq of sequences(WRITES.length + 3, len)) {
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      for (const layer of ['cache', 'cache1', 'cacheInf']) {
        const mw = LAYERS[layer](nb.store), d = [new Data(), new Data()], s = d.map((x) => nb.store.wrapStore(plainStore(nb.hub, x, null, { extra: EXTRA }), mw))
        const reads = OPS.filter((o) => o.m === 'get').slice(0, 3), all = [...WRITES, ...reads]
        for (const [i, x] of seq.entries()) { const o = all[x], w = i % 2; await attempt(() => s[w][o.m](...o.args(d[w].get(V, 'c', 'a'), i))); ctx.trans() }
        for (const w of [0, 1]) for (const id of ['a', 'b']) {
          const g = canon(await s[w].get(V, 'c', id)), t = canon(d[w].get(V, 'c', id))
          if (g !== t) { ctx.violation(`shared:${layer}`, `one ${layer} used for two stores: after ${seq.map((x, i) => `${all[x].k} on ${i % 2}`).join('; ')}, get ${id} of store ${w} gives ${g}, it holds ${t}`); return }
        }
      }
      const fail = hookedStore(nb.hub, new Data(), () => { throw new Error('down') }), good = plainStore(nb.hub, new Data())
      const mw = nb.store.withCircuitBreaker({ failureThreshold: 1 }), a = nb.store.wrapStore(fail, mw), b = nb.store.wrapStore(good, mw)
      await attempt(() => a.get(V, 'c', 'a')); await b.put(V, 'c', 'a', env(1, 'z'))
      if (!(await good.get(V, 'c', 'a'))) ctx.violation('shared:breaker', 'one circuit breaker used for two stores: the failure of one drops the writes of the other')
    })
  }
}

/** Addresses that look alike when their parts are joined are different records. */
async function alike(ctx) {
  const { nb } = ctx
  for (const sep of ['/', ':', '|', '.', '-', '_', ' ', ',', '#', '::', '\u0001']) {
    const at = [...product(['V', `V${sep}c`], ['c', `c${sep}x`, `${sep}c`, ''], ['x', `x${sep}y`, `c${sep}x`, 'y', ''])]
    for (const layer of ['cache', 'cacheInf', 'cache1']) for (const warm of [false, true]) {
      ctx.exec(); resetWorld(1)
      await settle(async () => {
        const data = new Data(), s = build(nb.store, plainStore(nb.hub, data), [layer], observer())
        for (const [i, a] of at.entries()) { await s.put(...a, env(1, `n${i}`)); if (warm) for (const b of at) await s.get(...b) }
        for (const [i, a] of at.entries()) {
          ctx.trans()
          const g = await s.get(...a)
          if (g?._data !== `${SECRET}-n${i}`) { ctx.violation(`alike:${layer}`, `${layer}: get(${a.map((x) => JSON.stringify(x))}) gives ${canon(g)}, put there was n${i}`); return }
        }
        for (const [i, a] of at.entries()) if (i % 2) { await s.delete(...a); for (const [j, b] of at.entries()) { const g = await s.get(...b), gone = j % 2 && j <= i; if (gone ? g !== null : g?._data !== `${SECRET}-n${j}`) { ctx.violation(`alike:${layer}`, `${layer}: after deleting ${a.map((x) => JSON.stringify(x))}, get(${b.map((x) => JSON.stringify(x))}) gives ${canon(g)}`); return } } }
      })
    }
  }
}
/** A slow call made before everything else succeeds late: the breaker keeps its state, and the probe still decides. */
async function late(ctx, first, len) {
  const { nb } = ctx
  const EV = ['ok', 'fail', 'almost', 'reset', 'late']
  for (const threshold of [1, 2]) for (const rest of sequences(EV.length, len - 1)) {
    const hist = [first, ...rest].map((i) => EV[i])
    if (hist.filter((e) => e === 'late').length > 1) continue
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      let release, reached = 0, failing = false
      const slow = new Promise((r) => { release = r })
      const bare = hookedStore(nb.hub, new Data(), async (m, a) => { if (a[1] === 'slow') { await slow; return [] } reached++; if (failing) throw new Error('down'); return ['x'] })
      const s = nb.store.wrapStore(bare, nb.store.withCircuitBreaker({ failureThreshold: threshold, resetTimeoutMs: RESET }))
      const old = s.list(V, 'slow')
      let open = false, fails = 0, at = 0
      for (const [i, e] of hist.entries()) {
        ctx.trans()
        if (e === 'almost') { W.now += RESET - 1; continue }
        if (e === 'reset') { W.now += RESET; continue }
        if (e === 'late') { release(); await old; fails = open ? fails : 0; continue }
        failing = e === 'fail'; reached = 0
        const passes = !open || W.now - at >= RESET
        const r = await attempt(() => s.list(V, 'c'))
        const got = r.ok ? canon(r.val) : 'fails', want = !passes ? '[]' : failing ? 'fails' : '["x"]'
        if (reached !== (passes ? 1 : 0) || got !== want) { ctx.violation('breaker:late', `threshold ${threshold}, a call in flight from the start: ${hist.slice(0, i + 1).join(', ')}: the store is reached ${reached} times, the answer is ${got}, expected ${want}`); return }
        if (passes) { if (failing) { fails++; at = W.now; if (fails >= threshold) open = true } else { open = false; fails = 0 } }
      }
      release(); await old
    })
  }
}

/** Without options: three retries from half a second, cached values for at most a minute; ttlMs 0 never expires. */
async function defaults(ctx) {
  const { nb } = ctx
  for (const fails of [0, 1, 2, 3, 4, 5]) {
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      const at = []
      const s = nb.store.wrapStore(hookedStore(nb.hub, new Data(), (m, a, f) => { at.push(W.now); if (at.length <= fails) throw new Error(`fail ${at.length}`); return f() }), nb.store.withRetry())
      const r = await attempt(() => s.list(V, 'c'))
      ctx.trans(at.length)
      if (at.length !== Math.min(fails, 3) + 1 || r.ok !== fails <= 3) ctx.violation('defaults:retry', `withRetry() and ${fails} failures: ${at.length} attempts, ${r.ok ? 'success' : r.err.message}`)
      for (let i = 1; i < at.length; i++) { const d = at[i] - at[i - 1], lo = 500 * 2 ** (i - 1); if (d < lo || d > lo * 1.3 + 1) ctx.violation('defaults:retry:delay', `withRetry(): waits ${d} ms before attempt ${i + 1}`) }
    })
  }
  for (const [opts, name, ms, want] of [[{}, 'withCache()', 60_001, 'new'], [{ ttlMs: 0 }, 'withCache({ ttlMs: 0 })', 1e9, 'old'], [undefined, 'withCache(), no argument', 60_001, 'new'], [{ ttlMs: 5 }, 'withCache({ ttlMs: 5 })', 6, 'new']]) {
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      const data = new Data(), s = nb.store.wrapStore(plainStore(nb.hub, data), nb.store.withCache(opts))
      await s.put(V, 'c', 'a', env(1, 'old'))
      applyCall(data, nb.hub, 'put', [V, 'c', 'a', env(2, 'new')])
      W.now += ms
      const g = await s.get(V, 'c', 'a')
      if (g?._data !== `${SECRET}-${want}`) ctx.violation('defaults:cache', `${name}: ${ms} ms after a value was kept and then replaced elsewhere, get gives ${canon(g)}`)
    })
  }
}
const TIMED = [OPS[0], OPS[4], OPS[5], { t: 'foreign', k: 'foreign put a' }, { t: 'advance', ms: TTL - 1, k: 'ttl-1' }, { t: 'advance', ms: TTL + 1, k: 'ttl+1' }]
/** Cached values live at most ttlMs. */
async function ttl(ctx, layer, first, len) {
  const { nb } = ctx
  for (const rest of sequences(TIMED.length, len - 1)) {
    const hist = [first, ...rest].map((i) => TIMED[i])
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      const data = new Data(), s = build(nb.store, plainStore(nb.hub, data), [layer], observer())
      const past = [] // [time replaced, value]
      const upto = () => canon(data.get(V, 'c', 'a'))
      for (const [i, op] of hist.entries()) {
        ctx.trans()
        if (op.t === 'advance') { W.now += op.ms; continue }
        const old = upto()
        if (op.t === 'foreign') { applyCall(data, nb.hub, 'put', [V, 'c', 'a', env(50 + i, `f${i}`)]); past.push([W.now, old]); continue }
        const r = await s[op.m](...op.args(data.get(V, 'c', 'a'), i))
        if (op.m !== 'get') { past.length = 0; continue } // own writes: nothing older may be seen
        const g = canon(r ?? null)
        if (g !== old && !past.some(([t, v]) => v === g && W.now - t <= TTL)) { ctx.violation(`ttl:${layer}`, `${layer}: ${hist.slice(0, i + 1).map((o) => o.k).join('; ')}: get gives ${g}, the store has held ${old} for longer than ttlMs`); return }
      }
    })
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of store-call histories, failure patterns, time steps and interleavings on the real middlewares against the bare store and small state machines',
  rule: 'a stack of middlewares gives the results of the bare store; retry, breaker and health check follow their documented state machines',
  modules: { hub: '@noy-db/hub', store: '@noy-db/hub/store' },
  bounds: (t) => `${STACKS.length} stacks of 1, 2 and 4 middlewares x all histories of ${t === 'quick' ? 2 : 3} store calls (each backing call failing once), caches also ${t === 'quick' ? 3 : 4}; all interleavings (preemption bound ${t === 'quick' ? 3 : 'none'}) of two programs of up to two calls; all attempt patterns of up to ${t === 'quick' ? 5 : 6} attempts; breaker histories of ${t === 'quick' ? 7 : 9} and health histories of ${t === 'quick' ? 6 : 8} events`,
  assumptions: ['the wrapped store follows the store contract', 'names contain no NUL character', 'with a cache, other writers of the same store are only covered by the TTL', 'an error without a code counts as retryable'],
  units(tier) {
    const q = tier === 'quick', out = []
    for (let i = 0; i < STACKS.length; i++) out.push({ kind: 'hist', i, len: q ? 2 : 3 })
    for (const c of ['cache', 'cache1', 'cacheInf']) for (let f = 0; f < OPS.length; f++) out.push({ kind: 'deep', c, f, len: q ? 3 : 4 })
    for (const c of ['cache', 'cache1']) for (let f = 0; f < TIMED.length; f++) out.push({ kind: 'ttl', c, f, len: q ? 6 : 7 })
    for (const c of ['cache', 'cacheInf']) for (let a = 0; a < RACERS.length; a++) for (const mode of ['reply', 'call']) out.push({ kind: 'race', c, a, mode })
    for (let max = 0; max <= (q ? 4 : 5); max++) for (const m of CORE) out.push({ kind: 'retry', max, m })
    for (const th of [0, 1, 2, 3, 5]) for (let f = 0; f < 4; f++) out.push({ kind: 'breaker', th, f, len: q ? 7 : 9 })
    for (const n of [2, 3]) out.push({ kind: 'breaker-race', n })
    for (const src of ['check', 'ping', 'list']) for (const [s, r] of [[0, 0], [1, 1], [2, 1], [2, 2], [3, 1], [1, 3]]) for (let f = 0; f < 3; f++) out.push({ kind: 'health', src, s, r, f, len: q ? 5 : 8 })
    out.push({ kind: 'shared' }, { kind: 'alike' }, { kind: 'defaults' })
    for (let f = 0; f < 5; f++) out.push({ kind: 'late', f, len: q ? 7 : 8 })
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'hist' || u.kind === 'deep') {
      const stack = u.kind === 'hist' ? STACKS[u.i] : [u.c]
      for (const seq of u.kind === 'hist' ? sequences(OPS.length, u.len) : [...sequences(OPS.length, u.len - 1)].map((r) => [u.f, ...r])) {
        const hist = seq.map((i) => OPS[i])
        await history(ctx, stack, hist, null)
        for (const kind of ['before', 'after']) for (let k = 1; k < 8; k++) if (!(await history(ctx, stack, hist, { k, kind }))) break
      }
      return
    }
    if (u.kind === 'ttl') return ttl(ctx, u.c, u.f, u.len)
    if (u.kind === 'race') {
      const A = RACERS[u.a], get = OPS.find((o) => o.k === 'get a'), put = OPS[0], del = OPS[4]
      for (const pre of [[], [put], [put, get]]) for (const B of RACERS) {
        await race(ctx, [u.c], pre, [[A], [B]], u.mode)
        await race(ctx, [u.c], pre, [[A, get], [B]], u.mode)
        await race(ctx, [u.c], pre, [[A], [get, get], ...(B.m === 'get' ? [] : [[B]])], u.mode)
      }
      void del
      return
    }
    if (u.kind === 'retry') return retry(ctx, u.max, u.m)
    if (u.kind === 'breaker') return breaker(ctx, u.th, u.f, u.len)
    if (u.kind === 'breaker-race') return breakerRace(ctx, u.n)
    if (u.kind === 'health') return health(ctx, u.src, u.s, u.r, u.f, u.len)
    if (u.kind === 'alike') return alike(ctx)
    if (u.kind === 'defaults') return defaults(ctx)
    if (u.kind === 'late') return late(ctx, u.f, u.len)
    return shared(ctx)
  },
}
