// P46 — measuring a store changes nothing and reports what happened (to-meter, to-probe).
import { resetWorld, settle, advance, drain, W } from '../lib/world.mjs'
import { canon, same, sequences, product } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore } from '../lib/stores.mjs'
import { HUB, attempt } from '../lib/noy.mjs'

const show = (x) => { const s = canon(x) ?? String(x); return s.length > 200 ? s.slice(0, 200) + '…' : s }
const env = (v, d = 'x') => ({ _noydb: 1, _v: v, _ts: '2026-01-01T00:00:00.000Z', _iv: '', _data: d })
const METHODS = ['get', 'put', 'delete', 'list', 'loadAll', 'saveAll']
const LIMIT = 50 // degradedMs in these runs
/** letter → [method, args, latency, fails] */
const CALLS = {
  get: ['get', ['V', 'c', 'a'], 3], miss: ['get', ['V', 'c', 'zz'], 0], put: ['put', ['V', 'c', 'a', env(5, 'p')], 1], cas: ['put', ['V', 'c', 'b', env(2, 'q'), 1], LIMIT],
  conflict: ['put', ['V', 'c', 'a', env(9), 77], 2], slow: ['put', ['V', 'c', 's', env(1, 's')], LIMIT + 1], down: ['put', ['V', 'c', 'a', env(8)], 0, true], gdown: ['get', ['V', 'c', 'a'], 7, true],
  del: ['delete', ['V', 'c', 'b'], 4], list: ['list', ['V', 'c'], 200], load: ['loadAll', ['V'], 9], save: ['saveAll', ['V', { c: { n: env(1, 'n') } }], 11],
}
const LETTERS = [...Object.keys(CALLS), 'reset']
/** Durations of differing lengths, so that sorting them as text differs from sorting them as numbers. */
const SPREAD = [5, 9, 10, 100, 1000, 21]
const seedData = () => { const d = new Data(); d.restore({ V: { c: { a: env(1), b: env(1) }, _k: { u: env(1) } } }); return d }
const mkStore = (nb, data, lat) => hookedStore(nb.hub, data, async (m, args, go) => { W.now += lat.ms; if (lat.fail) throw new TypeError('store is down'); return go() })
const outcome = (r) => (r.ok ? { ok: r.val } : { err: r.err?.name, msg: r.err?.message, version: r.err?.version })

function quantileOk(p, q, xs) {
  if (!xs.includes(p)) return false
  return xs.filter((x) => x <= p).length >= q * xs.length && xs.filter((x) => x < p).length <= q * xs.length
}
/** Compare a snapshot with the calls made since the last reset. */
function judge(snap, calls, limit, conflicts, since) {
  let total = 0
  for (const m of METHODS) {
    const mine = calls.filter((c) => c.m === m), s = snap.byMethod[m], xs = mine.slice(-limit).map((c) => c.ms)
    total += mine.length
    if (s.count !== mine.length) return `${m}.count is ${s.count} after ${mine.length} calls`
    if (s.errors !== mine.filter((c) => !c.ok).length) return `${m}.errors is ${s.errors} after ${mine.filter((c) => !c.ok).length} failures`
    if (!xs.length) { if (s.p50 || s.p90 || s.p99 || s.max || s.avg) return `${m} has durations without a call`; continue }
    if (s.max !== Math.max(...xs)) return `${m}.max is ${s.max}, durations ${xs.slice(-12)}`
    if (Math.abs(s.avg - xs.reduce((a, b) => a + b, 0) / xs.length) > 0.5) return `${m}.avg is ${s.avg}, durations ${xs.slice(-12)}`
    for (const [k, q] of [['p50', 0.5], ['p90', 0.9], ['p99', 0.99]]) if (!quantileOk(s[k], q, xs)) return `${m}.${k} is ${s[k]}, durations ${xs.slice(-12)}`
  }
  if (snap.totalCalls !== total) return `totalCalls is ${snap.totalCalls} after ${total} calls`
  if (snap.casConflicts !== conflicts) return `casConflicts is ${snap.casConflicts} after ${conflicts} conflicts`
  if (snap.windowMs !== W.now - since) return `windowMs is ${snap.windowMs} after ${W.now - since} ms`
  if (Date.parse(snap.collectedAt) !== W.now) return `collectedAt is ${snap.collectedAt}`
  return null
}
async function unitMeter(u, ctx) {
  const { nb } = ctx
  for (const h of sequences(LETTERS.length, u.len)) {
    if (h[0] !== u.first) continue
    const names = [...Array(u.puts).fill('put'), ...(u.slowFirst ? ['slow'] : []), ...h.map((i) => LETTERS[i])]
    resetWorld(1, { tick: 0 })
    const lat = { ms: 0, fail: false }
    const data = seedData(), ref = seedData()
    const limit = u.sampleLimit ?? 1024
    const ev = [], deg = [], res = [], gone = []
    const boom = () => { throw new Error('a listener fails') }
    const { store, meter } = nb.meter.toMeter(mkStore(nb, data, lat), { degradedMs: LIMIT, ...(u.sampleLimit ? { sampleLimit: u.sampleLimit } : {}), onDegraded: (e) => { deg.push(e); if (u.boom) boom() }, onRestored: (e) => { res.push(e); if (u.boom) boom() } })
    if (u.boom) meter.subscribe(boom)
    const off = meter.subscribe((e) => gone.push(e)); off()
    meter.subscribe((e) => ev.push(e))
    const plain = mkStore(nb, ref, lat)
    let calls = [], conflicts = 0, since = W.now, status = 'ok'
    const expected = []
    ctx.exec(); ctx.sample(names.slice(u.puts).join(' '))
    for (const [i, l] of names.entries()) {
      ctx.trans()
      const how = () => (u.puts ? `${u.puts} puts, ` : '') + names.slice(u.puts, i + 1).join(' ')
      const bad = (k, what) => ctx.violation(`meter:${k}`, `${how()}: ${what}`, { u, names })
      if (l === 'reset') { meter.reset(); calls = []; conflicts = 0; since = W.now }
      else {
        const [m, args, ms, fail] = CALLS[l]
        lat.ms = ms; lat.fail = !!fail
        const got = await attempt(() => store[m](...structuredClone(args)))
        const t = W.now
        const want = await attempt(() => plain[m](...structuredClone(args)))
        W.now = t
        if (!same(outcome(got), outcome(want))) return bad('result', `${l} gives ${show(outcome(got))} through the meter, ${show(outcome(want))} without`)
        if (!got.ok && l === 'conflict' && !(got.err instanceof nb.hub.ConflictError)) return bad('result', `a conflict surfaces as ${got.err}`)
        calls.push({ m, ms, ok: want.ok }); if (!want.ok && want.err instanceof nb.hub.ConflictError) conflicts++
        const puts = calls.filter((c) => c.m === 'put')
        if (m === 'put' && puts.length >= 10) {
          const xs = puts.slice(-limit).map((c) => c.ms).sort((a, b) => a - b)
          const over = xs[Math.min(xs.length - 1, Math.floor(0.99 * xs.length))] > LIMIT
          if (over !== (status === 'degraded')) { status = over ? 'degraded' : 'ok'; expected.push(over ? 'degraded' : 'restored') }
        }
      }
      if (i < u.puts - 1) continue
      const snap = meter.snapshot()
      const why = judge(snap, calls, limit, conflicts, since)
      if (why) return bad('stats', why)
      if (snap.status !== status) return bad('status', `the status is ${snap.status}, the puts make it ${status}`)
      if (!same(ev.map((e) => e.type), expected)) return bad('events', `listeners saw ${ev.map((e) => e.type).join(' ') || 'nothing'}, expected ${expected.join(' ') || 'nothing'}`)
      if (deg.length !== expected.filter((e) => e === 'degraded').length || res.length !== expected.filter((e) => e === 'restored').length) return bad('events', `onDegraded ran ${deg.length} times, onRestored ${res.length}, expected ${expected}`)
      if (gone.length) return bad('events', 'an unsubscribed listener is still called')
    }
    ctx.state(canon([calls.length, status, conflicts, expected]))
    if (!same(data.snapshot(), ref.snapshot())) return ctx.violation('meter:contents', `${names.join(' ')}: the store differs from the one used without a meter`, { u, names })
    meter.close()
  }
}
/** Latencies of one method in every order, with as many samples kept as there are calls, one more or one fewer. */
async function unitSpread(u, ctx) {
  const { nb } = ctx
  for (const h of sequences(SPREAD.length, u.len)) for (const limit of [u.len - 1, u.len, u.len + 1]) {
    resetWorld(1, { tick: 0 })
    const lat = { ms: 0, fail: false }
    const { store, meter } = nb.meter.toMeter(mkStore(nb, seedData(), lat), { sampleLimit: limit })
    const since = W.now, calls = []
    ctx.exec()
    for (const i of h) { ctx.trans(); lat.ms = SPREAD[i]; await store.get('V', 'c', 'a'); calls.push({ m: 'get', ms: SPREAD[i], ok: true }); const why = judge(meter.snapshot(), calls, limit, 0, since); if (why) return ctx.violation('meter:spread', `gets of ${calls.map((c) => c.ms)} ms, ${limit} samples kept: ${why}`, { u, h, limit }) }
  }
}
/** Overlapping calls: each is timed by itself, in whatever order they end. */
async function unitOverlap(u, ctx) {
  const { nb } = ctx
  const ops = ['get', 'put', 'conflict', 'down', 'list']
  for (const [a, b, c, perm] of product(ops, ops, ops, [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]])) {
    resetWorld(1, { tick: 0 })
    const gates = []
    const data = seedData()
    const inner = hookedStore(nb.hub, data, (m, args, go) => new Promise((ok, no) => gates.push((fail) => { try { if (fail) throw new TypeError('store is down'); ok(go()) } catch (e) { no(e) } })))
    const { store, meter } = nb.meter.toMeter(inner)
    const since = W.now
    ctx.exec(); ctx.trans(3)
    const ls = [a, b, c], starts = [], rs = []
    for (const [i, l] of ls.entries()) { starts[i] = W.now; rs[i] = attempt(() => store[CALLS[l][0]](...CALLS[l][1])); await drain(); W.now += 10 ** i }
    const calls = []
    let conflicts = 0
    for (const i of perm) { W.now += 7; gates[i](ls[i] === 'down'); const r = await rs[i]; calls.push({ m: CALLS[ls[i]][0], ms: W.now - starts[i], ok: r.ok }); if (ls[i] === 'conflict' && !r.ok) conflicts++ }
    const why = judge(meter.snapshot(), calls, 1024, conflicts, since)
    if (why) return ctx.violation('meter:overlap', `${ls.join(' ∥ ')} ending in the order ${perm}: ${why}`, { u, ls, perm })
  }
}
/** Health checks of the store. */
const TICKS = ['ok', 'false', 'throw']
async function unitLive(u, ctx) {
  const { nb } = ctx
  const L = ['ok', 'no', 'err', 'slowputs', 'close']
  for (const h of sequences(L.length, u.len)) {
    resetWorld(1, { tick: 0 })
    const lat = { ms: 0, fail: false }
    const data = seedData()
    const inner = mkStore(nb, data, lat)
    let mode = 'ok', pings = 0
    const ping = { ping: async () => { pings++; if (mode === 'err') throw new Error('no route'); return mode === 'ok' } }
    const target = u.ping ? { ...inner, ...ping } : { ...inner, put: async (...a) => { if (mode !== 'ok' && a[1] === (u.coll ?? 'probe-liveness')) throw new Error('no route'); return inner.put(...a) } }
    delete target[u.ping ? '-' : 'ping']
    const ev = []
    const { store, meter } = nb.meter.toMeter(target, { degradedMs: LIMIT, liveness: { interval: 1000, ...(u.vault ? { vault: u.vault } : {}), ...(u.coll ? { collection: u.coll } : {}) }, onDegraded: (e) => ev.push('onDegraded'), onRestored: () => ev.push('onRestored') })
    meter.subscribe((e) => ev.push(e.status))
    let status = 'ok', open = true, want = []
    ctx.exec()
    const names = []
    for (const i of h) {
      const l = L[i]; names.push(l); ctx.trans()
      const bad = (k, what) => ctx.violation(`live:${k}`, `[${u.ping ? 'ping' : 'write'}] ${names.join(' ')}: ${what}`, { u, h })
      if (l === 'close') { meter.close(); open = false }
      else if (l === 'slowputs') {
        lat.ms = LIMIT + 1; for (let k = 0; k < 10; k++) await store.put('V', 'w', 'k', env(1)); lat.ms = 0
        if (status === 'ok') { status = 'degraded'; if (open) want.push('degraded'); want.push('onDegraded') }
      } else {
        mode = l
        await advance(1000); await drain()
        if (open) {
          if (l === 'ok' && status === 'unreachable') { status = 'ok'; want.push('ok', 'onRestored') }
          if (l !== 'ok' && status !== 'unreachable') { status = 'unreachable'; want.push('unreachable') }
        }
      }
      if (meter.snapshot().status !== status) return bad('status', `the status is ${meter.snapshot().status} instead of ${status}`)
      if (!same(ev, want)) return bad('events', `events ${ev.join(' ')}, expected ${want.join(' ')}`)
    }
    const s = meter.snapshot()
    if (s.byMethod.put.count !== 10 * names.filter((n) => n === 'slowputs').length || s.byMethod.delete.count) return ctx.violation('live:counted', `${names.join(' ')}: health checks are counted as traffic: ${show(s.byMethod.put)}`, { u, h })
    const rest = data.snapshot()
    for (const [v, c] of [[u.vault ?? 'probe-vault', u.coll ?? 'probe-liveness']]) if (data.ids(v, c).length) return ctx.violation('live:left', `${names.join(' ')}: a health check left a record`, { u, h, rest })
    meter.close()
  }
}
/** Optional methods of the inner store stay reachable. */
async function unitShape(u, ctx) {
  const { nb } = ctx
  const OPT = ['listPage', 'listSince', 'listVaults', 'ping', 'tx']
  for (const flags of product(...OPT.map(() => [false, true]))) {
    ctx.exec(); ctx.trans()
    const data = seedData(), inner = { ...plainStore(nb.hub, data) }
    OPT.forEach((m, i) => { if (flags[i]) inner[m] = async (...a) => [m, ...a]; else delete inner[m] })
    const { store } = nb.meter.toMeter(inner)
    for (const [i, m] of OPT.entries()) {
      if ((typeof store[m] === 'function') !== flags[i]) return ctx.violation('meter:optional', `the store ${flags[i] ? 'has' : 'lacks'} ${m}, the metered one does not agree`, { u, flags })
      if (flags[i] && !same(await store[m]('V', 1), [m, 'V', 1])) return ctx.violation('meter:optional', `${m} behaves differently through the meter`, { u, flags })
    }
  }
}

// ── probe ──────────────────────────────────────────────────────────────────
async function unitProbe(u, ctx) {
  const { nb } = ctx
  const opts = [...product([undefined, 1, 3], [undefined, 1, 4], [undefined, 5], [undefined, 0, 2], [undefined, 'other'], [null, true, false])]
  for (const [writeSampleSize, casConcurrency, hydrationRecords, syncBatchSize, vault, casAtomic] of opts) for (const kind of ['atomic', 'blind', 'two', 'slowput', 'slowload', 'noping', 'pingfails']) {
    resetWorld(1, { tick: 0 })
    const data = seedData()
    const before = canon(data.snapshot())
    const inner = hookedStore(nb.hub, data, async (m, args, go) => { W.now += (m === 'put' && kind === 'slowput') ? 300 : (m === 'loadAll' && kind === 'slowload') ? 501 : 0; return go() }, { name: 'st' })
    const store = { ...inner, ping: async () => { if (kind === 'pingfails') throw new Error('x'); return true } }
    if (kind === 'noping') delete store.ping
    const vaults = new Set()
    let loaded = null
    { const f = store.loadAll; store.loadAll = async (...a) => { const r = await f(...a); loaded = Object.values(r).reduce((n, c) => n + Object.keys(c).length, 0); return r } }
    for (const m of METHODS) { const f = store[m]; store[m] = (...a) => { vaults.add(a[0]); return f(...a) } }
    let free = 1
    if (kind === 'two') { const f = store.put; store.put = (v, c, id, e, x) => (x === undefined ? f(v, c, id, e) : f(v, c, id, e, x).catch((err) => { if (free-- > 0) return undefined; throw err })) }
    if (kind === 'blind') store.put = (v, c, id, e) => inner.put(v, c, id, e)
    const o = Object.fromEntries(Object.entries({ writeSampleSize, casConcurrency, hydrationRecords, syncBatchSize, vault, capabilities: casAtomic === null ? undefined : { casAtomic } }).filter(([, x]) => x !== undefined))
    ctx.exec(); ctx.trans()
    const r = await attempt(() => nb.probe.runStoreProbe(store, o))
    const bad = (k, what) => ctx.violation(`probe:${k}`, `[${kind}] runStoreProbe(${canon(o)}): ${what}`, { u, o, kind })
    if (!r.ok) return bad('error', `fails with ${r.err?.stack}`)
    const p = r.val
    const n = casConcurrency ?? 10, blind = kind === 'blind'
    const wins = blind ? n : kind === 'two' ? Math.min(2, n) : 1
    if (p.cas.concurrent !== n || p.cas.successes !== wins || p.cas.rejections !== n - wins) return bad('cas', `reports ${show(p.cas)}`)
    if (p.cas.expected !== (casAtomic === false ? 'multiple-ok' : 'exactly-one')) return bad('cas', `reports ${show(p.cas)}`)
    const slow = kind === 'slowput', ms = slow ? 300 : 0
    if (p.write.serial.count !== (writeSampleSize ?? 20) || p.write.serial.p50 !== ms || p.write.serial.p99 !== ms || p.write.serial.max !== ms || p.write.coldStart !== ms) return bad('write', `reports ${show(p.write)}`)
    const bs = syncBatchSize ?? 50
    if (p.sync.singlePushMs !== ms || p.sync.batchPushMs !== ms * bs || p.sync.batchSize !== bs) return bad('sync', `reports ${show(p.sync)}`)
    if (p.hydration.records < (hydrationRecords ?? 100) || p.hydration.records !== loaded || p.hydration.loadAllMs !== (kind === 'slowload' ? 501 : 0) || p.hydration.perRecordBytes !== Math.round(p.hydration.totalBytes / p.hydration.records)) return bad('hydration', `reports ${show(p.hydration)}`)
    if (p.network.pingSupported !== (kind !== 'noping') || p.network.pingMs !== (kind === 'noping' || kind === 'pingfails' ? null : 0)) return bad('network', `reports ${show(p.network)}`)
    const codes = []
    if (slow) codes.push('slow-write-p99')
    if (kind === 'slowload') codes.push('slow-hydration')
    if (slow) codes.push('slow-sync')
    const mismatch = casAtomic === true && wins > 1
    if (mismatch) codes.push('cas-mismatch')
    if (casAtomic === false) codes.push('cas-unsupported')
    if (kind === 'noping') codes.push('no-ping')
    if (!same(p.suitability.risks.map((x) => x.code).sort(), codes.sort())) return bad('risks', `reports the risks ${p.suitability.risks.map((x) => x.code)}, expected ${codes}`)
    if (p.suitability.risks.some((x) => (x.severity === 'error') !== (x.code === 'cas-mismatch'))) return bad('risks', `severities ${show(p.suitability.risks)}`)
    const roles = mismatch ? [] : [...(slow ? [] : ['primary']), ...(casAtomic === false ? [] : ['sync-peer']), 'backup', 'archive']
    if (!same([...p.suitability.recommended].sort(), roles.sort())) return bad('roles', `recommends ${p.suitability.recommended}, expected ${roles}`)
    if (vault && !same([...vaults], [vault])) return bad('vault', `works in the vaults ${[...vaults]}`)
    if (p.store !== (store.name ?? 'unnamed')) return bad('name', `names ${p.store}`)
    if (canon(data.snapshot()) !== before) return bad('left', 'the probe left or changed records')
  }
}
/** Two probes of one store at the same time, and limits met exactly. */
async function unitProbe2(u, ctx) {
  const { nb } = ctx
  for (const [delay, kind, more] of product([0, 1, 5], ['same', 'late'], Array.from({ length: 24 }, (_, i) => i))) {
    resetWorld(1, { tick: 0 })
    const data = seedData(), before = canon(data.snapshot())
    const store = hookedStore(nb.hub, data, async (m, args, go) => { for (let i = 0; i < delay; i++) await null; return go() }, { name: 'st' })
    ctx.exec(); ctx.trans()
    const small = { writeSampleSize: 2, hydrationRecords: 5, syncBatchSize: 2, capabilities: { casAtomic: true } }
    const a = nb.probe.runStoreProbe(store, small)
    if (kind === 'late') { for (let i = 0; i < 40; i++) await null; W.now += 1 }
    const rs = await Promise.all([a, nb.probe.runStoreProbe(store, { ...small, writeSampleSize: more })])
    for (const [i, r] of rs.entries()) if (r.cas.successes !== 1 || r.suitability.risks.some((x) => x.severity === 'error')) return ctx.violation('probe:together', `two probes at once (${kind}, ${delay}, ${more}): probe ${i} reports ${show(r.cas)} and ${show(r.suitability.risks)}`, { u, delay, kind })
    if (canon(data.snapshot()) !== before) return ctx.violation('probe:together', `two probes at once (${kind}, ${delay}) leave records`, { u, delay, kind })
  }
  for (const [w, lim] of product([0, 10, 100, 101], [undefined, 0, 10, 100])) {
    resetWorld(1, { tick: 0 })
    const store = hookedStore(nb.hub, seedData(), async (m, args, go) => { if (m === 'put' || m === 'loadAll') W.now += w; return go() })
    const r = await nb.probe.runStoreProbe(store, { writeSampleSize: 2, hydrationRecords: 5, syncBatchSize: 1, ...(lim === undefined ? {} : { slowWriteMs: lim, slowSyncMs: lim, slowHydrationMs: lim }) })
    ctx.exec(); ctx.trans()
    const codes = r.suitability.risks.map((x) => x.code)
    for (const [code, d] of [['slow-write-p99', 100], ['slow-sync', 250], ['slow-hydration', 500]]) if (codes.includes(code) !== (w > (lim ?? d))) return ctx.violation('probe:limit', `calls of ${w} ms with the limit ${lim ?? d}: ${code} is ${codes.includes(code) ? '' : 'not '}reported`, { u, w, lim })
  }
}
async function unitTopology(u, ctx) {
  const { nb } = ctx
  const ROLES = ['sync-peer', 'backup', 'archive']
  const NAMES = ['memory', 'Google-Drive', 'webdav', 'git', 'my-bundle', 'x']
  for (const [role, name, pull, users, cas, label, slowP] of product(ROLES, NAMES, [undefined, false, true], [undefined, 1, 2], [null, true, false], [undefined, 'lbl'], [0, 20, 21])) {
    resetWorld(1, { tick: 0 })
    const d1 = seedData(), d2 = seedData(), before = canon(d1.snapshot())
    const st = (d, n, ms) => hookedStore(nb.hub, d, async (m, args, go) => { if (m === 'put') W.now += ms; return go() }, { name: n })
    ctx.exec(); ctx.trans()
    const t = await nb.probe.probeTopology({ store: st(d1, 'prim', slowP), sync: [{ store: st(d2, name, 10), role, ...(label ? { label } : {}), ...(pull === undefined ? {} : { hasPullPolicy: pull }) }], ...(users ? { expectedUsers: users } : {}), ...(cas === null ? {} : { capabilities: { casAtomic: cas } }), writeSampleSize: 2, casConcurrency: 2, hydrationRecords: 1, syncBatchSize: 0 })
    const want = []
    if (role === 'sync-peer' && /drive|webdav|git|bundle/i.test(name)) want.push('bundle-as-sync-peer')
    if (role === 'sync-peer' && (users ?? 1) > 1 && cas === false) want.push('no-atomic-cas-sync-peer')
    if (role === 'sync-peer' && slowP > 20) want.push('primary-slower-than-peer')
    if (role === 'archive' && pull === true) want.push('archive-pull-configured')
    const bad = (what) => ctx.violation('topology', `${role} ${name} pull=${pull} users=${users} casAtomic=${cas} primary ${slowP} ms: ${what}`, { u })
    if (!same(t.topology.map((x) => x.code).sort(), want.sort())) return bad(`reports ${t.topology.map((x) => x.code)}, expected ${want}`)
    const lb = label ?? name
    if (t.targets.length !== 1 || t.targets[0].label !== lb || t.targets[0].role !== role || t.targets[0].store !== name || t.topology.some((x) => x.target !== lb)) return bad(`names ${show(t.targets.map((x) => [x.label, x.role, x.store]))}`)
    if (t.recommended !== !want.some((c) => c === 'no-atomic-cas-sync-peer' || c === 'archive-pull-configured')) return bad(`recommended is ${t.recommended}`)
    if (canon(d1.snapshot()) !== before || canon(d2.snapshot()) !== before) return bad('records are left behind')
  }
}
const RUN = { meter: unitMeter, spread: unitSpread, overlap: unitOverlap, live: unitLive, shape: unitShape, probe: unitProbe, probe2: unitProbe2, topology: unitTopology }
export default {
  level: 'model_checking',
  technique: 'stateless exploration of the real code: all histories of store calls, latencies, failures and health checks to a depth, all completion orders of three overlapping calls, all option combinations of the probe',
  rule: 'results and contents equal those of the bare store; counts, durations, verdicts and events equal those computed from the calls made',
  bounds: (tier) => `histories of ${tier === 'thorough' ? 4 : 3} of ${LETTERS.length} letters after 0, 8, 9 or 100 puts; health-check histories of 5 events; 7 kinds of store × 216 option sets; 972 topologies`,
  assumptions: ['durations are measured with the clock of the runtime (milliseconds)'],
  modules: { ...HUB, meter: '@noy-db/to-meter', probe: '@noy-db/to-probe' },
  units(tier) {
    const out = []
    const len = tier === 'thorough' ? 4 : 3
    for (let first = 0; first < LETTERS.length; first++) {
      out.push({ t: 'meter', puts: 0, len, first }, { t: 'meter', puts: 8, len, first, boom: true }, { t: 'meter', puts: 9, len, first, sampleLimit: 4, slowFirst: true }, { t: 'meter', puts: 9, len, first, sampleLimit: 10 }, { t: 'meter', puts: 100, len: len - 1, first, slowFirst: true })
    }
    out.push({ t: 'spread', len: 4 }, { t: 'spread', len: 5 }, { t: 'overlap' }, { t: 'shape' }, { t: 'probe' }, { t: 'probe2' }, { t: 'topology' })
    for (const ping of [true, false]) out.push({ t: 'live', ping, len: 5 })
    out.push({ t: 'live', ping: false, len: 4, vault: 'hv', coll: 'hc' })
    return out
  },
  async runUnit(u, ctx) { await (u.t === 'live' || u.t === 'overlap' ? RUN[u.t](u, ctx) : settle(() => RUN[u.t](u, ctx))) },
}
