// P26 — consent audit: one entry per access inside a scope, none outside, complete, private and filterable.
import { resetWorld, settle, W } from '../lib/world.mjs'
import { exploreAll, canon, sequences, product } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName } from '../lib/noy.mjs'

const T0 = Date.parse('2026-04-10T08:00:00.000Z')
const EXCEPT = { except: ['sync', 'session', 'shadow', 'i18n', 'aggregate'] }
const MODES = { eager: {}, lazy: { prefetch: false, cache: { maxRecords: 1 } }, lww: { crdt: 'lww-map' } }
const MARK = 'SECRETMARK'
const X = { purpose: `${MARK}-x`, consentHash: `${MARK}-hx` }, Y = { purpose: 'review', consentHash: 'hy' }
const need = { '~standard': { version: 1, vendor: 't', validate: (x) => (x && x.n < 0 ? { issues: [{ message: 'negative' }] } : { value: x }) } }

async function open(nb, data, mode, opts = {}) {
  const db = await openDb(nb, opts.store ?? plainStore(nb.hub, data), { ...EXCEPT, ...opts.db })
  const v = await db.openVault('V')
  return { db, v, c: v.collection('c', { ...MODES[mode], schema: need }), k: v.collection('kid', { ...MODES[mode], refs: { of: nb.hub.ref('par', 'cascade') } }), p: v.collection('par', MODES[mode]) }
}
/** Accesses: fn(S, M) performs it; model(M) returns the expected entries [op, collection, id] and updates M. */
const OPS = {
  get: { run: (S) => S.c.get('a'), model: (M) => (M.has('a') ? [['get', 'c', 'a']] : []) },
  getB: { run: (S) => S.c.get('b'), model: (M) => (M.has('b') ? [['get', 'c', 'b']] : []) },
  put: { run: (S) => S.c.put('a', { n: 1 }), model: (M) => { M.add('a'); return [['put', 'c', 'a']] } },
  delete: { run: (S) => S.c.delete('a'), model: (M) => { M.delete('a'); return [['delete', 'c', 'a']] } },
  putMany: { run: (S) => S.c.putMany([['a', { n: 1 }], ['b', { n: 2 }]]), model: (M) => { M.add('a'); M.add('b'); return [['put', 'c', 'a'], ['put', 'c', 'b']] } },
  atomic: { run: (S) => S.c.putMany([['a', { n: 1 }], ['b', { n: 2 }]], { atomic: true }), model: (M) => { M.add('a'); M.add('b'); return [['put', 'c', 'a'], ['put', 'c', 'b']] } },
  getMany: { run: (S) => S.c.getMany(['a', 'b', 'zz']), model: (M) => ['a', 'b'].filter((i) => M.has(i)).map((i) => ['get', 'c', i]) },
  deleteMany: { run: (S) => S.c.deleteMany(['a', 'b']), model: (M) => { M.delete('a'); M.delete('b'); return [['delete', 'c', 'a'], ['delete', 'c', 'b']] } },
  tx: { run: (S) => S.db.transaction(async (t) => { t.vault('V').collection('c').put('b', { n: 3 }) }), model: (M) => { M.add('b'); return [['put', 'c', 'b']] } },
  refused: { run: (S) => attempt(() => S.c.put('a', { n: -1 })), model: () => [] },
  badId: { run: (S) => S.c.get('zz'), model: () => [] },
  cascade: { run: (S) => S.p.delete('p'), model: (M) => (M.has('p') ? (M.delete('p'), [['delete', 'kid', 'k'], ['delete', 'par', 'p']]) : [['delete', 'par', 'p']]) },
}
const OPN = Object.keys(OPS)
/** Scope steps. */
const STEPS = [...OPN.map((o) => ['op', o]), ['in', 'X'], ['in', 'Y'], ['out'], ['throw']]
const SCOPES = { X, Y }

async function history(ctx, u, hist) {
  const { nb } = ctx
  ctx.exec(); resetWorld(1, { tick: 1 }); W.now = T0
  const data = new Data(), db = { encrypt: u.encrypt }
  let S = await open(nb, data, u.mode, { db })
  await S.c.put('a', { n: 0 }); await S.p.put('p', { n: 0 }); await S.k.put('k', { of: 'p' })
  if (u.reopen) S = await open(nb, data, u.mode, { db })
  const M = new Set(['a', 'p']), want = []
  const label = `${u.mode}${u.encrypt ? '' : ', plain'}${u.reopen ? ', reopened' : ''}: ${hist.map((h) => h.join(' ')).join(', ')}`
  const bad = (k, m) => ctx.violation(`hist:${k}`, `${label}: ${m}`)
  let i = 0
  const body = async (scope, depth) => {
    while (i < hist.length) {
      const [k, a] = hist[i++]
      ctx.trans()
      if (k === 'op') {
        await OPS[a].run(S)
        const e = OPS[a].model(M)
        if (scope) { for (const [op, c, id] of e) want.push({ op, collection: c, recordId: id, purpose: scope.purpose, consentHash: scope.consentHash, actor: 'owner' }) }
      } else if (k === 'in') {
        const token = {}
        const r = await attempt(() => S.v.withConsent(SCOPES[a], async () => { await body(SCOPES[a], depth + 1); return token }))
        if (r.ok ? r.val !== token : r.err?.message !== 'thrown') bad('result', 'withConsent does not hand on the result of its function')
      } else if (depth) { if (k === 'throw') throw new Error('thrown'); return }
    }
  }
  const r = await attempt(() => body(null, 0))
  if (!r.ok) { bad('fails', `fails with ${errName(r)} ${r.err?.message}`); return }
  for (const [who, s] of [['this session', S], ['a new session', await open(nb, data, u.mode, { db })]]) {
    const log = await s.v.consentAudit()
    const got = log.map(({ op, collection, recordId, purpose, consentHash, actor }) => ({ op, collection, recordId, purpose, consentHash, actor }))
    if (canon(got) !== canon(want)) { bad('log', `${who} reads ${got.map((e) => `${e.op} ${e.collection}/${e.recordId} ${e.purpose}`).join('; ') || 'nothing'}; expected ${want.map((e) => `${e.op} ${e.collection}/${e.recordId} ${e.purpose}`).join('; ') || 'nothing'}`); break }
    if (new Set(log.map((e) => e.id)).size !== log.length) bad('ids', 'entry ids repeat')
    for (const e of log) if (!(Date.parse(e.timestamp) >= T0 && Date.parse(e.timestamp) <= W.now)) bad('time', `entry time ${e.timestamp}`)
  }
  if (u.encrypt) {
    const audit = canon(data.snapshot().V?._consent_audit ?? {})
    for (const s of [MARK, 'review', '"hy"', '"recordId"', 'owner']) if (audit.includes(s)) bad('leak', `the stored entries show ${s}`)
  }
  ctx.state([u.mode, [...M].sort(), want.length])
}

/** Two users and two collections; every filter. */
async function filters(ctx) {
  const { nb } = ctx
  resetWorld(1); W.now = T0
  const data = new Data(), S = await open(nb, data, 'eager'), all = []
  for (const id of ['a', 'b']) { await S.c.put(id, { n: 1 }); await S.p.put(id, { n: 1 }) }
  await S.db.grant('V', { userId: 'bob', displayName: 'b', role: 'operator', passphrase: 'bob secret pass', permissions: { c: 'rw', par: 'rw' } })
  await S.db.grant('V', { userId: 'bo', displayName: 'v', role: 'viewer', passphrase: 'vic secret pass' })
  const B = await open(nb, data, 'eager', { db: { user: 'bob', secret: 'bob secret pass' } })
  const V = await open(nb, data, 'eager', { db: { user: 'bo', secret: 'vic secret pass' } })
  for (const [who, s] of [['owner', S], ['bob', B], ['bo', V]]) for (const sc of [X, Y]) for (const [cn, c] of [['c', s.c], ['par', s.p]]) for (const id of ['a', 'b']) {
    W.now += 1001
    await s.v.withConsent(sc, () => c.get(id))
    all.push({ actor: who, purpose: sc.purpose, consentHash: sc.consentHash, collection: cn, recordId: id, op: 'get', timestamp: new Date(W.now).toISOString() })
  }
  const times = [undefined, all[0].timestamp, all[7].timestamp, all[23].timestamp, '2027-01-01T00:00:00.000Z', new Date(Date.parse(all[7].timestamp) + 1).toISOString()]
  for (const since of times) for (const until of times) for (const collection of [undefined, 'c', 'par', 'pa']) for (const actor of [undefined, 'owner', 'bob', 'bo', 'b']) for (const purpose of [undefined, X.purpose, 'review', 'none']) for (const [who, s] of [['owner', S], ['bob', B], ['bo', V]]) {
    ctx.exec(); ctx.trans()
    const f = Object.fromEntries(Object.entries({ since, until, collection, actor, purpose }).filter(([, x]) => x !== undefined))
    const want = all.filter((e) => (!since || e.timestamp >= since) && (!until || e.timestamp <= until) && (!collection || e.collection === collection) && (!actor || e.actor === actor) && (!purpose || e.purpose === purpose))
    const r = await attempt(() => s.v.consentAudit(f))
    if (!r.ok) { ctx.violation(`filter:${who}`, `${who} reads the log with ${JSON.stringify(f)}: ${errName(r)}`); continue }
    const got = r.val.map(({ id, ...e }) => e)
    if (canon(got) !== canon(want)) ctx.violation(`filter:${who}`, `${who} with ${JSON.stringify(f)} gets ${got.length} entries, expected ${want.length}`)
  }
  // a long log is complete and in order
  for (let i = 0; i < 230; i++) { W.now += 1; await S.v.withConsent(X, () => S.c.get(i % 2 ? 'a' : 'b')); all.push({ actor: 'owner', purpose: X.purpose, consentHash: X.consentHash, collection: 'c', recordId: i % 2 ? 'a' : 'b', op: 'get', timestamp: new Date(W.now).toISOString() }); ctx.trans() }
  for (const f of [{}, { actor: 'owner' }, { actor: 'bob' }, { purpose: 'review' }, { since: all[30].timestamp }, { until: all[200].timestamp }]) {
    ctx.exec()
    const want = all.filter((e) => (!f.since || e.timestamp >= f.since) && (!f.until || e.timestamp <= f.until) && (!f.actor || e.actor === f.actor) && (!f.purpose || e.purpose === f.purpose))
    const got = (await S.v.consentAudit(f)).map(({ id, ...e }) => e)
    if (canon(got) !== canon(want)) ctx.violation('filter:long', `a log of ${all.length} entries read with ${JSON.stringify(f)} gives ${got.length} entries, expected ${want.length}`)
  }
}

/** Every failing store call of an access in a scope: an access that succeeds is recorded. */
async function faults(u, ctx) {
  const { nb } = ctx
  for (let k = 0; ; k++) for (const kind of ['before', 'after']) {
    ctx.exec(); ctx.trans(); resetWorld(1, { tick: 1 }); W.now = T0
    const data = new Data()
    { const S = await open(nb, data, u.mode); await S.c.put('a', { n: 0 }); await S.c.put('b', { n: 0 }); await S.p.put('p', { n: 0 }); await S.k.put('k', { of: 'p' }); if (u.warm) await S.v.withConsent(Y, () => S.c.get('a')) }
    let n = -1, hit = null, armed = false
    const store = hookedStore(nb.hub, data, async (m, args, doIt) => {
      if (armed && ++n === k) { hit = `${m} ${args[1] ?? ''}`; if (kind === 'after') await doIt(); throw new Error('store down') }
      return doIt()
    })
    const S = await open(nb, data, u.mode, { store })
    if (u.warm) { await S.c.get('b'); await S.c.get('a') }
    armed = true
    const r = await settle(() => attempt(() => S.v.withConsent(X, () => OPS[u.op].run(S))))
    armed = false
    if (!hit) { if (kind === 'after') return; continue }
    const want = OPS[u.op].model(new Set(['a', 'b', 'p']))
    const log = (await (await open(nb, data, u.mode)).v.consentAudit({ purpose: X.purpose })).map((e) => canon([e.op, e.collection, e.recordId]))
    const bad = (m) => ctx.violation(`fault:${u.op}:${hit}`, `${u.mode}, ${u.op}, ${hit} fails ${kind} taking effect: ${m}`)
    const full = r.ok && (r.val?.ok !== false) && !(r.val?.failures?.length)
    if (full) { for (const w of want) if (!log.includes(canon(w))) bad(`it succeeds and ${w.join(' ')} is not recorded`) }
    else if (r.ok && r.val?.success) for (const id of r.val.success) if (!log.some((e) => e.includes(`"${id}"`))) bad(`the access to ${id} succeeds and is not recorded`)
    for (const e of log) if (!want.some((w) => canon(w) === e)) bad(`an access that did not happen is recorded: ${e}`)
    // the scope ended with the failure
    const before = (await S.v.consentAudit()).length
    await S.c.get('b')
    if ((await S.v.consentAudit()).length !== before) bad('the scope stays open after the failure')
  }
}

/** Overlapping accesses in one scope. */
async function races(u, ctx) {
  const { nb } = ctx
  resetWorld(1, { tick: 1 }); W.now = T0
  const base = new Data()
  { const S = await open(nb, base, u.mode); await S.c.put('a', { n: 0 }); await S.c.put('b', { n: 0 }); if (u.warm) await S.v.withConsent(Y, () => S.c.get('a')) }
  const { complete } = await exploreAll(async (ch) => {
    ctx.exec(); resetWorld(1, { tick: 1 }); W.now = T0 + 1e6
    const data = base.clone(), sched = new Sched(nb.hub, ch, { mode: 'reply', preempt: u.preempt })
    const plain = plainStore(nb.hub, data), slow = sched.store(data, 's')
    let on = false
    const store = new Proxy(plain, { get: (t, k) => (typeof t[k] === 'function' ? (...a) => (on ? slow : plain)[k](...a) : t[k]) })
    const S = await settle(() => open(nb, data, u.mode, { store }))
    await settle(() => S.c.get('a'))
    on = true
    let release; const gate = new Promise((r) => { release = r })
    const scope = S.v.withConsent(X, () => gate)
    const tasks = await sched.run(u.ops.map((o, i) => [`t${i}`, () => OPS[o].run(S)]))
    on = false
    release(); await settle(() => scope)
    ctx.trans(sched.transitions)
    const bad = (m) => ctx.violation(`race:${u.ops.join('|')}`, `${u.mode}: ${u.ops.join(' with ')}: ${m}`, { trace: sched.trace })
    for (const t of tasks) if (!t.ok) bad(`fails: ${t.err}`)
    const log = (await settle(() => S.v.consentAudit({ purpose: X.purpose }))).map((e) => canon([e.op, e.collection, e.recordId])).sort()
    const possible = u.ops.flatMap((o) => OPS[o].model(new Set(['a', 'b', 'p']))).map(canon).sort()
    // a read that a racing delete overtakes finds nothing and needs no entry
    const must = u.ops.some((o) => o.startsWith('delete')) ? possible.filter((e) => !e.startsWith('["get"')) : possible
    const missing = must.filter((e, i) => log.filter((x) => x === e).length < must.slice(0, i + 1).filter((x) => x === e).length)
    const extra = log.filter((e, i) => possible.filter((x) => x === e).length < log.slice(0, i + 1).filter((x) => x === e).length)
    if (missing.length || extra.length) bad(`recorded ${log.join(' ')}, expected ${possible.join(' ')}`)
    await settle(() => S.c.get('b'))
    if ((await settle(() => S.v.consentAudit({ purpose: X.purpose }))).length !== log.length) bad('the scope stays open')
  }, { maxExec: 40000 })
  if (!complete) ctx.capped('race schedules')
}
const RACES = [['get', 'put'], ['put', 'put'], ['put', 'delete'], ['getB', 'get'], ['putMany', 'get'], ['get', 'delete'], ['put', 'getB', 'get']]

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of histories of nested scopes and accesses against a list model, of filter combinations, of failing store calls, and of the completion orders of overlapping accesses',
  rule: 'the audit log lists exactly the accesses made inside consent scopes',
  modules: HUB,
  bounds: (t) => `all histories of ${t === 'quick' ? '3 steps inside a scope and of 3 steps from the start' : '4 steps inside a scope and of 4 steps from the start'}, ${OPN.length} accesses and 4 scope steps, x 3 collection modes x encryption; all combinations of filter values; every failing store call; all orders of 2 and 3 overlapping accesses with ${t === 'quick' ? 2 : 4} preemptions`,
  assumptions: ['one scope at a time per vault instance (documented)', 'accesses are awaited inside their scope', 'list, query, scan, history and attachment reads write no entries and are not claimed'],
  units(tier) {
    const q = tier === 'quick', out = []
    for (const mode of Object.keys(MODES)) for (const encrypt of [true, false]) for (let f = 0; f < STEPS.length; f++) {
      if (!encrypt && mode !== 'eager') continue
      out.push({ kind: 'hist', mode, encrypt, f, len: q ? 2 : 3, reopen: (f & 1) === 1 })
      out.push({ kind: 'pre', mode, encrypt, f, len: q ? 3 : 4, reopen: (f & 1) === 0 })
    }
    out.push({ kind: 'filters' })
    for (const mode of Object.keys(MODES)) for (const op of OPN.filter((o) => o !== 'refused' && o !== 'badId')) for (const warm of [false, true]) out.push({ kind: 'fault', mode, op, warm })
    for (const mode of ['eager', 'lazy']) for (const ops of RACES) for (const warm of [false, true]) out.push({ kind: 'race', mode, ops, warm, preempt: q ? 2 : 4 })
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'filters') return filters(ctx)
    if (u.kind === 'fault') return faults(u, ctx)
    if (u.kind === 'race') return races(u, ctx)
    for (const rest of sequences(STEPS.length, u.len - (u.kind === 'pre' ? 1 : 0))) {
      const tail = rest.map((i) => STEPS[i])
      await history(ctx, u, u.kind === 'pre' ? [STEPS[u.f], ...tail] : [['in', 'X'], STEPS[u.f], ...tail, ['op', 'put']].slice(0, u.len + 3))
    }
  },
}
void product
