// P25 — closed accounting periods seal exactly their records, in every write path, for everyone, from the close on.
import { createHash } from 'node:crypto'
import { resetWorld, settle, W } from '../lib/world.mjs'
import { exploreAll, canon, same, sequences } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'

const T0 = Date.parse('2026-04-10T08:00:00.000Z')
const EXCEPT = { except: ['sync', 'session', 'shadow', 'i18n', 'aggregate'] }
/** Values of the date field. */
const DATES = {
  none: () => undefined, before: () => '2026-01-15', last: () => '2026-03-31', lastNoon: () => '2026-03-31T12:00:00.000Z',
  after: () => '2026-04-01', dateIn: () => new Date('2026-02-01T00:00:00.000Z'), number: () => 5, later: () => '2026-07-01T00:00:00.000Z',
}
const DN = Object.keys(DATES)
/** Sets of periods: [endDate, dateField?]; 'now' is the moment of closing. */
const SETS = {
  q1: [['2026-03-31', 'd']],
  q1ts: [['2026-03-31T10:00:00.000Z', 'd']],
  other: [['2026-03-31', 'e']],
  two: [['2026-03-31', 'd'], ['2026-06-30', 'd']],
  twoRev: [['2026-06-30', 'd'], ['2026-03-31', 'd']],
  written: [['now']],
  day: [['2026-04-10']],
  past: [['2026-04-09T00:00:00.000Z']],
  mixed: [['2026-03-31', 'e'], ['now']],
}
const rec = (dn, n) => { const d = DATES[dn](); return d === undefined ? { n } : { n, d } }
const stored = (r) => JSON.parse(JSON.stringify(r))
const at = (v, end) => v.slice(0, end.length) <= end
/** The rule of the property. */
function sealed(periods, existing, incoming) {
  return periods.some((p) => {
    if (!p.dateField) return !!existing && at(existing.ts, p.endDate)
    return [existing?.rec, incoming].some((r) => { const v = r && stored(r)[p.dateField]; return typeof v === 'string' && at(v, p.endDate) })
  })
}
const MODES = {
  eager: {}, lazy: { prefetch: false, cache: { maxRecords: 10 } }, lww: { crdt: 'lww-map' },
  schema: { schema: { '~standard': { version: 1, vendor: 't', validate: (x) => ({ value: x }) } } },
}
const lazyOf = (m) => m === 'lazy'
/** Write paths: name → fn(v, coll, id, record). put-like paths take a record, delete-like none. */
const PATHS = {
  put: (v, c, id, r) => c.put(id, r),
  putMany: async (v, c, id, r) => { const x = await c.putMany([['zz', { n: 9, d: '2027-01-01' }], [id, r]]); if (x.failures?.length) throw x.failures[0].error },
  atomic: async (v, c, id, r) => { const x = await c.putMany([['zz', { n: 9, d: '2027-01-01' }], [id, r]], { atomic: true }); if (x.failures?.length) throw x.failures[0].error },
  tx: (v, c, id, r, db) => db.transaction(async (t) => { t.vault('V').collection('c').put('zz', { n: 9, d: '2027-01-01' }); t.vault('V').collection('c').put(id, r) }),
  delete: (v, c, id) => c.delete(id),
  deleteMany: async (v, c, id) => { const x = await c.deleteMany([id]); if (x.failures?.length) throw x.failures[0].error },
  txDelete: (v, c, id, r, db) => db.transaction(async (t) => { t.vault('V').collection('c').delete(id) }),
  cascade: (v) => v.collection('parent').delete('p'),
}
const DELETES = ['delete', 'deleteMany', 'txDelete', 'cascade']

async function open(nb, data, mode, opts = {}) {
  const db = await openDb(nb, opts.store ?? plainStore(nb.hub, data), { ...EXCEPT, ...opts.db })
  const v = await db.openVault('V')
  const c = v.collection('c', { ...MODES[mode], ...(opts.refs ? { refs: { parent: nb.hub.ref('parent', 'cascade') } } : {}) })
  return { db, v, c }
}
const userRecords = (data) => { const s = data.snapshot().V ?? {}; return canon(Object.fromEntries(Object.entries(s).filter(([c]) => !c.startsWith('_') || c === '_history' || c === '_ledger' || c === '_periods'))) }

async function seals(u, ctx) {
  const { nb } = ctx, periods = SETS[u.set], del = DELETES.includes(u.path)
  const id = u.existing === 'absent' ? 'new' : 'a'
  const cascade = u.path === 'cascade'
  for (const inc of del ? ['none'] : DN) for (const who of ['same', 'reopened', ...(u.mode === 'eager' && !cascade ? ['operator', 'operatorLate'] : [])]) {
    if (u.existing === 'absent' && cascade) continue
    ctx.exec(); resetWorld(1, { tick: 1 }); W.now = T0
    const label = `${u.mode}, periods ${JSON.stringify(periods)}, record ${u.existing}, ${u.path}${del ? '' : ' with date ' + inc}, ${who}`
    const data = new Data()
    const db0 = { encrypt: u.encrypt }
    let S = await open(nb, data, u.mode, { db: db0, refs: cascade })
    if (cascade) await S.v.collection('parent').put('p', { n: 0, d: '2027-01-01' })
    const first = u.existing === 'absent' ? null : { ...rec(u.existing, 1), ...(cascade ? { parent: 'p' } : {}) }
    if (first) await S.c.put('a', first)
    await S.c.put('b', { n: 2, d: '2027-01-01' })
    const ts = first && data.get('V', 'c', 'a')._ts
    W.now += 1000
    const grantee = { userId: 'bob', displayName: 'b', role: 'operator', passphrase: 'bob secret pass', permissions: { c: 'rw' } }
    if (who === 'operator' && u.encrypt) await S.db.grant('V', grantee)
    const ps = []
    for (const [i, [end, dateField]] of periods.entries()) {
      const p = { name: ['_P', 'P', 'constructor', '__proto__'][i], endDate: end === 'now' ? new Date(W.now).toISOString() : end, ...(dateField ? { dateField } : {}) }
      await S.v.closePeriod(p); ps.push(p); W.now += 1000
    }
    if (who === 'operatorLate' && u.encrypt) await S.db.grant('V', grantee)
    if (who === 'reopened' || !u.encrypt) S = await open(nb, data, u.mode, { db: db0, refs: cascade })
    else if (who !== 'same') S = await open(nb, data, u.mode, { db: { user: 'bob', secret: 'bob secret pass' } })
    const before = userRecords(data)
    const incoming = del ? null : rec(inc, 7)
    const r = await attempt(() => PATHS[u.path](S.v, S.c, id, incoming, S.db))
    ctx.trans()
    const want = sealed(ps, first && { ts, rec: stored(first) }, incoming)
    const bad = (m) => ctx.violation(`seal:${u.set}:${u.path}:${u.existing}:${inc}:${who}`, `${label}: ${m}`)
    if (want) {
      if (r.ok) { bad('the write is accepted'); continue }
      if (!(r.err instanceof nb.hub.PeriodClosedError)) bad(`it fails with ${errName(r)} ${String(r.err.message).slice(0, 120)}`)
      const now = data.get('V', 'c', id)
      if (canon(now) !== canon(JSON.parse(before).c?.[id] ?? null)) bad('the refused write changed the record')
      if (u.path !== 'putMany' && u.path !== 'atomic' && u.path !== 'tx' && userRecords(data) !== before) bad('the refused write left a trace')
      if (u.path === 'tx' && data.get('V', 'c', 'zz')) bad('the refused transaction left its other record')
      if (u.path === 'atomic' && data.get('V', 'c', 'zz')) bad('the refused atomic batch left its other record')
      if (cascade && !data.get('V', 'parent', 'p')) bad('the parent was deleted although its record is sealed')
    } else {
      if (!r.ok) { bad(`it fails with ${errName(r)} ${String(r.err.message).slice(0, 160)}`); continue }
      const S2 = await open(nb, data, u.mode, { db: db0 })
      const got = await S2.c.get(id)
      const expect = del ? null : stored(u.mode === 'lww' && first ? { ...first, ...incoming } : incoming)
      if (canon(got) !== canon(expect)) bad(`the record then reads ${canon(got)}`)
    }
    const got = await S.c.get('b')
    if (got?.n !== 2) bad('another record changed')
    ctx.state([u.set, u.path, u.existing, inc, want])
  }
  ctx.sample({ ...u })
}

/** Reverting a sealed record to an older version, and a schema that changes the date. */
async function special(ctx) {
  const { nb } = ctx
  for (const mode of ['eager', 'lazy']) for (const [before, after] of [['before', 'after'], ['after', 'before'], ['after', 'later'], ['later', 'after']]) for (const reopen of [false, true]) {
    ctx.exec(); ctx.trans(); resetWorld(1, { tick: 1 }); W.now = T0
    const data = new Data()
    let S = await open(nb, data, mode)
    await S.c.put('a', rec(before, 1)); await S.c.put('a', rec(after, 2))
    await S.v.closePeriod({ name: 'P', endDate: '2026-03-31', dateField: 'd' })
    if (reopen) S = await open(nb, data, mode)
    const want = sealed([{ endDate: '2026-03-31', dateField: 'd' }], { rec: rec(after, 2), ts: '' }, rec(before, 1))
    const r = await attempt(() => S.c.revert('a', 1))
    if (r.ok === want) ctx.violation(`revert:${before}:${after}`, `${mode}: reverting a record dated ${after} to a version dated ${before} ${r.ok ? 'is accepted' : 'fails with ' + errName(r)}`)
    const got = await (await open(nb, data, mode)).c.get('a')
    if (canon(got) !== canon(want ? rec(after, 2) : rec(before, 1))) ctx.violation(`revert:${before}:${after}`, `${mode}: after the revert the record reads ${canon(got)}`)
  }
  // a validator may rewrite the date
  for (const mode of ['eager', 'lazy']) for (const from of ['before', 'after']) for (const to of ['before', 'after']) {
    ctx.exec(); ctx.trans(); resetWorld(1, { tick: 1 }); W.now = T0
    const data = new Data()
    const S = await open(nb, data, mode)
    await S.v.closePeriod({ name: 'P', endDate: '2026-03-31', dateField: 'd' })
    const c = S.v.collection('s', { ...MODES[mode], schema: { '~standard': { version: 1, vendor: 't', validate: (x) => ({ value: { ...x, d: DATES[to]() } }) } } })
    const r = await attempt(() => c.put('x', { n: 1, d: DATES[from]() }))
    if (to === 'before' ? r.ok || data.get('V', 's', 'x') : from === 'after' && !r.ok) ctx.violation(`schema:${from}:${to}`, `${mode}: a record dated ${from} that its schema dates ${to} ${r.ok ? 'is accepted' : 'fails with ' + errName(r)}`)
  }
  // tiers
  for (const op of ['putAtTier', 'elevate', 'demote']) for (const period of [{ name: 'P', endDate: '2026-03-31', dateField: 'd' }, { name: 'P', endDate: '2026-04-30' }]) {
    ctx.exec(); ctx.trans(); resetWorld(1, { tick: 1 }); W.now = T0
    const data = new Data(), S = await open(nb, data, 'eager')
    const c = S.v.collection('t', { tiers: [0, 1] })
    if (op === 'demote') { await c.putAtTier('x', { d: '2026-01-01' }, 1) } else await c.put('x', { d: '2026-01-01' })
    await S.v.closePeriod(period)
    const before = canon(data.get('V', 't', 'x'))
    const r = await attempt(() => (op === 'putAtTier' ? c.putAtTier('x', { d: '2026-07-01' }, 0) : op === 'elevate' ? c.elevate('x', 1) : c.demote('x', 0)))
    if (r.ok || canon(data.get('V', 't', 'x')) !== before) ctx.violation(`tier:${op}:${period.dateField ?? 'ts'}`, `${op} of a sealed record (${JSON.stringify(period)}) is accepted`)
  }
  // roles that cannot write cannot close or open periods
  for (const role of ['viewer', 'client', 'operator', 'admin']) for (const op of ['close', 'open']) {
    ctx.exec(); ctx.trans(); resetWorld(1, { tick: 1 }); W.now = T0
    const data = new Data(), S = await open(nb, data, 'eager')
    await S.c.put('a', rec('after', 1))
    await S.v.closePeriod({ name: 'P', endDate: '2026-03-31', dateField: 'd' })
    await S.db.grant('V', { userId: 'bob', displayName: 'b', role, passphrase: 'bob secret pass', ...(role === 'operator' ? { permissions: { c: 'rw' } } : role === 'client' ? { permissions: { c: 'ro' } } : {}) })
    const B = await open(nb, data, 'eager', { db: { user: 'bob', secret: 'bob secret pass' } })
    const before = userRecords(data)
    const r = await attempt(() => (op === 'close' ? B.v.closePeriod({ name: 'Q', endDate: '2026-06-30', dateField: 'd' }) : B.v.openPeriod({ name: 'Q', startDate: '2026-04-01', fromPeriod: 'P', carryForward: () => ({}) })))
    const may = role === 'operator' || role === 'admin'
    if (r.ok !== may) ctx.violation(`role:${role}:${op}`, `${role} ${op}s a period: ${errName(r)}`)
    if (!may && userRecords(data) !== before) ctx.violation(`role:${role}:${op}`, `the refused ${op} by a ${role} left a trace`)
    const l = await attempt(() => B.v.listPeriods())
    if (!l.ok || l.val[0]?.name !== 'P') ctx.violation(`role:${role}:list`, `${role} lists the periods: ${errName(l)}`)
  }
}

const sortKeys = (x) => (Array.isArray(x) ? x.map(sortKeys) : x && typeof x === 'object' ? Object.fromEntries(Object.keys(x).filter((k) => x[k] !== undefined).sort().map((k) => [k, sortKeys(x[k])])) : x)
const hashOf = (p) => createHash('sha256').update(JSON.stringify(sortKeys(p))).digest('hex')
function chainFault(list) {
  for (const [i, p] of list.entries()) {
    const prev = list[i - 1]
    if (p.priorPeriodHash !== (prev ? hashOf(prev) : '')) return `the hash in ${p.name} does not match ${prev?.name ?? 'the start of the chain'}`
    if ((p.priorPeriodName ?? null) !== (prev?.name ?? null)) return `${p.name} names ${p.priorPeriodName} as its predecessor instead of ${prev?.name}`
  }
  return null
}

/** Sequences of closing and opening. */
const STEPS = [
  ['close', 'A'], ['close', 'B'], ['close', ''], ['closeNoEnd', 'C'], ['open', 'N', 'A'], ['open', 'M', 'B'], ['open', 'O', 'N'], ['open', 'A', 'A'], ['openSealed', 'S', 'A'], ['openThrows', 'T', 'A'], ['reopen'],
]
async function chain(u, ctx) {
  const { nb } = ctx
  for (const rest of sequences(STEPS.length, u.len - 1)) {
    const hist = [u.f, ...rest].map((i) => STEPS[i])
    ctx.exec(); resetWorld(1, { tick: 1 }); W.now = T0
    const data = new Data()
    let S = await open(nb, data, 'eager')
    await S.c.put('a', { n: 5, d: '2026-01-01' })
    const model = [], opened = new Map()
    const label = hist.map((h) => h.join(' ')).join(', ')
    const bad = (k, m) => ctx.violation(`chain:${k}`, `${label}: ${m}`)
    for (const [op, name, from] of hist) {
      ctx.trans(); W.now += 1000
      if (op === 'reopen') { S = await open(nb, data, 'eager'); continue }
      const taken = model.some((p) => p.name === name), src = model.find((p) => p.name === from)
      const recs = op === 'openSealed' ? { c: { [`o${name}`]: { n: 1, d: '2026-04-01' }, [`s${name}`]: { n: 1, d: '2026-01-01' } } } : { c: { [`o${name}`]: { n: 1, d: '2026-04-01' } }, empty: {} }
      const r = await attempt(() => (op === 'close' ? S.v.closePeriod({ name, endDate: '2026-03-31', dateField: 'd' })
        : op === 'closeNoEnd' ? S.v.closePeriod({ name, endDate: '' })
        : S.v.openPeriod({ name, startDate: '2026-04-01', fromPeriod: from, carryForward: async (c) => { if (op === 'openThrows') throw new Error('no'); const l = await c.collection('c').list(), g = await c.collection('c').get('a'); if (g?.n !== 5 || !l.some((x) => x.n === 5) || c.priorEndDate !== '2026-03-31' || 'put' in c.collection('c') || 'delete' in c.collection('c')) bad('ctx', 'the carry-forward view is wrong'); return recs } })))
      const ok = op === 'close' ? !taken && name !== '' : op === 'closeNoEnd' ? false : op === 'open' ? !taken && src?.kind === 'closed' : false
      if (r.ok !== ok) { bad(op, `${op} ${name} ${r.ok ? 'succeeds' : 'fails with ' + errName(r) + ' ' + r.err.message}`); break }
      if (ok) {
        const p = r.val
        if (p.name !== name || p.kind !== (op === 'close' ? 'closed' : 'opened') || p.closedBy !== 'owner' || p.endDate !== '2026-03-31' || Math.abs(Date.parse(p.closedAt) - W.now) > 500) bad('record', `${op} ${name} returns ${canon(p)}`)
        if (op === 'open') { if (p.startDate !== '2026-04-01' || canon(p.openingCollections) !== '["c"]') bad('record', `opened ${canon(p)}`); opened.set(`o${name}`, 1) }
        model.push(JSON.parse(JSON.stringify(p)))
      }
      for (const [who, s] of [['this session', S], ['a new session', await open(nb, data, 'eager')]]) {
        const l = JSON.parse(JSON.stringify(await s.v.listPeriods()))
        if (canon(l) !== canon(model)) bad('list', `after ${op} ${name} ${who} lists ${canon(l)}, expected ${canon(model)}`)
        const f = chainFault(l); if (f) bad('hash', `${who}: ${f}`)
        for (const p of model) if (canon(await s.v.getPeriod(p.name)) !== canon(p)) bad('get', `${who}: getPeriod ${p.name}`)
        if (await s.v.getPeriod('absent') !== null) bad('get', 'an absent period is found')
        if (s !== S) {
          for (const id of opened.keys()) if ((await s.c.get(id))?.d !== '2026-04-01') bad('opening', `the opening record ${id} is missing`)
          const led = s.v.ledger()
          const n = (await led.entries()).filter((e) => e.collection === '_periods').map((e) => e.id)
          if (canon(n) !== canon(model.map((p) => p.name))) bad('ledger', `the ledger has period entries ${n}`)
          const ver = await led.verify(); if (!ver.ok) bad('ledger', 'the ledger does not verify')
        }
      }
    }
    ctx.state(model.map((p) => [p.name, p.kind]))
  }
}

/** Overlapping calls: every completion order of the store calls. */
const RACES = {
  'put|close': [['put', 'open'], ['close', 'A']],
  'close|put': [['close', 'A'], ['put', 'open']],
  'get|close|put': [['list'], ['close', 'A'], ['put', 'open']],
  'close|close': [['close', 'A'], ['close', 'B']],
  'same|same': [['close', 'A'], ['close', 'A']],
  'close|open': [['close', 'B'], ['open', 'N']],
  'open|open': [['open', 'N'], ['open', 'M']],
  'open|put': [['open', 'N'], ['put', 'open']],
}
async function races(u, ctx) {
  const { nb } = ctx
  resetWorld(1, { tick: 1 }); W.now = T0
  const base = new Data()
  { const S = await open(nb, base, 'eager', { db: { encrypt: u.encrypt } }); await S.c.put('a', { n: 1, d: '2026-01-01' }); if (u.race.includes('open')) await S.v.closePeriod({ name: 'Z', endDate: '2026-03-31', dateField: 'd' }); W.now += 1000 }
  const { executions, complete } = await exploreAll(async (ch) => {
    ctx.exec(); resetWorld(1, { tick: 1 }); W.now = T0 + 10000
    const data = base.clone(), sched = new Sched(nb.hub, ch, { mode: 'reply', preempt: u.preempt })
    const plain = plainStore(nb.hub, data), slow = sched.store(data, 's')
    let on = false
    const store = new Proxy(plain, { get: (t, k) => (typeof t[k] === 'function' ? (...a) => (on ? slow : plain)[k](...a) : t[k]) })
    const S = await settle(() => open(nb, data, 'eager', { store, db: { encrypt: u.encrypt } }))
    await settle(() => S.c.list())
    on = true
    const opOf = ([k, n]) => (k === 'put' ? S.c.put('b', { n: 2, d: '2026-07-01' }) : k === 'list' ? S.v.listPeriods() : k === 'close' ? S.v.closePeriod({ name: n, endDate: '2026-03-31', dateField: 'd' }) : S.v.openPeriod({ name: n, startDate: '2026-04-01', fromPeriod: 'Z', carryForward: () => ({ c: { [`o${n}`]: { n: 1, d: '2026-04-01' } } }) }))
    const tasks = await sched.run(RACES[u.race].map((o, i) => [`t${i}`, () => opOf(o)]))
    on = false
    ctx.trans(sched.transitions)
    const bad = (m) => ctx.violation(`race:${u.race}`, `${u.race} (${u.encrypt ? 'encrypted' : 'plain'}): ${m}`, { trace: sched.trace })
    const oks = tasks.filter((t) => t.ok).length
    if (u.race === 'same|same' ? oks !== 1 : oks !== tasks.length) bad(`${oks} of ${tasks.length} calls succeed: ${tasks.map((t) => (t.ok ? 'ok' : String(t.err))).join(', ')}`)
    const names = new Set(RACES[u.race].filter(([k]) => k === 'close' || k === 'open').map((o) => o[1]))
    for (const [who, s] of [['this session', S], ['a new session', await settle(() => open(nb, data, 'eager', { db: { encrypt: u.encrypt } }))]]) {
      const l = await settle(() => s.v.listPeriods())
      if (l.length !== names.size + (u.race.includes('open') ? 1 : 0)) bad(`${who} lists ${l.map((p) => p.name)}`)
      const f = chainFault(JSON.parse(JSON.stringify(l))); if (f) bad(`${who}: ${f}`)
      const r = await settle(() => attempt(() => s.c.put('a', { n: 3, d: '2026-07-01' })))
      if (r.ok) bad(`${who} accepts a write to a sealed record`)
      const r2 = await settle(() => attempt(() => s.c.put('late', { n: 3, d: '2026-02-01' })))
      if (r2.ok) bad(`${who} accepts a late entry`)
    }
  }, { maxExec: 60000 })
  if (!complete) ctx.capped('race schedules')
  void executions
}

/** Each store call of closePeriod / openPeriod fails once. */
async function faults(u, ctx) {
  const { nb } = ctx
  for (let k = 0; ; k++) for (const kind of ['before', 'after']) {
    ctx.exec(); ctx.trans(); resetWorld(1, { tick: 1 }); W.now = T0
    const data = new Data()
    { const S = await open(nb, data, 'eager'); await S.c.put('a', { n: 1, d: '2026-01-01' }); if (u.op === 'open') await S.v.closePeriod({ name: 'Z', endDate: '2026-03-31', dateField: 'd' }) }
    let n = -1, hit = null, armed = false
    const store = hookedStore(nb.hub, data, async (m, args, doIt) => {
      if (armed && ++n === k) { hit = `${m} ${args[1] ?? ''}`; if (kind === 'after') await doIt(); throw new Error('store down') }
      return doIt()
    })
    const S = await open(nb, data, 'eager', { store })
    const act = () => (u.op === 'close' ? S.v.closePeriod({ name: 'A', endDate: '2026-06-30', dateField: 'd' }) : S.v.openPeriod({ name: 'N', startDate: '2026-04-01', fromPeriod: 'Z', carryForward: () => ({ c: { o: { n: 1, d: '2026-04-01' } } }) }))
    armed = true
    const r = await settle(() => attempt(act))
    armed = false
    if (!hit) { if (kind === 'after') return; continue }
    const bad = (m) => ctx.violation(`fault:${u.op}:${kind}:${hit}`, `${u.op}Period, ${hit} fails ${kind} taking effect: ${m}`)
    let ok = r.ok
    if (!ok) { const r2 = await settle(() => attempt(act)); if (!r2.ok) bad(`the second attempt fails too: ${r2.err.message}`); else ok = true }
    if (!ok) continue
    for (const [who, s] of [['this session', S], ['a new session', await open(nb, data, 'eager')]]) {
      const l = JSON.parse(JSON.stringify(await s.v.listPeriods()))
      if (!l.some((p) => p.name === (u.op === 'close' ? 'A' : 'N')) || l.length !== (u.op === 'close' ? 1 : 2)) bad(`${who} lists ${l.map((p) => p.name)}`)
      const f = chainFault(l); if (f) bad(`${who}: ${f}`)
      const w = await attempt(() => s.c.put('late', { n: 3, d: u.op === 'close' ? '2026-05-01' : '2026-02-01' }))
      if (w.ok) bad(`${who} accepts a late entry`)
      if (u.op === 'open' && (await s.c.get('o'))?.d !== '2026-04-01') bad(`${who} misses the opening record`)
    }
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive product of period sets, stored and incoming dates, write paths, storage modes and sessions against the sealing rule; all short histories of closing and opening; all completion orders of overlapping calls; every failing store call',
  rule: 'a write is refused exactly when a closed period covers the record',
  modules: HUB,
  bounds: (t) => `9 period sets x 9 record states x 8 incoming dates x 8 write paths x 4 collection modes x up to 4 sessions; all histories of ${t === 'quick' ? 3 : 4} of ${STEPS.length} steps; all orders of two and three overlapping calls; every single failing store call`,
  assumptions: ['dates are ISO strings or Date objects; they compare at the precision of endDate', 'other sessions already open keep the period list they loaded (documented)', 'pull, load and attachments are not record writes of this rule'],
  units(tier) {
    const out = []
    for (const set of Object.keys(SETS)) for (const existing of ['absent', ...DN]) for (const path of Object.keys(PATHS)) for (const mode of Object.keys(MODES)) {
      if (path === 'cascade' && mode === 'lww') continue
      out.push({ kind: 'seal', set, existing, path, mode, encrypt: true })
    }
    for (const set of Object.keys(SETS)) for (const existing of ['absent', 'before', 'after']) out.push({ kind: 'seal', set, existing, path: 'put', mode: 'eager', encrypt: false })
    for (let f = 0; f < STEPS.length; f++) out.push({ kind: 'chain', f, len: tier === 'quick' ? 3 : 4 })
    for (const race of Object.keys(RACES)) for (const encrypt of [true, false]) out.push({ kind: 'race', race, encrypt, preempt: tier === 'quick' ? 3 : 5 })
    for (const op of ['close', 'open']) out.push({ kind: 'fault', op })
    out.push({ kind: 'special' })
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'seal') return seals(u, ctx)
    if (u.kind === 'chain') return chain(u, ctx)
    if (u.kind === 'race') return races(u, ctx)
    if (u.kind === 'fault') return faults(u, ctx)
    return special(ctx)
  },
}
void PASS; void same
