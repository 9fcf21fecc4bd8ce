// P31 — read-only views: vault.frame() and vault.at(t) read like the vault and change nothing.
import { resetWorld, settle, W } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, hookedStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'

const cp = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)))
const COLLS = {
  plain: { opts: () => ({}), rec: (n) => ({ n, s: `v${n}` }) },
  indexed: { opts: () => ({ indexes: ['n'] }), rec: (n) => ({ n, s: 'x' }) },
  lazy: { opts: () => ({ prefetch: false, cache: { maxRecords: 1 } }), rec: (n) => ({ n }) },
  schema: { opts: () => ({ schema: { '~standard': { version: 1, vendor: 't', validate: (v) => (typeof v?.n === 'number' ? { value: v } : { issues: [{ message: 'no number' }] }) } } }), rec: (n) => ({ n }) },
  i18n: { opts: (nb) => ({ i18nFields: { t: nb.i18n.i18nText({ languages: ['en', 'th'], required: 'any' }) } }), rec: (n) => ({ n, t: n % 2 ? { en: `e${n}`, th: `t${n}` } : { en: `e${n}` } }) },
  lww: { opts: () => ({ crdt: 'lww-map' }), rec: (n) => ({ n, [`k${n}`]: 1 }) },
}
const USERS = { owner: null, viewer: { role: 'viewer' }, ro: { role: 'operator', permissions: { c: 'ro' } }, other: { role: 'operator', permissions: { d: 'rw' } } }
const OPS = ['putA', 'putB', 'delA', 'many', 'del2', 'revert', 'd', 'elsewhere', 'reopen']
const IDS = ['a', 'b', 'zz']
const LOC = [undefined, { locale: 'en' }, { locale: 'th', fallback: 'en' }, { locale: 'raw' }]

/** The result of one read of a collection or its view, errors included. */
const reads = (nb) => [
  ...IDS.flatMap((id) => LOC.map((l) => [`get(${id},${canon(l)})`, (c) => c.get(id, l)])),
  ...LOC.map((l) => [`list(${canon(l)})`, (c) => c.list(l)]),
  ['query()', async (c) => c.query().toArray()],
  ['query().where', async (c) => c.query().where('n', '>=', 2).orderBy('n', 'desc').toArray()],
  ['query().first', async (c) => c.query().where('n', '==', 1).first()],
  ['query(fn)', async (c) => c.query((r) => r.n > 1)],
  ['query().count', async (c) => c.query().count()],
  ['aggregate', async (c) => c.query().aggregate({ k: nb.aggregate.count(), s: nb.aggregate.sum('n') }).run()],
  ...IDS.flatMap((id) => [[`history(${id})`, (c) => c.history(id)], [`history(${id},1)`, (c) => c.history(id, { limit: 1 })], [`getVersion(${id},1)`, (c) => c.getVersion(id, 1)], [`getVersion(${id},2)`, (c) => c.getVersion(id, 2)], [`getVersion(${id},9)`, (c) => c.getVersion(id, 9)]]),
]
const outcome = async (f) => { const r = await attempt(f); return r.ok ? cp(r.val) ?? null : `!${errName(r)}: ${r.err?.message}` }
const FRAME_WRITES = (rec) => [
  ['put', 'put', ['a', rec(7)]], ['put', 'put new', ['new', rec(7)]], ['put', 'put nothing', []], ['put', 'put same', ['b', rec(2)]],
  ['delete', 'delete', ['a']], ['delete', 'delete missing', ['zz']], ['update', 'update', ['a', { n: 9 }]], ['update', 'update missing', ['zz', {}]],
  ['revert', 'revert', ['a', 1]], ['revert', 'revert missing', ['a', 99]],
  ['putMany', 'putMany', [[['a', rec(7)], ['q', rec(8)]]]], ['putMany', 'putMany none', [[]]],
  ['deleteMany', 'deleteMany', [['a', 'b']]], ['deleteMany', 'deleteMany none', [[]]],
]

async function history(u, ctx) {
  const nb = ctx.nb, K = COLLS[u.k]
  const R = reads(nb)
  for (let len = 0; len < u.len; len++) for (const rest of sequences(OPS.length, len)) {
    const seq = [u.i, ...rest].map((k) => OPS[k])
    ctx.exec(); resetWorld(1, { tick: 1 })
    const data = new Data(), calls = []
    const store = () => hookedStore(nb.hub, data, (m, a, go) => { calls.push(m); return go() }, { name: 's' })
    const open = async (user) => { const db = await openDb(nb, store(), { user, except: ['sync', 'session'], ...(u.plainText ? { encrypt: false } : { secret: PASS }) }); const v = await db.openVault('V'); return { db, v, c: v.collection('c', K.opts(nb)) } }
    let O = await open('owner')
    await O.v.collection('c', K.opts(nb)).put('b', K.rec(2)); await O.v.collection('d').put('a', { n: 5, where: 'd' }); await O.v.collection('c2').put('a', { n: 6, where: 'c2' })
    if (u.user !== 'owner') await O.db.grant('V', { userId: u.user, displayName: u.user, passphrase: PASS, ...USERS[u.user] })
    let R0 = u.user === 'owner' ? O : await open(u.user)
    const bad = (k, w) => ctx.violation(`${k}:${u.k}:${u.user}`, `${seq.join(',')} on ${u.k} as ${u.user}: ${w}`, { seq, ...u })
    const events = []; const listen = (S) => S.db.on('change', (e) => events.push(e))
    listen(R0)
    // views taken before the history, used throughout
    let early = { f: R0.v.frame(), t: R0.v.at(new Date(W.now)) }
    early.c = early.f.collection('c')
    const map = new Map([['b', K.rec(2)]]); let n = 2
    const judge = async (at) => {
      await attempt(() => R0.c.list())
      const late = R0.v.frame()
      const views = [['an early view', early.c], ['an early frame', early.f.collection('c')], ['a new frame', late.collection('c')]]
      for (const [label, f] of R) {
        const live = await outcome(() => f(R0.c))
        for (const [name, c] of views) {
          ctx.trans()
          const got = await outcome(() => f(c))
          if (!same(got, live)) return bad('read', `after ${at} ${name} reads ${label} as ${canon(got)}, the vault as ${canon(live)}`) ?? false
        }
      }
      // and the vault itself is what was written, so that both being wrong is seen
      if (u.k === 'plain' && u.user === 'owner' && !stale) for (const id of IDS) { const got = await outcome(() => views[2][1].get(id)); if (!same(got, map.get(id) ?? null)) return bad('truth', `after ${at} the frame reads ${id} as ${canon(got)}, last written ${canon(map.get(id) ?? null)}`) ?? false }
      const dl = await outcome(() => R0.v.collection('d').get('a')), df = await outcome(() => late.collection('d').get('a'))
      if (!same(dl, df)) return bad('read', `the frame reads d/a as ${canon(df)}, the vault as ${canon(dl)}`) ?? false
      if (late.collection('c').name !== 'c') return bad('name', `the view of c is called ${late.collection('c').name}`) ?? false
      const cl = await outcome(() => R0.v.collections()), cf = await outcome(() => late.collections()), ce = await outcome(() => early.f.collections())
      if (!same(cl, cf) || !same(cl, ce)) return bad('collections', `the frame lists ${canon(cf)} and ${canon(ce)}, the vault ${canon(cl)}`) ?? false
      // no write gets through, and none leaves a trace
      const before = canon(data.snapshot()), head = canon(await outcome(() => R0.v.ledger().head()))
      calls.length = 0; events.length = 0
      const guard = async (view, label, method, args, want) => {
        let p; ctx.trans()
        if (typeof view[method] !== 'function') return bad('missing', `${label} has no ${method}`) ?? false
        try { p = view[method](...args) } catch (e) { return bad('throws', `${label} throws ${e} instead of rejecting`) ?? false }
        if (typeof p?.then !== 'function') return bad('sync', `${label} returns ${canon(p)} instead of a promise`) ?? false
        const r = await attempt(() => p)
        if (r.ok || r.err?.name !== want || !(r.err instanceof nb.hub[want]) || !String(r.err.message).includes(method)) return bad('write', `after ${at} ${label} ${r.ok ? 'succeeds' : `fails with ${r.err}`}, expected ${want} naming ${method}`) ?? false
        return true
      }
      for (const [name, c] of views) for (const [m, label, args] of FRAME_WRITES(K.rec)) if (!(await guard(c, `${label} on ${name}`, m, args, 'ReadOnlyFrameError'))) return false
      const times = [new Date(0), new Date(W.now), new Date(W.now + 86400000).toISOString()]
      const inst = [['an early instant', early.t], ...times.map((t) => [`the vault at ${canon(t)}`, R0.v.at(t)])]
      for (const [name, v] of inst) for (const [m, label, args] of FRAME_WRITES(K.rec).slice(0, 8)) if (!(await guard(v.collection('c'), `${label} on ${name}`, m, args, 'ReadOnlyAtInstantError'))) return false
      if (calls.length) return bad('calls', `refused writes called the store: ${calls.join(',')}`) ?? false
      if (events.length) return bad('events', `refused writes announced ${canon(events)}`) ?? false
      // reads of views leave no trace either
      for (const [, v] of inst) { await attempt(() => v.collection('c').get('a')); await attempt(() => v.collection('c').list()) }
      if (calls.some((m) => ['put', 'delete', 'saveAll', 'tx'].includes(m)) || canon(data.snapshot()) !== before) return bad('trace', `reading views changed the store: ${calls.join(',')}`) ?? false
      if (canon(await outcome(() => R0.v.ledger().head())) !== head) return bad('ledger', 'reading views or refused writes extended the ledger') ?? false
      const again = await outcome(() => R0.c.get('a'))
      if (!same(again, await outcome(() => late.collection('c').get('a')))) return bad('read', 'the vault reads differently after refused writes') ?? false
      ctx.state([u.k, u.user, [...map], at])
      return true
    }
    let stale = false
    if (len === 0 && !(await judge('nothing'))) return
    for (const op of seq) {
      n++
      const w = op === 'elsewhere' ? (await open('owner')) : O
      const r = await attempt(() => settle(async () => {
        if (op === 'putA' || op === 'elsewhere') { await w.c.put('a', K.rec(n)); map.set('a', u.k === 'lww' ? null : K.rec(n)); if (op === 'elsewhere') stale = true }
        else if (op === 'putB') { await w.c.put('b', K.rec(n)); map.set('b', K.rec(n)) }
        else if (op === 'delA') { await w.c.delete('a'); map.delete('a') }
        else if (op === 'many') { await w.c.putMany([['a', K.rec(n)], ['b', K.rec(n + 1)]]); map.set('a', K.rec(n)); map.set('b', K.rec(n + 1)) }
        else if (op === 'del2') { await w.c.deleteMany(['a', 'b']); map.delete('a'); map.delete('b') }
        else if (op === 'revert') { if ((await w.c.history('b')).length) { const v1 = await w.c.getVersion('b', 1); await w.c.revert('b', 1); if (v1) map.set('b', cp(v1)) } }
        else if (op === 'd') await w.v.collection('d').put('a', { n, where: 'd' })
        else if (op === 'reopen') {
          O.db.close(); if (R0 !== O) R0.db.close()
          O = await open('owner'); R0 = u.user === 'owner' ? O : await open(u.user); listen(R0); stale = false
          early = { f: R0.v.frame(), t: R0.v.at(new Date(W.now)) }; early.c = early.f.collection('c')
        }
      }))
      if (!r.ok && !['revert', 'putMany', 'many'].includes(op) && op !== 'elsewhere' && u.k !== 'lazy') stale = true
      if (op === 'elsewhere') w.db.close()
    }
    if (!(await judge(seq.join(',')))) return
    O.db.close(); if (R0 !== O) R0.db.close()
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of write histories on the real code with read-only views taken before and after them; every read of a view is compared with the vault, every write through a view with its refusal and the absence of store calls, events and ledger entries',
  modules: HUB,
  bounds: (t) => `all histories of up to ${t === 'quick' ? 2 : 3} of ${OPS.length} operations on ${Object.keys(COLLS).length} kinds of collections for four users (plain and encrypted vaults for the owner); ${FRAME_WRITES((n) => ({ n })).length} writes through every view, 40 reads`,
  assumptions: ['a view of a collection is taken after the collection was opened with its options', 'reads outside consent scopes and of records without tiers'],
  units(tier) {
    const out = [], len = tier === 'quick' ? 2 : 3
    for (const k of Object.keys(COLLS)) for (const user of Object.keys(USERS)) for (let i = 0; i < OPS.length; i++) out.push({ k, user, i, len: user === 'owner' && k === 'plain' ? len + 1 : len })
    for (let i = 0; i < OPS.length; i++) out.push({ k: 'plain', user: 'owner', i, len, plainText: true })
    out.push({ off: true })
    return out
  },
  async runUnit(u, ctx) {
    if (!u.off) return history(u, ctx)
    const nb = ctx.nb
    resetWorld(1, { tick: 1 }); ctx.exec(); ctx.trans()
    const data = new Data()
    for (const except of [['shadow'], ['history'], ['shadow', 'history']]) {
      const db = await openDb(nb, hookedStore(nb.hub, data, (m, a, go) => go(), { name: 's' }), { except: [...except, 'sync', 'session'] })
      const v = await db.openVault('V')
      for (const [name, need, f] of [['frame', 'shadow', () => v.frame()], ['at', 'history', () => v.at(new Date(W.now))]]) {
        const r = await attempt(async () => f())
        if (except.includes(need) ? r.ok || !String(r.err.message).includes(`@noy-db/hub/${need}`) : !r.ok) ctx.violation(`off:${name}`, `vault.${name}() without ${except}: ${errName(r)}`)
        ctx.state([name, except.join()])
      }
      db.close()
    }
  },
}
