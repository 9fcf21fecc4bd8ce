// P03 — transactions and atomic bulk puts are all-or-nothing under any single failure.
import { resetWorld } from '../lib/world.mjs'
import { exploreAll, canon, same, Choices } from '../lib/explore.mjs'
import { Data, Sched, plainStore } from '../lib/stores.mjs'
import { HUB, openDb } from '../lib/noy.mjs'

const cp = (v) => JSON.parse(JSON.stringify(v))
// [vault, collection, op, id, value, expectedVersion?]
const BODIES = {
  mixed: [['V', 'x', 'put', 'new', { n: 1 }], ['V', 'x', 'put', 'b', { n: 2 }], ['V', 'x', 'delete', 'c']],
  twoColl: [['V', 'x', 'put', 'b', { n: 5 }], ['V', 'y', 'put', 'k', { n: 6 }], ['V', 'y', 'put', 'new', { n: 7 }]],
  sameIdColls: [['V', 'x', 'put', 'b', { n: 5 }], ['V', 'y', 'put', 'b', { n: 6 }], ['V', 'y', 'delete', 'k'], ['V', 'x', 'put', 'k', { n: 7 }]],
  sameIdDelete: [['V', 'y', 'delete', 'b'], ['V', 'x', 'put', 'b', { n: 4 }], ['W', 'x', 'delete', 'b']],
  sameIdAll: [['W', 'x', 'put', 'b', { n: 1 }], ['V', 'y', 'put', 'b', { n: 2 }], ['V', 'x', 'delete', 'b']],
  casCross: [['V', 'x', 'put', 'b', { n: 5 }, 2], ['V', 'y', 'put', 'b', { n: 6 }, 1], ['W', 'x', 'delete', 'b', undefined, 1]],
  casCrossBad: [['V', 'x', 'put', 'b', { n: 5 }, 2], ['V', 'y', 'put', 'b', { n: 6 }, 2]],
  casCrossBad2: [['V', 'y', 'put', 'b', { n: 5 }, 1], ['W', 'x', 'put', 'b', { n: 6 }, 2], ['V', 'x', 'put', 'b', { n: 6 }, 2]],
  twoVault: [['V', 'x', 'put', 'b', { n: 5 }], ['W', 'x', 'put', 'b', { n: 6 }], ['V', 'x', 'delete', 'c']],
  sameId: [['V', 'x', 'put', 'b', { n: 5 }], ['V', 'x', 'put', 'b', { n: 6 }], ['V', 'x', 'delete', 'b'], ['V', 'x', 'put', 'c', { n: 9 }]],
  delThenPut: [['V', 'x', 'delete', 'b'], ['V', 'x', 'put', 'b', { n: 3 }], ['V', 'x', 'delete', 'zz']],
  casOk: [['V', 'x', 'put', 'b', { n: 5 }, 2], ['V', 'x', 'delete', 'c', undefined, 1], ['V', 'x', 'put', 'new', { n: 1 }, 0]],
  casBad1: [['V', 'x', 'put', 'b', { n: 5 }, 1], ['V', 'x', 'put', 'new', { n: 1 }]],
  casBad2: [['V', 'x', 'put', 'new', { n: 1 }], ['V', 'y', 'delete', 'k', undefined, 7]],
  casBad3: [['V', 'x', 'put', 'b', { n: 5 }], ['V', 'x', 'put', 'new', { n: 1 }, 3]],
  rejected: [['V', 'x', 'put', 'b', { n: 5 }], ['V', 'y', 'put', 'k', { n: -1 }], ['V', 'x', 'put', 'new', { n: 1 }]],
  bodyThrows: [['V', 'x', 'put', 'b', { n: 5 }], ['throw']],
  atomic: 'many', atomicCas: 'many', atomicCasBad: 'many', atomicRejected: 'many',
}
const MANY = {
  atomic: [['new', { n: 1 }], ['b', { n: 2 }], ['c', { n: 3 }]],
  atomicCas: [['b', { n: 2 }, { expectedVersion: 2 }], ['new', { n: 1 }, { expectedVersion: 0 }]],
  atomicCasBad: [['b', { n: 2 }], ['c', { n: 1 }, { expectedVersion: 5 }]],
  atomicRejected: [['b', { n: 2 }], ['new', { n: 1 }], ['c', { n: -1 }]],
}
// every precondition on every kind of record, first or last in the batch
const CAS_FAILS = new Set()
for (const [id, actual] of [['zz', 0], ['c', 1], ['b', 2]]) for (const exp of [0, 1, 2, 3]) for (const op of ['put', 'delete', 'many']) for (const last of [true, false]) {
  const name = `cas:${op}:${id}:${exp}:${last ? 'last' : 'first'}`
  if (exp !== actual) CAS_FAILS.add(name)
  if (op === 'many') { const a = [id, { n: 4 }, { expectedVersion: exp }], b = ['new', { n: 8 }]; MANY[name] = last ? [b, a] : [a, b]; BODIES[name] = 'many' }
  else { const a = ['V', 'x', op, id, op === 'put' ? { n: 4 } : undefined, exp], b = ['V', 'y', 'put', 'new', { n: 8 }]; BODIES[name] = last ? [b, a] : [a, b] }
}
const CONFIGS = [
  { name: 'eager', coll: {} },
  { name: 'eager+index', coll: { indexes: ['n'] } },
  { name: 'lazy', coll: { prefetch: false, cache: { maxRecords: 8 } }, lazy: true },
  { name: 'lazy+index', coll: { prefetch: false, cache: { maxRecords: 8 }, indexes: ['n'] }, lazy: true },
  { name: 'nohistory', coll: {}, db: { except: ['history'] } },
  { name: 'plain', coll: {}, db: { encrypt: false } },
]
const positive = { '~standard': { version: 1, vendor: 'mc', validate: (v) => (v.n >= 0 ? { value: v } : { issues: [{ message: 'negative' }] }) } }
const KEYS = [['V', 'x', 'new'], ['V', 'x', 'b'], ['V', 'x', 'c'], ['V', 'x', 'zz'], ['V', 'x', 'k'], ['V', 'y', 'k'], ['V', 'y', 'new'], ['V', 'y', 'b'], ['W', 'x', 'b']]

export default {
  level: 'fault_enumeration',
  technique: 'exhaustive fault enumeration on the real code: every store call of the commit fails once, before or after taking effect; all-or-nothing oracle on handle, indexes and a fresh instance',
  rule: 'distinct (configuration, transaction body, outcome, resulting contents) tuples',
  modules: HUB,
  bounds: `${Object.keys(BODIES).length} transaction bodies x ${CONFIGS.length} configurations x {warm,cold} x every single store-call fault point x {fails before effect, fails after effect}`,
  assumptions: ['at most one store call fails, so the rollback itself can reach the store', 'no crash of the process in mid-commit (documented crash window)', 'no concurrent writer'],
  units() {
    const out = []
    CONFIGS.forEach((_, ci) => { for (const b of Object.keys(BODIES)) for (const warm of [true, false]) out.push({ ci, b, warm }) })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const cfg = CONFIGS[u.ci]
    const setup = async (store, extra = {}) => {
      // index side-car failures are repaired by the documented reconcile-on-open
      const coll = { ...cfg.coll, ...(cfg.name === 'lazy+index' ? extra : {}) }
      const db = await openDb(nb, store, cfg.db)
      const V = await db.openVault('V'), Wv = await db.openVault('W')
      const x = V.collection('x', { ...coll, schema: positive }), y = V.collection('y', { ...coll, schema: positive }), wx = Wv.collection('x', coll)
      return { db, V, W: Wv, c: { 'V/x': x, 'V/y': y, 'W/x': wx } }
    }
    resetWorld(1, { tick: 1 })
    const seed = new Data()
    const s0 = await setup(plainStore(nb.hub, seed))
    await s0.c['V/x'].put('b', { n: 90 }); await s0.c['V/x'].put('b', { n: 91 }); await s0.c['V/x'].put('c', { n: 92 })
    await s0.c['V/y'].put('k', { n: 93 }); await s0.c['V/y'].put('b', { n: 95 }); await s0.c['W/x'].put('b', { n: 94 })
    const snap = seed.snapshot()
    const before = new Map([['V/x/b', { r: { n: 91 }, v: 2 }], ['V/x/c', { r: { n: 92 }, v: 1 }], ['V/y/k', { r: { n: 93 }, v: 1 }], ['V/y/b', { r: { n: 95 }, v: 1 }], ['W/x/b', { r: { n: 94 }, v: 1 }]])
    const after = new Map([...before].map(([k, v]) => [k, { ...v }]))
    const ops = BODIES[u.b] === 'many' ? MANY[u.b].map(([id, r]) => ['V', 'x', 'put', id, r]) : BODIES[u.b]
    for (const [v, c, op, id, r] of ops) {
      if (v === 'throw') continue
      const k = `${v}/${c}/${id}`
      if (op === 'put') after.set(k, { r, v: (after.get(k)?.v ?? 0) + 1 })
      else after.delete(k)
    }
    const mustFail = { casBad1: 'CONFLICT', casBad2: 'CONFLICT', casBad3: 'CONFLICT', casCrossBad: 'CONFLICT', casCrossBad2: 'CONFLICT', atomicCasBad: 'CONFLICT', rejected: 'SchemaValidationError', atomicRejected: 'SchemaValidationError', bodyThrows: 'boom' }[u.b] ?? (CAS_FAILS.has(u.b) ? 'CONFLICT' : undefined)
    const view = async (s) => {
      const o = {}
      for (const [v, c, id] of KEYS) o[`${v}/${c}/${id}`] = await s.c[`${v}/${c}`].get(id)
      for (const k of Object.keys(s.c)) {
        o[`${k}#count`] = await s.c[k].count()
        if (!cfg.lazy) { o[`${k}#list`] = (await s.c[k].list()).map(canon).sort(); if (cfg.name === 'eager+index') for (let n = 0; n < 10; n++) o[`${k}#q${n}`] = s.c[k].query().where('n', '==', n).toArray().map(canon).concat(s.c[k].query().where('n', '==', n + 90).toArray().map(canon)) }
        else if (cfg.name === 'lazy+index') for (let n = 0; n < 10; n++) o[`${k}#q${n}`] = (await s.c[k].lazyQuery().where('n', '==', n).toArray()).map(canon).concat((await s.c[k].lazyQuery().where('n', '==', n + 90).toArray()).map(canon))
      }
      return o
    }
    const expect = (m) => {
      const o = {}
      for (const [v, c, id] of KEYS) o[`${v}/${c}/${id}`] = m.get(`${v}/${c}/${id}`)?.r ?? null
      for (const k of ['V/x', 'V/y', 'W/x']) {
        const rs = [...m].filter(([kk]) => kk.startsWith(k + '/')).map(([, e]) => e.r)
        o[`${k}#count`] = rs.length
        if (!cfg.lazy) o[`${k}#list`] = rs.map(canon).sort()
        if (cfg.name.endsWith('index')) for (let n = 0; n < 10; n++) o[`${k}#q${n}`] = rs.filter((r) => r.n === n).map(canon).concat(rs.filter((r) => r.n === n + 90).map(canon))
      }
      return o
    }
    const r = await exploreAll(async (ch) => {
      resetWorld(1, { tick: 1 })
      const data = new Data(); data.restore(snap)
      const sched = new Sched(nb.hub, ch, { faults: mustFail || u.b.startsWith('cas:') ? 0 : 1, preempt: 0 })
      const plain = plainStore(nb.hub, data), gated = sched.store(data, 's')
      let on = false
      const sw = { name: 'sw' }
      for (const m of Object.keys(plain)) if (typeof plain[m] === 'function') sw[m] = (...a) => (on ? gated[m](...a) : plain[m](...a))
      const s = await setup(sw)
      if (u.warm) await view(s)
      ctx.exec()
      on = true
      const [t] = await sched.run([['tx', async () => {
        if (BODIES[u.b] === 'many') return s.c['V/x'].putMany(cp(MANY[u.b]), { atomic: true })
        return s.db.transaction(async (tx) => {
          for (const [v, c, op, id, rec, exp] of ops) {
            if (v === 'throw') throw new Error('boom')
            const col = tx.vault(v).collection(c)
            const o = exp === undefined ? undefined : { expectedVersion: exp }
            if (op === 'put') { col.put(id, cp(rec), o); const g = await col.get(id); if (!same(g, rec)) throw new Error('no read-your-writes') }
            else { col.delete(id, o); if ((await col.get(id)) !== null) throw new Error('no read-your-deletes') }
          }
          // uncommitted reads: every staged change and nothing else
          for (const [v, c, id] of KEYS) { const g = await tx.vault(v).collection(c).get(id); const e = after.get(`${v}/${c}/${id}`)?.r ?? null; if (!same(g, e)) throw new Error(`the transaction reads ${canon(g)} for ${v}/${c}/${id}, expected ${canon(e)}`) }
          return 'done'
        })
      }]])
      on = false
      ctx.trans(sched.transitions)
      const faulted = !mustFail && !u.b.startsWith('cas:') && sched.faultsLeft === 0
      const bad = (why, what) => ctx.violation(`${cfg.name}:${u.warm ? 'warm' : 'cold'}:${u.b}:${why}`, `${what}\n calls: ${sched.trace.join(' ')}`, { prefix: ch.trace })
      const outcome = t.ok ? 'committed' : 'aborted'
      if (!t.ok && !faulted && !mustFail) return bad('spurious', `transaction failed without any fault: ${t.err?.stack}`)
      if (t.ok && mustFail) return bad('accepted', `transaction must fail with ${mustFail} but resolved`)
      if (!t.ok && !faulted && ![t.err?.code, t.err?.name, t.err?.message].includes(mustFail)) return bad('error', `expected ${mustFail}, got ${t.err?.stack}`)
      const want = expect(t.ok ? after : before)
      const mine = await view(s)
      const s2 = await setup(plain, { reconcileOnOpen: 'auto' })
      const fresh = await view(s2)
      const diff = (a) => Object.keys(want).filter((k) => !same(a[k], want[k])).map((k) => `${k}: got ${canon(a[k])} expected ${canon(want[k])}`)
      ctx.state(canon([cfg.name, u.b, outcome, fresh]))
      if (!same(fresh, want)) return bad(`store:${outcome}:${faulted ? sched.trace.find((x) => x.includes('!')) : 'nofault'}`, `${outcome}, but a fresh instance differs: ${diff(fresh).join('; ')}`)
      if (!same(mine, want)) return bad(`handle:${outcome}:${faulted ? sched.trace.find((x) => x.includes('!')) : 'nofault'}`, `${outcome}, but the open handle differs: ${diff(mine).join('; ')}`)
      const m = t.ok ? after : before
      for (const [v, c, id] of KEYS) {
        const got = data.get(v, c, id)?._v ?? 0
        const exp = m.get(`${v}/${c}/${id}`)?.v ?? 0
        if (got !== exp) return bad(`version:${outcome}`, `${v}/${c}/${id} has version ${got}, expected ${exp}`)
      }
      if (faulted) ctx.count(t.ok ? 'faults_absorbed' : 'faults_aborted')
      if (ctx.executions <= 1) ctx.sample({ config: cfg.name, body: u.b, calls: sched.trace })
    })
    if (!r.complete) ctx.capped('incomplete')
  },
}
