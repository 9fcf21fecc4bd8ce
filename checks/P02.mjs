// P02 — concurrent operations on one collection handle are linearizable.
import { resetWorld } from '../lib/world.mjs'
import { exploreAll, canon, same } from '../lib/explore.mjs'
import { Data, Sched, plainStore } from '../lib/stores.mjs'
import { HUB, openVault, openDb } from '../lib/noy.mjs'

const VAL = { X: { n: 1 }, Y: { n: 2 }, Z: { n: 3 } }
const cp = (v) => JSON.parse(JSON.stringify(v))
const OPS = {
  putX: { run: (c) => c.put('a', cp(VAL.X)), eff: (m) => mput(m, 'a', VAL.X) },
  putY: { run: (c) => c.put('a', cp(VAL.Y)), eff: (m) => mput(m, 'a', VAL.Y) },
  putB: { run: (c) => c.put('b', cp(VAL.Z)), eff: (m) => mput(m, 'b', VAL.Z) },
  del: { run: (c) => c.delete('a'), eff: (m) => { m.delete('a'); return undefined } },
  get: { run: (c) => c.get('a'), eff: (m) => m.get('a')?.rec ?? null },
  get2: { run: async (c) => [await c.get('a'), await c.get('b')], twice: true },
  list: { run: async (c) => (await c.list()).map(canon).sort(), eff: (m) => [...m.values()].map((x) => canon(x.rec)).sort(), eager: true },
  page: { run: async (c) => { await c.listPage({ limit: 10 }) }, eff: () => undefined },
  count: { run: (c) => c.count(), eff: (m) => m.size },
}
function mput(m, id, rec) { m.set(id, { rec: cp(rec), v: (m.get(id)?.v ?? 0) + 1 }); return undefined }
OPS.many = { run: async (c) => { await c.putMany([['a', cp(VAL.X)], ['b', cp(VAL.Y)]]) }, effs: [(m) => mput(m, 'a', VAL.X), (m) => mput(m, 'b', VAL.Y)] }
OPS.delMany = { run: async (c) => { await c.deleteMany(['b', 'a']) }, effs: [(m) => { m.delete('b') }, (m) => { m.delete('a') }] }
OPS.scan = { run: async (c) => { for await (const r of c.scan({ pageSize: 1 })) if (![1, 2, 3, 8, 9].includes(r.n)) throw new Error('scan yields a record that was never written') }, eff: () => undefined }
// first use of a vault: the keys of its collections do not exist yet
const FRESH = [['x/a', 'x/b'], ['x/a', 'y/a'], ['x/a', 'x/a'], ['x/a', 'y/a', 'z/a'], ['x/a', 'x/b', 'y/a'], ['x/a', 'blob'], ['x/a', 'dict']]
/** all interleavings of the operations' effect sequences, as lists of operation indices */
function* interleavings(left, acc = []) {
  if (left.every((n) => n === 0)) { yield acc; return }
  for (let i = 0; i < left.length; i++) if (left[i]) { const l = [...left]; l[i]--; yield* interleavings(l, [...acc, i]) }
}
const CONFIGS = [
  { name: 'eager', coll: {} },
  { name: 'eager+index', coll: { indexes: ['n'] } },
  { name: 'lazy1', coll: { prefetch: false, cache: { maxRecords: 1 } }, lazy: true },
  { name: 'lazy4+index', coll: { prefetch: false, cache: { maxRecords: 4 }, indexes: ['n'] }, lazy: true },
]
const PAIRS = [['putX', 'putY'], ['putX', 'del'], ['putY', 'get'], ['del', 'get'], ['putX', 'list'], ['del', 'list'], ['putB', 'putY'], ['putY', 'page'], ['del', 'page'], ['del', 'del'], ['putY', 'count'], ['get', 'list'], ['many', 'putB'], ['many', 'del'], ['many', 'count'], ['delMany', 'putX'], ['delMany', 'list'], ['scan', 'del'], ['scan', 'putY'], ['many', 'delMany']]
const TRIPLES = [['putX', 'putY', 'get'], ['putX', 'putY', 'del'], ['putY', 'del', 'get'], ['putX', 'list', 'get'], ['putX', 'putB', 'list'], ['putY', 'page', 'del']]

export default {
  level: 'model_checking',
  technique: 'stateless model checking under a controlled scheduler: all store-completion orders up to a preemption bound, final state and results checked for linearizability against a map model',
  modules: HUB,
  bounds: (t) => `${PAIRS.length} pairs of concurrent operations (preemption bound ${t === 'quick' ? 2 : 3}) and ${TRIPLES.length} triples (preemption bound ${t === 'quick' ? 1 : 2}) x ${CONFIGS.length} configurations x {record cached or not before} x {effect at call, effect at completion}; ${FRESH.length} groups of first writes to new collections`,
  assumptions: ['all operations go through one open instance (other instances synchronise through the sync engine, P16)', 'the store completes each call atomically'],
  units(tier) {
    const out = []
    CONFIGS.forEach((cfg, ci) => {
      for (const warm of [false, true]) for (const mode of ['reply', 'call']) {
        for (const t of [...PAIRS, ...TRIPLES]) {
          if (cfg.lazy && t.some((o) => OPS[o].eager)) continue
          const d = t.length === 2 ? (tier === 'quick' ? 2 : 3) : tier === 'quick' ? 1 : 2
          out.push({ ci, warm, mode, ops: t, d })
        }
      }
    })
    for (const ops of FRESH) for (const start of ['new', 'reopened']) for (const mode of ['reply', 'call']) out.push({ fresh: ops, start, mode, d: tier === 'quick' ? 2 : 3 })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    if (u.fresh) return freshUnit(u, ctx, nb)
    const cfg = CONFIGS[u.ci]
    resetWorld(1, { tick: 1 })
    const seed = new Data()
    const i0 = await openVault(nb, seed)
    const c0 = i0.v.collection('things', cfg.coll)
    await c0.put('a', { n: 9 }); await c0.put('b', { n: 8 })
    const snap = seed.snapshot()
    const base = [['a', { rec: { n: 9 }, v: 1 }], ['b', { rec: { n: 8 }, v: 1 }]]
    const seen = new Set()
    const r = await exploreAll(async (ch) => {
      resetWorld(1, { tick: 1 })
      const data = new Data(); data.restore(snap)
      const sched = new Sched(nb.hub, ch, { mode: u.mode, preempt: u.d })
      const store = sched.store(data, 's')
      // opening and warming up are sequential: drive them with a private scheduler
      const gate = { on: false }
      const plain = plainStore(nb.hub, data)
      const sw = { name: 'sw' }
      for (const m of Object.keys(store)) if (typeof store[m] === 'function') sw[m] = (...a) => (gate.on ? store[m](...a) : plain[m](...a))
      const db = await openDb(nb, sw)
      const v = await db.openVault('V')
      const c = v.collection('things', cfg.coll)
      const events = []
      db.on('change', (e) => events.push(`${e.collection}/${e.id}/${e.action}`))
      if (u.warm) { await c.get('a'); if (!cfg.lazy) await c.list() }
      gate.on = true
      ctx.exec()
      let why = null, what = ''
      try {
        const tasks = await sched.run(u.ops.map((o, i) => [`${o}#${i}`, () => OPS[o].run(c)]))
        gate.on = false
        ctx.trans(sched.transitions)
        const bad = tasks.find((t) => !t.ok)
        if (bad) { why = `error:${bad.err?.name}`; what = `${bad.name} rejected: ${bad.err?.stack}` }
        else {
          const view = async (cc) => ({ a: await cc.get('a'), b: await cc.get('b'), n: await cc.count(), ...(cfg.lazy ? {} : { l: (await cc.list()).map(canon).sort(), q: u.ci === 1 ? [1, 2, 3, 8, 9].map((k) => cc.query().where('n', '==', k).toArray().map(canon)) : 0 }) })
          const mine = await view(c)
          const { v: v2 } = await openVault(nb, data)
          const c2 = v2.collection('things', cfg.coll)
          const fresh = await view(c2)
          const vers = { a: data.get('V', 'things', 'a')?._v ?? 0, b: data.get('V', 'things', 'b')?._v ?? 0 }
          seen.add(canon([mine, fresh, vers]))
          ctx.state(canon([cfg.name, u.ops, mine, fresh, vers]))
          if (!same(mine, fresh)) { why = 'stale'; what = `after all operations settled the open handle reads ${canon(mine)} but the store holds ${canon(fresh)}` }
          else {
            // some serial order explains every result and the final state
            const seqs = u.ops.map((o) => OPS[o].effs ?? [OPS[o].eff])
            const ok = [...interleavings(seqs.map((s) => s.length))].some((p) => {
              const m = new Map(base.map(([k, x]) => [k, { ...x }]))
              const at = seqs.map(() => 0)
              for (const i of p) { const r0 = seqs[i][at[i]++](m); if (!OPS[u.ops[i]].effs && !same(r0, tasks[i].val)) return false }
              return same(m.get('a')?.rec ?? null, fresh.a) && same(m.get('b')?.rec ?? null, fresh.b) && (m.get('a')?.v ?? 0) === vers.a && (m.get('b')?.v ?? 0) === vers.b
            })
            if (!ok) { why = 'not-linearizable'; what = `no serial order of ${u.ops.join(', ')} gives results ${canon(tasks.map((t) => t.val))} and final ${canon(fresh)} versions ${canon(vers)}` }
            else {
              const muts = u.ops.flatMap((o) => (OPS[o].effs ? [o, o] : /^(put|del)/.test(o) ? [o] : []))
              if (events.length !== muts.length) { why = 'events'; what = `${muts.length} mutations emitted ${events.length} change events: ${events}` }
              const lv = await v2.ledger().verify()
              const entries = (await v2.ledger().entries()).slice(2)
              if (!lv.ok) { why = 'ledger-chain'; what = `ledger does not verify: ${canon(lv)}` }
              else if (entries.length !== muts.length) { why = 'ledger-count'; what = `${muts.length} mutations, ${entries.length} ledger entries` }
              const integ = await v2.verifyBackupIntegrity()
              if (!integ.ok) { why = 'integrity'; what = canon(integ) }
            }
          }
        }
      } catch (e) {
        if (/replay divergence/.test(e.message)) { e.harness = true; throw e }
        gate.on = false
        why = `exception:${e.name}`; what = e.stack
      }
      if (why) ctx.violation(`${cfg.name}:${u.warm ? 'warm' : 'cold'}:${u.mode}:${u.ops.join('+')}:${why}`, `${what}\n schedule: ${sched.trace.join(' ')}`, { prefix: ch.trace })
      if (ctx.executions === 1) ctx.sample({ config: cfg.name, ops: u.ops, schedule: sched.trace })
    }, { maxExec: 200000 })
    if (!r.complete) ctx.capped(`${cfg.name} ${u.ops}: ${r.executions} schedules`)
    ctx.count('distinct_outcomes', seen.size)
  },
}

async function freshUnit(u, ctx, nb) {
  const r = await exploreAll(async (ch) => {
    resetWorld(1, { tick: 1 })
    const data = new Data()
    const sched = new Sched(nb.hub, ch, { mode: u.mode, preempt: u.d })
    const gated = sched.store(data, 's'), plain = plainStore(nb.hub, data)
    let on = false
    const sw = { name: 'sw' }
    for (const m of Object.keys(gated)) if (typeof gated[m] === 'function') sw[m] = (...a) => (on ? gated[m](...a) : plain[m](...a))
    let db = await openDb(nb, sw, { except: ['sync', 'session'] })
    let v = await db.openVault('V')
    if (u.start === 'reopened') { await v.collection('w').put('a', { n: 0 }); db.close(); db = await openDb(nb, sw, { except: ['sync', 'session'] }); v = await db.openVault('V') }
    on = true
    ctx.exec()
    const bytes = new Uint8Array([1, 2, 3])
    const tasks = await sched.run(u.fresh.map((o, i) => [`${o}#${i}`, async () => {
      if (o === 'blob') return v.collection('w').blob('k').put('f', bytes, { mimeType: 'x/y' })
      if (o === 'dict') return v.dictionary('d').put('k', { en: 'K' })
      const [c, id] = o.split('/')
      return v.collection(c).put(id, { n: i })
    }]))
    on = false
    ctx.trans(sched.transitions)
    const bad = (why, what) => ctx.violation(`fresh:${u.start}:${u.fresh.join('+')}:${why}`, `${what}\n schedule: ${sched.trace.join(' ')}`, { prefix: ch.trace })
    const f = tasks.find((t) => !t.ok)
    if (f) return bad('error', `${f.name} rejected: ${f.err?.stack}`)
    // the handle that wrote and a fresh instance must both read everything
    for (const [who, vv] of [['the open handle', v], ['a fresh instance', (await openVault(nb, data)).v]]) {
      try {
        for (const o of new Set(u.fresh)) {
          if (o === 'blob') { const b = await vv.collection('w').blob('k').get('f'); if (!b || b.length !== 3) return bad('blob', `${who} reads attachment ${b}`); continue }
          if (o === 'dict') { const g = await vv.dictionary('d').get('k'); if (g?.en !== 'K') return bad('dict', `${who} reads dictionary entry ${canon(g)}`); continue }
          const [c, id] = o.split('/'), g = await vv.collection(c).get(id)
          if (!u.fresh.some((z, i) => z === o && g?.n === i)) return bad('lost', `${who} reads ${o} as ${canon(g)}`)
        }
        const lv = await vv.ledger().verify()
        if (!lv.ok) return bad('ledger', `ledger does not verify: ${canon(lv)}`)
      } catch (e) { return bad('unreadable', `${who} cannot read what was written: ${e.stack}`) }
    }
    ctx.state(canon(['fresh', u.start, u.fresh, u.mode, [...data.m?.keys?.() ?? []].length]))
    if (ctx.executions === 1) ctx.sample({ fresh: u.fresh, schedule: sched.trace })
  }, { maxExec: 200000 })
  if (!r.complete) ctx.capped(`fresh ${u.fresh}: ${r.executions} schedules`)
}
