// P01 — a collection is a durable, versioned map.
import { resetWorld, settle } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openVault } from '../lib/noy.mjs'

const X = { n: 1, s: 'x' }, Y = { n: 2, tags: ['p', 'q'] }, Z = { n: 3, o: { k: null } }
const VAL = { X, Y, Z }
const cp = (v) => JSON.parse(JSON.stringify(v))
const OPS = [
  ['put', 'a', 'X'], ['put', 'a', 'Y'], ['put', 'b', 'X'], ['del', 'a'], ['del', 'b'],
  ['many', [['a', 'Z'], ['b', 'Y']]], ['delmany', ['a', 'b']], ['get', 'a'], ['read'], ['reopen'],
  ['atomic', [['b', 'Z'], ['a', 'Y']]], ['handle2'],
]
const CONFIGS = [
  { name: 'eager', coll: {} },
  { name: 'eager+index', coll: { indexes: ['n'] } },
  { name: 'eager+nopage', coll: {}, nopage: true },
  { name: 'eager+nohistory', coll: {}, db: { history: { enabled: false } } },
  { name: 'eager+bare', coll: {}, db: { use: [] } },
  { name: 'plain', coll: {}, db: { encrypt: false } },
  { name: 'lazy1', coll: { prefetch: false, cache: { maxRecords: 1 } } },
  { name: 'lazyN+nopage', coll: { prefetch: false, cache: { maxRecords: 10 } }, nopage: true },
  { name: 'lazy1+nohistory', coll: { prefetch: false, cache: { maxRecords: 1 } }, db: { history: { enabled: false } } },
  { name: 'lazy+index', coll: { prefetch: false, cache: { maxRecords: 1 }, indexes: ['n'] }, alt: { indexes: ['n'] } },
  { name: 'lazyBytes', coll: { prefetch: false, cache: { maxBytes: 30 } }, db: { encrypt: false } },
]
const SIZES = [99, 100, 101, 260]
const INITS = [[], [['a', 'X'], ['b', 'Y']]]
const IDS = ['a', 'A', '0', '__proto__', 'constructor', 'toString', 'a:1', 'a/b', 'é́日本', ' ', 'x'.repeat(200), '..', 'a.json', '%2e']
const VALUES = [{}, { a: null }, { a: '' }, { a: 0 }, { a: false }, { a: [] }, { a: [1, [2, { b: [] }]] }, { a: 1e21, b: -1.5, c: 0.1 }, { '': 1 }, { a: 'ünïcode 日本 🎉 \u0000 "q" \\' }, { id: 'other', _v: 7, _data: 'x' }, JSON.parse('{"__proto__":{"z":1}}'), { a: 'y'.repeat(5000) }, { constructor: 1, toString: 2, length: 0 }]

async function opener(nb, data, cfg) {
  const o = await openVault(nb, data, { ...(cfg.db ?? {}), storeOpts: { extra: cfg.nopage ? ['ping'] : ['listVaults', 'listPage', 'ping'] } })
  return { ...o, c: o.v.collection('things', cfg.coll) }
}
const lazy = (cfg) => cfg.coll.prefetch === false

async function observe(h, cfg, model, data, ids = ['a', 'b', 'zz']) {
  const exp = new Map(ids.map((i) => [i, model.get(i)?.rec ?? null]))
  const vals = [...model.values()].map((m) => canon(m.rec)).sort()
  const cmp = (what, got, want) => { if (!same(got, want)) throw new Mismatch(what, got, want) }
  for (const i of ids) cmp(`get(${i})`, await h.c.get(i), exp.get(i))
  cmp('getMany', await h.c.getMany(ids), exp)
  if (!lazy(cfg)) {
    cmp('list', (await h.c.list()).map(canon).sort(), vals)
    cmp('query().toArray', h.c.query().toArray().map(canon).sort(), vals)
    cmp('query(pred)', h.c.query(() => true).map(canon).sort(), vals)
  }
  cmp('count', await h.c.count(), model.size)
  for (const limit of model.size > 90 ? [7, 100, undefined, 1000] : [1, 2, 100]) {
    const got = []
    let cursor, n = 0
    do { const p = await h.c.listPage({ ...(limit ? { limit } : {}), ...(cursor ? { cursor } : {}) }); got.push(...p.items); cursor = p.nextCursor; if (p.items.length > limit) throw new Mismatch('page size', p.items.length, limit) } while (cursor && ++n < 200)
    cmp(`listPage(${limit})`, got.map(canon).sort(), vals)
  }
  const sc = []
  for await (const r of h.c.scan(model.size > 90 ? undefined : { pageSize: 1 })) sc.push(r)
  cmp('scan', sc.map(canon).sort(), vals)
  if (!lazy(cfg)) cmp('list again', (await h.c.list()).map(canon).sort(), vals)
  for (const i of ids) cmp(`stored version of ${i}`, data.get('V', 'things', i)?._v ?? null, model.get(i)?.v ?? null)
}
class Mismatch extends Error {
  constructor(what, got, want) { super(`${what}: got ${canon(got).slice(0, 300)}, expected ${canon(want).slice(0, 300)}`); this.what = what; this.name = 'Mismatch' }
}
function mput(model, id, rec) { model.set(id, { rec: cp(rec), v: (model.get(id)?.v ?? 0) + 1 }) }

async function apply(op, st) {
  const { model, cfg } = st
  const c = st.h.c
  const cmp = (what, got, want) => { if (!same(got, want)) throw new Mismatch(what, got, want) }
  switch (op[0]) {
    case 'put': await c.put(op[1], cp(VAL[op[2]])); mput(model, op[1], VAL[op[2]]); break
    case 'del': await c.delete(op[1]); model.delete(op[1]); break
    case 'many': case 'atomic': {
      const r = await c.putMany(op[1].map(([i, v]) => [i, cp(VAL[v])]), op[0] === 'atomic' ? { atomic: true } : undefined)
      cmp(`${op[0]} result`, [r.ok, r.success, r.failures.length], [true, op[1].map((e) => e[0]), 0])
      for (const [i, v] of op[1]) mput(model, i, VAL[v])
      break
    }
    case 'delmany': { const r = await c.deleteMany(op[1]); cmp('deleteMany result', [r.ok, r.success, r.failures.length], [true, op[1], 0]); for (const i of op[1]) model.delete(i); break }
    case 'get': cmp('get', await c.get(op[1]), model.get(op[1])?.rec ?? null); break
    case 'read': if (lazy(cfg)) await c.count(); else cmp('list', (await c.list()).map(canon).sort(), [...model.values()].map((m) => canon(m.rec)).sort()); break
    case 'reopen': st.h.db.close(); st.h = await opener(st.nb, st.data, cfg); break
    case 'handle2': st.h.c = st.h.v.collection('things'); break
  }
}
export default {
  level: 'model_checking',
  technique: 'stateless model checking of the real code: all operation sequences up to the bound, compared step by step with a map+version reference model',
  modules: HUB,
  bounds: (t) => `all operation sequences of length <= ${t === 'quick' ? 3 : 4} (eager and one lazy config: <= ${t === 'quick' ? 4 : 5}) over ${OPS.length} operations, ${CONFIGS.length} collection/store configurations, ${INITS.length} initial contents; plus ${IDS.length} ids x ${VALUES.length} values x ${CONFIGS.length} configurations; collections of ${SIZES.join(', ')} records written one by one or together`,
  assumptions: ['one handle at a time, no store failures (P02 and P03 cover those)', 'records are JSON values not mutated by the caller after put', 'PBKDF2 runs one iteration in the harness'],
  units(tier) {
    const out = []
    CONFIGS.forEach((cfg, ci) => {
      INITS.forEach((_, ii) => {
        const deep = (cfg.name === 'eager' || cfg.name === 'lazy1') && ii === 1
        const depth = tier === 'quick' ? (deep ? 4 : 3) : deep ? 5 : 4
        OPS.forEach((_, oi) => out.push({ kind: 'seq', ci, ii, oi, depth }))
      })
      out.push({ kind: 'io', ci }, { kind: 'bulk', ci })
    })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const cfg = CONFIGS[u.ci]
    // initial contents are produced once by the code under test and then restored byte for byte
    resetWorld(1, { tick: 1 })
    const seed = new Data()
    const init = await opener(nb, seed, cfg)
    await init.c.put('seed', X); await init.c.delete('seed')
    const base = new Map()
    if (u.kind === 'seq') for (const [i, v] of INITS[u.ii]) { await init.c.put(i, cp(VAL[v])); mput(base, i, VAL[v]) }
    init.db.close()
    const snap = seed.snapshot()
    if (u.kind === 'io') {
      for (const [k, id] of IDS.entries()) for (const [j, val] of VALUES.entries()) {
        resetWorld(k * 100 + j, { tick: 1 })
        const data = new Data(); data.restore(snap)
        const st = { nb, data, cfg, model: new Map(), h: await opener(nb, data, cfg) }
        const other = IDS[(k + 1) % IDS.length]
        ctx.exec()
        try {
          await st.h.c.put(id, cp(val)); mput(st.model, id, val)
          await st.h.c.put(other, { o: 1 }); mput(st.model, other, { o: 1 })
          await observe(st.h, cfg, st.model, data, [id, other])
          st.h = await opener(nb, data, cfg)
          await observe(st.h, cfg, st.model, data, [id, other])
          await st.h.c.put(id, cp(val)); mput(st.model, id, val)
          await st.h.c.delete(other); st.model.delete(other)
          await observe(st.h, cfg, st.model, data, [id, other])
          ctx.trans(4); ctx.state(canon([cfg.name, id, val]))
        } catch (e) {
          ctx.violation(`io:${cfg.name}:${JSON.stringify(id).slice(0, 30)}:${j}:${e.what ?? e.name}`, `${cfg.name} id=${JSON.stringify(id).slice(0, 60)} value=${canon(val).slice(0, 100)}: ${e.stack}`)
        }
      }
      return
    }
    if (u.kind === 'bulk') {
      for (const size of SIZES) for (const how of ['one', 'many', 'atomic']) {
        resetWorld(size, { tick: 1 })
        const data = new Data(); data.restore(snap)
        const st = { nb, data, cfg, model: new Map(), h: await opener(nb, data, cfg) }
        const ids = Array.from({ length: size }, (_, i) => `k${i}`)
        ctx.exec()
        let stage = 'write'
        const writes = async (list, f) => {
          if (how === 'one') for (const i of list) await st.h.c.put(i, f(i))
          else { const r = await st.h.c.putMany(list.map((i) => [i, f(i)]), how === 'atomic' ? { atomic: true } : undefined); if (!r.ok || r.success.length !== list.length) throw new Mismatch('putMany result', r.success.length, list.length) }
          for (const i of list) mput(st.model, i, f(i))
        }
        try {
          for (const [s, f] of [
            ['write', () => writes(ids, (i) => ({ k: i, n: Number(i.slice(1)) % 7 }))],
            ['reopen', async () => { st.h.db.close(); st.h = await opener(nb, data, cfg) }],
            ['update', () => writes(ids.filter((_, i) => i % 2), (i) => ({ k: i, n: -1 }))],
            ['delete', async () => { const gone = ids.filter((_, i) => i % 3 === 0); if (how === 'one') for (const i of gone) await st.h.c.delete(i); else await st.h.c.deleteMany(gone); for (const i of gone) st.model.delete(i) }],
          ]) { stage = s; await f(); ctx.trans(); await observe(st.h, cfg, st.model, data, ids) }
          ctx.state(canon([cfg.name, size, how]))
        } catch (e) {
          ctx.violation(`bulk:${cfg.name}:${size}:${how}:${stage}`, `${cfg.name}, ${size} records written ${how}, after ${stage}: ${e.message}`)
        }
      }
      return
    }
    for (let len = 1; len <= u.depth; len++) {
      for (const rest of sequences(OPS.length, len - 1)) {
        const seq = [u.oi, ...rest]
        resetWorld(1, { tick: 1 })
        const data = new Data(); data.restore(snap)
        const st = { nb, data, cfg, model: new Map([...base].map(([k, v]) => [k, { ...v }])), h: null }
        ctx.exec()
        try {
          st.h = await opener(nb, data, cfg)
          for (const i of seq) { await apply(OPS[i], st); ctx.trans() }
          await observe(st.h, cfg, st.model, data)
          // durability: a fresh instance sees exactly the same
          const cfg2 = cfg.alt ? { ...cfg, coll: cfg.alt } : cfg
          const h2 = await opener(nb, data, cfg2)
          await observe(h2, cfg2, st.model, data)
          ctx.state(canon([cfg.name, [...st.model].sort()]))
        } catch (e) {
          const names = seq.map((i) => JSON.stringify(OPS[i]))
          ctx.violation(`seq:${cfg.name}:${u.ii}:${seq.join('.')}:${e.what ?? e.name}`, `${cfg.name} init=${u.ii} ops=${names.join(' ')}: ${e.stack}`)
        }
        if (ctx.executions === 1) ctx.sample({ config: cfg.name, ops: seq.map((i) => OPS[i]) })
      }
    }
  },
}
