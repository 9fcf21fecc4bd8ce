// P13 — every way of asking gives the same answer: indexed, composite, lazy, scanned and aggregated queries
// equal a straightforward evaluation over the records that exist.
import { resetWorld, settle } from '../lib/world.mjs'
import { sequences, canon } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

// ── reference evaluation ──────────────────────────────────────────────────────
const at = (r, p) => p.split('.').reduce((c, s) => (c === null || c === undefined ? undefined : c[s]), r)
const comparable = (a, b) => (typeof a === 'number' && typeof b === 'number') || (typeof a === 'string' && typeof b === 'string')
const FN = { even: (r) => typeof r.n === 'number' && r.n % 2 === 0, hasV: (r) => r.v !== undefined }
function holds(r, c) {
  if (c[0] === 'or') return c[1].some((x) => holds(r, x))
  if (c[0] === 'and') return c[1].every((x) => holds(r, x))
  if (c[0] === 'fn') return FN[c[1]](r)
  const [, f, op, v] = c, a = at(r, f)
  switch (op) {
    case '==': return a === v
    case '!=': return a !== v
    case '<': return comparable(a, v) && a < v
    case '<=': return comparable(a, v) && a <= v
    case '>': return comparable(a, v) && a > v
    case '>=': return comparable(a, v) && a >= v
    case 'in': return v.includes(a)
    case 'contains': return typeof a === 'string' ? typeof v === 'string' && a.includes(v) : Array.isArray(a) ? a.includes(v) : false
    case 'startsWith': return typeof a === 'string' && typeof v === 'string' && a.startsWith(v)
    case 'between': return comparable(a, v[0]) && comparable(a, v[1]) && a >= v[0] && a <= v[1]
  }
}
const rank = (x) => (x === undefined || x === null ? null : x)
function cmp(a, b, order) {
  for (const [f, d] of order) {
    const x = rank(at(a, f)), y = rank(at(b, f))
    let c = 0
    if (x === null || y === null) c = x === y ? 0 : x === null ? 1 : -1
    else if (typeof x === typeof y) c = x < y ? -1 : x > y ? 1 : 0
    if (c) return d === 'asc' ? c : -c
  }
  return 0
}
const num = (x) => (typeof x === 'number' && Number.isFinite(x) ? x : 0)
const AGG = { count: (rs) => rs.length, sum: (rs, f) => rs.reduce((s, r) => s + num(at(r, f)), 0), avg: (rs, f) => (rs.length ? rs.reduce((s, r) => s + num(at(r, f)), 0) / rs.length : null), min: (rs, f) => (rs.length ? Math.min(...rs.map((r) => num(at(r, f)))) : null), max: (rs, f) => (rs.length ? Math.max(...rs.map((r) => num(at(r, f)))) : null) }
const SPECS = [['n', 'n'], ['v', 'v'], ['k', 'o.k']]
const specOf = (nb, f) => ({ c: nb.aggregate.count(), s: nb.aggregate.sum(f), a: nb.aggregate.avg(f), lo: nb.aggregate.min(f), hi: nb.aggregate.max(f) })
const aggOf = (rs, f) => ({ c: AGG.count(rs), s: AGG.sum(rs, f), a: AGG.avg(rs, f), lo: AGG.min(rs, f), hi: AGG.max(rs, f) })

// ── alphabet ──────────────────────────────────────────────────────────────────
const DOCS = [
  { v: 1, n: 2, g: 'x', o: { k: 1 }, t: ['p'] },
  { v: '1', n: 10, g: 'y', o: { k: 2 } },
  { v: null, n: 9, g: 'x', t: ['p', 'q'] },
  { n: 2, g: 'y', o: {}, t: [1, 'r', null, true] },
  { v: 'ab', g: 'x', o: { k: 1 } },
  { v: true, n: -1, g: 'x|y', o: { k: 10 } },
  { v: 0, n: null, g: 'y', o: { k: null } },
  { v: 10, n: 1.5, o: { k: 2 }, t: 'pq' },
  { v: '', n: 2, g: 'x', o: { k: 0 } },
  { v: { z: 1 }, n: 3, g: 'y', o: { k: 1 } },
  { v: '2026-01-01T00:00:00.000Z', n: 10, g: 'x', t: ['1', { z: 1 }] },
]
const VALS = [undefined, null, 0, 1, '1', 10, 'ab', '', true, false]
const BASE = [] // single clauses
for (const op of ['==', '!=', '<', '<=', '>', '>=']) for (const v of VALS) BASE.push(['w', 'v', op, v])
for (const v of [[1], ['1', 0], [null], [], [1, 'ab', true], [undefined, 10]]) BASE.push(['w', 'v', 'in', v])
for (const v of ['a', 'b', '', '1', 1]) { BASE.push(['w', 'v', 'contains', v]); BASE.push(['w', 'v', 'startsWith', v]) }
for (const v of ['p', 'q', 'pq', '', 1, '1', null, true, undefined]) BASE.push(['w', 't', 'contains', v])
for (const v of [[0, 1], [1, 0], ['0', '2'], [1, '2'], [2, 10], [9, 10], [2, 2], ['1', '1'], [1.5, 2]]) { BASE.push(['w', 'v', 'between', v]); BASE.push(['w', 'n', 'between', v]) }
for (const op of ['==', '!=', '<', '<=', '>', '>=']) for (const v of [2, 9, 1.5]) { BASE.push(['w', 'n', op, v]); BASE.push(['w', 'o.k', op, v === 9 ? 1 : v]) }
for (const v of ['x', 'y', 'x|y']) { BASE.push(['w', 'g', '==', v]); BASE.push(['w', 'g', '!=', v]) }
BASE.push(['w', 'v', '==', '2026-01-01T00:00:00.000Z'], ['w', 't.0', '==', 'p'], ['w', 't.0', '==', 1], ['w', 'v.z', '==', 1])
BASE.push(['w', 'g', 'in', ['x', 'x|y']], ['w', 'n', 'in', [2, 9]], ['w', 'o.k', 'in', [1, 10]])
const PICK = [['w', 'g', '==', 'x'], ['w', 'n', '==', 2], ['w', 'v', '==', '1'], ['w', 'v', '==', 1], ['w', 'v', '!=', 1], ['w', 'n', '>', 1.5], ['w', 'o.k', '==', 1], ['w', 'g', 'in', ['x', 'y']], ['w', 'n', 'between', [2, 9]], ['w', 'v', '==', null]]
const QUERIES = []
for (const c of BASE) QUERIES.push({ cl: [c] })
QUERIES.push({ cl: [] })
for (const a of PICK) for (const b of PICK) if (a !== b) QUERIES.push({ cl: [a, b] })
for (const a of PICK) for (const b of PICK) if (PICK.indexOf(a) < PICK.indexOf(b)) { QUERIES.push({ cl: [['or', [a, b]]] }); QUERIES.push({ cl: [['and', [a, b]]] }); QUERIES.push({ cl: [PICK[0], ['or', [a, b]]] }) }
for (let i = 0; i < PICK.length; i++) for (const [j, k] of [[1, 2], [3, 5], [2, 7]]) QUERIES.push({ cl: [PICK[i], PICK[(i + j) % PICK.length], PICK[(i + k) % PICK.length]] })
QUERIES.push({ cl: [['fn', 'even']] }, { cl: [['fn', 'hasV'], PICK[0]] }, { cl: [PICK[1], ['fn', 'hasV']] }, { cl: [['or', []]] }, { cl: [['and', []]] }, { cl: [['or', [['fn', 'even'], PICK[2]]]] })
const ORDERS = [[['n', 'asc']], [['n', 'desc']], [['g', 'asc'], ['n', 'desc']], [['g', 'desc'], ['n', 'asc']], [['o.k', 'asc']], [['o.k', 'desc'], ['g', 'asc']]]
const WINDOWS = [[undefined, 0], [1, 0], [2, 0], [2, 1], [undefined, 1], [undefined, 5], [0, 0], [1, 2]]
for (const o of ORDERS) for (const [l, f] of WINDOWS) for (const cl of [[], [PICK[0]], [PICK[5]]]) QUERIES.push({ cl, order: o, limit: l, offset: f })
for (const [l, f] of WINDOWS.slice(1)) for (const cl of [[], [PICK[0]], [PICK[1]]]) QUERIES.push({ cl, limit: l, offset: f })
const SMALL = [{ cl: [] }, ...PICK.map((c) => ({ cl: [c] })), ...BASE.filter((c) => c[1] === 'v' && (c[2] === '==' || c[2] === 'in' || c[2] === '<')).map((c) => ({ cl: [c] })), { cl: [PICK[0], PICK[1]] }, { cl: [PICK[1], PICK[0]] }, { cl: [PICK[0], PICK[6]] }, ...ORDERS.map((o) => ({ cl: [], order: o })), { cl: [PICK[0]], order: ORDERS[0] }, { cl: [PICK[5]], order: ORDERS[1], limit: 1 }]

const MODES = {
  eager: {},
  indexed: { indexes: ['v', 'g', 'n', 'o.k'] },
  composite: { indexes: [{ fields: ['g', 'n'] }, 'v'] },
  lazy: { prefetch: false, cache: { maxRecords: 10 }, indexes: ['v', 'g', 'n', 'o.k'] },
  lazy1: { prefetch: false, cache: { maxRecords: 1 }, indexes: ['n', 'v', 'g', 'o.k'] },
  lazyComposite: { prefetch: false, cache: { maxRecords: 10 }, indexes: [{ fields: ['g', 'n'] }, { fields: ['n', 'o.k'] }, 'v'] },
  lazyAuto: { prefetch: false, cache: { maxRecords: 10 }, indexes: ['v', 'g', 'n', 'o.k'], reconcileOnOpen: 'auto' },
}
const LAZY_IX = { lazy: new Set(['v', 'g', 'n', 'o.k']), lazy1: new Set(['v', 'g', 'n', 'o.k']), lazyAuto: new Set(['v', 'g', 'n', 'o.k']), lazyComposite: new Set(['v', 'g', 'n', 'o.k']) }
const DRIVES = { lazy: LAZY_IX.lazy, lazy1: LAZY_IX.lazy, lazyAuto: LAZY_IX.lazy, lazyComposite: new Set(['v']) }
const OPS = ['put a 0', 'put a 1', 'put a 2', 'put a 4', 'put b 0', 'put b 3', 'put b 9', 'put b 6', 'rmw a', 'del a', 'many', 'tx', 'revert', 'reopen', 'rebuild', 'foreign', 'txfail']
const cp = (v) => JSON.parse(JSON.stringify(v))
const key = (r) => canon(r)
const txt = (q) => JSON.stringify(q, (k, v) => (v === undefined ? '∅' : v))

function build(q0, q) {
  const add = (x, c) => (c[0] === 'w' ? x.where(c[1], c[2], c[3]) : c[0] === 'fn' ? x.filter(FN[c[1]]) : x[c[0]]((s) => c[1].reduce(add, s)))
  let x = q.cl.reduce(add, q0)
  for (const [f, d] of q.order ?? []) x = x.orderBy(f, d)
  if (q.limit !== undefined) x = x.limit(q.limit)
  if (q.offset) x = x.offset(q.offset)
  return x
}
/** lazy queries must name a driver: what may legitimately be refused or restricted */
function lazyAnswerable(mode, q) {
  if (q.cl.some((c) => c[0] !== 'w')) return 'skip'
  const touched = [...q.cl.map((c) => c[1]), ...(q.order ?? []).map((o) => o[0])]
  if (touched.some((f) => !LAZY_IX[mode].has(f))) return 'refused'
  const eq = new Set(q.cl.filter((c) => c[2] === '==' && c[3] !== null && c[3] !== undefined).map((c) => c[1]))
  if (mode === 'lazyComposite' && ((eq.has('g') && eq.has('n')) || (eq.has('n') && eq.has('o.k')))) return 'ok'
  for (const c of q.cl) {
    if (!DRIVES[mode].has(c[1])) continue
    if (c[2] === '==' && c[3] !== null && c[3] !== undefined) return 'ok'
    if (c[2] === 'in' && !c[3].some((v) => v === null || v === undefined)) return 'ok'
    if (['<', '<=', '>', '>=', 'between'].includes(c[2])) return 'ok'
  }
  if (q.order?.length && DRIVES[mode].has(q.order[0][0])) return 'ordered'
  return 'refused'
}
function compare(got, recs, q, bad) {
  const match = recs.filter((r) => q.cl.every((c) => holds(r, c)))
  const order = q.order ?? []
  const sorted = [...match].sort((a, b) => cmp(a, b, order))
  const off = q.offset ?? 0
  const win = q.limit === undefined ? sorted.slice(off) : sorted.slice(off, off + q.limit)
  if (!Array.isArray(got) || got.length !== win.length) return bad(`${got?.length} records instead of ${win.length}`)
  const bag = new Map()
  for (const r of match) bag.set(key(r), (bag.get(key(r)) ?? 0) + 1)
  for (let i = 0; i < got.length; i++) {
    const k = key(got[i]), n = bag.get(k) ?? 0
    if (!n) return bad(`returned ${k}, which does not match (or twice)`)
    bag.set(k, n - 1)
    if (order.length && cmp(got[i], win[i], order) !== 0) return bad(`position ${i} holds ${k} instead of one like ${key(win[i])}`)
  }
}

async function askEager(nb, c, recs, queries, bad, ctx, deep) {
  await c.list()
  for (const q of queries) {
    const base = c.query()
    const x = build(base, q)
    const r = await attempt(async () => x.toArray())
    const say = (w) => bad('query', `query ${txt(q)}: ${w}`)
    if (!r.ok) { say(`failed: ${r.err}`); continue }
    compare(r.val, recs, q, say)
    const match = recs.filter((z) => q.cl.every((cl) => holds(z, cl)))
    const n = x.count()
    if (n !== match.length) bad('count', `count of ${txt(q)} is ${n}, expected ${match.length}`)
    const f = x.first(), win = [...match].sort((a, b) => cmp(a, b, q.order ?? []))[q.offset ?? 0]
    if ((f === null) !== (win === undefined) && q.limit !== 0) bad('first', `first of ${txt(q)} is ${canon(f)}, expected ${canon(win ?? null)}`)
    else if (f && q.limit !== 0 && (cmp(f, win, q.order ?? []) !== 0 || !match.some((m) => key(m) === key(f)))) bad('first', `first of ${txt(q)} is ${canon(f)}, expected one like ${canon(win)}`)
    ctx.trans(3)
    if (deep && q.limit === undefined && !q.offset && !q.order) {
      for (const [, fld] of SPECS) {
        const g = x.aggregate(specOf(nb, fld)).run(), w = aggOf(match, fld)
        if (canon(g) !== canon(w)) bad('aggregate', `aggregate(${fld}) over ${txt(q)} is ${canon(g)}, expected ${canon(w)}`)
      }
      for (const gf of ['g', 'o.k', 'v']) {
        if (match.some((z) => typeof at(z, gf) === 'object' && at(z, gf) !== null)) continue
        const rows = x.groupBy(gf).aggregate(specOf(nb, 'n')).run()
        const m = new Map(); for (const z of match) { const kk = at(z, gf); m.set(kk, [...(m.get(kk) ?? []), z]) }
        const want = [...m].map(([kk, zs]) => canon([kk === undefined ? '∅' : kk, aggOf(zs, 'n')])).sort()
        const got = rows.map((row) => { const { [gf]: kk, ...rest } = row; return canon([kk === undefined ? '∅' : kk, rest]) }).sort()
        if (canon(got) !== canon(want)) bad('groupBy', `groupBy(${gf}) over ${txt(q)} is ${got.join(' ')}, expected ${want.join(' ')}`)
      }
      if (base.toArray().length !== recs.length) bad('builder', `deriving ${txt(q)} changed the base query`)
    }
  }
}
async function askLazy(mode, c, recs, queries, bad, ctx) {
  for (const q of queries) {
    const how = lazyAnswerable(mode, q)
    if (how === 'skip') continue
    const x = build(c.lazyQuery(), q)
    const r = await attempt(() => x.toArray())
    ctx.trans()
    if (how === 'refused') { if (r.ok || r.err.name !== 'IndexRequiredError') bad('refused', `lazy query ${txt(q)} without usable index gave ${r.ok ? JSON.stringify(r.val) : r.err}`); continue }
    if (!r.ok) { bad('lazy', `lazy query ${txt(q)} failed: ${r.err}`); continue }
    const scope = how === 'ordered' ? recs.filter((z) => rank(at(z, q.order[0][0])) !== null) : recs
    compare(r.val, scope, q, (w) => bad('lazy', `lazy query ${txt(q)}: ${w}`))
    if (q.limit === undefined && !q.offset) {
      const n = await x.count(), match = scope.filter((z) => q.cl.every((cl) => holds(z, cl)))
      if (n !== match.length) bad('lazy', `lazy count of ${txt(q)} is ${n}, expected ${match.length}`)
      const f = await x.first()
      if ((f === null) !== (match.length === 0)) bad('lazy', `lazy first of ${txt(q)} is ${canon(f)}`)
    }
  }
}
async function askScan(nb, c, recs, queries, bad, ctx, sizes) {
  for (const pageSize of sizes) for (const q of queries) {
    if (q.order || q.limit !== undefined || q.offset || q.cl.some((z) => z[0] === 'or' || z[0] === 'and')) continue
    const x = build(c.scan({ pageSize }), q)
    const r = await attempt(async () => { const out = []; for await (const z of x) out.push(z); return out })
    ctx.trans()
    if (!r.ok) { bad('scan', `scan(${pageSize}) ${txt(q)} failed: ${r.err}`); continue }
    compare(r.val, recs, q, (w) => bad('scan', `scan(${pageSize}) ${txt(q)}: ${w}`))
    const match = recs.filter((z) => q.cl.every((cl) => holds(z, cl)))
    const g = await x.aggregate(specOf(nb, 'n'))
    if (canon(g) !== canon(aggOf(match, 'n'))) bad('scan', `scan(${pageSize}).aggregate over ${txt(q)} is ${canon(g)}, expected ${canon(aggOf(match, 'n'))}`)
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive exploration of bounded write histories and of all small collections on the real code, every query of a bounded grammar answered through six access paths and compared with an independent evaluation',
  modules: HUB,
  bounds: (t) => `query semantics: all multisets of <= 3 records${t === 'quick' ? ' (every second triple in lazy modes)' : ''} over ${DOCS.length} documents x ${QUERIES.length} queries, eager/indexed/composite/lazy/scan; index maintenance: all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} operations x ${Object.keys(MODES).length} access modes x ${SMALL.length} queries; ${130} records in every mode before and after changes by a client without indexes; deterministic lookups over all sets of <= 3 documents`,
  assumptions: ['ordering is only compared on fields holding one type besides nullish values (mixed types have no documented order)', 'lazy queries may refuse when no index can drive them, and an order-driven lazy query lists the records that hold the field (documented)', 'records come out in any order when no order is asked for'],
  units(tier) {
    const out = []
    for (let i = 0; i < DOCS.length; i++) for (const m of Object.keys(MODES)) out.push({ sem: i, m })
    for (const m of Object.keys(MODES)) out.push({ m, bulk: 130 })
    for (const lazy of [false, true]) for (let i = 0; i < DOCS.length; i++) out.push({ m: lazy ? 'lazy' : 'eager', det: i })
    for (const m of Object.keys(MODES)) for (let i = 0; i < OPS.length; i++) out.push({ m, i, len: tier === 'quick' ? 3 : 4 })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb, mode = u.m, isLazy = mode.startsWith('lazy')
    const open = async (data) => {
      const db = await openDb(nb, plainStore(nb.hub, data), { encrypt: false, except: ['sync', 'session'] })
      const v = await db.openVault('V')
      const x = v.collection('x', MODES[mode])
      // half of the lazy modes load the index before the history starts, the others at the first question
      if (mode === 'lazy' || mode === 'lazyComposite') await x.lazyQuery().where('v', '==', 'none').toArray()
      return { db, v, x }
    }
    if (u.bulk) {
      resetWorld(1)
      const data = new Data()
      const r = await attempt(() => settle(async () => {
        let S = await open(data)
        const live = new Map()
        for (let i = 0; i < u.bulk; i++) { const d = { ...cp(DOCS[i % DOCS.length]), i }; live.set(`r${i}`, d); if (i % 2) await S.x.put(`r${i}`, cp(d)) }
        await S.x.putMany([...live].filter((_, i) => i % 2 === 0).map(([id, d]) => [id, cp(d)]))
        const look = async (when) => {
          ctx.exec(); ctx.trans(); ctx.state([mode, when])
          const bad = (k, w) => ctx.violation(`bulk:${k}:${mode}`, `[${mode}] ${live.size} records, ${when}: ${w.slice(0, 300)}`)
          const recs = [...live.values()]
          if (isLazy) await askLazy(mode, S.x, recs, SMALL, bad, ctx)
          else { await S.x.list(); await askEager(nb, S.x, recs, SMALL, bad, ctx, true) }
          await askScan(nb, S.x, recs, SMALL.slice(0, 3), bad, ctx, [7, 100, 1000])
        }
        await look('written')
        S.db.close(); S = await open(data)
        await look('reopened')
        for (const how of ['rebuild', 'reconcile']) {
          // a client that knows nothing about the indexes changes half of them
          const odb = await openDb(nb, plainStore(nb.hub, data), { encrypt: false, except: ['sync', 'session', 'indexing'] })
          const oc = (await odb.openVault('V')).collection('x')
          let k = 0
          for (const id of [...live.keys()]) { k++; if (k % 4 === 0) { await oc.delete(id); live.delete(id) } else if (k % 4 === 1) { const d = { ...cp(DOCS[(k + 3) % DOCS.length]), i: k }; await oc.put(id, cp(d)); live.set(id, d) } }
          odb.close(); S.db.close(); S = await open(data)
          if (isLazy && mode !== 'lazyAuto') { if (how === 'rebuild') await S.x.rebuildIndexes(); else for (const f of mode === 'lazyComposite' ? ['g|n', 'n|o.k', 'v'] : ['v', 'g', 'n', 'o.k']) await S.x.reconcileIndex(f) }
          await look(`after foreign changes and ${how}`)
        }
        S.db.close()
      }))
      if (!r.ok) ctx.violation(`bulk:error:${mode}`, `[${mode}] ${u.bulk} records: ${r.err?.stack}`)
      return
    }
    if (u.det !== undefined) {
      const opts = { deterministicFields: ['v', 'g', 'o'], acknowledgeDeterministicRisk: true, ...(isLazy ? { prefetch: false, cache: { maxRecords: 1 }, indexes: ['n'] } : {}) }
      const form = (x) => (x === undefined || x === null ? null : typeof x === 'string' ? x : JSON.stringify(x))
      const sets = [[u.det]]
      for (let j = 0; j < DOCS.length; j++) { sets.push([u.det, j]); for (let k = 0; k < DOCS.length; k++) sets.push([u.det, j, k]) }
      for (const set of sets) {
        resetWorld(1)
        const data = new Data()
        const bad = (k, w) => ctx.violation(`det:${k}`, `[${isLazy ? 'lazy' : 'eager'}] records ${canon(set.map((i) => DOCS[i]))}: ${w}`)
        const r = await attempt(() => settle(async () => {
          const db = await openDb(nb, plainStore(nb.hub, data), { except: ['sync', 'session'] })
          const c = (await db.openVault('V')).collection('x', opts)
          // the first one twice, so that its first value is no longer current
          await c.put('a', cp(DOCS[(set[0] + 1) % DOCS.length]))
          for (let i = 0; i < set.length; i++) await c.put('abc'[i], cp(DOCS[set[i]]))
          if (set.length === 3) await c.delete('b')
          const recs = set.map((i) => DOCS[i]).filter((_, i) => set.length < 3 || i !== 1)
          ctx.exec(); ctx.state(['det', set])
          for (const [f, vals] of [['v', [0, 1, '1', 10, 'ab', '', true, { z: 1 }, 'zz']], ['g', ['x', 'y', 'x|y', 'X']], ['o', [{ k: 1 }, {}, { k: 3 }]]]) for (const val of vals) {
            // values of different types with the same text are not told apart
            const want = recs.filter((z) => form(z[f]) === form(val)).map(canon).sort()
            const all = await c.queryByDet(f, val), one = await c.findByDet(f, val)
            ctx.trans(2)
            if (canon(all.map(canon).sort()) !== canon(want)) bad('query', `queryByDet(${f}, ${JSON.stringify(val)}) gives ${canon(all)}`)
            if (one === null ? want.length : !want.includes(canon(one))) bad('find', `findByDet(${f}, ${JSON.stringify(val)}) gives ${canon(one)}`)
          }
          db.close()
        }))
        if (!r.ok) bad('error', String(r.err))
      }
      return
    }
    if (u.sem !== undefined) {
      const quick = ctx.tier === 'quick'
      const sets = [[u.sem]]
      for (let j = u.sem; j < DOCS.length; j++) { sets.push([u.sem, j]); for (let k = j; k < DOCS.length; k++) if (!quick || !isLazy || (u.sem + j + k) % 2 === 0) sets.push([u.sem, j, k]) }
      if (u.sem === 0) sets.push([])
      for (const set of sets) {
        resetWorld(1)
        const data = new Data()
        const rr = await attempt(() => settle(async () => {
          const S = await open(data)
          for (let i = 0; i < set.length; i++) await S.x.put('abc'[i], cp(DOCS[set[i]]))
          const recs = set.map((i) => DOCS[i])
          ctx.exec(); ctx.state(['sem', set]); ctx.last = canon(set)
          const bad = (k, w) => ctx.violation(`${k}:${mode}`, `[${mode}] records ${canon(recs)}: ${w}`)
          if (isLazy) await askLazy(mode, S.x, recs, mode === 'lazy1' || mode === 'lazyAuto' ? SMALL : QUERIES, bad, ctx)
          else await askEager(nb, S.x, recs, QUERIES, bad, ctx, mode !== 'composite')
          if (mode === 'eager' || mode === 'lazy') await askScan(nb, S.x, recs, mode === 'eager' ? QUERIES : SMALL, bad, ctx, set.length === 3 ? [1, 2, 100] : [2])
          S.db.close()
        }))
        if (!rr.ok) ctx.violation(`error:${mode}`, `[${mode}] ${canon(set)}: ${rr.err}`)
      }
      if (ctx.executions) ctx.sample({ mode, records: sets.at(-1), queries: QUERIES.length })
      return
    }
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(OPS.length, len - 1)) {
      const seq = [u.i, ...rest].map((k) => OPS[k])
      resetWorld(1)
      const data = new Data()
      let S = await open(data), skip = false
      const live = {}, hist = {}
      const put = (id, d) => { (hist[id] ??= []).push(d); live[id] = d }
      let n = 0
      for (const op of seq) {
        n++
        const [what, id, d] = op.split(' ')
        const r = await attempt(() => settle(async () => {
          switch (what) {
            case 'put': await S.x.put(id, cp(DOCS[d])); put(id, DOCS[d]); break
            case 'rmw': { if (!live[id]) { skip = true; return } const z = await S.x.get(id); z.v = n; z.g = 'x'; (z.o ??= {}).k = 1; await S.x.put(id, z); put(id, { ...cp(live[id]), v: n, g: 'x', o: { ...cp(live[id].o ?? {}), k: 1 } }); break }
            case 'del': if (!live[id]) { skip = true; return } await S.x.delete(id); delete live[id]; hist[id] = []; break
            case 'many': await S.x.putMany([['a', cp(DOCS[5])], ['c', cp(DOCS[8])]]); put('a', DOCS[5]); put('c', DOCS[8]); break
            case 'tx': await S.db.transaction(async (tx) => { const z = tx.vault('V').collection('x'); z.put('b', cp(DOCS[6])); z.put('c', cp(DOCS[0])) }); put('b', DOCS[6]); put('c', DOCS[0]); break
            case 'txfail': { const z = await attempt(() => S.db.transaction(async (tx) => { const k = tx.vault('V').collection('x'); k.put('a', cp(DOCS[7])); k.delete('b'); k.put('c', cp(DOCS[3]), { expectedVersion: 99 }) })); if (z.ok) throw new Error('transaction with a stale precondition succeeded'); break }
            case 'revert': if ((hist.a ?? []).length < 2 || !live.a) { skip = true; return } await S.x.revert('a', 1); put('a', hist.a[0]); break
            case 'reopen': S.db.close(); S = await open(data); break
            case 'rebuild': if (mode === 'eager') { skip = true; return } await S.x.rebuildIndexes(); break
            case 'foreign': { // a client that knows nothing about the indexes writes, then the collection is reconciled
              if (!isLazy) { skip = true; return }
              const odb = await openDb(nb, plainStore(nb.hub, data), { encrypt: false, except: ['sync', 'session', 'indexing'] })
              const oc = (await odb.openVault('V')).collection('x')
              await oc.put('b', cp(DOCS[7])); put('b', DOCS[7])
              for (const k of ['a', 'c']) if (live[k]) { await oc.delete(k); delete live[k]; hist[k] = [] }
              odb.close()
              S.db.close(); S = await open(data)
              if (mode === 'lazyAuto') break
              if (n % 2) for (const f of mode === 'lazyComposite' ? ['g|n', 'n|o.k', 'v'] : ['v', 'g', 'n', 'o.k']) await S.x.reconcileIndex(f)
              else await S.x.rebuildIndexes()
              break
            }
          }
        }))
        if (!r.ok) { ctx.violation(`op:${what}:${mode}`, `[${mode}] ${seq.join(' ; ')}: ${op} failed: ${r.err}`); skip = true }
        if (skip) break
      }
      if (skip) { S.db.close(); continue }
      ctx.exec(); ctx.trans(seq.length); ctx.last = seq.join(' ; ')
      const recs = Object.values(live)
      const bad = (k, w) => ctx.violation(`${k}:${mode}`, `[${mode}] after ${seq.join(' ; ')} (${canon(live)}): ${w}`)
      const rr = await attempt(() => settle(async () => {
        if (isLazy) await askLazy(mode, S.x, recs, SMALL, bad, ctx)
        else await askEager(nb, S.x, recs, SMALL, bad, ctx, false)
        if (len === u.len) await askScan(nb, S.x, recs, SMALL.slice(0, 3), bad, ctx, [2])
      }))
      if (!rr.ok) bad('error', String(rr.err))
      S.db.close()
      ctx.state([mode, live])
      if (ctx.executions <= 1) ctx.sample({ mode, history: seq, records: live })
    }
  },
}
