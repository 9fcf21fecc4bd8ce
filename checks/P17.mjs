// P17 — CRDT records: writes read back, merges are deterministic and lose nothing.
import { resetWorld, settle, W } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const MANUAL = { push: { mode: 'manual' }, pull: { mode: 'manual' } }
const ARR = [[]]
for (let len = 1; len <= 3; len++) for (const s of sequences(2, len)) ARR.push(s.map((k) => [1, { x: 2 }][k]))
const REG = [null]
for (const v of [0, '0', null, { x: 1 }, { x: 2 }]) for (const ts of ['2026-01-01T00:00:00.000Z', '2026-01-01T00:00:00.001Z', '2026-01-02T00:00:00.000Z']) REG.push({ v, ts })
const bag = (a) => a.map(canon).sort()
const freeze = (o) => { if (o && typeof o === 'object' && !Object.isFrozen(o)) { Object.freeze(o); for (const k of Object.keys(o)) freeze(o[k]) } return o }

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of reachable CRDT states and of all pairs and triples of them against the merge laws; exhaustive histories of one and two devices on the real code against a model of the record',
  modules: HUB,
  bounds: (t) => `sequences: all arrays of up to three elements over two values, chains of up to three writes, two replicas one or two writes apart; maps: all pairs and triples of states over two fields with ${REG.length} registers${t === 'quick' ? ' (triples over one field)' : ''}; histories of length <= ${t === 'quick' ? 4 : 5} on two devices`,
  assumptions: ['yjs records are opaque to the hub (the newer version wins, documented)'],
  units(tier) {
    return [...ARR.map((_, i) => ({ rga: i })), ...REG.map((_, i) => ({ lww: i })), ...['rga', 'lww-map'].flatMap((mode) => [false, true].map((lazy) => ({ single: mode, lazy }))),
      ...Array.from({ length: 6 }, (_, i) => ({ pair: i, len: tier === 'quick' ? 4 : 5 }))]
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb, K = nb.crdt
    resetWorld(1)
    if (u.rga !== undefined) return rga(u, ctx, K)
    if (u.lww !== undefined) return lww(u, ctx, K)
    if (u.single) return single(u, ctx, nb)
    return pair(u, ctx, nb)
  },
}
function rga(u, ctx, K) {
  let nid = 0
  const snap = (s) => K.resolveCrdtSnapshot(s)
  const build = (arr, ex, who) => freeze(K.buildRgaState(freeze(JSON.parse(JSON.stringify(arr))), ex, () => `${String(1000 + (nid += who === 'q' ? 7 : 1))}${who}`))
  const live = (s) => { const d = new Set(s.tombstones); return s.items.filter((i) => !d.has(i.nid)) }
  const base = build(ARR[u.rga], undefined, 'o')
  const bad = (k, w) => ctx.violation(`rga:${k}`, w)
  const okPut = (s, arr, how) => {
    ctx.trans()
    if (!same(snap(s), arr)) bad('put', `${how}: reads back as ${canon(snap(s))}`)
    if (new Set(s.items.map((i) => i.nid)).size !== s.items.length) bad('nid', `${how}: two elements share an id`)
  }
  okPut(base, ARR[u.rga], `put ${canon(ARR[u.rga])}`)
  const P = [], Q = []
  for (const a1 of ARR) {
    const p = build(a1, base, 'p'), how = `put ${canon(ARR[u.rga])}, put ${canon(a1)}`
    okPut(p, a1, how); P.push({ s: p, how: canon(a1) })
    // what was removed stays recorded, so that the removal survives a merge with the older state
    if (!same(bag(snap(K.mergeCrdtStates(p, base))), bag(a1)) || !same(bag(snap(K.mergeCrdtStates(base, p))), bag(a1))) bad('stale', `${how}: merged with the earlier state it reads ${canon(snap(K.mergeCrdtStates(p, base)))}`)
    const q = build(a1, base, 'q'); Q.push({ s: q, how: canon(a1) })
    for (const a2 of ARR) {
      const p2 = build(a2, p, 'p'); okPut(p2, a2, `${how}, put ${canon(a2)}`)
      P.push({ s: p2, how: `${canon(a1)}, ${canon(a2)}` })
      if (ctx.tier !== 'quick' || a1.length + a2.length < 4) for (const a3 of ARR) okPut(build(a3, p2, 'p'), a3, `${how}, put ${canon(a2)}, put ${canon(a3)}`)
    }
  }
  for (const p of P) for (const q of Q) {
    ctx.exec()
    const how = `from ${canon(ARR[u.rga])} one device put ${p.how}, the other ${q.how}`
    const m1 = freeze(K.mergeCrdtStates(p.s, q.s)), m2 = freeze(K.mergeCrdtStates(q.s, p.s))
    if (!same(snap(m1), snap(m2))) bad('commute', `${how}: merged ${canon(snap(m1))} or ${canon(snap(m2))} depending on the side`)
    const gone = new Set([...p.s.tombstones, ...q.s.tombstones])
    const want = new Map([...p.s.items, ...q.s.items].filter((i) => !gone.has(i.nid)).map((i) => [i.nid, i.v]))
    const got = live(m1)
    if (got.length !== want.size || got.some((i) => !want.has(i.nid) || !same(want.get(i.nid), i.v))) bad('elements', `${how}: merged ${canon(snap(m1))}, expected the elements ${canon([...want.values()])}`)
    for (const s of [p.s, q.s]) if (!same(bag(snap(K.mergeCrdtStates(m1, s))), bag(snap(m1)))) bad('absorb', `${how}: merging a side again changes ${canon(snap(m1))}`)
    if (!same(snap(K.mergeCrdtStates(m1, m1)), snap(m1))) bad('idempotent', `${how}: merging twice changes ${canon(snap(m1))}`)
    // elements both sides hold in the same order keep it
    const ip = live(p.s).map((i) => i.nid), iq = live(q.s).map((i) => i.nid), im = got.map((i) => i.nid)
    for (const x of ip) for (const y of ip) if (iq.includes(x) && iq.includes(y) && im.includes(x) && im.includes(y) && ip.indexOf(x) < ip.indexOf(y) && iq.indexOf(x) < iq.indexOf(y) && im.indexOf(x) > im.indexOf(y)) bad('order', `${how}: elements both sides agree on were reordered`)
    // writing after the merge
    const w = build([...snap(m1), 9], m1, 'p'); okPut(w, [...snap(m1), 9], `${how}, merged, then appended`)
    for (const b of [base]) if (!same(bag(snap(K.mergeCrdtStates(K.mergeCrdtStates(p.s, b), q.s))), bag(snap(K.mergeCrdtStates(p.s, K.mergeCrdtStates(b, q.s)))))) bad('assoc', `${how}: grouping of merges matters`)
    ctx.state(snap(m1))
  }
}
function lww(u, ctx, K) {
  const st = (f) => freeze({ _crdt: 'lww-map', fields: Object.fromEntries(Object.entries(f).filter(([, r]) => r)) })
  const bad = (k, w) => ctx.violation(`lww:${k}`, w)
  const quick = ctx.tier === 'quick'
  const states = quick ? REG.map((a) => st({ a })) : REG.flatMap((a) => REG.map((b) => st({ a, b })))
  const mine = quick ? [st({ a: REG[u.lww] })] : REG.map((b) => st({ a: REG[u.lww], b }))
  const M = (a, b) => freeze(K.mergeCrdtStates(a, b))
  for (const a of mine) for (const b of states) {
    const ab = M(a, b)
    ctx.exec()
    if (!same(ab, M(b, a))) bad('commute', `${canon(a.fields)} with ${canon(b.fields)} gives ${canon(ab.fields)} or ${canon(M(b, a).fields)}`)
    if (!same(M(ab, b), ab) || !same(M(a, ab), ab)) bad('absorb', `${canon(a.fields)} with ${canon(b.fields)}: merging again changes ${canon(ab.fields)}`)
    for (const f of new Set([...Object.keys(a.fields), ...Object.keys(b.fields)])) {
      const x = a.fields[f], y = b.fields[f], g = ab.fields[f]
      const ok = !x ? [y] : !y ? [x] : x.ts > y.ts ? [x] : y.ts > x.ts ? [y] : [x, y]
      if (!ok.some((r) => same(r, g))) bad('later', `${canon(x)} with ${canon(y)} gives ${canon(g)}`)
    }
    if (quick && !Object.keys(b.fields).length) continue
    for (const c of quick ? states : states.filter((_, i) => i % 1 === 0).slice(0, REG.length * 2)) { ctx.trans(); if (!same(M(ab, c), M(a, M(b, c)))) bad('assoc', `${canon(a.fields)}, ${canon(b.fields)}, ${canon(c.fields)}: grouping of merges matters`) }
    // two fields are independent
    const two = M(st({ a: a.fields.a, z: b.fields.a }), st({ a: b.fields.a, z: a.fields.a }))
    if (!same(two.fields.a, two.fields.z)) bad('fields', `fields are not merged independently: ${canon(two.fields)}`)
    // a write on top of either
    for (const s of [a, b, ab]) {
      const now = '2026-01-03T00:00:00.000Z', w = K.buildLwwMapState(freeze({ a: 'new', q: [1] }), s, now)
      const e = { ...s.fields, a: { v: 'new', ts: now }, q: { v: [1], ts: now } }
      if (!same(w.fields, e)) bad('put', `writing a and q on ${canon(s.fields)} gives ${canon(w.fields)}`)
      if (!same(K.resolveCrdtSnapshot(w), Object.fromEntries(Object.entries(e).map(([k, r]) => [k, r.v])))) bad('snapshot', `${canon(w.fields)} reads as ${canon(K.resolveCrdtSnapshot(w))}`)
    }
    ctx.state(ab)
  }
}
// one device: every write reads back
async function single(u, ctx, nb) {
  const rgaMode = u.single === 'rga'
  const vals = rgaMode ? [[], ['a'], ['a', 'b'], ['b', 'a', 'a'], [null, 0, '', false]] : [{ a: 1 }, { b: 2 }, { a: 3, b: 4 }, { a: 1, c: [1] }]
  const OPS = [...vals.map((_, i) => `put ${i}`), 'delete', 'reopen']
  for (let len = 1; len <= (ctx.tier === 'quick' ? 4 : 5); len++) for (const ks of sequences(OPS.length, len)) {
    resetWorld(2)
    const data = new Data()
    const open = async () => { const db = await openDb(nb, plainStore(nb.hub, data), { use: ['crdt', 'history', 'indexing'] }); const v = await db.openVault('V'); return { db, c: v.collection('c', { crdt: u.single, ...(u.lazy ? { prefetch: false, cache: { maxRecords: 1 } } : {}) }) } }
    let X = await settle(open), m = null, n = 0
    const name = ks.map((k) => OPS[k]).join(' ; ')
    for (const k of ks) {
      W.now += 5
      const [what, i] = OPS[k].split(' ')
      const r = await attempt(() => settle(async () => {
        if (what === 'put') { await X.c.put('r', vals[i]); m = rgaMode ? vals[i] : { ...(m ?? {}), ...vals[i] }; n++ } else if (what === 'delete') { await X.c.delete('r'); m = null } else { X.db.close(); X = await open() }
        return [await X.c.get('r'), u.lazy ? null : await X.c.list(), await X.c.getRaw('r')]
      }))
      ctx.trans()
      if (!r.ok) { ctx.violation(`single:${what}`, `${u.single}${u.lazy ? ' lazy' : ''}: ${name}: ${OPS[k]} fails: ${r.err}`); break }
      const [g, l, raw] = r.val
      if (!same(g, m)) ctx.violation('single:get', `${u.single}${u.lazy ? ' lazy' : ''}: ${name}: after ${OPS[k]} get returns ${canon(g)}, expected ${canon(m)}`)
      if (l && !same(l, m === null ? [] : [m])) ctx.violation('single:list', `${u.single}: ${name}: list returns ${canon(l)}, expected ${canon(m)}`)
      if (m !== null && !same(nb.crdt.resolveCrdtSnapshot(raw), m)) ctx.violation('single:raw', `${u.single}: ${name}: getRaw resolves to ${canon(nb.crdt.resolveCrdtSnapshot(raw))}, expected ${canon(m)}`)
    }
    ctx.exec(); ctx.last = name; ctx.state([u, m]); X.db.close()
  }
}
// two devices edit one list; elements have unique values
async function pair(u, ctx, nb) {
  const OPS = ['A add', 'A rm', 'A sync', 'B add', 'B rm', 'B sync']
  for (let len = 1; len <= u.len; len++) for (const rest of sequences(OPS.length, len - 1)) {
    const ks = [u.pair, ...rest]
    resetWorld(3)
    const D = { A: new Data(), B: new Data() }, R = new Data()
    const open = async (d) => { const db = await openDb(nb, plainStore(nb.hub, D[d]), { encrypt: false, use: ['crdt', 'sync'], sync: plainStore(nb.hub, R), syncPolicy: MANUAL }); return { db, c: (await db.openVault('V')).collection('c', { crdt: 'rga' }) } }
    const S = { A: await settle(() => open('A')), B: await settle(() => open('B')) }
    await settle(async () => { await S.A.c.put('r', ['x0', 'x1']); await S.A.db.push('V'); await S.B.db.pull('V') })
    const removed = new Set(), added = new Set(['x0', 'x1'])
    const name = ks.map((k) => OPS[k]).join(' ; ')
    let n = 1
    for (const op of [...ks.map((k) => OPS[k]), 'A sync', 'B sync', 'A sync', 'B sync']) {
      W.now += 5
      const [d, what] = op.split(' ')
      const r = await attempt(() => settle(async () => {
        const X = S[d]
        if (what === 'sync') { const q = await X.db.sync('V'); for (const e of [...q.pull.errors, ...q.push.errors]) throw e; return }
        const cur = (await X.c.get('r')) ?? []
        if (what === 'add') { const v = `${d}${++n}`; await X.c.put('r', [v, ...cur]); added.add(v) } else if (cur.length) { await X.c.put('r', cur.slice(0, -1)); removed.add(cur[cur.length - 1]) }
        const after = await X.c.get('r')
        if (what === 'add' && after[0] !== `${d}${n}`) throw new Error(`the added element is not shown: ${canon(after)}`)
      }))
      ctx.trans()
      if (!r.ok) ctx.violation(`pair:${what}`, `${name}: ${op}: ${r.err}`)
    }
    const [a, b] = await settle(async () => [await S.A.c.get('r'), await S.B.c.get('r')])
    ctx.exec(); ctx.last = name
    if (!same(a, b)) ctx.violation('pair:diverge', `${name}: A shows ${canon(a)}, B ${canon(b)}`)
    const want = [...added].filter((x) => !removed.has(x))
    if (!same([...a].sort(), want.sort())) ctx.violation('pair:elements', `${name}: the list is ${canon(a)}, expected the elements ${canon(want)}`)
    ctx.state(a); S.A.db.close(); S.B.db.close()
  }
}
