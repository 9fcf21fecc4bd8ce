// P45 — collaborative documents: what editors deliver is what everybody reads.
import { resetWorld, settle } from '../lib/world.mjs'
import { canon, same, sequences, exploreAll } from '../lib/explore.mjs'
import { Data, Sched, plainStore, hookedStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const FIELDS = (nb) => ({ body: nb.yjs.yText(), meta: nb.yjs.yMap(), tags: nb.yjs.yArray() })
const show = (x) => { const s = canon(x) ?? String(x); return s.length > 200 ? s.slice(0, 200) + '…' : s }
const MARK = 'PLAINTEXTMARK'
const view = (d) => ({ body: d.getText('body').toDelta(), meta: d.getMap('meta').toJSON(), tags: d.getArray('tags').toJSON(), extra: d.getMap('extra').toJSON() })
const EDITS = [
  (Y, d, n) => d.getText('body').insert(0, `${MARK}${n}ß𝄞`),
  (Y, d, n) => { d.getMap('meta').set('k', n); d.getMap('extra').set('own', [n, null, '']) },
  (Y, d, n) => d.getArray('tags').insert(0, [{ n }, null, 0]),
  (Y, d, n) => { const t = d.getText('body'); if (t.length) t.delete(0, Math.min(3, t.length)); t.insert(t.length, `x${n}`, { bold: true }) },
  (Y, d, n) => { const m = new Y.Map(); m.set('n', n); d.getMap('meta').set('sub', m); d.getMap('meta').delete('k') },
]
/** An editor: a document of its own and the updates it has not delivered yet. */
function editor(Y, id, from) {
  const doc = new Y.Doc(); doc.clientID = id
  const e = { doc, out: [], all: [], n: 0 }
  if (from) Y.applyUpdate(doc, Y.encodeStateAsUpdate(from))
  doc.on('update', (u, origin) => { if (origin !== 'load') { e.out.push(u); e.all.push(u) } })
  e.edit = (skip = 0) => { const i = e.n++; doc.transact(() => EDITS[(i + skip) % EDITS.length](Y, doc, id * 100 + i)) }
  return e
}
const LETTERS = ['eA', 'eB', 'sA', 'sB', 'nA', 'rA', 'rB', 'pA', 'x', 're']
async function unitHist(u, ctx) {
  const { nb } = ctx, Y = nb.Y
  for (const h of sequences(LETTERS.length, u.len)) {
    if (h[0] !== u.first) continue
    const names = [...(u.pre ?? []), ...h.map((i) => LETTERS[i])]
    resetWorld(1)
    const data = new Data()
    const enc = u.encrypt ? {} : { encrypt: false }
    let db, col
    const open = async () => { db = await openDb(nb, plainStore(nb.hub, data), enc); col = nb.yjs.yjsCollection(await db.openVault('V'), 'notes', { yFields: FIELDS(nb) }) }
    await open()
    const ed = { A: editor(Y, 1), B: editor(Y, 2) }
    const other = editor(Y, 9); other.edit(); await col.putYDoc('n', other.doc) // 'n' beside 'n1'
    let want = null // what 'n1' holds
    ctx.exec()
    for (const [i, l] of names.entries()) {
      ctx.trans()
      const e = ed[l[1]], how = () => names.slice(0, i + 1).join(' ')
      const bad = (k, what) => ctx.violation(`hist:${k}`, `${how()}: ${what}`, { u, names })
      if (l[0] === 'e') e.edit(l[1] === 'B' ? 2 : 0)
      else if (l[0] === 's' || l[0] === 'n') {
        const up = l[0] === 's' ? e.out.shift() ?? e.all.at(-1) : e.out.pop() ?? e.all[0]
        if (!up) continue
        const r = await attempt(() => col.applyUpdate('n1', up))
        if (!r.ok) return bad('error', `applyUpdate fails with ${r.err?.stack}`)
        want ??= new Y.Doc(); Y.applyUpdate(want, up)
      } else if (l === 'rA' || l === 'rB') Y.applyUpdate(e.doc, Y.encodeStateAsUpdate(await col.getYDoc('n1')), 'load')
      else if (l === 'pA') { await col.putYDoc('n1', e.doc); want = new Y.Doc(); Y.applyUpdate(want, Y.encodeStateAsUpdate(e.doc)) }
      else if (l === 'x') { await col.delete('n1'); want = null }
      else if (l === 're') { db.close(); await open() }
      const got = await col.getYDoc('n1'), exp = want ?? new Y.Doc()
      if (!(got instanceof Y.Doc)) return bad('type', `getYDoc gives ${got}`)
      for (const [f, T] of [['body', 'Text'], ['meta', 'Map'], ['tags', 'Array']]) if (!(got.share.get(f) instanceof Y[T])) return bad('field', `the field ${f} is not a Y.${T}`)
      if (!same(view(got), view(exp))) return bad('doc', `the document reads ${show(view(got))}, the delivered edits give ${show(view(exp))}`)
      if (!same([...Y.encodeStateVector(got)], [...Y.encodeStateVector(exp)])) return bad('vector', 'the document has another edit history than the delivered edits')
      if ((await col.has('n1')) !== (want !== null)) return bad('has', `has() says ${want === null}`)
      const o = await col.getYDoc('n')
      if (!same(view(o), view(other.doc))) return bad('other', `another document changed to ${show(view(o))}`)
      if (u.encrypt && canon(data.snapshot()).includes(MARK)) return bad('plain', 'the text is readable in the store')
      got.getText('body').insert(0, 'changed by the reader') // a document handed out is the caller's own
    }
    ctx.sample(names.join(' '))
    ctx.state(canon(want && view(want)))
    db.close()
  }
}

// ── overlapping calls ──────────────────────────────────────────────────────
const perms = (xs) => (xs.length < 2 ? [xs] : xs.flatMap((x, i) => perms([...xs.slice(0, i), ...xs.slice(i + 1)]).map((p) => [x, ...p])))
async function unitOverlap(u, ctx) {
  const { nb } = ctx, Y = nb.Y
  await exploreAll(async (ch) => {
    resetWorld(1)
    const data = new Data()
    const sched = new Sched(nb.hub, ch, { mode: u.mode })
    const gated = sched.store(data, 's'), plain = plainStore(nb.hub, data), gate = { on: false }, sw = { name: 'sw' }
    for (const m of Object.keys(gated)) if (typeof gated[m] === 'function') sw[m] = (...a) => (gate.on ? gated : plain)[m](...a)
    const db = await openDb(nb, sw, { encrypt: false, use: ['crdt'] })
    const v = await db.openVault('V')
    const col = nb.yjs.yjsCollection(v, 'notes', { yFields: FIELDS(nb) })
    const seed = editor(Y, 5); seed.edit()
    if (u.seeded) await col.putYDoc('n', seed.doc)
    const A = editor(Y, 1, u.seeded ? seed.doc : null), B = editor(Y, 2, u.seeded ? seed.doc : null)
    A.edit(); A.edit(); B.edit(2)
    const P = editor(Y, 3); P.edit(1)
    const whole = Y.encodeStateAsUpdate(P.doc)
    const OPS = {
      a1: { run: () => col.applyUpdate('n', A.all[0]), eff: (d) => { d ??= new Y.Doc(); Y.applyUpdate(d, A.all[0]); return d } },
      a2: { run: () => col.applyUpdate('n', A.all[1]), eff: (d) => { d ??= new Y.Doc(); Y.applyUpdate(d, A.all[1]); return d } },
      b1: { run: () => col.applyUpdate('n', B.all[0]), eff: (d) => { d ??= new Y.Doc(); Y.applyUpdate(d, B.all[0]); return d } },
      m1: { run: () => col.applyUpdate('m', B.all[0]), eff: (d) => d },
      p: { run: () => { const d = new Y.Doc(); Y.applyUpdate(d, whole); const r = col.putYDoc('n', d); d.getText('body').insert(0, 'typed later'); return r }, eff: () => { const d = new Y.Doc(); Y.applyUpdate(d, whole); return d } },
      x: { run: () => col.delete('n'), eff: () => null },
      g: { run: async () => view(await col.getYDoc('n')), eff: (d) => d, val: (d) => view(d ?? new Y.Doc()) },
    }
    if (u.warm) await col.getYDoc('n')
    gate.on = true
    ctx.exec()
    const tasks = await sched.run(u.ops.map((o, i) => [`${o}#${i}`, OPS[o].run]))
    gate.on = false
    ctx.trans(sched.transitions)
    const how = `${u.ops.join(' ∥ ')} (${sched.trace.join(' ')})`
    const bad = tasks.find((t) => !t.ok)
    if (bad) return ctx.violation('overlap:error', `${how}: ${bad.name} fails with ${bad.err?.stack}`, { u, prefix: ch.trace })
    const mine = view(await col.getYDoc('n'))
    const db2 = await openDb(nb, plain, { encrypt: false, use: ['crdt'] })
    const fresh = view(await nb.yjs.yjsCollection(await db2.openVault('V'), 'notes', { yFields: FIELDS(nb) }).getYDoc('n'))
    ctx.state(canon([u.ops, fresh]))
    if (!same(mine, fresh)) return ctx.violation('overlap:stale', `${how}: the open collection reads ${show(mine)}, another session ${show(fresh)}`, { u, prefix: ch.trace })
    const ok = perms(u.ops.map((_, i) => i)).some((p) => {
      let d = null
      if (u.seeded) { d = new Y.Doc(); Y.applyUpdate(d, Y.encodeStateAsUpdate(seed.doc)) }
      for (const i of p) { const o = OPS[u.ops[i]]; if (o.val && !same(o.val(d), tasks[i].val)) return false; d = o.eff(d) }
      return same(view(d ?? new Y.Doc()), fresh)
    })
    if (!ok) return ctx.violation('overlap:lost', `${how}: the document reads ${show(fresh)}, which no order of the calls gives`, { u, prefix: ch.trace })
    if (u.ops.includes('m1')) {
      const m = view(await col.getYDoc('m')), w = new Y.Doc(); Y.applyUpdate(w, B.all[0])
      if (!same(m, view(w))) return ctx.violation('overlap:other', `${how}: the other document reads ${show(m)}`, { u, prefix: ch.trace })
    }
  }, { maxExec: 20000 }).then((r) => { if (!r.complete) ctx.capped('overlap') })
}

// ── failing store calls ────────────────────────────────────────────────────
async function unitFault(u, ctx) {
  const { nb } = ctx, Y = nb.Y
  for (const kind of ['before', 'after']) for (let at = 0; at < 30; at++) {
    resetWorld(1)
    const data = new Data()
    let n = -1, hit = false
    const store = hookedStore(nb.hub, data, async (m, args, go) => {
      if (n < 0) return go()
      if (n++ === at) { hit = true; if (kind === 'after') await go(); throw new Error('store is down') }
      return go()
    })
    const db = await openDb(nb, store, { ...(u.encrypt ? {} : { encrypt: false }) })
    const col = nb.yjs.yjsCollection(await db.openVault('V'), 'notes', { yFields: FIELDS(nb) })
    const E = editor(Y, 1); for (let i = 0; i < 4; i++) E.edit()
    const want = new Y.Doc()
    await col.applyUpdate('n', E.all[0]); Y.applyUpdate(want, E.all[0])
    if (u.cold) db.close()
    let c = col
    if (u.cold) { const db2 = await openDb(nb, store, { ...(u.encrypt ? {} : { encrypt: false }) }); c = nb.yjs.yjsCollection(await db2.openVault('V'), 'notes', { yFields: FIELDS(nb) }) }
    ctx.exec(); ctx.trans()
    n = 0
    const rs = await Promise.all([1, 2].map((i) => attempt(() => c.applyUpdate('n', E.all[i]))))
    n = -1
    const how = `store call ${at} fails ${kind} taking effect while two updates are applied`
    const bad = (k, what) => ctx.violation(`fault:${k}`, `${how}: ${what}`, { u, kind, at })
    const may = [], must = []
    rs.forEach((r, i) => (r.ok ? must : may).push(E.all[i + 1]))
    const got = view(await c.getYDoc('n'))
    const allowed = [...Array(1 << may.length).keys()].map((mask) => { const d = new Y.Doc(); Y.applyUpdate(d, E.all[0]); for (const x of must) Y.applyUpdate(d, x); may.forEach((x, i) => { if (mask >> i & 1) Y.applyUpdate(d, x) }); return canon(view(d)) })
    if (!allowed.includes(canon(got))) return bad('doc', `results ${rs.map((r) => (r.ok ? 'ok' : 'failed')).join(', ')}; the document reads ${show(got)}`)
    // delivered again, everything is there
    for (const x of E.all) { const r = await attempt(() => c.applyUpdate('n', x)); if (!r.ok) return bad('after', `a later update fails with ${r.err}`) }
    const fin = view(await c.getYDoc('n'))
    if (!same(fin, view(E.doc))) return bad('after', `delivered again, the document reads ${show(fin)} instead of ${show(view(E.doc))}`)
    if (!hit) break
  }
}
/** Long documents and every byte value. */
async function unitLong(u, ctx) {
  const { nb } = ctx, Y = nb.Y
  for (const n of [1, 127, 128, 255, 256, 4095, 32767, 32768, 65536, 200000]) {
    resetWorld(1)
    const data = new Data()
    const db = await openDb(nb, plainStore(nb.hub, data), u.encrypt ? {} : { encrypt: false })
    const col = nb.yjs.yjsCollection(await db.openVault('V'), 'notes', { yFields: FIELDS(nb) })
    const d = new Y.Doc(); d.clientID = 4
    d.getText('body').insert(0, 'ж'.repeat(n)); d.getArray('tags').push([Uint8Array.from({ length: Math.min(n, 1024) }, (_, i) => i & 255)])
    ctx.exec(); ctx.trans()
    await col.putYDoc('n', d)
    const g = await col.getYDoc('n')
    if (g.getText('body').toString() !== 'ж'.repeat(n) || !same([...g.getArray('tags').get(0)], [...d.getArray('tags').get(0)])) return ctx.violation('long', `a document of ${n} characters does not read back`, { u, n })
    db.close()
  }
}
const RUN = { hist: unitHist, overlap: unitOverlap, fault: unitFault, long: unitLong }
export default {
  level: 'model_checking',
  technique: 'stateless exploration of the real code: all histories of edits and deliveries of two editors to a depth; all interleavings of store calls of overlapping calls; every failing store call',
  rule: 'the document read is compared with a Yjs document that received the same updates; overlapping calls must equal some serial order',
  bounds: (tier) => `histories of ${tier === 'thorough' ? 5 : 4} steps (3 encrypted) over ${LETTERS.length} letters after ten prefixes; overlapping calls: all pairs and triples over seven kinds, every order of store calls; one failing store call`,
  assumptions: ['the overlapping calls go through one collection object; two devices that put whole documents are covered by the documented newer-version rule, not merged'],
  modules: { ...HUB, yjs: '@noy-db/in-yjs', Y: 'from:in-yjs:yjs' },
  units(tier) {
    const out = []
    const T = tier === 'thorough'
    for (let first = 0; first < LETTERS.length; first++) {
      out.push({ t: 'hist', encrypt: false, len: T ? 4 : 3, first }, { t: 'hist', encrypt: false, pre: ['eA', 'eB', 'sA', 'eA', 'eB'], len: T ? 5 : 4, first }, { t: 'hist', encrypt: true, pre: ['eA', 'sA', 'eA'], len: T ? 4 : 3, first })
    }
    const K = ['a1', 'a2', 'b1', 'p', 'x', 'g', 'm1']
    for (const [i, a] of K.entries()) for (const [j, b] of K.entries()) {
      if (j < i) continue
      for (const mode of ['reply', 'call']) for (const seeded of [false, true]) out.push({ t: 'overlap', ops: [a, b], mode, seeded, warm: seeded })
      if (T || [a, b].every((o) => ['a1', 'b1', 'g', 'p'].includes(o))) for (const [k, c] of K.entries()) if (k >= j) out.push({ t: 'overlap', ops: [a, b, c], mode: 'reply', seeded: true })
    }
    for (const encrypt of [false, true]) out.push({ t: 'fault', encrypt, cold: false }, { t: 'fault', encrypt, cold: true }, { t: 'long', encrypt })
    return out
  },
  async runUnit(u, ctx) { await (u.t === 'overlap' ? RUN[u.t](u, ctx) : settle(() => RUN[u.t](u, ctx))) },
}
