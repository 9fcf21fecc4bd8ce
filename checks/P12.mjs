// P12 — time machine: vault.at(t) shows exactly the contents at t; ledger deltas rebuild every version;
// patches and diffs are exact.
import { resetWorld, settle, advance, W } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const OPS = ['putA', 'putA2', 'mod', 'putB', 'putY', 'delA', 'delB', 'many', 'tx', 'rev1', 'rotate', 'reopen', 'undef', 'lag']
const CONFIGS = { eager: {}, lazy: { coll: { prefetch: false, cache: { maxRecords: 1 } } }, lww: { coll: { crdt: 'lww-map' } }, plain: { db: { encrypt: false } }, frozen: { frozen: true } }
const cp = (v) => JSON.parse(JSON.stringify(v))
const IDS = ['a', 'a:b']
// ── patch algebra: all documents of a small grammar
const KEYS = ['a', '~', '/', '~1', '', 'constructor', '0', '-', '__proto__']
const PRIM = [1, 'x', null, false, [], [1], [1, 2], ['1'], {}]
function docs(tier) {
  const out = [...PRIM, [[1]], [{ a: 1 }]]
  const set = (o, k, v) => { Object.defineProperty(o, k, { value: v, enumerable: true, configurable: true, writable: true }); return o }
  for (const k of KEYS) for (const v of PRIM) out.push(set({}, k, v))
  for (const k of KEYS) for (const k2 of ['a', '/', '0', 'constructor']) if (k !== k2) for (const v of [1, null, [1]]) out.push(set(set({}, k, 1), k2, v))
  for (const k of KEYS) for (const k2 of ['a', '~1', 'toString', '0']) for (const v of [1, 2, [2]]) out.push(set({}, k, set({}, k2, v)))
  if (tier !== 'quick') for (const k of KEYS) for (const k2 of KEYS) for (const v of PRIM) out.push(set(set({}, 'q', 1), k, set({}, k2, v)))
  return out
}
export default {
  level: 'model_checking',
  technique: 'exhaustive write histories on the real code with every instant of the timeline queried and compared with recorded snapshots, plus exhaustive patch/diff algebra over all documents of a bounded grammar',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} operations x ${Object.keys(CONFIGS).length} configurations; instants before, at and between all operations, in four notations; ${docs(t).length}^2 document pairs for patches and diffs`,
  assumptions: ['the clock does not run backwards', 'history is not pruned (P11 covers pruning)', 'a record created again after deletion reuses version numbers (known finding)'],
  units(tier) {
    const out = []
    for (const c of Object.keys(CONFIGS)) for (let i = 0; i < OPS.length; i++) out.push({ c, i, len: tier === 'quick' ? 3 : 4 })
    for (let k = 0; k < 8; k++) out.push({ algebra: k })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    if (u.algebra !== undefined) {
      const D = docs(ctx.tier)
      const { computePatch, applyPatch, diff } = nb.history
      for (let i = u.algebra; i < D.length; i += 8) for (let j = 0; j < D.length; j++) {
        const a = D[i], b = D[j], before = JSON.stringify(a)
        ctx.exec(); ctx.trans()
        const r = await attempt(async () => { const p = JSON.parse(JSON.stringify(computePatch(a, b))); return [p, applyPatch(a, p)] })
        if (!r.ok || !same(r.val[1], b)) { ctx.violation('patch', `patch from ${JSON.stringify(a)} to ${JSON.stringify(b)} yields ${r.ok ? JSON.stringify(r.val[1]) : r.err}`); continue }
        if (same(a, b) !== (r.val[0].length === 0)) ctx.violation('patch-size', `patch between ${JSON.stringify(a)} and ${JSON.stringify(b)} has ${r.val[0].length} operations`)
        if (JSON.stringify(a) !== before) ctx.violation('patch-mutates', `applying a patch changed its base ${before}`)
        const d = diff(a, b)
        if (same(a, b) !== (d.length === 0)) ctx.violation('diff', `diff of ${JSON.stringify(a)} and ${JSON.stringify(b)} has ${d.length} entries`)
      }
      ctx.state(['algebra', u.algebra])
      return
    }
    const cfg = CONFIGS[u.c]
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(OPS.length, len - 1)) {
      const seq = [u.i, ...rest].map((k) => OPS[k])
      if (u.c === 'plain' && seq.includes('rotate')) continue
      if (cfg.frozen && seq.includes('lag')) continue
      resetWorld(1)
      const data = new Data()
      const open = async () => {
        const db = await openDb(nb, plainStore(nb.hub, data), { except: ['sync', 'session'], ...(cfg.db ?? {}) })
        const v = await db.openVault('V')
        return { db, v, x: v.collection('x', cfg.coll ?? {}), y: v.collection('y') }
      }
      let S = await open()
      const live = {}, ver = {}, hist = {}
      const put = (k, val) => { if (dead.has(k)) recreated.add(k); ver[k] = (ver[k] ?? 0) + 1; live[k] = cp(val); (hist[k] ??= {})[ver[k]] = cp(val) }
      const dead = new Set(), recreated = new Set()
      const del = (k) => { delete live[k]; delete ver[k]; hist[k] = {}; dead.add(k) }
      const iso = () => new Date(W.now).toISOString()
      const marks = [] // [instant, snapshot]
      const mark = (d = 0) => marks.push([W.now + d, cp(live), d])
      mark()
      let n = 0, skip = false
      for (const op of seq) {
        if (!cfg.frozen) await advance(1500)
        if (!cfg.frozen) mark(-1)
        n++
        const r = await attempt(() => settle(async () => {
          switch (op) {
            case 'putA': await S.x.put('a', { n: 1, t: ['p'] }); put('x/a', u.c === 'lww' ? { ...(live['x/a'] ?? {}), n: 1, t: ['p'] } : { n: 1, t: ['p'] }); break
            case 'putA2': await S.x.put('a', { n: 2, o: { k: n } }); put('x/a', u.c === 'lww' ? { ...(live['x/a'] ?? {}), n: 2, o: { k: n } } : { n: 2, o: { k: n } }); break
            case 'mod': { const r = await S.x.get('a'); if (!r) { skip = true; return } r.n = 10 + n; r.m = n; await S.x.put('a', r); put('x/a', { ...cp(live['x/a']), n: 10 + n, m: n }); break }
            case 'putB': await S.x.put('a:b', { n }); put('x/a:b', { n }); break
            case 'putY': await S.y.put('a', { y: n }); put('y/a', { y: n }); break
            case 'undef': await S.x.put('a', { n: 3, u: undefined }); put('x/a', u.c === 'lww' ? { ...(live['x/a'] ?? {}), n: 3 } : { n: 3 }); break
            case 'delA': if (!live['x/a']) { skip = true; return } await S.x.delete('a'); del('x/a'); break
            case 'delB': if (!live['x/a:b']) { skip = true; return } await S.x.delete('a:b'); del('x/a:b'); break
            case 'many': await S.x.putMany([['a', { n: 7 }], ['a:b', { n: 8 }]]); put('x/a', u.c === 'lww' ? { ...(live['x/a'] ?? {}), n: 7 } : { n: 7 }); put('x/a:b', { n: 8 }); break
            case 'tx': await S.db.transaction(async (tx) => { tx.vault('V').collection('y').put('a', { y: -n }); tx.vault('V').collection('x').put('a:b', { n: -n }) }); put('y/a', { y: -n }); put('x/a:b', { n: -n }); break
            case 'rev1': if ((ver['x/a'] ?? 0) < 2) { skip = true; return } await S.x.revert('a', 1); put('x/a', u.c === 'lww' ? { ...live['x/a'], ...hist['x/a'][1] } : hist['x/a'][1]); break
            case 'rotate': await S.db.rotate('V', ['x']); break
            case 'reopen': S.db.close(); S = await open(); break
            case 'lag': await advance(86400000); break
          }
        }))
        if (!r.ok) { ctx.violation(`op:${op}:${u.c}`, `[${u.c}] ${seq.join(' ; ')}: ${op} failed: ${r.err}`); skip = true }
        if (skip) break
        mark()
      }
      if (skip) { S.db.close(); continue }
      ctx.exec(); ctx.trans(seq.length); ctx.last = seq.join(' ')
      const bad = (rec, k, w) => ctx.violation(`${rec ? 'recreate:' : ''}${k}:${u.c}`, `[${u.c}] ${seq.join(' ; ')}: ${w}`)
      const last = cfg.frozen ? [marks.at(-1)] : marks
      const rr = await attempt(() => settle(async () => {
        for (const [t, snap] of [...last.map(([t, s]) => [t, s]), ...(cfg.frozen ? [] : last.filter((m) => m[2] === 0).map(([t, s]) => [t + 1, s])), [marks[0][0] - 1000, {}]]) {
          if (cfg.frozen && t < marks[0][0]) continue
          const notations = [new Date(t), new Date(t).toISOString(), new Date(t + 7 * 3600000).toISOString().replace('Z', '+07:00')]
          if (t % 1000 === 0) notations.push(new Date(t).toISOString().replace('.000Z', 'Z'))
          for (const ts of notations) {
            const inst = S.v.at(ts)
            for (const c of ['x', 'y']) {
              const ci = inst.collection(c)
              const want = Object.keys(snap).filter((k) => k.startsWith(`${c}/`)).map((k) => k.slice(2)).sort()
              const rec = [...recreated].some((k) => k.startsWith(c))
              const got = (await ci.list()).sort()
              if (!same(got, want)) bad(rec, 'list', `at(${ts instanceof Date ? ts.toISOString() : ts}).${c}.list() is ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`)
              for (const id of IDS) {
                const g = cp(await ci.get(id)), w = snap[`${c}/${id}`] ?? null
                if (!same(g, w)) bad(recreated.has(`${c}/${id}`), 'get', `at(${ts instanceof Date ? ts.toISOString() : ts}).${c}.get('${id}') is ${JSON.stringify(g)}, expected ${JSON.stringify(w)}`)
              }
            }
          }
          ctx.count('instants')
        }
        // ledger deltas rebuild every version of the current lifecycle
        for (const [k, hs] of Object.entries(hist)) {
          const [c, id] = [k[0], k.slice(2)]
          if (!live[k]) continue
          for (const [v, val] of Object.entries(hs)) {
            const g = await S.v.ledger().reconstruct(c, id, cp(live[k]), Number(v))
            if (!same(g, val)) bad(recreated.has(k), 'reconstruct', `reconstruct(${k}, version ${v}) is ${JSON.stringify(g)}, expected ${JSON.stringify(val)}`)
            ctx.count('reconstructions')
          }
          for (const v of [0, Math.max(...Object.keys(hs).map(Number)) + 1]) {
            const g = await S.v.ledger().reconstruct(c, id, cp(live[k]), v)
            if (g !== null) bad(recreated.has(k), 'reconstruct', `reconstruct(${k}, version ${v}), which never was, is ${JSON.stringify(g)}`)
          }
        }
      }))
      if (!rr.ok) bad(recreated.size > 0, 'throws', `reading the past failed: ${rr.err}`)
      S.db.close()
      ctx.state([u.c, marks])
      if (ctx.executions <= 1) ctx.sample({ config: u.c, history: seq, timeline: marks })
    }
  },
}
