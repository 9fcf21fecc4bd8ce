// P11 — record history: every overwritten or deleted version stays retrievable, exactly as written.
import { resetWorld, settle, advance, W } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const IDS = ['a', 'a:b', 'a:0000000001']
const VAL = { X: { n: 1, t: ['p'] }, Y: { n: 2, o: { k: null } }, Z: { n: 1, t: [] } }
const OPS = ['putX', 'putY', 'mod', 'putAB', 'putA1', 'many', 'delA', 'delAB', 'rev1', 'rev2', 'keep1', 'keepAll1', 'before', 'clrA', 'clrAll', 'swap', 'tx']
const CONFIGS = {
  eager: {}, lazy: { coll: { prefetch: false, cache: { maxRecords: 1 } } }, max2: { db: { history: { maxVersions: 2 } } }, plain: { db: { encrypt: false } },
  off: { db: { history: { enabled: false } } }, indexed: { coll: { indexes: ['n'] } }, lazyIdx: { coll: { prefetch: false, cache: { maxRecords: 4 }, indexes: ['n'] } },
}
const cp = (v) => JSON.parse(JSON.stringify(v))
// independent structural comparison: set of leaf paths that differ
function leafDiff(a, b, p = '') {
  if (canon(a) === canon(b)) return []
  const isO = (v) => v !== null && typeof v === 'object' && !Array.isArray(v)
  if (isO(a) && isO(b)) { const out = []; for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) { const q = p ? `${p}.${k}` : k; if (!Object.hasOwn(a, k)) out.push([q, 'added', undefined, b[k]]); else if (!Object.hasOwn(b, k)) out.push([q, 'removed', a[k], undefined]); else out.push(...leafDiff(a[k], b[k], q)) } return out }
  if (Array.isArray(a) && Array.isArray(b)) { const out = []; for (let i = 0; i < Math.max(a.length, b.length); i++) { const q = `${p}[${i}]`; if (i >= a.length) out.push([q, 'added', undefined, b[i]]); else if (i >= b.length) out.push([q, 'removed', a[i], undefined]); else out.push(...leafDiff(a[i], b[i], q)) } return out }
  return [[p || '(root)', a == null ? 'added' : b == null ? 'removed' : 'changed', a ?? undefined, b ?? undefined]]
}
export default {
  level: 'model_checking',
  technique: 'exhaustive operation histories on the real code, every version listing, lookup, filter and diff compared with a reference model after each history',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} write, revert, prune, clear and user-switch operations on records whose ids are prefixes of each other, ${Object.keys(CONFIGS).length} configurations; eager additionally length ${t === 'quick' ? 4 : 5} over the write operations`,
  assumptions: ['one handle at a time', 'collection names contain no colon', 'versions number from 1 again when a deleted record is created anew (known finding recreate-version-reuse)'],
  units(tier) {
    const len = tier === 'quick' ? 3 : 4
    const out = []
    for (const c of Object.keys(CONFIGS)) for (let i = 0; i < OPS.length; i++) out.push({ c, i, len, ops: OPS })
    const W4 = ['putX', 'putY', 'mod', 'delA', 'rev1', 'keep1', 'swap']
    for (let i = 0; i < W4.length; i++) out.push({ c: 'eager', i, len: len + 1, min: len + 1, ops: W4 })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const cfg = CONFIGS[u.c]
    const off = u.c === 'off'
    const max = cfg.db?.history?.maxVersions ?? Infinity
    for (let len = u.min ?? 1; len <= u.len; len++) for (const rest of sequences(u.ops.length, len - 1)) {
      const seq = [u.i, ...rest].map((k) => u.ops[k])
      if (u.c === 'plain' && seq.includes('swap')) continue
      resetWorld(1)
      const data = new Data()
      const open = async (user) => {
        const db = await openDb(nb, plainStore(nb.hub, data), { user, secret: user === 'owner' ? undefined : 'bob passphrase 1', except: ['sync', 'session'], ...(cfg.db ?? {}) })
        const v = await db.openVault('V')
        return { db, v, user, x: v.collection('x', cfg.coll ?? {}), y: v.collection('y') }
      }
      let S = await open('owner')
      const live = {}, hist = {} // id -> {v,val,ts,by} ; id -> Map(v -> ..)
      let recreated = false, skip = false
      const now = () => new Date(W.now).toISOString()
      const push = (id) => { const l = live[id]; if (!l || off) return; const h = (hist[id] ??= new Map()); if (h.has(l.v)) recreated = true; h.set(l.v, l) }
      const trim = (id) => { const h = hist[id]; if (h && h.size > max) for (const v of [...h.keys()].sort((a, b) => a - b).slice(0, h.size - max)) h.delete(v) }
      const put = (id, val) => { push(id); trim(id); live[id] = { v: (live[id]?.v ?? 0) + 1, val: cp(val), ts: now(), by: S.user } }
      const del = (id) => { push(id); delete live[id] }
      await settle(async () => { await S.y.put('a', { other: 1 }); await S.y.put('a', { other: 2 }) })
      if (u.c !== 'plain' && seq.includes('swap')) { await settle(() => S.x.put('seed', { n: 0 })); await S.db.grant('V', { userId: 'bob', displayName: 'b', role: 'admin', passphrase: 'bob passphrase 1' }) }
      const marks = []
      let n = 10, res = null
      for (const op of seq) {
        await advance(60000)
        marks.push(now())
        n++
        const r = await attempt(() => settle(async () => {
          switch (op) {
            case 'putX': await S.x.put('a', cp(VAL.X)); put('a', VAL.X); break
            case 'putY': await S.x.put('a', cp(VAL.Y)); put('a', VAL.Y); break
            case 'mod': { const r = await S.x.get('a'); if (!r) { skip = true; return } r.n = n; r.extra = [n]; await S.x.put('a', r); put('a', { ...cp(live.a.val), n, extra: [n] }); break }
            case 'putAB': await S.x.put('a:b', { n }); put('a:b', { n }); break
            case 'putA1': await S.x.put('a:0000000001', { n }); put('a:0000000001', { n }); break
            case 'many': await S.x.putMany([['a', { n }], ['a:b', { n: -n }]]); put('a', { n }); put('a:b', { n: -n }); break
            case 'tx': await S.db.transaction(async (tx) => { tx.vault('V').collection('x').put('a', { n, tx: true }) }); put('a', { n, tx: true }); break
            case 'delA': if (!live.a) { skip = true; return } await S.x.delete('a'); del('a'); break
            case 'delAB': if (!live['a:b']) { skip = true; return } await S.x.delete('a:b'); del('a:b'); break
            case 'rev1': case 'rev2': {
              const v = op === 'rev1' ? 1 : 2; const h = hist.a?.get(v)
              res = await attempt(() => S.x.revert('a', v))
              if (!h) { if (res.ok) throw new Error(`revert to missing version ${v} succeeded`) } else { if (!res.ok) throw res.err; put('a', h.val) }
              break
            }
            case 'keep1': { const k = await S.x.pruneRecordHistory('a', { keepVersions: 1 }); let g = 0; const h = hist.a; if (h) for (const v of [...h.keys()].sort((a, b) => a - b).slice(0, Math.max(0, h.size - 1))) { h.delete(v); g++ } if (k !== g) throw new Error(`prune reported ${k}, expected ${g}`); break }
            case 'keepAll1': { const k = await S.x.pruneRecordHistory(undefined, { keepVersions: 1 }); let g = 0; for (const h of Object.values(hist)) for (const v of [...h.keys()].sort((a, b) => a - b).slice(0, Math.max(0, h.size - 1))) { h.delete(v); g++ } if (k !== g) throw new Error(`prune reported ${k}, expected ${g}`); break }
            case 'before': { const t = marks.at(-2) ?? marks[0]; await S.x.pruneRecordHistory('a', { beforeDate: t }); if (hist.a) for (const [v, h] of [...hist.a]) if (h.ts < t) hist.a.delete(v); break }
            case 'clrA': await S.x.clearHistory('a'); delete hist.a; break
            case 'clrAll': await S.x.clearHistory(); for (const k of Object.keys(hist)) delete hist[k]; break
            case 'swap': S.db.close(); S = await open(S.user === 'owner' ? 'bob' : 'owner'); break
          }
        }))
        if (!r.ok) { ctx.violation(`${recreated ? 'recreate:' : ''}op:${op}:${u.c}`, `[${u.c}] ${seq.join(' ; ')}: ${op} failed: ${r.err}`); skip = true }
        if (skip) break
      }
      if (skip) { S.db.close(); continue }
      ctx.exec(); ctx.trans(seq.length); ctx.last = seq.join(' ')
      const tag = recreated ? 'recreate:' : ''
      const bad = (k, w) => ctx.violation(`${tag}${k}:${u.c}`, `[${u.c}] ${seq.join(' ; ')}: ${w}`)
      if (recreated) ctx.violation(`recreate-version-reuse`, `[${u.c}] ${seq.join(' ; ')}: a deleted record that is created again reuses version numbers and its new versions overwrite the old ones in history`)
      const verify = async (who) => {
        for (const id of IDS) {
          const h = hist[id] ?? new Map()
          const want = [...h.values()].sort((p, q) => q.v - p.v).map((e) => [e.v, e.val, e.by, e.ts])
          const got = (await S.x.history(id)).map((e) => [e.version, e.record, u.c === 'plain' ? null : e.userId, e.timestamp])
          const w2 = want.map((e) => (u.c === 'plain' ? [e[0], e[1], null, e[3]] : e))
          if (!same(got, w2)) bad('history', `${who} history('${id}') is ${JSON.stringify(got)}, expected ${JSON.stringify(w2)}`)
          const cur = await S.x.get(id)
          if (!same(cur, live[id]?.val ?? null)) bad('get', `${who} get('${id}') is ${JSON.stringify(cur)}, expected ${JSON.stringify(live[id]?.val ?? null)}`)
          const top = Math.max(0, live[id]?.v ?? 0, ...h.keys()) + 1
          const at = (v) => (v === 0 ? null : h.get(v)?.val ?? (live[id]?.v === v ? live[id].val : null))
          for (let v = 1; v <= top; v++) {
            const g = await S.x.getVersion(id, v)
            if (!same(g, h.get(v)?.val ?? null)) bad('getVersion', `${who} getVersion('${id}', ${v}) is ${JSON.stringify(g)}, expected ${JSON.stringify(h.get(v)?.val ?? null)}`)
          }
          if (who === 'handle') {
            for (const t of marks) {
              const f = (await S.x.history(id, { from: t })).map((e) => e.version), wf = want.filter((e) => e[3] >= t).map((e) => e[0])
              if (!same(f, wf)) bad('from', `history('${id}', from ${t}) is ${JSON.stringify(f)}, expected ${JSON.stringify(wf)}`)
              const o = (await S.x.history(id, { to: t })).map((e) => e.version), wo = want.filter((e) => e[3] <= t).map((e) => e[0])
              if (!same(o, wo)) bad('to', `history('${id}', to ${t}) is ${JSON.stringify(o)}, expected ${JSON.stringify(wo)}`)
            }
            const l = (await S.x.history(id, { limit: 1 })).map((e) => e.version)
            if (!same(l, want.slice(0, 1).map((e) => e[0]))) bad('limit', `history('${id}', limit 1) is ${JSON.stringify(l)}`)
          }
          if (id === 'a') for (let a = 0; a <= top; a++) for (const b of [undefined, ...Array.from({ length: top + 1 }, (_, i) => i)]) {
            const d = (await S.x.diff(id, a, b)).map((e) => [e.path, e.type, e.from, e.to])
            const wd = leafDiff(at(a), b === undefined ? live[id]?.val ?? null : at(b))
            if (canon(d.map(canon).sort()) !== canon(wd.map(canon).sort())) bad('diff', `${who} diff('${id}', ${a}, ${b}) is ${JSON.stringify(d)}, expected ${JSON.stringify(wd)}`)
          }
        }
        const oy = await S.y.history('a')
        if (!same(oy.map((e) => e.record), off ? [] : [{ other: 1 }])) bad('other', `${who} history of another collection became ${JSON.stringify(oy)}`)
      }
      const vr = await attempt(() => settle(() => verify('handle')))
      if (!vr.ok) bad('throws', `reading history failed: ${vr.err}`)
      S.db.close(); S = await open('owner')
      const vr2 = await attempt(() => settle(() => verify('fresh instance')))
      if (!vr2.ok) bad('throws', `reading history failed: ${vr2.err}`)
      S.db.close()
      ctx.state([u.c, live, Object.entries(hist).map(([k, h]) => [k, [...h.values()]])])
      if (ctx.executions <= 1) ctx.sample({ config: u.c, history: seq, live })
    }
  },
}
