// P15 — references between collections: strict refs never dangle, cascades are complete, integrity reports and joins are exact.
import { resetWorld, settle, drain } from '../lib/world.mjs'
import { canon, same, exploreAll, product } from '../lib/explore.mjs'
import { Data, plainStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const cp = (v) => JSON.parse(JSON.stringify(v))
const MODES = ['strict', 'warn', 'cascade']
// i.c -> c, l.i -> i, l.c -> c, i.p -> i; each with a mode, and the order in which the collections are declared
const CONFIGS = [...product(MODES, MODES, ['none', 'strict', 'cascade'], ['none', 'cascade', 'strict'], ['il', 'li'])]
  .map(([ic, li, lc, ip, order]) => ({ ic, li, lc, ip, order }))
// all small populations: c = {1,2}; i1, i2 (stored without an id field, numeric key); l1
const STATES = [...product(['', '1'], ['', 1, '2'], ['', 'i1', 'i2'], ['', '1'], ['', 'i1', 'i2'])]
const OPS = {
  'delete c/1': (S) => S.c.delete('1'), 'delete c/2': (S) => S.c.delete('2'), 'delete i/i1': (S) => S.i.delete('i1'), 'delete i/i2': (S) => S.i.delete('i2'),
  'deleteMany c': (S) => S.c.deleteMany(['1', '2']),
  'put i1 -> missing': (S) => S.i.put('i1', { id: 'i1', c: 'zz' }), 'put l1 -> missing': (S) => S.l.put('l1', { id: 'l1', i: 'zz' }), 'put i1 -> object': (S) => S.i.put('i1', { id: 'i1', c: { a: 1 } }),
  'put l9 -> i2': (S) => S.l.put('l9', { i: 'i2', c: null }), 'putMany': (S) => S.i.putMany([['i8', { c: 2 }], ['i9', { c: 'zz' }]]),
  'tx delete c/1': (S) => S.db.transaction(async (t) => t.vault('V').collection('c').delete('1')),
  'tx delete c/1 then fail': (S) => S.db.transaction(async (t) => { t.vault('V').collection('c').delete('1'); t.vault('V').collection('s').put('x', { bad: true }) }),
  'tx delete l1, i1, c/1': (S) => S.db.transaction(async (t) => { const v = t.vault('V'); v.collection('l').delete('l1'); v.collection('i').delete('i2'); v.collection('i').delete('i1'); v.collection('c').delete('1') }),
  'tx put c/3 and i9': (S) => S.db.transaction(async (t) => { const v = t.vault('V'); v.collection('c').put('3', { id: '3' }); v.collection('i').put('i9', { c: 3 }) }),
}
const PAIRS = [
  ['delete c/1', (S) => S.i.put('i9', { c: '1' })], ['delete c/1', (S) => S.c.delete('1')], ['delete i/i1', (S) => S.l.put('l9', { i: 'i1' })], ['delete c/1', (S) => S.l.put('l9', { i: 'i1' })],
  ['delete c/1', (S) => S.i.delete('i1')], ['deleteMany c', (S) => S.i.putMany([['i8', { c: 1 }], ['i9', { c: 2 }]])], ['tx delete c/1', (S) => S.i.put('i1', { id: 'i1', c: '1', n: 2 })], ['tx delete c/1 then fail', (S) => S.c.put('2', { id: '2', n: 1 })],
]
const refsOf = (K) => ({ i: { ...(K.ic ? { c: ['c', K.ic] } : {}), ...(K.c2 ? { d: ['c', K.c2] } : {}), ...(K.c3 ? { e: ['c', K.c3] } : {}), ...(K.ip !== 'none' ? { p: ['i', K.ip] } : {}) }, l: { i: ['i', K.li], ...(K.lc !== 'none' ? { c: ['c', K.lc] } : {}) } })
const isKey = (v) => typeof v === 'string' || typeof v === 'number'
/** records referring to (coll,id), as [collection, id, mode] */
function referrers(K, m, coll, id) {
  const out = [], R = refsOf(K)
  for (const from of ['i', 'l']) for (const [f, [t, mode]] of Object.entries(R[from])) if (t === coll) for (const [rid, r] of Object.entries(m[from])) if (isKey(r[f]) && String(r[f]) === id) out.push([from, rid, mode])
  return out
}
/** reference delete: { reject: 'must'|'may'|false, next } */
function refDelete(K, m, coll, id) {
  const gone = new Set([`${coll}/${id}`]), todo = [[coll, id]]
  while (todo.length) { const [c, i] = todo.pop(); for (const [fc, fi, mode] of referrers(K, m, c, i)) if (mode === 'cascade' && !gone.has(`${fc}/${fi}`)) { gone.add(`${fc}/${fi}`); todo.push([fc, fi]) } }
  let must = false, may = false
  for (const g of gone) { const [c, i] = g.split('/'); for (const [fc, fi, mode] of referrers(K, m, c, i)) if (mode === 'strict') { if (gone.has(`${fc}/${fi}`)) may = true; else must = true } }
  const next = cp(m)
  for (const g of gone) { const [c, i] = g.split('/'); delete next[c][i] }
  return { reject: must ? 'must' : may ? 'may' : false, next }
}
function refPut(K, m, coll, id, rec) {
  for (const [f, [t, mode]] of Object.entries(refsOf(K)[coll] ?? {})) {
    const v = rec[f]
    if (mode !== 'strict' || v === null || v === undefined) continue
    if (!isKey(v) || !m[t][String(v)]) return { reject: 'must', next: m }
  }
  const next = cp(m); next[coll][id] = cp(rec); return { reject: false, next }
}
/** all allowed outcomes [{ ok, m }] of an operation on model state m */
function outcomes(K, m, op) {
  const seqOf = (steps, atomic) => {
    let now = [{ m, failed: false }]
    for (const st of steps) now = now.flatMap((s) => {
      if (atomic && s.failed) return [s]
      if (st === 'fail') return [{ ...s, failed: true }]
      const r = st[0] === 'delete' ? refDelete(K, s.m, st[1], st[2]) : refPut(K, s.m, st[1], st[2], st[3])
      const no = { m: s.m, failed: true }, yes = { m: r.next, failed: s.failed }
      return r.reject === 'must' ? [no] : r.reject === 'may' ? [no, yes] : [yes]
    })
    return now.map((s) => ({ ok: !s.failed, m: atomic && s.failed ? m : s.m }))
  }
  switch (op) {
    case 'deleteMany c': return seqOf([['delete', 'c', '1'], ['delete', 'c', '2']], false)
    case 'put i1 -> missing': return seqOf([['put', 'i', 'i1', { id: 'i1', c: 'zz' }]])
    case 'put l1 -> missing': return seqOf([['put', 'l', 'l1', { id: 'l1', i: 'zz' }]])
    case 'put i1 -> object': return seqOf([['put', 'i', 'i1', { id: 'i1', c: { a: 1 } }]])
    case 'put l9 -> i2': return seqOf([['put', 'l', 'l9', { i: 'i2', c: null }]])
    case 'putMany': return seqOf([['put', 'i', 'i8', { c: 2 }], ['put', 'i', 'i9', { c: 'zz' }]], false)
    case 'tx delete c/1': return seqOf([['delete', 'c', '1']], true)
    case 'tx delete c/1 then fail': return seqOf([['delete', 'c', '1'], 'fail'], true)
    case 'tx delete l1, i1, c/1': return seqOf([['delete', 'l', 'l1'], ['delete', 'i', 'i2'], ['delete', 'i', 'i1'], ['delete', 'c', '1']], true)
    case 'tx put c/3 and i9': return seqOf([['put', 'c', '3', { id: '3' }], ['put', 'i', 'i9', { c: 3 }]], true)
    default: { const [, path] = op.split(' '); return seqOf([['delete', ...path.split('/')]]) }
  }
}
const schema = { '~standard': { version: 1, vendor: 'mc', validate: (v) => (v.bad ? { issues: [{ message: 'bad' }] } : { value: v }) } }

export default {
  level: 'model_checking',
  technique: 'every small population of three linked collections x every reference configuration x every operation on the real code, and every completion order of overlapping operations, against a reference relation',
  modules: HUB,
  bounds: (t) => `${CONFIGS.length} reference configurations (modes of four references and declaration order) x ${STATES.length} populations x ${Object.keys(OPS).length} operations${t === 'quick' ? ' (quick: a fifth of the configuration/population pairs for the operations, every configuration and population included)' : ''}, eager and lazy; ${PAIRS.length} overlapping pairs x all completion orders`,
  assumptions: ['one instance; the referencing collections are open (references are declared on the handle)', 'a strict reference held by a record that the same cascade deletes may either block or not'],
  units(tier) {
    const out = []
    CONFIGS.forEach((_, k) => { for (const lazy of [false, true]) out.push({ k, lazy, tier }) })
    for (const ic of MODES) for (const li of MODES) for (const lazy of [false, true]) for (let p = 0; p < PAIRS.length; p++) out.push({ p, K: { ic, li, lc: 'none', ip: 'none', order: 'il' }, lazy })
    for (const ic of MODES) out.push({ out: ic })
    for (const ic of MODES) for (const c2 of MODES) for (const lazy of [false, true]) out.push({ multi: { ic, li: 'warn', lc: 'none', ip: 'none', order: 'il', c2 }, lazy }, { multi: { ic, li: 'cascade', lc: 'cascade', ip: 'none', order: 'li', c2, c3: 'warn' }, lazy })
    for (const mode of MODES) for (const lazy of [false, true]) out.push({ crowd: mode, lazy })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const open = async (store, K, lazy, raw) => {
      const db = await openDb(nb, store, { encrypt: false, except: ['sync', 'session'] })
      const v = await db.openVault('V')
      const S = { db, v, s: v.collection('s', { schema }) }
      if (raw) { for (const n of ['c', 'i', 'l']) S[n] = v.collection(n); return S }
      const R = refsOf(K), mk = (n) => Object.fromEntries(Object.entries(R[n]).map(([f, [t, mode]]) => [f, nb.hub.ref(t, mode)]))
      const lz = lazy ? { prefetch: false, cache: { maxRecords: 2 } } : {}
      S.c = v.collection('c')
      for (const n of K.order.split('')) S[n] = v.collection(n, { refs: mk(n), ...lz })
      if (!lazy) { await S.i.list(); await S.l.list() }
      await S.c.list()
      return S
    }
    const build = (st) => {
      const [a, b, li, lc, ip] = st
      const m = { c: { 1: { id: '1' }, 2: { id: '2' } }, i: {}, l: {} }
      m.i.i1 = { id: 'i1', ...(a !== '' ? { c: a } : {}), ...(ip === 'i1' ? { p: 'i1' } : {}) }
      m.i.i2 = { ...(b !== '' ? { c: b } : {}), ...(ip !== '' ? { p: 'i1' } : {}) }
      if (li !== '' || lc !== '') m.l.l1 = { id: 'l1', ...(li !== '' ? { i: li } : {}), ...(lc !== '' ? { c: lc } : {}) }
      if (ip === 'i2') { m.i.i1.p = 'i2' }
      return m
    }
    const contents = async (S) => {
      const m = { c: {}, i: {}, l: {} }
      for (const c of ['c', 'i', 'l']) for (const id of ['1', '2', '3', 'i1', 'i2', 'i8', 'i9', 'l1', 'l9']) { const r = await S[c].get(id); if (r) m[c][id] = cp(r) }
      return m
    }
    /** integrity report, joins and strictness in model state m */
    const audit = async (S, K, lazy, m, bad) => {
      const R = refsOf(K), dang = []
      for (const from of ['i', 'l']) for (const [f, [t, mode]] of Object.entries(R[from])) for (const [id, r] of Object.entries(m[from])) {
        if (r[f] === undefined || r[f] === null) continue
        if (!isKey(r[f]) || !m[t][String(r[f])]) dang.push(canon({ collection: from, id, field: f, refTo: t, refId: r[f], mode }))
      }
      const rep = await S.v.checkIntegrity()
      const got = rep.violations.map((x) => canon({ collection: x.collection, id: x.id, field: x.field, refTo: x.refTo, refId: x.refId, mode: x.mode }))
      if (!same(got.sort(), dang.sort())) bad('integrity', `checkIntegrity reports ${canon(got)}, expected ${canon(dang)}`)
      const joinWant = (from, f, t, mode) => {
        const out = []
        for (const r of Object.values(m[from])) {
          const k = isKey(r[f]) ? String(r[f]) : null
          if (k !== null && !m[t][k] && mode === 'strict') return 'DanglingReferenceError'
          out.push(canon({ ...r, j: k === null ? null : m[t][k] ?? null }))
        }
        return out.sort()
      }
      for (const from of ['i', 'l']) for (const [f, [t, mode]] of Object.entries(R[from])) {
        const e = joinWant(from, f, t, mode)
        const ask = async (what, fn) => { const r = await attempt(fn), g = r.ok ? r.val.map((x) => canon(x)).sort() : r.err.name; if (!same(g, e)) bad(`join:${what}`, `${what} join of ${from}.${f} gives ${canon(g)}, expected ${canon(e)}`) }
        if (t === 'i' && lazy) continue
        if (!lazy) {
          await ask('auto', async () => S[from].query().join(f, { as: 'j' }).toArray())
          if (t === 'c') await ask('hash', async () => S[from].query().join(f, { as: 'j', strategy: 'hash' }).toArray())
          await ask('live', async () => { const l = S[from].query().join(f, { as: 'j' }).live(); const v = l.value, err = l.error; l.stop(); if (err) throw err; return v })
        }
        await ask('scan', async () => { const out = []; for await (const r of S[from].scan({ pageSize: 1 }).join(f, { as: 'j' })) out.push(r); return out })
      }
    }
    if (u.multi) {
      // several fields of one collection that refer to the same collection
      const K = u.multi
      for (const [a, b, c, d] of product(['', '1', 2], ['', 1, '2'], ['', '1'], ['', '2'])) for (const op of ['delete c/1', 'delete c/2', 'deleteMany c', 'tx delete c/1', 'tx delete c/1 then fail', 'delete i/i1']) {
        const m0 = { c: { 1: { id: '1' }, 2: { id: '2' } }, i: { i1: { id: 'i1', ...(a !== '' ? { c: a } : {}), ...(b !== '' ? { d: b } : {}) }, i2: { ...(c !== '' ? { d: c } : {}), ...(d !== '' ? { c: d } : {}), ...(K.c3 && a !== '' ? { e: a } : {}) } }, l: { l1: { i: 'i1' } } }
        resetWorld(1)
        const data = new Data(), store = plainStore(nb.hub, data)
        const S = await settle(() => open(store, K, u.lazy))
        await settle(async () => { for (const n of ['c', 'i', 'l']) for (const [id, r] of Object.entries(m0[n])) await S[n].put(id, cp(r)) })
        const bad = (k, w) => ctx.violation(`multi:${k}:${u.lazy ? 'lazy' : 'eager'}`, `[${canon(K)}] population ${canon(m0)}, ${op}: ${w}`)
        const allowed = outcomes(K, m0, op)
        const r = await attempt(() => settle(() => OPS[op](S)))
        const ok = r.ok && r.val?.ok !== false
        ctx.exec(); ctx.trans()
        const h = await settle(() => contents(S))
        if (!allowed.some((o) => o.ok === ok && same(o.m, h))) bad('op', `${ok ? 'accepted' : `rejected (${r.err?.name})`}, contents ${canon(h)}; allowed ${canon(allowed)}`)
        await settle(() => audit(S, K, u.lazy, h, bad))
        S.db.close(); ctx.state(['multi', h])
      }
      return
    }
    if (u.crowd) {
      // many referring records: one of them, at any place, decides
      const K = { ic: u.crowd, li: u.crowd, lc: 'none', ip: 'none', order: 'il' }
      for (const [n, at] of [[130, 0], [130, 64], [130, 129], [130, 'all']]) {
        resetWorld(1)
        const store = plainStore(nb.hub, new Data())
        const S = await settle(() => open(store, K, u.lazy))
        await settle(async () => {
          await S.c.put('1', { id: '1' }); await S.c.put('2', { id: '2' })
          for (let j = 0; j < n; j++) { await S.i.put(`k${j}`, { c: at === 'all' || at === j ? '1' : '2' }); if (j % 10 === 0) await S.l.put(`m${j}`, { i: `k${j}` }) }
        })
        const r = await attempt(() => settle(() => S.c.delete('1')))
        ctx.exec(); ctx.trans()
        const bad = (w) => ctx.violation(`crowd:${u.crowd}:${u.lazy ? 'lazy' : 'eager'}`, `${n} records, of which ${at === 'all' ? 'all' : `number ${at}`} refer to c/1 (${u.crowd}): after deleting it ${w}`)
        const F = await settle(() => open(store, { ...K, ic: 'warn', li: 'warn' }, false))
        const left = await settle(async () => { const o = []; for (let j = 0; j < n; j++) if (await F.i.get(`k${j}`)) o.push(j); return o })
        const lines = await settle(async () => { const o = []; for (let j = 0; j < n; j += 10) if (await F.l.get(`m${j}`)) o.push(j); return o })
        const hit = (j) => at === 'all' || at === j, all = Array.from({ length: n }, (_, j) => j)
        const wantLeft = u.crowd === 'cascade' ? all.filter((j) => !hit(j)) : all
        if (r.ok !== (u.crowd !== 'strict')) bad(`the call is ${r.ok ? 'accepted' : `rejected: ${r.err}`}`)
        else if (!same(left, wantLeft) || !same(lines, wantLeft.filter((j) => j % 10 === 0))) bad(`${left.length} of ${n} records and ${lines.length} lines are left`)
        const rep = await settle(() => S.v.checkIntegrity())
        if (rep.violations.length !== (u.crowd === 'warn' ? all.filter(hit).length : 0)) bad(`checkIntegrity reports ${rep.violations.length} dangling references`)
        S.db.close(); F.db.close()
      }
      return
    }
    if (u.out !== undefined) {
      // records that arrived without reference checks: reports and joins must show them
      for (const lazy of [false, true]) for (const st of STATES) for (const miss of [['c'], ['i'], ['c', 'i']]) {
        const K = { ic: u.out, li: u.out, lc: 'none', ip: 'none', order: 'il' }
        resetWorld(1)
        const data = new Data(), store = plainStore(nb.hub, data), m = build(st)
        m.i.i3 = { id: 'i3', c: 'zz' }; m.l.l3 = { i: 77 }
        if (miss.includes('c')) delete m.c['1']
        if (miss.includes('i')) delete m.i.i2
        const S0 = await settle(() => open(store, K, false, true))
        for (const c of ['c', 'i', 'l']) for (const [id, r] of Object.entries(m[c])) await settle(() => S0[c].put(id, cp(r)))
        const S = await settle(() => open(store, K, lazy))
        ctx.exec(); ctx.trans()
        await settle(() => audit(S, K, lazy, m, (k, w) => ctx.violation(`orphans:${k}:${u.out}:${lazy ? 'lazy' : 'eager'}`, `[${canon(K)}] population ${canon(m)}: ${w}`)))
        S.db.close(); S0.db.close()
        ctx.state(['orphans', m])
      }
      return
    }
    if (u.p !== undefined) {
      const [name, other] = PAIRS[u.p], K = u.K
      for (const st of [['1', '', '', '', ''], ['1', 1, 'i1', '', ''], ['', '', 'i1', '', '']]) {
        const m0 = build(st)
        const r = await exploreAll(async (ch) => {
          resetWorld(1)
          const data = new Data(), sched = new Sched(nb.hub, ch, { preempt: ctx.tier === 'quick' ? 2 : 4 })
          const plain = plainStore(nb.hub, data), gated = sched.store(data, 's')
          let on = false
          const sw = { name: 'sw' }
          for (const k of Object.keys(plain)) if (typeof plain[k] === 'function') sw[k] = (...a) => (on ? gated[k](...a) : plain[k](...a))
          const S = await settle(() => open(sw, K, u.lazy))
          for (const c of ['c', 'i', 'l']) for (const [id, rec] of Object.entries(m0[c])) await settle(() => S[c].put(id, cp(rec)))
          ctx.exec(); on = true
          await sched.run([[name, () => OPS[name](S)], ['other', () => other(S)]])
          on = false
          await drain(); ctx.trans(sched.transitions)
          const bad = (k, w) => ctx.violation(`conc:${k}:${u.lazy ? 'lazy' : 'eager'}`, `[${canon(K)}] ${name} || ${other.toString().slice(7)} on ${canon(m0)}: ${w}; calls ${sched.trace.join(' ')}`, { prefix: ch.trace })
          const F = await settle(() => open(plain, K, false))
          const m = await settle(() => contents(F)), h = await settle(() => contents(S))
          if (!same(m, h)) bad('handle', `the handle shows ${canon(h)}, the store holds ${canon(m)}`)
          for (const c of ['c', 'i', 'l']) for (const id of Object.keys(m[c])) for (const [f, [t, mode]] of Object.entries(refsOf(K)[c] ?? {})) {
            const v = m[c][id][f]
            if (isKey(v) && !m[t][String(v)] && mode !== 'warn' && !(name === 'tx delete c/1 then fail')) {
              if (mode === 'strict') bad('dangling', `${c}/${id}.${f} -> ${v} dangles although the reference is strict`)
            }
          }
          await settle(() => audit(F, K, false, m, bad))
          ctx.state([u.p, m])
          F.db.close(); S.db.close()
        })
        if (!r.complete) ctx.capped('incomplete')
      }
      return
    }
    const K = CONFIGS[u.k]
    for (let s = 0; s < STATES.length; s++) {
      if (u.tier === 'quick' && (s + u.k + (u.lazy ? 2 : 0)) % 5 !== 0) continue
      const m0 = build(STATES[s])
      if (K.ic === 'none') continue
      for (const op of Object.keys(OPS)) {
        resetWorld(1)
        const data = new Data(), store = plainStore(nb.hub, data)
        const S = await settle(() => open(store, K, u.lazy))
        // populate so that strict references always find their targets
        await settle(async () => {
          for (const id of ['1', '2']) await S.c.put(id, cp(m0.c[id]))
          await S.i.put('i1', { id: 'i1' }); await S.i.put('i2', {})
          for (const id of ['i1', 'i2']) await S.i.put(id, cp(m0.i[id]))
          if (m0.l.l1) await S.l.put('l1', cp(m0.l.l1))
        })
        const bad = (k, w) => ctx.violation(`${k}:${u.lazy ? 'lazy' : 'eager'}`, `[${canon(K)}] population ${canon(m0)}, ${op}: ${w}`)
        const allowed = outcomes(K, m0, op)
        const r = await attempt(() => settle(() => OPS[op](S)))
        const ok = r.ok && r.val?.ok !== false
        ctx.exec(); ctx.trans()
        const h = await settle(() => contents(S))
        const hit = allowed.find((o) => o.ok === ok && same(o.m, h))
        if (!hit) bad(`op:${op.split(' ')[0]}`, `${ok ? 'accepted' : `rejected (${r.err?.name ?? canon(r.val?.failures?.map((f) => f.error?.name))})`}, contents ${canon(h)}; allowed ${canon(allowed)}`)
        else if (!ok && !r.ok && !op.includes('fail') && r.err?.name !== 'RefIntegrityError') bad('error', `rejected with ${r.err?.name}`)
        const F = await settle(() => open(store, K, false))
        const f = await settle(() => contents(F))
        if (!same(f, h)) bad('stored', `a fresh instance reads ${canon(f)}, the handle ${canon(h)}`)
        await settle(() => audit(S, K, u.lazy, h, bad))
        F.db.close(); S.db.close()
        ctx.state([h])
        ctx.last = `${op} on ${canon(m0)}`
        if (ctx.executions <= 1) ctx.sample({ config: K, population: m0, operation: op, contents: h })
      }
    }
  },
}
