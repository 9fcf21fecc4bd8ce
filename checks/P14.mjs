// P14 — live queries, live aggregates, subscriptions and change events always reflect the current contents.
import { resetWorld, settle, drain } from '../lib/world.mjs'
import { sequences, canon, same, exploreAll } from '../lib/explore.mjs'
import { Data, plainStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const cp = (v) => JSON.parse(JSON.stringify(v))
const schema = { '~standard': { version: 1, vendor: 'mc', validate: (v) => (v.n >= 0 ? { value: v } : { issues: [{ message: 'negative' }] }) } }
const OPS = ['put a 1 x', 'put a 5 y', 'put b 3 x', 'del a', 'bad', 'many', 'manyFail', 'tx', 'txAbort', 'txFail', 'target', 'dropTarget', 'target2', 'other', 'revert', 'pair']
const MODES = { plain: {}, indexed: { indexes: ['g', 'n'] }, encrypted: { enc: true }, lww: { crdt: 'lww-map' }, lazy: { prefetch: false, cache: { maxRecords: 1 } } }
// concurrent programs: operations that overlap, every completion order
const PAIRS = [['put a 1 x', 'put b 3 x'], ['put a 1 x', 'put a 5 y'], ['put a 1 x', 'del a'], ['del a', 'put b 3 x'], ['many', 'put a 1 x'], ['tx', 'put a 5 y'], ['put a 5 y', 'target'], ['del a', 'many']]

function watchers(nb, S) {
  const { x } = S
  const A = nb.aggregate
  const q = () => x.query()
  return {
    // these two fail while a record with n = 5 exists, and recover when it is gone
    fails: { mk: () => q().filter((r) => { if (r.n === 5) throw new Error('five') ; return r.n < 4 }).live(), want: (m) => Object.values(m.x).filter((r) => r.n < 4), bag: true, fails: (m) => Object.values(m.x).some((r) => r.n === 5) },
    failSum: { mk: () => q().filter((r) => { if (r.n === 5) throw new Error('five') ; return true }).aggregate({ s: A.sum('n') }).live(), want: (m) => ({ s: Object.values(m.x).reduce((a, r) => a + r.n, 0) }), fails: (m) => Object.values(m.x).some((r) => r.n === 5) },
    all: { mk: () => q().live(), want: (m) => Object.values(m.x), bag: true },
    some: { mk: () => q().where('n', '>', 2).orderBy('n', 'desc').live(), want: (m) => Object.values(m.x).filter((r) => r.n > 2).sort((a, b) => b.n - a.n).map((r) => r.n), proj: (v) => v.map((r) => r.n) },
    window: { mk: () => q().where('g', '==', 'x').orderBy('n').limit(1).live(), want: (m) => Object.values(m.x).filter((r) => r.g === 'x').map((r) => r.n).sort((a, b) => a - b).slice(0, 1), proj: (v) => v.map((r) => r.n) },
    joined: { mk: () => q().join('r', { as: 't' }).live(), want: (m) => Object.values(m.x).map((r) => ({ ...r, t: r.r === undefined ? null : m.t[r.r] ?? null })), bag: true },
    twice: { mk: () => q().join('r', { as: 't' }).join('r2', { as: 'u' }).live(), want: (m) => Object.values(m.x).map((r) => ({ ...r, t: r.r === undefined ? null : m.t[r.r] ?? null, u: r.r2 === undefined ? null : m.t2[r.r2] ?? null })), bag: true },
    total: { mk: () => q().aggregate({ c: A.count(), s: A.sum('n'), hi: A.max('n') }).live(), want: (m) => { const v = Object.values(m.x).map((r) => r.n); return { c: v.length, s: v.reduce((a, b) => a + b, 0), hi: v.length ? Math.max(...v) : null } }, one: true },
    groups: { mk: () => q().where('n', '>=', 1).groupBy('g').aggregate({ c: A.count() }).live(), want: (m) => { const g = {}; for (const r of Object.values(m.x)) if (r.n >= 1) g[r.g] = (g[r.g] ?? 0) + 1; return Object.entries(g).map(([k, c]) => ({ g: k, c })) }, bag: true },
  }
}
const show = (w, v) => (v === undefined ? v : w.proj ? w.proj(v) : w.bag ? [...v].map((r) => canon(r)).sort() : v)
const want = (w, m) => (w.proj ? w.want(m) : w.bag ? w.want(m).map((r) => canon(r)).sort() : w.want(m))

export default {
  level: 'model_checking',
  technique: 'exhaustive operation histories (and every completion order of overlapping operations) on the real code with live queries, live aggregates, subscriptions and event listeners attached at every point, compared with a reference after each step',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} operations x ${Object.keys(MODES).length} collection modes, watchers attached before every step; ${PAIRS.length} overlapping pairs x all store-call completion orders (preemption bound ${t === 'quick' ? 3 : 5})`,
  assumptions: ['the collection was listed once before the live query is created', 'a put event whose record was deleted meanwhile carries null (documented)', 'an aborted transaction may report changes that it then undoes'],
  units(tier) {
    const out = []
    for (const m of Object.keys(MODES)) for (let i = 0; i < OPS.length; i++) out.push({ m, i, len: tier === 'quick' ? 3 : 4 })
    for (const m of Object.keys(MODES)) PAIRS.forEach((_, p) => out.push({ m, p }))
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb, { enc, ...copts } = MODES[u.m], lazy = u.m === 'lazy', lww = u.m === 'lww'
    const open = async (store) => {
      const db = await openDb(nb, store, { encrypt: !!enc, except: ['sync', 'session'] })
      const v = await db.openVault('V'), w = await db.openVault('W')
      const t = v.collection('t'), t2 = v.collection('t2'), x = v.collection('x', { ...copts, schema, refs: { r: nb.hub.ref('t', 'warn'), r2: nb.hub.ref('t2', 'warn') } }), o = w.collection('x')
      if (!lazy) await x.list()
      await t.list(); await t2.list()
      return { db, v, w, t, t2, x, o }
    }
    /** perform one operation; returns { skip } and the expected events */
    const perform = async (S, m, op, n) => {
      const [what, id, num, g] = op.split(' ')
      const ev = []
      const put = (c, i, rec) => { m[c][i] = lww && c === 'x' ? { ...(m[c][i] ?? {}), ...rec } : rec; (m.h[`${c}/${i}`] ??= []).push(m[c][i]); ev.push(['V', c, i, 'put']) }
      const del = (c, i) => { delete m[c][i]; m.h[`${c}/${i}`] = []; ev.push(['V', c, i, 'delete']) }
      let loose = false
      switch (what) {
        case 'put': { const rec = { n: Number(num), g, r: 't1', r2: 'z1' }; await S.x.put(id, cp(rec)); put('x', id, rec); break }
        case 'del': if (!m.x[id]) return { skip: true }; await S.x.delete(id); del('x', id); break
        case 'bad': { const r = await attempt(() => S.x.put('a', { n: -1 })); if (r.ok) throw new Error('invalid record accepted'); break }
        case 'many': await S.x.putMany([['a', { n: 2, g: 'x' }], ['b', { n: 4, g: 'y', r: 't2' }]]); put('x', 'a', { n: 2, g: 'x' }); put('x', 'b', { n: 4, g: 'y', r: 't2' }); break
        case 'manyFail': { const r = await attempt(() => S.x.putMany([['a', { n: 8, g: 'x' }], ['b', { n: -1 }]], { atomic: true })); if (r.ok && r.val.ok !== false) throw new Error('atomic putMany with an invalid record succeeded'); loose = true; break }
        case 'tx': await S.db.transaction(async (tx) => { const c = tx.vault('V').collection('x'); c.put('b', { n: 6, g: 'y' }); tx.vault('V').collection('t').put('t1', { id: 't1', name: `tx${n}` }) }); put('x', 'b', { n: 6, g: 'y' }); put('t', 't1', { id: 't1', name: `tx${n}` }); break
        case 'txAbort': await attempt(() => S.db.transaction(async (tx) => { tx.vault('V').collection('x').put('a', { n: 9, g: 'x' }); throw new Error('stop') })); break
        case 'txFail': { const r = await attempt(() => S.db.transaction(async (tx) => { const c = tx.vault('V').collection('x'); c.put('a', { n: 9, g: 'x' }); c.delete('b'); c.put('c', { n: -1 }) })); if (r.ok) throw new Error('transaction with an invalid record succeeded'); loose = true; break }
        case 'target': await S.t.put('t1', { id: 't1', name: `n${n}` }); put('t', 't1', { id: 't1', name: `n${n}` }); break
        case 'dropTarget': if (!m.t.t1) return { skip: true }; await S.t.delete('t1'); del('t', 't1'); break
        case 'target2': await S.t2.put('z1', { id: 'z1', name: `z${n}` }); put('t2', 'z1', { id: 'z1', name: `z${n}` }); break
        case 'other': await S.o.put('a', { n: 77, g: 'x' }); ev.push(['W', 'x', 'a', 'put']); break
        case 'revert': { const h = m.h['x/a'] ?? []; if (h.length < 2 || !m.x.a) return { skip: true }; await S.x.revert('a', 1); put('x', 'a', h[0]); break }
        case 'pair': await Promise.all([S.x.put('a', { n: 3, g: 'y' }), S.x.put('b', { n: 1, g: 'x' })]); put('x', 'a', { n: 3, g: 'y' }); put('x', 'b', { n: 1, g: 'x' }); break
      }
      return { ev, loose }
    }
    const attach = (S, n) => {
      const out = { n, live: {}, hits: {}, sub: [], events: [], q: null }
      if (!lazy) {
        for (const [k, w] of Object.entries(watchers(nb, S))) {
          const l = w.mk(); out.live[k] = { l, w, was: canon(show(w, l.value)) }
          out.hits[k] = 0
          l.subscribe(() => { throw new Error('a listener that fails') })
          l.subscribe(() => { out.hits[k]++ })
          const un = l.subscribe(() => { out.gone = k }); un()
        }
        out.unq = S.x.query().where('g', '==', 'x').subscribe((rs) => { out.q = rs.map((r) => canon(r)).sort() })
      }
      out.thrown = []
      if (n === 0) {
        S.db.on('change', () => { throw new Error('a listener that fails') })
        S.x.subscribe((e) => { out.thrown.push(e); throw new Error('a subscriber that fails') })
      }
      out.unsub = S.x.subscribe((e) => out.sub.push(e))
      out.on = (e) => out.events.push([e.vault, e.collection, e.id, e.action])
      S.db.on('change', out.on)
      return out
    }
    const verify = (watch, m, bad) => {
      for (const o of watch) {
        for (const [k, { l, w }] of Object.entries(o.live)) {
          if (w.fails?.(m)) { if (!l.error) bad(`error:${k}`, `live ${k} does not report that its filter fails`); continue }
          const g = show(w, l.value), e = want(w, m)
          if (!same(g, e)) bad(`live:${k}`, `live ${k} (attached before step ${o.n + 1}) shows ${canon(g)}, expected ${canon(e)}`)
          if (l.error) bad(`error:${k}`, `live ${k} reports ${l.error}`)
        }
        if (o.q) { const e = Object.values(m.x).filter((r) => r.g === 'x').map((r) => canon(r)).sort(); if (!same(o.q, e)) bad('subscribe', `query.subscribe last delivered ${canon(o.q)}, expected ${canon(e)}`) }
        if (o.gone) bad('unsubscribed', `an unsubscribed listener of ${o.gone} was called`)
      }
    }
    if (u.p !== undefined) {
      const r = await exploreAll(async (ch) => {
        resetWorld(1)
        const data = new Data(), sched = new Sched(nb.hub, ch, { preempt: ctx.tier === 'quick' ? 3 : 5 })
        const plain = plainStore(nb.hub, data), gated = sched.store(data, 's')
        let on = false
        const sw = { name: 'sw' }
        for (const k of Object.keys(plain)) if (typeof plain[k] === 'function') sw[k] = (...a) => (on ? gated[k](...a) : plain[k](...a))
        const S = await settle(() => open(sw))
        const m0 = { x: {}, t: {}, t2: {}, h: {} }
        await settle(() => perform(S, m0, 'put a 5 y', 0)); await settle(() => perform(S, m0, 'target', 0))
        const watch = [attach(S, 0)]
        ctx.exec(); on = true
        const res = await sched.run(PAIRS[u.p].map((op, i) => [`${i}:${op}`, () => perform(S, cp(m0), op, 10 + i)]))
        on = false
        await drain(); ctx.trans(sched.transitions)
        const bad = (k, w) => ctx.violation(`conc:${k}:${u.m}`, `[${u.m}] ${PAIRS[u.p].join(' || ')}: ${w}; calls ${sched.trace.join(' ')}`, { prefix: ch.trace })
        for (const t of res) if (!t.ok) return bad('op', `${t.name} failed: ${t.err}`)
        // the store is the reference: what a fresh instance reads
        const F = await settle(() => open(plain))
        const m = { x: {}, t: {}, t2: {} }
        for (const [c, col] of [['x', F.x], ['t', F.t], ['t2', F.t2]]) for (const id of ['a', 'b', 'c', 't1', 't2', 'z1']) { const z = await settle(() => col.get(id)); if (z) m[c][id] = cp(z) }
        verify(watch, m, bad)
        const evs = watch[0].events, mirror = cp({ x: m0.x, t: m0.t, t2: m0.t2 })
        const n = res.flatMap((t) => t.val.ev)
        if (!same(evs.map(canon).sort(), n.map(canon).sort())) bad('events', `events ${canon(evs)}, expected (in some order) ${canon(n)}`)
        for (const [v, c, id] of evs) if (v === 'V') { if (m[c][id]) mirror[c][id] = m[c][id]; else delete mirror[c][id] }
        if (!same(mirror, m)) bad('mirror', `a copy maintained from change events holds ${canon(mirror)}, expected ${canon(m)}`)
        F.db.close(); S.db.close()
        ctx.state([u.m, u.p, m])
      })
      if (!r.complete) ctx.capped('incomplete')
      return
    }
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(OPS.length, len - 1)) {
      const seq = [u.i, ...rest].map((k) => OPS[k])
      resetWorld(1)
      const data = new Data()
      const S = await settle(() => open(plainStore(nb.hub, data)))
      const m = { x: {}, t: {}, t2: {}, h: {} }
      const watch = []
      let stopped = null, skip = false
      const bad = (k, w) => ctx.violation(`${k}:${u.m}`, `[${u.m}] ${seq.join(' ; ')}: ${w}`)
      const mirror = { x: {}, t: {}, t2: {} }
      for (let n = 0; n < seq.length && !skip; n++) {
        watch.push(attach(S, n))
        const marks = watch.map((o) => [o.events.length, o.sub.length, cp(o.hits), Object.fromEntries(Object.entries(o.live).map(([k, { l, w }]) => [k, canon(show(w, l.value))]))])
        const r = await attempt(() => settle(() => perform(S, m, seq[n], n)))
        if (!r.ok) { bad(`op:${seq[n].split(' ')[0]}`, `${seq[n]} failed: ${r.err}`); skip = true; break }
        if (r.val.skip) { skip = true; break }
        await drain()
        ctx.trans()
        verify(watch, m, bad)
        watch.forEach((o, i) => {
          const evs = o.events.slice(marks[i][0])
          const order = (l) => (seq[n] === 'pair' ? l.map(canon).sort() : l.map(canon))
          if (!r.val.loose && !same(order(evs), order(r.val.ev))) bad('events', `step ${n + 1} reported ${canon(evs)}, expected ${canon(r.val.ev)}`)
          const subs = o.sub.slice(marks[i][1]), mine = r.val.ev.filter((e) => e[0] === 'V' && e[1] === 'x')
          if (!r.val.loose) {
            if (!same(order(subs.map((e) => [e.type, e.id])), order(mine.map((e) => [e[3], e[2]])))) bad('collection-events', `step ${n + 1}: collection.subscribe delivered ${canon(subs)}, expected ${canon(mine)}`)
            for (const e of subs) if (e.type === 'put' ? !same(cp(e.record), m.x[e.id] ?? null) : e.record !== null) bad('collection-events', `step ${n + 1}: event carries ${canon(e.record)}, expected ${canon(m.x[e.id] ?? null)}`)
          }
          if (o.n === 0 && !same(o.thrown.map((e) => [e.type, e.id]), o.sub.map((e) => [e.type, e.id]))) bad('thrown', `a subscriber that throws was told ${canon(o.thrown)}, others ${canon(o.sub)}`)
          for (const [k, { l, w }] of Object.entries(o.live)) if (canon(show(w, l.value)) !== marks[i][3][k] && o.hits[k] === marks[i][2][k]) bad(`silent:${k}`, `step ${n + 1}: live ${k} changed without notifying its listener`)
          if (i === 0) for (const [v, c, id] of evs) if (v === 'V') { if (m[c][id]) mirror[c][id] = m[c][id]; else delete mirror[c][id] }
        })
        if (!same(mirror, { x: m.x, t: m.t, t2: m.t2 })) bad('mirror', `a copy maintained from change events holds ${canon(mirror)}, expected ${canon({ x: m.x, t: m.t, t2: m.t2 })}`)
        if (stopped) {
          for (const [k, { l, w }] of Object.entries(stopped.live)) if (canon(show(w, l.value)) !== stopped.was[k] || stopped.hits[k] !== stopped.at[k]) bad('stopped', `a stopped live ${k} went on`)
          if (stopped.events.length !== stopped.ne || stopped.sub.length !== stopped.ns) bad('stopped', 'a removed listener still receives events')
        }
        if (n === 0 && seq.length > 1) {
          stopped = watch.shift()
          for (const { l } of Object.values(stopped.live)) { l.stop(); l.stop() }
          stopped.unq?.(); stopped.unsub(); S.db.off('change', stopped.on); stopped.q = null
          stopped.was = Object.fromEntries(Object.entries(stopped.live).map(([k, { l, w }]) => [k, canon(show(w, l.value))])); stopped.at = cp(stopped.hits); stopped.ne = stopped.events.length; stopped.ns = stopped.sub.length
        }
      }
      S.db.close()
      if (skip) continue
      ctx.exec(); ctx.last = seq.join(' ; ')
      ctx.state([u.m, m.x, m.t])
      if (ctx.executions <= 1) ctx.sample({ mode: u.m, history: seq, contents: m.x, watchers: 8 })
    }
  },
}
