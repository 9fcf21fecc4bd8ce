// P43 — UI bindings show exactly what the collection holds.
import { resetWorld, settle, drain, advance, W } from '../lib/world.mjs'
import { sequences, canon, same, exploreAll, product } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'
import * as R from '../lib/fakereact.mjs'

const cp = (v) => (v === undefined ? undefined : JSON.parse(JSON.stringify(v)))
const bag = (v) => (v ?? []).map((r) => canon(r)).sort()
const schema = { '~standard': { version: 1, vendor: 'mc', validate: (v) => (v.n >= 0 ? { value: v } : { issues: [{ message: 'negative' }] }) } }
const OPS = ['put a 1', 'put a 5', 'put b 3', 'del a', 'del c', 'many', 'tx', 'bad', 'other', 'vault']
const HI = (q) => q.where('n', '>=', 3).orderBy('n', 'desc').toArray()
const hi = (recs) => recs.filter((r) => r.n >= 3).sort((a, b) => b.n - a.n)

/** Minimal host for Vue components. */
function vueMount(nb, setup, plugins = []) {
  const node = () => ({ kids: [], parent: null })
  const { createApp } = nb.Vue.createRenderer({
    insert: (c, p) => { c.parent = p }, remove: (c) => { c.parent = null }, createElement: node, createText: node, createComment: node,
    setText() {}, setElementText() {}, parentNode: (n) => n.parent, nextSibling: () => null, patchProp() {},
  })
  let err = null
  const app = createApp({ setup() { try { setup() } catch (e) { err = e } return () => null } })
  for (const [p, o] of plugins) app.use(p, o)
  app.mount(node())
  if (err) throw err
  return () => app.unmount()
}
function reactMount(hook, { strict, db, nb } = {}) {
  const seen = { v: null }
  const C = (props) => { seen.v = hook(props); return null }
  const wrap = (props) => (db ? R.createElement(nb.react.NoydbProvider, { db }, R.createElement(C, props)) : R.createElement(C, props))
  const h = R.mount(wrap({}), { strict })
  return { seen, update: (props) => h.update(wrap(props)), unmount: h.unmount }
}
const rx = (h, kind) => ({ view: () => h.seen.v, stop: h.unmount, kind })

/** Every binding: (nb, S) → { view() → {data,loading,error}, stop(), kind, refresh? }; kind all | hi | map | get */
const BINDINGS = {
  react: (nb, S) => rx(reactMount(() => nb.react.useCollection(S.v, 'x')), 'all'),
  reactStrict: (nb, S) => rx(reactMount(() => nb.react.useCollection(S.v, 'x'), { strict: true }), 'all'),
  reactVault: (nb, S) => rx(reactMount(() => { const { vault, error } = nb.react.useVault('V'); const c = nb.react.useCollection(vault, 'x'); return error ? { data: [], loading: false, error } : c }, { db: S.db, nb }), 'all'),
  reactQuery: (nb, S) => rx(reactMount(() => nb.react.useQuery(S.v, 'x', HI)), 'hi'),
  vue: (nb, S) => {
    let r; const un = vueMount(nb, () => { r = nb.vue.useCollection(nb.vue.useNoydb(), 'V', 'x') }, [[nb.vue.NoydbPlugin, { instance: S.db }]])
    return { view: () => ({ data: r.data.value, loading: r.loading.value, error: r.error.value }), stop: un, refresh: () => r.refresh(), kind: 'all' }
  },
  solid: (nb, S) => solid(nb, () => nb.solid.createCollectionSignal(S.v, 'x'), 'all'),
  solidQuery: (nb, S) => solid(nb, () => nb.solid.createQuerySignal(S.v, 'x', HI), 'hi'),
  svelte: (nb, S) => svelte(nb.svelte.collectionStore(S.v, 'x'), 'all'),
  svelteQuery: (nb, S) => svelte(nb.svelte.queryStore(S.v, 'x', HI), 'hi'),
  zustand: (nb, S) => {
    const st = nb.Zustand.createStore(nb.zustand.createNoydbStore(() => S.v.collection('x')))
    return { view: () => { const s = st.getState(); return { data: s.records, loading: s.loading, error: s.error } }, stop: () => st.getState()._unsubscribe(), refresh: () => st.getState().refresh(), kind: 'map', api: st }
  },
  tqList: (nb, S) => tanstack(nb, S, (t) => t.collectionListOptions('V', 'x', () => S.v.collection('x')), 'all'),
  tqGet: (nb, S) => tanstack(nb, S, (t) => t.collectionGetOptions('V', 'x', 'a', () => S.v.collection('x')), 'get'),
  tqQuery: (nb, S) => tanstack(nb, S, (t) => t.collectionQueryOptions('V', 'x', () => S.v.collection('x'), HI), 'hi'),
  pinia: (nb, S) => {
    const scope = nb.Vue.effectScope(true)
    const pinia = nb.Pinia.createPinia()
    const st = scope.run(() => nb.pinia.defineNoydbStore('x', { vault: 'V', noydb: S.db })(pinia))
    let err = null; st.$ready.catch((e) => { err = e })
    const out = { view: () => ({ data: st.items, loading: false, error: err, n: st.count }), stop: () => scope.stop(), refresh: async () => { try { await st.refresh(); err = null } catch (e) { err = e } }, kind: 'all', manual: true, st }
    return out
  },
  piniaLive: (nb, S) => {
    const pinia = nb.Pinia.createPinia(), scope = nb.Vue.effectScope(true)
    const st = nb.pinia.defineNoydbStore('x', { vault: 'V', noydb: S.db })(pinia)
    let lq = null, err = null
    st.$ready.then(() => { lq = scope.run(() => st.liveQuery((q) => q.where('n', '>=', 3).orderBy('n', 'desc'))) }, (e) => { err = e })
    return { view: () => ({ data: lq ? lq.items.value : null, loading: !lq && !err, error: lq ? lq.error.value : err }), stop: () => scope.stop(), kind: 'hi', noHeal: true }
  },
}
function solid(nb, mk, kind) {
  let sig, stop
  nb.Solid.createRoot((d) => { stop = d; sig = mk() })
  return { view: () => ({ data: sig[0](), loading: sig[1](), error: sig[2]() }), stop, kind }
}
function svelte(st, kind) {
  let v; const un = st.subscribe((s) => { v = s }), second = {}
  const un2 = st.subscribe((s) => { second.n = (second.n ?? 0) + 1 }); un2()
  let left = false
  const un3 = st.subscribe(() => { if (left) second.n = 99 })
  return { view: () => ({ data: kind === 'hi' ? v.data : v.records, loading: v.loading, error: v.error, extra: second.n }), leave: () => { un3(); un(); left = true }, calls: () => second.n, stop: () => { st.stop(); un(); un3() }, refresh: () => st.refresh(), kind }
}
function tanstack(nb, S, mk, kind) {
  const qc = new nb.QC.QueryClient({ defaultOptions: { queries: { retry: false, gcTime: Infinity, networkMode: 'always' }, mutations: { retry: false, gcTime: Infinity, networkMode: 'always' } } })
  const obs = new nb.QC.QueryObserver(qc, mk(nb.tq))
  let v = obs.getCurrentResult()
  const un = obs.subscribe((r) => { v = r })
  const off = nb.tq.bindInvalidation(qc, 'V', 'x', S.v.collection('x'))
  return { view: () => ({ data: v.data === undefined ? null : v.data, loading: v.isLoading, error: v.isError ? v.error : null }), stop: () => { off(); un(); qc.clear() }, unbind: off, refresh: () => obs.refetch(), kind, qc }
}
const NAMES = Object.keys(BINDINGS)
function expected(kind, m) {
  const recs = Object.values(m)
  if (kind === 'all') return bag(recs)
  if (kind === 'hi') return hi(recs).map((r) => canon(r))
  if (kind === 'get') return [canon(m.a ?? null)]
  return Object.keys(m).sort().map((k) => canon([k, m[k]]))
}
function shown(kind, d) {
  if (kind === 'all') return bag(d)
  if (kind === 'hi') return (d ?? ['nothing']).map((r) => canon(r))
  if (kind === 'get') return [canon(d)]
  return Object.keys(d).sort().map((k) => canon([k, d[k]]))
}
/** what the view must show now; returns a complaint or null */
function judge(b, m) {
  const v = b.view()
  if (v.error) return `shows the error ${v.error.message ?? v.error}`
  if (v.loading) return 'is still loading'
  const g = shown(b.kind, v.data), e = expected(b.kind, m)
  if (!same(g, e)) return `shows ${g.join(' ') || 'nothing'}, the collection holds ${e.join(' ') || 'nothing'}`
  if (v.n !== undefined && v.n !== Object.keys(m).length) return `counts ${v.n} records of ${Object.keys(m).length}`
  if (v.extra !== undefined && v.extra !== 1) return 'calls a subscriber that unsubscribed'
  return null
}
async function quiet() { for (let i = 0; i < 3; i++) { await drain(); await advance(3) } }

async function seed(nb, data, enc) {
  const db = await openDb(nb, plainStore(nb.hub, data), { encrypt: enc, except: ['sync', 'session'] })
  const v = await db.openVault('V'), w = await db.openVault('W')
  await v.collection('x').put('a', { id: 'a', n: 0 }); await v.collection('x').put('c', { id: 'c', n: 9 })
  await v.collection('y').put('a', { id: 'a', n: 70 }); await w.collection('x').put('a', { id: 'a', n: 80 })
  await db.close()
  return { a: { id: 'a', n: 0 }, c: { id: 'c', n: 9 } }
}
async function open(nb, store, enc) {
  const db = await openDb(nb, store, { encrypt: enc, except: ['sync', 'session'] })
  const v = await db.openVault('V'), w = await db.openVault('W')
  return { db, v, w, x: v.collection('x', { schema }), y: v.collection('y'), o: w.collection('x') }
}
async function perform(S, m, op) {
  const [what, id, n] = op.split(' ')
  const put = (i, k) => { m[i] = { id: i, n: k } }
  switch (what) {
    case 'put': await S.x.put(id, { id, n: Number(n) }); put(id, Number(n)); break
    case 'del': await S.x.delete(id); delete m[id]; break
    case 'many': await S.x.putMany([['a', { id: 'a', n: 2 }], ['d', { id: 'd', n: 4 }]]); put('a', 2); put('d', 4); break
    case 'tx': await S.db.transaction(async (tx) => { const c = tx.vault('V').collection('x'); c.put('b', { id: 'b', n: 6 }); c.delete('a') }); put('b', 6); delete m.a; break
    case 'bad': { const r = await attempt(() => S.x.put('a', { id: 'a', n: -1 })); if (r.ok) throw new Error('invalid record accepted'); break }
    case 'other': await S.y.put('a', { id: 'a', n: 71 }); break
    case 'vault': await S.o.put('a', { id: 'a', n: 81 }); break
  }
}
/** counts the reads a binding makes on the collection */
function countReads(S) { const c = { n: 0 }; for (const k of ['list', 'get', 'query']) { const f = S.x[k].bind(S.x); S.x[k] = (...a) => { c.n++; return f(...a) } } return c }

/** Store whose calls wait until picked; `moves` are UI actions taken in order at any moment. */
function gate(nb, data) {
  const g = { on: false, pending: [], trace: [] }
  g.store = hookedStore(nb.hub, data, (m, a, go) => { if (!g.on) return go(); return new Promise((res, rej) => g.pending.push({ m, a, run: () => { try { res(go()) } catch (e) { rej(e) } } })) })
  g.explore = async (ch, moves, ctx, dev = Infinity) => {
    g.on = true
    let k = 0, left = 60
    for (;;) {
      await drain()
      const n = g.pending.length + (k < moves.length ? 1 : 0)
      if (!n) { await advance(3); if (!g.pending.length) break; continue }
      if (!left--) throw new Error('livelock')
      const i = n === 1 || (dev <= 0 && g.pending.length) ? 0 : ch.choose(n, 'step')
      if (i) dev--
      ctx.trans()
      if (k < moves.length && i === n - 1) { g.trace.push(`<${moves[k][0]}>`); moves[k++][1]() } else { const c = g.pending.splice(i, 1)[0]; g.trace.push(`${c.m}(${c.a.slice(1, 3).join('/')})`); c.run() }
    }
    g.on = false
    await quiet()
  }
  return g
}

const IDS = [null, 'a', 'b', 'none']
const PLUGIN_OPS = ['one', 'zero', 'two', 'three', 'patch', 'patchFn', 'reset', 'flush', 'reopen', 'fail']
const PERSIST = [undefined, '*', 'one', ['one'], ['one', 'two'], []]
const CAP_OPS = ['request', 'approve', 'release', 'wait 1', 'wait 999', 'wait 1000', 'fail']

export default {
  level: 'model_checking',
  technique: 'exhaustive histories of writes, mounts and unmounts, every interleaving of store calls with user-interface actions, and a store failure at every call, on the real bindings with the real Vue, Pinia, Solid, Zustand and TanStack libraries (React replaced by a stand-in with the same hook rules); what the views show is compared with a reference after every step',
  modules: { ...HUB, react: '@noy-db/in-react', vue: '@noy-db/in-vue', solid: '@noy-db/in-solid', svelte: '@noy-db/in-svelte', zustand: '@noy-db/in-zustand', pinia: '@noy-db/in-pinia', tq: '@noy-db/in-tanstack-query', tt: '@noy-db/in-tanstack-table', Vue: 'vue', Solid: 'solid-js', Pinia: 'from:in-pinia:pinia', Zustand: 'from:in-zustand:zustand/vanilla', QC: 'from:in-tanstack-query:@tanstack/query-core' },
  bundleOpts: { ui: true },
  bounds: (t) => `${NAMES.length} bindings alone x all histories of length <= ${t === 'quick' ? 2 : 3}, all bindings together x all histories of length ${t === 'quick' ? 3 : 4} over ${OPS.length} operations, a view mounted before every step and one unmounted at every step, over an empty and a stored collection; every interleaving of mounting with up to 2 writes (at most 3 calls or actions out of order; thorough 6); one store failure at every call; every interleaving of up to ${t === 'quick' ? 3 : 4} switches of vault, collection, query argument, attachment id (at most 3 out of order, 6 for 2 switches) or locale; all persistence, capability and table-state programs of the stated size`,
  assumptions: ['views are judged when no work is pending', 'React is represented by a stand-in', 'zustand records carry their own id in `id`'],
  units(tier) {
    const q = tier === 'quick', out = []
    for (const b of NAMES) for (const stored of [false, true]) out.push({ k: 'solo', b, stored, len: q ? 2 : 3 })
    for (let i = 0; i < OPS.length; i++) for (const stored of [false, true]) out.push({ k: 'hist', i, stored, len: q ? 3 : 4 })
    for (const b of NAMES) out.push({ k: 'race', b }, { k: 'fault', b })
    out.push({ k: 'acts', len: q ? 3 : 4 })
    for (const what of ['vault', 'coll', 'dep']) out.push({ k: 'switch', what, len: q ? 3 : 4 })
    for (const i of [0, 1, 2, 3]) out.push({ k: 'blob', i, len: q ? 3 : 4 })
    out.push({ k: 'label', len: q ? 2 : 3 }, { k: 'sync', len: q ? 3 : 4 }, { k: 'events' })
    PERSIST.forEach((_, p) => out.push({ k: 'persist', p, len: q ? 3 : 4 }))
    for (let i = 0; i < CAP_OPS.length; i++) out.push({ k: 'grant', i, len: q ? 4 : 5 })
    out.push({ k: 'grantLong', len: q ? 7 : 8 }, { k: 'keys' }, { k: 'approver' }, { k: 'table', part: 0 }, { k: 'table', part: 1 })
    return out
  },
  async runUnit(u, ctx) { return UNITS[u.k](u, ctx, ctx.nb) },
}

const UNITS = {
  async solo(u, ctx, nb) { for (let len = 0; len <= u.len; len++) for (const s of sequences(OPS.length, len)) await history([u.b], s.map((i) => OPS[i]), u, ctx, nb) },
  async hist(u, ctx, nb) { for (const s of sequences(OPS.length, u.len - 1)) await history(NAMES, [u.i, ...s].map((i) => OPS[i]), u, ctx, nb) },
  async race(u, ctx, nb) {
    const PROGS = [['put a 1'], ['put b 3'], ['del a'], ['del c'], ['many'], ['put a 5', 'put b 3'], ['put a 1', 'del a']]
    for (const prog of PROGS) {
      const r = await exploreAll(async (ch) => {
        resetWorld(1)
        const data = new Data(), g = gate(nb, data)
        const m = await settle(() => seed(nb, data, false))
        const S = await settle(() => open(nb, g.store, false))
        ctx.exec()
        let b = null, failed = null
        const moves = [['mount', () => { b = BINDINGS[u.b](nb, S) }], ...prog.map((op) => [op, () => { perform(S, m, op).catch((e) => { failed = e }) }])]
        await g.explore(ch, moves, ctx, ctx.tier === 'quick' ? 3 : 6)
        const bad = (k, w) => ctx.violation(`race:${k}:${u.b}`, `[${u.b}] mounting while ${prog.join(' ; ')} runs (${g.trace.join(' ')}): ${w}`, { prefix: ch.trace })
        if (failed) return bad('op', `an operation failed: ${failed}`)
        const F = await settle(() => open(nb, plainStore(nb.hub, data), false)), now = {}
        for (const rec of await settle(() => F.x.list())) now[rec.id] = rec
        if (b.manual) await settle(() => b.refresh())
        const c = judge(b, now)
        if (c) bad('view', `the view ${c}`)
        b.stop(); await F.db.close(); await S.db.close()
        ctx.state([u.b, prog, now])
      }, { maxExec: 200000 })
      if (!r.complete) ctx.capped('race')
    }
  },
  async fault(u, ctx, nb) {
    for (const stored of [false, true]) for (let k = 0; k < 12; k++) {
      resetWorld(1)
      const data = new Data()
      const m = stored ? await settle(() => seed(nb, data, false)) : {}
      const S0 = await settle(() => open(nb, plainStore(nb.hub, data), false))
      await S0.db.close()
      let n = -1, armed = false, hit = false
      const store = hookedStore(nb.hub, data, (me, a, go) => { if (armed && ++n === k) { hit = true; throw new Error('store down') } return go() })
      // the vault itself is opened by the view where the binding does so
      const S = { db: await settle(() => openDb(nb, store, { encrypt: false, except: ['sync', 'session'] })) }
      const lateOpen = ['vue', 'pinia', 'piniaLive', 'reactVault'].includes(u.b)
      if (!lateOpen) { S.v = await settle(() => S.db.openVault('V')); S.x = S.v.collection('x') }
      ctx.exec(); armed = true
      const b = BINDINGS[u.b](nb, S)
      await quiet(); armed = false
      if (!hit) { b.stop(); await S.db.close(); break }
      const bad = (kk, w) => ctx.violation(`fault:${kk}:${u.b}`, `[${u.b}, ${stored ? 'stored' : 'empty'}] store call ${k} fails while the view loads: ${w}`, { k, stored })
      const v = b.view()
      if (v.loading) bad('loading', 'the view is loading for ever')
      else if (!v.error && judge(b, m)) bad('silent', `no error is reported but the view ${judge(b, m)}`)
      if (!b.noHeal) {
        S.v ??= await settle(() => S.db.openVault('V')); S.x ??= S.v.collection('x')
        if (b.refresh) {
          const r = await attempt(() => settle(() => b.refresh())); await quiet()
          if (!r.ok) bad('refresh', `refresh fails once the store is back: ${r.err}`)
          const c = judge(b, m); if (c) bad('recover', `once the store is back, a refreshed view ${c}`)
        }
        await settle(() => S.x.put('z', { id: 'z', n: 7 })); m.z = { id: 'z', n: 7 }
        await quiet(); if (b.manual) await settle(() => b.refresh())
        const c = judge(b, m); if (c) bad('recover', `once the store is back, after a write the view ${c}`)
        delete m.z
      }
      b.stop(); await S.db.close(); ctx.trans(n + 1); ctx.state([u.b, stored, k])
    }
  },
  /** the write actions of Pinia, Zustand and TanStack mutations */
  async acts(u, ctx, nb) {
    const A = ['put a 1', 'put b 3', 'upd a 5', 'del a', 'fail', 'bad', 'failDel a']
    for (const which of ['pinia', 'zustand', 'tq']) for (let len = 1; len <= u.len; len++) for (const s of sequences(A.length, len)) {
      resetWorld(1)
      const data = new Data(), m = await settle(() => seed(nb, data, false))
      let down = false
      const store = hookedStore(nb.hub, data, (me, a, go) => { if (down && (me === 'put' || me === 'delete')) throw new Error('store down'); return go() })
      const S = await settle(() => open(nb, store, false))
      const b = BINDINGS[which === 'tq' ? 'tqList' : which](nb, S)
      ctx.exec(); await quiet()
      const coll = () => S.v.collection('x')
      const mut = which === 'tq' && { put: nb.tq.collectionPutOptions(coll), del: nb.tq.collectionDeleteOptions(coll) }
      const run = (o, vars) => new nb.QC.MutationObserver(b.qc, o).mutate(vars)
      const act = {
        pinia: { put: (id, r) => b.st.add(id, r), upd: (id, r) => b.st.update(id, r), del: (id) => b.st.remove(id) },
        zustand: b.api && { put: (id, r) => b.api.getState().put(id, r), upd: (id, r) => b.api.getState().put(id, r), del: (id) => b.api.getState().remove(id) },
        tq: mut && { put: (id, record) => run(mut.put, { id, record }), upd: (id, record) => run(mut.put, { id, record }), del: (id) => run(mut.del, { id }) },
      }[which]
      const done = []
      for (const i of s) {
        const [what, id, n] = A[i].split(' ')
        done.push(A[i]); ctx.trans()
        const bad = (k, w) => ctx.violation(`acts:${k}:${which}`, `[${which}] after ${done.join(' ; ')}: ${w}`, { seq: done })
        down = what === 'fail' || what === 'failDel'
        const r = await attempt(() => settle(() => (what === 'del' || what === 'failDel' ? act.del(id) : what === 'upd' ? act.upd(id, { id, n: Number(n) }) : act.put(id ?? 'a', { id: id ?? 'a', n: what === 'bad' ? -1 : Number(n ?? 44) }))))
        down = false; await quiet()
        const must = !/^(fail|bad)/.test(what)
        if (r.ok !== must) bad('outcome', r.ok ? 'a failing write reports success' : `a write fails: ${r.err}`)
        if (must) { if (what === 'del') delete m[id]; else m[id] = { id, n: Number(n) } }
        const now = bag(await settle(() => S.x.list()))
        if (!same(now, bag(Object.values(m)))) bad('store', `the collection holds ${now.join(' ')}, expected ${bag(Object.values(m)).join(' ')}`)
        if (which === 'zustand' && !must) { if (!b.view().error) bad('error', 'the failed write is not shown as an error'); await settle(() => b.refresh()) }
        const c = judge(b, m); if (c) bad('view', `the view ${c}`)
        if (which === 'pinia') {
          for (const k of ['a', 'b', 'c', 'zz']) if (!same(cp(b.st.byId(k)) ?? null, m[k] ?? null)) bad('byId', `byId(${k}) gives ${canon(b.st.byId(k))}`)
          if (!same(b.st.query().where('n', '>=', 3).orderBy('n', 'desc').toArray().map((x) => canon(x)), expected('hi', m))) bad('query', 'query() of the store disagrees with the collection')
        }
      }
      b.stop(); await S.db.close(); ctx.state([which, m])
    }
  },
  /** React: the vault, the collection or a query argument changes while earlier loads are pending */
  async switch(u, ctx, nb) {
    const CH = u.what === 'vault' ? ['V', 'W'] : u.what === 'coll' ? ['x', 'y', null] : [0, 5, 100]
    for (const s of sequences(CH.length, u.len)) {
      const progs = u.what === 'dep' ? [[], ['put b 3'], ['del c']] : [[]]
      for (const prog of progs) {
        const r = await exploreAll(async (ch) => {
          resetWorld(1)
          const data = new Data(), g = gate(nb, data)
          const m = await settle(() => seed(nb, data, u.what === 'vault'))
          const S = u.what === 'vault' ? { db: await settle(() => openDb(nb, g.store, { except: ['sync', 'session'] })) } : await settle(() => open(nb, g.store, false))
          ctx.exec(); g.on = true
          const names = s.map((i) => CH[i])
          const hook = u.what === 'vault'
            ? (p) => { const uv = nb.react.useVault(p.v ?? names[0]); const c = nb.react.useCollection(uv.vault, 'x'); return { uv, c } }
            : u.what === 'coll' ? (p) => { const k = 'c' in p ? p.c : names[0]; return nb.react.useCollection(k === null ? null : S.v, k ?? 'x') }
              : (p) => { const d = p.d ?? names[0]; return nb.react.useQuery(S.v, 'x', (q) => q.where('n', '>=', d).toArray(), [d]) }
          const h = reactMount(hook, { db: S.db, nb })
          const moves = names.slice(1).map((n) => [String(n), () => h.update({ [u.what[0]]: n })])
          for (const op of prog) moves.push([op, () => { void perform(S, m, op) }])
          await g.explore(ch, moves, ctx)
          const last = names.at(-1), v = h.seen.v
          const bad = (k, w) => ctx.violation(`switch:${k}:${u.what}`, `switching ${u.what} ${names.join(' → ')}${prog.length ? ' with ' + prog : ''} (${g.trace.join(' ')}): ${w}`, { prefix: ch.trace })
          if (u.what === 'vault') {
            const e = last === 'V' ? [{ id: 'a', n: 0 }, { id: 'c', n: 9 }] : [{ id: 'a', n: 80 }]
            if (v.uv.loading || v.uv.error || v.uv.vault?.name !== last) bad('vault', `useVault shows vault ${v.uv.vault?.name}, loading ${v.uv.loading}, error ${v.uv.error}`)
            if (v.c.loading || v.c.error || !same(bag(v.c.data), bag(e))) bad('data', `the view shows ${bag(v.c.data)}`)
          } else if (u.what === 'coll') {
            const e = last === null ? [] : last === 'x' ? Object.values(m) : [{ id: 'a', n: 70 }]
            if (v.loading !== (last === null) || v.error || !same(bag(v.data), bag(e))) bad('data', `the view shows ${bag(v.data)}, loading ${v.loading}, error ${v.error}; expected ${bag(e)}`)
          } else {
            const e = Object.values(m).filter((x) => x.n >= last)
            if (v.loading || v.error || !same(bag(v.data), bag(e))) bad('data', `the view shows ${bag(v.data)}, loading ${v.loading}, error ${v.error}; expected ${bag(e)}`)
          }
          h.unmount(); await S.db.close(); ctx.state([u.what, names, prog])
        }, { maxExec: 3000 })
        if (!r.complete) ctx.capped('switch')
      }
    }
  },
  /** Vue: attachment URLs while the id changes and loads are pending */
  async blob(u, ctx, nb) {
    const real = { c: URL.createObjectURL, r: URL.revokeObjectURL }
    try {
      for (const len of [2, u.len]) for (const s of sequences(IDS.length, len - 1)) for (const stop of [false, true]) for (const o of [{}, { slot: 'two' }, { mimeType: 'text/x-mc' }]) {
        if (canon(o) !== '{}' && (stop || len > 2)) continue
        const r = await exploreAll(async (ch) => {
          resetWorld(1)
          const live = new Map(); let n = 0
          URL.createObjectURL = (blob) => { const url = `blob:${++n}`; live.set(url, blob); return url }
          URL.revokeObjectURL = (url) => { live.delete(url) }
          const data = new Data(), g = gate(nb, data)
          const S = await settle(() => open(nb, g.store, false))
          for (const id of ['a', 'b']) for (const sl of ['default', 'two']) { await settle(() => S.x.blob(id).put(sl, new TextEncoder().encode(`${id}-${sl}`), { mimeType: `app/${id}` })) }
          ctx.exec(); g.on = true
          const names = [u.i, ...s].map((i) => IDS[i])
          const id = nb.Vue.ref(names[0]); let url
          const un = vueMount(nb, () => { url = nb.vue.useBlobURL(S.x, () => id.value, o) })
          const moves = names.slice(1).map((v) => [`id=${v}`, () => { id.value = v }])
          if (stop) moves.push(['unmount', un])
          await g.explore(ch, moves, ctx, len > 2 ? u.len : 6)
          const last = stop ? null : names.at(-1)
          const bad = (k, w) => ctx.violation(`blob:${k}`, `attachment ids ${names.join(' → ')}${stop ? ' then unmount' : ''} (${g.trace.join(' ')}): ${w}`, { prefix: ch.trace })
          if (last === null || last === 'none') { if (url.value !== null) bad('stale', `the URL is ${url.value} although there is no attachment to show`) } else {
            const bl = live.get(url.value)
            if (!bl) bad('missing', `the URL ${url.value} is not usable`)
            else {
              const text = await bl.text()
              if (text !== `${last}-${o.slot ?? 'default'}`) bad('wrong', `the URL shows "${text}" for ${last}`)
              if (bl.type !== (o.mimeType ?? `app/${last}`)) bad('type', `the URL has type ${bl.type} for ${last}`)
            }
          }
          if (live.size !== (url.value ? 1 : 0)) bad('leak', `${live.size} object URLs are alive, ${url.value ? 1 : 0} in use`)
          if (!stop) { un(); await quiet(); if (live.size || url.value !== null) bad('leak', `after unmounting ${live.size} object URLs are alive, value ${url.value}`) }
          await S.db.close(); ctx.state([names, stop, o])
        }, { maxExec: 200000 })
        if (!r.complete) ctx.capped('blob')
      }
    } finally { URL.createObjectURL = real.c; URL.revokeObjectURL = real.r }
  },
  /** Pinia: dictionary labels while the locale changes */
  async label(u, ctx, nb) {
    const D = { k1: { th: 'neung', en: 'One' }, k2: { th: 'song' }, k3: { de: 'drei' }, k4: { de: 'vier', en: 'Four' } }
    const LOC = ['en', 'th', 'fr']
    const want = (key, loc, fb, miss) => {
      const l = D[key]
      const none = miss === 'empty' ? '' : miss === 'placeholder' ? `⟨missing:${key}⟩` : key
      if (!l) return none
      for (const k of [loc, ...fb]) { if (k === 'any') { const v = Object.values(l)[0]; if (v !== undefined) return v } else if (l[k] !== undefined) return l[k] }
      return none
    }
    const opts = product([undefined, 'en', ['th', 'en'], ['any'], []], [undefined, 'key', 'empty', 'placeholder'], ['en', 'th', 'fr', undefined])
    const setup = async (store) => {
      const db = await openDb(nb, store, { encrypt: false, except: ['sync', 'session'] })
      const v = await db.openVault('V')
      return { db, v }
    }
    for (const [fallback, onMissing, locale] of opts) for (const by of ['name', 'vault', 'open']) {
      resetWorld(1)
      const data = new Data(), S = await settle(() => setup(plainStore(nb.hub, data)))
      for (const k of Object.keys(D)) await settle(() => S.v.dictionary('d').put(k, D[k]))
      await settle(() => S.v.dictionary('e').put('k1', { en: 'Other' }))
      nb.pinia.setActiveNoydb(S.db); ctx.exec()
      const label = nb.pinia.useDictLabel('d', { ...(by === 'name' ? { vault: 'V' } : by === 'vault' ? { vault: S.v } : {}), ...(locale ? { locale } : {}), ...(fallback !== undefined ? { fallback } : {}), ...(onMissing ? { onMissing } : {}) })
      for (const k of ['k1', 'k2', 'k3', 'k4', 'zz']) {
        const r = label(k); await quiet(); ctx.trans()
        const fb = fallback === undefined ? ['en', 'any'] : Array.isArray(fallback) ? fallback : [fallback]
        const e = want(k, locale ?? 'en', fb, onMissing)
        if (r.value !== e) ctx.violation('label:value', `label ${k} for locale ${locale ?? 'en'}, fallback ${canon(fallback)}, onMissing ${onMissing}: "${r.value}", expected "${e}"`, { k, locale, fallback, onMissing })
        if (label(k) !== r) ctx.violation('label:ref', `label(${k}) gives a new ref each time`, {})
      }
      ctx.state([fallback, onMissing, locale, by]); nb.pinia.setActiveNoydb(null); await S.db.close()
    }
    for (const s of sequences(LOC.length, u.len + 1)) {
      const r = await exploreAll(async (ch) => {
        resetWorld(1)
        const data = new Data(), g = gate(nb, data), S = await settle(() => setup(g.store))
        for (const k of Object.keys(D)) await settle(() => S.v.dictionary('d').put(k, D[k]))
        await settle(async () => S.db.close())
        const T = await settle(() => setup(g.store))
        nb.pinia.setActiveNoydb(T.db); ctx.exec(); g.on = true
        const names = s.map((i) => LOC[i]), loc = nb.Vue.ref(names[0])
        const scope = nb.Vue.effectScope(true)
        const label = scope.run(() => nb.pinia.useDictLabel('d', { vault: T.v, locale: loc, fallback: ['any'] }))
        const l1 = label('k1'), moves = [...names.slice(1).map((v) => [`locale=${v}`, () => { loc.value = v }])]
        await g.explore(ch, moves, ctx)
        const e = want('k1', names.at(-1), ['any'])
        if (l1.value !== e) ctx.violation('label:race', `locale ${names.join(' → ')} (${g.trace.join(' ')}): the label shows "${l1.value}", expected "${e}"`, { prefix: ch.trace })
        scope.stop(); nb.pinia.setActiveNoydb(null); await T.db.close(); ctx.state(names)
      }, { maxExec: 3000 })
      if (!r.complete) ctx.capped('label')
    }
  },
  /** Vue: synchronisation status */
  async sync(u, ctx, nb) {
    const A = ['put', 'push', 'pull', 'sync', 'dbPush', 'dbPull', 'remote', 'failPush', 'failPull', 'failSync']
    for (let len = 1; len <= u.len; len++) for (const s of sequences(A.length, len)) {
      resetWorld(1)
      const data = new Data(), far = new Data(); let down = false
      const remote = hookedStore(nb.hub, far, (me, a, go) => { if (down) throw new Error('remote down'); return go() })
      const db = await settle(() => openDb(nb, plainStore(nb.hub, data), { encrypt: false, except: ['session'], sync: remote }))
      const v = await settle(() => db.openVault('V')), x = v.collection('x')
      ctx.exec()
      const heard = new Map(); { const on = db.on.bind(db), off = db.off.bind(db); db.on = (e, f) => { heard.set(f, e); return on(e, f) }; db.off = (e, f) => { if (heard.get(f) === e) heard.delete(f); return off(e, f) } }
      let r; const un = vueMount(nb, () => { r = nb.vue.useSync(db, 'V') })
      const done = [], bad = (k, w) => ctx.violation(`sync:${k}`, `after ${done.join(' ; ')}: ${w}`, { seq: done })
      const cmp = () => { if (!same(cp(r.status.value), cp(db.syncStatus('V')))) bad('status', `the view shows ${canon(r.status.value)}, the instance says ${canon(db.syncStatus('V'))}`); if (r.syncing.value) bad('busy', 'still marked as syncing') }
      cmp()
      for (const i of s) {
        const op = A[i]; done.push(op); ctx.trans(); W.now += 10
        if (op === 'put') { await settle(() => x.put(`r${done.length}`, { n: 1 })); continue }
        if (op === 'remote') { const o = await settle(() => openDb(nb, plainStore(nb.hub, new Data()), { encrypt: false, except: ['session'], sync: remote })); const ov = await settle(() => o.openVault('V')); await settle(() => ov.collection('x').put(`o${done.length}`, { n: 2 })); await settle(() => o.push('V')); await settle(async () => o.close()); continue }
        down = op.startsWith('fail')
        const fn = { push: () => r.push(), pull: () => r.pull(), sync: () => r.sync(), dbPush: () => db.push('V'), dbPull: () => db.pull('V'), failPush: () => r.push(), failPull: () => r.pull(), failSync: () => r.sync() }[op]
        let busy = null
        const res = await attempt(() => settle(() => { const p = fn(); busy = r.syncing.value; return p }))
        down = false; await quiet()
        if (!op.startsWith('db') && busy !== true) bad('busy', `${op} is not marked as syncing while it runs`)
        if (!op.startsWith('fail') && !res.ok) bad('fail', `${op} fails: ${res.err}`)
        if (op === 'push' && res.ok && !(res.val && 'pushed' in res.val)) bad('result', `push gives ${canon(res.val)}`)
        if (op === 'pull' && res.ok && !(res.val && 'pulled' in res.val)) bad('result', `pull gives ${canon(res.val)}`)
        if (op === 'sync' && res.ok) for (let k = 1; k < done.length; k++) { const id = done[k - 1] === 'remote' ? `o${k}` : null; if (id && !(await settle(() => x.get(id)))) bad('sync', `${id} was not pulled`) }
        cmp()
      }
      const before = canon(r.status.value); un()
      if (heard.size) bad('leak', `a listener for ${[...heard.values()].join()} stays registered after unmounting`)
      await settle(() => x.put('late', { n: 1 })); await settle(() => db.push('V')); await quiet()
      if (canon(r.status.value) !== before) bad('unmount', 'the status changes after unmounting')
      await db.close(); ctx.state([done, before])
    }
  },
  /** last change event of the instance */
  async events(u, ctx, nb) {
    const KINDS = { react: (S) => { const h = reactMount(() => nb.react.useSync(), { db: S.db, nb }); return { get: () => h.seen.v.lastEvent, stop: h.unmount } }, reactArg: (S) => { const h = reactMount(() => nb.react.useSync(S.db)); return { get: () => h.seen.v.lastEvent, stop: h.unmount } }, svelte: (S) => { const st = nb.svelte.syncStore(S.db); let v; st.subscribe((x) => { v = x }); return { get: () => v.lastEvent, stop: () => st.stop() } }, solid: (S) => { let sig, stop; nb.Solid.createRoot((d) => { stop = d; sig = nb.solid.createSyncSignal(S.db) }); return { get: () => sig(), stop } } }
    const A = ['put a 1', 'put b 3', 'del a', 'other', 'vault', 'bad']
    for (const k of Object.keys(KINDS)) for (const s of sequences(A.length, 2)) for (const stopAt of [0, 1, 2]) {
      resetWorld(1)
      const data = new Data(), m = await settle(() => seed(nb, data, false)), S = await settle(() => open(nb, plainStore(nb.hub, data), false))
      const evs = []; S.db.on('change', (e) => evs.push(e)); ctx.exec()
      const heard = new Set(); { const on = S.db.on.bind(S.db), off = S.db.off.bind(S.db); S.db.on = (e, f) => { heard.add(f); return on(e, f) }; S.db.off = (e, f) => { heard.delete(f); return off(e, f) } }
      const w = KINDS[k](S); await quiet()
      let want = null
      for (let i = 0; i <= s.length; i++) {
        if (i === stopAt) { w.stop(); if (heard.size) ctx.violation(`events:leak:${k}`, `[${k}] a listener stays registered after unmounting`, { s, stopAt }) }
        const g = w.get()
        if (!same(cp(g), cp(want))) ctx.violation(`events:${k}`, `[${k}] after ${s.slice(0, i).map((j) => A[j]).join(' ; ')}${stopAt <= i ? ' (unmounted before step ' + (stopAt + 1) + ')' : ''}: last event ${canon(g)}, expected ${canon(want)}`, { s, stopAt })
        if (i === s.length) break
        await settle(() => perform(S, m, A[s[i]])); await quiet(); ctx.trans()
        if (i < stopAt) want = evs.at(-1) ?? null
      }
      ctx.state([k, s, stopAt]); await S.db.close()
    }
    for (const f of [() => reactMount(() => nb.react.useNoydb()), () => reactMount(() => nb.react.useSync()), () => vueMount(nb, () => nb.vue.useNoydb())]) { ctx.exec(); let threw = false; try { f() } catch { threw = true } if (!threw) ctx.violation('events:noprovider', 'using the instance without a provider does not fail', {}) }
  },
  /** Pinia plugin: state is stored and comes back */
  async persist(u, ctx, nb) {
    const persist = PERSIST[u.p]
    const init = () => ({ one: 5, two: { k: 'i' }, three: [1] })
    const FALSY = [0, '', false, null]
    const keys = persist === undefined || persist === '*' ? ['one', 'two', 'three'] : Array.isArray(persist) ? persist : [persist]
    const pick = (st) => Object.fromEntries(keys.map((k) => [k, cp(st[k])]))
    for (const enc of [false, true]) for (const s of sequences(PLUGIN_OPS.length, enc ? 2 : u.len)) {
      resetWorld(1)
      const data = new Data(); let down = false
      const store = hookedStore(nb.hub, data, (me, a, go) => { if (down && me === 'put') throw new Error('store down'); return go() })
      let asked = 0
      const session = async () => {
        const pinia = nb.Pinia.createPinia()
        nb.Vue.createRenderer({ insert() {}, remove() {}, createElement: () => ({}), createText: () => ({}), createComment: () => ({}), setText() {}, setElementText() {}, parentNode: () => null, nextSibling: () => null, patchProp() {} }).createApp({ render: () => null }).use(pinia.use(nb.pinia.createNoydbPiniaPlugin({ adapter: store, user: 'owner', secret: async () => { asked++; return 'correct horse battery staple 42' }, noydbOptions: enc ? {} : { encrypt: false } })))
        const st = nb.Pinia.defineStore('st', { state: init, noydb: { vault: 'V', collection: 'ui', ...(persist === undefined ? {} : { persist }) } })(pinia)
        const un = nb.Pinia.defineStore('plain', { state: init })(pinia)
        await settle(() => st.$noydbReady)
        return { st, un }
      }
      ctx.exec()
      let { st, un } = await session()
      const mem = init(); let saved = null, failed = false
      const done = [], bad = (k, w) => ctx.violation(`persist:${k}`, `[persist ${canon(persist)}${enc ? ', encrypted' : ''}] after ${done.join(' ; ')}: ${w}`, { seq: done })
      if (un.$noydbAugmented || !st.$noydbAugmented) bad('augmented', 'the wrong stores are stored')
      const same3 = () => { const g = cp({ one: st.one, two: st.two, three: st.three }); if (!same(g, mem)) bad('state', `the state is ${canon(g)}, expected ${canon(mem)}`) }
      same3()
      const settled = async () => { await settle(() => st.$noydbFlush()); await quiet() }
      for (const i of s) {
        const op = PLUGIN_OPS[i]; done.push(op); ctx.trans()
        const n = done.length
        if (op === 'one') { st.one = n; mem.one = n; saved = pick(mem) }
        if (op === 'zero') { st.one = FALSY[n % 4]; mem.one = FALSY[n % 4]; saved = pick(mem) }
        if (op === 'two') { st.two.k = `v${n}`; mem.two.k = `v${n}`; saved = pick(mem) }
        if (op === 'three') { st.three.push(n); mem.three.push(n); saved = pick(mem) }
        if (op === 'patch') { st.$patch({ one: -n, two: { k: `p${n}` } }); mem.one = -n; mem.two.k = `p${n}`; saved = pick(mem) }
        if (op === 'patchFn') { st.$patch((x) => { x.three.length = 0; x.one++ }); mem.three = []; mem.one++; saved = pick(mem) }
        if (op === 'reset') { st.$reset(); Object.assign(mem, init()); saved = pick(mem) }
        if (op === 'fail') { await settled(); const was = saved; down = true; st.one = 100 + n; mem.one = 100 + n; await settled(); down = false; saved = was; failed = true; if (!st.$noydbError) bad('error', 'a failed save is not reported') }
        if (op === 'flush') await settled(); else await quiet()
        if (op === 'reopen') {
          await settled(); ({ st, un } = await session()); failed = false
          Object.assign(mem, init(), cp(saved ?? {}))
        }
        same3()
      }
      await settled()
      if (!failed && st.$noydbError) bad('error', `an error is reported: ${st.$noydbError}`)
      const next = (await session()).st, e = { ...init(), ...cp(saved ?? {}) }
      const g = cp({ one: next.one, two: next.two, three: next.three })
      if (!same(g, e)) bad('restored', `a new session starts with ${canon(g)}, expected ${canon(e)}`)
      const raw = await settle(() => openDb(nb, plainStore(nb.hub, data), { encrypt: enc }).then(async (d) => { const r = await (await d.openVault('V')).collection('ui').list(); await d.close(); return r }))
      if (!same(raw, saved ? [saved] : [])) bad('stored', `the collection holds ${canon(raw)}, expected ${canon(saved)}`)
      if (asked > 1 + done.filter((d) => d === 'reopen').length + 1) bad('secret', 'the passphrase is asked for repeatedly')
      ctx.state([u.p, enc, mem, saved])
    }
    // mutations while earlier saves are pending: the last state is the one that stays
    const pr = await exploreAll(async (ch) => {
      resetWorld(1)
      const data = new Data(), g = gate(nb, data)
      const session = async (store) => {
        const pinia = nb.Pinia.createPinia()
        nb.Vue.createRenderer({}).createApp({ render: () => null }).use(pinia.use(nb.pinia.createNoydbPiniaPlugin({ adapter: store, user: 'owner', secret: () => 'x', noydbOptions: { encrypt: false } })))
        const st = nb.Pinia.defineStore('st', { state: init, noydb: { vault: 'V', collection: 'ui', ...(persist === undefined ? {} : { persist }) } })(pinia)
        await settle(() => st.$noydbReady); return st
      }
      const st = await session(g.store); ctx.exec()
      const moves = [1, 2, 3].map((n) => [`one=${n}`, () => { st.one = n }])
      await g.explore(ch, moves, ctx)
      await settle(() => st.$noydbFlush())
      const b = await session(g.store), e = keys.includes('one') ? 3 : 5
      if (st.$noydbError || b.one !== e) ctx.violation('persist:race', `[persist ${canon(persist)}] one = 1, 2, 3 with saves pending (${g.trace.join(' ')}): a new session starts with ${b.one}, error ${st.$noydbError}`, { prefix: ch.trace })
    }, { maxExec: 3000 })
    if (!pr.complete) ctx.capped('persist race')
    // a schema that rejects what was stored leaves the initial state and reports it
    for (const ok of [true, false]) {
      resetWorld(1)
      const data = new Data(), store = plainStore(nb.hub, data); ctx.exec()
      const session = async (schema) => {
        const pinia = nb.Pinia.createPinia()
        nb.Vue.createRenderer({}).createApp({ render: () => null }).use(pinia.use(nb.pinia.createNoydbPiniaPlugin({ adapter: store, user: 'owner', secret: () => 'x', noydbOptions: { encrypt: false } })))
        const st = nb.Pinia.defineStore('st', { state: init, noydb: { vault: 'V', collection: 'ui', persist: 'one', ...(schema ? { schema } : {}) } })(pinia)
        await settle(() => st.$noydbReady); return st
      }
      const a = await session(); a.one = 7; await settle(() => a.$noydbFlush())
      const b = await session({ parse: (v) => { if (!ok) throw new Error('rejected'); return { one: v.one + 1 } } })
      if (b.one !== (ok ? 8 : 5) || !!b.$noydbError === ok) ctx.violation('persist:schema', `hydrating through a schema that ${ok ? 'accepts' : 'rejects'}: state ${b.one}, error ${b.$noydbError}`, { ok })
    }
  },
  /** records without an id of their own, keys of queries, subscribers that leave */
  async keys(u, ctx, nb) {
    for (const s of sequences(4, 3)) for (const rec of [{ n: 1 }, { id: 'b', n: 1 }, 0, null, 'a']) {
      resetWorld(1)
      const data = new Data(), S = await settle(() => open(nb, plainStore(nb.hub, data), false)); ctx.exec()
      const b = BINDINGS.pinia(nb, S); await quiet()
      const m = {}, A = ['add a', 'add b', 'remove a', 'remove b']
      for (const i of s) {
        const [what, id] = A[i].split(' '); ctx.trans()
        await attempt(() => settle(() => b.st[what](id, rec))); if (what === 'add') m[id] = rec; else delete m[id]
        const all = await settle(() => S.x.list())
        if (!same(bag(cp(b.st.items)), bag(all))) ctx.violation('acts:view:pinia', `[pinia] records ${canon(rec)}, ${A[i]} in ${s.map((j) => A[j]).join(' ; ')}: the store shows ${canon(b.st.items)}, the collection holds ${canon(all)}`, { s })
      }
      b.stop(); await S.db.close(); ctx.state([s, rec])
    }
    const T = nb.tq, c = () => ({}), mk = []
    for (const V of ['V', 'W']) for (const x of ['x', 'y', 'V']) { mk.push([`${V}/${x} list`, T.collectionListOptions(V, x, c)], [`${V}/${x} query`, T.collectionQueryOptions(V, x, c, HI)]); for (const id of ['a', 'b', 'list', '']) mk.push([`${V}/${x} get ${canon(id)}`, T.collectionGetOptions(V, x, id, c)]) }
    for (const [p, q] of mk.flatMap((p, i) => mk.slice(i + 1).map((q) => [p, q]))) { ctx.exec(); if (canon(p[1].queryKey) === canon(q[1].queryKey)) ctx.violation('keys:tq', `${p[0]} and ${q[0]} share the key ${canon(p[1].queryKey)}`, {}) }
    for (const k of ['svelte', 'svelteQuery']) {
      resetWorld(1)
      const data = new Data(), m = await settle(() => seed(nb, data, false)), S = await settle(() => open(nb, plainStore(nb.hub, data), false)); ctx.exec()
      const b = BINDINGS[k](nb, S); await quiet()
      b.leave(); await settle(() => perform(S, m, 'put b 3')); await quiet()
      if (b.calls() !== 1) ctx.violation(`leave:${k}`, `[${k}] a subscriber is called after it unsubscribed`, {})
      b.stop(); await S.db.close()
    }
  },
  /** Pinia: time-boxed grants */
  async grant(u, ctx, nb) {
    const had = Object.hasOwn(globalThis, 'window'), old = globalThis.window
    globalThis.window = globalThis.window ?? {}
    try {
      for (const s of sequences(CAP_OPS.length, u.len - 1)) {
        resetWorld(1)
        const data = new Data(); let down = false
        const store = hookedStore(nb.hub, data, (me, a, go) => { if (down && me === 'put') throw new Error('store down'); return go() })
        const db = await settle(() => openDb(nb, store, { encrypt: false, except: ['sync', 'session'] }))
        const v = await settle(() => db.openVault('V'))
        const calls = []
        const scope = nb.Vue.effectScope(true)
        const g = scope.run(() => nb.pinia.useCapabilityGrant('canExport', { ttlMs: 1000, approver: 'admin', reason: 'because', vault: v, onGrant: ({ record }) => { calls.push(['grant', record.status, record.capability]) }, onRelease: ({ cause }) => { calls.push(['end', cause]) } }))
        ctx.exec(); await drain()
        let st = 'idle', until = 0, n = 0; const want = [], recs = []
        const done = [], bad = (k, w) => ctx.violation(`grant:${k}`, `after ${done.join(' ; ')}: ${w}`, { seq: done })
        const expire = () => { if (st === 'granted' && W.now >= until) { st = 'idle'; want.push(['end', 'expired']) } }
        for (const i of [u.i, ...s]) {
          const op = CAP_OPS[i]; done.push(op); ctx.trans()
          if (op.startsWith('wait')) { await advance(Number(op.slice(5))); expire() } else {
            const fail = op === 'fail'; down = fail
            const what = fail ? (st === 'idle' ? 'request' : st === 'requested' ? 'approve' : 'release') : op
            const from = st, t0 = W.now
            const p = attempt(() => g[what]()); for (let k = 0; k < 6; k++) await drain()
            let r = null; p.then((x) => { r = x }); await drain(); down = false
            if (!r) { bad('stuck', `${what} does not settle`); break }
            const legal = what === 'request' ? from === 'idle' : what === 'approve' ? from === 'requested' : true
            const must = legal && !fail
            if (r.ok !== must) bad('outcome', `${what} from ${from} ${r.ok ? 'succeeds' : 'fails: ' + r.err}`)
            if (r.ok === false && !g.error.value) bad('error', `${what} failed without an error being shown`)
            if (must && what === 'request') { st = 'requested'; n++; recs.push('requested') }
            if (must && what === 'approve') { st = 'granted'; until = t0 + 1000; want.push(['grant', 'granted', 'canExport']); recs[recs.length - 1] = 'granted' }
            if (must && what === 'release' && from === 'granted') { st = 'idle'; want.push(['end', 'released']); recs[recs.length - 1] = 'released' }
            if (fail && what === 'release') { /* the grant goes on; its clock may or may not */ if (g.state.value === 'granted') { break } }
          }
          if (g.state.value !== st) bad('state', `the state is ${g.state.value}, expected ${st}`)
          const left = st === 'granted' ? Math.max(0, until - W.now) : 0
          const shown = g.timeRemaining.value // refreshed every second
          if (shown < left || shown > left + (left ? 1000 : 0)) bad('left', `${shown} ms remain, expected ${left}`)
          if (!same(calls, want)) bad('calls', `callbacks ${canon(calls)}, expected ${canon(want)}`)
          const list = await v.collection('_capability_requests').list()
          const got = list.map((r) => r.status).sort()
          if (!same(got, [...recs].sort())) bad('record', `the request records are ${canon(got)}, expected ${canon(recs)}`)
          for (const r of list) if (r.capability !== 'canExport' || r.requestedBy !== 'owner' || r.approverRole !== 'admin' || r.ttlMs !== 1000 || r.reason !== 'because') bad('record', `the request record is ${canon(r)}`)
        }
        const was = canon(calls); scope.stop(); await advance(5000)
        if (canon(calls) !== was) bad('disposed', 'callbacks run after the scope was disposed')
        ctx.state([done, st]); await db.close()
      }
    } finally { if (!had) delete globalThis.window; else globalThis.window = old }
  },
  /** Pinia: longer lives of one grant – every program of legal steps and waits */
  async grantLong(u, ctx, nb) {
    const had = Object.hasOwn(globalThis, 'window'), old = globalThis.window
    globalThis.window = globalThis.window ?? {}
    try {
      const r = await exploreAll(async (ch) => {
        resetWorld(1)
        const db = await settle(() => openDb(nb, plainStore(nb.hub, new Data()), { encrypt: false, except: ['sync', 'session'] }))
        const v = await settle(() => db.openVault('V'))
        const calls = [], want = [], done = []
        const scope = nb.Vue.effectScope(true)
        const g = scope.run(() => nb.pinia.useCapabilityGrant('canExport', { ttlMs: 1000, approver: 'admin', reason: 'because', vault: v, onGrant: () => { calls.push('grant') }, onRelease: ({ cause }) => { calls.push(cause) } }))
        ctx.exec(); await drain()
        let st = 'idle', until = 0
        const NEXT = { idle: 'request', requested: 'approve', granted: 'release' }
        for (let n = 0; n < u.len; n++) {
          const opts = [NEXT[st], 'wait 400', 'wait 600', 'stop'].slice(0, n ? 4 : 1)
          const op = opts[ch.choose(opts.length, 'step')]; done.push(op); ctx.trans()
          if (op === 'stop') break
          if (op.startsWith('wait')) { await advance(Number(op.slice(5))); if (st === 'granted' && W.now >= until) { st = 'idle'; want.push('expired') } } else {
            const p = attempt(() => g[op]()); for (let k = 0; k < 7; k++) await drain()
            const x = await p; if (!x.ok) { ctx.violation('grant:outcome', `after ${done.join(' ; ')}: fails: ${x.err}`, { prefix: ch.trace }); return }
            if (op === 'approve') { until = W.now + 1000; want.push('grant') }
            if (op === 'release') want.push('released')
            st = op === 'request' ? 'requested' : op === 'approve' ? 'granted' : 'idle'
          }
          if (g.state.value !== st) ctx.violation('grant:state', `after ${done.join(' ; ')}: the state is ${g.state.value}, expected ${st}`, { prefix: ch.trace })
          if (!same(calls, want)) ctx.violation('grant:calls', `after ${done.join(' ; ')}: callbacks ${canon(calls)}, expected ${canon(want)}`, { prefix: ch.trace })
        }
        const was = canon([calls, g.state.value]); scope.stop(); await advance(5000)
        if (canon([calls, g.state.value]) !== was) ctx.violation('grant:disposed', `after ${done.join(' ; ')} and disposing the scope: the state is ${g.state.value}, callbacks ${canon(calls)}`, { prefix: ch.trace })
        ctx.state([done]); await db.close()
      }, { maxExec: 200000 })
      if (!r.complete) ctx.capped('grantLong')
    } finally { if (!had) delete globalThis.window; else globalThis.window = old }
  },
  async approver(u, ctx, nb) {
    const had = Object.hasOwn(globalThis, 'window'), old = globalThis.window
    globalThis.window = globalThis.window ?? {}
    try {
      for (const role of ['owner', 'admin', 'operator']) for (const approver of ['owner', 'admin', 'operator', 'viewer']) {
        resetWorld(1)
        const data = new Data(), store = plainStore(nb.hub, data)
        const db = await settle(() => openDb(nb, store, { except: ['sync', 'session'] }))
        const v = await settle(() => db.openVault('V'))
        await settle(() => v.collection('_capability_requests').put('seed', { id: 'seed' }))
        let vv = v
        if (role !== 'owner') {
          await settle(() => db.grant('V', { userId: 'bob', displayName: 'Bob', role, passphrase: 'bobs correct horse 77', permissions: { _capability_requests: 'rw' } }))
          const d2 = await settle(() => openDb(nb, store, { user: 'bob', secret: 'bobs correct horse 77', except: ['sync', 'session'] }))
          vv = await settle(() => d2.openVault('V'))
        }
        const scope = nb.Vue.effectScope(true); let granted = 0
        const g = scope.run(() => nb.pinia.useCapabilityGrant('c', { ttlMs: 1000, approver, reason: 'r', vault: vv, onGrant: () => { granted++ } }))
        ctx.exec(); ctx.trans(2)
        const wait = async (f) => { const p = attempt(f); let r = null; p.then((x) => { r = x }); for (let k = 0; k < 60 && !r; k++) await drain(); return r }
        const r1 = await wait(() => g.request())
        if (!r1?.ok) { ctx.violation('approver:request', `${role} cannot request: ${r1?.err}`, { role, approver }); scope.stop(); continue }
        const r2 = await wait(() => g.approve()), may = role === 'owner' || role === approver
        if (r2.ok !== may || granted !== (may ? 1 : 0) || g.state.value !== (may ? 'granted' : 'requested')) ctx.violation('approver:approve', `${role} approving a request for ${approver}: ${r2.ok ? 'accepted' : r2.err}, state ${g.state.value}`, { role, approver })
        scope.stop(); ctx.state([role, approver])
      }
    } finally { if (!had) delete globalThis.window; else globalThis.window = old }
  },
  /** TanStack Table: table state ↔ query */
  async table(u, ctx, nb) {
    const recs = [{ id: '1', g: 'x', n: 2, f: false }, { id: '2', g: 'y', n: 1, f: true }, { id: '3', g: 'x', n: 1, f: true }, { id: '4', g: '', n: 0, f: false }, { id: '5', g: 'z', n: 3 }]
    const FIL = [undefined, ['g', 'x'], ['g', ''], ['g', null], ['g', undefined], ['g', ['x', 'z']], ['g', []], ['n', 0], ['n', 1], ['n', [1, 3]], ['f', false], ['f', true], ['id', '3']]
    const SORT = [undefined, [], [['n', false]], [['n', true]], [['g', false], ['n', true]], [['n', true], ['id', true]], [['n', false], ['g', true]]]
    const PAGE = [undefined, ...product([0, 1, 2], [0, 1, 2, 25]).map(([pageIndex, pageSize]) => ({ pageIndex, pageSize }))]
    resetWorld(1)
    const S = await settle(() => open(nb, plainStore(nb.hub, new Data()), false))
    const t = S.v.collection('t', u.part ? { indexes: ['g', 'n'] } : {})
    for (const r of recs) await settle(() => t.put(r.id, r))
    await settle(() => t.list())
    for (const [f1, f2, so, pg] of product(FIL, FIL, SORT, PAGE)) {
      ctx.exec(); ctx.trans()
      const filters = [f1, f2].filter(Boolean)
      const st = { ...(filters.length ? { columnFilters: filters.map(([id, value]) => ({ id, value })) } : {}), ...(so ? { sorting: so.map(([id, desc]) => ({ id, desc })) } : {}), ...(pg ? { pagination: pg } : {}) }
      let e = recs.filter((r) => filters.every(([k, v]) => v === undefined || v === null || v === '' || (Array.isArray(v) ? v.includes(r[k]) : r[k] === v)))
      for (const [k, d] of [...(so ?? [])].reverse()) e = [...e].sort((a, b) => (a[k] < b[k] ? -1 : a[k] > b[k] ? 1 : 0) * (d ? -1 : 1))
      if (pg && pg.pageSize > 0) e = e.slice(pg.pageIndex * pg.pageSize, (pg.pageIndex + 1) * pg.pageSize)
      const q = nb.tt.buildQueryFromTableState(t.query(), st), g = q.toArray().map((r) => r.id), w = e.map((r) => r.id)
      const ordered = so?.length || !u.part
      if (!same(ordered ? g : [...g].sort(), ordered ? w : [...w].sort()) && !(!ordered && pg && g.length === w.length)) ctx.violation('table:rows', `table state ${JSON.stringify(st)}: rows ${g}, expected ${w}`, { st })
      const back = nb.tt.tableStateFromQuery(q), wantBack = {}
      const eff = (st.columnFilters ?? []).filter((f) => f.value !== undefined && f.value !== null && f.value !== '')
      if (eff.length) wantBack.columnFilters = eff
      if (so?.length) wantBack.sorting = st.sorting
      if (pg && pg.pageSize > 0) wantBack.pagination = pg
      if (!same(back, wantBack)) ctx.violation('table:state', `table state ${JSON.stringify(st)} comes back as ${JSON.stringify(back)}`, { st })
      ctx.state([st])
    }
    for (const n of [undefined, 1, 50]) { const r = n === undefined ? nb.tt.resetTableState() : nb.tt.resetTableState(n); if (!same(cp(r), { sorting: [], columnFilters: [], pagination: { pageIndex: 0, pageSize: n ?? 25 } })) ctx.violation('table:reset', `reset state ${JSON.stringify(r)}`, {}) }
    await S.db.close()
  },
}

/** one history; a view of every binding is mounted before each step, the first one unmounted at every step in turn */
async function history(names, ops, u, ctx, nb) {
  const stops = u.k === 'solo' ? [...Array(ops.length + 1).keys(), null] : [ops.length - 1]
  for (const stopAt of stops) {
    resetWorld(1)
    const data = new Data()
    const m = u.stored ? await settle(() => seed(nb, data, false)) : {}
    const S = await settle(() => open(nb, plainStore(nb.hub, data), false))
    const reads = countReads(S)
    ctx.exec()
    const views = []
    const at = (i) => `${u.stored ? 'stored: ' : ''}${ops.slice(0, i).join(' ; ') || 'nothing'}`
    const bad = (k, name, i, w) => ctx.violation(`${k}:${name}`, `[${name}] after ${at(i)}: ${w}`, { ops, stored: u.stored, stopAt })
    for (let i = 0; i <= ops.length; i++) {
      if (i < ops.length || names.length === 1) for (const n of names) views.push({ n, i, b: BINDINGS[n](nb, S) })
      await quiet()
      if (i === stopAt) for (const v of views) if (v.i === 0) { v.b.stop(); v.frozen = canon(cp(v.b.view().data)) }
      for (const v of views) {
        if (v.frozen !== undefined) { if (canon(cp(v.b.view().data)) !== v.frozen) bad('unmounted', v.n, i, 'an unmounted view changes'); continue }
        if (v.b.manual) await settle(() => v.b.refresh())
        const c = judge(v.b, m)
        if (c) bad('view', v.n, i, `a view mounted before step ${v.i + 1} ${c}`)
      }
      if (i === ops.length) break
      await settle(() => perform(S, m, ops[i])); ctx.trans()
    }
    for (const v of views) if (v.frozen === undefined) v.b.stop()
    await quiet(); reads.n = 0
    await settle(() => S.x.put('late', { id: 'late', n: 99 })); await quiet()
    if (reads.n) bad('leak', names.join(), ops.length, `the collection is still read ${reads.n} times after a write although every view was unmounted`)
    await S.db.close(); ctx.state([names.length, u.stored, m, stopAt])
  }
}
