// P22 — a routed store behaves as one store and keeps every record where its route says.
import { exploreAll, canon, same, sequences, subsets } from '../lib/explore.mjs'
import { attempt, errName } from '../lib/noy.mjs'
import { Data, plainStore, hookedStore, Sched } from '../lib/stores.mjs'
import { resetWorld, settle, W } from '../lib/world.mjs'

const DAY = 86400000
const THR = 10
const V = 'V', E = 'EU-1', NE = 'NEU-1'
/** Each configuration: routeStore options by store name, plus the addresses and routes worth exercising. */
const CONFIGS = {
  routes: {
    opts: (s) => ({ default: s('D'), blobs: s('B'), routes: { inv: s('R'), log: s('R'), _keyring: s('R'), _blob_chunks: s('R') }, vaultRoutes: { 'EU-': s('U'), EU: s('X') } }),
    at: [[V, 'inv', 'a'], [V, 'cli', 'a'], [V, 'constructor', 'a'], [V, '_blob_chunks', 'h_0'], [V, '_blob_slots_inv', 'a'], [V, '_keyring', 'u'], [E, 'inv', 'a'], [E, '_blob_chunks', 'h_0'], [NE, 'inv', 'a']],
    names: ['inv', 'default', 'blobs', 'EU-'],
  },
  meta: {
    opts: (s) => ({ default: s('D'), blobs: s('B'), routeBlobMeta: true }),
    at: [[V, 'inv', 'a'], [V, '_blob_chunks', 'h_0'], [V, '_blob_index', 'h'], [V, '_blob_slots_inv', 'a'], [V, '_blob_versions_inv', 'a'], [V, '_keyring', 'u']],
    names: ['blobs', 'default'],
  },
  tiers: {
    opts: (s) => ({ default: s('D'), blobs: { small: s('S'), large: s('L'), threshold: THR }, routeBlobMeta: true, vaultRoutes: { 'EU-': s('U') } }),
    at: [[V, 'inv', 'a'], [V, '_blob_chunks', 'h_0'], [V, '_blob_chunks', 'h_1'], [V, '_blob_index', 'h'], [E, '_blob_chunks', 'h_0']],
    names: ['blobs'], sizes: true,
  },
  tiers1: {
    opts: (s) => ({ default: s('D'), blobs: { large: s('L'), threshold: THR } }),
    at: [[V, 'inv', 'a'], [V, '_blob_chunks', 'h_0'], [V, '_blob_chunks', 'h_1'], [V, '_blob_index', 'h']],
    names: ['blobs'], sizes: true,
  },
  age: {
    opts: (s) => ({ default: s('D'), age: { cold: s('C'), coldAfterDays: 30 } }),
    at: [[V, 'inv', 'a'], [V, 'inv', 'b'], [V, 'cli', 'a'], [V, '_keyring', 'u']],
    names: ['default', 'cold'], age: true, compact: [V],
  },
  'age-some': {
    opts: (s) => ({ default: s('D'), routes: { inv: s('R') }, vaultRoutes: { 'EU-': s('U') }, age: { cold: s('C'), coldAfterDays: 30, collections: ['inv'] } }),
    at: [[V, 'inv', 'a'], [V, 'cli', 'a'], [E, 'inv', 'a']],
    names: ['inv', 'cold'], age: true, compact: [V, E],
  },
}
const STORES = ['D', 'B', 'R', 'U', 'X', 'S', 'L', 'C', 'O']
const K = (v, c, i) => JSON.stringify([v, c, i])

class Model {
  constructor(cfg) {
    this.o = cfg.opts((n) => n)
    this.st = Object.fromEntries(STORES.map((n) => [n, new Map()]))
    this.susp = new Map(); this.ov = new Map()
  }
  route(v, c) {
    const o = this.o
    for (const p of Object.keys(o.vaultRoutes ?? {})) if (v.startsWith(p)) return p
    if (o.routes && !c.startsWith('_') && Object.hasOwn(o.routes, c)) return c
    const meta = c === '_blob_index' || c.startsWith('_blob_slots_') || c.startsWith('_blob_versions_')
    if (o.blobs && (c === '_blob_chunks' || (o.routeBlobMeta && meta))) return 'blobs'
    return 'default'
  }
  tiered(v, c) { return c === '_blob_chunks' && typeof this.o.blobs === 'object' && this.route(v, c) === 'blobs' }
  orig(r, v, c, size) {
    const o = this.o
    if (o.vaultRoutes && Object.hasOwn(o.vaultRoutes, r)) return o.vaultRoutes[r]
    if (r === 'blobs') return typeof o.blobs === 'string' ? o.blobs : this.tiered(v, c) && size <= THR ? o.blobs.small ?? 'D' : o.blobs.large
    if (o.routes && Object.hasOwn(o.routes, r)) return o.routes[r]
    return 'D'
  }
  /** Where a record of this size goes now (null: nowhere). */
  target(v, c, size, force = false) {
    const r = this.route(v, c)
    if (this.susp.has(r) && !force) return null
    return this.ov.get(r) ?? this.orig(r, v, c, size)
  }
  homes(v, c, force) {
    const r = this.route(v, c)
    if (this.susp.has(r) && !force) return []
    if (this.tiered(v, c) && !this.ov.has(r)) return [this.o.blobs.small ?? 'D', this.o.blobs.large]
    return [this.target(v, c, 0, force)]
  }
  aged(c) { const a = this.o.age; return !!a && !c.startsWith('_') && (!a.collections || a.collections.includes(c)) }
  cold(force) { return this.susp.has('cold') && !force ? null : this.ov.get('cold') ?? this.o.age.cold }
  get(v, c, i, force) {
    for (const h of this.homes(v, c, force)) { const e = this.st[h].get(K(v, c, i)); if (e) return e }
    if (this.aged(c) && this.cold()) return this.st[this.cold()].get(K(v, c, i)) ?? null
    return null
  }
  dropCold(v, c, i) {
    if (!this.aged(c)) return
    const s = this.susp.get('cold')
    if (s?.q) { s.q.push(['dc', v, c, i]); return }
    if (!s) this.st[this.cold()].delete(K(v, c, i))
  }
  /** returns 'queued' | 'dropped' | 'conflict' | 'ok' */
  put(v, c, i, e, exp, force) {
    const r = this.route(v, c), s = this.susp.get(r)
    if (s && !force) { if (s.q) { s.q.push(['put', v, c, i, e, exp]); return 'queued' } return 'dropped' }
    const cur = this.get(v, c, i, force)
    if (exp !== undefined && cur && cur._v !== exp) return 'conflict'
    for (const h of this.homes(v, c, force)) this.st[h].delete(K(v, c, i))
    this.st[this.target(v, c, e._data.length, force)].set(K(v, c, i), e)
    this.dropCold(v, c, i)
    return 'ok'
  }
  del(v, c, i, force) {
    const r = this.route(v, c), s = this.susp.get(r)
    if (s && !force) { if (s.q) s.q.push(['del', v, c, i]); return }
    for (const h of this.homes(v, c, force)) this.st[h].delete(K(v, c, i))
    this.dropCold(v, c, i)
  }
  compact(v, now) {
    if (!this.o.age || this.susp.has('cold')) return 0
    let n = 0
    for (const h of STORES) for (const [k, e] of [...this.st[h]]) {
      const [a, c, i] = JSON.parse(k)
      if (a !== v || !this.aged(c) || h === this.cold() || !this.homes(v, c).includes(h)) continue
      if (new Date(e._ts).getTime() < now - 30 * DAY) { this.st[h].delete(k); this.st[this.cold()].set(k, e); n++ }
    }
    return n
  }
  resume(r) {
    const s = this.susp.get(r)
    let n = 0
    for (const w of s?.q ?? []) {
      if (w[0] === 'dc') { this.st[this.cold(true)].delete(K(w[1], w[2], w[3])); n++ }
      else if (w[0] === 'put') { if (this.put(w[1], w[2], w[3], w[4], w[5], true) === 'ok') n++ }
      else { this.del(w[1], w[2], w[3], true); n++ }
    }
    this.susp.delete(r)
    return n
  }
}
/** old: an age in ms, or true for well past the cutoff */
const env = (v, tag, { size, old } = {}) => ({ _noydb: 1, _v: v, _ts: new Date(W.now - (old === true ? 40 * DAY : old ?? 0)).toISOString(), _iv: 'iv', _data: tag.padEnd(size ?? 4, '.') })

function opsOf(name, cfg, depth) {
  const out = []
  for (const [k, a] of cfg.at.entries()) {
    out.push({ k: `put ${a.join('/')}`, t: 'put', a, ...(cfg.sizes ? { size: THR } : {}) })
    if (cfg.sizes && a[1] === '_blob_chunks') out.push({ k: `big ${a.join('/')}`, t: 'put', a, size: THR + 1 })
    if (cfg.age && !a[1].startsWith('_')) out.push({ k: `old ${a.join('/')}`, t: 'put', a, old: true })
    if (cfg.age && k === 0) out.push({ k: `edge ${a.join('/')}`, t: 'put', a, old: 30 * DAY }, { k: `past ${a.join('/')}`, t: 'put', a, old: 30 * DAY + 1 })
    if (k === 0 || cfg.sizes || cfg.age) out.push({ k: `cas ${a.join('/')}`, t: 'put', a, exp: 'ok' }, { k: `badcas ${a.join('/')}`, t: 'put', a, exp: 'bad' })
    out.push({ k: `del ${a.join('/')}`, t: 'del', a })
  }
  for (const v of cfg.compact ?? []) out.push({ k: `compact ${v}`, t: 'compact', v })
  out.push({ k: 'saveAll', t: 'save', v: V })
  for (const r of cfg.names) out.push({ k: `suspend ${r}`, t: 'suspend', r }, { k: `queue ${r}`, t: 'suspend', r, q: true }, { k: `resume ${r}`, t: 'resume', r }, { k: `override ${r}`, t: 'override', r }, { k: `clear ${r}`, t: 'clear', r })
  return out
}
/** The smaller set for longer histories: one record, all of control. */
function deepOps(name, cfg) {
  const a = { routes: [V, 'inv', 'a'], meta: [V, '_blob_index', 'h'], tiers: [V, '_blob_chunks', 'h_0'], tiers1: [V, '_blob_chunks', 'h_0'], age: [V, 'inv', 'a'], 'age-some': [V, 'inv', 'a'] }[name]
  const r = { routes: 'inv', meta: 'blobs', tiers: 'blobs', tiers1: 'blobs', age: 'default', 'age-some': 'inv' }[name]
  return opsOf(name, cfg).filter((o) => (o.a ? same(o.a, a) : o.r ? o.r === r || o.r === 'cold' : o.v ? o.v === V : true))
}
const mk = (nb, cfg) => {
  const data = Object.fromEntries(STORES.map((n) => [n, new Data()]))
  const stores = {}
  const s = (n) => (stores[n] ??= plainStore(nb.hub, data[n], null, { name: n }))
  return { data, s, routed: nb.store.routeStore(cfg.opts(s)) }
}
async function apply(op, sys, m, n, hub) {
  const { routed, s } = sys
  switch (op.t) {
    case 'put': {
      const cur = m.get(...op.a) ?? m.get(...op.a, true), e = env((cur?._v ?? 0) + 1, `d${n}`, op)
      const exp = op.exp === 'ok' ? cur?._v : op.exp === 'bad' ? (cur ? cur._v + 7 : undefined) : undefined
      const want = m.put(...op.a, e, exp)
      const r = await attempt(() => routed.put(...op.a, e, ...(exp === undefined ? [] : [exp])))
      if (want === 'conflict' ? !(r.err instanceof hub.ConflictError) : !r.ok) return `put is ${want} but ${errName(r)}: ${r.err?.message ?? ''}`
      return null
    }
    case 'del': { m.del(...op.a); const r = await attempt(() => routed.delete(...op.a)); return r.ok ? null : `delete failed: ${r.err?.message}` }
    case 'compact': { const w = m.compact(op.v, W.now); const r = await attempt(() => routed.compact(op.v)); return !r.ok ? `compact failed: ${r.err?.message}` : r.val !== w ? `compact moved ${r.val}, ${w} records are old enough` : null }
    case 'save': {
      if (m.susp.size) return null // what a bulk save does to a suspended route is not specified
      const snap = { inv: { a: env(5, `s${n}`), z: env(1, `t${n}`) }, log: { l: env(1, 'l') } }
      const hots = new Set([...['', ...Object.keys(m.o.routes ?? {})].flatMap((c) => m.homes(op.v, c)), ...(m.o.age ? [m.cold()] : [])])
      for (const h of hots) for (const k of [...m.st[h].keys()]) { const [v, c] = JSON.parse(k); if (v === op.v && !c.startsWith('_')) m.st[h].delete(k) }
      for (const [c, recs] of Object.entries(snap)) for (const [i, e] of Object.entries(recs)) m.st[m.target(op.v, c, 0)].set(K(op.v, c, i), e)
      const r = await attempt(() => routed.saveAll(op.v, snap)); return r.ok ? null : `saveAll failed: ${r.err?.message}`
    }
    case 'suspend': m.susp.set(op.r, op.q ? { q: m.susp.get(op.r)?.q ?? [] } : m.susp.get(op.r) ?? { q: null }); routed.suspend(op.r, op.q ? { queue: true } : undefined); return null
    case 'resume': { const w = m.resume(op.r); const r = await attempt(() => routed.resume(op.r)); return !r.ok ? `resume failed: ${r.err?.message}` : op.r !== 'cold' && r.val !== w ? `resume replayed ${r.val}, ${w} were queued and applicable` : null }
    case 'override': m.ov.set(op.r, 'O'); await routed.override(op.r, s('O')); return null
    case 'clear': m.ov.delete(op.r); routed.clearOverride(op.r); return null
  }
}
const addresses = (cfg) => [...new Map([...cfg.at, [V, 'inv', 'a'], [V, 'inv', 'z'], [V, 'log', 'l']].map((a) => [K(...a), a])).values()]
async function observe(sys, m, cfg, ctx) {
  const { routed, data } = sys
  const at = addresses(cfg)
  for (const a of at) {
    const g = canon(await routed.get(...a)), w = canon(m.get(...a))
    if (g !== w) return `get(${a.join('/')}) is ${g}, expected ${w}`
    const ids = await routed.list(a[0], a[1]), l = ids.includes(a[2])
    if (new Set(ids).size !== ids.length) return `list(${a[0]}/${a[1]}) names an id twice: ${ids}`
    if (l !== (w !== 'null')) return `list shows ${a.join('/')} as ${l ? 'present' : 'absent'}, get as ${w}`
    for (const n of STORES) {
      const has = canon(data[n].get(...a)), should = canon(m.st[n].get(K(...a)) ?? null)
      if (has !== should) return `store ${n} holds ${has} for ${a.join('/')}, its route says ${should}`
    }
  }
  for (const v of [V, E, NE]) {
    const all = await routed.loadAll(v)
    const got = at.filter((a) => a[0] === v && !a[1].startsWith('_')).map((a) => [a.join('/'), canon((Object.hasOwn(all, a[1]) ? all[a[1]][a[2]] : null) ?? null), canon(m.get(...a))])
    for (const [k, g, w] of got) if (g !== w) return `loadAll gives ${k} as ${g}, get gives ${w}`
  }
  const st = routed.routeStatus()
  if (!same([...st.suspended].sort(), [...m.susp.keys()].sort())) return `routeStatus says suspended ${st.suspended}, it is ${[...m.susp.keys()]}`
  if (!same(Object.keys(st.overrides).sort(), [...m.ov.keys()].sort())) return `routeStatus says overridden ${Object.keys(st.overrides)}, it is ${[...m.ov.keys()]}`
  for (const [r, s] of m.susp) if (r !== 'cold' && s.q && (st.queued[r] ?? 0) !== s.q.length) return `routeStatus says ${st.queued[r]} queued for ${r}, ${s.q.length} are`
  ctx.trans(at.length)
  return null
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of histories of writes and route control on the real routed store against an explicit model of placement and visibility; all single failures; all interleavings of compaction, resumption and writes',
  rule: 'reads equal the model, every record lies in exactly the store its route names',
  modules: { hub: '@noy-db/hub', store: '@noy-db/hub/store' },
  bounds: (t) => `6 configurations (collection, vault, blob, metadata, size and age routes); all histories of length ${t === 'quick' ? 2 : 3} over up to 40 operations and of length ${t === 'quick' ? 4 : 5} over one record and its route; one failure at every store call of every operation in every state of length-2 histories; all interleavings of pairs`,
  assumptions: ['the backing stores follow the store contract (P21)', 'no other process writes to the backing stores', 'what saveAll does to suspended routes, hydrate: true, quota overflow, blobRoutes and blobLifecycle are not claimed'],
  units(tier) {
    const out = []
    for (const [name, cfg] of Object.entries(CONFIGS)) {
      const n = opsOf(name, cfg).length
      for (let f = 0; f < n; f++) if (tier !== 'quick' || f % 8 === 0) out.push({ name, kind: 'wide', f, span: tier === 'quick' ? 8 : 1, len: tier === 'quick' ? 2 : 3 })
      const d = deepOps(name, cfg).length
      for (let f = 0; f < d; f++) out.push({ name, kind: 'deep', f, span: 1, len: tier === 'quick' ? 4 : 5 })
      out.push({ name, kind: 'fault' }, { name, kind: 'race' })
    }
    out.push({ kind: 'bulk' })
    return out
  },
  async runUnit(u, ctx) {
    const cfg = CONFIGS[u.name], nb = ctx.nb
    if (u.kind === 'bulk') return settle(() => bulk(u, ctx))
    if (u.kind === 'fault') return fault(u, cfg, ctx)
    if (u.kind === 'race') return race(u, cfg, ctx)
    const ops = u.kind === 'wide' ? opsOf(u.name, cfg) : deepOps(u.name, cfg)
    for (let f = u.f; f < Math.min(u.f + u.span, ops.length); f++) for (const rest of sequences(ops.length, u.len - 1)) {
      const hist = [f, ...rest].map((i) => ops[i])
      ctx.exec()
      resetWorld(1)
      await settle(() => (async () => {
        const sys = mk(nb, cfg), m = new Model(cfg)
        let bad = null
        for (const [n, op] of hist.entries()) { bad = await apply(op, sys, m, n, nb.hub); ctx.trans(); if (bad) break }
        if (!bad) bad = await observe(sys, m, cfg, ctx)
        ctx.state([u.name, Object.entries(m.st).map(([n, x]) => [n, [...x.keys()].sort()]), [...m.susp.keys()], [...m.ov.keys()]])
        if (bad) ctx.violation(`${u.name}:${bad.replace(/[({].*$/s, '').trim().replace(/ /g, '-').slice(0, 40)}:${hist[hist.length - 1].t}`, `${u.name} routes, after ${hist.map((o) => o.k).join('; ')}: ${bad}`)
        else ctx.sample({ config: u.name, history: hist.map((o) => o.k) })
      })())
    }
  },
}
/** Sizes and counts beyond the histories: many records, long queues, the default size threshold, ping and listVaults over every subset of stores. */
async function bulk(u, ctx) {
  const nb = ctx.nb
  for (const n of [1, 49, 51, 101, 260]) for (const olds of ['all', 'odd', 'last']) {
    resetWorld(1); ctx.exec()
    const sys = mk(nb, CONFIGS.age), isOld = (i) => olds === 'all' || (olds === 'odd' ? i % 2 === 1 : i === n - 1)
    for (let i = 0; i < n; i++) await sys.routed.put(V, 'inv', `r${i}`, env(1, `d${i}`, { old: isOld(i) }))
    const want = [...Array(n).keys()].filter(isOld).length, got = await sys.routed.compact(V)
    ctx.trans(n + 1)
    const cold = sys.data.C.ids(V, 'inv').length, ids = await sys.routed.list(V, 'inv'), all = (await sys.routed.loadAll(V)).inv
    if (got !== want || cold !== want || sys.data.D.ids(V, 'inv').length !== n - want) { ctx.violation('bulk:compact', `${n} records, ${olds} old: compact says ${got}, ${cold} lie in the cold store, ${want} are old`); return }
    if (ids.length !== n || new Set(ids).size !== n || Object.keys(all).length !== n) { ctx.violation('bulk:list', `${n} records, ${olds} old: after compact list names ${ids.length}, loadAll ${Object.keys(all).length}`); return }
    ctx.state(['compact', n, olds])
  }
  for (const max of [1, 2, 3, undefined]) for (const n of [1, 2, 3, 4, 5]) {
    resetWorld(1); ctx.exec(); ctx.trans(n + 1)
    const sys = mk(nb, CONFIGS.routes)
    sys.routed.suspend('inv', { queue: true, ...(max ? { maxQueueSize: max } : {}) })
    for (let i = 0; i < n; i++) await sys.routed.put(V, 'inv', `r${i}`, env(1, `d${i}`))
    const keep = max ? Math.min(max, n) : n // the oldest writes make room for the newest
    const queued = sys.routed.routeStatus().queued.inv, done = await sys.routed.resume('inv'), ids = sys.data.R.ids(V, 'inv').sort()
    const want = [...Array(n).keys()].slice(n - keep).map((i) => `r${i}`)
    if (queued !== keep || done !== keep || !same(ids, want)) { ctx.violation('bulk:queue', `queue of ${max}, ${n} writes: ${queued} queued, ${done} replayed, stored ${ids}, expected ${want}`); return }
    ctx.state(['queue', max, n])
  }
  for (const n of [1001, 10_000, 10_001]) {
    resetWorld(1); ctx.exec(); ctx.trans(n + 1)
    const sys = mk(nb, CONFIGS.routes)
    sys.routed.suspend('inv', { queue: true })
    for (let i = 0; i < n; i++) await sys.routed.put(V, 'inv', `r${i}`, env(1, 'd'))
    const keep = Math.min(n, 10_000), done = await sys.routed.resume('inv'), ids = sys.data.R.ids(V, 'inv')
    if (done !== keep || ids.length !== keep || !ids.includes(`r${n - 1}`)) { ctx.violation('bulk:queue:default', `${n} writes queued without a configured size: ${done} replayed, ${ids.length} stored, expected ${keep}`); return }
  }
  // a queued write that conflicts or fails on resume does not hold back the ones behind it
  for (let k = 0; k <= 4; k++) for (const bad of subsets([0, 1, 2, 3], k)) for (const how of ['conflict', 'fault']) {
    resetWorld(1); ctx.exec(); ctx.trans(5)
    const data = Object.fromEntries(STORES.map((x) => [x, new Data()])), fails = new Set(how === 'fault' ? bad.map((i) => `r${i}`) : [])
    const s = (x) => hookedStore(nb.hub, data[x], (m, a, f) => { if (x === 'R' && m === 'put' && fails.has(a[2])) throw new Error('down'); return f() }, { name: x })
    const routed = nb.store.routeStore({ default: s('D'), routes: { inv: s('R') } })
    if (how === 'conflict') for (const i of bad) await routed.put(V, 'inv', `r${i}`, env(3, 'there'))
    routed.suspend('inv', { queue: true })
    for (let i = 0; i < 4; i++) await routed.put(V, 'inv', `r${i}`, env(1, `d${i}`), ...(how === 'conflict' && bad.includes(i) ? [7] : []))
    const done = await routed.resume('inv'), ids = data.R.ids(V, 'inv').filter((id) => data.R.get(V, 'inv', id)._data !== env(3, 'there')._data).sort(), want = [0, 1, 2, 3].filter((i) => !bad.includes(i)).map((i) => `r${i}`)
    if (done !== want.length || !same(ids, want)) { ctx.violation(`bulk:replay:${how}`, `four queued writes of which ${bad.map((i) => `r${i}`)} ${how === 'fault' ? 'fail' : 'conflict'} on resume: ${done} replayed, stored ${ids}, expected ${want}`); return }
    // a later suspension starts with an empty queue and its own choice of queueing
    for (const queue of [false, true]) {
      const st = routed.routeStatus()
      if (st.suspended.length || Object.keys(st.queued).length) { ctx.violation('bulk:status', `after resume the status is ${canon(st)}`); return }
      routed.suspend('inv', queue ? { queue } : undefined)
      await routed.put(V, 'inv', `z${queue}`, env(1, 'z'))
      const n = await routed.resume('inv')
      if (n !== (queue ? 1 : 0) || data.R.ids(V, 'inv').includes(`z${queue}`) !== queue) { ctx.violation('bulk:again', `suspended again ${queue ? 'with' : 'without'} queue: ${n} replayed, stored ${data.R.ids(V, 'inv')}`); return }
    }
  }
  for (const threshold of [0, 1, 100]) for (const size of [1, 2, 99, 100, 101]) {
    resetWorld(1); ctx.exec(); ctx.trans()
    const sys = mk(nb, { opts: (s) => ({ default: s('D'), blobs: { large: s('L'), small: s('S'), threshold } }) })
    await sys.routed.put(V, '_blob_chunks', 'h_0', env(1, 'x', { size }))
    const at = ['D', 'S', 'L'].filter((n) => sys.data[n].get(V, '_blob_chunks', 'h_0')), want = size <= threshold ? 'S' : 'L'
    if (!same(at, [want])) { ctx.violation('bulk:threshold', `a chunk of ${size} bytes with threshold ${threshold} lies in ${at}, expected ${want}`); return }
  }
  const K400 = 400 * 1024
  for (const size of [1, K400 - 1, K400, K400 + 1]) for (const small of [true, false]) {
    resetWorld(1); ctx.exec(); ctx.trans()
    const sys = mk(nb, { opts: (s) => ({ default: s('D'), blobs: { large: s('L'), ...(small ? { small: s('S') } : {}) } }) })
    await sys.routed.put(V, '_blob_chunks', 'h_0', env(1, 'x', { size }))
    const at = ['D', 'S', 'L'].filter((n) => sys.data[n].get(V, '_blob_chunks', 'h_0')), want = size <= K400 ? (small ? 'S' : 'D') : 'L'
    if (!same(at, [want])) { ctx.violation('bulk:threshold', `a chunk of ${size} bytes without a configured threshold lies in ${at}, expected ${want}`); return }
  }
  // vaults of every store are listed once; ping answers while any store does
  for (let up = 0; up < 8; up++) {
    resetWorld(1); ctx.exec(); ctx.trans(2)
    const names = ['D', 'R', 'U'], data = Object.fromEntries(STORES.map((n) => [n, new Data()]))
    names.forEach((n, i) => { data[n].coll(`v${n}`, 'c', true).set('a', env(1, 'x')); data[n].coll('both', 'c', true).set('a', env(1, 'x')) })
    const s = (n) => hookedStore(nb.hub, data[n], (m, a, f) => { if ((m === 'ping' || m === 'listVaults') && !((up >> names.indexOf(n)) & 1)) throw new Error('down'); return f() }, { name: n })
    const routed = nb.store.routeStore({ default: s('D'), routes: { inv: s('R') }, vaultRoutes: { 'EU-': s('U') } })
    const live = names.filter((_, i) => (up >> i) & 1)
    const pong = await routed.ping(), vs = await routed.listVaults()
    if (pong !== live.length > 0) { ctx.violation('bulk:ping', `ping with ${live} answering is ${pong}`); return }
    if (!same([...vs].sort(), [...live.map((n) => `v${n}`), ...(live.length ? ['both'] : [])].sort())) { ctx.violation('bulk:vaults', `listVaults with ${live} answering is ${vs}`); return }
  }
}
/** One backing call fails: the operation reports it, and no record is lost, brought back or half-moved. */
async function fault(u, cfg, ctx) {
  const nb = ctx.nb, ops = opsOf(u.name, cfg).filter((o) => ['put', 'del', 'compact'].includes(o.t))
  const pre = deepOps(u.name, cfg).filter((o) => ['put', 'compact'].includes(o.t) && o.exp === undefined)
  for (const p of pre) for (const p2 of [null, ...pre]) for (const op of ops) for (const kind of ['before', 'after']) for (let k = 1; k < 12; k++) {
    ctx.exec(); resetWorld(1)
    let hit = false
    await settle(() => (async () => {
      const data = Object.fromEntries(STORES.map((n) => [n, new Data()])), stores = {}
      let on = false, n = 0
      const hook = (m, a, f) => {
        if (!on || ++n !== k) return f()
        hit = true
        if (kind === 'after') f()
        throw new Error('backend down')
      }
      const s = (x) => (stores[x] ??= hookedStore(nb.hub, data[x], hook, { name: x }))
      const sys = { data, s, routed: nb.store.routeStore(cfg.opts(s)) }
      const m = new Model(cfg)
      if (await apply(p, sys, m, 0, nb.hub)) return
      if (p2 && await apply(p2, sys, m, 1, nb.hub)) return
      const before = addresses(cfg).map((a) => canon(m.get(...a)))
      on = true
      const bad = await apply(op, sys, m, 2, nb.hub)
      on = false
      if (!hit) return
      ctx.trans()
      const key = `fault:${u.name}:${p.k}:${p2?.k ?? ''}:${op.k}:${k}:${kind}`, what = `${u.name} routes, after ${p.k}${p2 ? `, ${p2.k}` : ''}: ${op.k} with backing call ${k} failing (${kind} it took effect)`
      for (const [j, a] of addresses(cfg).entries()) {
        const g = canon(await sys.routed.get(...a)), w = canon(m.get(...a))
        if (!bad && g !== w) ctx.violation(key, `${what} reported success but ${a.join('/')} is ${g}, expected ${w}`)
        else if (g !== w && g !== before[j]) ctx.violation(key, `${what}: ${a.join('/')} is ${g}, before ${before[j]}, after ${w}`)
        const ids = await sys.routed.list(a[0], a[1]), l = ids.includes(a[2])
        if (new Set(ids).size !== ids.length) ctx.violation(key, `${what}: list names an id twice: ${ids}`)
        if (l !== (g !== 'null')) ctx.violation(key, `${what}: list and get disagree on ${a.join('/')}`)
        if (!a[1].startsWith('_')) { const all = await sys.routed.loadAll(a[0]); const x = canon((Object.hasOwn(all, a[1]) ? all[a[1]][a[2]] : null) ?? null); if (x !== g) ctx.violation(key, `${what}: loadAll gives ${a.join('/')} as ${x}, get as ${g}`) }
        // deleting now must remove it for good
        if (op.a && same(a, op.a)) { await sys.routed.delete(...a); const z = canon(await sys.routed.get(...a)); if (z !== 'null') ctx.violation(key, `${what}: deleted afterwards, yet get gives ${z}`) }
      }
    })())
    if (!hit) break
  }
}
/** Pairs of operations in every order of their backing calls: the outcome is that of one order, and a put acknowledged last is what is read. */
async function race(u, cfg, ctx) {
  const nb = ctx.nb
  const a = deepOps(u.name, cfg).find((o) => o.t === 'put').a
  const mkPut = (sys, v, tag, extra) => ({ k: `put ${tag}`, run: () => sys.routed.put(...a, env(v, tag, extra)), eff: (m) => m.put(...a, env(v, tag, extra)) })
  const cases = []
  if (cfg.age) for (const other of ['put', 'del', 'get', 'put-old', 'compact']) cases.push({ pre: [{ t: 'put', a, old: true, k: 'old' }], first: 'compact', other })
  if (cfg.age) for (const other of ['put', 'del', 'get', 'put-old']) cases.push({ pre: [{ t: 'put', a, old: true, k: 'old' }, { t: 'compact', v: a[0], k: 'compact' }], first: 'put', other })
  const r = new Model(cfg).route(a[0], a[1])
  for (const other of ['put', 'del', 'put2']) cases.push({ pre: [{ t: 'suspend', r, q: true, k: 'queue' }, { t: 'put', a, k: 'put' }], first: `resume`, r, other })
  for (const other of ['put', 'put2', 'del', 'get']) cases.push({ pre: [{ t: 'put', a, size: cfg.sizes ? 20 : 4, k: 'put' }], first: 'put', other })
  for (const c of cases) {
    const res = await exploreAll(async (ch) => {
      ctx.exec(); resetWorld(1)
      const m0 = new Model(cfg)
      const data = Object.fromEntries(STORES.map((n) => [n, new Data()])), stores = {}
      const sched = new Sched(nb.hub, ch, { preempt: ctx.tier === 'quick' ? 4 : 8 })
      let gate = false
      const s = (n) => (stores[n] ??= (() => { const p = plainStore(nb.hub, data[n], null, { name: n }), q = sched.store(data[n], n); return new Proxy({ name: n }, { has: (_, k) => k in p, get: (_, k) => (k === 'name' ? n : typeof p[k] === 'function' ? (...x) => (gate ? q : p)[k](...x) : p[k]) }) })())
      const sys = { data, s, routed: nb.store.routeStore(cfg.opts(s)) }
      await settle(() => (async () => { for (const [n, o] of c.pre.entries()) { const b = await apply(o, sys, m0, n, nb.hub); if (b) throw new Error(b) } })())
      const clone = () => { const m = new Model(cfg); for (const n of STORES) m.st[n] = new Map(m0.st[n]); m.susp = new Map([...m0.susp].map(([k, x]) => [k, { q: x.q ? [...x.q] : null }])); m.ov = new Map(m0.ov); return m }
      const make = (name, tag) => ({
        compact: { run: () => sys.routed.compact(a[0]), eff: (m) => m.compact(a[0], W.now) },
        put: mkPut(sys, 2, tag, cfg.sizes ? { size: 8 } : {}), put2: mkPut(sys, 3, tag, cfg.sizes ? { size: 20 } : {}), 'put-old': mkPut(sys, 2, tag, { old: true }),
        del: { run: () => sys.routed.delete(...a), eff: (m) => m.del(...a) },
        get: { run: () => sys.routed.get(...a), eff: () => {} },
        resume: { run: () => sys.routed.resume(c.r), eff: (m) => m.resume(c.r) },
      })[name]
      const A = make(c.first, 'A'), B = make(c.other, 'B')
      gate = true
      const [ta, tb] = await sched.run([['A', A.run], ['B', B.run]])
      gate = false
      ctx.trans(sched.transitions)
      const tag = `race:${u.name}:${c.first}/${c.other}:${c.pre.map((o) => o.k).join('+')}`
      if (!ta.ok || !tb.ok) { ctx.violation(`${tag}:fails`, `${u.name} routes: ${c.first} overlapping ${c.other} fails: ${(ta.err ?? tb.err)?.message} [${sched.trace.join(' ')}]`); return }
      const outs = [[A, B], [B, A]].map(([x, y]) => { const m = clone(); x.eff(m); y.eff(m); return m })
      const got = canon(await settle(() => sys.routed.get(...a)))
      if (c.other === 'get') { const was = canon(m0.get(...a)); if (![was, ...outs.map((m) => canon(m.get(...a)))].includes(canon(tb.val))) ctx.violation(`${tag}:read`, `${u.name} routes: while ${c.first} runs, get gives ${canon(tb.val)}, the record is ${was} [${sched.trace.join(' ')}]`) }
      if (!outs.some((m) => canon(m.get(...a)) === got)) ctx.violation(`${tag}:lost`, `${u.name} routes: ${c.first} overlapping ${c.other} leaves ${got}; one after the other gives ${outs.map((m) => canon(m.get(...a))).join(' or ')} [${sched.trace.join(' ')}]`)
      const l = (await settle(() => sys.routed.list(a[0], a[1]))).includes(a[2])
      if (l !== (got !== 'null')) ctx.violation(`${tag}:list`, `${u.name} routes: after ${c.first} overlapping ${c.other} list and get disagree`)
    }, { maxExec: 30000 })
    if (!res.complete) ctx.capped(`${u.name} ${c.first}/${c.other}`)
  }
}
