// P21 — every store package is the same map from (vault, collection, id) to envelope.
import { sequences, exploreAll, canon, same } from '../lib/explore.mjs'
import { attempt, errName } from '../lib/noy.mjs'
import { BACKENDS, STORE_MODULES, STORE_BUNDLE } from '../lib/backends.mjs'

// ── names ─────────────────────────────────────────────────────────────────
// [vault1, vault2, collection1, collection2, id1, id2, id3]
const NAMES = {
  plain: ['v1', 'v2', 'c1', 'c2', 'i1', 'i2', 'i3'],
  prefixes: ['v', 'v1', 'c', 'c1', 'i', 'i1', 'i10'],
  builtin: ['constructor', 'toString', 'constructor', 'valueOf', 'hasOwnProperty', 'toString', 'length'],
  unicode: ['บริษัท', 'é', 'ใบแจ้งหนี้', '日本', 'ข้อ-1', '🎉', 'é'],
  order: ['V', 'v', 'B', 'a', '10', '9', '010'],
  dots: ['v.1', 'v.2', 'c.json', 'c.tmp', 'x.json', 'x.json.tmp', 'x'],
  spaces: ['my vault', 'my+vault', 'a b', 'a+b', 'id 1', 'id+1', "id'1"],
  percent: ['50%', '50%25', '%41', 'A', '%2F', '%25', '100%'],
  under: ['v_1', 'v_2', 'c_', 'x_c', 'i_1', 'i__', 'a_b'],
  idcolon: ['v1', 'v2', 'c1', 'c2', 'a:b', 'a:b:c', ':x'],
  idhash: ['v1', 'v2', 'c1', 'c2', 'a#b', '#', 'a#b#c'],
  idslash: ['v1', 'v2', 'c1', 'c2', 'a/b', 'a', '_idx/f/x'],
  sepcolon: ['v', 'v:c', 'c', 'c:i', 'i', 'i:j', 'c:i'],
  sephash: ['v', 'v#c', 'c', 'c#i', 'i', 'i#j', 'c#i'],
}
/** Assumption: names are legal in the backing system (no path separators in vault and collection names, no key separator of the store there). */
function usable(store, names) {
  if (names === 'sepcolon') return !['local', 'idb'].includes(store)
  if (names === 'sephash') return store !== 'dynamo'
  if (names === 'idslash') return !['smb', 'ssh', 'webdav', 'webdav-prefix', 's3', 's3-prefix', 'r2'].includes(store)
  return true
}
// ── envelopes ─────────────────────────────────────────────────────────────
let seq = 0
const EXTRA = [
  {}, { _by: 'u1' }, { _by: 'u2', _tier: 2, _elevatedBy: 'boss' }, { _det: { email: 'x:y' }, _by: 'u1' }, { _tier: 0 }, { _by: 'ผู้ใช้', _det: { a: '1', b: '2' }, _tier: 1 },
]
function env(v) {
  const n = seq++
  const body = n % 3 === 0 ? { _iv: '', _data: n % 9 === 3 ? ['7', '{}', '"ก"', '0', '""'][(n / 9 | 0) % 5] : JSON.stringify({ k: `plain-${n}`, q: '"\n\\ é' }) } : { _iv: `iv${n}`, _data: `cipher-${n}+/=` }
  return { _noydb: 1, _v: v, _ts: new Date(1700000000000 + n).toISOString(), ...body, ...EXTRA[n % EXTRA.length] }
}
// ── reference model ───────────────────────────────────────────────────────
class Model {
  constructor() { this.m = new Map() }
  k(v, c, i) { return JSON.stringify([v, c, i]) }
  get(v, c, i) { return this.m.get(this.k(v, c, i)) ?? null }
  put(v, c, i, e) { this.m.set(this.k(v, c, i), e) }
  del(v, c, i) { this.m.delete(this.k(v, c, i)) }
  ids(v, c) { return [...this.m.keys()].map((k) => JSON.parse(k)).filter((k) => k[0] === v && k[1] === c).map((k) => k[2]).sort() }
  all(v) { const out = new Map(); for (const [k, e] of this.m) { const [a, c, i] = JSON.parse(k); if (a !== v || c.startsWith('_')) continue; if (!out.has(c)) out.set(c, new Map()); out.get(c).set(i, e) } return out }
  saveAll(v, snap) { for (const k of [...this.m.keys()]) { const [a, c] = JSON.parse(k); if (a === v && !c.startsWith('_')) this.m.delete(k) } for (const [c, recs] of Object.entries(snap)) for (const [i, e] of Object.entries(recs)) this.put(v, c, i, e) }
  clone() { const x = new Model(); x.m = new Map(this.m); return x }
}
const snapOf = (o) => { const out = {}; for (const c of Object.keys(o ?? {})) { const ids = Object.keys(o[c]); if (ids.length) out[c] = ids.map((i) => [i, canon(o[c][i])]).sort() } return canon(out) }
const snapOfModel = (m) => { const out = {}; for (const [c, recs] of m) if (recs.size) out[c] = [...recs].map(([i, e]) => [i, canon(e)]).sort(); return canon(out) }

// ── operations ────────────────────────────────────────────────────────────
const KR = '_keyring'
const OPS = {
  putA: (N) => ({ t: 'put', at: [N[0], N[2], N[4]] }),
  putAok: (N) => ({ t: 'put', at: [N[0], N[2], N[4]], exp: 'ok' }),
  putAbad: (N) => ({ t: 'put', at: [N[0], N[2], N[4]], exp: 'bad' }),
  putAzero: (N) => ({ t: 'put', at: [N[0], N[2], N[4]], exp: 'zero' }),
  putB: (N) => ({ t: 'put', at: [N[0], N[2], N[5]] }),
  putE: (N) => ({ t: 'put', at: [N[0], N[2], N[6]] }),
  putC: (N) => ({ t: 'put', at: [N[0], N[3], N[4]] }),
  putD: (N) => ({ t: 'put', at: [N[1], N[2], N[4]], exp: 'ok' }),
  putK: (N) => ({ t: 'put', at: [N[0], KR, N[4]] }),
  delA: (N) => ({ t: 'del', at: [N[0], N[2], N[4]] }),
  delB: (N) => ({ t: 'del', at: [N[0], N[2], N[5]] }),
  delK: (N) => ({ t: 'del', at: [N[0], KR, N[4]] }),
  saveB: (N) => ({ t: 'save', v: N[0], recs: [[N[2], N[5]], [N[3], N[4]]] }),
  saveE: (N) => ({ t: 'save', v: N[0], recs: [[N[2], N[4]], [N[2], N[6]]] }),
  save0: (N) => ({ t: 'save', v: N[0], recs: [] }),
  txBA: (N) => ({ t: 'tx', ops: [{ type: 'put', at: [N[0], N[2], N[5]] }, { type: 'delete', at: [N[0], N[2], N[4]] }] }),
  txbad: (N) => ({ t: 'tx', ops: [{ type: 'put', at: [N[0], N[3], N[4]] }, { type: 'put', at: [N[0], N[2], N[4]], exp: 'bad' }] }),
  txdel: (N) => ({ t: 'tx', ops: [{ type: 'put', at: [N[1], N[2], N[4]] }, { type: 'delete', at: [N[0], N[2], N[4]], exp: 'bad' }] }),
  txok: (N) => ({ t: 'tx', ops: [{ type: 'put', at: [N[0], N[2], N[4]], exp: 'ok' }, { type: 'put', at: [N[1], KR, N[4]] }, { type: 'delete', at: [N[0], N[2], N[5]], exp: 'ok' }] }),
}
const NAMES_OF_OPS = Object.keys(OPS)
const DEEP = ['putA', 'putAok', 'putAbad', 'putB', 'putK', 'delA', 'saveB', 'save0', 'txBA', 'txbad']
const WIDE = ['putA', 'putB', 'putE', 'putC', 'putD', 'putK', 'delA', 'delB', 'saveB', 'saveE', 'txBA', 'txok']
const isTx = (o) => o.startsWith('tx')
const exp = (how, cur) => (how === 'ok' ? cur?._v ?? 0 : how === 'bad' ? (cur ? cur._v + 5 : undefined) : how === 'zero' ? 0 : undefined)

/** Apply one operation to store and model; returns a complaint or null. */
async function apply(st, cap, m, op, hub) {
  if (op.t === 'put') {
    const cur = m.get(...op.at), e = env((cur?._v ?? 0) + 1), x = exp(op.exp, cur)
    const r = await attempt(() => (x === undefined ? st.put(...op.at, e) : st.put(...op.at, e, x)))
    const refuse = cap.cas && x !== undefined && cur && cur._v !== x
    if (refuse) {
      if (r.ok) return `put expecting version ${x} over version ${cur._v} was accepted`
      if (!(r.err instanceof hub.ConflictError)) return `put expecting version ${x} over version ${cur._v} failed with ${errName(r)} (${r.err?.message}), not a conflict`
      return null
    }
    if (!r.ok) return `put${x === undefined ? '' : ` expecting version ${x} with ${cur ? `version ${cur._v} stored` : 'nothing stored'}`} failed: ${r.err?.name}: ${r.err?.message}`
    m.put(...op.at, e)
    return null
  }
  if (op.t === 'del') { const r = await attempt(() => st.delete(...op.at)); if (!r.ok) return `delete failed: ${r.err?.message}`; m.del(...op.at); return null }
  if (op.t === 'save') {
    const snap = {}
    for (const [c, i] of op.recs) { if (!Object.hasOwn(snap, c)) snap[c] = {}; snap[c][i] = env(7) }
    const r = await attempt(() => st.saveAll(op.v, snap))
    if (!r.ok) return `saveAll failed: ${r.err?.message}`
    m.saveAll(op.v, snap)
    return null
  }
  const next = m.clone(); let conflict = false
  const ops = op.ops.map((o) => {
    const cur = m.get(...o.at), x = exp(o.exp, cur), e = o.type === 'put' ? env((cur?._v ?? 0) + 1) : undefined
    if (x !== undefined && cur && cur._v !== x) conflict = true
    if (o.type === 'put') next.put(...o.at, e); else next.del(...o.at)
    return { type: o.type, vault: o.at[0], collection: o.at[1], id: o.at[2], ...(e ? { envelope: e } : {}), ...(x !== undefined ? { expectedVersion: x } : {}) }
  })
  const r = await attempt(() => st.tx(ops))
  if (conflict) {
    if (r.ok) return 'a transaction with a stale expected version was accepted'
    if (!(r.err instanceof hub.ConflictError)) return `a transaction with a stale expected version failed with ${errName(r)} (${r.err?.message}), not a conflict`
    return null
  }
  if (!r.ok) return `transaction failed: ${r.err?.message}`
  m.m = next.m
  return null
}
/** Everything readable through the contract, compared with the model. */
async function observe(st, m, N, ctx, pages = [1, 2, undefined]) {
  const colls = [N[2], N[3], KR], ids = [N[4], N[5], N[6]]
  for (const v of [N[0], N[1]]) {
    for (const c of colls) {
      const want = m.ids(v, c)
      const got = [...await st.list(v, c)].sort()
      if (!same(got, want)) return `list(${v}, ${c}) is ${JSON.stringify(got)}, stored ${JSON.stringify(want)}`
      for (const i of ids) {
        const e = await st.get(v, c, i), w = m.get(v, c, i)
        if (canon(e) !== canon(w)) return `get(${v}, ${c}, ${i}) is ${canon(e)}, stored ${canon(w)}`
      }
      if (st.listPage) for (const limit of pages) {
        const items = []; let cursor, n = 0
        do {
          const p = await st.listPage(v, c, cursor, limit)
          if (p.items.length > (limit ?? 100)) return `a page of ${c} limited to ${limit} has ${p.items.length} records`
          items.push(...p.items); cursor = p.nextCursor ?? undefined
          if (p.nextCursor === undefined) return `a page of ${c} has no nextCursor`
        } while (cursor !== undefined && ++n < 12)
        if (n >= 12) return `paging ${c} with limit ${limit} does not end`
        if (!same(items.map((x) => x.id).sort(), want)) return `paging (${v}, ${c}) with limit ${limit} gives ${JSON.stringify(items.map((x) => x.id))}, stored ${JSON.stringify(want)}`
        for (const x of items) if (canon(x.envelope) !== canon(m.get(v, c, x.id))) return `paging gives ${x.id} as ${canon(x.envelope)}, stored ${canon(m.get(v, c, x.id))}`
        ctx.trans()
      }
    }
    const all = await st.loadAll(v)
    const g = snapOf(all), w = snapOfModel(m.all(v))
    if (g !== w) return `loadAll(${v}) is ${g}, stored ${w}`
    if (Object.keys(all).some((c) => c.startsWith('_'))) return `loadAll(${v}) lists a reserved collection`
    ctx.trans(4)
  }
  if (st.listVaults) {
    const got = new Set(await st.listVaults())
    for (const v of [N[0], N[1]]) { const has = [...m.m.keys()].some((k) => JSON.parse(k)[0] === v); if (has && !got.has(v)) return `listVaults misses ${v}` }
    for (const v of got) if (v !== N[0] && v !== N[1]) return `listVaults gives ${v}`
  }
  if (Object.keys(Object).length || Object.keys(Object.prototype).length) return `global built-ins were modified: ${Object.keys(Object)}`
  return null
}
const scrub = () => { for (const k of Object.keys(Object)) delete Object[k]; for (const k of Object.keys(Object.prototype)) delete Object.prototype[k]; for (const f of [Object.prototype.toString, Object.prototype.valueOf, Object.prototype.hasOwnProperty]) for (const k of Object.keys(f)) delete f[k] }

const CAS_RACE = ['memory', 'sqlite', 'local', 'local-obf', 'idb', 'idb-obf', 'dynamo', 'postgres', 'mysql', 'turso', 'd1']

const CRASH = ['file', 'file-compact', 'nfs', 'smb', 'ssh', 'webdav', 's3', 'r2', 'dynamo']

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of contract call histories on all 17 record-store packages (their real code over stand-in servers) against one map model; all single server failures inside multi-record writes; all interleavings of two conditional writers at server-call granularity',
  rule: 'get, list, paging and loadAll return what the map model holds; refused and failed operations change nothing',
  modules: STORE_MODULES,
  bundleOpts: STORE_BUNDLE,
  bounds: (t) => `collections of 99 to 1130 records; ${NAMES_OF_OPS.length} operations on 7 records of 2 vaults; ${t === 'quick' ? `all histories of ${NAMES_OF_OPS.length} operations of length 2 and of ${DEEP.length} of length 3 with ordinary names, of ${WIDE.length} operations of length 2 with 13 other sets of names` : `all histories of ${NAMES_OF_OPS.length} operations of length 3 for 14 sets of names, of ${DEEP.length} of length 4 for ordinary names`}; every observation after every history through the same and a new instance; server pages of 2 items; every single server failure in every mutating operation; every crash point of the file, share and object stores`,
  assumptions: [
    'vault and collection names are legal names of the backing system (no "/" for path-based stores, no ":" for the browser stores, no "#" for DynamoDB)',
    'ids with "/" are outside SMB, SSH, WebDAV and S3',
    'SMB, SSH and WebDAV document that they ignore expected versions',
    'order of ids is not part of the contract',
  ],
  units(tier) {
    const out = []
    for (const s of Object.keys(BACKENDS)) {
      for (const n of Object.keys(NAMES)) if (usable(s, n)) {
        if (tier === 'quick') {
          if (n === 'plain') out.push({ s, n, len: 2, set: NAMES_OF_OPS })
          out.push(n === 'plain' ? { s, n, len: 3, set: DEEP } : { s, n, len: 2, set: WIDE })
        } else {
          for (const first of NAMES_OF_OPS) out.push({ s, n, len: 3, first, set: NAMES_OF_OPS })
          if (n === 'plain') for (const first of DEEP) out.push({ s, n, len: 4, first, set: DEEP })
        }
      }
      out.push({ s, fault: true }, { s, readFault: true }, { s, crowd: true })
      if (CRASH.includes(s)) out.push({ s, crash: true })
      if (CAS_RACE.includes(s)) out.push({ s, race: true })
      if (s.endsWith('-obf')) out.push({ s, collide: true })
    }
    out.push({ s: 'idb', abort: true })
    return out
  },
  async runUnit(u, ctx) {
    if (u.fault) return fault(u, ctx)
    if (u.readFault) return readFault(u, ctx)
    if (u.race) return race(u, ctx)
    if (u.crowd) return crowd(u, ctx)
    if (u.crash) return crash(u, ctx)
    if (u.collide) return collide(u, ctx)
    if (u.abort) return abort(u, ctx)
    const N = NAMES[u.n], nb = ctx.nb
    const cap0 = BACKENDS[u.s](nb, {})
    const names = u.set.filter((o) => cap0.tx || !isTx(o))
    if (u.first && !names.includes(u.first)) return
    for (const hist of histories(names, u)) {
      ctx.exec(); seq = 0
      const cap = BACKENDS[u.s](nb, {})
      const st = cap.open(), m = new Model()
      const tag = `${u.s}:${u.n}`
      let bad = null, at = ''
      for (const name of hist) { bad = await apply(st, cap, m, OPS[name](N), nb.hub); ctx.trans(); if (bad) { at = name; break } }
      if (!bad) bad = await observe(st, m, N, ctx)
      if (!bad && u.s !== 'memory') { bad = await observe(cap.open(), m, N, ctx, []); if (bad) bad = `a new instance disagrees: ${bad}` }
      ctx.state([u.s, u.n, [...m.m.keys()].sort()])
      if (bad) { scrub(); ctx.violation(`${tag}:${bad.replace(/^a new instance disagrees: /, '').replace(/[("[{:].*$/s, '').trim().replace(/ /g, '-').slice(0, 40)}:${hist[hist.length - 1]}`, `${u.s} store, names ${u.n}, after ${hist.join(', ')}${at ? ` (at ${at})` : ''}: ${bad}`); if (ctx.violations.length > 20) return }
      else if (u.n === 'plain') ctx.sample({ store: u.s, hist })
    }
  },
}
function* histories(names, u) {
  const rest = u.first ? u.len - 1 : u.len
  if (!u.first) for (const a of names) yield [a]
  for (const idx of sequences(names.length, rest)) yield [...(u.first ? [u.first] : []), ...idx.map((i) => names[i])]
}
/** Collections larger than any page or batch: filled record by record or at once, thinned out, read back whole and in pages. */
async function crowd(u, ctx) {
  const nb = ctx.nb
  for (const n of [99, 100, 101, 260, 1001, 1130]) for (const how of n > 260 ? ['save'] : ['save', 'put']) {
    ctx.exec(); seq = 0
    const cap = BACKENDS[u.s](nb, { page: n > 260 ? 1000 : 90 }), st = cap.open(), m = new Model()
    const id = (i) => `r${i}` // numeric and text order differ
    const bad = async (stage) => {
      for (const c of ['c', 'd']) {
        const want = m.ids('v', c), got = [...await st.list('v', c)].sort()
        if (!same(got, want)) return `${stage}: list gives ${got.length} ids of ${c}, stored ${want.length}`
        if (st.listPage) for (const limit of n > 260 ? [undefined, 1000] : [undefined, 7, 100]) {
          const ids = []; let cursor, pages = 0
          do { const p = await st.listPage('v', c, cursor, limit); ctx.trans(); if (p.items.length > (limit ?? 100)) return `${stage}: a page limited to ${limit} has ${p.items.length} records`; for (const x of p.items) { ids.push(x.id); if (canon(x.envelope) !== canon(m.get('v', c, x.id))) return `${stage}: paging gives another envelope for ${x.id}` } cursor = p.nextCursor ?? undefined } while (cursor !== undefined && ++pages < 2 * n)
          if (!same(ids.sort(), want)) return `${stage}: pages of ${limit ?? 'default size'} give ${ids.length} records of ${c}, stored ${want.length}`
        }
      }
      const g = snapOf(await st.loadAll('v')), w = snapOfModel(m.all('v'))
      return g === w ? null : `${stage}: loadAll differs`
    }
    const snap = { c: {}, d: { one: env(3) } }
    for (let i = 0; i < n; i++) snap.c[id(i)] = env(1)
    if (how === 'save') await st.saveAll('v', snap); else for (const c of Object.keys(snap)) for (const [i, e] of Object.entries(snap[c])) await st.put('v', c, i, e)
    m.saveAll('v', snap)
    let what = await bad(how === 'save' ? 'saved at once' : 'put one by one')
    if (!what) {
      for (let i = 0; i < n; i += 3) { await st.delete('v', 'c', id(i)); m.del('v', 'c', id(i)) }
      what = await bad('every third deleted')
    }
    if (!what) {
      const half = { c: {} }
      for (let i = 0; i < n; i += 2) half.c[id(i)] = env(2)
      await st.saveAll('v', half); m.saveAll('v', half)
      what = await bad('saved over')
    }
    if (what) ctx.violation(`crowd:${u.s}`, `${u.s} store with ${n} records, ${what}`, { store: u.s, n, how })
    ctx.state([u.s, 'crowd', n, how])
  }
}
/** One server failure at every call of a transaction or bulk save: the operation fails and nothing changes. */
async function fault(u, ctx) {
  const N = NAMES.plain, nb = ctx.nb
  const probe = BACKENDS[u.s](nb, {})
  const todo = [...(probe.tx ? ['txBA', 'txok', 'txbad'] : []), 'saveB', 'putA', 'putAok', 'delA']
  for (const name of todo) {
    for (let k = 1; k < 40; k++) {
      ctx.exec(); seq = 0
      const e = { gate: null }
      const cap = BACKENDS[u.s](nb, { gate: (c) => e.gate?.(c) })
      const st = cap.open(), m = new Model()
      for (const o of ['putA', 'putB', 'putK', 'putC']) await apply(st, cap, m, OPS[o](N), nb.hub)
      let n = 0, hit = null
      e.gate = (c) => { if (/^(exec )?\s*ROLLBACK/i.test(c)) return; if (++n === k) { hit = c; throw new Error('server unavailable') } }
      const before = m.clone()
      const r = await attempt(() => apply(st, cap, m, OPS[name](N), nb.hub))
      e.gate = null
      if (!hit) break
      ctx.trans()
      const complaint = r.ok ? r.val : `threw ${r.err}`
      const key = `fault:${u.s}:${name}:${k}`
      // a failure the store absorbs (a probe, an idempotent delete) may still complete the operation
      const multi = name.startsWith('tx') || name === 'saveB'
      if (multi && cap.atomic) {
        const asBefore = await observe(st, before, N, ctx), asAfter = complaint ? 'x' : await observe(st, m, N, ctx)
        if (complaint ? asBefore : asAfter && asBefore) ctx.violation(key, `${u.s}: ${name} with the server failing at call ${k} (${hit.slice(0, 60)}) leaves a partial result: ${asBefore}`)
      } else if (!multi) {
        const asBefore = await observe(st, before, N, ctx), asAfter = complaint ? null : await observe(st, m, N, ctx)
        if (complaint && asBefore) ctx.violation(key, `${u.s}: ${name} failed at call ${k} (${hit.slice(0, 60)}) and the store is changed: ${asBefore}`)
        if (!complaint && asAfter && asBefore) ctx.violation(key, `${u.s}: ${name} reported success with the server failing at call ${k} (${hit.slice(0, 60)}): ${asAfter}`)
        if (!complaint && asAfter && !asBefore && name !== 'delA') ctx.violation(key, `${u.s}: ${name} reported success although the server failed at call ${k} (${hit.slice(0, 60)}) and nothing was written`)
      }
      // and the store still works
      const again = await apply(st, cap, new Model(), { t: 'put', at: [N[1], N[3], N[6]] }, nb.hub)
      if (again) ctx.violation(`${key}:stuck`, `${u.s}: after one failed call in ${name} (${hit.slice(0, 60)}) a later put fails: ${again}`)
    }
  }
}
/** One server failure at every call of a read: the read fails or is right, never "nothing there". */
async function readFault(u, ctx) {
  const N = NAMES.plain, nb = ctx.nb
  const READS = {
    get: (st) => st.get(N[0], N[2], N[4]), 'get-keyring': (st) => st.get(N[0], KR, N[4]), list: async (st) => [...await st.list(N[0], N[2])].sort(), loadAll: (st) => st.loadAll(N[0]),
    listPage: async (st) => (st.listPage ? (await st.listPage(N[0], N[2], undefined, 100)).items.map((x) => x.id).sort() : null),
    listVaults: async (st) => (st.listVaults ? [...await st.listVaults()].sort() : null),
    delete: async (st) => { await st.delete(N[0], N[2], N[4]); return null },
  }
  for (const [name, f] of Object.entries(READS)) for (let k = 1; k < 40; k++) {
    ctx.exec(); seq = 0
    const e = { gate: null }
    const cap = BACKENDS[u.s](nb, { gate: (c) => e.gate?.(c) })
    const st = cap.open(), m = new Model()
    for (const o of ['putA', 'putB', 'putK', 'putC']) await apply(st, cap, m, OPS[o](N), nb.hub)
    const right = name === 'delete' ? null : canon(await f(st))
    let n = 0, hit = null
    e.gate = (c) => { if (++n === k) { hit = String(c); throw Object.assign(new Error('server unavailable'), { code: 'EIO' }) } }
    const r = await attempt(() => f(st))
    e.gate = null
    if (!hit) break
    ctx.trans()
    const key = `fault:${u.s}:${name}`
    if (name === 'delete') { if (r.ok && (await st.get(N[0], N[2], N[4]))) ctx.violation(key, `${u.s}: delete reports success although the server failed (${hit.slice(0, 60)}) and the record is still there`) }
    else if (r.ok && canon(r.val) !== right) ctx.violation(key, `${u.s}: ${name} gives ${canon(r.val).slice(0, 80)} when the server fails (${hit.slice(0, 60)}), stored ${right.slice(0, 80)}`)
    ctx.state([u.s, name, k])
  }
}
/** The process dies at any server or file system step: every record is its old or its new self, for a new process. */
async function crash(u, ctx) {
  const N = NAMES.plain, nb = ctx.nb
  for (const name of ['putA', 'putAok', 'putE', 'delA', 'saveB', 'saveE', 'save0']) {
    for (let k = 1; k < 80; k++) {
      ctx.exec(); seq = 0
      const e = { gate: null }
      const cap = BACKENDS[u.s](nb, { gate: (c, ...r) => e.gate?.(c, ...r) })
      const st = cap.open(), m = new Model()
      for (const o of ['putA', 'putB', 'putK', 'putC']) await apply(st, cap, m, OPS[o](N), nb.hub)
      let n = 0, hit = null
      e.gate = (c) => { if (++n >= k) { hit ??= c; throw new Error('crashed') } }
      const before = m.clone(), after = m.clone(), mark = seq
      await attempt(() => apply(st, cap, m, OPS[name](N), nb.hub))
      e.gate = null
      if (!hit) break
      // the same operation on the model alone
      seq = mark
      await apply({ put() {}, delete() {}, saveAll() {} }, { cas: false }, after, OPS[name](N), nb.hub)
      ctx.trans()
      const st2 = cap.open(), key = `crash:${u.s}:${name}:${k}`, at = `${u.s}: ${name} cut off at step ${k} (${String(hit).slice(0, 60)})`
      for (const v of [N[0], N[1]]) for (const c of [N[2], N[3], KR]) {
        const l = await attempt(() => st2.list(v, c))
        if (!l.ok) { ctx.violation(key, `${at}: list fails: ${l.err?.message}`); continue }
        for (const i of [N[4], N[5], N[6]]) {
          const g = await attempt(() => st2.get(v, c, i)), a = canon(before.get(v, c, i)), b = canon(after.get(v, c, i))
          if (!g.ok) ctx.violation(key, `${at}: get(${v}, ${c}, ${i}) fails: ${g.err?.message}`)
          else if (canon(g.val) !== a && canon(g.val) !== b) ctx.violation(key, `${at}: get(${v}, ${c}, ${i}) is ${canon(g.val)}, was ${a}, written ${b}`)
          else if (l.val.includes(i) !== (g.val !== null)) ctx.violation(key, `${at}: ${i} ${l.val.includes(i) ? 'is listed but cannot be read' : 'can be read but is not listed'}`)
        }
        for (const i of l.val) if (![N[4], N[5], N[6]].includes(i)) ctx.violation(key, `${at}: list shows ${i}`)
        const all = await attempt(() => st2.loadAll(v))
        if (!all.ok) ctx.violation(key, `${at}: loadAll fails: ${all.err?.message}`)
        else if (!c.startsWith('_') && !same(Object.keys(Object.hasOwn(all.val, c) ? all.val[c] : {}).sort(), [...l.val].sort())) ctx.violation(key, `${at}: loadAll and list of ${c} disagree`)
      }
    }
  }
}
/** Two writers expecting the same version: at most one may succeed, in every order of their server calls. */
async function race(u, ctx) {
  const N = NAMES.plain, nb = ctx.nb
  await exploreAll(async (ch) => {
    ctx.exec(); seq = 0
    const waiting = []
    const e = { gate: null }
    const cap = BACKENDS[u.s](nb, { gate: (c) => e.gate?.(c) })
    const a = cap.open(), b = u.s === 'memory' ? a : cap.open()
    await a.put(N[0], N[2], N[4], env(1)); await b.get(N[0], N[2], N[4])
    const free = cap.sync || u.s.startsWith('idb') || u.s.startsWith('local')
    let who = null
    if (!free) e.gate = () => new Promise((res) => waiting.push({ res, who }))
    const ea = { ...env(2), _data: 'from A' }, eb = { ...env(2), _data: 'from B' }
    const order = ch.choose(2)
    const go = (st, x) => attempt(() => st.put(N[0], N[2], N[4], x, 1))
    let left = 2
    const done = (p) => p.then((r) => { left--; return r })
    const ps = order === 0 ? [done(go(a, ea)), done(go(b, eb))] : [done(go(b, eb)), done(go(a, ea))]
    if (!free) while (left) {
      for (let i = 0; i < 12; i++) await null
      if (!waiting.length) continue
      const [w] = waiting.splice(waiting.length > 1 ? ch.choose(waiting.length) : 0, 1)
      ctx.trans(); w.res()
    }
    const rs = await Promise.all(ps)
    e.gate = null
    const wins = rs.filter((r) => r.ok).length
    const fin = await a.get(N[0], N[2], N[4])
    if (wins !== 1) ctx.violation(`race:${u.s}:${wins === 0 ? 'none' : 'both'}`, `${u.s}: two writers expected version 1 at the same time and ${wins} of them succeeded`)
    else { const w = rs[0].ok ? (order === 0 ? 'from A' : 'from B') : (order === 0 ? 'from B' : 'from A'); if (fin._data !== w) ctx.violation(`race:${u.s}:value`, `${u.s}: the writer that was refused is the one stored`) }
  }, { maxExec: 20000 })
}
/** Obfuscated keys are 32-bit hashes: two ids with the same hash must still be two records. */
async function collide(u, ctx) {
  const fnv = (s) => { let h = 0x811c9dc5; for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) } return h >>> 0 }
  const seen = new Map(); let a, b
  for (let i = 0; ; i++) { const id = `rec-${i}`, h = fnv(id); if (seen.has(h)) { a = seen.get(h); b = id; break } seen.set(h, id) }
  const cap = BACKENDS[u.s](ctx.nb, {}), st = cap.open(), ea = env(1), eb = env(1)
  ctx.exec()
  await st.put('v', 'c', a, ea); await st.put('v', 'c', b, eb)
  if (canon(await st.get('v', 'c', a)) !== canon(ea)) ctx.violation(`collide:${u.s}`, `${u.s}: writing ${b} replaced ${a}`)
}
/** A transaction the browser aborts at commit (quota) must be reported, not left pending. */
async function abort(u, ctx) {
  const N = NAMES.plain
  for (const name of ['putA', 'putAok', 'delA', 'saveB']) for (const nth of [1, 2, 3]) {
    ctx.exec()
    const e = { gate: null }
    const cap = BACKENDS.idb(ctx.nb, { gate: (c) => e.gate?.(c) }), st = cap.open(), m = new Model()
    await apply(st, cap, m, OPS.putA(N), ctx.nb.hub)
    let commits = 0
    e.gate = (c) => { if (c === 'commit' && ++commits === nth) { e.gate = null; throw new Error('QuotaExceededError') } }
    let settled = false
    const after = m.clone()
    const p = apply(st, cap, after, OPS[name](N), ctx.nb.hub).then((r) => { settled = true; return r })
    for (let i = 0; i < 4000 && !settled; i++) await null
    if (!settled) ctx.violation(`abort:${name}`, `idb: ${name} never settles when the browser aborts its transaction at commit`)
    else if (!(await p)) { const o = await observe(st, after, N, ctx); if (o) ctx.violation(`abort:${name}`, `idb: ${name} reports success although its transaction was aborted: ${o}`) }
    else { const o = await observe(st, m, N, ctx); if (o) ctx.violation(`abort:${name}`, `idb: aborted ${name} changed the store: ${o}`) }
  }
}
