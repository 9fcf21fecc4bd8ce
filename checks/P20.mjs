// P20 — .noydb bundles: exact round trip, damage is detected, slices are exact, recipients get exactly their share.
import * as fs from '../lib/fakefs.mjs'
import { resetWorld, W } from '../lib/world.mjs'
import { exploreAll, canon, same, product } from '../lib/explore.mjs'
import { Data, plainStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'

const txt = new TextEncoder(), dec = new TextDecoder()
const COMP = ['none', 'gzip', 'auto', undefined]
const T0 = Date.parse('2026-03-01T00:00:00.000Z'), DAY = 86400000
const iso = (d) => new Date(T0 + d * DAY).toISOString()
const MARK = 'PLAINTEXTMARKER'

async function source(nb, data = new Data(), opts = {}) {
  const store = opts.store ?? plainStore(nb.hub, data)
  const db = await openDb(nb, store, { except: ['sync', 'session'], ...(opts.db ?? {}) })
  const v = await db.openVault(opts.name ?? 'V')
  return { data, store, db, v }
}
/** Records of three collections written on three days, some with a tier. */
const RECORDS = []
for (const c of ['a', 'b', 'constructor']) for (let d = 0; d < 3; d++) RECORDS.push({ c, id: `${c[0]}${d}`, day: d, rec: { n: d, c, s: MARK } })
async function fill(S, { extras = true } = {}) {
  W.now = T0 - DAY
  for (let d = 0; d < 3; d++) {
    W.now = T0 + d * DAY
    for (const r of RECORDS) if (r.day === d) await S.v.collection(r.c).put(r.id, r.rec)
    const t = S.v.collection('t', { tiers: [0, 1, 2] })
    await t.putAtTier(`t${d}`, { n: d, c: 't', s: MARK }, d)
  }
  W.now = T0 + 3 * DAY
  if (extras) {
    await S.v.collection('a').put('a0', { n: 7, c: 'a', s: MARK }) // two versions, the newer late
    await S.v.dictionary('st').put('k', { en: 'label' })
    await S.v.collection('a').blob('a1').put('f', txt.encode('bytes of a1'), { compress: false })
    await S.v.collection('b').blob('b1').put('f', txt.encode('bytes of b1'), { compress: false })
  }
}
const clip = (x) => { const s = String(x); return s.length > 140 ? s.slice(0, 140) + '…' : s }

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration: every single-byte change, truncation and extension of bundle files; the full product of slice filters and of recipient roles and permissions against a set model; all completion orders of overlapping first exports',
  modules: { ...HUB, cli: '@noy-db/cli' },
  bundleOpts: { fakeFs: true },
  bounds: (t) => `every byte position x ${t === 'quick' ? 'four' : 'all 255'} changes, every truncation length and paddings, of bundles in both encodings this runtime supports; 4 x 5 x 4 x 4 slice filters x re-keying; 5 roles x 5 permission maps x 3 expiries; all orders of two overlapping exports`,
  assumptions: ['SHA-256 collisions do not occur', 'a sliced bundle of a vault with a ledger is read through its collections, not through vault.load (documented)'],
  units(tier) {
    const out = []
    for (const c of ['none', 'gzip']) for (let k = 0; k < 6; k++) out.push({ damage: c, k })
    for (const c of COMP) out.push({ round: c ?? null })
    for (let k = 0; k < 8; k++) out.push({ slice: k })
    for (let k = 0; k < 6; k++) out.push({ recip: k })
    out.push({ handle: true }, { caller: true }, { header: true })
    return out
  },
  async runUnit(u, ctx) {
    resetWorld(1)
    if (u.damage) return damage(u, ctx)
    if (u.round !== undefined) return round(u, ctx)
    if (u.slice !== undefined) return slice(u, ctx)
    if (u.recip !== undefined) return recip(u, ctx)
    if (u.handle) return handle(ctx)
    if (u.caller) return caller(ctx)
    return header(ctx)
  },
}

async function round(u, ctx) {
  const nb = ctx.nb
  const S = await source(nb)
  for (let n = 0; n < 9; n++) {
    if (n === 1) await fill(S)
    else if (n > 1) await S.v.collection('a').put(`n${n}`, { text: ['ไทย', '', 'x'.repeat(n * 997), '\u0000', '😀'][n % 5] })
    const dump = JSON.parse(await S.v.dump())
    const bytes = await nb.hub.writeNoydbBundle(S.v, u.round ? { compression: u.round } : {})
    const r = await attempt(() => nb.hub.readNoydbBundle(bytes))
    ctx.exec(); ctx.trans()
    if (!r.ok) { ctx.violation('round:read', `a bundle (${u.round}) cannot be read back: ${r.err}`); continue }
    const got = JSON.parse(r.val.dumpJson)
    if (!same({ ...got, _exported_at: 0 }, { ...dump, _exported_at: 0 })) ctx.violation('round:dump', `a bundle (${u.round}) unpacks to another dump`)
    const h = nb.hub.readNoydbBundleHeader(bytes)
    if (!same(h, r.val.header) || canon(Object.keys(h).sort()) !== '["bodyBytes","bodySha256","formatVersion","handle"]') ctx.violation('round:header', `header ${canon(h)}`)
    if (h.handle !== await S.v.getBundleHandle()) ctx.violation('round:handle', 'the header carries another handle than the vault')
    // nothing of the vault outside the body, and what is readable of it discloses nothing
    const head = dec.decode(bytes.slice(0, bytes.length - h.bodyBytes))
    for (const secret of ['owner', MARK, 'st', 'constructor']) if (head.slice(10).replace(/[0-9A-Z]{26}/, '').replace(/[a-zA-Z0-9]+"?:/g, '').includes(secret)) ctx.violation('round:disclose', `the header contains "${secret}"`)
    if (u.round === 'none' && (dec.decode(bytes).includes(MARK))) ctx.violation('round:plain', 'plaintext of a record in a bundle')
    ctx.state([n, h.bodyBytes])
    // a subarray of a larger buffer reads the same
    const big = new Uint8Array(bytes.length + 9); big.set(bytes, 5)
    const r2 = await attempt(() => nb.hub.readNoydbBundle(big.subarray(5, 5 + bytes.length)))
    if (!r2.ok || r2.val.dumpJson !== r.val.dumpJson) ctx.violation('round:view', 'a view on a larger buffer reads differently')
    // restores
    const T = await source(nb)
    const l = await attempt(() => T.v.load(r.val.dumpJson))
    if (!l.ok) ctx.violation('round:load', `a full bundle cannot be loaded: ${l.err}`)
    else if (n > 0 && !same(await T.v.collection('a').get('a1'), { n: 1, c: 'a', s: MARK })) ctx.violation('round:record', 'a record is missing after the restore')
  }
}

async function damage(u, ctx) {
  const nb = ctx.nb
  const S = await source(nb)
  await S.v.collection('a').put('x', { n: 1 })
  const bytes = await nb.hub.writeNoydbBundle(S.v, { compression: u.damage })
  const good = await nb.hub.readNoydbBundle(bytes)
  const bodyStart = bytes.length - good.header.bodyBytes
  const judge = async (b, what) => {
    ctx.exec(); ctx.trans()
    const r = await attempt(() => nb.hub.readNoydbBundle(b))
    if (r.ok && r.val.dumpJson !== good.dumpJson) ctx.violation('damage:accepted', `${u.damage}: ${what} was read as another backup`)
    else if (r.ok) ctx.count('same contents')
    else if (!(r.err instanceof Error)) ctx.violation('damage:error', `${u.damage}: ${what} throws ${String(r.err)}`)
    // the command-line tool says the same of the file
    await fs.writeFile('/v.noydb', b)
    const c = await attempt(() => nb.cli.verify('/v.noydb'))
    if (!c.ok || c.val.ok !== r.ok || c.val.file !== '/v.noydb') ctx.violation('cli:verify', `${u.damage}: ${what}: reading ${r.ok ? 'succeeds' : 'fails'}, noydb verify says ${c.ok ? canon(c.val) : c.err}`)
    const h = await attempt(async () => nb.hub.readNoydbBundleHeader(b)), i = await attempt(() => nb.cli.inspect('/v.noydb'))
    if (h.ok !== i.ok || (h.ok && !same(i.val, { formatVersion: h.val.formatVersion, handle: h.val.handle, bodyBytes: h.val.bodyBytes, bodySha256: h.val.bodySha256 }))) ctx.violation('cli:inspect', `${u.damage}: ${what}: the header is ${h.ok ? canon(h.val) : h.err}, noydb inspect says ${i.ok ? canon(i.val) : i.err}`)
    if (c.ok && h.ok && (c.val.handle !== h.val.handle || c.val.bodyBytes !== h.val.bodyBytes || c.val.checks.header !== true || c.val.checks.bodyHash !== r.ok)) ctx.violation('cli:verify', `${u.damage}: ${what}: noydb verify reports ${canon(c.val)}`)
    return r
  }
  await judge(bytes, 'the file as written')
  const full = ctx.tier !== 'quick'
  for (let i = u.k; i < bytes.length; i += 6) {
    const inBody = i >= bodyStart
    const alts = full || !inBody ? Array.from({ length: 255 }, (_, d) => (bytes[i] + d + 1) & 255) : [1, 0x80].map((x) => bytes[i] ^ x)
    for (const v of alts) {
      const b = bytes.slice(); b[i] = v
      const r = await judge(b, `byte ${i} changed from ${bytes[i]} to ${v}`)
      if (r.ok && inBody) ctx.violation('damage:body', `${u.damage}: body byte ${i} changed to ${v} was accepted`)
      if (!r.ok && inBody && r.err.name !== 'BundleIntegrityError') ctx.violation('damage:kind', `${u.damage}: body byte ${i} changed reports ${r.err.name}`)
    }
  }
  for (let n = u.k; n < bytes.length; n += 6) {
    const r = await judge(bytes.slice(0, n), `the first ${n} of ${bytes.length} bytes`)
    if (r.ok) ctx.violation('damage:truncated', `${u.damage}: ${n} of ${bytes.length} bytes were accepted`)
    const h = await attempt(async () => nb.hub.readNoydbBundleHeader(bytes.slice(0, n)))
    if (h.ok !== n >= bodyStart || (h.ok && !same(h.val, good.header))) ctx.violation('damage:header', `${u.damage}: header of the first ${n} bytes: ${h.ok ? canon(h.val) : h.err}`)
  }
  for (const pad of [[0], [0, 0], [10], [125]]) {
    const b = new Uint8Array(bytes.length + pad.length); b.set(bytes); b.set(pad, bytes.length)
    const r = await judge(b, `${pad.length} bytes appended`)
    if (r.ok) ctx.violation('damage:padded', `${u.damage}: appended bytes were accepted`)
  }
  // a body removed from the middle, and two adjacent bytes exchanged
  for (let i = bodyStart + u.k; i + 1 < bytes.length; i += 6) {
    const b = bytes.slice(); [b[i], b[i + 1]] = [b[i + 1], b[i]]
    if (b[i] !== bytes[i]) { const r = await judge(b, `bytes ${i} and ${i + 1} exchanged`); if (r.ok) ctx.violation('damage:exchanged', `${u.damage}: exchanged bytes were accepted`) }
    const cut = new Uint8Array(bytes.length - 1); cut.set(bytes.slice(0, i)); cut.set(bytes.slice(i + 1), i)
    const r = await judge(cut, `byte ${i} removed`); if (r.ok) ctx.violation('damage:removed', `${u.damage}: a removed byte was accepted`)
  }
  ctx.state([u.damage, u.k])
}

// every combination of header fields
async function header(ctx) {
  const nb = ctx.nb
  const S = await source(nb)
  await S.v.collection('a').put('x', { n: 1 })
  const bytes = await nb.hub.writeNoydbBundle(S.v, { compression: 'none' })
  const good = await nb.hub.readNoydbBundle(bytes)
  const body = bytes.slice(bytes.length - good.header.bodyBytes)
  const H = good.header
  const make = (h) => {
    const j = txt.encode(typeof h === 'string' ? h : JSON.stringify(h)), p = bytes.slice(0, 10)
    new DataView(p.buffer).setUint32(6, j.length)
    const b = new Uint8Array(10 + j.length + body.length); b.set(p); b.set(j, 10); b.set(body, 10 + j.length); return b
  }
  const VARS = { formatVersion: [1, 0, 2, '1', undefined], handle: [H.handle, '', H.handle.toLowerCase(), H.handle.slice(1), H.handle + 'A', H.handle.slice(0, -1) + 'I', 1, undefined], bodyBytes: [H.bodyBytes, H.bodyBytes - 1, H.bodyBytes + 1, -1, String(H.bodyBytes), 0, undefined], bodySha256: [H.bodySha256, H.bodySha256.toUpperCase(), H.bodySha256.slice(1), '0'.repeat(64), undefined] }
  const EXTRA = [{}, { title: 'x' }, { exportedBy: 'owner' }, { name: '' }, { constructor: 1 }, { toString: 'x' }]
  for (const [fv, hd, bb, sh, ex] of product(...Object.values(VARS), EXTRA)) {
    const h = { formatVersion: fv, handle: hd, bodyBytes: bb, bodySha256: sh, ...ex }
    const want = fv === 1 && hd === H.handle && bb === H.bodyBytes && sh === H.bodySha256 && !Object.keys(ex).length
    const r = await attempt(() => nb.hub.readNoydbBundle(make(h)))
    ctx.exec(); ctx.trans()
    if (r.ok !== want) ctx.violation('header', `header ${JSON.stringify(h)} is ${r.ok ? 'accepted' : `rejected (${r.err})`}`)
    // the header reader applies the same rules, except for what needs the body
    const form = fv === 1 && hd === H.handle && Number.isInteger(bb) && bb >= 0 && /^[0-9a-f]{64}$/.test(sh ?? '') && !Object.keys(ex).length
    const p = await attempt(async () => nb.hub.readNoydbBundleHeader(make(h)))
    if (p.ok !== form) ctx.violation('header:peek', `header ${JSON.stringify(h)} is ${p.ok ? 'accepted' : 'rejected'} by the header reader`)
  }
  for (const raw of ['', '{}', '[]', 'null', '1', '"x"', '{', JSON.stringify(H) + ' x', `[${JSON.stringify(H)}]`, JSON.stringify(H).replace('{', '{"__proto__":1,')]) { const r = await attempt(() => nb.hub.readNoydbBundle(make(raw))); ctx.exec(); if (r.ok) ctx.violation('header:form', `header ${raw} is accepted`) }
}

const SL = {
  collections: [undefined, [], ['a'], ['a', 't', 'nosuch'], ['b', 'constructor']],
  since: [undefined, iso(1), new Date(T0 + DAY), new Date(T0 + DAY + 1), iso(9)],
  where: [undefined, (r) => r.n >= 1, async (r, x) => x.collection === 'a' || x.id === 'b2', () => false],
  tierAtMost: [undefined, 0, 1, 9],
}
async function slice(u, ctx) {
  const nb = ctx.nb
  const S = await source(nb)
  await fill(S)
  const raw = S.data.snapshot().V
  const all = []
  for (const r of RECORDS) all.push({ c: r.c, id: r.id, ts: r.id === 'a0' ? 3 : r.day, tier: 0, rec: r.id === 'a0' ? { n: 7, c: 'a', s: MARK } : r.rec })
  for (let d = 0; d < 3; d++) all.push({ c: 't', id: `t${d}`, ts: d, tier: d, rec: { n: d, c: 't', s: MARK } })
  let n = 0
  for (const [c, s, w, t] of product(SL.collections, SL.since, SL.where, SL.tierAtMost)) {
    if (n++ % 8 !== u.slice) continue
    for (const rekey of [{}, { exportPassphrase: 'another long passphrase' }]) {
      const o = { compression: 'none', ...(c ? { collections: c } : {}), ...(s ? { since: s } : {}), ...(w ? { where: w } : {}), ...(t !== undefined ? { tierAtMost: t } : {}), ...rekey }
      const how = `collections ${JSON.stringify(c)}, since ${s instanceof Date ? s.toISOString() : s}, where ${w ? SL.where.indexOf(w) : '-'}, tierAtMost ${t}${rekey.exportPassphrase ? ', re-keyed' : ''}`
      const r = await attempt(async () => JSON.parse((await nb.hub.readNoydbBundle(await nb.hub.writeNoydbBundle(S.v, o))).dumpJson))
      ctx.exec(); ctx.trans()
      if (!r.ok) { ctx.violation('slice:error', `${how}: ${r.err}`); continue }
      const want = []
      for (const x of all) {
        if (c && !c.includes(x.c)) continue
        if (s && T0 + x.ts * DAY < new Date(s).getTime()) continue
        if (w && !await w(x.rec, { collection: x.c, id: x.id })) continue
        if (t !== undefined && x.tier > t) continue
        want.push(`${x.c}/${x.id}`)
      }
      const got = Object.entries(r.val.collections).flatMap(([cc, m]) => Object.keys(m).map((id) => `${cc}/${id}`))
      if (!same(got.slice().sort(), want.sort())) ctx.violation('slice:set', `${how}: contains ${canon(got)}, expected ${canon(want)}`)
      for (const k of got) { const [cc, id] = k.split('/'); if (!same(r.val.collections[cc][id], raw[cc][id])) ctx.violation('slice:envelope', `${how}: ${k} was changed`) }
      // what the filters leave out is not carried along elsewhere
      const sliced = c || s || w || t !== undefined
      const rest = Object.entries(r.val._internal ?? {}).filter(([k, m]) => !k.startsWith('_ledger') && Object.keys(m).length).map(([k]) => k)
      if (sliced && rest.length) ctx.violation('slice:internal', `${how}: also carries ${rest}`)
      if (!sliced) for (const k of ['_dict_st', '_blob_chunks', '_history']) if (!rest.includes(k)) ctx.violation('slice:full', `${how}: a full bundle lacks ${k}`)
      if (JSON.stringify(r.val).includes(MARK)) ctx.violation('slice:plain', `${how}: plaintext in the bundle`)
      ctx.state([got, !!rekey.exportPassphrase])
    }
  }
}

const ROLES = ['owner', 'admin', 'operator', 'viewer', 'client', undefined]
const PERMS = [undefined, {}, { a: 'ro' }, { a: 'rw', b: 'ro' }, { constructor: 'rw', nosuch: 'rw' }]
const EXP = [undefined, iso(20), iso(-20)]
/** Lay a bundle out in a store the way a recipient's device does and open it. */
async function openAs(nb, bundle, user, secret, name = 'V') {
  const data = new Data()
  const d = JSON.parse((await nb.hub.readNoydbBundle(bundle)).dumpJson)
  const env = (x) => ({ _noydb: 1, _v: 1, _ts: iso(0), _iv: '', _data: JSON.stringify(x) })
  for (const [id, k] of Object.entries(d.keyrings)) data.coll(name, '_keyring', true).set(id, env(k))
  for (const part of [d.collections, d._internal ?? {}]) for (const [c, m] of Object.entries(part)) for (const [id, e] of Object.entries(m)) data.coll(name, c, true).set(id, e)
  const r = await attempt(async () => { const db = await openDb(nb, plainStore(nb.hub, data), { user, secret, except: ['sync', 'session'] }); return { db, v: await db.openVault(name), data } })
  return r
}
async function recip(u, ctx) {
  const nb = ctx.nb
  const S = await source(nb)
  await fill(S)
  let n = 0
  const pw = (i) => `recipient ${i} has a long phrase`
  for (const [r1, p1, e1] of product(ROLES, PERMS, EXP)) {
    if (n++ % 6 !== u.recip) continue
    // the slot under test next to another recipient
    const other = { id: 'other', passphrase: pw(2), role: 'operator', permissions: { b: 'rw' } }
    for (const rs of [[{ id: 'rec', passphrase: pw(1) }], [{ id: 'rec', passphrase: pw(1) }, other], [other, { id: 'toString', passphrase: pw(1) }]]) {
      const me = rs.find((x) => x !== other)
      Object.assign(me, { ...(r1 ? { role: r1 } : {}), ...(p1 ? { permissions: p1 } : {}), ...(e1 ? { expiresAt: e1 } : {}) })
      const how = `recipient ${me.id} with role ${r1}, permissions ${JSON.stringify(p1)}, expiry ${e1}${rs.length > 1 ? ' and another recipient' : ''}`
      const before = S.data.snapshot().V._keyring
      const w = await attempt(() => nb.hub.writeNoydbBundle(S.v, { recipients: rs }))
      ctx.exec(); ctx.trans()
      if (!w.ok) { ctx.violation('recip:write', `${how}: ${w.err}`); continue }
      if (!same(S.data.snapshot().V._keyring, before)) ctx.violation('recip:persist', `${how}: exporting changed the keyrings of the source vault`)
      const dump = JSON.parse((await nb.hub.readNoydbBundle(w.val)).dumpJson)
      if (!same(Object.keys(dump.keyrings).sort(), rs.map((x) => x.id).sort())) ctx.violation('recip:slots', `${how}: the bundle has keyrings for ${Object.keys(dump.keyrings)}`)
      // nobody else gets in
      for (const [user, sec] of [['owner', PASS], [me.id, PASS], [me.id, pw(2)], ['owner', pw(1)], ...(rs.length > 1 ? [['other', pw(1)]] : [])]) {
        const o = await openAs(nb, w.val, user, sec)
        if (o.ok && user !== 'owner') ctx.violation('recip:foreign', `${how}: ${user} opens it with a passphrase that is not theirs`)
        if (o.ok && user === 'owner') { const g = await attempt(() => o.val.v.collection('a').get('a1')); if (g.ok && g.val) ctx.violation('recip:owner', `${how}: the source user reads the bundle with ${sec === PASS ? 'their own' : "the recipient's"} passphrase`) }
      }
      const o = await openAs(nb, w.val, me.id, pw(1))
      if (e1 === EXP[2]) { if (o.ok || o.err.name !== 'KeyringExpiredError') ctx.violation('recip:expired', `${how}: opening an expired slot gives ${errName(o)}`); continue }
      if (!o.ok) { ctx.violation('recip:open', `${how}: cannot open: ${o.err}`); continue }
      const role = r1 ?? 'viewer'
      const wide = role === 'owner' || role === 'admin' || role === 'viewer'
      if (o.val.v.role !== role) ctx.violation('recip:role', `${how}: opened as ${o.val.v.role}`)
      for (const x of RECORDS) {
        const may = p1 ? Object.hasOwn(p1, x.c) : wide
        const g = await attempt(() => o.val.v.collection(x.c).get(x.id))
        const exp = x.id === 'a0' ? { n: 7, c: 'a', s: MARK } : x.rec
        if (may ? !(g.ok && same(g.val, exp)) : g.ok && g.val !== null) ctx.violation(may ? 'recip:denied' : 'recip:leak', `${how}: ${x.c}/${x.id} reads ${g.ok ? canon(g.val) : g.err}`)
        const wr = await attempt(() => o.val.v.collection(x.c).put('new', { n: 1 }))
        const mayW = may && (role === 'owner' || role === 'admin' || (role === 'operator' && p1?.[x.c] === 'rw'))
        if (mayW !== wr.ok && (mayW || may)) ctx.violation('recip:write-right', `${how}: writing ${x.c} ${wr.ok ? 'succeeds' : `fails: ${wr.err}`}`)
      }
      // the key of a collection outside the slot is not wrapped anywhere in it
      const slot = dump.keyrings[me.id]
      for (const k of Object.keys(slot.deks)) if (!k.startsWith('_') && !(p1 ? Object.hasOwn(p1, k) : wide)) ctx.violation('recip:key', `${how}: the slot carries the key of ${k}`)
      if (rs.length > 1) { const q = await openAs(nb, w.val, 'other', pw(2)); const g = q.ok ? await attempt(() => q.val.v.collection('b').get('b1')) : q, h = q.ok ? await attempt(() => q.val.v.collection('a').get('a1')) : q; if (!g.ok || !same(g.val, { n: 1, c: 'b', s: MARK })) ctx.violation('recip:other', `${how}: the other recipient reads ${g.ok ? canon(g.val) : g.err}`); if (h.ok && h.val) ctx.violation('recip:other-leak', `${how}: the other recipient reads collection a`) }
      // attachments share one key: a slot that may not read everything must not come with them
      const scoped = rs.some((x) => x.permissions || x.role === 'operator' || x.role === 'client')
      const chunks = Object.keys(dump._internal?._blob_chunks ?? {}).length
      if (scoped && chunks) ctx.violation('recip:blobs', `${how}: the bundle carries attachments`)
      if (!scoped) { const b = await attempt(() => o.val.v.collection('a').blob('a1').get('f')); if (!b.ok || dec.decode(b.val ?? new Uint8Array()) !== 'bytes of a1') ctx.violation('recip:blob-lost', `${how}: attachment reads ${b.ok ? b.val : b.err}`) }
      const dd = await attempt(() => o.val.v.dictionary('st').get('k'))
      if (!dd.ok || dd.val?.en !== 'label') ctx.violation('recip:dict', `${how}: dictionary reads ${dd.ok ? canon(dd.val) : dd.err}`)
      const L = await attempt(() => o.val.v.ledger().verify())
      if (!L.ok || !L.val.ok) ctx.violation('recip:ledger', `${how}: the ledger does not verify`)
      ctx.state([role, p1 ?? null, rs.length])
    }
  }
  // argument errors
  if (u.recip === 0) for (const bad of [{ exportPassphrase: 'x long phrase', recipients: [{ id: 'r', passphrase: 'r long phrase' }] }, { recipients: [{ id: 'r', passphrase: pw(1) }, { id: 'r', passphrase: pw(2) }] }]) { const w = await attempt(() => nb.hub.writeNoydbBundle(S.v, bad)); ctx.exec(); if (w.ok) ctx.violation('recip:args', `${JSON.stringify(bad)} was accepted`) }
}

// re-keyed by callers of every role: never more than the caller had
async function caller(ctx) {
  const nb = ctx.nb
  const S = await source(nb)
  await fill(S)
  const CALL = [['owner', null, null], ...['admin', 'operator', 'viewer', 'client'].flatMap((r) => [undefined, { a: 'ro' }, { a: 'rw', b: 'ro' }].filter((p) => p || r === 'admin' || r === 'viewer').filter((p) => !p || r === 'operator' || r === 'client').map((p) => [r, p, `${r} has a long phrase`]))]
  let k = 0
  for (const [role, perms, pass] of CALL) {
    const user = role === 'owner' ? 'owner' : `u${++k}`
    if (role !== 'owner') await S.db.grant('V', { userId: user, displayName: user, role, passphrase: pass, ...(perms ? { permissions: perms } : {}) })
    const C = role === 'owner' ? S : await source(nb, S.data, { db: { user, secret: pass } })
    for (const opts of [{ exportPassphrase: 'exported with a phrase' }, { recipients: [{ id: 'r', passphrase: 'exported with a phrase', role: 'owner' }] }]) {
      const who = opts.recipients ? 'r' : user
      const how = `${role} with ${JSON.stringify(perms)} exports ${opts.recipients ? 'for an owner recipient' : 'with a passphrase'}`
      const w = await attempt(() => nb.hub.writeNoydbBundle(C.v, opts))
      ctx.exec(); ctx.trans()
      if (!w.ok) { if (opts.exportPassphrase) ctx.violation('caller:write', `${how}: ${w.err}`); continue }
      const o = await openAs(nb, w.val, who, 'exported with a phrase')
      if (!o.ok) { ctx.violation('caller:open', `${how}: ${o.err}`); continue }
      for (const x of RECORDS) {
        const may = perms ? Object.hasOwn(perms, x.c) : true
        const g = await attempt(() => o.val.v.collection(x.c).get(x.id))
        const reads = g.ok && g.val !== null
        if (reads !== may) ctx.violation('caller:share', `${how}: ${x.c}/${x.id} reads ${g.ok ? canon(g.val) : g.err}`)
      }
      if (opts.exportPassphrase && o.val.v.role !== role) ctx.violation('caller:role', `${how}: opened as ${o.val.v.role}`)
      ctx.state([role, perms, !!opts.recipients])
    }
  }
}

// one handle per vault, also when first exports overlap
async function handle(ctx) {
  const nb = ctx.nb
  for (const same2 of [true, false]) for (const what of ['handle', 'bundle']) for (const junk of [null, '{}', 'x', '{"handle":"short"}']) {
    const res = await exploreAll(async (ch) => {
      resetWorld(1)
      const data = new Data()
      const setup = await openDb(nb, plainStore(nb.hub, data), { except: ['sync', 'session'] }); await setup.openVault('V'); setup.close()
      if (junk) data.coll('V', '_meta', true).set('handle', { _noydb: 1, _v: 1, _ts: iso(0), _iv: '', _data: junk })
      const sched = new Sched(nb.hub, ch, { preempt: 2 })
      const gate = { on: false }, plain = plainStore(nb.hub, data)
      const sw = () => { const g = sched.store(data, 'S'); return new Proxy(plain, { get: (t, p) => (typeof t[p] === 'function' ? (...a) => (gate.on ? g : plain)[p](...a) : t[p]) }) }
      const A = await source(nb, data, { store: sw() }), B = same2 ? A : await source(nb, data, { store: sw() })
      const f = (S) => (what === 'handle' ? S.v.getBundleHandle() : nb.hub.writeNoydbBundle(S.v, { compression: 'none' }).then((b) => nb.hub.readNoydbBundleHeader(b).handle))
      gate.on = true
      const [x, y] = await sched.run([['A', () => f(A)], ['B', () => f(B)]])
      gate.on = false
      ctx.exec(); ctx.trans(sched.transitions ?? 1)
      const later = await A.v.getBundleHandle(), fresh = await (await source(nb, data)).v.getBundleHandle()
      const hs = [x.ok ? x.val : x.err, y.ok ? y.val : y.err, later, fresh].map(String)
      if (new Set(hs).size !== 1) ctx.violation(`handle:${same2 ? 'one' : 'two'}:${what}`, `overlapping first exports (${what}, ${same2 ? 'one instance' : 'two instances'}, stored ${junk}) give handles ${hs.join(', ')}`)
      if (!/^[0-9A-HJKMNP-TV-Z]{26}$/.test(hs[3])) ctx.violation('handle:form', `handle ${hs[3]}`)
      const other = await (await source(nb, data, { name: 'OTHER' })).v.getBundleHandle()
      if (other === hs[3]) ctx.violation('handle:unique', 'two vaults share a handle')
      ctx.state([same2, what, junk])
    }, { maxExec: 20000 })
    if (!res.complete) ctx.capped('overlapping exports')
  }
}
