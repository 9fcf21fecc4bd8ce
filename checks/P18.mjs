// P18 — blobs: bytes come back exactly, references are counted, names do not collide.
import { resetWorld } from '../lib/world.mjs'
import { exploreAll, canon, same, product } from '../lib/explore.mjs'
import { Data, plainStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, openVault, attempt, errName } from '../lib/noy.mjs'

const enc = new TextEncoder()
const eq = (a, b) => a && b && a.length === b.length && a.every((x, i) => x === b[i])
const show = (b) => (b ? `${b.length} bytes [${Array.from(b.subarray(0, 12)).join(',')}${b.length > 12 ? ',…' : ''}]` : String(b))

// ── contents ────────────────────────────────────────────────────────────────
const HEAD = { zeros: [], text: [0x74, 0x65], png: [0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a], jpeg: [0xff, 0xd8, 0xff], zip: [0x50, 0x4b, 3, 4], gzip: [0x1f, 0x8b, 8], pdf: [0x25, 0x50, 0x44, 0x46] }
const MIME = { png: 'image/png', jpeg: 'image/jpeg', zip: 'application/zip', gzip: 'application/gzip', pdf: 'application/pdf' }
function content(kind, size) {
  const out = new Uint8Array(size)
  const h = HEAD[kind]
  for (let i = 0; i < size; i++) out[i] = i < h.length ? h[i] : kind === 'zeros' ? 0 : (i * 37 + (i >> 3) * 11) & 255
  return out
}
const SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]
const CHUNKS = [undefined, 1, 2, 3, 4, 8, 16, 32, 33, 100]

// ── model for the reference histories ───────────────────────────────────────
const SLOTS = [['a', 's'], ['a', 't'], ['b', 's']]
const VERS = [['a', 's', 'v1'], ['a', 's', 'v2'], ['b', 's', 'v1']]
const BOB = 'bob keeps his own one'
const CONT = { A: enc.encode('aaaaa'), B: enc.encode('bbb') }
const OPS = []
SLOTS.forEach(([r, s], k) => { for (const c of ['A', 'B']) OPS.push({ op: 'put', k, r, s, c }); OPS.push({ op: 'delete', k, r, s }) })
VERS.forEach(([r, s, l], k) => { OPS.push({ op: 'publish', k, r, s, l }, { op: 'deleteVersion', k, r, s, l }) })
const label = (o) => `${o.op}(${[o.r, o.s, o.l, o.c].filter(Boolean).join(',')})`
const slotOf = (k) => (k === 2 ? 2 : 0) // version k belongs to slot index
function step(m, o) {
  const n = { s: [...m.s], v: [...m.v] }
  if (o.op === 'put') n.s[o.k] = o.c
  else if (o.op === 'delete') n.s[o.k] = null
  else if (o.op === 'publish') { const c = m.s[slotOf(o.k)]; if (c === null) return null; n.v[o.k] = c }
  else n.v[o.k] = null
  return n
}
const START = { s: [null, null, null], v: [null, null, null] }
let REACH = null
function reach() {
  if (REACH) return REACH
  const seen = new Map([[canon(START), []]]), q = [START]
  while (q.length) {
    const m = q.shift(), path = seen.get(canon(m))
    OPS.forEach((o, i) => { const n = step(m, o); if (n && !seen.has(canon(n))) { seen.set(canon(n), [...path, i]); q.push(n) } })
  }
  REACH = [...seen].map(([k, path]) => ({ m: JSON.parse(k), path }))
  return REACH
}
const POPT = { compress: false, chunkSize: 2 }
const apply = (C, o) => {
  const b = C.blob(o.r)
  if (o.op === 'put') return b.put(o.s, CONT[o.c], { ...POPT, filename: `${o.c}.bin` })
  if (o.op === 'delete') return b.delete(o.s)
  return b[o.op](o.s, o.l)
}
/** Observable state: every slot, listing, version and the reference count of each content. */
async function observe(C) {
  const name = (b) => (b === null ? null : eq(b, CONT.A) ? 'A' : eq(b, CONT.B) ? 'B' : show(b))
  const s = [], v = [], list = {}
  for (const [r, t] of SLOTS) s.push(name(await C.blob(r).get(t)))
  for (const [r, t, l] of VERS) v.push(name(await C.blob(r).getVersion(t, l)))
  for (const r of ['a', 'b']) list[r] = (await C.blob(r).list()).map((x) => `${x.name}:${x.size}:${x.filename}`).sort()
  for (const [r, t] of SLOTS) list[`${r}/${t}`] = (await C.blob(r).listVersions(t)).map((x) => x.label).sort()
  return { s, v, list }
}
function expectList(m) {
  const list = { a: [], b: [] }
  SLOTS.forEach(([r, t], k) => { if (m.s[k]) list[r].push(`${t}:${CONT[m.s[k]].length}:${m.s[k]}.bin`); list[`${r}/${t}`] = [] })
  VERS.forEach(([r, t, l], k) => { if (m.v[k]) list[`${r}/${t}`].push(l) })
  return list
}
/** Reference counts, read through a probe slot on another record (which holds one reference itself). */
async function counts(C) {
  const out = {}
  for (const c of ['A', 'B']) { await C.blob('probe').put(c, CONT[c], POPT); out[c] = (await C.blob('probe').blobInfo(c)).refCount - 1 }
  return out
}
const refs = (m) => ({ A: [...m.s, ...m.v].filter((x) => x === 'A').length, B: [...m.s, ...m.v].filter((x) => x === 'B').length })

// ── names ───────────────────────────────────────────────────────────────────
const NAMES = ['f', 'f.pdf', 'constructor', '__proto__', 'toString', 'a::b', 'a', 'b', '::', '', ' ', 'q"uote', 'back\\slash', 'ใบแจ้งหนี้.pdf', 'é.txt', 'a/b', '../x', "it's", 'a;b=c', '100%', '😀.png', 'line\nbreak', 'tab\t']
function dispositionName(h) {
  const star = /filename\*=UTF-8''([^;]*)/i.exec(h)
  if (star) return decodeURIComponent(star[1])
  const q = /filename="((?:[^"\\]|\\.)*)"/.exec(h)
  return q ? q[1].replace(/\\(.)/g, '$1') : null
}

// ── concurrent operations ───────────────────────────────────────────────────
const P = (r, s, c, opt) => ({ n: `put(${r},${s},${c})`, run: (C) => C.blob(r).put(s, CONT[c], opt ?? POPT), eff: (m) => ({ ...m, [`${r}/${s}`]: c }) })
const D = (r, s) => ({ n: `delete(${r},${s})`, run: (C) => C.blob(r).delete(s), eff: (m) => ({ ...m, [`${r}/${s}`]: null }) })
const PUB = (r, s, l) => ({ n: `publish(${r},${s},${l})`, run: (C) => C.blob(r).publish(s, l), eff: (m) => (m[`${r}/${s}`] ? { ...m, [`${r}/${s}@${l}`]: m[`${r}/${s}`] } : 'NotFound') })
const RACES = [
  [P('x', 's', 'A'), P('x', 't', 'A')], [P('x', 's', 'A'), P('x', 't', 'B')], [P('x', 's', 'A'), P('x', 's', 'B')], [P('x', 's', 'A'), P('x', 's', 'A')],
  [P('x', 's', 'A'), P('y', 's', 'A')], [P('a', 's', 'B'), P('a', 't', 'B')], [P('a', 's', 'B'), P('a', 's', 'A')], [P('a', 's', 'B'), D('a', 's')],
  [D('a', 's'), D('a', 's')], [D('a', 's'), P('a', 't', 'A')], [PUB('a', 's', 'v1'), P('a', 's', 'B')], [PUB('a', 's', 'v1'), PUB('a', 's', 'v2')],
  [P('a', 's', 'A'), P('y', 's', 'A')], [PUB('a', 's', 'v1'), P('x', 't', 'A')],
]
const LAYOUT = [[P('x', 's', 'A', { compress: false, chunkSize: 2 }), P('y', 's', 'A', { compress: false, chunkSize: 4 })], [P('x', 's', 'A', { compress: true }), P('y', 's', 'A', { compress: false })]]

// ── retention ───────────────────────────────────────────────────────────────
const DAY = 86400000
const AGES = [0, 2 * DAY - 1, 2 * DAY, 2 * DAY + 1, 30 * DAY]
const RETAIN = [undefined, 0, 2, 0.5]
const PRED = { none: undefined, yes: () => true, no: () => false, done: (r) => r.done === true, boom: () => { throw new Error('predicate') } }

export default {
  level: 'model_checking',
  technique: 'exhaustive products of content, size, chunk size and compression against byte equality; explicit search of every reachable combination of slots, versions and contents with every operation from each; all interleavings of concurrent operations up to a preemption bound; every crash point',
  modules: HUB,
  bounds: (t) => `contents of ${SIZES.length} sizes x ${CHUNKS.length} chunk sizes x {compressed, not, automatic} x ${Object.keys(HEAD).length} kinds of content x {encrypted, not}; all ${reach().length} reachable states of three slots and three versions over two contents, each followed by all ${OPS.length} operations; ${NAMES.length} slot names in all pairs; ${RACES.length} concurrent pairs (preemption bound ${t === 'quick' ? 2 : 3}) on one handle and on two; every store call of every operation as a crash point; ${AGES.length} ages x ${RETAIN.length} retention periods x ${Object.keys(PRED).length} predicates`,
  assumptions: ['the store honours expectedVersion (P21)', 'blobs of a deleted record stay until deleted (there is no garbage collector in the repository)'],
  units(tier) {
    const out = []
    for (const kind of Object.keys(HEAD)) for (const encrypt of [true, false]) out.push({ kind, encrypt })
    const R = reach()
    for (let i = 0; i < R.length; i += 24) out.push({ hist: i, end: Math.min(R.length, i + 24), encrypt: (i / 24) % 2 === 0 || tier !== 'quick' })
    for (let i = 0; i < NAMES.length; i++) out.push({ name: i })
    RACES.forEach((_, i) => { for (const same of [true, false]) for (const mode of ['reply', 'call']) out.push({ race: i, one: same, mode, d: tier === 'quick' ? 2 : 3 }) })
    LAYOUT.forEach((_, i) => out.push({ layout: i, one: true, mode: 'reply', d: 2 }))
    for (const warm of [true, false]) OPS.forEach((_, i) => out.push({ crash: i, warm }))
    for (let i = 0; i < RETAIN.length; i++) out.push({ retain: i })
    out.push({ export: true }, { tamper: true }, { twice: true }, { bad: true })
    return out
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    resetWorld(1)
    if (u.kind) return contents(u, ctx, nb)
    if (u.hist !== undefined) return history(u, ctx, nb)
    if (u.name !== undefined) return names(u, ctx, nb)
    if (u.race !== undefined || u.layout !== undefined) return race(u, ctx, nb)
    if (u.crash !== undefined) return crash(u, ctx, nb)
    if (u.retain !== undefined) return retention(u, ctx, nb)
    if (u.export) return exporting(u, ctx, nb)
    if (u.tamper) return tamper(u, ctx, nb)
    if (u.twice) return doubleDelete(ctx, nb)
    return badOptions(ctx, nb)
  },
}

async function contents(u, ctx, nb) {
  const data = new Data()
  const store = { ...plainStore(nb.hub, data), presignUrl: async (v, c, id) => `mem:${v}|${c}|${id}` }
  const { db, v } = await openVault(nb, data, { encrypt: u.encrypt, store })
  const C = v.collection('docs')
  await C.put('a', { id: 'a' })
  await C.blob('a').put('first', new Uint8Array(1)) // creates the blob key before the snapshot
  data.m.get('V').delete('_blob_chunks'); data.m.get('V').delete('_blob_index'); data.m.get('V').delete('_blob_slots_docs')
  const again = async () => (await (await openDb(nb, plainStore(nb.hub, data), { encrypt: u.encrypt })).openVault('V')).collection('docs')
  const seed = data.snapshot()
  const autos = {}
  for (const size of SIZES) for (const chunkSize of CHUNKS) for (const compress of [undefined, true, false]) {
    data.restore(seed)
    const bytes = content(u.kind, size)
    const how = `${u.kind} content of ${size} bytes, chunkSize ${chunkSize}, compress ${compress}, ${u.encrypt ? 'encrypted' : 'plain'}`
    ctx.exec(); ctx.trans(6)
    const bad = (k, w) => ctx.violation(`content:${k}`, `${how}: ${w}`)
    const input = Uint8Array.from(bytes)
    await C.blob('a').put('f', input, { ...(chunkSize !== undefined && { chunkSize }), ...(compress !== undefined && { compress }) })
    if (!eq(input, bytes)) bad('input', 'put changed the array it was given')
    const got = await C.blob('a').get('f')
    if (!eq(got, bytes)) { bad('get', `get returned ${show(got)}`); continue }
    const [info] = await C.blob('a').list()
    if (info.name !== 'f' || info.size !== size || info.uploadedBy !== 'owner' || !info.uploadedAt) bad('list', `list says ${canon(info)}`)
    const bi = await C.blob('a').blobInfo('f')
    if (bi.size !== size || bi.refCount !== 1) bad('info', `blobInfo says ${canon(bi)}`)
    const n = data.ids('V', '_blob_chunks').length
    if (n !== bi.chunkCount) bad('chunks', `${n} chunks are stored, the blob says ${bi.chunkCount}`)
    if (chunkSize !== undefined && compress === false && n !== Math.max(1, Math.ceil(size / chunkSize))) bad('chunks', `${n} chunks are stored`)
    const res = await C.blob('a').response('f')
    if (!eq(new Uint8Array(await res.arrayBuffer()), bytes)) bad('response', 'the response body differs')
    if (res.headers.get('content-length') !== String(size) || res.headers.get('content-type') !== (info.mimeType ?? 'application/octet-stream')) bad('headers', `headers ${canon([...res.headers])}`)
    if (MIME[u.kind] && size >= 16 && info.mimeType !== MIME[u.kind]) bad('mime', `detected ${info.mimeType}`)
    autos[size] ??= info.mimeType ?? null
    if ((info.mimeType ?? null) !== autos[size]) bad('mime', `detected ${info.mimeType}, before ${autos[size]}`)
    const url = await C.blob('a').presignedUrl('f')
    if ((url !== null) !== (n === 1)) bad('presign', `presignedUrl gave ${url} for ${n} chunks`)
    if (url) {
      const [, vv, cc, id] = /^mem:(.*)\|(.*)\|(.*)$/.exec(url)
      const back = await C.blob('a').decryptResponse('f', new Response(JSON.stringify(data.get(vv, cc, id))))
      if (!eq(new Uint8Array(await back.arrayBuffer()), bytes)) bad('presign', 'decrypting the presigned download gives other bytes')
    }
    if (chunkSize === undefined || chunkSize === 3) {
      await C.blob('a').publish('f', 'v')
      const D2 = await again()
      if (!eq(await D2.blob('a').get('f'), bytes) || !eq(await D2.blob('a').getVersion('f', 'v'), bytes)) bad('reopen', 'another session reads other bytes')
      const rv = await D2.blob('a').responseVersion('f', 'v')
      if (!eq(new Uint8Array(await rv.arrayBuffer()), bytes)) bad('version', 'responseVersion differs')
    }
  }
  // the same bytes stored under other options share the blob and still read back
  for (const size of [0, 5, 33]) for (const [o1, o2] of product([{ compress: false, chunkSize: 2 }, { compress: true }, { mimeType: 'image/png' }], [{ compress: false, chunkSize: 7 }, { compress: true, chunkSize: 1 }, {}])) {
    data.restore(seed)
    ctx.exec()
    const bytes = content(u.kind, size)
    await C.blob('a').put('f', bytes, o1); await C.blob('a').put('g', bytes, o2)
    if (!eq(await C.blob('a').get('f'), bytes) || !eq(await C.blob('a').get('g'), bytes)) ctx.violation('content:shared', `${u.kind} ${size} bytes stored twice with ${canon(o1)} and ${canon(o2)} does not read back`)
    const m = (await C.blob('a').list()).find((x) => x.name === 'f').mimeType
    if (o1.mimeType && m !== o1.mimeType) ctx.violation('content:mime', `declared ${o1.mimeType}, listed ${m}`)
  }
  // what the caller declares is what the listing and the download say
  for (const [mimeType, filename, uploadedBy] of product([undefined, 'text/csv', 'image/png'], [undefined, 'r.csv', 'สรุป.csv'], [undefined, 'importer', ''])) for (const over of [false, true]) {
    data.restore(seed)
    ctx.exec(); ctx.trans(4)
    const bytes = content(u.kind, 33), b = C.blob('a')
    if (over) await b.put('f', content(u.kind, 7), { mimeType: 'text/old', filename: 'old', uploadedBy: 'old' })
    await b.put('f', bytes, { ...(mimeType && { mimeType }), ...(filename && { filename }), ...(uploadedBy !== undefined && { uploadedBy }) })
    const [info] = await b.list(), h = (await b.response('f')).headers
    const want = { mimeType: mimeType ?? MIME[u.kind], filename: filename ?? 'f', uploadedBy: uploadedBy ?? 'owner' }
    const got = { mimeType: mimeType || MIME[u.kind] ? info.mimeType : undefined, filename: info.filename, uploadedBy: info.uploadedBy }
    if (!same(got, want)) ctx.violation('content:declared', `${u.kind} content put with ${canon({ mimeType, filename, uploadedBy })}${over ? ' over another' : ''} is listed as ${canon(info)}`)
    if (want.mimeType && h.get('content-type') !== want.mimeType) ctx.violation('content:declared', `declared ${want.mimeType}, the response says ${h.get('content-type')}`)
    if (dispositionName(h.get('content-disposition')) !== want.filename) ctx.violation('content:declared', `file name ${want.filename}, the response says ${h.get('content-disposition')}`)
  }
  db.close()
}

async function history(u, ctx, nb) {
  const seeds = {}
  for (const st of reach().slice(u.hist, u.end)) for (const encrypt of u.encrypt && ctx.tier !== 'quick' ? [true, false] : [u.encrypt]) {
    if (!seeds[encrypt]) { const data = new Data(); const { v, db } = await openVault(nb, data, { encrypt }); const C = v.collection('docs'); for (const r of ['a', 'b', 'probe']) await C.put(r, { id: r }); await counts(C); await C.blob('probe').delete('A'); await C.blob('probe').delete('B')
      // the operation at the end is another member's
      let C2 = C
      if (encrypt) { await db.grant('V', { userId: 'bob', displayName: 'B', role: 'admin', passphrase: BOB }); C2 = (await (await openDb(nb, plainStore(nb.hub, data), { user: 'bob', secret: BOB })).openVault('V')).collection('docs') }
      seeds[encrypt] = { data, C, C2, snap: data.snapshot() } }
    const { data, C, C2, snap } = seeds[encrypt]
    data.restore(snap)
    for (const i of st.path) await apply(C, OPS[i])
    const here = data.snapshot()
    for (const o of [null, ...OPS]) {
      data.restore(here)
      ctx.exec(); ctx.trans()
      const how = `${[...st.path.map((i) => label(OPS[i])), ...(o ? [label(o)] : [])].join(', ')} (${encrypt ? 'encrypted' : 'plain'})`
      const m = o ? step(st.m, o) : st.m
      const r = await attempt(() => (o ? apply(C2, o) : null))
      if (!r.ok && m) { ctx.violation(`hist:error:${o.op}`, `${how} rejected: ${errName(r)}`); continue }
      if (r.ok && !m) { ctx.violation('hist:publish', `${how}: published a slot that does not exist`); continue }
      const want = m ?? st.m
      const ob = await observe(C)
      if (!same(ob.s, want.s) || !same(ob.v, want.v)) ctx.violation(`hist:read:${o?.op}`, `${how}: slots ${canon(ob.s)} versions ${canon(ob.v)}, expected ${canon(want)}`)
      if (!same(ob.list, expectList(want))) ctx.violation(`hist:list:${o?.op}`, `${how}: lists ${canon(ob.list)}, expected ${canon(expectList(want))}`)
      const rc = await counts(C)
      if (!same(rc, refs(want))) ctx.violation(`hist:refcount:${o?.op}`, `${how}: reference counts ${canon(rc)}, references ${canon(refs(want))}`)
      ctx.state(canon(want))
    }
  }
}

async function names(u, ctx, nb) {
  const data = new Data()
  const { v } = await openVault(nb, data)
  const C = v.collection('docs')
  await C.put('a', { id: 'a' })
  const seed = data.snapshot()
  const A = CONT.A, B = CONT.B, n1 = NAMES[u.name]
  for (const n2 of NAMES) {
    if (n1 === n2) continue
    ctx.exec(); ctx.trans(10)
    data.restore(seed)
    const bad = (k, w) => ctx.violation(`name:${k}:${JSON.stringify(n1)}`, `slots ${JSON.stringify(n1)} and ${JSON.stringify(n2)}: ${w}`)
    const b = C.blob('a')
    if ((await b.get(n1)) !== null || (await b.response(n1)) !== null || (await b.blobInfo(n1)) !== null) bad('ghost', 'a slot that was never written reads')
    await b.delete(n1)
    if (!(await attempt(() => b.publish(n1, 'v'))).err) bad('ghost', 'published a slot that was never written')
    await b.put(n1, A); await b.put(n2, B)
    if (!eq(await b.get(n1), A) || !eq(await b.get(n2), B)) bad('get', `read ${show(await b.get(n1))} and ${show(await b.get(n2))}`)
    const l = (await b.list()).map((x) => [x.name, x.filename]).sort()
    if (!same(l, [[n1, n1], [n2, n2]].sort())) bad('list', `list gives ${canon(l)}`)
    const r = await attempt(() => b.response(n1))
    if (!r.ok) bad('response', `response rejected: ${r.err?.message}`)
    else {
      const h = r.val.headers.get('content-disposition')
      const plain = n1.replace(/[\n\t]/g, '_')
      if (dispositionName(h) !== n1 && dispositionName(h) !== plain) bad('disposition', `Content-Disposition ${h}`)
    }
    // labels
    await b.publish(n2, n1); await b.publish(n2, 'plain')
    const lv = (await b.listVersions(n2)).map((x) => x.label).sort()
    if (!same(lv, [n1, 'plain'].sort())) bad('label', `labels ${canon(lv)}`)
    if (!eq(await b.getVersion(n2, n1), B)) bad('label', 'published version does not read back')
    await b.delete(n1)
    if ((await b.get(n1)) !== null || !eq(await b.get(n2), B)) bad('delete', 'deleting one slot changed another')
    // the name as a record id: slots and versions stay with their record
    if (n1 !== '' && n2 !== '') {
      await C.put(n1, { id: n1 }); await C.put(n2, { id: n2 })
      await C.blob(n1).put('s', A); await C.blob(n2).put('s', B); await C.blob(n1).publish('s', 'v')
      if (!eq(await C.blob(n1).get('s'), A) || !eq(await C.blob(n2).get('s'), B)) bad('record', 'blobs of two records are mixed up')
      if ((await C.blob(n2).listVersions('s')).length !== 0 || (await C.blob(n1).listVersions('s')).length !== 1) bad('record', 'versions of two records are mixed up')
    }
  }
  // ids built from '::' parts
  data.restore(seed)
  for (const [r, s, l] of [['r', 's', 'x'], ['r', 's::x', 'y'], ['r::s', 'x', 'z']]) {
    await C.put(r, { id: r }); await C.blob(r).put(s, A); await C.blob(r).publish(s, l)
  }
  if (u.name === 0) for (const [r, s, l] of [['r', 's', 'x'], ['r', 's::x', 'y'], ['r::s', 'x', 'z']]) {
    const got = (await C.blob(r).listVersions(s)).map((x) => x.label)
    if (!same(got, [l])) ctx.violation(`name:versions:${r}:${s}`, `listVersions(${s}) of record ${r} gives ${canon(got)}, published ${l}`)
  }
}

async function race(u, ctx, nb) {
  const [p, q] = u.race !== undefined ? RACES[u.race] : LAYOUT[u.layout]
  const kind = u.race !== undefined ? 'race' : 'race-layout'
  resetWorld(1)
  const seed = new Data()
  { const { v } = await openVault(nb, seed); const C = v.collection('docs'); for (const r of ['a', 'x', 'y', 'probe']) await C.put(r, { id: r }); await C.blob('a').put('s', u.layout !== undefined ? enc.encode('other') : CONT.A, POPT) }
  const snap = seed.snapshot()
  const base = u.layout !== undefined ? {} : { 'a/s': 'A' }
  const outcomes = [[p, q], [q, p]].map((ord) => {
    let m = base; const res = {}
    for (const o of ord) { const n = o.eff(m); res[o.n] = n === 'NotFound' ? n : 'ok'; if (n !== 'NotFound') m = n }
    return { m, res }
  })
  const keys = [...new Set(outcomes.flatMap((o) => Object.keys(o.m)))]
  const r = await exploreAll(async (ch) => {
    resetWorld(1)
    const data = new Data(); data.restore(snap)
    const sched = new Sched(nb.hub, ch, { mode: u.mode, preempt: u.d })
    const st = sched.store(data, 's'), plain = plainStore(nb.hub, data), gate = { on: false }, sw = { name: 'sw' }
    for (const m of Object.keys(st)) if (typeof st[m] === 'function') sw[m] = (...a) => (gate.on ? st[m](...a) : plain[m](...a))
    const open = async () => { const db = await openDb(nb, sw); const C = (await db.openVault('V')).collection('docs'); await C.get('a'); return C }
    const C1 = await open(), C2 = u.one ? C1 : await open()
    // one BlobSet handle shared by both calls when the record is the same
    const handles = new Map()
    const shared = { blob: (id) => { if (!handles.has(id)) handles.set(id, C1.blob(id)); return handles.get(id) } }
    gate.on = true
    ctx.exec()
    const tasks = await sched.run([[p.n + '#0', () => p.run(u.one ? shared : C1)], [q.n + '#1', () => q.run(u.one ? shared : C2)]])
    gate.on = false
    ctx.trans(sched.transitions)
    const how = `${p.n} with ${q.n} on ${u.one ? 'one handle' : 'two sessions'}: ${sched.trace.join(' ')}`
    const bad = (k, w) => { ctx.violation(`${kind}:${k}:${p.n}:${q.n}`, `${how}: ${w}`) }
    const name = (b) => (b === null ? null : eq(b, CONT.A) ? 'A' : eq(b, CONT.B) ? 'B' : show(b))
    const out = {}
    for (const t of tasks) if (!t.ok && t.err?.name !== 'NotFoundError') return bad('error', `${t.name} rejected: ${t.err?.name} ${t.err?.message}`)
    try {
      for (const k of keys) { const [r0, rest] = k.split('/'), [s, l] = rest.split('@'); out[k] = name(l ? await C1.blob(r0).getVersion(s, l) : await C1.blob(r0).get(s)) }
    } catch (e) { return bad('read', `reading back rejected: ${e.name} ${e.message}`) }
    const res = Object.fromEntries(tasks.map((t) => [t.name.split('#')[0], t.ok ? 'ok' : 'NotFound']))
    if (!outcomes.some((o) => keys.every((k) => (o.m[k] ?? null) === out[k]) && Object.keys(res).every((k) => o.res[k] === res[k]))) return bad('order', `ended with ${canon(out)} results ${canon(res)}; in sequence: ${outcomes.map((o) => canon(o.m)).join(' or ')}`)
    const want = { A: 0, B: 0 }
    for (const x of Object.values(out)) if (x) want[x]++
    const rc = await counts(C1)
    if (!same(rc, want)) return bad('refcount', `reference counts ${canon(rc)}, references ${canon(want)}`)
    ctx.state(canon([out, rc]))
  }, { maxExec: 40000 })
  if (!r.complete) ctx.capped(`race ${p.n} ${q.n}`)
}

async function crash(u, ctx, nb) {
  const o = OPS[u.crash]
  const start = u.warm ? [0, 3, 6, 9, 13] : []
  resetWorld(1)
  const seed = new Data()
  { const { v } = await openVault(nb, seed); const C = v.collection('docs'); for (const r of ['a', 'b', 'probe']) await C.put(r, { id: r }); await counts(C); await C.blob('probe').delete('A'); await C.blob('probe').delete('B'); for (const i of start) await attempt(() => apply(C, OPS[i])) }
  let m0 = START
  for (const i of start) m0 = step(m0, OPS[i]) ?? m0
  const m1 = step(m0, o) ?? m0
  const snap = seed.snapshot()
  await exploreAll(async (ch) => {
    resetWorld(1)
    const data = new Data(); data.restore(snap)
    const sched = new Sched(nb.hub, ch, { preempt: 0, faults: 1, faultKinds: ['before', 'after', 'crash', 'crash-after'], faultable: (op) => op.method === 'put' || op.method === 'delete' })
    const st = sched.store(data, 's'), plain = plainStore(nb.hub, data), gate = { on: false }, sw = { name: 'sw' }
    for (const m of Object.keys(st)) if (typeof st[m] === 'function') sw[m] = (...a) => (gate.on ? st[m](...a) : plain[m](...a))
    const C = (await (await openDb(nb, sw)).openVault('V')).collection('docs')
    await C.get('a')
    gate.on = true
    ctx.exec()
    const [t] = await sched.run([['op', () => apply(C, o)]], { stuckOk: true })
    gate.on = false
    ctx.trans(sched.transitions)
    const how = `${start.map((i) => label(OPS[i])).join(', ')} then ${label(o)}: ${sched.trace.join(' ')}`
    const C2 = (await (await openDb(nb, plain)).openVault('V')).collection('docs')
    let ob
    try { ob = await observe(C2) } catch (e) { return ctx.violation('crash:read', `${how}: reading rejected: ${e.name} ${e.message}`) }
    const is = (m) => same(ob.s, m.s) && same(ob.v, m.v)
    if (!is(m0) && !is(m1)) return ctx.violation(`crash:state:${o.op}`, `${how}: slots ${canon(ob.s)} versions ${canon(ob.v)}, expected ${canon(m0)} or ${canon(m1)}`)
    if (t.done && t.ok && !is(m1)) return ctx.violation(`crash:ack:${o.op}`, `${how}: reported success but slots are ${canon(ob.s)}, versions ${canon(ob.v)}`)
    const rc = await counts(C2), want = refs({ s: ob.s, v: ob.v })
    if (rc.A < want.A || rc.B < want.B) ctx.violation(`crash:refcount:${o.op}`, `${how}: reference counts ${canon(rc)} are below the references ${canon(want)}`)
    // and the operation can be repeated
    if (m1 !== m0) {
      const r = await attempt(() => apply(C2, o))
      const o2 = await observe(C2)
      if (!r.ok || !same(o2.s, m1.s) || !same(o2.v, m1.v)) ctx.violation(`crash:repeat:${o.op}`, `${how}: repeating gives ${errName(r)} ${canon(o2.s)} ${canon(o2.v)}`)
    }
  })
}

async function retention(u, ctx, nb) {
  const retainDays = RETAIN[u.retain]
  for (const [pname, evictWhen] of Object.entries(PRED)) for (const lazy of [false, true]) for (const encrypt of [true, false]) for (const other of [false, true]) {
    if (other && !encrypt) continue
    resetWorld(1)
    const data = new Data()
    const { v } = await openVault(nb, data, { encrypt })
    const fields = { f: { ...(retainDays !== undefined && { retainDays }), ...(evictWhen && { evictWhen }) }, ...(other && { g: { retainDays: 2 } }) }
    const C = v.collection('docs', { blobFields: fields, ...(lazy ? { prefetch: false, cache: { maxRecords: 10 }, indexes: ['done'] } : {}) })
    const N = v.collection('plain'); await N.put('n', { id: 'n', done: true }); await N.blob('n').put('f', CONT.A)
    for (const r of ['a', 'b']) { await C.put(r, { id: r, done: r === 'b' }); await C.blob(r).put('f', CONT.A); await C.blob(r).put('g', CONT.B) }
    await C.blob('a').publish('f', 'kept')
    const t0 = Date.parse((await C.blob('a').list())[0].uploadedAt)
    const up = {}
    for (const r of ['a', 'b']) for (const s of await C.blob(r).list()) up[`${r}/${s.name}`] = { at: Date.parse(s.uploadedAt), eTag: s.eTag }
    const seed = data.snapshot()
    for (const age of AGES) for (const dryRun of [false, true]) for (const max of [undefined, 0, 1, 2]) {
      data.restore(seed)
      ctx.exec(); ctx.trans()
      const now = new Date(t0 + age)
      const how = `retainDays ${retainDays}, predicate ${pname}${other ? ', second field' : ''}, age ${age} ms, dryRun ${dryRun}, maxEvictions ${max}${lazy ? ', lazy' : ''}`
      const due = []
      for (const r of ['a', 'b']) for (const s of ['f', 'g']) {
        const f = fields[s]
        if (!f) continue
        const ttl = f.retainDays > 0 && now.getTime() - up[`${r}/${s}`].at > f.retainDays * DAY
        let pr = false
        try { pr = f.evictWhen ? f.evictWhen({ id: r, done: r === 'b' }) : false } catch { pr = false }
        if (ttl || pr) due.push({ r, s, reason: ttl && pr ? 'both' : ttl ? 'ttl' : 'predicate' })
      }
      const res = await v.compact({ now, ...(dryRun && { dryRun }), ...(max !== undefined && { maxEvictions: max }) })
      const n = Math.min(due.length, max ?? Infinity)
      const bad = (k, w) => ctx.violation(`retain:${k}`, `${how}: ${w}`)
      if (res.evicted !== n || res.auditEntries !== (dryRun ? 0 : n) || res.collections !== 1) bad('result', `reports ${canon(res)}, ${n} are due`)
      const gone = []
      for (const r of ['a', 'b']) for (const s of ['f', 'g']) { const b = await C.blob(r).get(s); if (b === null) gone.push(`${r}/${s}`); else if (!eq(b, s === 'f' ? CONT.A : CONT.B)) bad('bytes', `${r}/${s} reads ${show(b)}`) }
      const dueKeys = due.map((d) => `${d.r}/${d.s}`)
      if (gone.length !== (dryRun ? 0 : n) || gone.some((g) => !dueKeys.includes(g))) bad('evicted', `${canon(gone)} are gone, due are ${canon(dueKeys)}`)
      if (!eq(await C.blob('a').getVersion('f', 'kept'), CONT.A)) bad('version', 'the published version is gone')
      if (!eq(await N.blob('n').get('f'), CONT.A)) bad('policy', 'a collection without a policy lost a blob')
      const audit = data.ids('V', '_blob_eviction_audit').map((id) => data.get('V', '_blob_eviction_audit', id))
      if (audit.length !== (dryRun ? 0 : n)) bad('audit', `${audit.length} audit entries for ${n} evictions`)
      if (!encrypt) for (const e of audit) {
        const x = JSON.parse(e._data), d = due.find((y) => y.r === x.recordId && y.s === x.slotName)
        if (!d || !gone.includes(`${x.recordId}/${x.slotName}`) || x.reason !== d.reason || x.collection !== 'docs' || x.actor !== 'owner' || x.blobHash !== up[`${d.r}/${d.s}`].eTag || x.evictedAt !== now.toISOString()) bad('audit', `audit entry ${canon(x)}`)
      }
      const want = { A: 2 + 2 - gone.filter((g) => g.endsWith('f')).length, B: 2 - gone.filter((g) => g.endsWith('g')).length }
      await N.blob('n').put('pa', CONT.A); await N.blob('n').put('pb', CONT.B)
      const rc = { A: (await N.blob('n').blobInfo('pa')).refCount - 1, B: (await N.blob('n').blobInfo('pb')).refCount - 1 }
      if (!same(rc, want)) bad('refcount', `reference counts ${canon(rc)}, expected ${canon(want)}`)
    }
  }
}

async function exporting(u, ctx, nb) {
  for (const lazy of [false, true]) for (const encrypt of [true, false]) {
    resetWorld(1)
    const data = new Data()
    const { db, v } = await openVault(nb, data, { encrypt })
    const D1 = v.collection('docs', lazy ? { prefetch: false, cache: { maxRecords: 4 }, indexes: ['k'] } : {}), D2 = v.collection('other')
    const truth = []
    const add = async (name, C, id, rec, slots) => { await C.put(id, rec); for (const [s, b] of Object.entries(slots)) { await C.blob(id).put(s, b); truth.push({ c: name, id, s, b, k: rec.k }) } }
    await add('docs', D1, 'a', { id: 'a', k: 1 }, { f: CONT.A, g: CONT.B })
    await add('docs', D1, 'noid', { k: 2 }, { f: enc.encode('noid') })
    await add('docs', D1, 'wrongid', { id: 'a', k: 2 }, { f: enc.encode('wrong') })
    await add('other', D2, 'z', { id: 'z', k: 1 }, { f: enc.encode('zzz') })
    await D2.put('empty', { id: 'empty', k: 1 })
    if (encrypt) await db.grant('V', { userId: 'exp', displayName: 'exp', role: 'admin', passphrase: 'exp-pass-123456', exportCapability: { plaintext: ['blob'] } })
    const who = encrypt ? await (await openDb(nb, plainStore(nb.hub, data), { user: 'exp', secret: 'exp-pass-123456' })).openVault('V') : v
    if (lazy) who.collection('docs', { prefetch: false, cache: { maxRecords: 4 }, indexes: ['k'] })
    if (!encrypt) { const r = await attempt(async () => who.exportBlobs()); if (!r.ok) continue }
    const key = (x) => `${x.recordRef.collection}/${x.recordRef.id}/${x.recordRef.slot}`
    const collect = async (opt, stop = Infinity, mode = null) => {
      const h = who.exportBlobs(opt), out = []
      const r = await attempt(async () => { for await (const x of h) { out.push(x); if (out.length === stop) { if (mode === 'abort') h.abort(); else if (mode) mode.abort(); else break } } })
      return { out, r, h }
    }
    const all = await collect({})
    const bad = (k, w) => ctx.violation(`export:${k}`, `${lazy ? 'lazy' : 'eager'} ${encrypt ? 'encrypted' : 'plain'}: ${w}`)
    const match = (got, want, k, how) => {
      ctx.exec(); ctx.trans()
      const g = got.map(key).sort(), w = want.map((t) => `${t.c}/${t.id}/${t.s}`).sort()
      if (!same(g, w)) bad(k, `${how}: exported ${canon(g)}, expected ${canon(w)}`)
      for (const x of got) { const t = want.find((y) => `${y.c}/${y.id}/${y.s}` === key(x)); if (t && (!eq(x.bytes, t.b) || x.meta.size !== t.b.length || x.meta.filename !== t.s)) bad('bytes', `${how}: ${key(x)} has other bytes or metadata`) }
    }
    match(all.out, truth, 'all', 'everything')
    for (const cols of [['docs'], ['other'], ['docs', 'other'], [], ['nope']]) match((await collect({ collections: cols })).out, truth.filter((t) => cols.includes(t.c)), 'collections', `collections ${cols}`)
    for (const k of [1, 2, 3]) match((await collect({ where: (r) => r.k === k })).out, truth.filter((t) => t.k === k), 'where', `where k == ${k}`)
    match((await collect({ where: (r, c) => c.id === 'noid' })).out, truth.filter((t) => t.id === 'noid'), 'where', 'where id == noid')
    for (let i = 0; i < all.out.length; i++) {
      const rest = await collect({ afterBlobId: all.out[i].blobId })
      ctx.exec()
      if (!same(rest.out.map(key), all.out.slice(i + 1).map(key))) bad('resume', `resumed after ${i + 1}: ${canon(rest.out.map(key))}`)
    }
    for (let i = 1; i < all.out.length; i++) for (const how of ['abort', 'signal']) {
      const ac = new AbortController()
      const part = await collect(how === 'signal' ? { signal: ac.signal } : {}, i, how === 'signal' ? ac : 'abort')
      ctx.exec()
      if (part.out.length !== i) bad('abort', `${how} after ${i}: ${part.out.length} were exported`)
      if (part.r.ok || part.r.err?.name !== 'ExportBlobsAbortedError') bad('abort', `${how} after ${i} of ${all.out.length}: the iteration ended without an error`)
      if (!part.h.aborted) bad('abort', 'the handle does not report it was aborted')
    }
    const audit = () => data.ids('V', '_export_audit').length
    const before = audit(); await collect({}, 1); await collect({})
    if (audit() !== before + 2) bad('audit', `${audit() - before} audit entries for two exports`)
  }
  // without the capability nothing is exported
  const data = new Data()
  const { db, v } = await openVault(nb, data)
  await v.collection('docs').put('a', { id: 'a' }); await v.collection('docs').blob('a').put('f', CONT.A)
  for (const role of ['owner', 'admin', 'operator', 'viewer', 'client']) {
    ctx.exec()
    let w = v
    if (role !== 'owner') { await db.grant('V', { userId: role, displayName: role, role, passphrase: `${role}-pass-123456`, permissions: { docs: role === 'operator' ? 'rw' : 'ro' } }); w = await (await openDb(nb, plainStore(nb.hub, data), { user: role, secret: `${role}-pass-123456` })).openVault('V') }
    const got = []
    const r = await attempt(async () => { for await (const x of w.exportBlobs()) got.push(x) })
    if (r.ok || got.length) ctx.violation('export:gate', `${role} without the capability exported ${got.length} blobs`)
  }
}

async function tamper(u, ctx, nb) {
  const data = new Data()
  const { v } = await openVault(nb, data)
  const C = v.collection('docs')
  const big = [content('text', 10), content('zeros', 10)]
  await C.put('a', { id: 'a' })
  await C.blob('a').put('f', big[0], { compress: false, chunkSize: 4 }); await C.blob('a').put('g', big[1], { compress: false, chunkSize: 4 })
  await C.blob('a').put('h', content('pdf', 10), { compress: false, chunkSize: 2 })
  const want = { f: big[0], g: big[1], h: content('pdf', 10) }
  const snap = data.snapshot()
  const look = async (how) => {
    ctx.exec(); ctx.trans()
    for (const s of ['f', 'g', 'h']) {
      const r = await attempt(() => C.blob('a').get(s))
      if (r.ok && r.val !== null && !eq(r.val, want[s])) ctx.violation('tamper:read', `${how}: slot ${s} silently reads ${show(r.val)}`)
    }
  }
  for (const coll of ['_blob_chunks', '_blob_index']) {
    const ids = data.ids('V', coll)
    for (const x of ids) {
      for (const y of ids) if (x !== y) { data.restore(snap); data.coll('V', coll).set(x, data.get('V', coll, y)); await look(`${coll}: ${y} copied over ${x}`) }
      data.restore(snap); data.coll('V', coll).delete(x); await look(`${coll}: ${x} removed`)
      const e = data.get('V', coll, ids[0])
      for (const f of ['_iv', '_data']) { data.restore(snap); const o = data.get('V', coll, x); const s = o[f]; for (const pos of [0, s.length >> 1]) { data.restore(snap); data.coll('V', coll).set(x, { ...o, [f]: s.slice(0, pos) + (s[pos] === 'A' ? 'B' : 'A') + s.slice(pos + 1) }); await look(`${coll}: ${x} ${f} changed at ${pos}`) } }
      void e
    }
  }
}

async function doubleDelete(ctx, nb) {
  // deleting one published version twice at the same time
  resetWorld(1)
  const seed = new Data()
  { const { v } = await openVault(nb, seed); const C = v.collection('docs'); for (const r of ['a', 'probe']) await C.put(r, { id: r }); await C.blob('a').put('s', CONT.A, POPT); await C.blob('a').publish('s', 'v1') }
  const snap = seed.snapshot()
  await exploreAll(async (ch) => {
    resetWorld(1)
    const data = new Data(); data.restore(snap)
    const sched = new Sched(nb.hub, ch, { preempt: 2 })
    const st = sched.store(data, 's'), plain = plainStore(nb.hub, data), gate = { on: false }, sw = { name: 'sw' }
    for (const m of Object.keys(st)) if (typeof st[m] === 'function') sw[m] = (...a) => (gate.on ? st[m](...a) : plain[m](...a))
    const C = (await (await openDb(nb, sw)).openVault('V')).collection('docs')
    await C.get('a')
    gate.on = true
    ctx.exec()
    await sched.run([0, 1].map((i) => [`deleteVersion#${i}`, () => C.blob('a').deleteVersion('s', 'v1')]))
    gate.on = false
    ctx.trans(sched.transitions)
    const rc = (await C.blob('a').blobInfo('s')).refCount
    if (!eq(await C.blob('a').get('s'), CONT.A)) ctx.violation('twice:read', 'the slot does not read back')
    if (rc < 1) ctx.violation('twice:refcount', `${sched.trace.join(' ')}: the reference count is ${rc} though the slot still uses the blob`)
  })
}

async function badOptions(ctx, nb) {
  const data = new Data()
  const { v } = await openVault(nb, data)
  const C = v.collection('docs')
  await C.put('a', { id: 'a' })
  for (const chunkSize of [0, -1, -7, 0.5, 1.5, 2.5, NaN, Infinity, -Infinity, '3']) for (const size of [0, 1, 5, 10]) {
    ctx.exec(); ctx.trans()
    const bytes = content('text', size)
    bytes[size - 1] = Math.abs(Math.trunc(Number(chunkSize) || 0)) & 255
    const r = await attempt(() => C.blob('a').put(`f${chunkSize}`, bytes, { compress: false, chunkSize }))
    if (r.ok && !eq(await C.blob('a').get(`f${chunkSize}`), bytes)) ctx.violation('bad:chunkSize', `chunkSize ${chunkSize}, ${size} bytes: put succeeded but get returns ${show(await C.blob('a').get(`f${chunkSize}`))}`)
  }
}
