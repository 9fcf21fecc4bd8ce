// P35 — data leaves or enters a vault through the as-* packages only under a granted right.
import { resetWorld, settle } from '../lib/world.mjs'
import { canon, same, sequences } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'
import { FS } from '../lib/fakefs.mjs'
import { readZip } from '../lib/formats.mjs'

const FORMATS = ['csv', 'json', 'ndjson', 'xml', 'sql', 'xlsx', 'blob', 'zip']
const PERMS = { owner: {}, admin: {}, viewer: {}, operator: { pub: 'rw' }, client: { pub: 'ro' } }
const readsAll = (role) => role === 'owner' || role === 'admin' || role === 'viewer'
const readable = (role, c) => readsAll(role) || c === 'pub'
const COLLS = ['pub', 'sec']
const mark = (c) => `MARK-${c}-7f3a`
const fileMark = (c) => `FILE-${c}-91be`
const utf8 = (s) => new TextEncoder().encode(s)
const show = (x) => { const s = canon(x) ?? String(x); return s.length > 200 ? s.slice(0, 200) + '…' : s }

// ── the reference ───────────────────────────────────────────────────────────
const mayExport = (cap, fmt) => !!cap?.plaintext?.some((f) => f === '*' || f === fmt)
const mayBundle = (cap, role) => (cap?.bundle !== undefined ? cap.bundle : role === 'owner' || role === 'admin')
const mayImport = mayExport
const mayImportBundle = (cap) => cap?.bundle === true

// ── a vault with two collections, each with a record and an attachment ──────
let BASE = null
async function base(nb, encrypt = true) {
  if (encrypt && BASE) return BASE.clone()
  const data = new Data()
  const db = await openDb(nb, plainStore(nb.hub, data), { user: 'owner', encrypt, except: ['history'] })
  const v = await db.openVault('V')
  for (const c of COLLS) { await v.collection(c).put('r1', { id: 'r1', text: mark(c) }); await v.collection(c).blob('r1').put('f', utf8(fileMark(c)), { compress: false }) }
  if (encrypt) BASE = data
  return data.clone()
}
const owner = (nb, data, o) => openDb(nb, plainStore(nb.hub, data), { user: 'owner', except: ['history'], ...o })
const grantOf = (role, exp, imp, extra) => ({ userId: 'u', displayName: 'U', role, passphrase: PASS, ...(readsAll(role) ? {} : { permissions: PERMS[role] }), ...(exp !== undefined ? { exportCapability: exp } : {}), ...(imp !== undefined ? { importCapability: imp } : {}), ...extra })
const openAs = async (nb, data, user = 'u', secret = PASS) => { const db = await openDb(nb, plainStore(nb.hub, data), { user, secret, except: ['history'] }); return { db, v: await db.openVault('V') } }

// ── every way out and in ────────────────────────────────────────────────────
const bin = (x) => Buffer.from(x)
/** run(nb, v, c, env, ack): performs the export; what it delivers is in env.out, or returned. */
const EXPORTS = {}
const exp = (name, fmt, run, ack = false) => { EXPORTS[name] = { fmt, run, ack } }
const page = async (env, thunk) => {
  const saved = { URL: globalThis.URL, document: globalThis.document }
  globalThis.URL = Object.assign(class extends saved.URL {}, { createObjectURL: (b) => { env.blobs.push(b); return 'blob:1' }, revokeObjectURL: () => {} })
  globalThis.document = { createElement: () => ({ click() { env.clicks++ } }) }
  try { return await thunk() } finally { globalThis.URL = saved.URL; if (saved.document === undefined) delete globalThis.document; else globalThis.document = saved.document }
}
const one = { csv: (c) => ({ collection: c }), xml: (c) => ({ collection: c }), json: (c) => ({ collections: [c] }), ndjson: (c) => ({ collections: [c] }), sql: (c) => ({ dialect: 'postgres', include: [c] }), xlsx: (c) => ({ sheets: [{ name: 's', collection: c }] }), zip: (c) => ({ records: { collection: c }, attachments: { collection: c } }), blob: (c) => ({ collection: c, id: 'r1', slot: 'f' }), noydb: () => ({}) }
for (const f of ['csv', 'json', 'ndjson', 'sql', 'xml', 'xlsx', 'zip', 'blob', 'noydb']) {
  const fmt = f === 'noydb' ? 'bundle' : f
  const main = ['xlsx', 'zip', 'blob', 'noydb'].includes(f) ? 'toBytes' : 'toString'
  exp(`${f}.${main}`, fmt, async (nb, v, c) => { const r = await nb[f][main](v, one[f](c)); return f === 'blob' ? r.bytes : r })
  exp(`${f}.download`, fmt, (nb, v, c, env) => page(env, () => nb[f].download(v, one[f](c))))
  if (f !== 'ndjson') exp(`${f}.write`, fmt, (nb, v, c, env, ack) => nb[f].write(v, '/out', { ...one[f](c), ...ack }), f !== 'noydb')
}
exp('json.toObject', 'json', async (nb, v, c) => JSON.stringify(await nb.json.toObject(v, one.json(c))))
exp('json.toString(all)', 'json', (nb, v) => nb.json.toString(v))
exp('ndjson.toString(all)', 'ndjson', (nb, v) => nb.ndjson.toString(v))
exp('sql.toString(all)', 'sql', (nb, v) => nb.sql.toString(v, { dialect: 'sqlite' }))
exp('ndjson.stream', 'ndjson', async (nb, v, c) => { const o = []; for await (const l of nb.ndjson.stream(v, one.ndjson(c))) o.push(l); return o.join('\n') })
exp('ndjson.pipe', 'ndjson', (nb, v, c, env, ack) => nb.ndjson.pipe(v, { write: (x) => env.sink.push(x), end: () => {} }, { ...one.ndjson(c), ...ack }), true)
exp('xlsx.toBytesFromCollection', 'xlsx', (nb, v, c) => nb.xlsx.toBytesFromCollection(v, c))
exp('vault.exportBlobs', 'blob', async (nb, v, c) => { const o = []; for await (const b of v.exportBlobs({ collections: [c] })) o.push(bin(b.bytes).toString('latin1')); return o.join('\n') })
exp('vault.exportBlobs(all)', 'blob', async (nb, v) => { const o = []; for await (const b of v.exportBlobs()) o.push(bin(b.bytes).toString('latin1')); return o.join('\n') })

const SAMPLE = {}
async function samples(nb) {
  if (SAMPLE.csv) return SAMPLE
  const data = await base(nb)
  await (await owner(nb, data)).grant('V', grantOf('owner', { plaintext: ['*'] }))
  const { v } = await openAs(nb, data)
  await v.collection('pub').put('r1', { id: 'r1', text: 'IMPORTED' })
  SAMPLE.xlsx = await nb.xlsx.toBytes(v, one.xlsx('pub'))
  SAMPLE.zip = await nb.zip.toBytes(v, { records: { collection: 'pub' } })
  SAMPLE.xml = await nb.xml.toString(v, one.xml('pub'))
  SAMPLE.ndjson = await nb.ndjson.toString(v, one.ndjson('pub'))
  SAMPLE.json = await nb.json.toString(v, one.json('pub'))
  SAMPLE.csv = await nb.csv.toString(v, one.csv('pub'))
  return SAMPLE
}
const IMPORTS = {
  'csv.fromString': ['csv', (nb, v, bad) => nb.csv.fromString(v, bad ? '"' : SAMPLE.csv, { collection: 'pub' })],
  'json.fromString': ['json', (nb, v, bad) => nb.json.fromString(v, bad ? '{' : SAMPLE.json)],
  'json.fromObject': ['json', (nb, v, bad) => nb.json.fromObject(v, bad ? null : JSON.parse(SAMPLE.json))],
  'ndjson.fromString': ['ndjson', (nb, v, bad) => nb.ndjson.fromString(v, bad ? '{' : SAMPLE.ndjson, { collection: 'pub' })],
  'xml.fromString': ['xml', (nb, v, bad) => nb.xml.fromString(v, bad ? '<' : SAMPLE.xml, { collection: 'pub' })],
  'xlsx.fromBytes': ['xlsx', (nb, v, bad) => nb.xlsx.fromBytes(v, bad ? new Uint8Array(3) : SAMPLE.xlsx, { collection: 'pub' })],
  'zip.fromBytes': ['zip', (nb, v, bad) => nb.zip.fromBytes(v, bad ? new Uint8Array(3) : SAMPLE.zip, { collection: 'pub' })],
  'blob.fromBytes': ['blob', (nb, v, bad) => nb.blob.fromBytes(v, utf8('IMPORTED'), { collection: 'pub', id: bad ? '_x' : 'r1', slot: 'f' })],
}
const contents = (x) => {
  if (x === undefined || x === null) return ''
  if (typeof x === 'string') return x
  const b = bin(x)
  if (b.length > 4 && b.readUInt32LE(0) === 0x04034b50) { try { return [...readZip(new Uint8Array(b))].map(([n, y]) => n + bin(y).toString('utf8')).join('\n') } catch {} }
  return b.toString('latin1')
}

// ── which standing may do what ──────────────────────────────────────────────
const ACKS = [[undefined, {}], [false, { acknowledgeRisks: false }], [1, { acknowledgeRisks: 1 }], ['true', { acknowledgeRisks: 'true' }], [{}, { acknowledgeRisks: {} }], [true, { acknowledgeRisks: true }]]
async function unitGate(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  await samples(nb)
  const encrypt = u.role !== 'plain', role = encrypt ? u.role : 'owner'
  const data = await base(nb, encrypt)
  let v
  if (encrypt) { await (await owner(nb, data)).grant('V', grantOf(role, u.exp, u.imp)); v = (await openAs(nb, data)).v } else v = await (await owner(nb, data, { encrypt: false })).openVault('V')
  const who = `${u.role} with export ${show(u.exp ?? null)}, import ${show(u.imp ?? null)}`
  const say = (k, what) => ctx.violation(`gate:${k}`, `${who}: ${what}`, u)
  // What the vault says about itself, and what the helpers say about the value.
  for (const f of FORMATS) {
    const e = mayExport(u.exp, f), i = mayImport(u.imp, f)
    if (v.canExport('plaintext', f) !== e || nb.hub.evaluateExportCapability(u.exp, role, 'plaintext', f) !== e || (await attempt(() => v.assertCanExport('plaintext', f))).ok !== e) say('can', `export as ${f} is reported as ${e ? 'refused' : 'allowed'}`)
    if (v.canImport('plaintext', f) !== i || nb.hub.evaluateImportCapability(u.imp, role, 'plaintext', f) !== i || (await attempt(() => v.assertCanImport('plaintext', f))).ok !== i) say('can', `import of ${f} is reported as ${i ? 'refused' : 'allowed'}`)
  }
  const b = mayBundle(u.exp, role), ib = mayImportBundle(u.imp)
  if (v.canExport('bundle') !== b || nb.hub.evaluateExportCapability(u.exp, role, 'bundle') !== b || (await attempt(() => v.assertCanExport('bundle'))).ok !== b) say('can', `bundle export is reported as ${b ? 'refused' : 'allowed'}`)
  if (v.canImport('bundle') !== ib || nb.hub.evaluateImportCapability(u.imp, role, 'bundle') !== ib || (await attempt(() => v.assertCanImport('bundle'))).ok !== ib) say('can', `bundle import is reported as ${ib ? 'refused' : 'allowed'}`)
  // Every way out.
  for (const [name, x] of Object.entries(EXPORTS)) for (const c of name.includes('(all)') || x.fmt === 'bundle' ? ['*'] : COLLS) {
    const allowed = x.fmt === 'bundle' ? b : mayExport(u.exp, x.fmt)
    for (const [ackName, ack] of x.ack ? ACKS : [[true, {}]]) {
      ctx.exec()
      FS.reset()
      const env = { blobs: [], clicks: 0, sink: [] }
      const r = await attempt(() => settle(() => x.run(nb, v, c, env, ack)))
      const blobs = []
      for (const y of env.blobs) blobs.push(contents(new Uint8Array(await y.arrayBuffer())))
      const files = [...FS.files.values()].map((f) => contents(f.data))
      const out = [r.ok ? contents(r.val) : '', ...blobs, ...files, env.sink.join('')].join('\n')
      const delivered = env.blobs.length || env.clicks || FS.files.size || env.sink.length || (r.ok && r.val !== undefined)
      ctx.state(canon([name, c, allowed, ackName, u.role]))
      const label = `${name} of ${c}${x.ack ? `, acknowledgeRisks ${show(ackName ?? null)}` : ''}`
      if (!allowed || ackName !== true) {
        if (r.ok || delivered) { say(`${name}:${allowed ? 'ack' : 'denied'}`, `${label} is carried out`); continue }
        if (!allowed && ackName === true && errName(r) !== 'EXPORT_CAPABILITY') say(`${name}:error`, `${label} is refused with ${errName(r)}`)
        if (errName(r) === 'EXPORT_CAPABILITY' && allowed) say(`${name}:error`, `${label} is refused with ${errName(r)}`)
        continue
      }
      if (x.fmt === 'bundle') {
        if (!r.ok) say(`${name}:allowed`, `${label} fails: ${r.err?.message}`)
        else if (COLLS.some((k) => out.includes(mark(k)) || out.includes(fileMark(k)))) say(`${name}:plain`, `${label} shows plaintext`)
        continue
      }
      const cs = c === '*' ? COLLS : [c]
      const want = cs.filter((k) => readable(role, k))
      if (want.length && !r.ok) { say(`${name}:allowed`, `${label} fails: ${r.err?.message}`); continue }
      const has = (k) => (x.fmt === 'blob' ? out.includes(fileMark(k)) : out.includes(mark(k)))
      for (const k of COLLS) {
        const expect = want.includes(k)
        if (expect ? !has(k) : out.includes(mark(k)) || out.includes(fileMark(k))) say(`${name}:scope`, `${label} ${expect ? 'lacks' : 'shows'} the data of ${k}`)
        if (expect && x.fmt === 'zip' && !out.includes(fileMark(k))) say(`${name}:scope`, `${label} lacks the attachment of ${k}`)
      }
      ctx.sample({ who: u.role, by: name, collection: c })
    }
  }
  // Every way in.
  for (const [name, [fmt, run]] of Object.entries(IMPORTS)) for (const bad of [false, true]) {
    const allowed = mayImport(u.imp, fmt)
    ctx.exec()
    const before = canon(data.snapshot())
    const r = await attempt(() => settle(() => run(nb, v, bad)))
    if (canon(data.snapshot()) !== before) say(`${name}:writes`, `${name} changes the store before apply()`)
    ctx.state(canon([name, allowed, bad, u.role]))
    if (!allowed) { if (r.ok || errName(r) !== 'IMPORT_CAPABILITY') say(`${name}:denied`, `${name}${bad ? ' of a malformed file' : ''} ${r.ok ? 'is carried out' : 'is refused with ' + errName(r)}`); continue }
    if (errName(r) === 'IMPORT_CAPABILITY' || (!bad && !r.ok)) say(`${name}:allowed`, `${name} fails: ${r.err?.message}`)
    if (bad || !r.ok) continue
    const writes = encrypt ? ['owner', 'admin', 'operator'].includes(role) : true
    const snap = data.snapshot()
    const a = await attempt(() => settle(() => r.val.apply()))
    if (a.ok !== writes) say(`${name}:apply`, `apply() after ${name} ${a.ok ? 'is carried out' : `fails: ${a.err?.message}`}`)
    if (!a.ok && canon(data.snapshot()) !== canon(snap)) say(`${name}:apply-trace`, `a refused apply() after ${name} changes the store`)
    // The data as before for the next import.
    data.restore(snap)
    v = encrypt ? (await openAs(nb, data)).v : await (await owner(nb, data, { encrypt: false })).openVault('V')
  }
}

// ── a right stays exactly as granted until it is granted anew ───────────────
const CAPS = [[undefined, undefined], [{ plaintext: ['csv'], bundle: false }, { plaintext: ['*'] }], [{ plaintext: ['*'], bundle: true }, { plaintext: ['json'], bundle: true }]]
const rights = (nb, role, cap) => [FORMATS.map((f) => mayExport(cap[0], f)), mayBundle(cap[0], role), FORMATS.map((f) => mayImport(cap[1], f)), mayImportBundle(cap[1])]
const rightsOf = (can, canImp) => [FORMATS.map((f) => can('plaintext', f)), can('bundle'), FORMATS.map((f) => canImp('plaintext', f)), canImp('bundle')]
const OPS = ['secret', 'rotate', 'revokeOther', 'regrant0', 'regrant1', 'regrant2', 'dumpload', 'bundle', 'newColl', 'tier']
async function unitHistory(u, ctx) {
  const { nb } = ctx
  const start = await (async () => { resetWorld(1); const d = await base(nb); await (await owner(nb, d)).grant('V', grantOf(u.role, ...CAPS[u.cap])); return d })()
  for (let len = u.len; len <= u.len; len++) for (const hist of sequences(OPS.length, len)) {
    const ops = hist.map((k) => OPS[k])
    if (ops[0] !== OPS[u.first]) continue
    resetWorld(1)
    let data = start.clone(), cap = CAPS[u.cap], secret = PASS, n = 0
    ctx.exec()
    const done = []
    for (const op of ops) {
      const r = await attempt(() => settle(async () => {
        const od = await owner(nb, data)
        const ov = await od.openVault('V')
        if (op === 'secret') { const { db } = await openAs(nb, data, 'u', secret); secret = 'another long secret ' + n++; await db.changeSecret('V', secret) }
        else if (op === 'rotate') await od.rotate('V', ['pub'])
        else if (op === 'revokeOther') { const id = 'x' + n++; await od.grant('V', { userId: id, displayName: 'X', role: 'operator', passphrase: PASS, permissions: { pub: 'rw' }, exportCapability: { plaintext: ['*'] }, importCapability: { plaintext: ['*'], bundle: true } }); await od.revoke('V', { userId: id, rotateKeys: true }) }
        else if (op.startsWith('regrant')) { cap = CAPS[+op.slice(7)]; secret = PASS; await od.grant('V', grantOf(u.role, ...cap)) }
        else if (op === 'dumpload') {
          const s = await ov.dump(), next = new Data()
          const nd = await owner(nb, next)
          const nv = await nd.openVault('V')
          await nv.load(s)
          data = next
        } else if (op === 'bundle') {
          const bytes = await nb.hub.writeNoydbBundle(ov, { recipients: [{ id: 'owner', passphrase: PASS, role: 'owner' }, { id: 'u', displayName: 'U', passphrase: PASS, role: u.role, ...(readsAll(u.role) ? {} : { permissions: PERMS[u.role] }), ...(cap[0] ? { exportCapability: cap[0] } : {}), ...(cap[1] ? { importCapability: cap[1] } : {}) }] })
          const { dumpJson } = await nb.hub.readNoydbBundle(bytes)
          const next = new Data()
          const nd = await owner(nb, next)
          await (await nd.openVault('V')).load(dumpJson)
          data = next; secret = PASS
        } else if (op === 'newColl') await ov.collection('extra' + n++).put('a', { id: 'a' })
        else await ov.collection('pub', { tiers: [0, 1] }).putAtTier('t' + n++, { id: 't' }, 1)
      }))
      done.push(op + (r.ok ? '' : ':' + errName(r)))
      if (!r.ok) { ctx.count('refused'); break }
      const o = await attempt(() => settle(() => openAs(nb, data, 'u', secret)))
      if (!o.ok) { ctx.violation('history:open', `${u.role}: after ${done.join(', ')} the user cannot open the vault: ${o.err?.message}`, { role: u.role, cap: u.cap, ops }); break }
      const got = rightsOf((...a) => o.val.v.canExport(...a), (...a) => o.val.v.canImport(...a)), want = rights(nb, u.role, cap)
      ctx.trans?.(1)
      ctx.state(canon([u.role, done, got]))
      if (!same(got, want)) { ctx.violation('history:rights', `${u.role} granted ${show(cap)}: after ${done.join(', ')} may ${show(got)} instead of ${show(want)}`, { role: u.role, cap: u.cap, ops }); break }
    }
  }
}

// ── who can be seen to hold a right they were not given ─────────────────────
async function unitAudit(u, ctx) {
  const { nb } = ctx
  for (const role of Object.keys(PERMS)) for (const take of [0, 1, 2]) for (const abort of [false, true]) {
    resetWorld(1)
    const data = await base(nb)
    await (await owner(nb, data)).grant('V', grantOf(role, { plaintext: ['blob'] }))
    const { v } = await openAs(nb, data)
    ctx.exec()
    const before = data.ids('V', '_export_audit').length
    const handle = v.exportBlobs(u.where ? { where: () => false } : {})
    let n = 0, seen = 0
    const r = await attempt(() => settle(async () => {
      if (abort && take === 0) handle.abort()
      for await (const b of handle) { seen++; if (data.ids('V', '_export_audit').length === before) throw new Error('no audit entry'); void b; if (++n >= take) { if (abort) handle.abort(); else break } }
    }))
    ctx.state(canon([role, take, abort, u.where, seen]))
    if (!r.ok && r.err?.message === 'no audit entry') ctx.violation('audit:first', `an attachment is handed out before the export is recorded (${role})`, { role, take })
    else if (!r.ok && !abort) ctx.violation('audit:fails', `exportBlobs fails for ${role}: ${r.err?.message}`, { role, take })
    else if (data.ids('V', '_export_audit').length !== before + 1) ctx.violation('audit:count', `exportBlobs by ${role} leaves ${data.ids('V', '_export_audit').length - before} records`, { role, take, abort })
  }
}

const RUN = { gate: unitGate, history: unitHistory, audit: unitAudit }
export default {
  level: 'exhaustive within bounds, on the real keyring, vault and as-* code',
  technique: 'bounded exhaustive enumeration of roles, granted rights, export and import functions and key histories against a reference',
  bounds: (t) => `5 roles and an unencrypted vault × ${1 + 8 + 6} export rights × 5 import rights; ${Object.keys(EXPORTS).length} export functions × 2 collections × 6 acknowledgements; ${Object.keys(IMPORTS).length} import functions; key histories of length ${t === 'thorough' ? 4 : 3} over ${OPS.length} operations`,
  assumptions: ['the gate is asked through the as-* packages and exportBlobs; collection reads are governed by roles (P08)'],
  modules: { ...HUB, json: '@noy-db/as-json', ndjson: '@noy-db/as-ndjson', csv: '@noy-db/as-csv', xml: '@noy-db/as-xml', xlsx: '@noy-db/as-xlsx', zip: '@noy-db/as-zip', sql: '@noy-db/as-sql', blob: '@noy-db/as-blob', noydb: '@noy-db/as-noydb' },
  bundleOpts: { fakeFs: true },
  units(tier) {
    const us = []
    const exps = [undefined, {}, { plaintext: [] }, { plaintext: ['*'] }, { bundle: true }, { bundle: false }, { plaintext: ['*'], bundle: false }, ...FORMATS.map((f) => ({ plaintext: [f] }))]
    const imps = [undefined, {}, { plaintext: ['*'] }, { bundle: true }, { plaintext: ['csv', 'zip'] }]
    for (const role of Object.keys(PERMS)) {
      for (const e of exps) us.push({ kind: 'gate', role, ...(e ? { exp: e } : {}) })
      for (const i of imps.slice(1)) us.push({ kind: 'gate', role, imp: i })
      for (const f of FORMATS) us.push({ kind: 'gate', role, imp: { plaintext: [f] } })
      us.push({ kind: 'gate', role, exp: { plaintext: ['*'], bundle: true }, imp: { plaintext: ['*'], bundle: true } })
      for (const cap of [0, 1, 2]) for (let first = 0; first < OPS.length; first++) us.push({ kind: 'history', role, cap, first, len: tier === 'thorough' ? 4 : 3 })
    }
    us.push({ kind: 'gate', role: 'plain' }, { kind: 'audit' }, { kind: 'audit', where: true })
    return us
  },
  async runUnit(u, ctx) { await RUN[u.kind](u, ctx) },
}
