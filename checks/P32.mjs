// P32 — exports and imports carry every record exactly, whatever the format.
import { createRequire } from 'node:module'
import { resetWorld, real, settle } from '../lib/world.mjs'
import { canon, same, subsets } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'
import { FS } from '../lib/fakefs.mjs'
import { readCsv, readXml, readZip, readSheets, readSql, unzipText } from '../lib/formats.mjs'
const { DatabaseSync } = createRequire(import.meta.url)('node:sqlite')

const clone = (x) => JSON.parse(JSON.stringify(x))
const own = (o, k) => (Object.hasOwn(o, k) ? o[k] : undefined)
const show = (x) => { const s = typeof x === 'string' ? x : canon(x) ?? String(x); return s.length > 300 ? s.slice(0, 300) + '…' : s }

// ── a vault with someone who may export and import ──────────────────────────
let BASE = null
async function base(nb) {
  if (BASE) return BASE.clone()
  const data = new Data()
  const db = await openDb(nb, plainStore(nb.hub, data), { user: 'owner', except: ['history'] })
  const v = await db.openVault('V')
  for (const c of ['items', 'people']) { await v.collection(c).put('seed', { id: 'seed' }); await v.collection(c).blob('seed').put('s', new Uint8Array([1])); await v.collection(c).blob('seed').delete('s'); await v.collection(c).delete('seed') }
  await db.grant('V', { userId: 'exp', displayName: 'Exp', role: 'admin', passphrase: PASS, exportCapability: { plaintext: ['*'] }, importCapability: { plaintext: ['*'] } })
  BASE = data
  return BASE.clone()
}
const open = async (nb, data, store) => (await openDb(nb, store ?? plainStore(nb.hub, data), { user: 'exp', except: ['history'] })).openVault('V')
async function fill(nb, colls) {
  const data = await base(nb)
  const v = await open(nb, data)
  for (const [c, recs] of Object.entries(colls)) for (const r of recs) await v.collection(c).put(r.id ?? r.key, r)
  return { data, v }
}
async function all(v, c) { return Object.fromEntries((await v.collection(c).list()).map((r) => [r.id, r])) }

// ── formats ─────────────────────────────────────────────────────────────────
const text = (v) => (v === null || v === undefined ? '' : typeof v === 'string' ? v : typeof v === 'object' ? JSON.stringify(v) : String(v))
const byId = (rs, what) => { const m = new Map(); for (const r of rs) { if (m.has(r.id)) throw new Error(`${what}: record ${r.id} twice`); m.set(r.id, r) } return m }
const XT = { n: 'number', ok: 'boolean' }
const xmlRecords = (src, fieldsOf = (k) => k.name) => readXml(src).kids.map((r) => {
  const o = {}
  for (const k of r.kids) { if (k.kids.length) throw new Error('nested element'); const f = fieldsOf(k); if (Object.hasOwn(o, f)) throw new Error('element twice: ' + f); o[f] = k.text }
  return o
})
const csvRecords = (src, eol) => { const [h, ...rows] = src === '' ? [[]] : readCsv(src, eol); return rows.map((r) => { if (r.length !== h.length) throw new Error('row width'); return Object.fromEntries(h.map((n, i) => [n, r[i]])) }) }
const sheetRecords = (sh) => { const [h = [], ...rows] = sh.rows; return rows.map((r) => Object.fromEntries(h.map((n, i) => [n, r[i]]).filter(([, x]) => x !== undefined))) }
/** image(record, allFields) is what a faithful file says about the record; null: not held. */
const F = {
  json: {
    out: (nb, v, c, o) => nb.json.toString(v, { collections: [c], ...o }), read: (a, c) => JSON.parse(a)[c] ?? [], image: (r) => r,
    imp: (nb, v, a, c, o) => nb.json.fromString(v, a, { collections: [c], ...o }), back: (r) => r, ext: 'json', dl: 'vault-export.json', dlOpts: (c) => ({ collections: [c] }),
  },
  ndjson: {
    out: (nb, v, c, o) => nb.ndjson.toString(v, { collections: [c], ...o }), image: (r) => r,
    read: (a, c) => a.split('\n').filter(Boolean).map((l) => { const { _schema, ...r } = JSON.parse(l); if (_schema !== c) throw new Error('line routed to ' + _schema); return r }),
    imp: (nb, v, a, c, o) => nb.ndjson.fromString(v, a, { collection: c, ...o }), back: (r) => r, dl: 'vault-export.ndjson', dlOpts: (c) => ({ collections: [c] }), tail: '\n', noWrite: true,
  },
  csv: {
    out: (nb, v, c, o) => nb.csv.toString(v, { collection: c, ...o }), read: (a, c, o) => csvRecords(a, o?.eol), image: (r, f) => Object.fromEntries(f.map((k) => [k, text(own(r, k))])),
    imp: (nb, v, a, c, o) => nb.csv.fromString(v, a, { collection: c, columnTypes: XT, ...o }), back: (r) => r, dl: 'items.csv', dlOpts: (c) => ({ collection: c }),
  },
  xml: {
    out: (nb, v, c, o) => nb.xml.toString(v, { collection: c, ...o }), read: (a) => xmlRecords(a), image: (r) => Object.fromEntries(Object.entries(r).map(([k, x]) => [k, text(x)])),
    imp: (nb, v, a, c, o) => nb.xml.fromString(v, a, { collection: c, fieldTypes: XT, ...o }), back: (r) => r, dl: 'items.xml', dlOpts: (c) => ({ collection: c }),
  },
  xlsx: {
    out: (nb, v, c, o) => nb.xlsx.toBytes(v, { sheets: [{ name: c, collection: c }], ...o }), read: (a) => sheetRecords(readSheets(a)[0]),
    image: (r) => Object.fromEntries(Object.entries(r).filter(([, x]) => x !== null && x !== '').map(([k, x]) => [k, typeof x === 'object' ? JSON.stringify(x) : x])),
    imp: (nb, v, a, c, o) => nb.xlsx.fromBytes(v, a, { collection: c, ...o }), back: (r) => Object.fromEntries(Object.entries(r).filter(([, x]) => x !== '')), dl: 'export.xlsx', dlOpts: (c) => ({ sheets: [{ name: c, collection: c }] }), bytes: true,
  },
  zip: {
    out: (nb, v, c, o) => nb.zip.toBytes(v, { records: { collection: c }, ...o }), image: (r) => r,
    read: (a, c, o) => {
      const z = readZip(a, o?.password), m = JSON.parse(unzipText(z, 'manifest.json')), recs = JSON.parse(unzipText(z, 'records.json'))
      if (m._noydb_archive !== 1 || m.collection !== c || m.recordCount !== recs.length || !same(m.records.map((r) => r.id), recs.map((r) => r._id))) throw new Error('manifest does not describe the records: ' + show(m))
      return recs.map(({ _id, ...r }) => { if (r.id !== _id) throw new Error('_id ' + _id); return r })
    },
    imp: (nb, v, a, c, o) => nb.zip.fromBytes(v, a, { collection: c, ...o }), back: (r) => r, dl: 'items.zip', dlOpts: (c) => ({ records: { collection: c } }), bytes: true,
  },
}
for (const d of ['postgres', 'mysql', 'sqlite']) F['sql:' + d] = { sql: d, out: (nb, v, c, o) => nb.sql.toString(v, { dialect: d, include: [c], ...o }), dl: 'vault-export.sql', dlOpts: (c) => ({ dialect: d, include: [c] }), mod: 'sql' }
const IMPORTS = ['json', 'ndjson', 'csv', 'xml', 'xlsx', 'zip']
const mod = (nb, f) => nb[F[f].mod ?? f]

// ── SQL oracle ──────────────────────────────────────────────────────────────
const INT = { INTEGER: [-(2 ** 31), 2 ** 31 - 1], BIGINT: [-(2 ** 63), 2 ** 63], 'TINYINT(1)': [0, 1] }
function sqlValueOk(d, col, lit, val) {
  const { type } = col
  if (val === null || val === undefined) return lit.kind === 'null' && !col.notNull ? null : 'a missing value'
  if (lit.kind === 'null') return 'NULL for a value'
  if (type === 'BOOLEAN') return lit.kind === 'bool' && lit.value === val ? null : 'boolean'
  if (type === 'TINYINT(1)') return lit.kind === 'num' && lit.value === (val ? 1 : 0) && typeof val === 'boolean' ? null : 'boolean'
  if (d === 'sqlite' && type === 'INTEGER' && typeof val === 'boolean') return lit.kind === 'num' && lit.value === (val ? 1 : 0) ? null : 'boolean'
  if (type === 'INTEGER' || type === 'BIGINT') {
    const [lo, hi] = d === 'sqlite' ? INT.BIGINT : INT[type]
    return lit.kind === 'num' && lit.int && lit.value === val && val >= lo && val <= hi ? null : 'integer column'
  }
  if (type === 'DOUBLE PRECISION' || type === 'DOUBLE' || (type === 'REAL' && d === 'sqlite')) return lit.kind === 'num' && lit.value === val ? null : 'number column'
  if (type === 'REAL') return Math.fround(val) === val && lit.value === val ? null : 'single-precision column'
  if (lit.kind !== 'text') return 'unquoted literal in a text column'
  if (type === 'JSONB' || type === 'JSON') { try { return same(JSON.parse(lit.value), val) ? null : 'JSON column' } catch { return 'JSON column' } }
  if (type === 'TIMESTAMPTZ' || type === 'DATETIME') return lit.value === val && !Number.isNaN(Date.parse(val)) ? null : 'timestamp column'
  return lit.value === text(val) ? null : 'text column'
}
function checkSql(d, dump, table, recs, say) {
  const t = readSql(dump, d)
  const T = t.get(table)
  if (!T || t.size !== 1) return say('tables', `the dump has tables ${[...t.keys()]}`)
  if (T.rows.length !== recs.length) return say('rows', `${T.rows.length} rows for ${recs.length} records`)
  const fields = new Set(recs.flatMap((r) => Object.keys(r)))
  if (!same([...fields].sort(), T.cols.map((c) => c.name).sort())) return say('columns', `columns ${T.cols.map((c) => c.name)} for fields ${[...fields]}`)
  for (const col of T.cols) {
    const lits = new Map(T.rows.map((r) => [r.id?.value, own(r, col.name)]))
    for (const r of recs) { const why = sqlValueOk(d, col, lits.get(r.id), own(r, col.name)); if (why) return say('value', `${why}: ${show(own(r, col.name) ?? null)} is written as ${show(lits.get(r.id))} in column ${col.name} ${col.type}${col.notNull ? ' NOT NULL' : ''}`) }
  }
  if (d === 'sqlite') {
    const db = new DatabaseSync(':memory:')
    try {
      db.exec(dump)
      const rows = db.prepare(`SELECT * FROM "${table.replaceAll('"', '""')}"`).all()
      const got = new Map(rows.map((r) => [r.id, r]))
      for (const r of recs) {
        for (const col of T.cols) {
          const want = own(r, col.name), g = own(got.get(r.id) ?? {}, col.name)
          const exp = want === null || want === undefined ? null : typeof want === 'boolean' && col.type === 'INTEGER' ? Number(want) : typeof want === 'number' && col.type !== 'TEXT' ? want : text(want)
          if (g !== exp) return say('loaded', `loading the dump gives ${show(g ?? null)} for ${show(want ?? null)} in ${col.name} ${col.type}`)
        }
      }
    } catch (e) { return say('load', `SQLite rejects the dump: ${e.message}`) } finally { db.close() }
  }
}

// ── inputs ──────────────────────────────────────────────────────────────────
const ALPHA = ['a', ',', '"', '\n', '\r', "'", '\\', '<', '&', ' ', ';']
function strings(len) { let cur = [''], out = ['']; for (let k = 0; k < len; k++) { cur = cur.flatMap((s) => ALPHA.map((c) => s + c)); out = out.concat(cur) } return out }
const WORDS = ['é', '日本語', '😀', ' ', '\u0085', '\t', ']]>', '<!--', '&amp;', '&#13;', '<![CDATA[x]]>', 'true', 'null', 'NaN', '1', '01', '1e5', '0x10', '-', '--', '/*', '\\n', "\\'", '$$', '%', '`', '=1+1', '﻿', '__proto__', 'constructor', '2026-01-01T00:00:00Z', '2026-13-45T99', '#text', '_x000D_']
const VALS = [undefined, null, '', 'a', ' a ', '1', 'true', '2026-01-01T00:00:00.000Z', '2026-01-01Tnoon', 0, 1, -1, 1.5, 0.1, 1e21, 1e-7, 2147483647, 2147483648, -2147483649, 9007199254740991, true, false, { a: 1 }, {}, [], [1, 'x', null], { q: "it's \\ \"q\"" }]
const cells = []
for (const a of VALS) for (const b of VALS) cells.push([a, b])

// ── units ───────────────────────────────────────────────────────────────────
const P = { merge: 1, replace: 1, 'insert-only': 1 }
const STATES = [null, 'x', 'y']
const rec = (id, s) => ({ id, s, n: s === 'x' ? 1 : 2, ok: s === 'x' })
const recsOf = (st) => Object.entries(st).filter(([, s]) => s).map(([id, s]) => rec(id, s))
const grid = () => STATES.flatMap((a) => STATES.map((b) => ({ a, b })))

async function unitStrings(u, ctx) {
  const { nb } = ctx
  const f = F[u.fmt]
  const list = [...(u.part === undefined ? strings(u.len) : strings(u.len).filter((s) => s.length === u.len && ALPHA.indexOf(s[0]) === u.part)), ...WORDS]
  const recs = list.map((s, i) => ({ id: `r${i}`, s, n: i, ok: i % 2 === 0 }))
  if (f.sql) recs.at(-1).late = 1.5
  resetWorld(1)
  const { data, v } = await fill(nb, { items: recs, people: [{ id: 'p', s: 'other' }] })
  for (const o of u.opts ?? [{}]) {
    ctx.exec()
    const tag = `${u.fmt}:strings${u.opts ? ':' + canon(o) : ''}`
    const say = (k, what, more) => ctx.violation(`${tag}:${k}`, `${u.fmt} export: ${what}`, { fmt: u.fmt, options: o, ...more })
    const r = await attempt(() => f.out(nb, v, 'items', o))
    if (!r.ok) { say('export', `fails with ${errName(r)} ${r.err?.message}`); continue }
    ctx.count('records', recs.length)
    if (f.sql) { const x = await attempt(() => checkSql(f.sql, r.val, 'items', recs, say)); if (!x.ok) say('malformed', x.err.message); continue }
    const dec = await attempt(() => byId(f.read(r.val, 'items', o), u.fmt))
    if (!dec.ok) { say('malformed', `the file is malformed: ${dec.err.message}`); continue }
    const fields = ['id', 's', 'n', 'ok']
    if (dec.val.size !== recs.length) say('count', `${dec.val.size} records for ${recs.length}`)
    for (const x of recs) { const w = f.image(x, fields); ctx.state(canon([u.fmt, x.s])); if (!same(dec.val.get(x.id), w)) { say('record', `record ${show(x)} reads back as ${show(dec.val.get(x.id) ?? null)}`, { record: x }); break } }
    // own import: nothing to do here; everything as it was in an empty vault
    const plan = await attempt(() => f.imp(nb, v, r.val, 'items', o.password ? { password: o.password } : {}))
    if (!plan.ok) { say('import', `importing its own export fails with ${plan.err?.message}`); continue }
    const changed = plan.val.plan.modified.filter((m) => !(u.fmt === 'xlsx' && m.before.s === ''))
    if (changed.length || plan.val.plan.added.length || plan.val.plan.deleted.length) say('idempotent', `importing the export into the same vault plans changes, e.g. ${show([...changed, ...plan.val.plan.added, ...plan.val.plan.deleted][0])}`)
    if (plan.val.policy !== 'merge') say('policy', `default policy ${plan.val.policy}`)
    const v2 = await open(nb, await base(nb))
    const p2 = await attempt(async () => { const p = await f.imp(nb, v2, r.val, 'items', o.password ? { password: o.password } : {}); await p.apply() })
    if (!p2.ok) { say('import2', `importing into an empty vault fails with ${p2.err?.message}`); continue }
    const got = await all(v2, 'items')
    for (const x of recs) if (!same(got[x.id], f.back(x))) { say('back', `record ${show(x)} comes back as ${show(got[x.id] ?? null)} after export and import`, { record: x }); break }
    if (Object.keys(got).length !== recs.length) say('back-count', `${Object.keys(got).length} records after importing ${recs.length}`)
    if ((await v2.collection('people').list()).length) say('other', 'the import wrote to another collection')
  }
}

/** n records of which single ones carry a field, a type or a size that the others lack. */
const crowd = (n) => Array.from({ length: n }, (_, i) => ({ id: `k${i}`, n: i, mix: i === n - 1 ? 1.5 : i, kind: i === n - 1 ? 'text' : 1, ...(i === n - 1 ? { late: 'x', big: 2 ** 40 } : { big: 1 }), ...(i === n >> 1 ? { mid: true } : {}), ...(i === 0 ? { early: '' } : {}) }))
async function unitValues(u, ctx) {
  const { nb } = ctx
  const f = F[u.fmt]
  resetWorld(1)
  const names = u.names ?? cells.map((_, i) => `f${i}`)
  const recs = u.crowd ? crowd(u.crowd) : ['a', 'b', 'c'].map((id, k) => {
    const r = { id }
    names.forEach((n, i) => { const val = k === 2 ? undefined : (u.names ? [1, 'x'] : cells[i])[k]; if (val !== undefined) r[n] = clone(val) })
    return r
  })
  const coll = u.coll ?? 'items'
  const data = await base(nb)
  const v = await open(nb, data)
  for (const r of recs) await v.collection(coll).put(r.id, r)
  ctx.exec()
  ctx.count('pairs', names.length)
  const say = (k, what) => ctx.violation(`${u.fmt}:values${u.tag ?? ''}:${k}`, `${u.fmt} export: ${what}`, { fmt: u.fmt, names: u.names ?? null, coll })
  const r = await attempt(() => f.out(nb, v, coll, {}))
  if (!r.ok) return say('export', `fails with ${r.err?.message}`)
  if (f.sql) { const x = await attempt(() => checkSql(f.sql, r.val, coll, recs, say)); if (!x.ok) say('malformed', x.err.message); return }
  const dec = await attempt(() => byId(f.read(r.val, coll, {}), u.fmt))
  if (!dec.ok) return say('malformed', `the file is malformed: ${dec.err.message}`)
  const fields = ['id', ...new Set(recs.flatMap((x) => Object.keys(x)))]
  for (const x of recs) {
    const w = f.image(x, [...new Set(fields)]), g = dec.val.get(x.id) ?? {}
    for (const k of new Set([...Object.keys(w), ...Object.keys(g)])) { ctx.state(canon([u.fmt, k, x.id])); if (!same(own(w, k), own(g, k))) return say('value', `field ${k} = ${show(own(x, k) ?? null)} reads back as ${show(own(g, k) ?? null)}`) }
  }
  if (['json', 'ndjson', 'zip'].includes(u.fmt)) {
    const p = await attempt(() => f.imp(nb, v, r.val, coll, {}))
    if (!p.ok) return say('import', p.err?.message)
    if (p.val.plan.summary.total) say('idempotent', `importing the export plans ${show(p.val.plan.modified[0]?.fieldDiffs ?? p.val.plan.summary)}`)
  } else {
    const p = await attempt(() => f.imp(nb, v, r.val, coll, {}))
    if (!p.ok) say('import', `importing the export fails: ${p.err?.message}`)
    else if (p.val.plan.added.length || p.val.plan.deleted.length) say('import-ids', 'importing the export adds or deletes records')
  }
}

/** Diff buckets for every pair of values, and the import that follows from them. */
async function unitDiff(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const live = [], file = []
  cells.forEach(([a, b], i) => { const l = { id: `k${i}`, z: 1 }, g = { id: `k${i}`, z: 1 }; if (a !== undefined) l.f = clone(a); if (b !== undefined) g.f = clone(b); live.push(l); file.push(g) })
  const { data, v } = await fill(nb, { items: live })
  const d = await nb.hub.diffVault(v, { items: clone(file) }, { includeUnchanged: u.unchanged })
  ctx.exec()
  const mod = new Map(d.modified.map((m) => [m.id, m]))
  if (d.added.length || d.deleted.length) ctx.violation('diff:ids', 'diffVault reports records present on both sides as added or deleted', {})
  if ((d.unchanged !== undefined) !== !!u.unchanged) ctx.violation('diff:unchanged', 'includeUnchanged is not honoured', {})
  for (let i = 0; i < live.length; i++) {
    const differ = !same(live[i], file[i]), m = mod.get(live[i].id)
    ctx.state(canon([live[i].f ?? 'absent', file[i].f ?? 'absent', differ]))
    if (differ !== !!m) { ctx.violation('diff:modified', `diffVault calls ${show(live[i])} → ${show(file[i])} ${m ? 'modified' : 'unchanged'}`, { live: live[i], file: file[i] }); break }
    if (m && (!same(m.before, live[i]) || !same(m.record, file[i]) || !same(m.fieldsChanged, ['f']))) { ctx.violation('diff:entry', `diffVault describes ${show(live[i])} → ${show(file[i])} as ${show(m)}`, {}); break }
    if (u.unchanged && d.unchanged.some((x) => x.id === live[i].id) === differ) { ctx.violation('diff:unchanged-list', `unchanged list wrong for ${show(live[i])}`, {}); break }
  }
  if (d.summary.modify !== d.modified.length || d.summary.total !== d.modified.length) ctx.violation('diff:summary', `summary ${show(d.summary)}`, {})
}

/** Every live state × file state × policy: the plan and what apply leaves. */
async function unitPolicy(u, ctx) {
  const { nb } = ctx
  const f = F[u.fmt]
  const idless = { s: 'no id', n: 9, ok: true }
  resetWorld(1)
  const files = new Map(), lives = new Map()
  for (const st of grid()) {
    const { data, v } = await fill(nb, { items: recsOf(st), people: [rec('p', 'x')] })
    files.set(canon(st), await f.out(nb, v, 'items', u.password ? { password: u.password } : {}))
    if (u.fmt !== 'zip') await v.collection('items').put('zz', idless)
    lives.set(canon(st), data)
  }
  for (const live of grid()) {
    for (const file of grid()) {
      ctx.exec()
      resetWorld(2)
      const data = lives.get(canon(live)).clone()
      const v = await open(nb, data)
      const label = `live ${canon(live)}, file ${canon(file)}, policy ${u.policy}`
      const say = (k, what) => ctx.violation(`${u.fmt}:policy:${u.policy}:${k}`, `${u.fmt} import, ${label}: ${what}`, { fmt: u.fmt, live, file, policy: u.policy })
      const p = await attempt(() => f.imp(nb, v, files.get(canon(file)), 'items', { ...(u.policy === 'default' ? {} : { policy: u.policy }), ...(u.password ? { password: u.password } : {}) }))
      if (!p.ok) { say('plan', `fails with ${p.err?.message}`); continue }
      const policy = u.policy === 'default' ? 'merge' : u.policy
      const ids = ['a', 'b']
      const want = { added: ids.filter((i) => !live[i] && file[i]), modified: ids.filter((i) => live[i] && file[i] && live[i] !== file[i]), deleted: ids.filter((i) => live[i] && !file[i]) }
      for (const k of Object.keys(want)) if (!same(p.val.plan[k].map((e) => e.id), want[k])) say('plan:' + k, `plans ${k} ${show(p.val.plan[k].map((e) => e.id))} instead of ${show(want[k])}`)
      if (!same(p.val.plan.summary, { add: want.added.length, modify: want.modified.length, delete: want.deleted.length, total: want.added.length + want.modified.length + want.deleted.length })) say('summary', `summary ${show(p.val.plan.summary)}`)
      // planning changes nothing
      if (!same(data.m, lives.get(canon(live)).m)) say('plan-writes', 'building the plan wrote to the store')
      const a = await attempt(() => p.val.apply())
      if (!a.ok) { say('apply', `apply fails with ${a.err?.message}`); continue }
      const exp = {}
      for (const i of ids) {
        const s = policy === 'insert-only' ? live[i] ?? file[i] : policy === 'replace' ? file[i] : file[i] ?? live[i]
        if (s) exp[i] = rec(i, s)
      }
      for (const [who, w] of [['same', v], ['fresh', await open(nb, data)]]) {
        const got = {}
        for (const id of [...ids, 'c']) { const r = await w.collection('items').get(id); if (r) got[id] = r }
        if (!same(got, exp)) say('result:' + who, `leaves ${show(got)} instead of ${show(exp)} (${who} session)`)
        if (u.fmt !== 'zip' && !same(await w.collection('items').get('zz'), idless)) say('idless', 'a record without an id was changed')
        if (!same(await all(w, 'people'), { p: rec('p', 'x') })) say('other', 'another collection was changed')
      }
      ctx.state(canon([u.fmt, live, file, policy, exp]))
      // doing it again
      if (policy !== 'insert-only') {
        const again = await attempt(() => f.imp(nb, v, files.get(canon(file)), 'items', { policy, ...(u.password ? { password: u.password } : {}) }))
        const s = again.ok && again.val.plan.summary
        if (!again.ok || s.add || s.modify || (policy === 'replace' && s.delete)) say('again', `a second import is not empty: ${again.ok ? show(s) : again.err?.message}`)
      }
    }
  }
}

/** JSON covers several collections: the same oracle without a collection filter. */
async function unitMulti(u, ctx) {
  const { nb } = ctx
  const sts = [null, 'x', 'y'].flatMap((a) => [null, 'x', 'y'].map((b) => ({ items: a, people: b })))
  resetWorld(1)
  const lives = new Map(), files = new Map()
  for (const st of sts) {
    const { data, v } = await fill(nb, Object.fromEntries(Object.entries(st).filter(([, s]) => s).map(([c, s]) => [c, [rec('a', s)]])))
    lives.set(canon(st), data)
    files.set(canon(st), await nb.json.toString(v, { pretty: false }))
  }
  for (const live of sts) for (const file of sts) for (const only of [undefined, ['items'], ['people'], ['items', 'people']]) {
    ctx.exec()
    resetWorld(2)
    const data = lives.get(canon(live)).clone()
    const v = await open(nb, data)
    const p = await attempt(async () => { const x = await nb.json.fromString(v, files.get(canon(file)), { policy: u.policy, ...(only ? { collections: only } : {}) }); await x.apply() })
    const exp = {}
    for (const c of ['items', 'people']) {
      const inScope = !only || only.includes(c), l = live[c], g = file[c]
      const s = !inScope ? l : u.policy === 'insert-only' ? l ?? g : u.policy === 'replace' ? g : g ?? l
      exp[c] = s ? { a: rec('a', s) } : {}
    }
    const w = await open(nb, data)
    const got = { items: await all(w, 'items'), people: await all(w, 'people') }
    ctx.state(canon([live, file, only ?? 0, u.policy]))
    if (!p.ok || !same(got, exp)) ctx.violation(`json:multi:${u.policy}`, `JSON import (${u.policy}, collections ${show(only ?? 'all')}) of ${canon(file)} over ${canon(live)} ${p.ok ? `leaves ${show(got)}` : `fails with ${p.err?.message}`}`, { live, file, only: only ?? null, policy: u.policy })
  }
}

/** A store failure at any call of apply leaves all of the import or none. */
async function unitFault(u, ctx) {
  const { nb } = ctx
  const f = F[u.fmt]
  resetWorld(1)
  const src = await fill(nb, { items: [rec('a', 'y'), rec('b', 'x'), rec('d', 'x')] })
  const artefact = await f.out(nb, src.v, 'items', {})
  const old = { a: rec('a', 'x'), c: rec('c', 'x'), e: rec('e', 'y') }
  const { data: base0 } = await fill(nb, { items: Object.values(old) })
  const neu = u.policy === 'replace' ? { a: rec('a', 'y'), b: rec('b', 'x'), d: rec('d', 'x') } : u.policy === 'merge' ? { ...old, a: rec('a', 'y'), b: rec('b', 'x'), d: rec('d', 'x') } : { ...old, b: rec('b', 'x'), d: rec('d', 'x') }
  let calls = 1
  for (let at = 0; at <= calls; at++) {
    ctx.exec()
    resetWorld(2)
    const data = base0.clone()
    let on = false, n = 0
    const store = hookedStore(nb.hub, data, async (m, args, doIt) => {
      if (on && (m === 'put' || m === 'delete')) { if (n++ === at) { throw new Error('store down') } }
      return doIt()
    })
    const v = await open(nb, data, store)
    const p = await f.imp(nb, v, artefact, 'items', { policy: u.policy })
    on = true
    const r = (await settle(() => attempt(() => p.apply())))
    on = false
    if (at === 0) calls = Math.max(calls, n, 6)
    const got = await all(await open(nb, data), 'items')
    const want = r.ok ? neu : old
    ctx.state(canon([u.fmt, u.policy, at, r.ok]))
    ctx.trans(n)
    if (!same(got, want)) ctx.violation(`${u.fmt}:fault:${u.policy}`, `${u.fmt} import with policy ${u.policy}: store call ${at} of apply fails and apply ${r.ok ? 'resolves' : 'rejects'}, leaving ${show(got)}`, { fmt: u.fmt, policy: u.policy, at })
    if (n <= at) break
  }
}

// ── files and downloads ─────────────────────────────────────────────────────
async function unitDeliver(u, ctx) {
  const { nb } = ctx
  const f = F[u.fmt], m = mod(nb, u.fmt), c = 'items'
  resetWorld(1)
  const { v } = await fill(nb, { items: [rec('a', 'x'), rec('b', 'y'), { id: 'c', s: 'é,"\n', n: 3, ok: true }] })
  const say = (k, what) => ctx.violation(`${u.fmt}:deliver:${k}`, `${u.fmt}: ${what}`, { fmt: u.fmt })
  const recsIn = (a) => canon(f.sql ? [...readSql(a, f.sql).get(c).rows] : f.read(a, c))
  const direct = await f.out(nb, v, c, {})
  const asIs = (buf) => (f.bytes ? new Uint8Array(buf) : Buffer.from(buf).toString('utf8'))
  // write
  if (!f.noWrite) {
    FS.reset()
    ctx.exec()
    const r = await attempt(() => m.write(v, '/out.bin', { ...f.dlOpts(c), acknowledgeRisks: true }))
    const file = FS.files.get('/out.bin')
    if (!r.ok || !file) say('write', `write() ${r.ok ? 'wrote no file' : 'fails: ' + r.err?.message}`)
    else if (recsIn(asIs(file.data)) !== recsIn(direct)) say('write-content', 'the written file holds something else than the export')
  } else {
    ctx.exec()
    const out = []
    let ended = 0
    await m.pipe(v, { write: (x) => out.push(x), end: () => ended++ }, { ...f.dlOpts(c), acknowledgeRisks: true })
    if (out.join('') !== direct + '\n' || ended !== 1) say('pipe', `pipe() wrote ${show(out.join(''))}`)
    const lines = []
    for await (const l of m.stream(v, f.dlOpts(c))) lines.push(l)
    if (lines.join('\n') !== direct) say('stream', 'stream() and toString() differ')
  }
  // download
  for (const filename of [undefined, 'mine.x']) {
    ctx.exec()
    const saved = { URL: globalThis.URL, document: globalThis.document }
    let blob = null, clicked = null
    globalThis.URL = Object.assign(class extends saved.URL {}, { createObjectURL: (b) => ((blob = b), 'blob:1'), revokeObjectURL: () => {} })
    globalThis.document = { createElement: () => ({ click() { clicked = { href: this.href, download: this.download } } }) }
    const r = await attempt(() => m.download(v, { ...f.dlOpts(c), ...(filename ? { filename } : {}) }))
    globalThis.URL = saved.URL
    if (saved.document === undefined) delete globalThis.document; else globalThis.document = saved.document
    if (!r.ok || !clicked || !blob) { say('download', `download() ${r.ok ? 'offers nothing' : 'fails: ' + r.err?.message}`); continue }
    if (clicked.download !== (filename ?? f.dl)) say('filename', `download() offers ${clicked.download}`)
    const got = asIs(Buffer.from(await blob.arrayBuffer()))
    if (recsIn(f.tail && got.endsWith(f.tail) ? got.slice(0, -f.tail.length) : got) !== recsIn(direct)) say('download-content', 'the download holds something else than the export')
  }
}

// ── options ─────────────────────────────────────────────────────────────────
const OPT = {
  async json(nb, v, ctx, say) {
    for (const collections of [undefined, [], ['items'], ['people'], ['items', 'people'], ['nope']]) for (const pretty of [undefined, true, false, 1, 4]) {
      ctx.exec()
      const o = JSON.parse(await nb.json.toString(v, { ...(collections ? { collections } : {}), pretty }))
      const want = ['items', 'people'].filter((c) => !collections || collections.includes(c))
      if (!same(Object.keys(o).sort(), want)) say('collections', `collections ${show(collections ?? 'all')} export ${Object.keys(o)}`)
      for (const c of want) if (!same(o[c], DATA[c])) say('records', `${c} exports ${show(o[c])}`)
    }
  },
  async ndjson(nb, v, ctx, say) {
    for (const collections of [undefined, [], ['items'], ['people'], ['items', 'people']]) for (const schemaField of [undefined, 'kind']) {
      ctx.exec()
      const lines = (await nb.ndjson.toString(v, { ...(collections ? { collections } : {}), ...(schemaField ? { schemaField } : {}) })).split('\n').filter(Boolean).map((l) => JSON.parse(l))
      const want = ['items', 'people'].filter((c) => !collections || collections.includes(c)).flatMap((c) => DATA[c].map((r) => ({ [schemaField ?? '_schema']: c, ...r })))
      if (!same(lines, want)) say('lines', `collections ${show(collections ?? 'all')} export ${show(lines)}`)
    }
  },
  async csv(nb, v, ctx, say) {
    for (const columns of [undefined, ['id'], ['n', 'id'], ['id', 'nope'], ['s', 's,"x']]) for (const eol of [undefined, '\r\n']) {
      ctx.exec()
      const got = readCsv(await nb.csv.toString(v, { collection: 'items', ...(columns ? { columns } : {}), ...(eol ? { eol } : {}) }), eol ?? '\n')
      const cols = columns ?? ['id', 's', 'n', 'ok']
      if (!same(got, [cols, ...DATA.items.map((r) => cols.map((c) => text(r[c])))])) say('columns', `columns ${show(columns ?? 'inferred')} give ${show(got)}`)
    }
    ctx.exec()
    if ((await nb.csv.toString(v, { collection: 'nope' })) !== '') say('empty', 'a missing collection exports something')
  },
  async xml(nb, v, ctx, say) {
    for (const rootElement of [undefined, 'All']) for (const recordElement of [undefined, 'One']) for (const ns of [{}, { namespace: 'urn:a"b<&\'' }, { namespace: 'urn:x', namespacePrefix: 'p' }]) for (const pretty of [undefined, false]) for (const xmlDeclaration of [undefined, false]) for (const fields of [undefined, ['id', 'n', 'nope']]) {
      ctx.exec()
      const o = Object.fromEntries(Object.entries({ collection: 'items', rootElement, recordElement, ...ns, pretty, xmlDeclaration, fields }).filter(([, x]) => x !== undefined))
      const src = await nb.xml.toString(v, o)
      const t = readXml(src)
      const pre = ns.namespacePrefix ? ns.namespacePrefix + ':' : ''
      if (src.startsWith('<?xml') !== (xmlDeclaration !== false)) say('declaration', 'XML declaration')
      if (t.name !== pre + (rootElement ?? 'Records') || t.kids.some((k) => k.name !== pre + (recordElement ?? 'Item'))) say('elements', `elements ${t.name}/${t.kids.map((k) => k.name)} with ${show(o)}`)
      if (ns.namespace && t.attrs[ns.namespacePrefix ? 'xmlns:p' : 'xmlns'] !== ns.namespace) say('namespace', `namespace ${show(t.attrs)}`)
      const want = DATA.items.map((r) => Object.fromEntries((fields ?? ['id', 's', 'n', 'ok']).filter((k) => k in r).map((k) => [k, text(r[k])])))
      if (!same(xmlRecords(src), want)) say('records', `with ${show(o)} the records are ${show(xmlRecords(src))}`)
      const p = await attempt(() => nb.xml.fromString(v, src, { collection: 'items', fieldTypes: XT, ...(recordElement ? { recordElement: pre + recordElement } : {}) }))
      if (!p.ok) say('import', `cannot import its own output (${show(o)}): ${p.err?.message}`)
      else if (!fields && p.val.plan.summary.total) say('idempotent', `re-import of ${show(o)} plans ${show(p.val.plan.summary)}`)
    }
    for (const c of ['s', 'a b', '1st', 'x:y', 'ü', 'class', '-a']) {
      ctx.exec()
      await v.collection(c).put('a', { id: 'a', s: 'x' })
      const src = await nb.xml.toString(v, { collection: c })
      const t = await attempt(() => xmlRecords(src))
      if (!t.ok || !same(t.val, [{ id: 'a', s: 'x' }])) say('collection-name', `collection ${JSON.stringify(c)} exports ${t.ok ? show(t.val) : `malformed XML (${t.err.message})`}`)
    }
  },
  async xlsx(nb, v, ctx, say) {
    const sheetSets = [
      [['items', 'items']], [['A', 'items'], ['B', 'people']], [['A', 'items'], ['A', 'people'], ['A', 'items']], [['x'.repeat(31), 'items'], ['x'.repeat(32), 'people'], ['x'.repeat(33), 'items']],
      [['a/b', 'items'], ['a:b', 'people'], ['a\\b?*[]', 'items']], [['', 'items'], ['', 'people']], [['é<&"\'', 'items']], [['A', 'items'], ['A(1)', 'people'], ['A', 'people']],
    ]
    for (const set of sheetSets) for (const columns of [undefined, ['n', 'id'], ['id', 'nope']]) for (const filter of [undefined, (r) => r.n > 1]) {
      ctx.exec()
      const sheets = set.map(([name, collection]) => ({ name, collection, ...(columns ? { columns } : {}), ...(filter ? { filter } : {}) }))
      const r = await attempt(async () => readSheets(await nb.xlsx.toBytes(v, { sheets })))
      if (!r.ok) { say('sheets', `sheets ${show(set)}: ${r.err.message}`); continue }
      if (r.val.length !== set.length) say('sheet-count', `${r.val.length} sheets for ${set.length}`)
      set.forEach(([name, c], i) => {
        const recs = DATA[c].filter(filter ?? (() => true)), cols = columns ?? [...new Set(recs.flatMap((x) => Object.keys(x)))]
        const want = recs.length || columns ? [cols, ...recs.map((x) => cols.map((k) => x[k]))] : []
        const got = r.val[i]?.rows.map((row) => cols.map((_, k) => row[k]))
        if (!same(canon(got?.map((x) => x.map((y) => y ?? null))), canon(want.map((x) => x.map((y) => y ?? null))))) say('sheet', `sheet ${JSON.stringify(name)} of ${c} holds ${show(got)}`)
        if (/^\w{1,31}$/.test(name) && set.findIndex(([n]) => n === name) === i && r.val[i]?.name !== name) say('sheet-name', `sheet ${JSON.stringify(name)} is called ${JSON.stringify(r.val[i]?.name)}`)
      })
      if (set.length > 1 && !columns && !filter) {
        const bytes = await nb.xlsx.toBytes(v, { sheets })
        for (const [i, [, c]] of set.entries()) {
          const p = await attempt(() => nb.xlsx.fromBytes(v, bytes, { collection: c, sheet: r.val[i].name }))
          if (!p.ok || p.val.plan.summary.total) say('import-sheet', `importing sheet ${JSON.stringify(r.val[i].name)} of ${c}: ${p.ok ? show(p.val.plan.summary) : p.err?.message}`)
        }
        const no = await attempt(() => nb.xlsx.fromBytes(v, bytes, { collection: 'items', sheet: 'no such sheet' }))
        if (no.ok) say('no-sheet', 'importing a sheet that does not exist is accepted')
      }
    }
    for (const n of [1, 2, 25, 26, 27, 28, 51, 52, 53, 701, 702, 703, 704, 728, 729, 1378, 16384]) {
      ctx.exec()
      const s = nb.xlsx.colLetter(n)
      if ([...s].reduce((a, ch) => a * 26 + ch.charCodeAt(0) - 64, 0) !== n || !/^[A-Z]+$/.test(s)) say('colLetter', `column ${n} is ${s}`)
    }
    for (const bad of [[], undefined]) { ctx.exec(); const r = await attempt(() => nb.xlsx.toBytes(v, { sheets: bad ?? [] })); if (r.ok) say('no-sheets', 'a workbook without sheets is accepted') }
    // header row and date hints
    const bytes = await nb.xlsx.writeXlsx([{ name: 'S', rows: [['title'], [], ['id', 'when', 'ser'], ['a', '2026-01-02T03:04:05.000Z', 46024.5]] }])
    ctx.exec()
    const p = await attempt(() => nb.xlsx.fromBytes(v, bytes, { collection: 'fresh', headerRow: 3, fieldTypes: { when: 'date', ser: 'date' } }))
    if (!p.ok || !same(p.val.plan.added.map((e) => e.record), [{ id: 'a', when: '2026-01-02T03:04:05.000Z', ser: '2026-01-02T12:00:00.000Z' }])) say('header-row', `headerRow 3 with dates gives ${p.ok ? show(p.val.plan.added) : p.err?.message}`)
  },
  async zip(nb, v, ctx, say) {
    for (const filter of [undefined, (r) => r.n > 1, () => false]) for (const password of [undefined, 'pw']) for (const c of ['items', 'people']) {
      ctx.exec()
      const bytes = await withRealCrypto(() => nb.zip.toBytes(v, { records: { collection: c, ...(filter ? { filter } : {}) }, ...(password ? { password } : {}) }))
      const got = await attempt(() => F.zip.read(bytes, c, { password }))
      const want = DATA[c].filter(filter ?? (() => true))
      if (!got.ok || !same(got.val, want)) say('records', `filter ${filter}, password ${password}: ${got.ok ? show(got.val) : got.err.message}`)
      if (password) {
        if (readZip(bytes, password).some((e) => !e.encrypted)) say('plain-entry', 'an entry of an encrypted archive is not encrypted')
        if (Buffer.from(bytes).includes('"s": ')) say('plaintext', 'the encrypted archive shows record text')
      }
    }
  },
  async sql(nb, v, ctx, say) {
    for (const dialect of ['postgres', 'mysql', 'sqlite']) for (const mode of [undefined, 'schema-only', 'data-only', 'schema+data']) for (const include of [undefined, [], ['items'], ['people']]) for (const rename of [false, true]) {
      ctx.exec()
      const t = readSql(await nb.sql.toString(v, { dialect, ...(mode ? { mode } : {}), ...(include ? { include } : {}), ...(rename ? { tableNames: (c) => `t"\`${c}` } : {}) }), dialect)
      const want = ['items', 'people'].filter((c) => !include?.length || include.includes(c))
      const name = (c) => (rename ? `t"\`${c}` : c)
      if (!same([...t.keys()].sort(), want.map(name).sort())) say('include', `include ${show(include ?? 'all')} dumps ${[...t.keys()]}`)
      for (const c of want) {
        const T = t.get(name(c))
        if (!T) continue
        if ((T.cols === null) !== (mode === 'data-only') || T.rows.length !== (mode === 'schema-only' ? 0 : DATA[c].length)) say('mode', `mode ${mode} of ${c} gives ${T.rows.length} rows, table ${T.cols !== null}`)
      }
    }
    ctx.exec()
    const t = (await nb.sql.toString(v, {}))
    if (!same([...readSql(t, 'postgres').keys()].sort(), ['items', 'people'])) say('default', 'default dialect is not postgres')
  },
}
const DATA = { items: [{ id: 'a', s: 'x', n: 1, ok: true }, { id: 'b', s: 'y', n: 2, ok: false }, { id: 'c', s: 'z', n: 3, ok: true }], people: [{ id: 'p', name: 'Ann', n: 5 }] }
async function unitOptions(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const { v } = await fill(nb, DATA)
  await OPT[u.fmt](nb, v, ctx, (k, what) => ctx.violation(`${u.fmt}:options:${k}`, `${u.fmt}: ${what}`, { fmt: u.fmt }))
}

// ── archives ────────────────────────────────────────────────────────────────
const withRealCrypto = async (fn) => {
  const g = globalThis.crypto
  Object.defineProperty(globalThis, 'crypto', { configurable: true, writable: true, value: { subtle: real.crypto.subtle, getRandomValues: g.getRandomValues, randomUUID: g.randomUUID } })
  try { return await fn() } finally { Object.defineProperty(globalThis, 'crypto', { configurable: true, writable: true, value: g }) }
}
const B = (...x) => new Uint8Array(x)
const CONTENTS = [B(), B(0), B(0x50, 0x4b, 5, 6), B(0x50, 0x4b, 1, 2), B(0x50, 0x4b, 3, 4, 0xff), new Uint8Array(22).fill(0x50), B(0x50, 0x4b, 5, 6, 0, 0, 0, 0, 1, 0, 1, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0), new TextEncoder().encode('héllo'), new Uint8Array(300).map((_, i) => i)]
const NAMES = ['a', 'dir/b.txt', 'é日😀', 'x'.repeat(300)]
async function unitZip(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const say = (k, what, more) => ctx.violation(`zip:raw:${k}`, `zip archive: ${what}`, more ?? {})
  const lists = [[]]
  for (const c of CONTENTS) lists.push([[NAMES[0], c]])
  for (const c of CONTENTS) for (const d of CONTENTS) lists.push([[NAMES[1], c], [NAMES[2], d]])
  lists.push(NAMES.map((n, i) => [n, CONTENTS[i + 5]]))
  for (const l of lists) {
    ctx.exec()
    const entries = l.map(([path, bytes], i) => ({ path, bytes, ...(i % 2 ? { mtime: new Date([0, Date.UTC(2107, 11, 31, 23, 59, 59), Date.UTC(2000, 1, 29)][i % 3]) } : {}) }))
    const z = await nb.zip.writeZip(entries)
    const a = await attempt(() => readZip(z).map((e) => [e.path, [...e.bytes]]))
    const want = l.map(([p, b]) => [p, [...b]])
    if (!a.ok || !same(a.val, want)) say('write', `writeZip of ${l.length} entries: ${a.ok ? 'other contents' : a.err.message}`)
    for (const view of [z, new Uint8Array([...Array(7).fill(0x50), ...z]).subarray(7)]) {
      const r = await attempt(() => nb.zip.readZip(view))
      if (!r.ok || !same(r.val.map((e) => [e.path, [...e.bytes]]), want) || r.val.some((e) => e.encrypted)) say('read', `readZip does not return what writeZip was given (${r.ok ? 'other contents' : r.err.message})`, { entries: want })
    }
    if (l.length <= 2) {
      for (const e of a.ok ? readZip(z) : []) for (let i = 0; i < Math.min(e.dataLen, 24); i++) {
        ctx.exec()
        const t = z.slice()
        t[e.dataAt + i] ^= 1 << (i % 8)
        const r = await attempt(() => nb.zip.readZip(t))
        if (r.ok) { say('damage', `a changed byte in entry ${JSON.stringify(e.path)} is returned as if intact`, { entries: want, at: i }); break }
      }
    }
    if (l.length === 1 && l[0][1].length <= 5) for (let k = 0; k < z.length; k++) {
      ctx.exec()
      const r = await attempt(() => nb.zip.readZip(z.slice(0, k)))
      if (r.ok) { say('truncated', `the first ${k} of ${z.length} bytes read as an archive`, { entries: want, k }); break }
    }
  }
  for (let len = 0; len <= 3; len++) for (let x = 0; x < 4 ** len; x++) { const b = new Uint8Array(len).map((_, i) => [0, 1, 128, 255][Math.floor(x / 4 ** i) % 4]); ctx.exec(); const want = (await import('node:zlib')).default.crc32(b); if (nb.zip.crc32(b) !== want) say('crc', `crc32([${b}]) is ${nb.zip.crc32(b)}`) }
}
const PWS = ['p', 'pässwörd 長い', 'x'.repeat(65), ' p']
async function unitAes(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const say = (k, what, more) => ctx.violation(`zip:aes:${k}`, `encrypted zip: ${what}`, more ?? {})
  await withRealCrypto(async () => {
    for (const len of u.lens) for (const pw of PWS) {
      ctx.exec()
      const bytes = new Uint8Array(len).map((_, i) => (i * 7 + 3) & 255)
      const z = await nb.zip.writeZip([{ path: 'a', bytes }, { path: 'b/é', bytes }], { password: pw })
      const a = await attempt(() => readZip(z, pw))
      const more = { len, pw }
      if (!a.ok || !same(a.val.map((e) => [e.path, [...e.bytes]]), [['a', [...bytes]], ['b/é', [...bytes]]])) { say('write', `not readable as WinZip AES-256: ${a.ok ? 'other contents' : a.err.message}`, more); continue }
      if (len >= 8 && Buffer.from(z).includes(Buffer.from(bytes.subarray(0, 8)))) say('plaintext', 'content appears unencrypted', more)
      const [e1, e2] = a.val
      if (Buffer.from(z).subarray(e1.dataAt, e1.dataAt + 16).equals(Buffer.from(z).subarray(e2.dataAt, e2.dataAt + 16))) say('salt', 'two entries share a salt', more)
      const r = await attempt(() => nb.zip.readZip(z, { password: pw }))
      if (!r.ok || !same(r.val.map((e) => [e.path, [...e.bytes], e.encrypted]), [['a', [...bytes], true], ['b/é', [...bytes], true]])) say('read', `readZip ${r.ok ? 'returns other contents' : 'fails: ' + r.err.message}`, more)
      for (const wrong of [undefined, '', pw + 'x', pw.slice(1), pw.toUpperCase(), ...PWS].filter((w) => w !== pw)) {
        const w = await attempt(() => nb.zip.readZip(z, wrong === undefined ? {} : { password: wrong }))
        ctx.exec()
        if (w.ok) say('wrong-password', `opens with ${JSON.stringify(wrong)} instead of ${JSON.stringify(pw)}`, more)
      }
      if (len <= 33) for (let i = 0; i < e1.dataLen; i++) {
        ctx.exec()
        const t = z.slice()
        t[e1.dataAt + i] ^= 1 << (i % 8)
        if ((await attempt(() => nb.zip.readZip(t, { password: pw }))).ok) { say('tamper', `changed byte ${i} of the encrypted entry goes unnoticed`, { ...more, i }); break }
      }
    }
    ctx.exec()
    if ((await attempt(() => nb.zip.writeZip([{ path: 'a', bytes: B(1) }], { password: '' }))).ok) say('empty-password', 'an empty password is accepted')
  })
}
const ODD = ['a', 'a/b', 'a\\b', 'a?b', 'a_b', '..', '.', '...', '.a', 'é', ' ', 'CON', '__', '../../x', '/x', 'a\u0001b']
async function unitAttach(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const { v } = await fill(nb, { items: ODD.map((id) => ({ id, n: 1 })) })
  const C = v.collection('items')
  const want = []
  ODD.forEach((id, i) => ODD.forEach((s, j) => want.push([id, s, B(i, j, 255)])))
  for (const [id, s, b] of want) await C.blob(id).put(s, b, { mimeType: 'x/' + b[1] })
  for (const slots of [undefined, '*', [], ['a'], ['..', 'a/b', 'nope']]) {
    ctx.exec()
    const say = (k, what) => ctx.violation(`zip:attach:${k}`, `zip attachments (slots ${show(slots ?? 'default')}): ${what}`, { slots: slots ?? null })
    const r = await attempt(async () => readZip(await nb.zip.toBytes(v, { records: { collection: 'items' }, ...(slots !== undefined ? { attachments: { slots } } : {}) })))
    if (!r.ok) { say('export', r.err.message); continue }
    const z = new Map(r.val.map((e) => [e.path, e.bytes]))
    if (z.size !== r.val.length) say('collide', 'two entries share a path')
    for (const p of z.keys()) if (p.split('/').some((x) => x === '' || x === '.' || x === '..') || /[\\:*?"<>|\u0000-\u001f]/.test(p)) say('unsafe', `unsafe path ${JSON.stringify(p)}`)
    const m = JSON.parse(z.get('manifest.json').toString())
    const sel = want.filter(([, s]) => !Array.isArray(slots) || slots.includes(s))
    if (m.attachmentCount !== sel.length || r.val.length !== sel.length + 2) say('count', `${m.attachmentCount} attachments listed, ${r.val.length - 2} stored, ${sel.length} exist`)
    for (const [id, s, b] of sel) {
      ctx.state(canon([id, s]))
      const e = m.records.find((x) => x.id === id)?.attachments.filter((x) => x.slot === s) ?? []
      const got = e.length === 1 ? z.get(e[0].path) : null
      if (!got || !e[0].path.startsWith('attachments/') || !Buffer.from(b).equals(got) || e[0].size !== b.length || e[0].mimeType !== 'x/' + b[1]) { say('bytes', `attachment ${JSON.stringify(s)} of ${JSON.stringify(id)} is ${e.length === 1 ? show([...(got ?? [])]) : `listed ${e.length} times`}`); break }
    }
  }
}
async function unitBlob(u, ctx) {
  const { nb } = ctx
  for (const policy of [undefined, 'replace', 'insert-only']) for (const have of [null, B(9, 9), B()]) for (const bytes of [B(), B(1, 2, 3)]) for (const slot of [undefined, 's']) for (const meta of [{}, { mimeType: 'a/b', filename: 'f.x' }]) {
    ctx.exec()
    resetWorld(1)
    const { data, v } = await fill(nb, { items: [{ id: 'a' }] })
    const name = slot ?? 'raw'
    const say = (k, what) => ctx.violation(`blob:${k}`, `as-blob: ${what}`, { policy: policy ?? null, have: have && [...have], bytes: [...bytes], slot: slot ?? null, meta })
    if (have) await v.collection('items').blob('a').put(name, have, { mimeType: 'o/l', filename: 'old' })
    const o = { collection: 'items', id: 'a', ...(slot ? { slot } : {}) }
    const p = await attempt(() => nb.blob.fromBytes(v, bytes, { ...o, ...(policy ? { policy } : {}), ...meta }))
    const refuse = policy === 'insert-only' && have
    if (p.ok === !!refuse) { say('policy', `fromBytes over ${have ? 'a filled' : 'an empty'} slot ${p.ok ? 'is accepted' : 'fails: ' + p.err?.message}`); continue }
    if (p.ok) {
      if (p.val.status !== (have ? 'modified' : 'added') || p.val.bytes !== bytes.length || (p.val.priorETag !== undefined) !== !!have) say('plan', `plan ${show(p.val)}`)
      const before = await v.collection('items').blob('a').get(name)
      if (!same(before && [...before], have && [...have])) say('plan-writes', 'planning changed the slot')
      await p.val.apply()
    }
    const w = await open(nb, data)
    const r = await attempt(() => nb.blob.toBytes(w, o))
    const exp = refuse ? have : bytes
    if (!r.ok || !same([...r.val.bytes], [...exp])) say('bytes', `toBytes gives ${r.ok ? show([...r.val.bytes]) : r.err?.message}`)
    else if (!refuse && meta.filename && (r.val.filename !== 'f.x' || r.val.mime !== 'a/b')) say('meta', `toBytes gives ${r.val.mime} ${r.val.filename}`)
    const none = await attempt(() => nb.blob.toBytes(w, { collection: 'items', id: 'a', slot: 'nope' }))
    const norec = await attempt(() => nb.blob.fromBytes(w, bytes, { collection: 'items', id: 'nope' }))
    if (none.ok || norec.ok) say('missing', 'a missing slot or record is accepted')
  }
}

// ── malformed input ─────────────────────────────────────────────────────────
const BADS = {
  json: ['', '{', '[]', 'null', '1', '{"items":[}'], ndjson: ['{', '[1]', '1', '{"id":"a"}\n{', 'null'],
  xml: ['<a>', '<a></b>', '<a><b></a></b>', 'text', '<a/><b/>'], xlsx: [B(), B(1, 2, 3), new Uint8Array(22)], zip: [B(), B(1, 2, 3), new Uint8Array(22)],
}
async function unitBad(u, ctx) {
  const { nb } = ctx
  for (const bad of BADS[u.fmt]) {
    ctx.exec()
    resetWorld(1)
    const { data, v } = await fill(nb, { items: [rec('a', 'x')] })
    const before = data.clone()
    const r = await attempt(async () => { const p = await F[u.fmt].imp(nb, v, bad, 'items', { policy: 'replace' }); await p.apply() })
    if (r.ok) ctx.violation(`${u.fmt}:malformed`, `${u.fmt} import accepts malformed input ${show(typeof bad === 'string' ? bad : [...bad])} under policy replace`, { fmt: u.fmt })
    if (!same(before.m, data.m)) ctx.violation(`${u.fmt}:malformed-writes`, `a rejected ${u.fmt} import changed the vault`, { fmt: u.fmt })
  }
}

/** A lazily loaded collection with indexes exports the same file as the same records loaded eagerly. */
async function unitLazy(u, ctx) {
  const { nb } = ctx
  const f = F[u.fmt]
  for (const indexes of [[], ['n'], ['n', 's']]) for (const n of [0, 1, 3]) {
    resetWorld(1)
    const data = await base(nb)
    const v = await open(nb, data)
    const c = v.collection('items', { prefetch: false, cache: { maxRecords: 2 }, indexes })
    for (let i = 0; i < n; i++) await c.put('r' + i, { id: 'r' + i, n: i % 2, s: 'x' + i })
    if (n > 1) await c.delete('r1')
    ctx.exec()
    const eager = await f.out(nb, await open(nb, data), 'items', {})
    const v2 = await open(nb, data)
    v2.collection('items', { prefetch: false, cache: { maxRecords: 2 }, indexes })
    for (const [who, w] of [['the writer', v], ['a new session', v2]]) {
      const r = await attempt(() => f.out(nb, w, 'items', {}))
      if (!r.ok || !same(r.val, eager)) return ctx.violation(`${u.fmt}:lazy`, `${u.fmt} export of a lazily loaded collection with indexes [${indexes}] by ${who}: ${r.ok ? show(r.val) : r.err.message} instead of ${show(eager)}`, { fmt: u.fmt, indexes, n })
      ctx.state(canon([u.fmt, indexes, n, who]))
    }
  }
}

/** Records keyed by a number, or by another field, find their place again. */
async function unitKeys(u, ctx) {
  const { nb } = ctx
  const f = F[u.fmt]
  for (const idKey of ['id', 'code']) for (const sel of [1, 2, 3, 4].flatMap((k) => [...subsets([0, 1, -1, 2.5], k)])) {
    if (!sel.length) continue
    resetWorld(1)
    const recs = sel.map((k, i) => ({ [idKey]: k, n: i }))
    const data = await base(nb)
    const v = await open(nb, data)
    for (const r of recs) await v.collection('items').put(String(r[idKey]), r)
    ctx.exec()
    const o = { idKey, ...(u.fmt === 'csv' ? { columnTypes: { [idKey]: 'number', n: 'number' } } : u.fmt === 'xml' ? { fieldTypes: { [idKey]: 'number', n: 'number' } } : {}) }
    const say = (k, what) => ctx.violation(`${u.fmt}:keys:${k}`, `${u.fmt}, records keyed ${sel} in ${idKey}: ${what}`, { fmt: u.fmt, idKey, sel })
    const art = await f.out(nb, v, 'items', {})
    const p = await attempt(() => f.imp(nb, v, art, 'items', o))
    if (!p.ok) return say('import', p.err.message)
    if (p.val.plan.summary.total) return say('idempotent', `importing the export plans ${show(p.val.plan.summary)}`)
    const v2 = await open(nb, await base(nb))
    const q = await attempt(async () => (await f.imp(nb, v2, art, 'items', o)).apply())
    if (!q.ok) return say('apply', q.err.message)
    for (const r of recs) if (!same(await v2.collection('items').get(String(r[idKey])), r)) return say('place', `record ${show(r)} is not under its key after the import`)
    if ((await v2.collection('items').list()).length !== recs.length) return say('count', 'other records appear')
    ctx.state(canon([u.fmt, idKey, sel]))
    ctx.sample({ fmt: u.fmt, idKey, keys: sel })
  }
}

/** Cells of a typed column: numbers and booleans only where the cell is one, else its text. */
const CELLS = {
  number: [['5', 5], ['-0.5', -0.5], ['1e3', 1000], ['0', 0], ['007', 7], ['abc', 'abc'], ['NaN', 'NaN'], ['Infinity', 'Infinity'], ['-Infinity', '-Infinity'], ['1e999', '1e999'], ['12px', '12px'], ['1,5', '1,5'], ['true', 'true']],
  boolean: [['true', true], ['false', false], ['TRUE', 'TRUE'], ['1', '1'], ['0', '0'], ['yes', 'yes'], ['', '']],
  string: [['5', '5'], ['true', 'true'], ['', ''], ['007', '007'], ['1e3', '1e3']],
  undefined: [['5', '5'], ['true', 'true'], ['', ''], ['null', 'null']],
}
async function unitTyped(u, ctx) {
  const { nb } = ctx
  for (const [type, cells] of Object.entries(CELLS)) for (const [cell, want] of cells) for (const [cell2, want2] of cells) {
    resetWorld(1); ctx.exec()
    const v = await open(nb, await base(nb))
    const src = u.fmt === 'csv' ? `id,f,g,h\r\na,"${cell}",x,"${cell2}"\r\n` : `<R><I><id>a</id><f>${cell}</f><g>x</g><h>${cell2}</h></I></R>`
    const types = type === 'undefined' ? {} : { f: type, h: type }
    const r = await attempt(async () => { await (await nb[u.fmt].fromString(v, src, { collection: 'typed', ...(u.fmt === 'csv' ? { columnTypes: types } : { fieldTypes: types }) })).apply(); return v.collection('typed').get('a') })
    const exp = { id: 'a', f: want, g: 'x', h: want2 }
    if (!r.ok || !same(r.val, exp)) return ctx.violation(`${u.fmt}:typed`, `${u.fmt} cells ${show(cell)} and ${show(cell2)} of ${type} columns are imported as ${r.ok ? show(r.val) : r.err.message} instead of ${show(exp)}`, { fmt: u.fmt, type, cell, cell2 })
    ctx.state(canon([u.fmt, type, want, want2]))
  }
}

const RUN = { typed: unitTyped, keys: unitKeys, lazy: unitLazy, strings: unitStrings, values: unitValues, diff: unitDiff, policy: unitPolicy, multi: unitMulti, fault: unitFault, deliver: unitDeliver, options: unitOptions, zip: unitZip, aes: unitAes, attach: unitAttach, blob: unitBlob, bad: unitBad }
const SOPT = { csv: [{}, { eol: '\r\n' }], xml: [{}, { pretty: false }, { namespace: 'urn:n', namespacePrefix: 'p' }], zip: [{}] }

export default {
  level: 'exhaustive within bounds, on the real export and import code',
  technique: 'bounded exhaustive enumeration of record contents, vault states, files, policies and store faults, decoded by independent readers',
  bounds: (t) => `every string of up to ${t === 'thorough' ? 4 : 3} characters over 11 awkward ones plus ${WORDS.length} words; all ${VALS.length}² pairs of values in one field; 2 ids × 3 live states × 3 file states × 4 policies × 6 formats; a store failure at every call of apply; archives of up to 4 entries, every changed byte`,
  assumptions: ['records carry their key in the field id', 'CSV, XML and spreadsheets hold text: empty, null and missing fields are told apart only where the format can', 'control characters XML cannot hold are left out of XML and spreadsheets'],
  modules: { ...HUB, json: '@noy-db/as-json', ndjson: '@noy-db/as-ndjson', csv: '@noy-db/as-csv', xml: '@noy-db/as-xml', xlsx: '@noy-db/as-xlsx', zip: '@noy-db/as-zip', sql: '@noy-db/as-sql', blob: '@noy-db/as-blob' },
  bundleOpts: { fakeFs: true },
  units(tier) {
    const us = []
    for (const fmt of Object.keys(F)) {
      us.push({ kind: 'strings', fmt, len: 3, ...(SOPT[fmt] ? { opts: SOPT[fmt] } : {}) })
      if (tier === 'thorough') ALPHA.forEach((_, part) => us.push({ kind: 'strings', fmt, len: 4, part }))
      us.push({ kind: 'values', fmt }, { kind: 'deliver', fmt })
      const odd = fmt === 'xml' ? ['_a', 'a-b', 'a.b', 'A1'] : ['a b', 'a,b', 'a"b', "a'b", 'a`b', 'a\\b', 'é', 'select', 'a\nb', '--', '1', ';', 'toString']
      us.push({ kind: 'values', fmt, names: odd, tag: ':names' })
      for (const crowd of [20, 51, 101, 260, 1025]) us.push({ kind: 'values', fmt, names: ['f'], crowd, tag: `:${crowd}` })
      if (fmt !== 'xml') for (const coll of ["it's", '.a', '-', 'a"b', 'constructor', 'a b', 'a`b']) us.push({ kind: 'values', fmt, names: ['f'], coll, tag: ':' + coll })
    }
    for (const fmt of ['csv', 'xml']) us.push({ kind: 'typed', fmt })
    for (const fmt of IMPORTS) {
      for (const policy of ['default', 'merge', 'replace', 'insert-only']) us.push({ kind: 'policy', fmt, policy })
      for (const policy of Object.keys(P)) us.push({ kind: 'fault', fmt, policy })
      if (BADS[fmt]) us.push({ kind: 'bad', fmt })
    }
    for (const policy of Object.keys(P)) us.push({ kind: 'multi', policy })
    for (const fmt of Object.keys(OPT)) us.push({ kind: 'options', fmt })
    for (const fmt of Object.keys(F)) if (!['xlsx', 'zip'].includes(fmt)) us.push({ kind: 'lazy', fmt })
    for (const fmt of ['json', 'ndjson', 'csv', 'xml', 'xlsx']) us.push({ kind: 'keys', fmt })
    us.push({ kind: 'diff' }, { kind: 'diff', unchanged: true }, { kind: 'zip' }, { kind: 'attach' }, { kind: 'blob' })
    for (const lens of [[0, 1, 15], [16, 17, 31], [32, 33], [100, 4112]]) us.push({ kind: 'aes', lens })
    return us
  },
  async runUnit(u, ctx) { await RUN[u.kind](u, ctx) },
}
