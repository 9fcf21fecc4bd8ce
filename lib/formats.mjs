// Independent readers for the export formats, written from their standards and
// stricter than the code under test: anything malformed throws.
import zlib from 'node:zlib'
import nc from 'node:crypto'

const bad = (what) => { throw new Error('malformed: ' + what) }

// ── CSV (RFC 4180) ──────────────────────────────────────────────────────────
export function readCsv(text, eol = '\n') {
  const rows = []
  let i = 0, row = []
  for (;;) {
    let field = ''
    if (text[i] === '"') {
      for (i++; ; i++) {
        if (i >= text.length) bad('unterminated quoted field')
        if (text[i] === '"') { if (text[i + 1] === '"') { field += '"'; i++ } else { i++; break } } else field += text[i]
      }
      if (i < text.length && text[i] !== ',' && !text.startsWith(eol, i)) bad('text after a quoted field')
    } else {
      while (i < text.length && text[i] !== ',' && !text.startsWith(eol, i)) {
        if (text[i] === '"' || text[i] === '\r' || text[i] === '\n') bad(`bare ${JSON.stringify(text[i])} in a field`)
        field += text[i++]
      }
    }
    row.push(field)
    if (i >= text.length) { rows.push(row); return rows }
    if (text[i] === ',') { i++; continue }
    i += eol.length
    rows.push(row)
    row = []
  }
}

// ── XML 1.0 (elements, attributes, text, references) ────────────────────────
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'" }
const NAME = /[A-Za-z_][A-Za-z0-9_.:-]*/y
function refs(s) {
  return s.replace(/&([^;]*);?/g, (m, n) => {
    if (!m.endsWith(';')) bad('bare &')
    if (n[0] === '#') return String.fromCodePoint(n[1] === 'x' ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10))
    return ENT[n] ?? bad('unknown entity &' + n)
  })
}
export function readXml(src) {
  // eslint-disable-next-line no-control-regex
  if (/[\u0000-\u0008\u000b\u000c\u000e-\u001f\ufffe\uffff]/.test(src)) bad('character not allowed in XML')
  const s = src.replace(/\r\n?/g, '\n')
  let i = 0
  const ws = () => { while (/\s/.test(s[i] ?? '')) i++ }
  const name = () => { NAME.lastIndex = i; const m = NAME.exec(s); if (!m) bad('name at ' + i); i += m[0].length; return m[0] }
  if (s.startsWith('<?xml')) { i = s.indexOf('?>'); if (i < 0) bad('declaration'); i += 2 }
  const element = () => {
    if (s[i] !== '<') bad('expected < at ' + i)
    i++
    const el = { name: name(), attrs: {}, kids: [], text: '' }
    for (;;) {
      const at = i
      ws()
      if (s[i] === '>' || s.startsWith('/>', i)) break
      if (at === i) bad('expected space before attribute')
      const a = name()
      if (s[i] !== '=') bad('=')
      const q = s[i + 1]
      if (q !== '"' && q !== "'") bad('quote')
      const e = s.indexOf(q, i + 2)
      const raw = s.slice(i + 2, e)
      if (e < 0 || raw.includes('<')) bad('attribute value')
      if (Object.hasOwn(el.attrs, a)) bad('repeated attribute')
      el.attrs[a] = refs(raw.replace(/[\t\n]/g, ' '))
      i = e + 1
    }
    if (s[i] === '/') { i += 2; return el }
    i++
    for (;;) {
      const lt = s.indexOf('<', i)
      if (lt < 0) bad('unclosed ' + el.name)
      const t = s.slice(i, lt)
      if (t.includes(']]>')) bad(']]> in text')
      el.text += refs(t)
      i = lt
      if (s.startsWith('</', i)) {
        i += 2
        if (name() !== el.name) bad('closing tag of ' + el.name)
        ws()
        if (s[i] !== '>') bad('closing tag')
        i++
        return el
      }
      el.kids.push(element())
    }
  }
  ws()
  const root = element()
  ws()
  if (i !== s.length) bad('content after the root element')
  return root
}

// ── ZIP (stored entries, WinZip AES-256) ────────────────────────────────────
export function readZip(bytes, password) {
  const b = Buffer.from(bytes.buffer, bytes.byteOffset, bytes.length)
  const end = b.length - 22
  if (end < 0 || b.readUInt32LE(end) !== 0x06054b50 || b.readUInt16LE(end + 20) !== 0) bad('end of central directory')
  const n = b.readUInt16LE(end + 10), size = b.readUInt32LE(end + 12), start = b.readUInt32LE(end + 16)
  if (b.readUInt16LE(end + 8) !== n || start + size !== end) bad('central directory extent')
  const out = []
  let p = start, expect = 0
  for (let k = 0; k < n; k++) {
    if (b.readUInt32LE(p) !== 0x02014b50) bad('central header')
    const c = { flags: b.readUInt16LE(p + 8), method: b.readUInt16LE(p + 10), crc: b.readUInt32LE(p + 16), csize: b.readUInt32LE(p + 20), size: b.readUInt32LE(p + 24) }
    const nl = b.readUInt16LE(p + 28), xl = b.readUInt16LE(p + 30), cl = b.readUInt16LE(p + 32), off = b.readUInt32LE(p + 42)
    const name = b.subarray(p + 46, p + 46 + nl), extra = b.subarray(p + 46 + nl, p + 46 + nl + xl)
    p += 46 + nl + xl + cl
    if (off !== expect || b.readUInt32LE(off) !== 0x04034b50) bad('local header position')
    const l = { flags: b.readUInt16LE(off + 6), method: b.readUInt16LE(off + 8), crc: b.readUInt32LE(off + 14), csize: b.readUInt32LE(off + 18), size: b.readUInt32LE(off + 22) }
    if (JSON.stringify(l) !== JSON.stringify(c)) bad('local and central headers differ')
    const lnl = b.readUInt16LE(off + 26), lxl = b.readUInt16LE(off + 28), at = off + 30 + lnl + lxl
    if (!b.subarray(off + 30, off + 30 + lnl).equals(name)) bad('names differ')
    expect = at + c.csize
    const data = b.subarray(at, expect)
    const path = name.toString('utf8')
    if (/[^\x00-\x7f]/.test(path) && !(c.flags & 0x800)) bad('UTF-8 name not flagged')
    if (c.method === 99) {
      if (!(c.flags & 1)) bad('AES entry not flagged as encrypted')
      if (xl !== 11 || extra.readUInt16LE(0) !== 0x9901 || extra.readUInt16LE(2) !== 7 || extra.readUInt16LE(4) !== 2 || extra.toString('latin1', 6, 8) !== 'AE' || extra[8] !== 3 || extra.readUInt16LE(9) !== 0) bad('AES extra field')
      const salt = data.subarray(0, 16), ver = data.subarray(16, 18), ct = data.subarray(18, -10), mac = data.subarray(-10)
      const dk = nc.pbkdf2Sync(Buffer.from(password ?? '', 'utf8'), salt, 1000, 66, 'sha1')
      if (!dk.subarray(64).equals(ver)) bad('password verifier')
      if (!nc.createHmac('sha1', dk.subarray(32, 64)).update(ct).digest().subarray(0, 10).equals(mac)) bad('authentication code')
      const plain = Buffer.alloc(ct.length)
      for (let q = 0, ctr = 1; q < ct.length; q += 16, ctr++) {
        const block = Buffer.alloc(16)
        block.writeUInt32LE(ctr, 0)
        const e = nc.createCipheriv('aes-256-ecb', dk.subarray(0, 32), null).setAutoPadding(false).update(block)
        for (let j = 0; j < 16 && q + j < ct.length; j++) plain[q + j] = ct[q + j] ^ e[j]
      }
      if (plain.length !== c.size || c.crc !== 0) bad('AES entry size or CRC')
      out.push({ path, bytes: plain, dataAt: at, dataLen: c.csize, encrypted: true })
      continue
    }
    if (c.method !== 0 || c.flags & 1 || c.size !== c.csize) bad('stored entry')
    if (zlib.crc32(data) !== c.crc) bad('CRC of ' + path)
    out.push({ path, bytes: data, dataAt: at, dataLen: c.csize, encrypted: false })
  }
  if (p !== end || expect !== start) bad('bytes between the parts')
  return out
}
export const unzipText = (entries, path) => { const e = entries.filter((x) => x.path === path); if (e.length !== 1) bad(`${e.length} entries ${path}`); return e[0].bytes.toString('utf8') }

// ── SpreadsheetML ───────────────────────────────────────────────────────────
const COL = (ref) => { const m = /^([A-Z]+)(\d+)$/.exec(ref) ?? bad('cell ' + ref); return [[...m[1]].reduce((n, ch) => n * 26 + ch.charCodeAt(0) - 64, 0), +m[2]] }
export function readSheets(bytes) {
  const z = readZip(bytes)
  const one = (el, n) => { const k = el.kids.filter((x) => x.name === n); if (k.length !== 1) bad('expected one ' + n); return k[0] }
  const types = readXml(unzipText(z, '[Content_Types].xml'))
  const typed = new Set(types.kids.filter((k) => k.name === 'Override').map((k) => k.attrs.PartName))
  const root = readXml(unzipText(z, '_rels/.rels'))
  const wbPath = root.kids.find((k) => k.attrs.Type?.endsWith('/officeDocument'))?.attrs.Target ?? bad('no workbook')
  const wb = readXml(unzipText(z, wbPath))
  const rels = Object.fromEntries(readXml(unzipText(z, 'xl/_rels/workbook.xml.rels')).kids.map((k) => [k.attrs.Id, k.attrs]))
  const ssPath = Object.values(rels).find((r) => r.Type.endsWith('/sharedStrings'))?.Target
  const strings = readXml(unzipText(z, 'xl/' + ssPath)).kids.map((si) => one(si, 't').text)
  const seen = new Set(), ids = new Set()
  return one(wb, 'sheets').kids.map((sh) => {
    const name = sh.attrs.name
    if (!name || name.length > 31 || /[:/\\?*[\]]/.test(name)) bad('sheet name ' + JSON.stringify(name))
    if (seen.has(name)) bad('repeated sheet name ' + name)
    seen.add(name)
    if (ids.has(sh.attrs.sheetId)) bad('repeated sheet id')
    ids.add(sh.attrs.sheetId)
    const path = 'xl/' + (rels[sh.attrs['r:id']]?.Target ?? bad('sheet relation'))
    if (!typed.has('/' + path)) bad('sheet part without content type')
    const rows = []
    let lastRow = 0
    for (const r of one(readXml(unzipText(z, path)), 'sheetData').kids) {
      const rn = +r.attrs.r
      if (!(rn > lastRow)) bad('row order')
      lastRow = rn
      const row = []
      let lastCol = 0
      for (const c of r.kids) {
        const [col, rr] = COL(c.attrs.r)
        if (rr !== rn || col <= lastCol) bad('cell reference ' + c.attrs.r)
        lastCol = col
        const v = c.kids.find((k) => k.name === 'v')?.text
        if (v === undefined) continue
        if (c.attrs.t === 's') row[col - 1] = strings[+v] ?? bad('shared string ' + v)
        else if (c.attrs.t === 'b') row[col - 1] = v === '1' ? true : v === '0' ? false : bad('boolean')
        else { if (!/^-?\d+(\.\d+)?([eE][+-]?\d+)?$/.test(v)) bad('number ' + v); row[col - 1] = Number(v) }
      }
      rows[rn - 1] = row
    }
    return { name, rows }
  })
}

// ── SQL dumps ───────────────────────────────────────────────────────────────
/** Tables of a dump: { name → { cols: [{name,type,notNull}], rows: [[literal]] } }; a literal is { kind, value }. */
export function readSql(text, dialect) {
  let i = 0
  const s = text
  const q = dialect === 'mysql' ? '`' : '"'
  const skip = () => { for (;;) { while (/\s/.test(s[i] ?? '')) i++; if (s.startsWith('--', i)) { while (i < s.length && s[i] !== '\n') i++ } else return } }
  const word = (w) => { skip(); if (!s.startsWith(w, i)) bad(`expected ${w} at ${JSON.stringify(s.slice(i, i + 40))}`); i += w.length }
  const peek = (w) => { skip(); return s.startsWith(w, i) }
  const ident = () => {
    skip()
    if (s[i] !== q) bad('identifier at ' + JSON.stringify(s.slice(i, i + 40)))
    let out = ''
    for (i++; ; i++) { if (i >= s.length) bad('identifier'); if (s[i] === q) { if (s[i + 1] === q) { out += q; i++ } else { i++; return out } } else out += s[i] }
  }
  const literal = () => {
    skip()
    if (s[i] === "'") {
      let out = ''
      for (i++; ; i++) {
        if (i >= s.length) bad('string literal')
        if (s[i] === "'") { if (s[i + 1] === "'") { out += "'"; i++ } else { i++; return { kind: 'text', value: out } } }
        else if (s[i] === '\\' && dialect === 'mysql') { i++; out += { n: '\n', r: '\r', t: '\t', 0: '\0', b: '\b', Z: '\x1a' }[s[i]] ?? s[i] }
        else out += s[i]
      }
    }
    const m = /^(NULL|TRUE|FALSE|-?\d+(\.\d+)?([eE][+-]?\d+)?)(?=[,)\s])/.exec(s.slice(i, i + 60)) ?? bad('literal at ' + JSON.stringify(s.slice(i, i + 40)))
    i += m[0].length
    if (m[0] === 'NULL') return { kind: 'null', value: null }
    if (m[0] === 'TRUE' || m[0] === 'FALSE') return { kind: 'bool', value: m[0] === 'TRUE' }
    return { kind: 'num', value: Number(m[0]), int: !/[.eE]/.test(m[0]) }
  }
  const tables = new Map()
  for (skip(); i < s.length; skip()) {
    if (peek('CREATE TABLE')) {
      word('CREATE TABLE')
      const t = ident()
      if (tables.has(t)) bad('table created twice: ' + t)
      word('(')
      const cols = []
      do {
        if (cols.length) word(',')
        const name = ident()
        skip()
        const m = /^[A-Z][A-Z ]*(\(\d+\))?/.exec(s.slice(i)) ?? bad('column type')
        i += m[0].length
        let type = m[0].trim(), notNull = false
        if (type.endsWith(' NOT NULL')) { type = type.slice(0, -9); notNull = true } else if (peek('NOT NULL')) { word('NOT NULL'); notNull = true }
        if (cols.some((c) => c.name === name)) bad('repeated column ' + name)
        cols.push({ name, type, notNull })
      } while (peek(','))
      word(')'); word(';')
      tables.set(t, { cols, rows: [] })
    } else {
      word('INSERT INTO')
      const t = ident()
      word('(')
      const names = [ident()]
      while (peek(',')) { word(','); names.push(ident()) }
      word(')'); word('VALUES'); word('(')
      const vals = [literal()]
      while (peek(',')) { word(','); vals.push(literal()) }
      word(')'); word(';')
      if (names.length !== vals.length) bad('column count')
      let T = tables.get(t)
      if (!T) tables.set(t, (T = { cols: null, rows: [] }))
      T.rows.push(Object.fromEntries(names.map((n, k) => [n, vals[k]])))
    }
  }
  return tables
}
