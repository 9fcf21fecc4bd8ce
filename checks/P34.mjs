// P34 — names of exported files are safe for their destination, and an export to a directory writes every attachment once, inside it.
import { resetWorld } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, openVault, attempt, errName, PASS } from '../lib/noy.mjs'
import { FS } from '../lib/fakefs.mjs'

const PROFILES = ['posix', 'windows', 'macos-smb', 'zip', 'url-path', 's3-key']
const CAP = { posix: 255, windows: 255, 'macos-smb': 240, zip: 255, 'url-path': 1024, 's3-key': 1024 }
const utf8 = new TextEncoder()
const sizeOf = (s, p) => (p === 'windows' ? s.length : utf8.encode(s).length)
const isCtl = (c) => c.charCodeAt(0) < 32 || c === '\x7f'
const isBidi = (c) => (c >= '\u202a' && c <= '\u202e') || (c >= '\u2066' && c <= '\u2069')
const DEVICES = ['CON', 'PRN', 'AUX', 'NUL', ...[1, 2, 3, 4, 5, 6, 7, 8, 9].flatMap((n) => [`COM${n}`, `LPT${n}`])]
const device = (s) => DEVICES.includes(s.split('.')[0].toUpperCase())
const noise = (s) => /^(\.ds_store|\.localized|\.fseventsd|\._[^]+)$/i.test(s) && !/[\n\r\u2028\u2029]/.test(s)
const winChar = (c) => '<>:"/\\|?*'.includes(c) || isCtl(c)
const dots = (s) => s === '.' || s.split(/[/\\]/).includes('..')
/** The common part: bidi overrides gone, NFC, no blanks or controls at the ends. */
function base(s) {
  const a = [...s].filter((c) => !isBidi(c)).join('').normalize('NFC')
  let i = 0, j = a.length
  const blank = (c) => isCtl(c) || c.trim() === ''
  while (i < j && blank(a[i])) i++
  while (j > i && blank(a[j - 1])) j--
  return a.slice(i, j)
}
const pct = (s) => [...s].map((c) => (/[A-Za-z0-9\-._~]/.test(c) ? c : [...utf8.encode(c)].map((b) => `%${b.toString(16).toUpperCase().padStart(2, '0')}`).join(''))).join('')
/** What a name becomes when it is short enough; null: refused. */
function expected(name, p) {
  if (name.includes('\0')) return null
  let s = base(name)
  if (p === 'posix') s = s.replaceAll('/', '_')
  if (p === 'windows' || p === 'macos-smb') {
    s = [...s].map((c) => (winChar(c) ? '_' : c)).join('')
    while (s.endsWith('.') || s.endsWith(' ')) s = s.slice(0, -1)
  }
  if (p === 'zip' || p === 's3-key') while (s.startsWith('/')) s = s.slice(1)
  if (p === 'url-path' || p === 's3-key') { s = pct(s) }
  if (s === '' || dots(s)) return null
  if (p === 'zip') s = [...s].map((c) => (isCtl(c) ? '_' : c)).join('')
  if ((p === 'windows' || p === 'macos-smb') && device(s)) s = `_${s}`
  if (p === 'macos-smb' && noise(s)) s = `_${s}`
  return s
}
/** Why a name is not safe at its destination; null when it is. */
function unsafe(s, p, max) {
  if (s === '') return 'is empty'
  if (sizeOf(s, p) > max) return `is ${sizeOf(s, p)} long, the limit is ${max}`
  if (dots(s)) return 'is a dot segment or has one'
  if ([...s].some((c) => c === '\0' || isBidi(c))) return 'has a NUL or bidi override'
  if ([...s].some((c) => /^[\ud800-\udfff]$/.test(c))) return 'has half a character'
  if (p === 'posix' && s.includes('/')) return 'has a slash'
  if (p === 'windows' || p === 'macos-smb') {
    if ([...s].some(winChar)) return 'has a reserved character'
    if (/[. ]$/.test(s)) return 'ends in a dot or blank'
    if (device(s)) return 'is a device name'
    if (p === 'macos-smb' && noise(s)) return 'is a hidden system file'
  }
  if (p === 'zip' && (s.startsWith('/') || [...s].some(isCtl))) return 'is absolute or has controls'
  if (p === 'url-path' || p === 's3-key') {
    if (!/^([A-Za-z0-9\-._~]|%[0-9A-F]{2})+$/.test(s)) return 'is no encoded path segment'
    try { decodeURIComponent(s) } catch { return 'does not decode' }
  }
  return null
}
function judge(ctx, name, p, max) {
  const { sanitizeFilename } = ctx.nb.util
  ctx.trans()
  const lim = max ?? CAP[p], show = () => `${p}${max === undefined ? '' : ` limited to ${max}`}: ${JSON.stringify(name.length > 60 ? `${name.slice(0, 20)}…${name.slice(-20)} (${name.length})` : name)}`
  const full = expected(name, p)
  let out, err = null
  try { out = sanitizeFilename(name, { profile: p, ...(max === undefined ? {} : { maxBytes: max }) }) } catch (e) { err = e }
  const tag = `${p}:${max === undefined ? 'full' : 'limit'}`
  if (err && err.name !== 'FilenameSanitizationError') return ctx.violation(`name:${tag}:error`, `${show()} fails with ${err}`)
  const fits = full !== null && sizeOf(full, p) <= lim
  if (full === null || fits) {
    if (full === null ? !err : err || out !== full) ctx.violation(`name:${tag}:${full === null ? 'accepted' : 'differs'}`, `${show()} gives ${err ? err.message : JSON.stringify(out)}, expected ${full === null ? 'a refusal' : JSON.stringify(full)}`)
    return
  }
  if (err) {
    // nothing of the name fits, or only a dot segment or blanks do
    const short = [...full].slice(0, 2).join('')
    if (lim > 12 && !/^[. _]*$/.test(full.slice(0, lim))) ctx.violation(`name:${tag}:refused`, `${show()} is refused (${err.message}) though ${short}… fits`)
    return
  }
  const why = unsafe(out, p, lim)
  if (why) ctx.violation(`name:${tag}:unsafe`, `${show()} gives ${JSON.stringify(out.slice(-40))}, which ${why}`)
  else if (!full.startsWith(out) && !`_${full}`.startsWith(out)) ctx.violation(`name:${tag}:differs`, `${show()} gives ${JSON.stringify(out)}, no beginning of ${JSON.stringify(full)}`)
  else if (sizeOf(out, p) < lim - 16 && !/[. ]{8}/.test(full)) ctx.violation(`name:${tag}:short`, `${show()} is cut to ${sizeOf(out, p)}, ${lim} would fit`)
}

const ALPHA = ['a', '/', '\\', '.', ' ', '\t', '\0', '\x01', '\x7f', '<', ':', '*', '"', '|', '+', '~', '%', '\u00e9', 'e', '\u0301', '\u202e', '\u2066', '\u00a0', '\u0e01', '\u{1f600}']
const SMALL = ['a', '.', ' ', '/', '\u0e01', '\u{1f600}', '<', '\u00e9', '\\']

// ── export to a directory ──────────────────────────────────────────────────
const FILES = ['a.txt', 'a-1.txt', 'a', 'A.txt', 'd/b.txt', '/a.txt', '..', '../x', '..\\x', 'd/../../x', 'CON', 'con.txt', 'x.', '.DS_Store', 'e\u0301', '\u00e9', '\u202ea', '\u0e01.pdf', 'n\0', '', 'manifest.json', 'l'.repeat(300), '~/x', '%2e%2e', '.hidden', 'a.tar.gz']
const STRATEGIES = ['suffix', 'overwrite', 'fail', 'own', undefined]
async function directory(u, ctx) {
  const nb = ctx.nb
  const lists = []
  for (let j = 0; j < FILES.length; j++) lists.push([FILES[u.i], FILES[j]])
  for (const x of ['a.txt', 'a-1.txt', 'a.TXT']) lists.push([FILES[u.i], x, FILES[u.i]], [FILES[u.i], FILES[u.i], x])
  if (u.i === 0) lists.push(['a.txt', 'a.txt', 'a-1.txt', 'a-2.txt', 'a.txt'], Array(12).fill('same.bin'))
  for (const names of lists) {
    resetWorld(1, { tick: 1 })
    const data = new Data()
    const { db, v } = await openVault(nb, data)
    const C = v.collection('docs'), truth = new Map()
    // two records share their contents; slots and records differ
    for (const [k, f] of names.entries()) {
      const body = new Uint8Array(utf8.encode(k === 1 && u.i % 2 ? 'bytes 0' : `bytes ${k}`))
      await C.put(`r${k % 3}`, { n: k }); await C.blob(`r${k % 3}`).put(`s${k}`, body, { filename: f, mimeType: `t/${k}`, compress: false })
      truth.set(`s${k}`, { f, body, rec: `r${k % 3}`, mime: `t/${k}` })
    }
    await db.grant('V', { userId: 'exp', displayName: 'exp', role: 'admin', passphrase: PASS, exportCapability: { plaintext: ['blob'] } })
    const who = await (await openDb(nb, plainStore(nb.hub, data), { user: 'exp', secret: PASS })).openVault('V')
    const order = []
    for await (const b of who.exportBlobs()) order.push({ ...truth.get(b.recordRef.slot), slot: b.recordRef.slot, id: b.blobId })
    for (const profile of [...PROFILES, 'opaque', undefined]) for (const strat of STRATEGIES) {
      ctx.exec(); ctx.trans()
      FS.reset()
      const own = (name, k) => `own-${k}-${name}`
      const r = await attempt(() => nb.file.exportBlobsToDirectory(who, '/scratch/out', { ...(profile ? { filenameProfile: profile } : {}), ...(strat ? { onCollision: strat === 'own' ? own : strat } : {}) }))
      const p = profile ?? 'macos-smb', how = strat ?? 'suffix'
      const bad = (k, w) => ctx.violation(`dir:${k}:${p}:${how}`, `export of ${canon(names.map((n) => (n.length > 40 ? 'long' : n)))} with ${p}, ${how}: ${w}`, { names, profile: p, how })
      // what must happen, file by file
      const want = new Map(), used = new Set(); let stop = null; const seq = []
      for (const b of order) {
        const ext = /^[^]*[^]\.([A-Za-z0-9]{1,16})$/.exec([...b.f].filter((c) => !isBidi(c)).join('').normalize('NFC'))
        const cand = b.f.includes('\0') ? null : p === 'opaque' ? (ext ? `${b.id}.${ext[1].toLowerCase()}` : b.id) : (() => { const e = expected(b.f, p); return e !== null && sizeOf(e, p) > CAP[p] ? ctx.nb.util.sanitizeFilename(b.f, { profile: p }) : e })()
        if (cand === null) { stop = 'FilenameSanitizationError'; break }
        let name = cand
        if (used.has(cand)) {
          if (how === 'fail') { stop = 'Error'; break }
          if (how === 'own') { let k = 1; while (used.has(own(cand, k))) k++; name = own(cand, k) }
          else if (how === 'suffix') name = null // any new safe name
        }
        if (name !== null) { used.add(name); want.set(name, b) }
        else {
          const e = r.ok ? r.val.entries[seq.length] : null
          const got = e ? e.path.slice('/scratch/out/'.length) : [...FS.files.keys()].map((f) => f.slice('/scratch/out/'.length)).find((f) => !used.has(f) && f.startsWith(cand.slice(0, 1)))
          if (!got || used.has(got)) return bad('collision', `two attachments share the name ${got}`)
          const w = p === 'opaque' ? null : unsafe(got, p, CAP[p] + 8)
          if (w) return bad('unsafe', `the name ${got} ${w}`)
          used.add(got); want.set(got, b); name = got
        }
        seq.push([b, name])
      }
      if (stop ? r.ok || (stop === 'FilenameSanitizationError' && r.err?.name !== stop) : !r.ok) return bad('outcome', `${r.ok ? 'succeeds' : `fails with ${r.err}`}, expected ${stop ?? 'success'}`)
      const files = new Map([...FS.files].map(([k, f]) => [k, f.data]))
      if (!stop && p === 'opaque') {
        const m = files.get('/scratch/out/manifest.json'); files.delete('/scratch/out/manifest.json')
        const list = m ? JSON.parse(m.toString()).entries : null
        const exp = seq.map(([b, n]) => ({ opaqueName: n, originalName: b.f, collection: 'docs', recordId: b.rec, slot: b.slot, blobId: b.id, mimeType: b.mime }))
        if (!same(list, exp)) return bad('manifest', `the manifest lists ${canon(list)}, expected ${canon(exp)}`)
        if (r.val.manifestPath !== '/scratch/out/manifest.json') return bad('manifest', `manifestPath is ${r.val.manifestPath}`)
      } else if (!stop && r.val.manifestPath !== null) return bad('manifest', `manifestPath is ${r.val.manifestPath}`)
      for (const k of files.keys()) if (!k.startsWith('/scratch/out/') || !want.has(k.slice('/scratch/out/'.length))) return bad('stray', `the export wrote ${JSON.stringify(k)}`)
      for (const [n, b] of want) if (!files.has(`/scratch/out/${n}`) || !same([...files.get(`/scratch/out/${n}`)], [...b.body])) return bad('content', `${JSON.stringify(n)} holds ${files.get(`/scratch/out/${n}`)}, expected ${new TextDecoder().decode(b.body)}`)
      if (!stop && (r.val.written !== seq.length || r.val.bytes !== seq.reduce((a, [b]) => a + b.body.length, 0) || !same(r.val.entries, seq.map(([b, n]) => ({ blobId: b.id, path: `/scratch/out/${n}` }))))) return bad('result', `the result is ${canon(r.val)}`)
      ctx.state([p, how, [...want.keys()].map((k) => k.slice(0, 40))])
    }
    db.close()
  }
}

/** Options that choose what is exported, names chosen by the caller that lead elsewhere, spellings of the directory. */
async function choices(ctx) {
  const nb = ctx.nb
  resetWorld(1, { tick: 1 })
  const data = new Data(), { db, v } = await openVault(nb, data), truth = []
  for (const [k, [c, r]] of [['docs', 'r1'], ['docs', 'r2'], ['docs2', 'r1'], ['other', 'r9'], ['docs', 'r1']].entries()) {
    await v.collection(c).put(r, { n: k, keep: k % 2 === 0 }); await v.collection(c).blob(r).put(`s${k}`, utf8.encode(`body ${k}`), { filename: `f${k}.bin`, compress: false })
    truth.push({ c, r, name: `f${k}.bin`, body: `body ${k}` })
  }
  await v.collection('docs').put('r1', { n: 4, keep: true })
  await db.grant('V', { userId: 'exp', displayName: 'exp', role: 'admin', passphrase: PASS, exportCapability: { plaintext: ['blob'] } })
  await db.grant('V', { userId: 'none', displayName: 'none', role: 'admin', passphrase: PASS })
  const as = async (u, name = 'V') => (await openDb(nb, plainStore(nb.hub, data), { user: u, secret: PASS })).openVault(name)
  const who = await as('exp')
  const contents = () => Object.fromEntries([...FS.files].map(([k, f]) => [k, new TextDecoder().decode(f.data)]))
  const ids = []; for await (const b of who.exportBlobs()) ids.push([b.blobId, b.meta.filename])
  for (const collections of [undefined, ['docs'], ['docs2'], ['docs', 'other'], ['missing'], []]) for (const where of [undefined, (r) => r.keep, (r, { collection }) => collection === 'docs', (r, { id }) => id === 'r1', () => false]) for (const after of [undefined, ...ids.map(([i]) => i), 'f'.repeat(64)]) {
    ctx.exec(); ctx.trans(); FS.reset()
    const opts = { ...(collections ? { collections } : {}), ...(where ? { where } : {}), ...(after ? { afterBlobId: after } : {}) }
    const want = new Set(); for await (const b of who.exportBlobs(opts)) want.add(b.meta.filename)
    if (!after) for (const t of truth) {
      const rec = t.c === 'docs' && t.r === 'r1' ? { n: 4, keep: true } : { n: truth.indexOf(t), keep: truth.indexOf(t) % 2 === 0 }
      const inC = !collections || collections.includes(t.c)
      if (collections?.length !== 0 && want.has(t.name) !== (inC && (!where || !!where(rec, { collection: t.c, id: t.r })))) ctx.violation('choice:export', `exportBlobs with ${canon(collections)} and ${where} ${want.has(t.name) ? 'has' : 'lacks'} ${t.name}`)
    }
    const r = await attempt(() => nb.file.exportBlobsToDirectory(who, '/scratch/out', opts))
    const exp = Object.fromEntries(truth.filter((t) => want.has(t.name)).map((t) => [`/scratch/out/${t.name}`, t.body]))
    if (!r.ok || !same(contents(), exp) || r.val.written !== want.size) ctx.violation('choice', `export with ${canon(collections)}, ${where}, after ${after}: ${r.ok ? canon(contents()) : r.err}, expected ${canon(exp)}`)
    ctx.state([collections ?? null, String(where), after ?? null])
  }
  // a user without the right gets nothing, an aborted export writes nothing more
  FS.reset(); const no = await as('none')
  const d = await attempt(() => nb.file.exportBlobsToDirectory(no, '/scratch/out'))
  if (d.ok || FS.files.size) ctx.violation('choice:right', `a user without the right to export wrote ${canon(contents())} (${errName(d)})`)
  FS.reset(); const ac = new AbortController(); ac.abort()
  const ab = await attempt(() => nb.file.exportBlobsToDirectory(who, '/scratch/out', { signal: ac.signal }))
  if (FS.files.size) ctx.violation('choice:abort', `an aborted export wrote ${canon(contents())} (${errName(ab)})`)
  // directories
  for (const [dir, real] of [['/scratch/out/', '/scratch/out'], ['/scratch/x/../out', '/scratch/out'], ['/scratch//out/.', '/scratch/out'], ['/scratch/deep/er', '/scratch/deep/er']]) {
    ctx.exec(); ctx.trans(); FS.reset()
    const r = await attempt(() => nb.file.exportBlobsToDirectory(who, dir))
    const exp = Object.fromEntries(truth.map((t) => [`${real}/${t.name}`, t.body]))
    if (!r.ok || !same(contents(), exp)) ctx.violation('choice:dir', `export to ${dir}: ${r.ok ? canon(contents()) : r.err}`)
    ctx.state(dir)
  }
  // names by the caller that lead out of the directory
  const V2 = await db.openVault('W'), w2 = V2.collection('twin'); await w2.put('t', {}); await w2.blob('t').put('p', utf8.encode('P'), { filename: 'same', compress: false }); await w2.blob('t').put('q', utf8.encode('Q'), { filename: 'same', compress: false })
  await db.grant('W', { userId: 'exp', displayName: 'exp', role: 'admin', passphrase: PASS, exportCapability: { plaintext: ['blob'] } })
  const who2 = await as('exp', 'W')
  for (const name of ['../x', '../out2', '../out-2/x', '/abs', '/scratch/outside', 'sub/../../x', '..', '../../etc/x', '../out/ok', 'sub/ok', './ok', 'sub/../ok']) for (const profile of ['posix', 'zip', 'opaque', undefined]) {
    if (profile === 'opaque') continue
    ctx.exec(); ctx.trans(); FS.reset()
    const r = await attempt(() => nb.file.exportBlobsToDirectory(who2, '/scratch/out', { collections: ['twin'], onCollision: () => name, ...(profile ? { filenameProfile: profile } : {}) }))
    const okName = name.endsWith('ok')
    for (const f of FS.files.keys()) if (!f.startsWith('/scratch/out/')) ctx.violation('choice:escape', `a name ${name} chosen for a collision wrote ${f}`)
    if (okName ? !r.ok || FS.files.size !== 2 : r.ok || r.err?.name !== 'PathEscapeError') ctx.violation('choice:escape', `a name ${name} chosen for a collision: ${errName(r)}, files ${canon(contents())}`)
    ctx.state([name, profile ?? null])
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of file names over an alphabet of harmful characters for every destination profile and length limit against an independent oracle; exhaustive enumeration of attachment sets exported to a directory of an in-memory file system',
  modules: { ...HUB, util: '@noy-db/hub/util', file: '@noy-db/to-file' },
  bounds: (t) => `all names of up to ${t === 'quick' ? 3 : 4} of ${ALPHA.length} characters with the default limit, all of up to 4 of ${SMALL.length} characters with limits 1 to 12, device and system names in several spellings, names around every default limit; all pairs of ${FILES.length} file names (and selected longer lists) with every profile and collision strategy`,
  assumptions: ['names are well-formed strings (no lone surrogates)', 'the target directory is empty and not written by others', 'the zip profile keeps slashes: names that are also directories of other names are left out', 'names differing only in case are different names'],
  bundleOpts: { fakeFs: true },
  units(tier) {
    const out = []
    for (let a = 0; a < ALPHA.length; a++) out.push({ kind: 'names', a, len: tier === 'quick' ? 3 : 4 })
    for (const p of PROFILES) out.push({ kind: 'limits', p }, { kind: 'words', p }, { kind: 'long', p })
    out.push({ kind: 'opaque' }, { kind: 'choices' })
    for (let i = 0; i < FILES.length; i++) out.push({ kind: 'dir', i })
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'dir') return directory(u, ctx)
    if (u.kind === 'choices') return choices(ctx)
    if (u.kind === 'names') for (let len = 0; len < u.len; len++) for (const rest of sequences(ALPHA.length, len)) { const n = [u.a, ...rest].map((i) => ALPHA[i]).join(''); ctx.exec(); for (const p of PROFILES) judge(ctx, n, p); if (len < 2) ctx.state(n) }
    if (u.kind === 'limits') for (let len = 0; len <= 4; len++) for (const s of sequences(SMALL.length, len)) { const n = s.map((i) => SMALL[i]).join(''); ctx.exec(); for (const m of len < 4 ? [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12] : [1, 2, 3, 6, 9]) judge(ctx, n, u.p, m); if (len < 3) ctx.state([u.p, n]) }
    if (u.kind === 'words') {
      const words = [...DEVICES, 'COM0', 'LPT0', 'COM10', 'CONS', 'ICON', 'CO', '.DS_Store', '.localized', '.fseventsd', '._x', '._', '.DS', 'x._y', '..x', 'x..', '...']
      for (const w of words) for (const c of [w, w.toLowerCase(), w[0] + w.slice(1).toLowerCase(), w.toUpperCase()]) for (const pre of ['', ' ', '/', '_', '.', '\u202e', 'a/']) for (const post of ['', '.', ' ', '.txt', '. .', 'x', '0', '.tar.gz', '/', '\t', ' .txt', '/b', '\\..']) {
        const n = pre + c + post; ctx.exec()
        judge(ctx, n, u.p); for (const m of [2, 3, 4, 5, 8, 9, 10]) judge(ctx, n, u.p, m)
      }
      ctx.state([u.p, 'words'])
    }
    if (u.kind === 'long') for (const lim of [undefined, 16, 100, 2000]) {
      const max = lim ?? CAP[u.p]
      for (const fill of ['a', '\u0e01', '\u{1f600}', '\u00e9', '+', '<']) for (const tail of ['', '.', ' ', '. ', '\u0e01', '\u{1f600}', '.txt', '/', '\\', '..', '\t', '%']) {
        const w = sizeOf(expected(fill, u.p) ?? fill, u.p)
        for (let d = -3; d <= 3; d++) for (const shift of ['', 'b', 'bb']) { const k = Math.floor(max / w) + d; if (k < 0) continue; ctx.exec(); judge(ctx, shift + fill.repeat(k) + tail, u.p, lim); judge(ctx, shift + fill.repeat(k) + tail + 'cc', u.p, lim) }
      }
      ctx.state([u.p, 'long', lim ?? 0])
    }
    if (u.kind === 'opaque') {
      const A = ['.', 'a', 'Z', '9', '_', '\u00e9', ' ', '\u202e', '/']
      const check = (n) => {
        ctx.exec(); ctx.trans()
        const s = [...n].filter((c) => !isBidi(c)).join('').normalize('NFC'), m = /^[^]+\.([A-Za-z0-9]{1,16})$/.exec(s)
        const want = m ? `ID-7.${m[1].toLowerCase()}` : 'ID-7'
        let got; try { got = ctx.nb.util.sanitizeFilename(n, { profile: 'opaque', opaqueId: 'ID-7' }) } catch (e) { got = `!${e.name}` }
        if (got !== want) ctx.violation('opaque', `opaque name of ${JSON.stringify(n)} is ${JSON.stringify(got)}, expected ${want}`)
        for (const o of [{}, { opaqueId: '' }]) { let e = null; try { ctx.nb.util.sanitizeFilename(n, { profile: 'opaque', ...o }) } catch (x) { e = x } if (e?.name !== 'FilenameSanitizationError') ctx.violation('opaque:noid', `the opaque profile without an id accepts ${JSON.stringify(n)}`) }
      }
      for (let len = 0; len <= 5; len++) for (const s of sequences(A.length, len)) check(s.map((i) => A[i]).join(''))
      for (let k = 1; k <= 20; k++) check(`x.${'e'.repeat(k)}`)
      ctx.state('opaque')
    }
  },
}
