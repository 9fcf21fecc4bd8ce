// In-memory stand-in for node:fs/promises. Nothing ever reaches the real file
// system. `FS.gate(op, path, step)` is awaited before every step of every
// operation; it may delay, record or throw (a thrown Crash freezes the tree as
// it is at that step: writing a file is truncate, first half, rest).
import path from 'node:path'

export const FS = {
  files: new Map(), dirs: new Set(['/']), gate: null, clock: 1, log: null,
  reset() { this.files = new Map(); this.dirs = new Set(['/']); this.gate = null; this.log = null; this.clock = 1 },
  snapshot() { return { files: new Map([...this.files].map(([k, f]) => [k, { ...f }])), dirs: new Set(this.dirs), clock: this.clock } },
  restore(s) { this.files = new Map([...s.files].map(([k, f]) => [k, { ...f }])); this.dirs = new Set(s.dirs); this.clock = s.clock },
}
const norm = (p) => path.resolve('/', String(p instanceof URL ? p.pathname : p))
const fail = (code, op, p) => Object.assign(new Error(`${code}: ${op} '${p}'`), { code, syscall: op, path: p })
const g = async (op, p, step = 'do') => { FS.log?.push([op, p, step]); if (FS.gate) await FS.gate(op, p, step) }
const parentOk = (op, p) => { const d = path.dirname(p); if (FS.files.has(d)) throw fail('ENOTDIR', op, p); if (!FS.dirs.has(d)) throw fail('ENOENT', op, p) }
const bytes = (d, enc) => (typeof d === 'string' ? Buffer.from(d, enc || 'utf8') : Buffer.from(d))
const encOf = (o) => (typeof o === 'string' ? o : o?.encoding ?? null)

export async function readFile(p, o) {
  p = norm(p); await g('readFile', p)
  if (FS.dirs.has(p)) throw fail('EISDIR', 'read', p)
  const f = FS.files.get(p)
  if (!f) throw fail('ENOENT', 'open', p)
  const e = encOf(o)
  return e ? f.data.toString(e) : Buffer.from(f.data)
}
export async function writeFile(p, data, o) {
  p = norm(p); const buf = bytes(data, encOf(o)), flag = (typeof o === 'object' && o?.flag) || 'w'
  await g('writeFile', p, 'open')
  if (FS.dirs.has(p)) throw fail('EISDIR', 'open', p)
  parentOk('open', p)
  if (flag.includes('x') && FS.files.has(p)) throw fail('EEXIST', 'open', p)
  const prev = flag.startsWith('a') ? FS.files.get(p)?.data ?? Buffer.alloc(0) : Buffer.alloc(0)
  FS.files.set(p, { data: prev, mtimeMs: FS.clock++ })
  if (buf.length > 1) {
    await g('writeFile', p, 'half')
    FS.files.set(p, { data: Buffer.concat([prev, buf.subarray(0, buf.length >> 1)]), mtimeMs: FS.clock++ })
  }
  await g('writeFile', p, 'rest')
  FS.files.set(p, { data: Buffer.concat([prev, buf]), mtimeMs: FS.clock++ })
}
export const appendFile = (p, d, o) => writeFile(p, d, { ...(typeof o === 'string' ? { encoding: o } : o), flag: 'a' })
export async function mkdir(p, o) {
  p = norm(p); await g('mkdir', p)
  if (o?.recursive) {
    const parts = p.split('/').filter(Boolean); let cur = '', first
    for (const s of parts) {
      cur += '/' + s
      if (FS.files.has(cur)) throw fail(cur === p ? 'EEXIST' : 'ENOTDIR', 'mkdir', p)
      if (!FS.dirs.has(cur)) { FS.dirs.add(cur); first ??= cur }
    }
    return first
  }
  parentOk('mkdir', p)
  if (FS.dirs.has(p) || FS.files.has(p)) throw fail('EEXIST', 'mkdir', p)
  FS.dirs.add(p)
}
const children = (p) => {
  const pre = p === '/' ? '/' : p + '/', out = new Set()
  for (const k of [...FS.files.keys(), ...FS.dirs]) if (k !== p && k.startsWith(pre)) out.add(k.slice(pre.length).split('/')[0])
  return [...out].sort()
}
const kind = (p) => ({ isFile: () => FS.files.has(p), isDirectory: () => FS.dirs.has(p), isSymbolicLink: () => false })
export async function readdir(p, o) {
  p = norm(p); await g('readdir', p)
  if (FS.files.has(p)) throw fail('ENOTDIR', 'scandir', p)
  if (!FS.dirs.has(p)) throw fail('ENOENT', 'scandir', p)
  const names = children(p)
  return o?.withFileTypes ? names.map((name) => ({ name, parentPath: p, path: p, ...kind(path.join(p, name)) })) : names
}
export async function stat(p) {
  p = norm(p); await g('stat', p)
  const f = FS.files.get(p)
  if (!f && !FS.dirs.has(p)) throw fail('ENOENT', 'stat', p)
  return { ...kind(p), size: f?.data.length ?? 0, mtimeMs: f?.mtimeMs ?? 0, mtime: new Date(f?.mtimeMs ?? 0) }
}
export const lstat = stat
export async function access(p) { await stat(p) }
export async function realpath(p) { await stat(p); return norm(p) }
export async function unlink(p) {
  p = norm(p); await g('unlink', p)
  if (FS.dirs.has(p)) throw fail('EISDIR', 'unlink', p)
  if (!FS.files.delete(p)) throw fail('ENOENT', 'unlink', p)
}
export async function rename(a, b) {
  a = norm(a); b = norm(b); await g('rename', a, b)
  parentOk('rename', b)
  const f = FS.files.get(a)
  if (f) { if (FS.dirs.has(b)) throw fail('EISDIR', 'rename', b); FS.files.delete(a); FS.files.set(b, f); return }
  if (!FS.dirs.has(a)) throw fail('ENOENT', 'rename', a)
  if (FS.files.has(b)) throw fail('ENOTDIR', 'rename', b)
  if (FS.dirs.has(b) && children(b).length) throw fail('ENOTEMPTY', 'rename', b)
  for (const [k, v] of [...FS.files]) if (k.startsWith(a + '/')) { FS.files.delete(k); FS.files.set(b + k.slice(a.length), v) }
  for (const d of [...FS.dirs]) if (d === a || d.startsWith(a + '/')) { FS.dirs.delete(d); FS.dirs.add(b + d.slice(a.length)) }
}
export async function copyFile(a, b) { await writeFile(b, await readFile(a)) }
export async function rmdir(p) {
  p = norm(p); await g('rmdir', p)
  if (!FS.dirs.has(p)) throw fail('ENOENT', 'rmdir', p)
  if (children(p).length) throw fail('ENOTEMPTY', 'rmdir', p)
  FS.dirs.delete(p)
}
export async function rm(p, o) {
  p = norm(p); await g('rm', p)
  if (FS.files.delete(p)) return
  if (!FS.dirs.has(p)) { if (o?.force) return; throw fail('ENOENT', 'rm', p) }
  if (!o?.recursive) throw fail('ERR_FS_EISDIR', 'rm', p)
  for (const k of [...FS.files.keys()]) if (k.startsWith(p + '/')) FS.files.delete(k)
  for (const d of [...FS.dirs]) if (d === p || d.startsWith(p + '/')) FS.dirs.delete(d)
}
/** Enough of FileHandle for write-then-sync code. */
export async function open(p, flags = 'r') {
  p = norm(p)
  if (/[wax]/.test(flags)) await writeFile(p, '', { flag: flags.replace('+', '') })
  else await readFile(p)
  return {
    writeFile: (d, o) => writeFile(p, d, o), readFile: (o) => readFile(p, o), write: (d) => appendFile(p, d), appendFile: (d, o) => appendFile(p, d, o),
    sync: async () => {}, datasync: async () => {}, stat: () => stat(p), close: async () => {},
  }
}
let tmp = 0
export async function mkdtemp(prefix) { const p = `${norm(prefix)}${(tmp++).toString(36).padStart(6, '0')}`; await mkdir(p); return p }
export const constants = { F_OK: 0, R_OK: 4, W_OK: 2 }
export const promises = { readFile, writeFile, appendFile, mkdir, readdir, stat, lstat, access, realpath, unlink, rename, copyFile, rmdir, rm, open, mkdtemp, constants }
export const existsSync = (p) => FS.files.has(norm(p)) || FS.dirs.has(norm(p))
export default promises
