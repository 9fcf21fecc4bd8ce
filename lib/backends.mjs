// One stand-in server per store package. Every factory returns
//   { open(): a new store instance over the same server, cas, tx, atomic }
// `env.gate(call)` runs before every server call (await-ed where the client
// API is asynchronous) and may throw to inject a failure.
import { DatabaseSync } from 'node:sqlite'
import { FS } from './fakefs.mjs'

// ── SQL ───────────────────────────────────────────────────────────────────
const plain = (rows) => rows.map((r) => ({ ...r }))
const isRead = (sql) => /^\s*(select|pragma)/i.test(sql) || /\breturning\b/i.test(sql)
class Sql {
  constructor() { this.db = new DatabaseSync(':memory:') }
  run(sql, args = []) {
    const parts = sql.split(';').map((s) => s.trim()).filter(Boolean)
    let rows = [], changes = 0
    for (const p of parts) {
      const st = this.db.prepare(p)
      if (isRead(p)) { rows = plain(st.all(...args)); changes = rows.length } else changes = Number(st.run(...args).changes)
    }
    return { rows, changes }
  }
  batch(list) {
    this.db.exec('BEGIN')
    try { const out = list.map((s) => this.run(s.sql, s.args)); this.db.exec('COMMIT'); return out } catch (e) { this.db.exec('ROLLBACK'); throw e }
  }
}
const sqlite = (nb, env) => {
  const S = new Sql()
  const handle = {
    prepare(sql) {
      const st = S.db.prepare(sql)
      const w = (m) => (...a) => { env.gate?.(`${m} ${sql}`); const r = st[m](...a); return m === 'all' ? plain(r) : m === 'get' ? (r ? { ...r } : undefined) : r }
      return { run: w('run'), get: w('get'), all: w('all') }
    },
    exec(sql) { env.gate?.(`exec ${sql}`); S.db.exec(sql) },
  }
  return { open: () => nb.sqlite.sqlite({ db: handle }), cas: true, tx: true, atomic: true, sync: true }
}
// node-postgres: $n parameters, BIGINT comes back as a string, JSONB parsed
const pgClient = (S, env) => ({
  async query(sql, params = []) {
    await env.gate?.(sql)
    const text = sql.replace(/\$(\d+)/g, '?$1').replace(/\bFOR UPDATE\b/gi, '')
    const named = text.includes('?1')
    let args = [...params]
    if (named) { const used = new Set([...text.matchAll(/\?(\d+)/g)].map((m) => +m[1])); args = args.filter((_, i) => used.has(i + 1)) }
    const { rows, changes } = S.run(text, args)
    for (const r of rows) {
      if (typeof r.v === 'number') r.v = String(r.v)
      if (typeof r.envelope === 'string') r.envelope = JSON.parse(r.envelope)
    }
    return { rows, rowCount: changes }
  },
})
const postgres = (nb, env) => { const S = new Sql(); return { open: () => nb.postgres.postgres({ client: pgClient(S, env) }), cas: true, tx: true, atomic: true } }
const supabase = (nb, env) => { const S = new Sql(); return { open: () => nb.supabase.supabase({ client: pgClient(S, env) }), cas: true, tx: true, atomic: true } }
const mysql = (nb, env, { query = true } = {}) => {
  const S = new Sql()
  const go = async (sql, params = []) => {
    await env.gate?.(sql)
    let t = sql.replace(/START TRANSACTION/gi, 'BEGIN').replace(/,\s*INDEX\s+\w+\s*\([^)]*\)/gi, '').replace(/\bFOR UPDATE\b/gi, '')
    t = t.replace(/ON DUPLICATE KEY UPDATE/gi, 'ON CONFLICT DO UPDATE SET').replace(/\bVALUES\((\w+)\)/g, 'excluded.$1')
    const { rows, changes } = S.run(t, [...params])
    for (const r of rows) if (typeof r.envelope === 'string') r.envelope = JSON.parse(r.envelope)
    return isRead(sql) ? [rows, []] : [{ affectedRows: changes }, undefined]
  }
  const client = { execute: go, ...(query ? { query: (sql) => go(sql) } : {}) }
  return { open: () => nb.mysql.mysql({ client }), cas: true, tx: true, atomic: true }
}
const turso = (nb, env, { batch = true } = {}) => {
  const S = new Sql()
  const client = {
    async execute(a) { const q = typeof a === 'string' ? { sql: a } : a; await env.gate?.(q.sql); const { rows, changes } = S.run(q.sql, q.args ?? []); return { rows, rowsAffected: changes } },
    ...(batch ? { async batch(list) { await env.gate?.('batch'); return S.batch(list.map((s) => (typeof s === 'string' ? { sql: s, args: [] } : { sql: s.sql, args: s.args ?? [] }))).map(({ rows, changes }) => ({ rows, rowsAffected: changes })) } } : {}),
  }
  return { open: () => nb.turso.turso({ client }), cas: true, tx: true, atomic: batch }
}
const d1 = (nb, env) => {
  const S = new Sql()
  const stmt = (sql, args = []) => ({
    sql, args,
    bind: (...a) => stmt(sql, a),
    async first(col) { await env.gate?.(sql); const r = S.run(sql, args).rows[0] ?? null; return r && col ? r[col] : r },
    async all() { await env.gate?.(sql); return { results: S.run(sql, args).rows, success: true, meta: {} } },
    async run() { await env.gate?.(sql); const { rows, changes } = S.run(sql, args); return { results: rows, success: true, meta: { changes } } },
  })
  const db = { prepare: (sql) => stmt(sql), async batch(list) { await env.gate?.('batch'); return S.batch(list).map(({ rows, changes }) => ({ results: rows, success: true, meta: { changes } })) }, async exec(sql) { await env.gate?.(sql); S.run(sql) } }
  return { open: () => nb.d1.d1({ db }), cas: true, tx: true, atomic: true }
}

// ── DynamoDB ──────────────────────────────────────────────────────────────
function evalExpr(src, item, names, values) {
  const toks = src.match(/[A-Za-z_]+(?=\()|\(|\)|,|<>|<=|>=|[=<>]|[#:]?[A-Za-z_][\w]*/g); let i = 0
  const val = (t) => (t.startsWith(':') ? values[t] : item?.[t.startsWith('#') ? names[t] : t])
  const or = () => { let r = and(); while (/^or$/i.test(toks[i] ?? '')) { i++; const x = and(); r = r || x } return r }
  const and = () => { let r = not(); while (/^and$/i.test(toks[i] ?? '')) { i++; const x = not(); r = r && x } return r }
  const not = () => { if (/^not$/i.test(toks[i] ?? '')) { i++; return !not() } return prim() }
  const prim = () => {
    if (toks[i] === '(') { i++; const r = or(); i++; return r }
    const t = toks[i++]
    if (toks[i] === '(') {
      i++; const args = []; while (toks[i] !== ')') { if (toks[i] !== ',') args.push(toks[i]); i++ } i++
      if (t === 'begins_with') return typeof val(args[0]) === 'string' && val(args[0]).startsWith(val(args[1]))
      if (t === 'attribute_not_exists') return val(args[0]) === undefined
      if (t === 'attribute_exists') return val(args[0]) !== undefined
      throw new Error(`fake dynamo: ${t}`)
    }
    const op = toks[i++], a = val(t), b = val(toks[i++])
    return op === '=' ? a === b : op === '<>' ? a !== b : a === undefined ? false : op === '<' ? a < b : op === '>' ? a > b : op === '<=' ? a <= b : a >= b
  }
  return or()
}
const dynamo = (nb, env, { page = env.page ?? 2 } = {}) => {
  const t = new Map(), key = (k) => JSON.stringify([k.pk, k.sk])
  const cond = (c, item) => { if (c.ConditionExpression && !evalExpr(c.ConditionExpression, item, c.ExpressionAttributeNames ?? {}, c.ExpressionAttributeValues ?? {})) throw Object.assign(new Error('The conditional request failed'), { name: 'ConditionalCheckFailedException' }) }
  const marshal = (item) => { for (const [k, v] of Object.entries(item)) if (v === undefined) throw new Error(`Pass options.removeUndefinedValues=true to remove undefined values (${k})`); return structuredClone(item) }
  const client = {
    async send(c) {
      await env.gate?.(c.op)
      const I = c.input
      if (c.op === 'Get') return { Item: structuredClone(t.get(key(I.Key))) }
      if (c.op === 'Put') { cond(I, t.get(key(I.Item))); t.set(key(I.Item), marshal(I.Item)); return {} }
      if (c.op === 'Delete') { cond(I, t.get(key(I.Key))); t.delete(key(I.Key)); return {} }
      if (c.op === 'BatchWrite') {
        const reqs = Object.values(I.RequestItems).flat(); if (reqs.length > 25) throw new Error('ValidationException: too many items')
        for (const r of reqs) r.PutRequest ? t.set(key(r.PutRequest.Item), marshal(r.PutRequest.Item)) : t.delete(key(r.DeleteRequest.Key))
        return { UnprocessedItems: {} }
      }
      if (c.op === 'Query') {
        let all = [...t.values()].filter((i) => evalExpr(I.KeyConditionExpression, i, I.ExpressionAttributeNames ?? {}, I.ExpressionAttributeValues ?? {}))
        all.sort((a, b) => Buffer.compare(Buffer.from(a.sk), Buffer.from(b.sk)))
        if (I.ScanIndexForward === false) all.reverse()
        if (I.ExclusiveStartKey) all = all.filter((i) => Buffer.compare(Buffer.from(i.sk), Buffer.from(I.ExclusiveStartKey.sk)) > 0)
        // one response carries at most 1 MB (here: `page` items) and at most Limit items
        const n = Math.min(I.Limit ?? Infinity, page), out = all.slice(0, n)
        return { Items: structuredClone(out), Count: out.length, ...(out.length === n && n > 0 ? { LastEvaluatedKey: { pk: out[n - 1].pk, sk: out[n - 1].sk } } : {}) }
      }
      throw new Error(`fake dynamo: ${c.op}`)
    },
  }
  return { open: () => nb.dynamo.dynamo({ table: 'T', client }), cas: true }
}

// ── S3 / R2 ───────────────────────────────────────────────────────────────
const s3server = (env, page) => {
  const o = new Map()
  return {
    async send(c) {
      await env.gate?.(c.op)
      const I = c.input
      if (c.op === 'GetObject') { const b = o.get(I.Key); if (b === undefined) throw Object.assign(new Error('The specified key does not exist.'), { name: 'NoSuchKey' }); return { Body: { transformToString: async () => b, transformToByteArray: async () => Buffer.from(b) } } }
      if (c.op === 'HeadObject') { if (!o.has(I.Key)) throw Object.assign(new Error('NotFound'), { name: 'NotFound' }); return {} }
      if (c.op === 'PutObject') { o.set(I.Key, typeof I.Body === 'string' ? I.Body : Buffer.from(I.Body).toString()); return {} }
      if (c.op === 'DeleteObject') { o.delete(I.Key); return {} }
      if (c.op === 'DeleteObjects') { for (const k of I.Delete.Objects) o.delete(k.Key); return {} }
      if (c.op === 'HeadBucket') return {}
      if (c.op === 'ListObjectsV2') {
        let keys = [...o.keys()].filter((k) => k.startsWith(I.Prefix ?? '')).sort((a, b) => Buffer.compare(Buffer.from(a), Buffer.from(b)))
        const after = I.ContinuationToken ? Buffer.from(I.ContinuationToken, 'base64').toString() : I.StartAfter
        if (after) keys = keys.filter((k) => Buffer.compare(Buffer.from(k), Buffer.from(after)) > 0)
        const n = Math.min(I.MaxKeys ?? 1000, page), out = keys.slice(0, n), more = keys.length > n
        return { ...(out.length ? { Contents: out.map((Key) => ({ Key })) } : {}), KeyCount: out.length, IsTruncated: more, ...(more ? { NextContinuationToken: Buffer.from(out[out.length - 1]).toString('base64') } : {}) }
      }
      throw new Error(`fake s3: ${c.op}`)
    },
  }
}
const s3 = (nb, env, { page = env.page ?? 2, prefix } = {}) => { const client = s3server(env, page); return { open: () => nb.s3.s3({ bucket: 'B', client, ...(prefix ? { prefix } : {}) }), cas: true, paths: true } }
const r2 = (nb, env, { page = env.page ?? 2 } = {}) => { const client = s3server(env, page); return { open: () => nb.r2.r2({ bucket: 'B', client }), cas: true, paths: true } }

// ── browsers ──────────────────────────────────────────────────────────────
export class FakeLocalStorage {
  #m = new Map()
  get length() { return this.#m.size }
  key(i) { return [...this.#m.keys()][i] ?? null }
  getItem(k) { return this.#m.has(String(k)) ? this.#m.get(String(k)) : null }
  setItem(k, v) { this.#m.set(String(k), String(v)) }
  removeItem(k) { this.#m.delete(String(k)) }
  clear() { this.#m.clear() }
}
const local = (nb, env, { obfuscate = false } = {}) => {
  globalThis.localStorage = new FakeLocalStorage()
  localStorage.setItem('unrelated', 'x')
  return { open: () => nb.local.browserLocalStore({ prefix: 'p', obfuscate }), cas: true, keySep: obfuscate ? null : ':' }
}
/** IndexedDB with one object store, exclusive readwrite transactions and auto-commit. */
export class FakeIdb {
  constructor(env) { this.dbs = new Map(); this.env = env; this.queue = []; this.pumping = false }
  open(name) {
    const req = {}
    queueMicrotask(() => {
      let stores = this.dbs.get(name); const fresh = !stores
      if (fresh) { stores = new Map(); this.dbs.set(name, stores) }
      const idb = this
      req.result = {
        objectStoreNames: { contains: (n) => stores.has(n) },
        createObjectStore: (n) => { stores.set(n, new Map()); return {} },
        transaction: (n, mode = 'readonly') => idb.tx(stores.get(Array.isArray(n) ? n[0] : n), mode),
        close() {},
      }
      if (fresh) req.onupgradeneeded?.({ target: req })
      req.onsuccess?.({ target: req })
    })
    return req
  }
  tx(map, mode) {
    const t = { map, mode, reqs: [], done: false, started: false, undo: new Map(map), error: null, idb: this }
    const ask = (fn) => { if (t.done) throw Object.assign(new Error('transaction inactive'), { name: 'TransactionInactiveError' }); const r = {}; t.reqs.push({ r, fn }); this.pump(); return r }
    const cmp = (a, b) => (a < b ? -1 : a > b ? 1 : 0)
    const keys = () => [...map.keys()].sort(cmp)
    const inRange = (k, q) => q === undefined || q === null || (typeof q === 'object' ? (q.lower === undefined || (q.lowerOpen ? k > q.lower : k >= q.lower)) && (q.upper === undefined || (q.upperOpen ? k < q.upper : k <= q.upper)) : k === q)
    t.objectStore = () => ({
      get: (k) => ask(() => structuredClone(map.get(k))),
      getKey: (k) => ask(() => (map.has(k) ? k : undefined)),
      put: (v, k) => { const c = structuredClone(v); return ask(() => { map.set(k, c); return k }) },
      delete: (k) => ask(() => { for (const x of keys()) if (inRange(x, k)) map.delete(x) }),
      getAllKeys: (q) => ask(() => keys().filter((k) => inRange(k, q))),
      getAll: (q) => ask(() => keys().filter((k) => inRange(k, q)).map((k) => structuredClone(map.get(k)))),
      count: (q) => ask(() => keys().filter((k) => inRange(k, q)).length),
    })
    t.abort = () => { if (t.done) return; t.done = true; map.clear(); for (const [k, v] of t.undo) map.set(k, v); t.onabort?.({ target: t }) }
    this.queue.push(t)
    this.pump()
    return t
  }
  async pump() {
    if (this.pumping) return
    this.pumping = true
    for (;;) {
      for (let i = 0; i < 8; i++) await null // the turn that created the transaction may still add requests
      this.queue = this.queue.filter((t) => !t.done)
      const t = this.queue[0] // strictly in creation order: stronger isolation than needed, never weaker
      if (!t) break
      const q = t.reqs.shift()
      if (!q) { // nothing outstanding: commit
        try { await this.env.gate?.('commit') } catch (e) { t.error = e; t.abort(); continue }
        t.done = true; t.oncomplete?.({ target: t }); continue
      }
      try { await this.env.gate?.('request'); q.r.result = q.fn(); q.r.onsuccess?.({ target: q.r }) } catch (e) {
        q.r.error = e; q.r.onerror?.({ target: q.r }); t.error = e; t.onerror?.({ target: t }); t.abort()
      }
    }
    this.pumping = false
  }
}
const idb = (nb, env, { obfuscate = false } = {}) => {
  const server = new FakeIdb(env)
  globalThis.indexedDB = server
  globalThis.IDBKeyRange = { bound: (lower, upper, lowerOpen = false, upperOpen = false) => ({ lower, upper, lowerOpen, upperOpen }), only: (k) => k, lowerBound: (lower, lowerOpen = false) => ({ lower, lowerOpen }), upperBound: (upper, upperOpen = false) => ({ upper, upperOpen }) }
  return { open: () => nb.idb.browserIdbStore({ prefix: 'p', obfuscate }), cas: true, keySep: obfuscate ? null : ':', server }
}

// ── files ─────────────────────────────────────────────────────────────────
const file = (nb, env, { pretty = true } = {}) => { FS.reset(); FS.gate = env.gate ?? null; return { open: () => nb.file.jsonFile({ dir: '/data/db', pretty }), cas: true, paths: true } }
const nfs = (nb, env) => {
  FS.reset(); FS.gate = env.gate ?? null
  return { open: () => nb.nfs.nfs({ mountPath: '/mnt/x', mountDetector: async () => ({ exists: true, fstype: 'nfs4', options: ['rw', 'noac'] }) }), cas: true, paths: true }
}
/** A remote file tree; `flavour` says how the client reports what is missing. */
function remote(env, flavour) {
  const files = new Map(), dirs = new Set(['/'])
  const n = (p) => '/' + p.split(/[\\/]/).filter((x) => x !== '' && x !== '.').join('/')
  const up = (p) => p.slice(0, p.lastIndexOf('/')) || '/'
  return {
    async readFile(p) { await env.gate?.(`read ${p}`); const f = files.get(n(p)); return f === undefined ? null : Buffer.from(f) },
    async writeFile(p, d) { await env.gate?.(`write ${p}`); p = n(p); if (!dirs.has(up(p))) throw new Error(`no such directory ${up(p)}`); files.set(p, Buffer.from(d)) },
    async unlink(p) { await env.gate?.(`unlink ${p}`); if (!files.delete(n(p)) && flavour === 'smb') throw new Error('STATUS_OBJECT_NAME_NOT_FOUND') },
    async mkdir(p, recursive) {
      await env.gate?.(`mkdir ${p}`); p = n(p)
      if (recursive) { let c = ''; for (const s of p.split('/').filter(Boolean)) { c += '/' + s; dirs.add(c) } return }
      if (dirs.has(p)) throw new Error('exists'); if (!dirs.has(up(p))) throw new Error('no parent'); dirs.add(p)
    },
    async rename(a, b) { await env.gate?.(`rename ${a} ${b}`); const f = files.get(n(a)); if (f === undefined) throw new Error('no such file'); files.delete(n(a)); files.set(n(b), f) },
    async readdir(p) {
      await env.gate?.(`readdir ${p}`); p = n(p)
      if (!dirs.has(p)) { if (flavour === 'ssh') return []; throw new Error('STATUS_OBJECT_PATH_NOT_FOUND') }
      const pre = p === '/' ? '/' : p + '/', out = new Set()
      for (const k of [...files.keys(), ...dirs]) if (k !== p && k.startsWith(pre)) out.add(k.slice(pre.length).split('/')[0])
      return [...out]
    },
  }
}
const smb = (nb, env) => { const h = remote(env, 'smb'); return { open: () => nb.smb.smb({ smb: h }), cas: false, paths: true } }
const ssh = (nb, env) => { const h = remote(env, 'ssh'); return { open: () => nb.ssh.ssh({ sftp: h }), cas: false, paths: true } }
const webdav = (nb, env, { prefix = '', eager = false } = {}) => {
  const files = new Map(), dirs = new Set([''])
  const res = (status, body = '') => ({ status, ok: status >= 200 && status < 300, text: async () => body, json: async () => JSON.parse(body), headers: new Map() })
  const fetch = async (url, init = {}) => {
    const m = init.method ?? 'GET'
    await env.gate?.(`${m} ${url}`)
    const segs = new URL(url).pathname.split('/').filter(Boolean).slice(1) // drop /dav
    const p = segs.map((s) => '/' + s).join('') // kept percent-encoded: the server's own names
    const up = p.slice(0, p.lastIndexOf('/'))
    if (m === 'GET') return files.has(p) ? res(200, files.get(p)) : res(404)
    if (m === 'PUT') { if (!dirs.has(up)) return res(409); const had = files.has(p); files.set(p, init.body); return res(had ? 204 : 201) }
    if (m === 'DELETE') { if (files.delete(p)) return res(204); if (!dirs.has(p)) return res(404); for (const k of [...files.keys()]) if (k.startsWith(p + '/')) files.delete(k); for (const d of [...dirs]) if (d === p || d.startsWith(p + '/')) dirs.delete(d); return res(204) }
    if (m === 'MKCOL') { if (dirs.has(p) || files.has(p)) return res(405); if (!dirs.has(up)) return res(409); dirs.add(p); return res(201) }
    if (m === 'PROPFIND') {
      if (!dirs.has(p)) return res(404)
      const hrefs = [`/dav${p}/`]
      for (const k of files.keys()) if (k.startsWith(p + '/') && !k.slice(p.length + 1).includes('/')) hrefs.push(`/dav${k}`)
      for (const d of dirs) if (d !== p && d.startsWith(p + '/') && !d.slice(p.length + 1).includes('/')) hrefs.push(`/dav${d}/`)
      return res(207, `<?xml version="1.0"?><d:multistatus xmlns:d="DAV:">${hrefs.map((h) => `<d:response><d:href>${h}</d:href></d:response>`).join('')}</d:multistatus>`)
    }
    throw new Error(`fake webdav: ${m}`)
  }
  return { open: () => nb.webdav.webdav({ baseUrl: 'http://h/dav', fetch, ...(prefix ? { prefix } : {}), eagerMkcol: eager }), cas: false, paths: true, urls: true }
}
const memory = (nb) => { const s = nb.memory.memory(); return { open: () => s, cas: true, tx: true, atomic: true, sync: true } }

export const STORE_MODULES = {
  hub: '@noy-db/hub', memory: '@noy-db/to-memory', file: '@noy-db/to-file', sqlite: '@noy-db/to-sqlite', postgres: '@noy-db/to-postgres', supabase: '@noy-db/to-supabase',
  mysql: '@noy-db/to-mysql', turso: '@noy-db/to-turso', d1: '@noy-db/to-cloudflare-d1', dynamo: '@noy-db/to-aws-dynamo', s3: '@noy-db/to-aws-s3', r2: '@noy-db/to-cloudflare-r2',
  local: '@noy-db/to-browser-local', idb: '@noy-db/to-browser-idb', smb: '@noy-db/to-smb', ssh: '@noy-db/to-ssh', webdav: '@noy-db/to-webdav', nfs: '@noy-db/to-nfs',
}
export const STORE_BUNDLE = { fakeFs: true, fakeAws: true }
export const BACKENDS = {
  memory, file, 'file-compact': (n, e) => file(n, e, { pretty: false }), nfs, sqlite, postgres, supabase, mysql, 'mysql-execute': (n, e) => mysql(n, e, { query: false }), turso, 'turso-nobatch': (n, e) => turso(n, e, { batch: false }), d1,
  dynamo, s3, 's3-prefix': (n, e) => s3(n, e, { prefix: 'a/b' }), r2, local, 'local-obf': (n, e) => local(n, e, { obfuscate: true }), idb, 'idb-obf': (n, e) => idb(n, e, { obfuscate: true }),
  smb, ssh, webdav, 'webdav-prefix': (n, e) => webdav(n, e, { prefix: 'pre', eager: true }),
}
