// P48 — administration commands and the project wizard: the whole effect or none, and nothing else.
import path from 'node:path'
import fs from 'node:fs'
import { stripTypeScriptTypes } from 'node:module'
import { resetWorld, settle } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, strategies } from '../lib/noy.mjs'
import { FS } from '../lib/fakefs.mjs'

const REPO = process.env.NOYDB_REPO || '/repo'
const tree = (under = '/') => Object.fromEntries([...FS.files].filter(([k]) => k.startsWith(under)).map(([k, f]) => [k, f.data.toString('utf8')]).sort(([a], [b]) => (a < b ? -1 : 1)))
const quiet = async (f) => { const w = process.stdout.write; process.stdout.write = () => true; try { return await f() } finally { process.stdout.write = w } }

// ── commands on a vault ────────────────────────────────────────────────────
const SECRET = { alice: 'alice secret words 1', adam: 'adam secret words 2', ollie: 'ollie secret words 3', vic: 'vic secret words 4', nina: 'nina secret words 5' }
const add = (by, who, role, permissions, more = {}) => ({ cmd: 'addUser', by, who, role, permissions, ...more })
const COMMANDS = [
  add('alice', 'nina', 'viewer'), add('alice', 'nina', 'admin'), add('alice', 'nina', 'operator', { c1: 'ro' }), add('adam', 'nina', 'client', { c1: 'rw', c2: 'ro' }, { display: 'Nina N.' }),
  add('alice', 'nina', 'operator'), add('alice', 'nina', 'client', {}), add('alice', 'nina', 'viewer', undefined, { mismatch: true }), add('alice', 'nina', 'viewer', undefined, { wrong: true }),
  add('ollie', 'nina', 'viewer'), add('adam', 'nina', 'owner'), add('nina', 'vic', 'admin'), add('alice', 'nina', 'viewer', undefined, { cancel: true }),
  { cmd: 'rotate', by: 'alice' }, { cmd: 'rotate', by: 'alice', collections: ['c1'] }, { cmd: 'rotate', by: 'alice', collections: [] }, { cmd: 'rotate', by: 'alice', collections: ['c2', 'c1'] }, { cmd: 'rotate', by: 'vic', collections: ['c1'] }, { cmd: 'rotate', by: 'alice', wrong: true }, { cmd: 'rotate', by: 'nobody' }, { cmd: 'rotate', by: 'alice', empty: true }, { cmd: 'rotate', by: 'alice', cancel: true },
  { cmd: 'backup', by: 'alice', target: '/w/out/deep/b.json' }, { cmd: 'backup', by: 'alice', target: 'file:///w/b.json' }, { cmd: 'backup', by: 'adam', target: 'rel/b.json' }, { cmd: 'backup', by: 'alice', target: 'file://./rel/b.json' }, { cmd: 'backup', by: 'alice', target: 's3://bucket/x' }, { cmd: 'backup', by: 'alice', target: 'https://x/y' }, { cmd: 'backup', by: 'alice', target: '/w/b.json', wrong: true }, { cmd: 'backup', by: 'alice', target: '/w/file/x.json' }, { cmd: 'backup', by: 'alice', target: '/w/b.json', cancel: true },
]
const text = (c) => canon(c)
/** What everybody can read and is, as seen by opening the vaults from the files. */
async function access(nb) {
  const out = {}
  const saved = FS.snapshot()
  for (const [user, secret] of [...Object.entries(SECRET), ['nina', 'wrong words 9']]) {
    const r = await attempt(async () => {
      const db = await openDb(nb, nb.file.jsonFile({ dir: '/w/data' }), { user, secret, except: ['sync', 'session'] })
      const row = {}
      for (const [vault, colls] of [['V', ['c1', 'c2']], ['V2', ['c1']]]) {
        const o = await attempt(() => db.openVault(vault))
        if (!o.ok) { row[vault] = `!${errName(o)}`; continue }
        row[vault] = { role: o.val.role }
        for (const c of colls) { const l = await attempt(() => o.val.collection(c).list()); row[vault][c] = l.ok ? l.val.map((x) => canon(x)).sort() : `!${errName(l)}`; const w = await attempt(() => o.val.collection(c).put('probe', { n: 0 })); row[vault][`${c}w`] = errName(w) }
      }
      const us = await attempt(() => db.listUsers('V')); row.users = us.ok ? us.val.map((x) => canon([x.userId, x.displayName, x.role, x.permissions])).sort() : `!${errName(us)}`
      db.close()
      return row
    })
    out[`${user}/${secret}`] = r.ok ? r.val : `!${errName(r)}`
    FS.restore(saved)
  }
  return out
}
const dataOf = (c) => Object.fromEntries(Object.entries(tree(`/w/data/V/${c}/`)).map(([k, v]) => [k, JSON.parse(v)._data]))

async function commands(u, ctx) {
  const nb = ctx.nb, A = nb.admin
  for (let len = 0; len < u.len; len++) for (const rest of sequences(COMMANDS.length, len)) {
    const seq = [u.i, ...rest].map((i) => COMMANDS[i])
    ctx.exec(); resetWorld(1, { tick: 1 }); FS.reset()
    await settle(async () => {
      const db = await openDb(nb, nb.file.jsonFile({ dir: '/w/data' }), { user: 'alice', secret: SECRET.alice, except: ['sync', 'session'] })
      const v = await db.openVault('V'), v2 = await db.openVault('V2')
      for (const [i, id] of ['a', 'b', 'c'].entries()) await v.collection('c1').put(id, { id, n: i })
      await v.collection('c2').put('a', { id: 'a', t: 'ก' }); await v2.collection('c1').put('a', { id: 'other' })
      await db.openVault('Empty')
      for (const [userId, role, permissions] of [['adam', 'admin'], ['ollie', 'operator', { c1: 'rw' }], ['vic', 'viewer']]) await db.grant('V', { userId, displayName: userId, role, passphrase: SECRET[userId], ...(permissions ? { permissions } : {}) })
      db.close()
      FS.dirs.add('/w'); FS.files.set('/w/file', { data: Buffer.from('plain'), mtimeMs: 1 }); FS.files.set('/w/keep.txt', { data: Buffer.from('keep'), mtimeMs: 1 })
    })
    for (const [step, c] of seq.entries()) {
      const last = step === seq.length - 1
      const bad = (k, w) => { ctx.violation(`${c.cmd}:${k}`, `${seq.slice(0, step + 1).map(text).join(' then ')}: ${w}`, { seq }); return true }
      const before = FS.snapshot(), files = tree(), opened = [], asked = []
      const secret = c.wrong ? 'not the secret 0' : SECRET[c.by] ?? 'whatever words 7', vault = c.empty ? 'Empty' : 'V'
      // the same thing done directly with the hub, on a copy
      let want = null, refFiles = null, refAccess = null
      const valid = c.cmd === 'addUser' ? !(['operator', 'client'].includes(c.role) && !Object.keys(c.permissions ?? {}).length) : c.cmd === 'backup' ? !/^(s3|https):/.test(c.target) : true
      if (valid && !c.cancel && !c.mismatch) {
        want = await attempt(() => settle(async () => {
          const db = await openDb(nb, nb.file.jsonFile({ dir: '/w/data' }), { user: c.by, secret, use: c.cmd === 'backup' ? ['history'] : [] })
          try {
            if (c.cmd === 'addUser') return await db.grant(vault, { userId: c.who, displayName: c.display ?? c.who, role: c.role, passphrase: SECRET[c.who], ...(c.permissions ? { permissions: c.permissions } : {}) })
            const v = await db.openVault(vault)
            if (c.cmd === 'backup') return JSON.parse(await v.dump())
            const t = c.collections?.length ? c.collections : await v.collections()
            if (!t.length) throw new Error('nothing to rotate')
            await db.rotate(vault, t); return t
          } finally { db.close() }
        }))
        refFiles = tree(); if (last) refAccess = await settle(() => access(nb))
        FS.restore(before)
      }
      const readPassphrase = async (label) => {
        asked.push(label)
        if (c.cancel) throw new Error('cancelled')
        if (/confirm/i.test(label)) return c.mismatch ? 'something else 8' : SECRET[c.who]
        return c.cmd === 'addUser' && /new/i.test(label) ? SECRET[c.who] : secret
      }
      const createDb = async (o) => { const db = await nb.hub.createNoydb(o); opened.push(db); return db }
      const common = { dir: '/w/data', vault, readPassphrase, createDb }
      const r = await attempt(() => settle(() => (c.cmd === 'addUser' ? A.addUser({ ...common, callerUser: c.by, newUserId: c.who, role: c.role, ...(c.permissions ? { permissions: c.permissions } : {}), ...(c.display ? { newUserDisplayName: c.display } : {}) })
        : c.cmd === 'rotate' ? A.rotate({ ...common, user: c.by, ...(c.collections ? { collections: c.collections } : {}) })
          : A.backup({ ...common, user: c.by, target: c.target }))))
      ctx.trans()
      const blocked = c.cmd === 'backup' && c.target.startsWith('/w/file/')
      const expectOk = !!want?.ok && !blocked
      if (r.ok !== expectOk) return bad('outcome', `${r.ok ? `succeeds with ${canon(r.val)}` : `fails with ${r.err}`}, expected ${expectOk ? 'success' : `a refusal (${want ? errName(want) : 'invalid'})`}`)
      if (!valid && asked.length) return bad('asked', `a command that cannot be carried out asked for ${canon(asked)}`)
      if ((!valid || c.cancel || c.mismatch) && opened.length) return bad('opened', 'the vault was opened though the command was not to be carried out')
      for (const db of opened) { const o = await attempt(() => settle(() => db.openVault('V'))); if (o.ok) return bad('open', `the database is still open afterwards (${r.ok ? 'success' : 'failure'})`) }
      const now = tree()
      if (!r.ok) { if (!same(now, files)) return bad('trace', `a refused command changed ${canon(Object.keys({ ...now, ...files }).filter((k) => now[k] !== files[k]))}`) }
      else if (c.cmd === 'backup') {
        const target = path.resolve(process.cwd(), c.target.replace(/^file:\/\//, ''))
        const others = { ...now }; delete others[target]; const prior = { ...files }; delete prior[target]
        if (r.val.path !== target || now[target] === undefined) return bad('path', `the backup is reported at ${r.val.path}, expected ${target}; written ${canon(Object.keys(now).filter((k) => now[k] !== files[k]))}`)
        if (!same(others, prior)) return bad('trace', `the backup changed ${canon(Object.keys({ ...others, ...prior }).filter((k) => others[k] !== prior[k]))}`)
        if (r.val.bytes !== Buffer.byteLength(now[target])) return bad('bytes', `reports ${r.val.bytes} bytes, the file has ${Buffer.byteLength(now[target])}`)
        const d = JSON.parse(now[target]); const strip = (x) => { const y = { ...x }; for (const k of Object.keys(y)) if (/export|time|date|At$/i.test(k) && typeof y[k] === 'string') delete y[k]; return y }
        if (!same(strip(d), strip(want.val))) return bad('content', 'the backup differs from a dump of the vault')
        const restore = (dump) => attempt(() => settle(async () => {
          const db = await nb.hub.createNoydb({ store: plainStore(nb.hub, new Data()), user: c.by, secret, ...strategies(nb, ['history']) })
          const v = await db.openVault('V'); await v.load(dump)
          return { c1: (await v.collection('c1').list()).map((x) => x.id).sort(), c2: (await v.collection('c2').list()).map((x) => x.t), ok: (await v.ledger().verify()).ok }
        }))
        const T = await restore(now[target]), D = await restore(JSON.stringify(want.val))
        // a vault whose keys were rotated fails its own integrity check (known finding of P19): the backup is then as good as a dump
        const rotated = seq.slice(0, step).some((x) => x.cmd === 'rotate')
        if (T.ok !== D.ok || (T.ok ? !same(T.val, { c1: ['a', 'b', 'c'], c2: ['ก'], ok: true }) : !rotated)) return bad('restore', `the backup restores as ${T.ok ? canon(T.val) : T.err}`)
      } else {
        if (c.cmd === 'addUser' && !same(r.val, { userId: c.who, role: c.role })) return bad('result', `returns ${canon(r.val)}`)
        if (c.cmd === 'rotate') {
          if (!same(r.val, { rotated: want.val })) return bad('result', `returns ${canon(r.val)}, expected ${canon(want.val)}`)
          FS.restore({ ...before }); const old = { c1: dataOf('c1'), c2: dataOf('c2') }
          FS.restore({ files: new Map(Object.entries(now).map(([k, v]) => [k, { data: Buffer.from(v), mtimeMs: 1 }])), dirs: before.dirs, clock: before.clock })
          for (const k of ['c1', 'c2']) { const cur = dataOf(k); for (const f of Object.keys(old[k])) if ((cur[f] === old[k][f]) === want.val.includes(k)) return bad('rotated', `${f} ${want.val.includes(k) ? 'was not' : 'was'} encrypted anew`) }
        }
        if (!same(Object.keys(now), Object.keys(refFiles))) return bad('trace', `files are ${canon(Object.keys(now))}, expected ${canon(Object.keys(refFiles))}`)
        for (const k of Object.keys(now)) if (refFiles[k] === files[k] && now[k] !== files[k]) return bad('trace', `${k} changed`)
      }
      if (last && refAccess) { const got = await settle(() => access(nb)), exp = r.ok ? refAccess : null; if (exp && !same(got, exp)) return bad('access', `afterwards people can read ${canon(got)}, expected ${canon(exp)}`) }
      ctx.state([seq.slice(0, step + 1).map(text), r.ok])
    }
  }
}

/** Every file operation of a command fails once: the command fails or succeeds, and closes the database either way. */
async function faults(u, ctx) {
  const nb = ctx.nb, A = nb.admin, c = COMMANDS[u.c]
  for (let k = 0; k < 400; k++) {
    ctx.exec(); ctx.trans(); resetWorld(1, { tick: 1 }); FS.reset()
    await settle(async () => {
      const db = await openDb(nb, nb.file.jsonFile({ dir: '/w/data' }), { user: 'alice', secret: SECRET.alice, use: [] })
      const v = await db.openVault('V'); await v.collection('c1').put('a', { id: 'a', n: 1 }); await v.collection('c2').put('a', { id: 'a', n: 2 }); db.close()
    })
    const before = tree('/w/data/'), opened = []
    let n = 0, hit = null
    FS.gate = async (op, p, step) => { if (n++ === k) { hit = `${op} ${step} of ${p}`; throw Object.assign(new Error('EIO'), { code: 'EIO' }) } }
    const common = { dir: '/w/data', vault: 'V', readPassphrase: async (l) => (/new|confirm/i.test(l) ? SECRET.nina : SECRET.alice), createDb: async (o) => { const db = await nb.hub.createNoydb(o); opened.push(db); return db } }
    const r = await attempt(() => settle(() => (c.cmd === 'addUser' ? A.addUser({ ...common, callerUser: c.by, newUserId: c.who, role: c.role }) : c.cmd === 'rotate' ? A.rotate({ ...common, user: c.by }) : A.backup({ ...common, user: c.by, target: c.target }))))
    FS.gate = null
    const bad = (key, w) => ctx.violation(`fault:${key}:${c.cmd}`, `${text(c)}, ${hit} fails: ${w}`)
    for (const db of opened) { const o = await attempt(() => settle(() => db.openVault('V'))); if (o.ok) return bad('open', 'the database is still open afterwards') }
    if (c.cmd === 'backup' && !same(tree('/w/data/'), before)) return bad('trace', 'the vault changed')
    if (c.cmd === 'backup' && r.ok) { const f = FS.files.get(r.val.path)?.data.toString(); if (!f || Buffer.byteLength(f) !== r.val.bytes) return bad('backup', 'success is reported without a complete file') }
    if (c.cmd === 'addUser' && r.ok) { const o = await attempt(() => settle(async () => (await (await openDb(nb, nb.file.jsonFile({ dir: '/w/data' }), { user: c.who, secret: SECRET[c.who], use: [] })).openVault('V')).collection('c1').get('a'))); if (!o.ok || o.val?.n !== 1) return bad('grant', `success is reported, but ${c.who} reads ${o.ok ? canon(o.val) : o.err}`) }
    if (c.cmd !== 'rotate' || r.ok) { const o = await attempt(() => settle(async () => (await (await openDb(nb, nb.file.jsonFile({ dir: '/w/data' }), { user: 'alice', secret: SECRET.alice, use: [] })).openVault('V')).collection('c1').get('a'))); if (!o.ok || o.val?.n !== 1) return bad('lost', `the owner reads ${o.ok ? canon(o.val) : o.err}`) }
    ctx.state([c.cmd, hit ?? 'none', r.ok])
    if (hit === null) { if (!r.ok) bad('none', `fails without a fault: ${r.err}`); return }
  }
  ctx.capped('more than 400 file operations')
}

// ── generated collections ──────────────────────────────────────────────────
const NAMEC = ['a', 'z', '-', '1', 'A', '_', '/', '.', ' ', 'é', "'"]
const WORDS = ['invoices', 'client-contacts', 'new', 'class', 'delete', 'default', 'add-one', 'remove-one', 'crypto', 'a-1', 'a--b', 'a-', 'item', 'id', 'this', 'x-y-z', 'await', 'let', 'static', '../x', 'constructor', 'in', 'of', 'name', 'l'.repeat(60)]
const VAULTS = [undefined, 'acme', "O'Brien", 'a"b', 'back\\slash', 'line\nbreak', '${x}', '`', 'ก', '']
async function generated(ctx, name, vault, there) {
  const A = ctx.nb.admin
  ctx.exec(); ctx.trans(); FS.reset()
  const S = `/p/app/stores/${name}.ts`, P = `/p/app/pages/${name}.vue`
  for (const d of ['/p', '/p/app', '/p/app/stores', '/p/app/pages']) FS.dirs.add(d)
  FS.files.set('/p/app/stores/mine.ts', { data: Buffer.from('mine'), mtimeMs: 1 })
  if (there.includes('S')) FS.files.set(path.resolve(S), { data: Buffer.from('old'), mtimeMs: 1 })
  if (there.includes('P')) FS.files.set(path.resolve(P), { data: Buffer.from('old'), mtimeMs: 1 })
  const before = tree()
  const r = await attempt(() => A.addCollection({ name, cwd: '/p', ...(vault === undefined ? {} : { vault }) }))
  const now = tree(), bad = (k, w) => ctx.violation(`generate:${k}`, `collection ${JSON.stringify(name)} for vault ${JSON.stringify(vault)}${there ? ` with ${there} present` : ''}: ${w}`)
  const ok = /^[a-z][a-z0-9-]*$/.test(name) && !there
  if (r.ok !== ok) return bad('outcome', r.ok ? 'is generated' : `fails with ${r.err}`)
  if (!ok) { if (!same(now, before)) bad('trace', `a refused command wrote ${canon(Object.keys(now).filter((k) => now[k] !== before[k]))}`); return }
  if (!same(r.val, { files: [S, P] }) || !same(Object.keys(now), [...Object.keys(before), S, P].sort()) || now['/p/app/stores/mine.ts'] !== 'mine') return bad('files', `writes ${canon(Object.keys(now))}, reports ${canon(r.val)}`)
  // run the store
  let calls = [], fns = []
  try {
    const js = stripTypeScriptTypes(now[S]).replace(/export const (\w+)/g, (_, f) => { fns.push(f); return `exported.${f}` })
    new Function('exported', 'defineNoydbStore', js)({}, (...a) => { calls.push(a); return () => null })
  } catch (e) { return bad('store', `the store does not run: ${e}`) }
  if (calls.length !== 1 || calls[0][0] !== name || calls[0][1]?.vault !== (vault ?? 'default')) return bad('store', `the store is defined by ${canon(calls)}`)
  // run the page
  const m = /<script setup lang="ts">([^]*?)<\/script>/.exec(now[P]), v = /v-for="(\w+) in ([^"]+)\.items"/.exec(now[P])
  if (!m || !v) return bad('page', 'the page has no script or list')
  const log = [], stub = { $ready: Promise.resolve(), add: (x) => log.push(['add', x.id]), remove: (i) => log.push(['remove', i]), items: 'ITEMS' }
  try {
    const AF = Object.getPrototypeOf(async () => {}).constructor
    const f = new AF(fns[0], 'crypto_', `${stripTypeScriptTypes(m[1])}\naddOne(); removeOne('q'); return ${v[2]}.items`)
    const items = await f(() => stub, null)
    if (items !== 'ITEMS' || log.length !== 2 || typeof log[0][1] !== 'string' || log[1][1] !== 'q') return bad('page', `the page shows ${canon(items)} and does ${canon(log)}`)
  } catch (e) { return bad('page', `the page does not run: ${e}`) }
  ctx.state([name, vault ?? null])
}

// ── the wizard ─────────────────────────────────────────────────────────────
let templatesAt = null
function realTree(dir, rel = '') { const out = {}; for (const e of fs.readdirSync(path.join(dir, rel), { withFileTypes: true })) { const r = path.join(rel, e.name); if (e.isDirectory()) Object.assign(out, realTree(dir, r)); else out[r] = fs.readFileSync(path.join(dir, r), 'utf8') } return out }
const mkfile = (p, s) => { FS.files.set(p, { data: Buffer.from(s), mtimeMs: 1 }); for (let d = path.dirname(p); !FS.dirs.has(d); d = path.dirname(d)) FS.dirs.add(d) }
async function fresh(ctx) {
  const A = ctx.nb.admin
  resetWorld(1, { tick: 1 }); FS.reset(); FS.dirs.add('/p')
  const first = await attempt(() => A.runWizard({ yes: true, cwd: '/p', projectName: 'x', forceFresh: true, locale: 'en' }))
  templatesAt = path.dirname(first.err?.path ?? '')
  const src = realTree(path.join(REPO, 'packages/create-noy-db/templates'))
  for (const template of [undefined, 'nuxt-default', 'vanilla', 'vite-vue', 'electron']) for (const adapter of [undefined, 'browser', 'file', 'memory']) for (const sampleData of [undefined, true, false]) for (const state of ['none', 'empty', 'full', 'file', 'hidden']) for (const name of ['my-app', undefined, 'a.b_c', '$&', 'x{{ADAPTER}}']) {
    if (name !== 'my-app' && (state !== 'none' || sampleData === true)) continue
    ctx.exec(); ctx.trans(); FS.reset(); FS.dirs.add('/p')
    for (const [k, s] of Object.entries(src)) mkfile(path.join(templatesAt, k), s)
    mkfile('/p/keep.txt', 'keep'); mkfile('/p/my-app2/keep.txt', 'keep')
    if (state === 'empty') FS.dirs.add('/p/my-app')
    if (state === 'full') mkfile('/p/my-app/sub/x', 'old')
    if (state === 'hidden') mkfile('/p/my-app/.git', 'old')
    if (state === 'file') mkfile('/p/my-app', 'old')
    const before = tree()
    const r = await attempt(() => quiet(() => A.runWizard({ yes: true, cwd: '/p', locale: 'en', ...(name ? { projectName: name } : {}), ...(template ? { template } : {}), ...(adapter ? { adapter } : {}), ...(sampleData === undefined ? {} : { sampleData }) })))
    const now = tree(), bad = (k, w) => ctx.violation(`fresh:${k}`, `new project ${name} with ${template}, ${adapter}, ${sampleData}, target ${state}: ${w}`)
    const ok = state === 'none' || state === 'empty'
    if (r.ok !== ok) { bad('outcome', r.ok ? 'succeeds' : `fails with ${r.err}`); continue }
    if (!ok) { if (!same(now, before)) bad('trace', 'a refused project changed files'); continue }
    const proj = name ?? 'my-noy-db-app', tpl = template ?? 'nuxt-default', want = {}
    for (const [k, s] of Object.entries(src)) if (k.startsWith(`${tpl}/`)) {
      const rel = k.slice(tpl.length + 1).split('/').map((x) => (x.startsWith('_') ? `.${x.slice(1)}` : x)).join('/')
      want[rel] = s.split(/\{\{(\w+)\}\}/).map((part, i) => (i % 2 === 0 ? part : { PROJECT_NAME: proj, ADAPTER: adapter ?? 'browser', DEVTOOLS: 'true' }[part] ?? null))
    }
    const files = Object.keys(want).sort()
    if (!same(r.val.files, files) || r.val.projectPath !== `/p/${proj}` || r.val.kind !== 'fresh') bad('files', `reports ${canon(r.val.files)} at ${r.val.projectPath}`)
    if (!same(r.val.options, { projectName: proj, adapter: adapter ?? 'browser', sampleData: sampleData ?? true, cwd: '/p', template: tpl, syncAdapter: 'none' })) bad('options', `reports ${canon(r.val.options)}`)
    const changed = Object.keys({ ...now, ...before }).filter((k) => now[k] !== before[k]).sort()
    if (!same(changed, files.map((f) => `/p/${proj}/${f}`).sort())) bad('trace', `changed ${canon(changed)}`)
    for (const f of files) {
      const got = now[`/p/${proj}/${f}`] ?? ''
      // seed records stand where the template has null parts
      const rx = new RegExp(`^${want[f].map((x) => (x === null ? '(\\[[^]*?\\])' : x.replace(/[.*+?^${}()|[\]\\]/g, '\\$&'))).join('')}$`), m = rx.exec(got)
      if (!m) { bad('content', `${f} is ${got.slice(0, 200)}`); break }
      for (const seed of m.slice(1)) { let n; try { n = JSON.parse(seed).length } catch { n = -1 } if (n < 0 || (n > 0) !== (sampleData ?? true)) bad('seed', `${f} has seed records ${seed.slice(0, 80)}`) }
    }
    ctx.state([tpl, adapter ?? null, sampleData ?? null, state, name ?? null])
  }
}
const MODULES = ['', 'modules: [],', "modules: ['@pinia/nuxt'],", "modules: ['a', '@noy-db/in-nuxt'],", "modules: ['@noy-db/in-nuxt', 'b'],", "modules: [['a', { x: 1 }], 'b'],", "modules: ['@noy-db/in-nuxt-extra'],", 'modules: pick(),', "modules: 'a',"]
const NOYDB = ['', "noydb: { adapter: 'memory', custom: 1 },", 'noydb: {},']
const OTHER = ['', "ssr: false, nested: { modules: ['x'], noydb: 2 },", "// a comment\n  devtools: { enabled: true }, 'quoted-key': [1, 2],"]
const WRAP = { call: (b) => `export default defineNuxtConfig({\n  ${b}\n})\n`, object: (b) => `export default {\n  ${b}\n}\n`, none: (b) => `const c = {\n  ${b}\n}\n`, empty: () => 'export default defineNuxtConfig()\n' }
const evaluate = (code) => new Function('defineNuxtConfig', 'pick', code.replace('export default', 'return'))((x) => x, () => ['picked'])
async function augment(ctx, ext) {
  const A = ctx.nb.admin
  for (const [w, wrap] of Object.entries(WRAP)) for (const m of MODULES) for (const n of NOYDB) for (const o of OTHER) for (const adapter of [undefined, 'file']) for (const dryRun of [false, true]) for (const pkg of ['dependencies', 'devDependencies', 'peerDependencies', 'none', 'missing', 'broken']) {
    if (pkg !== 'dependencies' && (o || dryRun || n)) continue
    ctx.exec(); ctx.trans(); FS.reset(); resetWorld(1, { tick: 1 })
    const code = wrap([m, n, o].filter(Boolean).join('\n  ')), cfg = `/p/nuxt.config.${ext}`
    mkfile(cfg, code); mkfile('/p/keep.txt', 'keep')
    if (pkg !== 'missing') mkfile('/p/package.json', pkg === 'broken' ? '{' : JSON.stringify({ name: 'p', dependencies: {}, ...(pkg === 'none' ? { dependencies: { nuxtish: '1' } } : { [pkg]: { nuxt: '^4' } }) }))
    const before = tree(), bad = (k, x) => ctx.violation(`augment:${k}`, `${JSON.stringify(code)} with ${adapter}, dry ${dryRun}, nuxt in ${pkg}: ${x}`)
    const r = await attempt(() => quiet(() => A.runWizard({ yes: true, cwd: '/p', locale: 'en', ...(adapter ? { adapter } : {}), dryRun })))
    const now = tree()
    if (!['dependencies', 'devDependencies', 'peerDependencies'].includes(pkg)) { if (r.ok && r.val.kind !== 'fresh') bad('detect', `is taken for a Nuxt project: ${canon(r.val)}`); if (now[cfg] !== code) bad('detect', 'the config changed'); continue }
    const supported = w !== 'none' && w !== 'empty' && !/pick|'a',$/.test(m)
    const has = /'@noy-db\/in-nuxt'/.test(m), done = has && n !== ''
    const want = !supported ? 'unsupported-shape' : done ? 'already-configured' : dryRun ? 'dry-run' : 'written'
    if (!r.ok || r.val.kind !== 'augment' || r.val.reason !== want || r.val.changed !== (want === 'written') || r.val.configPath !== cfg) { bad('outcome', `${r.ok ? canon(r.val) : r.err}, expected ${want}`); continue }
    const rest = { ...now }, prior = { ...before }; delete rest[cfg]; delete prior[cfg]
    if (!same(rest, prior)) bad('trace', `other files changed: ${canon(Object.keys(rest))}`)
    if (want !== 'written') { if (now[cfg] !== code) bad('trace', `the config changed to ${now[cfg]}`); continue }
    let a, b; try { a = evaluate(code); b = evaluate(now[cfg]) } catch (e) { bad('broken', `the config no longer runs: ${e}\n${now[cfg]}`); continue }
    const exp = { ...a, modules: has ? a.modules : [...(a.modules ?? []), '@noy-db/in-nuxt'], noydb: a.noydb ?? { adapter: adapter ?? 'browser', pinia: true, devtools: true } }
    if (!same(b, exp)) bad('config', `the config becomes ${canon(b)}, expected ${canon(exp)}`)
    if (o.includes('// a comment') && !now[cfg].includes('// a comment')) bad('comment', 'a comment was lost')
    const again = await attempt(() => quiet(() => A.runWizard({ yes: true, cwd: '/p', locale: 'en', adapter: 'memory' })))
    if (!again.ok || again.val.reason !== 'already-configured' || !same(tree(), now)) bad('again', `a second run gives ${again.ok ? canon(again.val) : again.err}`)
    ctx.state([w, m, n, o, adapter ?? null])
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive histories of administration commands on a real file store in an in-memory file system, each compared with the same operation done directly with the hub; exhaustive enumeration of collection names, project states and configuration files for the generators, whose output is executed',
  modules: { ...HUB, file: '@noy-db/to-file', admin: 'packages/create-noy-db/src/index.ts' },
  bundleOpts: { fakeFs: true },
  bounds: (t) => `all histories of ${t === 'quick' ? 2 : 3} of ${COMMANDS.length} commands, every single failing file operation of three; all collection names of up to ${t === 'quick' ? 3 : 4} of ${NAMEC.length} characters and ${WORDS.length} words × vault names × present files; all templates × adapters × target states; ${Object.keys(WRAP).length} × ${MODULES.length} × ${NOYDB.length} × ${OTHER.length} configuration files`,
  assumptions: ['one command at a time', 'the wizard runs without prompts (yes)', 'project names are accepted ones', 'configuration files are plain JavaScript'],
  units(tier) {
    const out = []
    for (let i = 0; i < COMMANDS.length; i++) out.push({ kind: 'commands', i, len: tier === 'quick' ? 2 : 3 })
    for (let i = 0; i < NAMEC.length; i++) out.push({ kind: 'names', i, len: tier === 'quick' ? 3 : 4 })
    for (const c of [0, 12, 21]) out.push({ kind: 'faults', c })
    out.push({ kind: 'words' }, { kind: 'fresh' }, { kind: 'args' })
    for (const ext of ['ts', 'js', 'mjs']) out.push({ kind: 'augment', ext })
    return out
  },
  async runUnit(u, ctx) {
    const A = ctx.nb.admin
    if (u.kind === 'commands') return commands(u, ctx)
    if (u.kind === 'faults') return faults(u, ctx)
    if (u.kind === 'names') for (let len = 0; len < u.len; len++) for (const rest of sequences(NAMEC.length, len)) await generated(ctx, [u.i, ...rest].map((i) => NAMEC[i]).join(''), undefined, '')
    if (u.kind === 'words') for (const w of ['', ...WORDS]) for (const v of VAULTS) for (const there of v === undefined ? ['', 'S', 'P', 'SP'] : ['']) await generated(ctx, w, v, there)
    if (u.kind === 'fresh') await fresh(ctx)
    if (u.kind === 'augment') await augment(ctx, u.ext)
    if (u.kind === 'args') {
      const C = ['a', ',', ' ', 'b']
      for (let len = 0; len <= 6; len++) for (const s of sequences(C.length, len)) { ctx.exec(); ctx.trans(); const t = s.map((i) => C[i]).join(''), parts = t.split(',').map((x) => x.trim()).filter(Boolean), want = parts.length ? parts : null, got = A.parseCollectionList(t); if (!same(got, want)) ctx.violation('args:list', `collection list ${JSON.stringify(t)} is read as ${canon(got)}`) }
      if (A.parseCollectionList(undefined) !== null) ctx.violation('args:list', 'no collection list is read as something')
      for (const r of ['owner', 'admin', 'operator', 'viewer', 'client', '', 'Owner', 'root', 'toString', 'owner ', 'length']) { ctx.exec(); ctx.trans(); let got; try { got = A.assertRole(r) } catch { got = null } const want = ['owner', 'admin', 'operator', 'viewer', 'client'].includes(r) ? r : null; if (got !== want) ctx.violation('args:role', `role ${JSON.stringify(r)} gives ${got}`) }
      const v = await A.verifyIntegrity(); if (!v.ok) ctx.violation('verify', `the self test fails: ${v.message}`)
      ctx.state('args')
    }
  },
}
