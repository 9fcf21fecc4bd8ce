// P19 — backups: dump → load restores everything; changed backups are rejected; the integrity check is exact.
import { resetWorld, W } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'

const txt = new TextEncoder()
const LAZY = { prefetch: false, cache: { maxRecords: 1 }, indexes: ['f'] }
const COLL = { a: {}, b: {}, lazy: LAZY, lww: { crdt: 'lww-map' }, rga: { crdt: 'rga' }, det: { deterministicFields: ['f'], acknowledgeDeterministicRisk: true }, aud: { blobFields: { s: { evictWhen: (r) => r.old === true } } }, tier: { tiers: [0, 1, 2] } }
const BOB = 'bob has a long passphrase'

// One operation per kind of vault content.
const OPS = {
  put: async (S) => { await S.c('a').put('x', { f: ++S.n, id: 'x' }) },
  put2: async (S) => { await S.c('a').put('x:1', { f: ++S.n }); await S.c('b').put('y', { g: [++S.n, null, { z: 'ไทย' }] }) },
  update: async (S) => { await S.c('a').put('x', { f: ++S.n }); await S.c('a').put('x', { f: ++S.n, h: 1 }) },
  del: async (S) => { await S.c('a').put('gone', { f: 1 }); await S.c('a').delete('gone'); await S.c('a').delete('x') },
  many: async (S) => { await S.c('b').putMany([['m1', { f: ++S.n }], ['m2', { f: 2 }]], { atomic: true }) },
  tx: async (S) => { const n = ++S.n; await S.db.transaction(async (tx) => { tx.vault(S.name).collection('a').put('x', { f: n }); tx.vault(S.name).collection('b').put('t', { f: n }) }) },
  revert: async (S) => { await S.c('b').put('r', { f: 1 }); await S.c('b').put('r', { f: ++S.n }); await S.c('b').revert('r', 1) },
  prune: async (S) => { for (let i = 0; i < 3; i++) await S.c('a').put('p', { f: ++S.n }); await S.c('a').pruneRecordHistory('p', { keepVersions: 1 }) },
  dict: async (S) => { const d = S.v.dictionary('status'); await d.put('open', { en: `Open ${++S.n}`, th: 'เปิด' }); await d.put('old', { en: 'Old' }) },
  dictDel: async (S) => { const d = S.v.dictionary('status'); await d.put('k1', { en: 'x' }); await d.rename('k1', 'k2'); await d.put('k3', { en: 'y' }); await d.delete('k3') },
  period: async (S) => { await S.v.closePeriod({ name: `p${++S.n}`, endDate: `2020-01-0${1 + (S.n % 8)}T00:00:00.000Z` }) },
  blob: async (S) => { await S.c('a').put('bl', { f: 1 }); const b = S.c('a').blob('bl'); await b.put('s', txt.encode(`bytes ${++S.n}`), { compress: false, chunkSize: 4, mimeType: 'text/x', filename: 'f.txt' }) },
  blobVer: async (S) => { await S.c('b').put('bl', { f: 1 }); const b = S.c('b').blob('bl'); await b.put('s', txt.encode('shared'), { compress: false }); await b.publish('s', 'v1'); await b.put('s', txt.encode(`second ${++S.n}`)) },
  lazy: async (S) => { await S.c('lazy').put('l1', { f: ++S.n }); await S.c('lazy').put('l2', { f: 'w' }); await S.c('lazy').put('l3', { f: 'w' }); await S.c('lazy').delete('l3') },
  crdt: async (S) => { await S.c('lww').put('q', { f: ++S.n }); await S.c('lww').put('q', { g: 1 }); await S.c('rga').put('q', [1, ++S.n]); await S.c('rga').put('q', [S.n]) },
  det: async (S) => { await S.c('det').put('d1', { f: 'same' }); await S.c('det').put('d2', { f: 'same', n: ++S.n }) },
  grant: async (S) => { await S.db.grant(S.name, { userId: 'bob', displayName: 'Bob', role: 'operator', passphrase: BOB, permissions: { a: 'rw' } }); S.bob = true },
  consent: async (S) => { await S.v.withConsent({ purpose: 'test', consentHash: 'ab'.repeat(32) }, async () => { await S.c('a').put('cs', { f: ++S.n }) }) },
  // one entry in every audit trail a vault keeps besides the ledger
  audit: async (S) => {
    await S.c('aud').put('u', { f: ++S.n, old: true }); await S.c('aud').blob('u').put('s', txt.encode(`evicted ${S.n}`), { compress: false })
    await S.v.compact()
    if (!S.encrypt || S.keepUsers) return
    await S.db.grant(S.name, { userId: 'exp', displayName: 'Exp', role: 'admin', passphrase: BOB, exportCapability: { plaintext: ['blob'] } })
    const E = start(S.nb, S.data, { name: S.name, user: 'exp', secret: BOB }); await E.open()
    for await (const _ of E.v.exportBlobs({ collections: ['a'] })) ;
    E.db.close()
    await S.c('tier').putAtTier('t', { f: S.n }, 1)
    const h = await S.v.elevate(1, { ttlMs: 1000, reason: 'why' }); await h.collection('tier').put('e', { f: ++S.n }); await h.release()
    await S.v.delegate({ toUser: 'bob', tier: 1, collection: 'tier', until: '2030-01-01T00:00:00.000Z' })
  },
  reopen: async (S) => { S.db.close(); await S.open() },
  rotate: async (S) => { await S.c('a').put('x', { f: ++S.n }); await S.db.rotate(S.name, ['a']) },
  revoke: async (S) => { await S.c('a').put('x', { f: ++S.n }); await S.db.grant(S.name, { userId: 'eve', displayName: 'Eve', role: 'operator', passphrase: 'eve has a long phrase', permissions: { a: 'rw' } }); await S.db.revoke(S.name, { userId: 'eve', rotateKeys: true }); S.bob = false },
  rollback: async (S) => { await S.c('a').put('x', { f: ++S.n }); S.failPut = 'zz'; await attempt(() => S.db.transaction(async (tx) => { tx.vault(S.name).collection('a').put('x', { f: -1 }); tx.vault(S.name).collection('b').put('zz', { f: -1 }) })); S.failPut = null },
}
const NAMES = Object.keys(OPS)
const ENC_ONLY = new Set(['grant', 'rotate', 'revoke', 'det'])
const EVERY = ['put', 'put2', 'update', 'del', 'many', 'tx', 'revert', 'prune', 'dict', 'dictDel', 'period', 'blob', 'blobVer', 'lazy', 'crdt', 'det', 'consent', 'audit', 'grant', 'put']

function start(nb, data, { name = 'V', encrypt = true, secret = PASS, user = 'owner' } = {}) {
  const S = { nb, data, name, n: 0, encrypt }
  const base = plainStore(nb.hub, data)
  S.store = { ...base, put: async (...a) => { if (S.failPut && a[2] === S.failPut) throw new Error('disk full'); return base.put(...a) } }
  S.open = async () => {
    S.db = await openDb(nb, S.store, { encrypt, secret, user, except: ['sync', 'session'], history: { enabled: true } })
    S.v = await S.db.openVault(name)
    for (const c of Object.keys(COLL)) if (encrypt || (c !== 'det' && c !== 'tier')) S.v.collection(c, COLL[c])
  }
  S.c = (c) => S.v.collection(c, COLL[c])
  return S
}
/** Everything a user can see in the vault. */
async function probe(S, { ledger = true, meta = true } = {}) {
  const out = {}
  const rd = async (k, f) => { const r = await attempt(f); out[k] = r.ok ? r.val : `!${errName(r)}` }
  const v = S.v
  for (const c of Object.keys(COLL)) {
    if ((c === 'det' || c === 'tier') && !S.encrypt) continue
    const C = v.collection(c, COLL[c])
    if (c === 'lazy') {
      for (const id of ['l1', 'l2', 'l3']) await rd(`lazy/${id}`, () => C.get(id))
      await rd('lazy?w', async () => (await C.lazyQuery().where('f', '==', 'w').toArray()).map(canon).sort())
    } else await rd(`${c}*`, async () => (await C.list()).map(canon).sort())
  }
  for (const [c, id] of [['a', 'x'], ['a', 'x:1'], ['a', 'p'], ['a', 'gone'], ['a', 'cs'], ['a', 'bl'], ['b', 'y'], ['b', 'r'], ['b', 't'], ['b', 'm1'], ['lww', 'q'], ['rga', 'q']]) {
    const C = v.collection(c, COLL[c])
    await rd(`${c}/${id}`, () => C.get(id))
    await rd(`${c}/${id} history`, async () => (await C.history(id)).map((h) => [h.version, h.record]))
  }
  await rd('dict', async () => (await v.dictionary('status').list()).map(canon).sort())
  await rd('periods', async () => (await v.listPeriods()).map((p) => ({ ...p })))
  for (const c of ['a', 'b']) await rd(`${c} blobs`, async () => { const b = v.collection(c, COLL[c]).blob('bl'); const o = {}; for (const s of await b.list()) o[s.name] = [s.filename, s.mimeType, s.size, Buffer.from((await b.get(s.name)) ?? []).toString()]; for (const x of await b.listVersions('s')) o[`v:${x.label}`] = Buffer.from((await b.getVersion('s', x.label)) ?? []).toString(); return o })
  if (S.encrypt) await rd('det', async () => (await v.collection('det', COLL.det).queryByDet('f', 'same')).map(canon).sort())
  await rd('consent', async () => (await v.consentAudit()).map((e) => [e.actor, e.purpose, e.collection, e.recordId ?? e.id, e.op]))
  for (const t of ['_export_audit', '_blob_eviction_audit', '_elevation_audit', '_delegations']) out[`trail ${t}`] = [...S.data.ids(S.name, t)].sort().map((id) => [id, S.data.get(S.name, t, id)._data])
  if (meta) await rd('users', async () => (await S.db.listUsers(S.name)).map((x) => [x.userId, x.role, x.permissions]).map(canon).sort())
  if (ledger) await rd('ledger', async () => { const L = v.ledger(), ver = await L.verify(); return [ver.ok, ver.head, (await L.entries()).map((e) => [e.op, e.collection, e.id, e.version, e.actor, e.ts])] })
  if (ledger) await rd('timeline', async () => { const o = []; for (const e of await v.ledger().entries()) if (e.collection === 'a' || e.collection === 'b') o.push([e.ts, e.id, (await attempt(() => v.at(e.ts).collection(e.collection).get(e.id)).then((r) => (r.ok ? r.val : '!')))]); return o })
  return out
}
const diffOf = (x, y) => Object.keys({ ...x, ...y }).filter((k) => !same(x[k], y[k]))
const stable = (json) => { const j = JSON.parse(json); delete j._exported_at; return canon(j) }
const clip = (x) => { const s = typeof x === 'string' ? x : canon(x); return s.length > 160 ? s.slice(0, 160) + '…' : s }

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of histories over an operation alphabet covering every kind of vault content, each dumped and restored into an empty store, another vault name and the changed vault itself with all probes compared; exhaustive enumeration of changes to every field of a backup',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 2 : 3} over ${NAMES.length} operations, encrypted and plaintext, plus one history with every kind of content; every value of the records, dictionaries, periods, ledger and head of two backups changed, removed and exchanged with every other of its kind`,
  assumptions: ['no write overlaps the dump', 'a record injected under an id the ledger has never seen, or whose last ledger entry is a deletion, is outside what the integrity check promises (documented)', 'a backup whose ledger head was removed is a legacy backup (documented)', 'version, time and author in an envelope are not covered by the integrity check (contents are)'],
  units(tier) {
    const out = []
    for (const encrypt of [true, false]) for (let i = 0; i < NAMES.length; i++) if (encrypt || !ENC_ONLY.has(NAMES[i])) out.push({ hist: i, encrypt, len: tier === 'quick' ? 2 : 3 })
    out.push({ every: true }, { every: false })
    for (const base of ['small', 'once', 'every']) for (let k = 0; k < 6; k++) out.push({ tamper: base, k })
    return out
  },
  async runUnit(u, ctx) {
    if (u.every !== undefined) return roundTrip(ctx, u.every ? EVERY : EVERY.filter((o) => !ENC_ONLY.has(o)), u.every)
    if (u.tamper) return tamper(u, ctx)
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(NAMES.length, len - 1)) {
      const seq = [u.hist, ...rest].map((k) => NAMES[k])
      if (!u.encrypt && seq.some((o) => ENC_ONLY.has(o))) continue
      await roundTrip(ctx, seq, u.encrypt)
    }
  },
}

async function roundTrip(ctx, seq, encrypt) {
  const nb = ctx.nb
  resetWorld(1, { tick: 1 })
  const how = `${encrypt ? '' : 'plaintext: '}${seq.join(', ')}`
  const data = new Data()
  const S = start(nb, data, { encrypt })
  await S.open()
  for (const o of seq) { await OPS[o](S); ctx.trans() }
  ctx.exec()
  // what the operations in the history make of the ledger (known findings)
  const stale = ['rotate', 'revoke', 'rollback'].filter((o) => seq.includes(o))
  const tag = stale.length ? `:after-${stale[0]}` : ''
  // the integrity check accepts an untouched vault
  const ok = await attempt(() => S.v.verifyBackupIntegrity())
  if (!ok.ok || ok.val.ok !== true) {
    ctx.violation(`integrity${tag}`, `${how}: an untouched vault is reported as ${ok.ok ? ok.val.message : ok.err}`)
    if (stale.length) return
  }
  const before = await probe(S)
  const dump = await S.v.dump()
  if (!same(await probe(S), before)) ctx.violation('dump-changes', `${how}: dump changed the vault: ${diffOf(await probe(S), before)}`)
  if (encrypt && S.bob) {
    const B = start(nb, data, { user: 'bob', secret: BOB }); await B.open()
    before.bob = await attempt(async () => (await B.v.collection('a', COLL.a).list()).map(canon).sort()).then((r) => (r.ok ? r.val : `!${errName(r)}`))
  }
  ctx.state(before)
  const check = async (T, key, what, exp = before) => {
    const got = await probe(T)
    if (exp.bob) {
      const B = start(nb, T.data, { user: 'bob', secret: BOB, name: T.name }); await B.open()
      got.bob = await attempt(async () => (await B.v.collection('a', COLL.a).list()).map(canon).sort()).then((r) => (r.ok ? r.val : `!${errName(r)}`))
      B.db.close()
    }
    const d = diffOf(exp, got)
    if (d.length) ctx.violation(`${key}:${d[0].split(/[/ *]/)[0]}`, `${how}: ${what}: ${d.map((k) => `${k} is ${clip(got[k])}, was ${clip(exp[k])}`).join('; ')}`)
    return got
  }
  const restore = async (T, key, what) => {
    const r = await attempt(() => T.v.load(dump))
    if (!r.ok) { ctx.violation(`${key}:load`, `${how}: ${what}: load fails with ${r.err}`); return false }
    await check(T, key, what)
    await check(await reopened(T), `${key}:reopen`, `${what}, reopened`)
    return true
  }
  const reopened = async (T) => { const R = start(nb, T.data, { encrypt, name: T.name }); await R.open(); return R }
  // into an empty store
  {
    const T = start(nb, new Data(), { encrypt }); await T.open()
    if (await restore(T, 'fresh', 'restored into an empty store')) {
      const again = await T.v.dump()
      if (stable(again) !== stable(dump)) ctx.violation('redump', `${how}: the dump of the restored vault differs`)
      // the restored vault is alive: new writes chain on and read back
      await T.c('a').put('x', { f: 'after' }); await T.c('b').put('fresh', { f: 1 })
      const L = await T.v.ledger().verify(), I = await T.v.verifyBackupIntegrity()
      if (!L.ok || !I.ok) ctx.violation('continue', `${how}: a write after the restore breaks the ledger or the integrity check (${canon(I)})`)
      const R = await reopened(T)
      if (!same(await R.c('a').get('x'), { f: 'after' }) || !same(await R.c('b').get('fresh'), { f: 1 })) ctx.violation('continue', `${how}: a write after the restore is lost`)
    }
  }
  // into another vault of a store that also holds others
  {
    const d2 = new Data(), N = start(nb, d2, { encrypt, name: 'N' }); await N.open(); await N.c('a').put('x', { mine: 1 })
    const T = start(nb, d2, { encrypt, name: 'W' }); await T.open()
    await restore(T, 'other', 'restored under another vault name')
    const N2 = start(nb, d2, { encrypt, name: 'N' }); await N2.open()
    if (!same(await N2.c('a').list(), [{ mine: 1 }])) ctx.violation('neighbour', `${how}: restoring changed another vault`)
  }
  // over the vault itself after further changes of every kind
  {
    const T = start(nb, data.clone(), { encrypt }); await T.open(); T.n = 50; T.keepUsers = true
    for (const o of ['put', 'put2', 'update', 'del', 'many', 'dict', 'dictDel', 'period', 'blob', 'blobVer', 'lazy', 'crdt', ...(encrypt ? ['det'] : []), 'consent', 'audit']) { const r = await attempt(() => OPS[o](T)); if (!r.ok) throw r.err }
    await restore(T, 'inplace', 'restored over the later state')
  }
  // a vault that has other contents of its own
  {
    const T = start(nb, new Data(), { encrypt }); await T.open(); T.n = 70
    for (const o of ['put', 'put2', 'dict', 'blob', 'lazy', 'period']) await OPS[o](T)
    await restore(T, 'replace', 'restored over other contents')
  }
}

// ── changed backups ─────────────────────────────────────────────────────────
async function tamper(u, ctx) {
  const nb = ctx.nb
  resetWorld(1, { tick: 1 })
  const S = start(nb, new Data()); await S.open()
  const seq = u.tamper === 'small' ? ['put', 'put2', 'update', 'put'] : u.tamper === 'once' ? ['put2', 'dict', 'many', 'put', 'put'] : EVERY
  for (const o of seq) await OPS[o](S)
  const good = await probe(S, { meta: false })
  const dump = JSON.parse(await S.v.dump())
  const ledgered = new Set((await S.v.ledger().entries()).filter((e) => e.op === 'put').map((e) => `${e.collection}/${e.id}`))
  const muts = []
  const add = (what, f) => muts.push({ what, f })
  const flip = (s) => (typeof s === 'number' ? s + 1 : (s[0] === 'A' ? 'B' : 'A') + s.slice(1))
  const last = (s) => s.slice(0, -5) + (s[s.length - 5] === 'A' ? 'B' : 'A') + s.slice(-4)
  const groups = {}
  for (const [sec, colls] of [['collections', dump.collections], ['_internal', dump._internal]]) for (const [c, recs] of Object.entries(colls)) {
    const led = c === '_ledger' || c === '_ledger_deltas'
    if (!led && c !== '_dict_status' && c !== '_periods' && sec === '_internal') continue
    for (const id of Object.keys(recs)) {
      if (!led && !ledgered.has(`${c}/${id}`)) continue
      const at = `${c}/${id}`
      const e = recs[id]
      for (const k of ['_iv', '_data']) if (e[k]) { add(`${k} of ${at} changed`, (b) => { b[sec][c][id][k] = flip(e[k]) }); add(`end of ${k} of ${at} changed`, (b) => { b[sec][c][id][k] = last(e[k]) }); add(`${k} of ${at} emptied`, (b) => { b[sec][c][id][k] = '' }); add(`${k} of ${at} cut short`, (b) => { b[sec][c][id][k] = e[k].slice(0, 8) }) }
      for (const k of ['_v', '_ts', '_by']) if (e[k] !== undefined) add(`${k} of ${at} changed`, (b) => { b[sec][c][id][k] = flip(e[k]) })
      add(`${at} removed`, (b) => { delete b[sec][c][id] })
      ;(groups[led ? c : 'records'] ??= []).push([sec, c, id])
    }
    if (Object.keys(recs).length) add(`collection ${c} removed`, (b) => { delete b[sec][c] })
    if (led) {
      const ids = Object.keys(recs)
      for (let n = 0; n < ids.length; n++) add(`${c} cut to ${n} entries`, (b) => { for (const id of ids.slice(n)) delete b[sec][c][id] })
      if (ids.length) add(`${c} duplicated at the end`, (b) => { const l = ids[ids.length - 1]; b[sec][c][String(Number(l) + 1).padStart(l.length, '0')] = recs[l] })
    }
  }
  for (const g of Object.values(groups)) for (const x of g) for (const y of g) {
    if (x === y) continue
    const get = (b, [s, c, id]) => b[s][c][id]
    add(`${x[1]}/${x[2]} replaced by ${y[1]}/${y[2]}`, (b) => { b[x[0]][x[1]][x[2]] = get(b, y) })
    if (g.indexOf(x) < g.indexOf(y)) add(`${x[1]}/${x[2]} and ${y[1]}/${y[2]} exchanged`, (b) => { const t = get(b, x); b[x[0]][x[1]][x[2]] = get(b, y); b[y[0]][y[1]][y[2]] = t })
  }
  for (const [k, f] of [['hash', flip]]) add(`head ${k} changed`, (b) => { b.ledgerHead[k] = f(dump.ledgerHead[k]) })
  add('head of an earlier entry', (b) => { b.ledgerHead.hash = '0'.repeat(64) })
  add('ledger emptied, head kept', (b) => { b._internal._ledger = {}; b._internal._ledger_deltas = {} })
  // an earlier backup's records with this backup's ledger, and the other way round
  {
    resetWorld(1, { tick: 1 })
    const E = start(nb, new Data()); await E.open()
    for (const o of seq.slice(0, -1)) await OPS[o](E)
    const early = JSON.parse(await E.v.dump())
    add('records of an earlier backup', (b) => { b.collections = early.collections })
    add('ledger of an earlier backup', (b) => { b._internal._ledger = early._internal._ledger; b._internal._ledger_deltas = early._internal._ledger_deltas })
    add('ledger and head of an earlier backup', (b) => { b._internal._ledger = early._internal._ledger; b._internal._ledger_deltas = early._internal._ledger_deltas; b.ledgerHead = early.ledgerHead })
  }
  const text = JSON.stringify(dump)
  for (let i = u.k; i < muts.length; i += 6) {
    const { what, f } = muts[i]
    const b = JSON.parse(text); f(b)
    resetWorld(3, { tick: 1 })
    const T = start(nb, new Data()); await T.open()
    const r = await attempt(() => T.v.load(JSON.stringify(b)))
    ctx.exec(); ctx.trans()
    if (!r.ok) {
      ctx.count('rejected')
      // the vault holds what was written, and the integrity check keeps saying so
      const R = start(nb, T.data); const o = await attempt(() => R.open())
      if (o.ok && !/^head|head of|earlier/.test(what)) { const I = await attempt(() => R.v.verifyBackupIntegrity()); if (I.ok && I.val.ok && I.val.head === dump.ledgerHead.hash) ctx.violation('tamper:check', `${what}: load rejected the backup (${r.err}) but the integrity check accepts the vault`) }
      continue
    }
    const got = await probe(T, { meta: false })
    const bad = Object.keys(good).filter((k) => !same(good[k], got[k]) && !String(got[k]).startsWith('!') && !(k === 'timeline' && (/^_(v|ts|by) of/.test(what) || got[k].every((e, j) => e[2] === '!' || same(e, good[k][j])))))
    if (bad.length) ctx.violation(`tamper:${what.replace(/[0-9]{2,}/g, 'N')}`, `backup with ${what} was accepted and shows ${bad.map((k) => `${k} = ${clip(got[k])} instead of ${clip(good[k])}`).join('; ')}`)
    else ctx.count('harmless')
  }
}
