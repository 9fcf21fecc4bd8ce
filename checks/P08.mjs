// P08 — roles and per-collection permissions decide every operation; a refused one changes nothing.
import { resetWorld, settle } from '../lib/world.mjs'
import { canon } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const ROLES = ['owner', 'admin', 'operator', 'viewer', 'client']
const PERMS = [undefined, 'ro', 'rw']
const COLLS = { eager: {}, indexed: { indexes: ['n'] }, lazy: { prefetch: false, cache: { maxRecords: 8 }, indexes: ['n'] }, lww: { crdt: 'lww-map' }, tiered: { tiers: [0, 1] } }
const drainAll = async (it) => { const out = []; for await (const r of it) out.push(r); return out }
// kind: read | write | admin. only: collection modes in which it applies
const OPS = {
  get: ['read', async (s, c) => canon(await c.get('a'))],
  list: ['read', async (s, c) => (await c.list()).length, ['eager', 'indexed']],
  query: ['read', async (s, c) => (await c.list(), await c.query().where('n', '==', 1).toArray()).length, ['eager', 'indexed']],
  scan: ['read', async (s, c) => (await drainAll(c.scan())).length, ['eager', 'indexed', 'lazy']],
  listPage: ['read', async (s, c) => (await c.listPage({ limit: 5 })).items.length, ['eager', 'indexed', 'lazy']],
  getMany: ['read', async (s, c) => (await c.getMany(['a'])).get('a') ?? null],
  history: ['read', async (s, c) => (await c.history('a')).length],
  lazyQuery: ['read', async (s, c) => (await c.lazyQuery().where('n', '==', 1).toArray()).length, ['lazy']],
  at: ['read', async (s) => canon(await s.v.at('2030-01-01T00:00:00.000Z').collection('x').get('a'))],
  putNew: ['write', (s, c) => c.put('new', { n: 5 })],
  putUpdate: ['write', (s, c) => c.put('a', { n: 5 })],
  del: ['write', (s, c) => c.delete('a')],
  delMissing: ['write', (s, c) => c.delete('nope')],
  putMany: ['write', async (s, c) => { const r = await c.putMany([['m', { n: 1 }], ['a', { n: 2 }]]); if (!r.ok) throw r.failures[0].error }],
  putManyAtomic: ['write', (s, c) => c.putMany([['m', { n: 1 }], ['a', { n: 2 }]], { atomic: true })],
  deleteMany: ['write', async (s, c) => { const r = await c.deleteMany(['a']); if (!r.ok) throw r.failures[0].error }],
  txPut: ['write', (s) => s.db.transaction(async (tx) => { tx.vault('V').collection('x').put('t', { n: 1 }) })],
  txDelete: ['write', (s) => s.db.transaction(async (tx) => { tx.vault('V').collection('x').delete('a') })],
  revert: ['write', (s, c) => c.revert('a', 1), ['eager', 'indexed', 'lazy']],
  putAtTier0: ['write', (s, c) => c.putAtTier('pt', { n: 1 }, 0), ['tiered']],
  putAtTier1: ['tier', (s, c) => c.putAtTier('pt', { n: 1 }, 1), ['tiered']],
  elevate: ['tier', (s, c) => c.elevate('a', 1), ['tiered']],
  blobPut: ['write', (s, c) => c.blob('a').put('s2', new Uint8Array([9])), ['eager']],
  blobDelete: ['write', (s, c) => c.blob('a').delete('s'), ['eager']],
  blobPublish: ['write', (s, c) => c.blob('a').publish('s', 'v1'), ['eager']],
  clearHistory: ['write', (s, c) => c.clearHistory('a'), ['eager']],
  pruneHistory: ['write', (s, c) => c.pruneRecordHistory('a', { keepVersions: 0 }), ['eager']],
  grantOwner: ['grant:owner', (s) => s.db.grant('V', { userId: 'nu', displayName: 'n', role: 'owner', passphrase: 'nu passphrase 1' }), ['eager']],
  grantAdmin: ['grant:admin', (s) => s.db.grant('V', { userId: 'nu', displayName: 'n', role: 'admin', passphrase: 'nu passphrase 1' }), ['eager']],
  grantOp: ['grant:operator', (s) => s.db.grant('V', { userId: 'nu', displayName: 'n', role: 'operator', passphrase: 'nu passphrase 1', permissions: { x: 'rw' } }), ['eager']],
  grantViewer: ['grant:viewer', (s) => s.db.grant('V', { userId: 'nu', displayName: 'n', role: 'viewer', passphrase: 'nu passphrase 1' }), ['eager']],
  grantClient: ['grant:client', (s) => s.db.grant('V', { userId: 'nu', displayName: 'n', role: 'client', passphrase: 'nu passphrase 1', permissions: { x: 'ro' } }), ['eager']],
  revokeOwner: ['grant:owner!', (s) => s.db.revoke('V', { userId: 'owner' }), ['eager']],
  revokeAdmin: ['grant:admin', (s) => s.db.revoke('V', { userId: 'adm', rotateKeys: false }), ['eager']],
  revokeOp: ['grant:operator', (s) => s.db.revoke('V', { userId: 'ops', rotateKeys: false }), ['eager']],
  rotate: ['rotate', (s) => s.db.rotate('V', ['x']), ['eager']],
  closePeriod: ['noncheck', (s) => s.v.closePeriod({ name: 'p1', endDate: '2020-01-01T00:00:00.000Z' }), ['eager']],
}
const canRead = (role, perm) => role === 'owner' || role === 'admin' || role === 'viewer' || perm !== undefined
const canWrite = (role, perm) => role === 'owner' || role === 'admin' || (role === 'operator' && perm === 'rw')
function expected(kind, role, perm) {
  if (kind === 'read') return canRead(role, perm)
  if (kind === 'write') return canWrite(role, perm)
  if (kind === 'tier') return role === 'owner' || role === 'admin' // nobody else was given the tier-1 key
  if (kind === 'rotate') return role === 'owner' || role === 'admin'
  if (kind === 'grant:owner!') return false
  if (kind.startsWith('grant:')) return role === 'owner' || (role === 'admin' && kind !== 'grant:owner')
  return null
}
const SEC = 'subject passphrase 77'

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of the permission matrix on the real code, with a store-unchanged oracle for refused operations',
  modules: HUB,
  bounds: `5 roles x 3 permissions on the collection (none, ro, rw) x 3 permissions on another collection x ${Object.keys(COLLS).length} collection modes x ${Object.keys(OPS).length} operations, cold and after a prior read`,
  assumptions: ['the caller goes through the library (a party with raw store access and keys is outside the permission model)'],
  units() { const out = []; for (const role of ROLES) for (const perm of PERMS) for (const mode of Object.keys(COLLS)) out.push({ role, perm: perm ?? null, mode }); return out },
  async runUnit(u, ctx) {
    const nb = ctx.nb, perm = u.perm ?? undefined
    for (const other of PERMS) for (const warm of [false, true]) for (const [name, [kind, fn, only]] of Object.entries(OPS)) {
      if (only && !only.includes(u.mode)) continue
      if ((u.role === 'owner' || u.role === 'admin' || u.role === 'viewer') && (perm || other)) continue // these roles carry no per-collection permissions
      resetWorld(1, { tick: 1 })
      const data = new Data(), store = plainStore(nb.hub, data)
      const odb = await openDb(nb, store); const ov = await odb.openVault('V')
      const oc = ov.collection('x', COLLS[u.mode])
      await settle(async () => {
        await oc.put('a', { n: 0 }); await oc.put('a', { n: 1 }); await ov.collection('y').put('b', { n: 1 })
        if (u.mode === 'eager') await oc.blob('a').put('s', new Uint8Array([1, 2, 3]))
        if (u.mode === 'tiered') { await oc.putAtTier('t1', { n: 7 }, 1); await oc.demote('t1', 0) }
        await odb.grant('V', { userId: 'adm', displayName: 'a', role: 'admin', passphrase: 'adm passphrase 1' })
        await odb.grant('V', { userId: 'ops', displayName: 'o', role: 'operator', passphrase: 'ops passphrase 1', permissions: { x: 'rw' } })
        const permissions = {}; if (perm) permissions.x = perm; if (other) permissions.y = other
        await odb.grant('V', { userId: 'sub', displayName: 's', role: u.role, passphrase: SEC, permissions })
      })
      ctx.exec(); ctx.last = `${u.role} ${u.perm} ${u.mode} ${name}`
      const db = await openDb(nb, store, { user: 'sub', secret: SEC }); const v = await db.openVault('V')
      const c = v.collection('x', COLLS[u.mode])
      const s = { db, v }
      if (warm) await attempt(() => settle(() => c.get('a')))
      const before = canon(data.snapshot())
      const r = await attempt(() => settle(() => fn(s, c)))
      ctx.trans()
      const want = expected(kind, u.role, perm)
      const id = `${name}:${u.role}:${u.perm ?? 'none'}:${other ?? 'none'}:${u.mode}`
      ctx.state(`${id}:${r.ok ? 'ok' : r.err.name}`)
      ctx.count(r.ok ? 'allowed' : 'refused')
      if (want === null) continue
      const nothing = r.ok && (r.val === null || r.val === 0 || r.val === 'null')
      if (kind === 'read' && !want && nothing) continue // no data disclosed
      if (r.ok !== want) { ctx.violation(id, `${u.role} with permission ${u.perm ?? 'none'} on the collection (${u.mode}): ${name} ${r.ok ? 'is allowed but must be refused' : `is refused: ${r.err.name} ${r.err.message}`}`); continue }
      if (!want && canon(data.snapshot()) !== before) ctx.violation(`effect:${id}`, `${u.role} with permission ${u.perm ?? 'none'} (${u.mode}): ${name} is refused (${r.err.name}) but changed the store`)
      if (want && kind === 'read' && nothing) ctx.violation(`empty:${id}`, `${u.role} with permission ${u.perm ?? 'none'} (${u.mode}): ${name} succeeds but returns nothing`)
      if (ctx.executions < 3) ctx.sample({ role: u.role, permission: u.perm, mode: u.mode, op: name, result: r.ok ? 'allowed' : r.err.name })
    }
  },
}
