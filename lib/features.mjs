// A feature alphabet: one small operation per user-facing feature of the hub,
// every one of them carrying fresh secrets, for checks that quantify over
// programs (which features are used, and in which order).
import { openDb, PASS } from './noy.mjs'

/** State threaded through a program. secrets: list of {text|bytes, what}. */
export async function startProgram(nb, store, remote, opts = {}) {
  const S = { nb, store, remote, n: 0, secrets: [], out: [], opts }
  S.pass = PASS
  S.secret = (what) => { const t = `SECRET${String(++S.n).padStart(4, '0')}${what.replace(/[^a-z]/gi, '')}zq`; S.secrets.push({ text: t, what }); return t }
  S.secrets.push({ text: PASS, what: 'passphrase' })
  S.open = async () => {
    S.db = await openDb(nb, store, { secret: S.pass, ...(remote ? { sync: remote, autoSync: false, syncPolicy: { push: { mode: 'manual' }, pull: { mode: 'manual' } } } : {}), ...(opts.db ?? {}) })
    S.v = await S.db.openVault('V')
    const v = S.v
    S.c = {
      plain: v.collection('plain'),
      lazy: v.collection('lazy', { prefetch: false, cache: { maxRecords: 2 }, indexes: ['f'] }),
      det: v.collection('det', { deterministicFields: ['f'], acknowledgeDeterministicRisk: true }),
      lww: v.collection('lww', { crdt: 'lww-map' }),
      rga: v.collection('rga', { crdt: 'rga' }),
      tier: v.collection('tier', { tiers: [0, 1, 2] }),
      i18n: v.collection('i18n', { i18nFields: { t: nb.i18n.i18nText({ languages: ['en', 'th'], required: 'any' }) }, dictKeyFields: { st: nb.i18n.dictKey('status', ['a', 'b']) } }),
      child: v.collection('child', { refs: { p: nb.hub.ref('plain', 'warn') } }),
    }
  }
  await S.open()
  return S
}
const rec = (S, what) => ({ f: S.secret(`${what}field`), nested: { deep: [S.secret(`${what}nested`)] }, k: 1 })
const enc = (t) => new TextEncoder().encode(t)

export const FEATURES = {
  put: async (S) => { await S.c.plain.put('a', rec(S, 'put')) },
  update: async (S) => { await S.c.plain.put('a', rec(S, 'update')); await S.c.plain.put('a', rec(S, 'update')) },
  del: async (S) => { await S.c.plain.put('b', rec(S, 'del')); await S.c.plain.delete('b') },
  many: async (S) => { await S.c.plain.putMany([['m1', rec(S, 'many')], ['m2', rec(S, 'many')]], { atomic: true }) },
  tx: async (S) => { const a = rec(S, 'tx'), b = rec(S, 'tx'); await S.db.transaction(async (tx) => { tx.vault('V').collection('plain').put('a', a); tx.vault('V').collection('plain').put('t', b) }) },
  revert: async (S) => { await S.c.plain.put('r', rec(S, 'revert')); await S.c.plain.put('r', rec(S, 'revert')); await S.c.plain.revert('r', 1) },
  lazyIndex: async (S) => { await S.c.lazy.put('a', rec(S, 'lazy')); await S.c.lazy.put('b', rec(S, 'lazy')); await S.c.lazy.put('a', rec(S, 'lazy')) },
  det: async (S) => { const s = S.secret('det'); await S.c.det.put('a', { f: s }); await S.c.det.put('b', { f: s }); for (const i of [1, 2]) await S.c.det.put(`c${i}`, { f: 'the same beginning of a longer value ' + S.secret('det') }); await S.c.det.findByDet('f', s) },
  lww: async (S) => { await S.c.lww.put('a', rec(S, 'lww')); await S.c.lww.put('a', rec(S, 'lww')) },
  rga: async (S) => { await S.c.rga.put('a', [S.secret('rga')]); await S.c.rga.put('a', [S.secret('rga'), S.secret('rga')]) },
  tier: async (S) => { await S.c.tier.putAtTier('a', rec(S, 'tier'), 1); await S.c.tier.elevate('a', 2); await S.c.tier.demote('a', 1) },
  elevate: async (S) => { const h = await S.v.elevate(1, { ttlMs: 1000, reason: S.secret('elevatereason') }); await h.collection('tier').put('e', rec(S, 'elevated')); await h.release() },
  i18n: async (S) => { await S.v.dictionary('status').put('a', { en: S.secret('dict'), th: S.secret('dict') }); await S.c.i18n.put('a', { t: { en: S.secret('i18n'), th: S.secret('i18n') }, st: 'a' }); await S.c.i18n.get('a', { locale: 'en' }) },
  blob: async (S) => { await S.c.plain.put('bl', rec(S, 'blobrec')); const b = S.c.plain.blob('bl'); await b.put('file', enc(S.secret('blob').repeat(3)), { mimeType: 'text/plain', filename: S.secret('filename'), compress: false }); await b.put('file2', enc(S.secret('blobc').repeat(40)), { mimeType: 'text/plain' }); await b.publish('file', 'v1'); await b.put('file', enc(S.secret('blob')), { compress: false }); await b.get('file') },
  consent: async (S) => { const purpose = S.secret('purpose'); await S.v.withConsent({ purpose, consentHash: 'ab'.repeat(32) }, async () => { await S.c.plain.put('cs', rec(S, 'consent')); await S.c.plain.get('cs') }) },
  period: async (S) => { await S.v.closePeriod({ name: S.secret('periodname').toLowerCase().slice(0, 20) + S.n, endDate: '2020-01-01T00:00:00.000Z' }); S.secrets.pop() },
  grant: async (S) => { const p = S.secret('grantpass'); S.gp = p; await S.db.grant('V', { userId: 'bob', displayName: 'Bob', role: 'operator', passphrase: p, permissions: { plain: 'rw' } }) },
  revoke: async (S) => { const p = S.secret('revokepass'); await S.c.plain.put('rv', rec(S, 'revoke')); await S.db.grant('V', { userId: 'eve', displayName: 'Eve', role: 'operator', passphrase: p, permissions: { plain: 'rw' } }); await S.db.revoke('V', { userId: 'eve', rotateKeys: true }) },
  rotate: async (S) => { await S.c.plain.put('ro', rec(S, 'rotate')); await S.db.rotate('V', ['plain']) },
  changeSecret: async (S) => { S.pass = S.secret('newpass') + ' long phrase'; S.secrets.push({ text: S.pass, what: 'passphrase' }); await S.db.changeSecret('V', S.pass); S.db.close(); await S.open() },
  delegate: async (S) => { await S.c.tier.putAtTier('d', rec(S, 'delegate'), 1); await S.v.delegate({ toUser: 'bob', tier: 1, collection: 'tier', until: '2030-01-01T00:00:00.000Z' }) },
  presence: async (S) => { const p = S.c.plain.presence({}); await p.update({ cursor: S.secret('presence') }); p.stop() },
  push: async (S) => { await S.c.plain.put('sy', rec(S, 'sync')); if (S.remote) await S.db.push('V') },
  pull: async (S) => { if (S.remote) { await S.db.push('V'); await S.db.pull('V') } },
  dump: async (S) => { await S.c.plain.put('du', rec(S, 'dump')); S.out.push(['backup', await S.v.dump()]) },
  load: async (S) => { await S.c.plain.put('lo', rec(S, 'load')); const d = await S.v.dump(); await S.v.load(d); },
  bundle: async (S) => { await S.c.plain.put('bu', rec(S, 'bundle')); S.out.push(['bundle', Buffer.from(await S.nb.hub.writeNoydbBundle(S.v, { compression: 'none' })).toString('latin1')]) },
  rekey: async (S) => { await S.c.plain.put('rk', rec(S, 'rekey')); const p = S.secret('exportpass'); S.out.push(['bundle', Buffer.from(await S.nb.hub.writeNoydbBundle(S.v, { compression: 'none', exportPassphrase: p })).toString('latin1')]) },
  asBob: async (S) => { // a second user works in the vault
    const p = S.secret('bobpass') + ' phrase'
    await S.db.grant('V', { userId: 'bo', displayName: 'Bo', role: 'operator', passphrase: p, permissions: { plain: 'rw', lazy: 'rw' } })
    const db2 = await openDb(S.nb, S.store, { user: 'bo', secret: p })
    const v2 = await db2.openVault('V')
    await v2.collection('plain').put('bo', rec(S, 'bob')); await v2.collection('plain').put('bo', rec(S, 'bob'))
    await v2.collection('lazy', { prefetch: false, cache: { maxRecords: 2 }, indexes: ['f'] }).put('bo', rec(S, 'bob'))
    db2.close()
  },
  dictOps: async (S) => { const d = S.v.dictionary('status'); await d.putAll({ k1: { en: S.secret('dict') }, k2: { en: S.secret('dict') } }); await d.rename('k1', 'k3'); await d.delete('k2') },
  blobBig: async (S) => { await S.c.plain.put('bb', { k: 1 }); await S.c.plain.blob('bb').put('big', enc(S.secret('bigblob') + 'x'.repeat(64)), { compress: false, chunkSize: 16 }); await S.c.plain.blob('bb').delete('big') },
  exportBlobs: async (S) => { await S.c.plain.put('xb', rec(S, 'export')); await S.c.plain.blob('xb').put('f', enc(S.secret('exported')), { compress: false }); const p = S.secret('exporter') + ' phrase'
    await S.db.grant('V', { userId: 'ex', displayName: 'Ex', role: 'admin', passphrase: p, exportCapability: { plaintext: ['blob'] } })
    const db2 = await openDb(S.nb, S.store, { user: 'ex', secret: p }), v2 = await db2.openVault('V')
    for await (const _ of v2.exportBlobs({ collections: ['plain'] })) ;
    db2.close()
  },
  // the same contents written again
  again: async (S) => {
    const r = rec(S, 'again'), b = enc(S.secret('againblob').repeat(2))
    await S.c.plain.put('ag', r); await S.c.plain.put('ag', r)
    for (let i = 0; i < 2; i++) { await S.c.plain.blob('ag').put('f', b, { compress: false, chunkSize: 16 }); await S.c.plain.blob('ag').delete('f') }
  },
  reads: async (S) => { await S.c.plain.list(); await S.c.plain.history('a'); await S.c.lazy.lazyQuery().where('f', '==', 'zz').toArray(); await S.c.plain.query().where('f', '==', 'x').toArray(); for await (const _ of S.c.plain.scan()) ; await S.v.ledger().verify(); await S.v.at(new Date()).collection('plain').get('a') },
  reopen: async (S) => { S.db.close(); await S.open() },
}
