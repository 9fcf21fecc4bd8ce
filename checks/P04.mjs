// P04 — a failing store call, or a crash, at any point loses nothing that was acknowledged.
import { resetWorld, settle, drain } from '../lib/world.mjs'
import { canon, same } from '../lib/explore.mjs'
import { Data, hookedStore, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, PASS } from '../lib/noy.mjs'

const bytes = (t) => new TextEncoder().encode(t)
const text = (b) => (b ? new TextDecoder().decode(b) : null)
const BOB = 'bob has a passphrase', CAROL = 'carol has a passphrase'
const collections = (nb, v) => ({
  plain: v.collection('plain'), other: v.collection('other'), fresh: v.collection('fresh'), lazy: v.collection('lazy', { prefetch: false, cache: { maxRecords: 1 }, indexes: ['f'] }),
  det: v.collection('det', { deterministicFields: ['f'], acknowledgeDeterministicRisk: true }), lww: v.collection('lww', { crdt: 'lww-map' }), rga: v.collection('rga', { crdt: 'rga' }),
  ref: v.collection('ref', { refs: { p: nb.hub.ref('other', 'cascade') } }),
})
// name -> { run, user?, once? (a second run may legitimately be refused when the first took effect), keep? (keys that may change freely) }
const OPS = {
  put: { run: (S) => S.c.plain.put('a', { n: 9 }) },
  putNew: { run: (S) => S.c.plain.put('z', { n: 9 }) },
  putFirst: { run: (S) => S.c.fresh.put('z', { n: 9 }) },
  putFirstTwo: { run: (S) => Promise.all([S.c.fresh.put('z', { n: 9 }), S.v.collection('fresh2').put('z', { n: 8 })]) },
  delete: { run: (S) => S.c.plain.delete('a') },
  cascade: { run: (S) => S.c.other.delete('o1') },
  putMany: { run: async (S) => { const r = await S.c.plain.putMany([['a', { n: 7 }], ['z', { n: 8 }]]); if (!r.ok) throw r.failures[0].error } },
  atomic: { run: (S) => S.c.plain.putMany([['a', { n: 7 }], ['z', { n: 8 }]], { atomic: true }) },
  deleteMany: { run: async (S) => { const r = await S.c.plain.deleteMany(['a', 'b']); if (!r.ok) throw r.failures[0].error } },
  tx: { run: (S) => S.db.transaction(async (t) => { const v = t.vault('V'); v.collection('plain').put('a', { n: 5 }); v.collection('other').put('o2', { n: 6 }); v.collection('plain').delete('b') }) },
  revert: { run: (S) => S.c.plain.revert('a', 1) },
  // a failed index write is reported by an event and repaired by reconcileIndex; the query may miss the record until then
  lazyPut: { index: true, run: (S) => S.c.lazy.put('l1', { f: 'y' }) },
  lazyDelete: { index: true, run: (S) => S.c.lazy.delete('l1') },
  reindex: { index: true, run: (S) => S.c.lazy.rebuildIndexes() },
  detPut: { run: (S) => S.c.det.put('d1', { f: 'q' }) },
  lwwPut: { run: (S) => S.c.lww.put('w1', { b: 2 }) },
  rgaPut: { run: (S) => S.c.rga.put('r1', ['x', 'y']) },
  dictPut: { run: (S) => S.v.dictionary('status').put('k', { en: 'new' }) },
  dictAll: { run: (S) => S.v.dictionary('status').putAll({ k: { en: 'n1' }, m: { en: 'n2' } }) },
  dictRename: { run: (S) => S.v.dictionary('status').rename('k', 'j'), once: true },
  dictDelete: { run: (S) => S.v.dictionary('status').delete('k'), once: true },
  blobPut: { run: (S) => S.c.plain.blob('a').put('f', bytes('second contents'), { compress: false, chunkSize: 4 }) },
  blobNew: { run: (S) => S.c.plain.blob('b').put('g', bytes('brand new'), { compress: false, chunkSize: 4 }) },
  blobSame: { run: (S) => S.c.plain.blob('b').put('g', bytes('first contents'), { compress: false, chunkSize: 4 }) },
  blobDelete: { run: (S) => S.c.plain.blob('a').delete('f') },
  blobPublish: { run: (S) => S.c.plain.blob('a').publish('f', 'v2') },
  blobUnpublish: { run: (S) => S.c.plain.blob('a').deleteVersion('f', 'v1'), once: true },
  grant: { run: (S) => S.db.grant('V', { userId: 'dave', displayName: 'D', role: 'operator', passphrase: 'dave has one too', permissions: { plain: 'ro' } }) },
  regrant: { run: (S) => S.db.grant('V', { userId: 'bob', displayName: 'B', role: 'operator', passphrase: BOB, permissions: { plain: 'rw', other: 'rw' } }) },
  revoke: { run: (S) => S.db.revoke('V', { userId: 'carol', rotateKeys: true }), once: true, leaving: 'as carol' },
  revokeKeep: { run: (S) => S.db.revoke('V', { userId: 'carol', rotateKeys: false }), once: true },
  rotate: { run: (S) => S.db.rotate('V', ['plain', 'det']) },
  changeSecret: { run: (S) => S.db.changeSecret('V', 'a completely new passphrase'), secret: 'a completely new passphrase' },
  consent: { run: (S) => S.v.withConsent({ purpose: 'p', consentHash: 'ab'.repeat(32) }, () => S.c.plain.put('a', { n: 9 })) },
  closePeriod: { run: (S) => S.v.closePeriod({ name: 'y1', endDate: '2020-01-01T00:00:00.000Z' }), once: true },
  prune: { run: (S) => S.c.plain.pruneRecordHistory('a', { keepVersions: 1 }) },
  clearHistory: { run: (S) => S.c.plain.clearHistory('a') },
  compact: { run: (S) => S.v.compact() },
  push: { run: (S) => exchange(S.db.push('V')), sync: true },
  pull: { run: (S) => exchange(S.db.pull('V')), sync: true },
  bobPut: { run: (S) => S.c.plain.put('a', { n: 9 }), user: 'bob' },
  bobFirst: { run: (S) => S.c.fresh.put('z', { n: 9 }), user: 'bob' },
  dump: { run: (S) => S.v.dump() },
  verify: { run: (S) => S.v.ledger().verify() },
}
const exchange = async (p) => { const r = await p; if (r.errors?.length) throw r.errors[0]; return r }
const KINDS = ['before', 'after', 'crash', 'crash-after']

export default {
  level: 'model_checking',
  technique: 'fault enumeration on the real code: every store call of every operation fails or is the last before a crash, before and after taking effect; contents, keys and recovery are compared with the fault-free run',
  modules: HUB,
  bounds: `${Object.keys(OPS).length} operations x every store call of each x 4 fault kinds (error without effect, error after effect, crash before, crash after); afterwards the operation runs again, or other writes follow on the same handle`,
  assumptions: ['one failing call (or one crash) per run; a single store call is atomic', 'history versions added by a repeated operation are not counted'],
  units() { return Object.keys(OPS).flatMap((op) => [...KINDS.map((kind) => ({ op, kind })), { op, kind: 'before', other: true }, { op, kind: 'after', other: true }]) },
  async runUnit(u, ctx) {
    const nb = ctx.nb, O = OPS[u.op]
    const remoteOpts = (store) => (O.sync ? { sync: store, autoSync: false, syncPolicy: { push: { mode: 'manual' }, pull: { mode: 'manual' } } } : {})
    const open = async (store, user = 'owner', secret = PASS, remote = null) => {
      const db = await openDb(nb, store, { user, secret, except: ['session'], ...(remote ? remoteOpts(remote) : {}) })
      const v = await db.openVault('V')
      return { db, v, c: collections(nb, v) }
    }
    // base contents, built once
    resetWorld(1)
    const base = new Data(), rbase = new Data()
    await settle(async () => {
      const S = await open(plainStore(nb.hub, base), 'owner', PASS, plainStore(nb.hub, rbase))
      await S.c.plain.put('a', { n: 1 }); await S.c.plain.put('a', { n: 2 }); await S.c.plain.put('b', { n: 3 }); await S.c.other.put('o1', { n: 4 }); await S.c.ref.put('x', { p: 'o1' })
      await S.c.lazy.put('l1', { f: 'x' }); await S.c.lazy.put('l2', { f: 'x' }); await S.c.det.put('d1', { f: 'p' }); await S.c.lww.put('w1', { a: 1 }); await S.c.rga.put('r1', ['x'])
      await S.v.dictionary('status').put('k', { en: 'old' })
      await S.c.plain.blob('a').put('f', bytes('first contents'), { compress: false, chunkSize: 4 }); await S.c.plain.blob('a').publish('f', 'v1')
      await S.db.grant('V', { userId: 'bob', displayName: 'B', role: 'operator', passphrase: BOB, permissions: { plain: 'rw', fresh: 'rw' } })
      await S.db.grant('V', { userId: 'carol', displayName: 'C', role: 'operator', passphrase: CAROL, permissions: { plain: 'rw', lww: 'rw' } })
      if (O.sync) { await S.db.push('V'); await S.c.plain.put('a', { n: 2, m: 1 }); await S.c.plain.delete('b') }
      S.db.close()
      if (u.op === 'pull') { const dev2 = new Data(); dev2.restore(base.snapshot()); const T = await open(plainStore(nb.hub, dev2), 'owner', PASS, plainStore(nb.hub, rbase)); await T.c.other.put('o1', { n: 44 }); await T.c.rga.put('r1', ['q']); await T.db.push('V'); T.db.close() }
    })
    const image = base.snapshot(), rimage = rbase.snapshot()
    /** everything a user can read, flattened */
    const look = async (store, secret) => {
      const out = {}
      const put = async (k, f) => { const r = await attempt(f); out[k] = r.ok ? canon(r.val) : `ERROR ${r.err?.name}` }
      const r = await attempt(() => open(store, 'owner', secret))
      if (!r.ok) return { vault: `ERROR ${r.err?.name} ${r.err?.message}` }
      const S = r.val
      for (const [n, c] of Object.entries({ ...S.c, fresh2: S.v.collection('fresh2') })) for (const id of ['a', 'b', 'z', 'o1', 'o2', 'x', 'l1', 'l2', 'd1', 'w1', 'r1']) await put(`${n}/${id}`, () => c.get(id))
      for (const id of ['a', 'b']) for (const h of (await attempt(() => S.c.plain.history(id))).val ?? [{ version: 'ERROR' }]) out[`hist/${id}/${h.version}`] = canon(h.record ?? null)
      await put('det', async () => (await S.c.det.findByDet('f', 'p')) ?? null); await put('det2', async () => (await S.c.det.findByDet('f', 'q')) ?? null)
      for (const f of ['x', 'y']) await put(`lazy:${f}`, async () => (await S.c.lazy.lazyQuery().where('f', '==', f).toArray()).length)
      for (const k of ['k', 'm', 'j']) await put(`dict/${k}`, () => S.v.dictionary('status').get(k))
      for (const [id, slot] of [['a', 'f'], ['b', 'g']]) await put(`blob/${id}/${slot}`, async () => text(await S.c.plain.blob(id).get(slot)))
      for (const v of ['v1', 'v2']) await put(`blob/a/f@${v}`, async () => text(await S.c.plain.blob('a').getVersion('f', v)))
      await put('users', async () => (await S.db.listUsers('V')).map((x) => x.userId).sort())
      await put('periods', async () => (await S.v.listPeriods()).map((p) => p.name))
      await put('ledger', async () => (await S.v.ledger().verify()).ok)
      for (const [user, pass] of [['bob', BOB], ['carol', CAROL], ['dave', 'dave has one too']]) {
        const b = await attempt(() => open(store, user, pass))
        out[`as ${user}`] = b.ok ? '' : b.err?.name
        if (b.ok) { for (const [n, id] of [['plain', 'a'], ['plain', 'b'], ['other', 'o1'], ['lww', 'w1']]) { const g = await attempt(() => b.val.c[n].get(id)); out[`as ${user} ${n}/${id}`] = g.ok ? canon(g.val) : g.err?.name } b.val.db.close() }
      }
      S.db.close()
      return out
    }
    const lookBoth = async (data) => {
      // after a change of passphrase exactly one of the two opens the vault
      const s = plainStore(nb.hub, data)
      const x = await settle(() => look(s, PASS))
      if (!O.secret || !String(x.vault).startsWith('ERROR')) return x
      return { ...(await settle(() => look(s, O.secret))), 'new secret': 'yes' }
    }
    // one run with the fault at call k; returns { done: true } when k is past the last call
    const run = async (k) => {
      resetWorld(2)
      const data = new Data(), rdata = new Data()
      data.restore(image); rdata.restore(rimage)
      let armed = false, n = 0, down = false, what = null
      const hook = (who) => (m, args, doIt) => {
        if (down) { const e = new Error('store is gone'); e.name = 'InjectedFault'; throw e }
        if (!armed) return doIt()
        n++
        if (n !== k) return doIt()
        what = `${who}${m}(${args.slice(1, 3).filter((x) => typeof x === 'string').join('/')})`
        if (u.kind === 'after' || u.kind === 'crash-after') { try { doIt() } catch {} }
        if (u.kind.startsWith('crash')) down = true
        const e = new Error('injected store failure'); e.name = 'InjectedFault'; throw e
      }
      const S = await settle(() => open(hookedStore(nb.hub, data, hook('')), O.user ?? 'owner', O.user ? BOB : PASS, O.sync ? hookedStore(nb.hub, rdata, hook('remote.')) : null))
      if (!O.sync) await settle(async () => { for (const c of [S.c.plain, S.c.other, S.c.ref, S.c.lww]) await attempt(() => c.list()) })
      armed = true
      const r = await attempt(() => settle(() => O.run(S)))
      await drain()
      armed = false
      return { S, r, data, rdata, what, calls: n, heal: () => { down = false } }
    }
    const before = await (async () => { const d = new Data(); d.restore(image); resetWorld(3); return lookBoth(d) })()
    const clean = await run(0)
    if (!clean.r.ok) throw clean.r.err
    const after = await lookBoth(clean.data)
    clean.S.db.close()
    ctx.count('store_calls', clean.calls)
    const isHist = (x) => x.startsWith('hist/')
    const mayChange = (key) => before[key] !== after[key]
    for (let k = 1; k <= clean.calls; k++) {
      const R = await run(k)
      if (R.what === null) break
      ctx.exec(); ctx.trans(R.calls); ctx.last = `${u.op} ${u.kind} ${R.what}`
      const bad = (key, w) => ctx.violation(`${u.op}:${key}`, `${u.op}: ${u.kind === 'before' ? 'error from' : u.kind === 'after' ? 'error after the effect of' : u.kind === 'crash' ? 'crash before' : 'crash after'} store call ${k} ${R.what}: ${w}`, { k })
      if (u.kind.startsWith('crash') && R.r.ok) ctx.count('acknowledged_despite_crash')
      const judge = (got, phase, must) => {
        for (const key of new Set([...Object.keys(before), ...Object.keys(after), ...Object.keys(got)])) {
          const b = before[key], a = after[key], g = got[key]
          if (isHist(key) && b === undefined) continue
          if (O.leaving && key.startsWith(O.leaving) && phase !== 'after running it again') continue
          if (O.index && key.startsWith('lazy:') && phase !== 'after running it again') continue
          if (isHist(key) && a !== undefined && g === b) continue
          const okay = must && !isHist(key) ? g === a : g === a || g === b
          if (!okay) bad(`${phase}:${key.split('/')[0]}`, `${phase}, ${key} is ${g}; before the operation ${b}, afterwards ${a}`)
        }
      }
      judge(await lookBoth(R.data.clone()), R.r.ok ? 'although acknowledged' : 'after the failure', R.r.ok)
      if (u.other && !O.user && !O.sync) {
        // other work goes on through the same handle
        const more = await attempt(() => settle(async () => { await R.S.c.plain.put('n1', { n: 91 }); await R.S.v.collection('fresh3').put('n2', { n: 92 }); await R.S.c.lww.put('n3', { n: 93 }); await R.S.c.plain.put('n1', { n: 94 }) }))
        if (!more.ok) bad('go-on', `a later write fails: ${more.err?.name} ${more.err?.message}`)
        judge(await lookBoth(R.data.clone()), 'after other writes', false)
        const d = R.data.clone(), r = await attempt(() => settle(() => open(plainStore(nb.hub, d), 'owner', PASS))), T = r.ok ? r : await attempt(() => settle(() => open(plainStore(nb.hub, d), 'owner', O.secret ?? PASS)))
        if (!T.ok) bad('reopen', `the vault does not open any more: ${T.err}`)
        else for (const [c, id, n] of [['plain', 'n1', 94], ['fresh3', 'n2', 92], ['lww', 'n3', 93]]) {
          const g = await attempt(() => settle(() => (T.val.c[c] ?? T.val.v.collection(c)).get(id)))
          if (!g.ok || !same(g.val, { n })) bad('later', `the acknowledged later write ${c}/${id} reads as ${g.ok ? canon(g.val) : g.err}`)
        }
        if (T.ok) T.val.db.close()
      } else if (!R.r.ok || u.kind.startsWith('crash')) {
        // again: on the same handle after an error, in a fresh instance after a crash
        if (u.kind.startsWith('crash')) {
          let T = await attempt(() => settle(() => open(plainStore(nb.hub, R.data), O.user ?? 'owner', O.user ? BOB : PASS, O.sync ? plainStore(nb.hub, R.rdata) : null)))
          if (!T.ok && O.secret) T = await attempt(() => settle(() => open(plainStore(nb.hub, R.data), 'owner', O.secret)))
          if (!T.ok) { bad('reopen', `the vault does not open any more: ${T.err}`); continue }
          const again = await attempt(() => settle(() => O.run(T.val)))
          if (!again.ok && !O.once) bad('again', `running it again in a fresh instance fails: ${again.err?.name} ${again.err?.message}`)
          T.val.db.close()
        } else {
          const again = await attempt(() => settle(() => O.run(R.S)))
          if (!again.ok && !O.once) bad('again', `running it again fails: ${again.err?.name} ${again.err?.message}`)
          else if (R.S.c.plain) {
            // the handle agrees with the store
            for (const [n, id] of [['plain', 'a'], ['plain', 'b'], ['plain', 'z'], ['other', 'o1'], ['ref', 'x'], ['lazy', 'l1'], ['lww', 'w1'], ['fresh', 'z']]) {
              if (O.user && !['plain', 'fresh'].includes(n)) continue
              const g = await attempt(() => settle(() => R.S.c[n].get(id))), v = g.ok ? canon(g.val) : `ERROR ${g.err?.name}`
              if (v !== after[`${n}/${id}`] && !O.sync) bad('handle', `after running it again the handle reads ${n}/${id} as ${v}, expected ${after[`${n}/${id}`]}`)
            }
          }
        }
        await drain()
        judge(await lookBoth(R.data), 'after running it again', true)
      }
      R.S.db.close()
      ctx.state([u.op, R.what, R.r.ok])
    }
    if (ctx.executions > 0 && u.op === 'rotate') ctx.sample({ operation: u.op, kind: u.kind, store_calls: clean.calls })
  },
}
