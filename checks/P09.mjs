// P09 — revocation and key rotation: the revoked user's keys open nothing that is current,
// and nobody else loses anything.
import nc from 'node:crypto'
import { resetWorld, settle, W } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const P = (s) => `${s} correct horse battery`
const COLLS = { x: {}, y: { prefetch: false, cache: { maxRecords: 1 }, indexes: ['n'] }, d: { deterministicFields: ['n'], acknowledgeDeterministicRisk: true }, t: { tiers: [0, 1] } }
const OPS = ['putX', 'putY', 'putD', 'newX', 'delX', 'blob', 'putT', 'grantBob', 'grantBobY', 'grantVera', 'bobPut', 'bobPutY', 'revBob', 'revBob0', 'revVera', 'rotX', 'rotAll', 'rotTier', 'reopen', 'secret']
const gcmOpens = (env, key) => {
  try {
    const b = Buffer.from(env._data, 'base64'), d = nc.createDecipheriv('aes-256-gcm', key, Buffer.from(env._iv, 'base64'))
    d.setAuthTag(b.subarray(b.length - 16)); d.update(b.subarray(0, b.length - 16)); d.final(); return true
  } catch { return false }
}
export default {
  level: 'model_checking',
  technique: 'exhaustive exploration of grant/write/revoke/rotate histories on the real code; captured keys of every user are tried on every stored envelope after each history',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} operations from a populated vault with an operator and a viewer (eager, lazy-indexed, deterministic-field, tiered and blob data)`,
  assumptions: ['AES-GCM and AES-KW are ideal', 'system keys (ledger, blob chunks, audit) are vault-wide by design and not rotated by revocation', 'after a rotation the remaining users must be granted the collection again (documented)', 'no crash during rotation', 'other users act in freshly opened sessions'],
  units(tier) { const len = tier === 'quick' ? 3 : 4; return OPS.map((_, i) => ({ i, len })) },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const open = async (store, user, p) => {
      const db = await openDb(nb, store, { user, secret: P(p), except: ['sync', 'session'] })
      const v = await db.openVault('V')
      const c = {}
      for (const [n, o] of Object.entries(COLLS)) c[n] = v.collection(n, o)
      return { db, v, c }
    }
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(OPS.length, len - 1)) {
      const seq = [u.i, ...rest].map((i) => OPS[i])
      resetWorld(1, { tick: 1 })
      const data = new Data(), store = plainStore(nb.hub, data)
      let pass = 'po', O
      const M = { x: { a: [10, 11] }, y: { b: [20] }, d: { c: [30] }, t: { q: [40] } } // versions of each record
      const blobs = {}
      const users = {} // name -> {pass, keys:Set collections readable, write:Set}
      let n = 50
      const captured = [] // {who, keys:[raw], at: set of envelope identities existing then}
      const bad = (k, w) => ctx.violation(`${k}:${seq.join('+')}`, `${seq.join(' ; ')}: ${w}`)
      const putO = (c, id, val) => O.c[c].put(id, { n: val, s: `v${val}` })
      // learn the raw keys a user can unwrap, by opening as that user with the crypto log on
      const capture = async (who) => {
        W.log = { enc: [], kdf: [], wraps: [], generated: [], exported: [], derived: [] }
        const f = JSON.parse(data.get('V', '_keyring', who)._data)
        const kek = nc.pbkdf2Sync(P(users[who].pass), Buffer.concat([Buffer.from(f.salt, 'base64'), Buffer.from('|600000')]), 1, 32, 'sha256')
        W.log = null
        const keys = {}
        for (const [c, w] of Object.entries(f.deks)) {
          const d = nc.createDecipheriv('id-aes256-wrap', kek, Buffer.alloc(8, 0xa6))
          try { keys[c] = Buffer.concat([d.update(Buffer.from(w, 'base64')), d.final()]) } catch { keys[c] = null }
        }
        return keys
      }
      ctx.exec(); ctx.last = seq.join(' ')
      const setup = await attempt(() => settle(async () => {
        O = await open(store, 'owner', pass)
        await putO('x', 'a', 10); await putO('x', 'a', 11); await putO('y', 'b', 20); await putO('d', 'c', 30); await O.c.t.putAtTier('q', { n: 40, s: 'v40' }, 1)
        await O.c.x.blob('a').put('s', new Uint8Array([1, 2, 3])); blobs.a = [1, 2, 3]
        await O.db.grant('V', { userId: 'bob', displayName: 'b', role: 'operator', passphrase: P('pb'), permissions: { x: 'rw', y: 'rw', t: 'rw' } })
        await O.db.grant('V', { userId: 'vera', displayName: 'v', role: 'viewer', passphrase: P('pv') })
      }))
      if (!setup.ok) throw setup.err
      users.bob = { pass: 'pb', read: new Set(['x', 'y', 't']), write: new Set(['x', 'y', 't']) }
      users.vera = { pass: 'pv', read: new Set(['x', 'y', 'd', 't', 't#1']), write: new Set() }
      let skip = false
      const rotated = (colls) => { for (const w of Object.values(users)) for (const c of colls) { w.read.delete(c); w.write.delete(c) } }
      const revoke = async (who, opts) => {
        const keys = await capture(who)
        captured.push({ who, keys, rotate: opts.rotateKeys !== false })
        await O.db.revoke('V', { userId: who, ...opts })
        delete users[who]
        if (opts.rotateKeys !== false) rotated(Object.keys(keys).filter((k) => !k.startsWith('_')))
      }
      for (const op of seq) {
        const v = ++n
        const r = await attempt(() => settle(async () => {
          switch (op) {
            case 'putX': await putO('x', 'a', v); M.x.a.push(v); break
            case 'newX': await putO('x', `n${v}`, v); M.x[`n${v}`] = [v]; break
            case 'delX': await O.c.x.delete('a2'); break
            case 'putY': await putO('y', 'b', v); M.y.b.push(v); break
            case 'putD': await putO('d', 'c', v); M.d.c.push(v); break
            case 'putT': await O.c.t.putAtTier('q', { n: v, s: `v${v}` }, 1); M.t.q = [v]; break
            case 'blob': await O.c.x.blob('a').put('s', new Uint8Array([v, 1])); blobs.a = [v, 1]; break
            case 'grantBob': await O.db.grant('V', { userId: 'bob', displayName: 'b', role: 'operator', passphrase: P('pb2'), permissions: { x: 'rw' } }); users.bob = { pass: 'pb2', read: new Set(['x']), write: new Set(['x']) }; break
            case 'grantBobY': await O.db.grant('V', { userId: 'bob', displayName: 'b', role: 'operator', passphrase: P('pb3'), permissions: { y: 'rw', d: 'ro' } }); users.bob = { pass: 'pb3', read: new Set(['y', 'd']), write: new Set(['y']) }; break
            case 'grantVera': await O.db.grant('V', { userId: 'vera', displayName: 'v', role: 'viewer', passphrase: P('pv2') }); users.vera = { pass: 'pv2', read: new Set(['x', 'y', 'd', 't', 't#1']), write: new Set() }; break
            case 'bobPut': case 'bobPutY': {
              const c = op === 'bobPut' ? 'x' : 'y', id = op === 'bobPut' ? 'a' : 'b'
              if (!users.bob?.write.has(c)) { skip = true; return }
              const B = await open(store, 'bob', users.bob.pass)
              await B.c[c].put(id, { n: v, s: `v${v}` }); M[c][id].push(v)
              B.db.close(); O.db.close(); O = await open(store, 'owner', pass); break // two sessions do not share a cache
            }
            case 'revBob': if (!users.bob) { skip = true; return } await revoke('bob', {}); break
            case 'revBob0': if (!users.bob) { skip = true; return } await revoke('bob', { rotateKeys: false }); break
            case 'revVera': if (!users.vera) { skip = true; return } await revoke('vera', {}); break
            case 'rotX': await O.db.rotate('V', ['x']); rotated(['x']); captured.forEach((c) => { c.rot = { ...c.rot, x: true } }); break
            case 'rotAll': await O.db.rotate('V', ['x', 'y', 'd', 't']); rotated(['x', 'y', 'd', 't']); break
            case 'rotTier': await O.db.rotate('V', ['t#1']); rotated(['t#1']); break
            case 'reopen': O.db.close(); O = await open(store, 'owner', pass); break
            case 'secret': pass = `po${v}`; await O.db.changeSecret('V', P(pass)); break
          }
        }))
        ctx.trans()
        if (skip) break
        if (!r.ok) { bad('op-failed', `${op} fails: ${r.err.name} ${r.err.message}`); skip = true; break }
      }
      if (skip) continue
      // 1. the owner reads everything, in the open session and in a fresh one
      const F = await attempt(() => open(store, 'owner', pass))
      if (!F.ok) { bad('owner-locked-out', `${F.err.name} ${F.err.message}`); continue }
      const all = await attempt(() => settle(async () => {
        for (const [label, S] of [['open session', O], ['fresh session', F.val]]) {
          for (const c of ['x', 'y', 'd']) for (const [id, vs] of Object.entries(M[c])) {
            const want = vs.at(-1)
            const got = await S.c[c].get(id)
            if (got?.n !== want || got?.s !== `v${want}`) bad(`value:${c}`, `${label}: ${c}/${id} reads ${JSON.stringify(got)}, last written ${want}`)
            const hist = (await S.c[c].history(id)).map((h) => h.record.n).sort((p, q) => p - q)
            if (!same(hist, vs.slice(0, -1))) bad(`history:${c}`, `${label}: history of ${c}/${id} is ${JSON.stringify(hist)}, expected ${JSON.stringify(vs.slice(0, -1))}`)
          }
          const t = await S.c.t.getAtTier('q')
          if (t?.n !== M.t.q.at(-1)) bad('value:t', `${label}: tiered record reads ${JSON.stringify(t)}`)
          const b = await S.c.x.blob('a').get('s')
          if (!b || !same([...b], blobs.a)) bad('blob', `${label}: blob reads ${b ? [...b] : b}, expected ${blobs.a}`)
          const det = await S.c.d.findByDet('n', M.d.c.at(-1))
          if (!det) bad('det', `${label}: deterministic lookup finds nothing`)
          const lq = await S.c.y.lazyQuery().where('n', '==', M.y.b.at(-1)).toArray()
          if (lq.length !== 1) bad('lazyindex', `${label}: indexed query finds ${lq.length} records`)
          const ver = await S.v.ledger().verify()
          if (!ver.ok) bad('ledger', `${label}: ledger does not verify: ${JSON.stringify(ver)}`)
        }
      }))
      if (!all.ok) bad('read-failed', `owner read fails: ${all.err.name} ${all.err.message}`)
      // 2. every remaining user still reads and writes exactly what they may
      for (const [who, w] of Object.entries(users)) {
        const r = await attempt(() => settle(async () => {
          const S = await open(store, who, w.pass)
          for (const c of ['x', 'y', 'd']) for (const [id, vs] of Object.entries(M[c])) {
            const g = await attempt(() => S.c[c].get(id))
            if (w.read.has(c) && (!g.ok || g.val?.n !== vs.at(-1))) bad(`user-lost:${who}:${c}`, `${who} may read ${c} but gets ${g.ok ? JSON.stringify(g.val) : g.err.name + ' ' + g.err.message}`)
            if (!w.read.has(c) && g.ok && g.val) bad(`user-gained:${who}:${c}`, `${who} may not read ${c} but gets ${JSON.stringify(g.val)}`)
          }
          if (who === 'vera' && w.read.has('t#1')) { const g = await attempt(() => S.c.t.getAtTier('q')); if (!g.ok || g.val?.n !== M.t.q.at(-1)) bad(`user-lost:vera:t#1`, `viewer holds the tier key but reads ${g.ok ? JSON.stringify(g.val) : g.err.name}`) }
        }))
        if (!r.ok) bad(`user-fails:${who}`, `${who}: ${r.err.name} ${r.err.message}`)
        ctx.count('remaining_user_probes')
      }
      // 3. a revoked user's captured keys open no current data envelope of the collections they held
      for (const cap of captured) {
        if (!cap.rotate || users[cap.who]) continue
        for (const [c, k] of Object.entries(cap.keys)) {
          if (c.startsWith('_') || !k) continue
          for (const loc of data.collections('V')) {
            if (loc === '_keyring') continue
            for (const id of data.ids('V', loc)) {
              const env = data.get('V', loc, id)
              if (!env._iv) continue
              ctx.count('key_trials')
              if (gcmOpens(env, k)) bad(`revoked-reads:${loc.startsWith('_') ? loc : 'record'}`, `${cap.who} was revoked, but their key for ${c} still opens ${loc}/${id}`)
              for (const s of Object.values(env._det ?? {})) { const [iv, d] = s.split(':'); if (gcmOpens({ _iv: iv, _data: d }, k)) bad('revoked-reads:det', `${cap.who} was revoked, but their key for ${c} still opens a deterministic slot of ${loc}/${id}`) }
            }
          }
        }
        const r = await attempt(() => open(store, cap.who, cap.who === 'bob' ? 'pb' : 'pv'))
        if (r.ok) bad('revoked-opens', `${cap.who} was revoked but opens the vault`)
      }
      ctx.state([M, pass !== 'po', Object.entries(users).map(([k, w]) => [k, [...w.read], [...w.write]]), captured.map((c) => [c.who, c.rotate])])
      if (ctx.executions === 3) ctx.sample({ history: seq, records: M, users: Object.keys(users) })
    }
  },
}
