// P07 — a vault opens for exactly the users who hold a keyring, with exactly their current passphrase.
import { resetWorld, W, settle } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const P = (s) => `${s} correct horse battery`
// op: [actor, kind, ...args]
const OPS = {
  gAnn: ['owner', 'grant', 'ann', 'admin', 'pa1', undefined, { importCapability: { plaintext: ['csv'] }, exportCapability: { bundle: false } }],
  gAnn2: ['owner', 'grant', 'ann', 'operator', 'pa2'],
  gBob: ['owner', 'grant', 'bob', 'operator', 'pb1', { x: 'rw' }, { exportCapability: { plaintext: ['json'], bundle: true } }],
  gBob2: ['owner', 'grant', 'bob', 'viewer', 'pb2'],
  aDan: ['ann', 'grant', 'dan', 'admin', 'pd1'],
  aBob: ['ann', 'grant', 'bob', 'client', 'pb3', { y: 'ro' }],
  aOwn: ['ann', 'grant', 'eve', 'owner', 'pe1'],
  bDan: ['bob', 'grant', 'dan', 'viewer', 'pd2'],
  dBob: ['dan', 'grant', 'bob', 'admin', 'pb4'],
  rBob: ['owner', 'revoke', 'bob', {}],
  rBob0: ['owner', 'revoke', 'bob', { rotateKeys: false }],
  rAnn: ['owner', 'revoke', 'ann', {}],
  rAnn0: ['owner', 'revoke', 'ann', { rotateKeys: false }],
  rAnnW: ['owner', 'revoke', 'ann', { cascade: 'warn' }],
  aRev: ['ann', 'revoke', 'bob', { rotateKeys: false }],
  aRevO: ['ann', 'revoke', 'owner', {}],
  bRev: ['bob', 'revoke', 'ann', {}],
  cOwn: ['owner', 'secret', 'po2'],
  cBob: ['bob', 'secret', 'pb9'],
  cAnn: ['ann', 'secret', 'pa9'],
  wOwn: ['owner', 'write', 'n1'],
  wAnn: ['ann', 'write', 'n2'],
  rot: ['owner', 'rotate'],
  reopen: ['owner', 'reopen'],
}
const NAMES = Object.keys(OPS)
const USERS = ['owner', 'ann', 'bob', 'dan', 'eve', 'mallory']
const POOL = ['po1', 'po2', 'pa1', 'pa2', 'pa9', 'pb1', 'pb2', 'pb3', 'pb4', 'pb9', 'pd1', 'pd2', 'pe1', 'wrong']
const PAIRS = USERS.flatMap((u) => POOL.filter((p) => u === 'mallory' ? p === 'po1' || p === 'wrong' : p[1] === u[0] || p === 'wrong' || (u !== 'owner' && p === 'po1')).map((p) => [u, p]))

export default {
  level: 'model_checking',
  technique: 'exhaustive exploration of the access-control state machine on the real code against a reference model, probing every user with every passphrase after every history',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${NAMES.length} grant/revoke/change-secret/rotate/write operations by 4 actors, from an empty vault, a populated one, one with a three-user team and one with a member whose access expires; ${PAIRS.length} (user, passphrase) probes after each`,
  assumptions: ['rotating a key withdraws it, and the permission for its collection, from everybody but the one who rotates', 'key derivation, AES-KW and AES-GCM are ideal', 'an admin does not revoke the admin their own grant descends from', 'users other than the owner act in freshly opened sessions', 'derivation is executed with one PBKDF2 round in the harness; the requested count and salt are recorded and checked'],
  units(tier) { const len = tier === 'quick' ? 3 : 4; const out = []; for (const init of ['records', 'empty', 'team', 'expiring']) for (let i = 0; i < NAMES.length; i++) out.push({ i, len: init === 'expiring' ? len - 1 : len, init }); return out },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const open = async (store, user, p) => { const db = await openDb(nb, store, { user, secret: p === '' ? '' : P(p), except: ['sync', 'session'] }); return { db, v: await db.openVault('V') } }
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(NAMES.length, len - 1)) {
      const seq = [u.i, ...rest].map((i) => NAMES[i])
      resetWorld(1, { tick: 1, log: true })
      const data = new Data(), store = plainStore(nb.hub, data)
      let own = await open(store, 'owner', 'po1')
      if (u.init !== 'empty') { await own.v.collection('x').put('a', { n: 1 }); await own.v.collection('y').put('b', { n: 2 }) }
      const M = new Map([['owner', { pass: 'po1', role: 'owner', by: 'owner', perms: {}, caps: {} }]])
      const prefix = u.init === 'team' ? ['gAnn', 'gBob', 'aDan'] : u.init === 'expiring' ? ['gBob', 'expire'] : []
      ctx.exec(); ctx.last = seq.join(' ')
      const bad = (k, w) => ctx.violation(`${k}:${u.init}:${seq.join('+')}`, `${u.init} vault; ${seq.join(' ; ')}: ${w}`)
      let skip = false
      for (const name of [...prefix, ...seq]) {
        if (name === 'expire') {
          // bob's slot as it comes out of a bundle made for a limited time
          const e = data.get('V', '_keyring', 'bob')
          M.get('bob').exp = W.now + 1e6
          data.coll('V', '_keyring', true).set('bob', { ...e, _data: JSON.stringify({ ...JSON.parse(e._data), expires_at: new Date(W.now + 1e6).toISOString() }) })
          continue
        }
        const [actor, kind, ...a] = OPS[name]
        const m = M.get(actor)
        if (!m) { skip = true; break } // the actor does not exist: same as the history without this step
        let s
        if (actor === 'owner') s = own
        else {
          const r = await attempt(() => open(store, actor, m.pass))
          if (!r.ok) { bad('locked-out', `${actor} cannot open the vault with the current passphrase: ${r.err.name} ${r.err.message}`); skip = true; break }
          s = r.val
        }
        let r, allowed = true
        if (kind === 'grant') {
          allowed = m.role === 'owner' || (m.role === 'admin' && a[1] !== 'owner')
          r = await attempt(() => s.db.grant('V', { userId: a[0], displayName: `${a[0]} ${a[2]}`, role: a[1], passphrase: P(a[2]), ...(a[3] ? { permissions: a[3] } : {}), ...a[4] }))
          if (allowed) M.set(a[0], { pass: a[2], role: a[1], by: actor, perms: a[1] === 'operator' || a[1] === 'client' ? a[3] ?? {} : {}, caps: a[4] ?? {}, name: `${a[0]} ${a[2]}` })
        } else if (kind === 'revoke') {
          const t = M.get(a[0])
          allowed = !!t && t.role !== 'owner' && (m.role === 'owner' || m.role === 'admin')
          r = await attempt(() => s.db.revoke('V', { userId: a[0], ...a[1] }))
          if (allowed) {
            const gone = [a[0]]
            if (t.role === 'admin' && a[1].cascade !== 'warn') for (let k = 0; k < gone.length; k++) for (const [w, f] of M) if (f.role === 'admin' && f.by === gone[k] && !gone.includes(w)) gone.push(w)
            if (gone.includes(actor)) { skip = true; break } // revoking one's own grantor: the intended outcome is undocumented
            for (const w of gone) M.delete(w)
            if (a[1].rotateKeys !== false) for (const [w, f] of M) if (w !== actor) f.rotated = true
          }
        } else if (kind === 'secret') { r = await attempt(() => s.db.changeSecret('V', P(a[0]))); m.pass = a[0] }
        else if (kind === 'write') { r = await attempt(() => settle(() => s.v.collection(a[0]).put('k', { n: 1 }))); allowed = m.role === 'owner' || m.role === 'admin' || m.perms[a[0]] === 'rw'; if (actor !== 'owner' && !allowed) r = r.ok ? r : { ok: false } }
        else if (kind === 'rotate') { r = await attempt(() => s.db.rotate('V', ['x'])); for (const [w, f] of M) if (w !== actor) f.rotated = true }
        else if (kind === 'reopen') { s.db.close(); const q = await attempt(() => open(store, 'owner', m.pass)); r = q; if (q.ok) own = q.val }
        ctx.trans()
        if (allowed && !r.ok && kind === 'write') { /* an admin granted before the collection existed has no key for it: refused, see P09 */ }
        else if (allowed !== r.ok) { bad(r.ok ? 'allowed' : 'refused', `${name} by ${actor} (${m.role}) ${r.ok ? 'succeeds but must be refused' : `fails: ${r.err?.name} ${r.err?.message}`}`); skip = true; break }
      }
      if (skip) continue
      // key-derivation parameters
      for (const k of W.log.kdf) if (k.alg === 'PBKDF2' && (k.iterations < 600000 || k.hash !== 'sha256' || k.salt.length < 32)) { bad('kdf', `weak derivation ${k.hash} ${k.iterations} rounds, salt of ${k.salt.length / 2} bytes`); break }
      const saltOf = new Map()
      for (const id of data.ids('V', '_keyring')) { const s = JSON.parse(data.get('V', '_keyring', id)._data).salt; if (saltOf.has(s)) bad('salt', `${id} and ${saltOf.get(s)} share a salt`); saltOf.set(s, id) }
      W.log = null
      // who is listed
      const listed = (await own.db.listUsers('V')).map((x) => [x.userId, x.role, ...(x.userId === 'owner' ? [] : [x.displayName, x.grantedBy]), ...(x.role === 'operator' || x.role === 'client' ? [M.get(x.userId)?.rotated ? Object.entries(x.permissions).every(([c, p]) => M.get(x.userId).perms[c] === p) : x.permissions] : [])]).sort()
      const expect = [...M].map(([id, f]) => [id, f.role, ...(id === 'owner' ? [] : [f.name, f.by]), ...(f.role === 'operator' || f.role === 'client' ? [f.rotated ? true : f.perms] : [])]).sort()
      if (!same(listed, expect)) bad('listUsers', `listUsers reports ${JSON.stringify(listed)}, expected ${JSON.stringify(expect)}`)
      // every user with every passphrase
      const before = canon(data.snapshot())
      for (const [user, pass] of PAIRS) {
        const should = M.get(user)?.pass === pass
        const r = await attempt(() => open(store, user, pass))
        ctx.count('probes')
        if (r.ok !== should) bad(should ? 'locked-out' : 'intruder', `${user} with passphrase ${pass} ${r.ok ? 'opens the vault' : `is refused (${r.err.name}: ${r.err.message})`}; current keyrings: ${JSON.stringify([...M].map(([i, f]) => [i, f.pass, f.role]))}`)
        else if (should && r.val.v.role !== M.get(user).role) bad('role', `${user} opens with role ${r.val.v.role}, granted ${M.get(user).role}`)
        else if (should && r.val.v.userId !== user) bad('identity', `${user} opens as ${r.val.v.userId}`)
        else if (should) {
          const f = M.get(user), v = r.val.v, wide = f.role === 'owner' || f.role === 'admin'
          const got = ['csv', 'json', 'xlsx'].flatMap((x) => [v.canExport('plaintext', x), v.canImport('plaintext', x)]).concat(v.canExport('bundle'), v.canImport('bundle'))
          const want = ['csv', 'json', 'xlsx'].flatMap((x) => [!!f.caps.exportCapability?.plaintext?.includes(x), !!f.caps.importCapability?.plaintext?.includes(x)]).concat(f.caps.exportCapability?.bundle ?? wide, f.caps.importCapability?.bundle ?? false)
          if (!same(got, want)) bad('capability', `${user} (${f.role}) has the rights ${got}, granted ${want}`)
        }
        if (r.ok) r.val.db.close()
      }
      if (u.init === 'expiring' && M.get('bob')) {
        const f = M.get('bob'), was = W.now, tick = W.tick
        W.tick = 0
        for (const d of [-1, 0, 1]) {
          W.now = (f.exp ?? was + 1e6) + d
          const r = await attempt(() => open(store, 'bob', f.pass))
          const should = !f.exp || d < 0
          if (r.ok !== should || (!r.ok && r.err.name !== 'KeyringExpiredError')) bad('expiry', `bob, ${f.exp ? `${d} ms from the end of their access` : 'granted again without an end'}, ${r.ok ? 'opens the vault' : `is refused (${r.err.name})`}`)
          if (r.ok) r.val.db.close()
        }
        W.now = was; W.tick = tick
      }
      if (canon(data.snapshot()) !== before) bad('probe-writes', 'an attempt to open the vault changed the store')
      ctx.state([...M].sort())
      if (ctx.executions === 2) ctx.sample({ history: seq, keyrings: [...M] })
    }
  },
}
