// P38 — several open sessions of one vault never lose each other's data or keys.
import { resetWorld, settle } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, PASS } from '../lib/noy.mjs'

const BOB = 'bob has a passphrase'
const bytes = (t) => new TextEncoder().encode(t)
// each letter is one operation by one session: A and B are two sessions of the owner, C one of an operator
const OPS = []
for (const s of ['A', 'B']) for (const op of ['put old', 'put new1', 'put new2', 'del old', 'blob', 'dict', 'grant', 'lazy']) OPS.push([s, op])
for (const op of ['put old', 'put new1', 'blob']) OPS.push(['C', op])
OPS.push(['A', 'reopen'], ['C', 'reopen'])

export default {
  level: 'model_checking',
  technique: 'exhaustive operation histories by three sessions over one store on the real code; afterwards a fresh instance must read exactly the acknowledged contents',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} (session, operation) letters: two sessions of the owner, one of an operator; first writes, deletions, blobs, dictionaries, grants, lazy indexed writes, reopenings`,
  assumptions: ['operations do not overlap (overlap within a session is P02)', 'a session shows its own view until reopened (documented); the store is the reference'],
  units(tier) { return [{ stale: 'put' }, { stale: 'blob' }, ...OPS.flatMap((_, i) => (tier === 'quick' ? [{ i, len: 3 }] : OPS.map((_, j) => ({ i, j, len: 4 }))))] },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const open = async (store, user = 'owner', secret = PASS) => {
      const db = await openDb(nb, store, { user, secret, except: ['sync', 'session'] })
      const v = await db.openVault('V')
      return { db, v, lazy: v.collection('lazy', { prefetch: false, cache: { maxRecords: 1 }, indexes: ['f'] }) }
    }
    resetWorld(1)
    const base = new Data()
    await settle(async () => {
      const S = await open(plainStore(nb.hub, base))
      await S.v.collection('old').put('shared', { n: 0 })
      await S.db.grant('V', { userId: 'bob', displayName: 'B', role: 'operator', passphrase: BOB, permissions: { old: 'rw', new1: 'rw' } })
      S.db.close()
    })
    const image = base.snapshot()
    if (u.stale) {
      // one session rotates the key of a collection, another still open one writes to it
      resetWorld(2)
      const data = new Data(); data.restore(image)
      const store = plainStore(nb.hub, data)
      const r = await settle(async () => {
        const A = await open(store), B = await open(store)
        await B.v.collection('old').list()
        await A.db.rotate('V', ['old'])
        const w = await attempt(() => (u.stale === 'put' ? B.v.collection('old').put('fresh', { n: 1 }) : B.v.collection('old').blob('shared').put('s', bytes('x'), { compress: false })))
        const F = await open(store)
        return { w, g: await attempt(() => (u.stale === 'put' ? F.v.collection('old').get('fresh') : F.v.collection('old').blob('shared').get('s'))) }
      })
      ctx.exec(); ctx.last = `stale ${u.stale}`
      if (r.w.ok && (!r.g.ok || r.g.val === null)) ctx.violation(`stale-rotation:${u.stale}`, `A.rotate ; B.${u.stale}, B opened before the rotation: what B wrote reads ${r.g.ok ? canon(r.g.val) : r.g.err}`)
      return
    }
    const lens = u.j === undefined ? [1, 2, u.len] : [u.len]
    for (const len of lens) for (const rest of sequences(OPS.length, len - (u.j === undefined ? 1 : 2))) {
      const seq = [u.i, ...(u.j === undefined ? [] : [u.j]), ...rest].map((k) => OPS[k])
      resetWorld(2)
      const data = new Data(); data.restore(image)
      const store = plainStore(nb.hub, data)
      const S = {}
      S.A = await settle(() => open(store)); S.B = await settle(() => open(store)); S.C = await settle(() => open(store, 'bob', BOB))
      await settle(async () => { for (const k of ['A', 'B', 'C']) await S[k].v.collection('old').list() })
      const m = { 'old/shared': { n: 0 } }, blobs = {}, dict = {}
      let granted = null
      const bad = (k, w) => ctx.violation(k, `${seq.map((x) => x.join('.')).join(' ; ')}: ${w}`)
      for (let n = 0; n < seq.length; n++) {
        const [s, op] = seq[n], H = S[s]
        const [what, coll] = op.split(' ')
        const r = await attempt(() => settle(async () => {
          switch (what) {
            case 'put': await H.v.collection(coll).put(`by${s}`, { n: n + 1 }); await H.v.collection(coll).put('shared', { n: n + 1 }); return
            case 'del': await H.v.collection('old').delete('shared'); return
            case 'blob': await H.v.collection('old').blob('shared').put(`slot${s}`, bytes(`bytes ${n}`), { compress: false }); return
            case 'dict': await H.v.dictionary('d').put(`k${s}`, { en: `t${n}` }); return
            case 'grant': await H.db.grant('V', { userId: 'dave', displayName: 'D', role: 'viewer', passphrase: 'dave has one too', permissions: {} }); return
            case 'lazy': await H.lazy.put(`l${s}`, { f: 'x', n }); return
            case 'reopen': H.db.close(); S[s] = await open(store, s === 'C' ? 'bob' : 'owner', s === 'C' ? BOB : PASS); return
          }
        }))
        ctx.trans()
        if (!r.ok) {
          // a session without the key of a collection that others filled may refuse, but must not damage it
          if (['NO_ACCESS', 'NoAccessError'].includes(r.err?.code ?? r.err?.name) || r.err?.name === 'NoAccessError') { ctx.count('refused'); continue }
          bad(`op:${what}`, `${s}.${op} fails: ${r.err}`); continue
        }
        if (what === 'put') { m[`${coll}/by${s}`] = { n: n + 1 }; m[`${coll}/shared`] = { n: n + 1 } } else if (what === 'del') delete m['old/shared']
        else if (what === 'blob') blobs[`slot${s}`] = `bytes ${n}`
        else if (what === 'dict') dict[`k${s}`] = { en: `t${n}` }
        else if (what === 'lazy') m[`lazy/l${s}`] = { f: 'x', n }
        else if (what === 'grant') granted = new Set(Object.keys(m).map((k) => k.split('/')[0]))
      }
      ctx.exec(); ctx.last = seq.map((x) => x.join('.')).join(' ; ')
      const F = await attempt(() => settle(() => open(store)))
      if (!F.ok) { bad('open', `the vault does not open: ${F.err}`); continue }
      const f = F.val
      await settle(async () => {
        for (const coll of ['old', 'new1', 'new2', 'lazy']) for (const id of ['shared', 'byA', 'byB', 'byC', 'lA', 'lB']) {
          const c = coll === 'lazy' ? f.lazy : f.v.collection(coll)
          const g = await attempt(() => c.get(id)), e = m[`${coll}/${id}`] ?? null
          if (!g.ok) bad(`read:${coll}`, `${coll}/${id} cannot be read: ${g.err}`)
          else if (!same(g.val, e)) bad(`value:${coll}`, `${coll}/${id} reads ${canon(g.val)}, last acknowledged ${canon(e)}`)
        }
        for (const s of ['A', 'B', 'C']) {
          const g = await attempt(async () => { const b = await f.v.collection('old').blob('shared').get(`slot${s}`); return b ? new TextDecoder().decode(b) : null })
          if (!g.ok) bad('read:blob', `blob slot${s} cannot be read: ${g.err}`)
          else if (g.val !== (blobs[`slot${s}`] ?? null)) bad('value:blob', `blob slot${s} reads ${g.val}, last acknowledged ${blobs[`slot${s}`] ?? null}`)
        }
        for (const s of ['A', 'B']) {
          const g = await attempt(() => f.v.dictionary('d').get(`k${s}`))
          if (!g.ok) bad('read:dict', `dictionary entry k${s} cannot be read: ${g.err}`)
          else if (!same(g.val, dict[`k${s}`] ?? null)) bad('value:dict', `dictionary entry k${s} reads ${canon(g.val)}, last acknowledged ${canon(dict[`k${s}`] ?? null)}`)
        }
        const lz = Object.keys(m).filter((k) => k.startsWith('lazy/')).length
        const q = await attempt(() => f.lazy.lazyQuery().where('f', '==', 'x').toArray())
        if (!q.ok) bad('read:index', `the lazy query fails: ${q.err}`)
        else if (q.val.length !== lz) bad('value:index', `the lazy query finds ${q.val.length} of ${lz} records`)
        const lv = await f.v.ledger().verify()
        if (!lv.ok) bad('ledger', `ledger.verify reports ${canon(lv)}`)
        for (const [name, pass, colls] of [['bob', BOB, ['old']], ...(granted ? [['dave', 'dave has one too', [...granted]]] : [])]) {
          const B = await attempt(() => open(store, name, pass))
          if (!B.ok) { bad('user', `${name} cannot open the vault: ${B.err}`); continue }
          for (const coll of colls) for (const id of ['shared', 'byA', 'byB']) {
            const c = coll === 'lazy' ? B.val.lazy : B.val.v.collection(coll)
            const g = await attempt(() => c.get(id))
            if (!g.ok) bad(`user:${coll}`, `${name} cannot read ${coll}/${id}: ${g.err}`)
            else if (!same(g.val, m[`${coll}/${id}`] ?? null)) bad(`user:${coll}`, `${name} reads ${coll}/${id} as ${canon(g.val)}`)
          }
          B.val.db.close()
        }
      })
      f.db.close(); for (const k of ['A', 'B', 'C']) S[k].db.close()
      ctx.state([m, blobs, dict])
      if (ctx.executions <= 1) ctx.sample({ history: seq, contents: m })
    }
  },
}
