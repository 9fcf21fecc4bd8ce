// P30 — records above tier 0 open only for holders of the tier key; everything else keeps working around them.
import nc from 'node:crypto'
import { resetWorld, settle, W } from '../lib/world.mjs'
import { exploreAll, canon, same, sequences } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'

const P = (who) => (who === 'owner' ? PASS : `${who} correct horse battery`)
const EXCEPT = ['session', 'shadow', 'i18n', 'aggregate', 'periods', 'consent', 'crdt']
const LAZY = { prefetch: false, cache: { maxRecords: 8 } }
const MODES = { eager: { indexes: ['n'] }, lazy: { ...LAZY, indexes: ['n'] } }
/** Clearance of each participant: tiers whose key they hold. 'adm' is an admin, 'a' an operator with the tier-1 key, 'b' one without, 'c' one with only the tier-2 key, 'v' a viewer. */
const WHO = { owner: [0, 1, 2], adm: [0, 1, 2], a: [0, 1], b: [0], c: [0, 2], v: [0, 1, 2] }
const may = (who, tier) => WHO[who].includes(tier)
const OPS = [
  ...['put', 'pt0', 'pt1', 'pt2', 'pt3', 'el1', 'el2', 'de0', 'de1', 'del'].map((o) => ['owner', o]),
  ...['put', 'pt1', 'pt2', 'el1', 'el2', 'de0'].map((o) => ['a', o]),
  ...['pt0', 'pt1', 'el1', 'de0'].map((o) => ['b', o]), ...['el2', 'de1'].map((o) => ['c', o]),
  ...['el1', 'de0'].map((o) => ['adm', o]), ['v', 'pt1'],
]
const gcmOpens = (env, key) => {
  try {
    const b = Buffer.from(env._data, 'base64'), d = nc.createDecipheriv('aes-256-gcm', key, Buffer.from(env._iv, 'base64'))
    d.setAuthTag(b.subarray(b.length - 16)); d.update(b.subarray(0, b.length - 16)); d.final(); return true
  } catch { return false }
}
/** The raw keys in a user's keyring. */
function capture(data, who) {
  const f = JSON.parse(data.get('V', '_keyring', who)._data)
  const kek = nc.pbkdf2Sync(P(who), Buffer.concat([Buffer.from(f.salt, 'base64'), Buffer.from('|600000')]), 1, 32, 'sha256')
  return Object.values(f.deks).map((w) => { const d = nc.createDecipheriv('id-aes256-wrap', kek, Buffer.alloc(8, 0xa6)); try { return Buffer.concat([d.update(Buffer.from(w, 'base64')), d.final()]) } catch { return null } }).filter(Boolean)
}
async function open(nb, store, who, opts, db = {}) {
  const d = await openDb(nb, store, { user: who, secret: P(who), except: ['sync', ...EXCEPT], ...db })
  const v = await d.openVault('V')
  const events = []
  v.onCrossTierAccess((e) => events.push(e))
  return { db: d, v, c: v.collection('docs', { tiers: [0, 1, 2], ...opts }), events, who }
}
/** Vault with a bystander record, keys for tiers 1 and 2, and the participants. */
async function setup(nb, data, store, opts) {
  const O = await open(nb, store, 'owner', opts)
  await O.c.put('y', { n: 1 }); await O.c.putAtTier('s', { n: 2 }, 1); await O.c.putAtTier('t', { n: 3 }, 2)
  await O.db.grant('V', { userId: 'adm', displayName: 'm', role: 'admin', passphrase: P('adm') })
  await O.db.grant('V', { userId: 'a', displayName: 'a', role: 'operator', passphrase: P('a'), permissions: { docs: 'rw', 'docs#1': 'rw' } })
  await O.db.grant('V', { userId: 'b', displayName: 'b', role: 'operator', passphrase: P('b'), permissions: { docs: 'rw' } })
  await O.db.grant('V', { userId: 'c', displayName: 'c', role: 'operator', passphrase: P('c'), permissions: { docs: 'rw', 'docs#2': 'rw' } })
  await O.db.grant('V', { userId: 'v', displayName: 'v', role: 'viewer', passphrase: P('v') })
  O.events.length = 0
  return O
}
/** Specification of one operation: → { err } or { next state, event }. State of record r: null or {tier, n, v, by}. */
function spec(st, who, op, n) {
  const role = { owner: 'owner', adm: 'admin', a: 'operator', b: 'operator', c: 'operator', v: 'viewer' }[who]
  const k = op.slice(0, 2), t = Number(op.slice(2))
  const ev = (o, tier, authorization) => ({ actor: who, collection: 'docs', id: 'r', tier, authorization, op: o })
  if (op === 'put') { if (st && st.tier > 0) return null; return { next: { tier: 0, n, v: (st?.v ?? 0) + 1 } } }
  if (op === 'del') return { next: null }
  if (k === 'pt') {
    if (t > 2) return { err: true }
    if (!may(who, t) || role === 'viewer') return { err: true }
    return { next: { tier: t, n, v: (st?.v ?? 0) + 1 }, event: t > 0 ? ev('put', t, 'inherent') : null }
  }
  if (!st) return { err: true }
  if (t === st.tier) return { next: st, allowErr: true } // nothing to do, or refused for lack of clearance
  if (k === 'el') {
    if (t < st.tier || !may(who, t) || !may(who, st.tier) || role === 'viewer') return { err: true }
    return { next: { tier: t, n: st.n, v: st.v + 1, by: who }, event: ev('elevate', t, 'elevation') }
  }
  if (t > st.tier || role === 'viewer') return { err: true }
  if ((role !== 'owner' && st.by !== who) || !may(who, st.tier) || !may(who, t)) return { err: true }
  return { next: { tier: t, n: st.n, v: st.v + 1 }, event: ev('demote', st.tier, 'elevation') }
}
const act = (S, op, n) => {
  const k = op.slice(0, 2), t = Number(op.slice(2))
  return op === 'put' ? S.c.put('r', { n }) : op === 'del' ? S.c.delete('r') : k === 'pt' ? S.c.putAtTier('r', { n }, t) : k === 'el' ? S.c.elevate('r', t) : S.c.demote('r', t)
}
const strip = (e) => { const { ts, ...r } = e; return r }
const byN = (l) => l.map((r) => r.n).sort((x, y) => x - y)

async function plainView(S, mode) {
  const out = { get: {} }
  for (const id of ['r', 's', 't', 'y']) out.get[id] = (await S.c.get(id))?.n ?? null
  const sc = []; for await (const r of S.c.scan({ pageSize: 3 })) sc.push(r)
  out.scan = byN(sc)
  if (mode === 'eager') { out.list = byN(await S.c.list()); out.count = await S.c.count(); out.q = []; for (let n = 1; n < 60; n++) if (S.c.query().where('n', '==', n).toArray().length) out.q.push(n) } else {
    out.q = []; for (const n of [1, 2, 3, ...Object.values(out.get).filter((x) => x > 3)]) if ((await S.c.lazyQuery().where('n', '==', n).toArray()).length) out.q.push(n)
  }
  return out
}
/** Everything a session of `who` must see of the collection. */
async function inspect(S, who, mode, tierMode, recs, bad, label) {
  const r = await attempt(() => plainView(S, mode))
  const zero = Object.values(recs).filter((x) => x?.tier === 0).map((x) => x.n).sort((x, y) => x - y)
  const want = { get: Object.fromEntries(Object.entries(recs).map(([id, x]) => [id, x?.tier === 0 ? x.n : null])), scan: zero }
  if (mode === 'eager') { want.list = zero; want.count = zero.length }
  want.q = zero
  if (!r.ok) bad(`plain:${who}:${mode}`, `${label}: plain reads fail: ${errName(r)} ${r.err.message}`)
  else if (canon(r.val) !== canon(want)) bad(`plain:${who}:${mode}`, `${label}: plain reads give ${canon(r.val)}, expected ${canon(want)}`)
  S.events.length = 0
  const ev = []
  for (const [id, x] of Object.entries(recs)) {
    const g = await attempt(() => S.c.getAtTier(id))
    const open = x && (x.tier === 0 || may(who, x.tier))
    const w = !x ? null : open ? { n: x.n } : tierMode === 'ghost' ? { _ghost: true, _tier: x.tier } : null
    if (!g.ok || !same(g.val, w)) bad(`get:${who}:${tierMode}`, `${label}: getAtTier(${id}) gives ${g.ok ? canon(g.val) : errName(g)}, expected ${canon(w)}`)
    if (open && x.tier > 0) ev.push({ actor: who, collection: 'docs', id, tier: x.tier, authorization: who === 'owner' || who === 'adm' ? 'inherent' : 'delegation', op: 'get' })
  }
  if (canon(S.events.map(strip)) !== canon(ev)) bad(`get-events:${who}`, `${label}: reads announced ${canon(S.events.map(strip))}, expected ${canon(ev)}`)
  const l = await attempt(() => S.c.listAtTier())
  const wl = Object.entries(recs).filter(([, x]) => x).map(([id, x]) => ({ id, tier: x.tier, readable: may(who, x.tier) })).filter((x) => x.readable || tierMode === 'ghost')
  if (!l.ok || canon(l.val.slice().sort((x, y) => (x.id < y.id ? -1 : 1))) !== canon(wl.sort((x, y) => (x.id < y.id ? -1 : 1)))) bad(`list:${who}:${tierMode}`, `${label}: listAtTier gives ${l.ok ? canon(l.val) : errName(l)}, expected ${canon(wl)}`)
}
const recsOf = (st) => ({ r: st, s: { tier: 1, n: 2 }, t: { tier: 2, n: 3 }, y: { tier: 0, n: 1 } })

async function baseOf(nb, opts) {
  resetWorld(1, { tick: 1 })
  const base = new Data()
  await settle(async () => (await setup(nb, base, plainStore(nb.hub, base), opts)).db.close())
  return base
}
async function histories(u, ctx) {
  const { nb } = ctx
  const base = await baseOf(nb, MODES[u.mode])
  for (let len = 1; len <= u.len; len++) for (const rest of sequences(OPS.length, len - 1)) {
    const seq = [u.i, ...rest].map((i) => OPS[i])
    const name = seq.map(([w, o]) => `${w}.${o}`).join(' ; ')
    resetWorld(2, { tick: 1 }); ctx.exec(); ctx.last = name
    const data = base.clone(), store = plainStore(nb.hub, data)
    const bad = (k, w) => ctx.violation(`${k}:${u.mode}`, `${u.mode}: ${name}: ${w}`, name)
    const opts = MODES[u.mode]
    const done = await attempt(() => settle(async () => {
      let S = await open(nb, store, seq[0][0], opts), st = null, n = 9
      for (const [who, op] of seq) {
        n++
        const w = spec(st, who, op, n)
        if (w === null) return false
        if (S.who !== who) { S.db.close(); S = await open(nb, store, who, opts) }
        S.events.length = 0
        const before = canon(data.get('V', 'docs', 'r'))
        const r = await attempt(() => act(S, op, n))
        ctx.trans()
        if (w.err ? r.ok : !r.ok && !w.allowErr) { bad(`op:${who}.${op}`, `${who}.${op} on ${canon(st)} ${r.ok ? 'is allowed' : `fails: ${errName(r)} ${r.err.message}`}`); return false }
        const changed = !w.err && w.next !== st
        if (!changed && canon(data.get('V', 'docs', 'r')) !== before) { bad(`effect:${who}.${op}`, `${who}.${op} on ${canon(st)} ${r.ok ? '' : `fails with ${errName(r)} but `}changes the stored record`); return false }
        if (canon(S.events.map(strip)) !== canon(changed && w.event ? [w.event] : [])) bad(`event:${who}.${op}`, `${who}.${op} announced ${canon(S.events)}, expected ${canon(w.event ?? null)}`)
        if (!w.err) st = w.next
        const e = data.get('V', 'docs', 'r')
        if (!st !== !e || (st && (st.tier !== (e._tier ?? 0) || st.v !== e._v))) { bad('stored', `after ${who}.${op} the store holds version ${e?._v} tier ${e?._tier ?? 0}, expected ${canon(st)}`); return false }
      }
      ctx.state(canon(st))
      const recs = recsOf(st)
      await inspect(S, S.who, u.mode, 'invisibility', recs, bad, `session of ${S.who}`)
      S.db.close()
      for (const who of Object.keys(WHO)) {
        const tierMode = u.mode === 'lazy' ? 'ghost' : 'invisibility'
        const F = await open(nb, store, who, { ...opts, tierMode })
        await inspect(F, who, u.mode, tierMode, recs, bad, `fresh session of ${who}`)
        if (who === 'owner') { const i = await F.v.verifyBackupIntegrity(); if (!i.ok) bad('integrity', `the backup check reports ${i.message}`) }
        F.db.close()
        // keys someone holds open no record above their clearance, nor any copy of it made after it was raised
        if (who === 'a' || who === 'b' || who === 'c') for (const key of capture(data, who)) for (const [id, x] of Object.entries(recs)) {
          if (!x || may(who, x.tier)) continue
          for (const [c, m] of Object.entries(data.snapshot().V)) for (const [eid, env] of Object.entries(m)) if (c !== '_keyring' && (eid === id || eid.startsWith(`_idx/`) && eid.endsWith(`/${id}`)) && gcmOpens(env, key)) bad(`keys:${who}`, `a key ${who} holds opens ${c}/${eid}, which belongs to a record at tier ${x.tier}`)
        }
      }
      ctx.count('sessions_inspected', 7)
      return true
    }))
    if (!done.ok) throw done.err
    if (done.val) ctx.count('histories_complete')
  }
}

/** Elevated handles: one at a time, for their time only, on the record. */
const EOPS = ['e1', 'e2', 'eFault', 'putA', 'putB', 'relA', 'relB', 't1000', 't1001', 'eBad']
async function elevations(u, ctx) {
  const { nb } = ctx
  const base = await baseOf(nb, {})
  for (let len = 1; len <= u.len; len++) for (const rest of sequences(EOPS.length, len - 1)) {
    const seq = [u.i, ...rest].map((i) => EOPS[i])
    const name = seq.join(' ; ')
    if (seq.some((o, j) => /A$|B$/.test(o) && seq.slice(0, j).filter((x) => x === 'e1' || x === 'e2').length < (o.endsWith('B') ? 2 : 1))) continue
    if (len > 3 && seq.includes('eBad')) continue
    resetWorld(2, { tick: 0 }); ctx.exec(); ctx.last = name
    const data = base.clone()
    let fail = false
    const store = hookedStore(nb.hub, data, async (m, args, doIt) => { if (fail && m === 'put' && args[1] === '_elevation_audit') throw new Error('disk full'); return doIt() })
    const bad = (k, w) => ctx.violation(`elevation:${k}:${u.who}`, `elevation by ${u.who}: ${name}: ${w}`, name)
    const done = await attempt(() => settle(async () => {
      const S = await open(nb, store, u.who, {})
      S.v.collection('other', { tiers: [0, 1, 2] })
      const h = {} // A, B: the first and the second elevation; model {tier, exp, live}
      let made = 0, n = 10, val = null
      const active = () => Object.values(h).find((x) => x.live && W.now <= x.exp)
      for (const op of seq) {
        n++; S.events.length = 0
        if (op[0] === 't') { W.now += Number(op.slice(1)); continue }
        if (op[0] === 'e') {
          const tier = op === 'e2' ? 2 : 1, reason = `why${n}`
          const slot = 'ABCDE'[made]
          fail = op === 'eFault'
          const o = op === 'eBad' ? [[0, { ttlMs: 1000, reason }], [1.5, { ttlMs: 1000, reason }], [1, { ttlMs: 0, reason }], [1, { ttlMs: -5, reason }], [1, { ttlMs: 1000, reason: '' }], [1, { ttlMs: NaN, reason }], [1, { ttlMs: Infinity, reason }]] : [[tier, { ttlMs: 1000, reason }]]
          for (const [t, opt] of o) {
            const busy = active(), audits = data.ids('V', '_elevation_audit').length
            const r = await attempt(() => S.v.elevate(t, opt))
            ctx.trans()
            const want = op !== 'eBad' && op !== 'eFault' && !busy && may(u.who, tier)
            if (r.ok !== want) { bad(op, `elevate(${t}, ${opt.ttlMs} ms) ${r.ok ? 'succeeds' : `fails: ${errName(r)} ${r.err.message}`}${busy ? ' while another elevation is active' : ''}`); return false }
            if (op !== 'eBad' && op !== 'eFault' && busy && errName(r) !== 'ALREADY_ELEVATED' && may(u.who, tier)) bad('busy-error', `elevate while elevated fails with ${errName(r)}`)
            if (data.ids('V', '_elevation_audit').length !== audits + (want ? 1 : 0)) bad('audit', `elevate leaves ${data.ids('V', '_elevation_audit').length - audits} audit entries`)
            if (want) {
              h[slot] = { tier, exp: W.now + 1000, live: true, reason, handle: r.val }; made++
              if (r.val.tier !== tier || r.val.reason !== reason || r.val.expiresAt !== h[slot].exp) bad('handle', `the handle says tier ${r.val.tier}, reason ${r.val.reason}, expiry ${r.val.expiresAt - W.now} ms from now`)
            }
          }
          fail = false
          continue
        }
        const x = h[op.slice(3)]
        if (!x) return false
        if (op.startsWith('rel')) { await x.handle.release(); x.live = false; continue }
        const ok = x.live && W.now <= x.exp
        const before = canon(data.get('V', 'docs', 'r'))
        const r = await attempt(() => x.handle.collection('docs').put('r', { n }))
        ctx.trans()
        if (r.ok !== ok) { bad(op, `a write through ${x.live ? (ok ? 'an active' : 'an expired') : 'a released'} elevation ${r.ok ? 'succeeds' : `fails: ${errName(r)}`}`); return false }
        if (!ok) {
          if (errName(r) !== 'ELEVATION_EXPIRED') bad('error', `a write through an elevation that ended fails with ${errName(r)}`)
          if (canon(data.get('V', 'docs', 'r')) !== before) bad('effect', 'a refused write changes the record')
          if (S.events.length) bad('event', 'a refused write is announced')
        } else {
          val = { n, tier: x.tier }
          const w = [{ actor: u.who, collection: 'docs', id: 'r', tier: x.tier, authorization: 'elevation', op: 'put', reason: x.reason, elevatedFrom: 0 }]
          if (canon(S.events.map(strip)) !== canon(w)) bad('event', `the write is announced as ${canon(S.events)}`)
          if (data.get('V', 'docs', 'r')._tier !== x.tier) bad('tier', `a write at tier ${x.tier} is stored at tier ${data.get('V', 'docs', 'r')._tier ?? 0}`)
          const other = await attempt(() => x.handle.collection('other').put('r', { n }))
          if (other.ok !== (u.who !== 'a')) bad('other', `a write to a collection whose tier key the caller ${u.who === 'a' ? 'lacks succeeds' : `may create fails: ${errName(other)}`}`)
        }
        // reads stay where they were
        const g = await attempt(() => S.c.get('r'))
        if (!g.ok || g.val !== null) bad('read', `a plain read during the elevation gives ${g.ok ? canon(g.val) : errName(g)}`)
      }
      const F = await open(nb, store, 'owner', {})
      const g = await attempt(() => F.c.getAtTier('r'))
      if (!g.ok || (g.val?.n ?? null) !== (val?.n ?? null)) bad('value', `the record reads ${g.ok ? canon(g.val) : errName(g)}, last written ${canon(val)}`)
      F.db.close(); S.db.close()
      ctx.state(canon([val?.tier ?? null, made, Object.values(h).map((x) => [x.live, W.now - x.exp])]))
      return true
    }))
    if (!done.ok) throw done.err
    if (done.val) ctx.count('elevation_histories')
  }
}

/** Two operations on one record of one session at once leave what some order of them would. */
const PAIRS = [['pt1', 'pt2'], ['pt1', 'put'], ['el1', 'put'], ['el1', 'pt2'], ['el1', 'el2'], ['de0', 'pt2'], ['de0', 'put'], ['el1', 'del'], ['de0', 'del'], ['el1', 'get'], ['de0', 'get'], ['el1', 'list']]
async function races(u, ctx) {
  const { nb } = ctx
  const base = await baseOf(nb, MODES[u.mode])
  await settle(async () => {
    const S = await open(nb, plainStore(nb.hub, base), 'owner', MODES[u.mode])
    if (u.pair[0].startsWith('de')) await S.c.putAtTier('r', { n: 10 }, 1); else await S.c.put('r', { n: 10 })
    S.db.close()
  })
  const res = await exploreAll(async (ch) => {
    resetWorld(2, { tick: 1 }); ctx.exec()
    const data = base.clone(), sched = new Sched(nb.hub, ch, { mode: u.sm, preempt: u.preempt })
    const plain = plainStore(nb.hub, data), slow = sched.store(data, 's')
    let on = false
    const store = new Proxy(plain, { get: (t, k) => (typeof t[k] === 'function' ? (...a) => (on ? slow : plain)[k](...a) : t[k]) })
    const X = await settle(() => open(nb, store, 'owner', MODES[u.mode]))
    if (!u.cold) await settle(() => X.c.get('r'))
    await settle(() => X.v.ledger()?.head())
    on = true
    const f = (op, n) => { const k = op.slice(0, 2), t = Number(op.slice(2)); return op === 'put' ? X.c.put('r', { n }) : op === 'get' ? X.c.get('r') : op === 'list' ? (u.mode === 'eager' ? X.c.list() : X.c.get('r')) : op === 'del' ? X.c.delete('r') : k === 'pt' ? X.c.putAtTier('r', { n }, t) : k === 'el' ? X.c.elevate('r', t) : X.c.demote('r', t) }
    const out = { X, rs: await sched.run(u.pair.map((op, i) => [`t${i}`, () => f(op, 20 + i)])) }
    on = false
    ctx.trans(sched.transitions)
    const bad = (k, w) => ctx.violation(`race:${u.pair.join('+')}:${k}:${u.mode}`, `${u.pair.join(' with ')} at once (${u.mode}${u.cold ? ', cold' : ''}): ${w}`, { trace: sched.trace })
    const settled = await attempt(() => settle(async () => {
      const e = data.get('V', 'docs', 'r'), X = out.X
      const tier = e?._tier ?? 0
      const rec = e ? await X.c.getAtTier('r') : null
      // results of the serial orders
      const serial = new Set()
      for (const order of [[0, 1], [1, 0]]) {
        let st = u.pair[0].startsWith('de') ? { tier: 1, n: 10, v: 1 } : { tier: 0, n: 10, v: 1 }, free = false
        for (const i of order) {
          const op = u.pair[i]
          if (op === 'get' || op === 'list') continue
          if (op.startsWith('put') && st && st.tier > 0) { st = { tier: 0, n: 20 + i, v: 1 }; free = true; continue }
          const w = spec(st, 'owner', op, 20 + i)
          if (!w.err) st = w.next
        }
        serial.add(canon(st && [st.tier, st.n, free ? '*' : st.v]))
      }
      const got = e && [tier, rec?.n, e._v]
      if (![...serial].some((x) => x === canon(got) || (got && x === canon([got[0], got[1], '*'])))) bad('state', `ends as ${canon(got)} [tier, value, version], which no order gives (${[...serial].join(' or ')}); results ${out.rs.map((r) => errName(r)).join(', ')}`)
      const g = await attempt(() => X.c.get('r'))
      const want = e && tier === 0 ? rec : null
      if (!g.ok || !same(g.val ?? null, want)) bad('cache', `the store holds tier ${tier} ${canon(rec)} but a plain read gives ${g.ok ? canon(g.val) : errName(g)}`)
      const p = await attempt(() => plainView(X, u.mode))
      if (!p.ok) bad('view', `plain reads fail: ${errName(p)} ${p.err.message}`)
      const i = await X.v.verifyBackupIntegrity(); if (!i.ok) bad('integrity', `the backup check reports ${i.message}`)
      ctx.state(canon(got))
      X.db.close()
    }))
    if (!settled.ok) bad('fails', `${errName(settled)} ${settled.err.message}`)
  }, { maxExec: ctx.tier === 'quick' ? 4000 : 60000 })
  if (!res.complete) ctx.capped(`race ${u.pair.join('+')}`)
}

/** Records moved between tiers reach the other devices. */
const SOPS = ['put', 'pt0', 'pt1', 'pt2', 'el1', 'el2', 'de0', 'de1']
async function syncing(u, ctx) {
  const { nb } = ctx
  for (let len = 1; len <= u.len; len++) for (const rest of sequences(SOPS.length + 1, len - 1)) {
    const seq = [u.i, ...rest].map((i) => (i === SOPS.length ? 'push' : SOPS[i]))
    const name = seq.join(' ; ')
    resetWorld(1, { tick: 1 }); ctx.exec(); ctx.last = name
    const local = new Data(), remote = new Data()
    const bad = (k, w) => ctx.violation(`sync:${k}:${u.mode}`, `tiered records and sync (${u.mode}): ${name} ; push: ${w}`, name)
    const db = { sync: plainStore(nb.hub, remote), syncPolicy: { push: { mode: 'manual' }, pull: { mode: 'manual' } }, except: EXCEPT }
    const done = await attempt(() => settle(async () => {
      const S = await open(nb, plainStore(nb.hub, local), 'owner', MODES[u.mode], db)
      await S.c.put('y', { n: 1 })
      // the second device starts from the same keyring, with the collection open
      await S.c.putAtTier('s', { n: 2 }, 1); await S.c.putAtTier('t', { n: 3 }, 2)
      await S.db.push('V')
      const second = new Data(); second.restore(local.snapshot())
      const T = await open(nb, plainStore(nb.hub, second), 'owner', MODES[u.mode], db)
      await T.c.get('y')
      let st = null, n = 9
      for (const op of seq) {
        n++
        if (op === 'push') { await S.db.push('V'); await T.db.pull('V'); continue }
        const w = spec(st, 'owner', op, n)
        if (w === null || w.err) return false
        await act(S, op, n); st = w.next
        ctx.trans()
      }
      const pr = await S.db.push('V')
      if (pr.errors?.length) bad('errors', `push reports ${pr.errors.length} errors`)
      const pl = await T.db.pull('V')
      if (pl.errors?.length || pl.conflicts?.length) bad('errors', `pull reports ${pl.errors?.length} errors, ${pl.conflicts?.length} conflicts`)
      const a = local.get('V', 'docs', 'r'), b = remote.get('V', 'docs', 'r'), c = second.get('V', 'docs', 'r')
      if (canon(a) !== canon(b)) bad('remote', `the remote holds ${b ? `version ${b._v} tier ${b._tier ?? 0}` : 'nothing'}, the device version ${a?._v} tier ${a?._tier ?? 0}`)
      else if (canon(a) !== canon(c)) bad('second', `the second device holds ${c ? `version ${c._v} tier ${c._tier ?? 0}` : 'nothing'}, the first version ${a?._v} tier ${a?._tier ?? 0}`)
      else await inspect(T, 'owner', u.mode, 'invisibility', recsOf(st), bad, 'second device')
      S.db.close(); T.db.close()
      return true
    }))
    if (!done.ok) { bad('fails', `${errName(done)} ${done.err.message}`); continue }
    if (done.val) ctx.count('sync_histories')
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive exploration of histories of tier operations by differently cleared users, of elevation lifetimes with faults, and of interleavings of two operations, on the real code against a reference machine',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} operations of six users (eager with indexes; length <= ${t === 'quick' ? 2 : 3} lazy with indexes), all elevation histories of length <= ${t === 'quick' ? 5 : 6} over ${EOPS.length} steps for an owner and an operator (3 for one without clearance), all interleavings with <= ${t === 'quick' ? 2 : 4} preemptions of ${PAIRS.length} pairs of operations on one record, all histories of length <= 3 of tier moves with a push to a second device`,
  assumptions: ['AES-GCM is ideal', 'a user acting after another does so in a freshly opened session', 'a plain put over a record above tier 0 is not exercised (it replaces the record)', 'history entries written before a record was raised stay at tier 0'],
  units(tier) {
    const q = tier === 'quick', out = []
    for (let i = 0; i < OPS.length; i++) { out.push({ kind: 'histories', mode: 'eager', i, len: q ? 3 : 4 }); out.push({ kind: 'histories', mode: 'lazy', i, len: q ? 2 : 3 }) }
    for (const who of ['owner', 'a', 'b']) for (let i = 0; i < EOPS.length; i++) out.push({ kind: 'elevations', who, i, len: who === 'b' ? 3 : q ? 5 : 6 })
    for (const pair of PAIRS) for (const mode of ['eager', 'lazy']) for (const cold of [false, true]) for (const sm of ['call', 'reply']) out.push({ kind: 'races', pair, mode, cold, sm, preempt: q ? 2 : 4 })
    for (const mode of ['eager', 'lazy']) for (let i = 0; i < SOPS.length; i++) out.push({ kind: 'syncing', mode, i, len: 3 })
    return out
  },
  runUnit: (u, ctx) => ({ histories, elevations, races, syncing })[u.kind](u, ctx),
}
