// P27 — sessions end when they should: tokens, policies, closed instances, development unlock.
import { resetWorld, W, advance, drain, rawKey, settle } from '../lib/world.mjs'
import { sequences, subsets, canon } from '../lib/explore.mjs'
import { attempt, openDb, HUB } from '../lib/noy.mjs'
import { Data, plainStore, hookedStore, Sched } from '../lib/stores.mjs'
import { exploreAll } from '../lib/explore.mjs'

const hex = (b) => Buffer.from(b).toString('hex')
const b64 = (b) => Buffer.from(b).toString('base64')

async function keyring(user, role, names) {
  const deks = new Map()
  for (const n of names) deks.set(n, await crypto.subtle.generateKey({ name: 'AES-GCM', length: 256 }, true, ['encrypt', 'decrypt']))
  return { userId: user, displayName: user.toUpperCase(), role, permissions: role === 'owner' ? {} : { [names[0]]: 'rw', x: 'ro' }, ...(role === 'owner' ? {} : { exportCapability: { plaintext: ['csv'], bundle: false }, importCapability: { plaintext: ['*'] } }), deks, kek: null, salt: crypto.getRandomValues(new Uint8Array(32)) }
}
const shape = (k) => canon({ u: k.userId, d: k.displayName, r: k.role, p: k.permissions, x: k.exportCapability ?? null, i: k.importCapability ?? null, s: hex(k.salt), k: [...k.deks].map(([n, d]) => [n, hex(rawKey(d))]).sort() })

// ── Session tokens ──────────────────────────────────────────────────────
const KR = [['ann', 'owner', ['a', 'b', '_ledger']], ['bob', 'operator', ['a']], ['cy', 'viewer', []]]
const TTL = [100, 250, undefined]
const HOUR = 3600000
/** Edits of a token by whoever holds it; `o` is another session's token. */
const EDIT = {
  same: (t) => t,
  json: (t) => JSON.parse(JSON.stringify(t)),
  later: (t) => ({ ...t, expiresAt: new Date(Date.parse(t.expiresAt) + 1e9).toISOString() }),
  never: (t) => ({ ...t, expiresAt: 'never' }),
  empty: (t) => ({ ...t, expiresAt: undefined }),
  role: (t) => ({ ...t, role: 'owner', userId: 'eve', vault: 'w' }),
  body: (t, o) => ({ ...t, wrappedKek: o.wrappedKek }),
  bodyIv: (t, o) => ({ ...t, wrappedKek: o.wrappedKek, kekIv: o.kekIv }),
  id: (t, o) => ({ ...t, sessionId: o.sessionId }),
  idTime: (t, o) => ({ ...t, sessionId: o.sessionId, expiresAt: o.expiresAt }),
  iv: (t) => ({ ...t, kekIv: b64(Buffer.from(t.kekIv, 'base64').map((x, i) => (i === 0 ? x ^ 1 : x))) }),
  bit: (t) => ({ ...t, wrappedKek: b64(Buffer.from(t.wrappedKek, 'base64').map((x, i) => (i === 3 ? x ^ 1 : x))) }),
  cut: (t) => ({ ...t, wrappedKek: b64(Buffer.from(t.wrappedKek, 'base64').subarray(0, -1)) }),
}
const FAITHFUL = new Set(['same', 'json', 'later', 'never', 'empty', 'role'])
const TOKEN_OPS = ['new0', 'new1', 'new2', 'drop0', 'drop1', 'all', 'use0', 'use1', '+1', '+99', '+100', '+150', '+h']

async function tokenHistory(H, path, ctx, edits) {
  resetWorld(3)
  H.revokeAllSessions()
  W.log = { enc: [], kdf: [], wraps: [], generated: [], exported: [], derived: [] }
  const open = [] // {kr, token, until, live}
  const say = (key, what) => ctx.violation(`token:${key}`, `${what}, history ${path.join(' ')}`, { path })
  const check = async (s, name) => {
    const o = open.find((x) => x !== s)
    const made = EDIT[name]
    if (!o && made.length > 1) return
    const t = made(s.token, o?.token)
    const r = await attempt(() => H.resolveSession(t))
    const ok = s.live && W.now <= s.until
    if (r.ok) {
      if (!ok) return say(`late:${name}`, `a session that ${s.live ? `ended ${W.now - s.until} ms ago` : 'was revoked'} was resolved (${name})`)
      if (!FAITHFUL.has(name)) return say(`forged:${name}`, `an edited token (${name}) was accepted`)
      if (shape(r.val) !== s.shape) return say('content', `the resolved keyring differs from the one stored (${name})`)
      if (r.val.kek) say('kek', 'a session carries the key-encryption key')
    } else {
      if (ok && FAITHFUL.has(name)) return say(`refused:${name}`, `a live session was refused (${r.err?.name}: ${r.err?.message})`)
      if (FAITHFUL.has(name)) {
        const want = W.now > s.until && (s.live || name === 'same' || name === 'json' || name === 'role') ? 'SessionExpiredError' : 'SessionNotFoundError'
        if (r.err?.name !== want && ['same', 'json', 'role'].includes(name)) say(`error:${name}`, `refused with ${r.err?.name}, expected ${want}`)
        if (W.now > s.until) s.live = false // dropped on discovery
      }
    }
  }
  for (const op of path) {
    ctx.trans()
    if (op.startsWith('new')) {
      const i = Number(op[3])
      const kr = await keyring(...KR[i])
      const r = await attempt(() => H.createSession(kr, `v${i}`, TTL[i] === undefined ? undefined : { ttlMs: TTL[i] }))
      if (!r.ok) return say('create', `no session: ${r.err?.message}`)
      const { token, sessionId } = r.val
      if (open.some((s) => s.token.sessionId === sessionId)) return say('id', 'two sessions share an id')
      const until = W.now + (TTL[i] ?? HOUR)
      if (token.sessionId !== sessionId || token.userId !== kr.userId || token.role !== kr.role || token.vault !== `v${i}` || Date.parse(token.expiresAt) !== until) return say('token', `the token says ${JSON.stringify({ ...token, wrappedKek: '…' })}`)
      const text = JSON.stringify(token), plain = Buffer.from(token.wrappedKek, 'base64')
      for (const d of kr.deks.values()) { const k = rawKey(d); if (text.includes(b64(k)) || text.includes(hex(k)) || plain.includes(b64(k)) || plain.includes(k)) return say('leak', 'the token shows a data key') }
      for (const e of W.log.enc ?? []) if (e.key && text.includes(b64(Buffer.from(String(e.key), 'hex')))) return say('leak', 'the token shows the session key')
      open.push({ token, until, live: true, shape: shape(kr), kr })
    } else if (op.startsWith('drop')) {
      const s = open[Number(op[4])]; if (!s) return false
      H.revokeSession(s.token.sessionId); s.live = false
    } else if (op.startsWith('use')) {
      const s = open[Number(op[3])]; if (!s) return false
      await check(s, 'same')
    } else if (op === 'all') { H.revokeAllSessions(); for (const s of open) s.live = false } else W.now += op === '+h' ? HOUR - 50 : Number(op.slice(1))
    for (const s of open) {
      const want = s.live && W.now <= s.until
      if (H.isSessionAlive(s.token) !== want) return say('alive', `isSessionAlive says ${!want}`)
      if (H.isSessionAlive(EDIT.later(s.token)) && !want) return say('alive:later', 'an edited token keeps the session alive')
    }
    const alive = open.filter((s) => s.live && W.now <= s.until).length, held = open.filter((s) => s.live).length
    const n = H.activeSessionCount()
    if (n < alive || n > held) return say('count', `${n} sessions counted, ${alive} alive`)
  }
  ctx.exec()
  ctx.state(canon(open.map((s) => [s.live, s.until - W.now])))
  // a stale token under another session's id drops that session: last
  for (const name of [...edits.filter((n) => n !== 'id'), 'same', 'id']) for (const s of open) await check(s, name)
  return true
}

async function tokens(u, ctx) {
  const H = ctx.nb.hub, depth = ctx.tier === 'thorough' ? 5 : 4
  for (const rest of sequences(TOKEN_OPS.length, depth - 1)) {
    const path = [u.first, ...rest.map((i) => TOKEN_OPS[i])]
    await tokenHistory(H, path, ctx, Object.keys(EDIT))
  }
  H.revokeAllSessions()
}

// ── Policies ────────────────────────────────────────────────────────────
const RE = ['export', 'grant', 'revoke', 'rotate', 'changeSecret']
const MAXT = 2 ** 31 - 1
const POLICIES = [
  { idleTimeoutMs: 50 }, { absoluteTimeoutMs: 120 }, { idleTimeoutMs: 50, absoluteTimeoutMs: 120 }, { lockOnBackground: true },
  { idleTimeoutMs: 50, absoluteTimeoutMs: 120, lockOnBackground: true, requireReAuthFor: ['grant'] }, {}, { lockOnBackground: false, requireReAuthFor: [] },
  { idleTimeoutMs: MAXT + 50, absoluteTimeoutMs: 2 * MAXT + 200 }, { absoluteTimeoutMs: MAXT + 100 },
]
const POL_OPS = ['touch', 'check', 'hide', 'show', 'end', '+1', '+49', '+50', '+70', 'late70', '+M']
function fakeDocument() {
  const on = new Set()
  return { hidden: false, addEventListener: (n, f) => n === 'visibilitychange' && on.add(f), removeEventListener: (n, f) => on.delete(f), fire() { for (const f of [...on]) f() }, get size() { return on.size } }
}
async function policy(u, ctx) {
  const H = ctx.nb.hub, P = POLICIES[u.policy], depth = ctx.tier === 'thorough' ? 5 : 4
  const { idleTimeoutMs: idle, absoluteTimeoutMs: abs } = P
  const kr = await keyring(...KR[0])
  for (const rest of sequences(POL_OPS.length, depth - 1)) {
    const path = [u.first, ...rest.map((i) => POL_OPS[i])]
    if (path.filter((o) => o === '+M').length > 2 || (path.includes('+M') && !((idle ?? abs) > MAXT) && path.indexOf('+M') < path.length - 1)) continue
    resetWorld(4)
    H.revokeAllSessions()
    const doc = (globalThis.document = fakeDocument())
    const a = await H.createSession(kr, 'v', { ttlMs: 1e15 }), b = await H.createSession(kr, 'v', { ttlMs: 1e15 })
    const fired = []
    const e = H.createEnforcer({ policy: P, sessionId: a.sessionId, onRevoke: (r) => fired.push([r, W.now]) })
    const born = W.now
    let last = born, over = null, ended = false
    const say = (key, what) => ctx.violation(`policy:${key}`, `${what} under ${JSON.stringify(P)} after ${path.join(' ')}`, { policy: P, path })
    /** When and why the session ends if nothing else happens until `t`. */
    const due = () => {
      const c = []
      if (idle) c.push([last + idle, 'idle'])
      if (abs) c.push([born + abs, 'absolute'])
      return c.sort((x, y) => x[0] - y[0])[0]
    }
    ctx.exec()
    let bad = false
    for (const op of path) {
      ctx.trans()
      if (op === 'touch') { e.touch(); if (!over && !ended) last = W.now } else if (op === 'end') { e.destroy(); ended = true } else if (op === 'hide' || op === 'show') {
        doc.hidden = op === 'hide'; doc.fire()
        if (op === 'hide' && P.lockOnBackground && !over && !ended) over = ['background', W.now]
      } else if (op === 'check') {
        if (ended && !over) continue // the session was given up by its owner
        const late = !over && abs && W.now >= born + abs
        if (late) over = ['absolute', W.now]
        for (const o of RE) {
          const r = await attempt(() => e.checkOperation(o))
          const want = over ? 'SessionExpiredError' : (P.requireReAuthFor ?? []).includes(o) ? 'SessionPolicyError' : null
          if ((r.ok ? null : r.err.name) !== want) { say(`check:${o}`, `checkOperation(${o}) gave ${r.ok ? 'a pass' : r.err.name}, expected ${want ?? 'a pass'}`); bad = true }
          if (want === 'SessionPolicyError' && r.err?.operation !== o) { say('check:name', 'the refusal names another operation'); bad = true }
        }
      } else if (op === 'late70') W.now += 70 // the event loop is blocked: no timer fires
      else {
        const end = W.now + (op === '+M' ? MAXT : Number(op.slice(1)))
        if (!over && !ended) { const d = due(); if (d && d[0] <= end) over = [d[1], Math.max(d[0], W.now), d[0] < W.now || last + idle === born + abs] }
        // timers fire synchronously in order here
        while (true) { let t = null; for (const x of W.timers.values()) if (!t || x.at < t.at) t = x; if (!t || t.at > end) break; W.timers.delete(t.id); W.now = Math.max(W.now, t.at); t.fn(...t.args) }
        W.now = end
      }
      if (bad) break
      const want = over ? 1 : 0
      if (fired.length !== want) { say('fired', fired.length ? `the session ended ${fired.length} times (${canon(fired.map((f) => [f[0], f[1] - born]))}), expected ${over ? `once, ${over[0]} at ${over[1] - born}` : 'not yet'}` : `the session did not end (${over[0]} at ${over[1] - born})`); break }
      if (over && (fired[0][0] !== over[0] || fired[0][1] !== over[1]) && !(over[2] && fired[0][1] === over[1])) { say('when', `the session ended by ${fired[0][0]} at ${fired[0][1] - born}, expected ${over[0]} at ${over[1] - born}`); break }
      if (H.isSessionAlive(a.token) !== !over) { say('token', over ? 'the token outlives the session' : 'the token was revoked early'); break }
      if (!H.isSessionAlive(b.token)) { say('other', 'another session was revoked'); break }
      if ((over || ended) && (W.timers.size || doc.size)) { say('left', `an ended session leaves ${W.timers.size} timers and ${doc.size} listeners`); break }
      if (!over && !ended && (e.idleMs !== W.now - last || e.ageMs !== W.now - born)) { say('clock', `idleMs ${e.idleMs} ageMs ${e.ageMs}, expected ${W.now - last} ${W.now - born}`); break }
    }
    ctx.state(canon([u.policy, over?.[0] ?? null, ended, W.now - born, W.now - last]))
    e.destroy()
  }
  delete globalThis.document
  H.revokeAllSessions()
}

/** Which policies are accepted, and that each re-auth list blocks exactly its members. */
async function policyInputs(u, ctx) {
  const H = ctx.nb.hub
  const V = [undefined, 1, 50, 51, 1e12, 0, -1, NaN, '50', null]
  const good = (x) => x === undefined || (typeof x === 'number' && x > 0)
  for (const idle of V) for (const abs of V) {
    ctx.exec()
    const p = { ...(idle !== undefined ? { idleTimeoutMs: idle } : {}), ...(abs !== undefined ? { absoluteTimeoutMs: abs } : {}) }
    const want = good(idle) && good(abs) && !(idle !== undefined && abs !== undefined && idle >= abs)
    const r = await attempt(() => H.validateSessionPolicy(p))
    if (r.ok !== want) ctx.violation(`accept:${String(idle)}:${String(abs)}`, `validateSessionPolicy ${r.ok ? 'accepts' : 'refuses'} ${JSON.stringify(p)} (${String(idle)}, ${String(abs)})`)
    resetWorld(4)
    const d = await attempt(() => openDb(ctx.nb, plainStore(H, new Data()), { user: 'ann', sessionPolicy: p }))
    if (d.ok !== want) ctx.violation(`accept:instance:${String(idle)}:${String(abs)}`, `createNoydb ${d.ok ? 'accepts' : 'refuses'} a policy with idle ${String(idle)} and absolute ${String(abs)}`)
    if (d.ok) d.val.close()
  }
  resetWorld(4)
  for (const list of subsets(RE)) {
    ctx.exec()
    const e = H.createEnforcer({ policy: { requireReAuthFor: list }, sessionId: 's', onRevoke() {} })
    for (const o of RE) { const r = await attempt(() => e.checkOperation(o)); if (r.ok === list.includes(o)) ctx.violation(`reauth:${o}`, `checkOperation(${o}) ${r.ok ? 'passes' : 'fails'} with requireReAuthFor ${list}`) }
    e.destroy()
  }
}

// ── Instances ───────────────────────────────────────────────────────────
const IDLE = [
  { name: 'policy', opts: { sessionPolicy: { idleTimeoutMs: 100 } }, ms: 100 },
  { name: 'legacy', opts: { sessionTimeout: 100 }, ms: 100 },
  { name: 'both', opts: { sessionTimeout: 40, sessionPolicy: { idleTimeoutMs: 100 } }, ms: 100 },
  { name: 'none', opts: {}, ms: Infinity },
  { name: 'zero', opts: { sessionTimeout: 0 }, ms: Infinity },
  { name: 'long', opts: { sessionTimeout: MAXT + 100 }, ms: MAXT + 100 },
  { name: 'longer', opts: { sessionPolicy: { idleTimeoutMs: 2 * MAXT + 100 } }, ms: 2 * MAXT + 100 },
]
const INST_OPS = ['open', 'open2', 'list', 'across', 'close', '+1', '+99', '+100', '+M']
const GATED = {
  openVault: (db) => db.openVault('v'), openOther: (db) => db.openVault('w'), vault: (db) => db.vault('v'),
  listAccessibleVaults: (db) => db.listAccessibleVaults(), queryAcross: (db) => db.queryAcross(['v'], async (v) => v.name),
  grant: (db) => db.grant('v', { userId: 'bob', displayName: 'Bob', role: 'viewer', passphrase: 'bob-passphrase-1234' }),
  revoke: (db) => db.revoke('v', { userId: 'bob' }), rotate: (db) => db.rotate('v', ['a']), changeSecret: (db) => db.changeSecret('v', 'another-passphrase-9'),
  push: (db) => db.push('v'), pull: (db) => db.pull('v'), sync: (db) => db.sync('v'), transaction: (db) => db.transaction('v'),
}
async function closedGate(db, data, label, ctx, say) {
  const before = canon(data.snapshot())
  for (const [n, f] of Object.entries(GATED)) {
    const r = await attempt(() => settle(() => f(db)))
    if (r.ok && n === 'queryAcross' && r.val.every((x) => x.error)) continue
    if (r.ok) say(`closed:${n}`, `${n} works on a closed instance`)
  }
  if (canon(data.snapshot()) !== before) say('closed:store', 'a closed instance wrote to the store')
}
async function base(nb, encrypt) {
  resetWorld(5)
  const data = new Data(), db = await openDb(nb, plainStore(nb.hub, data, null, { listVaults: true }), { user: 'ann', encrypt })
  for (const n of ['v', 'w']) { const v = await db.openVault(n); await v.collection('a').put('1', { n: 1 }) }
  db.close()
  return data
}
async function instance(u, ctx) {
  const H = ctx.nb.hub, C = IDLE[u.cfg], depth = ctx.tier === 'thorough' ? 5 : 4
  const snap = await base(ctx.nb, u.encrypt)
  for (const rest of sequences(INST_OPS.length, depth - 1)) {
    const path = [u.first, ...rest.map((i) => INST_OPS[i])]
    if (path.includes('+M') && C.ms !== Infinity && C.ms < MAXT) continue
    resetWorld(6)
    H.revokeAllSessions()
    const data = snap.clone()
    const db = await openDb(ctx.nb, plainStore(H, data, null, { listVaults: true }), { user: 'ann', encrypt: u.encrypt, sync: plainStore(H, new Data()), ...C.opts })
    const tok = await H.createSession(await keyring(...KR[1]), 'v', { ttlMs: 1e15 })
    const say = (key, what) => ctx.violation(`instance:${key}`, `${what} (${C.name}${u.encrypt ? '' : ', plaintext'}) after ${path.join(' ')}`, { cfg: C.name, path })
    ctx.exec()
    let last = W.now, closed = false
    for (const op of path) {
      ctx.trans()
      if (op === 'close') { db.close(); closed = true } else if (op[0] === '+') {
        const end = W.now + (op === '+M' ? MAXT : Number(op.slice(1)))
        if (last + C.ms <= end) closed = true
        while (true) { let t = null; for (const x of W.timers.values()) if (!t || x.at < t.at) t = x; if (!t || t.at > end) break; W.timers.delete(t.id); W.now = Math.max(W.now, t.at); t.fn(...t.args) }
        W.now = end
      } else {
        const r = await attempt(() => (op === 'open' ? db.openVault('v') : op === 'open2' ? db.openVault('w') : op === 'list' ? db.listAccessibleVaults() : db.queryAcross(['v', 'w'], async (v) => v.collection('a').get('1'))))
        if (r.ok === closed) { say(`${op}`, closed ? `${op} works after the instance closed` : `${op} fails on an open instance: ${r.err?.message}`); break }
        if (!closed) {
          last = W.now
          if (op === 'across' && r.val.some((x) => x.result?.n !== 1)) { say('across', `queryAcross returned ${JSON.stringify(r.val)}`); break }
          if (op.startsWith('open') && (await r.val.collection('a').get('1'))?.n !== 1) { say('open', 'the record is not readable'); break }
        }
      }
      if (H.isSessionAlive(tok.token) !== !closed) { say('token', closed ? 'a session outlives the closed instance' : 'a session ended while the instance is open'); break }
    }
    if (closed) {
      if (W.timers.size) say('timers', `a closed instance leaves ${W.timers.size} timers`)
      await closedGate(db, data, C.name, ctx, say)
    }
    ctx.state(canon([C.name, closed, W.now - last]))
    db.close()
  }
}

/** close() at every point of an operation in progress. */
async function closing(u, ctx) {
  const H = ctx.nb.hub
  const snap = await base(ctx.nb, true)
  if (u.fresh) for (const k of [...snap.m.keys()]) snap.m.delete(k)
  for (const op of ['open', 'list', 'across', 'grant', 'rotate', 'changeSecret']) {
    if (u.fresh && op !== 'open') continue
    const res = await exploreAll(async (ch) => {
      resetWorld(7)
      const data = snap.clone(), sched = new Sched(H, ch, { mode: 'reply' })
      const slow = sched.store(data, 's', { listVaults: true }), plain = plainStore(H, data, null, { listVaults: true })
      let on = true
      const store = new Proxy(plain, { get: (t, k) => (typeof t[k] === 'function' ? (...a) => (on && typeof slow[k] === 'function' ? slow : plain)[k](...a) : t[k]) })
      const db = await openDb(ctx.nb, store, { user: 'ann' })
      const body = { open: () => db.openVault('v'), list: () => db.listAccessibleVaults(), across: () => db.queryAcross(['v'], async (v) => v.name), grant: GATED.grant.bind(null, db), rotate: GATED.rotate.bind(null, db), changeSecret: GATED.changeSecret.bind(null, db) }[op]
      const gate = sched.store(new Data(), 'g')
      await sched.run([['op', body], ['close', async () => { await gate.get('g', 'g', 'g'); db.close() }]])
      on = false
      ctx.exec(); ctx.trans(sched.transitions)
      const say = (key, what) => ctx.violation(`closing:${op}:${key}`, `${what}, close() during ${op}${u.fresh ? ' of a new vault' : ''}`, { trace: sched.trace })
      await closedGate(db, data, op, ctx, say)
      if (W.timers.size) say('timers', 'a closed instance leaves timers')
    }, { maxExec: 5000 })
    if (!res.complete) ctx.capped(`closing ${op}`)
  }
}

/** What a policy of the instance should enforce. */
async function enforced(u, ctx) {
  const H = ctx.nb.hub
  const snap = await base(ctx.nb, true)
  const start = async (p) => { resetWorld(8); globalThis.document = fakeDocument(); const data = snap.clone(); const db = await openDb(ctx.nb, plainStore(H, data, null, { listVaults: true }), { user: 'ann', sessionPolicy: p }); await db.openVault('v'); return db }
  for (const abs of [100, 250]) {
    ctx.exec()
    const db = await start({ absoluteTimeoutMs: abs })
    for (let i = 0; i < 4; i++) { await advance(abs / 4); if (i < 3) await attempt(() => db.openVault('v')) }
    await advance(1)
    const r = await attempt(() => db.vault('v'))
    if (r.ok) ctx.violation('enforced:absolute', 'an instance with absoluteTimeoutMs keeps its vault unlocked past that time')
    db.close()
  }
  for (const op of ['grant', 'revoke', 'rotate', 'changeSecret']) {
    ctx.exec()
    const db = await start({ requireReAuthFor: [op] })
    if (op === 'revoke') await GATED.grant(db)
    const r = await attempt(() => GATED[op](db))
    if (r.ok || r.err?.name !== 'SessionPolicyError') ctx.violation(`enforced:reauth:${op}`, `${op} is not refused though requireReAuthFor lists it`)
    db.close()
  }
  ctx.exec()
  const db = await start({ lockOnBackground: true })
  globalThis.document.hidden = true; globalThis.document.fire()
  if ((await attempt(() => db.vault('v'))).ok) ctx.violation('enforced:background', 'an instance with lockOnBackground keeps its vault unlocked in the background')
  db.close()
  delete globalThis.document
}

// ── Development unlock ──────────────────────────────────────────────────
const ACK = 'I-UNDERSTAND-THIS-DISABLES-UNLOCK-SECURITY'
function fakeStorage() {
  const m = new Map()
  return { m, getItem: (k) => (m.has(k) ? m.get(k) : null), setItem: (k, v) => void m.set(k, String(v)), removeItem: (k) => void m.delete(k) }
}
const HOSTS = { localhost: true, '127.0.0.1': true, '::1': true, 'box.local': true, 'example.com': false, 'localhost.example.com': false, 'local': false, 'notlocalhost': false, '127.0.0.10': false, '': false, 'evil.local.com': false }
async function devGuards(u, ctx) {
  const H = ctx.nb.hub
  resetWorld(9)
  const kr = await keyring(...KR[0]), env = process.env.NODE_ENV
  for (const [host, okHost] of Object.entries(HOSTS)) for (const mode of [undefined, 'development', 'test', 'production']) for (const vite of [undefined, false, true]) for (const ack of [ACK, ACK.toLowerCase(), ACK + ' ', '', undefined]) for (const win of [true, false]) {
    if (!win && host !== 'localhost') continue
    ctx.exec(); ctx.trans()
    const s = fakeStorage(), l = fakeStorage()
    if (win) globalThis.window = { location: { hostname: host }, sessionStorage: s, localStorage: l }
    if (mode === undefined) delete process.env.NODE_ENV; else process.env.NODE_ENV = mode
    if (vite !== undefined) globalThis.__vite_is_production__ = vite
    const r = await attempt(() => H.enableDevUnlock('v', 'ann', kr, { acknowledge: ack }))
    const back = await attempt(() => H.loadDevUnlock('v', 'ann'))
    const want = win && okHost && mode !== 'production' && vite !== true && ack === ACK
    if (env === undefined) delete process.env.NODE_ENV; else process.env.NODE_ENV = env
    delete globalThis.__vite_is_production__; delete globalThis.window
    const where = `host ${JSON.stringify(host)}, NODE_ENV ${mode}, vite production ${vite}, acknowledge ${JSON.stringify(ack)}, window ${win}`
    if (r.ok !== want) ctx.violation(`dev:guard:${want ? 'refused' : 'allowed'}`, `enableDevUnlock ${r.ok ? 'succeeds' : 'fails'} with ${where}`)
    if (!want && (s.m.size || l.m.size)) ctx.violation('dev:guard:stored', `a refused enableDevUnlock stored keys with ${where}`)
    if (!back.ok || (back.val !== null) !== r.ok) ctx.violation('dev:guard:load', `loadDevUnlock gives ${back.ok ? typeof back.val : back.err?.message} with ${where}`)
    if (r.ok && l.m.size) ctx.violation('dev:guard:where', 'keys went to the storage that outlives the tab')
  }
}
const NAMES = [['a', 'b:c'], ['a:b', 'c'], ['a', 'b'], ['b', 'a'], ['a%3Ab', 'c'], ['', 'a:b'], [':a', 'b'], ['a:', 'b']]
async function devHistory(u, ctx) {
  const H = ctx.nb.hub
  const OPS = ['on', 'on+', 'off', 'off+', 'bad']
  const BAD = ['', '{', 'null', '1', '[]', '{}', '{"_noydb_dev_unlock":2}', '"x"']
  const pairs = [NAMES[u.i], NAMES[u.j]]
  const ops = OPS.flatMap((o) => [0, 1].map((w) => [o, w]))
  for (const seq of sequences(ops.length, 3)) {
    resetWorld(9)
    const s = fakeStorage(), l = fakeStorage()
    globalThis.window = { location: { hostname: 'localhost' }, sessionStorage: s, localStorage: l }
    const want = new Map()
    ctx.exec()
    const path = seq.map((i) => ops[i])
    const say = (key, what) => ctx.violation(`dev:${key}`, `${what}, pairs ${JSON.stringify(pairs)}, history ${JSON.stringify(path)}`, { pairs, path })
    for (const [o, w] of path) {
      ctx.trans()
      const [v, n] = pairs[w], plus = o.endsWith('+'), opt = plus ? { persistAcrossTabs: true } : undefined
      if (o.startsWith('on')) {
        const kr = await keyring(...KR[w])
        await H.enableDevUnlock(v, n, kr, { acknowledge: ACK, ...opt })
        want.set(`${w}${plus}`, shape(kr))
      } else if (o.startsWith('off')) { H.clearDevUnlock(v, n, opt); want.delete(`${w}${plus}`) } else {
        // the stored entry is damaged
        const before = new Set(s.m.keys())
        if (!want.has(`${w}false`)) { const kr = await keyring(...KR[w]); await H.enableDevUnlock(v, n, kr, { acknowledge: ACK }) }
        const key = [...s.m.keys()].find((k) => !before.has(k)) ?? [...s.m].find(([, x]) => JSON.parse(x || '{}')?.userId === KR[w][0])?.[0]
        if (key === undefined) continue
        for (const b of BAD) {
          s.m.set(key, b)
          const r = await attempt(() => H.loadDevUnlock(v, n))
          if (!r.ok || r.val !== null) { say('malformed', `a damaged entry ${JSON.stringify(b)} gives ${r.ok ? 'a keyring' : r.err?.message}`); break }
        }
        H.clearDevUnlock(v, n); want.delete(`${w}false`)
      }
      for (const w2 of [0, 1]) for (const p2 of [false, true]) {
        const [v2, n2] = pairs[w2], o2 = p2 ? { persistAcrossTabs: true } : undefined
        const k = want.get(`${w2}${p2}`)
        if (H.isDevUnlockActive(v2, n2, o2) !== !!k) say('active', `isDevUnlockActive(${v2}, ${n2}) is ${!k}`)
        const r = await attempt(() => H.loadDevUnlock(v2, n2, o2))
        if (!r.ok || (r.val ? shape(r.val) : undefined) !== k) say('load', `loadDevUnlock(${v2}, ${n2}) gives ${r.ok ? (r.val ? `the keyring of ${r.val.userId}` : 'nothing') : r.err?.message}, expected ${k ? 'its own keyring' : 'nothing'}`)
      }
    }
    ctx.state(canon([...want.keys()]))
    delete globalThis.window
  }
}

export default {
  level: 'exhaustive-bounded',
  technique: 'bounded exhaustive exploration of the real code: every history of session, policy, instance and development-unlock operations up to a depth on a controlled clock and timer queue, and every interleaving of close() with operations in progress, compared with a reference of when each session has ended',
  bounds: (tier) => `token histories: ${TOKEN_OPS.length} operations, length ${tier === 'thorough' ? 5 : 4}, two or more sessions, ${Object.keys(EDIT).length} edits of every token at the end; policy histories: ${POLICIES.length} policies, ${POL_OPS.length} operations, length ${tier === 'thorough' ? 5 : 4}; instance histories: ${IDLE.length} timeout settings, ${INST_OPS.length} operations, length ${tier === 'thorough' ? 5 : 4}; close() at every scheduling point of 6 operations; 100 policy inputs and every re-authentication list; development unlock: ${Object.keys(HOSTS).length} hosts x modes x acknowledgements, histories of length 3 over pairs of ${NAMES.length} names`,
  assumptions: ['timers longer than 2^31-1 ms fire at once, as in browsers and Node', 'PBKDF2 runs one iteration'],
  modules: HUB,
  units(tier) {
    const out = []
    for (const first of TOKEN_OPS) out.push({ kind: 'tokens', first })
    for (let policy = 0; policy < POLICIES.length; policy++) for (const first of POL_OPS) out.push({ kind: 'policy', policy, first })
    out.push({ kind: 'policyInputs' }, { kind: 'enforced' }, { kind: 'closing' }, { kind: 'closing', fresh: true }, { kind: 'devGuards' })
    for (let cfg = 0; cfg < IDLE.length; cfg++) for (const first of INST_OPS) for (const encrypt of cfg < 2 ? [true, false] : [true]) out.push({ kind: 'instance', cfg, first, encrypt })
    for (let i = 0; i < NAMES.length; i++) for (let j = i + 1; j < NAMES.length; j++) if (tier === 'thorough' || i === 0 || j < 6) out.push({ kind: 'devHistory', i, j })
    return out
  },
  async runUnit(u, ctx) {
    await { tokens, policy, policyInputs, instance, closing, enforced, devGuards, devHistory }[u.kind](u, ctx)
  },
}
