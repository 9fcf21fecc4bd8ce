// P39 — hardware keys, OIDC and magic links hand out exactly what was enrolled, to the right holder, in time.
import { resetWorld, W } from '../lib/world.mjs'
import { canon, sequences } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openVault, attempt, errName } from '../lib/noy.mjs'

const hex = (b) => Buffer.from(b).toString('hex')
const iso = (ms) => new Date(ms).toISOString()

async function keyring(tag, names = ['a', 'b', '_blob']) {
  const deks = new Map()
  for (const n of names) deks.set(n, await crypto.subtle.generateKey({ name: 'AES-GCM', length: 256 }, true, ['encrypt', 'decrypt']))
  return { userId: `u-${tag}`, displayName: `Üser "${tag}"`, role: 'operator', permissions: { a: 'rw', b: 'ro' }, exportCapability: { plaintext: ['csv'], bundle: true }, importCapability: { plaintext: [], bundle: true }, salt: Uint8Array.from({ length: 32 }, (_, i) => 255 - i), deks, kek: null }
}
const describe = async (k) => canon({ userId: k.userId, displayName: k.displayName, role: k.role, permissions: k.permissions, exports: k.exportCapability ?? null, imports: k.importCapability ?? null, salt: hex(k.salt), deks: await Promise.all([...k.deks].map(async ([n, d]) => [n, hex(await crypto.subtle.exportKey('raw', d)), [...d.usages].sort()])) })
const rawDeks = async (k) => Promise.all([...k.deks.values()].map(async (d) => Buffer.from(await crypto.subtle.exportKey('raw', d))))

// ── Hardware keys ───────────────────────────────────────────────────────
const authData = (flags, len = 37) => { const b = new Uint8Array(len); if (len > 32) b[32] = flags; return b.buffer }
/** Install a browser with the given authenticator; returns the uninstaller. */
function browser(auth) {
  const g = globalThis, saved = ['window', 'navigator', 'PublicKeyCredential'].map((n) => [n, Object.getOwnPropertyDescriptor(g, n)])
  const ext = (opts) => ({ ...(auth.prf && opts.publicKey.extensions?.prf ? { prf: { results: { first: Uint8Array.from({ length: 32 }, (_, i) => (auth.prf * 31 + i * 7 + opts.publicKey.extensions.prf.eval.first.length) & 255).buffer } } } : auth.prfEmpty ? { prf: {} } : {}) })
  const cred = (opts, response) => ({ id: 'x', type: 'public-key', rawId: new Uint8Array(16).fill(auth.id).buffer, response, getClientExtensionResults: () => ext(opts) })
  const PKC = class PublicKeyCredential {}
  const def = (n, v) => Object.defineProperty(g, n, { value: v, configurable: true, writable: true })
  auth.calls = []
  def('window', { PublicKeyCredential: PKC, location: { hostname: 'h' }, isSecureContext: true })
  def('PublicKeyCredential', PKC)
  def('navigator', { credentials: {
    async create(o) { auth.calls.push(o); return auth.cancel ? null : cred(o, { getAuthenticatorData: () => authData(auth.flags, auth.len) }) },
    async get(o) { auth.calls.push(o); return auth.cancel ? null : cred(o, { authenticatorData: authData(auth.flags, auth.len) }) },
  } })
  return () => { for (const [n, d] of saved) if (d) Object.defineProperty(g, n, d); else delete g[n] }
}
async function webauthn(u, ctx) {
  const A = ctx.nb.webauthn
  const run = async (auth, f) => { const undo = browser(auth); try { return await attempt(f) } finally { undo() } }
  resetWorld(1)
  const k = await keyring('w'), want = await describe(k), raws = await rawDeks(k)
  const say = (key, what) => ctx.violation(`webauthn:${key}`, `${what} (${canon(u)})`, u)
  const enrolAuth = { id: 1, prf: u.prf, flags: u.flags, prfEmpty: u.prfEmpty }
  const en = await run(enrolAuth, () => A.enrollWebAuthn(k, 'v', { requireSingleDevice: u.single }))
  ctx.exec()
  const be = (u.flags & 8) !== 0
  if (u.single && be) {
    if (en.ok || errName(en) !== 'WEBAUTHN_MULTI_DEVICE') say('enrol-be', `a syncable credential enrols where single-device is required: ${errName(en)}`)
    return
  }
  if (!en.ok) { say('enrol', `enrolment fails: ${errName(en)}`); return }
  const e = JSON.parse(JSON.stringify(en.val))
  if (!A.isValidEnrollment(e) || e.beFlag !== be || e.prfUsed !== !!u.prf || e.requireSingleDevice !== !!u.single || e.vault !== 'v' || e.userId !== k.userId) say('record', `the enrolment record says ${canon({ ...e, wrappedPayload: 0 })}`)
  if (enrolAuth.calls.some((o) => o.publicKey.authenticatorSelection.userVerification !== 'required' || o.publicKey.challenge.length < 16)) say('ceremony', 'the credential is created without user verification or challenge')
  for (const r of raws) if (JSON.stringify(e).includes(r.toString('base64'))) say('leak', 'the enrolment record shows a key')
  // Every authenticator and every flags byte at unlock.
  for (const id of [1, 2]) for (const prf of [0, 1, 2]) for (const flags of u.all ? Array.from({ length: 256 }, (_, i) => i) : [0x05, 0x0d, 0x08, 0x1d]) for (const cancel of u.all ? [false] : [false, true]) {
    ctx.exec(); ctx.trans()
    const auth = { id, prf, flags, cancel }
    const r = await run(auth, () => A.unlockWebAuthn(e))
    const exp = cancel ? 'WEBAUTHN_CANCELLED' : u.single && flags & 8 ? 'WEBAUTHN_MULTI_DEVICE' : (u.prf ? prf === u.prf : id === 1) ? 'ok' : 'VALIDATION_ERROR'
    const got = r.ok ? 'ok' : errName(r)
    if (got !== exp) say('unlock', `authenticator ${canon({ id, prf, flags, cancel })} answers ${got}, expected ${exp}`)
    else if (r.ok && (await describe(r.val)) !== want) say('keyring', `the unlocked keyring is ${await describe(r.val)}`)
    if (r.ok && r.val.kek) say('kek', 'the unlock gave a key-encryption key')
    const o = auth.calls[0]?.publicKey
    if (!o || o.userVerification !== 'required' || o.allowCredentials.length !== 1 || hex(o.allowCredentials[0].id) !== '01'.repeat(16) || o.challenge.length < 16) say('ceremony', `the assertion asks ${canon(o && { uv: o.userVerification, allow: o.allowCredentials.map((x) => hex(x.id)) })}`)
    ctx.state(canon([u, got]))
  }
  // Damaged records.
  if (!u.all) for (const f of ['wrappedPayload', 'wrapIv']) {
    const raw = Buffer.from(e[f], 'base64')
    for (let i = 0; i < raw.length; i++) { ctx.exec(); const x = Buffer.from(raw); x[i] ^= 1; const r = await run({ id: 1, prf: u.prf, flags: 5 }, () => A.unlockWebAuthn({ ...e, [f]: x.toString('base64') })); if (r.ok || errName(r) !== 'VALIDATION_ERROR') say('damaged', `a record with byte ${i} of ${f} changed: ${errName(r)}`) }
  }
  // Two enrolments of one keyring share neither IV nor ciphertext nor challenge.
  const again = { id: 1, prf: u.prf, flags: u.flags }
  const en2 = await run(again, () => A.enrollWebAuthn(k, 'v'))
  if (en2.ok && (en2.val.wrapIv === e.wrapIv || en2.val.wrappedPayload === e.wrappedPayload)) say('iv', 'two enrolments share their IV')
  if (en2.ok && hex(again.calls[0].publicKey.challenge) === hex(enrolAuth.calls[0].publicKey.challenge)) say('challenge', 'two ceremonies share their challenge')
  if (!u.all) {
    const none = await attempt(() => A.unlockWebAuthn(e)), noneE = await attempt(() => A.enrollWebAuthn(k, 'v'))
    if (none.ok || noneE.ok || errName(none) !== 'WEBAUTHN_NOT_AVAILABLE' || errName(noneE) !== 'WEBAUTHN_NOT_AVAILABLE' || A.isWebAuthnAvailable()) say('absent', 'works without a browser')
    const c = await run({ id: 1, cancel: true }, () => A.enrollWebAuthn(k, 'v'))
    if (c.ok || errName(c) !== 'WEBAUTHN_CANCELLED') say('cancel', `a cancelled enrolment answers ${errName(c)}`)
    for (const f of ['_noydb_webauthn', 'vault', 'userId', 'credentialId', 'wrappedPayload', 'wrapIv']) { const x = { ...e }; delete x[f]; if (A.isValidEnrollment(x)) say('valid', `a record without ${f} counts as valid`) }
    for (const x of [null, undefined, 1, 'x', {}, []]) if (A.isValidEnrollment(x)) say('valid', `${canon(x)} counts as valid`)
  }
}

// ── OIDC ────────────────────────────────────────────────────────────────
const b64url = (s) => Buffer.from(s).toString('base64url')
const token = (sub, exp, n = 0) => `${b64url('{"alg":"none"}')}.${b64url(JSON.stringify({ sub, exp, iss: 'i', aud: 'c', iat: 0, n }))}.sig`
class Storage { constructor() { this.m = new Map() } getItem(k) { return this.m.has(k) ? this.m.get(k) : null } setItem(k, v) { this.m.set(k, String(v)) } removeItem(k) { this.m.delete(k) } }
/** The key connector as documented: decrypts what it is sent, returns it encrypted for the token presented. */
function connector() {
  const c = { halves: new Map(), status: 200, down: false, requests: [] }
  const key = async (t) => { const i = await crypto.subtle.importKey('raw', new TextEncoder().encode(t), 'HKDF', false, ['deriveKey']); return crypto.subtle.deriveKey({ name: 'HKDF', hash: 'SHA-256', salt: new TextEncoder().encode('noydb-oidc-transport-encrypt-v1'), info: new TextEncoder().encode('key-connector-put') }, i, { name: 'AES-GCM', length: 256 }, false, ['encrypt', 'decrypt']) }
  c.fetch = async (url, init) => {
    c.requests.push([url, init])
    if (c.down) throw new TypeError('fetch failed')
    if (c.status !== 200) return { ok: false, status: c.status, statusText: 'no', json: async () => ({}) }
    const t = init.headers.Authorization.replace(/^Bearer /, ''), sub = JSON.parse(Buffer.from(t.split('.')[1], 'base64url').toString()).sub
    const k = await key(t)
    if (init.method === 'PUT') {
      const b = JSON.parse(init.body)
      c.halves.set(sub, Buffer.from(await crypto.subtle.decrypt({ name: 'AES-GCM', iv: Buffer.from(b.iv, 'base64') }, k, Buffer.from(b.encryptedServerHalf, 'base64'))))
      return { ok: true, status: 200, statusText: '', json: async () => ({}) }
    }
    if (!c.halves.has(sub)) return { ok: false, status: 404, statusText: 'none', json: async () => ({}) }
    const iv = crypto.getRandomValues(new Uint8Array(12)), sealed = await crypto.subtle.encrypt({ name: 'AES-GCM', iv }, k, c.halves.get(sub))
    return { ok: true, status: 200, statusText: '', json: async () => ({ encryptedServerHalf: Buffer.from(sealed).toString('base64'), iv: Buffer.from(iv).toString('base64') }) }
  }
  return c
}
const OIDC_OPS = ['enrol:1:s:v', 'enrol:1:s:w', 'enrol:2:s:v', 'enrol:1:t:v', 'refused:1:s:v', 'down:1:s:v', 'stale:1:s:v', 'wipe:1:s']
async function oidc(u, ctx) {
  const O = ctx.nb.oidc, old = globalThis.fetch
  const seqs = [...sequences(OIDC_OPS.length, u.depth)].filter((s) => s[0] === u.first)
  try {
    for (const seq of seqs) {
      resetWorld(2)
      const srv = connector(); globalThis.fetch = srv.fetch
      const dev = { 1: new Storage(), 2: new Storage() }
      Object.defineProperty(globalThis, 'localStorage', { value: dev[1], configurable: true, writable: true })
      const where = (d) => (d === '1' ? {} : { storage: dev[d] }) // the first device uses the default storage
      const cfg = O.knownProviders.google('c', 'https://kc')
      const fresh = (sub, n) => token(sub, Math.floor(W.now / 1000) + 1000, n)
      const model = { server: {}, device: {} } // server[sub] = enrolment number, device[d][sub] = enrolment number
      const info = []
      const path = []
      const say = (key, what) => ctx.violation(`oidc:${key}`, `${what} after ${path.join(' ')}`, { path })
      for (const i of seq) {
        const [op, d, sub, vault] = OIDC_OPS[i].split(':')
        path.push(OIDC_OPS[i]); ctx.trans()
        if (op === 'wipe') { dev[d].m.clear(); model.device[d] = {}; continue }
        const n = info.length, k = await keyring(String(n))
        info.push({ vault, want: await describe(k), raws: await rawDeks(k) })
        srv.status = op === 'refused' ? 500 : 200; srv.down = op === 'down'
        const before = srv.requests.length
        const r = await attempt(() => O.enrollOidc(k, vault, cfg, op === 'stale' ? token(sub, Math.floor(W.now / 1000) - 1) : fresh(sub, n), where(d)))
        srv.status = 200; srv.down = false
        const exp = { enrol: 'ok', refused: 'KEY_CONNECTOR_ERROR', down: 'TypeError', stale: 'OIDC_TOKEN_ERROR' }[op]
        if ((r.ok ? 'ok' : errName(r)) !== exp) say('enrol', `${op} answers ${r.ok ? 'ok' : errName(r)}, expected ${exp}`)
        if (op === 'stale' && srv.requests.length !== before) say('stale', 'an expired token reached the connector')
        if (r.ok) {
          const e = r.val
          if (e.sub !== sub || e.vault !== vault || e._noydb_oidc !== 1) say('record', canon(e))
          model.server[sub] = n; (model.device[d] ??= {})[sub] = n
          for (const raw of info[n].raws) {
            if (srv.halves.get(sub).includes(raw.toString('base64'))) say('leak-server', 'the connector can read a key')
            if ([...dev[d].m.values()].join().includes(raw.toString('base64')) || JSON.stringify(e).includes(raw.toString('base64'))) say('leak-device', 'the device stores a key')
          }
          for (const [, init] of srv.requests) for (const v of dev[d].m.values()) if (JSON.stringify(init).includes(v)) say('secret-sent', 'the device secret was sent')
        } else if (!(model.device[d]?.[sub] !== undefined)) { if (op !== 'stale') (model.device[d] ??= {})[sub] = undefined }
      }
      // Unlock: every enrolment record x device x token.
      for (const sub of ['s', 't']) for (const vault of ['v', 'w']) for (const d of ['1', '2']) for (const [tn, tok] of [['own', fresh(sub, 99)], ['other', fresh(sub === 's' ? 't' : 's', 98)], ['expired', token(sub, Math.floor(W.now / 1000) - 1)], ['edge', token(sub, Math.floor(W.now / 1000))], ['broken', 'x.y'], ['nosub', `a.${b64url('{"exp":9999999999}')}.c`]]) {
        ctx.exec(); ctx.trans()
        const e = { _noydb_oidc: 1, providerName: 'Google', sub, vault, enrolledAt: '', deviceKeyId: '', enrollmentCount: 1 }
        const before = srv.requests.length
        const r = await attempt(() => O.unlockOidc(e, cfg, tok, where(d)))
        const n = model.server[sub]
        const good = (tn === 'own' || tn === 'edge') && n !== undefined && model.device[d]?.[sub] === n && info[n].vault === vault
        if (r.ok !== good) say('unlock', `${sub}/${vault} on device ${d} with the ${tn} token ${r.ok ? 'unlocks' : `is refused (${errName(r)})`}`)
        else if (r.ok && (await describe(r.val)) !== info[n].want) say('keyring', `${sub}/${vault} on device ${d} gives ${await describe(r.val)}`)
        if (r.ok && r.val.kek) say('kek', 'the unlock gave a key-encryption key')
        if (['expired', 'broken', 'nosub'].includes(tn) && (errName(r) !== 'OIDC_TOKEN_ERROR' || srv.requests.length !== before)) say('token', `the ${tn} token answers ${errName(r)}`)
        if (tn === 'own' && model.device[d]?.[sub] === undefined && !dev[d].m.size && errName(r) !== 'OIDC_DEVICE_SECRET_NOT_FOUND') say('nosecret', `a device without secret answers ${errName(r)}`)
        ctx.state(canon([tn, r.ok ? 'ok' : errName(r)]))
      }
    }
  } finally { globalThis.fetch = old }
}
/** Payload lengths around the padding boundary, and damage on the way. */
async function oidcSizes(ctx) {
  const O = ctx.nb.oidc, old = globalThis.fetch
  try {
    for (let n = 0; n <= 40; n++) for (const extra of [0, 60]) {
      resetWorld(3)
      const srv = connector(); globalThis.fetch = srv.fetch
      const st = new Storage(), cfg = { name: 'x', issuer: 'i', clientId: 'c', keyConnectorUrl: 'https://kc' }
      const k = await keyring('z', Array.from({ length: 1 + extra }, (_, i) => `c${i}`)); k.displayName = 'é'.repeat(n >> 1) + 'x'.repeat(n & 1)
      const tok = token('s', Math.floor(W.now / 1000) + 10)
      const e = await O.enrollOidc(k, 'v', cfg, tok, { storage: st })
      ctx.exec()
      const r = await attempt(() => O.unlockOidc(e, cfg, tok, { storage: st }))
      if (!r.ok || (await describe(r.val)) !== (await describe(k))) ctx.violation('oidc:size', `a keyring with a ${n}-byte name and ${1 + extra} keys does not come back: ${errName(r)}`)
      if (n < 3) for (const status of [400, 401, 403, 404, 500]) {
        srv.status = status
        const x = await attempt(() => O.unlockOidc(e, cfg, tok, { storage: st }))
        if (x.ok || errName(x) !== 'KEY_CONNECTOR_ERROR' || x.err.status !== status) ctx.violation('oidc:status', `status ${status} answers ${errName(x)}`)
        srv.status = 200
      }
    }
  } finally { globalThis.fetch = old }
}

// ── Magic links ─────────────────────────────────────────────────────────
const TOK = ['T', 'TX', 'U'] // one a prefix of another
async function openRec(dek, env) { return new TextDecoder().decode(await crypto.subtle.decrypt({ name: 'AES-GCM', iv: Buffer.from(env._iv, 'base64') }, dek, Buffer.from(env._data, 'base64'))) }
const LINK_OPS = ['issue:T:a', 'issue:T:ab', 'issue:TX:b', 'issue:U:a', 'issue:T:short', 'revoke:T', 'revoke:TX', 'revoke:none', 'wait']
async function links(u, ctx) {
  const M = ctx.nb.magic
  for (const seq of [...sequences(LINK_OPS.length, u.depth)].filter((s) => s[0] === u.first)) {
    resetWorld(4)
    const data = new Data()
    const { v } = await openVault(ctx.nb, data, { user: 'owner' }, 'v')
    await v.collection('a').put('r', { x: 'ra' }); await v.collection('b').put('r', { x: 'rb' })
    const store = plainStore(ctx.nb.hub, data)
    const model = new Map(), path = [] // token -> [{collection, until}]
    const say = (key, what) => ctx.violation(`link:${key}`, `${what} after ${path.join(' ')}`, { path })
    for (const i of seq) {
      const [op, tok, what] = LINK_OPS[i].split(':')
      path.push(LINK_OPS[i]); ctx.trans()
      if (op === 'wait') W.now += 1000
      else if (op === 'revoke') {
        const n = await M.revokeMagicLinkDelegation({ store, vault: 'v', token: tok })
        if (n !== (model.get(tok)?.length ?? 0)) say('revoked', `revoking ${tok} reports ${n} records`)
        model.delete(tok)
      } else {
        const specs = what === 'short' ? [['a', 1000]] : [...what].map((c) => [c, 1000000])
        const grants = specs.map(([collection, ms], j) => ({ toUser: `to${j}`, tier: 0, collection, until: j ? iso(W.now + ms) : new Date(W.now + ms), ...(j ? { record: 'r', note: 'n' } : {}) }))
        const r = await M.issueMagicLinkDelegation(v, { serverSecret: 'sec', grants, token: tok, ttlMs: 5000 })
        if (r.link.token !== tok || r.link.vault !== 'v' || r.link.role !== 'viewer' || r.link.expiresAt !== iso(W.now + 5000) || r.grants.length !== grants.length) say('issue', `issued ${canon(r.link)}`)
        const list = model.get(tok) ?? []
        specs.forEach(([collection, ms], j) => { list[j] = { collection, until: W.now + ms, toUser: `to${j}`, record: j ? 'r' : undefined, note: j ? 'n' : undefined } })
        model.set(tok, list)
        for (const id of data.ids('v', '_magic_link_grants')) { const t = JSON.stringify(data.get('v', '_magic_link_grants', id)); if (t.includes('to0') || t.includes('wrappedDek')) say('plain', 'a stored grant is readable') }
      }
    }
    for (const tok of TOK) for (const [sn, secret] of [['right', 'sec'], ['bytes', new TextEncoder().encode('sec')], ['wrong', 'secx']]) for (const vault of ['v', 'w']) {
      ctx.exec(); ctx.trans()
      // The same records copied under another vault name must not open there.
      const at = vault === 'v' ? store : { ...store, list: (_, c) => store.list('v', c), get: (_, c, id) => store.get('v', c, id) }
      const r = await M.claimMagicLinkDelegation({ store: at, vault, serverSecret: secret, token: tok })
      const want = sn === 'wrong' || vault === 'w' ? [] : model.get(tok) ?? []
      if (r.valid !== want.length > 0 || r.grants.length !== want.length) { say('claim', `claiming ${tok} with the ${sn} secret for ${vault} gives ${r.valid} ${r.grants.length}, expected ${want.length}`); continue }
      for (const g of r.grants) {
        const j = g.payload.toUser.slice(2), w = want[j]
        if (!w || g.payload.collection !== w.collection || g.payload.fromUser !== 'owner' || g.payload.tier !== 0 || g.payload.record !== w.record || g.payload.note !== w.note || Date.parse(g.payload.until) !== w.until) { say('payload', `claimed ${canon(g.payload)}, expected ${canon(w)}`); continue }
        if (g.expired !== W.now >= w.until) say('expired', `the grant is ${g.expired ? '' : 'not '}expired at ${W.now - w.until} ms from its end`)
        for (const c of ['a', 'b']) {
          const o = await attempt(() => openRec(g.dek, data.get('v', c, 'r')))
          if (o.ok !== (c === w.collection)) say('dek', `the key for ${w.collection} ${o.ok ? 'opens' : 'does not open'} ${c}`)
        }
      }
      const seen = await M.inspectMagicLinkDelegation({ store: at, vault, serverSecret: secret, token: tok })
      if (seen.length !== want.length) say('inspect', `inspection shows ${seen.length} grants, expected ${want.length}`)
      for (let j = 0; j < 3; j++) {
        const one = await M.readMagicLinkGrant({ store: at, vault, serverSecret: secret, token: tok, recordId: j ? `${tok}:${j}` : tok })
        if (!!one !== !!want[j]) say('read', `grant ${j} of ${tok} ${one ? 'is' : 'is not'} readable`)
      }
      ctx.state(canon([tok, sn, vault, want.length]))
    }
  }
}
async function linkKeys(ctx) {
  const M = ctx.nb.magic
  resetWorld(5)
  // The derived keys: same inputs agree, any other input differs.
  const probe = async (s, t, v) => { const k = await M.deriveMagicLinkKEK(s, t, v); const d = await crypto.subtle.importKey('raw', new Uint8Array(32), { name: 'AES-GCM' }, true, ['encrypt']); const c = await M.deriveMagicLinkContentKey(s, t, v); return [k.extractable || c.extractable, hex(await crypto.subtle.wrapKey('raw', d, k, 'AES-KW')), hex(await crypto.subtle.encrypt({ name: 'AES-GCM', iv: new Uint8Array(12) }, c, new Uint8Array(8)))] }
  const ins = []
  for (const s of ['s', 'sx', '']) for (const t of ['T', 'TX', '']) for (const v of ['v', 'vx', '', 'content-v1:v']) ins.push([s, t, v])
  const seen = [new Map(), new Map()]
  for (const i of ins) {
    ctx.exec()
    const a = await probe(...i), b = await probe(new TextEncoder().encode(i[0]), i[1], i[2])
    if (canon(a) !== canon(b)) ctx.violation('link:derive', `${canon(i)} derives different keys twice`)
    if (a[0]) ctx.violation('link:extractable', 'a derived key can be extracted')
    for (const j of [0, 1]) { if (seen[j].has(a[j + 1])) ctx.violation('link:separate', `${canon(i)} and ${canon(seen[j].get(a[j + 1]))} derive the same key`); seen[j].set(a[j + 1], i) }
  }
  // Links expire by the millisecond.
  for (const ttl of [undefined, 0, 1, 86400000]) {
    const t0 = W.now, l = M.createMagicLinkToken('v', ttl === undefined ? undefined : { ttlMs: ttl }), end = t0 + (ttl ?? 86400000)
    if (l.expiresAt !== iso(end) || l.role !== 'viewer' || l.vault !== 'v') ctx.violation('link:token', canon(l))
    for (const [at, ok] of [[t0, true], [end - 1, end - 1 >= t0], [end, true], [end + 1, false]]) { ctx.exec(); W.now = at; if (at >= t0 && M.isMagicLinkValid(l) !== ok) ctx.violation('link:valid', `a link of ${ttl} ms is ${ok ? 'invalid' : 'valid'} at ${at - end}`) }
  }
  const toks = new Set(); for (let i = 0; i < 200; i++) toks.add(M.createMagicLinkToken('v').token)
  if (toks.size !== 200) ctx.violation('link:unique', 'tokens repeat')
  // Grant expiry is an instant, however it is written.
  for (const [until, at] of [['2026-01-02T07:00:00+07:00', Date.UTC(2026, 0, 2)], ['2026-01-01T17:00:00-07:00', Date.UTC(2026, 0, 2)], ['2026-01-02', Date.UTC(2026, 0, 2)], ['2026-01-02T00:00:00Z', Date.UTC(2026, 0, 2)], ['2026-01-02T00:00:00.000Z', Date.UTC(2026, 0, 2)], [new Date(Date.UTC(2026, 0, 2)), Date.UTC(2026, 0, 2)]]) {
    resetWorld(6)
    const data = new Data()
    const { v } = await openVault(ctx.nb, data, { user: 'owner' }, 'v')
    await v.collection('a').put('r', { x: 1 })
    await M.issueMagicLinkDelegation(v, { serverSecret: 's', grants: [{ toUser: 'x', tier: 0, collection: 'a', until }], token: 'T' })
    for (const dt of [-7 * 3600000, -1, 0, 1, 7 * 3600000 - 1]) for (const how of ['arg', 'clock']) {
      ctx.exec()
      W.now = how === 'clock' ? at + dt : W.now
      const c = await M.claimMagicLinkDelegation({ store: plainStore(ctx.nb.hub, data), vault: 'v', serverSecret: 's', token: 'T', ...(how === 'arg' && { now: new Date(at + dt) }) })
      if (c.grants[0]?.expired !== dt >= 0) ctx.violation('link:until', `until ${until} ${dt} ms from its end: expired=${c.grants[0]?.expired}`)
    }
  }
  // A grantor cannot pass on what they do not hold.
  resetWorld(7)
  const data = new Data(), { v } = await openVault(ctx.nb, data, { user: 'owner' }, 'v')
  await v.collection('a').put('r', { x: 1 })
  for (const g of [{ collection: 'nope' }, { collection: 'a', tier: 1 }, {}]) { const r = await attempt(() => M.issueMagicLinkDelegation(v, { serverSecret: 's', grants: [{ toUser: 'x', tier: 0, until: iso(W.now + 1000), ...g }], token: 'N' })); if (r.ok) ctx.violation('link:unheld', `a grant of ${canon(g)} was issued`) }
  if ((await attempt(() => M.issueMagicLinkDelegation(v, { serverSecret: 's', grants: [] }))).ok) ctx.violation('link:empty', 'an empty grant list was issued')
  const k = M.buildMagicLinkKeyring({ viewerUserId: 'x', displayName: 'X', deks: new Map(), kek: null, salt: new Uint8Array(1), role: 'owner', permissions: { a: 'rw' } })
  if (k.role !== 'viewer' || Object.keys(k.permissions).length) ctx.violation('link:role', `a link keyring is ${k.role} ${canon(k.permissions)}`)
}

export default {
  level: 'implementation',
  technique: 'exhaustive enumeration of enrolment, failure, revocation and unlock histories with a fake authenticator, key connector and store, against a reference of who holds what; every flags byte and every damaged byte',
  bounds: (tier) => `hardware keys: PRF and fallback x single-device x all 256 flags bytes x 6 authenticators; OIDC: all histories of ${tier === 'thorough' ? 4 : 3} of 8 operations x 48 unlock attempts; links: all histories of ${tier === 'thorough' ? 4 : 3} of 9 operations x 18 claims`,
  assumptions: ['the authenticator returns a PRF output per credential and salt', 'the key connector follows the documented contract', 'single use of a link is left to the server, as documented'],
  modules: { ...HUB, webauthn: '@noy-db/on-webauthn', oidc: '@noy-db/on-oidc', magic: '@noy-db/on-magic-link' },
  units(tier) {
    const out = []
    for (const prf of [0, 1]) for (const single of [undefined, false, true]) for (const flags of [0x05, 0x0d, 0x45, 0x4d]) out.push({ kind: 'webauthn', prf, single, flags })
    out.push({ kind: 'webauthn', prf: 0, prfEmpty: true, single: false, flags: 5 })
    for (const prf of [0, 1]) for (const single of [false, true]) out.push({ kind: 'webauthn', prf, single, flags: 5, all: true })
    const depth = tier === 'thorough' ? 4 : 3
    OIDC_OPS.forEach((_, first) => out.push({ kind: 'oidc', first, depth }))
    LINK_OPS.forEach((_, first) => out.push({ kind: 'links', first, depth }))
    out.push({ kind: 'oidcSizes' }, { kind: 'linkKeys' })
    return out
  },
  async runUnit(u, ctx) {
    await ({ webauthn: () => webauthn(u, ctx), oidc: () => oidc(u, ctx), links: () => links(u, ctx), oidcSizes: () => oidcSizes(ctx), linkKeys: () => linkKeys(ctx) })[u.kind]()
  },
}
