// P28 — second factors: lockout, PIN, e-mail codes, authenticator codes, recovery codes, duress phrases.
import { createHmac } from 'node:crypto'
import { resetWorld, W } from '../lib/world.mjs'
import { Choices, exploreAll, canon } from '../lib/explore.mjs'
import { attempt, errName } from '../lib/noy.mjs'

const iso = (ms) => new Date(ms).toISOString()
const hex = (b) => Buffer.from(b).toString('hex')

// ── Lockout ─────────────────────────────────────────────────────────────
const LOCK = [
  ...[1, 2, 3].flatMap((threshold) => [1, 2, 3].map((maxStrikes) => ({ cfg: { threshold, windowMs: 100, cooldownMs: 60, maxStrikes }, waits: [1, 30, 59, 100], depth: 11 }))),
  { cfg: { threshold: 2, windowMs: 50, cooldownMs: 120, maxStrikes: 2 }, waits: [1, 49, 50, 119], depth: 10 },
  { cfg: {}, waits: [1, 299999, 900000], depth: 17 },
  { cfg: undefined, waits: [1, 299999, 900000], depth: 16 },
  { cfg: { threshold: 2 }, waits: [1, 299999, 900000], depth: 11 },
]
/** The policy as documented. */
function refFail(m, t, c) {
  if (m.wiped) return { locked: true }
  if (m.until !== null) {
    if (t < m.until) return { locked: true, unlockAt: m.until }
    m.until = null; m.start = null; m.n = 0
  }
  if (m.start === null || t - m.start > c.windowMs) { m.start = t; m.n = 0 }
  m.n++
  if (m.n < c.threshold) return { locked: false, remaining: c.threshold - m.n }
  m.strikes++
  if (m.strikes >= c.maxStrikes) { m.wiped = true; return { locked: true, wipe: true } }
  m.until = t + c.cooldownMs
  return { locked: true, unlockAt: m.until }
}
const relative = (s, now) => JSON.stringify(s, (_, v) => (typeof v === 'string' && /^\d{4}-.*Z$/.test(v) ? Date.parse(v) - now : v))

async function lockout(u, ctx) {
  const T = ctx.nb.threat
  resetWorld(1)
  const c = { threshold: 5, windowMs: 15 * 60000, cooldownMs: 5 * 60000, maxStrikes: 3, ...u.cfg }
  const depth = u.depth + (ctx.tier === 'thorough' ? 4 : 0)
  const fresh = { now: W.now, s: T.initialLockoutState(), m: { n: 0, start: null, until: null, strikes: 0, wiped: false }, path: [] }
  if (T.isLocked(fresh.s)) ctx.violation('lockout:fresh', 'a new lockout state is locked')
  const ops = ['fail', 'ok', ...u.waits.map((w) => `+${w}`)]
  let level = [fresh]
  const seen = new Set()
  for (let d = 0; d < depth; d++) {
    const next = []
    for (const st of level) for (const op of ops) {
      ctx.exec(); ctx.trans()
      const n = { now: st.now, s: JSON.parse(JSON.stringify(st.s)), m: { ...st.m }, path: [...st.path, op] }
      W.now = n.now
      const say = (key, what) => ctx.violation(`lockout:${key}`, `${what} after ${n.path.join(' ')} with ${JSON.stringify(u.cfg)}: ${JSON.stringify(n.s)}`, { cfg: u.cfg, path: n.path })
      if (op === 'fail') {
        const got = u.cfg === undefined ? T.recordFailure(n.s) : T.recordFailure(n.s, u.cfg), want = refFail(n.m, n.now, c)
        if (got.locked !== want.locked) say('outcome', `recordFailure says locked=${got.locked}, expected ${want.locked}`)
        else if (want.unlockAt !== undefined && got.unlockAt !== iso(want.unlockAt)) say('until', `recordFailure says unlockAt=${got.unlockAt}, expected ${iso(want.unlockAt)}`)
        else if (!want.locked && got.remainingAttempts !== want.remaining) say('remaining', `recordFailure says ${got.remainingAttempts} attempts remain, expected ${want.remaining}`)
        if (want.wipe && !got.wipe) say('wipe', 'the last strike did not ask for a wipe')
        if (!n.m.wiped && got.wipe) say('wipe', 'a wipe was asked for before the last strike')
      } else if (op === 'ok') {
        T.recordSuccess(n.s); n.m.n = 0; n.m.start = null; n.m.until = null
      } else { n.now += Number(op.slice(1)); W.now = n.now }
      if (n.s.wiped !== n.m.wiped) say('wiped', `wiped is ${n.s.wiped}, expected ${n.m.wiped}`)
      if (n.s.strikes !== n.m.strikes) say('strikes', `strikes is ${n.s.strikes}, expected ${n.m.strikes}`)
      const want = (t) => n.m.wiped || (n.m.until !== null && t < n.m.until)
      if (T.isLocked(n.s) !== want(n.now)) say('locked', `isLocked is ${T.isLocked(n.s)}, expected ${want(n.now)}`)
      for (const dt of [1, c.cooldownMs - 1, c.cooldownMs]) if (T.isLocked(n.s, new Date(n.now + dt)) !== want(n.now + dt)) say('locked-at', `isLocked in ${dt} ms is ${!want(n.now + dt)}`)
      const k = relative(n.s, n.now) + '|' + canon({ ...n.m, start: n.m.start && n.m.start - n.now, until: n.m.until && n.m.until - n.now })
      if (seen.has(k)) continue
      seen.add(k); ctx.state(`${canon(u.cfg ?? null)}|${k}`)
      next.push(n)
    }
    level = next
    if (!level.length) break
  }
}

// ── PIN ─────────────────────────────────────────────────────────────────
async function keyring(names = ['a', 'b', '_blob']) {
  const deks = new Map()
  for (const n of names) deks.set(n, await crypto.subtle.generateKey({ name: 'AES-GCM', length: 256 }, true, ['encrypt', 'decrypt']))
  return { userId: 'u-é', displayName: 'User "1"', role: 'operator', permissions: { a: 'rw', b: 'ro' }, exportCapability: { plaintext: ['csv'], bundle: true }, importCapability: { plaintext: [], bundle: true }, salt: Uint8Array.from({ length: 32 }, (_, i) => 255 - i), deks, kek: null }
}
const describe = async (k) => canon({ userId: k.userId, displayName: k.displayName, role: k.role, permissions: k.permissions, exports: k.exportCapability ?? null, imports: k.importCapability ?? null, salt: hex(k.salt), deks: await Promise.all([...k.deks].map(async ([n, d]) => [n, hex(await crypto.subtle.exportKey('raw', d)), [...d.usages].sort()])) })

async function pinHistories(u, ctx) {
  const P = ctx.nb.pin
  const ops = ['right', 'wrong', 'near', 'wait', 'reload', ...(u.clear ? ['clear'] : [])]
  const depth = u.depth + (ctx.tier === 'thorough' ? 1 : 0)
  const r = await exploreAll(async (ch) => {
    resetWorld(3)
    const k = await keyring(), want = await describe(k)
    let st = await P.enrollPin(k, { pin: '1234', ...u.opts })
    const ttl = u.opts.ttlMs ?? 15 * 60000, max = u.opts.maxAttempts ?? 5
    const end = W.now + ttl
    let fails = 0, cleared = false
    const path = []
    const say = (key, what) => ctx.violation(`pin:${key}`, `${what} after ${path.join(' ')} (${canon(u.opts)})`, { path, opts: u.opts })
    if (st.expiresAt !== iso(end) || st.maxAttempts !== max || st.attempts !== 0) say('enrol', `enrolment gives ${canon({ ...st, wrappedKeyring: 0 })}`)
    for (let i = 0; i < depth; i++) {
      const op = ops[ch.choose(ops.length)]
      path.push(op); ctx.trans()
      const dead = cleared || W.now > end, spent = fails >= max
      if (op === 'wait') W.now += [ttl, 1][path.filter((x) => x === 'wait').length > 1 ? 1 : 0]
      else if (op === 'reload') st = JSON.parse(JSON.stringify(st))
      else if (op === 'clear') { P.clearPinState(st); cleared = true }
      else {
        const pin = { right: '1234', wrong: ['9999', '', '1234 ', '0'][path.filter((x) => x === 'wrong').length - 1] ?? '8888', near: ['12345', '123', ' 1234', '１２３４'][path.filter((x) => x === 'near').length - 1] ?? '01234' }[op]
        const a = await attempt(() => P.resumePin(st, { pin }))
        const e = a.ok ? 'ok' : errName(a)
        const expect = dead ? (cleared ? ['PIN_EXPIRED', 'PIN_ATTEMPTS_EXCEEDED'] : spent ? ['PIN_EXPIRED', 'PIN_ATTEMPTS_EXCEEDED'] : ['PIN_EXPIRED']) : spent ? ['PIN_ATTEMPTS_EXCEEDED'] : op === 'right' ? ['ok'] : ['PIN_INVALID']
        if (!expect.includes(e)) say('answer', `${op} PIN answered ${e}, expected ${expect.join('/')}`)
        if (a.ok && (await describe(a.val)) !== want) say('keyring', `the PIN gave another keyring: ${await describe(a.val)}`)
        if (a.ok && a.val.kek) say('kek', 'the PIN gave a key-encryption key')
        if (!dead && !spent && op !== 'right') fails++
      }
      const valid = !cleared && W.now <= end && fails < max
      if (P.isPinStateValid(st) !== valid) say('valid', `isPinStateValid is ${!valid}`)
      if (cleared && st.wrappedKeyring) say('cleared', 'the wrapped keyring survives clearing')
      if (!cleared && JSON.stringify(st).includes('1234"')) say('leak', 'the stored state shows the PIN')
      ctx.state(canon([u.opts, fails, cleared, W.now > end]))
    }
    ctx.exec()
  }, { maxExec: 400000 })
  if (!r.complete) ctx.capped('pin histories')
}

/** Overlapping attempts: every completion order of their decryptions. */
async function pinRace(u, ctx) {
  const P = ctx.nb.pin
  const r = await exploreAll(async (ch) => {
    resetWorld(4)
    const k = await keyring(['a'])
    const st = await P.enrollPin(k, { pin: '1234', maxAttempts: u.max })
    const s = crypto.subtle, old = s.decrypt, held = []
    s.decrypt = (...a) => new Promise((go) => held.push(go)).then(() => old.apply(s, a))
    const log = []
    try {
      const all = u.guesses.map((g, i) => attempt(() => P.resumePin(st, { pin: g === 'r' ? '1234' : g === 'c' ? '0000' : `99${i}` })).then((a) => { log.push([g, a.ok ? 'ok' : errName(a)]) }))
      for (let i = 0; i < u.guesses.length; i++) {
        for (let j = 0; j < 40; j++) await null
        if (u.clearAt === i) { P.clearPinState(st); log.push(['clear', '']) }
        if (!held.length) continue
        held.splice(ch.choose(held.length), 1)[0]()
        ctx.trans()
      }
      for (let j = 0; j < 40; j++) await null
      while (held.length) held.shift()()
      await Promise.all(all)
    } finally { s.decrypt = old }
    ctx.exec()
    let wrong = 0, cleared = false
    for (const [g, e] of log) {
      if (g === 'clear') cleared = true
      if (e === 'PIN_INVALID') wrong++
      if (e === 'ok' && wrong >= u.max) ctx.violation('pin:race-accept', `a PIN was accepted after ${wrong} refused ones (limit ${u.max}): ${canon(log)}`)
      if (e === 'ok' && cleared) ctx.violation('pin:race-clear', `a PIN was accepted after the state was cleared: ${canon(log)}`)
      if (e === 'ok' && g !== 'r') ctx.violation('pin:race-wrong', `a wrong PIN was accepted: ${canon(log)}`)
      if (g === 'r' && e === 'PIN_INVALID') ctx.violation('pin:race-right', `the right PIN was called wrong: ${canon(log)}`)
    }
    if (wrong > u.max) ctx.violation('pin:race-guesses', `${wrong} overlapping guesses were answered, the limit is ${u.max}: ${canon(log)}`)
    if (!u.clearAt && log.every(([g]) => g !== 'r') && Math.min(wrong, u.max) < Math.min(u.guesses.length, u.max)) ctx.violation('pin:race-uncounted', `only ${wrong} wrong PINs answered as wrong: ${canon(log)}`)
    if (wrong >= u.max && P.isPinStateValid(st)) ctx.violation('pin:race-valid', `the state is still valid after ${wrong} wrong PINs: ${canon(log)}`)
    ctx.state(canon([u, log]))
  }, { maxExec: 100000 })
  if (!r.complete) ctx.capped('pin race')
}

// ── E-mail codes ────────────────────────────────────────────────────────
async function otpHistories(u, ctx) {
  const O = ctx.nb.otp
  const ops = ['right', 'wrong', 'wait1', 'waitEnd', 'reload']
  const r = await exploreAll(async (ch) => {
    resetWorld(5)
    let sent = null
    const start = W.now, ttl = (u.opts.ttlSeconds ?? 300) * 1000, max = u.opts.maxAttempts ?? 5, digits = u.opts.digits ?? 6
    let { record } = await O.issue({ email: 'a@b.c', ...u.opts, transport: (x) => { if (sent) ctx.violation('otp:twice', 'the code was sent twice'); sent = x } })
    const path = []
    const say = (key, what) => ctx.violation(`otp:${key}`, `${what} after ${path.join(' ')} (${canon(u.opts)})`, { path, opts: u.opts })
    if (!sent || sent.to !== 'a@b.c' || sent.expiresAt !== iso(start + ttl) || sent.issuedAt !== iso(start) || record.expiresAt !== sent.expiresAt || !new RegExp(`^[0-9]{${digits}}$`).test(sent.code)) say('sent', `transport got ${canon(sent)}`)
    if (JSON.stringify(record).includes(sent.code)) say('leak', 'the stored record shows the code')
    const wrong = String((Number(sent.code) + 1) % 10 ** digits).padStart(digits, '0')
    let calls = 0
    for (let i = 0; i < u.depth; i++) {
      const op = ops[ch.choose(ops.length)]
      path.push(op); ctx.trans()
      if (op === 'wait1') W.now += 1
      else if (op === 'waitEnd') W.now = Math.max(W.now, start + ttl - 1)
      else if (op === 'reload') record = JSON.parse(JSON.stringify(record))
      else {
        const a = await O.verify(op === 'right' ? sent.code : wrong, record)
        const want = calls >= max ? 'locked' : W.now >= start + ttl ? 'expired' : op === 'right' ? 'ok' : calls + 1 >= max ? 'locked' : 'mismatch'
        if (calls < max) calls++
        const got = a.ok ? 'ok' : a.reason
        if (a.ok !== (want === 'ok')) say('answer', `${op} code answered ${canon(a)}, expected ${want}`)
        else if (got !== want) say('reason', `${op} code answered ${canon(a)}, expected ${want}`)
        if (a.remainingAttempts !== max - calls) say('remaining', `${op} code answered ${canon(a)}, expected ${max - calls} attempts left`)
      }
      ctx.state(canon([u.opts, calls, Math.min(W.now - start, ttl)]))
    }
    ctx.exec()
  }, { maxExec: 400000 })
  if (!r.complete) ctx.capped('otp histories')
}

async function otpCodes(ctx) {
  const O = ctx.nb.otp
  // Every other text near the code is refused.
  for (const digits of [6, 7, 8]) {
    resetWorld(6)
    let code
    const { record } = await O.issue({ email: 'e', digits, maxAttempts: 1e9, transport: (x) => { code = x.code } })
    const others = new Set(['', ' ' + code, code + ' ', code + '\n', '0' + code, code + '0', code.slice(1), code.slice(0, -1), [...code].reverse().join(''), '+' + code, Number(code) + '.0', record.digest, record.salt])
    for (let i = 0; i < digits; i++) for (let d = 0; d < 10; d++) {
      others.add(code.slice(0, i) + d + code.slice(i + 1))
      for (let j = i + 1; j < digits; j++) for (let e = 0; e < 10; e++) others.add(code.slice(0, i) + d + code.slice(i + 1, j) + e + code.slice(j + 1))
    }
    others.delete(code)
    for (const o of others) { ctx.exec(); if ((await O.verify(o, record)).ok) ctx.violation('otp:other', `${JSON.stringify(o)} is accepted for ${code}`) }
    if (!(await O.verify(code, record)).ok) ctx.violation('otp:code', `${code} itself is refused`)
  }
  // Draw -> code: boundaries of every block, the incomplete block is redrawn.
  for (const digits of [6, 7, 8]) {
    const max = 10 ** digits, full = Math.floor(2 ** 32 / max) * max
    const probes = []
    for (let b = 0; b <= 2 ** 32; b += max) for (const v of [b - 1, b, b + 1, b + Math.floor(max / 2)]) if (v >= 0 && v < 2 ** 32) probes.push(v)
    probes.push(2 ** 32 - 1, 2 ** 32 - 2)
    for (const v of new Set(probes)) {
      resetWorld(7)
      let draws = 0, single = true
      W.rngPlan = (b) => {
        if (b.length === 16) return false // the salt
        if (b.length !== 4) { single = false; return false }
        draws++
        const val = draws === 1 ? v : 123456
        b.set([val & 255, (val >>> 8) & 255, (val >>> 16) & 255, (val >>> 24) & 255])
        return true
      }
      let code
      const { record } = await O.issue({ email: 'e', digits, transport: (x) => { code = x.code } })
      W.rngPlan = null
      ctx.exec()
      if (!(await O.verify(code, record)).ok) ctx.violation('otp:own', `the code ${code} sent is refused`)
      if (!new RegExp(`^[0-9]{${digits}}$`).test(code)) ctx.violation('otp:shape', `draw ${v} gives ${JSON.stringify(code)} for ${digits} digits`)
      if (single && draws === 1 && v >= full) ctx.violation('otp:bias', `draw ${v} of the incomplete last block is used for ${digits} digits`)
      if (single && draws === 1 && v < full && Number(code) !== v % max) ctx.count('other mapping')
    }
  }
  // Codes and salts of successive challenges come from fresh randomness.
  resetWorld(8)
  const salts = new Set(), n = 50
  for (let i = 0; i < n; i++) salts.add((await O.issue({ email: 'e', transport() {} })).record.salt)
  if (salts.size !== n) ctx.violation('otp:salt', `${n} challenges share ${salts.size} salts`)
  const fail = await attempt(() => O.issue({ email: 'e', transport: async () => { throw new Error('smtp') } }))
  if (fail.ok) ctx.violation('otp:undelivered', 'a challenge whose delivery failed was issued')
}

/** Overlapping guesses at an e-mail code. */
async function otpRace(u, ctx) {
  const O = ctx.nb.otp
  const r = await exploreAll(async (ch) => {
    resetWorld(9)
    let code
    const { record } = await O.issue({ email: 'e', maxAttempts: u.max, transport: (x) => { code = x.code } })
    const s = crypto.subtle, old = s.digest, held = []
    s.digest = (...a) => new Promise((go) => held.push(go)).then(() => old.apply(s, a))
    const out = []
    try {
      const all = u.guesses.map((g) => O.verify(g === 'r' ? code : code === '000001' ? '000002' : '000001', record).then((a) => { out.push([g, a.ok]) }))
      for (let i = 0; i < u.guesses.length; i++) { for (let j = 0; j < 20; j++) await null; if (held.length) held.splice(ch.choose(held.length), 1)[0](); ctx.trans() }
      for (let j = 0; j < 20; j++) await null
      while (held.length) held.shift()()
      await Promise.all(all)
    } finally { s.digest = old }
    ctx.exec()
    const at = u.guesses.indexOf('r')
    const ok = out.filter(([, o]) => o).length
    if (out.some(([g, o]) => o && g !== 'r')) ctx.violation('otp:race-wrong', `a wrong code was accepted: ${canon(out)}`)
    if (ok && at >= u.max) ctx.violation('otp:race-guesses', `the code was accepted as attempt ${at + 1} of ${u.max}: ${canon(out)}`)
    ctx.state(canon([u, out]))
  })
  if (!r.complete) ctx.capped('otp race')
}

// ── Authenticator codes ─────────────────────────────────────────────────
const ALPHA = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ234567'
function ref32(b) { let s = ''; for (const x of b) s += x.toString(2).padStart(8, '0'); while (s.length % 5) s += '0'; return s.replace(/.{5}/g, (q) => ALPHA[parseInt(q, 2)]) }
function refCode(key, step, digits, alg) {
  const c = Buffer.alloc(8); c.writeBigUInt64BE(BigInt.asUintN(64, BigInt(step)))
  const h = createHmac(alg, key).update(c).digest(), o = h[h.length - 1] & 15
  return String((h.readUInt32BE(o) & 0x7fffffff) % 10 ** digits).padStart(digits, '0')
}
async function base32(ctx) {
  const T = ctx.nb.totp
  const back = (b) => { const t = T.encodeBase32(b); ctx.exec(); if (t !== ref32(b)) ctx.violation('totp:base32', `${hex(b)} encodes to ${t}`); for (const v of [t, t.toLowerCase(), t + '='.repeat((8 - (t.length % 8)) % 8), t.replace(/(.{4})/g, '$1 ')]) if (hex(T.decodeBase32(v)) !== hex(b)) ctx.violation('totp:base32', `${JSON.stringify(v)} decodes to ${hex(T.decodeBase32(v))}, expected ${hex(b)}`) }
  back(new Uint8Array(0))
  for (let a = 0; a < 256; a++) { back(Uint8Array.of(a)); for (let b = 0; b < 256; b++) back(Uint8Array.of(a, b)) }
  for (let n = 3; n <= 24; n++) for (let i = 0; i < n; i++) for (const v of [0, 1, 127, 128, 255]) { const x = new Uint8Array(n).fill(0x5a); x[i] = v; back(x) }
  for (let c = 0; c < 0x180; c++) {
    const ch = String.fromCharCode(c), okay = ALPHA.includes(ch) || /[a-z=\s]/.test(ch)
    if (!okay && [...ch.toUpperCase()].every((c) => ALPHA.includes(c))) continue // case folding of other alphabets
    const r = await attempt(async () => T.decodeBase32(`AAAA${ch}AAA`))
    if (r.ok !== okay) ctx.violation('totp:base32-char', `character ${JSON.stringify(ch)} is ${r.ok ? 'accepted' : 'refused'}`)
  }
  resetWorld(10)
  const secrets = new Set(); for (let i = 0; i < 50; i++) { const s = T.generateSecret(); secrets.add(s); if (T.decodeBase32(s).length < 20) ctx.violation('totp:secret', `secret ${s} is shorter than 160 bits`) }
  if (secrets.size !== 50) ctx.violation('totp:secret', 'generated secrets repeat')
}
async function totp(u, ctx) {
  const T = ctx.nb.totp
  const { digits, alg, period } = u
  const opts = { ...(digits && { digits }), ...(alg && { algorithm: alg }), ...(period && { period }) }
  const D = digits ?? 6, A = (alg ?? 'SHA1').toLowerCase(), P = period ?? 30
  const keys = [Buffer.from('12345678901234567890'), Buffer.from(Array.from({ length: 33 }, (_, i) => 255 - 7 * i))]
  const times = [0, 1, P - 1, P, 59, 1111111109, 1234567890, 2000000000, 20000000000, 4294967296 * P - 1, 4294967296 * P, 4294967296 * P * 3 + 5, Math.floor(Date.UTC(2026, 0, 1) / 1000)]
  if (ctx.tier === 'thorough') for (let i = 0; i < 3000; i++) times.push(1700000000 + i * 7)
  for (const key of keys) {
    const secret = ref32(key)
    for (const t of times) {
      const step = Math.floor(t / P)
      const want = refCode(key, step, D, A)
      for (const ms of [0, 999]) {
        W.now = t * 1000 + ms
        const got = await T.generateCode(secret, opts)
        if (got !== want) ctx.violation('totp:code', `code at ${t} with ${canon(opts)} is ${got}, expected ${want}`)
      }
      for (const window of [undefined, 0, 1, 2]) {
        const w = window ?? 1
        const accepted = new Set(); for (let i = -w; i <= w; i++) accepted.add(refCode(key, step + i, D, A))
        for (let i = -w - 3; i <= w + 3; i++) {
          ctx.exec(); ctx.trans()
          const code = refCode(key, step + i, D, A)
          const given = { ...opts, ...(window !== undefined && { window }) }
          const viaClock = await T.verify(secret, code, given)
          const viaArg = await T.verify(secret, code, { ...given, timestamp: t })
          if (viaClock !== accepted.has(code) || viaArg !== accepted.has(code)) ctx.violation('totp:verify', `the code of ${i} steps away is ${viaClock}/${viaArg} with window ${window} at ${t} ${canon(opts)}`)
        }
      }
      const code = want, others = ['', code + '0', '0' + code, code.slice(1), ' ' + code.slice(1), code.slice(0, -1) + 'x', [...code].map((c) => (Number(c) + 1) % 10).join('')]
      for (let i = 0; i < D; i++) for (let d = 0; d < 10; d++) others.push(code.slice(0, i) + d + code.slice(i + 1))
      const near = new Set([-1, 0, 1].map((i) => refCode(key, step + i, D, A)))
      for (const o of others) if (!near.has(o)) { ctx.exec(); if (await T.verify(secret, o, { ...opts, timestamp: t })) ctx.violation('totp:other', `${JSON.stringify(o)} is accepted, the code is ${code}`) }
      ctx.state(canon([u, t]))
    }
  }
  for (const account of ['a@b.c', 'Ünï cöde/?&=#:x', 'plain']) for (const issuer of [undefined, 'Acme & Co', 'X:Y']) {
    ctx.exec()
    const uri = new URL(T.provisioningUri(ref32(keys[0]), { account, ...(issuer && { issuer }), ...opts }))
    const q = Object.fromEntries(uri.searchParams)
    const label = decodeURIComponent(uri.pathname.replace(/^\/+(totp\/)?/, ''))
    const want = { secret: ref32(keys[0]), algorithm: alg ?? 'SHA1', digits: String(D), period: String(P), ...(issuer && { issuer }) }
    if (uri.protocol !== 'otpauth:' || uri.host !== 'totp' || canon(q) !== canon(want) || label !== (issuer ? `${issuer}:${account}` : account)) ctx.violation('totp:uri', `${uri.href} says ${canon(q)} ${label}, expected ${canon(want)}`)
  }
}

// ── Recovery codes ──────────────────────────────────────────────────────
async function recovery(ctx) {
  const R = ctx.nb.recovery
  resetWorld(11, { log: true })
  const kek = await crypto.subtle.generateKey({ name: 'AES-GCM', length: 256 }, true, ['encrypt', 'decrypt'])
  const iv = new Uint8Array(12), sealed = await crypto.subtle.encrypt({ name: 'AES-GCM', iv }, kek, new TextEncoder().encode('hello'))
  const opens = async (k) => new TextDecoder().decode(await crypto.subtle.decrypt({ name: 'AES-GCM', iv }, k, sealed)) === 'hello'
  for (const count of [-1, 0, 1.5, 101, NaN, Infinity]) if ((await attempt(() => R.generateRecoveryCodeSet({ kek, count }))).ok) ctx.violation('recovery:count', `a set of ${count} codes was made`)
  const one = await R.generateRecoveryCodeSet({ kek, count: 1 }), dflt = await R.generateRecoveryCodeSet({ kek }), big = await R.generateRecoveryCodeSet({ kek, count: 100 })
  if (one.codes.length !== 1 || dflt.codes.length !== 10 || big.codes.length !== 100) ctx.violation('recovery:count', `sets of ${one.codes.length}, ${dflt.codes.length} and ${big.codes.length} codes instead of 1, 10 and 100`)
  const all = [...one.codes, ...dflt.codes, ...big.codes], entries = [...one.entries, ...dflt.entries, ...big.entries]
  for (const [n, l] of [['codes', all], ['salts', entries.map((e) => e.salt)], ['ids', entries.map((e) => e.codeId)]]) if (new Set(l).size !== l.length) ctx.violation('recovery:distinct', `${n} repeat`)
  if (W.log.kdf.some((k) => k.alg !== 'PBKDF2' || k.iterations < 600000)) ctx.violation('recovery:stretch', `wrapping keys are derived with ${canon(W.log.kdf.map((k) => k.iterations))}`)
  for (const c of all) if (JSON.stringify(entries).includes(c) || JSON.stringify(entries).includes(c.replaceAll('-', ''))) ctx.violation('recovery:leak', 'an entry shows its code')
  // Each code opens its own entry only.
  for (let i = 0; i < dflt.codes.length; i++) for (let j = 0; j < dflt.entries.length; j++) {
    ctx.exec(); ctx.trans()
    const p = R.parseRecoveryCode(dflt.codes[i])
    const a = await attempt(() => R.unwrapKEKFromRecovery(p.code, dflt.entries[j]))
    if (a.ok !== (i === j)) ctx.violation('recovery:open', `code ${i} ${a.ok ? 'opens' : 'does not open'} entry ${j}`)
    if (a.ok && !(await attempt(() => opens(a.val))).val) ctx.violation('recovery:kek', 'the recovered key is another one')
    if (a.ok && a.val.extractable) ctx.violation('recovery:extractable', 'the recovered key can be extracted')
  }
  // Typing: formats are tolerated, every slip is noticed.
  for (const shown of [dflt.codes[0], dflt.codes[1], 'fixed']) {
    let plain = shown.replaceAll('-', '')
    if (shown === 'fixed') {
      // Extreme bodies: take the codes of an all-zero and an all-one draw.
      for (const fill of [0, 255]) {
        W.rngPlan = (b) => b.length === 15 && !!b.fill(fill)
        const s = await R.generateRecoveryCodeSet({ kek, count: 1 })
        W.rngPlan = null
        await slips(s.codes[0].replaceAll('-', ''))
      }
    } else await slips(plain)
  }
  async function slips(plain) {
    const status = (t) => R.parseRecoveryCode(t)
    for (const t of [plain, R.formatRecoveryCode(plain), plain.toLowerCase(), R.formatRecoveryCode(plain).toLowerCase(), ` ${R.formatRecoveryCode(plain)}\n`, [...plain].join(' '), [...plain].join('-'), plain.replace(/(.{4})/g, '$1_')]) {
      ctx.exec()
      const p = status(t)
      if (p.status !== 'valid' || p.code !== plain) ctx.violation('recovery:typing', `${JSON.stringify(t)} parses as ${canon(p)}, expected ${plain}`)
    }
    for (let i = 0; i < plain.length; i++) {
      for (const c of ALPHA) if (c !== plain[i]) { ctx.exec(); const p = status(plain.slice(0, i) + c + plain.slice(i + 1)); if (p.status !== 'invalid-checksum') ctx.violation('recovery:slip', `${plain} with ${c} at ${i} parses as ${p.status}`) }
      for (const c of '018!.é') { const p = status(plain.slice(0, i) + c + plain.slice(i + 1)); if (p.status !== 'invalid-format') ctx.violation('recovery:slip', `${plain} with ${c} at ${i} parses as ${p.status}`) }
      if (i + 1 < plain.length && plain[i] !== plain[i + 1]) {
        ctx.exec()
        const p = status(plain.slice(0, i) + plain[i + 1] + plain[i] + plain.slice(i + 2))
        if (p.status !== 'invalid-checksum') ctx.violation('recovery:swap', `${plain} with ${i} and ${i + 1} swapped parses as ${p.status}`)
      }
      if (status(plain.slice(0, i) + plain.slice(i + 1)).status !== 'invalid-format') ctx.violation('recovery:short', `${plain} without its character ${i} parses`)
      if (status(plain.slice(0, i) + 'A' + plain.slice(i)).status !== 'invalid-format') ctx.violation('recovery:long', `${plain} with one more character parses`)
    }
  }
  // wrap + unwrap by hand
  const salt = crypto.getRandomValues(new Uint8Array(16)), code = R.parseRecoveryCode(dflt.codes[3]).code
  const w = await R.wrapKEKForRecovery(kek, code, salt)
  const k = await attempt(() => R.unwrapKEKFromRecovery(code, { codeId: 'x', salt: Buffer.from(salt).toString('base64'), wrappedKEK: Buffer.from(w).toString('base64'), enrolledAt: '' }))
  if (!k.ok || !(await attempt(() => opens(k.val))).val) ctx.violation('recovery:wrap', 'a hand-wrapped key does not come back')
  // Damaged entries are refused.
  const e = dflt.entries[0], good = R.parseRecoveryCode(dflt.codes[0]).code
  for (const f of ['salt', 'wrappedKEK']) {
    const raw = Buffer.from(e[f], 'base64')
    for (let i = 0; i < raw.length * 8; i += ctx.tier === 'thorough' ? 1 : 3) { ctx.exec(); const b = Buffer.from(raw); b[i >> 3] ^= 1 << (i & 7); if ((await attempt(() => R.unwrapKEKFromRecovery(good, { ...e, [f]: b.toString('base64') }))).ok) ctx.violation('recovery:damaged', `an entry with a damaged ${f} opens`) }
  }
}

async function duress(ctx) {
  const T = ctx.nb.threat
  for (const [enroll, check] of [[T.enrollDuress, T.checkDuress], [T.enrollHoneypot, T.checkHoneypot]]) for (const phrase of ['help me', '', 'ünï ☃', 'A'.repeat(300), '0000']) {
    resetWorld(12, { log: true })
    const a = await enroll(phrase), b = await enroll(phrase)
    if (a.salt === b.salt || a.digest === b.digest) ctx.violation('duress:salt', 'two enrolments share salt or digest')
    if (W.log.kdf.some((k) => k.iterations < 200000)) ctx.violation('duress:stretch', `digests use ${W.log.kdf.map((k) => k.iterations)} iterations`)
    const near = new Set([phrase + ' ', ' ' + phrase, phrase.toUpperCase(), phrase.toLowerCase(), phrase.slice(1), phrase.slice(0, -1), phrase + phrase, phrase.normalize('NFD'), 'x', a.digest])
    for (let i = 0; i < Math.min(phrase.length, 20); i++) near.add(phrase.slice(0, i) + String.fromCharCode(phrase.charCodeAt(i) ^ 1) + phrase.slice(i + 1))
    near.delete(phrase)
    if (!(await check(phrase, a.digest, a.salt))) ctx.violation('duress:own', `phrase ${JSON.stringify(phrase.slice(0, 20))} is not recognised`)
    for (const n of near) { ctx.exec(); if (await check(n, a.digest, a.salt)) ctx.violation('duress:other', `${JSON.stringify(n.slice(0, 20))} is taken for ${JSON.stringify(phrase.slice(0, 20))}`) }
    if (await check(phrase, a.digest, b.salt)) ctx.violation('duress:salt', 'the salt does not matter')
    const d = Buffer.from(a.digest, 'hex')
    for (let i = 0; i < d.length; i++) { const x = Buffer.from(d); x[i] ^= 1; if (await check(phrase, x.toString('hex'), a.salt)) ctx.violation('duress:digest', `byte ${i} of the digest does not matter`) }
    if (await check(phrase, a.digest.slice(0, 62), a.salt) || await check(phrase, '', a.salt)) ctx.violation('duress:digest', 'a cut digest matches')
  }
}

async function pinStretch(ctx) {
  const P = ctx.nb.pin
  resetWorld(13, { log: true })
  const k = await keyring(), a = await P.enrollPin(k, { pin: '0' }), b = await P.enrollPin(k, { pin: '0' })
  if (a.salt === b.salt || a.iv === b.iv || a.wrappedKeyring === b.wrappedKeyring) ctx.violation('pin:salt', 'two enrolments of one PIN share salt, IV or ciphertext')
  if (W.log.kdf.length < 2 || W.log.kdf.some((x) => x.iterations < 100000)) ctx.violation('pin:stretch', `PIN keys use ${W.log.kdf.map((x) => x.iterations)} iterations`)
  for (const f of ['salt', 'iv', 'wrappedKeyring']) {
    const raw = Buffer.from(a[f], 'base64')
    for (let i = 0; i < raw.length; i++) { ctx.exec(); const x = Buffer.from(raw); x[i] ^= 1; const r = await attempt(() => P.resumePin({ ...a, [f]: x.toString('base64') }, { pin: '0' })); if (r.ok) ctx.violation('pin:damaged', `a state with a damaged ${f} opens`) }
  }
  const locked = await keyring(['a']); locked.deks.set('x', await crypto.subtle.importKey('raw', new Uint8Array(32), { name: 'AES-GCM' }, false, ['encrypt', 'decrypt']))
  const r = await attempt(() => P.enrollPin(locked, { pin: '0' }))
  if (r.ok || errName(r) !== 'PIN_ENROLLMENT_FAILED') ctx.violation('pin:unexportable', `a keyring with a non-extractable key enrols: ${errName(r)}`)
}

const GUESSES = ['ww', 'www', 'wwww', 'rw', 'wr', 'wwr', 'rww', 'wrw', 'wwwr', 'rr']

export default {
  level: 'implementation',
  technique: 'explicit-state exploration of the lockout machine with deduplicated product states, exhaustive operation histories and completion orders for PINs and codes, exhaustive typing slips and code neighbourhoods, on the real packages',
  bounds: (tier) => `lockout: all sequences of failure, success and boundary waits to depth 10-17 (+4 thorough) for 13 configurations with merged states; PIN and e-mail code histories of up to 6 operations; up to 4 overlapping guesses in every completion order; authenticator codes for 3 algorithms x 3 lengths x 3 periods at 13${tier === 'thorough' ? '+3000' : ''} instants, windows 0-2; every single slip and adjacent swap in a recovery code`,
  assumptions: ['time and randomness are the harness clock and generator', 'PBKDF2 runs one round in the harness; the requested round count is checked instead', 'burning a used code is left to the caller, as documented'],
  modules: { threat: '@noy-db/on-threat', pin: '@noy-db/on-pin', otp: '@noy-db/on-email-otp', totp: '@noy-db/on-totp', recovery: '@noy-db/on-recovery' },
  units() {
    const out = LOCK.map((l) => ({ kind: 'lockout', ...l }))
    for (const opts of [{}, { maxAttempts: 1 }, { maxAttempts: 2, ttlMs: 1000 }, { maxAttempts: 3, ttlMs: 0 }, { maxAttempts: 0 }]) out.push({ kind: 'pin', opts, depth: 'maxAttempts' in opts ? 5 : 6, clear: !!opts.maxAttempts })
    for (const max of [1, 2, 3]) for (const g of GUESSES) out.push({ kind: 'pinRace', max, guesses: [...g] })
    for (const clearAt of [0, 1, 2]) out.push({ kind: 'pinRace', max: 5, guesses: ['r', 'w', 'r'], clearAt })
    for (const opts of [{}, { maxAttempts: 1 }, { maxAttempts: 2, ttlSeconds: 1 }, { maxAttempts: 3, digits: 8 }, { ttlSeconds: 0 }, { maxAttempts: 0 }]) out.push({ kind: 'otp', opts, depth: Object.keys(opts).length ? 5 : 6 })
    for (const max of [1, 2]) for (const g of GUESSES) out.push({ kind: 'otpRace', max, guesses: [...g] })
    out.push({ kind: 'otpCodes' }, { kind: 'base32' }, { kind: 'recovery' }, { kind: 'duress' }, { kind: 'pinStretch' })
    for (const digits of [undefined, 6, 7, 8]) for (const alg of [undefined, 'SHA1', 'SHA256', 'SHA512']) for (const period of [undefined, 30, 60, 15]) if ([digits, alg, period].filter((x) => x === undefined).length !== 1 || period === undefined) out.push({ kind: 'totp', digits, alg, period })
    return out
  },
  async runUnit(u, ctx) {
    const f = { lockout: () => lockout(u, ctx), pin: () => pinHistories(u, ctx), pinRace: () => pinRace(u, ctx), otp: () => otpHistories(u, ctx), otpRace: () => otpRace(u, ctx), otpCodes: () => otpCodes(ctx), base32: () => base32(ctx), totp: () => { resetWorld(1); return totp(u, ctx) }, recovery: () => recovery(ctx), duress: () => duress(ctx), pinStretch: () => pinStretch(ctx) }
    await f[u.kind]()
  },
}
