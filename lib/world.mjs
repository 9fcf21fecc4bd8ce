// The controlled world: deterministic WebCrypto, clock, timers and randomness.
// Must be imported (and install() called) BEFORE the bundle under test.
//
// The crypto primitives are the real ones (node:crypto AES-GCM / AES-KW / HMAC /
// SHA), only executed synchronously and delivered in a microtask, and with
// PBKDF2 run for one iteration (the requested count is folded into the salt and
// recorded, so different counts still give different keys). That makes one
// vault-open cost microseconds, so tens of thousands of executions fit a check,
// and it makes the crypto boundary observable: every (key, iv) pair, every
// derivation parameter and every wrapped key is logged.
import nc from 'node:crypto'
import zlib from 'node:zlib'

const real = {
  Date: globalThis.Date,
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval,
  clearInterval: globalThis.clearInterval,
  setImmediate: globalThis.setImmediate,
  crypto: globalThis.crypto,
  random: Math.random,
  warn: console.warn,
}
export { real }

export const T0 = real.Date.UTC(2026, 0, 1, 0, 0, 0)

export const W = {
  now: T0,
  tick: 0, // ms added to the clock by every observation when autoTick is on
  timers: new Map(),
  timerSeq: 0,
  rng: 0,
  rngPlan: null,
  log: null, // crypto log
}

// ── randomness ────────────────────────────────────────────────────────────
function rnd32() {
  // splitmix32
  let z = (W.rng = (W.rng + 0x9e3779b9) | 0)
  z = Math.imul(z ^ (z >>> 16), 0x21f0aaad)
  z = Math.imul(z ^ (z >>> 15), 0x735a2d97)
  return (z ^ (z >>> 15)) >>> 0
}
function fillRandom(view) {
  const b = new Uint8Array(view.buffer, view.byteOffset, view.byteLength)
  if (W.rngPlan) {
    const r = W.rngPlan(b)
    if (r) return view
  }
  for (let i = 0; i < b.length; i += 4) {
    const v = rnd32()
    b[i] = v & 255
    if (i + 1 < b.length) b[i + 1] = (v >>> 8) & 255
    if (i + 2 < b.length) b[i + 2] = (v >>> 16) & 255
    if (i + 3 < b.length) b[i + 3] = (v >>> 24) & 255
  }
  return view
}

// ── WebCrypto ─────────────────────────────────────────────────────────────
const RAW = new WeakMap()
let keySeq = 0
class FakeCryptoKey {
  constructor(raw, algorithm, extractable, usages, type = 'secret') {
    this.type = type
    this.algorithm = algorithm
    this.extractable = extractable
    this.usages = [...usages]
    RAW.set(this, raw)
    Object.defineProperty(this, 'kid', { value: ++keySeq, enumerable: false })
  }
}
export const rawKey = (k) => RAW.get(k)
function opErr(msg, name = 'OperationError') {
  return new DOMException(msg, name)
}
function buf(x) {
  if (x instanceof ArrayBuffer) return Buffer.from(new Uint8Array(x))
  if (ArrayBuffer.isView(x)) return Buffer.from(x.buffer, x.byteOffset, x.byteLength)
  throw new TypeError('not a BufferSource')
}
function ab(b) {
  const out = new ArrayBuffer(b.length)
  new Uint8Array(out).set(b)
  return out
}
const algName = (a) => (typeof a === 'string' ? a : a.name).toUpperCase()
function hashName(h) {
  const n = (typeof h === 'string' ? h : h?.name ?? 'SHA-256').toUpperCase()
  return n.replace('-', '').toLowerCase()
}
function need(key, usage) {
  if (!(key instanceof FakeCryptoKey)) throw new TypeError('key is not a CryptoKey')
  if (!key.usages.includes(usage)) throw opErr(`key usages do not permit ${usage}`, 'InvalidAccessError')
  return RAW.get(key)
}
function kw(wrap, kek, data) {
  const c = wrap
    ? nc.createCipheriv('id-aes256-wrap', kek, Buffer.alloc(8, 0xa6))
    : nc.createDecipheriv('id-aes256-wrap', kek, Buffer.alloc(8, 0xa6))
  return Buffer.concat([c.update(data), c.final()])
}
function deriveRaw(alg, key, bits) {
  const n = algName(alg)
  const raw = RAW.get(key)
  if (n === 'PBKDF2') {
    const salt = buf(alg.salt)
    W.log?.kdf.push({ alg: 'PBKDF2', hash: hashName(alg.hash), iterations: alg.iterations, salt: salt.toString('hex'), pw: raw.toString('utf8') })
    const s = Buffer.concat([salt, Buffer.from(`|${alg.iterations}`)])
    return nc.pbkdf2Sync(raw, s, 1, bits / 8, hashName(alg.hash))
  }
  if (n === 'HKDF') {
    W.log?.kdf.push({ alg: 'HKDF', hash: hashName(alg.hash), salt: buf(alg.salt).toString('hex'), info: buf(alg.info).toString('utf8') })
    return Buffer.from(nc.hkdfSync(hashName(alg.hash), raw, buf(alg.salt), buf(alg.info), bits / 8))
  }
  throw opErr(`unsupported derive ${n}`, 'NotSupportedError')
}
function keyLen(a) {
  const n = algName(a)
  if (n === 'HMAC') return a.length ?? 512
  return a.length ?? 256
}
function normAlg(a) {
  return typeof a === 'string' ? { name: a } : { ...a }
}
const subtle = {
  async importKey(format, data, alg, extractable, usages) {
    if (format !== 'raw') throw opErr(`format ${format}`, 'NotSupportedError')
    const raw = Buffer.from(buf(data))
    const n = algName(alg)
    if ((n === 'AES-GCM' || n === 'AES-KW' || n === 'AES-CTR') && ![16, 24, 32].includes(raw.length)) {
      throw opErr('Invalid key length', 'DataError')
    }
    return new FakeCryptoKey(raw, normAlg(alg), !!extractable, usages)
  },
  async exportKey(format, key) {
    if (format !== 'raw') throw opErr(`format ${format}`, 'NotSupportedError')
    if (!(key instanceof FakeCryptoKey)) throw new TypeError('key is not a CryptoKey')
    if (!key.extractable) throw opErr('key is not extractable', 'InvalidAccessError')
    const raw = RAW.get(key)
    W.log?.exported.push(raw)
    return ab(raw)
  },
  async generateKey(alg, extractable, usages) {
    const raw = Buffer.alloc(keyLen(alg) / 8)
    fillRandom(raw)
    W.log?.generated.push(raw)
    return new FakeCryptoKey(raw, normAlg(alg), !!extractable, usages)
  },
  async deriveBits(alg, key, bits) {
    need(key, 'deriveBits')
    return ab(deriveRaw(alg, key, bits))
  },
  async deriveKey(alg, key, derived, extractable, usages) {
    need(key, 'deriveKey')
    const raw = deriveRaw(alg, key, keyLen(derived))
    W.log?.derived.push(raw)
    return new FakeCryptoKey(raw, normAlg(derived), !!extractable, usages)
  },
  async encrypt(alg, key, data) {
    const raw = need(key, 'encrypt')
    const n = algName(alg)
    const d = buf(data)
    if (n === 'AES-GCM') {
      const iv = buf(alg.iv)
      const c = nc.createCipheriv(`aes-${raw.length * 8}-gcm`, raw, iv)
      const aad = alg.additionalData ? buf(alg.additionalData) : null
      if (aad) c.setAAD(aad)
      const ct = Buffer.concat([c.update(d), c.final(), c.getAuthTag()])
      W.log?.enc.push({ key: raw.toString('hex'), iv: iv.toString('hex'), ivLen: iv.length, pt: d, aad: aad ? aad.toString('utf8') : null })
      return ab(ct)
    }
    if (n === 'AES-CTR') {
      const c = nc.createCipheriv(`aes-${raw.length * 8}-ctr`, raw, buf(alg.counter))
      return ab(Buffer.concat([c.update(d), c.final()]))
    }
    throw opErr(`unsupported ${n}`, 'NotSupportedError')
  },
  async decrypt(alg, key, data) {
    const raw = need(key, 'decrypt')
    const n = algName(alg)
    const d = buf(data)
    if (n === 'AES-GCM') {
      const tagLen = (alg.tagLength ?? 128) / 8
      if (d.length < tagLen) throw opErr('The operation failed for an operation-specific reason')
      try {
        const c = nc.createDecipheriv(`aes-${raw.length * 8}-gcm`, raw, buf(alg.iv), { authTagLength: tagLen })
        if (alg.additionalData) c.setAAD(buf(alg.additionalData))
        c.setAuthTag(d.subarray(d.length - tagLen))
        return ab(Buffer.concat([c.update(d.subarray(0, d.length - tagLen)), c.final()]))
      } catch {
        throw opErr('The operation failed for an operation-specific reason')
      }
    }
    if (n === 'AES-CTR') {
      const c = nc.createDecipheriv(`aes-${raw.length * 8}-ctr`, raw, buf(alg.counter))
      return ab(Buffer.concat([c.update(d), c.final()]))
    }
    throw opErr(`unsupported ${n}`, 'NotSupportedError')
  },
  async wrapKey(format, key, wrappingKey, alg) {
    const kek = need(wrappingKey, 'wrapKey')
    if (!key.extractable) throw opErr('key is not extractable', 'InvalidAccessError')
    if (algName(alg) !== 'AES-KW') throw opErr('wrap alg', 'NotSupportedError')
    const raw = RAW.get(key)
    W.log?.wraps.push({ kek, key: raw })
    return ab(kw(true, kek, raw))
  },
  async unwrapKey(format, data, unwrappingKey, alg, keyAlg, extractable, usages) {
    const kek = need(unwrappingKey, 'unwrapKey')
    if (algName(alg) !== 'AES-KW') throw opErr('wrap alg', 'NotSupportedError')
    let raw
    try {
      raw = kw(false, kek, buf(data))
    } catch {
      throw opErr('The operation failed for an operation-specific reason')
    }
    return new FakeCryptoKey(raw, normAlg(keyAlg), !!extractable, usages)
  },
  async digest(alg, data) {
    return ab(nc.createHash(hashName(alg)).update(buf(data)).digest())
  },
  async sign(alg, key, data) {
    const raw = need(key, 'sign')
    return ab(nc.createHmac(hashName(key.algorithm.hash), raw).update(buf(data)).digest())
  },
  async verify(alg, key, sig, data) {
    const raw = need(key, 'verify')
    const d = nc.createHmac(hashName(key.algorithm.hash), raw).update(buf(data)).digest()
    const s = buf(sig)
    return d.length === s.length && nc.timingSafeEqual(d, s)
  },
}
const fakeCrypto = {
  subtle,
  getRandomValues: fillRandom,
  randomUUID() {
    const b = fillRandom(new Uint8Array(16))
    b[6] = (b[6] & 15) | 64
    b[8] = (b[8] & 63) | 128
    const h = Buffer.from(b).toString('hex')
    return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`
  },
}

// ── clock and timers ──────────────────────────────────────────────────────
class VDate extends real.Date {
  constructor(...a) {
    if (a.length === 0) super(VDate.now())
    else super(...a)
  }
  static now() {
    W.now += W.tick
    return W.now
  }
}
function vSetTimeout(fn, ms = 0, ...args) {
  if (ms > 2147483647) ms = 1 // as the platform does
  const id = ++W.timerSeq
  const t = { id, at: W.now + Math.max(0, Number(ms) || 0), fn, args, unref() { return t }, ref() { return t }, hasRef() { return true }, [Symbol.toPrimitive]() { return id } }
  W.timers.set(id, t)
  return t
}
function vClear(t) {
  if (t === null || t === undefined) return
  W.timers.delete(typeof t === 'object' ? t.id : Number(t))
}
function vSetInterval(fn, ms = 0, ...args) {
  const t = vSetTimeout(fn, ms, ...args)
  t.every = Math.max(1, Number(ms) || 1)
  return t
}
export function nextTimer() {
  let best = null
  for (const t of W.timers.values()) if (!best || t.at < best.at || (t.at === best.at && t.id < best.id)) best = t
  return best
}
export function fireTimer(t) {
  if (!W.timers.has(t.id)) return false
  if (t.at > W.now) W.now = t.at
  if (t.every) t.at = W.now + t.every
  else W.timers.delete(t.id)
  t.fn(...t.args)
  return true
}
export const drain = () => new Promise((r) => real.setImmediate(r))

/** Advance the virtual clock by ms, firing due timers in order, draining between. */
export async function advance(ms) {
  const end = W.now + ms
  for (;;) {
    await drain()
    const t = nextTimer()
    if (!t || t.at > end) break
    fireTimer(t)
  }
  W.now = Math.max(W.now, end)
  await drain()
}

/** Run an async thunk to completion; fire timers when otherwise idle. */
export async function settle(thunk, opts = {}) {
  let done = false, val, err, bad = false
  const p = Promise.resolve().then(thunk).then((v) => { done = true; val = v }, (e) => { done = true; bad = true; err = e })
  void p
  let steps = 0, idle = 0
  const max = opts.maxTimers ?? 2000
  for (;;) {
    await drain()
    if (done) break
    const t = opts.noTimers ? null : nextTimer()
    if (!t && idle++ < 20) continue
    idle = 0
    if (!t) throw new StuckError('operation never settles: no pending timer or I/O can make progress')
    if (++steps > max) throw new StuckError(`operation still unsettled after ${max} timer firings`)
    fireTimer(t)
  }
  if (bad) throw err
  return val
}
export class StuckError extends Error {
  constructor(m) { super(m); this.name = 'StuckError' }
}

export function resetWorld(seed = 1, opts = {}) {
  W.now = opts.now ?? T0
  W.tick = opts.tick ?? 0
  W.timers.clear()
  W.timerSeq = 0
  W.rng = (seed * 0x9e3779b1) | 0
  W.rngPlan = null
  W.mrng = 12345 // Math.random has its own stream, independent of the cryptographic one
  W.log = opts.log ? newLog() : null
}
export function newLog() {
  return { enc: [], kdf: [], wraps: [], generated: [], exported: [], derived: [] }
}

// Schedulable stand-ins for the compression streams, with the backpressure of
// the real ones: past 64 KiB a write settles only once the output is being read.
class ZStream {
  constructor(format, table) {
    const f = table[format]
    if (!f) throw new TypeError(`Unsupported compression format: ${format}`)
    const parts = []
    let ctl, pulled
    const reading = new Promise((r) => { pulled = r })
    this.readable = new ReadableStream({ start(c) { ctl = c }, pull() { pulled() } }, { highWaterMark: 0 })
    this.writable = new WritableStream({
      write(c) {
        parts.push(Buffer.from(c))
        let size = 0
        try { size = Math.max(c.byteLength, f(Buffer.concat(parts)).length) } catch { size = c.byteLength }
        return size > 65536 ? reading : undefined
      },
      close() {
        try {
          const out = f(Buffer.concat(parts))
          if (out.length) ctl.enqueue(new Uint8Array(out))
          ctl.close()
        } catch (e) { ctl.error(e); throw e }
      },
    })
  }
}
class VCompressionStream extends ZStream { constructor(f) { super(f, { gzip: zlib.gzipSync, deflate: zlib.deflateSync, 'deflate-raw': zlib.deflateRawSync }) } }
class VDecompressionStream extends ZStream { constructor(f) { super(f, { gzip: zlib.gunzipSync, deflate: zlib.inflateSync, 'deflate-raw': zlib.inflateRawSync }) } }

export function install() {
  globalThis.CompressionStream = VCompressionStream
  globalThis.DecompressionStream = VDecompressionStream
  Object.defineProperty(globalThis, 'crypto', { value: fakeCrypto, configurable: true, writable: true })
  globalThis.CryptoKey = FakeCryptoKey
  globalThis.Date = VDate
  globalThis.setTimeout = vSetTimeout
  globalThis.clearTimeout = vClear
  globalThis.setInterval = vSetInterval
  globalThis.clearInterval = vClear
  Math.random = () => { W.mrng = (Math.imul(W.mrng, 1664525) + 1013904223) | 0; return (W.mrng >>> 0) / 0x100000000 }
  console.warn = () => {}
  console.info = () => {}
}
