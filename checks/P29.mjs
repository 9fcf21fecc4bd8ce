// P29 — Shamir shares: any k of n give the key back, fewer say nothing about it, and every format carries them unchanged.
import { resetWorld } from '../lib/world.mjs'
import { canon } from '../lib/explore.mjs'
import { attempt, errName } from '../lib/noy.mjs'

/** Reference arithmetic of GF(2^8) mod x^8+x^4+x^3+x+1, bit by bit. */
const mul = (a, b) => { let r = 0; while (b) { if (b & 1) r ^= a; a <<= 1; if (a & 256) a ^= 0x11b; b >>= 1 } return r }
const TAB = Array.from({ length: 256 }, (_, a) => Uint8Array.from({ length: 256 }, (_, b) => mul(a, b)))
const INV = new Uint8Array(256); for (let a = 1; a < 256; a++) for (let b = 1; b < 256; b++) if (TAB[a][b] === 1) INV[a] = b
const hex = (b) => [...b].map((x) => x.toString(16).padStart(2, '0')).join('')

function* subsets(n, k, from = 0) { if (k === 0) { yield []; return } for (let i = from; i <= n - k; i++) for (const r of subsets(n, k - 1, i + 1)) yield [i, ...r] }
function* perms(a) { if (a.length < 2) { yield a; return } for (let i = 0; i < a.length; i++) for (const r of perms([...a.slice(0, i), ...a.slice(i + 1)])) yield [a[i], ...r] }

/** Run fn while crypto.getRandomValues hands out the given bytes in order. */
function withRandom(bytes, fn) {
  const c = globalThis.crypto, old = c.getRandomValues
  let at = 0, short = false
  c.getRandomValues = (a) => { for (let i = 0; i < a.length; i++) { if (at >= bytes.length) { short = true; a[i] = 0 } else a[i] = bytes[at++] } return a }
  try { return { val: fn(), used: at, short } } finally { c.getRandomValues = old }
}

async function field(ctx) {
  const S = ctx.nb.shamir
  for (let a = 0; a < 256; a++) {
    ctx.exec()
    for (let b = 0; b < 256; b++) {
      ctx.trans()
      if (S.gfAdd(a, b) !== (a ^ b)) ctx.violation('field:add', `gfAdd(${a}, ${b}) = ${S.gfAdd(a, b)}`)
      if (S.gfMul(a, b) !== TAB[a][b]) ctx.violation('field:mul', `gfMul(${a}, ${b}) = ${S.gfMul(a, b)}, expected ${TAB[a][b]}`)
      const d = await attempt(async () => S.gfDiv(a, b))
      if (b === 0 ? d.ok : !d.ok || d.val !== TAB[a][INV[b]]) ctx.violation('field:div', `gfDiv(${a}, ${b}) = ${d.ok ? d.val : errName(d)}`)
    }
    const i = await attempt(async () => S.gfInv(a))
    if (a === 0 ? i.ok : i.val !== INV[a]) ctx.violation('field:inv', `gfInv(${a}) = ${i.ok ? i.val : errName(i)}`)
  }
}

/** Every threshold and count, every subset and order of shares. */
async function combine(u, ctx) {
  const S = ctx.nb.shamir, { n } = u
  for (let k = 2; k <= n; k++) for (const secret of [[0], [255], [0x53, 0xca], [0, 0, 0], [1, 2, 4, 8, 16, 32, 64, 128], Array.from({ length: 32 }, (_, i) => (i * 37 + 11) & 255)]) for (const pattern of [0, 1, 2]) {
    ctx.exec(); resetWorld(1 + pattern)
    const sec = Uint8Array.from(secret)
    const rnd = pattern === 0 ? (c) => new Uint8Array(c) : pattern === 1 ? (c) => new Uint8Array(c).fill(255) : undefined
    const shares = S.splitSecret(sec, k, n, rnd)
    const label = `${k} of ${n}, secret ${hex(sec)}`
    if (canon([...sec]) !== canon(secret)) ctx.violation('combine:input', `${label}: splitting changes the secret`)
    if (shares.length !== n || new Set(shares.map((s) => s.x)).size !== n || shares.some((s) => s.x < 1 || s.x > 255 || s.k !== k || s.n !== n || s.y.length !== sec.length)) { ctx.violation('combine:shape', `${label}: malformed shares ${canon(shares.map((s) => [s.x, s.k, s.n, s.y.length]))}`); continue }
    for (let size = 0; size <= n; size++) for (const sub of subsets(n, size)) {
      const orders = size <= 4 ? perms(sub) : [sub, [...sub].reverse()]
      for (const ord of orders) {
        ctx.trans()
        const r = await attempt(async () => S.combineSecret(ord.map((i) => shares[i])))
        if (size < k) { if (r.ok) ctx.violation('combine:few', `${label}: ${size} shares combine to ${hex(r.val)}`) } else if (!r.ok || hex(r.val) !== hex(sec)) ctx.violation('combine:wrong', `${label}: shares ${ord.map((i) => shares[i].x)} combine to ${r.ok ? hex(r.val) : errName(r)}`)
      }
    }
    for (let i = 0; i < n; i++) {
      const r = await attempt(async () => S.combineSecret(Array.from({ length: k }, () => shares[i])))
      if (r.ok) ctx.violation('combine:dup', `${label}: the same share ${k} times combines`)
    }
    // k shares of which one occurs twice, the copy at every place
    for (const sub of subsets(n, k - 1)) for (const twice of sub) for (let at = 0; at <= sub.length; at++) {
      ctx.trans()
      const ord = [...sub.slice(0, at), twice, ...sub.slice(at)]
      const r = await attempt(async () => S.combineSecret(ord.map((i) => ({ ...shares[i], y: shares[i].y.slice() }))))
      if (r.ok) ctx.violation('combine:dup', `${label}: shares ${ord.map((i) => shares[i].x)} combine`)
    }
    if (sec.length > 1) {
      const cut = [{ ...shares[0], y: shares[0].y.slice(1) }, ...shares.slice(1, k)]
      for (const l of [cut, [...cut].reverse()]) { const r = await attempt(async () => S.combineSecret(l)); if (r.ok) ctx.violation('combine:lengths', `${label}: shares of different lengths combine`) }
    }
    ctx.state([k, n, secret.length])
  }
  for (const [k, m, len] of [[1, n, 1], [0, n, 1], [n + 1, n, 1], [2.5, n, 1], [2, 256, 1], [2, n, 0], [NaN, n, 1], [2, n + 0.5, 1]]) {
    ctx.exec()
    const r = await attempt(async () => S.splitSecret(new Uint8Array(len), k, m))
    if (r.ok) ctx.violation('combine:args', `splitting ${len} bytes ${k} of ${m} is accepted`)
  }
}
/** Large counts: every pair of neighbours and the extremes. */
async function large(ctx) {
  const S = ctx.nb.shamir
  for (const [k, n] of [[2, 255], [2, 128], [3, 255], [255, 255], [100, 200], [9, 12], [10, 12], [11, 11], [17, 20], [33, 40], [65, 66], [129, 130]]) {
    ctx.exec(); resetWorld(3)
    const sec = Uint8Array.from({ length: 4 }, (_, i) => i * 77 + k)
    const shares = S.splitSecret(sec, k, n)
    const tries = []
    for (const few of [1, k - 1, k >> 1, Math.min(k - 1, 9), Math.min(k - 1, 16), Math.min(k - 1, 127)]) for (const from of [0, n - few]) { const r = await attempt(async () => S.combineSecret(shares.slice(from, from + few))); ctx.trans(); if (r.ok) ctx.violation('large:few', `${k} of ${n}: ${few} shares combine`) }
    if (k === 2) for (let i = 0; i < n; i++) for (let j = 0; j < n; j++) { if (i !== j) tries.push([i, j]) } else for (let i = 0; i + k <= n; i += Math.max(1, n >> 4)) tries.push(Array.from({ length: k }, (_, j) => i + j))
    if (k === 3) for (let i = 0; i < n; i += 5) for (let j = 1; j < n; j += 7) for (let l = 2; l < n; l += 11) if (i !== j && j !== l && i !== l) tries.push([i, j, l])
    for (const t of tries) {
      ctx.trans()
      const r = await attempt(async () => S.combineSecret(t.map((i) => shares[i])))
      if (!r.ok || hex(r.val) !== hex(sec)) { ctx.violation('large', `${k} of ${n}: shares ${t.slice(0, 3).map((i) => shares[i].x)}… combine to ${r.ok ? hex(r.val) : errName(r)}`); break }
    }
  }
}

/** Fewer than k shares: over all random choices every value is equally likely, whatever the secret. */
async function secrecy(u, ctx) {
  const S = ctx.nb.shamir, { k, n } = u
  const draw = (sec, rnd) => {
    const { val, used, short } = withRandom(rnd, () => S.splitSecret(sec, k, n))
    if (short || used !== rnd.length) { if (!draw.said) { draw.said = true; ctx.violation('secrecy:random', `${k} of ${n}, ${sec.length} bytes: ${used}${short ? '+' : ''} random bytes drawn, ${rnd.length} needed`) } }
    return val
  }
  const R = (k - 1) * u.len, total = 256 ** R
  const secrets = u.secrets
  for (const s of secrets) {
    const sec = Uint8Array.from(s)
    const views = [...subsets(n, k - 1)], seen = views.map(() => new Uint8Array(total))
    const rnd = new Uint8Array(R)
    for (let t = 0; t < total; t++) {
      ctx.exec()
      for (let i = 0, v = t; i < R; i++, v = Math.floor(v / 256)) rnd[i] = v % 256
      const shares = draw(sec, rnd)
      for (const [w, view] of views.entries()) {
        let key = 0
        for (const i of view) for (let b = 0; b < u.len; b++) key = key * 256 + shares[i].y[b]
        seen[w][key]++
      }
    }
    ctx.trans(views.length * total)
    for (const [w, view] of views.entries()) { const c = seen[w].findIndex((x) => x !== 1); if (c >= 0) ctx.violation(`secrecy:${k}`, `${k} of ${n}, secret ${hex(sec)}: the view of shares ${view.map((i) => i + 1)} is not uniform (value ${c} occurs ${seen[w][c]} times)`) }
  }
  // the shares are points of the drawn polynomial: no hidden dependence on anything else
  ctx.state([k, n, u.len])
}

/** Long secrets: each byte of a share is blinded by randomness of its own. */
async function longSecrecy(u, ctx) {
  const S = ctx.nb.shamir, { len } = u
  const sec = Uint8Array.from({ length: len }, (_, i) => (i * 91 + 5) & 255)
  const share = (rnd) => withRandom(rnd, () => S.splitSecret(sec, 2, 2)).val[0].y
  const seen = Array.from({ length: len }, () => new Set())
  for (let t = 0; t < 256; t++) { ctx.exec(); share(new Uint8Array(len).fill(t)).forEach((y, b) => seen[b].add(y)) }
  seen.forEach((s, b) => { if (s.size !== 256) ctx.violation('secrecy:long', `2 of 2, ${len} bytes: byte ${b} of a share takes only ${s.size} values`) })
  const zero = share(new Uint8Array(len)), moved = new Map()
  for (let r = 0; r < len; r++) {
    ctx.exec(); ctx.trans()
    const rnd = new Uint8Array(len); rnd[r] = 1
    const diff = [...share(rnd).keys()].filter((b, _, all) => share(rnd)[b] !== zero[b])
    if (diff.length !== 1 || moved.has(diff[0])) ctx.violation('secrecy:shared', `2 of 2, ${len} bytes: random byte ${r} changes the bytes ${diff} of a share`)
    moved.set(diff[0], r)
  }
  ctx.state(['long', len])
}

async function formats(u, ctx) {
  const S = ctx.nb.shamir
  const lens = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 31, 32, 33, 255, 256, 257, 300]
  const seen = new Map()
  for (const x of u.xs) for (const [k, n] of [[2, 2], [2, 3], [3, 255], [255, 255], [17, 40]]) for (const len of lens) for (const fill of [0, 255, 'i']) {
    ctx.exec(); ctx.trans()
    const share = { x, k, n, y: Uint8Array.from({ length: len }, (_, i) => (fill === 'i' ? (i * 29 + x) & 255 : fill)) }
    const eq = (s) => s.x === x && s.k === k && s.n === n && hex(s.y) === hex(share.y)
    const label = `share ${x} (${k} of ${n}, ${len} bytes ${fill})`
    const b = S.encodeShareBytes(share)
    if (!eq(S.decodeShareBytes(b))) ctx.violation('format:bytes', `${label} changes through bytes`)
    const str = S.encodeShareBase32(share)
    const id = hex(b); if (seen.has(str) && seen.get(str) !== id) ctx.violation('format:same', `${label}: two shares have the text ${str}`); seen.set(str, id)
    const bare = str.slice(str.lastIndexOf('__') + 2)
    for (const [how, v] of [['as is', str], ['lower case', str.toLowerCase()], ['without hyphens', str.replace(/-/g, '')], ['bare', bare], ['bare lower', bare.toLowerCase()], ['spaced', str.replace(/-/g, ' ')], ['broken over lines', `\n ${bare.replace(/-/g, '-\n\t')} \r\n`], ['each character apart', [...bare].join(' ')]]) {
      const r = await attempt(async () => S.decodeShareBase32(v))
      if (!r.ok || !eq(r.val)) ctx.violation(`format:base32:${how}`, `${label} changes through Base32 ${how}: ${r.ok ? canon([r.val.x, r.val.k, r.val.n, hex(r.val.y).slice(0, 40)]) : errName(r)}`)
    }
    const js = S.encodeShareJSON(share)
    if (!eq(S.decodeShareJSON(js)) || !eq(S.decodeShareJSON(JSON.parse(JSON.stringify(js))))) ctx.violation('format:json', `${label} changes through JSON`)
    if (len <= 10 && fill === 'i') {
      for (let c = 0; c < b.length; c++) { const r = await attempt(async () => S.decodeShareBytes(b.slice(0, c))); if (r.ok) ctx.violation('format:cut', `${label} cut to ${c} bytes decodes`) }
      for (const ext of [1, 2, 5]) { const r = await attempt(async () => S.decodeShareBytes(Uint8Array.from([...b, ...new Array(ext).fill(7)]))); if (r.ok) ctx.violation('format:long', `${label} with ${ext} more bytes decodes`) }
      for (let v = 0; v < 256; v++) {
        const r = await attempt(async () => S.decodeShareBytes(Uint8Array.from([v, ...b.slice(1)])))
        if (r.ok !== (v === b[0])) ctx.violation('format:version', `${label} with version byte ${v}: ${errName(r)}`)
        const j = await attempt(async () => S.decodeShareJSON({ ...js, v }))
        if (j.ok !== (v === js.v)) ctx.violation('format:version', `${label} with JSON version ${v}: ${errName(j)}`)
      }
      const z = await attempt(async () => S.decodeShareBytes(Uint8Array.from([b[0], 0, ...b.slice(2)]))); if (z.ok) ctx.violation('format:zero', `${label} with x = 0 decodes`)
    }
  }
}

async function kek(ctx) {
  const S = ctx.nb.shamir, sub = globalThis.crypto.subtle
  const data = new TextEncoder().encode('wrapped'), iv = new Uint8Array(12)
  for (const [k, n] of [[2, 2], [2, 3], [3, 3], [3, 5], [5, 5]]) for (const form of ['raw', 'base32', 'json', 'bytes']) {
    ctx.exec(); resetWorld(1)
    const raw = Uint8Array.from({ length: 32 }, (_, i) => i * 7 + k)
    const key = await sub.importKey('raw', raw, { name: 'AES-GCM', length: 256 }, true, ['encrypt', 'decrypt'])
    const sealed = await sub.encrypt({ name: 'AES-GCM', iv }, key, data)
    const conv = { raw: (s) => s, base32: (s) => S.decodeShareBase32(S.encodeShareBase32(s)), json: (s) => S.decodeShareJSON(JSON.parse(JSON.stringify(S.encodeShareJSON(s)))), bytes: (s) => S.decodeShareBytes(S.encodeShareBytes(s)) }[form]
    const shares = (await S.splitKEK(key, { k, n })).map(conv)
    for (let size = 1; size <= n; size++) for (const v of subsets(n, size)) {
      ctx.trans()
      const r = await attempt(() => S.combineKEK(v.map((i) => shares[i])))
      if (size < k) { if (r.ok) ctx.violation('kek:few', `${k} of ${n}: ${size} shares give a key`); continue }
      const o = r.ok ? await attempt(async () => new TextDecoder().decode(await sub.decrypt({ name: 'AES-GCM', iv }, r.val, sealed))) : r
      if (!o.ok || o.val !== 'wrapped') ctx.violation('kek:wrong', `${k} of ${n} through ${form}: the key from shares ${v} does not open what the original sealed`)
      if (r.ok && r.val.extractable) ctx.violation('kek:extractable', 'the combined key is extractable')
    }
    const locked = await sub.importKey('raw', raw, { name: 'AES-GCM', length: 256 }, false, ['encrypt', 'decrypt'])
    const r = await attempt(() => S.splitKEK(locked, { k, n })); if (r.ok) ctx.violation('kek:locked', 'a non-extractable key is split')
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of all random choices (perfect secrecy counted, not estimated), of all subsets and orders of shares, of the whole field, and of share encodings',
  rule: 'k or more shares give exactly the secret; the views of fewer are uniform over all random choices',
  modules: { shamir: '@noy-db/on-shamir' },
  bounds: (t) => `all 65536 field pairs; all subsets of shares for n up to ${t === 'quick' ? 6 : 8} and all pairs for n = 255; all 256^(k-1) random choices for k = 2 (every secret byte), two-byte secrets, and k = 3 (${t === 'quick' ? 2 : 16} secrets); share x 1..255 in every encoding`,
  assumptions: ['crypto.getRandomValues is uniform', 'shares of different enrolments with equal length are not told apart (documented)'],
  units(tier) {
    const q = tier === 'quick', out = [{ kind: 'field' }, { kind: 'large' }, { kind: 'kek' }]
    for (let n = 2; n <= (q ? 6 : 8); n++) out.push({ kind: 'combine', n })
    for (let s = 0; s < 256; s += 32) out.push({ kind: 'secrecy', k: 2, n: 4, len: 1, secrets: Array.from({ length: 32 }, (_, i) => [s + i]) })
    for (const s of q ? [[0, 0], [0x53, 0xca]] : [[0, 0], [0x53, 0xca], [255, 1], [1, 255]]) out.push({ kind: 'secrecy', k: 2, n: 2, len: 2, secrets: [s] })
    for (let s = 0; s < (q ? 2 : 16); s++) out.push({ kind: 'secrecy', k: 3, n: 4, len: 1, secrets: [[(s * 83) & 255]] })
    for (const len of [16, 31, 32, 33, 48, 64, 65, 130]) out.push({ kind: 'longSecrecy', len })
    for (let x = 1; x <= 255; x += 16) out.push({ kind: 'formats', xs: (q ? [0, 7] : Array.from({ length: 16 }, (_, i) => i)).map((d) => Math.min(255, x + d)) })
    return out
  },
  async runUnit(u, ctx) {
    return { field, large, kek, combine: () => combine(u, ctx), secrecy: () => secrecy(u, ctx), longSecrecy: () => longSecrecy(u, ctx), formats: () => formats(u, ctx) }[u.kind](ctx)
  },
}
