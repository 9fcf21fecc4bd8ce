// Stateless exhaustive exploration: every nondeterministic decision of an
// execution is taken through choose(); executions are replayed from scratch
// with an incremented decision prefix until the whole tree is covered.
export class Choices {
  constructor(prefix = []) { this.prefix = prefix; this.trace = []; this.labels = [] }
  choose(n, label) {
    if (n <= 0) throw new Error('choose(0)')
    const i = this.trace.length
    const v = i < this.prefix.length ? this.prefix[i] : 0
    if (v >= n) throw new Error(`replay divergence at decision ${i}: ${v} >= ${n} (${label})`)
    this.trace.push(v)
    this.labels.push(label)
    ;(this.ns ??= []).push(n)
    return v
  }
  /** smallest prefix strictly after this execution, or null when exhausted */
  successor(fixed = 0) {
    for (let i = this.trace.length - 1; i >= fixed; i--) {
      if (this.trace[i] + 1 < this.ns[i]) return [...this.trace.slice(0, i), this.trace[i] + 1]
    }
    return null
  }
}

/** Explore all executions of run(choices). Returns {executions, complete}. */
export async function exploreAll(run, { maxExec = Infinity, prefix = [] } = {}) {
  let next = prefix
  let n = 0
  while (next) {
    if (n >= maxExec) return { executions: n, complete: false }
    const c = new Choices(next)
    const stop = await run(c)
    n++
    if (stop === 'stop') return { executions: n, complete: false }
    next = c.successor(prefix.length)
  }
  return { executions: n, complete: true }
}

/** All sequences over alphabet of length exactly n, as index arrays (lazy). */
export function* sequences(k, n) {
  const a = new Array(n).fill(0)
  if (n === 0) { yield []; return }
  for (;;) {
    yield a.slice()
    let i = n - 1
    while (i >= 0 && a[i] === k - 1) { a[i] = 0; i-- }
    if (i < 0) return
    a[i]++
  }
}
export function* subsets(arr, size) {
  const n = arr.length
  const go = function* (start, acc) {
    if (acc.length === size) { yield acc.slice(); return }
    for (let i = start; i < n; i++) { acc.push(arr[i]); yield* go(i + 1, acc); acc.pop() }
  }
  yield* go(0, [])
}
export function* product(...lists) {
  if (lists.length === 0) { yield []; return }
  const [h, ...t] = lists
  for (const x of h) for (const r of product(...t)) yield [x, ...r]
}

/** FNV-1a over a canonical string, 64 bits as two 32-bit lanes. */
export function hash(s) {
  let a = 0x811c9dc5, b = 0xcbf29ce4
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i)
    a = Math.imul(a ^ c, 0x01000193)
    b = Math.imul(b ^ (c + 0x9e37), 0x01000193) ^ (b >>> 13)
  }
  return (a >>> 0).toString(36) + '.' + (b >>> 0).toString(36)
}
export function canon(v) {
  if (v === undefined) return 'undefined'
  if (v === null || typeof v !== 'object') return typeof v === 'bigint' ? `${v}n` : Object.is(v, -0) ? '-0' : JSON.stringify(v)
  if (v instanceof Date) return `D(${v.getTime()})`
  if (v instanceof Uint8Array) return `U8(${Buffer.from(v).toString('hex')})`
  if (v instanceof Map) return `M${canon([...v.entries()].sort((x, y) => (canon(x[0]) < canon(y[0]) ? -1 : 1)))}`
  if (v instanceof Set) return `S${canon([...v].map(canon).sort())}`
  if (Array.isArray(v)) return `[${v.map(canon).join(',')}]`
  return `{${Object.keys(v).sort().map((k) => `${JSON.stringify(k)}:${canon(v[k])}`).join(',')}}`
}
export const same = (a, b) => canon(a) === canon(b)
