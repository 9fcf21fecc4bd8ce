// P24 — a bundle-backed store keeps every acknowledged write, on any number of devices.
import { exploreAll, canon, same, sequences } from '../lib/explore.mjs'
import { attempt, errName } from '../lib/noy.mjs'
import { Sched } from '../lib/stores.mjs'
import { resetWorld, settle, W } from '../lib/world.mjs'

const V = 'acme-vault', V2 = 'globex-vault'
const clone = (x) => JSON.parse(JSON.stringify(x))
const env = (v, ts, tag) => ({ _noydb: 1, _v: v, _ts: new Date(Date.UTC(2026, 0, 1) + ts * 1000).toISOString(), _iv: 'iv', _data: tag })

/** Backends. Each: front(hook) → a NoydbBundleStore for one device; all fronts share the state. */
const BACKENDS = {
  ideal(nb) {
    const m = new Map(); let rev = 0
    const ops = {
      readBundle: (v) => (m.has(v) ? { bytes: new Uint8Array(m.get(v).bytes), version: m.get(v).version } : null),
      writeBundle: (v, b, exp) => {
        const cur = m.get(v)?.version ?? null
        if (cur !== exp) throw new nb.hub.BundleVersionConflictError(`expected ${exp}, found ${cur}`)
        const version = `r${++rev}`
        m.set(v, { bytes: new Uint8Array(b), version })
        return { version }
      },
      deleteBundle: (v) => { m.delete(v) },
      listBundles: () => [...m].map(([vaultId, x]) => ({ vaultId, version: x.version, size: x.bytes.length })),
    }
    return { front: (hook) => ({ kind: 'bundle', name: 'ideal', ...Object.fromEntries(Object.entries(ops).map(([k, f]) => [k, async (...a) => hook(k, a, () => f(...a))])) }) }
  },
  drive(nb) {
    const files = new Map(); let n = 0
    const meta = (id) => { const f = files.get(id); return f ? { id, name: f.name, headRevisionId: `rev${f.rev}`, size: f.bytes.length } : null }
    const ops = {
      createFile: (r) => { const id = `f${++n}`; files.set(id, { name: r.name, bytes: new Uint8Array(r.bytes), rev: 1 }); return meta(id) },
      updateFile: (id, r) => {
        const f = files.get(id)
        if (!f) throw new Error('not found')
        if (r.expectedRevision !== undefined && r.expectedRevision !== null && r.expectedRevision !== `rev${f.rev}`) throw new nb.hub.BundleVersionConflictError('revision mismatch')
        f.bytes = new Uint8Array(r.bytes); f.rev++
        return meta(id)
      },
      getFileMetadata: (id) => meta(id),
      getFileBytes: (id) => (files.has(id) ? new Uint8Array(files.get(id).bytes) : null),
      deleteFile: (id) => { files.delete(id) },
      listFiles: () => [...files.keys()].map(meta),
    }
    const handles = nb.drive.memoryHandleStore()
    return { front: (hook) => nb.drive.drive({ handles, drive: Object.fromEntries(Object.entries(ops).map(([k, f]) => [k, async (...a) => hook(k, a, () => f(...a))])) }), names: () => [...files.values()].map((f) => f.name) }
  },
  icloud(nb) {
    const files = new Map(); let t = 0
    const ops = {
      readFile: (p) => (files.has(p) ? new Uint8Array(files.get(p).bytes) : null),
      writeFile: (p, b) => { files.set(p, { bytes: new Uint8Array(b), mtimeMs: ++t }) },
      unlink: (p) => { files.delete(p) },
      readdir: (d) => [...files.keys()].filter((p) => p.startsWith(`${d}/`)).map((p) => p.slice(d.length + 1)),
      stat: (p) => (files.has(p) ? { mtimeMs: files.get(p).mtimeMs, size: files.get(p).bytes.length } : null),
    }
    files.set('/cloud/other (conflicted copy 2026).noydb', { bytes: new Uint8Array(1), mtimeMs: 0 })
    return { front: (hook) => nb.icloud.icloud({ folder: '/cloud', fs: Object.fromEntries(Object.entries(ops).map(([k, f]) => [k, async (...a) => hook(k, a, () => f(...a))])) }) }
  },
}

/** Model: a device's copy, the last bundle it knows, and the bundle. Maps of 'coll/id' (JSON) → canonical envelope. */
const K = (c, i) => JSON.stringify([c, i])
class Model {
  constructor(n) { this.dev = Array.from({ length: n }, () => null); this.remote = null; this.rev = 0 }
  load(d) { if (!this.dev[d]) this.dev[d] = { cur: new Map(this.remote?.m ?? []), base: new Map(this.remote?.m ?? []), rev: this.remote?.rev ?? null } ; return this.dev[d] }
  flush(d) {
    const x = this.load(d)
    if ((this.remote?.rev ?? null) !== x.rev) {
      const r = this.remote.m, out = new Map(r), eq = (a, b) => canon(a ?? null) === canon(b ?? null)
      for (const k of new Set([...x.cur.keys(), ...x.base.keys()])) {
        const b = x.base.get(k), l = x.cur.get(k), o = r.get(k)
        if (eq(l, b)) continue
        if (eq(o, b)) l ? out.set(k, l) : out.delete(k)
        else if (l && (!o || l._ts >= o._ts)) out.set(k, l)
      }
      x.cur = out
    }
    this.remote = { m: new Map(x.cur), rev: ++this.rev }
    x.rev = this.rev; x.base = new Map(x.cur)
  }
}
const snapOf = (map, keep = () => true) => { const o = Object.create(null); for (const [k, e] of map) { const [c, i] = JSON.parse(k); if (keep(c)) (o[c] ??= Object.create(null))[i] = e } return o }
const flat = (snap) => Object.keys(snap).flatMap((c) => Object.keys(snap[c]).map((i) => `${c}/${i}=${canon(snap[c][i])}`)).sort()

const passthru = (m, a, f) => f()
function mk(nb, backend, n, opts, hook = passthru) {
  const b = BACKENDS[backend](nb)
  const open = (d) => nb.store.wrapBundleStore(b.front((m, a, f) => hook(m, a, f, d)), opts)
  return { b, open, dev: Array.from({ length: n }, (_, d) => open(d)) }
}
/** the internal collection each backend's histories use */
const INTERNAL = { ideal: '_sync', drive: '_keyring', icloud: '_meta' }
const NAMES = [['inv', 'a'], ['inv', 'b'], ['_keyring', 'u'], ['constructor', '__proto__'], ['__proto__', 'a']]
/** Operations of one device. */
const devOps = (d, names) => [
  ...names.flatMap(([c, i]) => [{ t: 'put', d, c, i, k: `${d}:put ${c}/${i}` }, { t: 'del', d, c, i, k: `${d}:del ${c}/${i}` }]),
]
const ONE = [
  ...NAMES.flatMap(([c, i]) => [{ t: 'put', d: 0, c, i, k: `put ${c}/${i}` }, { t: 'del', d: 0, c, i, k: `del ${c}/${i}` }]),
  { t: 'put', d: 0, c: 'inv', i: 'a', exp: 'ok', k: 'cas a' }, { t: 'put', d: 0, c: 'inv', i: 'a', exp: 'bad', k: 'badcas a' },
  { t: 'save', d: 0, k: 'saveAll' }, { t: 'flush', d: 0, k: 'flush' }, { t: 'reopen', d: 0, k: 'reopen' },
  { t: 'batch', d: 0, k: 'batch' }, { t: 'batch', d: 0, fail: true, k: 'failing batch' }, { t: 'other', d: 0, k: 'put in V2 during a batch of V' },
]
const TWO = [...devOps(0, [['inv', 'a'], ['inv', 'b']]), ...devOps(1, [['inv', 'a'], ['inv', 'b']]), { t: 'flush', d: 0, k: '0:flush' }, { t: 'flush', d: 1, k: '1:flush' }]

async function apply(sys, m, op, n, auto) {
  const s = sys.dev[op.d], x = m.load(op.d), at = K(op.c, op.i)
  const fl = () => { if (auto) m.flush(op.d) }
  switch (op.t) {
    case 'put': {
      const cur = x.cur.get(at), e = env((cur?._v ?? 0) + 1, op.ts ?? n, `d${op.d}${n}`)
      const exp = op.exp === 'ok' ? cur?._v ?? 0 : op.exp === 'bad' ? (cur?._v ?? 0) + 3 : undefined
      const r = await attempt(() => s.put(V, op.c, op.i, e, ...(exp === undefined ? [] : [exp])))
      if (op.exp === 'bad') return r.err instanceof sys.hub.ConflictError ? null : `put expecting a wrong version: ${errName(r)}`
      x.cur.set(at, e); fl()
      return r.ok ? null : `put failed: ${r.err.message}`
    }
    case 'del': { const had = x.cur.has(at); x.cur.delete(at); const r = await attempt(() => s.delete(V, op.c, op.i)); let r2 = r; if (auto && !had && r.ok) r2 = await attempt(() => s.flush(V)) /* whether deleting nothing writes is open */; fl(); return r2.ok ? null : `delete failed: ${r2.err.message}` }
    case 'save': {
      const snap = { inv: { b: env(7, n, `s${n}`) }, other: { z: env(1, n, `z${n}`) } }
      for (const k of [...x.cur.keys()]) if (!JSON.parse(k)[0].startsWith('_')) x.cur.delete(k)
      for (const c of Object.keys(snap)) for (const i of Object.keys(snap[c])) x.cur.set(K(c, i), snap[c][i])
      const r = await attempt(() => s.saveAll(V, clone(snap))); m.flush(op.d)
      return r.ok ? null : `saveAll failed: ${r.err.message}`
    }
    case 'flush': { const r = await attempt(() => s.flush(V)); m.flush(op.d); return r.ok ? null : `flush failed: ${r.err.message}` }
    case 'reopen': { sys.dev[op.d] = sys.open(op.d); m.dev[op.d] = null; return null }
    case 'batch': {
      const e1 = env(1, n, `b${n}`), e2 = env(2, n, `c${n}`)
      const r = await attempt(() => s.batch(V, async () => { await s.put(V, 'inv', 'a', e1); await s.put(V, 'inv', 'b', e2); await s.delete(V, '_keyring', 'u'); if (op.fail) throw new Error('mine') }))
      x.cur.set(K('inv', 'a'), e1); x.cur.set(K('inv', 'b'), e2); x.cur.delete(K('_keyring', 'u')); m.flush(op.d)
      return op.fail ? (r.err?.message === 'mine' ? null : `batch: ${errName(r)}`) : r.ok ? null : `batch failed: ${r.err.message}`
    }
    case 'other': {
      // a batch of one vault leaves writes to another vault as durable as ever
      let seen = null
      const e = env(1, n, `o${n}`)
      await s.batch(V, async () => { await s.put(V2, 'c', 'x', e); if (auto) seen = await sys.fresh().get(V2, 'c', 'x') })
      m.flush(op.d)
      return auto && canon(seen) !== canon(e) ? `a put to V2 inside a batch of V is not written: ${canon(seen)}` : null
    }
  }
}
async function view(s) {
  const out = Object.create(null)
  for (const c of ['inv', 'other', '_keyring', '_sync', '_meta', 'constructor', '__proto__', 'toString']) for (const i of await s.list(V, c)) (out[c] ??= Object.create(null))[i] = await s.get(V, c, i)
  return out
}
async function observe(sys, m, d, durable) {
  const s = sys.dev[d], x = m.load(d)
  const want = flat(snapOf(x.cur)), got = flat(await view(s))
  if (!same(want, got)) return `device ${d} reads ${got}, expected ${want}`
  for (const [c, i] of [...NAMES, ['inv', 'constructor'], ['toString', 'x']]) { const g = canon(await s.get(V, c, i)), w = canon(x.cur.get(K(c, i)) ?? null); if (g !== w) return `get(${c}/${i}) is ${g}, expected ${w}` }
  const all = flat(await s.loadAll(V)), wall = flat(snapOf(x.cur, (c) => !c.startsWith('_')))
  if (!same(all, wall)) return `loadAll gives ${all}, expected ${wall}`
  if (durable) {
    const r = flat(await view(sys.fresh())), w = flat(snapOf(m.remote?.m ?? new Map()))
    if (!same(r, w)) return `a new device reads ${r}, expected ${w}`
  }
  return null
}
async function histories(ctx, u) {
  const { nb } = ctx, ops = u.kind === 'one' ? ONE : TWO, n = u.kind === 'one' ? 1 : 2
  for (const rest of sequences(ops.length, u.len - 1)) {
    const hist = [u.f, ...rest].map((i) => (ops[i].c === '_keyring' ? { ...ops[i], c: INTERNAL[u.b] } : ops[i]))
    for (const ts of u.kind === 'two' ? ['up', 'down'] : ['up']) {
      ctx.exec(); resetWorld(1)
      await settle(async () => {
        const sys = mk(nb, u.b, n, u.auto ? undefined : { autoFlush: false })
        sys.hub = nb.hub; sys.fresh = () => nb.store.wrapBundleStore(sys.b.front(passthru))
        const m = new Model(n)
        let bad = null
        for (const [i, op] of hist.entries()) { bad = await apply(sys, m, { ...op, ts: ts === 'down' ? 100 - i : i }, i, u.auto); ctx.trans(); if (bad) break; if (u.kind === 'one') { bad = await observe(sys, m, 0, u.auto); if (bad) break } }
        if (!bad) for (let d = 0; d < n && !bad; d++) bad = await observe(sys, m, d, true)
        // once everyone has written once more, all is in the bundle
        if (!bad) { for (let d = 0; d < n; d++) { await sys.dev[d].flush(V); m.flush(d) } bad = await observe(sys, m, n - 1, true) }
        if (!bad && sys.b.names && sys.b.names().some((x) => x.includes(V))) bad = `the file name ${sys.b.names()} reveals the vault`
        ctx.state([u.b, u.auto, flat(snapOf(m.remote?.m ?? new Map())).length, m.dev.map((x) => x && [...x.cur.keys()].sort())])
        if (bad) ctx.violation(`${u.b}:${u.kind}:${u.auto ? 'auto' : 'manual'}:${bad.replace(/[[{].*$/s, '').replace(/[^a-zA-Z]+/g, '-').slice(0, 40)}:${hist[hist.length - 1].k}`, `${u.b}${u.auto ? '' : ' without autoFlush'}${ts === 'down' ? ', later writes carrying earlier times' : ''}: ${hist.map((o) => o.k).join('; ')}: ${bad}`)
        else ctx.sample({ backend: u.b, history: hist.map((o) => o.k) })
      })
    }
  }
}
/** One backend call fails during one operation; afterwards nothing acknowledged is missing and a later write makes all of it durable. */
async function faults(ctx, u) {
  const { nb } = ctx
  const ops = ONE.filter((o) => ['put', 'del', 'save', 'batch', 'flush'].includes(o.t) && o.exp !== 'bad' && !['constructor', '__proto__'].includes(o.c))
  const pre = ONE.filter((o) => ['put', 'del'].includes(o.t) && ['inv', '_keyring'].includes(o.c) && o.exp !== 'bad')
  for (const first of [null, 'other device', 'reopened']) for (const p of pre) for (const op of ops) for (const kind of ['before', 'after']) for (let k = 1; k < 12; k++) {
    ctx.exec(); resetWorld(1)
    let hit = false
    await settle(async () => {
      let on = false, n = 0
      const sys = mk(nb, u.b, 2, undefined, async (m, a, f) => {
        if (!on || ++n !== k) return f()
        hit = true
        if (kind === 'after') await f()
        throw new Error('backend down')
      })
      sys.hub = nb.hub; sys.fresh = () => nb.store.wrapBundleStore(sys.b.front(passthru))
      const m = new Model(2)
      await apply(sys, m, p, 0, true)
      if (first === 'other device') await apply(sys, m, { t: 'put', d: 1, c: 'inv', i: 'y' }, 1, true)
      if (first === 'reopened') await apply(sys, m, { t: 'reopen', d: 0 }, 1, true)
      const before = flat(snapOf(m.remote?.m ?? new Map()))
      on = true
      const bad = await apply(sys, m, op, 2, true)
      on = false
      if (!hit) return
      ctx.trans()
      const key = `fault:${u.b}:${first ?? ''}:${p.k}:${op.k}`, what = `${u.b}: ${p.k}${first ? `, ${first}` : ''}, then ${op.k} with backend call ${k} failing (${kind} it took effect)`
      const after = flat(snapOf(m.remote?.m ?? new Map()))
      const now = flat(await view(sys.fresh()))
      if (!bad && !same(now, after)) return ctx.violation(key, `${what} reports success but a new device reads ${now}, expected ${after}`)
      const touched = (x) => op.t === 'save' || op.t === 'batch' || x.startsWith(`${op.c}/${op.i}=`)
      const keep = before.filter((x) => !touched(x))
      for (const x of keep) if (!now.includes(x)) return ctx.violation(key, `${what}: ${x} is gone`)
      for (const x of now) if (!before.includes(x) && !after.includes(x)) return ctx.violation(key, `${what}: ${x} appears`)
      // the next write goes through and brings everything the device holds
      const e = env(1, 9, 'fin')
      const r = await attempt(() => sys.dev[0].put(V, 'fin', 'x', e))
      if (!r.ok) return ctx.violation(`${key}:next`, `${what}: the next put fails: ${r.err.message}`)
      const mine = flat(await view(sys.dev[0])), all = flat(await view(sys.fresh()))
      if (!same(mine, all)) return ctx.violation(`${key}:next`, `${what}: after another put the device reads ${mine}, a new one ${all}`)
      for (const x of keep) if (!all.includes(x)) return ctx.violation(`${key}:next`, `${what}: after another put ${x} is gone`)
      const own = after.filter(touched), old = before.filter(touched), z = all.filter(touched)
      if (op.t !== 'batch' && !same(z, own) && !same(z, old)) ctx.violation(`${key}:next`, `${what}: after another put the device reads ${z}, expected ${own} or ${old}`)
    })
    if (!hit) break
  }
}
/** Two or three operations at once, on one or two devices, in every order of the backend's calls. */
async function races(ctx, u) {
  const { nb } = ctx
  const pairs = []
  const P = (d, c, i) => ({ t: 'put', d, c, i, k: `${d}:put ${c}/${i}` }), D = (d, c, i) => ({ t: 'del', d, c, i, k: `${d}:del ${c}/${i}` })
  const S = (d) => ({ t: 'save', d, k: `${d}:saveAll` }), B = (d) => ({ t: 'batch', d, k: `${d}:batch` }), G = (d, c, i) => ({ t: 'get', d, c, i, k: `${d}:get ${c}/${i}` }), F = (d) => ({ t: 'flush', d, k: `${d}:flush` })
  for (const e of [0, 1]) {
    pairs.push([P(0, 'inv', 'a'), P(e, 'inv', 'b')], [P(0, 'inv', 'a'), D(e, 'inv', 'b')], [D(0, 'inv', 'a'), D(e, 'inv', 'b')], [P(0, 'inv', 'a'), P(e, '_keyring', 'u')], [D(0, 'inv', 'a'), P(e, 'inv', 'b')], [P(0, 'inv', 'x'), B(e)], [F(0), P(e, 'inv', 'b')], [D(0, 'inv', 'x'), B(e)])
    if (!e) pairs.push([P(0, 'inv', 'a'), P(0, 'inv', 'b'), P(0, 'inv', 'c')], [D(0, 'inv', 'a'), P(0, 'inv', 'b'), D(0, 'inv', 'b2')], [P(0, '_keyring', 'k'), S(0)])
    else if (u.b === 'ideal') pairs.push([P(0, 'inv', 'a'), P(1, 'inv', 'b'), D(0, 'inv', 'b2')], [P(0, 'inv', 'a'), { t: 'seq', d: 1, k: '1:put inv/b, del inv/b' }])
  }
  for (const warm of u.warm) for (const ops of pairs) {
    const key = `race:${u.b}:${ops.map((o) => o.k).join('|')}`
    const two = ops.some((o) => o.d === 1)
    // only the ideal backend compares and writes in one step, so only there may two devices write at once
    if (two && u.b !== 'ideal') continue
    const res = await exploreAll(async (ch) => {
      ctx.exec(); resetWorld(1)
      const sched = new Sched(nb.hub, ch, { preempt: u.preempt })
      let gate = false
      const sys = mk(nb, u.b, 2, undefined, (m, a, f, d) => (gate ? sched.call(`dev${d}`, m, a, f) : f()))
      sys.hub = nb.hub; sys.fresh = () => nb.store.wrapBundleStore(sys.b.front(passthru))
      const m = new Model(2)
      await settle(async () => {
        for (const [i, c] of [['a', 'inv'], ['b', 'inv'], ['b2', 'inv'], ['u', '_keyring']].entries()) await apply(sys, m, { t: 'put', d: 0, c: c[1], i: c[0] }, i, true)
        if (warm === 'cold') sys.dev = sys.dev.map((_, d) => sys.open(d))
        else if (two) await sys.dev[1].get(V, 'inv', 'a')
      })
      gate = true
      const done = []
      const tasks = await sched.run(ops.map((o, i) => [`T${i}`, async () => {
        const s = sys.dev[o.d], e = env(5, 50 + i, `t${i}`)
        if (o.t === 'put') { await s.put(V, o.c, o.i, e); done.push([K(o.c, o.i), e]) }
        else if (o.t === 'del') { await s.delete(V, o.c, o.i); done.push([K(o.c, o.i), null]) }
        else if (o.t === 'flush') await s.flush(V)
        else if (o.t === 'seq') { await s.put(V, 'inv', 'b', e); await s.delete(V, 'inv', 'b'); done.push([K('inv', 'b'), null]) }
        else if (o.t === 'save') { await s.saveAll(V, { inv: { z: e } }); done.push([K('inv', 'z'), e], [K('inv', 'a'), null], [K('inv', 'b'), null], [K('inv', 'b2'), null]) }
        else if (o.t === 'batch') { await s.batch(V, async () => { await s.put(V, 'inv', 'a', e); await s.put(V, 'inv', 'b', env(6, 60, 'bb')) }); done.push([K('inv', 'a'), e], [K('inv', 'b'), env(6, 60, 'bb')]) }
      }]))
      gate = false
      ctx.trans(sched.transitions)
      const what = `${u.b}${warm === 'cold' ? ', nothing loaded yet' : ''}: ${ops.map((o) => o.k).join(' || ')} [${sched.trace.map((x) => x.replace(/\(.*\)/, '')).join(' ')}]`
      const bad = tasks.find((t) => !t.ok)
      if (bad) return ctx.violation(`${key}:fails`, `${what}: ${bad.err?.message}`)
      await settle(async () => {
        const fresh = sys.fresh()
        const want = new Map(m.remote.m)
        for (const [k, e] of done) e ? want.set(k, e) : want.delete(k)
        const w = flat(snapOf(want)), g = flat(await view(fresh))
        if (!same(w, g)) return ctx.violation(`${key}:lost`, `${what}: a new device then reads ${g}, expected ${w}`)
        if (!two) { const mine = flat(await view(sys.dev[0])); if (!same(mine, w)) ctx.violation(`${key}:lost`, `${what}: the device then reads ${mine}, expected ${w}`) }
      })
    }, { maxExec: 20000 })
    if (!res.complete) ctx.capped(key)
  }
}

/** The backends themselves: a write naming an outdated version, or none when there is one, is refused and changes nothing. */
async function occ(ctx, b) {
  const { nb } = ctx
  const EV = ['w-cur', 'w-empty', 'w-old', 'w-null', 'w-bogus', 'delete', 'w2']
  for (const len of [1, 2, 3, 4]) for (const seq of sequences(EV.length, len)) {
    ctx.exec(); resetWorld(1)
    await settle(async () => {
      const sys = BACKENDS[b](nb), s = [sys.front(passthru), sys.front(passthru)]
      let cur = null, old = [], text = null
      const enc = (x) => new TextEncoder().encode(x)
      for (const [i, x] of seq.entries()) {
        const e = EV[x], f = s[i % 2], body = e === 'w-empty' ? '' : `body-${i}`
        const what = `${b}: ${seq.slice(0, i + 1).map((y) => EV[y]).join('; ')}`
        ctx.trans()
        if (e === 'delete') { await f.deleteBundle(V); cur = null; text = null; old = []; continue }
        if (e === 'w2') { const r = await f.readBundle(V2); await f.writeBundle(V2, enc('two'), r?.version ?? null); continue }
        const exp = e === 'w-cur' || e === 'w-empty' ? cur : e === 'w-old' ? old.at(-1) : e === 'w-null' ? null : 'bogus'
        if (exp === undefined || (exp !== null && cur === null)) continue // naming a version of a bundle that does not exist: not specified
        const r = await attempt(() => f.writeBundle(V, enc(body), exp))
        if (exp === cur) {
          if (!r.ok) return ctx.violation(`occ:${b}:refused`, `${what}: a write naming the current version is refused: ${r.err.message}`)
          if (cur !== null) old.push(cur)
          cur = r.val.version; text = body
        } else if (!(r.err instanceof nb.hub.BundleVersionConflictError)) return ctx.violation(`occ:${b}:accepted`, `${what}: a write naming ${exp} is accepted or fails otherwise (${errName(r)}), the version is ${cur}`)
        for (const g of s) {
          const rd = await g.readBundle(V)
          if ((rd ? new TextDecoder().decode(rd.bytes) : null) !== text || (rd?.version ?? null) !== cur) return ctx.violation(`occ:${b}:read`, `${what}: read gives ${rd ? `${new TextDecoder().decode(rd.bytes)} ${rd.version}` : null}, expected ${text} ${cur}`)
        }
        const l = (await f.listBundles()).filter((y) => y.vaultId === V)
        if (l.length !== (cur === null ? 0 : 1) || (l[0] && (l[0].version !== cur || l[0].size !== text.length))) return ctx.violation(`occ:${b}:list`, `${what}: listBundles gives ${canon(l)}`)
      }
    })
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of histories of one and two devices, backend failures and interleavings on the real bundle wrapper and bundle stores against a three-way-merge model',
  rule: 'a bundle-backed store is a map; what was acknowledged is in the bundle; merging keeps the changes of both sides',
  modules: { hub: '@noy-db/hub', store: '@noy-db/hub/store', drive: 'packages/to-drive/src/index.ts', icloud: 'packages/to-icloud/src/index.ts' },
  bounds: (t) => `3 bundle stores; one device: all histories of ${t === 'quick' ? 3 : 4} operations of ${ONE.length} with and without autoFlush; two devices: all histories of ${t === 'quick' ? 4 : 5} operations of ${TWO.length}, times increasing and decreasing; every backend call of every operation failing once; interleavings of two and three operations (preemption bound ${t === 'quick' ? 3 : 6})`,
  assumptions: ['Drive and iCloud are stand-ins: revisions change with every write, file times differ', 'two devices write at the same moment only on a backend that compares and writes in one step', 'a record changed on both sides: the later _ts wins, an edit beats a deletion', 'a put naming a version of an absent record is not claimed'],
  units(tier) {
    const q = tier === 'quick', out = []
    for (const b of ['ideal', 'drive', 'icloud']) {
      for (const auto of [true, false]) for (let f = 0; f < ONE.length; f++) out.push({ kind: 'one', b, auto, f, len: q && b !== 'ideal' ? 2 : q ? 3 : 4 })
      for (const auto of [true, false]) for (let f = 0; f < TWO.length; f++) out.push({ kind: 'two', b, auto, f, len: q ? (b === 'ideal' ? 4 : 3) : 5 })
      out.push({ kind: 'fault', b })
      for (const w of ['warm', 'cold']) out.push({ kind: 'race', b, warm: [w], preempt: q ? 3 : 6 })
      out.push({ kind: 'occ', b })
    }
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'fault') return faults(ctx, u)
    if (u.kind === 'race') return races(ctx, u)
    if (u.kind === 'occ') return occ(ctx, u.b)
    return histories(ctx, u)
  },
}
