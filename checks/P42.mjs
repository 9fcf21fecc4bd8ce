// P42 — a store reached through a peer channel behaves as the store itself.
import { resetWorld, settle, advance, drain, W } from '../lib/world.mjs'
import { exploreAll, canon, same, sequences, subsets } from '../lib/explore.mjs'
import { Data, plainStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName, PASS } from '../lib/noy.mjs'

const show = (x) => { const s = canon(x) ?? String(x); return s.length > 200 ? s.slice(0, 200) + '…' : s }
const tick = async (n = 12) => { for (let i = 0; i < n; i++) await null }

// ── stand-ins: BroadcastChannel, RTCDataChannel, RTCPeerConnection ──────────
class Emitter {
  l = new Map()
  addEventListener(k, f) { if (!this.l.has(k)) this.l.set(k, new Set()); this.l.get(k).add(f) }
  removeEventListener(k, f) { this.l.get(k)?.delete(f) }
  fire(k, ev = {}) { for (const f of [...(this.l.get(k) ?? [])]) f(ev) }
}
class FakeBC extends Emitter {
  static all = []
  constructor(name) { super(); this.name = name; this.open = true; FakeBC.all.push(this) }
  postMessage(data) {
    if (!this.open) throw new Error('InvalidStateError')
    for (const o of FakeBC.all) if (o !== this && o.name === this.name) queueMicrotask(() => { if (o.open) o.fire('message', { data }) })
  }
  close() { this.open = false }
}
class FakeDC extends Emitter {
  readyState = 'open'
  send(p) { if (this.readyState !== 'open') throw new Error('InvalidStateError'); const o = this.peer; queueMicrotask(() => { if (o.readyState === 'open') o.fire('message', { data: p }) }) }
  close() { for (const d of [this, this.peer]) if (d.readyState !== 'closed') { d.readyState = 'closed'; queueMicrotask(() => d.fire('close')) } }
}
const dcPair = () => { const a = new FakeDC(), b = new FakeDC(); a.peer = b; b.peer = a; return [a, b] }
const withTabs = async (fn) => { FakeBC.all = []; const was = globalThis.BroadcastChannel; globalThis.BroadcastChannel = FakeBC; try { return await fn() } finally { globalThis.BroadcastChannel = was } }
/** [client channel, server channel, underlying] */
const PAIRS = {
  pair: (nb) => nb.peer.pairInMemory(),
  data: (nb) => { const [a, b] = dcPair(); return [nb.peer.fromDataChannel(a), nb.peer.fromDataChannel(b), a, b] },
  tabs: (nb) => [nb.tabs.tabsChannel({ name: 'n' }), nb.tabs.tabsChannel({ name: 'n' })],
}

// ── histories of contract calls ─────────────────────────────────────────────
const env = (v, tag) => ({ _noydb: 1, _v: v, _ts: `2026-01-01T00:00:0${v}.000Z`, _iv: 'aXY=', _data: `"${tag}\\ é "`, _by: 'u' })
const CALLS = []
for (const id of ['a', '__proto__']) {
  CALLS.push(['put', 'V', 'c', id, env(1, 'one')], ['put', 'V', 'c', id, env(2, 'two'), 1], ['put', 'V', 'c', id, env(3, 'three'), 0], ['get', 'V', 'c', id], ['delete', 'V', 'c', id])
}
CALLS.push(['put', 'V', '_meta', 'k', { ...env(1, 'm'), _tier: 1, _det: { f: 'x:y' } }], ['list', 'V', 'c'], ['loadAll', 'V'], ['saveAll', 'V', { d: { z: env(1, 'z') } }], ['put', 'W', 'c', 'a', env(7, 'w')], ['ping'])
const norm = (x) => (x === undefined ? null : x)
async function unitMap(u, ctx) {
  const { nb } = ctx
  await withTabs(async () => {
    for (const h of sequences(CALLS.length, u.len)) {
      if (h[0] !== u.first) continue
      resetWorld(1)
      const d1 = new Data(), d2 = new Data()
      const direct = plainStore(nb.hub, d1), served = plainStore(nb.hub, d2)
      FakeBC.all = []
      const [c, s] = PAIRS[u.ch](nb)
      const stop = nb.peer.servePeerStore({ channel: s, store: served })
      const far = nb.peer.peerStore({ channel: c })
      ctx.exec()
      for (const i of h) {
        const [m, ...args] = CALLS[i]
        const want = m === 'ping' ? { ok: true, val: true } : await attempt(() => direct[m](...structuredClone(args)))
        const got = await attempt(() => settle(() => far[m](...structuredClone(args))))
        const say = (k, what) => ctx.violation(`map:${k}`, `${u.ch}: ${h.map((x) => CALLS[x][0]).join(', ')}: ${m}(${args.slice(0, 3)}${m === 'put' ? ', v' + args[3]._v + ', expecting ' + args[4] : ''}) ${what}`, { ...u, calls: h })
        if (want.ok !== got.ok) say('outcome', got.ok ? `succeeds instead of ${errName(want)}` : `fails: ${got.err?.name} ${got.err?.message}`)
        else if (!want.ok) {
          if (!(got.err instanceof want.err.constructor) || got.err.message !== want.err.message || got.err.version !== want.err.version) say('error', `fails with ${got.err?.name} ${got.err?.message} ${got.err?.version}`)
        } else if (m === 'get' || m === 'list' || m === 'loadAll' || m === 'ping' ? !same(norm(got.val), norm(want.val)) : got.val !== undefined) say('value', `gives ${show(got.val)} instead of ${show(want.val)}`)
        if (canon(d1.snapshot()) !== canon(d2.snapshot())) say('contents', 'leaves other contents')
        ctx.trans()
      }
      ctx.state(canon(d2.snapshot()))
      if ([...W.timers].length) ctx.violation('map:timers', `${u.ch}: timers left after answered calls`, u)
      stop(); far.dispose(); c.close(); s.close()
    }
  })
}

// ── overlapping calls, several clients ──────────────────────────────────────
const BODY = {
  gets: [['get', 'V', 'c', 'a'], ['get', 'V', 'c', 'b']],
  putGet: [['put', 'V', 'c', 'n', env(1, 'n')], ['get', 'V', 'c', 'a']],
  cas: [['put', 'V', 'c', 'a', env(2, 'x'), 1], ['put', 'V', 'c', 'a', env(2, 'y'), 1]],
  bad: [['put', 'V', 'c', 'a', env(2, 'x'), 9], ['put', 'V', 'c', 'n', env(1, 'y'), 0]],
  lists: [['list', 'V', 'c'], ['loadAll', 'V'], ['get', 'V', 'c', 'a']],
  three: [['delete', 'V', 'c', 'b'], ['get', 'V', 'c', 'a'], ['put', 'V', 'c', 'd', env(1, 'd')]],
}
async function unitConc(u, ctx) {
  const { nb } = ctx
  const r = await withTabs(() => exploreAll(async (ch) => {
    resetWorld(1, { tick: 0 })
    FakeBC.all = []
    const data = new Data()
    const plain = plainStore(nb.hub, data)
    await plain.put('V', 'c', 'a', env(1, 'A')); await plain.put('V', 'c', 'b', env(1, 'B'))
    const sched = new Sched(nb.hub, ch, { mode: u.mode, preempt: 9 })
    const slow = sched.store(data, 's')
    const calls = BODY[u.body]
    let clients, stop
    if (u.topo === 'one') { const [c, s] = PAIRS[u.ch](nb); stop = nb.peer.servePeerStore({ channel: s, store: slow }); const f = nb.peer.peerStore({ channel: c }); clients = calls.map(() => f) } else {
      stop = nb.peer.servePeerStore({ channel: nb.tabs.tabsChannel({ name: 'n' }), store: slow })
      clients = calls.map(() => nb.peer.peerStore({ channel: nb.tabs.tabsChannel({ name: 'n' }) }))
    }
    ctx.exec()
    const ts = await sched.run(calls.map(([m, ...args], i) => [`c${i}`, () => clients[i][m](...structuredClone(args))]))
    ctx.trans(sched.transitions)
    // some order of the calls on a plain store explains every answer and the contents
    const outcome = ts.map((t) => (t.ok ? canon(norm(t.val)) : `!${errName({ err: t.err })}`))
    const final = canon(data.snapshot())
    let fits = false
    const perms = (xs) => (xs.length < 2 ? [xs] : xs.flatMap((x, i) => perms([...xs.slice(0, i), ...xs.slice(i + 1)]).map((p) => [x, ...p])))
    for (const p of perms(calls.map((_, i) => i))) {
      const d = new Data(), st = plainStore(nb.hub, d)
      await st.put('V', 'c', 'a', env(1, 'A')); await st.put('V', 'c', 'b', env(1, 'B'))
      const out = []
      for (const i of p) { const [m, ...args] = calls[i]; const x = await attempt(() => st[m](...structuredClone(args))); out[i] = x.ok ? canon(norm(x.val)) : `!${errName(x)}` }
      if (same(out, outcome) && canon(d.snapshot()) === final) { fits = true; break }
    }
    if (!fits) ctx.violation(`conc:${u.topo}`, `${u.topo === 'one' ? u.ch : 'several tabs'}: overlapping ${u.body}: answers ${show(outcome)} fit no order of the calls (${sched.trace.slice(-12).join(' ')})`, { ...u, choices: ch.trail })
    ctx.state(canon([u.body, outcome]))
    stop(); for (const c of clients) c.dispose()
  }, { maxExec: 4000 }))
  if (!r.complete) ctx.capped('conc')
}

// ── what may be called ──────────────────────────────────────────────────────
const METHODS = { get: ['V', 'c', 'a'], put: ['V', 'c', 'n', env(1, 'n')], delete: ['V', 'c', 'a'], list: ['V', 'c'], loadAll: ['V'], saveAll: ['V', { d: { z: env(1, 'z') } }], ping: [], listPage: ['V', 'c', undefined, 10], listVaults: [], listSince: ['V', 'c', '2020-01-01'] }
const FOREIGN = ['tx', 'constructor', '__proto__', 'toString', 'dispose', 'GET', '']
async function unitAllow(u, ctx) {
  const { nb } = ctx
  const names = Object.keys(METHODS)
  const lists = [undefined, [], names, ...names.map((n) => [n]), ...names.map((n) => names.filter((x) => x !== n)), ...subsets(names, 2), ['constructor', 'tx', 'get']]
  for (const allow of lists) for (const m of [...names, ...FOREIGN]) {
    resetWorld(1)
    const data = new Data()
    const base = plainStore(nb.hub, data, undefined, { listVaults: true })
    await base.put('V', 'c', 'a', env(1, 'A'))
    const log = []
    const store = new Proxy(base, { get: (t, k) => (k === 'listSince' ? async (...a) => { log.push(['listSince', a]); return ['a'] } : k === 'ping' ? async () => { log.push(['ping']); return true } : k === 'listPage' ? async (...a) => { log.push(['listPage', a]); return { items: [], nextCursor: null, limit: a[3] } } : k === 'tx' ? async () => { log.push(['tx']) } : typeof t[k] === 'function' ? (...a) => { log.push([k, a]); return t[k](...a) } : t[k]) })
    const [c, s] = nb.peer.pairInMemory()
    const stop = nb.peer.servePeerStore({ channel: s, store, ...(allow ? { allow: new Set(allow) } : {}) })
    const rpc = nb.peer.createRpcClient(c)
    ctx.exec()
    const before = canon(data.snapshot())
    const r = await attempt(() => settle(() => rpc.call(m, METHODS[m] ?? [])))
    const want = names.includes(m) && (!allow || allow.includes(m))
    const say = (k, what) => ctx.violation(`allow:${k}`, `allow ${allow ? show(allow) : 'unset'}: ${m || '(empty)'} ${what}`, { allow, m })
    if (r.ok !== want) say(want ? 'refused' : 'passed', r.ok ? 'is answered' : `fails: ${r.err?.message}`)
    if (!want && (log.length || canon(data.snapshot()) !== before)) say('touched', `reaches the store: ${show(log)}`)
    if (want && r.ok && (log.length !== 1 || log[0][0] !== m)) say('call', `makes the calls ${show(log)}`)
    if (want && r.ok && log[0][1] && !same(log[0][1].map(norm).slice(0, METHODS[m].length), METHODS[m].map(norm))) say('args', `passes on ${show(log[0][1])}`)
    if (want && r.ok && log[0][1]?.some((x) => x === null)) say('null', `passes null for an argument that was left out`)
    ctx.state(canon([allow ?? null, m]))
    stop(); rpc.dispose()
  }
}

// ── life of calls on the client ─────────────────────────────────────────────
const STEPS = ['call', 'reply0', 'reply1', 'fail0', 'conflict1', 'foreign', 'garbage', 'close', 'dispose', 'wait9', 'wait1', 'sendFails']
function manual() {
  const m = new Set(), c = new Set()
  const ch = { sent: [], open: true, refuse: false, get isOpen() { return ch.open }, send(p) { if (!ch.open || ch.refuse) throw new Error('cannot send'); ch.sent.push(p) }, on(k, f) { const s = k === 'message' ? m : c; s.add(f); return () => s.delete(f) }, close() { if (!ch.open) return; ch.open = false; for (const f of [...c]) f() }, deliver(p) { for (const f of [...m]) f(p) }, listeners: () => m.size + c.size }
  return ch
}
async function unitClient(u, ctx) {
  const { nb } = ctx
  for (const h of sequences(STEPS.length, u.len)) {
    if (h[0] !== u.first) continue
    resetWorld(1)
    const ch = manual()
    const far = nb.peer.peerStore({ channel: ch, timeoutMs: 10 })
    const calls = [] // { state, at, id, got }
    let open = true, live = true
    ctx.exec()
    const names = h.map((i) => STEPS[i])
    const say = (k, what) => ctx.violation(`client:${k}`, `${names.join(', ')}: ${what}`, { steps: names })
    for (const s of names) {
      ctx.trans()
      let threw = null
      const run = (f) => { try { f() } catch (e) { threw = e } }
      if (s === 'call' || s === 'sendFails') {
        const call = { want: open && live && s === 'call' ? 'pending' : open && s === 'call' ? 'pending' : 'rejected', due: W.now + 10, got: 'pending', why: null }
        if (!live && s === 'call' && open) call.orphan = true
        const n = ch.sent.length
        ch.refuse = s === 'sendFails'
        far.get('V', 'c', `r${calls.length}`).then((v) => { call.got = 'resolved'; call.val = v }, (e) => { call.got = 'rejected'; call.err = e })
        ch.refuse = false
        await tick()
        if (open && s === 'call') {
          if (ch.sent.length !== n + 1) say('sent', `${ch.sent.length - n} messages for one call`)
          else { const q = JSON.parse(ch.sent[n]); call.id = q.id; if (q.method !== 'get' || !same(q.args, ['V', 'c', `r${calls.length}`])) say('request', `sends ${show(q)}`); if (calls.some((x) => x.id === q.id)) say('id', 'two calls share an id') }
        }
        calls.push(call)
      } else if (/^(reply|fail|conflict)/.test(s)) {
        const call = calls[Number(s.at(-1))]
        if (call?.id) {
          const body = s.startsWith('reply') ? { ok: true, result: { for: call.id } } : s.startsWith('fail') ? { ok: false, error: { name: 'NetworkError', message: 'down' } } : { ok: false, error: { name: 'ConflictError', message: 'v', version: calls.length % 2 ? 4 : 0 } }
          run(() => ch.deliver(JSON.stringify({ t: 'res', id: call.id, ...body })))
          if (call.want === 'pending' && live) { call.want = body.ok ? 'resolved' : 'rejected'; call.exp = body }
        }
      } else if (s === 'foreign') run(() => { ch.deliver(JSON.stringify({ t: 'res', id: 'nobody', ok: true, result: 1 })); for (const c of calls) if (c.id) ch.deliver(JSON.stringify({ t: 'req', id: c.id, method: 'get', args: [] })) })
      else if (s === 'garbage') for (const g of ['', '{', 'null', '5', '"x"', '[]', '{}', '{"t":"res"}', '{"t":"res","id":null}']) run(() => ch.deliver(g))
      else if (s === 'close') { run(() => ch.close()); open = false; if (live) for (const c of calls) if (c.want === 'pending') c.want = 'rejected' }
      else if (s === 'dispose') { run(() => far.dispose()); live = false; for (const c of calls) if (c.want === 'pending') c.want = 'rejected' }
      else { await advance(s === 'wait9' ? 9 : 1); for (const c of calls) if (c.want === 'pending' && W.now >= c.due) c.want = 'rejected' }
      await tick()
      if (threw) say('throws', `${s} throws ${threw?.message} into the channel`)
      calls.forEach((c, i) => {
        if (c.orphan && c.got === 'pending') return
        if (c.got !== c.want) say('state', `after ${s}, call ${i} is ${c.got} instead of ${c.want}`)
        else if (c.want === 'resolved' && !same(c.val, { for: c.id })) say('mixed', `call ${i} gets ${show(c.val)}`)
        else if (c.want === 'rejected' && c.exp && (c.err.name !== c.exp.error.name || c.err.message !== c.exp.error.message || (c.exp.error.version !== undefined && !(c.err instanceof nb.hub.ConflictError && c.err.version === c.exp.error.version)))) say('error', `call ${i} fails with ${c.err?.name} ${c.err?.message}`)
      })
    }
    const waiting = calls.filter((c) => c.got === 'pending').length
    if ([...W.timers].length !== waiting) say('timers', `${[...W.timers].length} timers for ${waiting} waiting calls`)
    if (!live && ch.listeners()) say('listeners', 'a disposed client still listens')
    ctx.state(canon(calls.map((c) => [c.want, !!c.exp])))
  }
}

// ── life of requests on the server ──────────────────────────────────────────
const SSTEPS = ['req', 'reqFail', 'reqSync', 'finish', 'close', 'stop', 'garbage', 'noArgs', 'response']
async function unitServer(u, ctx) {
  const { nb } = ctx
  for (const h of sequences(SSTEPS.length, u.len)) {
    if (h[0] !== u.first) continue
    resetWorld(1)
    const ch = manual()
    const held = []
    let n = 0, serving = true, open = true
    const want = [], seen = []
    const stop = nb.peer.serveRpc(ch, async (method, args) => {
      seen.push([method, args])
      if (method === 'sync') return { done: args[0] }
      if (method === 'boom') throw Object.assign(new Error('boom'), { name: 'ConflictError', version: args ? Number(args[0].slice(1)) % 4 : 3 })
      return new Promise((r) => held.push([r, args[0]]))
    })
    ctx.exec()
    const names = h.map((i) => SSTEPS[i])
    const say = (k, what) => ctx.violation(`server:${k}`, `${names.join(', ')}: ${what}`, { steps: names })
    const unhandled = []
    const onU = (e) => unhandled.push(e)
    process.on('unhandledRejection', onU)
    let calls = 0
    for (const s of names) {
      ctx.trans()
      const id = `q${n++}`
      const req = (method) => { ch.deliver(JSON.stringify({ t: 'req', id, method, args: [id] })); if (serving) calls++ }
      if (s === 'req') { req('slow') }
      else if (s === 'reqFail') { req('boom'); if (serving && open) want.push({ t: 'res', id, ok: false, error: { name: 'ConflictError', message: 'boom', version: (n - 1) % 4 } }) }
      else if (s === 'reqSync') { req('sync'); if (serving && open) want.push({ t: 'res', id, ok: true, result: { done: id } }) }
      else if (s === 'finish') { const x = held.shift(); if (x) { x[0]({ slow: x[1] }); if (open) want.push({ t: 'res', id: x[1], ok: true, result: { slow: x[1] } }) } }
      else if (s === 'close') { ch.close(); open = false }
      else if (s === 'stop') { stop(); serving = false }
      else if (s === 'noArgs') { ch.deliver(JSON.stringify({ t: 'req', id, method: 'boom' })); if (serving) calls++; if (serving && open) want.push({ t: 'res', id, ok: false, error: { name: 'ConflictError', message: 'boom', version: 3 } }) }
      else if (s === 'response') ch.deliver(JSON.stringify({ t: 'res', id, ok: true, result: 1 }))
      else for (const g of ['', '{', 'null', '5', '"x"', '[]', '{}']) { try { ch.deliver(g) } catch (e) { say('throws', `garbage throws ${e?.message} into the channel`) } }
      await tick(20)
    }
    await drain(); await drain()
    process.off('unhandledRejection', onU)
    if (unhandled.length) say('unhandled', `a message raises ${unhandled[0]?.message} outside any call`)
    const got = ch.sent.map((x) => JSON.parse(x))
    if (!same(got, want)) say('answers', `answers ${show(got)} instead of ${show(want)}`)
    if (seen.length !== calls) say('calls', `${seen.length} calls for ${calls} requests`)
    ctx.state(canon(want.map((w) => w.ok)))
  }
}

// ── channels ────────────────────────────────────────────────────────────────
const CSTEPS = ['send0', 'send1', 'sub0', 'sub1', 'unsub1', 'close0', 'close1', 'remote', 'binary']
async function unitChannel(u, ctx) {
  const { nb } = ctx
  await withTabs(async () => {
    for (const h of sequences(CSTEPS.length, u.len)) {
      if (h[0] !== u.first) continue
      resetWorld(1)
      FakeBC.all = []
      const [a, b, da, db] = PAIRS[u.ch](nb)
      const ends = [a, b]
      const open = [true, true], got = [[], []], want = [[], []], closes = [0, 0], wantCloses = [0, 0]
      const subs = [[], []]
      const more = [0, 0]
      for (const i of [0, 1]) { ends[i].on('close', () => closes[i]++); ends[i].on('close', () => more[i]++) }
      let n = 0
      ctx.exec()
      const names = h.map((i) => CSTEPS[i])
      const say = (k, what) => ctx.violation(`channel:${k}`, `${u.ch}: ${names.join(', ')}: ${what}`, { ...u, steps: names })
      for (const s of names) {
        ctx.trans()
        const i = Number(s.at(-1))
        if (/^send/.test(s)) {
          const p = `m${n++}`
          let threw = false
          try { ends[i].send(p) } catch { threw = true }
          const alive = open[i]
          if (threw !== !alive) say('send', `send on ${alive ? 'an open' : 'a closed'} channel ${threw ? 'throws' : 'does not throw'}`)
          if (alive && open[1 - i]) for (const x of subs[1 - i]) if (x.on) want[1 - i].push([x.k, p])
        } else if (/^sub/.test(s)) { const x = { k: n++, on: true }; x.off = ends[i].on('message', (p) => got[i].push([x.k, p])); subs[i].push(x) }
        else if (s === 'unsub1') { const x = subs[1].find((y) => y.on); if (x) { x.on = false; x.off(); x.off() } }
        else if (/^close/.test(s)) {
          ends[i].close()
          if (open[i]) { open[i] = false; wantCloses[i]++; if (u.ch !== 'tabs' && open[1 - i]) { open[1 - i] = false; wantCloses[1 - i]++ } }
        } else if (s === 'remote') { if (u.ch === 'data' && db.readyState === 'open') { db.close(); for (const j of [0, 1]) if (open[j]) { open[j] = false; wantCloses[j]++ } } }
        else if (u.ch === 'data') da.fire('message', { data: new Uint8Array(2) })
        else if (u.ch === 'tabs') for (const f of FakeBC.all) if (f.open) f.fire('message', { data: { x: 1 } })
        await tick()
        for (const j of [0, 1]) if (ends[j].isOpen !== open[j]) say('isOpen', `end ${j} says isOpen ${ends[j].isOpen}`)
      }
      for (const j of [0, 1]) {
        if (!same(got[j], want[j])) say('delivery', `end ${j} receives ${show(got[j])} instead of ${show(want[j])}`)
        if (closes[j] !== wantCloses[j] || more[j] !== wantCloses[j]) say('close', `end ${j} hears ${closes[j]} closes instead of ${wantCloses[j]}`)
      }
      ctx.state(canon([u.ch, open, want.map((w) => w.length)]))
      a.close(); b.close()
    }
  })
}

/** Many calls waiting at once, answered in several orders; what the far store says about itself; arguments left out. */
async function unitMany(u, ctx) {
  const { nb } = ctx
  const N = 300
  for (const clients of [1, 2, 3]) for (const order of ['first', 'last', 'odd']) {
    resetWorld(1)
    const chs = Array.from({ length: clients }, manual), got = []
    const far = chs.map((channel) => nb.peer.peerStore({ channel }))
    for (let i = 0; i < N; i++) { const k = i % clients; far[k].get('V', 'c', `r${i}`).then((v) => { got[i] = v }, (e) => { got[i] = String(e) }) }
    await tick()
    ctx.exec(); ctx.trans(N)
    const reqs = chs.flatMap((c) => c.sent.map((x) => JSON.parse(x)))
    const sorted = order === 'first' ? reqs : order === 'last' ? [...reqs].reverse() : [...reqs.filter((_, i) => i % 2), ...reqs.filter((_, i) => i % 2 === 0)]
    // as on a broadcast channel, every client hears every answer
    for (const q of sorted) for (const c of chs) c.deliver(JSON.stringify({ t: 'res', id: q.id, ok: true, result: { for: q.args[2] } }))
    await tick()
    for (let i = 0; i < N; i++) if (!same(got[i], { for: `r${i}` })) { ctx.violation('many:mixed', `${N} waiting calls of ${clients} clients answered ${order} first: call ${i} gets ${show(got[i])}`, { clients, order }); break }
    for (const f of far) f.dispose()
  }
  for (const [says, want] of [[async () => true, true], [async () => false, false], [async () => { throw new Error('down') }, false], [undefined, true]]) {
    resetWorld(1)
    const [c, s] = nb.peer.pairInMemory()
    const store = { ...plainStore(nb.hub, new Data()) }
    delete store.ping; if (says) store.ping = says
    const stop = nb.peer.servePeerStore({ channel: s, store }), far = nb.peer.peerStore({ channel: c })
    ctx.exec(); ctx.trans()
    const r = await attempt(() => settle(() => far.ping()))
    if (!r.ok || r.val !== want) ctx.violation('many:ping', `ping of a store answering ${says ?? 'nothing'} gives ${r.ok ? r.val : r.err}`, u)
    stop(); far.dispose()
  }
  for (const args of [['V', 'c'], ['V', 'c', 'k'], ['V', 'c', undefined, 7], ['V', 'c', '', 0], ['V', 'c', 'k', 500], ['V', 'c', undefined, undefined]]) {
    resetWorld(1)
    const [c, s] = nb.peer.pairInMemory()
    let seen = null
    const stop = nb.peer.servePeerStore({ channel: s, store: { ...plainStore(nb.hub, new Data()), listPage: async (...a) => { seen = a; return { items: [], nextCursor: null } } } }), rpc = nb.peer.createRpcClient(c)
    ctx.exec(); ctx.trans()
    await attempt(() => settle(() => rpc.call('listPage', args)))
    for (let i = 0; i < 4; i++) if (seen?.[i] !== args[i]) { ctx.violation('many:args', `listPage(${show(args)}) reaches the store as ${show(seen)}`, { args }); break }
    stop(); rpc.dispose()
  }
}

// ── the WebRTC handshake ────────────────────────────────────────────────────
async function unitRtc(u, ctx) {
  const { nb } = ctx
  for (const ice of ['done', 'later', 'never']) for (const iceB of ['done', 'later']) for (const arrive of ['open', 'connecting', 'error']) for (const label of [undefined, 'mine']) {
    resetWorld(1)
    const log = []
    const [da, db] = dcPair()
    da.readyState = 'connecting'; db.readyState = arrive === 'open' ? 'open' : 'connecting'
    const made = []
    class RTC extends Emitter {
      constructor(cfg) { super(); this.cfg = cfg; this.iceGatheringState = 'new'; this.who = made.push(this) - 1 }
      createDataChannel(l, o) { log.push(['channel', l, o.ordered]); return da }
      async createOffer() { return { type: 'offer', sdp: 'o' } }
      async createAnswer() { return { type: 'answer', sdp: 'a' } }
      async setLocalDescription(d) { log.push(['local', this.who, d.type]); this.localDescription = { ...d, sdp: d.sdp + '+ice' }; const w = this.who ? iceB : ice; if (w === 'done') this.iceGatheringState = 'complete' }
      async setRemoteDescription(d) { log.push(['remote', this.who, d.sdp]) }
      gathered() { this.iceGatheringState = 'gathering'; this.fire('icegatheringstatechange'); this.iceGatheringState = 'complete'; this.fire('icegatheringstatechange') }
    }
    const was = globalThis.RTCPeerConnection
    globalThis.RTCPeerConnection = RTC
    const say = (k, what) => ctx.violation(`rtc:${k}`, `ice ${ice}/${iceB}, channel ${arrive}: ${what}`, { ice, iceB, arrive })
    try {
      ctx.exec()
      let A = null, B = null
      const pa = nb.peer.createOffer({ ...(label ? { label } : {}), iceServers: [{ urls: 'stun:x' }] }).then((x) => { A = x })
      await tick()
      if (ice !== 'done') { if (A) say('early', 'the offer is handed out before the candidates are gathered'); if (ice === 'never') continue; made[0].gathered() }
      await tick()
      if (!A) { say('offer', 'no offer'); continue }
      if (A.offer.sdp !== 'o+ice') say('sdp', `the offer is ${show(A.offer)}`)
      nb.peer.acceptOffer(A.offer, {}).then((x) => { B = x })
      await tick()
      if (iceB === 'later') { if (B) say('early', 'the answer is handed out before the candidates are gathered'); made[1].gathered(); await tick() }
      if (!B || B.answer.sdp !== 'a+ice') { say('answer', 'no complete answer'); continue }
      await A.accept(B.answer)
      if (!same(log, [['channel', label ?? 'noydb', true], ['local', 0, 'offer'], ['remote', 1, 'o+ice'], ['local', 1, 'answer'], ['remote', 0, 'a+ice']])) say('order', `performs ${show(log)}`)
      let ca = null, cb = null, ea = null, eb = null
      A.channel.then((x) => { ca = x }, (e) => { ea = e }); B.channel.then((x) => { cb = x }, (e) => { eb = e })
      made[1].fire('datachannel', { channel: db })
      await tick()
      if (ca || (cb && arrive !== 'open')) say('open', 'a channel is handed out before it is open')
      if (arrive === 'error') { da.fire('error'); db.fire('error'); await tick(); if (!ea || !eb || ca || cb) say('error', 'a failed channel is not reported'); continue }
      for (const d of [da, db]) if (d.readyState !== 'open') { d.readyState = 'open'; d.fire('open') }
      await tick()
      if (!ca || !cb) { say('channels', 'no channel after the connection opened'); continue }
      const data = new Data()
      const store = plainStore(nb.hub, data)
      const stop = nb.peer.servePeerStore({ channel: cb, store })
      const far = nb.peer.peerStore({ channel: ca })
      await settle(() => far.put('V', 'c', 'a', env(1, 'x')))
      if (!same(await settle(() => far.get('V', 'c', 'a')), env(1, 'x'))) say('use', 'the connected store does not return what was put')
      stop(); far.dispose()
      ctx.state(canon([ice, iceB, arrive]))
    } finally { globalThis.RTCPeerConnection = was }
  }
}

// ── a vault synchronised through a peer ─────────────────────────────────────
const VSTEPS = ['putA', 'putA2', 'delA', 'pushA', 'syncA', 'putB', 'syncB']
async function unitVault(u, ctx) {
  const { nb } = ctx
  await withTabs(async () => {
    for (const h of sequences(VSTEPS.length, u.len)) {
      if (h[0] !== u.first) continue
      const names = h.map((i) => VSTEPS[i])
      const run = async (viaPeer) => {
        resetWorld(1)
        FakeBC.all = []
        const remote = new Data(), la = new Data(), lb = new Data()
        const wire = []
        const hub = plainStore(nb.hub, remote)
        const tabOf = () => { if (!viaPeer) return hub; const [c, s] = PAIRS[u.ch](nb); const send = c.send.bind(c), send2 = s.send.bind(s); c.send = (p) => { wire.push(p); send(p) }; s.send = (p) => { wire.push(p); send2(p) }; nb.peer.servePeerStore({ channel: s, store: hub }); return nb.peer.peerStore({ channel: c }) }
        const A = await settle(() => openDb(nb, plainStore(nb.hub, la), { user: 'u', sync: tabOf() }))
        const va = await settle(() => A.openVault('V'))
        const ca = va.collection('c')
        await settle(() => ca.put('base', { n: 0, s: 'topsecret-word' }))
        lb.restore(la.snapshot())
        const B = await settle(() => openDb(nb, plainStore(nb.hub, lb), { user: 'u', sync: tabOf() }))
        const vb = await settle(() => B.openVault('V'))
        const cb = vb.collection('c')
        const out = []
        let n = 0
        for (const s of names) {
          n++
          const r = await attempt(() => settle(async () => {
            if (s === 'putA') return ca.put('x', { n, s: 'topsecret-word' })
            if (s === 'putA2') return ca.put('y', { n })
            if (s === 'delA') return ca.delete('x')
            if (s === 'putB') return cb.put('x', { n, b: 1 })
            if (s === 'pushA') { const p = await A.push('V'); return [p.pushed, p.conflicts.length, p.errors.map(String)] }
            const db = s === 'syncA' ? A : B
            const p = await db.sync('V')
            return [p.pull.pulled, p.push.pushed, p.pull.errors.map(String), p.push.errors.map(String), p.push.conflicts.length + p.pull.conflicts.length]
          }))
          out.push([s, r.ok ? norm(r.val) : `!${r.err?.message}`])
        }
        const read = async (c) => { const o = {}; for (const id of ['base', 'x', 'y']) o[id] = await c.get(id); return o }
        const fin = { a: await settle(() => read(ca)), b: await settle(() => read(cb)), remote: (await hub.list('V', 'c')).sort() }
        return { out, fin, wire }
      }
      ctx.exec()
      const d = await run(false), p = await run(true)
      const say = (k, what) => ctx.violation(`vault:${k}`, `${u.ch}: ${names.join(', ')}: ${what}`, { ...u, steps: names })
      if (!same(d.out, p.out)) say('results', `through the peer ${show(p.out)}, directly ${show(d.out)}`)
      if (!same(d.fin, p.fin)) say('contents', `through the peer ${show(p.fin)}, directly ${show(d.fin)}`)
      for (const x of p.wire) if (x.includes('topsecret') || x.includes(PASS)) { say('wire', 'plaintext travels over the channel'); break }
      ctx.state(canon(d.fin))
    }
  })
}

const RUN = { many: unitMany, map: unitMap, conc: unitConc, allow: unitAllow, client: unitClient, server: unitServer, channel: unitChannel, rtc: unitRtc, vault: unitVault }
export default {
  level: 'model_checking',
  technique: 'exhaustive call histories, interleavings of overlapping calls and event sequences of the real transport code over stand-in channels, compared with the plain store and with a model of the protocol',
  bounds: (t) => `histories of ${t === 'thorough' ? 3 : 2} contract calls over 3 transports; all completion orders of 2–3 overlapping calls by one client or by several tabs; all sequences of ${t === 'thorough' ? 5 : 4} client events, ${t === 'thorough' ? 5 : 4} server events, ${t === 'thorough' ? 5 : 4} channel events; all method lists of size 0, 1, 2, n-1, n`,
  assumptions: ['the underlying channel delivers every message once and in order, as the PeerChannel contract demands', 'one tab serves a channel name'],
  modules: { ...HUB, peer: 'packages/by-peer/src/index.ts', tabs: 'packages/by-tabs/src/index.ts' },
  units(tier) {
    const us = [], T = tier === 'thorough'
    for (const ch of Object.keys(PAIRS)) for (let first = 0; first < CALLS.length; first++) us.push({ kind: 'map', ch, first, len: T ? 3 : 2 })
    for (const body of Object.keys(BODY)) for (const mode of ['call', 'reply']) { for (const ch of Object.keys(PAIRS)) us.push({ kind: 'conc', topo: 'one', ch, body, mode }); us.push({ kind: 'conc', topo: 'tabs', body, mode }) }
    us.push({ kind: 'allow' }, { kind: 'rtc' }, { kind: 'many' })
    for (let first = 0; first < STEPS.length; first++) us.push({ kind: 'client', first, len: T ? 5 : 4 })
    for (let first = 0; first < SSTEPS.length; first++) us.push({ kind: 'server', first, len: T ? 5 : 4 })
    for (const ch of Object.keys(PAIRS)) for (let first = 0; first < CSTEPS.length; first++) us.push({ kind: 'channel', ch, first, len: T ? 5 : 4 })
    for (const ch of T ? Object.keys(PAIRS) : ['pair', 'tabs']) for (let first = 0; first < VSTEPS.length; first++) us.push({ kind: 'vault', ch, first, len: T ? 4 : 3 })
    return us
  },
  async runUnit(u, ctx) { await RUN[u.kind](u, ctx) },
}
