// Stores used to drive the code under test.
import { AsyncLocalStorage } from 'node:async_hooks'
import { W, drain, nextTimer, fireTimer, StuckError } from './world.mjs'

const clone = (x) => (x === undefined || x === null ? x : JSON.parse(JSON.stringify(x)))

/** Boring in-memory data shared by any number of store front-ends. */
export class Data {
  constructor() { this.m = new Map() }
  coll(v, c, make = false) {
    let vm = this.m.get(v)
    if (!vm) { if (!make) return null; this.m.set(v, (vm = new Map())) }
    let cm = vm.get(c)
    if (!cm) { if (!make) return null; vm.set(c, (cm = new Map())) }
    return cm
  }
  get(v, c, id) { return clone(this.coll(v, c)?.get(id) ?? null) }
  snapshot() {
    const out = {}
    for (const [v, vm] of this.m) for (const [c, cm] of vm) for (const [id, e] of cm) ((out[v] ??= {})[c] ??= {})[id] = clone(e)
    return out
  }
  restore(s) {
    this.m.clear()
    for (const v of Object.keys(s)) for (const c of Object.keys(s[v])) for (const id of Object.keys(s[v][c])) this.coll(v, c, true).set(id, clone(s[v][c][id]))
  }
  clone() { const d = new Data(); d.restore(this.snapshot()); return d }
  collections(v) { return [...(this.m.get(v)?.keys() ?? [])].filter((c) => this.m.get(v).get(c).size > 0) }
  ids(v, c) { return [...(this.coll(v, c)?.keys() ?? [])] }
}

/** Apply one contract call to data. Throws ConflictError from the hub under test. */
export function applyCall(data, hub, method, args) {
  switch (method) {
    case 'get': { const [v, c, id] = args; return data.get(v, c, id) }
    case 'put': {
      const [v, c, id, env, exp] = args
      const cm = data.coll(v, c, true)
      const ex = cm.get(id)
      if (exp !== undefined && ex && ex._v !== exp) throw new hub.ConflictError(ex._v, `Version conflict: expected ${exp}, found ${ex._v}`)
      cm.set(id, clone(env))
      return undefined
    }
    case 'delete': { const [v, c, id] = args; data.coll(v, c)?.delete(id); return undefined }
    case 'list': { const [v, c] = args; return data.ids(v, c) }
    case 'loadAll': {
      const [v] = args
      const out = {}
      const vm = data.m.get(v)
      if (vm) for (const [c, cm] of vm) { if (c.startsWith('_')) continue; out[c] = {}; for (const [id, e] of cm) out[c][id] = clone(e) }
      return out
    }
    case 'saveAll': {
      const [v, snap] = args
      const vm = data.m.get(v)
      if (vm) for (const k of [...vm.keys()]) if (!k.startsWith('_')) vm.delete(k)
      for (const [c, recs] of Object.entries(snap)) { const cm = data.coll(v, c, true); for (const [id, e] of Object.entries(recs)) cm.set(id, clone(e)) }
      return undefined
    }
    case 'ping': return true
    case 'listVaults': return [...data.m.keys()]
    case 'listPage': {
      const [v, c, cursor, limit = 100] = args
      const ids = data.ids(v, c).sort()
      const start = cursor ? parseInt(cursor, 10) : 0
      const end = Math.min(start + limit, ids.length)
      return { items: ids.slice(start, end).map((id) => ({ id, envelope: data.get(v, c, id) })), nextCursor: end < ids.length ? String(end) : null }
    }
    case 'tx': {
      const [ops] = args
      for (const op of ops) {
        if (op.expectedVersion === undefined) continue
        const actual = data.coll(op.vault, op.collection)?.get(op.id)?._v ?? 0
        if (actual !== op.expectedVersion) throw new hub.ConflictError(actual, 'tx conflict')
      }
      for (const op of ops) {
        if (op.type === 'put') data.coll(op.vault, op.collection, true).set(op.id, clone(op.envelope))
        else data.coll(op.vault, op.collection)?.delete(op.id)
      }
      return undefined
    }
    default: throw new Error(`method ${method}`)
  }
}
const CORE = ['get', 'put', 'delete', 'list', 'loadAll', 'saveAll']

/** Store whose every call is forwarded to hook(method, args, doIt). */
export function hookedStore(hub, data, hook, { name = 'mc', extra = ['listVaults', 'listPage', 'ping'], capabilities } = {}) {
  const s = { name }
  if (capabilities) s.capabilities = capabilities
  for (const m of [...CORE, ...extra]) s[m] = async (...args) => hook(m, args, () => applyCall(data, hub, m, args))
  return s
}
/** Plain synchronous-in-a-microtask store with an optional call recorder. */
export function plainStore(hub, data, rec, opts) {
  return hookedStore(hub, data, (m, a, f) => { rec?.(m, a); return f() }, opts)
}

const als = new AsyncLocalStorage()
export class Crash extends Error { constructor() { super('crash'); this.name = 'Crash' } }

/**
 * Scheduler-controlled store system. Calls from any front-end become pending
 * operations; step() picks which one happens next. mode:
 *  'reply'  effect takes place when the operation is picked
 *  'call'   effect takes place at call time, only the reply is scheduled
 */
export class Sched {
  constructor(hub, choices, { mode = 'reply', faults = 0, faultKinds = ['before', 'after'], faultable = () => true, timers = true, delays = Infinity, preempt = null } = {}) {
    this.hub = hub; this.ch = choices; this.mode = mode
    this.pending = []; this.seq = 0; this.trace = []
    this.faultsLeft = faults; this.faultKinds = faultKinds; this.faultable = faultable; this.timers = timers
    this.transitions = 0
    this.delaysLeft = delays // delay bound: picking pending[i] instead of the oldest costs i
    this.preemptLeft = preempt // preemption bound: leaving a task that could continue costs 1
    this.cur = null
    this.dead = false
  }
  store(data, name, opts = {}) {
    const self = this
    return hookedStore(this.hub, data, (m, args, doIt) => self.call(name, m, args, doIt), { name, ...opts })
  }
  call(who, method, args, doIt) {
    if (this.dead) return new Promise(() => {})
    const op = { n: ++this.seq, who, method, args, doIt, task: als.getStore() ?? 'bg' }
    if (this.mode === 'call') {
      try { op.val = doIt(); op.ok = true } catch (e) { op.err = e; op.ok = false }
    }
    const p = new Promise((res, rej) => { op.res = res; op.rej = rej })
    this.pending.push(op)
    return p
  }
  finish(op) {
    if (this.mode !== 'call') { try { op.val = op.doIt(); op.ok = true } catch (e) { op.err = e; op.ok = false } }
    op.ok ? op.res(op.val) : op.rej(op.err)
  }
  /** Run until all thunks settle. thunks: [[name, async fn]] started together (or by choice). */
  async run(thunks, { maxSteps = 5000, stuckOk = false } = {}) {
    const tasks = thunks.map(([name, fn]) => {
      const t = { name, done: false }
      t.start = () => { t.started = true; als.run(name, () => Promise.resolve().then(fn)).then((v) => { t.done = true; t.ok = true; t.val = v }, (e) => { t.done = true; t.ok = false; t.err = e }) }
      return t
    })
    for (const t of tasks) t.start()
    let steps = 0
    for (;;) {
      await drain()
      if (this.dead) break
      const n = this.pending.length
      if (n === 0) {
        if (tasks.every((t) => t.done)) break
        const tm = this.timers ? nextTimer() : null
        if (!tm) { if (stuckOk) break; throw new StuckError(`deadlock: ${tasks.filter((t) => !t.done).map((t) => t.name).join(', ')} never settle`) }
        fireTimer(tm)
        if (++steps > maxSteps) throw new StuckError('livelock')
        continue
      }
      if (++steps > maxSteps) throw new StuckError('livelock: too many steps')
      let i
      if (this.preemptLeft !== null) {
        const mine = this.pending.findIndex((o) => o.task === this.cur)
        const order = mine < 0 ? this.pending.map((_, k) => k) : [mine, ...this.pending.map((_, k) => k).filter((k) => k !== mine)]
        const width = mine >= 0 && this.preemptLeft === 0 ? 1 : n
        const k = width === 1 ? 0 : this.ch.choose(width, 'task')
        i = order[k]
        if (mine >= 0 && this.pending[i].task !== this.cur) this.preemptLeft--
        this.cur = this.pending[i].task
      } else {
        const width = Math.min(n, this.delaysLeft + 1)
        i = width === 1 ? 0 : this.ch.choose(width, this.pending.map((o) => `${o.who}.${o.method}`).join('|'))
        this.delaysLeft -= i
      }
      const op = this.pending.splice(i, 1)[0]
      this.transitions++
      let fault = 0
      if (this.faultsLeft > 0 && this.faultable(op)) fault = this.ch.choose(1 + this.faultKinds.length, 'fault')
      this.trace.push(`${op.who}.${op.method}(${op.args.slice(1, 3).filter((x) => typeof x === 'string').join('/')})${fault ? '!' + this.faultKinds[fault - 1] : ''}`)
      if (fault) {
        this.faultsLeft--
        const kind = this.faultKinds[fault - 1]
        if (kind === 'crash') { this.dead = true; this.pending = []; break }
        if (kind === 'crash-after') { try { op.doIt() } catch {} ; this.dead = true; this.pending = []; break }
        if (kind === 'after') { try { if (this.mode !== 'call') op.doIt() } catch {} }
        const e = new Error('injected store failure'); e.code = 'EINJECT'; e.name = 'InjectedFault'
        op.rej(e)
      } else this.finish(op)
    }
    return tasks
  }
}
