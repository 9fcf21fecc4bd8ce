// P37 — the sync scheduler pushes every change in time, never twice at once, never too often.
import { sequences, canon } from '../lib/explore.mjs'
import { resetWorld, advance, drain, W } from '../lib/world.mjs'

const DEB = 100, MIN = 250, INT = 400, PULL = 300
const POLICIES = {
  'on-change': { push: { mode: 'on-change', onUnload: false }, pull: { mode: 'manual' } },
  'on-change-min': { push: { mode: 'on-change', minIntervalMs: MIN, onUnload: false }, pull: { mode: 'manual' } },
  debounce: { push: { mode: 'debounce', debounceMs: DEB, onUnload: false }, pull: { mode: 'interval', intervalMs: PULL } },
  'debounce-min': { push: { mode: 'debounce', debounceMs: DEB, minIntervalMs: MIN, onUnload: false }, pull: { mode: 'manual' } },
  interval: { push: { mode: 'interval', intervalMs: INT, onUnload: false }, pull: { mode: 'interval', intervalMs: PULL } },
  'interval-min': { push: { mode: 'interval', intervalMs: DEB, minIntervalMs: MIN, onUnload: false }, pull: { mode: 'manual' } },
  manual: { push: { mode: 'manual' }, pull: { mode: 'interval', intervalMs: PULL } },
  'manual-default-pull': { push: { mode: 'manual' }, pull: { mode: 'interval' } },
}
const EVENTS = ['write', 'wait', 'long', 'pushed', 'push-fails', 'force', 'pull', 'pulled', 'pull-fails', 'stop', 'start']
const SHORT = EVENTS.filter((e) => !['pull', 'pulled', 'pull-fails', 'start', 'stop'].includes(e))

async function run(ctx, name, hist) {
  const pol = POLICIES[name], { push, pull } = pol, nb = ctx.nb
  ctx.exec(); resetWorld(1)
  await advance(10000)
  const what = () => `${name}: ${hist.join(', ')}`
  const bad = (k, m) => { if (!s.bad) { s.bad = true; ctx.violation(`${name}:${k}`, `${what()} (at ${W.now - s.t0} ms): ${m}`) } }
  const s = { t0: W.now, dirty: 0, cur: null, pulls: null, lastWrite: -Infinity, lastOk: -Infinity, failedSince: false, started: true, startedAt: W.now, forced: 0, log: [], freeAt: W.now, lastErr: null, nPull: 0, pullDue: W.now + (pull.intervalMs ?? 60000) }
  const min = push.minIntervalMs ?? 0, deb = push.mode === 'debounce' ? push.debounceMs : 0
  const sch = new nb.store.SyncScheduler(pol, {
    getDirtyCount: () => s.dirty,
    push: () => {
      if (s.cur) bad('two-pushes', 'a second push starts while one is running')
      if (s.dirty === 0) bad('empty', 'a push starts although nothing is unsynced')
      if (!s.forced) {
        if (!s.started) bad('stopped', 'a push starts after stop')
        if (push.mode === 'manual') bad('manual', 'a push starts by itself')
        if (W.now < s.lastOk + min) bad('min', `a push starts ${W.now - s.lastOk} ms after the last one, minIntervalMs is ${min}`)
        if (push.mode === 'debounce' && W.now < s.lastWrite + deb) bad('early', `a push starts ${W.now - s.lastWrite} ms after the last write`)
        if (push.mode === 'interval' && (W.now - s.startedAt) % push.intervalMs !== 0 && W.now !== s.freeAt) bad('early', 'a push starts between two ticks')
      }
      s.failedSince = false
      return new Promise((res, rej) => { s.cur = { n: s.dirty, res, rej } })
    },
    pull: () => {
      if (s.pulls) bad('two-pulls', 'a second pull starts while one is running')
      if (!s.started && !s.forcedPull) bad('stopped', 'a pull starts after stop')
      if (!s.forcedPull && (pull.mode !== 'interval' || (W.now - s.startedAt) % (pull.intervalMs ?? 60000) !== 0)) bad('pull-early', 'a pull starts by itself')
      s.nPull++
      return new Promise((res, rej) => { s.pulls = { res, rej } })
    },
  })
  sch.start()
  const finish = async (ok) => {
    const c = s.cur; s.cur = null; s.freeAt = W.now
    if (ok) { s.dirty -= c.n; s.lastOk = W.now; s.lastErr = null; c.res() } else { s.failedSince = true; s.lastErr = `p${W.now}`; c.rej(new Error(s.lastErr)) }
    await drain()
  }
  /** When the current unsynced writes must be on their way at the latest. */
  const deadline = () => {
    if (!s.dirty || s.failedSince || s.cur || !s.started || push.mode === 'manual') return Infinity
    if (s.stale && push.mode !== 'interval') return Infinity // writes from before a stop wait for the next one
    let d = Math.max(s.lastWrite + deb, s.lastOk + min, s.freeAt)
    if (push.mode === 'interval') d = s.startedAt + Math.ceil((Math.max(d, s.startedAt + 1) - s.startedAt) / push.intervalMs) * push.intervalMs + (s.lastWrite === W.now ? push.intervalMs : 0)
    return d
  }
  const forces = []
  const pass = async (ms) => {
    const due = deadline(), end = W.now + ms
    const wantPull = pull.mode === 'interval' && s.started && !s.pulls ? s.startedAt + (Math.floor((W.now - s.startedAt) / (pull.intervalMs ?? 60000)) + 1) * (pull.intervalMs ?? 60000) : Infinity
    const n = s.nPull, busy = !!s.cur
    await advance(ms)
    ctx.trans()
    if (due <= end && !s.cur && !busy && s.dirty) bad('late', `the write at ${s.lastWrite - s.t0} ms is not on its way; it was due at ${due - s.t0} ms`)
    if (wantPull <= end && s.nPull === n) bad('pull-late', `no pull although one was due at ${wantPull - s.t0} ms`)
  }
  const state = () => {
    const st = sch.status, want = s.cur ? ['pushing', ...(s.pulls ? ['pulling'] : [])] : s.pulls ? ['pulling'] : s.lastErr ? ['error'] : null
    if (want && !want.includes(st.state)) bad('state', `the status says ${st.state}, expected ${want}`)
    if (!want && s.dirty === 0 && st.state !== 'idle' && !(st.state === 'pending')) bad('state', `the status says ${st.state} with nothing unsynced`)
    const iso = (t) => (t === undefined || t === -Infinity ? null : new Date(t).toISOString())
    if (st.lastPushAt !== iso(s.lastOk) || st.lastPullAt !== iso(s.lastPull)) bad('state', `the status says last push ${st.lastPushAt}, last pull ${st.lastPullAt}`)
    if (st.pendingWrites !== s.dirty) bad('state', `the status says ${st.pendingWrites} pending writes, there are ${s.dirty}`)
    if ((st.lastError?.message ?? null) !== s.lastErr) bad('state', `the status says last error ${st.lastError?.message}, it is ${s.lastErr}`)
  }
  for (const e of hist) {
    ctx.trans()
    if (e === 'write') {
      s.dirty++; s.lastWrite = W.now; s.failedSince = false; s.stale = !s.started
      const quiet = !s.cur && s.started
      sch.notifyChange(); await drain()
      if (push.mode === 'on-change' && quiet && W.now >= s.lastOk + min && !s.cur) bad('late', 'a write does not start a push at once')
    } else if (e === 'wait') await pass(60)
    else if (e === 'long') await pass(270)
    else if (e === 'pushed' || e === 'push-fails') { if (s.cur) await finish(e === 'pushed') } else if (e === 'force') {
      const had = s.dirty, busy = !!s.cur
      s.forced++
      const f = { done: false }; forces.push(f)
      sch.forcePush().then(() => { f.done = true; s.forced-- }, () => { f.done = true; s.forced-- })
      await drain()
      if (had && !busy && !s.cur) bad('force', 'forcePush does not start a push')
    } else if (e === 'pull') { s.forcedPull = true; const busy = !!s.pulls; void sch.forcePull(); await drain(); s.forcedPull = false; if (!busy && !s.pulls) bad('force', 'forcePull does not start a pull') } else if (e === 'pulled') { if (s.pulls) { const p = s.pulls; s.pulls = null; s.lastErr = null; s.lastPull = W.now; p.res(); await drain() } } else if (e === 'pull-fails') { if (s.pulls) { const p = s.pulls; s.pulls = null; s.lastErr = `l${W.now}`; p.rej(new Error(s.lastErr)); await drain() } } else if (e === 'stop') { sch.stop(); s.started = false; s.stale = s.dirty > 0 } else if (e === 'start') { if (!s.started) { s.started = true; s.startedAt = W.now; s.freeAt = Math.max(s.freeAt, W.now) } sch.start(); await drain() }
    state()
    if (s.bad) { sch.stop(); return }
  }
  ctx.state([name, s.dirty, !!s.cur, !!s.pulls, s.started, s.failedSince, Math.min(W.now - s.lastWrite, 999), Math.min(W.now - s.lastOk, 999), s.lastErr !== null])
  // everything finishes well from now on: all is synced in the end
  for (let i = 0; i < 12; i++) {
    if (s.pulls) { const p = s.pulls; s.pulls = null; p.res() }
    if (s.cur) await finish(true)
    await pass(120)
    if (s.bad) { sch.stop(); return }
  }
  for (const f of forces) if (!f.done) bad('force', 'forcePush never returns')
  const waits = s.failedSince || (s.stale && push.mode !== 'interval')
  if (s.started && push.mode !== 'manual' && s.dirty && !s.cur && !waits) bad('never', `${s.dirty} writes are never pushed`)
  sch.stop()
  const before = [s.nPull, s.dirty]
  s.started = false
  await advance(5000)
  if (s.nPull !== before[0] || s.cur) bad('stopped', 'it goes on after stop')
  if (!s.bad) ctx.sample({ policy: name, history: hist })
}

/** Unload and focus hooks, with a stand-in page. */
async function hooks(ctx) {
  const nb = ctx.nb
  for (const mode of ['on-change', 'debounce', 'interval', 'manual']) for (const onUnload of [undefined, true, false]) for (const dirty of [0, 2]) for (const pullMode of ['manual', 'on-focus']) for (const fire of ['pagehide', 'hidden', 'visible', 'beforeExit']) for (const stopped of [false, true]) {
    ctx.exec(); resetWorld(1); ctx.trans()
    const L = { doc: new Set(), win: new Set() }
    const doc = { visibilityState: 'visible', addEventListener: (e, f) => e === 'visibilitychange' && L.doc.add(f), removeEventListener: (e, f) => L.doc.delete(f) }
    const saved = ['document', 'addEventListener', 'removeEventListener'].map((k) => [k, Object.getOwnPropertyDescriptor(globalThis, k)])
    const def = (k, v) => Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true })
    def('document', doc); def('addEventListener', (e, f) => e === 'pagehide' && L.win.add(f)); def('removeEventListener', (e, f) => L.win.delete(f))
    const exits = process.listeners('beforeExit')
    try {
      let pushes = 0, pulls = 0
      const sch = new nb.store.SyncScheduler({ push: { mode, ...(mode === 'interval' ? { intervalMs: 1e6 } : {}), ...(onUnload === undefined ? {} : { onUnload }) }, pull: { mode: pullMode } }, { getDirtyCount: () => dirty, push: async () => { pushes++ }, pull: async () => { pulls++ } })
      sch.start()
      if (stopped) sch.stop()
      const mine = process.listeners('beforeExit').filter((f) => !exits.includes(f))
      if (fire === 'pagehide') for (const f of L.win) f()
      else if (fire === 'beforeExit') for (const f of mine) f(0)
      else { doc.visibilityState = fire; for (const f of L.doc) f() }
      await drain()
      const wantPush = !stopped && (onUnload ?? mode !== 'manual') && dirty > 0 && fire !== 'visible' ? 1 : 0
      const wantPull = !stopped && pullMode === 'on-focus' && fire === 'visible' ? 1 : 0
      if (pushes !== wantPush || pulls !== wantPull) ctx.violation(`hook:${mode}:${fire}`, `mode ${mode}, onUnload ${onUnload}, pull ${pullMode}, ${dirty} unsynced, ${stopped ? 'stopped, ' : ''}${fire}: ${pushes} pushes and ${pulls} pulls, expected ${wantPush} and ${wantPull}`)
      sch.stop()
      const left = process.listeners('beforeExit').filter((f) => !exits.includes(f))
      if (left.length || L.doc.size || L.win.size) ctx.violation(`hook:leak`, `mode ${mode}: stop leaves ${left.length + L.doc.size + L.win.size} listeners`)
      for (const f of left) process.removeListener('beforeExit', f)
    } finally {
      for (const [k, d] of saved) d ? Object.defineProperty(globalThis, k, d) : delete globalThis[k]
    }
  }
}

/** Times left to the defaults, and times of zero. */
async function defaults(ctx) {
  const nb = ctx.nb
  for (const [what, policy, writes, wantPush, wantPull] of [
    ['debounce by default', { push: { mode: 'debounce', onUnload: false }, pull: { mode: 'manual' } }, [0], [30000], []],
    ['debounce by default, two writes', { push: { mode: 'debounce', onUnload: false }, pull: { mode: 'manual' } }, [0, 29999], [59999], []],
    ['debounce of 0', { push: { mode: 'debounce', debounceMs: 0, onUnload: false }, pull: { mode: 'manual' } }, [5], [5], []],
    ['minimum interval of 0', { push: { mode: 'on-change', minIntervalMs: 0, onUnload: false }, pull: { mode: 'manual' } }, [1, 2], [1, 2], []],
    ['pull by default', { push: { mode: 'manual' }, pull: { mode: 'interval' } }, [], [], [60000, 120000]],
    ['both at intervals', { push: { mode: 'interval', intervalMs: 25000, onUnload: false }, pull: { mode: 'interval' } }, [1], [25000], [60000, 120000]],
  ]) for (const stopAt of [Infinity, 1, 24999, 29999, 59998, 60001]) {
    ctx.exec(); resetWorld(1); await advance(500000)
    const t0 = W.now, pushes = [], pulls = []
    let dirty = 0, stopped = false
    const sch = new nb.store.SyncScheduler(policy, { getDirtyCount: () => dirty, push: async () => { pushes.push(W.now - t0); dirty = 0 }, pull: async () => { pulls.push(W.now - t0) } })
    sch.start()
    for (const at of [...new Set([...writes, 24999, 25000, 29999, 30000, 59998, 59999, 60000, 60001, 119999, 120000, ...(stopAt === Infinity ? [] : [stopAt])])].sort((a, b) => a - b)) {
      await advance(at - (W.now - t0)); ctx.trans()
      if (at === stopAt) { sch.stop(); stopped = true }
      if (writes.includes(at) && !stopped) { dirty++; sch.notifyChange() }
      await drain()
    }
    sch.stop()
    await advance(400000)
    const cut = (l) => l.filter((t) => t < stopAt)
    const wp = what.endsWith('two writes') && stopAt <= 29999 ? [] : cut(wantPush), wl = cut(wantPull)
    if (canon(pushes) !== canon(wp) || canon(pulls) !== canon(wl)) ctx.violation(`default:${what}`, `${what}, stopped at ${stopAt} ms: pushes at ${canon(pushes)}, pulls at ${canon(pulls)}, expected ${canon(wp)} and ${canon(wl)}`)
    ctx.state(['default', what, stopAt])
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of event histories (writes, time steps, completions and failures, forced runs, stop and start) on the real scheduler under virtual time, checked against timing rules',
  rule: 'no two pushes at once, none too early or too often, every change pushed by its deadline',
  modules: { hub: '@noy-db/hub', store: '@noy-db/hub/store' },
  bounds: (t) => `8 policies; all histories of ${t === 'quick' ? 4 : 5} of ${EVENTS.length} events and of ${t === 'quick' ? 6 : 7} of ${SHORT.length} push events; all combinations of unload and focus hooks`,
  assumptions: ['timers fire on time (virtual clock)', 'the push callback settles', 'a push that failed is attempted again at the next write, tick or forced push, not by itself', 'changes made before a stop wait for the next change, tick or forced push', 'notifyChange is called once per write'],
  units(tier) {
    const q = tier === 'quick', out = []
    for (const name of Object.keys(POLICIES)) {
      for (let f = 0; f < EVENTS.length; f++) out.push({ name, kind: 'all', f, len: q ? 4 : 5 })
      if (!name.startsWith('manual')) for (let f = 0; f < SHORT.length; f++) for (let g = 0; g < SHORT.length; g++) out.push({ name, kind: 'push', f, g, len: q ? 6 : 7 })
    }
    out.push({ kind: 'hooks' }, { kind: 'defaults' })
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'hooks') return hooks(ctx)
    if (u.kind === 'defaults') return defaults(ctx)
    if (u.kind === 'all') { for (const rest of sequences(EVENTS.length, u.len - 1)) await run(ctx, u.name, [u.f, ...rest].map((i) => EVENTS[i])); return }
    for (const rest of sequences(SHORT.length, u.len - 2)) await run(ctx, u.name, [u.f, u.g, ...rest].map((i) => SHORT[i]))
  },
}
void canon
