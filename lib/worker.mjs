import path from 'node:path'
import { install, resetWorld, real } from './world.mjs'
import { hash, canon } from './explore.mjs'
import { VERIF } from './build.mjs'

const [ID, nbPath, tier, seed, dir] = process.argv.slice(2)
install()
const spec = (await import(path.join(VERIF, 'checks', `${ID}.mjs`))).default
const nb = await import(nbPath)
const states = new Set()
process.on('unhandledRejection', (e) => { if (current) current.unhandled.push(e) })
let current = null

// heartbeat: lets the driver tell a hung execution from a long unit
const beat = () => { if (current) process.send({ t: 'hb', i: current.i, n: current.beat ?? 0, last: current.last ?? null }) }
real.setInterval(beat, 1000).unref()
let beaten = performance.now()
/** Units that never leave the microtask queue starve the interval. */
const tick = () => { const t = performance.now(); if (t - beaten > 1000) { beaten = t; beat() } }

class Ctx {
  constructor(i, unit, replay) {
    this.i = i; this.unit = unit; this.tier = tier; this.seed = Number(seed); this.nb = nb; this.replay = replay; this.dir = dir
    this.executions = 0; this.transitions = 0; this.counters = {}; this.violations = []; this.samples = []; this.keys = new Map(); this.incomplete = null; this.unhandled = []
  }
  exec(n = 1) { this.executions += n; this.beat = (this.beat ?? 0) + 1; tick() }
  trans(n = 1) { this.transitions += n; this.beat = (this.beat ?? 0) + 1 }
  count(k, n = 1) { this.counters[k] = (this.counters[k] ?? 0) + n }
  state(v) { states.add(hash(typeof v === 'string' ? v : canon(v))) }
  sample(s) { if (this.samples.length < 2) this.samples.push(s) }
  capped(why) { this.incomplete = why }
  /** key: stable identity of the failing history/input; what: human text */
  violation(key, what, replay) {
    const n = (this.keys.get(key) ?? 0) + 1
    this.keys.set(key, n)
    if (n > 1 || this.violations.length >= 60) { this.count('repeat_violations'); return }
    this.violations.push({ key, what: String(what).slice(0, 1500), unit: this.unit, case: replay ?? null })
  }
}
process.on('message', async (m) => {
  if (m.t === 'end') { process.send({ t: 'states', states: [...states] }, () => process.exit(0)); return }
  const ctx = new Ctx(m.i, m.unit, m.replay)
  current = ctx
  try {
    resetWorld(1)
    await spec.runUnit(m.unit, ctx)
    process.send({ t: 'done', i: m.i, executions: ctx.executions, transitions: ctx.transitions, counters: ctx.counters, violations: ctx.violations, samples: ctx.samples, incomplete: ctx.incomplete })
  } catch (e) {
    if (e && e.harness) { process.send({ t: 'fatal', error: `unit ${JSON.stringify(m.unit).slice(0, 300)}: ${e?.stack ?? e}` }); return }
    // The unchanged tree never throws out of a unit, so an escape is behaviour of the code under test.
    ctx.violation(`unexpected:${e?.name}`, `unexpected exception: ${e?.stack ?? e}`)
    process.send({ t: 'done', i: m.i, executions: ctx.executions, transitions: ctx.transitions, counters: ctx.counters, violations: ctx.violations, samples: ctx.samples, incomplete: 'exception' })
  }
})
process.send({ t: 'ready' })
