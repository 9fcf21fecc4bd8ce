// vmc driver: node lib/run.mjs <ID> [--tier quick|thorough] [--replay file]
import { fork } from 'node:child_process'
import { existsSync, mkdirSync, readFileSync, writeFileSync } from 'node:fs'
import path from 'node:path'
import os from 'node:os'
import { bundle, scratchDir, dropScratch, VERIF } from './build.mjs'

const argv = process.argv.slice(2)
const ID = argv[0]
const opt = (n, d) => { const i = argv.indexOf(n); return i >= 0 ? argv[i + 1] : d }
const tier = opt('--tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick')
const seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 1
const replay = opt('--replay', null)
const only = opt('--unit', null)
const t0 = Date.now()
const HARD_MS = Number(opt('--timeout', tier === 'quick' ? 840 : 3 * 3600)) * 1000

const HANG_MS = Number(opt('--hang', 60)) * 1000
const file = path.join(VERIF, 'checks', `${ID}.mjs`)
if (!existsSync(file)) { console.error(`no check ${ID}`); process.exit(2) }
const spec = (await import(file)).default

const dir = scratchDir(ID)
process.on('exit', () => dropScratch(dir))
for (const s of ['SIGINT', 'SIGTERM']) process.on(s, () => process.exit(3))

let nb
try {
  nb = await bundle(dir, spec.modules, spec.bundleOpts)
} catch (e) {
  console.error('BUILD FAILED', e?.message ?? e)
  process.exit(2)
}

const known = JSON.parse(readFileSync(path.join(VERIF, 'known-findings.json'), 'utf8'))
const knownFor = known.findings.filter((f) => f.property === ID)

let units = spec.units(tier)
if (only !== null) units = [units[Number(only)]]
let rep = null
if (replay) { rep = JSON.parse(readFileSync(replay, 'utf8')); units = [rep.unit] }
const W = replay || only !== null ? 1 : Math.max(1, Math.min(Number(process.env.VMC_WORKERS || os.availableParallelism?.() || 8), 8, units.length))

const total = { executions: 0, transitions: 0, states: new Set(), counters: {}, samples: [], violations: [], incomplete: [] }
const queue = units.map((u, i) => i)
let fatal = null
await new Promise((resolve) => {
  let live = W
  const kids = []
  const timer = setTimeout(() => { fatal = `timeout after ${HARD_MS / 1000}s`; for (const k of kids) k.kill('SIGKILL'); resolve() }, HARD_MS)
  for (let w = 0; w < W; w++) {
    const k = fork(path.join(VERIF, 'lib', 'worker.mjs'), [ID, nb, tier, String(seed), dir], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'], execArgv: ['--max-old-space-size=3000', '--no-warnings'] })
    kids.push(k)
    let closed = false, cur = null, beat = null, beatAt = Date.now(), lastInfo = null
    const dog = setInterval(() => {
      if (cur === null || Date.now() - beatAt < HANG_MS) return
      // an execution of the code under test neither finishes nor makes progress
      total.violations.push({ key: 'hang', what: `an execution makes no progress for ${HANG_MS / 1000}s (operation never settles or loops forever)${lastInfo ? `: ${lastInfo}` : ''}`, unit: units[cur], case: null })
      total.incomplete.push('hang'); closed = true; cur = null; k.kill('SIGKILL')
    }, 1000)
    const give = () => {
      if (!process.argv.includes('--keys') && total.violations.filter((v) => !isKnown(v)).length >= 5) queue.length = 0
      const i = queue.shift()
      if (i === undefined) { cur = null; k.send({ t: 'end' }); return }
      cur = i; beat = null; beatAt = Date.now(); lastInfo = null
      k.send({ t: 'unit', i, unit: units[i], replay: rep })
    }
    k.on('message', (m) => {
      if (m.t === 'ready') return give()
      if (m.t === 'hb') { if (m.i === cur && m.n !== beat) { beat = m.n; beatAt = Date.now() } if (m.last) lastInfo = m.last; return }
      if (m.t === 'log') { console.log(m.s); return }
      if (m.t === 'done') {
        total.executions += m.executions
        total.transitions += m.transitions
        for (const [c, n] of Object.entries(m.counters)) total.counters[c] = (total.counters[c] ?? 0) + n
        for (const v of m.violations) total.violations.push(v)
        for (const s of m.samples) if (total.samples.length < 400) total.samples.push({ i: m.i, s })
        if (m.incomplete) total.incomplete.push(m.incomplete)
        return give()
      }
      if (m.t === 'states') { for (const s of m.states) total.states.add(s); closed = true; return }
      if (m.t === 'fatal') { fatal = m.error; queue.length = 0; k.kill(); return }
    })
    k.on('exit', (code, sig) => {
      clearInterval(dog)
      if (!closed && !fatal) fatal = `worker exited early code=${code} signal=${sig}`
      if (--live === 0) { clearTimeout(timer); resolve() }
    })
  }
})
function isKnown(v) { return knownFor.some((f) => (f.keys ?? []).includes(v.key) || (f.match ?? []).some((p) => new RegExp(p).test(v.key))) }

const wall = (Date.now() - t0) / 1000
if (fatal) { console.error(`CHECK ERROR ${ID}: ${fatal}`); process.exit(2) }

const unknown = total.violations.filter((v) => !isKnown(v))
const seen = knownFor.filter((f) => total.violations.some((v) => (f.keys ?? []).includes(v.key) || (f.match ?? []).some((p) => new RegExp(p).test(v.key))))
for (const f of seen) console.log(`KNOWN-FINDING: property=${ID} ${f.what}`)

total.samples.sort((a, b) => a.i - b.i)
const cov = { ...total.counters }
const samples = total.samples.slice(0, 1).concat(total.samples.slice(Math.floor(total.samples.length / 2), Math.floor(total.samples.length / 2) + 2), total.samples.slice(-1)).map((x) => x.s)
const exhaustive = total.incomplete.length === 0 && unknown.length === 0 && !replay && only === null
let coverage
if (spec.level === 'model_checking') {
  coverage = { states: total.states.size, transitions: total.transitions, traces_validated_against_impl: total.executions, samples, exhaustive, ...cov }
} else {
  coverage = { evaluations: total.executions, distinct_nontrivial: total.states.size, rule: spec.rule, samples, exhaustive, steps: total.transitions, ...cov }
}
coverage.bounds = typeof spec.bounds === 'function' ? spec.bounds(tier) : spec.bounds
coverage.units = units.length
if (total.incomplete.length) coverage.capped = total.incomplete.slice(0, 20)
const ev = { property: ID, tier, seed, level: spec.level, coverage, assumptions: spec.assumptions ?? [], wall_s: wall, violations: unknown.length, known_findings: seen.map((f) => f.what) }
if (!replay && only === null) {
  mkdirSync(path.join(VERIF, 'evidence'), { recursive: true })
  writeFileSync(path.join(VERIF, 'evidence', `${ID}.json`), JSON.stringify(ev, null, 1) + '\n')
}
console.log(`${ID} tier=${tier} units=${units.length} executions=${total.executions} transitions=${total.transitions} states=${total.states.size} exhaustive=${exhaustive} wall=${wall.toFixed(1)}s ${JSON.stringify(cov)}`)
if (argv.includes('--keys')) {
  const ks = {}
  for (const v of total.violations) ks[v.key] = (ks[v.key] ?? 0) + 1
  for (const [k, n] of Object.entries(ks)) console.log(`KEY ${n} ${k} :: ${total.violations.find((v) => v.key === k).what}`)
}
if (unknown.length) {
  const rd = path.join(VERIF, 'replays')
  mkdirSync(rd, { recursive: true })
  let n = 0
  for (const v of unknown.slice(0, 5)) {
    const f = path.join(rd, `${ID}-${++n}.json`)
    writeFileSync(f, JSON.stringify({ property: ID, tier, ...v }, null, 1) + '\n')
    console.log(`VIOLATION property=${ID} replay=${f}`)
    console.log(`  ${v.key}: ${v.what}`)
  }
  process.exit(1)
}
process.exit(0)
