// P06 — no AES-GCM key ever sees the same nonce twice, and nonces come from the CSPRNG.
import { resetWorld, W, settle } from '../lib/world.mjs'
import { sequences } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB } from '../lib/noy.mjs'
import { FEATURES, startProgram } from '../lib/features.mjs'

const NAMES = Object.keys(FEATURES)
async function run(nb, seq, seed) {
  resetWorld(seed, { tick: 1, log: true })
  let S = null, n = 0
  try {
    S = await settle(() => startProgram(nb, plainStore(nb.hub, new Data()), plainStore(nb.hub, new Data(), null, { name: 'remote' })))
    for (const f of seq) { await settle(() => FEATURES[f](S)); n++ }
  } catch { /* judged by P05 */ }
  return { log: W.log, n }
}
export default {
  level: 'model_checking',
  technique: 'exhaustive program enumeration on the real code with a monitor on every AES-GCM call; each program run under two independent random streams',
  modules: HUB,
  bounds: () => `all programs of 1 to 3 feature operations over ${NAMES.length} features, each under 2 cryptographic random streams`,
  assumptions: ['the platform CSPRNG does not repeat (the stand-in generator never does within a program)', 'opt-in deterministic fields may repeat a nonce only for the identical plaintext and key'],
  units() { return NAMES.map((_, i) => ({ i, len: 3 })) },
  async runUnit(u, ctx) {
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(NAMES.length, len - 1)) {
      const seq = [u.i, ...rest].map((i) => NAMES[i])
      ctx.exec(2); ctx.last = seq.join('+')
      const a = await run(ctx.nb, seq, 1), b = await run(ctx.nb, seq, 2)
      ctx.trans(a.n + b.n)
      const det = seq.includes('det') // the only operation that opts in to deterministic encryption
      const uses = new Map()
      for (const e of a.log.enc) {
        const k = `${e.key}:${e.iv}`
        if (e.ivLen !== 12) ctx.violation(`ivlen:${seq.join('+')}`, `program ${seq.join(' ; ')}: AES-GCM called with a ${e.ivLen}-byte nonce`)
        const prev = uses.get(k)
        const pt = Buffer.from(e.pt).toString('latin1')
        if (prev !== undefined && !(det && prev === pt)) ctx.violation(`reuse:${seq.join('+')}`, `program ${seq.join(' ; ')}: nonce ${e.iv} used twice with one key: first for ${JSON.stringify(prev.slice(0, 80))}, then for ${JSON.stringify(pt.slice(0, 80))}`)
        uses.set(k, pt)
      }
      const ivs = new Set(a.log.enc.map((e) => e.iv))
      for (const e of b.log.enc) if (ivs.has(e.iv)) { ctx.violation(`predictable:${seq.join('+')}`, `program ${seq.join(' ; ')}: nonce ${e.iv} does not depend on the cryptographic random source (same in two runs with different randomness) for ${JSON.stringify(Buffer.from(e.pt).toString('latin1').slice(0, 80))}`); break }
      const keys = new Set(a.log.generated.map((k) => k.toString('hex')))
      if (keys.size !== a.log.generated.length) ctx.violation(`keyreuse:${seq.join('+')}`, `program ${seq.join(' ; ')}: a generated key repeats`)
      for (const k of b.log.generated) if (keys.has(k.toString('hex'))) ctx.violation(`keypredict:${seq.join('+')}`, `program ${seq.join(' ; ')}: a generated key does not depend on the cryptographic random source`)
      ctx.count('gcm_encryptions', a.log.enc.length + b.log.enc.length)
      ctx.state(seq.join('+') + a.log.enc.length)
      if (ctx.executions === 2) ctx.sample({ program: seq, encryptions: a.log.enc.length, first_iv: a.log.enc[0]?.iv })
    }
  },
}
