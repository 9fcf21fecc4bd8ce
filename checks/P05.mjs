// P05 — nothing a store ever receives reveals record contents, secrets or keys.
import { resetWorld, W, settle } from '../lib/world.mjs'
import { sequences, canon } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB } from '../lib/noy.mjs'
import { FEATURES, startProgram } from '../lib/features.mjs'

const NAMES = Object.keys(FEATURES)
// every textual form in which a secret could be smuggled into a store call
function forms(buf) {
  const out = new Set()
  out.add(buf.toString('latin1'))
  out.add(buf.toString('hex'))
  for (let o = 0; o < 3; o++) {
    const b = Buffer.concat([Buffer.alloc(o), buf]).toString('base64').replace(/=+$/, '')
    // drop the characters that depend on neighbours
    const from = Math.ceil((o * 8) / 6)
    const to = Math.floor(((o + buf.length) * 8) / 6)
    const core = b.slice(from, to)
    out.add(core)
    out.add(core.replaceAll('+', '-').replaceAll('/', '_'))
  }
  return [...out]
}
export default {
  level: 'model_checking',
  technique: 'exhaustive program enumeration on the real code with taint monitoring of every store call, backup and bundle',
  modules: HUB,
  bounds: () => `all programs of 1 to 3 feature operations over ${NAMES.length} features (with a sync remote), every store argument scanned for every secret in raw, hex, base64 and base64url form at every alignment`,
  assumptions: ['vault names, collection names, record ids, user ids, roles, permissions, slot names, timestamps and versions are public by design', 'ciphertext leaks nothing (AES-GCM, AES-KW are ideal)', 'deterministic fields may reveal equality (documented opt-in)'],
  units() { return NAMES.map((_, i) => ({ i, len: 3 })) },
  async runUnit(u, ctx) {
    const seen = new Set()
    for (let len = 1; len <= u.len; len++) for (const rest of sequences(NAMES.length, len - 1)) {
      const seq = [u.i, ...rest].map((i) => NAMES[i])
      resetWorld(1, { tick: 1, log: true })
      const calls = []
      const rec = (who) => (m, a) => { calls.push(`${who}.${m} ${JSON.stringify(a)}`); if (m === 'put') seen.add(a[1]) }
      ctx.exec(); ctx.last = seq.join('+')
      let S, failed = null
      try {
        S = await settle(() => startProgram(ctx.nb, plainStore(ctx.nb.hub, new Data(), rec('local')), plainStore(ctx.nb.hub, new Data(), rec('remote'), { name: 'remote' })))
        for (const f of seq) { await settle(() => FEATURES[f](S)); ctx.trans() }
      } catch (e) { failed = e }
      if (failed) ctx.count('programs_ended_by_an_error')
      if (failed && len === 1) ctx.violation(`program:${seq.join('+')}:${failed.name}`, `feature ${seq[0]} fails: ${failed.stack}`)
      const needles = []
      for (const s of S?.secrets ?? []) for (const f of forms(Buffer.from(s.text, 'utf8'))) needles.push([f, s.what])
      for (const k of [...W.log.generated, ...W.log.derived]) { for (const f of forms(k)) needles.push([f, 'key material']) }
      const hay = calls.concat((S?.out ?? []).map(([w, t]) => `${w} ${t}`))
      const all = hay.join('\n')
      ctx.count('store_calls_scanned', calls.length)
      for (const [f, what] of needles) {
        if (all.includes(f)) {
          const where = hay.find((h) => h.includes(f)) ?? ''
          const m = /^(\w+\.?\w*) \["[^"]*","([^"]*)"/.exec(where)
          ctx.violation(`leak:${seq.join('+')}:${what}`, `program ${seq.join(' ; ')}: ${what} reaches ${m ? `${m[1]} ${m[2]}` : where.slice(0, 40)} in the clear: ${where.slice(0, 300)}`)
          break
        }
      }
      // every stored payload is authenticated ciphertext: iv present wherever data is not key-wrapping metadata
      for (const c of calls) {
        if (!c.startsWith('local.put ') && !c.startsWith('remote.put ')) continue
        const [, coll, id, env] = JSON.parse(c.slice(c.indexOf(' ') + 1))
        if (coll === '_keyring' || coll === '_sync' || coll === '_meta' || coll.startsWith('_presence_')) continue // metadata; presence encrypts inside
        if (typeof env?._iv === 'string' && env._iv !== '' && !/^[A-Za-z0-9+/_-]{20,}=*$/.test(env._data)) ctx.violation(`plain-data:${coll.replace(/\d+/g, 'N')}`, `program ${seq.join(' ; ')} stores a payload that is no ciphertext in ${coll}/${id}: ${JSON.stringify(env).slice(0, 200)}`)
        if (typeof env?._iv !== 'string' || env._iv === '') ctx.violation(`plain-envelope:${coll.replace(/\d+/g, 'N')}`, `program ${seq.join(' ; ')} stores an unencrypted envelope in ${coll}/${id}: ${JSON.stringify(env).slice(0, 200)}`)
      }
      ctx.state(seq.join('+') + calls.length)
      if (ctx.executions === 1) ctx.sample({ program: seq, store_calls: calls.length, example: calls.find((c) => c.includes('plain'))?.slice(0, 300) })
    }
    ctx.count('collections_written', seen.size)
  },
}
