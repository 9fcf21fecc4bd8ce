// P10 — tamper evidence: the ledger records every write, and any change the store makes to
// ciphertext, ledger entries or the pairing of records is detected.
import { resetWorld, settle } from '../lib/world.mjs'
import { sequences, canon, same } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const OPS = ['putA', 'putB', 'putY', 'delA', 'delB', 'many', 'tx', 'blob', 'revert', 'bobA', 'lazyL']
const IDS = { x: ['a', 'b', 'm', 'z'], y: ['c'], l: ['k'] }
const b64flip = (s, byte, mask) => { const b = Buffer.from(s, 'base64'); b[byte] ^= mask; return b.toString('base64') }

export default {
  level: 'model_checking',
  technique: 'exhaustive write histories on the real code, each followed by every single tampering of the stored envelopes; detection oracle over reads, ledger verification and backup verification',
  modules: HUB,
  bounds: (t) => `all write histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} operations; after each: every deletion, swap, replacement and insertion among ledger entries and records and replay of every earlier ciphertext; for histories of length <= ${t === 'quick' ? 1 : 2} additionally every byte of every ciphertext and IV flipped`,
  assumptions: ['AES-GCM and SHA-256 are ideal', 'the unauthenticated envelope metadata (_v, _ts, _by) is outside the claim', 'dropping only the newest ledger entries together with their effects is a rollback that no local check can see', 'restoring a deleted record next to an untouched ledger is not cross-checked (documented)'],
  units(tier) { const len = tier === 'quick' ? 3 : 4; const out = []; for (let i = 0; i < OPS.length; i++) for (let j = -1; j < OPS.length; j++) out.push({ i, j, len, flips: tier === 'quick' ? 1 : 2 }); out.push({ plain: true }); return out },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    if (u.plain) return plain(ctx)
    const open = async (data) => {
      const db = await openDb(nb, plainStore(nb.hub, data), { except: ['sync', 'session'] })
      const v = await db.openVault('V')
      return { db, v, x: v.collection('x'), y: v.collection('y'), l: v.collection('l', { prefetch: false, cache: { maxRecords: 4 } }) }
    }
    const observe = async (data, want) => {
      // everything a user can see, plus the verdicts of the verification calls
      const out = { reads: {}, flagged: [] }
      const o = await attempt(() => open(data))
      if (!o.ok) { out.flagged.push(`open:${o.err.name}`); return out }
      const S = o.val
      const rd = async (k, f) => { const r = await attempt(f); if (r.ok) out.reads[k] = canon(r.val); else out.flagged.push(`${k}:${r.err.name}`) }
      await settle(async () => {
        for (const c of ['x', 'y', 'l']) for (const id of IDS[c]) {
          await rd(`${c}/${id}`, () => S[c].get(id))
          if (want !== 'records') await rd(`hist ${c}/${id}`, async () => (await S[c].history(id)).map((h) => [h.version, h.record]))
        }
        await rd('list x', async () => (await S.x.list()).map(canon).sort())
        await rd('blob', async () => { const b = await S.x.blob('a').get('s'); return b && [...b] })
        await rd('entries', async () => S.v.ledger().entries())
        const v1 = await attempt(() => S.v.ledger().verify()); if (!v1.ok || !v1.val.ok) out.flagged.push('verify')
        const v2 = await attempt(() => S.v.verifyBackupIntegrity()); if (!v2.ok || !v2.val.ok) out.flagged.push('integrity')
      })
      S.db.close()
      return out
    }
    for (let len = 1; len <= u.len; len++) {
      if (len === 1 && u.j >= 0) continue
      if (len > 1 && u.j < 0) continue
      for (const rest of sequences(OPS.length, Math.max(0, len - 2))) {
        const seq = (len === 1 ? [u.i] : [u.i, u.j, ...rest]).map((i) => OPS[i])
        resetWorld(1, { tick: 1 })
        const data = new Data()
        const S = await open(data)
        const log = [] // expected ledger
        const ver = {}
        const old = [] // earlier ciphertexts [coll, id, env]
        let n = 0, skip = false
        const wrote = (c, id) => { ver[`${c}/${id}`] = (ver[`${c}/${id}`] ?? 0) + 1; log.push(['put', c, id, ver[`${c}/${id}`], 'owner']) }
        const del = (c, id) => { if (ver[`${c}/${id}`]) { log.push(['delete', c, id, ver[`${c}/${id}`], 'owner']); delete ver[`${c}/${id}`] } else log.push(null) }
        await settle(async () => {
          for (const op of seq) {
            n++
            switch (op) {
              case 'putA': await S.x.put('a', { n }); wrote('x', 'a'); break
              case 'putB': await S.x.put('b', { n }); wrote('x', 'b'); break
              case 'putY': await S.y.put('c', { n }); wrote('y', 'c'); break
              case 'delA': if (!ver['x/a']) { skip = true; return } await S.x.delete('a'); del('x', 'a'); break
              case 'delB': if (!ver['x/b']) { skip = true; return } await S.x.delete('b'); del('x', 'b'); break
              case 'many': await S.x.putMany([['a', { n }], ['m', { n: n + 100 }]]); wrote('x', 'a'); wrote('x', 'm'); break
              case 'tx': await S.db.transaction(async (tx) => { tx.vault('V').collection('x').put('b', { n }); tx.vault('V').collection('y').put('c', { n }) }); wrote('x', 'b'); wrote('y', 'c'); break
              case 'blob': await S.x.blob('a').put('s', new Uint8Array([n, 7]), { compress: false }); break
              case 'revert': if ((ver['x/a'] ?? 0) < 2) { skip = true; return } await S.x.revert('a', 1); wrote('x', 'a'); break
              case 'lazyL': await S.l.put('k', { n }); wrote('l', 'k'); break
              case 'bobA': {
                if (ver.bob) { skip = true; return }
                ver.bob = 1
                await S.x.put('b', { n: n + 500 }); wrote('x', 'b')
                await S.db.grant('V', { userId: 'bob', displayName: 'b', role: 'operator', passphrase: 'bob passphrase 1', permissions: { x: 'rw' } })
                const db2 = await openDb(nb, plainStore(nb.hub, data), { user: 'bob', secret: 'bob passphrase 1', except: ['sync', 'session'] })
                const v2 = await db2.openVault('V')
                await v2.collection('x').put('z', { n: n + 600 }); wrote('x', 'z'); log.at(-1)[4] = 'bob'
                db2.close()
                break
              }
            }
            const snap = data.snapshot().V
            for (const c of ['x', 'y', 'l']) for (const [id, e] of Object.entries(snap[c] ?? {})) old.push([c, id, e])
          }
        })
        if (skip) continue
        S.db.close()
        ctx.exec(); ctx.trans(seq.length); ctx.last = seq.join(' ')
        const bad = (k, w) => ctx.violation(`${k}:${seq.join('+')}`, `${seq.join(' ; ')}: ${w}`)
        // 1. untampered: everything verifies and the ledger tells the story
        const good = await observe(data)
        if (good.flagged.length) { bad('false-alarm', `untampered vault is reported as damaged: ${good.flagged.join(', ')}`); continue }
        const S2 = await open(data)
        const entries = (await settle(() => S2.v.ledger().entries())).map((e) => [e.op, e.collection, e.id, e.version, e.actor])
        if (!log.includes(null) && !same(entries.map((e) => (e[0] === 'delete' ? [e[0], e[1], e[2], null, e[4]] : e)), log.map((e) => (e[0] === 'delete' ? [e[0], e[1], e[2], null, e[4]] : e)))) bad('ledger', `ledger says ${JSON.stringify(entries)}, the writes were ${JSON.stringify(log)}`)
        const head = await settle(() => S2.v.ledger().head())
        const vr = await settle(() => S2.v.ledger().verify())
        if ((head?.length ?? 0) !== entries.length || (head && head.hash !== vr.head)) bad('head', `head ${JSON.stringify(head?.length)} does not match the ${entries.length} entries`)
        for (let from = -1; from <= entries.length + 1; from++) for (let to = -1; to <= entries.length + 1; to++) {
          const part = await settle(() => S2.v.ledger().entries({ from, to }))
          if (!same(part.map((e) => e.index), [...entries.keys()].filter((k) => k >= from && k < to))) bad('range', `entries from ${from} to ${to} of ${entries.length} are ${part.map((e) => e.index)}`)
        }
        S2.db.close()
        ctx.state([log, ver])
        // 2. every single tampering is noticed
        const snap = data.snapshot()
        const V = snap.V
        const check = async (kind, mutate) => {
          const s2 = JSON.parse(JSON.stringify(snap)); mutate(s2.V)
          const d2 = new Data(); d2.restore(s2)
          const o = await observe(d2)
          ctx.trans(); ctx.count('tamperings')
          if (o.flagged.length) { ctx.count('detected'); return }
          if (same(o.reads, good.reads)) { ctx.count('harmless'); return }
          const diff = Object.keys(good.reads).find((k) => o.reads[k] !== good.reads[k])
          bad(`undetected:${kind}`, `${kind} is not detected by any read or verification, and ${diff} now reads ${String(o.reads[diff]).slice(0, 150)} instead of ${String(good.reads[diff]).slice(0, 150)}`)
        }
        const led = Object.keys(V._ledger ?? {}).sort()
        for (let k = 0; k < led.length; k++) {
          if (k < led.length - 1) await check('dropped ledger entry', (w) => { delete w._ledger[led[k]] })
          for (let j = 0; j < led.length; j++) if (j !== k) {
            await check('replaced ledger entry', (w) => { w._ledger[led[k]] = w._ledger[led[j]] })
            if (j > k) await check('swapped ledger entries', (w) => { const t = w._ledger[led[k]]; w._ledger[led[k]] = w._ledger[led[j]]; w._ledger[led[j]] = t })
          }
          await check('appended ledger entry', (w) => { w._ledger[String(led.length).padStart(10, '0')] = w._ledger[led[k]] })
          if (k < led.length - 1) await check('closed gap in ledger', (w) => { for (let q = k; q < led.length - 1; q++) w._ledger[led[q]] = w._ledger[led[q + 1]]; delete w._ledger[led.at(-1)] })
        }
        const recs = []
        for (const c of ['x', 'y', 'l']) for (const id of Object.keys(V[c] ?? {})) recs.push([c, id])
        for (const [c, id] of recs) {
          await check('deleted record', (w) => { delete w[c][id] })
          for (const [c2, id2] of recs) if (c2 + id2 > c + id) await check('swapped records', (w) => { const t = w[c][id]; w[c][id] = w[c2][id2]; w[c2][id2] = t })
        }
        for (const [c, id, env] of old) if (V[c]?.[id] && V[c][id]._data !== env._data) await check('rolled-back record', (w) => { w[c][id] = { ...env, _v: w[c][id]._v } })
        for (const [c, id] of recs) for (const [c2, id2, env] of old) if ((c2 !== c || id2 !== id) && V[c][id]._data !== env._data) await check('substituted record', (w) => { w[c][id] = { ...w[c][id], _iv: env._iv, _data: env._data } })
        // 3. every byte
        if (seq.length <= u.flips) {
          for (const c of Object.keys(V)) {
            if (c === '_keyring' || c === '_meta' || c === '_sync') continue
            for (const id of Object.keys(V[c])) for (const f of ['_data', '_iv']) {
              const size = Buffer.from(V[c][id][f], 'base64').length
              for (let b = 0; b < size; b++) await check(`flipped byte of ${f} in ${c.startsWith('_') ? c : 'a record'}`, (w) => { w[c][id][f] = b64flip(w[c][id][f], b, 1 << (b % 8)) })
              if (size > 4) await check(`truncated ${f} in ${c.startsWith('_') ? c : 'a record'}`, (w) => { w[c][id][f] = Buffer.from(w[c][id][f], 'base64').subarray(0, size - 1).toString('base64') })
            }
          }
        }
        if (ctx.executions <= 1) ctx.sample({ history: seq, ledger: entries })
      }
    }
  },
}

/** Without encryption the chain itself has to show every edit of an entry (but of the newest one's own content). */
async function plain(ctx) {
  const { nb } = ctx
  for (let n = 1; n <= 5; n++) for (const gone of [false, true]) {
    resetWorld(1, { tick: 1 })
    const data = new Data()
    const db = await openDb(nb, plainStore(nb.hub, data), { encrypt: false, except: ['sync', 'session'] })
    const v = await db.openVault('V')
    await settle(async () => { for (let i = 0; i < n; i++) await v.collection('x').put(`r${i % 2}`, { i }); if (gone) await v.collection('x').delete('r0') })
    db.close()
    const snap = data.snapshot(), keys = Object.keys(snap.V._ledger).sort()
    const verdict = async (mutate) => {
      ctx.exec(); ctx.trans()
      const s2 = JSON.parse(JSON.stringify(snap)); mutate(s2.V._ledger)
      const d2 = new Data(); d2.restore(s2)
      const db2 = await openDb(nb, plainStore(nb.hub, d2), { encrypt: false, except: ['sync', 'session'] })
      const v2 = await db2.openVault('V')
      const r = await settle(() => attempt(() => v2.ledger().verify()))
      db2.close()
      return r
    }
    const r0 = await verdict(() => {})
    if (!r0.ok || !r0.val.ok || r0.val.length !== keys.length) { ctx.violation('plain:clean', `${n} writes without encryption: verify gives ${JSON.stringify(r0.val ?? r0.err?.message)}`); return }
    const FIELDS = { op: ['put', 'delete', 'x'], collection: ['x', 'y', ''], id: ['r0', 'r1', 'zz'], version: [0, 1, 2, 7], ts: ['2020-01-01T00:00:00.000Z', ''], actor: ['owner', 'eve', ''], payloadHash: ['', '00'], prevHash: ['', '00', 'f'.repeat(64)], index: [0, 1, 2, 3, 4, 5, 6, 9, -1, 1.5] }
    for (const [k, key] of keys.entries()) for (const [f, vals] of Object.entries(FIELDS)) for (const val of vals) {
      if (JSON.parse(snap.V._ledger[key]._data)[f] === val) continue
      if (k === keys.length - 1 && f !== 'index' && f !== 'prevHash') continue
      const r = await verdict((l) => { l[key]._data = JSON.stringify({ ...JSON.parse(l[key]._data), [f]: val }) })
      if (r.ok && r.val.ok) { ctx.violation(`plain:${f}`, `${keys.length} entries without encryption: entry ${k} with ${f} changed to ${JSON.stringify(val)} passes verification`); return }
      if (r.ok && f !== 'prevHash' && f !== 'index' && r.val.divergedAt !== k + 1) { ctx.violation('plain:where', `${keys.length} entries, ${f} of entry ${k} changed: divergence reported at ${r.val.divergedAt}`); return }
      if (r.ok && (f === 'prevHash' || f === 'index') && r.val.divergedAt !== k) { ctx.violation('plain:where', `${keys.length} entries, ${f} of entry ${k} changed: divergence reported at ${r.val.divergedAt}`); return }
      ctx.state([n, gone, k, f, val])
    }
  }
}
