// P40 — vaults held by one instance or one store are independent of one another.
import { resetWorld, settle, W } from '../lib/world.mjs'
import { sequences, canon, exploreAll } from '../lib/explore.mjs'
import { Data, plainStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName } from '../lib/noy.mjs'

const P = (s) => `${s} correct horse battery`
const NAMES = [['a', 'a::b'], ['a::b', 'a'], ['a', 'b'], ['a', 'a/x'], ['V', 'v'], ['x', 'n'], ['a', 'a#1'], ['owner', 'bob']]
const OPS = ['put', 'del', 'new', 'blob', 'grant', 'revoke', 'rotate', 'secret', 'load', 'dict', 'sync', 'close', 'consent']
const ALL = [...OPS.flatMap((o) => [[o, 0], [o, 1]]), ['list', -1], ['tx', -1], ['reopen', -1]]
const bytes = (s) => new TextEncoder().encode(s)
const STATUS = ['none', 'owner', 'admin', 'operator', 'viewer', 'client', 'wrong', 'revoked', 'expired', 'later']
const RANK = { client: 1, viewer: 2, operator: 3, admin: 4, owner: 5 }
const roleOf = { owner: 'owner', admin: 'admin', operator: 'operator', viewer: 'viewer', client: 'client', later: 'operator' }

/** One history over two vaults of one instance. */
async function history(ctx, names, seq) {
  const nb = ctx.nb
  ctx.exec(); resetWorld(1, { tick: 1 })
  const data = new Data(), remote = new Data(), backup = new Data()
  const stores = [data, remote, backup]
  const what = seq.map(([o, i]) => o + (i < 0 ? '' : ` ${names[i]}`)).join(' ; ')
  ctx.last = what
  const bad = (k, m) => { ctx.violation(`${k}:${names.join(',')}:${seq.map(([o, i]) => o + (i < 0 ? '' : i)).join('+')}`, `vaults ${names.join(' and ')}; ${what}: ${m}`); return false }
  const open = (secret, only) => openDb(nb, plainStore(nb.hub, data), { user: 'owner', secret, except: ['session'], ...(only ? {} : { sync: [{ store: plainStore(nb.hub, remote), role: 'sync-peer' }, { store: plainStore(nb.hub, backup), role: 'backup', label: 'b' }] }) })
  let db = await open(P('one'))
  let events = [], heard = [0, 0]
  const hook = () => db.on('change', (e) => events.push(e))
  hook()
  const M = [0, 1].map((i) => ({ secret: P('one'), recs: { x: { 1: { n: `first ${i}` } }, y: { 1: { n: i } } }, blob: null, users: ['owner'], dict: {}, dirty: 0, pushed: null, consent: 0, closed: false, n: 0 }))
  let V = []
  for (const i of [0, 1]) { V[i] = await db.openVault(names[i]); await V[i].collection('x').put('1', M[i].recs.x[1]); await V[i].collection('y').put('1', M[i].recs.y[1]); V[i].collection('x').subscribe(() => { heard[i]++ }) }
  const dirtyOf = (i) => db.syncStatus(names[i]).dirty
  let count = 0, moved = false
  for (const [op, i] of seq) {
    ctx.trans(); events = []; heard = [0, 0]
    const m = M[i], v = V[i], before = stores.map((d) => d.snapshot()), dirty = [dirtyOf(0), dirtyOf(1)]
    const n = ++count
    const run = async () => {
      if (op === 'put') { await v.collection('x').put('1', { n: `${op}${n}` }); m.recs.x[1] = { n: `${op}${n}` } }
      else if (op === 'del') { await v.collection('x').delete('1'); delete m.recs.x[1] }
      else if (op === 'new') { const c = `n${m.n++}`; await v.collection(c).put('k', { n }); m.recs[c] = { k: { n } } }
      else if (op === 'blob') { await v.collection('y').blob('1').put('f', bytes(`same bytes`)); m.blob = 'same bytes' }
      else if (op === 'grant') { await db.grant(names[i], { userId: 'bob', displayName: 'bob', role: 'admin', passphrase: P('bob') }); m.users = ['bob', 'owner']; m.reads = true }
      else if (op === 'revoke') { if (!m.users.includes('bob')) return; await db.revoke(names[i], { userId: 'bob' }); m.users = ['owner']; m.rotated = true }
      else if (op === 'rotate') { await db.rotate(names[i], ['x', 'y']); m.reads = false; m.rotated = true }
      else if (op === 'secret') { await db.changeSecret(names[i], P(`new${n}`)); m.secret = P(`new${n}`) }
      else if (op === 'load') { if (m.rotated) return; const s = await v.dump(); await v.collection('x').put('1', { n: 'lost' }); await v.load(s) }
      else if (op === 'dict') { await v.dictionary('d').put('k', { en: `w${n}` }); m.dict = { k: `w${n}` } }
      else if (op === 'sync') { await db.sync(names[i]) }
      else if (op === 'close') { if (m.closed) return; await v.closePeriod({ name: 'p1', endDate: '2020-01-31', dateField: 'date' }); m.closed = true }
      else if (op === 'consent') { await v.withConsent({ purpose: 'p', consentHash: 'h' }, () => v.collection('y').get('1')); m.consent++ }
      else if (op === 'list') {
        const l = await db.listAccessibleVaults()
        const want = names.map((n) => `${n} owner`).sort()
        if (canon(l.map((x) => `${x.id} ${x.role}`).sort()) !== canon(want)) bad('list', `the instance lists ${canon(l)} instead of ${canon(want)}`)
      } else if (op === 'tx') {
        await db.transaction(async (tx) => { for (const k of [0, 1]) tx.vault(names[k]).collection('x').put('t', { n: `tx${n}${k}` }) })
        for (const k of [0, 1]) M[k].recs.x.t = { n: `tx${n}${k}` }
      } else if (op === 'reopen') {
        if (M[0].secret !== M[1].secret) return
        db.close(); db = await open(M[0].secret); hook()
        for (const k of [0, 1]) V[k] = await db.openVault(names[k])
      }
    }
    const r = await attempt(() => settle(run))
    if (!r.ok) return bad('fails', `${op} fails: ${errName(r)} ${r.err.message}`)
    const after = stores.map((d) => d.snapshot())
    for (const k of [0, 1]) {
      const joint = op === 'tx' || op === 'reopen'
      if (joint || k === i) continue
      for (let s = 0; s < 3; s++) if (canon(before[s][names[k]] ?? {}) !== canon(after[s][names[k]] ?? {})) return bad('leak', `${op} changes what the ${['local', 'remote', 'backup'][s]} store holds for ${names[k]}`)
      if (heard[k]) return bad('heard', `a subscriber of ${names[k]} is called`)
      if (dirtyOf(k) !== dirty[k]) return bad('dirty', `${op} changes the unsynced count of ${names[k]} from ${dirty[k]} to ${dirtyOf(k)}`)
    }
    for (let s = 0; s < 3; s++) for (const name of Object.keys(after[s])) if (!names.includes(name)) return bad('stray', `${op} stores something under the vault ${name}`)
    for (const e of events) if (!(e.vault === names[i] || (i < 0 && names.includes(e.vault)))) return bad('event', `a change event names the vault ${e.vault}`)
    if (['put', 'del', 'new'].includes(op) && events.length !== 1) return bad('event', `${op} emits ${events.length} change events`)
    if (op === 'put' && !moved && heard[i] !== 1) return bad('heard', `a subscriber of ${names[i]} is called ${heard[i]} times`)
    if (op === 'load' || op === 'reopen') moved = true
    if (op === 'sync') for (const s of [1, 2]) {
      if (dirtyOf(i)) return bad('unsynced', `${dirtyOf(i)} changes are left after sync`)
      for (const c of Object.keys(m.recs)) for (const id of Object.keys(m.recs[c])) if (canon(stores[s].get(names[i], c, id)) !== canon(data.get(names[i], c, id))) return bad('unsynced', `${c}/${id} of ${names[i]} is not in the ${s === 1 ? 'remote' : 'backup'}`)
    }
    for (const k of [0, 1]) { const ok = await contents(db, V[k], names[k], M[k]); if (ok) return bad(`contents${k === i ? '' : '-other'}`, `then ${names[k]} ${ok}`) }
  }
  // a second instance per vault finds the same, with the passphrase of that vault and no other
  for (const k of [0, 1]) {
    const d2 = await open(M[k].secret, true)
    const r = await attempt(async () => { const v = await d2.openVault(names[k]); return (await contents(d2, v, names[k], M[k])) || (await v.ledger().verify()).ok || 'has a broken ledger' })
    if (!r.ok) return bad('reopen', `${names[k]} does not open with its passphrase any more: ${errName(r)} ${r.err.message}`)
    if (r.val !== true) return bad('reopen', `reopened, ${names[k]} ${r.val}`)
    const o = M[1 - k].secret
    if (o !== M[k].secret && (await attempt(async () => (await open(o, true)).openVault(names[k]))).ok) return bad('foreign', `${names[k]} opens with the passphrase of ${names[1 - k]}`)
    const bob = await attempt(async () => { const b = await openDb(nb, plainStore(nb.hub, data), { user: 'bob', secret: P('bob'), except: ['session', 'sync'] }); const v = await b.openVault(names[k]); return M[k].reads ? canon(await v.collection('y').get('1')) : v.role })
    if (bob.ok !== M[k].users.includes('bob') || (bob.ok && bob.val !== (M[k].reads ? canon(M[k].recs.y[1]) : 'admin'))) return bad('member', `bob ${bob.ok ? 'opens' : 'cannot open'} ${names[k]}`)
  }
  ctx.state(canon([names, M]))
}
async function contents(db, v, name, m) {
  const got = {}
  for (const c of await v.collections()) { const coll = v.collection(c); await coll.list(); for (const id of Object.keys(m.recs[c] ?? {}).concat(['1', 't', 'k'])) { const r = await coll.get(id); if (r) (got[c] ??= {})[id] = r } if (await coll.count() !== Object.keys(m.recs[c] ?? {}).length) return `counts ${await coll.count()} records in ${c}` }
  const want = Object.fromEntries(Object.entries(m.recs).filter(([, x]) => Object.keys(x).length))
  if (canon(got) !== canon(want)) return `reads ${canon(got)} instead of ${canon(want)}`
  const b = m.recs.y[1] ? await v.collection('y').blob('1').get('f') : null
  if ((b ? new TextDecoder().decode(b) : null) !== m.blob) return `gives the attachment ${b && new TextDecoder().decode(b)}`
  const u = (await db.listUsers(name)).map((x) => x.userId).sort()
  if (canon(u) !== canon(m.users)) return `lists the users ${u}`
  const d = (await v.dictionary('d').list()).map((e) => [e.key, e.labels.en])
  if (canon(Object.fromEntries(d)) !== canon(m.dict)) return `has the dictionary ${canon(d)}`
  const p = (await v.listPeriods()).length
  if (p !== (m.closed ? 1 : 0)) return `has ${p} closed periods`
  const a = (await v.consentAudit()).length
  if (a !== m.consent) return `has ${a} consent entries instead of ${m.consent}`
  return null
}

/** A vault in which the user u has the given standing. */
async function build(nb, name, status) {
  const data = new Data(), store = plainStore(nb.hub, data)
  const own = status === 'owner'
  const db = await openDb(nb, store, { user: own ? 'u' : 'boss', secret: own ? P('u') : P('boss'), except: ['session', 'sync'] })
  const v = await db.openVault(name)
  await v.collection('x').put('1', { in: name })
  if (!['none', 'owner'].includes(status)) {
    const role = roleOf[status] ?? 'operator'
    await db.grant(name, { userId: 'u', displayName: 'u', role, passphrase: status === 'wrong' ? P('other') : P('u'), permissions: { x: role === 'client' ? 'ro' : 'rw' } })
    if (status === 'revoked') await db.revoke(name, { userId: 'u' })
    if (status === 'expired' || status === 'later') {
      const e = data.coll(name, '_keyring').get('u'), f = JSON.parse(e._data)
      f.expires_at = new Date(W.now + (status === 'later' ? 3600e3 : -3600e3)).toISOString()
      e._data = JSON.stringify(f)
    }
  }
  return data.snapshot()
}
async function listing(ctx, u) {
  const nb = ctx.nb
  resetWorld(1)
  const base = {}
  for (const n of ['A', 'B', 'C']) for (const s of n === 'C' ? ['owner'] : STATUS) base[n + s] = await build(nb, n, s)
  for (const sb of STATUS) for (const order of ['ABC', 'CBA']) for (const pre of ['', 'A', 'B']) for (const min of [undefined, 'client', 'viewer', 'operator', 'admin', 'owner']) {
    ctx.exec(); resetWorld(2)
    const st = { A: u.a, B: sb, C: 'owner' }, data = new Data()
    data.restore(Object.assign({}, ...[...order].map((n) => base[n + st[n]])))
    const db = await openDb(nb, plainStore(nb.hub, data), { user: 'u', secret: P('u'), except: ['session', 'sync'] })
    const can = (n) => roleOf[st[n]] !== undefined
    const what = `u is ${st.A} in A, ${st.B} in B, owner of C${pre ? `, ${pre} opened first` : ''}, minRole ${min}`
    ctx.last = what
    const bad = (k, m) => ctx.violation(`list:${k}:${u.a}:${sb}:${order}:${pre}:${min}`, `${what}: ${m}`)
    if (pre) await attempt(() => db.openVault(pre))
    const before = canon(data.snapshot())
    const want = [...order].filter((n) => can(n) && RANK[roleOf[st[n]]] >= RANK[min ?? 'client']).map((n) => `${n} ${roleOf[st[n]]}`).sort()
    for (const round of ['first', 'second']) {
      const r = await attempt(() => db.listAccessibleVaults(min ? { minRole: min } : undefined))
      if (!r.ok) { bad('fails', `${errName(r)} ${r.err.message}`); break }
      const got = r.val.map((x) => `${x.id} ${x.role}`).sort()
      if (canon(got) !== canon(want)) { bad('wrong', `the ${round} listing gives ${got.join(', ') || 'nothing'} instead of ${want.join(', ') || 'nothing'}`); break }
      if (canon(data.snapshot()) !== before) { bad('writes', 'the listing changes the store'); break }
      if (round === 'first') for (const n of order) {
        const o = await attempt(async () => (await db.openVault(n)).collection('x').get('1'))
        if (o.ok !== can(n)) bad('open', `${n} ${o.ok ? 'opens' : `does not open: ${errName(o)}`}`)
        else if (o.ok && o.val?.in !== n) bad('read', `${n} reads ${canon(o.val)}`)
        else if (o.ok && (await db.openVault(n)).role !== roleOf[st[n]]) bad('role', `in ${n} the role is ${(await db.openVault(n)).role}`)
      }
      ctx.trans()
    }
    ctx.state(canon(want))
  }
}

/** queryAcross over every short list of vaults, outcomes and completion orders. */
const KINDS = ['value', 'undefined', 'error', 'string']
async function across(ctx, u) {
  const nb = ctx.nb
  resetWorld(1)
  const base = Object.assign({}, await build(nb, 'a', 'owner'), await build(nb, 'b', 'operator'), await build(nb, 'n', 'none'))
  const IDS = ['a', 'b', 'n', 'f'], C = [undefined, 1, 2, 3, 9, 0, -1]
  for (const ids of sequences(IDS.length, u.len)) for (const kinds of sequences(KINDS.length, u.len)) {
    if (u.len === 3 && (ids[0] !== u.first || kinds.filter((k) => k !== 0).length > 1)) continue
    for (const c of C) {
      const list = ids.map((i) => IDS[i])
      const r = await exploreAll(async (ch) => {
        ctx.exec(); resetWorld(2)
        const data = new Data(); data.restore(base)
        const db = await openDb(nb, plainStore(nb.hub, data), { user: 'u', secret: P('u'), except: ['session', 'sync'] })
        const err = list.map((_, i) => (KINDS[kinds[i]] === 'error' ? new Error(`boom ${i}`) : `text ${i}`))
        // calls are told apart by the vault; of equal ids the calls come in order
        const calls = [], waiting = []
        let active = 0, peak = 0
        const what = `queryAcross([${list}], concurrency ${c}) with outcomes ${kinds.map((k) => KINDS[k])}`
        ctx.last = what
        const bad = (k, m) => ctx.violation(`across:${k}:${list}:${kinds}:${c}`, `${what}: ${m}`)
        let done = false
        const p = settle(async () => {
          const run = db.queryAcross(list, async (v) => {
            const id = v.name
            const idx = list.findIndex((x, i) => x === id && !calls.includes(i))
            if (idx < 0) { bad('twice', `the callback runs again for ${id}`); return }
            calls.push(idx); active++; peak = Math.max(peak, active)
            await new Promise((res) => waiting.push(res))
            active--
            const k = KINDS[kinds[idx]]
            if (k === 'error' || k === 'string') throw err[idx]
            return k === 'value' ? { idx, id, x: (await v.collection('x').get('1'))?.in ?? null } : undefined
          }, c === undefined ? undefined : { concurrency: c }).finally(() => { done = true })
          while (!done) {
            // let everything that can start get to its gate
            await new Promise((res) => setTimeout(res, 1))
            if (done) break
            if (waiting.length) waiting.splice(waiting.length > 1 ? ch.choose(waiting.length) : 0, 1)[0]()
            ctx.trans()
          }
          return run
        })
        const out = await attempt(() => p)
        if (!out.ok) return bad('fails', `${errName(out)} ${out.err.message}`)
        if (out.val.length !== list.length) return bad('length', `${out.val.length} results`)
        if (peak > Math.max(1, c ?? 1)) bad('peak', `${peak} callbacks run at once`)
        const seen = new Set()
        for (let i = 0; i < list.length; i++) {
          const x = out.val[i]
          if (!x || x.vault !== list[i]) { bad('order', `result ${i} is for ${x?.vault}`); continue }
          if (list[i] === 'n') { if (!x.error || 'result' in x) bad('denied', `no error for the vault without access: ${canon(x)}`); continue }
          // equal ids may run in either order: compare the outcomes as a set below
          if (list.filter((y) => y === list[i]).length > 1) { seen.add(list[i]); continue }
          check(x, i)
        }
        for (const id of seen) {
          const at = list.flatMap((y, i) => (y === id ? [i] : []))
          const got = at.map((i) => desc(out.val[i])).sort(), exp = at.map((i) => expected(i)).sort()
          if (canon(got) !== canon(exp)) bad('outcome', `results for ${id} are ${got} instead of ${exp}`)
        }
        function expected(i) { const k = KINDS[kinds[i]]; return k === 'error' ? `E:boom ${i}` : k === 'string' ? `E:text ${i}` : k === 'value' ? `R:${canon({ idx: i, id: list[i], x: list[i] === 'f' ? null : list[i] })}` : 'R:undefined' }
        function desc(x) { return x.error ? (x.error instanceof Error && x.result === undefined ? `E:${x.error.message}` : 'E?') : `R:${x.result === undefined ? 'undefined' : canon(x.result)}` }
        function check(x, i) { if (desc(x) !== expected(i)) bad('outcome', `result ${i} is ${desc(x)} instead of ${expected(i)}`) }
        ctx.state(canon(out.val.map(desc)))
      }, {})
      if (!r.complete) ctx.capped('across orders')
    }
  }
}

/** Overlapping opens, all interleavings up to the preemption bound, and one store fault. */
const BODIES = {
  openA: (db) => db.openVault('a'),
  putA: async (db) => { const v = await db.openVault('a'); await v.collection('x').put('p', { n: 'p' }); return v },
  newA: async (db) => { const v = await db.openVault('a'); await v.collection('y').put('q', { n: 'q' }); return v },
  putB: async (db) => { const v = await db.openVault('a::b'); await v.collection('x').put('p', { n: 'b' }); return v },
  list: async (db) => { await db.listAccessibleVaults(); return null },
  across: async (db) => { const r = await db.queryAcross(['a', 'a::b', 'a'], async (v) => { await v.collection('z').put(v.name, { n: 'z' }) }, { concurrency: 2 }); const e = r.find((x) => x.error); if (e) throw e.error; return null },
  grant: async (db) => { await db.grant('a', { userId: 'bob', displayName: 'bob', role: 'admin', passphrase: P('bob') }); return null },
}
const WROTE = { putA: [['a', 'x', 'p', 'p']], newA: [['a', 'y', 'q', 'q']], putB: [['a::b', 'x', 'p', 'b']], across: [['a', 'z', 'a', 'z'], ['a::b', 'z', 'a::b', 'z']] }
async function overlap(ctx, u) {
  const nb = ctx.nb
  resetWorld(1)
  const base = new Data()
  if (u.init === 'old') { const db = await openDb(nb, plainStore(nb.hub, base), { secret: P('one'), except: ['session', 'sync'] }); for (const n of ['a', 'a::b']) await (await db.openVault(n)).collection('old').put('o', { n: 'o' }) }
  const snap = base.snapshot()
  const r = await exploreAll(async (ch) => {
    ctx.exec(); resetWorld(3)
    const data = new Data(); data.restore(snap)
    const sched = new Sched(nb.hub, ch, { mode: u.mode, ...(u.bodies.includes('across') ? { delays: u.preempt } : { preempt: u.preempt }), faults: u.faults })
    const db = await openDb(nb, sched.store(data, 's'), { secret: P('one'), except: ['session', 'sync'] })
    const tasks = await sched.run(u.bodies.map((b) => [b, () => BODIES[b](db)]))
    ctx.trans(sched.transitions)
    const what = () => `${u.init} store; ${u.bodies.join(' | ')}; ${sched.trace.join(' ')}`
    ctx.last = u.bodies.join('|')
    const bad = (k, m) => ctx.violation(`overlap:${k}:${u.init}:${u.bodies}:${u.faults}`, `${what()}: ${m}`)
    const faulted = sched.faultsLeft < u.faults
    if (!faulted) for (const t of tasks) if (!t.ok) return bad('fails', `${t.name} fails: ${errName(t)} ${t.err.message}`)
    const va = tasks.filter((t) => t.ok && t.val && t.val.name === 'a').map((t) => t.val)
    if (va.some((v) => v !== va[0])) return bad('two', 'two openings of one vault give two vault objects')
    // a failed open can be repeated in the same instance
    sched.faultsLeft = 0
    const again = sched.run([['again', async () => { for (const n of ['a', 'a::b']) { const v = await db.openVault(n); await v.collection('late').put('l', { n: 'l' }) } }]])
    const [g] = await again
    if (!g.ok) return bad('again', `afterwards the instance cannot open and write: ${errName(g)} ${g.err.message}`)
    const d2 = await openDb(nb, plainStore(nb.hub, data), { secret: P('one'), except: ['session', 'sync'] })
    const must = [['a', 'late', 'l', 'l'], ['a::b', 'late', 'l', 'l'], ...(u.init === 'old' ? [['a', 'old', 'o', 'o'], ['a::b', 'old', 'o', 'o']] : []), ...tasks.filter((t) => t.ok).flatMap((t) => WROTE[t.name] ?? [])]
    for (const [n, c, id, val] of must) {
      const q = await attempt(async () => (await d2.openVault(n)).collection(c).get(id))
      if (!q.ok) return bad('broken', `${n}/${c}/${id} cannot be read by a second instance: ${errName(q)} ${q.err.message}`)
      if (q.val?.n !== val) return bad('lost', `${n}/${c}/${id} reads ${canon(q.val)} in a second instance`)
    }
    const gr = tasks.find((t) => t.name === 'grant')
    if (gr?.ok) {
      const b = await attempt(async () => (await openDb(nb, plainStore(nb.hub, data), { user: 'bob', secret: P('bob'), except: ['session', 'sync'] })).openVault('a'))
      if (!b.ok) bad('member', `the granted user cannot open: ${errName(b)}`)
    }
    ctx.state(sched.trace.join())
  }, { maxExec: 40000 })
  if (!r.complete) ctx.capped(`overlap ${u.bodies}`)
}

export default {
  level: 'model_checking',
  technique: 'exhaustive exploration of multi-vault histories, standings, fan-outs and interleaved opens on the real code, with whole-store comparison of the untouched vaults',
  modules: HUB,
  bounds: (t) => `histories of length <= 2 over ${ALL.length} operations for ${NAMES.length} pairs of vault names, of length ${t === 'quick' ? '3 for one pair with the operations that touch keys or sync' : '3 for every pair'}; ${STATUS.length}x${STATUS.length} standings x 6 minimum roles x 2 store orders x 3 opened-before states; fan-outs over every list of <= 3 of 4 vaults, 4 outcomes, 7 concurrency values, all completion orders; two overlapping bodies of ${Object.keys(BODIES).length} with <= ${t === 'quick' ? 2 : 3} preemptions (delays where a fan-out takes part), and with one store fault`,
  assumptions: ['vault names do not contain NUL', 'key derivation and ciphers are ideal', 'no backup is restored after a key rotation (recorded finding of P19)'],
  units(tier) {
    const out = []
    for (let i = 0; i < ALL.length; i++) for (let k = 0; k < NAMES.length; k++) out.push({ kind: 'history', names: k, first: i, len: tier === 'quick' ? (k === 0 ? 3 : 2) : 3 })
    for (const a of STATUS) out.push({ kind: 'list', a })
    for (const len of [0, 1, 2]) out.push({ kind: 'across', len })
    for (let first = 0; first < 4; first++) out.push({ kind: 'across', len: 3, first })
    const B = Object.keys(BODIES)
    for (const init of ['old', 'new']) for (let i = 0; i < B.length; i++) for (let j = i; j < B.length; j++) for (const mode of ['reply', 'call']) {
      if (init === 'new' && [B[i], B[j]].includes('grant')) continue
      out.push({ kind: 'overlap', init, bodies: [B[i], B[j]], mode, preempt: tier === 'quick' ? 2 : 3, faults: 0 })
      if (mode === 'reply') out.push({ kind: 'overlap', init, bodies: [B[i], B[j]], mode, preempt: 0, faults: 1 })
    }
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'history') {
      const KEY = ['put', 'new', 'grant', 'revoke', 'secret', 'load', 'sync', 'list', 'reopen']
      for (let len = 1; len <= u.len; len++) for (const rest of sequences(ALL.length, len - 1)) {
        const seq = [ALL[u.first], ...rest.map((i) => ALL[i])]
        if (ctx.tier === 'quick' && len === 3 && seq.some(([o]) => !KEY.includes(o))) continue
        await history(ctx, NAMES[u.names], seq)
      }
    } else if (u.kind === 'list') await listing(ctx, u)
    else if (u.kind === 'across') await across(ctx, u)
    else await overlap(ctx, u)
  },
}
