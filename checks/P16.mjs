// P16 — devices that synchronise converge and lose no edit.
import { resetWorld, settle, W } from '../lib/world.mjs'
import { sequences, canon, same, Choices, exploreAll } from '../lib/explore.mjs'
import { Data, plainStore, Sched } from '../lib/stores.mjs'
import { HUB, openDb, attempt } from '../lib/noy.mjs'

const MANUAL = { push: { mode: 'manual' }, pull: { mode: 'manual' } }
const DEVS = ['A', 'B']
const OPS = DEVS.flatMap((d) => ['put r', 'del r', 'push', 'pull', 'sync', 'reopen', 'tx r'].map((o) => [d, o]))
const PARTIAL = DEVS.flatMap((d) => ['put r', 'put s', 'del s', 'push n', 'push nm', 'pull n', 'pull since', 'sync', 'sync n', 'tx s'].map((o) => [d, o]))
// conflict strategies of the database and policies of the collection
const CONFIGS = ['version', 'local-wins', 'remote-wins', 'fn', 'lww', 'lww-tie', 'fww', 'manual-local', 'manual-remote', 'manual-none', 'merge', 'crdt']
// the same id in two collections, the name of one a prefix of the other
const COLL = { r: 'n', s: 'nm' }, ID = { r: 'r', s: 'r' }

// ── the model: what each device and the remote hold ────────────────────────
const cov = (r) => r?.cov ?? new Set()
const union = (...s) => new Set(s.flatMap((x) => [...x]))
function resolve(cfg, local, remote, ts) {
  switch (cfg) {
    case 'version': return local.v >= remote.v ? 'local' : 'remote'
    case 'local-wins': case 'manual-local': return 'local'
    case 'remote-wins': case 'manual-remote': return 'remote'
    case 'fn': return local.ts > remote.ts ? 'remote' : 'local'
    case 'lww': case 'lww-tie': return local.ts >= remote.ts ? 'local' : 'remote'
    case 'fww': return local.v <= remote.v ? 'local' : 'remote'
    case 'manual-none': return 'deferred'
    case 'merge': { const val = { ...remote.val }; for (const k of Object.keys(local.val)) val[k] = Math.max(val[k] ?? 0, local.val[k]); return { v: Math.max(local.v, remote.v) + 1, val, ts, cov: union(cov(local), cov(remote)) } }
    case 'crdt': {
      const reg = { ...remote.reg }
      for (const [k, x] of Object.entries(local.reg)) if (!reg[k] || x.ts >= reg[k].ts) reg[k] = x
      return { v: Math.max(local.v, remote.v) + 1, reg, val: Object.fromEntries(Object.entries(reg).map(([k, x]) => [k, x.v])), ts, cov: union(cov(local), cov(remote)) }
    }
  }
}
class Model {
  constructor(cfg) { this.cfg = cfg; this.R = new Map(); this.D = {}; for (const d of DEVS) this.D[d] = { rec: new Map(), dirty: new Map(), gone: {} }; this.past = {} }
  track(d, key, action, version) {
    const D = this.D[d], e = D.dirty.get(key)
    D.dirty.set(key, { action, base: e ? e.base : action === 'put' ? version - 1 : version })
  }
  put(d, key, val, ev, ts) {
    const D = this.D[d], cur = D.rec.get(key)
    const before = union(cov(cur), D.gone[key] ?? [])
    this.past[ev] = { key, kind: 'put', before }
    const rec = { v: (cur?.v ?? 0) + 1, val, ts, cov: union(before, [ev]), ev }
    if (this.cfg === 'crdt') { rec.reg = { ...(cur?.reg ?? {}) }; for (const k of Object.keys(val)) rec.reg[k] = { v: val[k], ts }; rec.val = Object.fromEntries(Object.entries(rec.reg).map(([k, x]) => [k, x.v])) }
    D.rec.set(key, rec)
    this.track(d, key, 'put', rec.v)
  }
  del(d, key, ev) {
    const D = this.D[d], cur = D.rec.get(key)
    const before = union(cov(cur), D.gone[key] ?? [])
    this.past[ev] = { key, kind: 'del', before }
    D.gone[key] = union(before, [ev])
    D.rec.delete(key)
    this.track(d, key, 'delete', cur?.v ?? 0)
  }
  push(d, ts, want = () => true) {
    const D = this.D[d], out = { pushed: 0, conflicts: 0 }
    for (const [key, e] of [...D.dirty]) {
      if (!want(key)) continue
      if (e.action === 'delete') { this.R.delete(key); D.dirty.delete(key); out.pushed++; continue }
      let rec = D.rec.get(key)
      if (!rec) { D.dirty.delete(key); continue }
      if (rec.v <= e.base) { rec = { ...rec, v: e.base + 1 }; D.rec.set(key, rec) }
      const rem = this.R.get(key)
      if (!rem || rem.v === e.base) { this.R.set(key, rec); D.dirty.delete(key); out.pushed++; continue }
      out.conflicts++
      const w = resolve(this.cfg, rec, rem, ts)
      if (w === 'remote') { D.rec.set(key, { ...rem, cov: union(cov(rec), cov(rem)) }); D.dirty.delete(key) } else if (w !== 'deferred') {
        let win = w === 'local' ? rec : w
        win = { ...win, v: win.v > rem.v ? win.v : rem.v + 1, cov: union(cov(rec), cov(rem)) }
        D.rec.set(key, win); this.R.set(key, win); D.dirty.delete(key); out.pushed++
      }
    }
    return out
  }
  pull(d, ts, want = () => true) {
    const D = this.D[d], out = { pulled: 0, conflicts: 0 }
    for (const [key, rem] of [...this.R]) {
      if (!want(key, rem)) continue
      const rec = D.rec.get(key), e = D.dirty.get(key)
      if (!rec) { if (e?.action === 'delete') continue; D.rec.set(key, rem); out.pulled++; continue }
      if (rem.v <= rec.v) continue
      if (!e) { D.rec.set(key, rem); out.pulled++; continue }
      if (e.base === rem.v) continue
      out.conflicts++
      const w = resolve(this.cfg, rec, rem, ts)
      if (w === 'remote') { D.rec.set(key, { ...rem, cov: union(cov(rec), cov(rem)) }); D.dirty.delete(key); out.pulled++ } else if (typeof w === 'object') { D.rec.set(key, w); e.base = rem.v; out.pulled++ }
    }
    return out
  }
  /** events that no later event had seen */
  maximal(key) {
    const evs = Object.keys(this.past).map(Number).filter((e) => this.past[e].key === key)
    return evs.filter((e) => !evs.some((f) => this.past[f].before.has(e)))
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive histories of two devices and a remote on the real code, step by step against an executable model of synchronisation, plus convergence and no-lost-edit conditions on the outcome; overlapping writes and synchronisation under every store completion order',
  modules: HUB,
  bounds: (t) => `all histories of length <= ${t === 'quick' ? 3 : 4} over ${OPS.length} letters (two devices; put, delete, push, pull, sync, reopen, sync transaction) under each of ${CONFIGS.length} conflict strategies and policies${t === 'quick' ? ' (length 4 for the default strategy)' : ''}, eager/lazy and encrypted/plain; partial synchronisation; additional targets; all completion orders of a write overlapping push, pull or sync`,
  assumptions: ['both devices hold the same keyring', 'remote calls succeed in the histories (failing calls are P04)', 'a deletion removes the record from the remote only (recorded finding)'],
  units(tier) {
    const u = []
    const L = tier === 'quick' ? 3 : 4
    for (const cfg of CONFIGS) for (const enc of [true, false]) for (const lazy of [false, true]) {
      if (tier === 'quick' && enc === lazy) continue
      for (let i = 0; i < OPS.length; i++) u.push({ cfg, enc, lazy, alpha: 'full', i, len: L })
    }
    if (tier === 'quick') for (let i = 0; i < OPS.length; i++) u.push({ cfg: 'version', enc: false, lazy: false, alpha: 'full', i, len: 4, only: true })
    for (let i = 0; i < PARTIAL.length; i++) u.push({ cfg: 'version', enc: false, lazy: false, alpha: 'partial', i, len: L })
    for (const roles of [['sync-peer', 'backup'], ['backup', 'backup'], ['sync-peer', 'archive', 'archive'], ['backup', 'sync-peer']]) u.push({ targets: roles, len: L })
    for (const cfg of ['version', 'remote-wins', 'merge']) for (const race of ['push', 'pull', 'sync', 'push push', 'sync sync']) for (const w of ['put', 'del', 'put put']) u.push({ race, w, cfg })
    return u
  },
  async runUnit(u, ctx) {
    const nb = ctx.nb
    const PASSW = 'correct horse battery staple 42'
    const dbOpts = (cfg, remote) => ({
      sync: remote, syncPolicy: MANUAL, use: ['sync', 'crdt', 'indexing', 'history'],
      ...(['version', 'local-wins', 'remote-wins'].includes(cfg) ? { conflict: cfg } : cfg === 'fn' ? { conflict: (c) => (c.local._ts > c.remote._ts ? 'remote' : 'local') } : {}),
    })
    const collOpts = (cfg, lazy) => ({
      ...(lazy ? { prefetch: false, cache: { maxRecords: 5 } } : {}),
      ...(cfg.startsWith('lww') ? { conflictPolicy: 'last-writer-wins' } : cfg === 'fww' ? { conflictPolicy: 'first-writer-wins' } : cfg.startsWith('manual') ? { conflictPolicy: 'manual' }
        : cfg === 'merge' ? { conflictPolicy: (l, r) => { const o = { ...r }; for (const k of Object.keys(l)) o[k] = Math.max(o[k] ?? 0, l[k]); return o } } : cfg === 'crdt' ? { crdt: 'lww-map' } : {}),
    })
    const open = async (data, remote, cfg, enc, lazy) => {
      const db = await openDb(nb, plainStore(nb.hub, data), { encrypt: enc, secret: PASSW, ...dbOpts(cfg, remote) })
      if (cfg === 'manual-local') db.on('sync:conflict', (c) => c.resolve?.(c.local))
      if (cfg === 'manual-remote') db.on('sync:conflict', (c) => c.resolve?.(c.remote))
      const v = await db.openVault('V')
      const c = {}
      for (const [id, coll] of Object.entries(COLL)) c[id] = v.collection(coll, collOpts(cfg, lazy))
      return { db, v, c, data }
    }
    if (u.targets) return targets(u, ctx, { open })
    if (u.race) return race(u, ctx, { open, dbOpts, collOpts })

    const { cfg, enc, lazy } = u
    const alphabet = u.alpha === 'full' ? OPS : PARTIAL
    // both devices start with r written by A and synchronised
    resetWorld(1)
    const dA = new Data(), dB = new Data(), dR = new Data()
    await settle(async () => {
      const X = await open(dA, plainStore(nb.hub, dR), cfg, enc, lazy)
      await X.c.r.put(ID.r, val('A', 0, cfg)); await X.c.s.put(ID.s, val('A', 1, cfg)); await X.db.push('V'); X.db.close()
      for (const id of dA.ids('V', '_keyring')) dB.coll('V', '_keyring', true).set(id, dA.get('V', '_keyring', id))
      const Y = await open(dB, plainStore(nb.hub, dR), cfg, enc, lazy); await Y.db.pull('V'); Y.db.close()
    })
    const image = [dA.snapshot(), dB.snapshot(), dR.snapshot()]
    const t0 = dR.get('V', 'n', 'r')._ts, t1 = dR.get('V', COLL.s, ID.s)._ts
    const dbs = {}
    for (const len of u.only ? [u.len] : Array.from({ length: u.len }, (_, k) => k + 1)) for (const rest of sequences(alphabet.length, len - 1)) {
      const seq = [u.i, ...rest].map((k) => alphabet[k])
      resetWorld(2); W.now += 1000
      dA.restore(image[0]); dB.restore(image[1]); dR.restore(image[2])
      const remote = plainStore(nb.hub, dR)
      const m = new Model(cfg)
      for (const [key, n, ts] of [['r', 0, t0], ['s', 1, t1]]) {
        m.put('A', key, val('A', n, cfg), n, ts); m.push('A', ts); m.D.B.rec.set(key, m.R.get(key))
      }
      const S = { A: await settle(() => open(dA, remote, cfg, enc, lazy)), B: await settle(() => open(dB, remote, cfg, enc, lazy)) }
      const name = seq.map((x) => x.join('.')).join(' ; ')
      let failed = false
      const bad = (k, w) => { failed = true; ctx.violation(k, `${cfg}${enc ? '' : ' plain'}${lazy ? ' lazy' : ''}: ${name}: ${w}`) }
      // exactly the time of the first step
      const since = new Date(W.now + 10).toISOString()
      const last = { A: {}, B: {} }
      const step = async (d, op, n) => {
        if (cfg !== 'lww-tie') W.now += 10
        const ts = new Date(W.now).toISOString()
        const X = S[d], [what, key] = op.split(' ')
        let exp = null
        const r = await attempt(() => settle(async () => {
          switch (what) {
            case 'put': await X.c[key].put(ID[key], val(d, n, cfg, m.D[d].rec.get(key))); return null
            case 'del': await X.c[key].delete(ID[key]); return null
            case 'push': return key ? X.db.push('V', { collections: [key] }) : X.db.push('V')
            case 'pull': return key === 'since' ? X.db.pull('V', { modifiedSince: since }) : key ? X.db.pull('V', { collections: [key] }) : X.db.pull('V')
            case 'sync': return key ? X.db.sync('V', { pull: { collections: [key] }, push: { collections: [key] } }) : X.db.sync('V')
            case 'tx': { const tx = X.db.transaction('V'); tx.put(COLL[key], ID[key], val(d, n, cfg, m.D[d].rec.get(key))); return tx.commit() }
            case 'reopen': X.db.close(); S[d] = await open(X.data, remote, cfg, enc, lazy); return null
          }
        }))
        ctx.trans()
        if (!r.ok) { bad(`op:${what}`, `${d}.${op} fails: ${r.err}`); return }
        const inColl = (c) => (k) => COLL[k] === c
        switch (what) {
          case 'put': m.put(d, key, val(d, n, cfg, m.D[d].rec.get(key)), n, ts); break
          case 'del': m.del(d, key, n); break
          case 'push': exp = m.push(d, ts, key ? inColl(key) : undefined); break
          case 'pull': exp = m.pull(d, ts, key === 'since' ? (_k, rem) => rem.ts > since : key ? inColl(key) : undefined); break
          case 'sync': exp = { pull: m.pull(d, ts, key ? inColl(key) : undefined), push: m.push(d, ts, key ? inColl(key) : undefined) }; break
          case 'tx': m.put(d, key, val(d, n, cfg, m.D[d].rec.get(key)), n, ts); exp = m.push(d, ts, (k) => k === key); exp.status = exp.conflicts ? 'conflict' : 'committed'; break
        }
        if (exp) {
          const got = what === 'sync' ? { pull: counts(r.val.pull), push: counts(r.val.push) } : { ...counts(r.val), ...(what === 'tx' ? { status: r.val.status } : {}) }
          if (!same(got, exp)) bad(`result:${what}`, `${d}.${op} reports ${canon(got)}, expected ${canon(exp)}`)
        }
        if (what === 'push' || what === 'sync' || what === 'tx') last[d].push = ts
        if (what === 'pull' || what === 'sync') last[d].pull = ts
        // what each device shows and the remote holds
        for (const dd of DEVS) {
          for (const k of ['r', 's']) {
            const g = await attempt(() => settle(() => S[dd].c[k].get(ID[k]))), e = m.D[dd].rec.get(k)
            if (!g.ok) bad('read', `after ${d}.${op} ${dd} cannot read ${k}: ${g.err}`)
            else if (!same(g.val, e?.val ?? null)) bad(`shows:${what}`, `after ${d}.${op} ${dd} shows ${k} as ${canon(g.val)}, expected ${canon(e?.val ?? null)}`)
            const sv = S[dd].data.get('V', COLL[k], ID[k])?._v ?? null
            if (sv !== (e?.v ?? null)) bad(`version:${what}`, `after ${d}.${op} ${dd} stores ${k} at version ${sv}, expected ${e?.v ?? null}`)
          }
          const st = S[dd].db.syncStatus('V'), dirty = st.dirty
          if (what !== 'reopen' && loaded[dd]) for (const [k, g] of [['push', st.lastPush], ['pull', st.lastPull]]) if (last[dd][k] && g !== last[dd][k]) bad(`last:${k}`, `after ${d}.${op} ${dd} dates its last ${k} at ${g}, it was at ${last[dd][k]}`)
          if (what !== 'reopen' && loaded[dd] && dirty !== m.D[dd].dirty.size) bad(`dirty:${what}`, `after ${d}.${op} ${dd} reports ${dirty} unpushed changes, expected ${m.D[dd].dirty.size}`)
        }
        for (const k of ['r', 's']) {
          const rv = dR.get('V', COLL[k], ID[k])?._v ?? null
          if (rv !== (m.R.get(k)?.v ?? null)) bad(`remote:${what}`, `after ${d}.${op} the remote holds ${k} at version ${rv}, expected ${m.R.get(k)?.v ?? null}`)
        }
      }
      // the counter of unpushed changes is loaded by the first operation after opening
      const loaded = { A: false, B: false }
      for (let n = 0; n < seq.length && !failed; n++) {
        const [d, op] = seq[n]
        loaded[d] = op !== 'reopen'
        await step(d, op, n + 2)
      }
      if (!failed) for (let n = 0; n < 5 && !failed; n++) { const d = DEVS[n % 2]; loaded[d] = true; await step(d, 'sync', 100 + n) }
      ctx.exec(); ctx.last = name
      if (failed) { S.A.db.close(); S.B.db.close(); continue }
      // convergence and no lost edit, on what the devices and a third one show
      const dC = new Data(); for (const id of dA.ids('V', '_keyring')) dC.coll('V', '_keyring', true).set(id, dA.get('V', '_keyring', id))
      const C = await settle(() => open(dC, remote, cfg, enc, lazy))
      await settle(() => C.db.pull('V'))
      for (const k of ['r', 's']) {
        const fin = {}
        for (const [dd, X] of [['A', S.A], ['B', S.B], ['remote', C]]) fin[dd] = await settle(() => X.c[k].get(ID[k]))
        const max = m.maximal(k)
        const deferred = cfg === 'manual-none' && DEVS.some((dd) => m.D[dd].dirty.size)
        const deleted = Object.values(m.past).some((p) => p.key === k && p.kind === 'del')
        if (!deferred && !(same(fin.A, fin.B) && same(fin.A, fin.remote))) bad(deleted ? 'delete-not-propagated' : 'diverge', `after synchronising both devices, ${k} is ${canon(fin.A)} on A, ${canon(fin.B)} on B, ${canon(fin.remote)} on the remote`)
        for (const [dd, g] of Object.entries(fin)) {
          if (cfg === 'merge' || cfg === 'crdt') {
            if (deleted) continue
            for (const e of max) { const [f, n] = Object.entries(fieldOf(e, m, seq))[0] ?? []; if (f && !(g && g[f] >= n)) bad('lost', `${dd} shows ${k} as ${canon(g)}, without the unseen edit ${f}=${n}`) }
          } else if (deferred) continue
          else if (g === null) { if (!max.some((e) => m.past[e].kind === 'del')) bad('lost', `${dd} lost ${k}`) } else if (!max.includes(g.n)) bad(deleted ? 'delete-not-propagated' : 'lost', `${dd} shows ${k} as ${canon(g)}, although edit ${max.join(' and ')} came after it`)
        }
      }
      ctx.state([cfg, [...m.R].map(([k, x]) => [k, x.v, x.val]), DEVS.map((d) => [...m.D[d].rec].map(([k, x]) => [k, x.v, x.val]))])
      if (ctx.executions <= 1) ctx.sample({ history: seq })
      S.A.db.close(); S.B.db.close(); C.db.close()
    }
    function fieldOf(e, mm, seq) { if (e < 2 || mm.past[e].kind === 'del') return {}; return { [seq[e - 2][0]]: e } }
  },
}
const counts = (r) => ({ ...('pushed' in r ? { pushed: r.pushed } : { pulled: r.pulled }), conflicts: r.conflicts.length + (r.errors?.length ? 1000 : 0) })
function val(d, n, cfg, cur) {
  if (cfg === 'merge') return { ...(cur?.val ?? {}), [d]: n }
  if (cfg === 'crdt') return { [d]: n }
  return { n }
}

// additional targets: every target receives everything; only sync-peers are pulled from
async function targets(u, ctx, { open }) {
  const nb = ctx.nb
  const ops = ['put r', 'put r', 'del r', 'sync', 'reopen', 'push', 'foreign 0', 'foreign 1']
  for (let len = 1; len <= u.len; len++) for (const ks of sequences(ops.length, len)) {
    const seq = ks.map((k) => ops[k])
    resetWorld(3)
    const local = new Data(), rems = u.targets.map(() => new Data())
    const remote = u.targets.map((role, i) => ({ store: plainStore(nb.hub, rems[i]), role, policy: { push: { mode: 'manual' }, pull: { mode: 'manual' } }, ...(i === 2 ? { label: 'third' } : {}) }))
    let X = await settle(() => open(local, remote, 'version', false, false))
    const bad = (k, w) => ctx.violation(`targets:${k}`, `targets ${u.targets.join(',')}: ${seq.join(' ; ')}: ${w}`)
    const model = new Map()
    const foreign = []
    let n = 0
    for (const op of [...seq, 'sync']) {
      W.now += 10; n++
      const [what, key] = op.split(' ')
      const r = await attempt(() => settle(async () => {
        if (what === 'put') { await X.c.r.put('r', { n }); model.set('r', { n }) } else if (what === 'del') { await X.c.r.delete('r'); model.delete('r') } else if (what === 'sync') await X.db.sync('V')
        else if (what === 'push') await X.db.push('V')
        else if (what === 'reopen') { X.db.close(); X = await open(local, remote, 'version', false, false) } else if (what === 'foreign') {
          // somebody else's record appears on that target
          const i = Number(key); if (i >= rems.length) return
          rems[i].coll('V', 'n', true).set(`f${i}`, { _noydb: 1, _v: 1, _ts: new Date(W.now).toISOString(), _iv: '', _data: JSON.stringify({ f: i }) })
          foreign[i] = true
        }
      }))
      ctx.trans()
      if (!r.ok) bad(`op:${what}`, `${op} fails: ${r.err}`)
    }
    ctx.exec(); ctx.last = seq.join(' ; ')
    for (let i = 0; i < rems.length; i++) {
      const e = rems[i].get('V', 'n', 'r')
      const g = e ? JSON.parse(e._data) : null
      if (!same(g, model.get('r') ?? null)) bad('content', `target ${i} (${u.targets[i]}) holds r as ${canon(g)}, the device ${canon(model.get('r') ?? null)}`)
      if (foreign[i]) {
        const got = await settle(() => X.c.r.get(`f${i}`))
        if (u.targets[i] === 'sync-peer' && !got) bad('pull', `the record another device left on target ${i} (sync-peer) was not pulled`)
        if (u.targets[i] !== 'sync-peer' && got) bad('pull', `a record found on target ${i} (${u.targets[i]}, push only) was pulled`)
      }
    }
    const dirty = X.db.syncStatus('V').dirty
    if (dirty !== 0) bad('dirty', `${dirty} changes remain unpushed`)
    ctx.state([[...model], foreign])
    X.db.close()
  }
}

// a write that overlaps synchronisation on the same device
async function race(u, ctx, { dbOpts, collOpts }) {
  const nb = ctx.nb
  const done = await exploreAll(async (ch) => {
    resetWorld(4)
    const dA = new Data(), dB = new Data(), dR = new Data()
    const sched = new Sched(nb.hub, ch, { preempt: ctx.tier === 'quick' ? 2 : 4 })
    let live = false
    const through = (data, name) => {
      const s = sched.store(data, name), p = plainStore(nb.hub, data), o = { name }
      for (const m of Object.keys(p)) if (typeof p[m] === 'function') o[m] = (...a) => (live ? s : p)[m](...a)
      return o
    }
    const mk = async (data) => {
      const db = await openDb(nb, through(data, 'local'), { encrypt: false, ...dbOpts(u.cfg, through(dR, 'remote')) })
      const v = await db.openVault('V')
      return { db, c: v.collection('n', collOpts(u.cfg, false)) }
    }
    const v0 = u.cfg === 'merge' ? (d, n) => ({ [d]: n }) : (d, n) => ({ n })
    const A = await settle(() => mk(dA)), B = await settle(() => mk(dB))
    await settle(async () => {
      await A.c.put('r', v0('A', 1)); await A.db.push('V'); await B.db.pull('V'); await B.c.list()
      // the other device leaves a newer version on the remote unless this is a pure push race
      if (u.race !== 'push' && u.race !== 'push push') { await B.c.put('r', v0('B', 2)); await B.db.push('V') }
      await A.c.put('x', v0('A', 3))
    })
    live = true
    const [w1, w2] = u.w.split(' ')
    const thunks = u.race.split(' ').map((what, i) => [`${what}${i}`, () => A.db[what]('V')])
    const acked = []
    thunks.push(['write', async () => {
      for (const w of [w1, w2].filter(Boolean)) {
        if (w === 'put') { for (const id of ['x', 'r']) { const x = v0('A', 10 + acked.length); await A.c.put(id, x); acked.push([id, x]) } } else { await A.c.delete('x'); acked.push(['x', null]) }
      }
    }])
    const res = await sched.run(thunks)
    live = false
    ctx.exec(); ctx.trans(sched.transitions)
    const bad = (k, w) => ctx.violation(`race:${k}`, `${u.cfg}: ${u.w} overlapping ${u.race} [${sched.trace.join(' ')}]: ${w}`)
    for (const t of res.filter((x) => !x.ok)) bad('fails', `${t.name} fails: ${t.err}`)
    await settle(async () => { await A.db.sync('V'); await B.db.sync('V'); await A.db.sync('V') })
    const last = new Map(acked)
    const fin = async (X, id) => settle(() => X.c.get(id))
    // x is written by A only: the last acknowledged value, on A, on B unless deleted, and on the remote
    for (const [id, e] of last) {
      if (id === 'r' && u.race.includes('pull') | u.race.includes('sync')) continue
      const a = await fin(A, id), re = dR.get('V', 'n', id), rg = re ? JSON.parse(re._data) : null
      if (!same(a, e)) bad('lost', `A shows ${id} as ${canon(a)}, last acknowledged ${canon(e)}`)
      if (!same(rg, e)) bad('unpushed', `the remote holds ${id} as ${canon(rg)}, last acknowledged ${canon(e)}`)
      if (e !== null && !same(await fin(B, id), e)) bad('diverge', `B shows ${id} as ${canon(await fin(B, id))}, A ${canon(e)}`)
    }
    const ra = await fin(A, 'r'), rb = await fin(B, 'r'), re = dR.get('V', 'n', 'r'), rr = re ? JSON.parse(re._data) : null
    if (!same(ra, rb) || !same(ra, rr)) bad('diverge', `r is ${canon(ra)} on A, ${canon(rb)} on B, ${canon(rr)} on the remote`)
    const sa = await settle(() => A.c.get('r')), da = dA.get('V', 'n', 'r')
    if (!same(sa, da ? JSON.parse(da._data) : null)) bad('stale', `A shows r as ${canon(sa)} but stores ${da?._data}`)
    ctx.state([ra, rb, rr])
    A.db.close(); B.db.close()
  }, { maxExec: 20000 })
  if (!done.complete) ctx.capped(`race ${u.race}`)
}
