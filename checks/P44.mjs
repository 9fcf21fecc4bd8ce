// P44 — tools offered to a language model: what is published and what a call does follow the rights.
import { resetWorld, settle } from '../lib/world.mjs'
import { canon, same, sequences, subsets, product } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName } from '../lib/noy.mjs'

const OPS = ['list', 'get', 'put', 'delete', 'count']
const FORMATS = ['json-schema', 'openai', 'anthropic', 'vercel-ai']
const show = (x) => { const s = canon(x) ?? String(x); return s.length > 160 ? s.slice(0, 160) + '…' : s }
const pass = (u) => `${u} passphrase 1234`
// names with underscores, names that end like an operation, a name that is the beginning of another
const RECS = {
  inv: { a: { id: 'a', n: 1 }, b: { id: 'b', n: 2 }, 7: { id: '7', n: 7 }, true: { id: 'true', n: 0 } },
  inv_list: { a: { id: 'a', s: 'other' } },
  user_profiles: { a: { id: 'a', z: [] }, c: { id: 'c' } },
}
const COLLS = Object.keys(RECS)
const WHO = {
  owner: { read: COLLS, write: COLLS },
  admin: { role: 'admin', read: COLLS, write: COLLS },
  viewer: { role: 'viewer', read: COLLS, write: [] },
  viewerRw: { role: 'viewer', permissions: { inv: 'rw' }, read: COLLS, write: [] },
  opRo: { role: 'operator', permissions: { inv: 'ro' }, read: ['inv'], write: [] },
  opRw: { role: 'operator', permissions: { inv: 'rw' }, read: ['inv'], write: ['inv'] },
  opList: { role: 'operator', permissions: { inv_list: 'rw' }, read: ['inv_list'], write: ['inv_list'] },
  opMix: { role: 'operator', permissions: { inv: 'ro', inv_list: 'rw', user_profiles: 'ro' }, read: COLLS, write: ['inv_list'] },
  opTwo: { role: 'operator', permissions: { inv: 'rw', user_profiles: 'rw' }, read: ['inv', 'user_profiles'], write: ['inv', 'user_profiles'] },
  opNone: { role: 'operator', permissions: {}, read: [], write: [] },
  client: { role: 'client', permissions: { inv: 'ro' }, read: ['inv'], write: [] },
  clientRw: { role: 'client', permissions: { inv: 'rw', inv_list: 'ro' }, read: ['inv', 'inv_list'], write: [] },
}
async function base(nb, encrypt = true) {
  const data = new Data()
  const db = await openDb(nb, plainStore(nb.hub, data), encrypt ? { secret: pass('owner') } : { encrypt: false })
  const v = await db.openVault('V')
  for (const [c, rs] of Object.entries(RECS)) for (const [id, r] of Object.entries(rs)) await v.collection(c).put(id, r)
  if (encrypt) {
    for (const [u, w] of Object.entries(WHO)) if (w.role) await db.grant('V', { userId: u, displayName: u, role: w.role, passphrase: pass(u), ...(w.permissions ? { permissions: w.permissions } : {}) })
  }
  db.close()
  return data.snapshot()
}
async function open(nb, snap, user, encrypt = true) {
  const data = new Data(); data.restore(snap)
  const db = await openDb(nb, plainStore(nb.hub, data), encrypt ? { user, secret: pass(user) } : { user, encrypt: false })
  return { data, db, v: await db.openVault('V') }
}
const nameOf = (t, f) => (f === 'openai' ? t.function?.name : t.name)
const paramsOf = (t, f) => (f === 'openai' ? t.function?.parameters : f === 'anthropic' ? t.input_schema : t.parameters)
const descOf = (t, f) => (f === 'openai' ? t.function?.description : t.description)
const NEED = { list: [], count: [], get: ['id'], delete: ['id'], put: ['id', 'record'] }

/** Everything published for one person: all subsets of operations × allowlists × formats. */
async function unitTools(u, ctx) {
  const { nb } = ctx, who = WHO[u.who]
  resetWorld(1)
  const { v, data } = await open(nb, await base(nb), u.who)
  const opSets = [undefined]; for (let n = 0; n <= 5; n++) opSets.push(...subsets(OPS, n))
  const lists = [undefined]; for (let n = 0; n <= 3; n++) lists.push(...subsets(COLLS, n)); lists.push(['nothing'], ['inv', 'nothing'], ['_keyring', '_ledger'])
  const before = canon(data.snapshot())
  for (const [operations, collections, format, vaultLabel] of product(opSets, lists, [undefined, ...FORMATS], [undefined, 'Acme Inc.'])) {
    ctx.exec(); ctx.trans()
    const o = { ...(operations ? { operations } : {}), ...(collections ? { collections } : {}), ...(format ? { format } : {}), ...(vaultLabel ? { vaultLabel } : {}) }
    ctx.sample(`${u.who} ${canon(o)}`)
    const f = format ?? 'json-schema'
    const tools = nb.ai.buildToolset(v, o)
    const want = []
    for (const c of who.read) {
      if (collections && !collections.includes(c)) continue
      for (const op of operations ?? ['list', 'get']) if ((op !== 'put' && op !== 'delete') || who.write.includes(c)) want.push([c, op])
    }
    const bad = (k, what) => ctx.violation(`tools:${k}`, `[${u.who}] buildToolset(${canon(o)}) ${what}`, { u, o })
    if (f === 'vercel-ai') { if (tools.length !== want.length) return bad('set', `publishes ${tools.length} tools, the rights allow ${want.length}`) }
    else {
      const names = tools.map((t) => nameOf(t, f)).sort()
      if (!same(names, want.map(([c, op]) => `${c}_${op}`).sort())) return bad('set', `publishes ${names.join(' ') || 'nothing'}, the rights allow ${want.map(([c, op]) => `${c}_${op}`).join(' ') || 'nothing'}`)
    }
    for (const t of tools) {
      const p = paramsOf(t, f), d = descOf(t, f)
      if (f === 'openai' && t.type !== 'function') return bad('shape', `gives ${show(t)}`)
      if (p?.type !== 'object' || typeof d !== 'string' || !d.includes(`"${vaultLabel ?? 'V'}"`)) return bad('shape', `gives ${show(t)}`)
      if (f === 'vercel-ai') continue
      const parsed = nb.ai.parseToolName(nameOf(t, f))
      if (!want.some(([c, op]) => parsed?.collection === c && parsed?.op === op)) return bad('parse', `publishes ${nameOf(t, f)}, which is read as ${show(parsed)}`)
      if (!same([...p.required].sort(), NEED[parsed.op]) || !same(Object.keys(p.properties).sort(), NEED[parsed.op])) return bad('params', `declares ${show(p)} for ${nameOf(t, f)}`)
      if (!d.includes(`"${parsed.collection}"`)) return bad('shape', `describes ${nameOf(t, f)} as ${d}`)
    }
  }
  if (canon(data.snapshot()) !== before) ctx.violation('tools:writes', `[${u.who}] publishing tools changed the store`, { u })
}

// ── calls ──────────────────────────────────────────────────────────────────
const NAMES = [...COLLS, 'nothing', '_ledger', '_keyring', '_sync_credentials', '_history', '_dict_x', '_']
/** One call by one person for every name × operation × what the host allows; nothing forbidden happens. */
async function unitCalls(u, ctx) {
  const { nb } = ctx, who = WHO[u.who]
  resetWorld(1)
  const snap = await base(nb)
  const allowOps = [undefined, [], ['list'], ['get'], ['put'], ['delete'], ['count'], ['list', 'get', 'count'], OPS]
  const allowColls = [undefined, [], ['inv'], ['inv_list'], ['inv', 'user_profiles'], ['_ledger']]
  for (const coll of NAMES) {
    const { v, data, db } = await open(nb, snap, u.who)
    let cur = canon(data.snapshot())
    for (const [op, ops, colls] of product(OPS, allowOps, allowColls)) {
      ctx.exec(); ctx.trans()
      const record = { id: 'a', n: 5, q: 'ö' }
      const call = { name: `${coll}_${op}`, args: op === 'put' ? { id: 'a', record } : op === 'list' || op === 'count' ? {} : { id: 'a' } }
      const o = { ...(ops ? { allowedOperations: ops } : {}), ...(colls ? { allowedCollections: colls } : {}) }
      const r = await attempt(() => nb.ai.invokeToolCall(v, call, o))
      const bad = (k, what) => ctx.violation(`call:${k}`, `[${u.who}] ${call.name} with ${canon(o)} ${what}`, { u, call, o })
      const opOk = (ops ?? ['list', 'get']).includes(op), collOk = !colls || colls.includes(coll)
      const rights = op === 'put' || op === 'delete' ? who.write.includes(coll) : who.read.includes(coll)
      const now = canon(data.snapshot())
      if (coll.startsWith('_') || !opOk || !collOk) {
        if (r.ok) return bad('forbidden', `is not refused but gives ${show(r.val)}`)
        if (!['ToolDeniedError', 'ToolNotFoundError'].includes(r.err?.name)) return bad('error', `fails with ${r.err}`)
        if (r.err.toolName !== call.name) return bad('error', `names ${r.err.toolName}`)
        if (now !== cur) return bad('effect', 'is refused and changed the store')
        continue
      }
      if (coll === 'nothing') { // a collection nobody created: whatever is answered, it holds nothing
        if (r.ok && op !== 'put' && op !== 'delete' && !same(r.val, op === 'list' ? [] : op === 'get' ? null : 0)) return bad('nothing', `gives ${show(r.val)}`)
        if (who.write.length < 3 && now !== cur) return bad('effect', 'changed the store')
        if (op === 'put' || op === 'delete') { data.restore(snap); break }
        cur = now; continue
      }
      if (!rights) {
        if (r.ok) return bad('rights', `is not refused but gives ${show(r.val)}`)
        if (now !== cur) return bad('effect', 'is refused and changed the store')
        continue
      }
      if (!r.ok) return bad('refused', `is refused with ${errName(r)}`)
      // allowed: the answer and the effect are those of the collection
      const c = v.collection(coll)
      const rec = RECS[coll]
      const norm = (xs) => xs.map(canon).sort()
      if (op === 'list' && !same(norm(r.val), norm(Object.values(rec)))) return bad('answer', `gives ${show(r.val)}`)
      if (op === 'get' && !same(r.val, rec.a)) return bad('answer', `gives ${show(r.val)}`)
      if (op === 'count' && r.val !== Object.keys(rec).length) return bad('answer', `gives ${show(r.val)}`)
      if (op === 'put' && !same(await c.get('a'), record)) return bad('effect', `leaves ${show(await c.get('a'))}`)
      if (op === 'delete' && (await c.get('a')) !== null) return bad('effect', `leaves ${show(await c.get('a'))}`)
      if (op === 'put' || op === 'delete') {
        for (const other of who.read) for (const id of Object.keys(RECS[other])) {
          if (other === coll && id === 'a') continue
          const g = await v.collection(other).get(id)
          if (!same(g, RECS[other][id])) return bad('effect', `changed ${other}/${id} to ${show(g)}`)
        }
        await c.put('a', rec.a)
      } else if (now !== cur) return bad('effect', 'changed the store')
      cur = canon(data.snapshot())
    }
    db.close()
  }
}

/** Odd call names and arguments: refused or answered by the collection, never something else. */
async function unitOdd(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const snap = await base(nb, u.encrypt)
  const names = ['', '_', '__', 'list', '_list', '_get', 'inv', 'inv_', 'inv_LIST', 'inv_lists', 'inv-list', 'inv_list_', 'inv_drop', 'inv_get ', ' inv_get', 'inv__get', '__proto___get', 'constructor_get', 'inv_list_delete_all', 'toString']
  for (const n of names) {
    const { v, data } = await open(nb, snap, 'owner', u.encrypt)
    const before = canon(data.dump ? data.dump() : data.snapshot())
    ctx.exec(); ctx.trans()
    const r = await attempt(() => nb.ai.invokeToolCall(v, { name: n, args: { id: 'a', record: { id: 'a', n: 9 } } }, { allowedOperations: OPS }))
    const p = nb.ai.parseToolName(n)
    const known = OPS.find((op) => n.endsWith(`_${op}`) && n.length > op.length + 1)
    if (!known) {
      if (p !== null) return ctx.violation('odd:parse', `the tool name ${JSON.stringify(n)} is read as ${show(p)}`, { u, n })
      if (r.ok || r.err?.name !== 'ToolNotFoundError') return ctx.violation('odd:name', `the made-up tool ${JSON.stringify(n)} gives ${r.ok ? show(r.val) : r.err}`, { u, n })
    } else {
      const c = n.slice(0, -known.length - 1)
      if (!same(p, { collection: c, op: known })) return ctx.violation('odd:parse', `the tool name ${JSON.stringify(n)} is read as ${show(p)}`, { u, n })
      if (r.ok && (known !== 'get' || r.val !== null)) return ctx.violation('odd:name', `${JSON.stringify(n)} gives ${show(r.val)}`, { u, n })
    }
    const after = {}; for (const c of COLLS) for (const id of Object.keys(RECS[c])) after[c + id] = await v.collection(c).get(id)
    const want = {}; for (const c of COLLS) for (const id of Object.keys(RECS[c])) want[c + id] = RECS[c][id]
    if (!same(after, want)) return ctx.violation('odd:effect', `the call ${JSON.stringify(n)} changed the records`, { u, n })
    if (!known && canon(data.snapshot()) !== before) return ctx.violation('odd:effect', `the made-up tool ${JSON.stringify(n)} changed the store`, { u, n })
  }
  const ids = [['a', 'a'], ['b', 'b'], ['zz', 'zz'], [7, '7'], ['7', '7'], [true, 'true'], [0, '0'], [false, 'false'], ['', null], [undefined, null], [null, null], [{}, null], [['a'], null], [{ id: 'a' }, null]]
  for (const [[arg, id], op] of product(ids, OPS)) {
    const { v, data } = await open(nb, snap, 'owner', u.encrypt)
    const before = canon(data.snapshot())
    ctx.exec(); ctx.trans()
    const record = { id: 'x', n: 11 }
    const args = { ...(arg === undefined ? {} : { id: arg }), ...(op === 'put' ? { record } : {}) }
    const r = await attempt(() => nb.ai.invokeToolCall(v, { name: `inv_${op}`, args }, { allowedOperations: OPS }))
    const bad = (what) => ctx.violation(`odd:arg:${op}`, `inv_${op}(${canon(args)}) ${what}`, { u, args, op })
    if (op === 'list' || op === 'count') {
      const n = Object.keys(RECS.inv).length
      if (!r.ok || (op === 'list' ? r.val.length : r.val) !== n) return bad(`gives ${r.ok ? show(r.val) : r.err}`)
      continue
    }
    if (id === null) {
      if (r.ok) return bad(`is not refused but gives ${show(r.val)}`)
      if (canon(data.snapshot()) !== before) return bad('is refused and changed the store')
      continue
    }
    if (!r.ok) return bad(`fails with ${r.err}`)
    if (op === 'get' && !same(r.val, RECS.inv[id] ?? null)) return bad(`gives ${show(r.val)}`)
    const c = v.collection('inv')
    const want = { ...RECS.inv }
    if (op === 'put') want[id] = record
    if (op === 'delete') delete want[id]
    const got = {}; for (const k of [...new Set([...Object.keys(want), ...data.ids('V', 'inv')])]) got[k] = await c.get(k)
    if (!same(got, want)) return bad(`leaves ${show(got)}`)
  }
}

// ── histories ──────────────────────────────────────────────────────────────
const LETTERS = [
  ['inv_put', { id: 'a', record: { id: 'a', n: 3 } }], ['inv_put', { id: 'n', record: { id: 'n' } }], ['inv_list_put', { id: 'a', record: { id: 'a', k: 'l' } }],
  ['inv_delete', { id: 'a' }], ['inv_list_delete', { id: 'a' }], ['inv_delete', { id: 'n' }],
  ['inv_get', { id: 'a' }], ['inv_get', { id: 'n' }], ['inv_list_get', { id: 'a' }],
  ['inv_list', {}], ['inv_list_list', {}], ['inv_count', {}], ['inv_list_count', {}],
  ['=put', {}], ['=del', {}],
]
async function unitHist(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const snap = await base(nb, u.encrypt)
  for (const h of sequences(LETTERS.length, u.len)) {
    if (h[0] !== u.first) continue
    resetWorld(1)
    const { v, data } = await open(nb, snap, 'owner', u.encrypt)
    const model = { inv: new Map(Object.entries(RECS.inv)), inv_list: new Map(Object.entries(RECS.inv_list)) }
    ctx.exec()
    const done = []
    for (const i of h) {
      const [name, args] = LETTERS[i]
      ctx.trans(); done.push(`${name}${args.id ? ` ${args.id}` : ''}`)
      if (name === '=put') { const r = { id: 'a', n: done.length * 10 }; await v.collection('inv').put('a', r); model.inv.set('a', r); continue }
      if (name === '=del') { await v.collection('inv').delete('a'); model.inv.delete('a'); continue }
      const cut = name.lastIndexOf('_'), coll = name.slice(0, cut), op = name.slice(cut + 1), m = model[coll]
      const r = await attempt(() => nb.ai.invokeToolCall(v, { name, args: structuredClone(args) }, { allowedOperations: OPS, allowedCollections: ['inv', 'inv_list'] }))
      const bad = (what) => ctx.violation('hist:' + op, `${done.join(' ; ')} ${what}`, { u, h })
      if (!r.ok) return bad(`fails with ${r.err}`)
      if (op === 'get' && !same(r.val, m.get(args.id) ?? null)) return bad(`gives ${show(r.val)}`)
      if (op === 'count' && r.val !== m.size) return bad(`gives ${show(r.val)}, the collection has ${m.size}`)
      if (op === 'list' && !same(r.val.map(canon).sort(), [...m.values()].map(canon).sort())) return bad(`gives ${show(r.val)}`)
      if (op === 'put') m.set(args.id, args.record)
      if (op === 'delete') m.delete(args.id)
    }
    ctx.sample(done.join(' ; ')); ctx.state(canon([...model.inv, ...model.inv_list]))
    // another session reads the same
    const db2 = await openDb(nb, plainStore(nb.hub, data), u.encrypt ? { secret: pass('owner') } : { encrypt: false })
    const v2 = await db2.openVault('V')
    for (const [c, m] of Object.entries(model)) {
      const got = (await v2.collection(c).list()).map(canon).sort()
      if (!same(got, [...m.values()].map(canon).sort())) return ctx.violation('hist:stored', `after ${done.join(' ; ')} another session reads ${show(got)} in ${c}`, { u, h })
    }
    db2.close()
  }
}

const RUN = { tools: unitTools, calls: unitCalls, odd: unitOdd, hist: unitHist }
export default {
  level: 'model_checking',
  technique: 'stateless exploration of the real code: every person × published set × format, every call name × operation × host limits, all call histories to a depth',
  rule: 'the published names, answers, refusals and store contents are compared with a table of rights and a map of records',
  bounds: (tier) => `12 people (every role, ro/rw mixes) × 33 operation sets × 12 allowlists × 5 formats; 11 collection names × 5 operations × 9 × 6 host limits per person; odd names and arguments; histories of ${tier === 'thorough' ? 4 : 3} calls over 15 letters`,
  assumptions: ['collections exist with at least one record; the host passes the same limits to dispatch as to publication'],
  modules: { ...HUB, ai: '@noy-db/in-ai' },
  units(tier) {
    const out = []
    for (const who of Object.keys(WHO)) out.push({ t: 'tools', who }, { t: 'calls', who })
    out.push({ t: 'odd', encrypt: true }, { t: 'odd', encrypt: false })
    for (let first = 0; first < LETTERS.length; first++) out.push({ t: 'hist', encrypt: false, len: tier === 'thorough' ? 4 : 3, first }, { t: 'hist', encrypt: true, len: tier === 'thorough' ? 3 : 2, first })
    return out
  },
  async runUnit(u, ctx) { await settle(() => RUN[u.t](u, ctx)) },
}
