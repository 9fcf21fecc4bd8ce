// P36 — a collection with a schema stores and returns only what the schema accepts.
import { resetWorld, settle } from '../lib/world.mjs'
import { canon, same, sequences } from '../lib/explore.mjs'
import { Data, plainStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName } from '../lib/noy.mjs'

const show = (x) => { const s = canon(x) ?? String(x); return s.length > 240 ? s.slice(0, 240) + '…' : s }
const clone = (x) => JSON.parse(JSON.stringify(x))

// ── schemas: reference(record) → { value } | { issues } | { throws } ─────────
const isObj = (x) => x !== null && typeof x === 'object' && !Array.isArray(x)
const issue = (message, path) => ({ issues: [{ message, path: [path] }, { message: 'second', path: [{ key: path }] }] })
const REFS = {
  strict: (r) => (isObj(r) && typeof r.n === 'number' && r.n > 0 ? { value: r } : issue('n must be a positive number', 'n')),
  coerce: (r) => { const n = isObj(r) ? Number(r.n) : NaN; return Number.isNaN(n) || n <= 0 ? issue('n is not a number', 'n') : { value: { n, tag: r.tag ?? 'none', ...(r.k !== undefined ? { k: r.k } : {}) } } },
  throws: (r) => { if (!isObj(r) || r.n === 'x') throw new TypeError('validator broke'); return typeof r.n === 'number' ? { value: r, issues: undefined } : issue('n', 'n') },
  emptyIssues: (r) => (isObj(r) && r.n !== 'x' && r.n !== undefined ? { value: r, issues: [] } : issue('n', 'n')),
}
const schemaOf = (kind, asynchronous, seen) => ({ '~standard': { version: 1, vendor: 'test', validate: (v) => {
  seen?.push(canon(v))
  if (!asynchronous) return REFS[kind](v)
  return (async () => { await null; await null; return REFS[kind](v) })()
} } })
const judge = (kind, r) => { try { const x = REFS[kind](r); return x.issues?.length ? { bad: 'SCHEMA_VALIDATION_FAILED', issues: x.issues } : { value: x.value } } catch { return { bad: 'TypeError' } } }

const VALUES = { good: { n: 1 }, other: { n: 2, tag: 'b' }, text: { n: '3', extra: true }, bad: { n: 'x' }, none: { tag: 'c' } }
const MODES = {
  eager: {}, lazy: { prefetch: false, cache: { maxRecords: 1 } },
  indexed: { prefetch: false, cache: { maxRecords: 9 }, indexes: ['n'] }, eagerIndexed: { indexes: ['n'] }, tiered: { tiers: [0, 1] },
}
const open = async (nb, data, encrypt = true) => { const db = await openDb(nb, plainStore(nb.hub, data), { user: 'owner', encrypt }); return { db, v: await db.openVault('V') } }
const readAll = async (c, lazy) => { const out = {}; for (const id of ['a', 'b']) { const r = await c.get(id); if (r !== null) out[id] = r } return out }
/** What the store holds, as an unvalidated session reads it. */
const rawAll = async (nb, data, encrypt, tiered) => {
  const { v } = await open(nb, data, encrypt)
  const c = v.collection('items', tiered ? MODES.tiered : {})
  const out = {}
  for (const id of ['a', 'b']) { const r = tiered ? await c.getAtTier(id) : await c.get(id); if (r !== null) out[id] = r }
  return out
}

// ── every way to write ──────────────────────────────────────────────────────
const OPS = []
for (const x of Object.keys(VALUES)) OPS.push({ k: 'put', e: [['a', x]] }, { k: 'many', e: [['a', x], ['b', 'good']] }, { k: 'atomic', e: [['b', 'good'], ['a', x]] }, { k: 'tx', e: [['b', 'other'], ['a', x]] }, { k: 'sync', e: [['a', x]] })
for (const x of Object.keys(VALUES)) OPS.push({ k: 'tier', e: [['a', x]] })
OPS.push({ k: 'revert', e: [['a', null]] }, { k: 'delete', e: [['a', null]] }, { k: 'restart' }, { k: 'loose', e: [['a', 'bad']] })
async function unitWrite(u, ctx) {
  const { nb } = ctx
  const opts = MODES[u.mode]
  const ops = OPS.filter((o) => (u.mode === 'tiered' ? ['put', 'tier', 'delete', 'restart'] : ['put', 'many', 'atomic', 'tx', 'sync', 'delete', 'restart', 'revert']).includes(o.k))
  for (const hist of sequences(ops.length, u.len)) {
    if (hist[0] % u.of !== u.part) continue
    resetWorld(1)
    const data = new Data()
    let seen = []
    const schema = schemaOf(u.schema, u.async, seen)
    let s = await open(nb, data, u.encrypt)
    let c = s.v.collection('items', { schema, ...opts })
    let model = {}, versions = [], events = []
    s.db.on('change', (e) => { if (e.collection === 'items') events.push(e.id) })
    ctx.exec()
    const names = []
    for (const h of hist) {
      const op = ops[h]
      names.push(op.k + (op.e ? ':' + op.e.map(([i, x]) => i + (x ? '=' + x : '')).join() : ''))
      const say = (k, what) => ctx.violation(`write:${k}`, `${u.schema}${u.async ? ' (async)' : ''} schema, ${u.mode}${u.encrypt ? '' : ', unencrypted'}: after ${names.join(', ')}: ${what}`, { ...u, ops: names })
      if (op.k === 'restart') { s = await open(nb, data, u.encrypt); c = s.v.collection('items', { schema, ...opts }); events = []; s.db.on('change', (e) => { if (e.collection === 'items') events.push(e.id) }); versions = []; continue }
      const before = canon(data.snapshot())
      events.length = 0
      const given = (op.e ?? []).map(([id, x]) => [id, x === null ? null : clone(VALUES[x])])
      const copy = clone(given)
      let want = null // the error code expected, or null
      let issues = null
      const next = { ...model }
      const res = given.map(([id, r]) => [id, r === null ? null : judge(u.schema, r)])
      const bads = res.filter(([, j]) => j?.bad)
      let r
      if (op.k === 'put') r = await attempt(() => settle(() => c.put(...given[0])))
      else if (op.k === 'sync') { r = await attempt(() => settle(async () => { const v2 = s.v.collection('items'); await v2.put(...given[0]) })) } // a later handle without options is the same collection
      else if (op.k === 'tier') r = await attempt(() => settle(() => c.putAtTier(...given[0], 1)))
      else if (op.k === 'many') r = await attempt(() => settle(() => c.putMany(given)))
      else if (op.k === 'atomic') r = await attempt(() => settle(() => c.putMany(given, { atomic: true })))
      else if (op.k === 'tx') r = await attempt(() => settle(() => s.db.transaction((tx) => { for (const [id, x] of given) tx.vault('V').collection('items').put(id, x) })))
      else if (op.k === 'delete') { r = await attempt(() => settle(() => c.delete('a'))); if (!r.ok) say('delete', `delete fails: ${r.err?.message}`); delete model.a; continue }
      else if (op.k === 'revert') {
        const hs = await settle(() => c.history('a'))
        if (!hs.length) continue
        r = await attempt(() => settle(() => c.revert('a', hs[0].version)))
        if (!r.ok) { say('revert', `revert to an accepted version fails: ${r.err?.message}`); continue }
        const j = judge(u.schema, hs[0].record)
        if (j.bad) say('history', `the history holds ${show(hs[0].record)}`)
        else model.a = j.value
        continue
      }
      if (!same(given, copy)) say('caller', `the caller's record becomes ${show(given)}`)
      if (op.k === 'many') {
        for (const [id, j] of res) if (!j.bad) next[id] = clone(j.value)
        const wantOk = res.filter(([, j]) => !j.bad).map(([id]) => id), wantBad = bads.map(([id]) => id)
        if (!r.ok || r.val.ok !== !bads.length || !same(r.val.success, wantOk) || !same(r.val.failures.map((f) => f.id), wantBad)) say('many', `putMany reports ${r.ok ? show({ ok: r.val.ok, success: r.val.success, failures: r.val.failures.map((f) => f.id) }) : r.err?.message}`)
        else if (bads.length && errName({ err: r.val.failures[0].error }) !== bads[0][1].bad) say('many-error', `putMany reports ${errName({ err: r.val.failures[0].error })}`)
        model = next
      } else if (bads.length) {
        if (r.ok) say('accepted', `${op.k} stores ${show(copy[copy.length - 1][1])}`)
        else {
          if (errName(r) !== bads[0][1].bad) say('error', `${op.k} is refused with ${errName(r)}: ${r.err?.message}`)
          else if (bads[0][1].issues && (!same(clone(r.err.issues), bads[0][1].issues) || r.err.direction !== 'input')) say('issues', `the error carries ${show(r.err.issues)}, direction ${r.err.direction}`)
          const solo = op.k === 'put' || op.k === 'tier' || op.k === 'sync'
          if (solo && canon(data.snapshot()) !== before) say('trace', `a refused ${op.k} changes the store`)
          if (solo && events.length) say('event', `a refused ${op.k} announces a change`)
        }
      } else {
        if (!r.ok) say('refused', `${op.k} of ${show(copy)} fails: ${r.err?.message}`)
        for (const [id, j] of res) next[id] = clone(j.value)
        model = next
      }
      const got = await attempt(() => settle(async () => {
        if (u.mode !== 'tiered') return readAll(c)
        const o = {}
        for (const id of ['a', 'b']) { const x = await c.getAtTier(id); if (x !== null) o[id] = x }
        return o
      }))
      if (!got.ok || !same(clone(got.val), model)) say('read', `reads ${got.ok ? show(got.val) : got.err?.message} instead of ${show(model)}`)
      const raw = await settle(() => rawAll(nb, data, u.encrypt, u.mode === 'tiered'))
      if (!same(raw, model)) say('stored', `the store holds ${show(raw)} instead of ${show(model)}`)
      ctx.state(canon([u.mode, u.schema, model]))
    }
    ctx.sample({ schema: u.schema, mode: u.mode, history: names })
  }
}

// ── a schema introduced over older records: going back to them ──────────────
async function unitRevert(u, ctx) {
  const { nb } = ctx
  for (const old of Object.keys(VALUES)) for (const now of ['good', 'other']) for (const how of ['revert', 'again']) {
    resetWorld(1)
    const data = new Data()
    { const { v } = await open(nb, data); const c = v.collection('items', MODES[u.mode]); await c.put('a', clone(VALUES[old])); await c.put('a', { ...clone(VALUES[now]) }) }
    const { v, db } = await open(nb, data)
    const c = v.collection('items', { schema: schemaOf(u.schema, u.async), ...MODES[u.mode] })
    const say = (k, what) => ctx.violation(`revert:${k}`, `${u.schema} schema, ${u.mode}, v1=${old} v2=${now}: ${what}`, { ...u, old, now })
    ctx.exec()
    const events = []
    db.on('change', (e) => { if (e.collection === 'items') events.push(e.id) })
    const h = await attempt(() => settle(() => c.history('a')))
    if (!h.ok || !same(clone(h.val.map((x) => x.record)), [VALUES[old]])) say('history', `history gives ${h.ok ? show(h.val.map((x) => x.record)) : h.err?.message}`)
    const before = canon(data.snapshot())
    const r = await attempt(() => settle(() => c.revert('a', 1)))
    const j = judge(u.schema, VALUES[old]), cur = judge(u.schema, VALUES[now])
    ctx.state(canon([u.mode, u.schema, old, now]))
    if (j.bad ? r.ok || errName(r) !== j.bad : !r.ok) { say('outcome', `revert ${r.ok ? 'succeeds' : 'fails with ' + errName(r)}`); continue }
    if (j.bad && canon(data.snapshot()) !== before) say('trace', 'a refused revert changes the store')
    if (j.bad && events.length) say('event', 'a refused revert announces a change')
    const want = j.bad ? cur.value : j.value
    const got = await attempt(() => settle(() => c.get('a')))
    if (!got.ok || !same(clone(got.val), want)) say('read', `then reads ${got.ok ? show(got.val) : got.err?.message} instead of ${show(want)}`)
    const raw = await settle(() => rawAll(nb, data, true))
    if (!same(raw.a, j.bad ? VALUES[now] : want)) say('stored', `then the store holds ${show(raw.a)}`)
    if (how === 'again') {
      const p = await attempt(() => settle(() => c.put('a', clone(VALUES.good))))
      if (!p.ok) say('after', `a later put fails: ${p.err?.message}`)
    }
  }
}

// ── a rejected write beside everything else a collection keeps ──────────────
async function unitBeside(u, ctx) {
  const { nb } = ctx
  for (const val of Object.keys(VALUES)) for (const how of ['put', 'many', 'atomic', 'tx']) {
    resetWorld(1)
    const data = new Data()
    const { v, db } = await open(nb, data)
    const c = v.collection('items', { schema: schemaOf(u.schema, u.async), ...MODES[u.mode] })
    await c.put('a', clone(VALUES.other))
    const heard = [], live = []
    const off = c.subscribe((e) => heard.push([e.type, e.id]))
    let q = null
    if (u.mode === 'eager') { await c.list(); q = c.query().live(); q.subscribe(() => live.push(1)) }
    const ledger = v.ledger()
    const head = canon(await ledger.head()), before = canon(data.snapshot()), n0 = live.length
    const say = (k, what) => ctx.violation(`beside:${k}`, `${u.schema} schema, ${u.mode}: ${how} of ${val}: ${what}`, { ...u, val, how })
    ctx.exec()
    const rec = clone(VALUES[val])
    const r = await attempt(() => settle(() => how === 'put' ? c.put('a', rec) : how === 'many' ? c.putMany([['a', rec]]) : how === 'atomic' ? c.putMany([['a', rec]], { atomic: true }) : db.transaction((tx) => tx.vault('V').collection('items').put('a', rec))))
    const j = judge(u.schema, VALUES[val])
    ctx.state(canon([u.mode, u.schema, val, how]))
    if (j.bad) {
      if (how === 'many' ? r.val?.ok : r.ok) say('accepted', 'is accepted')
      if (canon(data.snapshot()) !== before) say('trace', 'changes the store')
      if (canon(await ledger.head()) !== head) say('ledger', 'is written in the ledger')
      if (heard.length || live.length !== n0) say('event', `announces ${show(heard)}`)
      if ((await settle(() => c.history('a'))).length) say('history', 'leaves a version in the history')
    } else {
      if (how === 'many' ? !r.val?.ok : !r.ok) say('refused', `fails: ${r.err?.message ?? r.val?.failures?.[0]?.error?.message}`)
      if (!same(heard, [['put', 'a']])) say('heard', `announces ${show(heard)}`)
      if ((await settle(() => c.history('a'))).length !== 1) say('versions', 'leaves no version in the history')
      if (q && !same(clone(q.value), [j.value])) say('live', `the live query shows ${show(q.value)}`)
    }
    off(); q?.stop?.()
  }
}

// ── stored data that no longer fits ─────────────────────────────────────────
const READS = {
  get: async (c) => ({ a: await c.get('a'), b: await c.get('b') }), getA: async (c) => ({ a: await c.get('a') }), getB: async (c) => ({ b: await c.get('b') }),
  getMany: async (c) => Object.fromEntries(await c.getMany(['a', 'b'])),
  list: async (c) => c.list(), query: async (c) => { await c.list(); return c.query().toArray() },
  scan: async (c) => { const o = []; for await (const r of c.scan()) o.push(r); return o },
  page: async (c) => (await c.listPage({ limit: 10 })).items,
  first: async (c) => { await c.list(); return [c.query().orderBy('n').first()] },
  stream: async (c, v) => { const o = []; for await (const ch of v.exportStream()) o.push(...ch.records); return o },
  records: async (c, v) => { const o = []; for await (const ch of v.exportStream({ granularity: 'record' })) o.push(...ch.records); return o },
  json: async (c, v) => JSON.parse(await v.exportJSON()).collections.items.records,
  frame: async (c, v) => ({ a: await v.frame().collection('items').get('a'), b: await v.frame().collection('items').get('b') }),
  lazyQuery: async (c) => c.lazyQuery().where('k', '==', 1).toArray(),
  findByDet: async (c) => [await c.findByDet('k', 1)], queryByDet: async (c) => c.queryByDet('k', 1),
  atTier: async (c) => ({ a: await c.getAtTier('a'), b: await c.getAtTier('b') }),
}
const LAZYLESS = ['list', 'query', 'first']
async function unitDrift(u, ctx) {
  const { nb } = ctx
  const opts = { eager: {}, lazy: MODES.lazy, indexed: { prefetch: false, cache: { maxRecords: 9 }, indexes: ['k'] }, det: { deterministicFields: ['k'], acknowledgeDeterministicRisk: true }, tiered: { tiers: [0, 1] } }[u.mode]
  const lazy = u.mode === 'lazy' || u.mode === 'indexed'
  for (const [x, y] of [['good', 'other'], ['bad', 'other'], ['good', 'bad'], ['bad', 'none'], ['text', 'other'], ['good', 'text'], ['none', null], ['good', null]]) for (const read of Object.keys(READS)) {
    if (lazy && LAZYLESS.includes(read)) continue
    if ((read === 'lazyQuery') !== (u.mode === 'indexed') && (read === 'lazyQuery' || u.mode === 'indexed')) continue
    if (/Det$/.test(read) !== (u.mode === 'det')) continue
    if ((read === 'atTier') !== (u.mode === 'tiered')) continue
    resetWorld(1)
    const data = new Data()
    {
      const { v } = await open(nb, data)
      const c = v.collection('items', opts)
      for (const [id, val] of [['a', x], ['b', y]]) if (val) await (u.mode === 'tiered' ? c.putAtTier(id, { ...VALUES[val], k: 1 }, 1) : c.put(id, { ...VALUES[val], k: 1 }))
    }
    const { v } = await open(nb, data)
    const c = v.collection('items', { ...opts, schema: schemaOf(u.schema, u.async) })
    ctx.exec()
    const js = { a: judge(u.schema, { ...VALUES[x], k: 1 }), b: y ? judge(u.schema, { ...VALUES[y], k: 1 }) : null }
    const r = await attempt(() => settle(() => READS[read](c, v)))
    const say = (k, what) => ctx.violation(`drift:${k}`, `${u.schema} schema, ${u.mode}, stored a=${x} b=${y}: ${read} ${what}`, { ...u, x, y, read })
    const ids = read === 'getA' ? ['a'] : read === 'getB' ? ['b'] : ['a', 'b']
    const asked = ids.map((i) => js[i]).filter(Boolean)
    const any = Object.values(js).some((j) => j?.bad)
    const must = asked.some((j) => j.bad) // a drifted record was asked for
    ctx.state(canon([u.mode, u.schema, read, x, y]))
    if (must) {
      if (r.ok && !(read === 'findByDet' && !js.a.bad && same(clone(r.val), [js.a.value]))) { say('silent', `gives ${show(r.val)}`); continue }
    } else if (!r.ok && !(any && !lazy)) { say('fails', `fails: ${r.err?.message}`); continue }
    if (!r.ok) {
      const codes = Object.values(js).filter((j) => j?.bad).map((j) => j.bad)
      if (!codes.includes(errName(r))) say('error', `fails with ${errName(r)}`)
      else if (errName(r) === 'SCHEMA_VALIDATION_FAILED' && r.err.direction !== 'output') say('direction', `reports direction ${r.err.direction}`)
      continue
    }
    const vals = clone(Array.isArray(r.val) ? r.val : Object.values(r.val)).map(canon).sort()
    const want = clone(ids.map((i) => (js[i] ? js[i].value : Array.isArray(r.val) ? undefined : null)).filter((z) => z !== undefined)).map(canon).sort()
    if (read === 'findByDet' || read === 'first' ? !want.includes(vals[0]) : !same(vals, want)) say('value', `gives ${show(vals)} instead of ${show(want)}`)
  }
}

const RUN = { write: unitWrite, revert: unitRevert, beside: unitBeside, drift: unitDrift }
export default {
  level: 'exhaustive within bounds, on the real collection code',
  technique: 'bounded exhaustive enumeration of write histories and stored states per schema, mode and read path against a reference validator',
  bounds: (t) => `4 schemas, synchronous and asynchronous; 5 modes; write histories of length ${t === 'thorough' ? 3 : 2} over up to 28 operations; 8 stored states × 17 read paths`,
  assumptions: ['validators are deterministic and accept their own output unchanged', 'records received by sync are validated when next loaded'],
  modules: HUB,
  units(tier) {
    const us = []
    const of = tier === 'thorough' ? 7 : 1
    for (const schema of Object.keys(REFS)) for (const a of [false, true]) {
      for (const mode of Object.keys(MODES)) for (const encrypt of mode === 'eager' ? [true, false] : [true]) for (let part = 0; part < of; part++) us.push({ kind: 'write', schema, async: a, mode, encrypt, len: tier === 'thorough' ? 3 : 2, part, of })
      for (const mode of ['eager', 'lazy', 'indexed']) us.push({ kind: 'revert', schema, async: a, mode }, { kind: 'beside', schema, async: a, mode })
      for (const mode of ['eager', 'lazy', 'indexed', 'det', 'tiered']) us.push({ kind: 'drift', schema, async: a, mode })
    }
    return us
  },
  async runUnit(u, ctx) { await RUN[u.kind](u, ctx) },
}
