// P33 — translated fields and dictionaries: required languages, exact labels, complete renames.
import { resetWorld, settle } from '../lib/world.mjs'
import { sequences, canon } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, errName } from '../lib/noy.mjs'

const P = (s) => `${s} correct horse battery`
const LANGS = ['en', 'th', 'ja']
const REQUIRED = ['all', 'any', ['th'], ['en', 'th'], []]
const VALUES = [undefined, null, 'text', 5, ['x'], {}, { en: 'a' }, { th: 'b' }, { ja: 'c' }, { en: 'a', th: 'b' }, { en: 'a', th: 'b', ja: 'c' }, { en: '' }, { en: '', th: 'b' }, { en: 'a', th: '' }, { fr: 'x' }, { fr: 'x', th: 'b' }, { en: 5 }, { en: 'a', th: null }, { en: 'a', th: 'b', ja: 'c', fr: '' }, { en: 'a', th: 'b', ja: '' }, { en: '', th: 'b', ja: 'c' }, { en: 'a', th: 'b', ja: 'c', fr: 5 }, { fr: null, th: 'b' }, { en: 'a', th: 'b', ja: ' ' }]
const clone = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x)))
const isMap = (v) => typeof v === 'object' && v !== null && !Array.isArray(v)

// ── writing ────────────────────────────────────────────────────────
/** What a put must do: {code} or {value, calls}. */
function expectPut(value, required, auto) {
  if (value === undefined || value === null) return { value, calls: [] }
  if (!isMap(value)) return { code: 'MISSING_TRANSLATION' }
  const has = (m, l) => m[l] !== undefined && m[l] !== ''
  const out = { ...value }, calls = []
  if (auto !== 'off') {
    const missing = LANGS.filter((l) => !(l in value) || value[l] === '')
    const src = LANGS.find((l) => l in value && value[l] !== '')
    if (missing.length && src) {
      if (auto === 'unset') return { code: 'TRANSLATOR_NOT_CONFIGURED' }
      const need = required === 'any' ? [] : required === 'all' ? missing : missing.filter((l) => required.includes(l))
      for (const l of need) { out[l] = `${l}(${value[src]})`; calls.push(`${src}>${l}:${value[src]}`) }
    }
  }
  if (Object.values(out).some((x) => typeof x !== 'string')) return { code: 'MISSING_TRANSLATION' }
  const ok = required === 'all' ? LANGS.every((l) => has(out, l)) : required === 'any' ? LANGS.some((l) => has(out, l)) : required.every((l) => has(out, l))
  return ok ? { value: out, calls } : { code: 'MISSING_TRANSLATION' }
}
const PATHS = {
  put: (db, c, r) => c.put('r', r),
  again: async (db, c, r) => { await c.put('r', { n: 0 }); await c.put('r', r) },
  many: (db, c, r) => c.putMany([['r', r]]),
  atomic: (db, c, r) => c.putMany([['ok', { n: 1 }], ['r', r]], { atomic: true }),
  tx: (db, c, r) => db.transaction((tx) => { const t = tx.vault('V').collection('c'); t.put('ok', { n: 1 }); t.put('r', r) }),
}
async function writing(ctx, u) {
  const nb = ctx.nb, req = REQUIRED[u.req]
  for (const auto of ['off', 'unset', 'on']) for (const value of VALUES) for (const path of Object.keys(PATHS)) {
    ctx.exec(); resetWorld(1, { tick: 1 })
    const data = new Data(), calls = []
    const db = await openDb(nb, plainStore(nb.hub, data), { encrypt: u.encrypt, except: ['session', 'sync'], ...(auto === 'on' ? { plaintextTranslator: async ({ text, from, to, field, collection }) => { calls.push(`${from}>${to}:${text}`); if (field !== 't' || collection !== 'c') calls.push('wrong context'); return `${to}(${text})` } } : {}) })
    const v = await db.openVault('V')
    const c = v.collection('c', { ...(u.lazy ? { prefetch: false, cache: { maxRecords: 9 } } : {}), i18nFields: { t: nb.hub.i18nText({ languages: LANGS, required: req, ...(auto === 'off' ? {} : { autoTranslate: true }) }) } })
    const rec = value === undefined ? { n: 1 } : { n: 1, t: clone(value) }
    const given = canon(rec)
    const what = `required ${canon(req)}, translator ${auto}, ${path} of ${given}, ${u.lazy ? 'lazy' : 'eager'}`
    ctx.last = what
    const bad = (k, m) => ctx.violation(`write:${k}:${u.req}:${auto}:${path}:${canon(value) ?? 'absent'}:${u.lazy}`, `${what}: ${m}`)
    const e = expectPut(value, req, auto)
    const r = await attempt(() => settle(() => PATHS[path](db, c, rec)))
    ctx.trans()
    const code = r.ok ? (path === 'many' && r.val.failures?.length ? r.val.failures[0].error?.code ?? 'error' : null) : errName(r)
    if (canon(rec) !== given) bad('mutated', `the caller's record became ${canon(rec)}`)
    if (code !== (e.code ?? null)) { bad('verdict', `${code ?? 'accepted'} instead of ${e.code ?? 'accepted'}`); continue }
    const stored = data.coll('V', 'c')
    if (e.code) {
      const left = path === 'again' ? 1 : 0
      if ((stored?.size ?? 0) !== left || (left && stored.get('r')._v !== 1)) bad('trace', 'a refused record leaves something in the store')
      if (calls.length && e.code === 'TRANSLATOR_NOT_CONFIGURED') bad('calls', 'the translator is called')
      continue
    }
    if (canon(calls) !== canon(e.calls)) bad('calls', `the translator is asked ${canon(calls)} instead of ${canon(e.calls)}`)
    const want = canon(e.value === undefined ? { n: 1 } : { n: 1, t: e.value })
    const log = db.translatorAuditLog().map((x) => `${x.collection}/${x.field} ${x.fromLocale}>${x.toLocale}`)
    if (canon(log) !== canon(e.calls.map((x) => `c/t ${x.split(':')[0]}`))) bad('audit', `the translator audit lists ${canon(log)}`)
    const got = canon(await c.get('r'))
    if (got !== want) bad('stored', `reads ${got} instead of ${want}`)
    const db2 = await openDb(nb, plainStore(nb.hub, data), { encrypt: u.encrypt, except: ['session', 'sync'] })
    const got2 = canon(await (await db2.openVault('V')).collection('c').get('r'))
    if (got2 !== want) bad('stored', `a second session reads ${got2} instead of ${want}`)
    // the same text is not sent out twice
    if (calls.length && path === 'put') {
      const n = calls.length
      await settle(() => c.put('s', clone(rec)))
      if (calls.length !== n) bad('cache', 'a repeated text is sent to the translator again')
      if (canon((await c.get('s')).t) !== canon(e.value)) bad('cache', 'a repeated text is translated differently')
      if (db.translatorAuditLog().length !== 2 * n) bad('audit', 'the repeated translation is not audited')
    }
    ctx.state(canon([auto, want]))
  }
}

// ── reading ────────────────────────────────────────────────────────
const MAPS = [null, { en: 'a' }, { th: 'b' }, { en: 'a', th: 'b' }, { en: '', th: 'b' }, { ja: 'c', en: 'a' }]
const KEYS = [undefined, 'k', 'gone', 7]
const LABELS = [{ en: 'A', th: 'B' }, { th: 'B' }, { en: '', ja: 'C' }]
const CALLS = [undefined, {}, ...['en', 'th', 'fr', 'raw'].flatMap((locale) => [undefined, 'th', ['fr', 'en'], 'any', ['fr', 'any']].map((fallback) => (fallback === undefined ? { locale } : { locale, fallback }))), { fallback: 'en' }]
function expectRead(rec, labels, call, def) {
  const locale = call?.locale ?? def
  if (!locale) return { rec }
  if (locale === 'raw') return { rec }
  const out = { ...rec }
  const chain = Array.isArray(call?.fallback) ? call.fallback : call?.fallback ? [call.fallback] : []
  if (isMap(rec.t)) {
    let s = rec.t[locale] || undefined
    for (const f of chain) s ??= (f === 'any' ? Object.values(rec.t).find((x) => x !== '') : rec.t[f]) || undefined
    if (s === undefined) return { code: 'LOCALE_NOT_SPECIFIED' }
    out.t = s
  }
  if (rec.k === 'k') {
    let s = labels[locale]
    for (const f of chain) s ??= f === 'any' ? Object.values(labels)[0] : labels[f]
    if (s !== undefined) out.kLabel = s
  }
  return { rec: out }
}
async function reading(ctx, u) {
  const nb = ctx.nb, labels = LABELS[u.l]
  for (const map of MAPS) for (const key of KEYS) {
    resetWorld(1, { tick: 1 })
    const data = new Data(), store = plainStore(nb.hub, data)
    const rec = { n: 1, ...(map ? { t: map } : {}), ...(key === undefined ? {} : { k: key }) }
    const opts = { ...(u.lazy ? { prefetch: false, cache: { maxRecords: 9 } } : {}), i18nFields: { t: nb.hub.i18nText({ languages: LANGS, required: 'any' }) }, dictKeyFields: { k: nb.hub.dictKey('d') } }
    {
      const db = await openDb(nb, store, { except: ['session', 'sync'] }), v = await db.openVault('V')
      await v.dictionary('d').put('k', labels)
      await v.collection('c', opts).put('r', rec)
    }
    for (const how of ['none', 'open', 'set', 'late', 'cleared', 'switched']) {
      const def = how === 'none' || how === 'cleared' ? undefined : 'th'
      const db = await openDb(nb, store, { except: ['session', 'sync'] })
      const v = await db.openVault('V', how === 'open' || how === 'cleared' ? { locale: 'th' } : how === 'switched' ? { locale: 'en' } : {})
      if (how === 'set') v.setLocale('th')
      const c = v.collection('c', opts)
      if (how === 'late' || how === 'switched') v.setLocale('th')
      if (how === 'cleared') v.setLocale(undefined)
      for (const call of CALLS) for (const op of u.lazy ? ['get', 'getMany', 'scan'] : ['get', 'list', 'getMany', 'frame']) {
        if (['getMany', 'scan'].includes(op) && call !== undefined) continue
        ctx.exec(); ctx.trans()
        const what = `record ${canon(rec)}, labels ${canon(labels)}, default locale ${how}, ${op}(${canon(call) ?? ''}), ${u.lazy ? 'lazy' : 'eager'}`
        ctx.last = what
        const bad = (k, m) => ctx.violation(`read:${k}:${canon(map)}:${key}:${how}:${op}:${canon(call) ?? ''}:${u.l}`, `${what}: ${m}`)
        const e = op === 'scan' ? { rec } : expectRead(rec, labels, call, def)
        const r = await attempt(async () => {
          if (op === 'get') return c.get('r', call)
          if (op === 'list') return (await c.list(call))[0]
          if (op === 'getMany') return (await c.getMany(['r'])).get('r')
          if (op === 'frame') return v.frame().collection('c').get('r', call)
          for await (const x of c.scan()) return x
        })
        if (!r.ok || e.code) { if ((r.ok ? 'a value' : errName(r)) !== e.code) bad('error', `${r.ok ? canon(r.val) : errName(r)} instead of ${e.code ?? canon(e.rec)}`); continue }
        if (canon(r.val) !== canon(e.rec)) bad('value', `reads ${canon(r.val)} instead of ${canon(e.rec)}`)
        const raw = await c.get('r', { locale: 'raw' })
        if (canon(raw) !== canon(rec)) bad('changed', `afterwards the stored record reads ${canon(raw)}`)
        ctx.state(canon(r.val))
      }
      // an export holds the stored values whatever the default locale
      const chunks = []
      const x = await attempt(async () => { for await (const ch of v.exportStream()) if (ch.collection === 'c') chunks.push(ch) })
      if (!x.ok || canon(chunks[0]?.records?.[0]) !== canon(rec) || canon(chunks[0]?.dictionaries?.k?.k) !== canon(labels)) ctx.violation(`read:export:${canon(map)}:${key}:${how}:${u.l}`, `record ${canon(rec)}, default locale ${how}: the export holds ${x.ok ? canon(chunks) : errName(x)}`)
    }
  }
}

// ── dictionaries ───────────────────────────────────────────────────
const DOPS = {
  put1: ['put', 'k1', { en: 'One', th: 'หนึ่ง' }], put1b: ['put', 'k1', { en: 'Uno' }], put2: ['put', 'k2', { th: 'สอง' }],
  all: ['putAll', { k1: { en: 'First' }, k3: { en: 'Third', th: 'สาม' } }],
  del1: ['del', 'k1'], del2: ['del', 'k2', { mode: 'warn' }],
  ren12: ['ren', 'k1', 'k2'], ren13: ['ren', 'k1', 'k3'], ren11: ['ren', 'k1', 'k1'], ren21: ['ren', 'k2', 'k1'], ren31: ['ren', 'k3', 'k1'],
  rec1: ['rec', 'k1'], rec2: ['rec', 'k2'], recDel: ['recDel'], reopen: ['reopen'],
}
const DN = Object.keys(DOPS)
const RECS = [['e', '1'], ['e', '2'], ['l', '1'], ['p', '1']]
async function dictHistory(ctx, seq) {
  const nb = ctx.nb
  ctx.exec(); resetWorld(1, { tick: 1 })
  const data = new Data(), store = plainStore(nb.hub, data)
  const what = seq.join(' ; ')
  ctx.last = what
  const bad = (k, m) => { ctx.violation(`dict:${k}:${seq.join('+')}`, `${what}: ${m}`); return false }
  let db, v
  const open = async () => {
    db = await openDb(nb, store, { except: ['session', 'sync'] }); v = await db.openVault('V')
    v.collection('e', { dictKeyFields: { s: nb.hub.dictKey('d'), o: nb.hub.dictKey('other') } })
    v.collection('l', { prefetch: false, cache: { maxRecords: 9 }, indexes: ['s'], dictKeyFields: { s: nb.hub.dictKey('d'), z: nb.hub.dictKey('d') } })
    v.collection('p', {}) // holds the same text in a field that is no dictionary key
  }
  await open()
  const D = new Map(), O = { k1: { en: 'Other' } }, R = new Map()
  await v.dictionary('other').put('k1', O.k1)
  const put = async (c, id, val) => { await v.collection(c).put(id, val); R.set(`${c}/${id}`, val) }
  for (const [c, id] of RECS) await put(c, id, c === 'e' ? { id: id === '1' ? '1' : 'not the id', s: id === '1' ? 'k1' : 'k2', o: 'k1' } : c === 'l' ? { s: 'k1', z: 'k1' } : { s: 'k1' })
  for (const name of seq) {
    const [kind, a, b] = DOPS[name]
    const d = v.dictionary('d')
    let code = null, r
    const led0 = (await v.ledger().entries()).length
    const was = Object.fromEntries(['k1', 'k2', 'k3'].map((k) => [k, data.get('V', '_dict_d', k)?._v ?? 0]))
    if (kind === 'put') { r = await attempt(() => settle(() => d.put(a, b))); D.set(a, b) }
    else if (kind === 'putAll') { r = await attempt(() => settle(() => d.putAll(a))); for (const k of Object.keys(a)) D.set(k, a[k]) }
    else if (kind === 'del') { if (!D.has(a)) code = 'DICT_KEY_MISSING'; r = await attempt(() => settle(() => d.delete(a, b))); D.delete(a) }
    else if (kind === 'ren') {
      if (!D.has(a)) code = 'DICT_KEY_MISSING'
      r = await attempt(() => settle(() => d.rename(a, b)))
      if (!code && a !== b) {
        D.set(b, D.get(a)); D.delete(a)
        for (const [k, rec] of R) { const n = { ...rec }; if (k[0] === 'e' && n.s === a) n.s = b; if (k[0] === 'l') for (const f of ['s', 'z']) if (n[f] === a) n[f] = b; R.set(k, n) }
      }
    } else if (kind === 'rec') r = await attempt(() => settle(() => put('e', 'new', { s: a, o: 'k1' })))
    else if (kind === 'recDel') { r = await attempt(() => settle(() => v.collection('e').delete('1'))); R.delete('e/1') }
    else { r = await attempt(async () => { db.close(); await open() }) }
    ctx.trans()
    const got = r.ok ? null : errName(r)
    if (got !== code) return bad('verdict', `${name} gives ${got ?? 'ok'} instead of ${code ?? 'ok'}${r.ok ? '' : `: ${r.err.message}`}`)
    if (!code && ['put', 'putAll', 'del', 'ren'].includes(kind)) {
      const led = (await v.ledger().entries()).slice(led0).filter((e) => e.collection === '_dict_d').map((e) => `${e.op} ${e.id} v${e.op === 'put' ? e.version : ''}`).sort()
      const ver = (k) => data.get('V', '_dict_d', k)?._v
      for (const k of kind === 'put' ? [a] : kind === 'putAll' ? Object.keys(a) : []) if (ver(k) !== was[k] + 1) return bad('version', `after ${name} entry ${k} has version ${ver(k)}, before ${was[k]}`)
      const want = (kind === 'put' ? [`put ${a} v${ver(a)}`] : kind === 'putAll' ? Object.keys(a).map((k) => `put ${k} v${ver(k)}`) : kind === 'del' ? [`delete ${a} v`] : a === b ? [] : [`delete ${a} v`, `put ${b} v${ver(b)}`]).sort()
      if (canon(led) !== canon(want)) return bad('ledger', `after ${name} the ledger gains ${canon(led)} instead of ${canon(want)}`)
    }
    const m = await compare(name)
    if (m) return bad('state', `after ${name} ${m}`)
  }
  async function compare() {
    for (const s of ['this', 'fresh']) {
      if (s === 'fresh') { const keep = [db, v]; await open(); const m = await one(s); [db, v] = keep; if (m) return m } else { const m = await one(s); if (m) return m }
    }
    return null
  }
  async function one(s) {
    const d = v.dictionary('d')
    const list = Object.fromEntries((await d.list()).map((e) => [e.key, e.labels]))
    if (canon(list) !== canon(Object.fromEntries(D))) return `${s} session lists ${canon(list)} instead of ${canon(Object.fromEntries(D))}`
    for (const k of ['k1', 'k2', 'k3']) {
      const g = await d.get(k)
      if (canon(g) !== canon(D.get(k) ?? null)) return `${s} session gives ${k} = ${canon(g)}`
      for (const [loc, fb] of [['th', undefined], ['en', undefined], ['th', 'en'], ['fr', 'any']]) {
        const l = await d.resolveLabel(k, loc, fb), m = D.get(k)
        const w = m ? m[loc] ?? (fb === 'any' ? Object.values(m)[0] : fb ? m[fb] : undefined) : undefined
        if (l !== w) return `${s} session resolves ${k} in ${loc}/${fb} to ${l} instead of ${w}`
      }
    }
    if (canon(await v.dictionary('other').get('k1')) !== canon(O.k1)) return `${s} session has lost the other dictionary`
    for (const [key, rec] of R) {
      const [c, id] = key.split('/')
      const g = await v.collection(c).get(id)
      if (canon(g) !== canon(rec)) return `${s} session reads ${key} as ${canon(g)} instead of ${canon(rec)}`
      if (c === 'p') continue
      const lab = await v.collection(c).get(id, { locale: 'en' })
      const want = { ...rec, ...(D.get(rec.s)?.en !== undefined ? { sLabel: D.get(rec.s).en } : {}), ...(c === 'e' ? { oLabel: 'Other' } : {}), ...(c === 'l' && D.get(rec.z)?.en !== undefined ? { zLabel: D.get(rec.z).en } : {}) }
      if (canon(lab) !== canon(want)) return `${s} session reads ${key} in English as ${canon(lab)} instead of ${canon(want)}`
    }
    const e = v.collection('e'); await e.list()
    const rows = [...R].filter(([k]) => k[0] === 'e').map(([, r]) => r)
    const joined = e.query().join('s', { as: 'w' }).toArray().map((x) => `${x.s}:${x.w ? canon(x.w.labels) : null}`).sort()
    const wantJ = rows.map((x) => `${x.s}:${D.has(x.s) ? canon(D.get(x.s)) : null}`).sort()
    if (canon(joined) !== canon(wantJ)) return `${s} session joins ${canon(joined)} instead of ${canon(wantJ)}`
    const grouped = (await e.query().groupBy('s').aggregate({ n: nb.hub.count() }).runAsync({ locale: 'en' })).map((x) => `${x.s}:${x.n}:${x.sLabel}`).sort()
    const wantG = [...new Set(rows.map((x) => x.s))].map((k) => `${k}:${rows.filter((x) => x.s === k).length}:${D.get(k)?.en}`).sort()
    if (canon(grouped) !== canon(wantG)) return `${s} session groups ${canon(grouped)} instead of ${canon(wantG)}`
    for (const k of ['k1', 'k2']) {
      const ids = (await v.collection('l').lazyQuery().where('s', '==', k).toArray()).length
      if (ids !== [...R].filter(([q, r]) => q[0] === 'l' && r.s === k).length) return `${s} session finds ${ids} records with ${k} through the index`
    }
    if (!(await v.verifyBackupIntegrity()).ok) return `${s} session: the vault does not verify`
    return null
  }
  ctx.state(canon([[...D], [...R]]))
}

// ── a rename that breaks off ───────────────────────────────────────
async function renameFaults(ctx, u) {
  const nb = ctx.nb
  for (let at = 1; ; at++) {
    resetWorld(1, { tick: 1 }); ctx.exec()
    const data = new Data()
    let armed = false, n = 0, hit = false, dead = false
    const store = hookedStore(nb.hub, data, (m, a, f) => {
      if (dead) return new Promise(() => {})
      if (!armed || ++n !== at) return f()
      hit = true
      if (u.kind2 === 'after' || u.kind2 === 'crash-after') f()
      if (u.kind2.startsWith('crash')) { dead = true; return new Promise(() => {}) }
      const e = new Error('injected store failure'); e.code = 'EINJECT'; throw e
    })
    const setup = async (st) => {
      const db = await openDb(nb, st, { except: ['session', 'sync'] }), v = await db.openVault('V')
      v.collection('e', { dictKeyFields: { s: nb.hub.dictKey('d') } })
      v.collection('l', { prefetch: false, cache: { maxRecords: 9 }, dictKeyFields: { s: nb.hub.dictKey('d') } })
      return { db, v }
    }
    let { v } = await setup(store)
    await v.dictionary('d').put('k1', { en: 'One' })
    if (u.target) await v.dictionary('d').put('k2', { en: 'Two' })
    for (const [c, id] of [['e', '1'], ['e', '2'], ['l', '1'], ['l', '2']]) await v.collection(c).put(id, { s: 'k1' })
    armed = true
    const run = attempt(() => v.dictionary('d').rename('k1', 'k2'))
    const r = await Promise.race([run, (async () => { for (let i = 0; i < 2000; i++) { await null; if (dead) return { ok: false, err: new Error('crash') }; if (i % 20 === 0) await new Promise((q) => setImmediate(q)) } return run })()])
    armed = false
    ctx.trans(n)
    if (!hit) break
    const what = `rename of a key used by four records, the store ${u.kind2} at its call ${at}`
    ctx.last = what
    const bad = (k, m) => ctx.violation(`rename:${k}:${u.kind2}:${at}:${u.target}:${u.same}`, `${what}: ${m}`)
    if (!u.same || dead) v = (await setup(plainStore(nb.hub, data))).v
    const state = async () => {
      const d = Object.fromEntries((await v.dictionary('d').list()).map((e) => [e.key, e.labels.en])), keys = []
      for (const [c, id] of [['e', '1'], ['e', '2'], ['l', '1'], ['l', '2']]) keys.push((await v.collection(c).get(id))?.s)
      return { d, keys }
    }
    const s1 = await state()
    for (const k of s1.keys) if (s1.d[k] !== 'One' && !(u.target && k === 'k2' && s1.d[k] === 'Two')) return bad('dangling', `a record refers to ${k}, the dictionary holds ${canon(s1.d)}`)
    if (r.ok && (s1.d.k1 !== undefined || s1.keys.some((k) => k !== 'k2'))) return bad('partial', `the rename reports success but leaves ${canon(s1)}`)
    const again = await attempt(() => settle(() => v.dictionary('d').rename('k1', 'k2')))
    const s2 = await state()
    if (!again.ok && errName(again) !== 'DICT_KEY_MISSING') return bad('again', `repeating it fails: ${errName(again)} ${again.err.message}`)
    if (canon(s2) !== canon({ d: { k2: 'One' }, keys: ['k2', 'k2', 'k2', 'k2'] })) return bad('again', `repeated, it leaves ${canon(s2)}`)
    ctx.state(canon([s1, s2]))
  }
}

// ── who may write ──────────────────────────────────────────────────
const RANK = { client: 1, viewer: 2, operator: 3, admin: 4, owner: 5 }
async function access(ctx) {
  const nb = ctx.nb
  resetWorld(1, { tick: 1 })
  const base = new Data()
  {
    const db = await openDb(nb, plainStore(nb.hub, base), { user: 'owner', secret: P('owner'), except: ['session', 'sync'] }), v = await db.openVault('V')
    await v.dictionary('d').put('k1', { en: 'One' })
    await v.collection('e').put('1', { n: 1 })
    for (const role of ['admin', 'operator', 'viewer', 'client']) await db.grant('V', { userId: role, displayName: role, role, passphrase: P(role), permissions: { e: role === 'operator' ? 'rw' : 'ro' } })
  }
  const snap = base.snapshot()
  const OPS = { put: (d) => d.put('k1', { en: 'X' }), putNew: (d) => d.put('k9', { en: 'N' }), putAll: (d) => d.putAll({ k1: { en: 'Y' } }), del: (d) => d.delete('k1'), ren: (d) => d.rename('k1', 'k2') }
  for (const role of Object.keys(RANK)) for (const min of [undefined, 'owner', 'admin', 'operator']) for (const first of ['direct', 'bare', 'labels', 'held']) for (const op of Object.keys(OPS)) {
    ctx.exec(); ctx.trans()
    const data = new Data(); data.restore(snap)
    const db = await openDb(nb, plainStore(nb.hub, data), { user: role, secret: P(role), except: ['session', 'sync'] }), v = await db.openVault('V')
    const what = `${role}, writableBy ${min}, dictionary ${first}, ${op}`
    ctx.last = what
    const bad = (k, m) => ctx.violation(`access:${k}:${role}:${min}:${first}:${op}`, `${what}: ${m}`)
    if (first === 'bare') await v.dictionary('d').list()
    if (first === 'labels') { const c = v.collection('q', { dictKeyFields: { s: nb.hub.dictKey('d') } }); c.query().groupBy('s') }
    const held = first === 'held' ? v.dictionary('d', min ? { writableBy: min } : undefined) : null
    const d = held ?? v.dictionary('d', min ? { writableBy: min } : undefined)
    const r = await attempt(() => settle(() => OPS[op](d)))
    const allowed = RANK[role] >= RANK[min ?? 'admin']
    const before = canon(snap.V._dict_d), after = canon(data.snapshot().V._dict_d ?? {})
    if (r.ok !== allowed || (!r.ok && errName(r) !== 'PERMISSION_DENIED')) bad('verdict', `${r.ok ? 'accepted' : errName(r)} instead of ${allowed ? 'accepted' : 'PERMISSION_DENIED'}`)
    if ((before !== after) !== allowed) bad('trace', allowed ? 'nothing is written' : 'the dictionary is changed')
    const g = await attempt(() => v.dictionary('d').get(op === 'ren' && allowed ? 'k2' : op === 'putNew' && allowed ? 'k9' : 'k1'))
    if (!g.ok) bad('read', `cannot read the dictionary: ${errName(g)}`)
    else if (!allowed && canon(g.val) !== canon({ en: 'One' })) bad('read', `reads ${canon(g.val)}`)
    ctx.state(canon([role, min, op, r.ok]))
  }
}

// ── keys and labels of every shape, joined and grouped with every fallback ──
const ODD = { k: { en: 'A', th: 'B' }, ' k': { en: 'spaced' }, 'k ': { th: 'after' }, K: { en: '', th: 'B' }, 'a/b': { ja: 'C' }, 'ก': { en: 'thai', ja: '' } }
async function oddKeys(ctx) {
  const nb = ctx.nb
  for (const encrypt of [false, true]) for (const reopen of [false, true]) {
    resetWorld(1, { tick: 1 })
    const data = new Data(), store = plainStore(nb.hub, data)
    const opts = { dictKeyFields: { s: nb.hub.dictKey('d') } }
    const start = async () => { const db = await openDb(nb, store, { encrypt, except: ['session', 'sync'] }); const v = await db.openVault('V'); return { db, v, c: v.collection('c', opts) } }
    let S = await settle(start)
    for (const [k, l] of Object.entries(ODD)) await settle(() => S.v.dictionary('d').put(k, l))
    const used = [...Object.keys(ODD), 'gone', 'k']
    for (let i = 0; i < used.length; i++) await settle(() => S.c.put(`r${i}`, { s: used[i], i }))
    await settle(() => S.c.put('none', { i: 99 }))
    if (reopen) { await S.db.close(); S = await settle(start); await settle(() => S.v.dictionary('d').list()) }
    await settle(() => S.c.list())
    const bad = (k, m) => ctx.violation(`keys:${k}`, `[${encrypt ? 'encrypted' : 'plain'}${reopen ? ', reopened' : ''}] ${m}`)
    for (const [k, l] of Object.entries(ODD)) { const g = await settle(() => S.v.dictionary('d').get(k)); ctx.trans(); if (canon(g) !== canon(l)) bad('get', `dictionary entry "${k}" reads ${canon(g)}`) }
    const joined = (await settle(async () => S.c.query().join('s', { as: 'w' }).toArray())).map((x) => canon([x.s ?? null, x.w ? x.w.labels : null])).sort()
    const wantJ = [...used, null].map((k) => canon([k, ODD[k] ?? null])).sort()
    if (canon(joined) !== canon(wantJ)) bad('join', `joins ${joined.join(' ')} instead of ${wantJ.join(' ')}`)
    for (const locale of ['en', 'th', 'ja', 'fr']) for (const fallback of [undefined, 'th', 'any', ['fr', 'en'], ['fr', 'any'], []]) {
      ctx.exec(); ctx.trans()
      const rows = (await settle(() => S.c.query().groupBy('s').aggregate({ n: nb.hub.count() }).runAsync({ locale, ...(fallback === undefined ? {} : { fallback }) }))).map((x) => canon([x.s ?? null, x.n, x.sLabel ?? null])).sort()
      const label = (k) => { const l = ODD[k]; if (!l) return null; for (const x of [locale, ...(Array.isArray(fallback) ? fallback : fallback ? [fallback] : [])]) { const v = x === 'any' ? Object.values(l)[0] : l[x]; if (v !== undefined) return v } return null }
      const want = [...new Set([...used, null])].map((k) => canon([k, k === 'k' ? 2 : 1, label(k)])).sort()
      if (canon(rows) !== canon(want)) bad('group', `grouped with locale ${locale}, fallback ${canon(fallback)}: ${rows.join(' ')} instead of ${want.join(' ')}`)
      for (const k of Object.keys(ODD)) {
        const r = await settle(() => S.v.dictionary('d').resolveLabel(k, locale, fallback))
        if ((r ?? null) !== label(k)) bad('label', `the label of "${k}" for ${locale}, fallback ${canon(fallback)} is ${r} instead of ${label(k)}`)
      }
    }
    ctx.state(['keys', encrypt, reopen]); await S.db.close()
  }
}

// ── several translated fields and several keys in one record ───────
const TWO = [undefined, null, { en: 'a' }, { th: 'b' }, { en: 'c', th: 'd' }, { en: '' }]
const TWOK = [undefined, null, 'k', 'm', 'gone']
async function twoFields(ctx, u) {
  const nb = ctx.nb
  resetWorld(1, { tick: 1 })
  const db = await openDb(nb, plainStore(nb.hub, new Data()), { encrypt: false, except: ['session', 'sync'] }), v = await db.openVault('V')
  const D = { d: { k: { en: 'K', th: 'ก' }, m: { th: 'ม' } }, f: { k: { en: 'FK' }, m: { en: 'FM', th: 'ฟ' } } }
  for (const n of Object.keys(D)) for (const k of Object.keys(D[n])) await v.dictionary(n).put(k, D[n][k])
  const text = (required) => nb.hub.i18nText({ languages: ['en', 'th'], required })
  const c = v.collection('c', { ...(u.lazy ? { prefetch: false, cache: { maxRecords: 9 } } : {}), i18nFields: { s: text(['en']), t: text('any') }, dictKeyFields: { k: nb.hub.dictKey('d'), l: nb.hub.dictKey('f') } })
  for (const s of TWO) for (const t of TWO) for (const k of TWOK) for (const l of TWOK) {
    ctx.exec(); ctx.trans()
    const rec = { n: 1, ...(s === undefined ? {} : { s: clone(s) }), ...(t === undefined ? {} : { t: clone(t) }), ...(k === undefined ? {} : { k }), ...(l === undefined ? {} : { l }) }
    const what = `${u.lazy ? 'lazy' : 'eager'} record ${canon(rec)} with two translated fields and two keys`
    ctx.last = what
    const bad = (q, m) => ctx.violation(`two:${q}`, `${what}: ${m}`)
    const ok = (s == null || !!s.en) && (t == null || !!t.en || !!t.th)
    const r = await attempt(() => settle(() => c.put('r', rec)))
    if (r.ok !== ok || (!ok && errName(r) !== 'MISSING_TRANSLATION')) { bad('verdict', r.ok ? 'accepted' : `refused with ${errName(r)}`); continue }
    if (!ok) continue
    for (const locale of ['en', 'th']) for (const fallback of [undefined, 'en']) {
      const pick = (m) => m[locale] || (fallback && m[fallback]) || undefined
      const want = { ...rec }
      let fails = false
      for (const f of ['s', 't']) if (rec[f] != null) { want[f] = pick(rec[f]); if (want[f] === undefined) fails = true }
      for (const [f, n] of [['k', 'd'], ['l', 'f']]) { const lab = D[n][rec[f]]; if (lab && pick(lab) !== undefined) want[`${f}Label`] = pick(lab) }
      const g = await attempt(() => settle(() => c.get('r', { locale, ...(fallback ? { fallback } : {}) })))
      if (fails ? g.ok || errName(g) !== 'LOCALE_NOT_SPECIFIED' : !g.ok || canon(g.val) !== canon(want)) bad('value', `read in ${locale}, fallback ${fallback}: ${g.ok ? canon(g.val) : errName(g)} instead of ${fails ? 'LOCALE_NOT_SPECIFIED' : canon(want)}`)
    }
    ctx.state(canon(rec))
  }
}

export default {
  level: 'model_checking',
  technique: 'exhaustive enumeration of translated values, locales, dictionary histories and break-off points on the real code against a reference machine',
  modules: HUB,
  bounds: (t) => `writing: ${REQUIRED.length} requirement rules x 3 translator settings x ${VALUES.length} values x ${Object.keys(PATHS).length} write paths, eager and lazy, encrypted and not; reading: ${MAPS.length} texts x ${KEYS.length} keys x ${LABELS.length} label sets x ${CALLS.length} locale options x 6 ways to set a default locale x up to 4 read paths; dictionary histories of length <= ${t === 'quick' ? 3 : 4} over ${DN.length} operations; a rename broken off at every store call in 4 ways; 5 roles x 4 rules x 4 ways to open x 5 writes; records with two translated fields (6 x 6 values) and two keys (5 x 5)`,
  assumptions: ['deleting a dictionary key does not look for records that use it (documented as not implemented)', 'one session writes a dictionary at a time'],
  units(tier) {
    const out = []
    for (let req = 0; req < REQUIRED.length; req++) for (const lazy of [false, true]) for (const encrypt of [true, false]) out.push({ kind: 'write', req, lazy, encrypt })
    for (let l = 0; l < LABELS.length; l++) for (const lazy of [false, true]) out.push({ kind: 'read', l, lazy })
    for (let i = 0; i < DN.length; i++) for (let j = 0; j < DN.length; j++) out.push({ kind: 'dict', i, j, len: tier === 'quick' ? 3 : 4 })
    for (const kind2 of ['fails', 'after', 'crash', 'crash-after']) for (const target of [false, true]) for (const same of kind2.startsWith('crash') ? [false] : [true, false]) out.push({ kind: 'rename', kind2, target, same })
    out.push({ kind: 'access' }, { kind: 'keys' }, { kind: 'two', lazy: false }, { kind: 'two', lazy: true })
    return out
  },
  async runUnit(u, ctx) {
    if (u.kind === 'write') await writing(ctx, u)
    else if (u.kind === 'read') await reading(ctx, u)
    else if (u.kind === 'rename') await renameFaults(ctx, u)
    else if (u.kind === 'access') await access(ctx)
    else if (u.kind === 'two') await twoFields(ctx, u)
    else if (u.kind === 'keys') await oddKeys(ctx)
    else {
      const seeds = u.j === 0 ? [[DN[u.i]]] : []
      seeds.push([DN[u.i], DN[u.j]])
      for (const s of seeds) await dictHistory(ctx, s)
      for (let len = 3; len <= u.len; len++) for (const rest of sequences(DN.length, len - 2)) await dictHistory(ctx, [DN[u.i], DN[u.j], ...rest.map((k) => DN[k])])
    }
  },
}
