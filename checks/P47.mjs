// P47 — server requests: each is served with its own session, and its keys end with it.
import { resetWorld, settle, drain } from '../lib/world.mjs'
import { canon, same, sequences, product } from '../lib/explore.mjs'
import { Data, plainStore, hookedStore } from '../lib/stores.mjs'
import { HUB, openDb, attempt, PASS } from '../lib/noy.mjs'

const show = (x) => { const s = canon(x) ?? String(x); return s.length > 160 ? s.slice(0, 160) + '…' : s }
/** A browser's cookies: what the server set, until their age has passed. */
class Jar {
  constructor() { this.m = new Map(); this.sets = []; this.t = 0 }
  get(name) { const c = this.m.get(name); return c && c.until > this.t ? { name, value: c.value } : undefined }
  set(name, value, o = {}) { this.sets.push([name, o]); this.m.set(name, { value, until: o.maxAge === undefined ? Infinity : this.t + o.maxAge }) }
  delete(name) { this.m.delete(name) }
}
// ── cookies ────────────────────────────────────────────────────────────────
const OPTS = [{}, { cookieName: 'sid' }, { userCookieName: 'uid' }, { cookieName: 'a', userCookieName: 'b', maxAgeSeconds: 60 }, { maxAgeSeconds: 1 }]
const LETTERS = ['w1', 'w2', 'wShort', 'wZero', 'clear', 'wait', 'loseS', 'loseU', 'foreign']
async function unitCookies(u, ctx) {
  const { nb } = ctx
  for (const [oi, how] of product(OPTS.keys(), ['sync', 'async'])) for (const h of sequences(LETTERS.length, u.len)) {
    const o = OPTS[oi]
    const jar = new Jar()
    const viaConfig = u.via === 'config'
    const s = nb.next.cookieSession({ ...o, cookies: how === 'sync' ? () => jar : async () => jar })
    const seen = []
    nb.next.resetNoydbConfig()
    nb.next.configureNoydb({ session: s, factory: async (cur) => { seen.push(cur); return { close() {} } } })
    let ses = null, until = 0, parts = { s: false, u: false }
    const names = []
    ctx.exec()
    for (const i of h) {
      const l = LETTERS[i]; names.push(l); ctx.trans()
      const put = async (userId, sessionToken, maxAgeSeconds) => {
        const v = { userId, sessionToken, ...(maxAgeSeconds === undefined ? {} : { maxAgeSeconds }) }
        jar.sets.length = 0
        await (viaConfig ? nb.next.writeSession(v) : s.write(v))
        ses = { userId, sessionToken }; parts = { s: true, u: true }; until = jar.t + (maxAgeSeconds ?? o.maxAgeSeconds ?? 3600)
        for (const [n, c] of jar.sets) if (!c.httpOnly || !c.secure || !['lax', 'strict'].includes(c.sameSite) || c.path !== '/') return `the cookie ${n} is set with ${canon(c)}`
        return null
      }
      let bad = null
      if (l === 'w1') bad = await put('ann', 'token-1')
      else if (l === 'w2') bad = await put('bob=x; y', 'tök en,2')
      else if (l === 'wShort') bad = await put('cy', 'token-3', 5)
      else if (l === 'wZero') bad = await put('di', 'token-4', 0)
      else if (l === 'clear') { await (viaConfig ? nb.next.clearSession() : s.clear()); ses = null }
      else if (l === 'wait') jar.t += 5
      else if (l === 'loseS') { jar.m.delete(o.cookieName ?? 'noydb_session'); parts.s = false }
      else if (l === 'loseU') { jar.m.delete(o.userCookieName ?? 'noydb_user'); parts.u = false }
      else jar.m.set('something', { value: 'else', until: Infinity })
      const want = ses && parts.s && parts.u && jar.t < until ? ses : null
      let got
      if (viaConfig) { seen.length = 0; await nb.next.getNoydb(); got = seen[0] } else got = await s.read()
      if (bad || !same(got, want)) return ctx.violation('cookies', `[${canon(o)}, ${how}] ${names.join(' ')}: ${bad ?? `the session reads ${show(got)}, expected ${show(want)}`}`, { u, o, h })
      if (l === 'clear' && [...jar.m.keys()].some((k) => k !== 'something')) return ctx.violation('cookies:clear', `[${canon(o)}] ${names.join(' ')}: cookies are left: ${[...jar.m.keys()]}`, { u, o, h })
    }
  }
}
// ── requests ───────────────────────────────────────────────────────────────
async function seeded(nb) {
  const data = new Data()
  const db = await openDb(nb, plainStore(nb.hub, data), { user: 'ann', use: [] })
  for (const v of ['V', 'V2']) await (await db.openVault(v)).collection('c').put('a', { in: v })
  await db.grant('V', { userId: 'bob', displayName: 'b', role: 'viewer', passphrase: PASS })
  db.close()
  return data
}
/** One request per combination of wrapper, failure and handler outcome. */
async function unitRequest(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const snap = (await seeded(nb)).snapshot()
  const HANDLERS = {
    value: async (x) => ({ n: 1, x }), undef: async () => undefined, throws: async () => { throw new RangeError('handler') }, sync: () => { throw new RangeError('sync') }, falsy: async () => 0,
    reads: async (x, req, get) => get(x), late: async () => { for (let i = 0; i < 9; i++) await null; return 'late' }, rejectsLate: async () => { for (let i = 0; i < 9; i++) await null; throw new RangeError('late') },
  }
  for (const [wrap, user, hname, fail, close] of product(['withVault', 'withNoydb'], ['ann', 'bob', 'eve', null], Object.keys(HANDLERS), ['no', 'factory', 'store', 'session'], ['real', 'async', 'throws', 'rejects'])) {
    resetWorld(1)
    const data = new Data(); data.restore(snap)
    const dbs = []
    let down = false
    nb.next.resetNoydbConfig()
    nb.next.configureNoydb({
      session: { read: async () => { if (fail === 'session') throw new RangeError('session'); return user ? { userId: user, sessionToken: 'pw' } : null }, write: async () => {}, clear: async () => {} },
      factory: async (s) => {
        if (fail === 'factory') throw new RangeError('factory')
        const store = hookedStore(nb.hub, data, async (m, a, go) => { if (down) throw new RangeError('store'); return go() })
        const db = await openDb(nb, store, { user: s?.userId ?? 'anonymous', use: [] })
        if (fail === 'store') down = true
        const orig = db.close.bind(db), rec = { db, closed: 0, user: s?.userId ?? null }
        db.close = () => { rec.closed++; orig(); if (close === 'throws') throw new Error('close'); if (close === 'async') return Promise.resolve(); if (close === 'rejects') return Promise.reject(new Error('close')) }
        dbs.push(rec)
        return db
      },
    })
    ctx.exec(); ctx.trans()
    const request = { url: 'http://x/', n: 1 }
    let calls = 0, gotReq, gotX, closedDuring = false
    const handler = (x, req) => { calls++; gotReq = req; gotX = x; const watch = () => { closedDuring ||= dbs.some((d) => d.closed) }; watch(); const ans = HANDLERS[hname](wrap === 'withVault' ? x.name : 'db', req, async () => { for (let i = 0; i < 9; i++) await null; watch(); const v = (wrap === 'withVault' ? x : await x.openVault('V')); watch(); return v.collection('c').get('a').finally(watch) }); return hname === 'late' ? ans.then((y) => { watch(); return y }) : ans }
    ctx.state(`${wrap} ${user} ${hname} ${fail} ${close}`)
    const fn = wrap === 'withVault' ? nb.next.withVault('V', handler) : nb.next.withNoydb(handler)
    const r = await attempt(() => fn(request))
    const how = `[${wrap}, session ${user}, handler ${hname}, failing ${fail}, close ${close}]`
    const bad = (k, what) => ctx.violation(`request:${k}`, `${how} ${what}`, { u, wrap, user, hname, fail, close })
    const opens = wrap === 'withVault' || hname === 'reads'
    // ann and bob are members of V; anybody else is refused when the vault is opened
    const member = user === 'ann' || user === 'bob'
    const reach = fail !== 'session' && fail !== 'factory' && (wrap === 'withNoydb' || (member && fail !== 'store'))
    if (calls !== (reach ? 1 : 0)) return bad('handler', `the handler ran ${calls} times`)
    if (dbs.some((d) => d.closed !== 1)) return bad('close', `the database was closed ${dbs.map((d) => d.closed)} times when the answer was ready`)
    if (closedDuring) return bad('early', 'the database was closed while the handler ran')
    if (calls && (gotReq !== request || (wrap === 'withVault' ? gotX.name !== 'V' : gotX !== dbs[0].db))) return bad('args', 'the handler got something else')
    if (dbs.length && dbs[0].user !== user) return bad('user', `the database was opened for ${dbs[0].user}`)
    if (fail === 'session' || fail === 'factory') { if (r.ok || r.err?.message !== fail) return bad('error', `gives ${r.ok ? show(r.val) : r.err}`); continue }
    if (!reach || (hname === 'reads' && (!member || fail === 'store'))) { if (r.ok) return bad('error', `gives ${show(r.val)}`); continue }
    const want = { value: { n: 1, x: wrap === 'withVault' ? 'V' : 'db' }, undef: undefined, falsy: 0, late: 'late', reads: { in: 'V' } }
    if (hname in want) { if (!r.ok || !same(r.val, want[hname])) return bad('result', `gives ${r.ok ? show(r.val) : r.err}`) }
    else if (r.ok || !(r.err instanceof RangeError) || r.err.message !== { throws: 'handler', sync: 'sync', rejectsLate: 'late' }[hname]) return bad('result', `gives ${r.ok ? show(r.val) : r.err}`)
    const again = await attempt(() => dbs[0].db.openVault('V2'))
    if (again.ok) return bad('close', 'the database still opens vaults after the answer')
    void opens
  }
}
/** Two overlapping requests of two people: each sees its own session, in every order of handler steps. */
async function unitTwo(u, ctx) {
  const { nb } = ctx
  resetWorld(1)
  const snap = (await seeded(nb)).snapshot()
  const orders = [...sequences(2, 6)].filter((s) => s.filter((x) => x === 0).length === 3)
  for (const [order, reuse] of product(orders, [false, true])) {
    resetWorld(1)
    const data = new Data(); data.restore(snap)
    nb.next.resetNoydbConfig()
    let cur = null
    const open = []
    nb.next.configureNoydb({
      session: { read: async () => cur, write: async (v) => { cur = v }, clear: async () => { cur = null } },
      factory: async (s) => { const db = await openDb(nb, plainStore(nb.hub, data), { user: s.userId, use: [] }); open.push([s.userId, db]); return db },
    })
    const gates = [[], []], log = [[], []]
    const mk = (k) => nb.next.withVault('V', async (v) => {
      log[k].push(v.userId)
      await new Promise((r) => gates[k].push(r)); log[k].push((await v.collection('c').get('a')).in)
      await new Promise((r) => gates[k].push(r)); log[k].push(v.role)
      return `answer ${k}`
    })
    const one = mk(0), two = reuse ? one : mk(1)
    const rs = [null, null]
    ctx.exec()
    for (const k of order) {
      ctx.trans()
      if (!rs[k]) { cur = { userId: k ? 'bob' : 'ann', sessionToken: 't' }; rs[k] = attempt(() => (k ? two : one)({})); for (let i = 0; i < 6; i++) await drain() }
      else { const kk = reuse ? 0 : k; const g = gates[kk].shift(); g?.(); for (let i = 0; i < 4; i++) await drain() }
    }
    for (let i = 0; i < 20; i++) { for (const g of gates) g.shift()?.(); await drain() }
    const got = await Promise.all(rs)
    const bad = (what) => ctx.violation('two', `two requests in the order ${order.join('')}${reuse ? ' through one handler' : ''}: ${what}`, { u, order })
    if (!reuse && !same(log, [['ann', 'V', 'owner'], ['bob', 'V', 'viewer']])) return bad(`the handlers saw ${show(log)}`)
    if (reuse && !same([...log[0]].sort(), ['V', 'V', 'ann', 'bob', 'owner', 'viewer'])) return bad(`the handler saw ${show(log[0])}`)
    if (got.some((r, k) => !r.ok || r.val !== `answer ${reuse ? 0 : k}`)) return bad(`the answers are ${show(got.map((r) => r.val ?? String(r.err)))}`)
    if (open.length !== 2 || open[0][1] === open[1][1]) return bad(`${open.length} databases were opened`)
    for (const [who, db] of open) if ((await attempt(() => db.openVault('V2'))).ok) return bad(`the database of ${who} is still open`)
  }
}
async function unitConfig(u, ctx) {
  const { nb } = ctx
  for (const f of ['getNoydb', 'writeSession', 'clearSession', 'withVault', 'withNoydb']) {
    nb.next.resetNoydbConfig()
    ctx.exec(); ctx.trans()
    const r = await attempt(() => (f === 'withVault' ? nb.next.withVault('V', async () => 1)({}) : f === 'withNoydb' ? nb.next.withNoydb(async () => 1)({}) : nb.next[f]({ userId: 'a', sessionToken: 'b' })))
    if (r.ok) return ctx.violation('config', `${f} works before configureNoydb`, { u, f })
    // the newest configuration counts
    const log = []
    for (const k of [1, 2]) nb.next.configureNoydb({ session: { read: async () => null, write: async (v) => { log.push(`w${k}${v.userId}${v.sessionToken}${v.maxAgeSeconds}`) }, clear: async () => { log.push(`c${k}`) } }, factory: async () => { log.push(`f${k}`); return { openVault: async (n) => ({ name: n }), close() {} } } })
    await nb.next.getNoydb(); await nb.next.writeSession({ userId: 'a', sessionToken: 'b', maxAgeSeconds: 3 }); await nb.next.clearSession()
    const v = await nb.next.getVault(await nb.next.getNoydb(), 'acme')
    if (!same(log, ['f2', 'w2ab3', 'c2', 'f2']) || v.name !== 'acme') return ctx.violation('config', `after two configurations the calls reach ${log} and ${show(v)}`, { u })
  }
}
const RUN = { cookies: unitCookies, request: unitRequest, two: unitTwo, config: unitConfig }
export default {
  level: 'model_checking',
  technique: 'stateless exploration of the real code: all histories of session writes, losses and waits; every combination of wrapper, person, handler outcome and failure; all interleavings of two requests',
  rule: 'the session read is the last one written, complete and not expired; answers, errors, people and closing are compared with the request that was made',
  bounds: (tier) => `cookie histories of ${tier === 'thorough' ? 5 : 4} of 9 events × 5 option sets; 1024 requests; 40 interleavings of two requests`,
  assumptions: ['the cookie jar behaves as a browser does (values kept, max age honoured)'],
  modules: { ...HUB, next: '@noy-db/in-nextjs' },
  bundleOpts: { external: ['next/headers'] },
  units(tier) {
    const len = tier === 'thorough' ? 5 : 4
    return [{ t: 'cookies', len, via: 'store' }, { t: 'cookies', len, via: 'config' }, { t: 'request' }, { t: 'two' }, { t: 'config' }]
  },
  async runUnit(u, ctx) { await (u.t === 'two' ? RUN[u.t](u, ctx) : settle(() => RUN[u.t](u, ctx))) },
}
