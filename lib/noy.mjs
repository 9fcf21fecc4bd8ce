// Helpers for driving the hub under test through its public API.
import { plainStore } from './stores.mjs'

/** Bundle entry map: the hub and every strategy subpath. */
export const HUB = {
  hub: '@noy-db/hub',
  blobs: '@noy-db/hub/blobs', indexing: '@noy-db/hub/indexing', aggregate: '@noy-db/hub/aggregate',
  crdt: '@noy-db/hub/crdt', consent: '@noy-db/hub/consent', periods: '@noy-db/hub/periods',
  shadow: '@noy-db/hub/shadow', tx: '@noy-db/hub/tx', history: '@noy-db/hub/history',
  i18n: '@noy-db/hub/i18n', session: '@noy-db/hub/session', sync: '@noy-db/hub/sync',
}
const ALL = {
  blobs: (nb) => ({ blobStrategy: nb.blobs.withBlobs() }),
  indexing: (nb) => ({ indexStrategy: nb.indexing.withIndexing() }),
  aggregate: (nb) => ({ aggregateStrategy: nb.aggregate.withAggregate() }),
  crdt: (nb) => ({ crdtStrategy: nb.crdt.withCrdt() }),
  consent: (nb) => ({ consentStrategy: nb.consent.withConsent() }),
  periods: (nb) => ({ periodsStrategy: nb.periods.withPeriods() }),
  shadow: (nb) => ({ shadowStrategy: nb.shadow.withShadow() }),
  tx: (nb) => ({ txStrategy: nb.tx.withTransactions() }),
  history: (nb) => ({ historyStrategy: nb.history.withHistory() }),
  i18n: (nb) => ({ i18nStrategy: nb.i18n.withI18n() }),
  session: (nb) => ({ sessionStrategy: nb.session.withSession() }),
  sync: (nb) => ({ syncStrategy: nb.sync.withSync() }),
}
/** strategies: 'all' | list of names to enable */
export function strategies(nb, which = 'all', except = []) {
  const names = which === 'all' ? Object.keys(ALL) : which
  return Object.assign({}, ...names.filter((n) => !except.includes(n)).map((n) => ALL[n](nb)))
}
export const PASS = 'correct horse battery staple 42'

export async function openDb(nb, store, opts = {}) {
  const { user = 'owner', secret = PASS, encrypt = true, use = 'all', except = [], ...rest } = opts
  return nb.hub.createNoydb({ store, user, ...(encrypt ? { secret } : { encrypt: false }), ...strategies(nb, use, except), ...rest })
}
export async function openVault(nb, data, opts = {}, vault = 'V') {
  const store = opts.store ?? plainStore(nb.hub, data, opts.rec, opts.storeOpts)
  const { store: _s, rec: _r, storeOpts: _o, ...rest } = opts
  const db = await openDb(nb, store, rest)
  return { db, v: await db.openVault(vault), store }
}
/** Promise → {ok,val}|{ok:false,err} */
export async function attempt(thunk) {
  try { return { ok: true, val: await thunk() } } catch (err) { return { ok: false, err } }
}
export const errName = (r) => (r.ok ? 'ok' : r.err?.code ?? r.err?.name ?? String(r.err))
