// Stand-ins for the two web frameworks the REST adapters import at run time.
// They only keep the registered handlers and hand requests to them.
const METHODS = ['use', 'all', 'get', 'post', 'put', 'patch', 'delete', 'head', 'options']

/** express.Router(): a function (req, res, next) running its handlers in order. */
export function Router() {
  const stack = []
  const router = (req, res, next) => {
    let i = 0
    const step = (err) => {
      const f = err ? null : stack[i++]
      return f ? f(req, res, step) : next(err)
    }
    return step()
  }
  for (const m of METHODS) router[m] = (...a) => { stack.push(...a.filter((f) => typeof f === 'function')); return router }
  return router
}
export default { Router }

/** Hono: fetch(request) runs the first handler that answers. */
export class Hono {
  constructor() {
    this.stack = []
    for (const m of METHODS) this[m] = (...a) => { this.stack.push(...a.filter((f) => typeof f === 'function')); return this }
  }
  async fetch(raw) {
    const req = {
      raw, url: raw.url, method: raw.method, path: new URL(raw.url).pathname,
      header: (k) => raw.headers.get(k) ?? undefined,
      query: (k) => new URL(raw.url).searchParams.get(k) ?? undefined,
      queries: (k) => new URL(raw.url).searchParams.getAll(k),
      json: () => raw.json(), text: () => raw.text(), arrayBuffer: () => raw.arrayBuffer(),
    }
    for (const f of this.stack) { const r = await f({ req, body: (b, s, h) => new Response(b, { status: s, headers: h }) }, async () => {}); if (r) return r }
    return new Response('404', { status: 404 })
  }
}
