// A small stand-in for React: function components, context and the hooks the
// bindings use, with React's rules (state updates are batched, effects run
// after the commit and again only when a dependency changed, cleanups run
// before the next effect and at unmount, updates of unmounted components are
// dropped). `strict` re-runs every effect once after mounting, as StrictMode does.
let cur = null
export const createContext = (def) => { const c = { def }; c.Provider = { ctx: c }; return c }
export const createElement = (type, props, ...children) => ({ type, props: { ...props, children: children.length > 1 ? children : children[0] ?? props?.children } })
export function useContext(c) {
  for (let i = cur; i; i = i.parent) if (i.el.type.ctx === c) return i.el.props.value
  return c.def
}
const hook = (mk) => { const k = cur.n++; return (cur.hooks[k] ??= mk()) }
export function useState(init) {
  const inst = cur
  const h = hook(() => ({ v: typeof init === 'function' ? init() : init }))
  h.set ??= (next) => {
    if (!inst.alive) return
    const v = typeof next === 'function' ? next(h.v) : next
    if (Object.is(v, h.v)) return
    h.v = v
    inst.root.dirty.add(inst)
    schedule(inst.root)
  }
  return [h.v, h.set]
}
const changed = (a, b) => !a || !b || a.length !== b.length || a.some((x, i) => !Object.is(x, b[i]))
export function useMemo(fn, deps) { const h = hook(() => ({})); if (changed(h.deps, deps)) { h.v = fn(); h.deps = deps } return h.v }
export function useCallback(fn, deps) { return useMemo(() => fn, deps) }
export function useRef(v) { return hook(() => ({ current: v })) }
export function useEffect(fn, deps) {
  const h = hook(() => ({ effect: true }))
  if (changed(h.deps, deps)) { h.deps = deps; h.fn = fn; cur.root.effects.push([cur, h]) }
}
export const useLayoutEffect = useEffect
const clean = (h) => { const c = h.clean; h.clean = undefined; if (typeof c === 'function') c() }
function flush(root) {
  const list = root.effects; root.effects = []
  for (const [, h] of list) clean(h)
  for (const [inst, h] of list) if (inst.alive) h.clean = h.fn()
}
function schedule(root) {
  if (root.queued) return
  root.queued = true
  queueMicrotask(() => {
    root.queued = false
    const d = [...root.dirty]; root.dirty.clear()
    for (const i of d) if (i.alive) render(i)
    flush(root)
  })
}
function render(inst) {
  let out
  if (typeof inst.el.type === 'function') {
    const prev = cur; cur = inst; inst.n = 0
    try { out = inst.el.type(inst.el.props) } finally { cur = prev }
  } else out = inst.el.props.children
  const next = (Array.isArray(out) ? out : [out]).filter((e) => e && typeof e === 'object')
  inst.kids = next.map((el, k) => {
    const old = inst.kids[k]
    if (old && old.el.type === el.type) { old.el = el; render(old); return old }
    if (old) drop(old)
    return make(el, inst, inst.root)
  }).concat(inst.kids.slice(next.length).filter((k) => (drop(k), false)))
}
function make(el, parent, root) { const inst = { el, parent, root, hooks: [], kids: [], alive: true }; render(inst); return inst }
function drop(inst) { inst.alive = false; for (const k of inst.kids) drop(k); for (const h of inst.hooks) if (h.effect) clean(h) }
const all = (inst) => [inst, ...inst.kids.flatMap(all)]
/** mount(element) → { update(element), unmount() } */
export function mount(el, { strict = false } = {}) {
  const root = { effects: [], dirty: new Set(), queued: false }
  const top = make(el, null, root)
  flush(root)
  if (strict) { const hs = all(top).flatMap((i) => i.hooks.filter((h) => h.effect)); hs.forEach(clean); for (const h of hs) h.clean = h.fn() }
  return { update(next) { top.el = next; render(top); flush(root) }, unmount() { drop(top) } }
}
export default { createContext, createElement, useContext, useState, useMemo, useCallback, useRef, useEffect, useLayoutEffect }
