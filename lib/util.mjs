import { isDeepStrictEqual } from 'node:util'
import { hash32 } from './rng.mjs'

/** JSON view: what a peer can observe (undefined members vanish). */
export const jview = v => v === undefined ? undefined : JSON.parse(JSON.stringify(v))
export const jeq = (a, b) => isDeepStrictEqual(jview(a), jview(b))
export { isDeepStrictEqual as deepEqual }

export const short = (v, n = 400) => {
  let s
  try { s = typeof v === 'string' ? v : v instanceof Error ? `${v.name}: ${v.message}` : JSON.stringify(v, (_k, x) => x instanceof Error ? `${x.name}: ${x.message}` : typeof x === 'bigint' ? `${x}n` : x) }
  catch { s = String(v) }
  s = String(s)
  return s.length > n ? `${s.slice(0, n)}…(${s.length})` : s
}

export const hashOf = v => hash32(typeof v === 'string' ? v : JSON.stringify(v) ?? 'undefined')

export const deepFreeze = (o, seen = new Set()) => {
  if (o === null || typeof o !== 'object' || seen.has(o) || ArrayBuffer.isView(o) || o instanceof AbortSignal || o instanceof Headers || o instanceof URL || o instanceof Blob) return o
  seen.add(o)
  for (const k of Reflect.ownKeys(o)) deepFreeze(o[k], seen)
  return Object.freeze(o)
}

/** first difference between two JSON views, for reports */
export const diff = (a, b, path = '$') => {
  if (isDeepStrictEqual(a, b)) return null
  if (a !== null && b !== null && typeof a === 'object' && typeof b === 'object' && Array.isArray(a) === Array.isArray(b)) {
    const keys = new Set([...Object.keys(a), ...Object.keys(b)])
    for (const k of keys) {
      const d = diff(a[k], b[k], `${path}.${k}`)
      if (d) return d
    }
  }
  return `${path}: got ${short(a, 160)}, expected ${short(b, 160)}`
}
export const jdiff = (a, b) => diff(jview(a), jview(b))

export class Violations {
  constructor() { this.list = [] }
  add(rule, detail, key) { this.list.push({ detail: short(detail, 1500), key: key ?? rule, rule }) }
  check(cond, rule, detail, key) {
    if (!cond) this.add(rule, typeof detail === 'function' ? detail() : detail, key)
    return cond
  }

  eq(got, want, rule, key) {
    const d = jdiff(got, want)
    if (d) this.add(rule, d, key)
    return !d
  }
}
