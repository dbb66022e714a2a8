// Schema trees in every supported library, and independent readings of them.
/* ---- schema trees: what a caller means, independent of any schema library ---- */
export const KEYS = ['a', 'b', 'name', 'fooBar', 'x_y', 'type', 'items', 'properties', 'default']
export const gen = (rng, depth) => {
  if (depth > 0) {
    const k = rng.next()
    if (k < 0.35) return genObject(rng, depth - 1)
    if (k < 0.5) return { item: gen(rng, depth - 1), k: 'array' }
    if (k < 0.6) return { k: 'union', of: [{ k: 'object', props: { kind: [{ k: 'enum', of: ['one'] }, true], v: [gen(rng, depth - 1), true] } }, { k: 'object', props: { kind: [{ k: 'enum', of: ['two'] }, true], w: [gen(rng, depth - 1), true] } }] }
    if (k < 0.66) return { k: 'union', of: [{ k: 'string' }, { item: gen(rng, depth - 1), k: 'array' }] }
  }
  return rng.weighted([[3, { k: 'string' }], [3, { k: 'number' }], [2, { k: 'boolean' }], [1, { k: 'enum', of: ['red', 'green', 'x y'].slice(0, rng.int(2, 3)) }], [1, { k: 'union', of: [{ k: 'string' }, { k: 'null' }] }]])
}
export const genObject = (rng, depth) => ({ k: 'object', props: Object.fromEntries(Array.from({ length: rng.int(1, 4) }, (_, i) => [rng.bool(0.7) ? `${rng.pick(KEYS)}${i}` : rng.pick(KEYS), [gen(rng, depth), rng.bool(0.75)]])) })

export const value = (rng, t, extra = () => false) => {
  switch (t.k) {
    case 'array': return Array.from({ length: rng.int(0, 3) }, () => value(rng, t.item, extra))
    case 'boolean': return rng.bool()
    case 'enum': return rng.pick(t.of)
    case 'null': return null
    case 'number': return rng.pick([0, 1, -2.5, 1e6])
    case 'object': {
      const o = {}
      for (const [k, [s, req]] of Object.entries(t.props)) if (req || rng.bool(0.6)) o[k] = value(rng, s, extra)
      if (extra()) o.surplus = 1
      return o
    }
    case 'union': return value(rng, rng.pick(t.of), extra)
    default: return rng.text(10)
  }
}
export const accepts = (t, x, closed, lax) => {
  switch (t.k) {
    case 'array': return Array.isArray(x) && x.every(y => accepts(t.item, y, closed, lax))
    case 'enum': return t.of.includes(x)
    case 'null': return x === null
    case 'object': return x !== null && typeof x === 'object' && (lax || !Array.isArray(x))
      && Object.entries(t.props).every(([k, [s, req]]) => Object.hasOwn(x, k) ? accepts(s, x[k], closed, lax) : !req)
      && (!closed || Object.keys(x).every(k => Object.hasOwn(t.props, k)))
    case 'union': return t.of.some(s => accepts(s, x, closed, lax))
    default: return typeof x === t.k
  }
}
export const spoil = (rng, x) => {
  if (rng.bool(0.35)) return rng.pick([null, 3, 'str', true, [], {}, undefined, ['a']])
  if (Array.isArray(x) && x.length > 0) { const y = [...x]; y[rng.int(0, y.length - 1)] = spoil(rng, y[0]); return y }
  if (x !== null && typeof x === 'object' && Object.keys(x).length > 0) {
    const k = rng.pick(Object.keys(x))
    const y = { ...x }
    if (rng.bool(0.3)) delete y[k]
    else y[k] = spoil(rng, y[k])
    if (y[k] === undefined) delete y[k]
    return y
  }
  return rng.pick([null, 3, 'str', true, [], {}])
}

/* ---- the same tree in every supported schema library ---- */
export const asJSON = (t) => {
  switch (t.k) {
    case 'array': return { items: asJSON(t.item), type: 'array' }
    case 'enum': return { enum: [...t.of], type: 'string' }
    case 'null': return { type: 'null' }
    case 'object': return { properties: Object.fromEntries(Object.entries(t.props).map(([k, [s]]) => [k, asJSON(s)])), required: Object.keys(t.props).filter(k => t.props[k][1]), type: 'object' }
    case 'union': return { anyOf: t.of.map(asJSON) }
    default: return { type: t.k }
  }
}
export const zodOf = (z, t) => {
  switch (t.k) {
    case 'array': return z.array(zodOf(z, t.item))
    case 'boolean': return z.boolean()
    case 'enum': return z.enum(t.of)
    case 'null': return z.null()
    case 'number': return z.number()
    case 'object': return z.object(Object.fromEntries(Object.entries(t.props).map(([k, [s, req]]) => [k, req ? zodOf(z, s) : zodOf(z, s).optional()])))
    case 'union': return z.union(t.of.map(s => zodOf(z, s)))
    default: return z.string()
  }
}
export const valibotOf = (b, t) => {
  switch (t.k) {
    case 'array': return b.array(valibotOf(b, t.item))
    case 'boolean': return b.boolean()
    case 'enum': return b.picklist(t.of)
    case 'null': return b.null()
    case 'number': return b.number()
    case 'object': return b.object(Object.fromEntries(Object.entries(t.props).map(([k, [s, req]]) => [k, req ? valibotOf(b, s) : b.optional(valibotOf(b, s))])))
    case 'union': return b.union(t.of.map(s => valibotOf(b, s)))
    default: return b.string()
  }
}
export const arktypeOf = (a, t) => {
  switch (t.k) {
    case 'array': return arktypeOf(a, t.item).array()
    case 'enum': return a.enumerated(...t.of)
    case 'object': return a(Object.fromEntries(Object.entries(t.props).map(([k, [s, req]]) => [req ? k : `${k}?`, arktypeOf(a, s)])))
    case 'union': return arktypeOf(a, t.of[0]).or(arktypeOf(a, t.of[1]))
    default: return a(t.k)
  }
}
export const effectOf = (S, t) => {
  switch (t.k) {
    case 'array': return S.Array(effectOf(S, t.item))
    case 'boolean': return S.Boolean
    case 'enum': return S.Literal(...t.of)
    case 'null': return S.Null
    case 'number': return S.Number
    case 'object': return S.Struct(Object.fromEntries(Object.entries(t.props).map(([k, [s, req]]) => [k, req ? effectOf(S, s) : S.optional(effectOf(S, s))])))
    case 'union': return S.Union(...t.of.map(s => effectOf(S, s)))
    default: return S.String
  }
}
export const suryOf = (S, t) => {
  switch (t.k) {
    case 'array': return S.array(suryOf(S, t.item))
    case 'boolean': return S.boolean
    case 'enum': return S.union(t.of)
    case 'null': return S.schema(null)
    case 'number': return S.number
    case 'object': return S.schema(Object.fromEntries(Object.entries(t.props).map(([k, [s, req]]) => [k, req ? suryOf(S, s) : S.optional(suryOf(S, s))])))
    case 'union': return S.union(t.of.map(s => suryOf(S, s)))
    default: return S.string
  }
}
export const strip = (t, x) => {
  switch (t.k) {
    case 'array': return x.map(y => strip(t.item, y))
    case 'object': return Object.fromEntries(Object.entries(x).filter(([k]) => Object.hasOwn(t.props, k)).map(([k, y]) => [k, strip(t.props[k][0], y)]))
    case 'union': return strip(t.of.find(s => accepts(s, x)), x)
    default: return x
  }
}
export const custom = (rng, t, json) => {
  const isAsync = rng.bool()
  const tag = rng.bool(0.4)
  const calls = { input: [], validate: [] }
  const schema = {
    '~standard': {
      jsonSchema: {
        input: (o) => { calls.input.push(o); return json },
        output: () => ({ type: 'null' }),
      },
      validate: (x) => {
        calls.validate.push(x)
        const r = accepts(t, x) ? { value: tag ? { tagged: strip(t, x) } : strip(t, x) } : { issues: [{ message: 'not accepted', path: ['a'] }] }
        return isAsync ? Promise.resolve(r) : r
      },
      vendor: rng.pick(['verif', 'zod']),
      version: 1,
    },
  }
  return { calls, schema, tag }
}

/* ---- strict mode, independently: every object schema closed, nothing else ---- */
const MAPS = ['properties', 'definitions', '$defs']
const LISTS = ['anyOf', 'oneOf']
export const close = (s) => {
  if (s === null || typeof s !== 'object') return s
  const out = {}
  for (const [k, x] of Object.entries(s)) {
    if (MAPS.includes(k) && x !== null && typeof x === 'object') out[k] = Object.fromEntries(Object.entries(x).map(([n, y]) => [n, close(y)]))
    else if (LISTS.includes(k) && Array.isArray(x)) out[k] = x.map(close)
    else if (k === 'items') out[k] = Array.isArray(x) ? x.map(close) : close(x)
    else out[k] = x
  }
  const object = s.type === undefined ? s.properties != null : s.type === 'object' || (Array.isArray(s.type) && s.type.includes('object'))
  if (object) out.additionalProperties = false
  return out
}
