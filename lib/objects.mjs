// Structured-output sessions: schemas with their values, and the text a model would answer with.
import { turnAsChunks } from './chat.mjs'

/** a standard schema with a JSON-schema, described by a small tree, judged independently of any library */
export const genSchemaTree = (rng, depth = 2) => {
  const k = rng.next()
  if (depth > 0 && k < 0.35) {
    const keys = Array.from({ length: rng.int(1, 4) }, (_, i) => `${rng.pick(['a', 'b', 'name', 'fooBar', 'x_y'])}${i}`)
    return { k: 'object', props: Object.fromEntries(keys.map(key => [key, genSchemaTree(rng, depth - 1)])) }
  }
  if (depth > 0 && k < 0.5) return { item: genSchemaTree(rng, depth - 1), k: 'array' }
  return rng.pick([{ k: 'string' }, { k: 'number' }, { k: 'boolean' }])
}
export const genObjectTree = (rng, depth = 2) => {
  const keys = Array.from({ length: rng.int(1, 4) }, (_, i) => `${rng.pick(['a', 'b', 'name', 'fooBar'])}${i}`)
  return { k: 'object', props: Object.fromEntries(keys.map(key => [key, genSchemaTree(rng, depth)])) }
}

export const treeValue = (rng, t) => {
  switch (t.k) {
    case 'array': return Array.from({ length: rng.int(0, 3) }, () => treeValue(rng, t.item))
    case 'boolean': return rng.bool()
    case 'number': return rng.pick([0, 1, -2.5, 1e6, rng.int(0, 99999)])
    case 'object': return Object.fromEntries(Object.entries(t.props).map(([k, x]) => [k, treeValue(rng, x)]))
    default: return rng.bool(0.7) ? rng.ident(12) : rng.text(25).replace(/[\u0000\uD800-\uDFFF]/g, '')
  }
}

export const treeJSON = (t) => {
  switch (t.k) {
    case 'array': return { items: treeJSON(t.item), type: 'array' }
    case 'object': return { properties: Object.fromEntries(Object.entries(t.props).map(([k, x]) => [k, treeJSON(x)])), required: Object.keys(t.props), type: 'object' }
    default: return { type: t.k }
  }
}

export const accepts = (t, x) => {
  switch (t.k) {
    case 'array': return Array.isArray(x) && x.every(y => accepts(t.item, y))
    case 'object': return x !== null && typeof x === 'object' && !Array.isArray(x) && Object.entries(t.props).every(([k, s]) => k in x && accepts(s, x[k]))
    default: return typeof x === t.k
  }
}

/** zod schema of a tree */
export const treeZod = (z, t) => {
  switch (t.k) {
    case 'array': return z.array(treeZod(z, t.item))
    case 'boolean': return z.boolean()
    case 'number': return z.number()
    case 'object': return z.object(Object.fromEntries(Object.entries(t.props).map(([k, x]) => [k, treeZod(z, x)])))
    default: return z.string()
  }
}

/** a plain JSON schema with the standard interface: what xsschema calls a custom schema */
export const treeSchema = (z, t) => treeZod(z, t)

export const genObjectSession = (rng, z) => {
  const output = rng.pick(['array', 'object'])
  const tree = genObjectTree(rng, 1)
  const value = output === 'array' ? { elements: Array.from({ length: rng.heavy(0, 8) }, () => treeValue(rng, tree)) } : treeValue(rng, tree)
  const text = JSON.stringify(value, null, rng.pick([0, 0, 0, 2]))
  return {
    output,
    payloads: r => turnAsChunks(r, { calls: [], finish: 'stop', reasoningField: 'reasoning', text, usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } }),
    schema: z ? treeZod(z, tree) : { '~standard': { validate: v => ({ value: v }), vendor: 'verif', version: 1 } },
    text,
    tree,
    value,
  }
}
