import { mkdtempSync, rmSync } from 'node:fs'
import { createRequire } from 'node:module'
import { tmpdir } from 'node:os'
import path from 'node:path'

import { accepts, arktypeOf, asJSON, close, custom, effectOf, genObject, KEYS, spoil, strip, suryOf, valibotOf, value, zodOf } from '../lib/schemas.mjs'
import { REPO } from '../lib/bundle.mjs'
import { deepEqual, deepFreeze, diff, short, Violations } from '../lib/util.mjs'

const Ajv = (() => {
  const m = createRequire('/opt/veriftools/node/package.json')('ajv')
  return m.default ?? m
})()

/** hand-written JSON schemas with everything people write in them */
const rawSchema = (rng, depth) => {
  const meta = rng.bool(0.3) ? { description: rng.text(12), ...(rng.bool(0.3) && { title: rng.ident() }) } : {}
  const sub = () => rng.bool(0.06) ? rng.bool() : rawSchema(rng, depth - 1)
  const k = rng.next()
  if (depth > 0 && k < 0.4) {
    const names = Array.from({ length: rng.int(0, 4) }, (_, i) => rng.bool(0.6) ? `p${i}` : rng.pick([...KEYS, 'anyOf', 'additionalProperties', 'required', '$defs']))
    return { ...meta, ...(rng.bool(0.85) && { type: rng.pick(['object', 'object', 'object', ['object', 'null']]) }), ...(rng.bool(0.9) && { properties: Object.fromEntries(names.map(n => [n, sub()])) }), ...(rng.bool(0.6) && { required: names.slice(0, 2) }), ...(rng.bool(0.3) && { additionalProperties: rng.pick([true, false, { type: 'string' }]) }), ...(rng.bool(0.15) && { minProperties: 1 }) }
  }
  if (depth > 0 && k < 0.55) return { ...meta, items: rng.bool(0.2) ? [sub(), sub()] : sub(), type: 'array', ...(rng.bool(0.3) && { minItems: 1 }) }
  if (depth > 0 && k < 0.7) return { ...meta, [rng.pick(['anyOf', 'oneOf'])]: [sub(), sub()] }
  if (depth > 0 && k < 0.76) return { ...meta, allOf: [rawSchema(rng, depth - 1), { properties: { z: { type: 'number' } }, type: 'object' }] }
  if (k < 0.8) return { ...meta, $ref: rng.pick(['#/definitions/d0', '#', '#/$defs/d1']) }
  return { ...meta, ...rng.pick([{ type: 'string' }, { minLength: 1, type: 'string' }, { enum: ['a', 1, null] }, { const: { additionalProperties: 1, properties: { a: { type: 'object' } }, type: 'object' } }, { type: ['number', 'null'] }, { default: { type: 'object' }, type: 'integer' }, {}, { examples: [{ type: 'object' }], type: 'boolean' }]) }
}

/** the schema, without the conversion the library brings along */
const withoutJSONSchema = (schema) => {
  const { jsonSchema, ...standard } = schema['~standard']
  return new Proxy(schema, { get: (o, k) => k === '~standard' ? standard : o[k] })
}

/** the schema package where nothing of what it converts with is installed */
const buildBare = async () => {
  const esbuild = createRequire('/opt/veriftools/node/package.json')('esbuild')
  const dir = mkdtempSync(path.join(tmpdir(), 'verif-bare-'))
  await esbuild.build({ bundle: true, entryPoints: [path.join(REPO, 'packages-top/xsschema/src/index.ts')], external: ['sury', 'effect', '@valibot/to-json-schema', 'zod', 'zod/*', 'zod-to-json-schema'], format: 'esm', logLevel: 'silent', outfile: path.join(dir, 'bare.mjs'), platform: 'node', target: 'node22' })
  const xsschema = await import(path.join(dir, 'bare.mjs'))
  return { dir, xsschema }
}

export default {
  async setup() {
    return { bare: await buildBare() }
  },
  teardown(state) {
    rmSync(state.bare.dir, { recursive: true })
  },
  bundles: ['core', 'schema'],
  cases: { quick: 6000, thorough: 200000 },
  id: 'P22',
  mustObserve: ['zod', 'zod3', 'valibot', 'arktype', 'effect', 'sury', 'zod schemas that do not convert themselves', 'arktype schemas that do not convert themselves', 'missing dependencies', 'custom', 'raw schemas', 'strict', 'loose', 'accepted inputs', 'rejected inputs', 'surplus keys refused in strict mode', 'recursive schemas', 'unsupported vendors'],
  rule: 'Seeded schema trees (nested objects, optional members, arrays, unions, enums, nullables, schema keywords as member names), built with each supported schema library and by hand, go through every tool builder and the schema conversion, strict and not; each resulting JSON schema is run (Ajv) on generated accepted, spoiled and surplus values and compared with an independent reading of the tree; hand-written JSON schemas with every keyword are closed and compared with an independent strict transformation. Non-trivial: schema with at least one nested level; distinct by schema and builder.',
  technique: 'runtime monitoring: differential oracle (schema interpreter, Ajv, independent strict transformation) over generated schemas and values',
  async run({ api, count, rng, state }) {
    const v = new Violations()
    const { defineTool, rawTool, tool } = api.tool
    const { strictJsonSchema, toJsonSchema, validate } = api.xsschema
    const name = rng.ident()
    const description = rng.bool(0.7) ? rng.text(30) : undefined
    const strict = rng.pick([undefined, true, false])
    const execute = () => 'x'
    const meta = { ...(description !== undefined && { description }), execute, name, ...(strict !== undefined && { strict }) }
    const judge = (t, params, builder) => {
      v.check(t.type === 'function' && t.function.name === name && t.function.description === description, 'name and description', () => `${builder}: ${short(t.function)}`)
      v.check(t.function.strict === (strict ?? true), 'strict flag', () => `${builder}: ${t.function.strict}`)
      v.check(t.execute === execute, 'the tool function is the caller\'s', builder)
      if (params !== undefined && !deepEqual(t.function.parameters, params)) v.add(strict === false ? 'with strict off the schema is unchanged' : 'strict closes every object schema and nothing else', `${builder}: ${diff(t.function.parameters, params)}`)
    }
    count(strict === false ? 'loose' : 'strict')

    if (rng.bool(0.03)) {
      const r = await toJsonSchema({ '~standard': { validate: x => ({ value: x }), vendor: 'nobody', version: 1 } }).then(value => ({ value }), error => ({ error }))
      v.check('error' in r, 'an unsupported vendor is refused', () => short(r.value))
      count('unsupported vendors')
    }
    if (rng.bool(0.03)) {
      const t = genObject(rng, 1)
      const [vendor, schema, names] = rng.pick([
        () => ['effect', api.effect.Schema.standardSchemaV1(effectOf(api.effect.Schema, t)), 'effect'],
        () => ['sury', suryOf(api.sury, t), 'sury'],
        () => ['valibot', valibotOf(api.valibot, t), 'valibot'],
        () => ['zod', withoutJSONSchema(zodOf(api.zod.z, t)), 'zod'],
        () => ['zod3', zodOf(api.zod3.z, t), 'zod-to-json-schema'],
      ])()
      const complain = console.error
      console.error = () => {}
      const r = await state.bare.xsschema.toJsonSchema(schema).then(value => ({ value }), error => ({ error }))
      console.error = complain
      v.check(r.error instanceof Error && r.error.message.includes(names), 'a conversion whose library is missing fails, naming it', () => `${vendor}: ${short(r)}`)
      count('missing dependencies')
    }
    if (rng.bool(0.35)) {
      // hand-written JSON schema
      const raw = rawSchema(rng, 4)
      if (rng.bool(0.3)) raw.definitions = { d0: rawSchema(rng, 2) }
      if (rng.bool(0.3)) raw.$defs = { d1: rawSchema(rng, 2), d2: { allOf: [] } }
      const before = structuredClone(raw)
      deepFreeze(raw)
      const want = strict === false ? before : close(before)
      judge(rawTool({ ...meta, parameters: raw }), want, 'rawTool')
      judge(await tool({ ...meta, parameters: custom(rng, { k: 'string' }, raw).schema }), want, 'tool')
      judge(defineTool({ ...meta, parameters: custom(rng, { k: 'string' }, raw).schema }), want, 'defineTool')
      if (!deepEqual(strictJsonSchema(raw), close(before))) v.add('strict closes every object schema and nothing else', `strictJsonSchema: ${diff(strictJsonSchema(raw), close(before))}`)
      if (!deepEqual(strictJsonSchema(strictJsonSchema(raw)), close(before))) v.add('closing twice is closing once', '')
      if (!deepEqual(await toJsonSchema(custom(rng, { k: 'string' }, raw).schema), before)) v.add('a schema\'s own conversion is used unchanged', 'toJsonSchema')
      v.check(deepEqual(raw, before), 'the caller\'s schema is left alone', short(raw))
      count('raw schemas')
      const text = JSON.stringify(before)
      if (text.includes('$ref')) count('recursive schemas')
      return { nontrivial: text.length > 40, sample: { raw: short(before), strict }, signature: [before, strict], violations: v.list }
    }
    const vendor = rng.pick(['zod', 'zod3', 'valibot', 'arktype', 'effect', 'sury', 'custom'])
    const t = genObject(rng, rng.int(0, 3))
    let c
    const made = {
      arktype: () => arktypeOf(api.arktype, t),
      custom: () => (c = custom(rng, t, asJSON(t))).schema,
      effect: () => api.effect.Schema.standardSchemaV1(effectOf(api.effect.Schema, t)),
      sury: () => suryOf(api.sury, t),
      valibot: () => valibotOf(api.valibot, t),
      zod: () => zodOf(api.zod.z, t),
      zod3: () => zodOf(api.zod3.z, t),
    }[vendor]()
    // versions of the libraries whose schemas cannot convert themselves
    const older = !c && 'jsonSchema' in made['~standard'] && rng.bool(0.4)
    if (older) count(`${vendor} schemas that do not convert themselves`)
    const schema = older ? withoutJSONSchema(made) : made
    count(vendor)
    const loose = await toJsonSchema(schema)
    if (c) {
      v.check(c.calls.input.length === 1 && c.calls.input[0]?.target === 'draft-07', 'the schema is asked for its input in draft-07', () => short(c.calls.input))
      if (!deepEqual(loose, asJSON(t))) v.add('a schema\'s own conversion is used unchanged', diff(loose, asJSON(t)))
    }
    const builders = [['tool', await tool({ ...meta, parameters: schema })]]
    if ('jsonSchema' in schema['~standard']) builders.push(['defineTool', defineTool({ ...meta, parameters: schema })])
    const want = strict === false ? loose : close(loose)
    const ajv = new Ajv({ allErrors: false, logger: false, strict: false })
    const compile = (s) => {
      const { $schema, ...rest } = s
      return ajv.compile(rest)
    }
    for (const [b, tl] of builders) {
      judge(tl, want, `${vendor} ${b}`)
      const ok = compile(tl.function.parameters)
      for (let i = 0; i < 6; i++) {
        let x
        if (i < 2) x = value(rng, t)
        else if (i === 2) x = value(rng, t, () => rng.bool(0.5))
        else x = spoil(rng, value(rng, t))
        // these libraries take arrays for objects without required members
        if (['arktype', 'sury', 'valibot'].includes(vendor) && accepts(t, x, false, true) !== accepts(t, x, false)) continue
        const closed = strict !== false
        const open = accepts(t, x, false)
        const surplus = open && !accepts(t, x, true)
        // some libraries close their objects by themselves, so surplus keys are judged in strict mode only
        if (!surplus || closed) {
          const should = accepts(t, x, closed)
          v.check(ok(x) === should, 'the JSON schema given to the provider is the caller\'s', () => `${vendor} ${b} strict=${strict}: ${short(x)} ${should ? 'refused' : 'allowed'} by ${short(tl.function.parameters, 800)}`)
          if (surplus) count('surplus keys refused in strict mode')
        }
        const r = await tl.validate(x)
        const accepted = r.issues === undefined
        v.check(accepted === open, 'the validator accepts exactly what the schema accepts', () => `${vendor} ${b}: ${short(x)} ${accepted ? 'accepted' : short(r.issues)}`)
        if (accepted && open && (!surplus || vendor !== 'arktype')) {
          const wantValue = c?.tag ? { tagged: strip(t, x) } : strip(t, x)
          if (!deepEqual(JSON.parse(JSON.stringify(r.value)), wantValue)) v.add('the validator yields the schema\'s output', `${vendor} ${b}: ${diff(r.value, wantValue)}`)
        }
        const via = await validate(schema, x).then(value => ({ value }), error => ({ error }))
        v.check(('value' in via) === open, 'validate resolves exactly with what the schema accepts', () => `${vendor}: ${short(x)}: ${short(via)}`)
        if ('value' in via && accepted) v.check(JSON.stringify(via.value) === JSON.stringify(r.value), 'validate yields the schema\'s output', vendor)
        if ('error' in via) v.check(via.error instanceof Error && r.issues?.every(x => via.error.message.includes(JSON.stringify(x.message))), 'validate reports the issues', () => short(via.error))
        count(open ? 'accepted inputs' : 'rejected inputs')
      }
    }
    return { nontrivial: true, sample: { strict, tree: asJSON(t), vendor }, signature: [vendor, strict, t], violations: v.list }
  },
}
