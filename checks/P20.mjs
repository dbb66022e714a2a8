import { genChat, modelChat, runChat, turnAt } from '../lib/chat.mjs'
import { judgeExecutions, judgeMessages, judgeRequests, judgeSteps, stepDiff } from '../lib/oracle.mjs'
import { accepts, asJSON, close, genObject, spoil, strip, value, valibotOf, zodOf } from '../lib/schemas.mjs'
import { deepEqual, diff, short, Violations } from '../lib/util.mjs'
import { tick } from '../lib/world.mjs'

/** a schema whose validator is watched: every accepted value carries a mark only the validator can give */
const watched = (rng, tree, calls) => {
  const slow = rng.bool(0.5)
  const delays = rng.bool()
  const transform = rng.pick(['mark', 'mark', 'strip', 'null', 'undefined'])
  const boom = rng.bool(0.05)
  return {
    '~standard': {
      jsonSchema: { input: () => asJSON(tree), output: () => ({ type: 'null' }) },
      validate: (x) => {
        const call = { n: calls.length, x: structuredClone(x) }
        calls.push(call)
        const out = () => {
          if (boom) throw new Error('validator broke')
          if (!accepts(tree, x)) return { issues: [{ message: `refused ${call.n}` }] }
          call.value = transform === 'mark' ? { mark: call.n, value: strip(tree, x) } : transform === 'null' ? null : transform === 'undefined' ? undefined : strip(tree, x)
          return { value: call.value }
        }
        if (!slow) return out()
        return (async () => {
          await tick(delays ? rng.int(-5, 3) : 0)
          return out()
        })()
      },
      vendor: 'verif',
      version: 1,
    },
    boom,
  }
}

const PROSE = ['Sure! Here is the JSON:', '```json\n{}\n```', '{"a":1', '{"elements":[{"a":', '{} {}', '{\'a\':1}', 'undefined', 'NaN', '[1,]', '{"elements":[]}]', '\uFEFFx', '{"a":1}}', ' ']

export default {
  bundles: ['core'],
  cases: { quick: 6000, thorough: 250000 },
  id: 'P20',
  mustObserve: ['objects', 'arrays', 'elements validated', 'rejected by the validator', 'wrong shape', 'not JSON', 'empty answers', 'multi-step sessions', 'strict', 'loose', 'validators that finish out of order'],
  rule: 'Seeded conversations (tools, several steps) that end with a structured answer: accepted, with surplus members, spoiled somewhere, of the wrong shape, prose, truncated, empty; against watched validators (sync, async in any order, transforming, throwing) and schemas of two libraries; object and array mode, strict or not. Oracle: the resolved object is what the validator returned for the parsed answer, element by element; anything else rejects; requests carry the expected response format; the rest of the conversation against the reference model. Non-trivial: a verdict on a non-empty answer; distinct by answer and schema.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const sc = genChat(rng, { errors: 0.15, maxCalls: 2, reasoningP: 0.3, stop: rng.pick(['default', 'long', 'long', 'random']), toolP: 0.4, turns: rng.int(1, 4) })
    delete sc.params.responseFormat
    const m0 = modelChat(sc, { stream: false })
    const at = m0.steps.length - 1
    const last = turnAt(sc, at)
    if (sc.turns[at] === undefined) sc.fallback = { ...last }
    const turn = turnAt(sc, at)
    const output = rng.pick(['array', 'array', 'object', undefined])
    const tree = genObject(rng, rng.int(0, 2))
    const calls = []
    const lib = rng.weighted([[3, 'watched'], [1, 'zod'], [1, 'valibot']])
    const schema = lib === 'zod' ? zodOf(api.zod.z, tree) : lib === 'valibot' ? valibotOf(api.valibot, tree) : watched(rng, tree, calls)

    // the answer
    const surplus = rng.bool(0.2) ? () => rng.bool(0.4) : undefined
    let json
    let text
    const form = rng.weighted([[6, 'good'], [3, 'spoiled'], [2, 'shape'], [2, 'prose'], [1, 'empty']])
    const item = () => value(rng, tree, surplus)
    if (form === 'good') json = output === 'array' ? { elements: Array.from({ length: rng.heavy(0, 10) }, item), ...(rng.bool(0.1) && { note: 'x' }) } : item()
    else if (form === 'spoiled') {
      if (output === 'array') {
        const list = Array.from({ length: rng.int(1, 6) }, item)
        const i = rng.int(0, list.length - 1)
        list[i] = spoil(rng, list[i]) ?? null
        json = { elements: list }
      }
      else { json = spoil(rng, item()) ?? null }
    }
    else if (form === 'shape') { json = output === 'array' ? rng.pick([[item()], {}, { elements: null }, { elements: {} }, { element: [item()] }, item(), null, 3, 'elements', { elements: 'abc' }, { elements: 3 }, true]) : rng.pick([[item()], null, 3, 'x', true, { elements: [item()] }]) }
    else if (form === 'prose') { text = rng.pick(PROSE) }
    else { text = rng.pick(['', null]) }
    text = text === undefined ? JSON.stringify(json, null, rng.pick([0, 0, 0, 2, '\t'])) : text
    if (form !== 'prose' && form !== 'empty' && rng.bool(0.1)) text = `\n ${text}\r\n`
    turn.text = text
    turn.refusal = undefined
    delete turn.partsContent
    let parsed
    let isJSON = true
    try { parsed = JSON.parse(text) }
    catch { isJSON = false }

    const m = modelChat(sc, { stream: false })
    if (m.steps.length !== m0.steps.length) return { nontrivial: false, violations: [] } // a text-dependent stop condition moved
    const strict = rng.pick([undefined, true, false])
    const schemaName = rng.pick([undefined, 'person', rng.ident(), `my-${rng.ident()}_V2`, 'Weather Report v1.2'])
    const schemaDescription = rng.pick([undefined, rng.text(20)])
    const extra = { schema, ...(output !== undefined && { output }), ...(strict !== undefined && { strict }), ...(schemaName !== undefined && { schemaName }), ...(schemaDescription !== undefined && { schemaDescription }) }
    const tr = await runChat(api, sc, rng, { extra, fn: api.generateObject.generateObject, stream: false })
    const where = `${lib} ${output} ${form} ${short(text)}`
    if (!v.check(!tr.hang, 'the call ends', where)) return { violations: v.list }

    // requests
    const loose = lib === 'watched' ? asJSON(tree) : await api.xsschema.toJsonSchema(schema)
    const wrapped = output === 'array' ? { properties: { elements: { items: loose, type: 'array' } }, required: ['elements'], type: 'object' } : loose
    const response_format = { json_schema: { ...(schemaDescription !== undefined && { description: schemaDescription }), name: schemaName ?? 'json_schema', schema: strict === false ? wrapped : close(wrapped), strict: strict ?? true }, type: 'json_schema' }
    judgeRequests(v, sc, m, tr.world, { extraBody: { response_format }, stream: false })
    judgeExecutions(v, m, tr.rec)

    // verdict
    const items = isJSON && output === 'array' ? (parsed !== null && typeof parsed === 'object' && Array.isArray(parsed.elements) ? parsed.elements : null) : isJSON ? [parsed] : null
    const good = text != null && text.length > 0 && items !== null && items.every(x => accepts(tree, x)) && !(schema.boom && items.length > 0)
    const lax = lib === 'valibot' && items?.some(x => accepts(tree, x, false, true) !== accepts(tree, x))
    if (!lax) {
      if (!good) {
        v.check(!tr.ok, 'an answer the validator did not accept makes the call fail', () => `${where}: ${short(tr.result?.object)}`)
        if (!tr.ok && (text == null || text === '')) v.check(api.shared.InvalidResponseError.isInstance(tr.error) && tr.error.reason === 'empty_body', 'an empty answer is an invalid response', () => short(tr.error))
      }
      else if (v.check(tr.ok, 'an accepted answer resolves', () => `${where}: ${short(tr.error)}`)) {
        const r = tr.result
        let want
        if (lib === 'watched') {
          v.check(calls.length === items.length && calls.every((c, i) => items.some(x => deepEqual(c.x, x)) && (output !== 'array' || deepEqual(c.x, items[i]))), 'every element is validated', () => `${where}: validated ${short(calls.map(c => c.x))}`)
          want = output === 'array' ? calls.map(c => c.value) : calls[0]?.value
        }
        else { want = output === 'array' ? items.map(x => strip(tree, x)) : strip(tree, parsed) }
        if (!deepEqual(r.object, want)) v.add('the object is what the validator produced, in order', `${where}: ${diff(r.object, want)}`)
        judgeMessages(v, r.messages, m)
        judgeSteps(v, r.steps, m, { usage: true })
        const d = stepDiff(r, m.steps.at(-1))
        if (d) v.add('result is the last step', d)
        v.eq(r.usage, m.usage, 'usage')
        v.eq(r.totalUsage, m.total, 'total usage')
        v.check((r.reasoningText ?? null) === (turn.reasoning ?? null), 'reasoning text', () => short(r.reasoningText))
        count(output === 'array' ? 'arrays' : 'objects')
        count('elements validated', items.length)
        if (calls.length > 1) count('validators that finish out of order')
      }
      if (!good) count({ empty: 'empty answers', good: 'other failures', prose: 'not JSON', shape: 'wrong shape', spoiled: 'rejected by the validator' }[form])
    }
    if (m.steps.length > 1) count('multi-step sessions')
    count(strict === false ? 'loose' : 'strict')
    return { nontrivial: text != null && text !== '', sample: { form, lib, output, strict, text: short(text) }, signature: [lib, output, strict, text, tree], violations: v.list }
  },
}
