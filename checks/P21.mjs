import { genChat, modelChat, runChat, turnAt } from '../lib/chat.mjs'
import { judgeMessages, judgeRequests, judgeSteps } from '../lib/oracle.mjs'
import { asJSON, close, custom, genObject, value, zodOf } from '../lib/schemas.mjs'
import { deepEqual, diff, short, Violations } from '../lib/util.mjs'
import { collect, cutBytes, encodeSSE, settleOrHang, World } from '../lib/world.mjs'

/* values with everything JSON text can contain */
const wild = (rng, depth) => {
  const k = rng.next()
  if (depth > 0 && k < 0.3) return Object.fromEntries(Array.from({ length: rng.int(0, 4) }, () => [rng.bool(0.8) ? rng.ident(5) : (rng.text(6) || 'k').replaceAll('__proto__', 'p'), wild(rng, depth - 1)]))
  if (depth > 0 && k < 0.5) return Array.from({ length: rng.int(0, 4) }, () => wild(rng, depth - 1))
  return rng.pick([() => rng.text(30).replace(/[\uD800-\uDFFF]/g, ''), () => rng.pick(['', ',', '}', ']', '"', '\\', '\n', '{"elements":[', '[', '\u0000', 'true', '1']), () => rng.int(-999, 99999), () => rng.pick([0, -1.5, 1e21, 1.25e-7, 123456789012]), () => rng.bool(), () => null])()
}
/** the same value, written the ways models write JSON */
const write = (rng, x) => {
  const indent = rng.pick([0, 0, 0, 1, 2, '\t'])
  let s = JSON.stringify(x, null, indent)
  if (rng.bool(0.15)) s = s.replace(/[^\x00-\x7F]/g, c => `\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`)
  // numbers have many spellings
  if (rng.bool(0.2)) s = s.replace(/"(?:[^"\\]|\\.)*"|-?\d+(?:\.\d+)?(?:e[+-]?\d+)?/g, t => t[0] === '"' || rng.bool(0.4) ? t : /e/.test(t) ? t.toUpperCase() : /\./.test(t) ? `${t}00` : rng.pick([`${t}.0`, `${t}e0`, `${t}E+0`, `${t}.00E-0`, `${t}.0e+00`]))
  return s
}

/** x is an earlier stage of y: strings and arrays cut short, members missing, numbers shorter */
const stageOf = (x, y) => {
  if (typeof x === 'string') return typeof y === 'string' && y.startsWith(x)
  if (typeof x === 'number') return typeof y === 'number'
  if (Array.isArray(x)) return Array.isArray(y) && x.length <= y.length && x.every((e, i) => stageOf(e, y[i]))
  if (x !== null && typeof x === 'object') return y !== null && typeof y === 'object' && !Array.isArray(y) && Object.keys(x).every(k => Object.hasOwn(y, k) && stageOf(x[k], y[k]))
  return x === y
}

export default {
  bundles: ['core'],
  cases: { quick: 5000, thorough: 250000 },
  id: 'P21',
  mustObserve: ['element streams', 'partial object streams', 'elements delivered', 'snapshots delivered', 'empty answers', 'failing providers', 'multi-step sessions', 'paced deliveries', 'elements delivered before the end', 'answers cut short', 'elements of answers cut short', 'answers cut short behind their elements'],
  rule: 'Seeded structured answers (arrays of 0-40 elements, deep objects, strings full of JSON syntax, escapes, any indentation), cut into any text deltas and any network chunks, also after tool steps; paced deliveries observe what has been delivered before the next bytes are sent; some answers are empty or cut short, some providers fail. Oracle: elements once, in order, equal to the answer; snapshots changing, never altered afterwards, ending with the answer; text unchanged. Non-trivial: something delivered; distinct by answer and cuts.',
  technique: 'runtime monitoring: exactly-once and convergence monitors over recorded stream logs',
  async run({ api, count, rng }) {
    const v = new Violations()
    const output = rng.pick(['array', 'array', 'object', undefined])
    const array = output === 'array'
    const tree = genObject(rng, rng.int(0, 2))
    const exotic = rng.bool(0.5)
    const one = () => exotic ? wild(rng, 2) : value(rng, tree)
    let answer = array
      ? { elements: Array.from({ length: rng.heavy(0, rng.bool(0.1) ? 40 : 8) }, one), ...(rng.bool(0.05) && { note: 'after' }) }
      : exotic ? Object.fromEntries(Array.from({ length: rng.int(0, 5) }, (_, i) => [`${rng.ident(4)}${i}`, wild(rng, 2)])) : value(rng, tree)
    if (array && rng.bool(0.05)) answer = { note: ['before'], ...answer }
    const empty = rng.bool(0.06)
    const text = empty ? '' : write(rng, answer)
    answer = empty ? undefined : JSON.parse(text)
    const fail = !empty && rng.bool(0.08) ? rng.pick([401, 429, 500]) : 0
    // the model may run out of tokens in the middle of its answer
    let cut = !empty && !fail && text.length > 1 && rng.bool(0.12) ? rng.bool(0.2) ? Math.max(1, text.length - rng.int(1, 6)) : rng.int(1, text.length - 1) : undefined
    const schema = rng.bool(0.7) ? custom(rng, tree, asJSON(tree)).schema : zodOf(api.zod.z, tree)
    const loose = await api.xsschema.toJsonSchema(schema)
    const strict = rng.pick([undefined, true, false])
    const schemaName = rng.pick([undefined, rng.ident()])
    const schemaDescription = rng.pick([undefined, rng.text(12)])
    const given = { schema, ...(output !== undefined && { output }), ...(strict !== undefined && { strict }), ...(schemaName !== undefined && { schemaName }), ...(schemaDescription !== undefined && { schemaDescription }) }
    const wrapped = array ? { properties: { elements: { items: loose, type: 'array' } }, required: ['elements'], type: 'object' } : loose
    const response_format = { json_schema: { ...(schemaDescription !== undefined && { description: schemaDescription }), name: schemaName ?? 'json_schema', schema: strict === false ? wrapped : close(wrapped), strict: strict ?? true }, type: 'json_schema' }

    let objects
    let ends = []
    let copies = []
    let textRec
    let where
    const judge = () => {
      where = `${output} ${short(text, 500)}`
      const got = objects.items
      if (empty || fail) {
        count(empty ? 'empty answers' : 'failing providers')
        v.check(objects.end === 'errored' && textRec.end === 'errored', 'an empty answer or failing provider makes the streams fail', () => `${empty ? 'empty' : fail}: ${objects.end}, ${textRec.end}`)
        for (const s of [objects, textRec]) v.check(empty ? api.shared.InvalidResponseError.isInstance(s.error) && s.error.reason === 'empty_body' : api.shared.APICallError.isInstance(s.error), 'the failure is a typed error', () => short(s.error))
        v.check(got.length === 0 && textRec.items.join('') === '', 'nothing is delivered from nothing', where)
        return
      }
      if (cut !== undefined) {
        count('answers cut short')
        where = `${output} ${short(text.slice(0, cut), 500)} of ${short(text, 500)}`
        v.check(textRec.end === 'closed' && textRec.items.join('') === text.slice(0, cut), 'the text stream delivers the answer unchanged', () => `${where}: ${textRec.end} ${short(textRec.items.join(''))}`)
        if (array) {
          v.check(copies.every((x, i) => i < answer.elements.length && deepEqual(x, answer.elements[i])), 'an answer cut short delivers complete elements only', () => `${where}: ${diff(copies, answer.elements.slice(0, copies.length))}`)
          v.check(copies.length >= ends.filter(e => e <= cut).length - 1, 'an answer cut short still delivers its complete elements', () => `${where}: ${copies.length} delivered`)
          // the end of the array says that its last element is complete
          if (ends.length > 0 && ends.length === answer.elements.length && ends.at(-1) <= cut) {
            count('answers cut short behind their elements')
            v.check(copies.length === answer.elements.length, 'an answer cut short behind its array delivers all of it', () => `${where}: ${copies.length} delivered`)
          }
          count('elements of answers cut short', copies.length)
        }
        else {
          copies.forEach((x, i) => {
            v.check(stageOf(x, answer), 'a snapshot holds nothing the answer does not hold', () => `${where}: snapshot ${i} ${short(x)}`)
            if (i > 0) v.check(stageOf(copies[i - 1], x), 'snapshots only grow', () => `${where}: ${short(copies[i - 1])} then ${short(x)}`)
          })
        }
        return
      }
      v.check(objects.end === 'closed', 'the object stream ends with the answer', () => `${where}: ${objects.end} ${short(objects.error)}`)
      v.check(textRec.end === 'closed' && textRec.items.join('') === text, 'the text stream delivers the answer unchanged', () => `${where}: ${textRec.end} ${short(textRec.items.join(''))}`)
      got.forEach((x, i) => { if (!deepEqual(x, copies[i])) v.add('what was delivered is not altered afterwards', `${where}: item ${i} was ${short(copies[i])}, is ${short(x)}`) })
      if (array) {
        count('element streams')
        count('elements delivered', got.length)
        if (!deepEqual(copies, answer.elements)) v.add('every element exactly once, in order and complete', `${where}: ${diff(copies, answer.elements)}`)
      }
      else {
        count('partial object streams')
        count('snapshots delivered', got.length)
        const last = copies.length > 0 ? copies.at(-1) : {}
        if (!deepEqual(last, answer)) v.add('the snapshots end with the complete object', `${where}: ${diff(last, answer)}`)
        copies.forEach((x, i) => {
          v.check(stageOf(x, answer), 'a snapshot holds nothing the answer does not hold', () => `${where}: snapshot ${i} ${short(x)}`)
          if (i > 0) v.check(stageOf(copies[i - 1], x), 'snapshots only grow', () => `${where}: ${short(copies[i - 1])} then ${short(x)}`)
        })
        v.check(copies.every(x => x !== null && typeof x === 'object' && !Array.isArray(x)), 'every snapshot is an object', where)
        copies.forEach((x, i) => { if (i > 0) v.check(JSON.stringify(x) !== JSON.stringify(copies[i - 1]), 'every snapshot is a change', () => `${where}: snapshot ${i} ${short(x)}`) })
      }
    }
    const watch = (world, stream, opts = {}) => {
      objects = collect(world, stream, { name: 'objects', ...opts, onItem: (x, i) => { copies[i] = structuredClone(x); opts.onItem?.(x, i) } })
      return objects
    }

    if (rng.bool(0.5)) {
      // one paced answer: each event is sent only after everything before it has been handled
      const world = new World(rng)
      const pieces = empty ? rng.pick([[], [''], ['', '']]) : rng.split(text.slice(0, cut), { allowEmpty: true, maxPieces: 25 })
      const payloads = pieces.map(content => ({ choices: [{ delta: { content }, index: 0 }], id: 'x' }))
      payloads.push({ choices: [{ delta: {}, finish_reason: cut === undefined ? 'stop' : 'length', index: 0 }] })
      const paced = rng.bool(0.6) && text.length < 1500
      const bytes = encodeSSE(rng, payloads, paced ? { plain: true } : {})
      const chunks = paced ? payloads.map(p => new TextEncoder().encode(`data: ${JSON.stringify(p)}\n\n`)) : cutBytes(rng, bytes)
      // ends of the elements and top-level members in the text, found by growing prefixes of the final value
      if ((paced || cut !== undefined) && !empty && !fail) {
        const list = array ? answer.elements : Object.keys(answer)
        let pos = array ? text.indexOf('"elements"') + 10 : 0
        pos = text.indexOf(array ? '[' : '{', pos) + 1
        let depth = 0
        let inString = false
        for (let i = pos; i < text.length && ends.length < list.length; i++) {
          const ch = text[i]
          if (inString) {
            if (ch === '\\') i++
            else if (ch === '"') inString = false
            continue
          }
          if (ch === '"') inString = true
          else if (ch === '{' || ch === '[') depth++
          else if ((ch === ',' && depth === 0) || ((ch === '}' || ch === ']') && depth-- === 0)) ends.push(i + 1)
        }
      }
      let sentLen = 0
      world.handler = () => fail
        ? { status: fail, text: 'no' }
        : {
            chunks,
            delay: paced ? () => 8 : undefined,
            eager: true,
            onChunk: (i) => {
              if (!paced || objects === undefined || ends.length === 0) {
                sentLen += pieces[i]?.length ?? 0
                return
              }
              // everything sent so far has been handled
              const complete = ends.filter(e => e <= sentLen).length
              if (array) {
                // an element is complete for certain once the next one is
                v.check(copies.length >= complete - 1, 'complete elements are not held back', () => `${short(text.slice(0, sentLen))}: ${copies.length} delivered, ${complete} complete`)
                v.check(copies.length <= complete + 1, 'only complete elements are delivered', () => `${short(text.slice(0, sentLen))}: ${copies.length} delivered, ${complete} complete`)
                if (copies.length > 0 && i < chunks.length - 1) count('elements delivered before the end', copies.length)
              }
              else if (complete > 0) {
                const snapshot = copies.at(-1) ?? {}
                for (const k of Object.keys(answer).slice(0, complete - 1)) v.check(deepEqual(snapshot[k], answer[k]), 'complete members are in the snapshot', () => `${short(text.slice(0, sentLen))}: ${k} of ${short(snapshot)}`)
              }
              sentLen += pieces[i]?.length ?? 0
            },
            status: 200,
          }
      if (paced) count('paced deliveries')
      const r = await api.streamObject.streamObject({ ...given, baseURL: 'https://a.test/v1/', fetch: world.fetch, messages: [{ content: 'x', role: 'user' }], model: 'm' })
      v.check((array ? r.partialObjectStream : r.elementStream) === undefined, 'one object stream per mode', output)
      textRec = collect(world, r.textStream, { name: 'text' })
      watch(world, array ? r.elementStream : r.partialObjectStream)
      const w = await settleOrHang(world, Promise.allSettled([textRec.done, objects.done, r.steps, r.messages, r.usage, r.totalUsage]))
      if (!v.check(w.status !== 'hang', 'everything settles', `${output} ${short(text)}`)) return { violations: v.list }
      judge()
      v.eq(world.requests[0]?.json?.response_format, response_format, 'the request carries the schema')
      return { nontrivial: copies.length > 0, sample: { output, pieces: pieces.length, text: short(text) }, signature: [output, pieces, chunks.length], violations: v.list }
    }

    // the answer after a conversation with tools
    cut = undefined
    const sc = genChat(rng, { errors: 0.15, maxCalls: 2, reasoningP: 0.3, stop: rng.pick(['default', 'long', 'long']), toolP: 0.6, turns: rng.int(1, 3) })
    delete sc.params.responseFormat
    for (const t of sc.turns) t.text = t.calls.length > 0 ? rng.pick(['', null]) : t.text
    const m0 = modelChat(sc, { stream: true })
    const at = m0.steps.length - 1
    if (turnAt(sc, at).calls.length > 0) return { nontrivial: false, violations: [] } // stopped at a tool step: no answer
    if (sc.turns[at] === undefined) sc.fallback = { ...turnAt(sc, at) }
    const turn = turnAt(sc, at)
    turn.text = text
    turn.refusal = undefined
    const m = modelChat(sc, { stream: true })
    const tr = await runChat(api, sc, rng, {
      consume: { text: 'ignore' },
      extra: given,
      faults: fail ? { [at]: { body: 'no', kind: 'http', status: fail } } : {},
      fn: api.streamObject.streamObject,
      stream: true,
      waitFor: (out) => {
        textRec = collect(out.world, out.result.textStream, { name: 'text' })
        watch(out.world, array ? out.result.elementStream : out.result.partialObjectStream)
        return Promise.all([textRec.done, objects.done])
      },
    })
    if (!v.check(!tr.hang && objects !== undefined, 'everything settles', () => `${output} ${short(text)} ${short(tr.error)}`)) return { violations: v.list }
    judge()
    judgeRequests(v, sc, m, tr.world, { extraBody: { response_format }, stream: true })
    if (!fail) {
      v.check(tr.ok, 'the conversation succeeds', () => short(tr.error))
      judgeMessages(v, tr.messages, m)
      judgeSteps(v, tr.steps, m, { stream: true })
    }
    if (m.steps.length > 1) count('multi-step sessions')
    return { nontrivial: copies.length > 0, sample: { output, steps: m.steps.length, text: short(text) }, signature: [output, text, m.steps.length], violations: v.list }
  },
}
