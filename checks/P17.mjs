import { genChat, modelChat, produce, realStop, realValidate, turnAsChunks, turnAsJSON, turnAt } from '../lib/chat.mjs'
import { drive, ENDPOINTS } from '../lib/endpoints.mjs'
import { genResponses, modelResponses } from '../lib/responses.mjs'
import { Rng } from '../lib/rng.mjs'
import { deepEqual, deepFreeze, diff, jview, short, Violations } from '../lib/util.mjs'
import { cutBytes, delivery, encodeSSE, tick, World } from '../lib/world.mjs'
import { custom, genObject, asJSON } from '../lib/schemas.mjs'

/** everything observable about an input, functions and schemas by identity */
const picture = (x, seen = new Map()) => {
  if (x === null || typeof x !== 'object') return typeof x === 'function' ? { $fn: x } : x
  if (seen.has(x)) return { $seen: seen.get(x) }
  seen.set(x, seen.size)
  if (x instanceof Headers) return { $headers: [...x.entries()] }
  if (x instanceof URL) return { $url: x.href }
  if (x instanceof Blob) return { $blob: [x.size, x.type, x.name] }
  if (x instanceof AbortSignal) return { $signal: x }
  if (x['~standard'] && x._zod) return { $schema: x }
  if (Array.isArray(x)) return x.map(y => picture(y, seen))
  return Object.fromEntries(Reflect.ownKeys(x).map(k => [k, picture(x[k], seen)]))
}
const freeze = (o) => {
  const { schema, ...rest } = o
  deepFreeze(rest)
  return Object.freeze(schema ? { ...rest, schema } : rest)
}
const copy = x => structuredClone(x)

/** results and stream contents in comparable form; ids of tool outputs are random */
const outcome = (out) => {
  const scrub = x => JSON.parse(JSON.stringify(x ?? null, (k, y) => k === 'id' && typeof y === 'string' && /^[\da-f]{8}-/.test(y) ? 'uuid' : y instanceof Error ? `${y.name}: ${y.message}` : y))
  return scrub({
    promises: Object.fromEntries(Object.entries(out.promises).sort().map(([k, p]) => [k, p.status === 'fulfilled' ? p.value instanceof ArrayBuffer ? [...new Uint8Array(p.value)] : p.value : `${p.reason?.name}: ${p.reason?.message}`])),
    streams: Object.fromEntries(Object.entries(out.streams).sort().map(([k, s]) => [k, s.end === 'errored' ? 'errored' : [s.end, s.items]])),
  })
}

// the telemetry variants are functions of their own
const TELEMETRY = [
  { ...ENDPOINTS.streamText, call: (a, o) => ENDPOINTS.streamText.call({ streamText: a.telemetry }, o) },
  { ...ENDPOINTS.generateText, call: (a, o) => ENDPOINTS.generateText.call({ generateText: a.telemetry }, o) },
]
/** one conversation: caller options and a provider that answers by the length of the history it is sent */
const conversation = (api, rng, flavor) => {
  const profile = { errors: 0.2, hookP: 0, maxCalls: 3, prepareP: 0, stop: rng.pick(['long', 'random']), toolP: 0.9, turns: rng.int(1, 4) }
  const sc = flavor === 'chat' ? genChat(rng, profile) : genResponses(rng, { ...profile, badEnds: false })
  if (flavor === 'responses') for (const t of sc.turns) t.end = 'completed'
  const m = flavor === 'chat' ? modelChat(sc, { stream: true }) : modelResponses(sc)
  const lengths = m.requests.map(r => (r.messages ?? r.input).length)
  const plans = {}
  for (const [k, p] of Object.entries(sc.plans)) plans[k.slice(k.indexOf(':') + 1)] = p
  if (new Set(lengths).size !== lengths.length || Object.keys(plans).length !== Object.keys(sc.plans).length) return undefined
  const fault = rng.bool(0.15) ? rng.int(0, lengths.length - 1) : -1

  const encoded = {}
  const world = new World(rng)
  world.handler = (req) => {
    const list = req.json.messages ?? req.json.input
    const t = lengths.indexOf(list.length)
    if (t < 0) return { status: 400, text: `unexpected history of ${list.length}` }
    const d = delivery(rng)
    if (t === fault) return { ...d, status: 500, text: 'fault' }
    const turn = turnAt(sc, t)
    const stream = req.json.stream === true
    encoded[`${t}${stream}`] ??= stream ? encodeSSE(new Rng(`e${t}`), sc.encode ? sc.encode(new Rng(`t${t}`), turn, t) : turnAsChunks(new Rng(`t${t}`), turn), { eventNames: sc.encode != null }) : Buffer.from(JSON.stringify(turnAsJSON(null, turn)))
    return { ...d, chunks: cutBytes(rng, new Uint8Array(encoded[`${t}${stream}`])), status: 200 }
  }
  const running = { max: 0, now: 0 }
  const tools = sc.tools.map(spec => ({
    execute: async (_input, o) => {
      running.max = Math.max(running.max, ++running.now)
      await tick(rng.bool() ? rng.int(1, 5) : plans[o.toolCallId]?.delay ?? 0)
      running.now--
      return produce(plans[o.toolCallId].outcome)
    },
    function: jview({ description: spec.description, name: spec.name, parameters: spec.parameters, strict: spec.strict }),
    type: 'function',
    ...(spec.validate && { validate: realValidate(spec.validate) }),
  }))
  const raw = { ...sc.params, apiKey: 'k', baseURL: 'https://a.test/v1', fetch: (...a) => world.fetch(...a), headers: { 'x-a': '1' }, ...(flavor === 'chat' ? { messages: sc.messages } : { input: sc.input }), model: 'm', ...(sc.stop && { stopWhen: realStop(api.sharedChat, sc.stop) }), ...(sc.toolsGiven && { tools }) }
  return { eps: flavor === 'chat' ? rng.bool(0.3) ? TELEMETRY : [ENDPOINTS.streamText, ENDPOINTS.generateText] : [ENDPOINTS.responses], fault, flavor, lengths, raw, running, sc, world }
}

const UUID = /[\da-f]{8}-[\da-f]{4}-[\da-f]{4}-[\da-f]{4}-[\da-f]{12}/g

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 2500, thorough: 120000 },
  id: 'P17',
  mustObserve: ['conversations with telemetry', 'frozen inputs', 'pictured inputs', 'failing calls on frozen inputs', 'shared conversations', 'conversations continued', 'sessions run together', 'endpoint calls run together', 'different conversations run together', 'helpers on frozen inputs', 'inputs edited while running'],
  rule: 'Seeded calls of every function on deeply frozen or pictured inputs (successes, faults, aborts); 2-4 conversations or calls run together on the very same option objects, tools and messages, compared with one run alone; results kept and compared after later calls. Non-trivial: a call was judged; distinct by function, inputs and mix.',
  technique: 'runtime monitoring: immutability monitors (frozen and pictured inputs) and differential comparison of concurrent with solitary runs',
  async run({ api, count, rng }) {
    const v = new Violations()
    const mode = rng.weighted([[3, 'inputs'], [2, 'sessions'], [2, 'mixed'], [1, 'detached'], [1, 'together'], [1, 'helpers']])

    if (mode === 'helpers') {
      const tree = genObject(rng, 2)
      const json = asJSON(tree)
      const cases = [
        ['strictJsonSchema', () => api.xsschema.strictJsonSchema(deepFreeze(copy(json)))],
        ['toJsonSchema of a shared schema', async () => {
          const s = custom(rng, tree, deepFreeze(copy(json))).schema
          const a = await api.xsschema.toJsonSchema(s)
          const before = copy(a)
          const strict = api.xsschema.strictJsonSchema(a)
          v.check(deepEqual(a, before), 'a schema is not altered by making it strict', () => diff(a, before))
          return strict
        }],
        ['tool', async () => {
          const s = custom(rng, tree, deepFreeze(copy(json))).schema
          return api.tool.tool(deepFreeze({ description: 'd', execute: () => 'x', name: 'n', parameters: s, strict: rng.pick([true, false, undefined]) }))
        }],
        ['rawTool', () => api.tool.rawTool(deepFreeze({ description: 'd', execute: () => 'x', name: 'n', parameters: copy(json), strict: rng.bool() }))],
        ['wrapped twice', async () => {
          const s = custom(rng, tree, deepFreeze(copy(json))).schema
          const world = new World(rng)
          world.handler = () => ({ chunks: [Buffer.from(JSON.stringify(turnAsJSON(rng, { calls: [], finish: 'stop', reasoningField: 'reasoning', text: '{"elements":[]}' })))], status: 200 })
          const o = deepFreeze({ baseURL: 'https://a.test', fetch: world.fetch, messages: [], model: 'm', output: 'array', schema: s })
          await api.generateObject.generateObject(o)
          await api.generateObject.generateObject(o)
          v.eq(world.requests[1].json, world.requests[0].json, 'a schema can be used again and again')
        }],
      ]
      const [name, f] = rng.pick(cases)
      try { await f() }
      catch (e) { v.add('inputs are only read', `${name}: ${e?.stack}`) }
      count('helpers on frozen inputs')
      return { nontrivial: true, sample: { name }, signature: [name, json], violations: v.list }
    }

    if (mode === 'together' || (mode === 'inputs' && rng.bool(0.6))) {
      const name = rng.pick(Object.keys(ENDPOINTS))
      const ep = ENDPOINTS[name]
      const g = await ep.gen(rng, api)
      const good = g.answer(rng)
      const ending = mode === 'together' ? 'ok' : rng.pick(['ok', 'ok', 'http', 'network', 'badjson', 'abort'])
      const ac = new AbortController()
      const mk = () => {
        const world = new World(rng)
        world.handler = (_r, i) => ending === 'http' ? { status: 503, text: 'x' } : ending === 'network' ? { networkError: new Error('n') } : ending === 'badjson' ? { status: 200, text: 'data: {"a\n\nno' } : { ...good, ...delivery(rng), onChunk: ending === 'abort' ? () => ac.abort(new Error('x')) : undefined }
        return world
      }
      const world = mk()
      const raw = {
        ...g.opts,
        ...(ending === 'abort' && { abortSignal: ac.signal }),
        apiKey: 'k',
        baseURL: rng.bool() ? 'https://a.test/v1' : new URL('https://a.test/v1'),
        fetch: (...a) => world.fetch(...a),
        headers: rng.pick([undefined, { 'X-A': '1', authorization: 'q' }, new Headers({ 'X-B': '2' })]),
        ...(ep.body === 'json' && { providerStuff: { nested: [{ a: 1 }] } }),
      }
      const before = picture(raw)
      const opts = rng.bool() ? (count('frozen inputs'), freeze(raw)) : (count('pictured inputs'), raw)
      if (mode === 'inputs') {
        const out = await drive(api, world, ep, opts)
        const where = `${name} ${ending}`
        v.check(!out.hang, 'everything settles', where)
        const bad = [...Object.values(out.promises).map(p => p.reason), ...Object.values(out.streams).map(s => s.error), out.syncError].filter(e => e instanceof TypeError && /read only|not extensible|Cannot (?:assign|add|delete|define)/.test(e.message))
        v.check(bad.length === 0, 'inputs are only read', () => `${where}: ${bad[0]?.stack}`)
        v.check(deepEqual(picture(raw), before), 'inputs are unchanged after the call', () => `${where}: ${diff(picture(raw), before)}`)
        if (ending === 'ok') v.check([...Object.values(out.promises)].every(p => p.status === 'fulfilled'), 'frozen inputs work', () => `${where}: ${short(out.promises)}`)
        else count('failing calls on frozen inputs')
        return { nontrivial: true, sample: { ending, name }, signature: [name, ending, short(g.want ?? g.form ?? g.opts, 1000)], violations: v.list }
      }
      const solo = outcome(await drive(api, world, ep, opts))
      const n = rng.int(2, 4)
      const outs = await Promise.all(Array.from({ length: n }, () => drive(api, world, ep, opts)))
      for (const o of outs) v.eq(outcome(o), solo, 'a call behaves the same next to others')
      for (const r of world.requests.slice(1)) v.check(r.text === world.requests[0].text && r.url === world.requests[0].url && deepEqual({ ...r.headers, ...(r.form && { 'content-type': '' }) }, { ...world.requests[0].headers, ...(r.form && { 'content-type': '' }) }) && JSON.stringify(r.form?.filter(([k]) => k !== 'file')) === JSON.stringify(world.requests[0].form?.filter(([k]) => k !== 'file')), 'a request is the same next to others', () => `${name}: ${short(r.text)}`)
      v.check(world.requests.length === n + 1, 'one request per call', () => String(world.requests.length))
      v.check(deepEqual(picture(raw), before), 'inputs are unchanged after the call', () => diff(picture(raw), before))
      count('endpoint calls run together', n)
      return { nontrivial: true, sample: { n, name }, signature: [name, n, solo], violations: v.list }
    }

    if (mode === 'mixed') {
      // different conversations, of whatever kind, next to each other
      const list = []
      while (list.length < rng.int(2, 4)) {
        const c = conversation(api, rng, rng.pick(['chat', 'chat', 'responses']))
        if (c) list.push({ ...c, ep: rng.pick(c.eps) })
      }
      for (const c of list) c.solo = outcome(await drive(api, c.world, c.ep, c.raw))
      for (const c of list) c.alone = c.world.requests.splice(0).map(r => r.text)
      const outs = await Promise.all(list.map(async (c) => {
        await tick(rng.bool() ? 0 : rng.int(0, 6))
        return drive(api, c.world, c.ep, c.raw)
      }))
      list.forEach((c, i) => {
        const d = diff(outcome(outs[i]), c.solo)
        if (d) v.add('a conversation behaves the same next to others', `${c.flavor} among ${list.length} different: ${d}`)
        const texts = c.world.requests.map(r => r.text.replace(UUID, 'uuid'))
        v.eq(texts, c.alone.map(t => t.replace(UUID, 'uuid')), 'a request is the same next to others')
      })
      count('different conversations run together', list.length)
      return { nontrivial: true, sample: { kinds: list.map(c => c.flavor) }, signature: ['mixed', list.map(c => [c.flavor, c.lengths, short(c.solo, 300)])], violations: v.list }
    }

    const flavor = rng.pick(['chat', 'chat', 'responses'])
    const made = conversation(api, rng, flavor)
    if (!made) return { nontrivial: false, violations: [] }
    const { eps, fault, lengths, raw, running, sc, world } = made
    if (eps === TELEMETRY) count('conversations with telemetry')
    if (mode === 'detached') {
      // the caller goes on with its own lists while the conversation runs, and with the result afterwards
      const key = flavor === 'chat' ? 'messages' : 'input'
      if (!Array.isArray(raw[key])) return { nontrivial: false, violations: [] }
      const ep = rng.pick(eps)
      const alone = outcome(await drive(api, world, ep, { ...raw, [key]: copy(raw[key]) }))
      const texts = world.requests.splice(0).map(r => r.text.replace(UUID, 'uuid'))
      const mine = copy(raw[key])
      const untouched = copy(mine)
      let left = rng.int(1, 3)
      const edits = [
        () => mine.push({ content: 'EDITED', role: 'user' }),
        () => mine.pop(),
        () => mine.splice(0),
        () => { for (const x of mine) if ('content' in x) x.content = 'EDITED' },
        () => { for (const x of mine) for (const p of Array.isArray(x.content) ? x.content : []) p.text = 'EDITED' },
        () => { for (const x of mine) for (const c of x.tool_calls ?? []) c.function.arguments = 'EDITED' },
      ]
      const handler = world.handler
      world.handler = (...a) => {
        if (left-- > 0) for (const f of edits) if (rng.bool(0.6)) f()
        return handler(...a)
      }
      const out = await drive(api, world, ep, { ...raw, [key]: mine })
      const d = diff(outcome(out), alone)
      if (d) v.add('edits of the caller do not reach a running conversation', `${flavor}: ${d}`)
      v.eq(world.requests.map(r => r.text.replace(UUID, 'uuid')), texts, 'edits of the caller do not reach later requests')
      world.handler = handler
      const given = copy(untouched)
      const again = await drive(api, world, ep, { ...raw, [key]: given })
      const returned = again.promises.result?.value?.messages ?? again.promises[key]?.value
      const scribble = (x) => {
        if (x === null || typeof x !== 'object') return
        for (const k of Object.keys(x)) typeof x[k] === 'object' ? scribble(x[k]) : x[k] = 'SCRIBBLED'
        if (Array.isArray(x)) x.length = 0
      }
      scribble(returned)
      v.check(deepEqual(given, untouched), 'results share nothing with the inputs', () => `${flavor}: ${diff(given, untouched)}`)
      count('inputs edited while running')
      return { nontrivial: lengths.length > 1, sample: { flavor, steps: lengths.length }, signature: ['detached', flavor, lengths, texts], violations: v.list }
    }
    // conversations on shared options
    const before = picture(raw)
    const frozen = rng.bool()
    if (frozen) freeze(raw)
    count(frozen ? 'frozen inputs' : 'pictured inputs')
    const solo = new Map()
    const kept = []
    const keep = (out) => {
      for (const p of Object.values(out.promises)) if (p.status === 'fulfilled' && p.value !== null && typeof p.value === 'object') kept.push([p.value, copy(p.value)])
      return out
    }
    for (const ep of eps) {
      const out = keep(await drive(api, world, ep, raw))
      if (!v.check(!out.hang, 'everything settles', flavor)) return { violations: v.list }
      solo.set(ep, outcome(out))
      v.check(deepEqual(picture(raw), before), 'inputs are unchanged after the call', () => `${flavor}: ${diff(picture(raw), before)}`)
      if (fault < 0) v.check(Object.values(out.promises).every(p => p.status === 'fulfilled'), 'conversations on shared inputs work', () => `${flavor}: ${short(out.promises.steps?.reason ?? out.promises.result?.reason)} ${out.promises.result?.reason?.stack}`)
    }
    const n = rng.int(2, 4)
    const picks = Array.from({ length: n }, () => rng.pick(eps))
    const reqBefore = world.requests.length
    const outs = await Promise.all(picks.map(async (ep) => {
      await tick(rng.bool() ? 0 : rng.int(0, 6))
      return drive(api, world, ep, raw)
    }))
    outs.forEach((o, i) => {
      keep(o)
      const d = diff(outcome(o), solo.get(picks[i]))
      if (d) v.add('a conversation behaves the same next to others', `${flavor} ${n} sessions: ${d}`)
    })
    v.check(deepEqual(picture(raw), before), 'inputs are unchanged after the call', () => `${flavor}: ${diff(picture(raw), before)}`)
    count('sessions run together', n)
    count('shared conversations')
    if (running.max > 1) count('tools of different sessions overlapping')
    const perCall = fault < 0 ? lengths.length : fault + 1
    v.check(world.requests.length - reqBefore === n * perCall, 'as many requests as the calls make alone', () => `${world.requests.length - reqBefore}, expected ${n}x${perCall}`)

    // the conversation goes on with what was returned
    const first = kept.map(k => k[0]).find(x => Array.isArray(x) && x.length > 0 && x[0].role !== undefined) ?? kept.map(k => k[0].messages).find(Boolean)
    if (first && fault < 0) {
      const next = flavor === 'chat' ? { content: 'go on', role: 'user' } : { content: 'go on', role: 'user', type: 'message' }
      const more = new World(rng)
      const turn = turnAt(sc, sc.turns.length + 5)
      more.handler = req => ({ ...delivery(rng), chunks: [req.json.stream ? encodeSSE(rng, sc.encode ? sc.encode(rng, turn, 9) : turnAsChunks(rng, turn), {}) : Buffer.from(JSON.stringify(turnAsJSON(null, turn)))], status: 200 })
      await drive(api, more, rng.pick(eps), { ...raw, fetch: more.fetch, ...(flavor === 'chat' ? { messages: [...first, next] } : { input: [...first, next] }) })
      count('conversations continued')
    }
    for (const [value, was] of kept) v.check(deepEqual(structuredClone(value), was), 'what a call returned does not change later', () => `${flavor}: ${diff(structuredClone(value), was)}`)
    return { nontrivial: true, sample: { flavor, n, steps: lengths.length }, signature: [flavor, n, lengths, frozen, fault, [...solo.values()].map(s => short(s, 300))], violations: v.list }
  },
}
