import { genChat, modelChat, runChat, turnAt } from '../lib/chat.mjs'
import { drive, ENDPOINTS, outcomes } from '../lib/endpoints.mjs'
import { ERROR_TYPES, oddThrown } from '../lib/fixtures.mjs'
import { genResponses, modelResponses, runResponses } from '../lib/responses.mjs'
import { deepEqual, short, Violations } from '../lib/util.mjs'
import { beforeTerminal, World } from '../lib/world.mjs'

const NAMES = Object.keys(ENDPOINTS)
const KINDS = ['APICallError', 'InvalidResponseError', 'InvalidToolCallError', 'InvalidToolInputError', 'JSONParseError', 'RemoteAPIError', 'ToolExecutionError']
const CODES = { APICallError: 'api_call_error', InvalidResponseError: 'invalid_response', JSONParseError: 'json_parse_error' }

const genFault = (rng, ep) => {
  const readsJSON = !ep.streaming && !ep.raw
  const kind = rng.weighted([[5, 'http'], [2, 'network'], [2, 'nobody'], [readsJSON ? 3 : 0, 'badjson'], [ep.nochoices ? 3 : 0, 'nochoices'], [ep.streaming ? 0 : 1, 'cut'], [1, 'foreign']])
  if (kind === 'http') {
    const body = rng.pick([() => '', () => JSON.stringify({ error: { code: rng.ident(), message: rng.text(60) } }), () => rng.text(200).replace(/[\uD800-\uDFFF]/g, '').replace(/^\uFEFF+/, ''), () => '<html>Bad gateway</html>', () => JSON.stringify({ choices: [{ finish_reason: 'stop', index: 0, message: { content: 'looks fine', role: 'assistant' } }], data: [{ embedding: [1], index: 0 }], id: 'x', text: 'hi', usage: {} }), () => 'é'.repeat(rng.int(1, 3000)), () => `${rng.pick(['x', 'y ', '<p>\n'])}${'0123456789abcdef'.repeat(rng.pick([64, 257, 1025, 4097, 9000]))}${rng.ident()}`, () => 'data: {"choices":[{"delta":{"content":"x"},"index":0}]}\n\ndata: [DONE]\n\n'])()
    if (rng.bool(0.05)) return { body: '', kind, status: 304, type: 'text/plain' }
    return { body, kind, ...rng.bool(0.2) && { cookie: true }, ...rng.bool(0.15) && { movedTo: rng.pick(['https://b.test/moved', 'https://b.test/v1/x?region=eu&a=%20b', 'http://127.0.0.1:8080/']) }, ...rng.bool(0.2) && { statusText: rng.pick(['', 'Too Many Requests', 'ok']) }, type: rng.pick(ERROR_TYPES), status: rng.pick([300, 304 + 96, 401, 403, 404, 408, 409, 413, 418, 422, 429, 451, 499, 500, 501, 502, 503, 504, 520, 529, 599]) }
  }
  if (kind === 'network') return { error: rng.pick([() => new TypeError('fetch failed'), () => Object.assign(new Error('connect ECONNREFUSED'), { code: 'ECONNREFUSED' }), () => new DOMException('t', 'TimeoutError'), () => 'a plain string', () => oddThrown(rng)])(), kind }
  if (kind === 'badjson') return { kind, text: rng.pick([`<html>${'x '.repeat(rng.int(100, 3000))}é</html>`, '', 'not json', '{"choices":[', '<html>', '{"a":1}{"b":2}', 'undefined', '{\'a\':1}', 'NaN', '[1,]', '\u0000', ')]}\'\n{"choices":[],"data":[],"text":""}', '{"choices":[]}\n{"choices":[],"data":[],"text":"x"}', 'ok\n{"choices":[],"data":[]}', '{"data":[]} // done', '{"data":[],}', 'data: {"choices":[],"data":[]}\n\n', '```json\n{"data":[]}\n```', '"unclosed', '{"data":[]}\u0000', '01', '{"text":"a\nb"}', '{data:[]}', '[{"embedding":[1]}', rng.text(60).replace(/[\uD800-\uDFFF]/g, '').replace(/^\uFEFF+/, '') + '}']) }
  if (kind === 'nochoices') return { json: rng.pick([{}, { choices: [] }, { choices: null }, { error: { message: 'no' } }, { choices: [], usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } }, { object: 'chat.completion' }, null, [], 'text', 7]), kind }
  if (kind === 'cut') return { error: rng.pick([() => new TypeError('terminated'), () => new Error('aborted by peer'), () => oddThrown(rng)])(), kind }
  return { kind }
}

const plan = (rng, fault, good) => {
  const d = { latency: rng.bool() ? rng.int(0, 3) : 0 }
  const enc = t => [Buffer.from(t)].filter(b => b.length > 0).flatMap((b) => {
    const k = rng.int(0, b.length)
    return [b.subarray(0, k), b.subarray(k)].filter(x => x.length > 0).map(x => new Uint8Array(x))
  })
  switch (fault.kind) {
    case 'badjson': return { ...d, chunks: enc(fault.text), status: 200 }
    case 'cut': return { ...good, cutAt: beforeTerminal(good.chunks, rng.int(0, good.chunks.length)), cutError: fault.error }
    case 'foreign': {
      // an implementation of fetch whose body is no web stream
      const text = '{"choices":[]}'
      return { ...d, raw: { body: { pipe: () => {} }, headers: new Headers({ 'content-type': 'text/odd' }), json: async () => JSON.parse(text), ok: true, status: 200, statusText: 'OK', text: async () => text, url: '' } }
    }
    case 'http': return { ...d, ...fault.status === 304 ? { noBody: true } : { chunks: enc(fault.body) }, headers: { 'content-type': fault.type ?? 'text/plain', 'retry-after': '7', 'vary': 'accept, origin', 'x-empty': '', 'x-request-id': 'r-1', ...fault.cookie && { 'set-cookie': 'a=1; Path=/' } }, movedTo: fault.movedTo, status: fault.status, statusText: fault.statusText ?? 'Nope' }
    case 'network': return { ...d, networkError: fault.error }
    case 'nobody': return { ...d, headers: { 'x-request-id': 'r-1' }, noBody: true, status: rng.pick([200, 204]) }
    case 'nochoices': return { ...d, chunks: enc(JSON.stringify(fault.json)), status: 200 }
  }
}

const judge = (v, api, fault, error, where, url) => {
  const S = api.shared
  const is = KINDS.filter(k => S[k].isInstance(error))
  const want = { badjson: 'JSONParseError', foreign: 'InvalidResponseError', http: 'APICallError', nobody: 'InvalidResponseError', nochoices: 'InvalidResponseError' }[fault.kind]
  if (want === undefined) {
    v.check(error === fault.error, 'a transport failure is passed through unchanged', () => `${where}: ${short(error)} for ${short(fault.error)}`)
    return
  }
  v.check(deepEqual(is, [want]), 'the failure is exactly one kind of typed error', () => `${where}: ${short(error)} is ${is}, expected ${want}`)
  v.check(error instanceof Error && S.XSAIError.isInstance(error) && error instanceof S[want] && error.name === want && error.code === CODES[want] && typeof error.message === 'string' && error.message.length > 0, 'the typed error identifies itself', () => `${where}: ${error?.name} ${error?.code} ${short(error?.message)}`)
  if (fault.kind === 'http') {
    v.check(error.statusCode === fault.status, 'the error carries the status code', () => `${where}: ${error.statusCode}`)
    v.check(error.responseBody === fault.body, 'the error carries the response text', () => `${where}: ${short(error.responseBody)} for ${short(fault.body)}`)
    v.check(error.responseHeaders?.['x-request-id'] === 'r-1' && error.responseHeaders?.['retry-after'] === '7' && error.responseHeaders.vary === 'accept, origin' && error.responseHeaders['x-empty'] === '', 'the error carries the response headers', () => `${where}: ${short(error.responseHeaders)}`)
    if (fault.cookie) v.check(error.responseHeaders?.['set-cookie'] === 'a=1; Path=/', 'the error carries the response headers', () => `${where}: ${short(error.responseHeaders)}`)
    // where the answer came from, after redirects
    const from = fault.movedTo ?? url
    v.check(error.url === from, 'the error carries the address', () => `${where}: ${short(error.url)}, expected ${from}`)
    v.check(error.statusText === (fault.statusText ?? 'Nope') && error.response?.status === fault.status, 'the error carries the response', () => `${where}: ${error.statusText}`)
  }
  if (fault.kind === 'badjson') v.check(error.cause instanceof SyntaxError, 'the error carries its cause', () => `${where}: ${short(error.cause)}`)
  if (fault.kind === 'foreign') v.check(typeof error.body?.pipe === 'function' && error.contentType === 'text/odd', 'the error carries the response', () => `${where}: ${short(error.contentType)}`)
  if (fault.kind === 'nobody' || fault.kind === 'foreign') v.check(error.response?.ok === true, 'the error carries the response', () => `${where}: ${short(error.response)}`)
  if (fault.kind === 'nochoices') v.check(error.responseBody === JSON.stringify(fault.json), 'the error carries the response text', () => `${where}: ${short(error.responseBody)}`)
  if (fault.kind === 'badjson') v.check(error.text === fault.text, 'the error carries the offending text', () => `${where}: ${short(error.text)} for ${short(fault.text)}`)
  const reason = { foreign: 'invalid_body', nobody: 'empty_body', nochoices: 'no_choices' }[fault.kind]
  if (reason) v.check(error.reason === reason, 'the error names its reason', () => `${where}: ${error.reason}, expected ${reason}`)
}

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 4000, thorough: 200000 },
  id: 'P02',
  level: 'fault_enumeration',
  levelNote: 'Seeded fault injection over (API function x fault kind x status x body) and, for the conversation loops, over the step at which it strikes; every outcome of every call is judged. No claim beyond the executions observed.',
  mustObserve: ['conversations run by the telemetry functions', ...NAMES.map(n => `faults of ${n}`), 'http', 'network', 'nobody', 'badjson', 'nochoices', 'cut', 'foreign', 'faults in later steps', 'error classes'],
  rule: 'Every API function receives one fault (status, transport, missing or foreign body, undecodable JSON, chat answer without choices, connection lost while reading), also at later steps of conversations. All promises and streams of the call are observed. Non-trivial: an outcome failed; distinct by function, fault and step.',
  technique: 'runtime monitoring with fault injection: typed-outcome oracle on every promise and stream',
  async run({ api, count, rng }) {
    const v = new Violations()
    if (rng.bool(0.03)) {
      const signature = classes(v, api, rng)
      count('error classes')
      return { nontrivial: true, sample: { signature }, signature, violations: v.list }
    }
    if (rng.bool(0.3)) {
      const kind = rng.pick(['generate', 'stream', 'responses'])
      const profile = { errors: 0.1, prepareP: 0.1, stop: 'long', toolP: 0.9, turns: rng.int(2, 4) }
      const sc = kind === 'responses' ? genResponses(rng, { ...profile, badEnds: false }) : genChat(rng, profile)
      if (kind === 'responses') for (const t of sc.turns) t.end = 'completed'
      const m = kind === 'responses' ? modelResponses(sc) : modelChat(sc, { stream: kind === 'stream' })
      const at = rng.int(0, m.steps.length - 1)
      const fault = genFault(rng, { nochoices: kind === 'generate', streaming: kind !== 'generate' })
      if (fault.kind === 'foreign' || fault.kind === 'cut') return { nontrivial: false, violations: [] }
      if (fault.kind === 'http') fault.status = Math.max(400, fault.status)
      const world = new World(rng)
      const tr = kind === 'responses'
        ? await runResponses(api, sc, rng, { sse: { eventNames: true }, wrap: undefined, world, ...faulty(at, fault) })
        : await runChat(api, sc, rng, { stream: kind === 'stream', world, ...faulty(at, fault) })
      const where = `${kind} step ${at}: ${short(fault)}`
      if (!v.check(!tr.hang, 'everything settles', where)) return { violations: v.list }
      v.check(!tr.ok, 'a failure is never reported as success', where)
      const errors = kind === 'generate' ? [tr.error] : [...Object.entries(tr.settled).map(([k, s]) => (v.check(s.status === 'rejected', 'every promise fails', () => `${where}: ${k}`), s.reason)), ...Object.values(tr.streams).map(s => (v.check(s.end === 'errored', 'every stream fails', () => `${where}: ${s.name}`), s.error))]
      for (const e of errors) judgeLoose(v, api, fault, e, where)
      v.check(world.requests.length === at + 1, 'no request after the failure', () => `${where}: ${world.requests.length}`)
      v.check(tr.rec.stepFinish.length === at, 'the failed step is not reported as a step', () => `${where}: ${tr.rec.stepFinish.length}`)
      count(fault.kind)
      if (at > 0) count('faults in later steps')
      return { nontrivial: true, sample: { at, fault: short(fault), kind }, signature: [kind, at, fault.kind, short(fault), turnAt(sc, at).calls.length], violations: v.list }
    }
    const name = rng.pick(NAMES)
    const ep = ENDPOINTS[name]
    const fault = genFault(rng, { ...ep, nochoices: ['generateText', 'generateObject'].includes(name) })
    const g = await ep.gen(rng, api)
    const world = new World(rng)
    world.handler = () => plan(rng, fault, g.answer(rng))
    const out = await drive(api, world, ep, { ...g.opts, baseURL: 'https://a.test/v1', fetch: world.fetch })
    const where = `${name}: ${short(fault)}`
    if (!v.check(!out.hang, 'everything settles', where)) return { violations: v.list }
    const list = outcomes(out)
    for (const [k, error, failed] of list) {
      if (!v.check(failed, 'a failure is never reported as success', () => `${where}: ${k} ${short(out.promises[k]?.value ?? out.streams[k.split(' ')[0]]?.items)}`)) continue
      judge(v, api, fault, error, `${where} (${k})`, world.requests[0]?.url)
    }
    for (const s of Object.values(out.streams)) v.check(s.items.join('') === '', 'nothing is delivered from a failed answer', () => `${where}: ${short(s.items)}`)
    v.check(list.length > 0, 'the call has an outcome', where)
    v.check(world.requests.length === 1, 'a failure is not retried or repeated', () => `${where}: ${world.requests.length}`)
    count(`faults of ${name}`)
    count(fault.kind)
    return { nontrivial: list.length > 0, sample: { fault: short(fault), name }, signature: [name, short(fault, 2000)], violations: v.list }
  },
}

const faulty = (at, fault) => ({ faults: { [at]: fault.kind === 'http' ? { ...fault } : fault } })
/** the error classes themselves, as everybody who wraps the library uses them */
const classes = (v, api, rng) => {
  const S = api.shared
  const cause = rng.pick([undefined, new Error('why'), 'text', null, 0])
  const body = rng.text(30)
  const statusText = rng.pick(['S', '', 'Too Many Requests'])
  const response = Object.defineProperty(new Response(body, { headers: { 'x-a': 'b', ...(rng.bool() && { 'set-cookie': 'a=1', 'content-length': '3', 'authorization': 'x' }) }, status: rng.int(400, 599), statusText }), 'url', { value: rng.pick(['', 'https://a.test/v1/x', 'https://a.test/v1/x?q=1&r=%20#h']) })
  const all = {
    APICallError: { requestBody: rng.pick([undefined, '{}']), response, responseBody: rng.pick([undefined, body]) },
    InvalidResponseError: { body: rng.json(1), contentType: rng.pick([null, 'text/x', undefined]), reason: rng.pick(['empty_body', 'invalid_body', 'no_choices']), response, responseBody: body },
    InvalidToolCallError: { availableTools: rng.pick([undefined, [], ['a', 'b']]), reason: rng.pick(['missing_arguments', 'missing_name', 'tool_call_id_mismatch', 'unknown_tool']), toolCall: rng.json(1), toolName: rng.pick([undefined, 'f']) },
    InvalidToolInputError: { toolInput: rng.json(2), toolName: rng.ident() },
    JSONParseError: { text: body },
    RemoteAPIError: { response: rng.pick([undefined, response]), responseBody: body },
    ToolExecutionError: { toolCallId: rng.pick([undefined, rng.ident()]), toolInput: rng.json(2), toolName: rng.ident() },
  }
  const codes = { ...CODES, InvalidToolCallError: 'invalid_tool_call', InvalidToolInputError: 'invalid_tool_input', RemoteAPIError: 'remote_api_error', ToolExecutionError: 'tool_execution_error' }
  const name = rng.pick(KINDS)
  const message = rng.text(20)
  const error = new S[name](message, { ...all[name], cause })
  v.check(error instanceof Error && S.XSAIError.isInstance(error) && KINDS.every(k => S[k].isInstance(error) === (k === name)), 'an error is of exactly its own type', name)
  v.check(error.name === name && error.code === codes[name] && error.message === message && error.cause === cause, 'the typed error identifies itself', () => `${name}: ${error.name} ${error.code} ${short(error.cause)}`)
  for (const [k, x] of Object.entries(all[name])) v.check(error[k] === x, 'an error carries what it is about', () => `${name}.${k}: ${short(error[k])}`)
  if (name === 'APICallError') v.check(error.statusCode === response.status && error.statusText === statusText && deepEqual(error.responseHeaders, Object.fromEntries(response.headers)) && error.url === response.url, 'an error carries what it is about', () => `${name}: ${short(error)}`)
  class Own extends S[name] {}
  const own = new Own(message, all[name])
  v.check(own instanceof S[name] && KINDS.every(k => S[k].isInstance(own) === (k === name)) && Own.isInstance(own) && !Own.isInstance(error), 'an error of an own kind is of its parents\' type', name)
  for (const other of [undefined, null, 'x', new Error('x'), { code: codes[name], name }]) v.check(!S[name].isInstance(other) && !S.XSAIError.isInstance(other), 'nothing else is an error of the library', () => `${name}: ${short(other)}`)
  return [name, message, short(cause)]
}

/** in conversations the scripted answers carry other headers */
const judgeLoose = (v, api, fault, error, where) => {
  if (fault.kind !== 'http') return judge(v, api, fault, error, where)
  v.check(api.shared.APICallError.isInstance(error) && error.statusCode === fault.status && error.responseBody === fault.body && error.responseHeaders?.['x-fault'] !== undefined, 'the error carries status, text and headers', () => `${where}: ${short(error)} ${short(error?.responseBody)}`)
}
