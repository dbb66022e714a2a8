import { genChat, modelChat, runChat, snake } from '../lib/chat.mjs'
import { drive, ENDPOINTS, outcomes } from '../lib/endpoints.mjs'
import { judgeRequests } from '../lib/oracle.mjs'
import { genResponses, judgeResponsesRequests, modelResponses, runResponses } from '../lib/responses.mjs'
import { jdiff, jview, short, Violations } from '../lib/util.mjs'
import { World } from '../lib/world.mjs'

const NAMES = Object.keys(ENDPOINTS)

const genBase = (rng) => {
  const text = `https://${rng.pick(['api.host.test', 'localhost:8443', 'h.test'])}${rng.pick(['', '/v1', '/openai/v1', '/a/b.c/v1beta', '/api%20x/v1', '/v1/models', '/Deployments/MyGateway/V1', '/a//b', '/~me/%2Fx', '/v1/chat/completions'])}${rng.pick(['', '/'])}`
  return { given: rng.bool(0.3) ? new URL(text) : text, text: text.replace(/\/$/, '') }
}

const casing = (rng, s) => rng.pick([s, s.toLowerCase(), s.toUpperCase(), s.replace(/\w/g, c => rng.bool() ? c.toUpperCase() : c.toLowerCase())])

const genHeaders = (rng, form) => {
  if (rng.bool(0.3)) return { given: rng.pick([undefined, {}, new Headers()]), want: {} }
  const want = {}
  const plain = {}
  const put = (k, x) => {
    want[k.toLowerCase()] = x
    plain[casing(rng, k)] = x
  }
  if (rng.bool(0.5)) put('X-Custom-Id', rng.ident())
  if (rng.bool(0.4)) put('Authorization', rng.pick(['Basic abc', 'Bearer other', 'token x']))
  if (rng.bool(0.3) && !form) put('Content-Type', rng.pick(['application/json; charset=utf-8', 'application/vnd.x+json']))
  if (rng.bool(0.3)) put('api-key', 'k')
  if (rng.bool(0.3)) put('Accept', 'text/x')
  if (rng.bool(0.2)) put('OpenAI-Organization', 'org')
  // now and then many of them, with the overrides anywhere among them
  if (rng.bool(0.12)) {
    for (let i = rng.int(5, 30); i > 0; i--) put(`X-${rng.ident(3)}-${i}`, rng.ident())
    const mixed = rng.shuffle(Object.entries(plain))
    return { given: rng.bool(0.4) ? new Headers(mixed) : Object.fromEntries(mixed), want }
  }
  return { given: rng.bool(0.4) ? new Headers(plain) : plain, want }
}

const genExtra = (rng) => {
  const out = {}
  const keys = ['fooBar', 'x', 'already_snake', 'enableThinkingMode', 'aB', 'providerOptions', 'safetySettings', 'logprobs', 'serviceTier', 'URLMode', 'top_a', 'minP', '_private', '$schema', 'x-flag', 'a.b', '0', 'toString', 'constructor', 'foo_Bar', 'maxRetriesURL2', 'timeout', 'éA', 'type', 'method', 'body', 'signal']
  for (const k of keys) if (rng.bool(0.2)) out[k] = rng.pick([null, 0, false, '', 'v', -1.5, [], {}, { camelInside: { deepKey: [1, null, { aB: 2 }] } }, ['camelItem', { cC: 1 }], undefined, '\u2028"\\', 1e21])
  return out
}

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 4000, thorough: 200000 },
  id: 'P01',
  mustObserve: ['conversations run by the telemetry functions', ...NAMES.map(n => `requests of ${n}`), 'header overrides', 'Headers instances', 'URL bases', 'reused URL and Headers objects', 'global fetch', 'falsy options', 'follow-up requests', 'tools as defined'],
  rule: 'Seeded option sets for every API function (base URLs as string or URL with and without trailing slash, header objects and Headers in any letter case overriding the defaults, falsy, nested, undefined and unknown options, given or global fetch), and multi-step conversations with them. The intercepted request (target, method, every header, body or form, signal) is compared with an independently built expectation. Non-trivial: a request was seen; distinct by endpoint, headers and body.',
  technique: 'runtime monitoring: request-conformance monitor at the fetch boundary',
  async run({ api, count, rng }) {
    const v = new Violations()
    const base = genBase(rng)

    if (rng.bool(0.2)) {
      // the same options through all steps of a conversation
      const kind = rng.pick(['chat', 'stream', 'responses'])
      const profile = { prepareP: 0.3, stop: 'long', toolP: 0.9, turns: rng.int(2, 4) }
      const sc = kind === 'responses' ? genResponses(rng, { ...profile, badEnds: false }) : genChat(rng, profile)
      if (kind === 'responses') for (const t of sc.turns) t.end = 'completed'
      const extraBody = genExtra(rng)
      for (const k of Object.keys(extraBody)) if (Object.keys(sc.params).some(p => snake(p) === snake(k))) delete extraBody[k]
      const headers = genHeaders(rng, false)
      delete headers.want.authorization
      if (headers.given instanceof Headers) headers.given.delete('authorization')
      else for (const k of Object.keys(headers.given ?? {})) if (k.toLowerCase() === 'authorization') delete headers.given[k]
      sc.baseURL = base.text
      const withOptions = kind === 'stream' && rng.bool()
      const extra = { ...extraBody, baseURL: base.given, ...(headers.given && { headers: headers.given }), ...(withOptions && { streamOptions: { includeUsage: true } }) }
      const wantBody = { ...jview(extraBody), ...(withOptions && { streamOptions: { include_usage: true } }) }
      const m = kind === 'responses' ? modelResponses(sc) : modelChat(sc, { stream: kind === 'stream' })
      const tr = kind === 'responses' ? await runResponses(api, sc, rng, { extra, sse: { eventNames: true } }) : await runChat(api, sc, rng, { extra, stream: kind === 'stream' })
      if (kind === 'responses') judgeResponsesRequests(v, sc, m, tr.world, { extraBody: wantBody })
      else judgeRequests(v, sc, m, tr.world, { extraBody: wantBody, stream: kind === 'stream' })
      const want = { ...(sc.apiKey && { authorization: `Bearer ${sc.apiKey}` }), 'content-type': 'application/json', ...headers.want }
      for (const r of tr.world.requests) {
        const d = jdiff(r.headers, want)
        if (d) v.add('headers of every request', `${kind} request ${r.index}: ${d}`)
      }
      if (tr.world.requests.length > 1) count('follow-up requests', tr.world.requests.length - 1)
      return { nontrivial: tr.world.requests.length > 0, sample: { kind, requests: tr.world.requests.length }, signature: [kind, tr.world.requests.map(r => r.text)], violations: v.list }
    }

    const name = rng.pick(NAMES)
    const ep = ENDPOINTS[name]
    const g = await ep.gen(rng, api)
    const headers = genHeaders(rng, ep.body === 'form')
    const apiKey = rng.pick([undefined, 'sk-1', rng.apiKey(rng.int(4, 40)), rng.apiKey(12), `Bearer ${rng.ident()}`, `bearer-${rng.ident()}`])
    const extra = ep.body === 'json' ? genExtra(rng) : {}
    for (const k of Object.keys(extra)) if (Object.keys(g.want).includes(snake(k))) delete extra[k]
    const controller = rng.bool() ? new AbortController() : undefined
    const world = new World(rng)
    world.handler = () => g.answer(rng)
    const global = rng.bool(0.3)
    const callbacks = ep.chat || name === 'responses'
      ? { onEvent: () => {}, onFinish: () => {}, onStepFinish: () => {}, postToolCall: () => {}, prepareStep: () => ({}), preToolCall: () => {}, stopWhen: () => true }
      : {}
    if (name === 'generateText') for (const k of ['onEvent', 'onFinish']) delete callbacks[k]
    const undefs = rng.bool(0.3) && ep.body === 'json' ? Object.fromEntries(['temperature', 'seed', 'user', 'toolChoice', 'tools'].filter(k => !(k in g.opts) && !(k in g.want) && rng.bool()).map(k => [k, undefined])) : {}
    // tools are sent as they were defined, whatever a provider knows of them, and so is an empty list
    const tools = ep.chat && !('tools' in g.opts) && !('tools' in undefs) && !('tools' in extra) && rng.bool(0.25)
      ? Array.from({ length: rng.int(0, 3) }, () => ({ execute: () => 'never', function: { name: rng.ident(), ...rng.bool() && { description: rng.text(10) }, parameters: rng.pick([{ properties: {}, type: 'object' }, { properties: { aB: { default: null, type: 'string' } }, type: 'object' }]), ...rng.bool(0.3) && { strict: rng.bool() }, ...rng.bool(0.2) && { customKey: { deepKey: 0 } } }, ...rng.bool(0.2) && { cache_control: { type: 'ephemeral' } }, ...rng.bool(0.2) && { deferLoading: false }, type: 'function' }))
      : undefined
    if (tools) count('tools as defined')
    const opts = { ...undefs, ...g.opts, ...extra, ...(tools && { tools }), ...(rng.bool(0.5) ? callbacks : {}), ...(controller && { abortSignal: controller.signal }), ...(apiKey !== undefined ? { apiKey } : rng.bool() ? { apiKey: undefined } : {}), baseURL: base.given, ...(global ? rng.bool() && { fetch: undefined } : { fetch: world.fetch }), ...(headers.given !== undefined && { headers: headers.given }) }

    // the caller's own URL and Headers objects, last used for something else
    if ((base.given instanceof URL || headers.given instanceof Headers) && rng.bool(0.2)) {
      const before = new World(rng)
      before.handler = () => g.answer(rng)
      const href = base.given.toString()
      if (base.given instanceof URL) base.given.href = 'https://before.test/old'
      if (headers.given instanceof Headers) headers.given.set('x-before', '1')
      await drive(api, before, ep, { ...opts, baseURL: base.given, fetch: before.fetch })
      if (base.given instanceof URL) base.given.href = href
      if (headers.given instanceof Headers) headers.given.delete('x-before')
      count('reused URL and Headers objects')
    }
    const realFetch = globalThis.fetch
    let strays = 0
    globalThis.fetch = global ? world.fetch : () => { strays++; throw new Error('the global fetch was used') }
    let out
    try { out = await drive(api, world, ep, opts) }
    finally { globalThis.fetch = realFetch }
    const where = `${name} ${short(base.given.toString())} headers ${short(headers.given instanceof Headers ? [...headers.given] : headers.given)}`
    v.check(!out.hang, 'everything settles', where)
    v.check(outcomes(out).every(([, e]) => e === undefined), 'a good answer is no failure', () => `${where}: ${short(outcomes(out).filter(([, e]) => e))}`)
    v.check(strays === 0, 'the given fetch is used', where)
    v.check(world.requests.length === 1, 'exactly one request', () => `${where}: ${world.requests.length}`)
    const r = world.requests[0]
    if (r) {
      count(`requests of ${name}`)
      v.check(r.url === `${base.text}/${ep.path(opts)}`, 'the documented endpoint under the base URL', () => `${where}: ${r.url}`)
      v.check(r.method === (ep.body === 'none' ? 'GET' : 'POST'), 'request method', () => `${where}: ${r.method}`)
      const want = { ...(apiKey !== undefined && { authorization: `Bearer ${apiKey}` }), ...(ep.body === 'json' && { 'content-type': 'application/json' }), ...headers.want }
      const got = { ...r.headers }
      if (ep.body === 'form') {
        v.check(/^multipart\/form-data; boundary=/.test(got['content-type']), 'a form is sent as a form', () => `${where}: ${got['content-type']}`)
        delete got['content-type']
      }
      const dh = jdiff(got, want)
      if (dh) v.add('exactly the expected headers', `${where}: ${dh}`)
      v.check((r.signal ?? undefined) === controller?.signal, 'the abort signal is handed to fetch', where)
      if (ep.body === 'json') {
        const wantBody = { ...jview(g.want), ...(tools && { tools: jview(tools.map(({ execute, ...rest }) => rest)) }), ...Object.fromEntries(Object.entries(jview(extra)).map(([k, x]) => [snake(k), x])) }
        const d = r.json == null ? `no JSON: ${short(r.text)}` : jdiff(r.json, wantBody)
        if (d) v.add('exactly the defined parameters in snake case, values unchanged', `${where}: ${d}`)
      }
      else if (ep.body === 'form') {
        const sort = l => l.map(([k, x]) => [k, String(x)]).sort((a, b) => a[0] < b[0] ? -1 : 1)
        const d = jdiff(sort(r.form.filter(([k]) => k !== 'file')), sort(g.form))
        if (d) v.add('exactly the defined form fields', `${where}: ${d}`)
        const files = r.form.filter(([k]) => k === 'file').map(([, f]) => f)
        v.check(files.length === 1 && Buffer.compare(Buffer.from(await files[0].arrayBuffer()), Buffer.from(await g.opts.file.arrayBuffer())) === 0, 'the file is sent', where)
        if (g.opts.fileName) v.check(files[0]?.name === g.opts.fileName, 'the file name is sent', () => files[0]?.name)
      }
      else { v.check(r.body == null, 'no body', where) }
      if (Object.keys(headers.want).some(k => k in { 'authorization': 1, 'content-type': 1 })) count('header overrides')
      if (headers.given instanceof Headers) count('Headers instances')
      if (base.given instanceof URL) count('URL bases')
      if (global) count('global fetch')
      if (Object.values(extra).some(x => !x)) count('falsy options')
    }
    return { nontrivial: r !== undefined, sample: { base: base.given.toString(), name }, signature: [name, r?.url, r?.text, r?.headers], violations: v.list }
  },
}
