import { readFileSync } from 'node:fs'

import { genChat, modelChat, runChat, snake } from '../lib/chat.mjs'
import { drive, ENDPOINTS, outcomes } from '../lib/endpoints.mjs'
import { b64, randomBytes } from '../lib/fixtures.mjs'
import { diff, jview, short, Violations } from '../lib/util.mjs'
import { cutBytes, delivery, World } from '../lib/world.mjs'

const enc = new TextEncoder()
// the documented base URL, key variable and endpoints of every provider
const TABLE = JSON.parse(readFileSync(new URL('../lib/providers.json', import.meta.url), 'utf8')).filter(t => t.create)
const MANUAL = ['createAnthropic', 'createFeatherless', 'createOpenRouter', 'createTogetherAI']
const WRAPS = ['createFeatherless', 'createTogetherAI']
const CALLS = {
  chat: ['generateText', 'streamText', 'generateObject', 'streamObject', 'responses'],
  embed: ['embed', 'embedMany'],
  image: ['generateImage'],
  model: ['listModels', 'retrieveModel'],
  speech: ['generateSpeech', 'streamSpeech'],
  transcription: ['generateTranscription', 'streamTranscription'],
}
const ALL = Object.keys(CALLS)
const defined = o => Object.fromEntries(Object.entries(o).filter(([, x]) => x !== undefined))
const headerView = h => h instanceof Headers ? Object.fromEntries(h) : h
// everything the options say, functions by identity
const view = o => Object.fromEntries(Object.entries(defined(o)).map(([k, x]) => [k, k === 'headers' ? headerView(x) : typeof x === 'function' ? x : x instanceof URL ? x.href : jview(x)]))
const same = (a, b) => {
  const keys = new Set([...Object.keys(a), ...Object.keys(b)])
  for (const k of keys) {
    if (typeof a[k] === 'function' || typeof b[k] === 'function') {
      if (a[k] !== b[k]) return `$.${k}: not the same function`
      continue
    }
    const d = diff(a[k], b[k], `$.${k}`)
    if (d) return d
  }
  return null
}

let serial = 0
const genKey = rng => `${rng.apiKey(8)}-${++serial}`

const merged = (merge, parts, v) => {
  const before = parts.map(p => Object.keys(p).join())
  const all = merge(...parts)
  parts.forEach((p, i) => v.check(Object.keys(p).join() === before[i] && p !== all, 'the parts of a provider stay as they were', () => `${before[i]} became ${Object.keys(p)}`))
  return all
}
/** a provider: how to get options from it, and what they have to be */
const genProvider = async (rng, api, index, v) => {
  const kind = index === undefined ? rng.weighted([[3, 'created'], [3, 'manual'], [2, 'instance'], [3, 'azure'], [2, 'player2'], [2, 'workers'], [4, 'utils']]) : 'table'
  if (kind === 'azure') {
    const key = genKey(rng)
    const apiVersion = rng.pick([undefined, '2024-10-21', '2025-04-01-preview'])
    const resourceName = `res-${rng.ident(4).toLowerCase()}`
    const dynamic = rng.pick([undefined, 'sync', 'async'])
    const tokens = []
    const failing = rng.bool(0.15)
    const next = () => {
      if (failing) throw new Error(`no token ${key}`)
      tokens.push(`${key}-${tokens.length}`)
      return tokens.at(-1)
    }
    const apiKey = dynamic === 'sync' ? next : dynamic === 'async' ? async () => { await null; await null; return next() } : key
    const options = { apiKey, ...(apiVersion && { apiVersion }), resourceName }
    const headers = dynamic ? undefined : { 'api-key': key }
    return {
      auth: rec => dynamic ? tokens.includes(rec.headers.authorization?.replace('Bearer ', '')) : rec.headers.authorization === `Bearer ${key}`,
      authNames: ['authorization'],
      baseURL: `https://${resourceName}.services.ai.azure.com/models/`,
      endpoints: ['chat', 'embed', 'model', 'speech', 'transcription'],
      fails: dynamic && failing ? `no token ${key}` : undefined,
      headers,
      kind: dynamic ? 'azure token' : 'azure key',
      methods: await api.providersSpecial.createAzure(options),
      query: apiVersion ? `?api-version=${apiVersion}` : '',
      tokens: dynamic ? tokens : undefined,
    }
  }
  if (kind === 'player2') {
    const custom = rng.bool()
    const gameKey = custom ? genKey(rng) : 'xsai'
    const baseURL = custom ? `http://127.0.0.1:${rng.int(4000, 9000)}/v1/` : 'http://localhost:4315/v1/'
    return { baseURL, endpoints: ['chat', 'speech'], headers: { 'player2-game-key': gameKey }, kind, methods: custom ? api.providersSpecial.createPlayer2(baseURL, gameKey) : rng.bool() ? api.providersSpecial.createPlayer2() : api.providersSpecialInstances.player2 }
  }
  if (kind === 'workers') {
    const apiKey = genKey(rng)
    const account = rng.ident(6)
    return { apiKey, baseURL: `https://api.cloudflare.com/client/v4/accounts/${account}/ai/v1/`, endpoints: ['chat', 'embed'], kind, methods: api.providersSpecial.createWorkersAI(apiKey, account) }
  }
  if (kind === 'utils') {
    // a provider made of the building blocks
    const apiKey = rng.pick([undefined, genKey(rng)])
    const endpoints = rng.shuffle(ALL).slice(0, rng.int(1, ALL.length))
    const shared = rng.bool()
    const make = () => {
      const headers = rng.pick([undefined, { 'x-h': rng.ident(4) }, new Headers({ 'x-h': rng.ident(4) })])
      const base = `https://u${++serial}.test/${rng.pick(['v1', 'openai/v1/'])}`
      return { ...(apiKey && { apiKey }), baseURL: rng.bool(0.3) ? new URL(base) : base, ...(headers && { headers }), ...(rng.bool(0.4) && { fetch: async (...a) => globalThis.fetch(...a) }) }
    }
    const common = make()
    const options = {}
    const given = {}
    const extras = {}
    const U = api.providersUtils
    const parts = endpoints.map((e) => {
      const o = options[e] = shared ? common : make()
      given[e] = view(o)
      const name = `create${e[0].toUpperCase()}${e.slice(1)}Provider`
      const withExtra = e !== 'image' && rng.bool(0.6)
      extras[e] = withExtra
      return U[withExtra ? `${name}WithExtraOptions` : name](o)
    })
    return { apiKey, checkGiven: v => endpoints.forEach(e => v.check(same(view(options[e]), given[e]) === null, 'the given options stay as they were', () => `${e}: ${short(view(options[e]))} was ${short(given[e])}`)), endpoints, extras, kind, methods: merged(U.merge, parts, v), options }
  }
  const pool = kind === 'manual' ? TABLE.filter(t => MANUAL.includes(t.create)) : TABLE.filter(t => t.create !== 'createPlayer2')
  const t = kind === 'table' ? pool[index % pool.length] : rng.pick(pool)
  const instance = kind === 'instance' || (kind === 'table' && rng.bool(0.4))
  const custom = !instance && rng.bool(0.3)
  const baseURL = custom ? `https://proxy${++serial}.test/${rng.pick(['v1', 'v1/', ''])}` : t.baseURL
  const apiKey = instance ? t.key : genKey(rng)
  const alias = { createNovitaAi: 'createNovita', createStepfun: 'createStepFun' }[t.create]
  const create = api.providersCreate[alias && rng.bool() ? alias : t.create]
  return {
    apiKey,
    baseURL,
    endpoints: t.endpoints,
    kind: instance ? 'instance' : custom ? 'created with base URL' : 'created',
    methods: instance ? (t.create === 'createNovitaAi' && rng.bool() ? api.providers.novita : api.providers[t.instance]) : custom ? create(apiKey, baseURL) : create(apiKey),
    name: t.create,
    wraps: WRAPS.includes(t.create),
  }
}

const genExtras = (rng, p, endpoint) => {
  if (p.name === 'createAnthropic' && endpoint === 'chat') {
    const extra = { thinking: { budget_tokens: rng.int(1024, 4096), type: 'enabled' } }
    return { body: { ...extra }, extra, result: { ...extra } }
  }
  if (p.name === 'createOpenRouter' && endpoint === 'chat') {
    const plain = rng.bool() ? { 'HTTP-Referer': `https://${rng.ident(4)}.test`, ...(rng.bool() && { 'X-Title': rng.ident(5) }) } : undefined
    const models = rng.bool() ? [`a/${rng.ident(3)}`, 'b/c'] : undefined
    const provider = rng.bool() ? defined({ allowFallbacks: rng.pick([undefined, true, false]), dataCollection: rng.pick([undefined, 'deny']), order: rng.pick([undefined, ['Anthropic']]), requireParameters: rng.pick([undefined, true]), sort: rng.pick([undefined, 'price']) }) : undefined
    const transforms = rng.pick([undefined, [], ['middle-out']])
    const extraHeaders = plain && rng.bool() ? new Headers(plain) : plain
    const snakeProvider = provider && Object.fromEntries(Object.entries(provider).map(([k, x]) => [snake(k), x]))
    const result = defined({ models, provider: snakeProvider, transforms })
    return { body: result, extra: defined({ extraHeaders, models, provider, transforms }), headers: plain, result }
  }
  if (p.kind === 'utils' && p.extras[endpoint]) {
    const extra = { [rng.pick(['topK', 'serviceTier', 'x'])]: rng.pick([1, 'v', { aB: 1 }, [1]]), ...(rng.bool(0.2) && { headers: { 'x-extra': rng.ident(4) } }), ...(rng.bool(0.1) && { baseURL: `https://e${++serial}.test/v2/` }) }
    const { baseURL, headers, ...body } = extra
    return { baseURL, body, extra, replacesHeaders: headers, result: { ...extra } }
  }
}

export default {
  bundles: ['core'],
  cases: { quick: 5000, thorough: 200000 },
  id: 'P27',
  mustObserve: [...ALL.map(e => `${e} options`), ...Object.values(CALLS).flat().map(n => `requests of ${n}`), 'created', 'created with base URL', 'instance', 'azure token', 'azure key', 'player2', 'workers', 'utils', 'extra options', 'results changed by the caller', 'concurrent requests', 'failing answers', 'failing tokens', 'wrapped model lists', 'single models', 'conversations', 'requests through the provider\'s fetch'],
  rule: `Every documented provider (${TABLE.length}) and the building blocks: interleaved sequences of endpoint calls on one to three of them, with and without extra options, results modified by the caller in between, then requests made with the results, alone and concurrently, answered well or with failures, and multi-step conversations. Oracle: the documented base URL and key of the provider plus the given model and extras; results are compared again at the end; requests at the fetch boundary must reach the provider's URL with its authentication. Non-trivial: requests were made; distinct by options and requests.`,
  technique: 'runtime monitoring: aliasing monitor over option objects plus request-conformance monitor at the fetch boundary',
  before() {
    // where several variables are documented, the first one that is set counts
    const skip = JSON.parse(process.env.VERIF_JOB).shard % 3
    for (const t of TABLE) {
      if (!t.apiKey) continue
      const names = t.apiKey.split(' or ')
      names.forEach((name, i) => {
        if (i < Math.min(skip, names.length - 1)) delete process.env[name]
        else process.env[name] = `env-${name}`
      })
      t.key = `env-${names[Math.min(skip, names.length - 1)]}`
    }
  },
  async run({ api, count, index, rng }) {
    const v = new Violations()
    const providers = [await genProvider(rng, api, rng.bool(0.6) ? index : undefined, v)]
    while (providers.length < 3 && rng.bool(0.6)) providers.push(await genProvider(rng, api, undefined, v))
    providers.forEach(p => count(p.kind))
    const sig = []

    // options
    const results = []
    const n = rng.int(2, 12)
    for (let i = 0; i < n; i++) {
      const p = rng.pick(providers)
      const endpoint = rng.pick(p.endpoints)
      const where = `${p.name ?? p.kind}.${endpoint}, call ${i}`
      if (typeof p.methods[endpoint] !== 'function') {
        v.add('every endpoint of the provider is there', where)
        continue
      }
      const model = endpoint === 'model' ? undefined : `${rng.pick(['gpt-', 'org/name-', 'm', 'Org/Qwen3.5:', '@cf/模型-', ' m'])}${++serial}${rng.pick(['', '', ':free', ' ', '@Q4_K'])}`
      const x = rng.bool(0.6) ? genExtras(rng, p, endpoint) : undefined
      if (x) count('extra options')
      const extraBefore = x && view(x.extra)
      const args = [...(model === undefined ? [] : [model]), ...(x ? [x.extra] : [])]
      const { [endpoint]: method } = p.methods
      const result = rng.bool() ? method(...args) : p.methods[endpoint](...args)
      if (x) {
        const d = same(view(x.extra), extraBefore)
        if (d) v.add('the extra options stay as they were', `${where}: ${d}`)
      }
      const own = p.kind === 'utils' ? p.options[endpoint] : {}
      const want = p.kind === 'utils'
        ? view({ ...own, ...(model && { model }), ...x?.result })
        : view({ apiKey: p.apiKey, baseURL: p.baseURL, headers: p.headers || x?.headers ? { ...p.headers, ...x?.headers } : undefined, model, ...x?.result })
      const got = view(result)
      const judged = { ...got }
      if (p.kind !== 'utils') {
        // functions are judged by what they do
        delete judged.fetch
      }
      // header names are case-insensitive
      const lower = o => o.headers ? { ...o, headers: Object.fromEntries(Object.entries(o.headers).map(([k, y]) => [k.toLowerCase(), y])) } : o
      const d = same(lower(judged), lower(want))
      if (d) v.add('options of exactly this provider, model and extras', `${where}: ${d}`)
      for (const o of results) if (o.result === result) v.add('every call has its own options', where)
      count(`${endpoint} options`)
      results.push({ endpoint, got, model, p, result, where, x })
      sig.push([p.name ?? p.kind, endpoint, x && Object.keys(x.extra)])
      if (rng.bool(0.15)) {
        const r = rng.pick(results)
        Object.assign(r.result, { apiKey: 'sk-hijacked', baseURL: 'https://hijacked.test/v1/', model: 'hijacked', temperature: 2 })
        r.spoiled = true
        count('results changed by the caller')
      }
      if (x && rng.bool(0.3)) for (const k of Object.keys(x.extra)) x.extra[k] = 'changed later'
    }
    for (const r of results) {
      if (r.spoiled) continue
      const d = same(view(r.result), r.got)
      if (d) v.add('options stay as they were returned', `${r.where} of ${results.length}: ${d}`)
    }
    for (const p of providers) p.checkGiven?.(v)

    // requests
    const usable = results.filter(r => !r.spoiled)
    const world = new World(rng)
    const realFetch = globalThis.fetch
    const calls = []
    const urlOf = (p, r, path) => {
      const base = String(r.x?.baseURL ?? (p.kind === 'utils' ? p.options[r.endpoint].baseURL : p.baseURL))
      return `${base.endsWith('/') ? base : `${base}/`}${p.kind === 'player2' && r.endpoint === 'speech' ? 'tts/speak' : path}${p.query ?? ''}`
    }
    const judgeRequest = (c, rec) => {
      const { p, r } = c
      v.check(rec.url === new URL(c.url).href, 'requests reach the provider\'s own URL', () => `${c.where}: ${rec.url}, expected ${c.url}`)
      const h = rec.headers
      if (p.tokens) v.check(p.auth(rec), 'requests carry the provider\'s own authentication', () => `${c.where}: ${h.authorization} of ${short(p.tokens)}`)
      else if (p.kind === 'azure key') v.check(p.auth(rec), 'requests carry the provider\'s own authentication', () => `${c.where}: ${h.authorization}`)
      else v.check(h.authorization === (p.apiKey === undefined ? undefined : `Bearer ${p.apiKey}`), 'requests carry the provider\'s own authentication', () => `${c.where}: ${h.authorization}, expected ${p.apiKey}`)
      const wantHeaders = r.x?.replacesHeaders ?? { ...headerView(p.headers ?? p.options?.[r.endpoint].headers), ...r.x?.headers }
      for (const [k, y] of Object.entries(wantHeaders)) v.check(h[k.toLowerCase()] === y, 'requests carry the provider\'s own headers', () => `${c.where}: ${k} is ${h[k.toLowerCase()]}, expected ${y}`)
      const allowed = new Set(['authorization', 'content-type', ...Object.keys(wantHeaders).map(k => k.toLowerCase())])
      for (const k of Object.keys(h)) v.check(allowed.has(k), 'no headers of other providers', () => `${c.where}: ${k}`)
    }
    try {
      globalThis.fetch = world.fetch
      // the fetch of such a provider adds its authentication to any kind of headers
      const direct = usable.find(r => r.p.kind.startsWith('azure') && !r.p.fails && typeof r.result.fetch === 'function')
      if (direct && rng.bool(0.3)) {
        const entries = [['Content-Type', 'application/json'], ['x-own', 'v']]
        const headers = rng.pick([undefined, Object.fromEntries(entries), entries.map(e => [...e]), new Headers(entries)])
        world.handler = () => ({ bytes: enc.encode('{}'), status: 200 })
        await direct.result.fetch(new URL('chat/completions', direct.p.baseURL), { ...(headers && { headers }), body: '{}', method: 'POST' })
        const rec = world.requests.at(-1)
        v.check(direct.p.auth(rec), 'requests carry the provider\'s own authentication', () => `${direct.where} with ${headers?.constructor.name}: ${short(rec.headers)}`)
        if (headers) v.check(rec.headers['x-own'] === 'v', 'requests keep the headers they have', () => `${direct.where}: ${short(rec.headers)}`)
        count('requests through the provider\'s fetch')
        world.requests.length = 0
      }
      if (usable.length > 0 && rng.bool(0.15)) {
        // a whole conversation
        const chats = usable.filter(r => r.endpoint === 'chat' && !r.p.fails)
        if (chats.length > 0) {
          const r = rng.pick(chats)
          const sc = genChat(rng, { toolP: 0.9, turns: rng.int(2, 4) })
          const stream = rng.bool()
          const m = modelChat(sc, { stream })
          const tr = await runChat(api, sc, rng, { extra: { apiKey: undefined, fetch: undefined, headers: undefined, ...r.result }, stream, world })
          const where = `conversation with ${r.where}`
          v.check(tr.world.requests.length === m.requests.length, 'every request of the conversation is made', () => `${where}: ${tr.world.requests.length} of ${m.requests.length}`)
          const c = { p: r.p, r, url: urlOf(r.p, r, 'chat/completions'), where }
          for (const rec of tr.world.requests) judgeRequest(c, rec)
          if (r.p.tokens) {
            const used = tr.world.requests.map(x => x.headers.authorization)
            v.check(new Set(used).size === used.length, 'a token is fetched for every request', () => `${where}: ${short(used)}`)
          }
          count('conversations')
          count('conversation requests', tr.world.requests.length)
          sig.push(tr.world.requests.length)
        }
      }
      else {
        const picked = rng.shuffle(usable).slice(0, rng.int(1, 6))
        for (const r of picked) {
          const { p } = r
          const name = rng.pick(CALLS[r.endpoint].filter(k => !(p.kind === 'player2' && k === 'streamSpeech')))
          const ep = ENDPOINTS[name]
          const g = await ep.gen(rng, api)
          const opts = { ...g.opts, ...r.result, ...(name === 'retrieveModel' && { model: `id-${++serial}` }) }
          if (p.kind === 'player2' && r.endpoint === 'speech' && rng.bool(0.1)) delete opts.voice
          if (p.kind === 'player2' && r.endpoint === 'speech' && rng.bool(0.2)) Object.assign(opts, rng.pick([{ playInApp: true }, { voiceGender: 'other' }, { voiceLanguage: null }]))
          // an option of the provider replaces one of the call
          const bad = rng.bool(0.25) ? rng.pick([400, 401, 403, 404, 429, 500, 503]) : 0
          calls.push({ bad, ep, g, name, opts, p, r, url: urlOf(p, r, ep.path(opts)), where: `${name} with ${r.where}` })
        }
        const find = rec => calls.find(c => !c.rec && c.opts.model !== undefined && c.name !== 'retrieveModel' && (rec.json?.model === c.opts.model || rec.form?.some(([k, x]) => k === 'model' && x === c.opts.model)))
          ?? calls.find(c => !c.rec && c.name === 'retrieveModel' && rec.url.includes(c.opts.model))
          ?? calls.find(c => !c.rec && rec.method === 'GET' && rec.url === c.url)
          ?? calls.find(c => !c.rec && rec.method === 'GET' && c.name === 'listModels')
        world.handler = (rec) => {
          const c = find(rec)
          if (!c) {
            v.add('only the requests that were asked for', `${rec.method} ${rec.url} ${short(rec.json ?? rec.form?.map(([k]) => k))}`)
            return { status: 500, text: 'unexpected' }
          }
          c.rec = rec
          if (c.bad) return { ...delivery(rng), status: c.bad, text: rng.pick(['{"error":{"message":"no"}}', 'denied', '[]', '{"data":[]}', '']) }
          if (c.p.kind === 'player2' && c.r.endpoint === 'speech') {
            c.bytes = randomBytes(rng, rng.int(0, 100))
            return { ...delivery(rng), chunks: cutBytes(rng, enc.encode(JSON.stringify({ data: b64(c.bytes) }))), headers: { 'content-type': 'application/json' }, status: 200 }
          }
          if (c.r.endpoint === 'model') {
            c.models = [{ created: 1, id: c.opts.model ?? `${rng.ident(4)}`, object: 'model' }, { id: 'z', object: 'model' }].slice(0, rng.int(0, 2))
            c.one = { id: c.opts.model, object: 'model', owned_by: rng.ident(3) }
            const payload = c.name === 'retrieveModel' ? c.one : c.p.wraps ? c.models : { data: c.models, object: 'list' }
            return { ...delivery(rng), chunks: cutBytes(rng, enc.encode(JSON.stringify(payload))), headers: { 'content-type': 'application/json' }, status: 200 }
          }
          return c.g.answer(rng)
        }
        const go = async (c) => { c.out = await drive(api, world, c.ep, c.opts) }
        if (calls.length > 1 && rng.bool()) {
          count('concurrent requests', calls.length)
          await Promise.all(calls.map(go))
        }
        else { for (const c of calls) await go(c) }

        for (const c of calls) {
          const { p } = c
          const errors = outcomes(c.out).filter(([, e]) => e !== undefined).map(([, e]) => e)
          v.check(!c.out.hang, 'everything settles', c.where)
          sig.push([c.name, c.bad, c.rec?.text])
          if (p.fails) {
            count('failing tokens')
            v.check(!c.rec, 'no request without a token', c.where)
            v.check(errors.length > 0 && errors.every(e => e?.message === p.fails), 'the failure to get a token is reported', () => `${c.where}: ${short(errors)}`)
            continue
          }
          if (!v.check(c.rec !== undefined, 'the request is made', () => `${c.where}: ${short(errors)}`)) continue
          count(`requests of ${c.name}`)
          judgeRequest(c, c.rec)
          v.check(c.rec.method === (c.r.endpoint === 'model' ? 'GET' : 'POST'), 'request method', () => `${c.where}: ${c.rec.method}`)
          if (c.ep.body === 'json') {
            if (p.kind === 'player2' && c.r.endpoint === 'speech') {
              const { input, instructions, model, playInApp, responseFormat, speed, voice, voiceGender, voiceLanguage } = c.opts
              v.eq(c.rec.json, { audio_format: responseFormat, instructions, model, play_in_app: playInApp ?? false, voice_gender: voiceGender, voice_language: voiceLanguage, speed: speed ?? 1, text: input, voice_ids: voice === undefined ? [] : [voice] }, 'the request in the form of the provider')
            }
            else {
              const body = Object.fromEntries(Object.entries(c.r.x?.body ?? {}).map(([k, x]) => [snake(k), x]))
              const d = diff(c.rec.json, jview({ ...c.g.want, model: c.opts.model, ...body }))
              if (d) v.add('the request holds the call\'s, the model and the extra options', `${c.where}: ${d}`)
            }
          }
          if (c.bad) {
            count('failing answers')
            v.check(errors.length > 0 && errors.length === outcomes(c.out).length && errors.every(e => api.shared.APICallError.isInstance(e) && e.statusCode === c.bad), 'failures of the provider are reported as failures', () => `${c.where}, status ${c.bad}: ${short(errors)} ${short(c.out.promises)}`)
            continue
          }
          v.check(errors.length === 0, 'good answers are no failures', () => `${c.where}: ${short(errors)}`)
          const value = c.out.promises.result?.value
          if (c.bytes) v.check(value instanceof ArrayBuffer && b64(new Uint8Array(value)) === b64(c.bytes), 'the audio of the provider', c.where)
          if (c.name === 'listModels') {
            v.eq(value, c.models, 'the models of the provider')
            if (p.wraps) count('wrapped model lists')
          }
          if (c.name === 'retrieveModel') {
            v.eq(value, c.one, 'the model of the provider')
            count('single models')
          }
          if (c.g.text !== undefined && c.out.streams.text) v.check(c.out.streams.text.items.join('') === c.g.text, 'the text of the provider', c.where)
          if (c.name === 'generateText') v.check(value?.text === c.g.text, 'the text of the provider', c.where)
        }
        for (const p of providers) {
          if (!p.tokens) continue
          const used = calls.filter(c => c.p === p && c.rec).map(c => c.rec.headers.authorization)
          v.check(new Set(used).size === used.length, 'a token is fetched for every request', () => short(used))
        }
      }
    }
    finally { globalThis.fetch = realFetch }
    for (const r of usable) {
      const d = same(view(r.result), r.got)
      if (d) v.add('options stay as they were returned', `${r.where} after the requests: ${d}`)
    }
    return { nontrivial: world.requests.length > 0, sample: { calls: calls.map(c => c.where), providers: providers.map(p => p.name ?? p.kind), results: results.map(r => r.where) }, signature: sig, violations: v.list }
  },
}
