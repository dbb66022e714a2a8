// Every API function that talks to a provider, described uniformly: options, expected request, scripted
// answer, and how to call it and watch everything it returns.
import './fixtures.mjs'
import { genMessages, PARAMS, snake, turnAsChunks, turnAsJSON } from './chat.mjs'
import { b64, genSpeech, genTranscript, randomBytes } from './fixtures.mjs'
import { genObjectSession, treeJSON } from './objects.mjs'
import { turnAsEvents } from './responses.mjs'
import { jview } from './util.mjs'
import { collect, cutBytes, delivery, encodeSSE, settleOrHang } from './world.mjs'

const enc = new TextEncoder()
const usage = { completion_tokens: 5, prompt_tokens: 7, total_tokens: 12 }
const plainTurn = (rng, text = rng.nonEmptyText(80)) => ({ calls: [], finish: 'stop', reasoning: rng.bool(0.3) ? 'because' : undefined, reasoningField: 'reasoning', text, usage })

const json = (rng, x) => ({ ...delivery(rng), chunks: cutBytes(rng, enc.encode(JSON.stringify(x))), headers: { 'content-type': 'application/json' }, status: 200 })
const sse = (rng, payloads, opts) => ({ ...delivery(rng), chunks: cutBytes(rng, encodeSSE(rng, payloads, opts)), headers: { 'content-type': 'text/event-stream' }, status: 200 })

const close = s => s.type === 'object' ? { ...s, additionalProperties: false, properties: Object.fromEntries(Object.entries(s.properties).map(([k, x]) => [k, close(x)])) } : s.type === 'array' ? { ...s, items: close(s.items) } : s
const wrapped = s => ({ properties: { elements: { items: s, type: 'array' } }, required: ['elements'], type: 'object' })

/** a standard schema that is its own JSON schema carrier */
const objectGen = rng => async (api) => {
  const s = genObjectSession(rng, api.zod.z)
  const params = PARAMS(rng)
  delete params.user
  // how schemas are converted is judged by another check
  const loose = jview(await api.xsschema.toJsonSchema(s.schema))
  const base = s.output === 'array' ? wrapped(loose) : loose
  return { base, params, s }
}

const chatGen = stream => (rng) => {
  const params = PARAMS(rng)
  const messages = genMessages(rng, 3)
  const model = `m-${rng.ident(4)}`
  const withOptions = stream && rng.bool(0.3)
  const streamOptions = rng.pick([{ includeUsage: true }, { includeUsage: false }, { includeObfuscation: false, includeUsage: true }, { includeObfuscation: false }, {}])
  const turn = plainTurn(rng)
  return {
    answer: r => stream ? sse(r, turnAsChunks(r, turn)) : json(r, turnAsJSON(r, turn)),
    opts: { ...params, messages, model, ...(withOptions && { streamOptions }) },
    text: turn.text,
    want: { ...snaked(params), messages, model, ...(withOptions && { stream_options: snaked(streamOptions) }), stream },
  }
}
const objectEndpoint = stream => async (rng, api) => {
  const { base, params, s } = await objectGen(rng)(api)
  const messages = genMessages(rng, 2)
  const strict = rng.pick([undefined, true, false])
  const schemaName = rng.pick([undefined, rng.ident()])
  const turn = plainTurn(rng, s.text)
  return {
    answer: r => stream ? sse(r, turnAsChunks(r, turn)) : json(r, turnAsJSON(r, turn)),
    opts: { ...params, messages, model: 'm', output: s.output, schema: s.schema, ...(strict !== undefined && { strict }), ...(schemaName && { schemaName }) },
    text: s.text,
    value: s.output === 'array' ? s.value.elements : s.value,
    want: { ...snaked(params), messages, model: 'm', response_format: { json_schema: { name: schemaName ?? 'json_schema', schema: strict === false ? base : close(base), strict: strict ?? true }, type: 'json_schema' }, stream },
  }
}
const snaked = o => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined).map(([k, v]) => [snake(k), v]))

const audioOpts = rng => ({ input: rng.nonEmptyText(60), model: 'tts', ...(rng.bool() && { instructions: rng.text(20) }), ...(rng.bool() && { responseFormat: rng.pick(['mp3', 'wav']) }), ...(rng.bool() && { speed: rng.pick([0, 0.25, 1.5, 4]) }), voice: rng.pick([rng.ident(), rng.ident(), `${rng.ident()}, ${rng.ident()}`, 'EN_us Voice-1']) })
const transcriptOpts = rng => ({ file: new Blob([randomBytes(rng, rng.int(0, 50))], { type: 'audio/wav' }), ...(rng.bool(0.7) && { fileName: `${rng.ident()}.wav` }), ...(rng.bool() && { language: rng.pick(['en', 'de', '']) }), model: 'whisper', ...(rng.bool() && { prompt: rng.nonEmptyText(20) }), ...(rng.bool() && { temperature: rng.pick(['0', '0.5']) }) })
const transcriptForm = o => [['model', o.model], ...['language', 'prompt', 'temperature'].filter(k => o[k] !== undefined).map(k => [k, o[k]])]

const promise = f => (api, o) => ({ promises: { result: f(api)(o) }, streams: {} })
const chatOutputs = r => ({ promises: { messages: r.messages, steps: r.steps, totalUsage: r.totalUsage, usage: r.usage }, streams: { event: r.eventStream, full: r.fullStream, reasoning: r.reasoningTextStream, text: r.textStream } })

export const ENDPOINTS = {
  embed: {
    body: 'json',
    call: promise(a => a.embed.embed),
    gen: (rng) => {
      const opts = { input: rng.nonEmptyText(40), model: 'e', ...(rng.bool() && { dimensions: rng.int(1, 9) }) }
      const embedding = Array.from({ length: rng.int(1, 5) }, () => rng.next())
      return { answer: r => json(r, { data: [{ embedding, index: 0 }], usage: { prompt_tokens: 1, total_tokens: 1 } }), opts, want: opts }
    },
    path: () => 'embeddings',
  },
  embedMany: {
    body: 'json',
    call: promise(a => a.embed.embedMany),
    gen: (rng) => {
      const opts = { input: Array.from({ length: rng.int(1, 5) }, () => rng.text(20)), model: 'e' }
      return { answer: r => json(r, { data: opts.input.map((_, index) => ({ embedding: [index, 0.5], index })), usage: { prompt_tokens: 1, total_tokens: 1 } }), opts, want: opts }
    },
    path: () => 'embeddings',
  },
  generateImage: {
    body: 'json',
    call: promise(a => a.generateImage.generateImage),
    gen: (rng) => {
      const opts = { model: 'img', ...(rng.bool() && { n: 2 }), prompt: rng.nonEmptyText(40), ...(rng.bool() && { responseFormat: 'b64_json' }), ...(rng.bool() && { size: '10x10' }) }
      return { answer: r => json(r, { created: 1, data: Array.from({ length: opts.n ?? 1 }, () => ({ b64_json: b64(randomBytes(r, 30)) })) }), opts, want: snaked(opts) }
    },
    path: () => 'images/generations',
  },
  generateObject: { body: 'json', call: promise(a => a.generateObject.generateObject), gen: objectEndpoint(false), path: () => 'chat/completions' },
  generateSpeech: {
    body: 'json',
    call: promise(a => a.generateSpeech.generateSpeech),
    gen: (rng) => {
      const opts = audioOpts(rng)
      const bytes = randomBytes(rng, rng.int(0, 300))
      return { answer: r => ({ ...delivery(r), chunks: cutBytes(r, bytes), status: 200 }), bytes, opts, want: snaked(opts) }
    },
    path: () => 'audio/speech',
    raw: true,
  },
  generateText: { body: 'json', call: promise(a => a.generateText.generateText), chat: true, gen: chatGen(false), path: () => 'chat/completions' },
  generateTranscription: {
    body: 'form',
    call: promise(a => a.generateTranscription.generateTranscription),
    gen: (rng) => {
      const opts = transcriptOpts(rng)
      const responseFormat = rng.pick([undefined, 'json', 'verbose_json'])
      const granularity = rng.pick([undefined, 'segment', 'word'])
      return {
        answer: r => json(r, { text: 'hi' }),
        form: [...transcriptForm(opts), ['response_format', responseFormat ?? 'json'], ...(responseFormat === 'verbose_json' ? [['timestamp_granularities[]', granularity ?? 'segment']] : [])],
        opts: { ...opts, ...(responseFormat && { responseFormat }), ...(granularity && { timestampGranularities: granularity }) },
      }
    },
    path: () => 'audio/transcriptions',
  },
  listModels: {
    body: 'none',
    call: promise(a => a.model.listModels),
    gen: () => ({ answer: r => json(r, { data: [{ id: 'a', object: 'model' }], object: 'list' }), opts: {} }),
    path: () => 'models',
  },
  responses: {
    body: 'json',
    call: (api, o) => {
      const r = api.responses.responses(o)
      return { promises: { input: r.input, steps: r.steps, totalUsage: r.totalUsage, usage: r.usage }, streams: { event: r.eventStream, full: r.fullStream, reasoning: r.reasoningTextStream, text: r.textStream } }
    },
    gen: (rng) => {
      const opts = { input: rng.nonEmptyText(40), ...(rng.bool() && { instructions: 'be' }), ...(rng.bool() && { maxOutputTokens: 5 }), ...(rng.bool() && { metadata: { camelKey: 'v' } }), model: 'm', ...(rng.bool(0.3) && { streamOptions: { includeObfuscation: false } }) }
      const text = rng.nonEmptyText(50)
      const turn = { calls: [], end: 'completed', items: [{ item: { content: [{ annotations: [], logprobs: [], text, type: 'output_text' }], id: 'msg', role: 'assistant', status: 'completed', type: 'message' } }], text }
      const want = { ...snaked(opts), input: [{ content: opts.input, role: 'user', type: 'message' }], stream: true }
      if (opts.streamOptions) want.stream_options = { include_obfuscation: false }
      return { answer: r => sse(r, turnAsEvents(r, turn, 0), { done: r.bool(), eventNames: true }), opts, text, want }
    },
    path: () => 'responses',
    streaming: true,
  },
  retrieveModel: {
    body: 'none',
    call: promise(a => a.model.retrieveModel),
    gen: rng => ({ answer: r => json(r, { id: 'x', object: 'model' }), opts: { model: rng.pick(['gpt-4o', 'org/name', 'gpt_x.1-y', 'ft:gpt:org::1', 'm@v2']) } }),
    path: o => `models/${o.model}`,
  },
  streamObject: {
    body: 'json',
    call: async (api, o) => {
      const r = await api.streamObject.streamObject(o)
      const c = chatOutputs(r)
      return { ...c, streams: { ...c.streams, objects: r.elementStream ?? r.partialObjectStream } }
    },
    gen: objectEndpoint(true),
    path: () => 'chat/completions',
    streaming: true,
  },
  streamSpeech: {
    body: 'json',
    call: async (api, o) => {
      const r = await api.streamSpeech.streamSpeech(o)
      return { promises: { usage: r.usage }, streams: { audio: r.fullStream } }
    },
    gen: (rng) => {
      const opts = audioOpts(rng)
      const s = genSpeech(rng)
      return { answer: r => sse(r, s.payloads), bytes: Buffer.concat(s.pieces), opts, want: { ...snaked(opts), stream_format: 'sse' } }
    },
    path: () => 'audio/speech',
    raw: true,
    streaming: true,
  },
  streamText: { body: 'json', call: (api, o) => chatOutputs(api.streamText.streamText(o)), chat: true, gen: chatGen(true), path: () => 'chat/completions', streaming: true },
  streamTranscription: {
    body: 'form',
    call: (api, o) => {
      const r = api.streamTranscription.streamTranscription(o)
      return { promises: { text: r.text }, streams: { full: r.fullStream, texts: r.textStream } }
    },
    gen: (rng) => {
      const opts = transcriptOpts(rng)
      const t = genTranscript(rng)
      return { answer: r => sse(r, t.payloads), form: [...transcriptForm(opts), ['stream', 'true']], opts, text: t.text }
    },
    path: () => 'audio/transcriptions',
    streaming: true,
  },
}

/** Calls the function, watches every output, waits until everything has settled. */
export const drive = async (api, world, ep, opts, { onOutputs, pick = () => true, rng } = {}) => {
  const out = { hang: false, promises: {}, streams: {} }
  const watchPromise = (name, p) => p.then((value) => {
    out.promises[name] = { status: 'fulfilled', value }
    world.note(`ok:${name}`)
  }, (reason) => {
    out.promises[name] = { reason, status: 'rejected' }
    world.note(`fail:${name}`)
  })
  const attach = async (o) => {
    const waits = []
    for (const [name, p] of Object.entries(o.promises)) if (pick(name)) waits.push(watchPromise(name, p))
    for (const [name, s] of Object.entries(o.streams)) {
      if (!pick(name)) continue
      out.streams[name] = collect(world, s, { name })
      waits.push(out.streams[name].done)
    }
    onOutputs?.(o)
    await Promise.all(waits)
  }
  let ret
  try { ret = ep.call(api, opts) }
  catch (error) {
    out.syncError = error
    return out
  }
  const p = typeof ret.then === 'function'
    ? ret.then(attach, (reason) => { out.promises.call = { reason, status: 'rejected' } })
    : attach(ret)
  const w = await settleOrHang(world, p)
  out.hang = w.status === 'hang'
  if (w.status === 'rejected') throw w.reason
  return out
}

/** every outcome as [name, error or undefined] */
export const outcomes = out => [
  ...(out.syncError ? [['throw', out.syncError, true]] : []),
  ...Object.entries(out.promises).map(([k, p]) => [k, p.status === 'rejected' ? p.reason : undefined, p.status === 'rejected']),
  ...Object.entries(out.streams).map(([k, s]) => [`${k} stream`, s.end === 'errored' ? s.error : undefined, s.end === 'errored']),
]
