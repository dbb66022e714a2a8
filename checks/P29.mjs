import { deepEqual, diff, short, Violations } from '../lib/util.mjs'
import { delivery, settleOrHang, cutBytes, World } from '../lib/world.mjs'

const enc = new TextEncoder()
const num = rng => rng.pick([() => rng.next() * 2 - 1, () => rng.next() * 1e-12, () => 0, () => -0.5, () => 1, () => rng.int(-9, 9), () => 1e21, () => 5e-324, () => 0.1 + 0.2])()
const MODELS = ['gpt-4o', 'deepseek-ai/DeepSeek-R1', 'org/sub/model', 'gpt-4o:free', 'ft:gpt-3.5-turbo-0613:org::abc123', '@cf/meta/llama-3-8b', 'claude-3.5', 'Models', 'm_1', 'models', 'a-b.c~d', 'name@2024-05-01', `accounts/${'fireworks-'.repeat(25)}/models/x`]
const BASES = ['https://a.test/v1/', 'https://a.test/v1', 'http://localhost:8080', 'https://a.test', 'https://a.test/x/y/v1/', new URL('https://a.test/v1'), new URL('https://a.test/openai/')]

const modelEntry = rng => ({ created: rng.int(0, 2e9), id: rng.pick([...MODELS, rng.text(20)]), object: rng.weighted([[6, 'model'], [1, 'list'], [1, rng.ident()]]), owned_by: rng.ident(), ...rng.jsonObject(2) })

export default {
  bundles: ['core'],
  cases: { quick: 4000, thorough: 250000 },
  id: 'P29',
  mustObserve: ['single embeddings', 'batch embeddings', 'batches of more than ten', 'base64 embeddings', 'batches of hundreds', 'model lists', 'models retrieved', 'models with a slash'],
  rule: 'Seeded embedding calls (1 to 40 inputs, odd numbers, base64 vectors, provider extras, repeated inputs) and model queries (names with slashes, colons and at-signs; any base URL form), answers cut into any chunks; several calls run concurrently with answers arriving in any order. Oracle: equality with what the scripted provider sent. Non-trivial: an answer with data; distinct by content.',
  technique: 'runtime monitoring: conservation oracle over request and answer logs',
  async run({ api, count, rng }) {
    const v = new Violations()
    const world = new World(rng)
    const n = rng.weighted([[3, 1], [2, rng.int(2, 5)]])
    const jobs = Array.from({ length: n }, (_, i) => {
      const kind = rng.pick(['embed', 'many', 'many', 'list', 'retrieve'])
      const tag = `k${i}`
      const base = rng.pick(BASES)
      const common = { apiKey: tag, baseURL: base instanceof URL ? new URL(base) : base, fetch: world.fetch }
      const root = base.toString().endsWith('/') ? base.toString() : `${base}/`
      if (kind === 'embed' || kind === 'many') {
        const input = kind === 'embed' ? rng.text(60) : Array.from({ length: rng.bool(0.005) ? rng.int(500, 3000) : rng.pick([0, 1, 2, 3, rng.int(4, 40)]) }, () => rng.text(20))
        if (kind === 'many' && input.length > 2 && rng.bool(0.2)) input[1] = input[0]
        const inputs = kind === 'embed' ? [input] : input
        const b64 = rng.bool(0.15)
        const dims = rng.bool(0.01) && inputs.length < 50 ? rng.int(1000, 4096) : rng.int(0, 12)
        const vectors = inputs.map(() => b64 ? Buffer.from(rng.text(12)).toString('base64') : Array.from({ length: dims }, () => num(rng)))
        const usage = rng.bool(0.08) ? undefined : { prompt_tokens: rng.int(0, 999), total_tokens: rng.int(0, 9999), ...(rng.bool(0.2) && { extra: { a: 1 } }) }
        const withIndex = rng.bool(0.8)
        const answer = { data: vectors.map((embedding, index) => ({ embedding, ...(withIndex && { index }), object: 'embedding', ...(rng.bool(0.1) && { x: rng.json(1) }) })), model: rng.pick(MODELS), object: 'list', usage, ...(rng.bool(0.2) && { id: rng.ident() }) }
        if (kind === 'many' && inputs.length > 10) count('batches of more than ten')
        if (b64) count('base64 embeddings')
        if (inputs.length >= 500) count('batches of hundreds')
        const model = rng.pick(MODELS)
        const opts = { ...common, input, model, ...(rng.bool(0.3) && { dimensions: dims }), ...(b64 && { encodingFormat: 'base64' }), ...(rng.bool(0.2) && { user: rng.ident() }) }
        return {
          answer,
          body: { input, model, ...(opts.dimensions !== undefined && { dimensions: dims }), ...(b64 && { encoding_format: 'base64' }), ...(opts.user !== undefined && { user: opts.user }) },
          call: () => kind === 'embed' ? api.embed.embed(opts) : api.embed.embedMany(opts),
          input,
          kind,
          tag,
          url: `${root}embeddings`,
          want: kind === 'embed' ? { embedding: vectors[0], input, usage } : { embeddings: vectors, input, usage },
        }
      }
      if (kind === 'list') {
        const data = Array.from({ length: rng.size(20, 600) }, () => modelEntry(rng))
        return { answer: { data, object: 'list' }, call: () => api.model.listModels(common), kind, tag, url: `${root}models`, want: data }
      }
      const model = rng.pick(MODELS)
      const answer = modelEntry(rng)
      if (model.includes('/')) count('models with a slash')
      return { answer, call: () => api.model.retrieveModel({ ...common, model }), kind, tag, url: `${root}models/${model}`, want: answer }
    })
    world.handler = (rec) => {
      const job = jobs.find(j => `Bearer ${j.tag}` === rec.headers.authorization)
      if (!job) return { status: 500, text: 'unknown credentials' }
      job.req = [...(job.req ?? []), rec]
      return { ...delivery(rng), chunks: cutBytes(rng, enc.encode(JSON.stringify(job.answer, null, rng.pick([0, 0, 2])))), headers: { 'content-type': 'application/json' }, status: 200 }
    }
    const w = await settleOrHang(world, Promise.allSettled(jobs.map(j => j.call())))
    if (!v.check(w.status !== 'hang', 'every call ends', '')) return { violations: v.list }
    jobs.forEach((j, i) => {
      const r = w.value[i]
      const where = `${j.kind} ${j.url}`
      if (!v.check(r.status === 'fulfilled', 'the call succeeds', () => `${where}: ${short(r.reason)}`)) return
      if (!deepEqual(r.value, j.want)) v.add('the provider\'s data comes back unchanged and in order', `${where}: ${diff(r.value, j.want)}`)
      if (j.kind === 'embed' || j.kind === 'many') v.check(r.value.input === j.input || deepEqual(r.value.input, j.input), 'together with the caller\'s own input', where)
      v.check(j.req?.length === 1, 'one request', () => `${where}: ${j.req?.length}`)
      const q = j.req?.[0]
      if (q) {
        v.check(decodeURIComponent(new URL(q.url).href) === j.url, 'asks for exactly what the caller named', () => `${q.url}, expected ${j.url}`)
        v.check(q.method === (j.body ? 'POST' : 'GET'), 'asks for exactly what the caller named', () => `${where}: ${q.method}`)
        if (j.body) v.eq(q.json, j.body, 'asks for exactly what the caller named')
      }
      count({ embed: 'single embeddings', list: 'model lists', many: 'batch embeddings', retrieve: 'models retrieved' }[j.kind])
    })
    return { nontrivial: true, sample: jobs.map(j => [j.kind, j.url]), signature: jobs.map(j => [j.kind, j.url, j.answer]), violations: v.list }
  },
}
