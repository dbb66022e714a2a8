import '../lib/fixtures.mjs'
import { genChat, runChat, turnAsChunks } from '../lib/chat.mjs'
import { genSpeech, genTranscript } from '../lib/fixtures.mjs'
import { genObjectSession } from '../lib/objects.mjs'
import { genResponses, runResponses } from '../lib/responses.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'
import { collect, cutBytes, delivery, encodeSSE, settleOrHang, World } from '../lib/world.mjs'

const view = tr => ({
  error: tr.error ? String(tr.error?.message ?? tr.error) : undefined,
  events: tr.streams?.event?.items,
  exec: tr.rec.exec.map(e => JSON.stringify([e.t, e.id, e.name, e.input])).sort(),
  finish: tr.rec.finish,
  full: tr.streams?.full?.items,
  messages: tr.messages?.map(x => x?.type === 'function_call_output' ? { ...x, id: undefined } : x),
  onEvent: tr.rec.events,
  reasoning: tr.streams?.reasoning?.items,
  requests: tr.world.requests.map(r => r.json?.input ? { ...r.json, input: Array.isArray(r.json.input) ? r.json.input.map(x => x?.type === 'function_call_output' ? { ...x, id: undefined } : x) : r.json.input } : r.json),
  stepFinish: tr.rec.stepFinish,
  steps: tr.steps,
  text: tr.streams?.text?.items,
  totalUsage: tr.totalUsage,
  usage: tr.usage,
})

export default {
  bundles: ['core'],
  cases: { quick: 2500, thorough: 80000 },
  id: 'P03',
  mustObserve: ['chat variants', 'responses variants', 'speech variants', 'transcription variants', 'object variants', 'byte-wise deliveries'],
  rule: 'Each seeded session (chat, responses, object, speech or transcription stream) is played once with plain framing in one network chunk and then with 2-3 variants of the same payloads: other framing (LF/CRLF/CR, comments, ids, retry, missing space, multi-line data, with or without end marker) and other cuts (byte by byte, tiny, per line, random) with random arrival timing. Everything delivered (streams item by item, promises, callbacks, follow-up requests, executions) must be identical. Non-trivial: baseline delivered something; distinct by session and variants.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const kind = rng.weighted([[4, 'chat'], [3, 'responses'], [2, 'object'], [1.5, 'speech'], [1.5, 'transcription']])
    const variants = [{ cut: 'whole', done: true, plain: true }, ...Array.from({ length: rng.int(2, 3) }, () => ({ cut: rng.pick(['whole', 'small', 'random', 'bytes', 'bytes', 'big', 'lines']) }))]
    let base
    let nontrivial = false
    const seedState = rng.int(0, 2 ** 31)
    const { Rng } = await import('../lib/rng.mjs')
    for (const [k, sse] of variants.entries()) {
      const g = new Rng(`payload:${seedState}`) // same content every time
      const d = rng.fork(`delivery${k}`)
      let got
      if (kind === 'chat' || kind === 'responses') {
        const profile = { errors: 0.15, hookP: 0.1, maxCalls: 3, prepareP: 0.1, reasoningP: 0.4, toolP: 0.7, turns: g.int(1, 3) }
        const sc = kind === 'chat' ? genChat(g, profile) : genResponses(g, profile)
        const enc = kind === 'chat' ? (r, turn) => turnAsChunks(r, turn) : sc.encode
        sc.encode = (_r, turn, i) => enc(new Rng(`enc:${seedState}:${i}`), turn, i)
        const opts = { sse: { eventNames: kind === 'responses' && (sse.plain || d.bool(0.7)), ...sse } }
        const tr = kind === 'chat' ? await runChat(api, sc, d, { ...opts, stream: true }) : await runResponses(api, sc, d, opts)
        v.check(!tr.hang, 'settles', 'hang')
        got = view(tr)
        nontrivial ||= (got.full?.length ?? 0) > 2
      }
      else {
        const world = new World(d)
        const play = payloads => world.handler = () => ({ ...delivery(d), chunks: cutBytes(d, encodeSSE(d, payloads, { done: d.bool(0.5), ...sse }), sse.cut), headers: { 'content-type': 'text/event-stream' }, status: 200 })
        const common = { baseURL: 'https://a.test/v1/', fetch: world.fetch, model: 'm' }
        const settle = async p => settleOrHang(world, Promise.resolve(p).then(value => ({ value }), reason => ({ error: short(reason) })))
        if (kind === 'object') {
          const o = genObjectSession(g, api.zod.z)
          play(o.payloads(new Rng(`enc:${seedState}`)))
          const r = await api.streamObject.streamObject({ ...common, messages: [], output: o.output, schema: o.schema })
          const streams = [r.elementStream ?? r.partialObjectStream, r.textStream, r.fullStream, r.eventStream].map((s, i) => collect(world, s, { name: `s${i}` }))
          const w = await settle(Promise.all([...streams.map(s => s.done), r.steps, r.messages]))
          v.check(w.status !== 'hang', 'settles', 'hang')
          got = { end: streams.map(s => [s.end, short(s.error ?? '')]), items: streams.map(s => s.items), steps: w.value?.value?.slice(-2) }
        }
        else if (kind === 'speech') {
          const s = genSpeech(g)
          play(s.payloads)
          const r = await api.streamSpeech.streamSpeech({ ...common, input: 'x', voice: 'v' })
          const c = collect(world, r.fullStream)
          const u = await settle(Promise.all([r.usage, c.done]))
          v.check(u.status !== 'hang', 'settles', 'hang')
          got = { end: c.end, items: c.items.map(x => [...x]), usage: u.value?.value?.[0] ?? u.value }
        }
        else {
          const s = genTranscript(g)
          play(s.payloads)
          const r = api.streamTranscription.streamTranscription({ ...common, file: new Blob(['x']), fileName: 'x' })
          const a = collect(world, r.fullStream)
          const b = collect(world, r.textStream)
          const t = await settle(Promise.all([r.text, a.done, b.done]))
          v.check(t.status !== 'hang', 'settles', 'hang')
          got = { a: a.items, ae: a.end, b: b.items, be: b.end, text: t.value }
        }
        nontrivial = true
      }
      if (k === 0) { base = got }
      else {
        const dd = jdiff(got, base)
        if (dd) v.add('the same bytes deliver the same', `${kind}, ${short(sse)}: ${dd}`)
        if (sse.cut === 'bytes') count('byte-wise deliveries')
        count(`${kind} variants`)
      }
    }
    return { nontrivial, sample: { kind, variants }, signature: [kind, base, variants], violations: v.list }
  },
}
