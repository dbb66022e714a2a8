import { genChat, runChat, turnAsChunks } from '../lib/chat.mjs'
import { genTranscript } from '../lib/fixtures.mjs'
import { genObjectSession } from '../lib/objects.mjs'
import { genResponses, runResponses } from '../lib/responses.mjs'
import { Rng } from '../lib/rng.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'
import { collect, cutBytes, delivery, encodeSSE, settleOrHang, World } from '../lib/world.mjs'

const noIds = list => list?.map(x => x?.type === 'function_call_output' ? { ...x, id: undefined } : x)
const mode = rng => rng.weighted([[2, 'read'], [3, 'ignore'], [3, rng.pick([0, 0, 1, 2, rng.int(3, 20)])], [2, 'late']])

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 2500, thorough: 80000 },
  id: 'P07',
  mustObserve: ['conversations run by the telemetry functions', 'chat sessions', 'responses sessions', 'object sessions', 'transcription sessions', 'streams cancelled', 'streams ignored', 'streams read late', 'no stream read at all', 'failing sessions'],
  rule: 'Each seeded session (chat, responses, object, transcription) is run once with every output read at once and then again with a random subset of its streams ignored, cancelled after 0-20 items, read slowly or only after the end; every other output (streams item by item, promises, callbacks, requests, executions) must be what it was. Non-trivial: at least one stream not simply read; distinct by session and consumption.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const kind = rng.weighted([[4, 'chat'], [3, 'responses'], [2, 'object'], [1, 'transcription']])
    const seedState = rng.int(0, 2 ** 31)
    const none = rng.bool(0.15)
    const names = kind === 'chat' || kind === 'responses' ? ['event', 'full', 'reasoning', 'text'] : kind === 'object' ? ['objects', 'text', 'full', 'event'] : ['full', 'text']
    const consume = Object.fromEntries(names.map(k => [k, none ? 'ignore' : mode(rng)]))
    const failing = rng.bool(0.15)
    const out = []
    for (const c of [{}, consume]) {
      const d = rng.fork('d')
      const streams = {}
      let rest
      if (kind === 'chat' || kind === 'responses') {
        const g = new Rng(`s:${seedState}`)
        const profile = { errors: 0.15, hookP: 0.15, maxCalls: 3, prepareP: 0.1, reasoningP: 0.5, toolP: 0.8, turns: g.int(1, 3) }
        const sc = kind === 'chat' ? genChat(g, profile) : genResponses(g, profile)
        const enc = kind === 'chat' ? (r, turn) => turnAsChunks(r, turn) : sc.encode
        sc.encode = (_r, turn, i) => enc(new Rng(`enc:${seedState}:${i}`), turn, i)
        const opts = { consume: c, faults: failing ? { 0: { body: 'teapot', kind: 'http', status: 418 } } : {}, sse: { eventNames: kind === 'responses' } }
        const tr = kind === 'chat' ? await runChat(api, sc, d, { ...opts, stream: true }) : await runResponses(api, sc, d, opts)
        if (!v.check(!tr.hang, 'promises settle whatever is read', () => short(c))) break
        for (const k of names) streams[k] = tr.streams[k]
        rest = {
          error: tr.error?.name,
          exec: tr.rec.exec.map(e => JSON.stringify([e.t, e.id, e.name, e.input])).sort(),
          finish: tr.rec.finish,
          messages: noIds(tr.messages),
          onEvent: tr.rec.events,
          requests: tr.world.requests.map(r => ({ ...r.json, input: Array.isArray(r.json?.input) ? noIds(r.json.input) : r.json?.input })),
          stepFinish: tr.rec.stepFinish,
          steps: tr.steps,
          totalUsage: tr.totalUsage,
          usage: tr.usage,
        }
      }
      else {
        const world = new World(d)
        const g = new Rng(`s:${seedState}`)
        const src = kind === 'object' ? genObjectSession(g, api.zod.z) : genTranscript(g)
        const payloads = kind === 'object' ? src.payloads(new Rng(`e:${seedState}`)) : src.payloads
        const list = failing ? [...payloads.slice(0, 1), { error: { message: 'x' } }] : payloads
        world.handler = () => ({ ...delivery(d), chunks: cutBytes(d, encodeSSE(d, list)), status: 200 })
        const common = { baseURL: 'https://a.test/v1/', fetch: world.fetch, model: 'm' }
        let props
        let promises
        if (kind === 'object') {
          const r = await api.streamObject.streamObject({ ...common, messages: [], output: src.output, schema: src.schema })
          props = { event: r.eventStream, full: r.fullStream, objects: r.elementStream ?? r.partialObjectStream, text: r.textStream }
          promises = { messages: r.messages, steps: r.steps, totalUsage: r.totalUsage, usage: r.usage }
        }
        else {
          const r = api.streamTranscription.streamTranscription({ ...common, file: new Blob(['x']), fileName: 'x' })
          props = { full: r.fullStream, text: r.textStream }
          promises = { text: r.text }
        }
        for (const k of names) {
          const md = c[k] ?? 'read'
          if (md !== 'ignore' && md !== 'late') streams[k] = collect(world, props[k], { cancelAfter: typeof md === 'number' ? md : Infinity, name: k, tee: kind === 'object' })
        }
        rest = {}
        const w = await settleOrHang(world, Promise.all([
          ...Object.values(streams).filter(Boolean).map(s => s.done),
          ...Object.entries(promises).map(async ([k, p]) => p.then((x) => { rest[k] = x }, (e) => { rest[k] = `${e?.name}` })),
        ]))
        if (!v.check(w.status !== 'hang', 'promises settle whatever is read', () => `${kind} ${short(c)}`)) break
        for (const k of names) {
          if (c[k] !== 'late') continue
          streams[k] = collect(world, props[k], { name: k })
          const l = await settleOrHang(world, streams[k].done)
          v.check(l.status !== 'hang', 'a stream can be read late', () => `${kind} ${k}`)
        }
      }
      out.push({ rest, streams })
    }
    if (out.length === 2) {
      const [a, b] = out
      const d = jdiff(b.rest, a.rest)
      if (d) v.add('promises, callbacks and the conversation do not depend on what is read', `${kind} ${short(consume)}: ${d}`)
      for (const k of names) {
        const x = a.streams[k]
        const y = b.streams[k]
        if (!y) continue
        const want = typeof consume[k] === 'number' && y.end === 'cancelled' ? x.items.slice(0, consume[k]) : x.items
        if (failing) {
          // queued items are dropped when a stream errors
          v.check(y.end === x.end || y.end === 'cancelled', 'streams end alike', () => `${k}: ${y.end} vs ${x.end}`)
          if (y.end === 'errored') v.check(y.error?.name === x.error?.name, 'streams end alike', () => `${k}: ${short(y.error)}`)
          continue
        }
        const di = jdiff(y.items, want)
        if (di) v.add('a stream does not depend on how the others are read', `${kind} ${k} under ${short(consume)}: ${di}`)
        v.check(y.end === 'cancelled' || y.end === x.end, 'streams end alike', () => `${kind} ${k}: ${y.end} vs ${x.end}`)
      }
    }
    count(`${kind} sessions`)
    for (const k of names) {
      if (consume[k] === 'ignore') count('streams ignored')
      if (consume[k] === 'late') count('streams read late')
      if (typeof consume[k] === 'number' && out[1]?.streams[k]?.end === 'cancelled') count('streams cancelled')
    }
    if (none) count('no stream read at all')
    if (failing) count('failing sessions')
    return { nontrivial: Object.values(consume).some(x => x !== 'read'), sample: { consume, kind }, signature: [kind, seedState, consume], violations: v.list }
  },
}
