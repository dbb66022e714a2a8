import '../lib/fixtures.mjs'
import { genChat, modelChat, runChat, turnAsChunks, turnAt } from '../lib/chat.mjs'
import { genSpeech, genTranscript, oddThrown } from '../lib/fixtures.mjs'
import { genObjectSession } from '../lib/objects.mjs'
import { genResponses, modelResponses, runResponses, unified } from '../lib/responses.mjs'
import { Rng } from '../lib/rng.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'
import { collect, cutBytes, delivery, encodeSSE, settleOrHang, World } from '../lib/world.mjs'

const BAD = ['  ', '\u00A0', '{"a":', 'nope', '{"choices":[{"delta":{"content":"x"}}]', '[DONE] ', '{\'a\':1}', 'undefined', '{}{}', '<html>', '[DONE', '{"choices": [], }']
const genFault = (rng) => {
  const kind = rng.pick(['badchunk', 'error', 'cut'])
  if (kind === 'badchunk') return { kind, payload: rng.bool(0.2) ? `<html>${'fé'.repeat(rng.heavy(1, 800))}` : rng.pick(BAD) }
  if (kind === 'error') return { kind, payload: rng.pick([{ error: { message: `überlastet ${'日本語😀 '.repeat(rng.heavy(1, 400))}` } }, { error: { code: 500, message: 'upstream failed' } }, { error: 'overloaded' }, { choices: [{ delta: { content: 'partial' }, index: 0 }], error: { message: 'x' } }, { error: { message: 'e' }, type: 'error' }]) }
  return { error: rng.pick([() => new Error('socket hang up'), () => new TypeError('terminated'), () => Object.assign(new Error('reset'), { code: 'ECONNRESET' }), () => oddThrown(rng)])(), kind }
}

const judgeError = (v, api, fault, error, where) => {
  const { JSONParseError, RemoteAPIError } = api.shared
  if (fault.kind === 'cut') { v.check(error === fault.error, 'a broken connection surfaces as the transport error', () => `${where}: ${short(error)}`) }
  else if (fault.kind === 'badchunk') {
    v.check(JSONParseError.isInstance(error), 'an undecodable payload surfaces as a JSON-parse error', () => `${where}: ${short(error)} for ${fault.payload}`)
    v.check(error?.text === fault.payload, 'the JSON-parse error carries the payload text', () => `${where}: ${short(error?.text)} for ${short(fault.payload)}`)
  }
  else {
    v.check(RemoteAPIError.isInstance(error), 'an error payload surfaces as a remote-API error', () => `${where}: ${short(error)}`)
    let same = false
    try { same = jdiff(JSON.parse(error.responseBody), fault.payload) === null }
    catch {}
    v.check(same, 'the remote-API error carries the payload', () => `${where}: ${short(error?.responseBody)}`)
  }
}

/** the parser of event payloads on its own, with the options it takes */
const parser = async (v, api, rng) => {
  const { JsonMessageTransformStream } = api.sharedStream
  const marker = rng.pick([undefined, 'END', '{"over":true}'])
  const parse = rng.pick([undefined, t => ({ ...JSON.parse(t), parsed: true })])
  const isErrorResponse = rng.pick([undefined, x => x?.failed === true])
  const n = rng.int(0, 6)
  const list = Array.from({ length: n }, (_, i) => ({ data: JSON.stringify({ i, x: rng.json(1) }) }))
  const end = rng.pick(['none', 'marker', 'failed', 'broken', 'other error'])
  const text = { 'broken': '{"a":', 'failed': isErrorResponse ? '{"failed":true}' : '{"error":{}}', 'marker': marker ?? '[DONE]', 'none': '', 'other error': isErrorResponse ? '{"error":{}}' : '{"failed":true}' }[end]
  if (end !== 'none') list.push({ data: text })
  if (rng.bool()) list.push({ data: '{"last":1}' })
  const out = []
  let error
  try {
    const stream = ReadableStream.from(list).pipeThrough(new JsonMessageTransformStream({ ...marker && { doneMarker: marker }, ...parse && { parse }, ...isErrorResponse && { isErrorResponse } }))
    for await (const x of stream) out.push(x)
  }
  catch (e) { error = e }
  const where = `${end} ${short(list)}`
  const fails = ['broken', 'failed'].includes(end)
  const want = list.slice(0, fails ? n : undefined).filter(x => end !== 'marker' || x.data !== text).map(x => ({ ...JSON.parse(x.data), ...(parse && { parsed: true }) }))
  const d = jdiff(out, want.slice(0, error ? out.length : undefined))
  if (d) v.add('payloads are delivered as the parser reads them', `${where}: ${d}`)
  if (end === 'broken') v.check(api.shared.JSONParseError.isInstance(error) && error.text === text && error.cause instanceof SyntaxError, 'an undecodable payload surfaces as a JSON-parse error', () => `${where}: ${short(error)}`)
  else if (end === 'failed') v.check(api.shared.RemoteAPIError.isInstance(error) && error.responseBody === text, 'an error payload surfaces as a remote-API error', () => `${where}: ${short(error)}`)
  else v.check(error === undefined, 'a good payload is no fault', () => `${where}: ${short(error)}`)
  return [end, marker, parse !== undefined, isErrorResponse !== undefined, n]
}

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 900, thorough: 30000 },
  id: 'P04',
  level: 'fault_enumeration',
  levelNote: 'Fault enumeration on generated sessions: for every session one fault of a kind (undecodable payload, error payload, broken connection) is injected at every payload boundary of one step (at most 14 spread positions of long answers); judged by oracles over the recorded streams, promises, executions and requests. No claim beyond the executions observed.',
  technique: 'runtime monitoring with fault injection: trace oracles over every fault position',
  mustObserve: ['conversations run by the telemetry functions', 'chat faults', 'responses faults', 'speech faults', 'transcription faults', 'object faults', 'payload parsers', 'faults in later steps', 'faults after tool calls were sent', 'prefix delivered'],
  rule: 'For each seeded session (chat, responses, object, speech, transcription stream; step 0..n), one fault is injected at every payload position of one step in turn (first, between, last, after the finish chunk, just before the connection would close), with arbitrary chunking. Non-trivial: something was delivered before the fault; distinct by session, position and what was delivered.',
  async run({ api, count, rng }) {
    const v = new Violations()
    if (rng.bool(0.06)) {
      const signature = await parser(v, api, rng)
      count('payload parsers')
      return { nontrivial: true, sample: { signature }, signature, violations: v.list }
    }
    const kind = rng.weighted([[5, 'chat'], [3, 'responses'], [1.5, 'object'], [1, 'speech'], [1, 'transcription']])
    const seedState = rng.int(0, 2 ** 31)
    const fault = genFault(rng)
    const sigs = []
    let delivered = 0

    const positionsOf = (n) => {
      const all = Array.from({ length: n + 1 }, (_, i) => i)
      return all.length <= 14 ? all : [0, 1, n - 1, n, ...rng.shuffle(all).slice(0, 10)]
    }

    if (kind === 'chat' || kind === 'responses') {
      const mk = () => {
        const g = new Rng(`s:${seedState}`)
        const profile = { errors: 0.1, hookP: 0.1, maxCalls: 3, prepareP: 0.1, reasoningP: 0.3, stop: 'long', toolP: 0.8, turns: g.int(1, 3) }
        const sc = kind === 'chat' ? genChat(g, profile) : genResponses(g, { ...profile, badEnds: false })
        const enc = kind === 'chat' ? (r, turn) => turnAsChunks(r, turn) : sc.encode
        sc.encode = (_r, turn, i) => enc(new Rng(`enc:${seedState}:${i}`), turn, i)
        if (kind === 'responses') for (const t of sc.turns) t.end = 'completed'
        return sc
      }
      const m = kind === 'chat' ? modelChat(mk(), { stream: true }) : modelResponses(mk())
      const at = rng.int(0, m.steps.length - 1)
      const sc0 = mk()
      const n = sc0.encode(null, turnAt(sc0, at), at).length
      // a Responses answer is complete with its terminal event: faults strike before that
      const limit = kind === 'responses' ? n - 1 : n
      for (const pos of positionsOf(limit)) {
        const sc = mk()
        const d = rng.fork(`d${pos}`)
        // cutting: after pos payloads; the framing of the last one may or may not be complete
        const faults = { [at]: fault.kind === 'cut'
          ? { cutAt: len => Math.min(len, Math.round(pos * len / n)), error: fault.error, kind: 'cut' }
          : { at: () => pos, kind: 'badchunk', payload: fault.payload } }
        const opts = { faults, sse: kind === 'responses' ? { done: false, eventNames: true } : {} }
        const tr = kind === 'chat' ? await runChat(api, sc, d, { ...opts, stream: true }) : await runResponses(api, sc, d, opts)
        const names = kind === 'chat' ? ['messages', 'steps', 'usage', 'totalUsage'] : ['input', 'steps', 'usage', 'totalUsage']
        const where = `${kind} step ${at} position ${pos}/${n}`
        if (!v.check(!tr.hang, 'everything settles', where)) break
        for (const k of names) {
          v.check(tr.settled?.[k]?.status === 'rejected', 'every promise rejects', () => `${where}: ${k} ${tr.settled?.[k]?.status}`)
          judgeError(v, api, fault, tr.settled?.[k]?.reason, `${where} ${k}`)
        }
        for (const s of Object.values(tr.streams)) {
          v.check(s.end === 'errored', 'every open stream errors', () => `${where}: ${s.name} ${s.end}`)
          judgeError(v, api, fault, s.error, `${where} ${s.name}`)
        }
        v.check(tr.world.requests.length === at + 1, 'no further request', () => `${where}: ${tr.world.requests.length}`)
        v.check(tr.rec.exec.every(e => e.t < at), 'no tool runs because of the broken answer', () => `${where}: ${short(tr.rec.exec.map(e => [e.t, e.id]))}`)
        v.check(tr.rec.stepFinish.length === at, 'the broken step is not completed', () => `${where}: ${tr.rec.stepFinish.length} steps finished`)
        // prefix
        const sent = Object.keys(tr.sent).sort((a, b) => a - b).map(k => tr.sent[k])
        if (fault.kind !== 'cut') sent[at] = sent[at].slice(0, pos)
        const flat = sent.flat()
        const f = tr.streams.full.items
        const df = jdiff(f, flat.slice(0, f.length))
        if (df) v.add('what was delivered is a prefix of what was sent', `${where}: full ${df}`)
        const text = kind === 'chat' ? flat.map(c => c.choices?.[0]?.delta?.content ?? c.choices?.[0]?.delta?.refusal ?? '').join('') : flat.filter(e => ['response.output_text.delta', 'response.refusal.delta'].includes(e.type)).map(e => e.delta).join('')
        v.check(text.startsWith(tr.streams.text.items.join('')), 'what was delivered is a prefix of what was sent', () => `${where}: text ${short(tr.streams.text.items.join(''))} of ${short(text)}`)
        const evText = tr.rec.events.filter(e => e.type === 'text.delta').map(e => e.delta).join('')
        v.check(text.startsWith(evText), 'what was delivered is a prefix of what was sent', () => `${where}: events`)
        v.check(!jdiff(tr.streams.event.items, tr.rec.events.slice(0, tr.streams.event.items.length)), 'what was delivered is a prefix of what was sent', () => `${where}: event stream and callback disagree`)
        if (kind === 'responses') {
          const ev = tr.rec.events.filter(e => e.type !== 'tool-result.done')
          v.check(!jdiff(ev, unified(flat).slice(0, ev.length)), 'what was delivered is a prefix of what was sent', () => `${where}: unified events`)
        }
        delivered += f.length
        count(`${kind} faults`)
        if (f.length > 0) count('prefix delivered')
        if (at > 0) count('faults in later steps')
        if (m.steps[at].turn.calls.length > 0 && pos >= n - 1) count('faults after tool calls were sent')
        sigs.push([pos, f.length, tr.streams.text.items.length])
        if (v.list.length > 0) break
      }
      return { nontrivial: delivered > 0, sample: { at, fault: short(fault.payload ?? fault.error), kind, positions: n + 1, turns: m.steps.map(s => s.turn.calls.length) }, signature: [kind, seedState, sigs], violations: v.list }
    }

    const g = new Rng(`s:${seedState}`)
    const src = kind === 'speech' ? genSpeech(g) : kind === 'transcription' ? genTranscript(g) : genObjectSession(g, api.zod.z)
    const payloads = kind === 'object' ? src.payloads(new Rng(`e:${seedState}`)) : src.payloads
    const n = payloads.length
    for (const pos of positionsOf(n)) {
      const where = `${kind} position ${pos}/${n}`
      const d = rng.fork(`d${pos}`)
      const world = new World(d)
      const list = fault.kind === 'cut' ? payloads : [...payloads.slice(0, pos), fault.payload, ...payloads.slice(pos)]
      const chunks = cutBytes(d, encodeSSE(d, list, { done: d.bool() }))
      world.handler = () => ({ ...delivery(d), chunks, cutAt: fault.kind === 'cut' ? Math.min(chunks.length, Math.round(pos * chunks.length / (n || 1))) : undefined, cutError: fault.error, status: 200 })
      const common = { baseURL: 'https://a.test/v1/', fetch: world.fetch, model: 'm' }
      let streams
      let promises
      if (kind === 'speech') {
        const r = await api.streamSpeech.streamSpeech({ ...common, input: 'x', voice: 'v' })
        streams = [collect(world, r.fullStream, { name: 'audio' })]
        // usage reported before the fault may stand
        const reported = fault.kind !== 'cut' && payloads.slice(0, pos).some(p => p.type === 'speech.audio.done' && p.usage != null)
        promises = reported || fault.kind === 'cut' ? {} : { usage: r.usage }
        r.usage.catch(() => {})
      }
      else if (kind === 'transcription') {
        const r = api.streamTranscription.streamTranscription({ ...common, file: new Blob(['x']), fileName: 'x' })
        streams = [collect(world, r.fullStream, { name: 'full' }), collect(world, r.textStream, { name: 'text' })]
        promises = { text: r.text }
      }
      else {
        const r = await api.streamObject.streamObject({ ...common, messages: [], output: src.output, schema: src.schema })
        streams = [collect(world, r.textStream, { name: 'text' }), collect(world, r.elementStream ?? r.partialObjectStream, { name: 'objects' }), collect(world, r.fullStream, { name: 'full' })]
        promises = { messages: r.messages, steps: r.steps }
      }
      const settledP = {}
      const w = await settleOrHang(world, Promise.all([...streams.map(s => s.done), ...Object.entries(promises).map(async ([k, p]) => p.then((value) => { settledP[k] = { value } }, (reason) => { settledP[k] = { reason } }))]))
      if (!v.check(w.status !== 'hang', 'everything settles', where)) break
      for (const s of streams) {
        v.check(s.end === 'errored', 'every open stream errors', () => `${where}: ${s.name} ${s.end}`)
        judgeError(v, api, fault, s.error, `${where} ${s.name}`)
      }
      for (const k of Object.keys(promises)) {
        v.check(settledP[k] && 'reason' in settledP[k], 'every promise rejects', () => `${where}: ${k}`)
        judgeError(v, api, fault, settledP[k]?.reason, `${where} ${k}`)
      }
      const sentOk = fault.kind === 'cut' ? payloads : payloads.slice(0, pos)
      if (kind === 'speech') {
        const want = sentOk.filter(p => p.audio !== undefined).map(p => p.audio)
        const got = streams[0].items.map(b => Buffer.from(b).toString('base64'))
        v.check(!jdiff(got, want.slice(0, got.length)), 'what was delivered is a prefix of what was sent', where)
      }
      else if (kind === 'transcription') {
        const want = sentOk.filter(p => p.type === 'transcript.text.delta').map(p => p.delta)
        v.check(!jdiff(streams[1].items, want.slice(0, streams[1].items.length)), 'what was delivered is a prefix of what was sent', where)
      }
      else {
        v.check(src.text.startsWith(streams[0].items.join('')), 'what was delivered is a prefix of what was sent', where)
        if (src.output === 'array') v.check(!jdiff(streams[1].items, src.value.elements.slice(0, streams[1].items.length)), 'what was delivered is a prefix of what was sent', () => `${where}: elements ${short(streams[1].items)}`)
      }
      delivered += streams.reduce((a, s) => a + s.items.length, 0)
      count(`${kind} faults`)
      sigs.push([pos, streams.map(s => s.items.length)])
      if (v.list.length > 0) break
    }
    return { nontrivial: delivered > 0, sample: { fault: short(fault.payload ?? fault.error), kind, positions: n + 1 }, signature: [kind, seedState, sigs], violations: v.list }
  },
}
