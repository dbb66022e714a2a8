import { oddThrown } from '../lib/fixtures.mjs'
import { AsyncLocalStorage } from 'node:async_hooks'

import { genChat, modelChat, playTurns, runChat, turnAt, turnAsJSON } from '../lib/chat.mjs'
import { drive, ENDPOINTS } from '../lib/endpoints.mjs'
import { deepEqual, diff, jview, short, Violations } from '../lib/util.mjs'
import { immediate, World } from '../lib/world.mjs'
import { atMoment } from './P08.mjs'
import { withTracer } from './P25.mjs'

const ERROR = 2
// one for all cases: every one ever used costs time on every promise
const store = new AsyncLocalStorage()

/** watches every span from start to end, and whether anything happens to it afterwards */
class Recorder {
  constructor(store) {
    this.store = store
    this.spans = []
  }

  forceFlush() { return Promise.resolve() }
  onEnd(span) {
    const rec = this.spans.find(r => r.span === span)
    if (rec) rec.exported++
  }

  onStart(span) {
    const session = this.store.getStore()
    const rec = { ends: 0, exported: 0, late: [], name: span.name, session, span }
    this.spans.push(rec)
    rec.startedAt = session?.world.log.length
    session?.world.note('span-start', span.name)
    const { end } = span
    span.end = (...a) => {
      rec.ends++
      rec.endedAt = session?.world.log.length
      session?.world.note('span-end', span.name)
      return end.apply(span, a)
    }
    for (const k of ['setAttribute', 'setAttributes', 'setStatus', 'recordException', 'addEvent', 'updateName']) {
      const f = span[k]
      span[k] = (...a) => {
        if (rec.ends > 0) rec.late.push(k)
        return f.apply(span, a)
      }
    }
  }

  shutdown() { return Promise.resolve() }
}

const portOf = url => Number(new URL(url).port || (url.startsWith('https') ? 443 : 80))
const parse = (text) => {
  try { return JSON.parse(text) }
  catch { return `not JSON: ${text}` }
}

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 3000, thorough: 140000 },
  id: 'P26',
  mustObserve: ['step spans', 'tool spans', 'embedding spans', 'failed steps', 'failed tools', 'failed embeddings', 'parallel tool spans', 'sessions side by side', 'spans of aborted steps', 'completed step spans', 'several steps', 'nested tool spans'],
  rule: 'Seeded sessions of the telemetry functions (parallel tools, throwing tools, hooks, faults, aborts, throwing callbacks; alone or side by side) under a recording span processor that counts ends, watches for writes after the end, and orders spans against the requests, tool executions and step ends; attributes are compared with what was sent, received and executed. Non-trivial: a span was seen; distinct by session, ending and spans.',
  technique: 'runtime monitoring: span life-cycle monitor (instrumented span processor) with an oracle over the session log',
  async run({ api, count, rng }) {
    const v = new Violations()
    const recorder = new Recorder(store)
    const tracer = rng.pick(['basic', 'node'])

    if (rng.bool(0.2)) {
      const name = rng.pick(['embed', 'embedMany'])
      const ep = ENDPOINTS[name]
      const n = rng.int(1, 3)
      const calls = await Promise.all(Array.from({ length: n }, async (_, i) => {
        const g = await ep.gen(rng, api)
        const ending = rng.weighted([[4, 'ok'], [1, 'no usage'], [1, 'http'], [1, 'network'], [1, 'badjson'], [1, 'abort']])
        const tokens = rng.int(0, 1000)
        const count_ = g.opts.input?.length ?? 1
        const body = { data: Array.from({ length: name === 'embed' ? 1 : count_ }, (_, k) => ({ embedding: [k], index: k })), ...(ending !== 'no usage' && { usage: { prompt_tokens: tokens, total_tokens: tokens } }) }
        const boom = rng.pick([() => new TypeError(`network ${i}`), () => 'raw', () => new DOMException('This operation was aborted', 'AbortError')])()
        return { attributes: rng.pick([undefined, { 'app.n': i, 'x': [true] }]), boom, ending, g, i, model: `e-${rng.ident(4)}${i}`, plan: ending === 'http' ? { status: 429, text: 'slow down' } : ending === 'network' ? { networkError: boom } : ending === 'badjson' ? { status: 200, text: '{"a' } : { latency: rng.int(0, 5), status: 200, text: JSON.stringify(body) }, tokens }
      }))
      const baseURL = rng.pick(['https://a.test/v1', 'http://a.test:8080/', 'http://a.test', 'https://a.test:9443/v1', 'http://a.test:81/v1', 'https://a.test:80/', 'http://a.test:443/v1', 'https://a.test:65535/v1'])
      await withTracer(api, tracer, [recorder], () => Promise.all(calls.map(async (c) => {
        const world = new World(rng)
        c.world = world
        world.handler = () => c.plan
        const ac = new AbortController()
        if (c.ending === 'abort') atMoment(world, rng.int(1, 3), () => ac.abort(c.boom))
        c.out = await store.run(c, () => drive(api, world, { call: (_a, o) => ({ promises: { result: api.telemetry[name](o) }, streams: {} }) }, { ...c.g.opts, abortSignal: ac.signal, baseURL, fetch: world.fetch, model: c.model, ...(c.attributes && { telemetry: { attributes: c.attributes } }) }))
        c.spans = recorder.spans.filter(s => s.session === c)
        c.endedAtSettlement = c.spans.every(s => s.ends === 1)
      })))
      for (const c of calls) {
        const where = `${name} ${c.ending}`
        if (!v.check(!c.out.hang, 'the call settles', where)) continue
        if (!v.check(c.spans.length === 1 && c.spans[0].name === `embeddings ${c.model}`, 'one span per embedding call', () => `${where}: ${c.spans.map(s => s.name)}`)) continue
        v.check(c.endedAtSettlement, 'a span is ended once, by the time the call settles', where)
        lifeCycle(v, c.spans[0], where)
        const p = c.out.promises.result
        outcomeOf(v, c.spans[0].span, p.status === 'rejected', p.reason, where)
        attribute(v, c.spans[0].span, { 'gen_ai.operation.name': 'embeddings', 'gen_ai.request.model': c.model, 'server.address': 'a.test', 'server.port': portOf(baseURL), ...c.attributes, ...(c.ending === 'ok' && p.status === 'fulfilled' && { 'gen_ai.usage.input_tokens': c.tokens }) }, where)
        const body = c.world.log.findIndex(e => e[0] === 'body-end')
        v.check(body < 0 || c.spans[0].endedAt > body, 'a span ends after the work it covers', where)
        count('embedding spans')
        if (p.status === 'rejected') count('failed embeddings')
      }
      return { nontrivial: true, sample: { endings: calls.map(c => c.ending), name }, signature: [name, calls.map(c => [c.ending, c.tokens])], violations: v.list }
    }

    const sessions = Array.from({ length: rng.weighted([[3, 1], [1, 2], [0.5, 3]]) }, (_, index) => session(api, rng, index))
    if (sessions.length > 1) count('sessions side by side', sessions.length)
    await withTracer(api, tracer, [recorder], () => Promise.all(sessions.map(async (s) => {
      s.tr = await store.run(s, () => s.run())
      s.spans = recorder.spans.filter(x => x.session === s)
      // a call that fails because of one tool does not wait for the others
      s.unended = s.spans.filter(x => x.ends === 0 && !(s.ending === 'hook' && x.name.startsWith('execute_tool'))).map(x => x.name)
      if (s.ending === 'hook') for (let i = 0; i < 60; i++) await immediate()
      for (let i = 0; i < 200 && recorder.spans.some(x => x.session === s && x.ends === 0); i++) await immediate()
      s.spans = recorder.spans.filter(x => x.session === s)
    })))
    v.check(recorder.spans.every(x => x.session), 'spans belong to their session', () => short(recorder.spans.filter(x => !x.session).map(x => x.name)))
    for (const s of sessions) judge(v, s, { count, nested: tracer === 'node' })
    return { nontrivial: sessions.some(s => s.spans.length > 0), sample: { sessions: sessions.map(s => [s.name, s.ending, s.which, s.spans.map(x => x.name)]) }, signature: sessions.map(s => [s.name, s.ending, s.which, s.moment, s.spans.map(x => [x.name, x.span.status.code]), s.world.log.filter(e => e[0] !== 'chunk')]), violations: v.list }
  },
}

const session = (api, rng, index) => {
  const stream = rng.bool()
  const sc = genChat(rng, { errors: 0.3, hookP: 0.35, maxCalls: 3, prepareP: 0.3, stop: rng.pick(['long', 'random', 'default']), scale: true, toolP: 0.85, turns: rng.int(1, 4) })
  sc.model = `${sc.model}-${index}`
  let ending = rng.weighted([[6, 'ok'], [3, 'fault'], [2, 'callback'], [2, 'abort'], [1, 'hook']])
  const callback = rng.pick(['onStepFinish', 'prepareStep', 'stopWhen', ...(stream ? ['onEvent', 'onFinish'] : [])])
  // the failing stop condition replaces the scripted one
  if (ending === 'callback' && callback === 'stopWhen') sc.stop = { k: 'count', n: 50 }
  const m = modelChat(sc, { stream })
  const at = rng.int(0, m.steps.length - 1)
  let boom = rng.pick([() => new TypeError('boom'), () => new RangeError(''), () => 'boom', () => ({ odd: 1 }), () => new DOMException('This operation was aborted', 'AbortError'), () => new DOMException('too slow', 'TimeoutError')])()
  // anything can be thrown
  if (['callback', 'fault'].includes(ending) && rng.bool(0.12)) boom = oddThrown(rng)
  let faults = {}
  let which
  if (ending === 'fault') {
    which = rng.pick(['http', 'network', 'nobody', ...(stream ? ['cut', 'badchunk', 'error'] : ['badjson'])])
    const pos = rng.int(0, 9)
    faults = { [at]: which === 'http' ? { body: 'no', kind: 'http', status: 500 } : which === 'network' ? { error: boom, kind: 'network' } : which === 'nobody' ? { kind: 'nobody' } : which === 'badjson' ? { kind: 'badjson', text: '{"x' } : which === 'cut' ? { cutAt: len => Math.min(len - 1, pos), error: boom, kind: 'cut' } : { at: n => Math.min(n, pos), kind: 'badchunk', payload: which === 'error' ? { error: { message: 'x' } } : '{"broken' } }
  }
  if (ending === 'hook') {
    const plan = sc.plans[`${at}:${turnAt(sc, at).calls[0]?.id}`]
    if (!plan) ending = 'ok'
    else {
      which = rng.pick(['pre', 'post'])
      sc.hooks[which] = true
      plan[which] = { delay: rng.int(-2, 2), kind: 'otherId', sync: rng.bool() }
    }
  }
  if (ending === 'callback') which = callback
  const moment = ending === 'abort' || which === 'onEvent' ? rng.heavy(1, 16) : which === 'onFinish' ? 1 : rng.int(1, 3)
  const kinds = rng.pick([['chunk'], ['request'], ['response'], ['body-end'], ['step-finish'], ['prepare'], ['exec'], ['exec-end'], undefined])
  const attributes = rng.pick([undefined, {}, { 'app.session': index, 'flag': false }, { 'list': ['a', 'b'], 'n': 1.5, 'app.user': 'ü' }])
  const world = new World(rng)
  const s = { attributes, boom, ending, kinds, m, moment, name: stream ? 'streamText' : 'generateText', sc, stream, which, world }
  s.run = () => {
    const extra = { telemetry: rng.pick([{ attributes }, attributes === undefined ? undefined : { attributes }]) }
    if (attributes !== undefined) extra.telemetry = { attributes }
    let n = 0
    const raise = () => {
      if (++n === moment) throw boom
    }
    if (ending === 'callback') {
      if (which === 'prepareStep') extra.prepareStep = () => (raise(), {})
      else if (which === 'stopWhen') extra.stopWhen = () => (raise(), false)
      else extra[which] = raise
    }
    if (ending === 'abort') {
      const ac = new AbortController()
      extra.abortSignal = ac.signal
      atMoment(world, moment, () => ac.abort(boom), kinds)
    }
    return runChat(api, sc, rng, { extra, faults, fn: api.telemetry[s.name], stream, world })
  }
  return s
}

const lifeCycle = (v, rec, where) => {
  v.check(rec.ends === 1, 'a span is ended exactly once', () => `${where}: ${rec.name} ended ${rec.ends} times`)
  v.check(rec.exported === 1, 'a span is exported exactly once', () => `${where}: ${rec.name} ${rec.exported}`)
  v.check(rec.late.length === 0, 'nothing is written to a span after its end', () => `${where}: ${rec.name} ${rec.late}`)
}

const outcomeOf = (v, span, failed, error, where) => {
  if (!failed) {
    v.check(span.status.code !== ERROR && span.attributes['error.type'] === undefined && span.attributes['error.message'] === undefined && !span.events.some(e => e.name === 'exception'), 'a success is not marked as an error', () => `${where}: ${span.name} ${short(span.status)}`)
    return
  }
  v.check(span.status.code === ERROR, 'a failure marks its span', () => `${where}: ${span.name} ${short(span.status)} ${short(error)}`)
  if (error instanceof Error) {
    v.check(span.attributes['error.type'] === error.name && span.attributes['error.message'] === error.message, 'a failed span names the error', () => `${where}: ${span.name} ${span.attributes['error.type']} ${span.attributes['error.message']}, expected ${error.name} ${error.message}`)
    v.check(!span.status.message || span.status.message === error.message, 'the status of a failed span tells its error', () => `${where}: ${span.name} ${span.status.message}, expected ${error.message}`)
    for (const e of span.events.filter(e => e.name === 'exception'))
      v.check(e.attributes?.['exception.message'] === undefined || e.attributes['exception.message'] === error.message, 'an exception recorded on a span is its error', () => `${where}: ${span.name} ${short(e.attributes)}, expected ${error.message}`)
  }
}

const attribute = (v, span, want, where) => {
  for (const [k, x] of Object.entries(want)) v.check(deepEqual(jview(span.attributes[k] ?? null), jview(x ?? null)), 'attributes tell the truth', () => `${where}: ${span.name} ${k} = ${short(span.attributes[k])}, expected ${short(x)}`)
}

const judge = (v, s, { count, nested }) => {
  const { sc, stream, tr, world } = s
  const where = `${s.name} ${s.ending} ${s.which ?? ''} moment ${s.moment} ${s.kinds ?? ''}`
  if (!v.check(!tr.hang, 'the session settles', where)) return
  v.check(s.unended.length === 0, 'every span is ended by the time the call settles', () => `${where}: ${s.unended}`)
  for (const r of s.spans) lifeCycle(v, r, where)
  const isStep = r => r.span.attributes['gen_ai.operation.name'] === 'chat'
  const steps = s.spans.filter(isStep)
  const tools = s.spans.filter(r => r.name.startsWith('execute_tool '))
  v.check(steps.length + tools.length === s.spans.length, 'every span is a step or a tool', () => `${where}: ${s.spans.map(r => r.name)}`)
  if (!v.check(steps.length === world.requests.length, 'one span per request step', () => `${where}: ${steps.length} spans, ${world.requests.length} requests`)) return
  if (steps.length > 1) count('several steps')
  count('step spans', steps.length)

  // which step failed, if any
  const outside = s.ending === 'callback' && ['onFinish', 'prepareStep'].includes(s.which)
  const failedAt = !tr.ok && !outside ? steps.length - 1 : -1
  const assistants = tr.messages?.filter(x => x.role === 'assistant') ?? []
  const given = sc.messages.filter(x => x.role === 'assistant').length
  const log = world.log
  const at = (kind, data) => log.findIndex(e => e[0] === kind && (data === undefined || e[1] === data))
  steps.forEach((r, t) => {
    const { span } = r
    const req = world.requests[t]
    outcomeOf(v, span, t === failedAt, tr.error, where)
    if (t === failedAt) count(s.ending === 'abort' ? 'spans of aborted steps' : 'failed steps')
    v.check(r.name === `chat ${req.json.model}`, 'a step span is named after its model', () => `${where}: ${r.name}, ${req.json.model}`)
    attribute(v, span, { 'gen_ai.operation.name': 'chat', 'gen_ai.request.model': req.json.model, 'server.address': 'llm.test', 'server.port': portOf(sc.baseURL), ...(sc.params.stop != null && { 'gen_ai.request.stop_sequences': [sc.params.stop].flat() }), ...(sc.params.topK != null && { 'gen_ai.request.top_k': sc.params.topK }), ...s.attributes }, where)
    // what a span says of the request is true of this request
    v.check([undefined, req.json.model, 'm'].includes(span.attributes['gen_ai.response.model']), 'a span names no other model', () => `${where} step ${t}: ${span.attributes['gen_ai.response.model']}, expected ${req.json.model}`)
    if (sc.params.stop == null) v.check(span.attributes['gen_ai.request.stop_sequences'] === undefined, 'a span names no stop sequence that was not given', () => `${where} step ${t}: ${short(span.attributes['gen_ai.request.stop_sequences'])}`)
    const input = parse(span.attributes['gen_ai.input.messages'])
    if (!deepEqual(input, req.json.messages)) v.add('a step span holds the messages sent', `${where} step ${t}: ${diff(input, req.json.messages)}`)
    if (sc.toolsGiven) {
      const defs = parse(span.attributes['gen_ai.tool.definitions'])
      if (!deepEqual(defs, req.json.tools)) v.add('a step span holds the tools offered', `${where} step ${t}: ${diff(defs, req.json.tools)}`)
    }
    for (const [k, a] of [['temperature', 'temperature'], ['topP', 'top_p'], ['seed', 'seed'], ['frequencyPenalty', 'frequency_penalty'], ['presencePenalty', 'presence_penalty']]) if (sc.params[k] != null) attribute(v, span, { [`gen_ai.request.${a}`]: sc.params[k] }, where)
    // the work it covers
    const asked = at('request', t)
    const answered = at('body-end', t)
    v.check(r.startedAt <= asked && r.endedAt > asked && (t === failedAt || r.endedAt > answered), 'a step span covers its request', () => `${where} step ${t}: ${r.startedAt}-${r.endedAt}, request ${asked}-${answered}`)
    if (t + 1 < world.requests.length) v.check(r.endedAt < at('request', t + 1), 'a step span ends before the next step', () => `${where} step ${t}`)
    if (t === failedAt) {
      const done = span.attributes['gen_ai.response.finish_reasons']
      if (done !== undefined) v.check(s.ending === 'callback' || s.ending === 'hook' || s.ending === 'abort', 'a failed step does not claim to have finished', () => `${where} step ${t}: ${done}`)
      return
    }
    const model = s.m.steps[t]
    const turn = turnAt(sc, t)
    count('completed step spans')
    const out = parse(span.attributes['gen_ai.output.messages'])
    const want = stream
      ? { content: turn.text ?? '', role: 'assistant', ...(turn.reasoning !== undefined && { [turn.reasoningField]: turn.reasoning }), ...(turn.calls.length > 0 && { tool_calls: turn.calls.map(c => ({ function: { arguments: c.args, name: c.name }, id: c.id, type: 'function' })) }) }
      : jview(turnAsJSON(null, turn).choices[0].message)
    if (tr.ok) {
      if (!deepEqual(out, jview([assistants[given + t]]))) v.add('a step span holds the message received', `${where} step ${t}: ${diff(out, jview([assistants[given + t]]))}`)
    }
    v.check(Array.isArray(out) && out.length === 1 && (out[0].content ?? null) === (want.content ?? null) || !stream || Array.isArray(want.content), 'a step span holds the text received', () => `${where} step ${t}: ${short(out)}`)
    v.check((out[0]?.tool_calls ?? []).map(c => c.id).join() === turn.calls.map(c => c.id).join(), 'a step span holds the calls received', () => `${where} step ${t}: ${short(out)}`)
    attribute(v, span, { 'gen_ai.response.finish_reasons': [model.finishReason], 'gen_ai.usage.input_tokens': model.usage?.inputTokens, 'gen_ai.usage.output_tokens': model.usage?.outputTokens }, `${where} step ${t}`)
  })

  // tools
  if (!v.check(tools.length === tr.rec.exec.length, 'one span per tool execution', () => `${where}: ${tools.length} spans, ${tr.rec.exec.length} executions`)) return
  count('tool spans', tools.length)
  const left = [...tools]
  for (const e of tr.rec.exec) {
    const owner = steps[e.t]
    const i = left.findIndex(r => r.span.attributes['gen_ai.tool.call.id'] === e.id && r.startedAt > at('request', e.t) && (e.t + 1 >= world.requests.length || r.startedAt < at('request', e.t + 1)))
    if (!v.check(i >= 0, 'a tool span names its call', () => `${where}: ${e.t}:${e.id} among ${left.map(r => r.span.attributes['gen_ai.tool.call.id'])}`)) continue
    const [r] = left.splice(i, 1)
    const { span } = r
    const plan = sc.plans[`${e.t}:${e.id}`]
    const tool = sc.tools.find(x => x.name === e.name)
    attribute(v, span, { 'gen_ai.operation.name': 'execute_tool', 'gen_ai.tool.call.description': tool.description, 'gen_ai.tool.call.name': e.name }, where)
    v.check(r.name === `execute_tool ${e.name}`, 'a tool span is named after its tool', () => `${where}: ${r.name}`)
    v.check(deepEqual(parse(span.attributes['gen_ai.tool.call.arguments'] ?? 'null'), jview(e.input ?? null)), 'a tool span holds the arguments', () => `${where}: ${span.attributes['gen_ai.tool.call.arguments']}, ${short(e.input)}`)
    const failed = plan.outcome.kind.startsWith('throw')
    if (failed) count('failed tools')
    outcomeOf(v, span, failed, plan.outcome.kind === 'throwOdd' ? plan.outcome.raw : plan.outcome.kind === 'throwValue' ? plan.outcome.message : Object.assign(new Error(plan.outcome.message)), where)
    if (failed) v.check(span.attributes['gen_ai.tool.call.result'] === undefined, 'a failed tool has no result', () => `${where}: ${span.attributes['gen_ai.tool.call.result']}`)
    else v.check(deepEqual(parse(span.attributes['gen_ai.tool.call.result'] ?? 'null'), jview(plan.outcome.value ?? null)), 'a tool span holds the result', () => `${where}: ${span.attributes['gen_ai.tool.call.result']}, ${short(plan.outcome.value)}`)
    const begun = log.findIndex((x, k) => k >= r.startedAt && x[0] === 'exec' && x[1] === `${e.t}:${e.id}`)
    const over = log.findIndex((x, k) => k >= r.startedAt && x[0] === 'exec-end' && x[1] === `${e.t}:${e.id}`)
    v.check(begun >= 0 && over >= 0 && r.endedAt > over, 'a tool span covers the execution', () => `${where}: ${r.startedAt}-${r.endedAt}, execution ${begun}-${over}`)
    const crashed = s.ending === 'hook' || s.ending === 'abort'
    if (!crashed) v.check(r.endedAt < owner.endedAt, 'a step span covers its tools', () => `${where}: tool until ${r.endedAt}, step until ${owner.endedAt}`)
    if (nested) {
      count('nested tool spans')
      const parent = span.parentSpanContext?.spanId ?? span.parentSpanId
      v.check(parent === owner.span.spanContext().spanId, 'a tool span belongs to its step', () => `${where}: ${parent}`)
    }
  }
  if (tr.rec.exec.some((e, i, all) => all.some((f, j) => j !== i && f.t === e.t))) count('parallel tool spans')
}
