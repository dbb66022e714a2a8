import { genChat, modelChat, playTurns, runChat, turnAt } from '../lib/chat.mjs'
import { drive, ENDPOINTS } from '../lib/endpoints.mjs'
import { Rng } from '../lib/rng.mjs'
import { deepEqual, diff, jview, short, Violations } from '../lib/util.mjs'
import { immediate, tick, World } from '../lib/world.mjs'
import { atMoment } from './P08.mjs'

/** an error as a caller can tell it from others */
// the words of the engine depend on how an expression is written, what they stand for does not
const words = (e) => e.name === 'TypeError' && /^Cannot (?:convert|destructure|read|set|use)\b|\bis not (?:a constructor|a function|an object|iterable)\b/.test(e.message) ? '(of the engine)' : e.message
export const errorView = (e) => {
  if (!(e instanceof Error)) return { thrown: e === undefined ? '(undefined)' : e }
  const { cause, response, responseHeaders, stack, ...rest } = e
  return { ...jview(rest), cause: cause instanceof Error ? `${cause.name}: ${words(cause)}` : jview(cause ?? null), class: e.constructor.name, message: words(e), name: e.name }
}
const requestView = r => ({ aborted: r.abortedAtCall, headers: r.headers, method: r.method, text: r.text, url: r.url })
const settledView = p => p === undefined ? undefined : p.status === 'fulfilled' ? { value: jview(p.value ?? null) } : { error: errorView(p.reason) }

export const sessionView = (tr, { consume, failed }) => ({
  error: tr.ok ? undefined : errorView(tr.error),
  events: jview(tr.rec.events),
  exec: tr.rec.exec.map(({ id, input, messages, name, opts, t }) => ({ id, input: jview(input ?? null), messages, name, options: Object.keys(opts).sort(), signal: opts.abortSignal === undefined ? 'none' : opts.abortSignal === tr.options.abortSignal ? 'given' : 'other', t, toolCallId: opts.toolCallId })).sort((a, b) => a.t - b.t || (a.id < b.id ? -1 : a.id > b.id ? 1 : 0)),
  contexts: tr.rec.contexts,
  finish: jview(tr.rec.finish),
  given: jview({ messages: tr.options.messages, tools: tr.options.tools ?? null }),
  ok: tr.ok,
  post: jview(tr.rec.post).sort(byId),
  pre: jview(tr.rec.pre).sort(byId),
  prepare: tr.rec.prepare,
  requests: tr.world.requests.map(requestView),
  result: tr.result && tr.ok && !tr.settled ? jview(tr.result) : undefined,
  resultKeys: tr.result ? Object.keys(tr.result).sort() : undefined,
  settled: tr.settled && Object.fromEntries(Object.entries(tr.settled).sort().map(([k, p]) => [k, settledView(p)])),
  stepFinish: jview(tr.rec.stepFinish),
  streams: tr.streams && Object.fromEntries(Object.entries(tr.streams).sort().map(([k, s]) => [k, failed ? (typeof consume[k] === 'number' ? 'left' : s.end) : { end: s.end, items: jview(s.items) }])),
  syncError: tr.syncError && errorView(tr.syncError),
  validated: jview(tr.rec.validated).map(x => JSON.stringify(x)).sort(),
})
const byId = (a, b) => a.t - b.t || (a.id < b.id ? -1 : a.id > b.id ? 1 : 0)

const telemetryOption = rng => rng.pick([{}, { telemetry: undefined }, { telemetry: {} }, { telemetry: { attributes: { 'app.user': 'u', 'n': 1, 'flag': false } } }, { telemetry: { attributes: { 'gen_ai.request.model': 'renamed' } } }])

const blurFailures = x => typeof x === 'string'
  ? /^Tool ".*" execution failed: /s.test(x) ? 'Tool execution failed' : x
  : Array.isArray(x)
    ? x.map(blurFailures)
    : x !== null && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, y]) => [k, blurFailures(y)])) : x

/** a tracer that may be registered or not while the telemetry variant runs */
export const withTracer = async (api, mode, processors, f) => {
  if (mode === 'none') return f()
  const { NodeTracerProvider } = api.otelNode
  const { BasicTracerProvider } = api.otelBase
  const provider = mode === 'node' ? new NodeTracerProvider({ spanProcessors: processors }) : new BasicTracerProvider({ spanProcessors: processors })
  if (mode === 'node') provider.register()
  else api.otelApi.trace.setGlobalTracerProvider(provider)
  try { return await f() }
  finally {
    api.otelApi.trace.disable()
    api.otelApi.context.disable()
    api.otelApi.propagation.disable()
    await provider.shutdown()
  }
}

/** tools as instances of a class, with their functions on the prototype */
const asClass = tools => tools?.map((t) => {
  class Tool {
    #secret = t
    constructor() {
      this.function = t.function
      this.type = 'function'
    }

    get secret() { return this.#secret }
    async execute(input, o) { return this.#secret.execute(input, o) }
  }
  if (t.validate) Tool.prototype.validate = function (input) { return this.secret.validate(input) }
  return new Tool()
})

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 2500, thorough: 120000 },
  id: 'P25',
  mustObserve: ['streamed sessions', 'generated sessions', 'embeddings', 'failing sessions', 'aborted sessions', 'callback failures', 'without a tracer', 'with a tracer', 'tools as class instances', 'tools with validators', 'hooks', 'several steps', 'answers without usage', 'edited while running', 'content given as parts', 'sessions side by side'],
  rule: 'The same seeded session (steps, tools, validators, hooks, preparation, faults, aborts, throwing callbacks, consumption) is played once through the plain function and once through its telemetry variant, with the same provider timing; everything observable is compared. Non-trivial: both ran; distinct by session and ending.',
  technique: 'runtime monitoring: differential trace comparison of the plain and the instrumented functions',
  async run({ api, count, rng }) {
    const v = new Violations()
    const tracer = rng.pick(['none', 'basic', 'node', 'node'])
    const { BatchSpanProcessor, InMemorySpanExporter, NoopSpanProcessor, SimpleSpanProcessor } = api.otelBase
    const processors = () => rng.pick([() => [], () => [new SimpleSpanProcessor(new InMemorySpanExporter())], () => [new NoopSpanProcessor(), new BatchSpanProcessor(new InMemorySpanExporter())]])()
    count(tracer === 'none' ? 'without a tracer' : 'with a tracer')
    const tele = telemetryOption(rng)
    const seed = `s${rng.int(0, 1e9)}`

    if (rng.bool(0.2)) {
      const name = rng.pick(['embed', 'embedMany'])
      const ep = ENDPOINTS[name]
      const g = await ep.gen(rng, api)
      const ending = rng.weighted([[5, 'ok'], [2, 'no usage'], [1, 'null usage'], [1, 'http'], [1, 'network'], [1, 'badjson'], [1, 'nobody'], [1, 'abort'], [1, 'other shape']])
      const boom = rng.bool(0.9) ? new Error('network') : 'odd' // also a reason for aborting
      const good = g.answer(new Rng(seed))
      const answer = ending === 'http' ? { status: 429, text: 'slow down' } : ending === 'network' ? { networkError: boom } : ending === 'badjson' ? { status: 200, text: '{"a' } : ending === 'nobody' ? { noBody: true, status: 200 } : ending === 'other shape' ? { status: 200, text: rng.pick(['null', '[]', '{}', '{"data":[]}']) } : good
      if (ending.endsWith(' usage')) {
        const bytes = Buffer.concat((good.chunks ?? [good.bytes ?? Buffer.from(good.text)]).map(x => Buffer.from(x)))
        const body = JSON.parse(bytes.toString())
        if (ending === 'no usage') delete body.usage
        else body.usage = null
        Object.assign(answer, { bytes: undefined, chunks: [Buffer.from(JSON.stringify(body))], text: undefined })
        count('answers without usage')
      }
      const extra = { ...(rng.bool(0.3) && { dimensions: rng.pick([3, undefined, null, 0]) }), ...(rng.bool(0.3) && { customThing: { a: [1] } }), apiKey: rng.pick([undefined, 'k']), headers: rng.pick([undefined, { a: 'b' }]) }
      const baseURL = rng.pick(['https://a.test/v1', 'http://a.test:8080/', new URL('https://a.test/x')])
      const go = async (call, more) => {
        const world = new World(new Rng(seed))
        world.handler = () => answer
        const ac = new AbortController()
        if (ending === 'abort') atMoment(world, 2, () => ac.abort(boom))
        const out = await drive(api, world, { call: (_a, o) => ({ promises: { result: call(o) }, streams: {} }) }, { ...g.opts, ...extra, ...more, ...(ending === 'abort' && { abortSignal: ac.signal }), baseURL, fetch: world.fetch })
        return { out, view: { requests: world.requests.map(requestView), result: settledView(out.promises.result) } }
      }
      const plain = await go(api.embed[name], {})
      const observed = await withTracer(api, tracer, processors(), () => go(api.telemetry[name], tele))
      v.check(!plain.out.hang && !observed.out.hang, 'both calls settle', `${name} ${ending}`)
      const d = diff(observed.view, plain.view)
      if (d) v.add('an embedding with telemetry is an embedding', `${name} ${ending} tracer ${tracer}: ${d}`)
      if (ending === 'ok') v.check(plain.out.promises.result.status === 'fulfilled', 'embedding works', () => short(plain.out.promises))
      count('embeddings')
      return { nontrivial: true, sample: { ending, name, tracer }, signature: [name, ending, tracer, plain.view], violations: v.list }
    }

    const stream = rng.bool()
    const sc = genChat(rng, { errors: 0.25, hookP: 0.4, maxCalls: 3, prepareP: 0.3, stop: rng.pick(['long', 'random', 'default']), scale: true, toolP: 0.8, turns: rng.int(1, 4) })
    const m = modelChat(sc, { stream })
    if (!stream) {
      for (const turn of sc.turns) {
        if (!rng.bool(0.1)) continue
        turn.partsContent = Array.from({ length: rng.int(0, 3) }, () => rng.bool(0.7) ? { text: rng.text(20), type: 'text' } : { refusal: rng.text(5), type: 'refusal' })
        count('content given as parts')
      }
    }
    const at = rng.int(0, m.steps.length - 1)
    let ending = rng.weighted([[6, 'ok'], [3, 'fault'], [2, 'callback'], [2, 'abort'], [1, 'hook']])
    const boom = rng.pick([() => new TypeError('boom'), () => 'boom', () => ({ odd: 1 }), () => new DOMException('This operation was aborted', 'AbortError'), () => 0, () => ''])()
    let faults = {}
    let which
    if (ending === 'fault') {
      which = rng.pick(['http', 'network', 'nobody', 'malformed', ...(stream ? ['cut', 'badchunk', 'error'] : ['shape'])])
      const pos = rng.int(0, 9)
      faults = { [at]: which === 'http' ? { body: 'no', kind: 'http', status: 500 } : which === 'shape' ? { body: rng.pick(['null', '{}', '[]', '"text"', '{"choices":null}', '{"choices":[],"usage":{"prompt_tokens":1}}', '{"error":{"message":"slow down"}}']), kind: 'http', status: 200 } : which === 'network' ? { error: boom, kind: 'network' } : which === 'nobody' ? { kind: 'nobody' } : which === 'cut' ? { cutAt: len => Math.min(len - 1, pos), error: boom, kind: 'cut' } : which === 'malformed' ? (stream ? { at: n => n - 1, kind: 'badchunk', payload: { choices: [{ delta: { tool_calls: [{ function: { arguments: '{}', name: null }, id: 'x', index: 30, type: 'function' }] }, finish_reason: null, index: 0 }] } } : { kind: 'http', status: 418, body: '' }) : { at: n => Math.min(n, pos), kind: 'badchunk', payload: which === 'error' ? { error: { message: 'x' } } : '{"broken' } }
    }
    if (ending === 'hook') {
      const plan = sc.plans[`${at}:${turnAt(sc, at).calls[0]?.id}`]
      if (!plan) ending = 'ok'
      else {
        const k = rng.pick(['pre', 'post'])
        sc.hooks[k] = true
        plan[k] = { delay: rng.int(-2, 2), kind: 'otherId', sync: rng.bool() }
      }
    }
    if (ending === 'callback') which = rng.pick(['onStepFinish', 'prepareStep', 'stopWhen', ...(stream ? ['onEvent', 'onFinish'] : [])])
    const moment = ending === 'abort' || which === 'onEvent' ? rng.heavy(1, 16) : which === 'onFinish' ? 1 : rng.int(1, 3)
    const kinds = rng.pick([['chunk'], ['request'], ['response'], ['body-end'], ['step-finish'], ['prepare'], ['exec'], ['exec-end']])
    const classy = rng.bool(0.25)
    const consume = Object.fromEntries(['event', 'full', 'reasoning', 'text'].map(k => [k, rng.weighted([[5, 'read'], [1, 'ignore'], [1, rng.int(0, 4)]])]))
    const failed = ending !== 'ok'
    // a second thing may go wrong at the end
    const second = stream && ['abort', 'fault', 'hook'].includes(ending) && rng.bool(0.2) ? new RangeError('second') : undefined
    const signalGiven = rng.bool(0.4)
    const lateness = rng.bool() ? rng.int(-3, 3) : 0
    const edited = rng.bool(0.15)

    const go = async (fn, more, salt = '') => {
      const world = new World(new Rng(seed + salt))
      // the provider behaves the same in both plays
      world.handler = (req, i) => playTurns(sc, new Rng(`${seed}:${i}`), { faults, stream })(req, i)
      const extra = { ...more }
      let n = 0
      const raise = () => {
        if (++n === moment) throw boom
      }
      // callbacks that are waited for may fail late
      const late = async () => {
        await tick(lateness)
        raise()
        return {}
      }
      const rec = { events: [], finish: [] }
      if (ending === 'callback') {
        if (which === 'onStepFinish') extra.onStepFinish = lateness && !stream ? late : raise
        if (which === 'prepareStep') extra.prepareStep = lateness ? late : () => (raise(), {})
        if (which === 'stopWhen') extra.stopWhen = () => (raise(), false)
        if (which === 'onFinish') extra.onFinish = lateness ? late : raise
        if (which === 'onEvent') extra.onEvent = (e) => {
          rec.events.push(structuredClone(e))
          raise()
        }
      }
      if (second) extra.onFinish = () => { throw second }
      const ac = new AbortController()
      if (ending === 'abort' || signalGiven) extra.abortSignal = ac.signal
      if (ending === 'abort') {
        atMoment(world, moment, () => ac.abort(boom), kinds)
      }
      let given
      if (edited) {
        // the caller edits what it gave while the call is running
        const note = world.note
        world.note = function (kind, data) {
          note.call(world, kind, data)
          if (kind === 'request' && given) {
            given.messages.push({ content: 'EDIT', role: 'user' })
            given.messages[0].content = 'EDIT'
          }
        }
        count('edited while running')
      }
      const call = o => fn(given = { ...o, ...(classy && o.tools && { tools: asClass(o.tools) }) })
      const tr = await runChat(api, sc, new Rng(`${seed}x${salt}`), { consume, extra, fn: call, keepHandler: true, stream, world })
      // siblings of what failed may still be at work
      for (let i = 0; i < (tr.ok ? 6 : 45); i++) await immediate()
      if (which === 'onEvent' && ending === 'callback') tr.rec.events = rec.events
      return tr
    }
    const name = stream ? 'streamText' : 'generateText'
    const plain = await go(stream ? api.streamText.streamText : api.generateText.generateText, {})
    const twin = rng.bool(0.2)
    const observed = await withTracer(api, tracer, processors(), async () => {
      const [a, b] = await Promise.all([go(api.telemetry[name], tele), twin ? go(api.telemetry[name], tele, 'twin') : undefined])
      if (b) count('sessions side by side')
      return [a, b]
    })
    const where = `${name} ${ending} ${which ?? ''} moment ${moment} at ${at} tracer ${tracer}${classy ? ' class tools' : ''}`
    const want = sessionView(plain, { consume, failed })
    for (const tr of observed) {
      if (!tr) continue
      if (!v.check(!plain.hang && !tr.hang, 'both sessions settle', where)) return { violations: v.list }
      const got = sessionView(tr, { consume, failed })
      // how much of a broken answer gets through is a matter of timing
      let expected = want
      if (stream && !plain.ok && ['abort', 'fault'].includes(ending) && !tr.ok) {
        const n = Math.min(got.events.length, want.events.length)
        got.events = got.events.slice(0, n)
        expected = { ...want, events: want.events.slice(0, n) }
      }
      if (ending === 'hook' && !plain.ok && !tr.ok) {
        // a hook that answers for another call ends the session while its siblings are still at work
        expected = { ...expected }
        for (const view of [got, expected]) {
          for (const k of ['exec', 'post', 'pre']) view[k] = view[k].filter(e => e.t < at)
          view.events = view.events.slice(0, Math.min(got.events.length, expected.events.length))
          view.validated = null
        }
      }
      // whether a tool failed just before or just after the abort is a matter of microtasks
      const d = ending === 'abort' ? diff(blurFailures(got), blurFailures(expected)) : diff(got, expected)
      if (d) v.add('a session with telemetry is a session', `${where}: ${d}`)
      // the very same error, where it is not one made by the library
      if ((which === 'network' || which === 'cut' || ending === 'callback' || ending === 'abort') && !plain.ok && plain.error === boom) v.check(tr.error === boom, 'errors are passed through', () => `${where}: ${short(tr.error)}`)
      if (tele.telemetry) v.check(tr.world.requests.every(r => !r.json || !('telemetry' in r.json)), 'telemetry options are not sent', where)
    }
    count(stream ? 'streamed sessions' : 'generated sessions')
    if (!plain.ok) count('failing sessions')
    if (ending === 'abort' && !plain.ok) count('aborted sessions')
    if (ending === 'callback' && !plain.ok) count('callback failures')
    if (classy && sc.tools.length) count('tools as class instances')
    if (plain.rec.validated.length) count('tools with validators')
    if (plain.rec.pre.length + plain.rec.post.length) count('hooks')
    if (plain.world.requests.length > 1) count('several steps')
    return { nontrivial: true, sample: { ending, name, steps: plain.steps?.length, tracer, which }, signature: [name, ending, which, moment, tracer, classy, plain.world.requests.length, short(want, 2000)], violations: v.list }
  },
}
