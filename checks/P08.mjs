import { oddThrown } from '../lib/fixtures.mjs'
import { genChat, modelChat, runStream, turnAt } from '../lib/chat.mjs'
import { drive, ENDPOINTS } from '../lib/endpoints.mjs'
import { genResponses, modelResponses } from '../lib/responses.mjs'
import { deepEqual, diff, short, Violations } from '../lib/util.mjs'
import { beforeTerminal, immediate, World } from '../lib/world.mjs'

const STREAMS = ['event', 'full', 'reasoning', 'text']

/** aborts (or does anything else) at the k-th thing that happens in the world */
export const atMoment = (world, k, act, kinds) => {
  let n = 0
  world.note = (kind, data) => {
    World.prototype.note.call(world, kind, data)
    if ((!kinds || kinds.includes(kind)) && ++n === k) {
      World.prototype.note.call(world, '** now')
      act()
    }
  }
}

const FINE = Symbol('fine') // anything can be thrown, null and undefined included

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 5000, thorough: 250000 },
  id: 'P08',
  level: 'fault_enumeration',
  levelNote: 'Seeded endings (fault kind x step x position, callback x occurrence, abort at any of the first 60 happenings) x consumption patterns; process-level monitors for unhandled rejections and hangs. No claim beyond the executions observed.',
  mustObserve: ['conversations run by the telemetry functions', 'normal endings', 'provider faults', 'callback exceptions', 'malformed calls', 'aborts', 'nothing attended', 'failed calls', 'successful calls', 'late readers', 'cancelled streams', 'double failures', 'single-shot streams'],
  rule: 'Seeded streamed conversations (chat and Responses) and single-shot streams, each ended in one seeded way at a seeded moment; the caller attends to a random subset of streams (reading, cancelling, late, never) and promises. Afterwards every output is examined. Non-trivial: the call ended; distinct by ending, moment, consumption and outcome.',
  technique: 'runtime monitoring with fault injection: settlement and exactly-once monitors, process-level unhandled-rejection and hang monitors',
  async run({ api, count, rng }) {
    const v = new Violations()
    if (rng.bool(0.25)) {
      const name = rng.pick(['streamSpeech', 'streamTranscription', 'streamObject', 'streamText', 'responses'])
      const ep = ENDPOINTS[name]
      const g = await ep.gen(rng, api)
      const world = new World(rng)
      const ending = rng.pick(['ok', 'cut', 'http', 'network', 'nobody', 'abort', 'abort'])
      const reason = ending !== 'abort' && rng.bool(0.2) ? oddThrown(rng) : new Error('the end')
      const good = g.answer(rng)
      world.handler = () => ending === 'cut' ? { ...good, cutAt: beforeTerminal(good.chunks, rng.int(0, good.chunks.length)), cutError: reason } : ending === 'http' ? { status: 500, text: 'no' } : ending === 'network' ? { networkError: reason } : ending === 'nobody' ? { noBody: true } : good
      const ac = new AbortController()
      const moment = rng.int(1, 14)
      if (ending === 'abort') atMoment(world, moment, () => ac.abort(reason))
      // which outputs the caller attends to; the audio stream is what drives the speech call
      const attended = new Set(['call', 'audio', ...['event', 'full', 'reasoning', 'text', 'texts', 'objects', 'messages', 'input', 'steps', 'usage', 'totalUsage'].filter(() => rng.bool(0.5))])
      let all
      const out = await drive(api, world, ep, { ...g.opts, ...(ending === 'abort' && { abortSignal: ac.signal }), baseURL: 'https://a.test', fetch: world.fetch }, { onOutputs: (o) => { all = o }, pick: k => attended.has(k) })
      const where = `${name} ${ending} moment ${moment} attended ${[...attended]}`
      if (!v.check(!out.hang, 'everything settles', where)) return { violations: v.list }
      // now look at what the caller did not attend to
      const rest = all ? await drive(api, world, { call: () => ({ promises: Object.fromEntries(Object.entries(all.promises).filter(([k]) => !attended.has(k))), streams: Object.fromEntries(Object.entries(all.streams).filter(([k]) => !attended.has(k))) }) }, {}) : { promises: {}, streams: {} }
      if (!v.check(!rest.hang, 'everything settles', `${where} (late)`)) return { violations: v.list }
      const fates = [...Object.entries({ ...out.promises, ...rest.promises }).filter(([k]) => k !== 'call' || out.promises.call).map(([k, p]) => [k, p.status === 'rejected' ? p.reason : FINE]), ...Object.entries({ ...out.streams, ...rest.streams }).map(([k, s]) => [`${k} stream`, s.end === 'errored' ? s.error : FINE])]
      const error = (fates.find(([, e]) => e !== FINE) ?? [0, FINE])[1]
      // usage reported before the connection broke may stand
      const judged = name === 'streamSpeech' && (ending === 'cut' || ending === 'abort') ? fates.filter(([k]) => k !== 'usage') : fates
      v.check(judged.every(([, e]) => e === error), 'all outputs have the same fate', () => `${where}: ${short(judged.map(([k, e]) => [k, e === FINE ? 'ok' : `${e?.name}: ${e?.message} ${short(e)}`]))}`)
      if (ending !== 'abort') v.check((error === FINE) === (ending === 'ok'), 'the outcome fits the ending', () => `${where}: ${short(error)}`)
      if (error !== FINE && ['abort', 'cut', 'network'].includes(ending)) v.check(error === reason, 'the failure is the reason', () => `${where}: ${short(error)}`)
      count('single-shot streams')
      return { nontrivial: true, sample: { ending, name }, signature: [name, ending, moment, [...attended], error === FINE], violations: v.list }
    }

    const kind = rng.pick(['chat', 'chat', 'responses'])
    const profile = { errors: 0.2, hookP: 0.35, maxCalls: 3, prepareP: 0.3, stop: rng.pick(['long', 'long', 'random']), toolP: 0.8, turns: rng.int(1, 4) }
    const sc = kind === 'chat' ? genChat(rng, profile) : genResponses(rng, profile)
    const m = kind === 'chat' ? modelChat(sc, { stream: true }) : modelResponses(sc)
    const at = rng.int(0, m.steps.length - 1)
    let boom = rng.pick([() => new Error('boom'), () => new TypeError('boom'), () => 'boom', () => ({ odd: 1 })])()
    let ending = rng.weighted([[2, 'ok'], [4, 'fault'], [5, 'callback'], [1.5, 'malformed'], [4, 'abort']])
    if (ending !== 'abort' && rng.bool(0.15)) boom = oddThrown(rng)
    const extra = {}
    let faults = {}
    let moment = 0
    let which
    const world = new World(rng)
    const ac = new AbortController()
    if (ending === 'fault') {
      which = rng.pick(['http', 'network', 'nobody', 'badchunk', 'cut', 'error'])
      const pos = rng.int(0, 12)
      faults = { [at]: which === 'http' ? { body: 'no', kind: 'http', status: 500 } : which === 'network' ? { error: boom, kind: 'network' } : which === 'nobody' ? { kind: 'nobody' } : which === 'cut' ? { cutAt: len => Math.min(len - 1, pos), error: boom, kind: 'cut' } : { at: n => Math.min(kind === 'responses' ? n - 1 : n, pos), kind: 'badchunk', payload: which === 'error' ? { error: { message: 'x' } } : '{"broken' } }
    }
    if (ending === 'malformed') {
      if (kind === 'chat' && rng.bool(0.6)) {
        which = rng.pick(['nameless', 'no delta', 'no id'])
        const payload = which === 'nameless'
          ? { choices: [{ delta: { tool_calls: [{ function: { arguments: '{}', name: null }, id: 'x', index: 30, type: 'function' }] }, finish_reason: null, index: 0 }] }
          : which === 'no delta' ? { choices: [{ finish_reason: null, index: 0 }] } : { choices: [{ delta: { tool_calls: [{ id: 'x', index: 30 }] }, index: 0 }] }
        faults = { [at]: { at: n => n - 1, kind: 'badchunk', payload } }
      }
      else {
        which = 'hook changes the id'
        const plan = sc.plans[`${at}:${turnAt(sc, at).calls[0]?.id}`]
        if (!plan) ending = 'ok'
        else {
          sc.hooks.pre = true
          plan.pre = { delay: rng.int(-2, 2), kind: 'otherId', sync: rng.bool() }
        }
      }
    }
    const late = rng.bool(0.2)
    const consume = Object.fromEntries(STREAMS.map(k => [k, rng.weighted([[4, 'read'], [3, 'ignore'], [late ? 2 : 0, 'late'], [1.5, rng.int(0, 4)]])]))
    const promised = [kind === 'responses' ? 'input' : 'messages', 'steps', 'usage', 'totalUsage']
    const attended = promised.filter(() => rng.bool(0.4))
    const log = []
    const session = { finishCalls: [] }
    let finished
    const ended = new Promise((resolve) => { finished = resolve })

    if (ending === 'callback') {
      which = rng.weighted([[3, 'onEvent'], [2, 'onStepFinish'], [2, 'onFinish'], [2, 'prepareStep'], [2, 'stopWhen']])
      moment = which === 'onEvent' ? rng.heavy(1, 25) : which === 'onFinish' ? 1 : rng.int(1, 3)
    }
    // a finish callback that fails as well must not hide the first failure
    const alsoFinish = ['fault', 'abort', 'malformed'].includes(ending) && rng.bool(0.15)
    const second = new Error('second failure')
    let n = 0
    const raise = (asynchronous) => {
      if (++n !== moment) return undefined
      if (asynchronous) return (async () => { await immediate(); throw boom })()
      throw boom
    }
    const asynchronous = rng.bool()
    if (which === 'onEvent') extra.onEvent = () => raise(false)
    if (which === 'prepareStep') extra.prepareStep = () => raise(asynchronous) ?? {}
    if (which === 'stopWhen') extra.stopWhen = () => (raise(false), false)
    const stepsSeen = []
    extra.onStepFinish = (step) => {
      stepsSeen.push(structuredClone(step))
      world.note('step-finish')
      if (which === 'onStepFinish') raise(false)
    }
    extra.onFinish = (step) => {
      session.finishCalls.push(step === undefined ? undefined : structuredClone(step))
      log.push('finish')
      world.note('finish')
      setImmediate(finished)
      if (which === 'onFinish') return raise(asynchronous)
      if (alsoFinish) throw second
    }
    if (ending === 'abort') {
      moment = rng.heavy(1, 60)
      extra.abortSignal = ac.signal
      if (rng.bool(0.05)) ac.abort(boom)
      else atMoment(world, moment, () => ac.abort(boom))
      for (const plan of Object.values(sc.plans)) if (rng.bool(0.3)) plan.delay = rng.int(0, 4)
    }
    const tr = await runStream(api, kind === 'chat' ? api.streamText.streamText : api.responses.responses, sc, rng, {
      consume,
      extra,
      faults,
      ignorePromises: true,
      sse: kind === 'responses' ? { eventNames: true } : {},
      waitFor: async (out) => {
        for (const k of attended) void out.result[k].then(() => log.push(k), () => log.push(k))
        await ended
        for (let i = 0; i < 6; i++) await immediate()
      },
      world,
    })
    const where = `${kind} ${ending} ${which ?? ''} at step ${at} moment ${moment} consume ${short(consume)} attended ${attended}`
    if (!v.check(!tr.hang && !tr.syncError, 'everything settles', () => `${where}: ${tr.syncError ? short(tr.syncError) : short([...Object.values(tr.streams).map(s => [s.name, s.end ?? 'open']), session.finishCalls.length])}`)) return { violations: v.list }

    // every promise has settled by now
    const settled = {}
    for (const k of promised) tr.result[k].then((value) => { settled[k] = { value } }, (reason) => { settled[k] = { reason } })
    await immediate()
    for (const k of promised) v.check(settled[k] !== undefined, 'every promise settles', () => `${where}: ${k} is pending`)
    const failed = promised.filter(k => settled[k] && 'reason' in settled[k])
    v.check(failed.length === 0 || failed.length === promised.length, 'all promises have the same outcome', () => `${where}: rejected ${failed}`)
    const error = settled.steps?.reason
    v.check(failed.every(k => settled[k].reason === error), 'all promises fail with the same error', () => `${where}: ${short(failed.map(k => `${settled[k].reason}`))}`)
    const ok = failed.length === 0
    count(ok ? 'successful calls' : 'failed calls')
    for (const s of Object.values(tr.streams)) {
      if (s.end === 'cancelled') {
        count('cancelled streams')
        continue
      }
      if (consume[s.name] === 'late') count('late readers')
      v.check(s.end === (ok ? 'closed' : 'errored'), 'every stream ends like the call', () => `${where}: ${s.name} ${s.end}, promises ${ok ? 'fulfilled' : short(error)}`)
      if (!ok && s.end === 'errored') v.check(s.error === error, 'streams and promises fail with the same error', () => `${where}: ${s.name} ${short(s.error)}, promises ${short(error)}`)
    }
    // streams nobody has touched
    for (const [k, prop] of Object.entries({ event: 'eventStream', full: 'fullStream', reasoning: 'reasoningTextStream', text: 'textStream' })) {
      if (consume[k] !== 'ignore') continue
      const reader = tr.result[prop].getReader()
      let end
      reader.closed.then(() => { end = 'closed' }, (e) => { end = e === error ? 'errored' : `errored with ${short(e)}` })
      for (let i = 0; i < 5000 && end === undefined; i++) {
        let r
        void reader.read().then((x) => { r = x }, (e) => { r = { done: true, e } })
        await immediate()
        if (r === undefined) break
        if (r.done) await immediate()
      }
      v.check(end === (ok ? 'closed' : 'errored'), 'a stream nobody read ends as well', () => `${where}: ${k} ${end}`)
    }
    v.check(session.finishCalls.length === 1, 'the finish callback runs exactly once', () => `${where}: ${session.finishCalls.length}`)
    if (!deepEqual(session.finishCalls[0], stepsSeen.at(-1))) v.add('the finish callback gets the last completed step', `${where}: ${diff(session.finishCalls[0], stepsSeen.at(-1))}`)
    const early = log.indexOf('finish') === -1 ? [] : log.slice(0, log.indexOf('finish'))
    v.check(early.length === 0, 'the finish callback runs before the promises settle', () => `${where}: ${log}`)
    v.check(new Set(log).size === log.length && attended.every(k => log.includes(k)), 'attended promises settle', () => `${where}: ${log}`)
    if (ok && settled.steps) v.check(settled.steps.value.length === stepsSeen.length, 'the steps are those reported', () => `${where}: ${settled.steps.value.length}, ${stepsSeen.length}`)

    // the outcome fits the ending
    if (ending === 'ok') v.check(ok, 'a good conversation succeeds', () => `${where}: ${short(error)}`)
    if (alsoFinish) {
      count('double failures')
      v.check(!ok, 'a failing finish callback fails the call', where)
      if (ending === 'fault') v.check(error !== second, 'the first failure is the failure', () => `${where}: ${short(error)}`)
    }
    if (ending === 'fault') v.check(!ok, 'a fault makes the call fail', where)
    const raised = ending === 'callback' && n >= moment
    if (ending === 'callback') v.check(ok === !raised && (!raised || error === boom), 'an exception thrown by a callback is the failure', () => `${where}: ${ok} ${short(error)}`)
    if (ending === 'abort' && !ok) v.check(error === boom || (alsoFinish && error === second), 'an aborted call fails with the reason', () => `${where}: ${short(error)}`)
    count({ abort: 'aborts', callback: 'callback exceptions', fault: 'provider faults', malformed: 'malformed calls', ok: 'normal endings' }[ending])
    if (attended.length === 0 && STREAMS.every(k => consume[k] === 'ignore')) count('nothing attended')
    return { nontrivial: true, sample: { consume, ending, ok, steps: stepsSeen.length, which }, signature: [kind, ending, which, at, moment, consume, attended, ok, stepsSeen.length], violations: v.list }
  },
}
