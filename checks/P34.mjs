import { genChat, modelChat, playTurns, runChat, turnAt } from '../lib/chat.mjs'
import { drive, ENDPOINTS, outcomes } from '../lib/endpoints.mjs'
import { ERROR_TYPES } from '../lib/fixtures.mjs'
import { genResponses, modelResponses, runResponses } from '../lib/responses.mjs'
import { short, Violations } from '../lib/util.mjs'
import { collect, immediate, settleOrHang, World } from '../lib/world.mjs'
import { atMoment } from './P08.mjs'

// bodies are produced only on demand, so a body nobody reads stays open
const onDemand = plan => plan.raw ? plan : { ...plan, eager: false, hwm: 0 }

/** once nothing moves any more, no body may be open */
const drained = async (world) => {
  for (let quiet = 0, last = -1, i = 0; quiet < 25 && i < 3000; i++) {
    await immediate()
    if (world.activity === last) quiet++
    else quiet = 0
    last = world.activity
  }
}
const judge = (v, world, where, count, owned = () => false) => {
  for (const b of world.bodies) {
    count(`bodies ${b.state}`)
    if (owned(b)) continue
    v.check(b.state !== 'open', 'a response body is read to the end, cancelled or handed over', () => `${where}: body of request ${b.index} (${b.delivered} of ${b.total} chunks read)`)
  }
}

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 5000, thorough: 250000 },
  id: 'P34',
  level: 'fault_enumeration',
  levelNote: 'Seeded endings of every function observed through response bodies that are produced on demand only; no claim beyond the executions observed.',
  mustObserve: ['bodies consumed', 'bodies cancelled', 'bodies aborted', 'bodies failed', 'callback exceptions', 'provider faults', 'connections kept open', 'retried attempts', 'streams cancelled by the caller', 'failed downloads', 'low-level requests', 'continued steps', 'single-shot calls', 'streams left at once', 'telemetry sessions'],
  rule: 'Seeded calls of every function (and multi-step conversations, plain and with telemetry) ended by success, provider and transport faults, exceptions of each callback, aborts, stop conditions and cancellations, against bodies that only advance when read, some of which the provider never ends after the fault. When nothing moves any more, the state of every body obtained is examined. Non-trivial: a body was obtained; distinct by function, ending and body states.',
  technique: 'runtime monitoring: resource-state monitor on instrumented response bodies',
  async run({ api, count, rng }) {
    const v = new Violations()
    const world = new World(rng)
    const reason = new Error('the end')
    const mode = rng.weighted([[4, 'session'], [2, 'endpoint'], [0.6, 'retry'], [0.6, 'images'], [0.6, 'low'], [0.8, 'leave']])
    const states = () => world.bodies.map(b => b.state)

    if (mode === 'retry') {
      const n = rng.int(0, 4)
      const retry = rng.int(0, 4)
      world.handler = (_r, i) => onDemand({ chunks: Array.from({ length: rng.int(1, 3) }, () => Buffer.from('xy')), status: i < n ? rng.pick([500, 503, 429]) : rng.pick([200, 200, 404]) })
      const real = globalThis.fetch
      globalThis.fetch = world.fetch
      let res
      try { res = await settleOrHang(world, api.xsfetch.createFetch({ retry, retryDelay: 0 })('https://a.test/x', { body: 'b', method: 'POST' })) }
      finally { globalThis.fetch = real }
      if (!v.check(res.status === 'fulfilled', 'a retried call settles', () => short(res))) return { violations: v.list }
      await drained(world)
      judge(v, world, `retry ${retry} of ${n}`, count, b => b.index === world.requests.length - 1)
      if (world.requests.length > 1) count('retried attempts')
      // the answer the caller got is theirs, whole
      const text = await res.value.text()
      v.check(text.length === world.bodies.at(-1).total * 2, 'the answer handed over is untouched', () => text)
      return { nontrivial: true, sample: { n, retry }, signature: [mode, n, retry, states()], violations: v.list }
    }

    if (mode === 'images') {
      const n = rng.int(1, 4)
      const bad = rng.int(-1, n - 1)
      const how = rng.pick(['http', 'network', 'cut', 'odd'])
      world.handler = (_r, i) => onDemand(i === 0
        ? { chunks: [Buffer.from(JSON.stringify({ data: Array.from({ length: n }, (_, k) => k === bad && how === 'odd' ? { other: 1 } : { url: `https://cdn.test/${k}` }) }))], status: 200 }
        : Number(new URL(_r.url).pathname.slice(1)) === bad
          ? how === 'http' ? { chunks: [Buffer.from('no'), Buffer.from('pe')], headers: { 'content-type': rng.pick(ERROR_TYPES) }, latency: rng.int(0, 3), status: rng.pick([400, 403, 404, 410, 429, 500, 503]) } : how === 'network' ? { networkError: reason } : { bytes: Buffer.from('x'), cutAt: 0, cutError: reason, latency: rng.int(0, 3), status: 200 }
          : { chunks: [Buffer.from('x'), Buffer.from('y')], latency: rng.int(0, 6), status: 200 })
      const out = await drive(api, world, ENDPOINTS.generateImage, { baseURL: 'https://a.test', fetch: world.fetch, model: 'm', prompt: 'p' })
      v.check(!out.hang, 'the call settles', `images ${how}`)
      await drained(world)
      judge(v, world, `images ${n} ${bad} ${how}`, count)
      if (bad >= 0) count('failed downloads')
      return { nontrivial: true, sample: { bad, how, n }, signature: [mode, n, bad, how, states()], violations: v.list }
    }

    if (mode === 'low') {
      const status = rng.pick([200, 200, 500])
      world.handler = () => onDemand({ chunks: Array.from({ length: rng.int(1, 4) }, (_, i) => Buffer.from(`data: ${i}\n\n`)), status })
      const o = { baseURL: 'https://a.test', fetch: world.fetch, messages: [], model: 'm' }
      const w = await settleOrHang(world, rng.pick([() => api.sharedChat.chat(o), () => api.shared.postJSON('x', o)])())
      count('low-level requests')
      if (w.status === 'rejected') {
        await drained(world)
        judge(v, world, `low-level ${status}`, count)
        return { nontrivial: true, sample: { mode, status }, signature: [mode, status, states()], violations: v.list }
      }
      // the response is the caller's: leaving it releases it
      const stream = w.value.body.pipeThrough(new TextDecoderStream()).pipeThrough(new api.sharedStream.EventSourceParserStream()).pipeThrough(new api.sharedStream.JsonMessageTransformStream())
      const c = collect(world, stream, { cancelAfter: rng.int(0, 5) })
      await settleOrHang(world, c.done)
      await drained(world)
      judge(v, world, 'low-level stream left', count)
      if (c.end === 'cancelled') count('streams cancelled by the caller')
      return { nontrivial: true, sample: { end: c.end, mode }, signature: [mode, c.end, c.items.length, states()], violations: v.list }
    }

    if (mode === 'leave') {
      // the one stream that is fed straight from the response
      const ep = ENDPOINTS.streamSpeech
      const g = await ep.gen(rng, api)
      const keep = rng.bool()
      world.handler = () => onDemand({ ...g.answer(rng), neverClose: keep })
      const r = await api.streamSpeech.streamSpeech({ ...g.opts, baseURL: 'https://a.test', fetch: world.fetch })
      const k = rng.int(0, 3)
      const c = collect(world, r.fullStream, { cancelAfter: k })
      const w = keep ? await Promise.race([c.done, drained(world)]) : await settleOrHang(world, c.done)
      if (!v.check(w?.status !== 'hang', 'leaving a stream settles', String(k))) return { violations: v.list }
      await drained(world)
      if (c.end === 'cancelled') {
        judge(v, world, `speech left after ${k}`, count)
        count(k === 0 ? 'streams left at once' : 'streams cancelled by the caller')
      }
      return { nontrivial: true, sample: { end: c.end, k, mode }, signature: [mode, k, c.end, states()], violations: v.list }
    }

    if (mode === 'endpoint') {
      const name = rng.pick(Object.keys(ENDPOINTS))
      const ep = ENDPOINTS[name]
      const g = await ep.gen(rng, api)
      const good = g.answer(rng)
      const ending = rng.pick(['ok', 'ok', 'http', 'badjson', 'cut', 'abort', 'payload', 'nothing'])
      const broken = `data: {"broken\n\ndata: {"a":1}\n\n`
      world.handler = () => onDemand(ending === 'http' ? { chunks: [Buffer.from('no'), Buffer.from('pe')], headers: { 'content-type': rng.pick(ERROR_TYPES) }, status: rng.pick([400, 429, 500]) }
        : ending === 'badjson' ? { chunks: [Buffer.from(broken), Buffer.from('data: 1\n\n')], neverClose: ep.streaming, status: 200 }
          : ending === 'payload' && ep.streaming ? { chunks: [Buffer.from('data: {"error":{"message":"x"}}\n\n'), Buffer.from('data: 1\n\n')], neverClose: true, status: 200 }
            : ending === 'cut' ? { ...good, cutAt: 0, cutError: reason } : ending === 'nothing' ? { chunks: [], status: 200 } : good)
      const ac = new AbortController()
      if (ending === 'abort') atMoment(world, rng.int(1, 8), () => ac.abort(reason))
      const out = await drive(api, world, ep, { ...g.opts, abortSignal: ac.signal, baseURL: 'https://a.test', fetch: world.fetch })
      const where = `${name} ${ending}`
      if (!v.check(!out.hang, 'the call settles', where)) return { violations: v.list }
      await drained(world)
      judge(v, world, where, count)
      count('single-shot calls')
      return { nontrivial: world.bodies.length > 0, sample: { ending, name }, signature: [mode, name, ending, states(), outcomes(out).map(x => x[1] === undefined)], violations: v.list }
    }

    // conversations
    const kind = rng.pick(['stream', 'stream', 'generate', 'responses', 'responses', 'telemetry stream', 'telemetry generate'])
    const stream = !kind.includes('generate')
    const responses = kind === 'responses'
    const profile = { errors: 0.2, hookP: 0.3, maxCalls: 3, prepareP: 0.2, stop: rng.pick(['long', 'random', 'default']), toolP: 0.8, turns: rng.int(1, 4) }
    const sc = responses ? genResponses(rng, profile) : genChat(rng, profile)
    const m = responses ? modelResponses(sc) : modelChat(sc, { stream })
    const at = rng.int(0, m.steps.length - 1)
    let ending = rng.weighted([[3, 'ok'], [4, 'fault'], [5, 'callback'], [2, 'abort'], [1, 'hook']])
    let which
    const extra = {}
    let faults = {}
    if (ending === 'fault') {
      which = rng.pick(['http', 'network', 'nobody', ...(stream ? ['cut', 'badchunk', 'error', 'malformed'] : ['badjson'])])
      const pos = rng.int(0, 9)
      faults = { [at]: which === 'http' ? { body: 'no', kind: 'http', status: 500 } : which === 'network' ? { error: reason, kind: 'network' } : which === 'nobody' ? { kind: 'nobody' } : which === 'badjson' ? { kind: 'badjson', text: '{"x' } : which === 'cut' ? { cutAt: len => Math.min(len - 1, pos), error: reason, kind: 'cut' } : { at: n => Math.min(responses ? n - 1 : n, pos), kind: 'badchunk', payload: which === 'error' ? { error: { message: 'x' } } : which === 'malformed' ? (responses ? { type: 'response.completed' } : { choices: [{ delta: null }] }) : '{"broken' } }
    }
    if (ending === 'hook') {
      const plan = sc.plans[`${at}:${turnAt(sc, at).calls[0]?.id}`]
      if (!plan) ending = 'ok'
      else {
        which = rng.pick(['pre', 'post'])
        sc.hooks[which] = true
        plan[which] = { delay: rng.int(-2, 2), kind: 'otherId', sync: rng.bool() }
      }
    }
    let moment = 0
    let n = 0
    const raise = () => {
      if (++n === moment) throw reason
    }
    if (ending === 'callback') {
      which = rng.pick(['onStepFinish', 'prepareStep', 'stopWhen', ...(stream ? ['onEvent', 'onEvent', 'onFinish'] : [])])
      moment = which === 'onEvent' ? rng.heavy(1, 20) : which === 'onFinish' ? 1 : rng.int(1, 3)
      extra[which] = which === 'stopWhen' ? () => (raise(), false) : which === 'prepareStep' ? () => (raise(), {}) : raise
    }
    if (ending === 'abort') {
      const ac = new AbortController()
      extra.abortSignal = ac.signal
      moment = rng.heavy(1, 40)
      atMoment(world, moment, () => ac.abort(reason))
    }
    // after a fault the provider may keep the connection open
    const keep = stream && ['badchunk', 'error', 'malformed'].includes(which) && rng.bool(0.7)
    if (keep) count('connections kept open')
    const play = playTurns(sc, rng, { faults, sse: responses ? { eventNames: true } : {}, stream })
    world.handler = (req, i) => onDemand({ ...play(req, i), ...(keep && i === at && { neverClose: true }) })
    const consume = Object.fromEntries(['event', 'full', 'reasoning', 'text'].map(k => [k, rng.weighted([[4, 'read'], [2, 'ignore'], [1.5, rng.int(0, 4)]])]))
    const opts = { consume, extra, keepHandler: true, world }
    const tr = responses ? await runResponses(api, sc, rng, opts) : await runChat(api, sc, rng, { ...opts, fn: kind.startsWith('telemetry') ? api.telemetry[stream ? 'streamText' : 'generateText'] : undefined, stream })
    const where = `${kind} ${ending} ${which ?? ''} at ${at} moment ${moment}${keep ? ' kept open' : ''}`
    if (!v.check(!tr.hang, 'the session settles', where)) return { violations: v.list }
    await drained(world)
    judge(v, world, where, count)
    if (ending === 'fault') count('provider faults')
    if (ending === 'callback') count('callback exceptions')
    if (kind.startsWith('telemetry')) count('telemetry sessions')
    if (world.requests.length > 1) count('continued steps')
    return { nontrivial: world.bodies.length > 0, sample: { ending, kind, states: states(), which }, signature: [kind, ending, which, at, moment, states()], violations: v.list }
  },
}
