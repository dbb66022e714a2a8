import { genChat, modelChat, runChat, turnAt } from '../lib/chat.mjs'
import { drive, ENDPOINTS, outcomes } from '../lib/endpoints.mjs'
import { genResponses, modelResponses, runResponses } from '../lib/responses.mjs'
import { short, Violations } from '../lib/util.mjs'
import { immediate, World } from '../lib/world.mjs'
import { atMoment } from './P08.mjs'

const REASONS = rng => rng.pick([() => undefined, () => new Error('user left'), () => new DOMException('timed out', 'TimeoutError'), () => 'user left', () => ({ code: 7 }), () => 0])()
const terminal = /"type": ?"response\.(?:completed|failed|incomplete)"/

/** what is known about the world when the signal fires */
const watch = (world) => {
  const last = world.requests.at(-1)
  const body = last && world.bodies.findLast(b => b.index === last.index)
  return {
    body: body && { delivered: body.delivered, state: body.state, text: Buffer.concat(body.sent.map(x => Buffer.from(x))).toString('latin1') },
    log: world.log.slice(),
    requests: world.requests.length,
  }
}

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 5000, thorough: 250000 },
  id: 'P18',
  level: 'fault_enumeration',
  levelNote: 'Seeded sessions, the signal firing at a seeded happening (any of the first 70 of the simulated world or the k-th event); no claim beyond the executions observed.',
  mustObserve: ['conversations run by the telemetry functions', 'aborted before the call', 'aborted while an answer was pending', 'aborted while tools ran', 'aborted between steps', 'never aborted', 'running tools told', 'tools held back', 'single-shot calls aborted', 'downloads held back', 'aborted from an event'],
  rule: 'Seeded multi-step conversations (streaming, non-streaming, Responses) and single-shot calls; the signal fires at the k-th happening (request, response, chunk, validation, hook, tool start and end, stop condition, preparation, step end, event). Monitors: no live request and no tool start after it, signal identity at the tools, settlement and outcome. Non-trivial: the signal fired; distinct by loop, moment and outcome.',
  technique: 'runtime monitoring with injected aborts: nothing-after monitors on the request and execution logs, outcome oracle by phase',
  async run({ api, count, rng }) {
    const v = new Violations()
    const reason = REASONS(rng)
    const ac = new AbortController()
    const world = new World(rng)
    let fired
    const fire = () => {
      if (fired) return
      fired = { before: false }
      ac.abort(reason)
      Object.assign(fired, watch(world))
    }
    const nothingNew = (where) => {
      const late = fired ? world.requests.slice(fired.requests).filter(r => !r.abortedAtCall) : []
      v.check(late.length === 0, 'no request is sent after the signal', () => `${where}: ${late.map(r => r.url)}`)
      for (const r of world.requests) v.check(r.signal === ac.signal, 'the signal reaches every request', () => `${where}: ${r.url}`)
    }

    if (rng.bool(0.2)) {
      const name = rng.pick(Object.keys(ENDPOINTS))
      const ep = ENDPOINTS[name]
      const g = await ep.gen(rng, api)
      const good = g.answer(rng)
      world.handler = (_r, i) => i === 0 ? { ...good, latency: good.latency ?? rng.int(0, 3) } : (good.links?.(_r, i) ?? good)
      if (g.handler) world.handler = g.handler(rng)
      const moment = rng.int(0, 12)
      if (moment === 0) {
        fire()
        fired.before = true
      }
      else { atMoment(world, moment, fire) }
      const out = await drive(api, world, ep, { ...g.opts, abortSignal: ac.signal, baseURL: 'https://a.test', fetch: world.fetch })
      const where = `${name} moment ${moment} ${short({ ...fired, log: undefined })}`
      if (!v.check(!out.hang, 'the call settles', where)) return { violations: v.list }
      nothingNew(where)
      if (!fired) return { nontrivial: false, violations: v.list }
      const pending = fired.before || fired.requests === 0 || fired.body === undefined || !['consumed'].includes(fired.body.state)
      const cut = pending && !(name === 'responses' && terminal.test(fired.body?.text ?? ''))
      const all = outcomes(out)
      if (cut) {
        for (const [k, e] of all) {
          if (name === 'streamSpeech' && k === 'usage') continue
          v.check(e === ac.signal.reason, 'an interrupted answer fails the call with the reason', () => `${where} ${k}: ${short(e)}`)
        }
      }
      else {
        for (const [k, e] of all) v.check(e === undefined || e === ac.signal.reason, 'an aborted call fails with the reason', () => `${where} ${k}: ${short(e)}`)
      }
      count('single-shot calls aborted')
      return { nontrivial: true, sample: { moment, name }, signature: [name, moment, all.map(x => x[1] === undefined)], violations: v.list }
    }

    if (rng.bool(0.06)) {
      // images that have to be downloaded
      const n = rng.int(1, 4)
      world.handler = (_r, i) => i === 0 ? { latency: rng.int(0, 2), status: 200, text: JSON.stringify({ data: Array.from({ length: n }, (_, k) => ({ url: `https://cdn.test/${k}.png` })) }) } : { bytes: Uint8Array.of(0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, 1, 2, 3, 4), latency: rng.int(0, 4), status: 200 }
      const moment = rng.int(1, 8)
      atMoment(world, moment, fire)
      const out = await drive(api, world, ENDPOINTS.generateImage, { abortSignal: ac.signal, baseURL: 'https://a.test', fetch: world.fetch, model: 'm', prompt: 'p' })
      const where = `images moment ${moment} ${short({ ...fired, log: undefined })}`
      if (!v.check(!out.hang, 'the call settles', where)) return { violations: v.list }
      nothingNew(where)
      if (!fired) return { nontrivial: false, violations: v.list }
      const done = world.bodies.filter(b => b.state === 'consumed').length
      const e = outcomes(out)[0][1]
      if (done < n + 1) {
        v.check(e === ac.signal.reason, 'an interrupted answer fails the call with the reason', () => `${where}: ${short(e)}`)
        count('downloads held back')
      }
      return { nontrivial: true, sample: { moment, n }, signature: ['images', n, moment, e === undefined, done], violations: v.list }
    }

    const kind = rng.pick(['stream', 'generate', 'responses'])
    const profile = { errors: 0.2, hookP: 0.35, maxCalls: 4, prepareP: 0.3, stop: rng.pick(['long', 'long', 'random']), toolP: 0.85, turns: rng.int(1, 4) }
    const sc = kind === 'responses' ? genResponses(rng, profile) : genChat(rng, profile)
    const m = kind === 'responses' ? modelResponses(sc) : modelChat(sc, { stream: kind === 'stream' })
    for (const plan of Object.values(sc.plans)) {
      if (rng.bool(0.5)) plan.delay = rng.int(-3, 6)
      if (rng.bool(0.15)) plan.untilAbort = true
    }
    const extra = { abortSignal: ac.signal }
    const trigger = kind === 'generate' ? 'moment' : rng.weighted([[5, 'moment'], [1, 'event']])
    const kinds = rng.bool(0.4) ? undefined : rng.pick([['chunk'], ['request'], ['response'], ['body-end'], ['exec'], ['exec'], ['exec', 'exec-end'], ['exec-end'], ['validate'], ['pre'], ['post'], ['stop-when'], ['prepare'], ['step-finish'], ['pre', 'exec', 'validate', 'post', 'exec-end', 'stop-when', 'prepare', 'step-finish']])
    const moment = kinds && trigger === 'moment' ? rng.heavy(1, 12) : rng.bool(0.04) ? 0 : rng.bool(0.7) ? rng.int(1, 25) : rng.int(1, 90)
    if (moment === 0) {
      fire()
      fired.before = true
    }
    else if (trigger === 'event') {
      let n = 0
      extra.onEvent = (event) => {
        world.activity++
        if (++n !== moment) return
        fire()
        fired.event = event.type
      }
    }
    else { atMoment(world, moment, fire, kinds) }
    // a conversation waiting for its signal must get it
    const hung = setInterval(() => {
      if (!fired && Date.now() - begun > 300 && world.activity === seen) fire()
      seen = world.activity
    }, 150)
    let seen = -1
    const begun = Date.now()
    hung.unref()
    let tr
    const note = world.note
    let before = new Set()
    // which tools had started or were still running when the signal fired
    const live = new Map()
    world.note = function (k, d) {
      if (k === 'exec') live.set(d, 'running')
      if (k === 'exec-end') live.set(d, 'over')
      const had = fired
      note.call(world, k, d)
      if (!had && fired) {
        fired.during = k
        before = new Set(live.keys())
        fired.running = [...live].filter(([, s]) => s === 'running').map(([id]) => id)
      }
    }
    try { tr = kind === 'responses' ? await runResponses(api, sc, rng, { extra, sse: { eventNames: true }, world }) : await runChat(api, sc, rng, { extra, stream: kind === 'stream', world }) }
    finally { clearInterval(hung) }
    for (let i = 0; i < 8; i++) await immediate()
    const where = `${kind} ${trigger} ${kinds ?? ''} ${moment} ${short({ ...fired, log: undefined, body: fired?.body && { ...fired.body, text: fired.body.text.length } })}`
    if (!v.check(!tr.hang, 'the call settles', where)) return { violations: v.list }
    nothingNew(where)
    for (const e of tr.rec.exec) v.check(e.opts.abortSignal === ac.signal, 'tools get the signal', () => `${where}: ${e.id}`)
    if (!fired) {
      count('never aborted')
      v.check(tr.ok, 'a conversation that is not aborted succeeds', () => `${where}: ${short(tr.error)}`)
      return { nontrivial: false, violations: v.list }
    }
    const late = tr.rec.exec.filter(e => e.aborted)
    v.check(late.length === 0, 'no tool starts after the signal', () => `${where}: ${late.map(e => `${e.t}:${e.id}`)}`)
    if (tr.rec.exec.some(e => e.opts.abortSignal?.aborted)) count('running tools told')
    if (trigger === 'event' && !fired.before) count('aborted from an event')

    const hookMismatch = m.steps.some(s => s.calls.some(c => c.plan?.pre?.kind === 'otherId' || c.plan?.post?.kind === 'otherId'))
    // the answer counts as interrupted until the conversation has begun to act on it
    const sinceRequest = (fired.log ?? []).slice((fired.log ?? []).findLastIndex(e => e[0] === 'request'))
    const acting = ['stop-when', 'pre', 'validate', 'exec', 'post', 'step-finish', 'prepare', 'finish']
    const receiving = fired.requests > 0 && (fired.event
      ? !['tool-call.done', 'tool-result.done', 'step.done'].includes(fired.event)
      : !sinceRequest.some(e => acting.includes(e[0]))) && (kind !== 'responses' || turnAt(sc, fired.requests - 1).end === 'completed')
    const answered = !receiving && (fired.body?.state === 'consumed' || (kind === 'responses' && terminal.test(fired.body?.text ?? '')))
    const streams = Object.values(tr.streams ?? {})
    // every output tells the same story
    if (tr.ok) v.check(streams.every(s => s.end === 'closed'), 'every output has the same fate', () => `${where}: ${short(streams.map(s => [s.name, s.end]))}`)
    else {
      v.check(streams.every(s => s.end === 'errored' && s.error === tr.error) && Object.values(tr.settled ?? {}).every(p => p.status === 'rejected' && p.reason === tr.error), 'every output has the same fate', () => `${where}: ${short(streams.map(s => [s.name, s.end]))} ${short(Object.entries(tr.settled ?? {}).map(([k, p]) => [k, p.status]))}`)
      v.check(tr.error === ac.signal.reason || hookMismatch, 'an aborted call fails with the reason', () => `${where}: ${short(tr.error)}`)
    }
    if (fired.before) {
      count('aborted before the call')
      v.check(!tr.ok && world.requests.every(r => r.abortedAtCall), 'a call aborted beforehand fails', where)
      v.check(tr.rec.exec.length === 0, 'a call aborted beforehand does nothing', where)
    }
    else if (fired.requests > 0 && !answered) {
      count('aborted while an answer was pending')
      v.check(!tr.ok && (tr.error === ac.signal.reason), 'an interrupted answer fails the call with the reason', () => `${where}: ${tr.ok} ${short(tr.error)}`)
    }
    else if (fired.requests > 0) {
      const running = (fired.running ?? []).filter(id => id.startsWith(`${fired.requests - 1}:`))
      if (running.length > 0) {
        count('aborted while tools ran')
        v.check(tr.ok || hookMismatch, 'a call aborted while tools run ends normally after that step', () => `${where}: ${short(tr.error)}`)
      }
      else { count('aborted between steps') }
    }
    if (tr.ok) {
      // the conversation ends with complete steps, every call of the last one answered
      v.check(tr.steps.length <= m.steps.length, 'the conversation goes no further than the provider', () => `${tr.steps.length} steps of ${m.steps.length}`)
      v.check(tr.steps.length === world.requests.filter(r => !r.abortedAtCall).length, 'every answer is a step', () => `${where}: ${tr.steps.length} steps, ${world.requests.length} requests`)
      v.check(tr.rec.stepFinish.length === tr.steps.length, 'every step is reported once', () => `${where}: ${tr.rec.stepFinish.length} of ${tr.steps.length}`)
      const lastStep = m.steps[tr.steps.length - 1]
      const calls = lastStep?.executed ? lastStep.calls : []
      const t = tr.steps.length - 1
      const list = tr.messages.slice(-calls.length)
      const answers = calls.length ? (kind === 'responses' ? list.map(x => [x.type === 'function_call_output', x.call_id, x.output]) : list.map(x => [x.role === 'tool', x.tool_call_id, x.content])) : []
      calls.forEach((c, i) => {
        const [isAnswer, id, content] = answers[i] ?? []
        if (!v.check(isAnswer && id === c.callId, 'every call of the last step is answered in order', () => `${where}: ${short(list)} expected ${calls.map(x => x.callId)}`)) return
        const ran = tr.rec.exec.some(e => e.t === t && e.id === c.callId)
        const toldAborted = typeof content === 'string' && content.includes('This operation was aborted')
        v.check(toldAborted || c.contentOk(content), 'an answer after the signal is the outcome or says so', () => `${where}: ${short(content)}`)
        if (!ran && c.executed) {
          count('tools held back')
          v.check(toldAborted || c.plan?.post, 'a tool held back is answered with the abort', () => `${where}: ${short(content)}`)
        }
        if (ran && !c.executed) v.add('only executable calls run', `${where} ${c.callId}`)
      })
      v.check(tr.steps[t].toolResults.length === calls.length && tr.steps[t].toolResults.every((r, i) => r.toolCallId === calls[i].callId), 'the results of the last step are complete', () => `${where}: ${short(tr.steps[t].toolResults)}`)
    }
    return { nontrivial: true, sample: { during: fired.during, kind, moment, ok: tr.ok, steps: tr.steps?.length }, signature: [kind, trigger, fired.during, tr.ok, world.log], violations: v.list }
  },
}
