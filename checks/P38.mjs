import { genChat, genMessages, modelChat, runChat } from '../lib/chat.mjs'
import { judgeExecutions, judgeMessages, judgeRequests, judgeSteps } from '../lib/oracle.mjs'
import { compareItems, genResponses, judgeResponsesRequests, modelResponses, runResponses } from '../lib/responses.mjs'
import { deepEqual, deepFreeze, diff, jdiff, jview, short, Violations } from '../lib/util.mjs'

const textP = rng => ({ text: rng.text(20), type: 'text' })
const imageP = rng => ({ image_url: { url: rng.pick(['https://x.test/a.png', `data:image/png;base64,${rng.ident(8)}`, '']) }, type: 'image_url' })
const call = rng => ({ function: rng.pick([{ arguments: rng.text(10), name: rng.ident(4) }, { name: rng.ident(4) }, { arguments: '{}' }]), id: rng.pick([`call_${rng.ident(3)}`, '']), type: 'function' })
const list = (rng, f, min = 1) => Array.from({ length: rng.int(min, 4) }, () => f(rng))

/** [what the helper is asked, the message meant] */
const wish = (rng, m) => rng.weighted([
  [3, () => {
    const content = rng.bool(0.6) ? rng.text(40) : list(rng, x => rng.bool(0.6) ? textP(x) : imageP(x), 0)
    return ['user', () => m.user(content), { content, role: 'user' }]
  }],
  [2, () => {
    const content = rng.bool(0.6) ? rng.text(40) : list(rng, textP, 0)
    return ['system', () => m.system(content), { content, role: 'system' }]
  }],
  [3, () => {
    const content = rng.bool(0.5) ? rng.text(40) : list(rng, x => rng.bool(0.7) ? textP(x) : { refusal: x.text(9), type: 'refusal' })
    return ['assistant', () => m.assistant(content), { content, role: 'assistant' }]
  }],
  [2, () => {
    const c = call(rng)
    return ['assistant call', () => m.assistant(c), { role: 'assistant', tool_calls: [c] }]
  }],
  [2, () => {
    const c = list(rng, call)
    return ['assistant calls', () => m.assistant(c), { role: 'assistant', tool_calls: c }]
  }],
  [2, () => {
    const c = call(rng)
    const content = rng.bool(0.6) ? rng.text(40) : list(rng, x => rng.bool(0.6) ? textP(x) : imageP(x), 0)
    return ['tool', () => m.tool(content, c), { content, role: 'tool', tool_call_id: c.id }]
  }],
  [1, () => {
    const s = rng.text(30)
    return ['textPart', () => m.textPart(s), { text: s, type: 'text' }]
  }],
  [1, () => {
    const s = rng.pick(['https://x.test/a?b=c#d', 'data:image/gif;base64,AAAA', rng.text(9)])
    return ['imagePart', () => m.imagePart(s), { image_url: { url: s }, type: 'image_url' }]
  }],
  [1, () => {
    const all = list(rng, x => ({ content: x.text(9), role: 'user' }), 0)
    return ['messages', () => m.messages(...all), all]
  }],
  [2, () => {
    const [x, is] = rng.pick([
      [() => rng.text(9), false],
      [() => call(rng), true],
      [() => list(rng, call), true],
      [() => list(rng, textP), false],
      [() => rng.shuffle([textP(rng), ...list(rng, call)]), false],
      [() => undefined, false],
      [() => [{ refusal: 'no', type: 'refusal' }], false],
    ])
    const content = x()
    return ['isToolCall', () => m.isToolCall(content), is]
  }],
])()

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 2500, thorough: 100000 },
  id: 'P38',
  level: 'exploration',
  levelNote: 'Seeded dialogues compared with the reference conversation; no claim beyond the executions observed.',
  mustObserve: ['messages built by the helpers', 'continued conversations', 'conversations switching functions', 'calls repeated after a failure', 'histories extended in place', 'histories with tool calls', 'Responses dialogues'],
  rule: 'Seeded dialogues of 2-5 calls: each call (non-streaming, streaming, with telemetry, or the Responses API) starts from the very messages the call before returned, extended (in place or copied) by new messages built with the message helpers, sometimes after a failed attempt with the same messages. Requests, results and executions are compared with the reference conversation of each call, and earlier results with what they were. Non-trivial: at least two calls; distinct by requests.',
  technique: 'runtime monitoring: conformance of multi-call dialogues to a reference conversation',
  async run({ api, count, rng }) {
    const v = new Violations()
    const m = rng.bool(0.8) ? api.utilsChat.message : api.xsai.message
    for (let i = rng.int(2, 6); i > 0; i--) {
      const [name, make, want] = wish(rng, m)
      deepFreeze(want)
      const got = make()
      count('messages built by the helpers')
      if (!deepEqual(got, want) && jdiff(got, want)) v.add('a helper builds the message meant', `${name}: ${diff(got, want)}`)
    }
    const responses = rng.bool(0.25)
    const calls = rng.int(2, 5)
    const kinds = []
    const earlier = []
    const texts = []
    let history = responses ? undefined : [...genMessages(rng, 2)]
    for (let n = 0; n < calls; n++) {
      const where = `call ${n} (${kinds.join(', ')})`
      if (responses) {
        const sc = genResponses(rng, { badEnds: false, hookP: 0.1, prepareP: 0.1, turns: rng.int(1, 3) })
        if (history) {
          const said = { content: rng.text(30), role: 'user', type: 'message' }
          if (rng.bool()) {
            history.push(said)
            earlier.pop()
            count('histories extended in place')
          }
          else { history = [...history, said] }
          sc.input = jview(history)
        }
        const model = modelResponses(sc)
        const tr = await runResponses(api, sc, rng, history ? { extra: { input: history } } : {})
        if (!v.check(!tr.hang && tr.ok, 'a healthy conversation succeeds', () => `${where}: ${tr.hang ? 'hang' : short(tr.error?.stack ?? tr.error)}`)) break
        judgeResponsesRequests(v, sc, model, tr.world)
        judgeExecutions(v, model, tr.rec)
        const d = compareItems(tr.messages, model.history)
        if (d) v.add('the history returned is the conversation', `${where}: ${d}`)
        texts.push(...tr.world.requests.map(r => r.text))
        history = tr.messages
        kinds.push('responses')
        count('Responses dialogues')
      }
      else {
        const kind = rng.pick(['generate', 'stream'])
        const telemetry = rng.bool(0.25)
        const sc = genChat(rng, { hookP: 0.1, prepareP: 0.1, turns: rng.int(1, 3) })
        const said = [m.user(rng.text(30)), ...(rng.bool(0.2) ? [m.assistant(rng.text(20)), m.user([m.textPart('look'), m.imagePart('https://x.test/i.png')])] : [])]
        if (n > 0 && rng.bool()) {
          history.push(...said)
          earlier.pop()
          count('histories extended in place')
        }
        else { history = [...history, ...said] }
        sc.messages = jview(history)
        const fn = telemetry ? api.telemetry[kind === 'generate' ? 'generateText' : 'streamText'] : undefined
        const model = modelChat(sc, { stream: kind === 'stream' })
        const extra = { messages: history }
        if (rng.bool(0.15)) {
          const fault = rng.pick([{ kind: 'http', body: 'busy', status: 503 }, { error: new TypeError('fetch failed'), kind: 'network' }])
          const failed = await runChat(api, sc, rng, { extra, faults: { [rng.int(0, model.steps.length - 1)]: fault }, fn, stream: kind === 'stream' })
          v.check(!failed.hang && !failed.ok, 'a failed call fails', () => `${where}: ${failed.hang}`)
          v.eq(history, sc.messages, 'a failed call leaves the history as it was')
          count('calls repeated after a failure')
        }
        const tr = await runChat(api, sc, rng, { extra, fn, stream: kind === 'stream' })
        if (!v.check(!tr.hang && tr.ok, 'a healthy conversation succeeds', () => `${where}: ${tr.hang ? 'hang' : short(tr.error?.stack ?? tr.error)}`)) break
        judgeRequests(v, sc, model, tr.world, { stream: kind === 'stream' })
        judgeExecutions(v, model, tr.rec)
        judgeMessages(v, tr.messages, model)
        judgeSteps(v, tr.steps, model, { stream: kind === 'stream' })
        v.eq(history, sc.messages, 'a call leaves the history it was given as it was')
        if (model.history.some(x => x.$tool)) count('histories with tool calls')
        texts.push(...tr.world.requests.map(r => r.text))
        if (kinds.length > 0 && kinds.at(-1) !== kind) count('conversations switching functions')
        history = tr.messages
        kinds.push(kind)
      }
      for (const [at, ref, was] of earlier) v.check(!jdiff(ref, was), 'earlier results stay as they were', () => `${where}: of call ${at}: ${jdiff(ref, was)}`)
      earlier.push([n, history, jview(history)])
      if (n > 0) count('continued conversations')
    }
    return { allowUnhandled: true, nontrivial: kinds.length > 1, sample: { kinds }, signature: texts, violations: v.list }
  },
}
