import { genChat, modelChat, normMessage, runChat, sortKeys } from '../lib/chat.mjs'
import { judgeExecutions, judgeMessages, judgeRequests, judgeSteps, positions } from '../lib/oracle.mjs'
import { jdiff, jview, short, Violations } from '../lib/util.mjs'

const bodyView = (b) => {
  const { messages, stream, stream_options, ...rest } = b ?? {}
  return sortKeys({ messages: messages?.map(normMessage), ...rest })
}
const stepView = s => ({ finishReason: s.finishReason, text: s.text ?? '', toolCalls: s.toolCalls, toolResults: s.toolResults })

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 3500, thorough: 120000 },
  id: 'P10',
  mustObserve: ['conversations run by the telemetry functions', 'multi-step sessions', 'tool executions', 'step overrides'],
  rule: 'Each seeded conversation (1-6 steps, tools, hooks, validators, stop conditions, preparation) is played twice against providers giving the same answers, once non-streaming and once streaming with arbitrary chunking; requests, messages, steps, executions and results are compared with each other and with the reference conversation. Non-trivial: the conversation has a tool call; distinct by hash of requests.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const sc = genChat(rng, { scale: true, turns: rng.int(1, 6), usage: 'mixed' })
    const ms = modelChat(sc, { stream: true })
    const streamOptions = rng.bool(0.3) ? { includeUsage: true } : undefined
    const a = await runChat(api, sc, rng, { stream: false })
    const b = await runChat(api, sc, rng, { extra: streamOptions ? { streamOptions } : {}, stream: true })
    for (const [name, tr] of [['generate', a], ['stream', b]]) {
      v.check(!tr.hang, `${name} settles`, 'hang')
      v.check(tr.ok, `${name} succeeds on a healthy conversation`, () => short(tr.error?.stack ?? tr.error))
    }
    judgeRequests(v, sc, ms, b.world, { extraBody: streamOptions ? { stream_options: { include_usage: true } } : {}, stream: true })
    judgeExecutions(v, ms, b.rec)
    v.eq(b.world.requests.map(r => bodyView(r.json)), a.world.requests.map(r => bodyView(r.json)), 'same requests as non-streaming')
    const exec = tr => tr.rec.exec.map(e => JSON.stringify([e.t, e.id, e.name, e.input])).sort()
    v.eq(exec(b), exec(a), 'same executions as non-streaming')
    if (b.ok) {
      judgeMessages(v, b.messages, ms, 'streamed messages')
      judgeSteps(v, b.steps, ms, { rule: 'streamed steps', stream: true })
    }
    if (a.ok && b.ok) {
      v.eq(b.messages.map(normMessage).map(sortKeys), a.messages.map(normMessage).map(sortKeys), 'same messages as non-streaming')
      const d = jdiff(sortKeys(jview(b.steps.map(stepView))), sortKeys(jview(a.steps.map(stepView))))
      if (d) v.add('same steps as non-streaming', d)
      v.check(b.world.requests.length === b.steps.length, 'as many requests as steps', () => `${b.world.requests.length} vs ${b.steps.length}`)
    }
    if (ms.steps.length > 1) count('multi-step sessions')
    count('tool executions', positions(b.world, 'exec').length)
    if (sc.prepare?.some(p => p.input || p.model || p.toolChoice)) count('step overrides')
    return { nontrivial: ms.history.some(x => x.$tool), sample: { requests: b.world.requests.map(r => r.json).slice(0, 3), turns: sc.turns.slice(0, 3) }, signature: b.world.requests.map(r => r.text), violations: v.list }
  },
}
