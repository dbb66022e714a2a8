import { genChat, modelChat, runChat } from '../lib/chat.mjs'
import { judgeExecutions, judgeMessages, judgeRequests, judgeSteps, stepDiff } from '../lib/oracle.mjs'
import { jdiff, jeq, jview, short, Violations } from '../lib/util.mjs'

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 8000, thorough: 250000 },
  id: 'P09',
  mustObserve: ['conversations run by the telemetry functions', 'multi-step sessions', 'tool messages', 'content given as parts', 'step overrides'],
  rule: 'Seeded non-streaming conversations of 1-8 steps against a scripted provider: parallel calls to known/unknown tools, odd arguments, failing/slow tools, hooks, validators, stop conditions, step preparation, content as text/null/parts, extra message fields; JSON answers cut anywhere. Compared request by request and field by field with an independent reference conversation. Non-trivial: at least one tool call answered; distinct by the hash of all requests.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const sc = genChat(rng, { scale: true, turns: rng.int(1, 8) })
    for (const turn of sc.turns) {
      if (rng.bool(0.1)) turn.extra = { annotations: [{ type: 'url_citation', n: rng.int(0, 9) }], refusal: null, vendor_field: rng.json(1) }
      if (rng.bool(0.08)) {
        turn.partsContent = Array.from({ length: rng.int(1, 3) }, () => rng.bool(0.8) ? { text: rng.text(20), type: 'text' } : { refusal: rng.text(5), type: 'refusal' })
        count('content given as parts')
      }
      // only the first answer counts
      if (rng.bool(0.05)) turn.alternatives = [{ finish_reason: 'length', index: 1, message: { content: 'another answer', role: 'assistant', ...(rng.bool() && { tool_calls: [{ function: { arguments: '{}', name: 'other' }, id: 'other', type: 'function' }] }) } }]
    }
    const m = modelChat(sc, { stream: false })
    const tr = await runChat(api, sc, rng, { stream: false })
    v.check(!tr.hang, 'call settles', 'hang')
    v.check(tr.ok, 'healthy conversation succeeds', () => short(tr.error?.stack ?? tr.error))
    judgeRequests(v, sc, m, tr.world, { stream: false })
    judgeExecutions(v, m, tr.rec)
    if (tr.ok) {
      const r = tr.result
      judgeMessages(v, r.messages, m)
      // what the model said goes into the history as it was said
      m.history.forEach((w, i) => {
        if (i < sc.messages.length || w.$tool) return
        const d = jdiff(jview(r.messages[i]), w)
        if (d) v.add('answers are kept verbatim', `message ${i}: ${d}`)
        const later = sc.prepare ? undefined : tr.world.requests.at(-1).json?.messages?.[i]
        if (later && !jeq(later, w)) v.add('answers are sent back verbatim', `message ${i}: ${jdiff(later, w)}`)
      })
      judgeSteps(v, r.steps, m, { usage: true })
      const last = m.steps.at(-1)
      const d = stepDiff(r, last)
      if (d) v.add('result is the last step', d)
      v.check((r.reasoningText ?? null) === (last.turn.reasoning ?? null), 'reasoning text is the last answer\'s', () => `${short(r.reasoningText)} vs ${short(last.turn.reasoning)}`)
    }
    if (m.steps.length > 1) count('multi-step sessions')
    count('requests', tr.world.requests.length)
    const toolMsgs = m.history.filter(x => x.$tool).length
    count('tool messages', toolMsgs)
    if (sc.prepare?.some(p => p.input || p.model || p.toolChoice)) count('step overrides')
    return { nontrivial: toolMsgs > 0, sample: { requests: tr.world.requests.map(r => r.json).slice(0, 3), turns: sc.turns.slice(0, 3) }, signature: tr.world.requests.map(r => r.text), violations: v.list }
  },
}
