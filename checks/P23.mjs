import { judgeExecutions, stepDiff } from '../lib/oracle.mjs'
import { compareItems, genResponses, judgeResponsesRequests, modelResponses, runResponses } from '../lib/responses.mjs'
import { jview, short, Violations } from '../lib/util.mjs'

export default {
  bundles: ['core'],
  cases: { quick: 4500, thorough: 150000 },
  id: 'P23',
  mustObserve: ['multi-step sessions', 'function outputs', 'failed answers', 'incomplete answers', 'string inputs', 'step overrides', 'parallel calls'],
  rule: 'Seeded Responses-API conversations of 1-6 steps (string or item inputs, reasoning/message/refusal/function-call/compaction items, parallel calls, odd arguments, hooks, validators, failing tools, stop conditions, preparation, completed/failed/incomplete answers) under arbitrary byte chunking, compared request by request and field by field with an independent reference conversation. Non-trivial: at least one function call; distinct by requests.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const sc = genResponses(rng, { hookP: 0.25, toolP: 0.85, scale: true, turns: rng.int(1, 6) })
    const streamOptions = rng.bool(0.1) ? { includeObfuscation: false } : undefined
    const m = modelResponses(sc)
    const tr = await runResponses(api, sc, rng, { extra: streamOptions ? { streamOptions } : {} })
    v.check(!tr.hang, 'settles', 'hang')
    v.check(tr.ok, 'healthy conversation succeeds', () => short(tr.error?.stack ?? tr.error))
    judgeResponsesRequests(v, sc, m, tr.world, { extraBody: streamOptions ? { stream_options: { include_obfuscation: false } } : {} })
    judgeExecutions(v, m, tr.rec)
    if (tr.ok) {
      const d = compareItems(tr.messages, m.history)
      if (d) v.add('resulting input', d)
      v.check(tr.steps.length === m.steps.length, 'steps', () => `${tr.steps.length}, expected ${m.steps.length}`)
      m.steps.forEach((w, i) => {
        const hasRefusal = w.turn.items.some(x => x.item.content?.some?.(p => p.type === 'refusal'))
        const dd = stepDiff(hasRefusal && tr.steps[i] ? { ...tr.steps[i], text: w.text } : tr.steps[i], w, { stream: false })
        if (dd && !((tr.steps[i]?.text ?? '') === (w.text ?? '') && dd.startsWith('text '))) v.add('steps', `step ${i}: ${dd}`)
      })
      const ids = tr.messages.filter(x => x.type === 'function_call_output' && x.status === 'completed').map(x => x.id).filter(x => x != null)
      const others = new Set(tr.messages.filter(x => x.type !== 'function_call_output').map(x => x.id).filter(x => x != null))
      v.check(new Set(ids).size === ids.length && !ids.some(x => others.has(x)), 'output items have their own ids', () => short(ids))
    }
    if (m.steps.length > 1) count('multi-step sessions')
    if (typeof sc.input === 'string') count('string inputs')
    const outputs = m.history.filter(x => x.$tool).length
    count('function outputs', outputs)
    if (m.steps.some(s => s.calls.length > 1)) count('parallel calls')
    if (m.steps.at(-1).finishReason === 'error') count('failed answers')
    if (m.steps.at(-1).finishReason === 'length') count('incomplete answers')
    if (sc.prepare?.some(p => !p.none && (p.input || p.model || p.toolChoice))) count('step overrides')
    return { nontrivial: m.steps.some(s => s.turn.calls.length > 0), sample: { requests: tr.world.requests.map(r => r.json).slice(0, 3), turns: jview(sc.turns.slice(0, 2)) }, signature: tr.world.requests.map(r => r.text), violations: v.list }
  },
}
