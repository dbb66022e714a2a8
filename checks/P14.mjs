import { evalStop, genStop, realStop } from '../lib/chat.mjs'
import { pickConversation } from '../lib/conversation.mjs'
import { callView, judgeExecutions } from '../lib/oracle.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 7000, thorough: 250000 },
  id: 'P14',
  mustObserve: ['conditions evaluated in responses', 'conversations run by the telemetry functions', 'conditions evaluated', 'stopped by condition with calls pending', 'stopped without calls', 'default single request', 'random contexts judged', 'conversations of more than fifty steps'],
  rule: 'Seeded conversations (generateText, streamText, responses) under random nestings of and/or/not over step counts, tool names, finish reasons, input length, token totals and constants (or no condition); the condition is observed each time it is evaluated and its context compared with the true conversation; the number of requests and executions is compared with the reference. The same condition trees are additionally judged on random contexts. Non-trivial: a condition was evaluated; distinct by condition and contexts.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const long = rng.bool(0.004)
    const conv = pickConversation(rng, kind => ({ errors: 0.1, hookP: 0.15, prepareP: 0.1, toolP: 0.9, turns: rng.int(1, 7), ...(long && { bigText: 20, exactTurns: rng.int(40, 160), maxCalls: 1, stop: 'long', toolP: 1 }), usage: kind === 'generate' ? 'all' : 'mixed' }))
    const { kind, sc } = conv
    const m = conv.model(sc)
    const tr = await conv.run(api, sc)
    v.check(!tr.hang && tr.ok, 'conversation succeeds', () => short(tr.error?.stack ?? tr.hang))
    v.check(tr.world.requests.length === m.requests.length, 'continues exactly while tools are requested and the condition is false', () => `${tr.world.requests.length} requests, expected ${m.requests.length}; stop ${short(sc.stop)}`)
    judgeExecutions(v, m, tr.rec)
    if (sc.stop) {
      // evaluated with the true context (it may be consulted for a step without calls or not)
      const due = m.contexts
      const got = tr.rec.contexts
      let j = 0
      for (const c of got) {
        while (j < due.length && due[j].steps.length < c.steps.length) j++
        const w = due[j]
        if (!w) { v.add('condition sees the conversation so far', `unexpected evaluation with ${c.steps.length} steps`); break }
        const d = conv.compare(c.input, w.input)
          ?? (c.steps.length !== w.steps.length ? `${c.steps.length} steps, expected ${w.steps.length}` : null)
          ?? jdiff(c.step.toolCalls.map(callView), w.step.toolCalls.map(callView))
          ?? ((c.step.finishReason !== w.step.finishReason) ? 'finish reason' : null)
          ?? ((c.step.text ?? '') !== (w.step.text ?? '') ? 'text' : null)
          ?? jdiff(c.steps.map(s => s.toolCalls.map(callView)), w.steps.map(s => s.toolCalls.map(callView)))
          ?? jdiff(c.steps.map(s => s.usage), w.steps.map(s => s.usage))
        if (d) v.add('condition sees the conversation so far', `evaluation with ${c.steps.length} steps: ${d}`)
      }
      for (const w of due) {
        if (w.step.toolCalls.length === 0) continue
        v.check(got.some(c => c.steps.length === w.steps.length), 'condition is consulted after every step with tool calls', () => `step ${w.steps.length - 1}`)
      }
      count('conditions evaluated', got.length)
      if (kind === 'responses') count('conditions evaluated in responses', got.length)
    }
    else {
      v.check(tr.world.requests.length === 1, 'a single request without a stop condition', () => `${tr.world.requests.length}`)
      count('default single request')
    }
    if (m.requests.length > 50) count('conversations of more than fifty steps')
    const last = m.steps.at(-1)
    if (last.turn.calls.length > 0) count('stopped by condition with calls pending')
    else count('stopped without calls')

    // combinators on arbitrary contexts
    const names = ['a', 'b', 'c']
    for (let i = 0; i < 6; i++) {
      const ast = genStop(rng, names, 4)
      const mkStep = () => ({ finishReason: rng.pick(['stop', 'tool_calls', 'length']), text: '', toolCalls: Array.from({ length: rng.int(0, 3) }, (_, k) => ({ args: '{}', toolCallId: `c${k}`, toolCallType: 'function', toolName: rng.pick(names) })), toolResults: [], usage: rng.bool(0.3) ? undefined : { inputTokens: 1, outputTokens: 1, totalTokens: rng.int(0, 900) } })
      const steps = Array.from({ length: rng.int(1, 6) }, mkStep)
      const ctx = { input: Array.from({ length: rng.int(1, 10) }, () => ({ content: '', role: 'user' })), step: steps.at(-1), steps }
      let got
      try { got = realStop(api.sharedChat, ast)(ctx) }
      catch (e) { v.add('combinators mean what they say', `threw ${short(e)} for ${short(ast)}`); continue }
      v.check(got === evalStop(ast, ctx), 'combinators mean what they say', () => `${got} for ${short(ast)} on ${short({ calls: ctx.step.toolCalls.map(c => c.toolName), steps: steps.length })}`)
      count('random contexts judged')
    }
    return { nontrivial: sc.stop != null, sample: { requests: tr.world.requests.length, stop: sc.stop, turns: sc.turns.map(t => t.calls.map(c => c.name)) }, signature: [kind, sc.stop, tr.rec.contexts], violations: v.list }
  },
}
