import { genChat, modelChat, runChat } from '../lib/chat.mjs'
import { genResponses, modelResponses, runResponses } from '../lib/responses.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 8000, thorough: 250000 },
  id: 'P15',
  mustObserve: ['conversations run by the telemetry functions', 'generate steps', 'stream steps', 'responses steps', 'steps without usage', 'usage reported repeatedly', 'totals over several steps'],
  rule: 'Seeded multi-step conversations through generateText, streamText and responses whose answers report usage once, repeatedly (cumulative, on the finish chunk and again in a tail chunk), as null, or not at all; per-step, last and total usage (results, step callbacks, step-done events) are compared with the sum of what the provider reported. Non-trivial: at least two steps; distinct by the usages reported.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const mode = rng.pick(['generate', 'stream', 'stream', 'responses'])
    const profile = { errors: 0.1, hookP: 0.05, maxCalls: 2, prepareP: 0.05, reasoningP: 0.1, stop: rng.bool(0.8) ? 'long' : 'random', toolP: 0.95, scale: true, turns: rng.int(1, 6), usage: 'mixed' }
    const sc = mode === 'responses' ? genResponses(rng, profile) : genChat(rng, profile)
    if (mode === 'generate') for (const t of sc.turns) t.usage ??= { completion_tokens: 1, prompt_tokens: 2, total_tokens: 3 }
    if (mode === 'generate' && rng.bool(0.02)) {
      // a provider that leaves usage out of a non-streaming answer
      const tr = await runChat(api, { ...sc, stop: null, turns: [{ ...sc.turns[0], calls: [], finish: 'stop' }] }, rng, { extra: { fetch: async () => new Response(JSON.stringify({ choices: [{ finish_reason: 'stop', index: 0, message: { content: 'x', role: 'assistant' } }] })) }, stream: false })
      v.check(tr.ok, 'an answer without usage is an answer', () => short(tr.error), 'generate-answer-without-usage')
      if (tr.ok) v.check(tr.usage == null && tr.totalUsage == null, 'no usage is reported when the provider reported none', () => short([tr.usage, tr.totalUsage]))
      return { nontrivial: false, violations: v.list }
    }
    const m = mode === 'responses' ? modelResponses(sc) : modelChat(sc, { stream: mode === 'stream' })
    const tr = mode === 'responses' ? await runResponses(api, sc, rng) : await runChat(api, sc, rng, { stream: mode === 'stream' })
    v.check(!tr.hang && tr.ok, 'conversation succeeds', () => short(tr.error?.stack ?? tr.hang))
    if (tr.ok) {
      m.steps.forEach((s, i) => {
        const d = jdiff(tr.steps[i]?.usage, s.usage)
        if (d) v.add('step usage is what the provider reported for the step', `step ${i}: ${d}`)
        const c = jdiff(tr.rec.stepFinish[i]?.usage, s.usage)
        if (c) v.add('step callback sees the usage of its step', `step ${i}: ${c}`)
      })
      v.eq(tr.usage, m.usage, 'usage is that of the last step')
      v.eq(tr.totalUsage, m.total, 'total usage is the sum over the steps')
      if (mode !== 'generate') {
        const ev = tr.streams.event.items.filter(e => e.type === 'step.done').map(e => e.usage ?? null)
        v.eq(ev, m.steps.map(s => s.usage ?? null), 'step-done events carry the usage of their step')
      }
      count(`${mode} steps`, m.steps.length)
      count('steps without usage', m.steps.filter(s => !s.usage).length)
      if (m.steps.length > 1 && m.total) count('totals over several steps')
      if (mode === 'stream') for (const c of Object.values(tr.sent)) if (c.filter(x => x.usage != null).length > 1) count('usage reported repeatedly')
    }
    return { nontrivial: m.steps.length > 1, sample: { mode, totalUsage: tr.totalUsage, usages: m.steps.map(s => s.usage) }, signature: [mode, m.steps.map(s => s.usage), tr.totalUsage], violations: v.list }
  },
}
