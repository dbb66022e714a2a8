import { pickConversation } from '../lib/conversation.mjs'
import { callView, positions } from '../lib/oracle.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 6000, thorough: 200000 },
  id: 'P16',
  mustObserve: ['preparations in responses', 'conversations run by the telemetry functions', 'preparations', 'input overrides', 'model overrides', 'tool choice overrides', 'overrides not repeated', 'vandalising callbacks'],
  rule: 'Seeded conversations (generateText, streamText, responses) with a step-preparation callback (sync/async) that overrides any subset of input, model and tool choice in some steps and not in others, and in a share of the steps scribbles over every object it was handed or returned. Arguments seen by the callback, each request, and final messages and steps are compared with the reference. Non-trivial: at least one override; distinct by requests.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const conv = pickConversation(rng, { errors: 0.1, hookP: 0.15, maxCalls: 3, prepareP: 1, reasoningP: 0.2, stop: 'long', toolP: 0.9, scale: true, turns: rng.int(1, 5), validateP: 0.2 })
    const { kind, sc } = conv
    const m = conv.model(sc)
    const tr = await conv.run(api, sc)
    v.check(!tr.hang && tr.ok, 'conversation succeeds', () => short(tr.error?.stack ?? tr.hang))
    const got = tr.rec.prepare
    v.check(got.length === m.prepareArgs.length, 'runs once before each request', () => `${got.length} runs, ${m.prepareArgs.length} requests due`)
    const prep = positions(tr.world, 'prepare')
    const reqs = positions(tr.world, 'request')
    reqs.forEach((r, i) => v.check(prep[i]?.at < r.at && (i === 0 || prep[i]?.at > reqs[i - 1].at), 'runs right before its request', () => `request ${i}`))
    m.prepareArgs.forEach((w, i) => {
      const g = got[i]
      if (!g) return
      const d = conv.compare(g.input, w.input)
      if (d) v.add('sees the true conversation', `step ${i}: ${d}`)
      v.check(g.model === w.model, 'sees the base model', () => `step ${i}: ${g.model}`)
      v.check(g.stepNumber === w.stepNumber, 'sees the step number', () => `step ${i}: ${g.stepNumber}`)
      v.check(g.steps.length === w.steps.length, 'sees the completed steps', () => `step ${i}: ${g.steps.length}`)
      const sd = jdiff(g.steps.map(s => [s.finishReason, s.text ?? '', s.toolCalls.map(callView), s.usage]), w.steps.map(s => [s.finishReason, s.text ?? '', s.toolCalls.map(callView), s.usage]))
      if (sd) v.add('sees the completed steps', `step ${i}: ${sd}`)
    })
    conv.judge(v, sc, m, tr.world)
    if (tr.ok) {
      const dh = conv.compare(tr.messages, m.history)
      if (dh) v.add('history is the unprepared one', dh)
      v.check(tr.steps?.length === m.steps.length, 'steps', () => `${tr.steps?.length} steps, expected ${m.steps.length}`)
      m.steps.forEach((w, i) => {
        const ds = conv.diff(tr.steps?.[i], w) ?? jdiff(tr.steps?.[i]?.usage, w.usage)
        if (ds) v.add('steps', `step ${i}: ${ds}`)
      })
    }
    const used = sc.prepare.slice(0, m.requests.length)
    count('preparations', got.length)
    if (kind === 'responses') count('preparations in responses', got.length)
    for (const p of used) {
      if (p.none) continue
      if (p.input) count('input overrides')
      if (p.model) count('model overrides')
      if (p.toolChoice) count('tool choice overrides')
      if (p.vandal) count('vandalising callbacks')
    }
    used.forEach((p, i) => {
      const prev = used[i - 1]
      if (prev && !prev.none && ((prev.model && (p.none || !p.model)) || (prev.toolChoice && (p.none || !p.toolChoice)) || (prev.input && (p.none || !p.input)))) count('overrides not repeated')
    })
    return { nontrivial: used.some(p => !p.none && (p.input || p.model || p.toolChoice)), sample: { prepare: used, requests: tr.world.requests.map(r => ({ messages: (r.json.messages ?? r.json.input).length, model: r.json.model, tool_choice: r.json.tool_choice })) }, signature: tr.world.requests.map(r => r.text), violations: v.list }
  },
}
