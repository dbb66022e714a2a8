import { parseArgs, validation } from '../lib/chat.mjs'
import { pickConversation } from '../lib/conversation.mjs'
import { judgeExecutions } from '../lib/oracle.mjs'
import { jeq, short, Violations } from '../lib/util.mjs'

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 8000, thorough: 250000 },
  id: 'P12',
  mustObserve: ['calls in responses', 'conversations run by the telemetry functions', 'executed calls', 'unparsable arguments', 'rejected arguments', 'transformed arguments', 'unknown tools', 'tool exceptions', 'calls without name or arguments'],
  rule: 'Seeded conversations (generateText, streamText, responses) whose calls carry blank, broken, scalar, pretty-printed and regular JSON arguments for tools with accepting, rejecting, transforming, asynchronous and throwing validators, unknown tool names, throwing tools (Error, raw values, empty message), plus calls missing name or arguments. Monitors on every tool function and validator compare what they receive with an independent reading of the arguments sent. Non-trivial: at least one call; distinct by the calls made and their outcomes.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const conv = pickConversation(rng, { errors: 0.35, hookP: 0, prepareP: 0, reasoningP: 0.05, stop: 'long', toolP: 0.95, scale: true, turns: rng.int(1, 4), validateP: 0.75 })
    const { kind, sc, stream } = conv
    const reach = sc.turns.findIndex(t => t.calls.length === 0)
    const reachable = sc.turns.map((x, i) => i).filter(i => (reach < 0 || i < reach))
    const broken = rng.bool(0.12) && reachable.length > 0 && (kind !== 'responses' || reachable.every(i => sc.turns[i].end === 'completed'))
    if (broken) {
      // the provider forgets the name or the arguments of a call
      const t = rng.pick(reachable)
      const c = rng.pick(sc.turns[t].calls)
      const what = stream ? 'name' : rng.pick(['name', 'args'])
      c[what] = rng.bool() ? null : undefined
      if (stream && kind !== 'responses') c.name = rng.bool() ? null : undefined
      const item = sc.turns[t].items?.find(x => x.call === c)?.item
      if (item && what === 'name') item.name = c.name
      const tr = await conv.run(api, sc)
      v.check(!tr.hang, 'settles', 'hang')
      v.check(!tr.ok, 'a call without name or arguments fails the conversation', 'it succeeded')
      const E = api.shared.InvalidToolCallError
      v.check(E.isInstance(tr.error), 'a call without name or arguments is an invalid-tool-call error', () => short(tr.error))
      v.check(tr.error?.reason === (what === 'name' ? 'missing_name' : 'missing_arguments'), 'reason names what is missing', () => `${tr.error?.reason} for ${what}`)
      v.check(tr.world.requests.length === t + 1, 'no further request after a malformed call', () => `${tr.world.requests.length} requests, malformed in step ${t}`)
      count('calls without name or arguments')
      return { nontrivial: true, sample: { turns: sc.turns }, signature: sc.turns, violations: v.list }
    }
    const m = conv.model(sc)
    const tr = await conv.run(api, sc)
    v.check(!tr.hang, 'settles', 'hang')
    v.check(tr.ok, 'bad calls never abort the conversation', () => short(tr.error?.stack ?? tr.error))
    judgeExecutions(v, m, tr.rec)
    conv.judge(v, sc, m, tr.world, { only: 'history' })
    if (tr.ok) {
      m.steps.forEach((w, i) => {
        const d = conv.diff(tr.steps[i], w)
        if (d) v.add('results tell the outcome', `step ${i}: ${d}`)
      })
    }
    // independent of the model: everything a tool or validator ever saw
    const callOf = e => sc.turns[e.t]?.calls.find(c => c.id === e.id)
    for (const e of tr.rec.exec) {
      const call = callOf(e)
      const spec = sc.tools.find(x => x.name === e.name)
      const p = call && parseArgs(call.args)
      v.check(p?.ok, 'tool ran although its arguments do not parse', () => short(call))
      if (!p?.ok) continue
      const w = spec.validate == null ? { ok: true, value: p.value } : validation(spec.validate, p.value)
      v.check(w.ok && jeq(w.value, e.input), 'tool input is the accepted, validated value', () => `${short(e.input)} for ${short(call.args)} under ${spec.validate}`)
      v.check(e.intact, 'a validated value arrives as it is', () => `${spec.name}: the instance of ${spec.validate} was copied`)
      v.check(call.name === e.name, 'the tool named in the call runs', () => `${e.name} for ${call.name}`)
    }
    for (const x of tr.rec.validated) {
      v.check(sc.turns.some(t => t.calls.some(c => c.name === x.name && parseArgs(c.args).ok && jeq(parseArgs(c.args).value, x.input))), 'validators see the parsed arguments', () => short(x))
    }
    const calls = m.steps.flatMap(s => s.calls)
    if (kind === 'responses') count('calls in responses', calls.length)
    for (const c of calls) {
      const spec = sc.tools.find(x => x.name === c.toolCall.toolName)
      if (!spec) count('unknown tools')
      else if (!parseArgs(c.toolCall.args).ok) count('unparsable arguments')
      else if (!c.executed) count('rejected arguments')
      else {
        count('executed calls')
        if (spec.validate?.startsWith('transform')) count('transformed arguments')
        if (c.error !== undefined) count('tool exceptions')
      }
    }
    return { nontrivial: calls.length > 0, sample: { exec: tr.rec.exec.map(e => [e.name, e.input]).slice(0, 5), turns: sc.turns.slice(0, 2) }, signature: [kind, m.history.map(h => h.$tool ? [h.$tool.toolCall, h.$tool.error] : h)], violations: v.list }
  },
}
