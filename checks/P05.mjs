import { genChat, modelChat, runStream, turnAt, compareHistory } from '../lib/chat.mjs'
import { Violations, jdiff, short } from '../lib/util.mjs'

/** conservation oracle over a finished, successful session */
export const conservation = (v, sc, m, tr) => {
  const turns = m.steps.map(s => s.turn)
  const text = turns.map(t => t.text ?? '').join('')
  const reasoning = turns.map(t => t.reasoning ?? '').join('')
  const items = k => tr.streams[k]?.items
  if (tr.streams.text) v.check(items('text').join('') === text, 'text stream is the text sent', () => `got ${short(items('text').join(''))} want ${short(text)}`)
  if (tr.streams.reasoning) v.check(items('reasoning').join('') === reasoning, 'reasoning stream is the reasoning sent', () => `got ${short(items('reasoning').join(''))} want ${short(reasoning)}`)
  if (tr.streams.full) {
    const want = Object.keys(tr.sent).sort((a, b) => a - b).flatMap(i => tr.sent[i])
    const d = jdiff(items('full'), want)
    if (d) v.add('full stream is the payload sequence', d)
  }
  if (tr.streams.event) {
    const perStep = splitSteps(items('event'))
    v.check(perStep.length === turns.length, 'one event group per step', () => `${perStep.length} groups, ${turns.length} steps`)
    turns.forEach((turn, i) => {
      const evs = perStep[i] ?? []
      const cat = type => evs.filter(e => e.type === type).map(e => e.delta).join('')
      v.check(cat('text.delta') === (turn.text ?? ''), 'text events carry the text sent', () => `step ${i}: ${short(cat('text.delta'))} want ${short(turn.text)}`)
      v.check(cat('reasoning.delta') === (turn.reasoning ?? ''), 'reasoning events carry the reasoning sent', () => `step ${i}: ${short(cat('reasoning.delta'))} want ${short(turn.reasoning)}`)
      const wantArgs = (tr.sent[i] ?? []).flatMap(c => c.choices?.[0]?.delta?.tool_calls ?? []).map(c => c.function?.arguments ?? '').join('')
      v.check(cat('tool-call.delta') === wantArgs, 'tool-call delta events carry the argument fragments sent', () => `step ${i}: ${short(cat('tool-call.delta'))} want ${short(wantArgs)}`)
      const starts = evs.filter(e => e.type === 'tool-call.start').map(e => ({ id: e.toolCallId, name: e.toolName }))
      // in the order in which they arrived
      const arrived = [...new Set((tr.sent[i] ?? []).flatMap(c => c.choices?.[0]?.delta?.tool_calls ?? []).map(c => c.index))]
      const sorted = [...arrived].sort((a, b) => a - b)
      v.eq(starts, arrived.map(x => turn.calls[sorted.indexOf(x)]).map(c => ({ id: c.id, name: c.name })), 'tool-call start events name the calls sent')
      const dones = evs.filter(e => e.type === 'tool-call.done').map(e => ({ args: e.args, id: e.toolCallId, name: e.toolName }))
      v.eq(dones, turn.calls.map(c => ({ args: c.args, id: c.id, name: c.name })), 'tool-call done events carry the assembled calls')
    })
  }
  if (tr.settled?.steps?.status === 'fulfilled') {
    const steps = tr.settled.steps.value
    v.check(steps.length === turns.length, 'steps counted', () => `${steps.length} vs ${turns.length}`)
    turns.forEach((turn, i) => {
      v.check((steps[i]?.text ?? '') === (turn.text ?? ''), 'step text is the text sent', () => `step ${i}: ${short(steps[i]?.text)} want ${short(turn.text)}`)
      v.check(steps[i]?.finishReason === (turn.finish ?? 'other'), 'step finish reason is the one sent', () => `step ${i}: ${steps[i]?.finishReason} want ${turn.finish}`)
      if (!m.steps[i].executed) v.eq(steps[i]?.toolCalls?.map(c => [c.toolCallId, c.toolName, c.args]), turn.calls.map(c => [c.id, c.name, c.args]), 'step tool calls are the calls sent')
    })
  }
  if (tr.settled?.messages?.status === 'fulfilled') {
    const msgs = tr.settled.messages.value
    const d = compareHistory(msgs.filter(x => x.role !== 'tool'), m.history.filter(x => x.role !== 'tool'))
    if (d) v.add('recorded assistant messages carry the content sent', d)
  }
}

export const splitSteps = (events) => {
  const out = []
  for (const e of events) {
    if (e.type === 'step.start' || out.length === 0) out.push([])
    out.at(-1).push(e)
  }
  return out
}

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 4000, thorough: 120000 },
  id: 'P05',
  mustObserve: ['conversations run by the telemetry functions', 'text pieces', 'reasoning pieces', 'tool fragments', 'multi-step sessions', 'interleaved tool fragments'],
  rule: 'Seeded streamed chat sessions (1-5 steps) whose turns are encoded as chunk sequences: arbitrary splits of text/reasoning/arguments (inside surrogate pairs, empty pieces), any order of kinds, interleaved and sparsely indexed parallel calls, fragments without arguments, content riding on tool deltas, refusals, choice-less chunks; arbitrary byte chunking. Non-trivial: at least 3 payloads delivered; distinct by the hash of everything delivered.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const sc = genChat(rng, { errors: 0.05, hookP: 0, maxCalls: 6, prepareP: 0, reasoningP: 0.5, stop: 'long', scale: true, turns: 5, validateP: 0 })
    // a provider that never says why it stopped
    for (const t of sc.turns) if (rng.bool(0.05)) t.finish = undefined
    const m = modelChat(sc, { stream: true })
    const tr = await runStream(api, api.streamText.streamText, sc, rng)
    v.check(!tr.hang, 'session settles', 'hang')
    v.check(tr.settled?.steps?.status === 'fulfilled', 'healthy session succeeds', () => short(tr.settled?.steps?.reason?.stack ?? tr.syncError))
    conservation(v, sc, m, tr)
    const payloads = Object.values(tr.sent).flat()
    count('text pieces', tr.streams.text.items.length)
    count('reasoning pieces', tr.streams.reasoning.items.length)
    count('payloads', payloads.length)
    const frag = payloads.flatMap(c => c.choices?.[0]?.delta?.tool_calls ?? [])
    count('tool fragments', frag.length)
    if (m.steps.length > 1) count('multi-step sessions')
    if (frag.some((f, i) => i > 1 && f.index < frag[i - 1].index && frag[i - 1].index > 0)) count('interleaved tool fragments')
    if (frag.length > 0 && Math.min(...frag.map(f => f.index)) > 0) count('sparse indices')
    return { nontrivial: payloads.length >= 3, sample: { sent: tr.sent, turns: sc.turns }, signature: [tr.streams.text.items, tr.streams.reasoning.items, tr.streams.event.items.length, payloads.length], violations: v.list }
  },
}
