import { genChat, modelChat, runChat } from '../lib/chat.mjs'
import { eventGrammar } from '../lib/oracle.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 5000, thorough: 150000 },
  id: 'P06',
  mustObserve: ['conversations run by the telemetry functions', 'events', 'tool calls started', 'tool results', 'failed sessions', 'steps with text and calls', 'interleaved calls'],
  rule: 'Seeded streamed chats (1-4 steps; odd chunk orders, interleaved and sparse tool fragments, refusals, empty pieces, hooks, failing tools, stop conditions) whose event stream and event callback log are run through an online grammar automaton and compared with the turns sent; a quarter of the sessions fail somewhere (HTTP error, broken connection, bad payload, throwing callback, malformed call) and must show a prefix of a valid sequence. Non-trivial: more than 6 events; distinct by event sequence.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const sc = genChat(rng, { errors: 0.2, hookP: 0.2, maxCalls: 5, prepareP: 0.1, reasoningP: 0.5, toolP: 0.85, scale: true, turns: rng.int(1, 4) })
    // a model that announces reasoning without any, and one that has reasoning and no text
    for (const t of sc.turns) if (rng.bool(0.06)) t.reasoning = ''
    const m = modelChat(sc, { stream: true })
    let faults = {}
    let broken = false
    const extra = {}
    if (rng.bool(0.25)) {
      broken = true
      const at = rng.int(0, m.steps.length - 1)
      const k = rng.pick(['http', 'cut', 'badchunk', 'finish', 'stop'])
      if (k === 'finish') extra.onFinish = () => { throw new Error('finish') }
      else if (k === 'stop') extra.stopWhen = ({ steps }) => { if (steps.length > at) throw new Error('stop'); return false }
      else faults = { [at]: { at: n => rng.int(0, n), body: 'x', error: new Error('cut'), kind: k, payload: 'nope', status: 503 } }
    }
    const tr = await runChat(api, sc, rng, { extra, faults, stream: true })
    v.check(!tr.hang, 'settles', 'hang')
    if (!broken) v.check(tr.ok, 'healthy conversation succeeds', () => short(tr.error?.stack ?? tr.error))
    const ev = tr.streams.event.items
    for (const [name, list] of [['event stream', ev], ['event callback', tr.rec.events]]) {
      for (const p of eventGrammar(list, { partial: broken }).slice(0, 2)) v.add(`grammar of the ${name}`, p)
    }
    const d = broken ? jdiff(ev, tr.rec.events.slice(0, ev.length)) : jdiff(ev, tr.rec.events)
    if (d) v.add('callback sees exactly what the stream delivers', d)
    // against what was sent and executed
    const groups = []
    for (const e of tr.rec.events) {
      if (e.type === 'step.start') groups.push([])
      groups.at(-1)?.push(e)
    }
    if (!broken) v.check(groups.length === m.steps.length, 'one group of events per step', () => `${groups.length} for ${m.steps.length}`)
    groups.forEach((g, i) => {
      const s = m.steps[i]
      if (!s) return
      const complete = g.at(-1)?.type === 'step.done'
      if (!complete) return
      const dones = g.filter(e => e.type === 'tool-call.done')
      v.eq(dones.map(e => [e.toolCallId, e.toolName, e.args]), s.turn.calls.map(c => [c.id, c.name, c.args]), 'every call is done once with its full arguments')
      v.check(g.filter(e => e.type === 'tool-call.delta').map(e => e.delta).join('').length === s.turn.calls.map(c => c.args).join('').length, 'call deltas add up to the arguments', () => short(g.filter(e => e.type === 'tool-call.delta')))
      const results = g.filter(e => e.type === 'tool-result.done')
      const stopThrows = extra.stopWhen !== undefined
      if (!stopThrows) {
        v.check(results.length === (s.executed ? s.calls.length : 0), 'one result per executed call', () => `step ${i}: ${results.length}`)
        for (const c of s.calls) v.check(results.filter(r => c.resultOk(r)).length === 1, 'result events carry the outcome of their call', () => `step ${i} ${c.callId}: ${short(results)}`)
      }
      for (const k of ['text', 'reasoning']) {
        const sent = s.turn[k] ?? ''
        const done = g.filter(e => e.type === `${k}.done`)
        v.check(done.length <= 1 && (sent === '' || done.length === 1), `${k} is done once`, () => `step ${i}: ${done.length}`)
        if (done.length > 0) v.check(done[0].content === sent, `${k} done event has the full content`, () => `step ${i}: ${short(done[0])} for ${short(sent)}`)
      }
      if (s.turn.text && s.turn.calls.length > 0) count('steps with text and calls')
    })
    count('events', ev.length)
    count('tool calls started', ev.filter(e => e.type === 'tool-call.start').length)
    count('tool results', ev.filter(e => e.type === 'tool-result.done').length)
    if (broken && !tr.ok) count('failed sessions')
    const ids = Object.values(tr.sent).map(p => p.flatMap(c => c.choices?.[0]?.delta?.tool_calls ?? []).map(c => c.index))
    if (ids.some(l => l.some((x, i) => i > 0 && x < l[i - 1]))) count('interleaved calls')
    return { nontrivial: ev.length > 6, sample: { events: ev.slice(0, 25) }, signature: ev, violations: v.list }
  },
}
