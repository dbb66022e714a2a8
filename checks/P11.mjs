import { genTurn } from '../lib/chat.mjs'
import { pickConversation } from '../lib/conversation.mjs'
import { judgeExecutions, positions } from '../lib/oracle.mjs'
import { turnItems } from '../lib/responses.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'
import { randomTick, tick } from '../lib/world.mjs'

/** some providers give several calls of one step the same id, or none: the order of the answers tells them apart */
const twins = async (v, api, rng, count) => {
  const conv = pickConversation(rng, { hookP: 0, prepareP: 0, toolP: 0, turns: 2 }, { responses: 0.33 })
  const { sc } = conv
  const ids = rng.pick([[''], ['call_0'], ['a', 'b'], ['', 'x']])
  const n = rng.int(2, 6)
  const calls = Array.from({ length: n }, (_, i) => ({ args: JSON.stringify({ n: i }), id: rng.pick(ids), name: 'twin' }))
  const fails = calls.map(() => rng.bool(0.15))
  sc.turns = [genTurn(rng, {}, calls), genTurn(rng, {}, [])]
  if (conv.kind === 'responses') {
    sc.turns.forEach((t, i) => {
      t.items = turnItems(rng, t, i)
      t.end = 'completed'
    })
  }
  const runs = []
  const tools = [{
    execute: async (input, options) => {
      runs.push({ id: options.toolCallId, n: input.n })
      await tick(randomTick(rng, 0.2))
      if (fails[input.n]) throw new Error(`failure-${input.n}`)
      return `answer-${input.n}`
    },
    function: { name: 'twin', parameters: { properties: { n: { type: 'number' } }, type: 'object' } },
    type: 'function',
  }]
  const tr = await conv.run(api, sc, { extra: { postToolCall: undefined, preToolCall: undefined, prepareStep: undefined, stopWhen: api.sharedChat.stepCountAtLeast(9), toolChoice: undefined, tools } })
  const where = `${conv.kind}: ${short(calls.map(c => c.id))}`
  if (!v.check(!tr.hang && tr.ok, 'conversation succeeds', () => `${where}: ${short(tr.error?.stack ?? tr.error)}`)) return
  const ran = jdiff(runs.toSorted((a, b) => a.n - b.n), calls.map((c, i) => ({ id: c.id, n: i })))
  if (ran) v.add('every call is executed exactly once', `${where}: ${ran}`)
  const told = (conv.kind === 'responses' ? tr.world.requests[1]?.json?.input?.filter(x => x.type === 'function_call_output' && x.call_id !== 'old').map(x => ({ id: x.call_id, text: x.output })) : tr.world.requests[1]?.json?.messages?.slice(-n).map(x => ({ id: x.tool_call_id, text: x.content }))) ?? []
  const ok = (text, i) => typeof text === 'string' && (fails[i] ? text.includes(`failure-${i}`) : text === `answer-${i}`)
  v.check(told.length === n && told.every((x, i) => x.id === calls[i].id && ok(x.text, i)), 'the model is told each answer, in the order of the calls', () => `${where}: ${short(told)}`)
  const said = tr.steps[0].toolResults
  v.check(said.length === n && said.every((x, i) => x.toolCallId === calls[i].id && x.args?.n === i && ok(x.result, i) && (x.isError === true) === fails[i]), 'step reports each call with its own outcome', () => `${where}: ${short(said)}`)
  count('calls sharing an id', n)
  return { nontrivial: true, sample: { ids: calls.map(c => c.id), kind: conv.kind }, signature: [conv.kind, calls, fails, runs] }
}

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 5000, thorough: 150000 },
  hangMs: 60_000,
  id: 'P11',
  mustObserve: ['calls sharing an id', 'parallel calls in responses', 'conversations run by the telemetry functions', 'steps with parallel calls', 'answers finished out of call order', 'barrier steps passed', 'failing calls among others'],
  rule: 'Seeded conversations (generateText, streamText, responses) with up to 9 parallel calls per step whose tools finish in random orders, some failing synchronously or asynchronously, same tool called repeatedly, ids reused across steps or shared within one; in a share of the steps every tool waits at a barrier until all tools of the step have started. Non-trivial: a step with at least 2 calls was executed; distinct by the interleaving of starts and ends observed.',
  async run({ api, count, rng }) {
    const v = new Violations()
    if (rng.bool(0.08)) return { ...await twins(v, api, rng, count), violations: v.list }
    const conv = pickConversation(rng, { errors: 0.3, hookP: 0.15, maxCalls: 9, prepareP: 0.05, reasoningP: 0.1, stop: 'long', toolP: 1, scale: true, turns: rng.int(2, 4), validateP: 0.2 })
    const { sc } = conv
    // barriers: all executable calls of the step have to be running at once
    const m = conv.model(sc)
    for (const [t, s] of m.steps.entries()) {
      const ex = s.calls.filter(c => c.executed)
      for (const c of s.calls) if (c.plan) c.plan.delay = rng.bool(0.3) ? 0 : randomTick(rng, 0.1)
      if (ex.length >= 2 && rng.bool(0.4)) {
        let open
        const gate = new Promise((r) => { open = r })
        let n = 0
        for (const c of ex) {
          sc.plans[`${t}:${c.callId}`].onRun = () => {
            if (++n === ex.length) {
              count('barrier steps passed')
              open()
            }
            return gate
          }
        }
      }
    }
    const tr = await conv.run(api, sc)
    v.check(!tr.hang, 'parallel calls do not wait on each other', 'calls of one step were not running together: the conversation is stuck')
    if (!tr.hang) v.check(tr.ok, 'conversation succeeds', () => short(tr.error?.stack ?? tr.error))
    judgeExecutions(v, m, tr.rec)
    conv.judge(v, sc, m, tr.world, { only: 'history' })
    if (tr.ok) {
      const dh = conv.compare(tr.messages, m.history)
      if (dh) v.add('returned messages', dh)
      m.steps.forEach((w, i) => {
        const d = conv.diff(tr.steps[i], w)
        if (d) v.add('step reports each call with its own outcome', `step ${i}: ${d}`)
      })
    }
    let parallel = 0
    for (const [t, s] of m.steps.entries()) {
      if (s.calls.length < 2) continue
      parallel++
      if (conv.kind === 'responses' && s.executed) count('parallel calls in responses')
      if (s.calls.some(c => c.error !== undefined) && s.calls.some(c => c.error === undefined)) count('failing calls among others')
      const ends = positions(tr.world, 'exec-end').filter(e => e.data.startsWith(`${t}:`)).map(e => e.data)
      const starts = s.calls.map(c => `${t}:${c.callId}`).filter(x => ends.includes(x))
      if (ends.join() !== starts.join()) count('answers finished out of call order')
    }
    count('steps with parallel calls', parallel)
    return { nontrivial: parallel > 0, sample: { log: tr.world.log.filter(e => e[0].startsWith('exec')).slice(0, 30), turns: sc.turns.slice(0, 2) }, signature: tr.world.log.filter(e => e[0] !== 'chunk'), violations: v.list }
  },
}
