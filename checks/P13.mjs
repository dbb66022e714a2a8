import { compareHistory, genChat, runChat } from '../lib/chat.mjs'
import { pickConversation } from '../lib/conversation.mjs'
import { judgeExecutions } from '../lib/oracle.mjs'
import { genResponses, runResponses } from '../lib/responses.mjs'
import { jview, short, Violations } from '../lib/util.mjs'
import { tick } from '../lib/world.mjs'

/** values of the caller that are more than data: they cannot be cloned, or lose something when they are */
class Money {
  #cents
  constructor(cents) { this.#cents = cents }
  get cents() { return this.#cents }
  toJSON() { return { cents: this.#cents } }
}
const live = (rng, i) => rng.pick([
  () => new Money(i),
  () => new Map([[i, 'x']]),
  () => new Set([i]),
  () => ({ i, run: () => i }),
  () => Object.freeze({ i, nested: Object.freeze({ i }) }),
  () => ({ [Symbol.for('tag')]: i, i }),
  () => new Proxy({ i }, {}),
  () => Object.assign(Object.create(null), { i }),
  () => new (class Odd extends Array {})(i, i),
  () => new URL(`https://x.test/${i}`),
  () => new Date(i),
])()

/** what validators and tools produce is handed on as it is */
const liveCase = async ({ api, count, rng, v }) => {
  const kind = rng.pick(['generate', 'stream', 'responses'])
  const sc = (kind === 'responses' ? genResponses : genChat)(rng, { errors: 0, hookP: 0, maxCalls: 3, prepareP: 0, stop: 'long', toolP: 1, turns: rng.int(2, 3), validateP: 0 })
  const validated = []
  const ran = []
  const posted = []
  const events = []
  const steps = []
  const tools = sc.tools.map((t, k) => ({
    execute: (input, { toolCallId }) => {
      const result = live(rng, ran.length)
      ran.push({ input, result, toolCallId })
      return rng.bool() ? result : Promise.resolve(result)
    },
    function: { name: t.name, parameters: {} },
    type: 'function',
    ...(k % 3 !== 2 && { validate: (input) => {
      const value = live(rng, validated.length)
      validated.push({ input, value })
      return rng.bool() ? { value } : Promise.resolve({ value })
    } }),
  }))
  const extra = { onEvent: e => void events.push(e), onFinish: undefined, onStepFinish: s => void steps.push(s), tools, ...(rng.bool(0.7) && { postToolCall: (r) => { posted.push(r) } }) }
  const tr = await (kind === 'responses' ? runResponses(api, sc, rng, { extra, sse: { eventNames: true } }) : runChat(api, sc, rng, { extra, stream: kind === 'stream' }))
  if (!v.check(!tr.hang && tr.ok, 'values of any kind pass', () => `${kind}: ${short(tr.error?.stack ?? tr.error)}`)) return
  count('live values', ran.length)
  const inputs = new Set(ran.map(r => r.input))
  for (const x of validated) v.check(inputs.has(x.value), 'the tool gets the very value its validator accepted', () => `${kind}: ${short(x.value)}`)
  for (const p of posted) v.check(ran.some(r => r.toolCallId === p.toolCallId && r.input === p.args && r.result === p.result), 'the post hook sees the values themselves', () => `${kind}: ${short(p)}`)
  const results = tr.steps.flatMap(s => s.toolResults).filter(r => ran.some(x => x.toolCallId === r.toolCallId))
  for (const r of results) v.check(r.isError || ran.some(x => x.toolCallId === r.toolCallId && x.result === r.result && x.input === r.args), 'steps report the values themselves', () => `${kind}: ${short(r)}`)
  if (kind !== 'generate') for (const e of events.filter(x => x.type === 'tool-result.done')) v.check(e.isError || ran.some(x => x.toolCallId === e.toolCallId && x.result === e.result), 'events report the values themselves', () => `${kind}: ${short(e)}`)
  for (const m of tr.messages) {
    const id = m.tool_call_id ?? (m.type === 'function_call_output' ? m.call_id : undefined)
    const told = m.content ?? m.output
    if (id === undefined || typeof told !== 'string') continue
    const of = ran.filter(x => x.toolCallId === id)
    if (of.length === 1 && sc.turns.flatMap(t => t.calls).filter(c => c.id === id).length === 1) v.check(told === JSON.stringify(of[0].result), 'the model is told the result', () => `${kind}: ${told} of ${short(of[0].result)}`)
  }
  return { nontrivial: ran.length > 0, sample: { kind, ran: ran.length }, signature: ['live', kind, sc.turns], violations: v.list }
}

/** an abort while tools run changes nothing about which calls the post hook is shown */
const abortCase = async ({ api, count, rng, v }) => {
  const kind = rng.pick(['generate', 'stream', 'responses'])
  const sc = (kind === 'responses' ? genResponses : genChat)(rng, { errors: 0, hookP: 0, maxCalls: 4, prepareP: 0, stop: 'long', toolP: 1, turns: 2, validateP: 0 })
  const ctrl = new AbortController()
  const at = rng.int(0, 3)
  const ran = []
  const posted = []
  const tools = sc.tools.map(t => ({
    execute: (_, { toolCallId }) => {
      ran.push(toolCallId)
      const how = rng.int(0, 2)
      if (ran.length > at && how === 0) ctrl.abort()
      const end = () => {
        if (ran.length > at) ctrl.abort()
        if (rng.bool(0.3)) throw new Error('stopped')
        return `result of ${toolCallId}`
      }
      return how === 2 ? end() : tick(rng.int(0, 6)).then(end)
    },
    function: { name: t.name, parameters: {} },
    type: 'function',
  }))
  const extra = { abortSignal: ctrl.signal, postToolCall: (r) => { posted.push(r.toolCallId) }, tools }
  const tr = await (kind === 'responses' ? runResponses(api, sc, rng, { extra, sse: { eventNames: true } }) : runChat(api, sc, rng, { extra, stream: kind === 'stream' }))
  if (!v.check(!tr.hang, 'settles', 'hang')) return
  if (ctrl.signal.aborted) count('aborts while tools run')
  v.check([...ran].sort().join() === [...posted].sort().join(), 'the post hook runs once for every tool that ran', () => `${kind}: ran ${ran}, post hook saw ${posted}`)
  return { nontrivial: ctrl.signal.aborted, sample: { kind, posted, ran }, signature: ['abort', kind, sc.turns], violations: v.list }
}

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 6000, thorough: 200000 },
  id: 'P13',
  mustObserve: ['aborts while tools run', 'hooked calls in responses', 'conversations run by the telemetry functions', 'pre: rewriteArgs', 'pre: rewriteName', 'pre: result', 'pre: throw', 'pre: untouched', 'post: rewrite', 'post: throw', 'post: untouched', 'post after failing tool', 'call id changed', 'live values'],
  rule: 'Seeded conversations (generateText, streamText, responses) with pre- and post-call hooks that (synchronously or not) leave calls alone, rewrite names/arguments, supply results, replace results, throw, or change the call id, over parallel calls to working, failing, unknown and validating tools. Monitors log every hook, validator and tool invocation; hook order, inputs, and everything the model, the steps and the events then see are compared with the reference. Non-trivial: some hook did something; distinct by the calls and hook actions.',
  async run({ api, count, rng }) {
    const v = new Violations()
    if (rng.bool(0.12)) return (await liveCase({ api, count, rng, v })) ?? { violations: v.list }
    if (rng.bool(0.05)) return (await abortCase({ api, count, rng, v })) ?? { violations: v.list }
    const conv = pickConversation(rng, { errors: 0.25, hookP: 0.75, maxCalls: 5, prepareP: 0, reasoningP: 0.05, stop: 'long', toolP: 1, turns: rng.int(2, 4), validateP: 0.4 })
    const { kind, sc, stream } = conv
    if (!sc.hooks.pre && !sc.hooks.post) sc.hooks.post = true
    const m = conv.model(sc)
    const otherId = rng.bool(0.12)
    let guilty
    if (otherId) {
      const all = m.steps.flatMap((s, t) => s.calls.map(c => ({ c, t })))
      const cand = all.filter(({ c }) => sc.hooks.pre || (sc.hooks.post && c.executed))
      if (cand.length > 0) {
        guilty = rng.pick(cand)
        const plan = sc.plans[`${guilty.t}:${guilty.c.callId}`]
        if (sc.hooks.pre) plan.pre = { delay: 0, kind: 'otherId', sync: rng.bool() }
        else plan.post = { delay: 0, kind: 'otherId', sync: rng.bool() }
      }
    }
    const signal = rng.bool(0.3) ? new AbortController().signal : undefined
    const tr = await conv.run(api, sc, { extra: signal ? { abortSignal: signal } : {}, ...(kind === 'responses' && { sse: { eventNames: true } }) })
    v.check(!tr.hang, 'settles', 'hang')
    if (guilty) {
      count('call id changed')
      v.check(!tr.ok, 'changing the call id fails', 'it succeeded')
      v.check(api.shared.InvalidToolCallError.isInstance(tr.error) && tr.error.reason === 'tool_call_id_mismatch', 'changing the call id is an invalid-tool-call error', () => short(tr.error))
      v.check(tr.world.requests.length === guilty.t + 1, 'no request after a changed call id', () => `${tr.world.requests.length}, step ${guilty.t}`)
      return { nontrivial: true, signature: [sc.turns, guilty.t, guilty.c.callId], violations: v.list }
    }
    v.check(tr.ok, 'hooks never abort the conversation', () => short(tr.error?.stack ?? tr.error))
    judgeExecutions(v, m, tr.rec)
    conv.judge(v, sc, m, tr.world, { only: 'history' })
    for (const [what, list] of [['tool', tr.rec.exec], ['pre hook', tr.rec.pre], ['post hook', tr.rec.post]]) {
      for (const e of list) {
        // the items of a Responses conversation are no chat messages: its tools and hooks are shown none
        const d = kind !== 'responses' && m.contexts[e.t] && compareHistory(e.messages, m.contexts[e.t].input)
        if (d) v.add('tools and hooks are shown the conversation so far', `${what} of step ${e.t}, ${e.id}: ${d}`)
        v.check(Array.isArray(e.messages), 'tools and hooks are shown a list of messages', () => `${what} of step ${e.t}: ${short(e.messages)}`)
        const s = what === 'tool' ? e.opts.abortSignal : e.signal
        v.check(s === signal, 'tools and hooks get the abort signal of the call', () => `${what} of step ${e.t}: ${s}`)
      }
    }
    const log = tr.world.log
    let step = -1
    const at = log.map(e => (e[0] === 'request' ? ++step : step))
    const find = (kind, t, data) => log.flatMap((e, i) => e[0] === kind && e[1] === data && at[i] === t ? [i] : [])
    m.steps.forEach((s, t) => {
      if (tr.ok) {
        const d = conv.diff(tr.steps[t], s)
        if (d) v.add('step reports what the hooks made of the calls', `step ${t}: ${d}`)
      }
      if (stream && tr.ok && s.executed) {
        const results = tr.streams.event.items.filter(e => e.type === 'tool-result.done')
        const base = m.steps.slice(0, t).reduce((n, x) => n + x.calls.length, 0)
        s.calls.forEach((c, i) => {
          const e = results[base + i]
          v.check(e && c.resultOk(e), 'events show the hooked result', () => `${short(e)} for ${c.callId}`)
        })
      }
      for (const original of s.turn.calls) {
        const c = s.calls.find(x => x.callId === original.id)
        const pre = tr.rec.pre.filter(x => x.t === t && x.id === original.id)
        const post = tr.rec.post.filter(x => x.t === t && x.id === original.id)
        v.check(pre.length === (sc.hooks.pre && s.executed ? 1 : 0), 'pre hook runs once per call', () => `${pre.length} times for ${original.id}`)
        v.check(post.length === (c?.postCalled ? 1 : 0), 'post hook runs exactly for invoked tools', () => `${post.length} times for ${original.id}, due ${c?.postCalled}`)
        if (!c) continue
        const plan = c.plan
        if (pre.length > 0) {
          v.eq(pre[0].call, { args: original.args, toolCallId: original.id, toolCallType: 'function', toolName: original.name }, 'pre hook sees the call of the model')
          v.check(pre[0].toolCallId === original.id, 'pre hook options name the call', () => pre[0].toolCallId)
          const [p] = find('pre', t, original.id)
          for (const e of find('exec', t, `${t}:${original.id}`)) v.check(p < e, 'pre hook before the tool', () => original.id)
          if (kind === 'responses') count('hooked calls in responses')
          count(`pre: ${plan.pre?.kind ?? 'untouched'}`)
        }
        if (post.length > 0) {
          const r = post[0].result
          v.check(r.toolCallId === original.id && r.toolName === c.toolCall.toolName, 'post hook sees its call', () => short(r))
          v.eq(r.args, c.execInput, 'post hook sees the arguments the tool got')
          if (c.postSees.error !== undefined) v.check(r.isError === true && String(r.result).includes(c.postSees.error), 'post hook sees the failure', () => short(r))
          else v.check(!r.isError && JSON.stringify(jview(r.result)) === JSON.stringify(jview(c.postSees.value)), 'post hook sees the outcome', () => short(r))
          const [p] = find('post', t, original.id)
          for (const e of find('exec', t, `${t}:${original.id}`)) v.check(e < p, 'post hook after the tool', () => original.id)
          for (const e of find('exec-end', t, `${t}:${original.id}`)) v.check(e < p, 'post hook after the tool ended', () => original.id)
          count(`post: ${plan.post?.kind ?? 'untouched'}`)
          if (c.postSees.error !== undefined) count('post after failing tool')
        }
      }
    })
    return { nontrivial: tr.rec.pre.length + tr.rec.post.length > 0, sample: { hooks: sc.hooks, plans: sc.plans, turns: sc.turns.slice(0, 2) }, signature: [kind, sc.turns, Object.values(sc.plans).map(p => [p.pre?.kind, p.post?.kind])], violations: v.list }
  },
}
