// Responses-API sessions: generator, provider encoding, independent reference model and driver.
import { effectiveInput, evalStop, genChat, modelToolCall, runStream, snap, snake, sortKeys, turnAt } from './chat.mjs'
import { jdiff, jview, short } from './util.mjs'

export const INPUT_PARTS = ['input_file', 'input_image', 'input_text']

const genInputItem = rng => rng.weighted([
  [5, () => ({ content: rng.text(30), role: rng.pick(['user', 'system', 'developer', 'assistant']), type: 'message' })],
  [1, () => ({ content: [{ text: rng.text(10), type: 'input_text' }], role: 'user', type: 'message' })],
  [1, () => ({ arguments: '{}', call_id: 'old', name: 'old', type: 'function_call' })],
  [1, () => ({ call_id: 'old', output: rng.text(5), type: 'function_call_output' })],
  [1, () => ({ id: 'item_1', type: 'item_reference' })],
])()

const inputPart = rng => rng.weighted([
  [3, () => ({ text: rng.text(10), type: 'input_text' })],
  [1, () => ({ detail: 'auto', image_url: 'https://x.test/i.png', type: 'input_image' })],
  [1, () => ({ file_data: 'AAA', filename: 'f', type: 'input_file' })],
])()

const RPARAMS = rng => ({
  ...(rng.bool(0.3) && { temperature: rng.pick([0, 1]) }),
  ...(rng.bool(0.2) && { topP: 0.5 }),
  ...(rng.bool(0.2) && { maxOutputTokens: 77 }),
  ...(rng.bool(0.3) && { instructions: rng.text(20) }),
  ...(rng.bool(0.2) && { reasoning: { effort: 'low', summary: 'auto' } }),
  ...(rng.bool(0.2) && { metadata: { camelKey: 'v', snake_key: 'w' } }),
  ...(rng.bool(0.2) && { parallelToolCalls: false }),
  ...(rng.bool(0.2) && { store: false }),
  ...(rng.bool(0.1) && { previousResponseId: 'resp_0' }),
  ...(rng.bool(0.1) && { text: { format: { type: 'text' }, verbosity: 'low' } }),
  ...(rng.bool(0.1) && { maxToolCalls: 3 }),
})

/** items of one answer */
export const turnItems = (rng, turn, t) => {
  const items = []
  let n = 0
  const id = k => `${k}_${t}_${n++}`
  const plainPart = rng.bool(0.07)
  const reasoningItem = (text) => {
    const kind = rng.pick(['reasoning', 'summary'])
    const parts = kind === 'summary' && rng.bool(0.3) && text.length > 1 ? [text.slice(0, text.length >> 1), text.slice(text.length >> 1)] : [text]
    return {
      item: { id: id('rs'), summary: kind === 'summary' ? parts.map(x => ({ text: x, type: 'summary_text' })) : [], type: 'reasoning', ...(kind === 'reasoning' && { content: [{ text, type: 'reasoning_text' }] }), ...(rng.bool(0.3) && { encrypted_content: 'enc' }), ...(kind === 'summary' && rng.bool(0.2) && { content: rng.pick([[], null]) }), ...(rng.bool(0.1) && { status: rng.pick(['completed', null]) }) },
      kind,
      parts,
    }
  }
  const message = (texts, refusal) => ({
    item: { content: texts.map(x => refusal ? { refusal: x, type: 'refusal' } : plainPart ? { text: x, type: 'text' } : { annotations: [], logprobs: [], text: x, type: 'output_text' }), id: id('msg'), role: 'assistant', status: 'completed', type: 'message' },
  })
  if (turn.reasoning !== undefined) items.push(reasoningItem(turn.reasoning))
  if (turn.text) {
    const split = rng.bool(0.15) && turn.text.length > 1
    const k = turn.text.length >> 1
    if (split && rng.bool()) items.push(message([turn.text.slice(0, k), turn.text.slice(k)], turn.refusal))
    else if (split) items.push(message([turn.text.slice(0, k)], turn.refusal), message([turn.text.slice(k)], turn.refusal))
    else items.push(message([turn.text], turn.refusal))
  }
  else if (turn.calls.length === 0) { items.push(message([''], false)) }
  // reasoning nobody but the provider can read
  if (rng.bool(0.04)) items.splice(rng.int(0, items.length), 0, { item: { content: rng.pick([[], null]), encrypted_content: 'opaque', id: id('rs'), summary: [], type: 'reasoning' }, kind: 'summary', parts: [] })
  const calls = turn.calls.map(c => ({ call: c, item: { arguments: c.args, call_id: c.id, id: id('fc'), name: c.name, status: 'completed', type: 'function_call' } }))
  const at = rng.bool(0.8) ? items.length : rng.int(0, items.length)
  items.splice(at, 0, ...calls)
  // a message without any content
  if (rng.bool(0.03)) items.splice(rng.int(0, items.length), 0, message([], false))
  if (rng.bool(0.04)) items.push({ item: { encrypted_content: 'zz', id: id('cmp'), type: 'compaction' } })
  // items the library knows nothing about: calls of hosted tools, extensions of providers
  if (rng.bool(0.05)) {
    const item = rng.pick([
      () => ({ action: { query: rng.text(10), type: 'search' }, id: id('ws'), status: 'completed', type: 'web_search_call' }),
      () => ({ id: id('ig'), result: 'AAAA', status: 'completed', type: 'image_generation_call' }),
      () => ({ id: id('x'), type: 'acme:trace', value: rng.json(1) }),
    ])()
    items.splice(rng.int(0, items.length), 0, { item })
  }
  // fields of providers, empty ones included
  if (rng.bool(0.15)) for (const { item } of items) if (rng.bool()) item[rng.pick(['x_vendor', 'metadata', 'created_by', 'phase'])] = rng.pick([null, '', 0, false, [], {}, 'v', [null], { a: null, b: [] }])
  return items
}

export const genResponses = (rng, profile = {}) => {
  const sc = genChat(rng, { ...profile })
  sc.flavor = 'responses'
  sc.params = RPARAMS(rng)
  sc.input = sc.scale === 'messages' ? Array.from({ length: rng.int(130, 300) }, () => genInputItem(rng)) : rng.bool(0.4) ? rng.text(40) : Array.from({ length: rng.int(1, 4) }, () => genInputItem(rng))
  delete sc.messages
  for (const p of sc.prepare ?? []) if (p.input) p.input = Array.from({ length: rng.int(1, 3) }, () => genInputItem(rng))
  for (const plan of Object.values(sc.plans)) {
    for (const o of [plan.outcome, plan.pre?.outcome, plan.post?.outcome]) {
      if (o?.kind === 'parts' && rng.bool(0.7)) o.value = Array.from({ length: rng.int(1, 3) }, () => inputPart(rng))
      if (o?.kind === 'array' && rng.bool(0.7)) o.value = rng.shuffle([...Array.from({ length: rng.int(1, 2) }, () => inputPart(rng)), rng.pick([null, { type: 'other' }, 'x', 3, {}])])
    }
  }
  sc.turns.forEach((turn, t) => {
    turn.items = turnItems(rng, turn, t)
    turn.end = sc.turns.length > 20 && t < sc.turns.length - 1 ? 'completed' : rng.weighted([[9, 'completed'], [profile.badEnds === false ? 0 : 0.4, 'failed'], [profile.badEnds === false ? 0 : 0.4, 'incomplete']])
    // an answer cut short or failing may hold little or nothing
    if (turn.end !== 'completed' && rng.bool(0.4)) turn.items = turn.items.slice(0, rng.int(0, turn.items.length))
    // the last item may be cut short, and not every provider tells the status of its items
    if (turn.end !== 'completed' && rng.bool(0.7)) for (const { item } of turn.items.slice(-1)) if (item.status) item.status = 'incomplete'
    if (rng.bool(0.08)) for (const { item } of turn.items) if (item.status === 'completed' && rng.bool()) item.status = rng.pick([undefined, null, 'in_progress', 'incomplete'])
    // usage in this API's terms
    turn.rusage = turn.usage && { input_tokens: turn.usage.prompt_tokens, input_tokens_details: { cached_tokens: 0 }, output_tokens: turn.usage.completion_tokens, output_tokens_details: { reasoning_tokens: 0 }, total_tokens: turn.usage.total_tokens }
    turn.nullUsage = rng.bool()
  })
  sc.fallback = { calls: [], end: 'completed', items: [{ item: { content: [{ annotations: [], logprobs: [], text: 'fallback', type: 'output_text' }], id: 'msg_f', role: 'assistant', status: 'completed', type: 'message' } }], text: 'fallback' }
  sc.encode = turnAsEvents
  return sc
}

/** the provider's events for one answer */
export const turnAsEvents = (rng, turn, t) => {
  const out = []
  let seq = 0
  const push = e => out.push({ ...e, sequence_number: seq++ })
  const response = (status, output, extra = {}) => ({ created_at: 1, error: null, id: `resp_${t}`, incomplete_details: null, model: 'm', object: 'response', output, status, ...extra })
  push({ response: response('in_progress', []), type: 'response.created' })
  if (rng.bool(0.2)) push({ response: response('queued', []), type: 'response.queued' })
  if (rng.bool(0.7)) push({ response: response('in_progress', []), type: 'response.in_progress' })
  turn.items.forEach((x, output_index) => {
    const { item } = x
    const base = { item_id: item.id, output_index }
    if (item.type === 'message') {
      push({ item: { ...item, content: [], status: 'in_progress' }, output_index, type: 'response.output_item.added' })
      item.content.forEach((part, content_index) => {
        const refusal = part.type === 'refusal'
        const text = refusal ? part.refusal : part.text
        push({ ...base, content_index, part: refusal ? { refusal: '', type: 'refusal' } : { ...part, text: '' }, type: 'response.content_part.added' })
        for (const delta of rng.split(text, { allowEmpty: true })) push({ ...base, content_index, delta, ...(!refusal && { logprobs: [] }), type: refusal ? 'response.refusal.delta' : 'response.output_text.delta' })
        if (!refusal && rng.bool(0.05)) push({ ...base, annotation: { type: 'url_citation', url: 'https://x.test' }, annotation_index: 0, content_index, type: 'response.output_text.annotation.added' })
        push(refusal ? { ...base, content_index, refusal: text, type: 'response.refusal.done' } : { ...base, content_index, logprobs: [], text, type: 'response.output_text.done' })
        push({ ...base, content_index, part, type: 'response.content_part.done' })
      })
    }
    else if (item.type === 'reasoning') {
      push({ item: { id: item.id, summary: [], type: 'reasoning' }, output_index, type: 'response.output_item.added' })
      x.parts.forEach((text, i) => {
        const ix = x.kind === 'summary' ? { summary_index: i } : { content_index: i }
        const name = x.kind === 'summary' ? 'response.reasoning_summary_text' : 'response.reasoning'
        const parts = x.kind !== 'summary' && rng.bool(0.3)
        if (parts) push({ ...base, ...ix, part: { text: '', type: 'reasoning_text' }, type: 'response.content_part.added' })
        if (x.kind === 'summary') push({ ...base, part: { text: '', type: 'summary_text' }, summary_index: i, type: 'response.reasoning_summary_part.added' })
        for (const delta of rng.split(text, { allowEmpty: true })) push({ ...base, ...ix, delta, type: `${name}.delta` })
        push({ ...base, ...ix, text, type: `${name}.done` })
        if (parts) push({ ...base, ...ix, part: { text, type: 'reasoning_text' }, type: 'response.content_part.done' })
        if (x.kind === 'summary') push({ ...base, part: { text, type: 'summary_text' }, summary_index: i, type: 'response.reasoning_summary_part.done' })
      })
    }
    else if (item.type === 'function_call') {
      push({ item: { ...item, arguments: '', status: 'in_progress' }, output_index, type: 'response.output_item.added' })
      for (const delta of rng.split(item.arguments, { allowEmpty: true })) push({ ...base, delta, type: 'response.function_call_arguments.delta' })
      push({ ...base, arguments: item.arguments, type: 'response.function_call_arguments.done' })
    }
    else if (rng.bool(0.8)) { push({ item, output_index, type: 'response.output_item.added' }) }
    // these events may come without an item
    if (rng.bool(0.02)) push({ item: null, output_index, type: rng.pick(['response.output_item.added', 'response.output_item.done']) })
    push({ item, output_index, type: 'response.output_item.done' })
  })
  const output = turn.items.map(x => x.item)
  const usage = turn.rusage ?? (turn.nullUsage ? null : undefined)
  if (turn.end === 'completed') push({ response: response('completed', output, { usage }), type: 'response.completed' })
  if (turn.end === 'incomplete') push({ response: response('incomplete', output, { incomplete_details: { reason: 'max_output_tokens' }, usage }), type: 'response.incomplete' })
  if (turn.end === 'failed') push({ response: response('failed', output, { error: { code: 'server_error', message: 'x' }, usage }), type: 'response.failed' })
  return out.map(jview)
}

/** provider events of one step as unified events, tool results excluded */
export const unified = (payloads) => {
  const out = []
  for (const e of payloads) {
    switch (e.type) {
      case 'response.completed': case 'response.failed': case 'response.incomplete': out.push({ type: 'step.done', usage: usageOfR(e.response.usage) }); break
      case 'response.content_part.added': if (['output_text', 'refusal', 'text'].includes(e.part.type)) out.push({ type: 'text.start' }); break
      case 'response.created': out.push({ type: 'step.start' }); break
      case 'response.function_call_arguments.delta': out.push({ delta: e.delta, type: 'tool-call.delta' }); break
      case 'response.output_item.added':
        if (e.item?.type === 'reasoning') out.push({ type: 'reasoning.start' })
        if (e.item?.type === 'function_call') out.push({ toolCallId: e.item.call_id, toolName: e.item.name, type: 'tool-call.start' })
        break
      case 'response.output_item.done':
        if (e.item?.type === 'function_call') out.push({ args: e.item.arguments, toolCallId: e.item.call_id, toolCallType: 'function', toolName: e.item.name, type: 'tool-call.done' })
        break
      case 'response.output_text.delta': case 'response.refusal.delta': out.push({ delta: e.delta, type: 'text.delta' }); break
      case 'response.output_text.done': out.push({ content: e.text, type: 'text.done' }); break
      case 'response.reasoning.delta': case 'response.reasoning_summary_text.delta': out.push({ delta: e.delta, type: 'reasoning.delta' }); break
      case 'response.reasoning.done': case 'response.reasoning_summary_text.done': out.push({ content: e.text, type: 'reasoning.done' }); break
      case 'response.refusal.done': out.push({ content: e.refusal, type: 'text.done' }); break
    }
  }
  return out
}

const usageOfR = u => u == null ? undefined : { inputTokens: u.input_tokens, outputTokens: u.output_tokens, totalTokens: u.total_tokens }

export const modelResponses = (sc) => {
  const history = typeof sc.input === 'string' ? [{ content: sc.input, role: 'user', type: 'message' }] : jview(sc.input)
  const stop = sc.stop ?? { k: 'count', n: 1 }
  const requests = []
  const steps = []
  const contexts = []
  const prepareArgs = []
  let total
  for (let t = 0; ; t++) {
    const turn = turnAt(sc, t)
    const prep = sc.prepare?.[t]
    if (sc.prepare) prepareArgs.push({ input: snap(history), model: sc.model, stepNumber: t, steps: steps.map(ctxStep) })
    const eff = prep && !prep.none ? prep : {}
    requests.push({ input: effectiveInput(eff, history), model: eff.model ?? sc.model, toolChoice: eff.toolChoice ?? sc.toolChoice })
    for (const { item } of turn.items) history.push(jview(item))
    const usage = usageOfR(turn.rusage)
    if (usage) total = total ? { inputTokens: total.inputTokens + usage.inputTokens, outputTokens: total.outputTokens + usage.outputTokens, totalTokens: total.totalTokens + usage.totalTokens } : usage
    const calls = turn.items.filter(x => x.item.type === 'function_call').map(x => ({ args: x.item.arguments, id: x.item.call_id, name: x.item.name }))
    const text = turn.items.filter(x => x.item.type === 'message').flatMap(x => x.item.content).filter(p => p.type === 'output_text' || p.type === 'text').map(p => p.text).join('')
    const original = calls.map(c => ({ args: c.args, toolCallId: c.id, toolCallType: 'function', toolName: c.name }))
    const finishReason = turn.end === 'failed' ? 'error' : turn.end === 'incomplete' ? 'length' : calls.length > 0 ? 'tool-calls' : 'stop'
    const step = { calls: [], executed: false, finishReason, text: text || undefined, toolCalls: original, turn: { ...turn, calls }, usage }
    let stopNow = turn.end !== 'completed'
    if (!stopNow) {
      const view = { finishReason, text: step.text, toolCalls: original, toolResults: [], usage }
      const ctx = { input: history, step: view, steps: [...steps.map(ctxStep), view] }
      contexts.push({ input: snap(history), step: view, steps: ctx.steps })
      stopNow = evalStop(stop, ctx)
      if (!stopNow && calls.length > 0) {
        step.executed = true
        step.calls = calls.map(c => modelToolCall(sc, t, c, { partTypes: INPUT_PARTS }))
        step.toolCalls = step.calls.map(c => c.toolCall)
        for (const c of step.calls) history.push({ $tool: c, call_id: c.callId, type: 'function_call_output' })
      }
    }
    steps.push(step)
    if (stopNow || calls.length === 0) break
    if (t > 250) throw new Error('model runaway')
  }
  return { contexts, history, prepareArgs, requests, steps, total, usage: steps.at(-1).usage }
}
const ctxStep = s => ({ finishReason: s.finishReason, text: s.text, toolCalls: s.toolCalls, toolResults: s.calls, usage: s.usage })

export const compareItems = (got, want) => {
  if (!Array.isArray(got)) return `not an array: ${short(got)}`
  for (let i = 0; i < Math.max(got.length, want.length); i++) {
    const g = got[i]
    const w = want[i]
    if (g === undefined) return `item ${i} missing (have ${got.length}, expected ${want.length}): ${short(w)}`
    if (w === undefined) return `unexpected extra item ${i}: ${short(g)}`
    if (w.$tool) {
      if (g.type !== 'function_call_output') return `item ${i}: expected the output of ${w.call_id}, got ${short(g)}`
      if (g.status != null && g.status !== 'completed') return `item ${i}: an output of status ${g.status}`
      if (g.call_id !== w.call_id) return `item ${i}: expected call_id ${w.call_id}, got ${g.call_id}`
      if (!w.$tool.contentOk(g.output)) return `item ${i}: wrong output ${short(g.output)} for ${short({ error: w.$tool.error, outcome: w.$tool.outcome })}`
      continue
    }
    const d = jdiff(sortKeys(g), sortKeys(w))
    if (d) return `item ${i}: ${d}`
  }
  return null
}

export const judgeResponsesRequests = (v, sc, m, world, { only, extraBody = {} } = {}) => {
  const reqs = world.requests
  v.check(reqs.length === m.requests.length, 'one request per step', () => `${reqs.length} requests, expected ${m.requests.length}`)
  m.requests.forEach((want, i) => {
    const r = reqs[i]
    if (!r) return
    const body = r.json
    if (body == null) return v.add('request body is JSON', short(r.text))
    const d = compareItems(body.input, want.input)
    if (d) v.add('request input', `request ${i}: ${d}`)
    if (only === 'input') return
    v.check(body.model === want.model, 'request model', () => `request ${i}: ${body.model}, expected ${want.model}`)
    v.eq(body.tool_choice, want.toolChoice, 'request tool choice')
    v.check(r.method === 'POST' && r.url === `${sc.baseURL.replace(/\/$/, '')}/responses`, 'request target', () => r.url)
    v.check((r.headers.authorization ?? null) === (sc.apiKey ? `Bearer ${sc.apiKey}` : null), 'request credentials', () => short(r.headers))
    const tools = sc.tools.map(x => jview({ description: x.description ?? null, name: x.name, parameters: x.parameters, strict: x.strict ?? true, type: 'function' }))
    if (sc.toolsGiven && tools.length > 0) v.eq(sortKeys(body.tools), sortKeys(tools), 'request tools')
    else v.check(body.tools === undefined || body.tools.length === 0, 'request tools', () => short(body.tools))
    v.check(body.stream === true, 'request streaming flag', () => short(body.stream))
    const rest = { ...body }
    for (const k of ['input', 'model', 'tool_choice', 'tools', 'stream']) delete rest[k]
    const dr = jdiff(rest, Object.fromEntries(Object.entries({ ...jview(sc.params), ...extraBody }).map(([k, x]) => [snake(k), x])))
    if (dr) v.add('request parameters', `request ${i}: ${dr}`)
  })
}

export const runResponses = async (api, sc, rng, opts = {}) => {
  const r = await runStream(api, api.responses.responses, sc, rng, opts)
  const st = r.settled ?? {}
  return {
    ...r,
    error: r.syncError ?? st.steps?.reason,
    messages: st.input?.value,
    ok: !r.hang && Object.values(st).length > 0 && Object.values(st).every(x => x.status === 'fulfilled'),
    steps: st.steps?.value,
    totalUsage: st.totalUsage?.value,
    usage: st.usage?.value,
  }
}
