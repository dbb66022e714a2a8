// Chat-completion sessions: generator, provider encoding, independent reference model, and drivers.
import { ERROR_TYPES } from './fixtures.mjs'
import { beforeTerminal, collect, cutBytes, delivery, encodeSSE, randomTick, settleOrHang, tick, World } from './world.mjs'
import { jeq, jview } from './util.mjs'

const enc = new TextEncoder()

/* ------------------------------------------------------------------ generation */

export const genArgs = (rng) => {
  const k = rng.next()
  if (k < 0.12) return rng.pick(['', ' ', '\n', '\t  '])
  if (k < 0.2) return rng.pick(['{', '{"a":', 'nope', '{"a":1}}', '{a:1}', '[1,', '"x', '{"a":1,}', 'undefined', "{'a':1}", '{}{}', '{"s":"a\nb"}', '{"s":"\u0001"}', '{"n":1} // done', '```json\n{"n":1}\n```', '{"n":01}', '{"n":NaN}', '{"n":1}]'])
  if (k < 0.26) return rng.pick(['[]', 'null', '"str"', '3', 'true', '[1,{"a":2}]', '"{\\"n\\":1}"', '"{}"', '""', '0', 'false'])
  const o = { n: rng.int(0, 9), ...rng.jsonObject(2) }
  if (rng.bool(0.3)) o.s = rng.text(60)
  if (rng.bool(0.1)) return JSON.stringify(o, null, rng.int(1, 4))
  return JSON.stringify(o)
}

const genPart = rng => rng.weighted([
  [4, () => ({ text: rng.text(20), type: 'text' })],
  [1, () => ({ image_url: { url: 'https://x.test/i.png' }, type: 'image_url' })],
  [1, () => ({ input_audio: { data: 'AAAA', format: 'wav' }, type: 'input_audio' })],
  [1, () => ({ file: { file_data: 'AAA', filename: 'f' }, type: 'file' })],
])()

export const genOutcome = (rng, { errors = 0.2 } = {}) => {
  if (rng.bool(errors)) {
    return rng.weighted([
      [4, () => ({ kind: 'throw', message: rng.bool(0.85) ? `boom ${rng.ident()}` : `boom ${rng.ident()}\n  at <line 2>: "${rng.ident()}" \\ $& %s` })],
      [1, () => ({ kind: 'throwValue', message: `raw ${rng.ident()}` })],
      [1, () => ({ kind: 'throwEmpty', message: '' })],
      [0.6, () => { const raw = rng.pick([undefined, null, 0, false, '', 7, { code: 7 }]); return { kind: 'throwOdd', message: String(raw), raw } }],
    ])()
  }
  return rng.weighted([
    [4, () => ({ kind: 'string', value: rng.bool(0.1) ? '' : rng.text(40) })],
    [3, () => ({ kind: 'object', value: rng.jsonObject(2) })],
    [2, () => ({ kind: 'parts', value: Array.from({ length: rng.int(1, 3) }, () => genPart(rng)) })],
    [1, () => ({ kind: 'array', value: [...Array.from({ length: rng.int(1, 3) }, () => rng.bool(0.4) ? genPart(rng) : rng.json(1)), rng.pick([null, { type: 'other' }, 'x', 3])] })],
  ])()
}

export const genMessages = (rng, max = 5) => {
  const out = []
  if (rng.bool(0.4)) out.push({ content: rng.text(40), role: 'system' })
  const n = rng.int(1, max)
  for (let i = 0; i < n; i++) {
    if (rng.bool(0.15)) {
      const id = `old_${rng.ident(4)}`
      out.push({ content: rng.bool() ? null : '', role: 'assistant', tool_calls: [{ function: { arguments: '{}', name: 'old' }, id, type: 'function' }] })
      out.push({ content: rng.text(10), role: 'tool', tool_call_id: id })
    }
    else {
      out.push({
        content: rng.bool(0.8) ? rng.text(60) : Array.from({ length: rng.int(1, 3) }, () => genPart(rng)),
        role: rng.pick(['user', 'user', 'assistant', 'developer']),
      })
    }
  }
  return out
}

export const PARAMS = rng => ({
  ...(rng.bool(0.3) && { temperature: rng.pick([0, 0.5, 1]) }),
  ...(rng.bool(0.2) && { topP: 0.9 }),
  ...(rng.bool(0.2) && { topK: 5 }),
  ...(rng.bool(0.2) && { frequencyPenalty: -1.5 }),
  ...(rng.bool(0.2) && { presencePenalty: 0 }),
  ...(rng.bool(0.2) && { seed: 0 }),
  ...(rng.bool(0.2) && { stop: rng.pick([() => ['a', 'b'], () => ['\n', 'END', 'c'], () => 'END', () => ['one']])() }),
  ...(rng.bool(0.2) && { parallelToolCalls: false }),
  ...(rng.bool(0.2) && { reasoningEffort: 'low' }),
  ...(rng.bool(0.2) && { maxCompletionTokens: 12 }),
  ...(rng.bool(0.1) && { logitBias: { camelKey: 1 } }),
  ...(rng.bool(0.1) && { user: null }),
})

export const snake = s => s.replace(/[A-Z]/g, c => `_${c.toLowerCase()}`)

const genUsage = rng => ({ ...rng.bool(0.04) ? { completion_tokens: rng.int(0, 2 ** 31), prompt_tokens: rng.int(2 ** 31, 2 ** 40), total_tokens: rng.int(2 ** 31, 2 ** 41) } : { completion_tokens: rng.int(0, 500), prompt_tokens: rng.int(0, 500), total_tokens: rng.int(0, 1200) }, ...(rng.bool(0.2) && { completion_tokens_details: { reasoning_tokens: 3 } }) })

/** a name that is nearly, but not, one of the tools' */
const almost = (rng, name, names) => {
  const near = rng.pick([name.toUpperCase(), ` ${name}`, `${name} `, name.slice(0, -1), `${name}0`, `functions.${name}`])
  return names.includes(near) ? 'ghost' : near
}

export const genStop = (rng, toolNames, depth = 2) => {
  const k = rng.next()
  if (depth > 0 && k < 0.35) {
    const op = rng.pick(['and', 'or', 'not'])
    if (op === 'not') return { c: genStop(rng, toolNames, depth - 1), k: 'not' }
    return { k: op, list: Array.from({ length: rng.weighted([[1, 0], [2, 1], [5, 2], [2, 3]]) }, () => genStop(rng, toolNames, depth - 1)) }
  }
  return rng.weighted([
    [5, () => ({ k: 'count', n: rng.weighted([[1, 0], [2, 1], [3, 2], [3, 3], [2, 5], [1, 100]]) })],
    [3, () => ({ k: 'tool', name: rng.bool(0.3) ? undefined : rng.pick([...toolNames, 'ghost', ...toolNames.length > 0 ? [almost(rng, rng.pick(toolNames), toolNames)] : []]) })],
    [1, () => ({ k: 'finish', r: rng.pick(['stop', 'tool_calls', 'length']) })],
    [1, () => ({ k: 'inputLen', n: rng.int(1, 12) })],
    [1, () => ({ k: 'tokens', n: rng.int(0, 1500) })],
    [1, () => ({ k: 'const', v: rng.bool(0.2) })],
  ])()
}

export const evalStop = (ast, ctx) => {
  switch (ast.k) {
    case 'and': return ast.list.every(c => evalStop(c, ctx))
    case 'const': return ast.v
    case 'count': return ctx.steps.length >= ast.n
    case 'finish': return ctx.step.finishReason === ast.r
    case 'inputLen': return ctx.input.length >= ast.n
    case 'not': return !evalStop(ast.c, ctx)
    case 'or': return ast.list.some(c => evalStop(c, ctx))
    case 'tokens': return ctx.steps.reduce((n, s) => n + (s.usage?.totalTokens ?? 0), 0) > ast.n
    case 'tool': return ctx.step.toolCalls.some(c => ast.name == null || c.toolName === ast.name)
  }
  throw new Error(`stop ${ast.k}`)
}

/** builds the library's own condition object from the tree */
export const realStop = (api, ast) => {
  switch (ast.k) {
    case 'and': return api.and(...ast.list.map(c => realStop(api, c)))
    case 'count': return api.stepCountAtLeast(ast.n)
    case 'not': return api.not(realStop(api, ast.c))
    case 'or': return api.or(...ast.list.map(c => realStop(api, c)))
    case 'tool': return ast.name === undefined ? api.hasToolCall() : api.hasToolCall(ast.name)
    default: return ctx => evalStop(ast, ctx)
  }
}

/** names that mean something to every object */
export const ODD_NAMES = ['constructor', 'toString', 'hasOwnProperty', 'valueOf', '__proto__', 'then', 'length']

/**
 * profile: { turns, toolP, maxCalls, hookP, prepareP, stop: 'random'|'long'|'default', errors, usage: 'all'|'mixed'|'none', reasoningP, validateP, bigText }
 */
export const genChat = (rng, profile = {}) => {
  const p = { bigText: 120, errors: 0.2, hookP: 0.3, maxCalls: 4, prepareP: 0.25, reasoningP: 0.3, stop: 'random', toolP: 0.75, turns: 4, usage: 'mixed', validateP: 0.5, ...profile }
  // rarely, one dimension is far larger than usual
  const scale = p.scale && rng.bool(0.012) ? rng.pick(['args', 'calls', 'messages', 'reasoning', 'steps']) : undefined
  if (scale === 'steps') Object.assign(p, { bigText: 20, exactTurns: rng.int(40, 90), maxCalls: 1, stop: 'long', toolP: 1 })
  if (scale === 'calls' || scale === 'args') p.toolP = 1
  const hasTools = rng.bool(p.toolP)
  const nTools = hasTools ? (rng.bool(0.01) ? rng.int(20, 150) : rng.int(1, 4)) : 0
  const tools = Array.from({ length: nTools }, (_, i) => ({
    description: rng.bool() ? rng.text(20) : undefined,
    name: rng.bool(0.03) && i < ODD_NAMES.length ? ODD_NAMES[i] : rng.bool(0.15) ? `${rng.ident(2)}${rng.pick(['Tool', '-', '.', ' ', 'URL', '/', 'é'])}${i}` : `${rng.ident(5)}_${i}`,
    parameters: rng.bool(0.15) ? { additionalProperties: false, properties: { fooBar: { description: rng.text(10), enum: ['aB', 'c_d'], type: 'string' }, x_y: { items: { minLength: 1, type: 'string' }, type: 'array' } }, required: ['fooBar'], type: 'object' } : { properties: { n: { type: 'number' } }, type: 'object' },
    strict: rng.pick([true, false, undefined]),
    validate: rng.bool(p.validateP) ? rng.pick(['ok', 'okAsync', 'transform', 'transformAsync', 'transformClass', 'toNull', 'toZeroAsync', 'failOdd', 'failOddAsync', 'failAll', 'failAll', 'throw']) : null,
  }))
  const names = tools.map(t => t.name)
  const turns = []
  const nTurns = p.exactTurns ?? rng.heavy(1, p.turns)
  const reuseIds = rng.bool(0.15)
  const oddIds = !reuseIds && rng.bool(0.06) ? rng.pick([(t, c) => String(1000 - 50 * t - c), (t, c) => `functions.get weather:${t}/${c}`, (t, c) => c === 0 ? ODD_NAMES[t % ODD_NAMES.length] : `${t}${c}`, (t, c) => `${'x'.repeat(300)}${t}_${c}`]) : undefined
  for (let t = 0; t < nTurns; t++) {
    const isLast = t === nTurns - 1
    const calls = []
    if (hasTools ? (!isLast || rng.bool(0.3)) : rng.bool(0.1)) {
      const n = scale === 'calls' && t === 0 ? rng.int(70, 150) : rng.bool(0.015) && p.maxCalls > 1 ? rng.int(10, 26) : rng.heavy(1, p.maxCalls)
      for (let c = 0; c < n; c++) {
        calls.push({
          args: scale === 'args' && c === 0 ? JSON.stringify({ n: 1, s: rng.largeText(rng.int(9000, 40000)) }) : genArgs(rng),
          id: oddIds ? oddIds(t, c) : reuseIds ? `call_${c}` : rng.bool() ? `call_${t}_${c}_${rng.ident(3)}` : `${rng.ident(3)}_${t}_${c}`,
          name: rng.bool(0.92) && names.length > 0 ? rng.pick(names) : names.length > 0 && rng.bool(0.3) ? almost(rng, rng.pick(names), names) : rng.bool(0.1) ? rng.pick(ODD_NAMES.filter(x => !names.includes(x))) : `ghost_${rng.ident(3)}`,
        })
      }
    }
    turns.push(genTurn(rng, p, calls))
    if (scale === 'reasoning' && t === 0) turns[0].reasoning = rng.largeText(rng.int(35000, 120000))
  }
  // per-call plans
  const plans = {}
  for (const [t, turn] of turns.entries()) {
    for (const call of turn.calls) {
      plans[`${t}:${call.id}`] = {
        delay: randomTick(rng, 0.35),
        outcome: genOutcome(rng, { errors: p.errors }),
        post: null,
        pre: null,
      }
    }
  }
  const hooks = { post: rng.bool(p.hookP), pre: rng.bool(p.hookP) }
  for (const plan of Object.values(plans)) {
    if (hooks.pre && rng.bool(0.5)) {
      plan.pre = rng.weighted([
        [3, () => ({ args: genArgs(rng), kind: 'rewriteArgs' })],
        [2, () => ({ kind: 'rewriteName', name: names.length > 0 ? rng.pick([...names, 'ghost']) : 'ghost' })],
        [3, () => ({ isError: rng.bool(0.3), kind: 'result', outcome: genOutcome(rng, { errors: 0 }) })],
        [2, () => ({ kind: 'throw', message: `pre ${rng.ident()}` })],
        [1, () => ({ kind: 'same' })],
      ])()
      plan.pre.sync = rng.bool()
      plan.pre.delay = randomTick(rng, 0.6)
    }
    if (hooks.post && rng.bool(0.5)) {
      plan.post = rng.weighted([
        [3, () => ({ kind: 'rewrite', outcome: genOutcome(rng, { errors: 0 }) })],
        [2, () => ({ kind: 'throw', message: `post ${rng.ident()}` })],
        [1, () => ({ kind: 'same' })],
      ])()
      plan.post.sync = rng.bool()
      plan.post.delay = randomTick(rng, 0.6)
    }
  }
  const prepare = rng.bool(p.prepareP)
    ? Array.from({ length: nTurns + 2 }, () => ({
        async: rng.bool(),
        input: rng.bool(0.35) ? rng.bool(0.08) ? [] : genMessages(rng, 2) : undefined,
        model: rng.bool(0.35) ? `alt-${rng.ident(4)}` : undefined,
        none: rng.bool(0.15),
        derive: rng.bool(0.25) ? rng.pick(['same', 'tail', 'append']) : undefined,
        toolChoice: rng.bool(0.3) ? rng.pick(['auto', 'none', 'required', { function: { name: names[0] ?? 'f' }, type: 'function' }]) : undefined,
        vandal: rng.bool(0.4),
      }))
    : null
  return {
    apiKey: rng.bool(0.8) ? rng.apiKey(12) : undefined,
    baseURL: rng.pick(['https://llm.test/v1/', 'https://llm.test/v1', 'https://llm.test/v1', 'http://llm.test/v1', 'http://llm.test:8080/v1/', 'https://llm.test:8443/api/v1', 'http://llm.test:81/v1', 'https://llm.test:9/v1/', 'http://llm.test:65535/v1']),
    hooks,
    messages: scale === 'messages' ? genMessages(rng, rng.int(130, 300)) : genMessages(rng, 4),
    model: `${rng.pick(['model', 'Model', 'GPT-4o', 'org/Name', 'ft:gpt:Org::1'])}-${rng.ident(4)}`,
    params: PARAMS(rng),
    plans,
    prepare,
    scale,
    stop: p.stop === 'default' ? null : p.stop === 'long' ? { k: 'count', n: Math.max(50, nTurns + 2) } : rng.weighted([[1, () => null], [3, () => ({ k: 'count', n: rng.int(2, 8) })], [4, () => genStop(rng, names)]])(),
    toolChoice: rng.bool(0.2) ? rng.pick(['auto', 'none', 'required']) : undefined,
    tools,
    toolsGiven: nTools > 0 || rng.bool(0.3),
    turns,
  }
}

export const genTurn = (rng, p = {}, calls = []) => {
  const reasoning = rng.bool(p.reasoningP ?? 0.3) ? rng.nonEmptyText(p.bigText ?? 120) : undefined
  const refusal = rng.bool(calls.length === 0 ? 0.06 : 0.03)
  const text = calls.length > 0 && rng.bool(0.6) ? (rng.bool() ? '' : null) : rng.bool(0.001) ? rng.largeText(rng.int(30000, 300000)) : rng.text(p.bigText ?? 120)
  return {
    calls,
    finish: calls.length > 0 ? rng.weighted([[16, 'tool_calls'], [2, 'stop'], [1, 'length'], [1, 'content_filter'], [0.5, 'function_call']]) : rng.weighted([[8, 'stop'], [1, 'length'], [1, 'content_filter']]),
    reasoning,
    reasoningField: rng.pick(['reasoning', 'reasoning_content']),
    refusal,
    text,
    usage: p.usage === 'none' ? undefined : p.usage === 'all' || rng.bool(0.7) ? genUsage(rng) : undefined,
  }
}

const FALLBACK_TURN = { calls: [], finish: 'stop', reasoningField: 'reasoning', text: 'fallback', usage: { completion_tokens: 1, prompt_tokens: 1, total_tokens: 2 } }
export const turnAt = (sc, t) => sc.turns[t] ?? sc.fallback ?? FALLBACK_TURN

/* ------------------------------------------------------------------ provider encodings */

export const turnAsJSON = (rng, turn) => ({
  choices: [{
    finish_reason: turn.finish,
    index: 0,
    message: {
      content: turn.partsContent ?? turn.text,
      role: 'assistant',
      ...(turn.reasoning !== undefined && { [turn.reasoningField]: turn.reasoning }),
      ...(turn.calls.length > 0 && { tool_calls: turn.calls.map(c => ({ function: { arguments: c.args, name: c.name }, id: c.id, type: 'function' })) }),
      ...(turn.extra && turn.extra),
    },
  }, ...(turn.alternatives ?? [])],
  created: 1,
  id: 'cmpl-1',
  model: 'm',
  object: 'chat.completion',
  system_fingerprint: 'fp',
  usage: turn.usage ?? { completion_tokens: 0, prompt_tokens: 0, total_tokens: 0 },
})

/** list of chunk payloads whose fold is the turn */
export const turnAsChunks = (rng, turn, { odd = true } = {}) => {
  const base = { created: 1, id: 'c1', model: 'm', object: 'chat.completion.chunk', system_fingerprint: 'fp' }
  const mk = (delta, extra = {}) => ({ ...base, choices: [{ delta, finish_reason: null, index: 0, ...extra.choice }], ...extra.root })
  const out = []
  const usageMode = turn.usage === undefined ? rng.pick(['absent', 'null']) : rng.weighted([[4, 'tail'], [2, 'finish'], [odd ? 1 : 0, 'cumulative'], [odd ? 1 : 0, 'both']])
  if (rng.bool(0.6)) out.push(mk({ role: 'assistant', ...(rng.bool() && { content: '' }) }))
  const textPieces = turn.text == null ? [] : rng.split(turn.text, { allowEmpty: true })
  const reasoningPieces = turn.reasoning === undefined ? [] : rng.split(turn.reasoning, { allowEmpty: odd })
  const a = reasoningPieces.map(x => ({ [turn.reasoningField]: x }))
  const b = textPieces.map(x => (turn.refusal ? { refusal: x } : { content: x }))
  let seq
  const order = rng.weighted([[6, 'rt'], [1, 'tr'], [1, 'mix'], [odd ? 1 : 0, 'zip']])
  if (order === 'rt') seq = [...a, ...b]
  else if (order === 'tr') seq = [...b, ...a]
  else if (order === 'zip') {
    seq = []
    for (let i = 0; i < Math.max(a.length, b.length); i++) seq.push({ ...a[i], ...b[i] })
  }
  else {
    seq = []
    let i = 0
    let j = 0
    while (i < a.length || j < b.length) {
      if (j >= b.length || (i < a.length && rng.bool())) seq.push(a[i++])
      else seq.push(b[j++])
    }
  }
  for (const d of seq) out.push(mk(d))
  // tool calls
  const queues = turn.calls.map((c, i) => {
    const pieces = rng.split(c.args, { allowEmpty: odd })
    const q = []
    const withFirst = rng.bool(0.4) && pieces.length > 0
    q.push({ function: { name: c.name, ...(withFirst ? { arguments: pieces.shift() } : rng.bool(0.7) ? { arguments: '' } : {}) }, id: c.id, index: i, type: 'function' })
    // some providers say with every fragment which call it belongs to
    const verbose = odd && rng.bool(0.12)
    for (const piece of pieces) q.push(verbose ? { function: { arguments: piece, name: c.name }, id: c.id, index: i, type: 'function' } : { function: { arguments: piece, ...(odd && rng.bool(0.05) && { name: null }) }, index: i, ...(odd && rng.bool(0.1) && { id: c.id, type: 'function' }) })
    if (odd && rng.bool(0.05)) q.push({ function: {}, index: i })
    return q
  })
  const gap = odd && turn.calls.length > 0 && rng.bool(0.07) ? rng.int(1, 2) : 0
  if (gap) for (const q of queues) for (const d of q) d.index += gap
  const interleave = rng.bool(0.25)
  const deltas = []
  if (!interleave) {
    for (const q of queues) deltas.push(...q)
  }
  else {
    // mostly a call's first delta keeps the order of the calls
    const anyOrder = odd && rng.bool(0.3)
    let started = 0
    while (queues.some(q => q.length > 0)) {
      const candidates = queues.map((q, i) => i).filter(i => queues[i].length > 0 && (anyOrder || i <= started))
      const i = rng.pick(candidates)
      if (i === started) started++
      deltas.push(queues[i].shift())
    }
  }
  const atOnce = rng.bool(0.1)
  for (let i = 0; i < deltas.length;) {
    const n = atOnce ? rng.int(3, 40) : rng.bool(0.2) ? rng.int(1, 3) : 1
    const batch = deltas.slice(i, i + n)
    i += n
    out.push(mk({ ...(odd && rng.bool(0.15) && { content: rng.pick([null, '']) }), ...(rng.bool(0.1) && { role: 'assistant' }), tool_calls: batch }))
  }
  // now and then the last piece of text rides along with a tool call
  if (odd && order !== 'zip' && deltas.length > 0 && b.length > 0 && rng.bool(0.1)) {
    const from = out.findLastIndex(c => (c.choices[0].delta.content ?? c.choices[0].delta.refusal) != null && c.choices[0].delta.tool_calls == null && c.choices[0].delta.role == null)
    const to = out.findIndex(c => c.choices[0].delta.tool_calls != null)
    if (from >= 0 && to === from + 1) {
      const field = turn.refusal ? 'refusal' : 'content'
      if (turn.refusal && out[to].choices[0].delta.content === '') out[to].choices[0].delta.content = null
      out[to].choices[0].delta[field] = out[from].choices[0].delta[field]
      out.splice(from, 1)
    }
  }
  // a chunk about the whole answer has no choices
  const whole = () => (odd && rng.bool(0.15) ? rng.pick([{}, { choices: null }]) : { choices: [] })
  // finish
  const finishOnLast = rng.bool(0.2) && out.length > 0
  if (finishOnLast) out.at(-1).choices[0].finish_reason = turn.finish
  else out.push(mk(rng.pick([{}, { content: undefined }, odd ? { content: null } : {}]), { choice: { finish_reason: turn.finish } }))
  if (usageMode === 'null') for (const c of out) c.usage = null
  if (usageMode === 'finish') out.at(-1).usage = turn.usage
  if (usageMode === 'both') {
    out.at(-1).usage = turn.usage
    out.push({ ...base, ...whole(), usage: turn.usage })
  }
  if (usageMode === 'tail') {
    if (rng.bool()) for (const c of out) c.usage = null
    out.push({ ...base, ...whole(), usage: turn.usage })
  }
  if (usageMode === 'cumulative') {
    out.forEach((c, i) => {
      const f = (i + 1) / (out.length + 1)
      c.usage = { completion_tokens: Math.floor(turn.usage.completion_tokens * f), prompt_tokens: turn.usage.prompt_tokens, total_tokens: Math.floor(turn.usage.total_tokens * f) }
    })
    out.push({ ...base, ...whole(), usage: turn.usage })
  }
  if (odd && rng.bool(0.1)) out.splice(rng.int(0, out.length - 1), 0, { ...base, ...whole(), ...(rng.bool() && { prompt_filter_results: [] }) })
  return out.map(jview)
}

/* ------------------------------------------------------------------ reference model */

export const usageOf = u => u === undefined ? undefined : { inputTokens: u.prompt_tokens, outputTokens: u.completion_tokens, totalTokens: u.total_tokens }
const addUsage = (a, b) => a === undefined ? b : b === undefined ? a : { inputTokens: a.inputTokens + b.inputTokens, outputTokens: a.outputTokens + b.outputTokens, totalTokens: a.totalTokens + b.totalTokens }

export const parseArgs = (text) => {
  if (text.trim() === '') return { ok: true, value: {} }
  try { return { ok: true, value: JSON.parse(text) } }
  catch { return { ok: false } }
}

const isOdd = v => v !== null && typeof v === 'object' && typeof v.n === 'number' && v.n % 2 === 1

/** what a tool's validator says */
export const validation = (mode, value) => {
  switch (mode) {
    case 'failAll': return { ok: false }
    case 'failOdd': case 'failOddAsync': return isOdd(value) ? { ok: false } : { ok: true, value }
    case 'throw': return { ok: false, message: 'validator exploded' }
    case 'toNull': return { ok: true, value: null }
    case 'toZeroAsync': return { ok: true, value: 0 }
    case 'transform': case 'transformAsync': case 'transformClass': return { ok: true, value: { validated: value } }
    default: return { ok: true, value }
  }
}

/** what a validator may yield: an instance of a class, which has to arrive as it is */
export class Validated {}

export const realValidate = (mode) => {
  if (mode == null) return undefined
  const f = (value) => {
    if (mode === 'throw') throw new Error('validator exploded')
    const r = validation(mode, value)
    return r.ok ? { value: mode === 'transformClass' ? Object.assign(new Validated(), r.value) : r.value } : { issues: Array.from({ length: mode === 'failAll' ? 2 : 1 }, () => ({ message: 'rejected by validator' })) }
  }
  return mode.endsWith('Async') ? async v => (await tick(1), f(v)) : f
}

export const PART_TYPES = ['file', 'image_url', 'input_audio', 'text']

/** outcome of one tool call by the documented contract. contentOk(content) judges what the provider is told. */
export const modelToolCall = (sc, t, call, { partTypes = PART_TYPES } = {}) => {
  const plan = sc.plans[`${t}:${call.id}`]
  let name = call.name
  let args = call.args
  const base = { callId: call.id, execInput: undefined, executed: false, plan, postCalled: false, preCalled: sc.hooks.pre }
  const pre = sc.hooks.pre ? plan.pre : null
  if (pre?.kind === 'throw') return finish({ ...base, error: pre.message, resultArgs: args }, name, args)
  if (pre?.kind === 'result') return finish({ ...base, isErrorFlag: pre.isError, outcome: pre.outcome, resultArgs: { synthetic: true } }, name, args)
  if (pre?.kind === 'rewriteArgs') args = pre.args
  if (pre?.kind === 'rewriteName') name = pre.name
  const tool = sc.tools.find(x => x.name === name)
  // the model is told which tools there are
  if (tool == null) return finish({ ...base, causes: sc.toolsGiven ? sc.tools.map(x => x.name) : [], error: name, resultArgs: args }, name, args)
  const parsed = parseArgs(args)
  if (!parsed.ok) return finish({ ...base, error: '', resultArgs: args }, name, args)
  const v = tool.validate == null ? { ok: true, value: parsed.value } : validation(tool.validate, parsed.value)
  if (!v.ok) return finish({ ...base, error: v.message ?? '', resultArgs: tool.validate === 'throw' ? undefined : parsed.value }, name, args)
  const out = { ...base, execInput: v.value, executed: true, execName: name, resultArgs: v.value }
  const failed = plan.outcome.kind.startsWith('throw')
  if (failed) out.error = plan.outcome.message
  else out.outcome = plan.outcome
  if (sc.hooks.post) {
    out.postCalled = true
    out.postSees = failed ? { error: plan.outcome.message } : { value: plan.outcome.value }
    if (plan.post?.kind === 'throw') {
      out.error = plan.post.message
      out.outcome = undefined
    }
    if (plan.post?.kind === 'rewrite') {
      out.error = undefined
      out.outcome = plan.post.outcome
    }
  }
  return finish(out, name, args)

  function finish(o, toolName, toolArgs) {
    const r = { ...o, toolCall: { args: toolArgs, toolCallId: call.id, toolCallType: 'function', toolName } }
    r.contentOk = (content) => {
      if (r.error !== undefined) return typeof content === 'string' && content.includes(r.error) && content.length > 0 && (r.causes ?? []).every(x => content.includes(x))
      return valueAsContentOk(r.outcome.value, content, partTypes)
    }
    r.resultOk = (res) => {
      if (res == null || res.toolCallId !== call.id || res.toolName !== toolName) return false
      if (r.resultArgs !== undefined && !jeq(res.args, r.resultArgs)) return false
      if (r.error !== undefined) return res.isError === true && typeof res.result === 'string' && res.result.includes(r.error) && (r.causes ?? []).every(x => res.result.includes(x))
      if ((res.isError ?? false) !== (r.isErrorFlag ?? false)) return false
      return JSON.stringify(jview(res.result)) === JSON.stringify(jview(r.outcome.value))
    }
    return r
  }
}

export const valueAsContentOk = (value, content, partTypes = PART_TYPES) => {
  if (typeof value === 'string') return content === value
  const same = x => JSON.stringify(jview(x)) === JSON.stringify(jview(value))
  if (Array.isArray(value) && value.length === 0) return same(content) || content === '[]'
  if (Array.isArray(value) && value.every(x => x !== null && typeof x === 'object' && partTypes.includes(x.type))) return Array.isArray(content) && same(content)
  if (typeof content !== 'string') return false
  try { return same(JSON.parse(content)) }
  catch { return false }
}

export const expectedTools = tools => tools.map(t => jview({ function: { description: t.description, name: t.name, parameters: t.parameters, strict: t.strict }, type: 'function' }))

/** whole-session reference model */
export const modelChat = (sc, { stream }) => {
  const history = jview(sc.messages)
  const stop = sc.stop ?? { k: 'count', n: 1 }
  const requests = []
  const steps = []
  const contexts = []
  const prepareArgs = []
  const toolMessagesAt = []
  let total
  for (let t = 0; ; t++) {
    const turn = turnAt(sc, t)
    const prep = sc.prepare?.[t]
    if (sc.prepare) prepareArgs.push({ input: snap(history), model: sc.model, stepNumber: t, steps: steps.map(ctxStep) })
    const eff = prep && !prep.none ? prep : {}
    requests.push({
      messages: effectiveInput(eff, history),
      model: eff.model ?? sc.model,
      toolChoice: eff.toolChoice ?? sc.toolChoice,
    })
    const assistant = stream
      ? { content: turn.text ?? '', role: 'assistant', ...(turn.reasoning !== undefined && { [turn.reasoningField]: turn.reasoning }), ...(turn.calls.length > 0 && { tool_calls: turn.calls.map(c => ({ function: { arguments: c.args, name: c.name }, id: c.id, type: 'function' })) }) }
      : jview(turnAsJSON(null, turn).choices[0].message)
    history.push(assistant)
    const usage = stream ? usageOf(turn.usage) : usageOf(turn.usage ?? { completion_tokens: 0, prompt_tokens: 0, total_tokens: 0 })
    total = addUsage(total, usage)
    const original = turn.calls.map(c => ({ args: c.args, toolCallId: c.id, toolCallType: 'function', toolName: c.name }))
    const text = turn.partsContent ? turn.partsContent.filter(x => x.type === 'text').map(x => x.text).join('\n') : stream ? turn.text ?? '' : turn.text
    const step = { calls: [], executed: false, finishReason: turn.finish, text, toolCalls: original, turn, usage }
    const view = { finishReason: turn.finish, text, toolCalls: original, toolResults: [], usage }
    const ctx = { input: history, step: view, steps: [...steps.map(ctxStep), view] }
    contexts.push({ input: snap(history), step: view, steps: ctx.steps })
    const stopNow = evalStop(stop, ctx)
    if (!stopNow && turn.calls.length > 0) {
      step.executed = true
      step.calls = turn.calls.map(c => modelToolCall(sc, t, c))
      step.toolCalls = step.calls.map(c => c.toolCall)
      for (const c of step.calls) history.push({ $tool: c, role: 'tool', tool_call_id: c.callId })
    }
    steps.push(step)
    if (stopNow || turn.calls.length === 0) break
    if (t > 250) throw new Error('model runaway')
  }
  return { contexts, history, prepareArgs, requests, steps, toolMessagesAt, total, usage: steps.at(-1).usage }
}
/** what a preparation makes of the conversation it is shown */
export const APPENDED = { content: 'appended by preparation', role: 'user' }
export const effectiveInput = (eff, history) => {
  if (eff.input) return jview(eff.input)
  const h = snap(history)
  if (eff.derive === 'tail') return h.slice(-2)
  if (eff.derive === 'append') return [...h, jview(APPENDED)]
  return h
}

/** copies a history, keeping the matchers of tool messages */
export const snap = h => h.map(x => x.$tool ? x : jview(x))
const ctxStep = s => ({ finishReason: s.finishReason, text: s.text, toolCalls: s.toolCalls, toolResults: s.calls, usage: s.usage })
export const stepView = s => ({ finishReason: s.finishReason, text: s.text, toolCalls: s.toolCalls, usage: s.usage })

/* message comparison: expected histories contain $tool matchers */
export const normMessage = (m) => {
  const o = jview(m)
  if (o?.role === 'assistant') {
    if (o.content == null || o.content === '') delete o.content
    // an empty list of calls stays one: providers reject it
    if (Array.isArray(o.tool_calls)) {
      o.tool_calls = o.tool_calls.map(c => c == null ? c : { function: { arguments: c.function?.arguments, name: c.function?.name }, id: c.id, type: c.type })
    }
  }
  return o
}

export const compareHistory = (got, want) => {
  if (!Array.isArray(got)) return `not an array: ${JSON.stringify(got)?.slice(0, 80)}`
  for (let i = 0; i < Math.max(got.length, want.length); i++) {
    const g = got[i]
    const w = want[i]
    if (g === undefined) return `message ${i} missing (have ${got.length}, expected ${want.length}); expected ${short(w)}`
    if (w === undefined) return `unexpected extra message ${i}: ${short(g)}`
    if (w.$tool) {
      if (g.role !== 'tool') return `message ${i}: expected tool message for ${w.tool_call_id}, got ${short(g)}`
      if (g.tool_call_id !== w.tool_call_id) return `message ${i}: expected tool_call_id ${w.tool_call_id}, got ${g.tool_call_id}`
      if (!w.$tool.contentOk(g.content)) return `message ${i}: wrong tool content ${short(g.content)} for ${short({ error: w.$tool.error, outcome: w.$tool.outcome })}`
      continue
    }
    const a = JSON.stringify(sortKeys(normMessage(g)))
    const b = JSON.stringify(sortKeys(normMessage(w)))
    if (a !== b) return `message ${i}: got ${short(a)}, expected ${short(b)}`
  }
  return null
}
const short = v => (typeof v === 'string' ? v : JSON.stringify(v) ?? String(v)).slice(0, 300)
export const sortKeys = v => Array.isArray(v) ? v.map(sortKeys) : v !== null && typeof v === 'object' ? Object.fromEntries(Object.keys(v).sort().map(k => [k, sortKeys(v[k])])) : v

/* ------------------------------------------------------------------ driving the real code */

/** options + recorders for one session */
export const buildSession = (api, sc, world, { extra = {}, stream, log } = {}) => {
  const rec = {
    contexts: [],
    events: [],
    exec: [],
    finish: [],
    post: [],
    pre: [],
    prepare: [],
    stepFinish: [],
    turn: () => world.requests.length - 1,
    validated: [],
  }
  const planOf = id => sc.plans[`${rec.turn()}:${id}`]
  const note = (k, d) => world.note(k, d)
  const tools = sc.tools.map((spec) => {
    const validate = realValidate(spec.validate)
    return {
      execute: (input, opts) => {
        const t = rec.turn()
        const plan = planOf(opts.toolCallId)
        const entry = { aborted: opts.abortSignal?.aborted === true, id: opts.toolCallId, input: structuredClone(input), intact: input instanceof Validated === (spec.validate === 'transformClass'), messages: jview(opts.messages), name: spec.name, opts, t }
        rec.exec.push(entry)
        note('exec', `${t}:${opts.toolCallId}`)
        if (plan == null) return 'no plan'
        const run = async () => {
          await tick(plan.delay)
          await plan.onRun?.(entry)
          if (plan.untilAbort && opts.abortSignal) {
            await new Promise((resolve, reject) => {
              const f = () => reject(opts.abortSignal.reason)
              if (opts.abortSignal.aborted) f()
              opts.abortSignal.addEventListener('abort', f)
            })
          }
          entry.done = true
          note('exec-end', `${t}:${opts.toolCallId}`)
          return produce(plan.outcome)
        }
        if (plan.delay === 0 && !plan.untilAbort && !plan.onRun) {
          entry.done = true
          note('exec-end', `${t}:${opts.toolCallId}`)
          return produce(plan.outcome)
        }
        return run()
      },
      function: jview({ description: spec.description, name: spec.name, parameters: spec.parameters, strict: spec.strict }),
      type: 'function',
      ...(validate && {
        validate: (input) => {
          rec.validated.push({ input: structuredClone(input), name: spec.name })
          note('validate', spec.name)
          return validate(input)
        },
      }),
    }
  })
  const options = {
    ...sc.params,
    apiKey: sc.apiKey,
    baseURL: sc.baseURL,
    fetch: world.fetch,
    ...(sc.flavor === 'responses' ? { input: structuredClone(sc.input) } : { messages: structuredClone(sc.messages) }),
    model: sc.model,
    onStepFinish: (step) => {
      rec.stepFinish.push(structuredClone(step))
      rec.stepFinishRefs ??= []
      rec.stepFinishRefs.push(step)
      note('step-finish')
    },
    ...(sc.toolChoice !== undefined && { toolChoice: sc.toolChoice }),
    ...(sc.toolsGiven && { tools }),
    ...(sc.stop && (() => {
      const cond = realStop(api.sharedChat, sc.stop)
      return {
        stopWhen: (ctx) => {
          rec.contexts.push(jview({ input: ctx.input, step: ctx.step, steps: ctx.steps }))
          note('stop-when')
          return cond(ctx)
        },
      }
    })()),
    ...(sc.prepare && {
      prepareStep: (args) => {
        const i = rec.prepare.length
        rec.prepare.push(jview(args))
        note('prepare', i)
        const spec = sc.prepare[i] ?? { none: true }
        const result = spec.none ? (spec.async ? undefined : {}) : { input: spec.input && structuredClone(spec.input), model: spec.model, toolChoice: spec.toolChoice }
        for (const old of rec.returned ?? []) {
          // what was returned for an earlier step is scribbled over as well
          for (const m of old) m.content = 'VANDAL'
          old.push({ content: 'VANDAL', role: 'user' })
        }
        rec.returned = []
        const derived = !spec.none && !spec.input && spec.derive
        if (derived === 'append') args.input.push({ ...APPENDED })
        if (derived) result.input = derived === 'tail' ? args.input.slice(-2) : args.input
        if (spec.vandal && result?.input && i % 2 === 0) rec.returned.push(result.input)
        if (spec.vandal && !derived) {
          // a callback that scribbles over what it was handed must not reach the conversation
          for (const m of args.input) {
            for (const deep of [...(m.tool_calls ?? []).map(c => c.function), ...(Array.isArray(m.content) ? m.content : [])])
              if (deep != null) for (const k of Object.keys(deep)) deep[k] = 'VANDAL'
            m.content = 'VANDAL'
          }
          args.input.push({ content: 'VANDAL', role: 'user' })
          args.input.reverse()
          for (const s of args.steps) {
            for (const c of [...s.toolCalls, ...s.toolResults]) for (const k of Object.keys(c)) c[k] = 'VANDAL'
            s.toolCalls.length = 0
            s.text = 'VANDAL'
            s.usage = undefined
          }
          args.steps.length = 0
          args.model = 'VANDAL'
        }
        return spec.async ? (async () => (await tick(randomTickOf(i)), result))() : result
      },
    }),
    ...(sc.hooks.pre && {
      preToolCall: (call, opts) => {
        const pre = planOf(call.toolCallId)?.pre
        rec.pre.push({ call: structuredClone(call), id: call.toolCallId, messages: jview(opts.messages), signal: opts.abortSignal, t: rec.turn(), toolCallId: opts.toolCallId })
        note('pre', call.toolCallId)
        if (pre == null) return undefined
        const out = () => {
          switch (pre.kind) {
            case 'result': return { args: { synthetic: true }, ...(pre.isError && { isError: true }), result: structuredClone(pre.outcome.value), toolCallId: call.toolCallId, toolName: call.toolName }
            case 'rewriteArgs': return { ...call, args: pre.args }
            case 'rewriteName': return { ...call, toolName: pre.name }
            case 'same': return call
            case 'throw': throw new Error(pre.message)
            case 'otherId': return { ...call, toolCallId: `${call.toolCallId}x` }
          }
        }
        return pre.sync ? out() : (async () => (await tick(pre.delay), out()))()
      },
    }),
    ...(sc.hooks.post && {
      postToolCall: (result, opts) => {
        const post = planOf(result.toolCallId)?.post
        rec.post.push({ id: result.toolCallId, messages: jview(opts.messages), result: structuredClone(result), signal: opts.abortSignal, t: rec.turn(), toolCallId: opts.toolCallId })
        note('post', result.toolCallId)
        if (post == null) return undefined
        const out = () => {
          switch (post.kind) {
            case 'otherId': return { ...result, toolCallId: `${result.toolCallId}x` }
            case 'rewrite': return { ...result, isError: undefined, result: structuredClone(post.outcome.value) }
            case 'same': return result
            case 'throw': throw new Error(post.message)
          }
        }
        return post.sync ? out() : (async () => (await tick(post.delay), out()))()
      },
    }),
    ...(stream && {
      onEvent: (event) => {
        rec.events.push(structuredClone(event))
        world.activity++
      },
      onFinish: (step) => {
        rec.finish.push(step === undefined ? undefined : structuredClone(step))
        note('finish')
      },
    }),
    ...extra,
  }
  return { options, rec, tools }
}
const randomTickOf = i => (i % 3) - 1

export const produce = (outcome) => {
  switch (outcome.kind) {
    case 'throw': throw new Error(outcome.message)
    case 'throwEmpty': throw new Error('')
    case 'throwOdd': throw outcome.raw
    case 'throwValue': throw outcome.message // eslint-disable-line no-throw-literal
    default: return structuredClone(outcome.value)
  }
}

/** default provider behaviour: play the turns */
export const playTurns = (sc, rng, { onChunks, stream, sse, faults = {} } = {}) => (req, index) => {
  const fault = faults[index]
  const turn = turnAt(sc, index)
  const d = delivery(rng)
  if (fault?.kind === 'http') return { ...d, headers: { 'content-type': rng.pick(ERROR_TYPES), 'x-fault': String(index) }, status: fault.status, text: fault.body }
  if (fault?.kind === 'network') return { ...d, networkError: fault.error }
  if (fault?.kind === 'nobody') return { ...d, noBody: true, status: 200 }
  if (!stream) {
    const json = fault?.kind === 'nochoices' ? fault.json : turnAsJSON(rng, turn)
    let text = JSON.stringify(json)
    if (fault?.kind === 'badjson') text = fault.text
    const chunks = cutBytes(rng, enc.encode(text))
    return { ...d, chunks, cutAt: fault?.kind === 'cut' ? rng.int(0, chunks.length) : undefined, cutError: fault?.error, headers: { 'content-type': 'application/json' }, status: 200 }
  }
  const payloads = sc.encode ? sc.encode(rng, turn, index) : turnAsChunks(rng, turn, { odd: sse?.odd ?? true })
  onChunks?.(index, payloads)
  let list = payloads
  if (fault?.kind === 'badchunk') list = [...payloads.slice(0, fault.at(payloads.length)), fault.payload, ...payloads.slice(fault.at(payloads.length))]
  const bytes = encodeSSE(rng, list, { done: rng.bool(sc.encode ? 0.4 : 0.85), eventNames: sc.encode != null, ...sse })
  const chunks = cutBytes(rng, bytes, sse?.cut)
  return {
    ...d,
    chunks,
    cutAt: fault?.kind === 'cut' ? beforeTerminal(chunks, fault.cutAt?.(chunks.length) ?? rng.int(0, chunks.length)) : undefined,
    cutError: fault?.error,
    headers: { 'content-type': 'text/event-stream' },
    status: 200,
  }
}

/** the telemetry functions are implementations of their own: the same guarantees are asked of them */
const variantOf = (api, fn, rng) => {
  if (!api.variants || !rng.bool(0.12)) return fn
  const other = fn === api.generateText.generateText ? api.telemetry.generateText : fn === api.streamText.streamText ? api.telemetry.streamText : undefined
  if (!other) return fn
  api.variants.used++
  return other
}

export const runGenerate = async (api, plain, sc, rng, opts = {}) => {
  const fn = variantOf(api, plain, rng)
  const world = opts.world ?? new World(rng)
  if (!opts.keepHandler) world.handler = playTurns(sc, rng, { faults: opts.faults, stream: false })
  const s = buildSession(api, sc, world, { extra: opts.extra, stream: false })
  let p
  try { p = Promise.resolve(fn(s.options)) }
  catch (e) { p = Promise.reject(e) }
  const outcome = await settleOrHang(world, p)
  return { ...s, outcome, world }
}

/** consumption: { full, text, reasoning, event } each 'read' | 'ignore' | number (cancel after n items) */
export const runStream = async (api, plain, sc, rng, opts = {}) => {
  const fn = variantOf(api, plain, rng)
  const world = opts.world ?? new World(rng)
  const sent = {}
  if (!opts.keepHandler) world.handler = playTurns(sc, rng, { faults: opts.faults, onChunks: (i, c) => { sent[i] = c }, sse: opts.sse, stream: true })
  const s = buildSession(api, sc, world, { extra: opts.extra, stream: true })
  const out = { ...s, sent, streams: {}, world }
  let res
  try { res = await fn(s.options) }
  catch (e) {
    out.syncError = e
    return out
  }
  out.result = res
  const names = { event: 'eventStream', full: 'fullStream', reasoning: 'reasoningTextStream', text: 'textStream' }
  const c = opts.consume ?? {}
  for (const [k, prop] of Object.entries(names)) {
    const mode = c[k] ?? 'read'
    if (mode === 'ignore' || mode === 'late') continue
    const slow = rng.bool(0.2)
    out.streams[k] = collect(world, res[prop], { cancelAfter: typeof mode === 'number' ? mode : Infinity, delay: () => slow ? randomTick(rng, 0.5) : 0, name: k })
  }
  const promised = [sc.flavor === 'responses' ? 'input' : 'messages', 'steps', 'usage', 'totalUsage']
  out.settled = {}
  const wait = Promise.all([
    ...(opts.ignorePromises ? [] : promised.map(async (k) => {
      try { out.settled[k] = { status: 'fulfilled', value: await res[k] } }
      catch (reason) { out.settled[k] = { reason, status: 'rejected' } }
    })),
    ...Object.values(out.streams).map(x => x.done),
    ...(opts.waitFor ? [opts.waitFor(out)] : []),
  ])
  const w = await settleOrHang(world, wait)
  out.hang = w.status === 'hang'
  for (const [k, prop] of Object.entries(names)) {
    if (c[k] !== 'late') continue
    out.streams[k] = collect(world, res[prop], { name: k })
    const late = await settleOrHang(world, out.streams[k].done)
    if (late.status === 'hang') out.hang = true
  }
  return out
}

/** one conversation in either mode, outcome in one shape */
export const runChat = async (api, sc, rng, { fn, stream, ...opts } = {}) => {
  if (!stream) {
    const r = await runGenerate(api, fn ?? api.generateText.generateText, sc, rng, opts)
    const o = r.outcome
    return { ...r, error: o.reason, hang: o.status === 'hang', messages: o.value?.messages, ok: o.status === 'fulfilled', result: o.value, steps: o.value?.steps, totalUsage: o.value?.totalUsage, usage: o.value?.usage }
  }
  const r = await runStream(api, fn ?? api.streamText.streamText, sc, rng, opts)
  const st = r.settled ?? {}
  return {
    ...r,
    error: r.syncError ?? st.steps?.reason,
    messages: st.messages?.value,
    ok: !r.hang && Object.values(st).length > 0 && Object.values(st).every(x => x.status === 'fulfilled'),
    steps: st.steps?.value,
    totalUsage: st.totalUsage?.value,
    usage: st.usage?.value,
  }
}
