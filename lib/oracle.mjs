// Judgements over finished sessions, against the reference model. Each check picks the ones its property is about.
import { compareHistory, expectedTools, snake } from './chat.mjs'
import { jdiff, jview, short } from './util.mjs'

const joinURL = (base, path) => `${String(base).replace(/\/+$/, '')}/${path}`

/** number, order and full content of the requests sent */
export const judgeRequests = (v, sc, m, world, { stream, extraBody = {}, only } = {}) => {
  const reqs = world.requests
  v.check(reqs.length === m.requests.length, 'one request per step', () => `${reqs.length} requests, expected ${m.requests.length}`)
  m.requests.forEach((want, i) => {
    const r = reqs[i]
    if (r == null) return
    const body = r.json
    if (body == null) return v.add('request body is JSON', short(r.text))
    const d = compareHistory(body.messages, want.messages)
    if (d) v.add('request messages', `request ${i}: ${d}`)
    if (only === 'messages') return
    v.check(body.model === want.model, 'request model', () => `request ${i}: ${body.model}, expected ${want.model}`)
    v.eq(body.tool_choice, want.toolChoice, 'request tool choice')
    v.check(r.method === 'POST' && r.url === joinURL(sc.baseURL, 'chat/completions'), 'request target', () => `${r.method} ${r.url}`)
    v.check((r.headers.authorization ?? null) === (sc.apiKey ? `Bearer ${sc.apiKey}` : null), 'request credentials', () => short(r.headers))
    const tools = sc.toolsGiven ? expectedTools(sc.tools) : undefined
    if (tools && tools.length > 0) v.eq(body.tools, tools, 'request tools')
    else v.check(body.tools === undefined || (Array.isArray(body.tools) && body.tools.length === 0), 'request tools', () => short(body.tools))
    const rest = { ...body }
    for (const k of ['messages', 'model', 'tool_choice', 'tools', 'stream']) delete rest[k]
    const wantRest = Object.fromEntries(Object.entries({ ...jview(sc.params), ...extraBody }).map(([k, x]) => [snake(k), x]))
    const dr = jdiff(rest, wantRest)
    if (dr) v.add('request parameters', `request ${i}: ${dr}`)
    v.check(stream ? body.stream === true : body.stream !== true, 'request streaming flag', () => short(body.stream))
  })
}

/** final messages */
export const judgeMessages = (v, got, m, rule = 'returned messages') => {
  const d = compareHistory(got, m.history)
  if (d) v.add(rule, d)
}

export const stepDiff = (got, want, { stream } = {}) => {
  if (got == null) return 'missing step'
  const text = stream ? want.text ?? '' : want.text
  if ((got.text ?? null) !== (text ?? null)) return `text ${short(got.text)}, expected ${short(text)}`
  if (got.finishReason !== want.finishReason) return `finish reason ${got.finishReason}, expected ${want.finishReason}`
  const dc = jdiff(got.toolCalls?.map(callView), want.toolCalls.map(callView))
  if (dc) return `tool calls ${dc}`
  const rs = got.toolResults
  if (!Array.isArray(rs) || rs.length !== (want.executed ? want.calls.length : 0)) return `${rs?.length} tool results, expected ${want.executed ? want.calls.length : 0}`
  for (const [i, r] of rs.entries()) if (!want.calls[i].resultOk(r)) return `tool result ${i} ${short(r)} does not match ${short({ error: want.calls[i].error, outcome: want.calls[i].outcome })}`
  return null
}
export const callView = c => ({ args: c.args, toolCallId: c.toolCallId, toolCallType: c.toolCallType, toolName: c.toolName })

export const judgeSteps = (v, steps, m, { rule = 'steps', stream, usage = false } = {}) => {
  if (!Array.isArray(steps)) return v.add(rule, `not an array: ${short(steps)}`)
  v.check(steps.length === m.steps.length, rule, () => `${steps.length} steps, expected ${m.steps.length}`)
  m.steps.forEach((w, i) => {
    const d = stepDiff(steps[i], w, { stream })
    if (d) v.add(rule, `step ${i}: ${d}`)
    if (usage) {
      const du = jdiff(steps[i]?.usage, w.usage)
      if (du) v.add(`${rule} usage`, `step ${i}: ${du}`)
    }
  })
}

/** which tool functions ran, with what */
export const judgeExecutions = (v, m, rec) => {
  m.steps.forEach((s, t) => {
    const ran = rec.exec.filter(e => e.t === t)
    if (!s.executed) {
      v.check(ran.length === 0, 'tools of a stopping step do not run', () => `step ${t}: ${short(ran.map(e => e.id))}`)
      return
    }
    for (const c of s.calls) {
      const mine = ran.filter(e => e.id === c.callId)
      v.check(mine.length === (c.executed ? 1 : 0), c.executed ? 'executable call runs once' : 'non-executable call does not run', () => `step ${t} call ${c.callId}: ran ${mine.length} times`)
      if (c.executed && mine.length > 0) {
        v.eq(mine[0].input, c.execInput, 'tool input')
        v.check(mine[0].name === c.execName, 'tool chosen', () => `${mine[0].name} instead of ${c.execName}`)
      }
    }
    v.check(ran.every(e => s.calls.some(c => c.callId === e.id)), 'only requested calls run', () => short(ran.map(e => e.id)))
  })
  v.check(rec.exec.every(e => e.t < m.steps.length && e.t >= 0), 'no executions outside the conversation', () => short(rec.exec.map(e => e.t)))
}

/** order of the log: positions of entries */
export const positions = (world, kind) => world.log.flatMap((e, i) => e[0] === kind ? [{ at: i, data: e[1] }] : [])

/** the grammar of chat events; returns the problems. partial: the session failed, only a prefix is due */
export const eventGrammar = (events, { partial = false } = {}) => {
  const problems = []
  const bad = (i, what) => problems.push(`event ${i} (${short(events[i] ?? 'end', 120)}): ${what}`)
  let step = null
  const fresh = () => ({ buf: {}, calls: new Map(), state: { reasoning: 'none', text: 'none' }, results: new Set() })
  events.forEach((e, i) => {
    if (e == null || typeof e.type !== 'string') return bad(i, 'not an event')
    if (e.type === 'step.start') {
      if (step) bad(i, 'previous step not done')
      step = fresh()
      return
    }
    if (!step) return bad(i, 'outside a step')
    const [kind, what] = e.type.split('.')
    switch (kind) {
      case 'reasoning': case 'text': {
        const st = step.state[kind]
        if (what === 'start') {
          if (st !== 'none') bad(i, `${kind} starts twice`)
          step.state[kind] = 'open'
          step.buf[kind] = ''
        }
        else if (what === 'delta') {
          if (st !== 'open') bad(i, `${kind} delta while ${st}`)
          if (typeof e.delta !== 'string') bad(i, 'delta is not a string')
          step.buf[kind] += e.delta
        }
        else if (what === 'done') {
          if (st !== 'open') bad(i, `${kind} done while ${st}`)
          if (e.content !== step.buf[kind]) bad(i, `done content differs from the deltas ${short(step.buf[kind], 120)}`)
          step.state[kind] = 'done'
        }
        else bad(i, 'unknown event')
        break
      }
      case 'step': {
        if (what !== 'done') bad(i, 'unknown event')
        for (const k of ['reasoning', 'text']) if (step.state[k] === 'open') bad(i, `${k} never done`)
        for (const [id, c] of step.calls) if (!c.done) bad(i, `call ${id} never done`)
        step = null
        break
      }
      case 'tool-call': {
        if (what === 'start') {
          if (step.calls.has(e.toolCallId)) bad(i, 'call starts twice')
          if (typeof e.toolName !== 'string') bad(i, 'no tool name')
          step.calls.set(e.toolCallId, { args: '', done: false, name: e.toolName })
          step.lastStarted = e.toolCallId
        }
        else if (what === 'delta') {
          if (step.calls.size === 0) bad(i, 'delta before any call started')
          if (typeof e.delta !== 'string') bad(i, 'delta is not a string')
        }
        else if (what === 'done') {
          const c = step.calls.get(e.toolCallId)
          if (!c) bad(i, 'done without start')
          else {
            if (c.done) bad(i, 'done twice')
            if (c.name !== e.toolName) bad(i, `name differs from the start event ${c.name}`)
            c.done = true
          }
        }
        else bad(i, 'unknown event')
        break
      }
      case 'tool-result': {
        if (what !== 'done') bad(i, 'unknown event')
        const c = step.calls.get(e.toolCallId)
        if (!c?.done) bad(i, 'result before its call is done')
        if (step.results.has(e.toolCallId)) bad(i, 'second result for a call')
        step.results.add(e.toolCallId)
        break
      }
      default: bad(i, 'unknown event')
    }
  })
  if (step && !partial) problems.push('last step is never done')
  return problems
}
