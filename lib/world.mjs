// A simulated network with one scripted provider: records every request as a real fetch would send it,
// plays scripted answers with chosen byte chunking, timing and faults, honours abort signals like a real
// fetch, and tracks what happened to every response body.
const enc = new TextEncoder()

export const immediate = () => new Promise(r => setImmediate(r))

export const tick = async (spec) => {
  // spec: number n>0 => n event loop turns, n<0 => |n| microtasks, 0 => nothing
  if (!spec) return
  if (spec > 0) {
    for (let i = 0; i < spec; i++) await immediate()
  }
  else {
    for (let i = 0; i < -spec; i++) await null
  }
}

export const randomTick = (rng, calm = 0.5) => rng.bool(calm) ? 0 : rng.weighted([[4, -rng.int(1, 12)], [3, rng.int(1, 3)], [1, rng.int(4, 9)]])

export class World {
  constructor(rng, { globalOk = false } = {}) {
    this.rng = rng
    this.requests = []
    this.bodies = []
    this.log = []
    this.activity = 0
    this.globalOk = globalOk
    this.handler = () => ({ status: 500, text: 'no handler' })
    this.fetch = this.fetch.bind(this)
  }

  note(kind, data) {
    this.activity++
    this.log.push(data === undefined ? [kind] : [kind, data])
  }

  async fetch(input, init = {}) {
    const { signal, ...rest } = init ?? {}
    const index = this.requests.length
    const eff = new Request(input instanceof Request ? input.clone() : input, rest)
    const rec = {
      abortedAtCall: signal?.aborted === true,
      body: init.body ?? null,
      headers: Object.fromEntries(eff.headers.entries()),
      index,
      method: eff.method,
      rawURL: String(input instanceof Request ? input.url : input),
      signal,
      url: eff.url,
    }
    if (typeof init.body === 'string') {
      rec.text = init.body
      try { rec.json = JSON.parse(init.body) }
      catch { rec.jsonError = true }
    }
    else if (init.body instanceof FormData) {
      rec.form = [...init.body.entries()]
    }
    else if (input instanceof Request && input.body != null) {
      rec.text = await input.text() // consumes the caller's Request exactly like fetch does
      try { rec.json = JSON.parse(rec.text) }
      catch {}
    }
    this.requests.push(rec)
    this.note('request', index)
    if (rec.abortedAtCall) throw signal.reason

    const plan = await this.handler(rec, index)
    const abortable = async (p) => {
      if (signal == null) return p
      let onAbort
      try {
        return await Promise.race([p, new Promise((_, reject) => {
          onAbort = () => reject(signal.reason)
          if (signal.aborted) onAbort()
          signal.addEventListener('abort', onAbort)
        })])
      }
      finally { signal.removeEventListener('abort', onAbort) }
    }
    await abortable(tick(plan.latency ?? 0))
    if (signal?.aborted) throw signal.reason
    plan.onRespond?.()
    if ('networkError' in plan) {
      this.note('network-error', index)
      throw plan.networkError
    }
    this.note('response', index)
    if (plan.raw) return plan.raw
    const headers = plan.headers ?? {}
    const init2 = { headers, status: plan.status ?? 200, statusText: plan.statusText }
    const res = plan.noBody ? new Response(null, init2) : new Response(this.body(plan, signal, index), init2)
    // what a response of the network knows of its origin
    return Object.defineProperty(res, 'url', { value: plan.movedTo ?? eff.url })
  }

  body(plan, signal, index) {
    const world = this
    const chunks = plan.chunks ?? [typeof plan.text === 'string' ? enc.encode(plan.text) : plan.bytes]
    const state = { delivered: 0, index, sent: [], state: 'open', total: chunks.length }
    this.bodies.push(state)
    let i = 0
    let onAbort
    const done = (s) => {
      if (state.state === 'open') state.state = s
      if (onAbort) signal.removeEventListener('abort', onAbort)
    }
    const step = async (controller) => {
      await tick(plan.delay?.(i) ?? 0)
      if (plan.gate) await plan.gate(i)
      if (state.state !== 'open') return false
      if (plan.cutAt != null && i === plan.cutAt) {
        done('failed')
        world.note('cut', index)
        controller.error(plan.cutError)
        return false
      }
      if (i >= chunks.length) {
        if (plan.neverClose) return false
        done('consumed')
        world.note('body-end', index)
        controller.close()
        return false
      }
      world.note('chunk', index)
      plan.onChunk?.(i)
      if (state.state !== 'open') return false
      state.sent.push(chunks[i])
      controller.enqueue(chunks[i++])
      state.delivered = i
      return true
    }
    return new ReadableStream({
      cancel: (reason) => {
        done('cancelled')
        state.cancelReason = reason
        world.note('body-cancel', index)
      },
      pull: plan.eager ? undefined : async (controller) => { await step(controller) },
      start: (controller) => {
        if (signal != null) {
          onAbort = () => {
            if (state.state !== 'open') return
            done('aborted')
            controller.error(signal.reason)
          }
          if (signal.aborted) {
            onAbort()
            return
          }
          signal.addEventListener('abort', onAbort)
        }
        if (plan.eager) {
          void (async () => {
            while (await step(controller)) { /* push */ }
          })().catch(() => {})
        }
      },
    }, plan.eager ? undefined : { highWaterMark: plan.hwm ?? 0 })
  }
}

/** Waits for a promise; reports a hang when nothing at all has happened for a long time. */
export const settleOrHang = async (world, promise, { turns = 400, idleMs = world.patience ?? 2500 } = {}) => {
  let out
  promise.then((value) => { out = { status: 'fulfilled', value } }, (reason) => { out = { reason, status: 'rejected' } })
  let last = -1
  let idleTurns = 0
  let idleSince = Date.now()
  while (out === undefined) {
    await immediate()
    if (out !== undefined) break
    if (world.activity !== last) {
      last = world.activity
      idleTurns = 0
      idleSince = Date.now()
    }
    else {
      idleTurns++
      if (idleTurns > 50) await new Promise(r => setTimeout(r, 2))
      if (idleTurns > turns && Date.now() - idleSince > idleMs) return { status: 'hang' }
    }
  }
  return out
}

/** Collects a stream; every received item is activity. */
export const collect = (world, stream, { name = 'stream', cancelAfter = Infinity, delay = () => 0, onItem, tee = false } = {}) => {
  const rec = { end: undefined, error: undefined, items: [], name }
  rec.done = (async () => {
    const reader = stream.getReader()
    try {
      while (true) {
        if (rec.items.length >= cancelAfter) {
          world.note(`cancel:${name}`)
          // the cancel promise of one branch of a teed stream waits for the other branch (Streams standard)
          const c = reader.cancel('consumer left')
          if (tee) c.catch(() => {})
          else await c
          rec.end = 'cancelled'
          return
        }
        await tick(delay(rec.items.length))
        const { done, value } = await reader.read()
        world.activity++
        if (done) {
          rec.end = 'closed'
          world.note(`end:${name}`)
          return
        }
        rec.items.push(value)
        onItem?.(value, rec.items.length - 1)
      }
    }
    catch (error) {
      rec.end = 'errored'
      rec.error = error
      world.note(`error:${name}`)
    }
  })()
  return rec
}

/* ---------- server-sent events ---------- */

/** Serialises payloads as an event stream in one of the shapes real providers use. */
export const encodeSSE = (rng, payloads, { bom = true, done = true, eol, comments = 0.1, eventNames, plain = false } = {}) => {
  // the parser dependency holds back a final bare CR, so CR-only framing needs an end marker behind the last payload
  const nl = eol ?? (plain ? '\n' : rng.weighted([[6, '\n'], [3, '\r\n'], [done ? 1 : 0, '\r']]))
  const optionalSpace = plain || rng.bool(0.85) ? ' ' : ''
  let out = bom && !plain && rng.bool(0.02) ? '\uFEFF' : ''
  if (!plain && rng.bool(0.08)) out += `retry: ${rng.pick(['3000', '3000', 'soon', '-1', ''])}${nl}${nl}`
  if (!plain && rng.bool(0.08)) out += `: ok${nl}${nl}`
  payloads.forEach((p, i) => {
    // a space behind the colon is not part of the payload
    const space = typeof p === 'string' && p.startsWith(' ') ? ' ' : optionalSpace
    if (!plain && rng.bool(comments)) out += `: keep-alive ${i}${nl}${rng.bool() ? nl : ''}`
    if (eventNames) out += `event: ${p?.type ?? 'message'}${nl}`
    if (!plain && rng.bool(0.05)) out += `id:${rng.pick([` ${i}`, '', ` evt-${i}`])}${nl}`
    if (!plain && rng.bool(0.02)) out += rng.pick([`foo: bar${nl}`, `vendor${nl}`, `Data: {}${nl}`, `id: a\0b${nl}`])
    let text = typeof p === 'string' ? p : JSON.stringify(p)
    if (typeof p !== 'string' && !plain && rng.bool(0.06)) {
      text = JSON.stringify(p, null, 1) // data spread over several lines
      if (rng.bool(0.3)) text = rng.pick([`${text}\n`, `\n${text}`, `${text}\n \n`])
      out += text.split('\n').map(l => `data:${l === '' ? '' : space}${l}${nl}`).join('')
      out += nl
      return
    }
    if (typeof p !== 'string' && !plain && rng.bool(0.03)) text = rng.pick([` ${text}`, `${text} `, `${text}\t`])
    out += `data:${space}${text}${nl}${nl}`
  })
  if (done) out += `data: [DONE]${nl}${nl}`
  return enc.encode(out)
}

/** Cuts bytes into network chunks. */
export const cutBytes = (rng, bytes, mode = rng.pick(['whole', 'small', 'random', 'bytes', 'big', 'lines'])) => {
  if (bytes.length === 0) return []
  if (mode === 'whole') return [bytes]
  if (mode === 'bytes' && bytes.length > 600) mode = 'small'
  if (bytes.length > 20000 && mode !== 'lines') mode = 'huge'
  const chunks = []
  let i = 0
  if (mode === 'lines') {
    let start = 0
    for (i = 0; i < bytes.length; i++) {
      if (bytes[i] === 10) {
        chunks.push(bytes.slice(start, i + 1))
        start = i + 1
      }
    }
    if (start < bytes.length) chunks.push(bytes.slice(start))
    return chunks
  }
  while (i < bytes.length) {
    const n = mode === 'bytes' ? 1 : mode === 'small' ? rng.int(1, 17) : mode === 'big' ? rng.int(50, 400) : mode === 'huge' ? rng.int(1, rng.pick([3000, 70000])) : rng.heavy(1, 300)
    chunks.push(bytes.slice(i, i + n))
    i += n
  }
  return chunks
}

export const delivery = (rng) => {
  const style = rng.int(0, 3)
  return {
    delay: style === 0 ? undefined : style === 1 ? () => -rng.int(1, 4) : style === 2 ? () => (rng.bool(0.2) ? 1 : 0) : () => (rng.bool(0.05) ? rng.int(1, 4) : 0),
    eager: rng.bool(0.6),
    hwm: rng.int(0, 2),
    latency: randomTick(rng, 0.6),
  }
}

const TERMINAL = /"type": ?"response\.(?:completed|failed|incomplete)"/
/** a Responses answer is over with its terminal event: a connection breaking after it breaks nothing */
export const beforeTerminal = (chunks, at) => {
  if (at == null) return at
  let text = ''
  for (let i = 0; i < Math.min(at, chunks.length); i++) {
    text += Buffer.from(chunks[i]).toString('latin1')
    if (TERMINAL.test(text)) return i
  }
  return at
}
