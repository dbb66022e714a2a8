import { VirtualClock } from '../lib/clock.mjs'
import { oddThrown, randomBytes } from '../lib/fixtures.mjs'
import { short, Violations } from '../lib/util.mjs'

const DEFAULT_CODES = [408, 409, 425, 429, 500, 502, 503, 504]
const STATUSES = [200, 200, 201, 204, 206, 304, 301, 400, 401, 404, 422, 408, 409, 425, 429, 429, 500, 500, 501, 502, 503, 503, 504, 507, 599]
const NULL_BODY = new Set([204, 205, 304])

const genCall = (rng, codes, retry) => {
  const n = Math.max(8, retry + 2)
  const again = retry > 6 && rng.bool(0.7) ? 0.99 : 0.6 // many attempts need many failures
  const script = Array.from({ length: n }, () => {
    if (rng.bool(again > 0.6 ? 0.01 : 0.06)) return { error: rng.pick([() => new TypeError('fetch failed'), () => new DOMException('aborted', 'AbortError'), () => 'plain', () => oddThrown(rng)])() }
    const status = rng.bool(again) ? rng.pick(codes.length > 0 ? codes : [500]) : rng.bool(0.7) ? rng.pick(STATUSES) : rng.int(400, 599)
    return { body: NULL_BODY.has(status) ? null : randomBytes(rng, rng.heavy(0, 60)), headers: { 'x-n': rng.ident(), ...(rng.bool(0.3) && { 'retry-after': '7' }) }, landed: rng.bool(0.2), latency: rng.int(0, 3), status }
  })
  const form = rng.pick(['string', 'URL', 'Request', 'Request+init'])
  const body = rng.bool(0.7)
    ? rng.pick([
        () => rng.text(80),
        () => new Blob([randomBytes(rng, 20)]),
        () => {
          if (form === 'Request+init') return rng.ident() // replacing the headers loses the boundary
          const f = new FormData(); f.append('a', rng.ident()); f.append('file', new Blob([randomBytes(rng, 9)]), 'x.bin'); return f },
        () => new URLSearchParams({ a: rng.ident(), b: 'ü' }),
        () => randomBytes(rng, 30),
        () => randomBytes(rng, 30).buffer,
      ])()
    : undefined
  const url = `https://h${rng.int(0, 3)}.test/p/${rng.ident()}?q=${rng.int(0, 9)}`
  const headers = Object.fromEntries(Array.from({ length: rng.int(0, 3) }, () => [`x-${rng.ident(5)}`, rng.ident()]))
  const method = body === undefined ? rng.pick(['GET', 'HEAD', 'DELETE', 'POST']) : rng.pick(['POST', 'PUT', 'PATCH'])
  // the caller gives up while an attempt is under way, or before the next one
  const abort = rng.bool(0.12) ? { at: rng.int(0, Math.min(3, retry)), reason: rng.pick([() => new Error('given up'), () => new DOMException('enough', 'AbortError'), () => 'enough'])(), when: rng.pick(['during', 'between']) } : undefined
  return { abort, body, form, headers, method, script, url }
}

const read = async (r) => {
  // what a real fetch would put on the wire
  const ct = r.headers.get('content-type')
  if (ct?.startsWith('multipart/form-data')) {
    const parts = []
    for (const [k, val] of await r.formData()) parts.push([k, typeof val === 'string' ? val : [val.name, Buffer.from(await val.arrayBuffer()).toString('base64')]])
    return { body: parts, ct: 'multipart' }
  }
  return { body: Buffer.from(await r.arrayBuffer()).toString('base64'), ct }
}

export default {
  bundles: ['core'],
  cases: { quick: 12000, thorough: 600000 },
  id: 'P28',
  mustObserve: ['repeated attempts told of', 'retried calls', 'calls that exhausted the budget', 'calls given up', 'Request objects with a body', 'concurrent calls', 'transport errors', 'non-retryable failures', 'default configurations'],
  rule: 'Each seeded configuration (retry budget, delay, status list, each possibly left out or undefined) makes one or several concurrent calls (string, URL, Request, Request with init; every body kind) against scripted answers per attempt; a stand-in for the global fetch records every attempt as it would go on the wire, virtual time records every wait. Oracle: a reference retry loop. Non-trivial: at least one retry; distinct by configuration, statuses and request form.',
  technique: 'runtime monitoring: attempt log and virtual-time monitor against a reference retry automaton',
  async run({ api, count, rng }) {
    const v = new Violations()
    const opts = {}
    if (rng.bool(0.8)) opts.retry = rng.pick([0, 1, 2, 3, 4, 6, rng.int(7, 40), undefined])
    if (rng.bool(0.8)) opts.retryDelay = rng.pick([0, 1, 10, 250, 2000, undefined])
    if (rng.bool(0.5)) opts.retryStatusCodes = rng.pick([[], [500], [429, 503], [200, 206, 404, 500], [304, 401], undefined])
    if (rng.bool(0.2)) opts.debug = rng.bool()
    const retry = opts.retry ?? 3
    const delay = opts.retryDelay ?? 500
    const codes = opts.retryStatusCodes ?? DEFAULT_CODES
    const noArg = Object.keys(opts).length === 0
    const calls = Array.from({ length: rng.weighted([[3, 1], [2, rng.int(2, 4)]]) }, () => genCall(rng, codes, retry))
    calls.forEach((c, i) => { c.key = `c${i}`; c.attempts = []; c.url += `&call=${i}` })

    const clock = new VirtualClock().install()
    const realFetch = globalThis.fetch
    const spoken = []
    const realConsole = {}
    for (const k of ['debug', 'error', 'info', 'log', 'warn']) {
      realConsole[k] = console[k]
      console[k] = (...args) => void spoken.push(args)
    }
    globalThis.fetch = async (input, init) => {
      const r = new Request(input, init) // consumes the body of a Request, like fetch
      const c = calls[Number(new URL(r.url).searchParams.get('call'))]
      if (r.signal.aborted) throw r.signal.reason
      const att = { at: clock.now, signal: init?.signal ?? null }
      const k = c.attempts.push(att) - 1
      const wire = { headers: Object.fromEntries([...r.headers].filter(([h]) => h !== 'content-type')), method: r.method, url: r.url, ...(await read(r)) }
      att.wire = wire
      const s = c.script[k] ?? { body: randomBytes(rng, 1), headers: {}, status: 200 }
      if (c.abort?.at === k && c.abort.when === 'during') {
        c.controller.abort(c.abort.reason)
        c.abort.done = true
      }
      for (let i = 0; i < (s.latency ?? 0); i++) await null
      if (r.signal.aborted) throw r.signal.reason
      att.done = clock.now
      if ('error' in s) throw s.error
      att.res = new Response(s.body, { headers: s.headers, status: s.status })
      if (c.abort?.at === k && c.abort.when === 'between' && delay > 1) {
        setTimeout(() => {
          c.controller.abort(c.abort.reason)
          c.abort.done = !c.settled
        }, delay / 2)
      }
      // where a redirect led to
      if (s.landed) Object.defineProperty(att.res, 'url', { value: `https://landed.test/?call=${calls.indexOf(c)}` })
      return att.res
    }
    const results = []
    try {
      const f = noArg ? api.xsfetch.createFetch() : api.xsfetch.createFetch(opts)
      const start = c => {
        const { body, form, headers, method, url } = c
        const init = { body, headers, method }
        c.controller = new AbortController()
        c.signal = c.abort || rng.bool(0.2) ? c.controller.signal : undefined
        if (c.signal) init.signal = c.signal
        if (form === 'string') return f(url, init)
        if (form === 'URL') return f(new URL(url), init)
        if (form === 'Request') {
          if (body !== undefined) c.requestBody = true
          return f(new Request(url, init))
        }
        return f(new Request(url, { body, headers: { 'x-old': '1' }, method, ...(c.signal && { signal: c.signal }) }), { headers })
      }
      const w = await clock.run(Promise.allSettled(calls.map(c => start(c).finally(() => { c.settled = true }))))
      if (w.status === 'hang') v.add('every call ends', `${short(opts)} attempts ${calls.map(c => c.attempts.length)}`)
      else results.push(...w.value)
    }
    finally {
      clock.uninstall()
      Object.assign(console, realConsole)
      globalThis.fetch = realFetch
    }
    const repeated = calls.reduce((n, c) => n + Math.max(0, c.attempts.length - 1), 0)
    if (opts.debug !== true) v.check(spoken.length === 0, 'says nothing unless asked to', () => `${short(opts)}: ${short(spoken)}`)
    else if (!calls.some(c => c.abort?.done)) {
      v.check((spoken.length > 0) === (repeated > 0), 'tells of repeated attempts when asked to', () => `${repeated} repeated, ${short(spoken)}`)
      if (repeated > 0) count('repeated attempts told of')
    }
    for (const [i, c] of calls.entries()) {
      if (!results[i]) break
      const where = `${short(opts)} ${c.form} ${c.method} statuses ${c.script.map(s => s.status ?? 'err')}`
      if (c.abort?.done) {
        count('calls given up')
        v.check(results[i].status === 'rejected' && results[i].reason === c.abort.reason, 'a call the caller gave up ends with the caller\'s reason', () => `${where} given up ${c.abort.when} attempt ${c.abort.at}: ${short(results[i])}`)
        v.check(c.attempts.length === c.abort.at + 1, 'nothing is sent for a call the caller gave up', () => `${where} given up ${c.abort.when} attempt ${c.abort.at}: ${c.attempts.length} attempts`)
        continue
      }
      // reference loop
      let k = 0
      let left = retry
      while (!('error' in c.script[k]) && !(c.script[k].status >= 200 && c.script[k].status < 300) && codes.includes(c.script[k].status) && left > 0) {
        left--
        k++
      }
      v.check(c.attempts.length === k + 1, 'exactly the retryable failures are repeated, up to the limit', () => `${where}: ${c.attempts.length} attempts, expected ${k + 1}`)
      for (let a = 1; a < c.attempts.length; a++) {
        v.check(c.attempts[a].at - c.attempts[a - 1].done === delay, 'the configured delay is waited between attempts', () => `${where}: ${c.attempts[a].at - c.attempts[a - 1].done} ms`)
        v.eq(c.attempts[a].wire, c.attempts[0].wire, 'every attempt sends the same request')
        v.check(c.attempts[a].signal === c.attempts[0].signal, 'every attempt carries the signal', where)
      }
      const wire = c.attempts[0]?.wire
      if (wire) {
        const want = { headers: c.headers, method: c.method, url: c.url }
        v.eq({ headers: wire.headers, method: wire.method, url: wire.url }, want, 'the request is the caller\'s')
        if (c.body !== undefined) v.eq({ body: wire.body }, { body: (await read(new Request(c.url, { body: c.body, method: 'POST' }))).body }, 'the request is the caller\'s')
      }
      const r = results[i]
      const s = c.script[k]
      if ('error' in s) {
        count('transport errors')
        v.check(r.status === 'rejected' && r.reason === s.error, 'transport errors are passed through', () => `${where}: ${short(r)}`)
      }
      else {
        if (!v.check(r.status === 'fulfilled', 'the last answer is returned', () => `${where}: ${short(r.reason)}`)) continue
        const res = r.value
        v.check(res.status === s.status && res.bodyUsed === false, 'the last answer is returned untouched', () => `${where}: ${res.status} used ${res.bodyUsed}`)
        let bytes
        try { bytes = Buffer.from(await res.arrayBuffer()).toString('base64') }
        catch (e) { bytes = short(e) }
        v.check(bytes === Buffer.from(s.body ?? []).toString('base64'), 'the last answer is returned untouched', () => `${where}: body ${short(bytes)}`)
        for (const [h, x] of Object.entries(s.headers)) v.check(res.headers.get(h) === x, 'the last answer is returned untouched', () => `${where}: header ${h}`)
        if (left === 0 && retry > 0 && !(s.status >= 200 && s.status < 300) && codes.includes(s.status)) count('calls that exhausted the budget')
        if (s.status >= 400 && !codes.includes(s.status)) count('non-retryable failures')
      }
      if (k > 0) count('retried calls')
      if (k > 0 && (c.requestBody || (c.form === 'Request+init' && c.body !== undefined))) count('Request objects with a body')
      count('attempts', c.attempts.length)
    }
    if (calls.length > 1) count('concurrent calls')
    if (noArg) count('default configurations')
    return { nontrivial: calls.some(c => c.attempts.length > 1), sample: { calls: calls.map(c => [c.form, c.method, c.attempts.length, c.script.map(s => s.status ?? 'err')]), opts }, signature: [opts, calls.map(c => [c.form, c.method, c.attempts.length, c.script.slice(0, c.attempts.length).map(s => s.status ?? 'err')])], violations: v.list }
  },
}
