// One call of any API function, with any ending, for the checks that look at what every call leaves behind.
import { genChat, runChat } from './chat.mjs'
import { drive, ENDPOINTS, outcomes } from './endpoints.mjs'
import { b64, ERROR_TYPES, oddThrown, randomBytes } from './fixtures.mjs'
import { genResponses, runResponses } from './responses.mjs'
import { beforeTerminal, World } from './world.mjs'

const NAMES = Object.keys(ENDPOINTS)

/** wraps every function the caller passes in, so that what it is given can be looked at */
export const listenIn = (options, heard, depth = 0) => {
  if (options === null || typeof options !== 'object' || depth > 3) return options
  for (const [k, f] of Object.entries(options)) {
    if (['fetch', 'apiKey', 'baseURL', 'headers', 'abortSignal', 'schema', 'file', 'messages', 'input'].includes(k)) continue
    if (typeof f === 'function') options[k] = function (...a) {
      heard.push([k, a])
      return f.apply(this, a)
    }
    else listenIn(f, heard, depth + 1)
  }
  return options
}

const atMoment = (world, k, act) => {
  let n = 0
  world.note = (kind, data) => {
    World.prototype.note.call(world, kind, data)
    if (++n === k) act()
  }
}

/**
 * common: options given to the function on top of the generated ones.
 * telemetry: with the telemetry variants (bundle `telemetry`)
 */
export const anyCall = async (api, rng, { common = {}, endings = ['ok', 'ok', 'http', 'network', 'cut', 'nobody', 'garbage', 'abort', 'callback'], heard = [], signal = true, telemetry = false, onWorld } = {}) => {
  const world = new World(rng)
  onWorld?.(world)
  const ending = rng.pick(endings)
  const ac = new AbortController()
  const boom = ending === 'callback' && rng.bool(0.15) ? oddThrown(rng) : new Error('boom')
  const moment = rng.heavy(1, 40)
  if (ending === 'abort') atMoment(world, moment, () => ac.abort(boom))
  const extra = { ...common, ...(signal && (ending === 'abort' || rng.bool(0.5)) && { abortSignal: ac.signal }) }
  const fault = ending === 'http'
    ? { body: rng.pick(['no', '{"error":{"message":"Incorrect API key provided"}}', '']), kind: 'http', status: rng.pick([400, 401, 403, 404, 429, 500, 503]) }
    : ending === 'network' ? { error: rng.bool(0.85) ? new TypeError('fetch failed') : oddThrown(rng), kind: 'network' }
      : ending === 'cut' ? { error: rng.bool(0.85) ? new Error('terminated') : oddThrown(rng), kind: 'cut' } : ending === 'nobody' ? { kind: 'nobody' } : ending === 'garbage' ? { kind: 'garbage' } : undefined
  const base = { ac, ending, heard, moment, world }

  if (telemetry ? rng.bool(0.85) : rng.bool(0.45)) {
    const kind = telemetry ? rng.pick(['generate', 'stream']) : rng.pick(['generate', 'stream', 'responses'])
    const profile = { errors: 0.2, hookP: 0.4, prepareP: 0.3, stop: rng.pick(['long', 'random']), toolP: 0.8, turns: rng.int(1, 4) }
    const sc = kind === 'responses' ? genResponses(rng, profile) : genChat(rng, profile)
    const at = rng.int(0, Math.max(0, sc.turns.length - 1))
    let f = fault
    if (f?.kind === 'garbage') f = kind === 'generate' ? { kind: 'badjson', text: '<html>' } : { at: n => rng.int(0, n - 1), kind: 'badchunk', payload: rng.pick(['{"broken', { error: { message: 'overloaded' } }]) }
    const raise = rng.int(1, 6)
    let n = 0
    const boomAt = () => { if (++n === raise) throw boom }
    if (ending === 'callback') Object.assign(extra, kind === 'generate' ? { onStepFinish: boomAt } : rng.pick([{ onStepFinish: boomAt }, { onEvent: boomAt }, { onFinish: boomAt }]))
    const fn = telemetry ? (kind === 'generate' ? api.telemetry.generateText : api.telemetry.streamText) : undefined
    let given
    const spy = f0 => (o) => {
      given = o
      return f0(listenIn(o, heard))
    }
    const real = fn ?? (kind === 'generate' ? api.generateText.generateText : kind === 'stream' ? api.streamText.streamText : api.responses.responses)
    delete sc.apiKey
    const opts = { extra, faults: f ? { [at]: f } : {}, fn: spy(real), sse: kind === 'responses' ? { eventNames: true } : {}, world }
    const tr = kind === 'responses' ? await runResponses({ ...api, responses: { responses: spy(real) } }, sc, rng, opts) : await runChat(api, sc, rng, { ...opts, stream: kind === 'stream' })
    const errors = [...!tr.ok && kind === 'generate' || tr.syncError !== undefined ? [tr.error] : [], ...Object.values(tr.settled ?? {}).filter(s => s.status === 'rejected').map(s => s.reason), ...Object.values(tr.streams ?? {}).filter(s => s.end === 'errored').map(s => s.error)]
    return { ...base, errors, hang: tr.hang, label: `${telemetry ? 'telemetry ' : ''}${kind} ${ending}`, name: kind, options: given, results: [tr.result && tr.ok && kind === 'generate' ? tr.result : undefined, ...Object.values(tr.settled ?? {}).map(s => s.value), ...Object.values(tr.streams ?? {}).map(s => s.items)] }
  }
  const name = telemetry ? rng.pick(['embed', 'embedMany']) : rng.pick(NAMES)
  const ep = telemetry ? { ...ENDPOINTS[name], call: (a, o) => ({ promises: { result: a.telemetry[name](o) }, streams: {} }) } : ENDPOINTS[name]
  const g = await ep.gen(rng, api)
  const linked = name === 'generateImage' && rng.bool(0.7)
  const ok = g.answer(rng)
  // hosts of other people, also ones that look like the provider's
  const apiURL = rng.pick(['https://a.test/v1', new URL('https://a.test/v1/'), 'https://api.provider.test/v1/', 'https://api.provider.test:8443/v1/', 'http://127.0.0.1:8080/v1'])
  const { host, hostname, origin, protocol } = new URL(apiURL)
  const linkOf = () => rng.pick(['https://cdn.test/a?sig=1', 'https://files.test/b', `${protocol}//cdn.${hostname}/x.png`, `https://files.${hostname.split('.').slice(-2).join('.')}/x.png`, `${origin.replace(/:\d+$/, '')}.evil.test/v1/x.png`, `https://evil.test/${host}/v1/x.png`, `https://evil.test/?u=${origin}/v1/`, `https://evil.test/v1/#${host}`, 'https://localhost/v1/images/x', `${protocol}//${hostname}:${rng.int(9000, 9999)}/v1/x.png`, `https://x${hostname.split('.').slice(-2).join('.')}/v1/x.png`])
  world.handler = (rec) => {
    if (linked && rec.index > 0) return rng.bool(0.85) ? { bytes: randomBytes(rng, 40), headers: { 'content-type': 'image/png' } } : { status: 403, text: 'expired' }
    const good = linked ? { text: JSON.stringify({ created: 1, data: [{ url: linkOf() }, { b64_json: b64(randomBytes(rng, 9)) }, { url: linkOf() }] }) } : ok
    switch (fault?.kind) {
      case 'cut': return { ...good, cutAt: beforeTerminal(good.chunks ?? [], rng.int(0, good.chunks?.length ?? 0)), cutError: fault.error }
      case 'garbage': return { status: 200, text: '<html>not json' }
      case 'http': return { headers: { 'content-type': rng.pick(ERROR_TYPES) }, status: fault.status, text: fault.body }
      case 'network': return { networkError: fault.error }
      case 'nobody': return { noBody: true, status: 200 }
      default: return good
    }
  }
  const options = listenIn({ ...g.opts, baseURL: apiURL, fetch: world.fetch, ...extra }, heard)
  const out = await drive(api, world, ep, options)
  return { ...base, errors: outcomes(out).filter(([,, failed]) => failed).map(([, e]) => e), hang: out.hang, label: `${telemetry ? 'telemetry ' : ''}${name}${linked ? ' (linked)' : ''} ${ending}`, name: linked ? 'linked images' : name, options, results: [...Object.values(out.promises).map(p => p.value), ...Object.values(out.streams).map(s => s.items)] }
}
