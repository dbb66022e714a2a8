import { anyCall } from '../lib/anycall.mjs'
import { short, Violations } from '../lib/util.mjs'
import { withTracer } from './P25.mjs'

/** where a text occurs in a value, however deep or hidden */
const findIn = (value, needles) => {
  const found = []
  const seen = new Set()
  let looked = 0
  const hit = (s, path) => {
    looked++
    for (const n of needles) if (s.includes(n)) found.push(path)
  }
  const walk = (x, path, depth) => {
    if (found.length > 3 || looked > 200000) return
    if (typeof x === 'string') return hit(x, path)
    if (x === null || (typeof x !== 'object' && typeof x !== 'function') || seen.has(x) || depth > 14) return
    seen.add(x)
    if (x instanceof URL) return hit(x.href, path)
    if (x instanceof Headers) {
      for (const [k, s] of x) hit(`${k}: ${s}`, `${path}.${k}`)
      return
    }
    if (x instanceof Response || x instanceof Request) {
      hit(x.url, `${path}.url`)
      return walk(x.headers, `${path}.headers`, depth + 1)
    }
    if (x instanceof AbortSignal || x instanceof ReadableStream || x instanceof Promise || x instanceof Blob) return
    if (ArrayBuffer.isView(x) || x instanceof ArrayBuffer) return hit(Buffer.from(x.buffer ?? x, x.byteOffset ?? 0, x.byteLength).toString('latin1'), path)
    if (x instanceof Map || x instanceof Set) for (const [k, y] of x.entries()) {
      walk(k, `${path}<key>`, depth + 1)
      walk(y, `${path}<value>`, depth + 1)
    }
    for (const k of Reflect.ownKeys(x)) {
      if (typeof k === 'string') hit(k, `${path} (name)`)
      const d = Object.getOwnPropertyDescriptor(x, k)
      let y
      try { y = 'value' in d ? d.value : x[k] }
      catch { continue }
      walk(y, `${path}.${String(k)}`, depth + 1)
    }
    if (x instanceof Error) {
      hit(String(x.stack), `${path}.stack`)
      hit(String(x.message), `${path}.message`)
    }
  }
  walk(value, '$', 0)
  return { found, looked }
}

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 4000, thorough: 200000 },
  id: 'P36',
  mustObserve: ['successful calls', 'failed calls', 'requests looked at', 'third-party downloads', 'errors looked at', 'results looked at', 'callback arguments looked at', 'spans looked at', 'keys overridden by the caller', 'calls without a key'],
  rule: 'Any API function (also its telemetry variant), with any ending (success, status, transport, cut, empty, garbage, abort, exception in a callback), is called with a unique key and a unique secret header. Every request, result, stream item, error (message, stack, cause, hidden members), callback argument, span and console or terminal output is searched for them (also base64 and percent encoded). Non-trivial: a request was made; distinct by function, ending and requests.',
  technique: 'runtime monitoring: taint monitor (unique marker values searched in everything that leaves a call)',
  async run({ api, count, monitors, rng }) {
    const v = new Violations()
    const rnd = n => Array.from({ length: n }, () => rng.pick([...'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'])).join('')
    const key = rng.bool(0.9) ? rng.apiKey() : undefined
    const secret = `hdr-${rnd(20)}`
    const override = rng.bool(0.15) ? `Custom tok-${rnd(20)}` : undefined
    const plain = { ...(rng.bool(0.7) && { 'X-Api-Key': secret }), ...(override && { Authorization: override }) }
    const headers = rng.bool(0.3) ? new Headers(plain) : plain
    const telemetry = rng.bool(0.35)
    const spans = []
    const processor = { forceFlush: async () => {}, onEnd: (s) => { spans.push({ attributes: s.attributes, events: s.events, links: s.links, name: s.name, resource: s.resource?.attributes, status: s.status }) }, onStart: () => {}, shutdown: async () => {} }
    const written = []
    const restore = ['stdout', 'stderr'].map((k) => {
      const real = process[k].write
      process[k].write = function (s, ...a) {
        written.push(String(s))
        return real.call(this, s, ...a)
      }
      return () => { process[k].write = real }
    })
    const heard = []
    const run = () => anyCall(api, rng, { common: { ...(key !== undefined && { apiKey: key }), ...(rng.bool(0.9) && { headers }) }, heard, telemetry })
    let r
    try { r = telemetry ? await withTracer(api, rng.pick(['none', 'basic', 'node']), [processor], run) : await run() }
    finally { for (const f of restore) f() }
    const where = r.label
    if (!v.check(!r.hang, 'the call ends', where)) return { violations: v.list }
    const raw = [key, secret, override?.slice(7)].filter(Boolean)
    const needles = raw.flatMap(s => [s, encodeURIComponent(s), Buffer.from(s).toString('base64').replace(/=+$/, '').slice(0, 24), s.slice(4)])
    for (const q of r.world.requests) {
      count('requests looked at')
      const own = new URL(q.url).host === (new URL(r.options.baseURL)).host
      const { headers: h, ...rest } = q
      delete rest.signal
      const { found } = findIn({ body: q.text, form: q.form, json: q.json, url: [q.url, q.rawURL] }, needles)
      v.check(found.length === 0, 'credentials appear in no URL and no body', () => `${where}: ${found} of ${short(q.url)}`)
      for (const [name, value] of Object.entries(h)) {
        const allowed = own && ((name === 'authorization' && (value === (plain.Authorization ?? `Bearer ${key}`) || (r.options.headers === undefined && value === `Bearer ${key}`))) || (name === 'x-api-key' && value === secret))
        if (!allowed) v.check(!needles.some(n => value.includes(n)), 'credentials appear in no other header', () => `${where}: ${name} of ${q.url}`)
      }
      if (!own) {
        count('third-party downloads')
        v.check(q.headers.authorization === undefined, 'credentials stay with the provider', () => `${where}: ${q.url}`)
      }
    }
    const look = (what, rule, label) => {
      const { found } = findIn(what, needles)
      v.check(found.length === 0, rule, () => `${where}: ${found} ${label ?? ''}`)
    }
    for (const e of r.errors) {
      look(e, 'credentials appear in no error', short(e))
      count('errors looked at')
    }
    for (const x of r.results) {
      look(x, 'credentials appear in no result')
      count('results looked at')
    }
    // the caller's own objects come back as they were given (messages, inputs), they hold no credentials
    look(r.heard, 'credentials are handed to no callback or tool')
    count('callback arguments looked at', r.heard.length)
    look(spans, 'credentials appear in no span')
    count('spans looked at', spans.length)
    look([monitors.console, written], 'credentials are not printed')
    if (override) count('keys overridden by the caller')
    if (key === undefined) count('calls without a key')
    count(r.errors.length > 0 ? 'failed calls' : 'successful calls')
    return { allowUnhandled: true, nontrivial: r.world.requests.length > 0, sample: { errors: r.errors.length, label: r.label, requests: r.world.requests.length }, signature: [r.label, r.moment, r.world.requests.map(q => [q.url, q.text])], violations: v.list }
  },
}
