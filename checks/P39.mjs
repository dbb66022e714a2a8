import { anyCall } from '../lib/anycall.mjs'
import { Rng } from '../lib/rng.mjs'
import { short, Violations } from '../lib/util.mjs'

// the packages the umbrella stands for, by their name in the bundle
const PACKAGES = ['embed', 'generateImage', 'generateObject', 'generateSpeech', 'generateText', 'generateTranscription', 'model', 'shared', 'sharedChat', 'sharedStream', 'streamObject', 'streamSpeech', 'streamText', 'streamTranscription', 'tool', 'utilsChat', 'utilsReasoning', 'utilsStream']
// functions the telemetry package has its own version of
const TRACED = new Set(['embed', 'embedMany', 'generateText', 'streamText'])
const ERRORS = ['XSAIError', 'APICallError', 'InvalidResponseError', 'InvalidToolCallError', 'InvalidToolInputError', 'JSONParseError', 'RemoteAPIError', 'ToolExecutionError']

const scrub = x => typeof x === 'symbol' || x === undefined ? String(x) : x instanceof ArrayBuffer ? { bytes: [...new Uint8Array(x)] } : JSON.parse(JSON.stringify(x ?? null, (k, y) => k === 'id' && typeof y === 'string' && /^[\da-f]{8}-/.test(y) ? 'uuid' : y instanceof Error ? `${y.name}: ${y.message}` : y instanceof Uint8Array ? { bytes: [...y] } : y))
const view = c => ({
  errors: c.errors.map(e => e instanceof Error ? `${e.constructor.name} ${e.name} ${e.code}: ${e.message}` : scrub(e)),
  hang: c.hang,
  label: c.label,
  requests: c.world.requests.map(r => ({ headers: { ...r.headers, ...(r.form && { 'content-type': '' }) }, method: r.method, text: r.form ? undefined : r.text?.replace(/[\da-f]{8}-[\da-f]{4}-[\da-f]{4}-[\da-f]{4}-[\da-f]{12}/g, 'uuid'), url: r.url })),
  results: c.results.map(scrub),
})

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 2500, thorough: 120000 },
  id: 'P39',
  level: 'exploration',
  levelNote: 'Seeded calls whose functions come from a random mix of entry points, compared with the same calls made through the single packages; no claim beyond the executions observed.',
  mustObserve: ['functions of the single package', 'functions of the umbrella', 'functions of the telemetry package', 'typed errors recognised', 'foreign errors left alone', 'successes', 'failures'],
  rule: 'The same seeded call (any function, any ending) is made with every function and helper taken from the single packages, and with each of them taken from a random entry point that offers it (single package, umbrella, telemetry package). Requests, results and errors must be the same, and the error classes of every entry point must recognise the errors of both. Non-trivial: always; distinct by function, ending and mix.',
  technique: 'runtime monitoring: differential oracle over entry points and cross-entry error recognition',
  async run({ api, count, index, rng }) {
    const v = new Violations()
    const mixed = { ...api }
    const mix = []
    for (const pkg of PACKAGES) {
      mixed[pkg] = {}
      for (const name of Object.keys(api[pkg])) {
        const offers = [['single package', api[pkg]], ['umbrella', api.xsai], ...(TRACED.has(name) ? [] : [['telemetry package', api.telemetry]])]
        for (const [where, ns] of offers) v.check(ns[name] !== undefined, 'an entry point offers everything of the packages it stands for', () => `${name} (${pkg}) is missing in the ${where}`)
        const [where, ns] = rng.pick(offers.filter(([, ns]) => ns[name] !== undefined))
        mixed[pkg][name] = ns[name]
        count(`functions of the ${where}`)
        mix.push(where[0])
      }
    }
    if (v.list.length > 0) return { violations: v.list }

    const seed = `P39 ${index} ${rng.next()}`
    const plain = await anyCall(api, new Rng(seed))
    const other = await anyCall(mixed, new Rng(seed))
    v.eq(view(other), view(plain), 'a call does not depend on the entry point its functions come from')
    v.check(!other.hang, 'the call settles', other.label)

    const entries = [['single package', api.shared], ['umbrella', api.xsai], ['telemetry package', api.telemetry]]
    for (const [from, call] of [['plain', plain], ['mixed', other]]) {
      for (const e of call.errors) {
        for (const name of ERRORS) {
          const seen = entries.map(([where, ns]) => [where, ns[name].isInstance(e), e instanceof ns[name]])
          const want = api.shared[name].isInstance(e)
          v.check(seen.every(([, is, inst]) => is === want && inst === want), 'the error classes of every entry point recognise the same errors', () => `${from} ${call.label}: ${name} ${short(seen)} for ${short(e)}`)
          if (want) count('typed errors recognised')
        }
        if (!api.shared.XSAIError.isInstance(e)) count('foreign errors left alone')
      }
    }
    // errors made through one entry point are recognised by the others
    const name = rng.pick(ERRORS.slice(1))
    const [made, ns] = rng.pick(entries)
    const e = name === 'APICallError' ? new ns[name]('x', { response: new Response('no', { status: 500 }) }) : new ns[name]('x', {})
    for (const [where, other] of entries) {
      v.check(other[name].isInstance(e) && other.XSAIError.isInstance(e), 'the error classes of every entry point recognise the same errors', () => `a ${name} of the ${made} is not one of the ${where}`)
      for (const wrong of ERRORS.slice(1)) if (wrong !== name) v.check(!other[wrong].isInstance(e), 'an error is of its own class only', () => `a ${name} of the ${made} is a ${wrong} of the ${where}`)
    }
    // errors of other people are not taken for the library's, whatever they look like
    const foreign = Object.assign(rng.bool() ? new Error('x') : new (class APICallError extends Error {})('x'), { code: rng.pick(['api_call_error', 'json_parse_error', undefined]), name: rng.pick(ERRORS) })
    for (const x of [foreign, { ...foreign, message: 'x' }, null, undefined, 'APICallError']) {
      for (const [where, ns] of entries) for (const name of ERRORS) v.check(!ns[name].isInstance(x), 'foreign errors are not recognised', () => `${short(x)} is a ${name} of the ${where}`)
    }
    count(plain.errors.length > 0 ? 'failures' : 'successes')
    return { nontrivial: true, sample: { label: plain.label, mix: mix.join('') }, signature: [plain.label, mix.join('')], violations: v.list }
  },
}
