// Streams of the speech and transcription endpoints.
if (typeof Uint8Array.fromBase64 !== 'function') {
  // not in this Node release; the library relies on the platform for it
  Object.defineProperty(Uint8Array, 'fromBase64', {
    configurable: true,
    value: (s, { alphabet = 'base64', lastChunkHandling = 'loose' } = {}) => {
      if (typeof s !== 'string') throw new TypeError('not a string')
      let t = s.replace(/[\t\n\f\r ]/g, '')
      if (alphabet === 'base64url') {
        if (/[+/]/.test(t)) throw new SyntaxError('invalid base64url')
        t = t.replaceAll('-', '+').replaceAll('_', '/')
      }
      if (lastChunkHandling === 'strict' && t.length % 4 !== 0) throw new SyntaxError('missing padding')
      if (lastChunkHandling === 'stop-before-partial') t = t.slice(0, t.length - t.length % 4)
      if (!/^[A-Za-z0-9+/]*={0,2}$/.test(t) || t.replace(/=+$/, '').length % 4 === 1) throw new SyntaxError('invalid base64')
      return new Uint8Array(Buffer.from(t, 'base64'))
    },
    writable: true,
  })
}

export const randomBytes = (rng, n) => {
  if (n <= 4096) return Uint8Array.from({ length: n }, () => rng.int(0, 255))
  // large data: pseudo-random words from one seed
  const out = new Uint8Array(n)
  let x = rng.int(1, 2 ** 31)
  for (let i = 0; i < n; i++) {
    x ^= x << 13
    x ^= x >>> 17
    x ^= x << 5
    out[i] = x
  }
  return out
}
export const b64 = bytes => Buffer.from(bytes).toString('base64')

/** what failing answers call themselves */
export const ERROR_TYPES = ['text/plain', 'application/json', 'application/json; charset=utf-8', 'text/html', 'text/event-stream', 'application/problem+json', 'image/png', 'application/octet-stream', 'audio/mpeg']

export const genSpeech = (rng) => {
  const pieces = Array.from({ length: rng.heavy(0, 12) }, () => randomBytes(rng, rng.size(200, 300000, 0.002)))
  const usage = rng.pick([undefined, null, { input_tokens: rng.int(0, 99), output_tokens: rng.int(0, 99), total_tokens: rng.int(0, 999) }, { input_tokens: rng.pick([0, 5]), output_tokens: rng.pick([0, 7]), total_tokens: rng.pick([0, 12, 13]) }])
  const payloads = pieces.map(p => ({ audio: b64(p), type: 'speech.audio.delta' }))
  if (rng.bool(0.15)) payloads.splice(rng.int(0, payloads.length), 0, { type: 'speech.audio.unknown' })
  const doneSent = rng.bool(0.9)
  if (doneSent) payloads.push({ type: 'speech.audio.done', ...(usage !== undefined && { usage }) })
  return { payloads, pieces, usage: doneSent && usage ? { inputTokens: usage.input_tokens, outputTokens: usage.output_tokens, totalTokens: usage.total_tokens } : undefined }
}

export const genTranscript = (rng) => {
  const text = rng.bool(0.004) ? rng.largeText(rng.int(20000, 90000)) : rng.text(200)
  const pieces = rng.split(text, { allowEmpty: true })
  const deltas = pieces.map(delta => ({ delta, type: 'transcript.text.delta', ...(rng.bool(0.1) && { logprobs: [{ token: 'x' }] }) }))
  const payloads = [...deltas]
  if (rng.bool(0.8)) payloads.push({ text, type: 'transcript.text.done', ...(rng.bool() && { usage: { total_tokens: 3 } }) })
  return { deltas, payloads, pieces, text }
}

/** what is thrown need not be an Error, nor anything at all */
export const oddThrown = rng => rng.pick([undefined, null, '', 0, false, 42, Symbol.for('odd')])
