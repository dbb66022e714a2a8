import { b64, genSpeech, genTranscript, randomBytes } from '../lib/fixtures.mjs'
import { deepEqual, diff, short, Violations } from '../lib/util.mjs'
import { collect, cutBytes, delivery, encodeSSE, randomTick, settleOrHang, World } from '../lib/world.mjs'

const enc = new TextEncoder()

const genUpload = (rng) => {
  const bytes = randomBytes(rng, rng.size(500, 400000))
  const type = rng.pick(['', 'audio/mpeg', 'audio/wav', 'video/mp4'])
  const own = rng.bool(0.5) ? `${rng.ident()}.${rng.pick(['mp3', 'wav'])}` : undefined
  const file = own ? new File([bytes], own, { type }) : new Blob([bytes], { type })
  const fileName = rng.pick([undefined, 'a.mp3', `${rng.ident()} ü.wav`, `${rng.ident()}/b.c.ogg`, 'UPPER.MP3', 'noextension'])
  return { bytes, file, fileName, name: fileName ?? own ?? 'blob', type }
}
const genTexts = rng => ({
  ...(rng.bool(0.5) && { language: rng.pick(['en', 'zh-Hans', 'de']) }),
  ...(rng.bool(0.5) && { prompt: rng.bool(0.1) ? '' : rng.nonEmptyText(30) }),
  ...(rng.bool(0.4) && { temperature: rng.pick(['0', '0.2', '1']) }),
})
const formView = async (form) => {
  const out = []
  for (const [k, x] of form) out.push([k, typeof x === 'string' ? x : { bytes: b64(new Uint8Array(await x.arrayBuffer())), name: x.name, type: x.type }])
  return out
}
// FormData turns lone surrogates into replacement characters
const usv = s => s.toWellFormed()

export default {
  bundles: ['core'],
  cases: { quick: 5000, thorough: 200000 },
  id: 'P31',
  mustObserve: ['speech answers', 'streamed speeches', 'transcriptions', 'streamed transcriptions', 'verbose transcriptions', 'usage reported', 'no usage reported', 'audio pieces', 'text deltas', 'streams cancelled', 'undecodable audio', 'streams read slowly', 'failing answers'],
  rule: 'Seeded audio and transcripts: audio bytes of any size, base64 pieces (also empty ones), text deltas cut anywhere with any framing, chunking and timing, usage at the end or missing, streams ignored, cancelled or read slowly; uploads of Blobs and Files with and without names and options. Oracle: conservation of bytes, order, text and form data. Non-trivial: content delivered; distinct by content and delivery.',
  technique: 'runtime monitoring: conservation oracles over request form data, streams and promises',
  async run({ api, count, rng }) {
    const v = new Violations()
    const world = new World(rng)
    const kind = rng.pick(['speech', 'streamSpeech', 'transcription', 'streamTranscription'])
    const common = { apiKey: rng.bool() ? 'k' : undefined, baseURL: 'https://a.test/v1', fetch: world.fetch, model: rng.pick(['whisper-1', 'tts-1', 'gpt-4o-mini-tts']) }
    const sse = payloads => ({ ...delivery(rng), chunks: cutBytes(rng, encodeSSE(rng, payloads, { done: rng.bool() })), headers: { 'content-type': 'text/event-stream' }, status: 200 })
    const bad = rng.bool(0.1) ? rng.pick([400, 401, 429, 500]) : 0
    const slow = rng.bool(0.3)
    const sig = [kind, bad]
    const failed = (s, where) => v.check(s.status === 'rejected' && api.shared.APICallError.isInstance(s.reason) && s.reason.statusCode === bad, 'a failing answer fails the call', () => `${where}: ${short(s.reason ?? s.value)}`)
    let nontrivial = true
    const speechOptions = { input: rng.nonEmptyText(40), voice: rng.pick(['alloy', 'ash']), ...(rng.bool(0.4) && { responseFormat: rng.pick(['mp3', 'wav', 'opus']) }), ...(rng.bool(0.3) && { speed: rng.pick([0.25, 1, 4]) }), ...(rng.bool(0.3) && { instructions: rng.text(20) }) }
    const speechBody = { input: speechOptions.input, model: common.model, voice: speechOptions.voice, ...(speechOptions.responseFormat && { response_format: speechOptions.responseFormat }), ...(speechOptions.speed && { speed: speechOptions.speed }), ...(speechOptions.instructions !== undefined && { instructions: speechOptions.instructions }) }

    if (kind === 'speech') {
      const bytes = randomBytes(rng, rng.size(1500, 900000))
      world.handler = () => bad ? { status: bad, text: '{"error":"no"}' } : { ...delivery(rng), chunks: cutBytes(rng, bytes), headers: { 'content-type': 'audio/mpeg' }, status: 200 }
      const w = await settleOrHang(world, api.generateSpeech.generateSpeech({ ...common, ...speechOptions }))
      if (bad) { failed(w, kind) }
      else if (v.check(w.status === 'fulfilled', 'the call succeeds', () => `${kind}: ${short(w.reason)}`)) {
        v.check(w.value instanceof ArrayBuffer && b64(new Uint8Array(w.value)) === b64(bytes), 'exactly the provider\'s audio bytes', () => `${w.value?.byteLength} of ${bytes.length}`)
        nontrivial = bytes.length > 0
      }
      v.eq(world.requests[0]?.json, speechBody, 'the request is the caller\'s')
      count('speech answers')
      sig.push(b64(bytes))
    }
    else if (kind === 'streamSpeech') {
      const s = genSpeech(rng)
      // audio that is none: the stream fails there
      const deltas = s.payloads.flatMap((p, i) => p.type === 'speech.audio.delta' ? [i] : [])
      const spoilt = deltas.length > 0 && rng.bool(0.12) ? rng.int(0, deltas.length - 1) : -1
      if (spoilt >= 0) s.payloads[deltas[spoilt]] = { audio: rng.pick(['@@@@', 'abcde', 'AA-_', null, 7, 'A', 'é===']), type: 'speech.audio.delta' }
      world.handler = () => bad ? { status: bad, text: 'no' } : sse(s.payloads)
      const w = await settleOrHang(world, api.streamSpeech.streamSpeech({ ...common, ...speechOptions }))
      v.eq(world.requests[0]?.json, { ...speechBody, stream_format: 'sse' }, 'the request is the caller\'s')
      if (bad) { failed(w, kind) }
      else if (v.check(w.status === 'fulfilled', 'the call succeeds', () => `${kind}: ${short(w.reason)}`)) {
        const r = w.value
        const cancelAfter = rng.bool(0.15) ? rng.int(0, s.pieces.length) : Infinity
        const c = collect(world, r.fullStream, { cancelAfter, delay: slow ? () => randomTick(rng) : undefined })
        const u = await settleOrHang(world, Promise.allSettled([r.usage, c.done]))
        const where = `${s.pieces.length} pieces, cancel ${cancelAfter}, ${short(s.payloads.map(p => p.type))}`
        if (v.check(u.status !== 'hang', 'usage settles with the stream', where)) {
          const got = c.items.map(x => b64(x))
          const want = s.pieces.map(p => b64(p))
          v.check(c.items.every(x => x instanceof Uint8Array), 'audio pieces are bytes', where)
          if (spoilt >= 0 && c.end !== 'cancelled') {
            count('undecodable audio')
            v.check(c.end === 'errored' && c.error instanceof Error, 'undecodable audio makes the stream fail', () => `${where}: ${c.end}`)
            v.check(u.value[0].status === 'rejected', 'undecodable audio makes the stream fail', () => `${where}: usage ${short(u.value[0].value)}`)
            if (!deepEqual(got, want.slice(0, got.length)) || got.length > spoilt) v.add('the decoded audio pieces in order', where)
          }
          else if (c.end === 'cancelled') {
            count('streams cancelled')
            if (!deepEqual(got, want.slice(0, got.length))) v.add('the decoded audio pieces in order', where)
          }
          else {
            v.check(c.end === 'closed', 'the stream ends', () => `${where}: ${c.end} ${short(c.error)}`)
            if (!deepEqual(got, want)) v.add('the decoded audio pieces in order', `${where}: ${diff(got, want)}`)
            const [us] = u.value
            v.check(us.status === 'fulfilled', 'usage settles with the stream', () => `${where}: ${short(us.reason)}`)
            v.eq({ u: us.value }, { u: s.usage }, 'the provider\'s usage')
            count(s.usage ? 'usage reported' : 'no usage reported')
          }
          count('audio pieces', got.length)
          nontrivial = got.length > 0
          sig.push(want, cancelAfter)
        }
      }
      count('streamed speeches')
    }
    else {
      const up = genUpload(rng)
      const texts = genTexts(rng)
      const stream = kind === 'streamTranscription'
      const verbose = !stream && rng.bool(0.5)
      const gran = verbose ? rng.pick([undefined, 'segment', 'word']) : undefined
      const fmt = verbose ? 'verbose_json' : !stream && rng.bool() ? 'json' : undefined
      const opts = { ...common, ...texts, file: up.file, ...(up.fileName !== undefined || rng.bool(0.2) ? { fileName: up.fileName } : {}), ...(fmt && { responseFormat: fmt }), ...(gran && { timestampGranularities: gran }) }
      const wantForm = {
        'file': { bytes: b64(up.bytes), name: up.name, type: up.type },
        'model': common.model,
        ...(stream ? { stream: 'true' } : { response_format: fmt ?? 'json' }),
        ...(verbose && { 'timestamp_granularities[]': gran ?? 'segment' }),
        ...texts,
        ...(texts.prompt !== undefined && { prompt: usv(texts.prompt) }),
      }
      const t = genTranscript(rng)
      const answer = { text: t.text, ...(verbose && { duration: rng.next() * 10, language: 'en', segments: [{ ...rng.jsonObject(1), id: 0 }], words: [] }), ...(rng.bool(0.2) && { usage: { seconds: 3, type: 'duration' } }) }
      world.handler = () => bad ? { status: bad, text: 'no' } : stream ? sse(t.payloads) : { ...delivery(rng), chunks: cutBytes(rng, enc.encode(JSON.stringify(answer))), status: 200 }
      if (!stream) {
        const w = await settleOrHang(world, api.generateTranscription.generateTranscription(opts))
        if (bad) { failed(w, kind) }
        else if (v.check(w.status === 'fulfilled', 'the call succeeds', () => `${kind}: ${short(w.reason)}`)) {
          if (!deepEqual(w.value, JSON.parse(JSON.stringify(answer)))) v.add('the provider\'s answer', diff(w.value, answer))
        }
        count('transcriptions')
        if (verbose) count('verbose transcriptions')
      }
      else {
        const r = api.streamTranscription.streamTranscription(opts)
        const cons = [0, 1].map(() => rng.weighted([[4, Infinity], [1, rng.int(0, 4)], [1, 'ignore']]))
        const recs = [r.fullStream, r.textStream].map((s, i) => cons[i] === 'ignore' ? undefined : collect(world, s, { cancelAfter: cons[i], delay: slow ? () => randomTick(rng) : undefined, name: ['full', 'text'][i] }))
        const w = await settleOrHang(world, Promise.allSettled([r.text, ...recs.map(x => x?.done)]))
        const where = `${t.pieces.length} deltas, consumed ${short(cons)}`
        if (v.check(w.status !== 'hang', 'the text settles with the streams', where)) {
          const [text] = w.value
          if (bad) {
            failed(text, kind)
            for (const c of recs) if (c && c.end !== 'cancelled') failed({ reason: c.error, status: c.end === 'errored' ? 'rejected' : c.end }, `${kind} ${c.name}`)
          }
          else {
            const whole = t.pieces.join('')
            v.check(text.status === 'fulfilled' && text.value === whole, 'the text is the concatenation of the deltas', () => `${where}: ${short(text)}`)
            const wants = [t.deltas, t.pieces]
            recs.forEach((c, i) => {
              if (!c) return
              if (c.end === 'cancelled') count('streams cancelled')
              else v.check(c.end === 'closed', 'the streams end', () => `${where}: ${c.name} ${c.end} ${short(c.error)}`)
              const want = c.end === 'cancelled' ? wants[i].slice(0, c.items.length) : wants[i]
              if (!deepEqual(c.items, want)) v.add('every text delta in order on both streams', `${where}: ${c.name} ${diff(c.items, want)}`)
            })
            count('text deltas', t.pieces.length)
            nontrivial = t.pieces.length > 0
          }
        }
        count('streamed transcriptions')
        sig.push(cons, t.pieces)
      }
      const q = world.requests[0]
      if (v.check(q?.form != null, 'the upload is form data', kind)) {
        const form = await formView(q.body)
        v.check(form.length === Object.keys(wantForm).length, 'exactly the caller\'s file, name and options', () => short(form.map(([k]) => k)))
        const got = Object.fromEntries(form)
        if (!deepEqual(got, wantForm)) v.add('exactly the caller\'s file, name and options', diff(got, wantForm))
        v.check(q.headers['content-type']?.startsWith('multipart/form-data; boundary='), 'the upload is form data', () => short(q.headers))
      }
      sig.push(wantForm, up.bytes.length)
    }
    v.check(world.requests.length === 1, 'one request', () => `${kind}: ${world.requests.length}`)
    if (bad) count('failing answers')
    if (slow) count('streams read slowly')
    return { nontrivial, sample: { bad, kind }, signature: sig, violations: v.list }
  },
}
