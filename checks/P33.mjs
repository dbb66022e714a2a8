import { oddThrown } from '../lib/fixtures.mjs'
import { VirtualClock } from '../lib/clock.mjs'
import { jdiff, short, Violations } from '../lib/util.mjs'

// patterns whose chunks can be judged on their own: no look-around, no anchors
const CUSTOM = [/[,.;]/, /\S/, /[^e]*e/, /\d+-/, /漢|字/, /😀/u, /.{3}/s, /(a|b)c?x/, /\s{2}/, /<\/?think>/]
const FLAGS = ['', 'g', 'y', 'i', 'gy']

const wordOK = s => /^\s*\S+\s+$/.test(s)
const lineOK = s => /^[^\n]*\n$/.test(s)
// does a text contain a complete chunk, so that waiting longer would be wrong?
const hasWord = s => /\S\s/.test(s)
const hasLine = s => s.includes('\n')

const genText = (rng, chunking) => {
  const n = rng.heavy(0, 60)
  let t = (chunking === 'word' || chunking === 'line') && rng.bool(0.03) ? rng.pick(['x', ' ', 'w'.repeat(80) + ' ', 'l'.repeat(300) + '\n', 'e'.repeat(300) + ' ']).repeat(rng.int(40, 2500)).slice(0, rng.int(1000, 12000)) : ''
  for (let i = 0; i < n; i++) t += rng.weighted([[5, () => rng.ident(6)], [4, () => ' '], [2, () => rng.pick(['  ', '\t', '\n', '\n\n', '\r\n', '\u00A0'])], [1, () => rng.text(8)], [1, () => rng.pick([',', '.', '1-', 'e', '漢', '😀', '<think>', 'acx'])]])()
  return t
}

export default {
  bundles: ['core'],
  cases: { quick: 25000, thorough: 1500000 },
  id: 'P33',
  mustObserve: ['word chunks', 'line chunks', 'custom pattern chunks', 'stateful patterns', 'concurrent streams', 'failing sources', 'cancelled streams', 'simulated chunks'],
  rule: 'Seeded texts (heavy in blanks, line ends, surrogates) are written piece by piece (every fragmentation, with or without pauses) into smoothing transforms (word, line, custom patterns with any flags; sometimes two sharing one pattern), and chunk lists are simulated; virtual time records when each output chunk appears. Oracle: conservation, chunk shape, no complete chunk held back, spacing. Non-trivial: at least two output chunks; distinct by text, pieces and mode.',
  technique: 'runtime monitoring: conservation, chunk-shape and virtual-time pacing monitors',
  async run({ api, count, rng }) {
    const v = new Violations()
    const clock = new VirtualClock().install()
    const sig = []
    let total = 0
    const consume = (stream, { cancelAfter = Infinity } = {}) => {
      const rec = { at: [], end: undefined, items: [] }
      rec.done = (async () => {
        const reader = stream.getReader()
        try {
          while (true) {
            if (rec.items.length >= cancelAfter) {
              await reader.cancel('left')
              rec.end = 'cancelled'
              return
            }
            const { done, value } = await reader.read()
            if (done) { rec.end = 'closed'; return }
            rec.items.push(value)
            rec.at.push(clock.now)
          }
        }
        catch (error) { rec.end = 'errored'; rec.error = error }
      })()
      return rec
    }
    try {
      if (rng.bool(0.25)) {
        // simulated stream
        const n = rng.bool(0.01) ? rng.int(260, 600) : rng.heavy(0, 30)
        const chunks = Array.from({ length: n }, () => rng.pick([() => rng.text(10), () => rng.int(0, 9), () => null, () => undefined, () => ({ a: 1 }), () => false, () => ''])())
        const initialDelay = rng.pick([0, 1, 5, 300, 1000])
        const chunkDelay = rng.pick([0, 1, 7, 50, 1000])
        const cancelAfter = rng.bool(0.15) ? rng.int(0, n) : Infinity
        const frozen = Object.freeze([...chunks])
        const recs = Array.from({ length: rng.bool(0.2) ? 2 : 1 }, () => consume(api.utilsStream.simulateReadableStream({ chunkDelay, chunks: frozen, initialDelay }), { cancelAfter }))
        const w = await clock.run(Promise.all(recs.map(r => r.done)))
        const where = `simulate ${short({ cancelAfter, chunkDelay, initialDelay, n })}`
        v.check(w.status !== 'hang', 'the stream ends', where)
        while (clock.fireNext()) await clock.quiesce(1)
        for (const rec of recs) {
          v.check(rec.end === (cancelAfter <= n ? 'cancelled' : 'closed'), 'the stream closes after the last chunk', () => `${where}: ${rec.end} ${short(rec.error)}`)
          const want = chunks.slice(0, Math.min(n, cancelAfter))
          v.check(rec.items.length === want.length && rec.items.every((x, i) => Object.is(x, want[i])), 'exactly the given chunks in order', () => `${where}: ${short(rec.items)} of ${short(want)}`)
          rec.at.forEach((t, i) => v.check(t === initialDelay + i * chunkDelay, 'the configured delays', () => `${where}: chunk ${i} after ${t} ms`))
          count('simulated chunks', rec.items.length)
          total += rec.items.length
        }
        sig.push('sim', n, initialDelay, chunkDelay, cancelAfter, chunks.map(x => typeof x).join())
      }
      else {
        const mode = rng.weighted([[2, 'word'], [2, 'line'], [2, 'custom'], [1, 'default']])
        const re = new RegExp(rng.pick(CUSTOM), rng.pick(FLAGS))
        const reWithU = re.flags
        const chunking = mode === 'custom' ? re : mode === 'default' ? undefined : mode
        if (mode === 'custom' && /[gy]/.test(reWithU)) re.lastIndex = rng.pick([0, 0, 3])
        const givenDelay = rng.pick([undefined, 0, 1, 10, 10, 25, 500])
        const delay = givenDelay ?? 10
        const options = mode === 'default' && givenDelay === undefined && rng.bool() ? undefined : { ...(chunking !== undefined && { chunking }), ...(givenDelay !== undefined && { delay: givenDelay }) }
        const startIndex = re.lastIndex
        const recs = Array.from({ length: rng.bool(0.25) ? 2 : 1 }, () => {
          const text = genText(rng, mode)
          const pieces = rng.split(text, { allowEmpty: true, maxPieces: 25 })
          const paused = rng.bool(0.5)
          const fail = rng.bool(0.1) ? { with: rng.bool(0.8) ? new Error('source failed') : oddThrown(rng) } : undefined
          const cancelAfter = rng.bool(0.08) ? rng.int(0, 4) : Infinity
          const t = { cancelAfter, fail, paused, pieces, text }
          let pushed = 0
          t.checkpoints = []
          const smooth = options === undefined ? api.utilsStream.smoothStream() : api.utilsStream.smoothStream(options)
          const src = new ReadableStream({
            cancel: (r) => { t.sourceCancelled = r },
            pull: async (c) => {
              if (pushed > 0 && paused) {
                // nothing more is sent until nothing is going on any more
                const at = clock.now
                await new Promise(r => setTimeout(r, 100_000))
                t.checkpoints.push({ n: t.rec.items.length, sent: pieces.slice(0, pushed).join(''), at })
              }
              if (pushed < pieces.length) c.enqueue(pieces[pushed++])
              else if (fail) c.error(fail.with)
              else c.close()
            },
          }, { highWaterMark: 0 })
          t.rec = consume(src.pipeThrough(smooth), { cancelAfter })
          return t
        })
        const w = await clock.run(Promise.all(recs.map(t => t.rec.done)))
        const where0 = `${mode}${mode === 'custom' ? ` ${re}` : ''} ${short(options)}`
        v.check(w.status !== 'hang', 'the stream ends', where0)
        v.check(re.lastIndex === startIndex, 'the given pattern is left as it was', () => `${where0}: lastIndex ${re.lastIndex}, was ${startIndex}`)
        for (const t of recs) {
          const { fail, pieces, rec, text } = t
          const where = `${where0} pieces ${short(pieces)}`
          const out = rec.items.join('')
          const full = rec.end === 'closed'
          if (rec.end === 'cancelled') {
            count('cancelled streams')
          }
          v.check(rec.items.every(x => typeof x === 'string' && x.length > 0), 'no empty chunk', () => `${where}: ${short(rec.items)}`)
          if (fail) {
            count('failing sources')
            if (rec.end !== 'cancelled') v.check(rec.end === 'errored' && rec.error === fail.with, 'a failing source fails the stream', () => `${where}: ${rec.end} ${short(rec.error)}`)
            v.check(text.startsWith(out), 'exactly the input text', () => `${where}: ${short(rec.items)}`)
          }
          else if (rec.end === 'cancelled') { v.check(text.startsWith(out), 'exactly the input text', () => `${where}: ${short(rec.items)}`) }
          else {
            v.check(full, 'the stream ends with its source', () => `${where}: ${rec.end} ${short(rec.error)}`)
            v.check(out === text, 'exactly the input text', () => `${where}: ${short(out)}`)
          }
          // shapes
          const sticky = re.flags.includes('y')
          const shapeOK = mode === 'line' ? lineOK : mode === 'custom'
            ? (s) => {
                const r = new RegExp(re.source, re.flags)
                r.lastIndex = 0
                const m = r.exec(s)
                return m !== null && m[0].length > 0 && m.index + m[0].length === s.length && (!sticky || m.index === 0)
              }
            : wordOK
          const has = mode === 'line' ? hasLine : mode === 'custom' ? s => { const m = new RegExp(re.source, re.flags).exec(s); return m !== null && m[0].length > 0 } : hasWord
          const n = rec.items.length
          rec.items.forEach((x, i) => {
            if (i < n - 1 || (!full && out !== text)) {
              v.check(shapeOK(x), 'every chunk but the last matches the mode', () => `${where}: chunk ${i} ${JSON.stringify(x)}`)
            }
            else { v.check(shapeOK(x) || !has(x), 'the last chunk is not several', () => `${where}: ${JSON.stringify(x)}`) }
            if (i > 0) {
              const gap = rec.at[i] - rec.at[i - 1]
              v.check(t.paused ? gap >= delay : gap === delay, 'the configured delay is between chunks', () => `${where}: ${gap} ms before chunk ${i}`)
            }
          })
          if (rec.end !== 'cancelled') {
            for (const c of t.checkpoints) {
              const got = rec.items.slice(0, c.n).join('')
              v.check(!has(c.sent.slice(got.length)), 'complete chunks are not held back', () => `${where}: delivered ${JSON.stringify(got)} of ${JSON.stringify(c.sent)}`)
            }
          }
          total += n
          count(mode === 'line' ? 'line chunks' : mode === 'custom' ? 'custom pattern chunks' : 'word chunks', n)
          sig.push(mode, String(re), pieces, n)
        }
        if (recs.length > 1) count('concurrent streams')
        if (mode === 'custom' && /[gy]/.test(re.flags)) count('stateful patterns')
      }
    }
    finally { clock.uninstall() }
    return { nontrivial: total > 1, sample: sig.slice(0, 6), signature: sig, violations: v.list }
  },
}
