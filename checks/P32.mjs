import { oddThrown } from '../lib/fixtures.mjs'
import { short, Violations } from '../lib/util.mjs'
import { collect, randomTick, settleOrHang, tick, World } from '../lib/world.mjs'

const TAGS = ['think', 'think', 'reasoning', 'a', 'aa', 'thought.x', 'c++', 'x|y', '$1', '[t]', '思考', '/', 'think ', '<t', 'a<a', 'a_rather_long_tag_name', 'chain-of-thought-and-reasoning-of-the-model'] // any name is literal
const genText = (rng, tag) => {
  const open = `<${tag}>`
  const close = `</${tag}>`
  let t = ''
  const n = rng.heavy(0, 14)
  for (let i = 0; i < n; i++) {
    t += rng.weighted([
      [4, () => rng.text(15)],
      [4, () => open],
      [4, () => close],
      [3, () => { const s = rng.pick([open, close]); return s.slice(0, rng.int(0, s.length)) }],
      [1, () => { const s = rng.pick([open, close]); return s.slice(rng.int(0, s.length)) }],
      [0.1, () => `${rng.text(15).repeat(rng.int(200, 900))}${rng.pick(['', ' ', '\n', '\r\n', '<'])}`],
      [1, () => rng.pick(['<', '</', '<<', '>', '\n', '\n\n', '\r\n', open.toUpperCase()])],
      [2, () => `${open}${rng.text(20)}${close}`],
    ])()
  }
  return t
}

/** complete text: the sections, and what is outside of them */
const modelComplete = (text, { separator = '\n', startWithReasoning, tagName = 'think' }) => {
  const open = `<${tagName}>`
  const close = `</${tagName}>`
  const full = startWithReasoning ? open + text : text
  const inside = []
  const outside = []
  let pos = 0
  while (true) {
    const a = full.indexOf(open, pos)
    if (a < 0) break
    const b = full.indexOf(close, a + open.length)
    if (b < 0) break
    inside.push(full.slice(a + open.length, b))
    if (a > pos) outside.push(full.slice(pos, a))
    pos = b + close.length
  }
  if (inside.length === 0) return { reasoning: undefined, text }
  outside.push(full.slice(pos))
  return { reasoning: inside.join(separator), text: outside.join(separator) }
}

/** streamed text: tags alternate, non-empty sections of either kind are separated */
const modelStream = (text, { separator = '\n', startWithReasoning, tagName = 'think' }) => {
  let inReasoning = Boolean(startWithReasoning)
  let rest = text
  const r = []
  const t = []
  while (true) {
    const tag = inReasoning ? `</${tagName}>` : `<${tagName}>`
    const i = rest.indexOf(tag)
    const part = i < 0 ? rest : rest.slice(0, i)
    if (part.length > 0) (inReasoning ? r : t).push(part)
    if (i < 0) break
    rest = rest.slice(i + tag.length)
    inReasoning = !inReasoning
  }
  return { reasoning: r.join(separator), text: t.join(separator) }
}

export default {
  bundles: ['core'],
  cases: { quick: 20000, thorough: 1500000 },
  id: 'P32',
  mustObserve: ['complete texts with sections', 'complete texts without a section', 'streamed texts', 'cut tags', 'failing sources', 'cancelled outputs', 'starting with reasoning'],
  rule: 'Seeded texts dense in opening and closing tags, partial tags and line ends, with any tag name and separator, are split by the complete form and, under several fragmentations (character by character, inside tags, whole), timings and consumptions, by the streaming form; some sources fail midway, some outputs are cancelled. Oracle: independent splitters. Non-trivial: at least one section; distinct by text, options and fragmentation.',
  technique: 'runtime monitoring: conservation and differential oracle over every fragmentation tried',
  async run({ api, count, rng }) {
    const v = new Violations()
    const { extractReasoning, extractReasoningStream } = api.utilsReasoning
    const tagName = rng.pick(TAGS)
    const options = rng.bool(0.15) ? undefined : { tagName, ...(rng.bool(0.5) && { separator: rng.pick(['', '\n', '\n\n', '---', '$&', '<think>', ' ']) }), ...(rng.bool(0.4) && { startWithReasoning: rng.bool(0.7) }) }
    const text = genText(rng, options ? tagName : 'think')
    const mo = options ?? {}
    const where = `${short(options)} ${JSON.stringify(text)}`
    {
      const got = options ? extractReasoning(text, options) : extractReasoning(text)
      const want = modelComplete(text, mo)
      v.check(got.reasoning === want.reasoning, 'the tagged sections are the reasoning', () => `${where}: ${JSON.stringify(got.reasoning)}, expected ${JSON.stringify(want.reasoning)}`)
      v.check(got.text === want.text, 'everything outside is the text', () => `${where}: ${JSON.stringify(got.text)}, expected ${JSON.stringify(want.text)}`)
      count(want.reasoning === undefined ? 'complete texts without a section' : 'complete texts with sections')
      if (mo.startWithReasoning) count('starting with reasoning')
    }
    const want = modelStream(text, mo)
    const frags = []
    for (let k = 0; k < 3; k++) {
      const world = new World(rng)
      const pieces = k === 0 ? [...text] : rng.split(text, { allowEmpty: true, maxPieces: 20 })
      const failAt = rng.bool(0.12) ? rng.int(0, pieces.length) : -1
      const failure = rng.bool(0.8) ? new Error('source failed') : oddThrown(rng)
      let i = 0
      const slow = rng.bool(0.4)
      const source = new ReadableStream({
        pull: async (c) => {
          if (slow) await tick(randomTick(rng))
          world.activity++
          if (i === failAt) return c.error(failure)
          if (i >= pieces.length) return c.close()
          c.enqueue(pieces[i++])
        },
      })
      const out = options ? extractReasoningStream(source, options) : extractReasoningStream(source)
      const modes = [rng.weighted([[6, Infinity], [1, rng.int(0, 2)]]), rng.weighted([[6, Infinity], [1, rng.int(0, 2)]])]
      const r = collect(world, out.reasoningStream, { cancelAfter: modes[0], name: 'reasoning' })
      const t = collect(world, out.textStream, { cancelAfter: modes[1], name: 'text' })
      const w = await settleOrHang(world, Promise.all([r.done, t.done]))
      const wf = `${where} pieces ${short(pieces)} failAt ${failAt} ${short(modes)}`
      if (!v.check(w.status !== 'hang', 'both streams end', wf)) break
      const failed = failAt >= 0
      // a failing source may drop what was still queued
      const soFar = failed ? modelStream(pieces.slice(0, failAt).join(''), mo) : want
      for (const [rec, whole, name, n] of [[r, soFar.reasoning, 'reasoning', modes[0]], [t, soFar.text, 'text', modes[1]]]) {
        const got = rec.items.join('')
        if (rec.end === 'cancelled') {
          count('cancelled outputs')
          v.check(n !== Infinity && whole.startsWith(got), 'the streaming form loses and duplicates nothing', () => `${wf} ${name}: ${JSON.stringify(got)} of ${JSON.stringify(whole)}`)
        }
        else if (failed) {
          v.check(rec.end === 'errored' && rec.error === failure, 'source errors reach both streams', () => `${wf} ${name}: ${rec.end} ${short(rec.error)}`)
          v.check(whole.startsWith(got), 'the streaming form loses and duplicates nothing', () => `${wf} ${name}: ${JSON.stringify(got)} of ${JSON.stringify(whole)}`)
        }
        else {
          v.check(rec.end === 'closed', 'both streams close with their source', () => `${wf} ${name}: ${rec.end} ${short(rec.error)}`)
          v.check(got === whole, 'the same split for every fragmentation', () => `${wf} ${name}: ${JSON.stringify(got)}, expected ${JSON.stringify(whole)}`)
        }
        v.check(rec.items.every(x => typeof x === 'string' && x.length > 0), 'no empty piece', () => `${wf} ${name}`)
      }
      count('streamed texts')
      if (failed) count('failing sources')
      if (k === 0 && pieces.length > 3 && want.reasoning.length > 0) count('cut tags')
      frags.push(pieces.length)
      if (v.list.length > 0) break
    }
    return { nontrivial: want.reasoning.length > 0, sample: { frags, options, text }, signature: [options, text, frags], violations: v.list }
  },
}
