import { genTurn, turnAsChunks } from '../lib/chat.mjs'
import { genSpeech, genTranscript } from '../lib/fixtures.mjs'
import { genObjectSession } from '../lib/objects.mjs'
import { genResponses, turnAsEvents, unified } from '../lib/responses.mjs'
import { deepEqual, short, Violations } from '../lib/util.mjs'
import { collect, encodeSSE, immediate, randomTick, settleOrHang, World } from '../lib/world.mjs'

const KINDS = ['chat', 'chat', 'chat', 'responses', 'responses', 'object', 'speech', 'transcription', 'extract', 'smooth']
const concat = (events, type) => events.filter(e => e.type === type).map(e => e.delta).join('')

/** payloads as bytes, cut anywhere; for every cut the number of payloads that have completely arrived */
const frames = (rng, payloads, opts) => {
  const eol = rng.pick(['\n', '\n', '\r\n'])
  const parts = payloads.map((p, i) => encodeSSE(rng, [p], { bom: i === 0, ...opts, done: false, eol }))
  const all = Buffer.concat(parts)
  const ends = []
  let n = 0
  for (const p of parts) ends.push(n += p.length)
  const cuts = new Set(ends.filter(() => rng.bool(0.6)))
  for (let i = rng.int(0, 6); i > 0; i--) cuts.add(rng.int(1, all.length))
  cuts.add(all.length)
  const at = [...cuts].filter(c => c > 0).sort((a, b) => a - b)
  return { arrived: at.map(c => ends.filter(e => e <= c).length), chunks: at.map((c, i) => new Uint8Array(all.subarray(i === 0 ? 0 : at[i - 1], c))) }
}

/** holds the answer back; release(i) lets chunk i through */
const gated = (f) => {
  const gates = f.chunks.map(() => Promise.withResolvers())
  return { gate: i => gates[i]?.promise, release: i => gates[i].resolve() }
}

const until = async (cond) => {
  for (let i = 0; i < 300; i++) {
    if (cond()) return true
    await immediate()
  }
  for (let i = 0; i < 40; i++) {
    if (cond()) return true
    await new Promise(r => setTimeout(r, 10))
  }
  return cond()
}

/** members of the outermost object that are certainly complete: something follows them */
const completeMembers = (prefix) => {
  let depth = 0
  let inString = false
  let cut = -1
  for (let i = 0; i < prefix.length; i++) {
    const c = prefix[i]
    if (inString) {
      if (c === '\\') i++
      else if (c === '"') inString = false
    }
    else if (c === '"') { inString = true }
    else if (c === '{' || c === '[') { depth++ }
    else if (c === '}' || c === ']') { depth-- }
    else if (c === ',' && depth === 1) { cut = i }
  }
  return cut < 0 ? {} : JSON.parse(`${prefix.slice(0, cut)}}`)
}
/** the string value that is being received, and where in the object it is: what is there of it cannot change any more */
const openString = (prefix) => {
  const stack = []
  let from = -1
  let key = false
  for (let i = 0; i < prefix.length; i++) {
    const c = prefix[i]
    const top = stack.at(-1)
    if (from >= 0) {
      if (c === '\\') i++
      else if (c === '"') {
        if (key) top.at = JSON.parse(prefix.slice(from - 1, i + 1))
        from = -1
      }
    }
    else if (c === '"') {
      from = i + 1
      key = top.object && top.key
    }
    else if (c === '{') stack.push({ key: true, object: true })
    else if (c === '[') stack.push({ at: 0, object: false })
    else if (c === '}' || c === ']') stack.pop()
    else if (c === ':') top.key = false
    else if (c === ',') top.object ? top.key = true : top.at++
  }
  if (from < 0 || key) return undefined
  const text = prefix.slice(from).split('\\')[0]
  return text === '' ? undefined : { path: stack.map(s => s.at), text }
}
/** elements of {"elements":[…]} that are certainly complete */
const completeElements = (prefix) => {
  let depth = 0
  let inString = false
  let n = 0
  for (let i = 0; i < prefix.length; i++) {
    const c = prefix[i]
    if (inString) {
      if (c === '\\') i++
      else if (c === '"') inString = false
    }
    else if (c === '"') { inString = true }
    else if (c === '{' || c === '[') { depth++ }
    else if (c === '}' || c === ']') {
      depth--
      if (depth === 2 && c === '}') n++
    }
  }
  return n
}

const chatView = (payloads) => {
  const out = { args: '', calls: new Set(), full: payloads.length, reasoning: '', text: '' }
  for (const p of payloads) {
    const d = p.choices?.[0]?.delta
    if (!d) continue
    out.reasoning += d.reasoning ?? d.reasoning_content ?? ''
    out.text += d.content ?? d.refusal ?? ''
    for (const c of d.tool_calls ?? []) {
      out.calls.add(c.index)
      out.args += c.function.arguments ?? ''
    }
  }
  return { ...out, calls: out.calls.size }
}
const rView = (payloads) => {
  const u = unified(payloads)
  return { args: concat(u, 'tool-call.delta'), calls: u.filter(e => e.type === 'tool-call.start').length, full: payloads.length, reasoning: concat(u, 'reasoning.delta'), text: concat(u, 'text.delta') }
}

export default {
  bundles: ['core'],
  cases: { quick: 3000, thorough: 150000 },
  id: 'P35',
  mustObserve: ['chat answers', 'Responses answers', 'object streams', 'strings seen growing', 'speech streams', 'transcription streams', 'reasoning extractions', 'smoothed streams', 'pauses judged', 'second steps', 'tool-call fragments seen live', 'calls returned before the answer'],
  rule: 'The provider (or source stream) pauses after every network chunk until everything that has completely arrived so far has been seen on every stream and in the event callback, for all streaming functions, in first and later steps, with chunk boundaries inside and between payloads. Oracle: what has been delivered during the pause against what has arrived. Non-trivial: at least two pauses with content; distinct by payloads and cuts.',
  technique: 'runtime monitoring: bounded-latency (liveness) monitor with a provider that holds back the rest of its answer',
  async run({ api, count, rng }) {
    const v = new Violations()
    const kind = rng.pick(KINDS)
    const world = new World(rng)
    const common = { baseURL: 'https://a.test/v1', fetch: world.fetch, model: 'm' }
    let pauses = 0
    const plan = (f, g) => ({ chunks: f.chunks, eager: rng.bool(), gate: g.gate, headers: { 'content-type': 'text/event-stream' }, hwm: rng.int(0, 2), status: 200 })
    /** releases chunk by chunk, judging after each */
    const walk = async (f, g, want, got, label, { last = f.chunks.length } = {}) => {
      for (let i = 0; i < f.chunks.length; i++) {
        g.release(i)
        if (i >= last) continue
        const w = want(f.arrived[i])
        const ok = await until(() => deepEqual(got(), w) || (w.atLeast && w.atLeast(got())))
        pauses++
        count('pauses judged')
        if (!v.check(ok, 'what has arrived is delivered without waiting for more', () => `${label}: after ${f.arrived[i]} payload(s) in ${i + 1} chunk(s) delivered ${short(got())}, arrived ${short(w.atLeast ? w.seen : w)}`)) {
          for (let j = i + 1; j < f.chunks.length; j++) g.release(j)
          return false
        }
      }
      return true
    }
    const sig = [kind]
    let done = Promise.resolve()

    if (kind === 'chat' || kind === 'responses') {
      const isChat = kind === 'chat'
      const twoSteps = rng.bool(0.4)
      const base = isChat
        ? (() => {
            const calls = n => Array.from({ length: n }, (_, i) => ({ args: JSON.stringify({ n: i, s: rng.text(20) }), id: `c${i}`, name: 't' }))
            const turns = twoSteps ? [genTurn(rng, { reasoningP: 0.5 }, calls(rng.int(1, 3))), genTurn(rng, { reasoningP: 0.5 })] : [genTurn(rng, { reasoningP: 0.5 }, calls(rng.pick([0, 0, 1, 2])))]
            return turns.map(t => turnAsChunks(rng, t))
          })()
        : (() => {
            const sc = genResponses(rng, { badEnds: false, toolP: twoSteps ? 1 : 0.5, turns: 2 })
            const turns = sc.turns.slice(0, 2).map((t) => {
              t.end = 'completed'
              for (const x of t.items) if (x.item.type === 'function_call') x.item.name = 't'
              return t
            })
            const list = turns.map((t, i) => turnAsEvents(rng, t, i))
            return list.length === 2 && list[0].some(e => e.type === 'response.output_item.done' && e.item?.type === 'function_call') ? list : [list[0]]
          })()
      const steps = base.map(payloads => ({ f: frames(rng, payloads, { eventNames: !isChat }), payloads }))
      for (const s of steps) s.g = gated(s.f)
      let answered = 0
      world.handler = (rec, i) => {
        if (i >= steps.length) return { status: 500, text: 'one request too many' }
        const s = steps[i]
        answered = i + 1
        return plan(s.f, s.g)
      }
      const heard = []
      const tools = [{ execute: () => 'ok', function: { name: 't', parameters: { properties: {}, type: 'object' } }, type: 'function' }]
      const options = { ...common, onEvent: (e) => { heard.push(e) }, stopWhen: api.sharedChat.stepCountAtLeast(steps.length), tools, ...(isChat ? { messages: [{ content: 'hi', role: 'user' }] } : { input: 'hi' }) }
      const r = isChat ? api.streamText.streamText(options) : api.responses.responses(options)
      count('calls returned before the answer')
      const ev = collect(world, r.eventStream, { name: 'event' })
      const full = collect(world, r.fullStream, { name: 'full' })
      const text = collect(world, r.textStream, { name: 'text' })
      const reason = collect(world, r.reasoningTextStream, { name: 'reasoning' })
      const view = isChat ? chatView : rView
      let before = []
      for (const [i, s] of steps.entries()) {
        if (!v.check(await until(() => answered === i + 1), 'the next request follows without anybody\'s help', `step ${i}`)) break
        const want = (n) => {
          const x = view([...before, ...s.payloads.slice(0, n)])
          return { args: x.args, calls: x.calls, full: x.full, heardArgs: x.args, heardText: x.text, reasoning: x.reasoning, reasoningEvents: x.reasoning, text: x.text, textEvents: x.text }
        }
        if (isChat) {
          // call indices start again with every step
          const earlier = steps.slice(0, i).reduce((n, q) => n + chatView(q.payloads).calls, 0)
          const inner = want
          s.want = n => ({ ...inner(n), calls: earlier + chatView(s.payloads.slice(0, n)).calls })
        }
        const got = () => ({ args: concat(ev.items, 'tool-call.delta'), calls: ev.items.filter(e => e.type === 'tool-call.start').length, full: full.items.length, heardArgs: concat(heard, 'tool-call.delta'), heardText: concat(heard, 'text.delta'), reasoning: reason.items.join(''), reasoningEvents: concat(ev.items, 'reasoning.delta'), text: text.items.join(''), textEvents: concat(ev.items, 'text.delta') })
        if (!await walk(s.f, s.g, s.want ?? want, got, `${kind} step ${i}`)) break
        if (concat(ev.items, 'tool-call.delta').length > 0) count('tool-call fragments seen live')
        before = [...before, ...s.payloads]
        if (i > 0) count('second steps')
      }
      for (const s of steps) s.f.chunks.forEach((_, i) => s.g.release(i))
      done = Promise.allSettled([r.messages, r.input, r.steps, ev.done, full.done, text.done, reason.done])
      count(isChat ? 'chat answers' : 'Responses answers')
      sig.push(base, steps.map(s => s.f.arrived))
    }
    else if (kind === 'object') {
      const s = genObjectSession(rng, api.zod.z)
      const payloads = s.payloads(rng)
      const f = frames(rng, payloads)
      const g = gated(f)
      world.handler = () => plan(f, g)
      const r = await api.streamObject.streamObject({ ...common, messages: [{ content: 'hi', role: 'user' }], output: s.output, schema: s.schema })
      count('calls returned before the answer')
      const text = collect(world, r.textStream, { name: 'text' })
      const objects = collect(world, s.output === 'array' ? r.elementStream : r.partialObjectStream, { name: 'objects' })
      const want = (n) => {
        const seen = chatView(payloads.slice(0, n)).text
        if (s.output === 'array') {
          const least = completeElements(seen) - 1
          return { atLeast: x => x.text === seen && x.objects >= least, seen: `${least} element(s) of ${seen}` }
        }
        const members = Object.entries(completeMembers(seen))
        const open = openString(seen)
        if (open) count('strings seen growing')
        const growing = () => open === undefined || (s => typeof s === 'string' && s.startsWith(open.text))(open.path.reduce((o, k) => o?.[k], objects.items.at(-1)))
        return { atLeast: x => x.text === seen && growing() && members.every(([k, m]) => deepEqual(objects.items.at(-1)?.[k], m)), seen: `${short(members)} of ${seen}` }
      }
      await walk(f, g, want, () => ({ objects: objects.items.length, text: text.items.join('') }), `object stream (${s.output})`)
      done = Promise.allSettled([text.done, objects.done])
      count('object streams')
      sig.push(s.text, f.arrived)
    }
    else if (kind === 'speech' || kind === 'transcription') {
      const speech = kind === 'speech'
      const s = speech ? genSpeech(rng) : genTranscript(rng)
      if (s.payloads.length === 0) return { nontrivial: false, violations: [] }
      const f = frames(rng, s.payloads)
      const g = gated(f)
      world.handler = () => plan(f, g)
      if (speech) {
        const w = await settleOrHang(world, api.streamSpeech.streamSpeech({ ...common, input: 'x', voice: 'alloy' }))
        if (!v.check(w.status === 'fulfilled', 'the call returns its stream before the answer is over', () => `${w.status} ${short(w.reason)}`)) return { violations: v.list }
        const c = collect(world, w.value.fullStream, { name: 'audio' })
        await walk(f, g, n => ({ pieces: s.payloads.slice(0, n).filter(p => p.type === 'speech.audio.delta').length }), () => ({ pieces: c.items.length }), kind)
        done = Promise.allSettled([c.done, w.value.usage])
      }
      else {
        const r = api.streamTranscription.streamTranscription({ ...common, file: new Blob(['x']), fileName: 'a.wav' })
        const full = collect(world, r.fullStream, { name: 'full' })
        const text = collect(world, r.textStream, { name: 'text' })
        await walk(f, g, (n) => {
          const t = s.payloads.slice(0, n).filter(p => p.type === 'transcript.text.delta').map(p => p.delta).join('')
          return { full: t, text: t }
        }, () => ({ full: concat(full.items, 'transcript.text.delta'), text: text.items.join('') }), kind)
        done = Promise.allSettled([full.done, text.done, r.text])
      }
      count('calls returned before the answer')
      count(speech ? 'speech streams' : 'transcription streams')
      sig.push(s.payloads, f.arrived)
    }
    else {
      // stream utilities: the source pauses
      const extract = kind === 'extract'
      const tag = rng.pick(['think', 'a', 'reasoning'])
      let source = ''
      for (let i = rng.int(1, 8); i > 0; i--) source += rng.pick([`<${tag}>`, `</${tag}>`, rng.text(20), `<${tag}`.slice(0, rng.int(1, tag.length + 1)), 'word ', '\n', 'one two\nthree ', '<'])
      const pieces = rng.split(source, { allowEmpty: true })
      if (pieces.length === 0) return { nontrivial: false, violations: [] }
      let ctrl
      const src = new ReadableStream({ start: (c) => { ctrl = c } })
      const chunking = rng.pick(['word', 'line'])
      const out = extract
        ? api.utilsReasoning.extractReasoningStream(src, { tagName: tag })
        : { textStream: src.pipeThrough(api.utilsStream.smoothStream({ chunking, delay: 0 })) }
      const text = collect(world, out.textStream, { name: 'text' })
      const reason = extract ? collect(world, out.reasoningStream, { name: 'reasoning' }) : { done: undefined, items: [] }
      let sent = ''
      const f = { arrived: pieces.map((_, i) => i + 1), chunks: pieces }
      const g = { release: i => ctrl.enqueue((sent += pieces[i], pieces[i])) }
      const want = () => {
        const all = sent
        if (!extract) {
          // held back: the unfinished last word (with the blanks around it) or line
          const held = chunking === 'line' ? /[^\n]*$/.exec(all)[0].length : /(?:^|\s+)\S*\s*$/.exec(all)?.[0].length ?? 0
          return { atLeast: x => x.text >= all.length - held, seen: `${all.length - held} characters of ${JSON.stringify(all)}` }
        }
        // held back: the possible beginning of the next tag
        let rest = all
        let inside = false
        let separators = 0
        let started = [false, false]
        let visible = 0
        while (true) {
          const t = inside ? `</${tag}>` : `<${tag}>`
          const at = rest.indexOf(t)
          let part = at < 0 ? rest : rest.slice(0, at)
          if (at < 0) {
            for (let n = Math.min(t.length - 1, part.length); n > 0; n--) {
              if (t.startsWith(part.slice(-n))) {
                part = part.slice(0, -n)
                break
              }
            }
          }
          if (part.length > 0) {
            if (started[+inside]) separators++
            started[+inside] = true
            visible += part.length
          }
          if (at < 0) break
          rest = rest.slice(at + t.length)
          inside = !inside
        }
        const min = visible + separators
        return { atLeast: x => x.text + x.reasoning >= min, seen: `${min} characters of ${JSON.stringify(all)}` }
      }
      await walk(f, g, want, () => ({ reasoning: reason.items.join('').length, text: text.items.join('').length }), `${kind} ${extract ? tag : chunking}`)
      ctrl.close()
      done = Promise.allSettled([text.done, reason.done])
      count(extract ? 'reasoning extractions' : 'smoothed streams')
      sig.push(pieces)
    }
    const w = await settleOrHang(world, done)
    v.check(w.status !== 'hang', 'the call ends when the provider does', kind)
    return { nontrivial: pauses > 1, sample: { kind, pauses }, signature: sig, violations: v.list }
  },
}
