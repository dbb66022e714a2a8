import { oddThrown } from '../lib/fixtures.mjs'
import { genResponses, modelResponses, runResponses, unified } from '../lib/responses.mjs'
import { jdiff, jview, short, Violations } from '../lib/util.mjs'

export const splitSteps = (events) => {
  const out = []
  for (const e of events) {
    if (e?.type === 'step.start' || out.length === 0) out.push([])
    out.at(-1).push(e)
  }
  return out
}

/** conservation and event mapping over a finished session, full or (failed) partial */
export const judgeResponsesStreams = (v, m, tr) => {
  const sent = Object.keys(tr.sent).sort((a, b) => a - b).map(k => tr.sent[k])
  const flat = sent.flat()
  const { event, full, reasoning, text } = tr.streams
  if (full) { const d = jdiff(full.items, flat); if (d) v.add('full stream is the provider\'s events', d) }
  const deltas = kinds => flat.filter(e => kinds.includes(e.type)).map(e => e.delta).join('')
  if (text) v.check(text.items.join('') === deltas(['response.output_text.delta', 'response.refusal.delta']), 'text stream is the text sent', () => short(text.items.join('')))
  if (reasoning) v.check(reasoning.items.join('') === deltas(['response.reasoning.delta', 'response.reasoning_summary_text.delta']), 'reasoning stream is the reasoning sent', () => short(reasoning.items.join('')))
  sent.forEach((payloads, i) => {
    const output = payloads.findLast(e => ['response.completed', 'response.failed', 'response.incomplete'].includes(e.type))?.response.output ?? []
    const want = output.flatMap(x => x.type === 'message' ? x.content : []).flatMap(p => p.type === 'output_text' || p.type === 'text' ? [p.text] : []).join('')
    v.check((tr.steps?.[i]?.text ?? '') === want, 'the text of a step is the text of its answer', () => `step ${i}: ${short(tr.steps?.[i]?.text)} of ${short(want)}`)
  })
  if (event) {
    const groups = splitSteps(event.items)
    v.check(groups.length === sent.length, 'one event group per step', () => `${groups.length} groups, ${sent.length} answers`)
    sent.forEach((payloads, i) => {
      const want = unified(payloads)
      const got = groups[i] ?? []
      const plain = got.filter(e => e.type !== 'tool-result.done')
      const d = jdiff(plain, want)
      if (d) v.add('events map the answer in arrival order', `step ${i}: ${d}`)
      const step = m.steps[i]
      const results = got.filter(e => e.type === 'tool-result.done')
      v.check(results.length === (step.executed ? step.calls.length : 0), 'one result event per executed call', () => `step ${i}: ${results.length} of ${step.calls.length}`)
      for (const c of step.calls) v.check(results.filter(e => c.resultOk(e)).length === 1, 'result events carry the outcome', () => `step ${i} ${c.callId}: ${short(results)}`)
      for (const [k, e] of got.entries()) {
        if (e.type !== 'tool-result.done') continue
        v.check(got.slice(0, k).some(x => x.type === 'tool-call.done' && x.toolCallId === e.toolCallId), 'result after its call is done', () => `step ${i}: ${e.toolCallId}`)
        v.check(got.slice(k).some(x => x.type === 'step.done'), 'result before the step is done', () => `step ${i}: ${e.toolCallId}`)
      }
    })
    const cb = jdiff(tr.rec.events, event.items)
    if (cb) v.add('event callback sees the event stream', cb)
  }
}

export default {
  bundles: ['core'],
  cases: { quick: 3500, thorough: 120000 },
  id: 'P24',
  mustObserve: ['provider events', 'text deltas', 'reasoning deltas', 'tool results', 'failing sessions', 'prefix cases'],
  rule: 'Seeded Responses-API conversations encoded as full event sequences (queued/in-progress/annotation/unmapped events, several parts and items, split and empty deltas, interleaved item order, arbitrary bytes and framing); every stream and the event callback are compared with an independent mapping of the events sent. A share of the sessions ends with a fault (HTTP error, broken connection, bad payload, error payload, throwing callback), after which everything must settle alike with a prefix delivered. Non-trivial: over 5 events; distinct by what was delivered.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const sc = genResponses(rng, { errors: 0.2, hookP: 0.15, prepareP: 0.1, reasoningP: 0.5, toolP: 0.8, scale: true, turns: rng.int(1, 4) })
    const m = modelResponses(sc)
    let fault
    const extra = {}
    if (rng.bool(0.25)) {
      fault = { at: rng.int(0, m.steps.length - 1), kind: rng.pick(['http', 'cut', 'badchunk', 'errorpayload', 'network', 'callback']) }
      fault.error = rng.bool(0.15) ? oddThrown(rng) : fault.kind === 'callback' ? new Error('callback') : new Error(`broken ${rng.ident()}`)
      if (fault.kind === 'callback') { const n = rng.int(0, 2); extra[rng.pick(['onFinish', 'stopWhen', 'prepareStep'])] = () => { if (n >= 0) throw fault.error } }
    }
    const faults = !fault || fault.kind === 'callback'
      ? {}
      : { [fault.at]: fault.kind === 'badchunk'
          ? { at: n => rng.int(0, n - 1), kind: 'badchunk', payload: '{"type": nope' }
          : fault.kind === 'errorpayload' ? { at: n => rng.int(0, n - 1), kind: 'badchunk', payload: { error: { code: 'x', message: 'bad' }, type: 'error' } }
            : { body: 'no', error: fault.error, kind: fault.kind, status: 500 } }
    const tr = await runResponses(api, sc, rng, { extra, faults })
    v.check(!tr.hang, 'everything settles', 'hang')
    const all = ['input', 'steps', 'usage', 'totalUsage']
    const ends = Object.values(tr.streams).map(s => s.end)
    if (tr.ok) {
      if (fault && !(fault.kind === 'callback' && extra.stopWhen && m.contexts.length === 0)) v.add('a faulty session does not succeed', short(fault))
      v.check(ends.every(e => e === 'closed'), 'streams settle with the promises', () => short(ends))
      if (!fault) judgeResponsesStreams(v, m, tr)
    }
    else {
      v.check(fault, 'healthy conversation succeeds', () => short(tr.error?.stack ?? tr.error))
      const errs = new Set([...all.map(k => tr.settled?.[k]?.reason), ...Object.values(tr.streams).map(s => s.error)])
      v.check(all.every(k => tr.settled?.[k]?.status === 'rejected') && ends.every(e => e === 'errored') && errs.size === 1, 'streams and promises settle together with one error', () => `${short(ends)} ${[...errs].map(x => short(x)).join(' | ')}`)
      if (['cut', 'network', 'callback'].includes(fault?.kind)) v.check(errs.has(fault.error), 'the error is the one that happened', () => [...errs].map(x => short(x)).join())
      const flat = Object.keys(tr.sent).sort((a, b) => a - b).flatMap(k => tr.sent[k])
      const f = tr.streams.full.items
      const d = jdiff(f, flat.slice(0, f.length))
      if (d) v.add('what was delivered is a prefix', d)
      const texts = flat.filter(e => ['response.output_text.delta', 'response.refusal.delta'].includes(e.type)).map(e => e.delta).join('')
      v.check(texts.startsWith(tr.streams.text.items.join('')), 'what was delivered is a prefix', 'text')
      const ev = tr.streams.event.items.filter(e => e.type !== 'tool-result.done')
      const de = jdiff(ev, unified(flat).slice(0, ev.length))
      if (de) v.add('what was delivered is a prefix', `events: ${de}`)
      const cb = jdiff(tr.streams.event.items, tr.rec.events.slice(0, tr.streams.event.items.length))
      if (cb) v.add('event callback sees the event stream', cb)
      count('failing sessions')
      if (f.length > 0) count('prefix cases')
    }
    const flat = Object.values(tr.sent).flat()
    count('provider events', flat.length)
    count('text deltas', tr.streams.text?.items.length ?? 0)
    count('reasoning deltas', tr.streams.reasoning?.items.length ?? 0)
    count('tool results', (tr.streams.event?.items ?? []).filter(e => e.type === 'tool-result.done').length)
    return { nontrivial: flat.length > 5, sample: { events: (tr.streams.event?.items ?? []).slice(0, 20), turns: jview(sc.turns.slice(0, 1)) }, signature: [tr.streams.full?.items.length, tr.streams.event?.items, tr.streams.text?.items], violations: v.list }
  },
}
