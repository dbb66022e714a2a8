import { genChat, modelChat, playTurns, runChat, turnAt } from '../lib/chat.mjs'
import { drive, ENDPOINTS, outcomes } from '../lib/endpoints.mjs'
import { judgeExecutions, judgeMessages, judgeRequests, judgeSteps, stepDiff } from '../lib/oracle.mjs'
import { compareItems, genResponses, judgeResponsesRequests, modelResponses, runResponses } from '../lib/responses.mjs'
import { Rng } from '../lib/rng.mjs'
import { diff, jdiff, jview, short, Violations } from '../lib/util.mjs'
import { WireWorld } from '../lib/wire.mjs'
import { beforeTerminal, settleOrHang, World } from '../lib/world.mjs'
import { atMoment } from './P08.mjs'

const NAMES = Object.keys(ENDPOINTS)

/** how the server sends an answer */
const manner = (rng) => {
  const style = rng.int(0, 3)
  return { encoding: rng.weighted([[5, undefined], [1, 'gzip'], [1, 'br'], [1, 'deflate']]), pause: style === 0 ? i => i % 4 === 0 ? 1 : 0 : style === 1 ? i => i % 9 === 0 ? 3 : 0 : undefined, sized: rng.bool(0.4) }
}
const values = out => ({
  promises: jview(Object.fromEntries(Object.entries(out.promises).map(([k, p]) => [k, p.status === 'fulfilled' ? { value: p.value ?? null } : 'rejected']))),
  // how bytes are grouped is up to the network
  streams: Object.fromEntries(Object.entries(out.streams).map(([k, s]) => [k, { end: s.end, items: s.items.every(x => x instanceof Uint8Array) ? Buffer.concat(s.items).toString('hex') : jview(s.items) }])),
})
// while a body is read, the platform reports the abort in its own words
const ofAbort = (e, reason) => e === reason || e?.name === 'AbortError'
const fail = out => outcomes(out).map(([k, e, failed]) => [k, failed, e])

export default {
  bundles: ['core', 'telemetry'],
  cases: { quick: 900, thorough: 40000 },
  id: 'P41',
  level: 'exploration',
  mustObserve: ['connections used up', 'connections hung up', 'connections broken', 'compressed answers', 'single-shot calls', 'broken answers', 'aborted calls', 'given up answers', 'conversations', 'continued steps', 'forms on the wire', 'calls side by side', 'retried attempts'],
  rule: 'Seeded calls of every function, and conversations (chat, Responses, telemetry), with the real fetch against a real HTTP server on the loopback interface that cuts, paces, compresses, breaks off or never ends its answers. Judged: the bytes of the request as they arrived, the results against the model (and against the same answer on the simulated network), failures after a broken connection, the reason after an abort, and that the server sees every connection used up or hung up. Non-trivial: a request arrived; distinct by call, ending and answer.',
  technique: 'runtime monitoring: wire-level monitor at a real HTTP server, with model-based result oracles',
  async run({ api, count, rng }) {
    const v = new Violations()
    const reason = new Error('the end')
    const mode = rng.weighted([[4, 'endpoint'], [5, 'session'], [1, 'retry']])

    if (mode === 'retry') {
      const statuses = Array.from({ length: rng.int(0, 3) }, () => rng.pick([408, 429, 500, 502, 503, 504]))
      const retry = rng.int(0, 3)
      const world = new WireWorld(rng)
      // failed attempts need not end their answers
      world.handler = (_r, i) => i < statuses.length ? { chunks: [Buffer.from('no')], neverClose: i < retry && rng.bool(), status: statuses[i] } : { ...manner(rng), chunks: [Buffer.from('{"a"'), Buffer.from(':1}')] }
      const real = globalThis.fetch
      const text = rng.text(200)
      let res
      globalThis.fetch = world.fetch
      try { res = await settleOrHang(world, api.xsfetch.createFetch({ retry, retryDelay: 1, retryStatusCodes: [408, 429, 500, 502, 503, 504] })('https://a.test/v1/x', { body: text, headers: { 'x-a': 'b' }, method: 'POST' })) }
      finally { globalThis.fetch = real }
      const where = `retry ${retry} of ${statuses}`
      if (!v.check(res.status === 'fulfilled', 'a retried call settles', () => `${where}: ${short(res)}`)) return { violations: v.list }
      const n = Math.min(retry, statuses.length) + 1
      v.check(world.requests.length === n && world.requests.every(r => r.arrived === 1 && r.text === text && r.headers['x-a'] === 'b' && r.method === 'POST'), 'every attempt arrives whole', () => `${where}: ${short(world.requests)}`)
      v.check(res.value.status === (statuses[n - 1] ?? 200) && await res.value.text() === (n > statuses.length ? '{"a":1}' : 'no'), 'the last answer is handed over whole', () => `${where}: ${res.value.status}`)
      const open = await world.released()
      v.check(open === 0, 'no connection stays open', () => `${where}: ${short(world.bodies)}`)
      if (n > 1) count('retried attempts')
      return { nontrivial: true, sample: { n, retry }, signature: [mode, retry, statuses, text], violations: v.list }
    }

    if (mode === 'endpoint') {
      const many = rng.bool(0.2) ? rng.int(2, 5) : 1
      if (many > 1) count('calls side by side')
      const out = await Promise.all(Array.from({ length: many }, async (_, k) => one(api, v, rng.fork(`call${k}`), count, reason)))
      return { nontrivial: true, sample: out[0].sample, signature: out.map(o => o.signature), violations: v.list }
    }

    // conversations
    const kind = rng.pick(['stream', 'stream', 'generate', 'responses', 'responses', 'telemetry stream', 'telemetry generate'])
    const stream = !kind.includes('generate')
    const responses = kind === 'responses'
    const profile = { errors: 0.15, maxCalls: 3, prepareP: 0.2, stop: rng.pick(['long', 'random']), toolP: 0.8, turns: rng.int(1, 4) }
    const sc = responses ? genResponses(rng, { ...profile, badEnds: false }) : genChat(rng, profile)
    if (responses) for (const t of sc.turns) t.end = 'completed'
    const m = responses ? modelResponses(sc) : modelChat(sc, { stream })
    const at = rng.int(0, m.steps.length - 1)
    const ending = rng.weighted([[5, 'ok'], [3, 'broken'], [2, 'network'], ...(stream ? [[2, 'callback'], [2, 'abort'], [2, 'badchunk']] : [[2, 'abort']])])
    const world = new WireWorld(rng)
    const extra = {}
    const ac = new AbortController()
    if (ending === 'abort' || rng.bool(0.2)) extra.abortSignal = ac.signal
    let n = 0
    const moment = rng.heavy(1, 12)
    let raised = false
    if (ending === 'callback') {
      extra.onEvent = () => {
        if (++n === moment) {
          raised = true
          throw reason
        }
      }
    }
    let aborted = false
    if (ending === 'abort') atMoment(world, moment, () => { aborted = true; ac.abort(reason) }, ['request', 'response', 'chunk'])
    const faults = ending === 'badchunk' ? { [at]: { at: len => Math.min(len, moment), kind: 'badchunk', payload: rng.pick([{ error: { message: 'x' } }, '{"broken']) } } : {}
    const play = playTurns(sc, rng, { faults, sse: responses ? { eventNames: true } : {}, stream })
    let cut = false
    world.handler = (req, i) => {
      const plan = { ...play(req, i), ...manner(rng) }
      if (i !== at) return plan
      if (ending === 'network') return { networkError: true }
      if (ending === 'broken') {
        // before the last bytes, which are whitespace or an end marker at most in a stream
        const k = beforeTerminal(plan.chunks, rng.int(0, Math.max(0, plan.chunks.length - 1)))
        cut = true
        return { ...plan, cutAt: k }
      }
      if (ending === 'abort' || ending === 'callback' || ending === 'badchunk') return { ...plan, neverClose: stream }
      return plan
    }
    // an answer that never ends has to be left some time
    let left
    if (stream && (ending === 'callback' || ending === 'abort')) left = setInterval(() => {
      if (world.bodies.some(b => b.index === at && b.state === 'open' && b.delivered > 0) && ++world.idle > 40) {
        aborted ||= ending === 'abort' || !raised
        ac.abort(reason)
      }
    }, 10)
    world.idle = 0
    if (left) extra.abortSignal = ac.signal
    const opts = { extra, keepHandler: true, world }
    let tr
    try { tr = responses ? await runResponses(api, sc, rng, opts) : await runChat(api, sc, rng, { ...opts, fn: kind.startsWith('telemetry') ? api.telemetry[stream ? 'streamText' : 'generateText'] : undefined, stream }) }
    finally { clearInterval(left) }
    const where = `${kind} ${ending} at ${at} moment ${moment}`
    const open = await world.released()
    if (!v.check(!tr.hang, 'the session settles', where)) return { violations: v.list }
    v.check(open === 0, 'no connection stays open', () => `${where}: ${short(world.bodies)}`)
    for (const b of world.bodies) count(`connections ${b.state === 'consumed' ? 'used up' : b.state}`)
    v.check(world.requests.every(r => r.arrived === undefined || r.arrived === 1), 'every request is sent once', where)
    if (ending === 'ok' || (ending === 'abort' && !aborted) || (ending === 'callback' && !raised && !aborted)) {
      if (!v.check(tr.ok, 'a good answer is no failure', () => `${where}: ${short(tr.error)}`)) return { violations: v.list }
      if (responses) {
        judgeResponsesRequests(v, sc, m, world)
        const d = compareItems(tr.messages, m.history)
        if (d) v.add('the conversation that took place', `${where}: ${d}`)
        v.check(tr.steps.length === m.steps.length, 'steps', () => `${where}: ${tr.steps.length}`)
        m.steps.forEach((w, i) => {
          const hasRefusal = w.turn.items.some(x => x.item.content?.some?.(p => p.type === 'refusal'))
          const ds = tr.steps[i] && stepDiff(hasRefusal ? { ...tr.steps[i], text: w.text } : tr.steps[i], w, { stream: false })
          if (ds && !((tr.steps[i].text ?? '') === (w.text ?? '') && ds.startsWith('text '))) v.add('steps', `${where}: step ${i}: ${ds}`)
        })
      }
      else {
        judgeRequests(v, sc, m, world, { stream })
        judgeSteps(v, tr.steps, m, { stream })
        judgeMessages(v, tr.messages, m, 'the conversation that took place')
      }
      judgeExecutions(v, m, tr.rec)
    }
    else {
      v.check(!tr.ok, 'a broken conversation is no success', () => `${where}: ${short(tr.result)}`)
      if (aborted && ending === 'abort') v.check(ofAbort(tr.error, reason), 'an abort is reported with its reason', () => `${where}: ${short(tr.error)}`)
      if (raised) v.check(tr.error === reason, 'the error of the callback is reported', () => `${where}: ${short(tr.error)}`)
      v.check(world.requests.length <= m.requests.length && (ending === 'abort' || ending === 'callback' || world.requests.length === at + 1), 'nothing is sent after the failure', () => `${where}: ${world.requests.length} requests`)
      for (const s of Object.values(tr.streams ?? {})) v.check(s.end === 'errored', 'every stream fails', () => `${where}: ${s.name} ${s.end}`)
      count(cut || ending === 'network' ? 'broken answers' : ending === 'abort' ? 'aborted calls' : 'given up answers')
    }
    count('conversations')
    if (world.requests.length > 1) count('continued steps')
    return { nontrivial: world.requests.length > 0, sample: { ending, kind, states: world.bodies.map(b => b.state) }, signature: [kind, ending, at, moment, world.requests.map(r => r.text)], violations: v.list }
  },
}

const one = async (api, v, rng, count, reason) => {
  const name = rng.pick(NAMES)
  const ep = ENDPOINTS[name]
  const g = await ep.gen(rng, api)
  const ending = rng.weighted([[6, 'ok'], [2, 'broken'], [1, 'network'], [2, 'abort'], [1, 'status']])
  const seed = `s${rng.int(0, 1e9)}`
  const m = manner(rng)
  const answer = () => g.answer(new Rng(seed))
  const headers = rng.bool(0.5) ? { 'X-Custom': rng.ident(), ...rng.bool(0.3) && { Authorization: 'Basic abc' } } : undefined
  const apiKey = rng.pick([undefined, 'sk-1'])
  const given = { ...g.opts, ...(apiKey && { apiKey }), ...(headers && { headers }), baseURL: rng.pick(['https://a.test', 'https://a.test/v1/', new URL('https://h.test/x/v1')]) }
  const world = new WireWorld(rng)
  const ac = new AbortController()
  const where = `${name} ${ending} ${m.encoding ?? 'plain'}`
  // chunks of nothing do not exist on a wire
  const chunksOf = plan => (plan.chunks ?? [Buffer.from(plan.bytes ?? plan.text ?? '')]).filter(c => c.length > 0)
  const total = chunksOf(answer()).length
  let moment = 0
  if (ending === 'abort') {
    moment = rng.int(1, Math.max(1, Math.min(total, 8)))
    atMoment(world, moment, () => ac.abort(reason), ['request', 'response', 'chunk'])
  }
  const status = rng.pick([400, 401, 404, 429, 500, 503])
  world.handler = () => {
    const plan = { ...answer(), ...m }
    plan.chunks = chunksOf(plan)
    if (ending === 'network') return { networkError: true }
    if (ending === 'status') return { ...plan, chunks: [Buffer.from('sl'), Buffer.from('ow')], status }
    if (ending === 'broken') return { ...plan, cutAt: total === 0 ? 0 : beforeTerminal(plan.chunks, rng.int(0, total - 1)), sized: false }
    // the answer outlives the abort
    if (ending === 'abort') return { ...plan, beat: ep.streaming ? undefined : ' ', neverClose: true }
    return plan
  }
  const out = await drive(api, world, ep, { ...given, ...(ending === 'abort' || rng.bool(0.2) ? { abortSignal: ac.signal } : {}), fetch: world.fetch })
  const open = await world.released()
  if (!v.check(!out.hang, 'everything settles', where)) return { signature: [name] }
  v.check(open === 0, 'no connection stays open', () => `${where}: ${short(world.bodies)}`)
  for (const b of world.bodies) count(`connections ${b.state === 'consumed' ? 'used up' : b.state}`)
  count('single-shot calls')
  const list = fail(out)
  const r = world.requests[0]
  v.check(world.requests.length === 1, 'exactly one request', () => `${where}: ${world.requests.length}`)
  if (r?.arrived) {
    v.check(r.arrived === 1 && r.method === (ep.body === 'none' ? 'GET' : 'POST') && r.url === `${String(given.baseURL).replace(/\/$/, '')}/${ep.path(given)}`, 'the documented endpoint', () => `${where}: ${r.method} ${r.url}`)
    const want = { ...(apiKey && { authorization: 'Bearer sk-1' }), ...(ep.body === 'json' && { 'content-type': 'application/json' }), ...Object.fromEntries(Object.entries(headers ?? {}).map(([k, x]) => [k.toLowerCase(), x])) }
    const got = { ...r.headers }
    if (ep.body === 'form') {
      v.check(/^multipart\/form-data; boundary=/.test(r.type), 'a form is sent as a form', () => `${where}: ${r.type}`)
      delete got['content-type']
      const form = [...(await new Response(r.bytes, { headers: { 'content-type': r.type } }).formData()).entries()]
      // line ends are normalized in forms, and their parser drops byte order marks
      const sort = l => l.map(([k, x]) => [k, String(x).replace(/^\uFEFF/, '').replace(/\r\n?/g, '\n')]).sort((a, b) => a[0] < b[0] ? -1 : 1)
      const d = jdiff(sort(form.filter(([k]) => k !== 'file')), sort(g.form))
      if (d) v.add('the form as it arrived', `${where}: ${d}`)
      const files = form.filter(([k]) => k === 'file').map(([, f]) => f)
      v.check(files.length === 1 && Buffer.compare(Buffer.from(await files[0].arrayBuffer()), Buffer.from(await g.opts.file.arrayBuffer())) === 0 && (!g.opts.fileName || files[0].name === g.opts.fileName), 'the file as it arrived', () => `${where}: ${short(files[0])}`)
      count('forms on the wire')
    }
    if (ep.body === 'json') {
      const d = r.json == null ? `no JSON: ${short(r.text)}` : jdiff(r.json, jview(g.want))
      if (d) v.add('the request as it arrived', `${where}: ${d}`)
    }
    if (ep.body === 'none') v.check(r.bytes.length === 0, 'no body', where)
    const dh = jdiff(got, want)
    if (dh) v.add('the headers as they arrived', `${where}: ${dh}`)
  }
  if (ending === 'ok') {
    v.check(r?.arrived === 1 && list.every(([, failed]) => !failed), 'a good answer is no failure', () => `${where}: ${short(list.filter(x => x[1]))}`)
    const simulated = new World(new Rng(seed))
    simulated.handler = answer
    const twin = await drive(api, simulated, ep, { ...given, fetch: simulated.fetch })
    const d = diff(values(out), values(twin))
    if (d) v.add('the same answer, whatever carries it', `${where}: ${d}`)
    if (m.encoding) count('compressed answers')
  }
  else {
    // usage that was reported before the connection broke stands
    const judged = name === 'streamSpeech' ? list.filter(([k]) => k !== 'usage') : list
    v.check(judged.length > 0 && judged.every(([, failed]) => failed), 'a broken answer is no success', () => `${where} moment ${moment}: ${short(list)}`)
    if (ending === 'abort') v.check(judged.every(([, , e]) => ofAbort(e, reason)), 'an abort is reported with its reason', () => `${where} moment ${moment}: ${short(judged)}`)
    if (ending === 'status') v.check(judged.every(([, , e]) => api.shared.APICallError.isInstance(e) && e.statusCode === status && e.responseBody === 'slow'), 'an error answer is reported', () => `${where}: ${short(judged)}`)
    count(ending === 'abort' ? 'aborted calls' : 'broken answers')
  }
  return { sample: { ending, name }, signature: [name, ending, m.encoding, r?.text, total] }
}
