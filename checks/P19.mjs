import { oddThrown } from '../lib/fixtures.mjs'
import { genChat, modelChat, runChat } from '../lib/chat.mjs'
import { positions, stepDiff } from '../lib/oracle.mjs'
import { genResponses, modelResponses, runResponses } from '../lib/responses.mjs'
import { jdiff, jview, short, Violations } from '../lib/util.mjs'
import { tick, World } from '../lib/world.mjs'
import { atMoment } from './P08.mjs'

export default {
  bundles: ['core', 'telemetry'],
  variants: true,
  cases: { quick: 6000, thorough: 200000 },
  id: 'P19',
  mustObserve: ['conversations run by the telemetry functions', 'conversations ended early', 'step callbacks', 'finish callbacks', 'awaited step callbacks', 'failing step callbacks', 'rewritten calls reported'],
  rule: 'Seeded multi-step conversations (generateText, streamText, responses) with step and finish callbacks that are logged together with requests and tool executions; counts, order and content are compared with the reference and with the results. In non-streaming runs the callback is also slow (the log must show it finished before anything else happens) or fails at a random step. Non-trivial: two or more steps; distinct by log.',
  async run({ api, count, rng }) {
    const v = new Violations()
    const mode = rng.pick(['generate', 'stream', 'responses'])
    const profile = { errors: 0.2, hookP: 0.4, maxCalls: 3, prepareP: 0.1, reasoningP: 0.1, stop: rng.bool(0.7) ? 'long' : 'random', toolP: 0.9, scale: true, turns: rng.int(1, 5), usage: 'all' }
    const sc = mode === 'responses' ? genResponses(rng, profile) : genChat(rng, profile)
    const m = mode === 'responses' ? modelResponses(sc) : modelChat(sc, { stream: mode === 'stream' })
    const extra = {}
    let slow = false
    let failAt = -1
    const boom = rng.bool(0.8) ? new Error('step callback failed') : oddThrown(rng)
    const seen = []
    let world
    if (mode === 'generate') {
      slow = rng.bool(0.4)
      if (rng.bool(0.15)) failAt = rng.int(0, m.steps.length - 1)
      if (slow || failAt >= 0) {
        extra.onStepFinish = (step) => {
          const i = seen.length
          seen.push(structuredClone(step))
          world.note('step-finish')
          if (failAt === i && rng.bool()) throw boom
          return (async () => {
            await tick(rng.int(1, 6))
            if (failAt === i) throw boom
            world.note('step-finish-end')
          })()
        }
      }
    }
    world = new World(rng)
    // conversations that end early: aborted at any moment, or failing at any step
    const early = failAt >= 0 ? undefined : rng.weighted([[7, undefined], [1.5, 'abort'], [1, 'fault']])
    const ac = new AbortController()
    const moment = rng.heavy(1, 40)
    const faultAt = rng.int(0, m.steps.length - 1)
    if (early === 'abort') {
      extra.abortSignal = ac.signal
      atMoment(world, moment, () => ac.abort(boom), rng.pick([undefined, undefined, ['exec'], ['exec-end'], ['step-finish'], ['body-end'], ['request']]))
    }
    const opts = { extra, faults: early === 'fault' ? { [faultAt]: rng.pick([{ body: 'no', kind: 'http', status: 500 }, { error: boom, kind: 'network' }, { error: boom, kind: 'cut' }]) } : {}, world }
    const tr = mode === 'responses' ? await runResponses(api, sc, rng, { ...opts, sse: { eventNames: true } }) : await runChat(api, sc, rng, { ...opts, stream: mode === 'stream' })
    const got = extra.onStepFinish ? seen : tr.rec.stepFinish
    v.check(!tr.hang, 'settles', 'hang')
    if (failAt >= 0) {
      v.check(!tr.ok && tr.error === boom, 'a failing step callback fails the call', () => short(tr.error ?? 'succeeded'))
      v.check(got.length === failAt + 1, 'no step after a failing step callback', () => `${got.length} callbacks`)
      v.check(world.requests.length === failAt + 1, 'no request after a failing step callback', () => `${world.requests.length} requests`)
      count('failing step callbacks')
      return { nontrivial: failAt > 0, signature: [mode, world.log], violations: v.list }
    }
    if (early && (!tr.ok || ac.signal.aborted)) {
      const where = `${mode} ${early} moment ${moment} step ${faultAt}`
      const reqs = positions(world, 'request').map(e => e.at)
      const cbs = positions(world, 'step-finish').map(e => e.at)
      cbs.forEach((at, i) => v.check(reqs[i] < at && (reqs[i + 1] === undefined || at < reqs[i + 1]), 'a step callback for every completed step, once', () => `${where}: ${short(world.log.filter(e => e[0] !== 'chunk'))}`))
      if (early === 'fault') v.check(got.length === faultAt, 'a step callback for every completed step, once', () => `${where}: ${got.length}`)
      if (tr.ok) v.check(got.length === tr.steps.length && jdiff(got, tr.steps) === null, 'step callback gets what the results report', () => `${where}: ${jdiff(got, tr.steps)}`)
      if (mode !== 'generate') {
        v.check(tr.rec.finish.length === 1 && positions(world, 'finish')[0].at > (cbs.at(-1) ?? -1), 'one finish callback', () => `${where}: ${tr.rec.finish.length}`)
        const d = jdiff(tr.rec.finish[0], got.at(-1))
        if (d) v.add('finish callback gets the last completed step', `${where}: ${d}`)
      }
      count('conversations ended early')
      return { nontrivial: got.length > 0, sample: { early, mode, steps: got.length }, signature: [mode, early, moment, faultAt, world.log.filter(e => e[0] !== 'chunk')], violations: v.list }
    }
    v.check(tr.ok, 'conversation succeeds', () => short(tr.error?.stack ?? tr.error))
    v.check(got.length === m.steps.length, 'one step callback per step', () => `${got.length} for ${m.steps.length} steps`)
    m.steps.forEach((s, i) => {
      if (!got[i]) return
      const d = stepDiff({ ...got[i], text: mode === 'responses' ? s.text : got[i].text }, s, { stream: mode === 'stream' })
      if (d) v.add('step callback gets the final step', `step ${i}: ${d}`)
      if (tr.ok) {
        const d2 = jdiff(got[i], jview(tr.steps[i]))
        if (d2) v.add('step callback gets what the results report', `step ${i}: ${d2}`)
      }
      if (s.calls.some((c, k) => c.toolCall.toolName !== s.turn.calls[k].name || c.toolCall.args !== s.turn.calls[k].args)) count('rewritten calls reported')
    })
    // order
    const cbs = positions(world, 'step-finish').map(e => e.at)
    const ends = positions(world, 'step-finish-end').map(e => e.at)
    const reqs = positions(world, 'request').map(e => e.at)
    cbs.forEach((at, i) => {
      v.check(reqs[i] < at && (reqs[i + 1] === undefined || at < reqs[i + 1]), 'step callback comes between its step and the next request', () => `callback ${i}`)
      for (const e of positions(world, 'exec-end')) {
        const t = Number(String(e.data).split(':')[0])
        if (t === i) v.check(e.at < at, 'step callback comes after the tools of its step', () => `step ${i}`)
      }
      if (ends.length > 0) v.check(ends[i] !== undefined && (reqs[i + 1] === undefined || ends[i] < reqs[i + 1]), 'a non-streaming call waits for the step callback', () => `step ${i}`)
    })
    if (mode !== 'generate') {
      const f = positions(world, 'finish').map(e => e.at)
      v.check(f.length === 1, 'one finish callback', () => `${f.length}`)
      v.check(f[0] > (cbs.at(-1) ?? -1), 'finish callback after the last step callback', () => short({ cbs, f }))
      const d = jdiff(tr.rec.finish[0], got.at(-1))
      if (d) v.add('finish callback gets the last completed step', d)
      count('finish callbacks', f.length)
    }
    count('step callbacks', got.length)
    count('awaited step callbacks', ends.length)
    return { nontrivial: m.steps.length > 1, sample: { log: world.log.filter(e => e[0] !== 'chunk').slice(0, 40), mode }, signature: [mode, world.log.filter(e => e[0] !== 'chunk'), got.map(s => s.text)], violations: v.list }
  },
}
