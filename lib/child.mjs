// One shard of a check: runs cases, with the process-level monitors installed.
import { createRequire } from 'node:module'

import { hashOf, short } from './util.mjs'
import { Rng } from './rng.mjs'
import { immediate } from './world.mjs'

const job = JSON.parse(process.env.VERIF_JOB)
const send = m => new Promise(r => process.send(m, r))

const monitors = { uncaught: [], unhandled: [] }
process.on('unhandledRejection', (reason) => { monitors.unhandled.push(reason) })
process.on('uncaughtException', (error) => { monitors.uncaught.push(error) })
// keep the code under test quiet, but count what it prints
monitors.console = []
for (const k of ['warn', 'error', 'log', 'info', 'debug']) {
  const real = console[k].bind(console)
  console[k] = (...a) => { process.env.VERIF_DEBUG ? real(...a) : monitors.console.push([k, a]) }
}

try {
  const check = (await import(`../checks/${job.id}.mjs`)).default
  await check.before?.()
  const bundle = createRequire(import.meta.url)(job.bundle)
  const api = check.variants ? { ...bundle, variants: { used: 0 } } : bundle
  const state = (await check.setup?.(api, job)) ?? {}
  const t0 = Date.now()
  const sigs = new Set()
  const counters = {}
  const samples = []
  let evaluations = 0
  let violations = 0
  let truncated = false
  let lastBeat = 0
  const indices = job.onlyIndex !== undefined
    ? [job.onlyIndex]
    : (function* () { for (let i = job.shard; i < job.total; i += job.shards) yield i })()
  for (const index of indices) {
    if (Date.now() - t0 > job.capMs) {
      truncated = true
      break
    }
    if (Date.now() - lastBeat > 200 || evaluations === 0) {
      lastBeat = Date.now()
      await send({ index, type: 'beat' })
    }
    else { process.send({ index, type: 'beat' }) }
    monitors.unhandled.length = 0
    monitors.uncaught.length = 0
    monitors.console.length = 0
    const rng = new Rng(`${job.seed}:${job.id}:${index}`)
    const count = (k, n = 1) => { counters[k] = (counters[k] ?? 0) + n }
    let r
    try { r = await check.run({ api, count, index, monitors, rng, state, tier: job.tier }) }
    catch (error) {
      // what came back does not even have the shape the oracle reads
      r = { nontrivial: false, violations: [{ detail: `the outcome cannot be judged: ${error?.stack ?? error}`, key: 'unreadable-outcome', rule: 'unreadable outcome' }] }
    }
    await immediate()
    await immediate()
    evaluations++
    const vs = [...(r.violations ?? [])]
    if (check.unhandled !== false && !r.allowUnhandled) {
      for (const reason of monitors.unhandled) vs.push({ detail: `unhandled rejection: ${short(reason)}`, key: 'unhandled-rejection', rule: 'unhandled-rejection' })
    }
    for (const e of monitors.uncaught) vs.push({ detail: `uncaught exception: ${short(e)} ${e?.stack ?? ''}`, key: 'uncaught-exception', rule: 'uncaught-exception' })
    for (const v of vs) {
      violations++
      if (violations < 50) await send({ index, type: 'violation', violation: { ...v, index, scenario: short(r.sample ?? null, 6000) } })
    }
    if (r.nontrivial) {
      sigs.add(hashOf(r.signature))
      if (samples.length < 3 && r.sample !== undefined) samples.push({ case: JSON.parse(JSON.stringify(r.sample, (_k, x) => typeof x === 'bigint' ? `${x}n` : typeof x === 'string' && x.length > 200 ? `${x.slice(0, 200)}…` : x)), index })
    }
    if (violations >= 20) break
  }
  await check.teardown?.(state)
  if (api.variants?.used) counters['conversations run by the telemetry functions'] = api.variants.used
  await send({ counters, evaluations, samples, sigs: [...sigs], truncated, type: 'done' })
  process.exit(0)
}
catch (error) {
  await send({ message: `${error?.stack ?? error}`, type: 'error' })
  process.exit(3)
}
