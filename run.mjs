#!/usr/bin/env node
// node run.mjs <ID> [--tier quick|thorough] [--seed N] [--cases N] [--replay FILE] [--index N]
// Supervisor: builds the code under test from /repo, runs the check's monitors in sharded child processes,
// watches them for hangs, merges what they observed, writes evidence/<ID>.json and reports.
import { fork } from 'node:child_process'
import { mkdirSync, mkdtempSync, readFileSync, rmSync, writeFileSync } from 'node:fs'
import os from 'node:os'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

import { buildBundle } from './lib/bundle.mjs'

const HERE = path.dirname(fileURLToPath(import.meta.url))
const args = process.argv.slice(2)
const id = args[0]
const opt = (name, dflt) => {
  const i = args.indexOf(`--${name}`)
  return i >= 0 ? args[i + 1] : dflt
}
if (!id || !/^[A-Z]\d{2,3}$/.test(id)) {
  console.error('usage: node run.mjs <PROPERTY-ID> [--tier quick|thorough] [--seed N] [--replay FILE]')
  process.exit(2)
}

let tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick')
let seed = Number.parseInt(opt('seed', process.env.VERIF_SEED ?? '1'), 10)
let onlyIndex = opt('index') === undefined ? undefined : Number(opt('index'))
const replay = opt('replay')
if (replay) {
  const r = JSON.parse(readFileSync(replay, 'utf8'))
  seed = r.seed
  tier = r.tier
  onlyIndex = r.index
}

const t0 = Date.now()
const tmp = mkdtempSync(path.join(os.tmpdir(), `verif-${id}-`))
let exitCode = 2
try {
  exitCode = await main()
}
catch (error) {
  console.error(`check ${id}: machinery error`)
  console.error(error)
  exitCode = 2
}
finally {
  rmSync(tmp, { force: true, recursive: true })
}
process.exit(exitCode)

async function main() {
  const check = (await import(`./checks/${id}.mjs`)).default
  const bundle = await buildBundle(check.bundles ?? ['core'], tmp)
  const total = onlyIndex !== undefined ? 1 : Number(opt('cases', check.cases[tier]))
  const shards = onlyIndex !== undefined ? 1 : Math.max(1, Math.min(check.shards ?? (8), total))
  const capMs = Number(opt('cap', tier === 'thorough' ? check.capThorough ?? 780_000 : check.capQuick ?? 240_000))
  const merged = { counters: {}, evaluations: 0, samples: [], sigs: new Set(), violations: [] }

  await Promise.all(Array.from({ length: shards }, (_, shard) => new Promise((resolve, reject) => {
    const child = fork(path.join(HERE, 'lib/child.mjs'), [], {
      env: { ...process.env, VERIF_JOB: JSON.stringify({ bundle, capMs, id, onlyIndex, seed, shard, shards, tier, total }) },
      execArgv: ['--max-old-space-size=2500', ...(check.nodeFlags ?? [])],
      stdio: ['ignore', 'inherit', 'inherit', 'ipc'],
    })
    let last = { at: Date.now(), index: -1 }
    let finished = false
    const limit = check.hangMs ?? 60_000
    const timer = setInterval(() => {
      if (Date.now() - last.at > (last.index < 0 ? 120_000 : limit)) {
        clearInterval(timer)
        child.kill('SIGKILL')
        if (last.index < 0) return reject(new Error(`shard ${shard} did not start`))
        finished = true
        merged.violations.push({ detail: `no progress for ${limit} ms (the code under test never yields)`, index: last.index, key: 'hang', rule: 'hang' })
        resolve()
      }
    }, 500)
    child.on('message', (m) => {
      last = { at: Date.now(), index: m.index ?? last.index }
      if (m.type === 'violation') merged.violations.push(m.violation)
      if (m.type === 'done') {
        finished = true
        merged.evaluations += m.evaluations
        for (const s of m.sigs) merged.sigs.add(s)
        for (const [k, v] of Object.entries(m.counters)) merged.counters[k] = (merged.counters[k] ?? 0) + v
        merged.samples.push(...m.samples)
        merged.truncated ||= m.truncated
      }
      if (m.type === 'error') {
        finished = true
        clearInterval(timer)
        reject(new Error(m.message))
      }
    })
    child.on('exit', (code, sig) => {
      clearInterval(timer)
      if (finished) return resolve()
      if (last.index >= 0 && (code === 134 || sig === 'SIGABRT' || sig === 'SIGTRAP')) {
        merged.violations.push({ detail: `process died (${code ?? sig}): memory exhausted or aborted`, index: last.index, key: 'crash', rule: 'crash' })
        return resolve()
      }
      reject(new Error(`shard ${shard} ended with ${code ?? sig} at case ${last.index}`))
    })
  })))

  // known findings: property + key
  const known = readFindings().filter(f => f.property === id)
  const violations = merged.violations.sort((a, b) => a.index - b.index)
  const unlisted = violations.filter(v => !known.some(k => k.key === v.key))
  const seenKnown = known.filter(k => violations.some(v => v.key === k.key))

  const samples = merged.samples.sort((a, b) => a.index - b.index).slice(0, 4)
  const evidence = {
    assumptions: check.assumptions ?? [],
    coverage: {
      distinct_nontrivial: merged.sigs.size,
      evaluations: merged.evaluations,
      observed: Object.fromEntries(Object.entries(merged.counters).sort()),
      rule: check.rule,
      samples,
      ...(merged.truncated && { truncated_by_time_cap: true }),
    },
    level: check.level ?? 'exploration',
    property: id,
    seed,
    tier,
    violations: unlisted.length,
    wall_s: (Date.now() - t0) / 1000,
  }
  mkdirSync(path.join(HERE, 'evidence'), { recursive: true })
  if (onlyIndex === undefined) writeFileSync(path.join(HERE, 'evidence', `${id}.json`), `${JSON.stringify(evidence, null, 1)}\n`)

  for (const k of seenKnown) console.log(`KNOWN-FINDING: property=${id} ${k.what}`)

  if (unlisted.length > 0) {
    mkdirSync(path.join(HERE, 'replays'), { recursive: true })
    const groups = new Map()
    for (const v of unlisted) if (!groups.has(v.rule)) groups.set(v.rule, v)
    let n = 0
    for (const v of groups.values()) {
      if (n++ >= 5) break
      const file = path.join(HERE, 'replays', `${id}-${seed}-${v.index}-${n}.json`)
      writeFileSync(file, `${JSON.stringify({ index: v.index, property: id, seed, tier, violation: v }, null, 1)}\n`)
      console.log(`VIOLATION property=${id} replay=${file}`)
      console.log(`  rule: ${v.rule}\n  case: ${v.index}\n  ${v.detail}`)
    }
    console.log(`${id}: ${unlisted.length} violation(s) in ${merged.evaluations} case(s)`)
    return 1
  }
  const min = check.minNontrivial ?? Math.min(20, Math.floor(total / 10))
  if (onlyIndex === undefined && merged.sigs.size < min) {
    console.error(`${id}: inconclusive: only ${merged.sigs.size} distinct non-trivial cases observed`)
    return 2
  }
  if (onlyIndex === undefined) {
    for (const name of check.mustObserve ?? []) {
      if (!merged.counters[name]) {
        console.error(`${id}: inconclusive: the monitors never observed "${name}"`)
        return 2
      }
    }
  }
  console.log(`${id}: held on ${merged.evaluations} cases (${merged.sigs.size} distinct non-trivial), ${evidence.wall_s.toFixed(1)} s`)
  return 0
}

function readFindings() {
  const out = []
  for (const line of readFileSync(path.join(HERE, 'known-findings.txt'), 'utf8').split('\n')) {
    const m = /^finding: property=(\S+) key=(\S+) (.*)$/.exec(line)
    if (m) out.push({ key: m[2], property: m[1], what: m[3] })
  }
  return out
}
