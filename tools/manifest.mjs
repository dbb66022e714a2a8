// node tools/manifest.mjs > MANIFEST.json : one entry per check that exists
import { existsSync, readFileSync } from 'node:fs'

const root = new URL('..', import.meta.url)
const props = readFileSync(new URL('properties.jsonl', root), 'utf8').trim().split('\n').map(l => JSON.parse(l))
const checks = []
const na = []
for (const p of props) {
  const file = new URL(`checks/${p.id}.mjs`, root)
  if (!existsSync(file)) {
    na.push({ property: p.id, reason: 'no check built yet' })
    continue
  }
  const c = (await import(file)).default
  checks.push({
    evidence_file: `evidence/${p.id}.json`,
    level: c.level ?? 'exploration',
    level_note: c.levelNote ?? `Runtime monitoring of the real code under seeded generated workloads: ${c.cases.quick} executions (quick) or ${c.cases.thorough} (thorough), each judged by an oracle independent of the code; no claim beyond the executions observed.`,
    property: p.id,
    quick_cmd: `node run.mjs ${p.id}`,
    technique: c.technique ?? 'runtime monitoring: independent reference model and trace oracles over recorded executions',
    thorough_cmd: `VERIF_TIER=thorough node run.mjs ${p.id}`,
  })
}
console.log(JSON.stringify({
  checks,
  not_applicable: na,
  setup_cmd: 'node tools/setup.mjs',
  version: 1,
}, null, 1))
