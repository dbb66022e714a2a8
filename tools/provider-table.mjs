// One-off: writes lib/providers.json, the documented base URL and API key variable of every provider
// (from the documentation comments of the instances) and the endpoints each one offers.
import { readFileSync, writeFileSync, mkdtempSync } from 'node:fs'
import { createRequire } from 'node:module'
import { buildBundle, REPO } from '../lib/bundle.mjs'
const file = await buildBundle(['core'], mkdtempSync('/tmp/ptab-'))
const api = createRequire(import.meta.url)(file)
const table = []
for (const f of ['generated/index.ts', 'manual/index.ts', 'special/index.ts']) {
  const text = readFileSync(`${REPO}/packages-ext/providers/src/${f}`, 'utf8')
  for (const m of text.matchAll(/\/\*\*([^/]|(?<!\*)\/)*?\*\/\s*export const (\w+) = (\w+)(\(.*)?\n/g)) {
    const doc = m[0]
    const baseURL = doc.match(/baseURL - `([^`]+)`/)?.[1]
    const apiKey = doc.match(/apiKey - `([^`]+)`/)?.[1]
    const create = m[3]
    const special = f.startsWith('special')
    const p = (special ? api.providersSpecial : api.providersCreate)[create]?.('k')
    table.push({ apiKey, baseURL, create: p ? create : undefined, endpoints: Object.keys(p ?? {}), instance: m[2] })
  }
}
writeFileSync(new URL('../lib/providers.json', import.meta.url), JSON.stringify(table, null, 1) + '\n')
console.log(table.length)
const seen = new Set(table.map(t => t.create))
console.log('not in table', Object.keys(api.providersCreate).filter(k => !seen.has(k)), Object.keys(api.providers).filter(k => !table.find(t => t.instance === k)))
for (const t of table) {
  if (!t.create) { console.log('no create', t); continue }
  if (t.create === 'createPlayer2') continue
  const got = api.providersCreate[t.create]('k').chat('m')
  if (got.baseURL !== t.baseURL) console.log('base differs', t.instance, got.baseURL, t.baseURL)
}
