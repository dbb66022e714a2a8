import { createRequire } from 'node:module'
import path from 'node:path'

import { REPO } from '../lib/bundle.mjs'
import { diff, short, Violations } from '../lib/util.mjs'

const tools = createRequire('/opt/veriftools/node/package.json')
const PKG = path.join(REPO, 'packages-ext/providers')
const CAPABILITIES = ['embed', 'image', 'model', 'speech', 'transcription']

// providers whose factories are written by hand, only their model types are generated
const MANUAL = ['anthropic', 'azure', 'openrouter', 'togetherai', 'cloudflare-workers-ai']
const EXCLUDED = ['302ai']
const RESERVED = new Set('break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with yield let static await async process'.split(' '))

const pascal = id => id.split(/[-_/.]/).map(w => w.charAt(0).toUpperCase() + w.slice(1)).join('')
const camel = id => { const p = pascal(id); return p.charAt(0).toLowerCase() + p.slice(1) }
const isKey = e => e.endsWith('_KEY') || e.endsWith('_TOKEN')

// ---- the generator, with its file system and network replaced
const FS = ['node:fs', 'node:fs/promises', 'fs', 'fs/promises']
async function bundleScript(entry) {
  const esbuild = tools('esbuild')
  const { outputFiles: [out] } = await esbuild.build({
    bundle: true,
    define: { 'import.meta.dirname': JSON.stringify(path.join(PKG, 'scripts')), 'import.meta.filename': JSON.stringify(path.join(PKG, 'scripts/sync.ts')), 'import.meta.url': JSON.stringify(`file://${PKG}/scripts/sync.ts`) },
    format: 'esm',
    logLevel: 'silent',
    platform: 'node',
    plugins: [{
      name: 'contain',
      setup(build) {
        build.onResolve({ filter: /^(?:node:|fs$|fs\/|path$|process$|url$|util$)/ }, a => ({ namespace: 'builtin', path: a.path }))
        build.onLoad({ filter: /.*/, namespace: 'builtin' }, a => ({ contents: `module.exports = $builtin(${JSON.stringify(a.path)})`, loader: 'js' }))
      },
    }],
    ...entry,
    target: 'node22',
    write: false,
  })
  return out.text
}
const AsyncFunction = (async () => {}).constructor

async function runSync(script, answer) {
  const files = new Map()
  const wrong = []
  const write = (p, data) => {
    const full = path.resolve(PKG, String(p))
    files.set(full, (files.get(full) ?? []).concat(String(data)))
  }
  const fs = {
    mkdirSync() {}, writeFileSync: write,
    promises: { async mkdir() {}, async writeFile(p, d) { write(p, d) } },
  }
  fs.writeFile = async (p, d, ...r) => { write(p, d); if (typeof r.at(-1) === 'function') r.at(-1)(null) }
  const builtin = name => name.endsWith('fs') ? { ...fs, default: fs } : name.endsWith('fs/promises') ? { ...fs.promises, default: fs.promises } : name.endsWith('process') ? { cwd: () => PKG, env: {}, default: { cwd: () => PKG, env: {} } } : ['node:path', 'node:url', 'node:util'].includes(name.startsWith('node:') ? name : `node:${name}`) ? createRequire(import.meta.url)(name) : (wrong.push(name), {})
  const urls = []
  let error
  try { await script(async (u) => { urls.push(String(u?.url ?? u)); return answer() }, builtin, { log() {}, warn() {}, error() {}, info() {} }) }
  catch (e) { error = e }
  return { error, files, urls, wrong }
}

// ---- model listings
const word = rng => Array.from({ length: rng.int(1, 7) }, () => rng.pick([...'abcdefghijklmnopqrstuvwxyz'])).join('')
const modelId = rng => Array.from({ length: rng.int(1, 4) }, () => rng.pick([word(rng), word(rng).toUpperCase(), `${rng.int(1, 99)}b`, `${rng.int(1, 9)}.${rng.int(0, 9)}`, `${word(rng)}/${word(rng)}`])).join(rng.pick(['-', '.', '_', ':', '/', '-'])).replace(/^/, rng.pick(['', '', '', '~', '@cf/']))
const envNames = (rng, id) => {
  const base = id.toUpperCase().replace(/\W/g, '_').replace(/^(\d)/, '_$1')
  return rng.pick([
    [`${base}_API_KEY`],
    [`${base}_TOKEN`],
    [`${base}_API_TOKEN`, `${base}_API_KEY`],
    [`${base}_ACCOUNT_ID`, `${base}_API_KEY`],
    [`${base}_RESOURCE_NAME`],
    [`${base}_KEY`, 'SHARED_TOKEN', `${base}_BASE_URL`],
    [`${base}_KEY_FILE`, `${base}_TOKENS`],
    [`${base}_KEY_FILE`, `${base}_TOKENS`, `${base}_KEY`, `${base}_TOKEN_URL`],
    [`MY${base}KEY`, `${base}TOKEN`, `${base}_token`, `${base}_API_TOKEN`],
    [`${base}_API_KEY`, `${base}_GROUP`, `${base}_OTHER_KEY`, `${base}_THIRD_TOKEN`],
    [],
  ])
}

function genListing(rng, { extraProviders, overrides }) {
  const taken = new Set([...extraProviders.map(p => pascal(p.id)), 'ChatProvider', 'EmbedProvider', 'ImageProvider', 'ModelProvider', 'SpeechProvider', 'TranscriptionProvider', ...Object.entries(overrides).flatMap(([id, o]) => [pascal(id), o._overrides?.create, o._overrides?.id && pascal(o._overrides.id)])])
  const lower = new Set([...taken].filter(Boolean).map(x => x.toLowerCase()))
  const ids = []
  for (const id of [...Object.keys(overrides), ...MANUAL, ...EXCLUDED]) if (rng.bool(0.3)) ids.push(id)
  for (let n = rng.heavy(1, 25); n > 0; n--) {
    const id = [word(rng), ...Array.from({ length: rng.int(0, 3) }, () => rng.pick([word(rng), 'ai', 'cn', 'v2', '4all', 'cloud']))].join(rng.pick(['-', '-', '-', '_', '.']))
    if (lower.has(pascal(id).toLowerCase()) || RESERVED.has(camel(id)) || MANUAL.some(m => pascal(m).toLowerCase() === pascal(id).toLowerCase())) continue
    lower.add(pascal(id).toLowerCase())
    ids.push(id)
  }
  for (let i = ids.length - 1; i > 0; i--) {
    const j = rng.int(0, i)
    ;[ids[i], ids[j]] = [ids[j], ids[i]]
  }
  const listing = {}
  for (const id of ids) {
    const models = {}
    for (let n = rng.pick([0, 1, 2, rng.heavy(1, 30)]); n > 0; n--) {
      const m = modelId(rng)
      models[rng.bool(0.8) ? m : `${id}:${n}`] = { attachment: rng.bool(), cost: { input: 1 }, id: m, name: m }
    }
    listing[id] = {
      ...(rng.bool(0.8) && { api: rng.pick([`https://api.${id}.test/v1`, `https://api.${id}.test/v1/`, `https://${id}.test/openai/v1?x=1`, `http://localhost:${rng.int(1000, 9999)}/v1/`, `https://api.\${${id.toUpperCase().replace(/\W/g, '_')}_REGION}.test/v1`, `https://gw.test/\${ACCOUNT}/v1`]) }),
      doc: `https://${id}.test/docs`,
      env: envNames(rng, id),
      id,
      models,
      name: rng.pick([pascal(id), `${id} (China)`, `The ${id}'s`, `${id} & Co.`, `${id} 模型`]),
      npm: '@ai-sdk/openai-compatible',
    }
  }
  return listing
}

const modelsOf = p => Object.values(p.models).map(m => m.id)
function expected(listing, { extraProviders, overrides }) {
  const all = Object.values(listing).filter(p => !EXCLUDED.includes(p.id)).map(p => ({ ...p, ...overrides[p.id] }))
  const auto = all.filter(p => !MANUAL.includes(p.id) && p.api != null && !p.api.includes('${') && p.env.some(isKey))
  const name = p => ({ create: `create${p._overrides?.create ?? pascal(p.id)}`, entry: p._overrides?.id ?? camel(p.id) })
  return {
    auto: [
      ...auto.map(p => ({ ...name(p), baseURL: p.api, capabilities: p._capabilities ?? {}, keys: p.env.filter(isKey), models: modelsOf(p) })),
      ...extraProviders.map(p => ({ ...name({ ...p, _overrides: p.overrides }), baseURL: p.baseURL, capabilities: p.capabilities ?? {}, keys: p.apiKey, models: p.models })),
    ],
    // what a hand-written factory needs to name its models
    types: all.filter(p => MANUAL.includes(p.id)).map(p => ({ models: modelsOf(p), name: `${pascal(p.id)}Models` })),
  }
}

// ---- reading what was generated
const literalsOf = (ts, node) => {
  const found = []
  const walk = (n) => {
    if (ts.isLiteralTypeNode(n) && ts.isStringLiteral(n.literal)) found.push(n.literal.text)
    ts.forEachChild(n, walk)
  }
  if (node) walk(node)
  return found
}
const parse = (ts, text, name) => {
  const file = ts.createSourceFile(name, text, ts.ScriptTarget.Latest, true)
  return { errors: file.parseDiagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')), file }
}
const load = (text, require) => {
  const { code } = tools('esbuild').transformSync(text, { format: 'cjs', loader: 'ts', target: 'node22' })
  const module = { exports: {} }
  // eslint-disable-next-line no-new-func
  new Function('module', 'exports', 'require', code)(module, module.exports, require)
  return module.exports
}
const set = a => [...new Set(a)].sort()

export default {
  bundles: ['core'],
  cases: { quick: 480, thorough: 20000 },
  id: 'P40',
  level: 'exploration',
  levelNote: 'The generator script runs on seeded model listings with its network and file system replaced; what it writes is compiled, loaded and called. No claim beyond the listings explored.',
  mustObserve: ['generated factories', 'capabilities', 'model names', 'keys from the environment', 'second keys from the environment', 'missing keys', 'hand-written providers', 'providers left out', 'failed downloads'],
  rule: 'Seeded model listings (providers with and without an API, templated APIs, several keys, overrides, hand-written ones) are given to the generator of the providers package, whose network and file system are stand-ins. What it writes is parsed, compiled and loaded; every factory and instance is called and compared with a model computed from the listing. Failed downloads must leave the files alone. Non-trivial: a provider was generated; distinct by listing.',
  technique: 'runtime monitoring: model-based oracle over the loaded output of the generator',
  async setup() {
    const ts = tools('typescript')
    const sync = await bundleScript({ entryPoints: [path.join(PKG, 'scripts/sync.ts')] })
    const script = new AsyncFunction('fetch', '$builtin', 'console', sync)
    const data = await bundleScript({ stdin: { contents: `import { extraProviders } from './utils/extra'\nimport { overrides } from './utils/overrides'\nglobalThis.$p40 = { extraProviders, overrides }`, loader: 'ts', resolveDir: path.join(PKG, 'scripts') } })
    // eslint-disable-next-line no-new-func
    new Function(data)()
    return { data: globalThis.$p40, script, ts }
  },
  async run({ api, count, rng, state: { data, script, ts } }) {
    const v = new Violations()
    const listing = genListing(rng, data)

    if (rng.bool(0.08)) {
      const how = rng.pick(['network', 'html', 'cut'])
      const text = JSON.stringify(listing)
      const out = await runSync(script, () => {
        if (how === 'network') throw new TypeError('fetch failed')
        return new Response(how === 'html' ? '<html>502</html>' : text.slice(0, -1 - rng.int(0, 40) % text.length), { status: how === 'html' ? 502 : 200 })
      })
      v.check(out.error !== undefined, 'a failed download is reported', how)
      v.check(out.files.size === 0, 'a failed download leaves the files alone', () => `${how}: ${[...out.files.keys()]}`)
      count('failed downloads')
      return { nontrivial: true, sample: { how }, signature: [how, text.length], violations: v.list }
    }

    const want = expected(listing, data)
    const out = await runSync(script, () => Response.json(listing))
    if (!v.check(out.error === undefined, 'a listing is processed', () => `${out.error?.stack} ${out.wrong}`)) return { violations: v.list }
    const fileOf = name => out.files.get(path.join(PKG, 'src/generated', name))?.at(-1)
    const [create, index, types] = ['create.ts', 'index.ts', 'types.ts'].map(fileOf)
    v.check(out.files.size === 3 && [create, index, types].every(x => x !== undefined), 'the three generated files are written, and no other', () => short([...out.files.keys()]))
    if (v.list.length > 0) return { violations: v.list }

    // they are TypeScript
    const parsed = Object.fromEntries(Object.entries({ create, index, types }).map(([k, t]) => [k, parse(ts, t, `${k}.ts`)]))
    for (const [k, { errors }] of Object.entries(parsed)) v.check(errors.length === 0, 'the generated files are valid TypeScript', () => `${k}: ${errors[0]}`)
    if (v.list.length > 0) return { violations: v.list }

    // factories
    const made = load(create, id => id.endsWith('utils') ? api.providersUtils : (v.add('generated code only needs the package', id), {}))
    v.check(!diff(Object.keys(made).sort(), want.auto.map(p => p.create).sort()), 'one factory for every usable provider', () => diff(Object.keys(made).sort(), want.auto.map(p => p.create).sort()))
    for (const p of want.auto) {
      const factory = made[p.create]
      if (typeof factory !== 'function') continue
      count('generated factories')
      for (const base of [undefined, 'https://mine.test/v1/']) {
        const provider = base === undefined ? factory('k') : factory('k', base)
        const has = CAPABILITIES.filter(c => typeof provider[c] === 'function')
        const should = CAPABILITIES.filter(c => c === 'model' ? p.capabilities.model !== false : p.capabilities[c] === true)
        v.check(!diff(has, should), 'a provider has the capabilities it is listed with', () => `${p.create}: ${has}, expected ${should}`)
        if (should.length > 1) count('capabilities')
        for (const c of ['chat', ...has]) {
          const o = c === 'model' ? provider.model() : provider[c]('m')
          const expect = { apiKey: 'k', baseURL: base ?? p.baseURL, ...(c !== 'model' && { model: 'm' }) }
          v.check(!diff({ ...o }, expect), 'a generated provider makes the options of its listing', () => `${p.create}.${c}: ${diff({ ...o }, expect)}`)
        }
      }
    }
    // model names of the factories
    const named = new Map()
    for (const st of parsed.create.file.statements) {
      if (!ts.isVariableStatement(st)) continue
      for (const d of st.declarationList.declarations) named.set(d.name.getText(), literalsOf(ts, d.initializer))
    }
    for (const p of want.auto) {
      v.check(!diff(set(named.get(p.create) ?? []), set(p.models)), 'a factory knows the models of its listing', () => `${p.create}: ${diff(set(named.get(p.create) ?? []), set(p.models))}`)
      if (p.models.length > 0) count('model names')
    }

    // instances
    const env = {}
    for (const k of new Set([...want.auto.flatMap(p => p.keys), ...Object.values(listing).flatMap(p => p.env)])) if (rng.bool(0.5)) env[k] = rng.bool(0.9) ? `secret ${k}` : ''
    const entries = load(index, id => id.endsWith('process') ? { default: { env }, env, __esModule: true } : id.endsWith('create') ? made : {})
    v.check(!diff(Object.keys(entries).sort(), want.auto.map(p => p.entry).sort()), 'one instance for every usable provider', () => diff(Object.keys(entries).sort(), want.auto.map(p => p.entry).sort()))
    for (const p of want.auto) {
      if (entries[p.entry] === undefined) continue
      const key = p.keys.map(k => env[k]).find(k => k !== undefined) ?? ''
      const o = { ...entries[p.entry].chat('m') }
      v.check(!diff(o, { apiKey: key, baseURL: p.baseURL, model: 'm' }), 'an instance takes its key from the environment', () => `${p.entry}: ${diff(o, { apiKey: key, baseURL: p.baseURL, model: 'm' })}`)
      count(key === '' ? 'missing keys' : env[p.keys[0]] === undefined ? 'second keys from the environment' : 'keys from the environment')
    }

    // model names of the hand-written factories
    const aliases = new Map()
    for (const st of parsed.types.file.statements) {
      if (ts.isTypeAliasDeclaration(st) && st.modifiers?.some(m => m.kind === ts.SyntaxKind.ExportKeyword)) aliases.set(st.name.text, literalsOf(ts, st.type))
    }
    v.check(!diff([...aliases.keys()].sort(), want.types.map(t => t.name).sort()), 'every hand-written provider of the listing gets its model type', () => diff([...aliases.keys()].sort(), want.types.map(t => t.name).sort()))
    for (const t of want.types) {
      v.check(!diff(set(aliases.get(t.name) ?? []).filter(Boolean), set(t.models)), 'a model type names the models of its listing', () => `${t.name}: ${diff(set(aliases.get(t.name) ?? []), set(t.models))}`)
      count('hand-written providers')
    }
    count('providers left out', Object.keys(listing).length - want.auto.length + data.extraProviders.length - want.types.length)
    return { nontrivial: want.auto.length > data.extraProviders.length || want.types.length > 0, sample: { auto: want.auto.slice(0, 2).map(p => p.create), types: want.types.length }, signature: [Object.keys(listing), create.length, index.length, types.length], violations: v.list }
  },
}
