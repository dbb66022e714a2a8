// Bundles the code under test from /repo's current working tree.
import { createRequire } from 'node:module'
import { existsSync } from 'node:fs'
import path from 'node:path'

export const REPO = process.env.VERIF_REPO ?? '/repo'

const requireTools = createRequire('/opt/veriftools/node/package.json')

const P = p => path.join(REPO, p)

// One bundle holds every package, so that error classes are shared exactly as in an installed workspace.
const ENTRIES = {
  core: () => `
export * as shared from '${P('packages/shared/src/index.ts')}'
export * as sharedChat from '${P('packages/shared-chat/src/index.ts')}'
export * as sharedStream from '${P('packages/shared-stream/src/index.ts')}'
export * as generateText from '${P('packages/generate-text/src/index.ts')}'
export * as streamText from '${P('packages/stream-text/src/index.ts')}'
export * as generateObject from '${P('packages/generate-object/src/index.ts')}'
export * as streamObject from '${P('packages/stream-object/src/index.ts')}'
export * as tool from '${P('packages/tool/src/index.ts')}'
export * as embed from '${P('packages/embed/src/index.ts')}'
export * as model from '${P('packages/model/src/index.ts')}'
export * as generateImage from '${P('packages/generate-image/src/index.ts')}'
export * as generateSpeech from '${P('packages/generate-speech/src/index.ts')}'
export * as streamSpeech from '${P('packages/stream-speech/src/index.ts')}'
export * as generateTranscription from '${P('packages/generate-transcription/src/index.ts')}'
export * as streamTranscription from '${P('packages/stream-transcription/src/index.ts')}'
export * as utilsChat from '${P('packages/utils-chat/src/index.ts')}'
export * as utilsReasoning from '${P('packages/utils-reasoning/src/index.ts')}'
export * as utilsStream from '${P('packages/utils-stream/src/index.ts')}'
export * as responses from '${P('packages-ext/responses/src/index.ts')}'
export * as providers from '${P('packages-ext/providers/src/index.ts')}'
export * as providersCreate from '${P('packages-ext/providers/src/create.ts')}'
export * as providersSpecial from '${P('packages-ext/providers/src/special/create.ts')}'
export * as providersSpecialInstances from '${P('packages-ext/providers/src/special/index.ts')}'
export * as providersUtils from '${P('packages-ext/providers/src/utils/index.ts')}'
export * as xsfetch from '${P('packages-top/xsfetch/src/index.ts')}'
export * as xsai from '${P('packages-top/xsai/src/index.ts')}'
export * as xsschema from '${P('packages-top/xsschema/src/index.ts')}'
export * as zod from '${P('packages-top/xsschema/node_modules/zod')}'
export * as valibot from '${P('packages-top/xsschema/node_modules/valibot')}'
`,
  telemetry: () => `
export * as telemetry from '${P('packages-ext/telemetry/src/index.ts')}'
export * as otelApi from '${P('packages-ext/telemetry/node_modules/@opentelemetry/api')}'
export * as otelBase from '${P('packages-ext/telemetry/node_modules/@opentelemetry/sdk-trace-base')}'
export * as otelNode from '${P('packages-ext/telemetry/node_modules/@opentelemetry/sdk-trace-node')}'
`,
  schema: () => `
export { type as arktype } from '${P('packages-top/xsschema/node_modules/arktype')}'
export * as effect from '${P('packages-top/xsschema/node_modules/effect')}'
export * as sury from '${P('packages-top/xsschema/node_modules/sury/src/S.mjs')}'
export * as zod3 from '${P('packages-top/xsschema/node_modules/zod')}/v3'
`,
}

export async function buildBundle(kinds, outDir) {
  const esbuildPath = existsSync('/opt/veriftools/node/node_modules/esbuild') ? requireTools.resolve('esbuild') : createRequire(P('package.json')).resolve('esbuild')
  const esbuild = createRequire(import.meta.url)(esbuildPath)
  const contents = kinds.map(k => ENTRIES[k]()).join('\n')
  const outfile = path.join(outDir, 'bundle.cjs')
  await esbuild.build({
    bundle: true,
    // its CommonJS entry cannot be bundled
    alias: { sury: P('packages-top/xsschema/node_modules/sury/src/S.mjs') },
    format: 'cjs',
    logLevel: 'silent',
    outfile,
    platform: 'node',
    sourcemap: false,
    stdin: { contents, loader: 'ts', resolveDir: REPO, sourcefile: 'verif-entry.ts' },
    target: 'node22',
  })
  return outfile
}
