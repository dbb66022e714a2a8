// Nothing to install: verifies that what the checks need is present and that the code under test bundles.
import { mkdtempSync, rmSync } from 'node:fs'
import os from 'node:os'
import path from 'node:path'

import { buildBundle } from '../lib/bundle.mjs'

const dir = mkdtempSync(path.join(os.tmpdir(), 'verif-setup-'))
try {
  await buildBundle(['core', 'telemetry', 'schema'], dir)
  console.log(`node ${process.version}: bundle ok`)
}
finally { rmSync(dir, { force: true, recursive: true }) }
