// setup_cmd: verifies the toolchain the checks rely on; builds nothing that persists.
import { createRequire } from 'node:module'
import { existsSync } from 'node:fs'
const require = createRequire('/opt/veriftools/node/node_modules/x.js')
const esbuild = require('esbuild')
if (!existsSync('/repo/packages/hub/src/index.ts')) { console.error('no /repo/packages/hub/src'); process.exit(1) }
const r = await esbuild.transform('const a: number = 1', { loader: 'ts' })
if (!r.code) process.exit(1)
console.log(`node ${process.version}, esbuild ${esbuild.version}`)
