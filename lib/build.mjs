// Bundles the code under test from the *current* /repo working tree. Nothing
// under packages/*/dist is used: every workspace import is resolved to the
// TypeScript sources, so a check always sees what the tree does now.
import { createRequire } from 'node:module'
import { existsSync, mkdirSync, realpathSync, rmSync, writeFileSync } from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'

const require = createRequire('/opt/veriftools/node/node_modules/x.js')
const esbuild = require('esbuild')

export const REPO = process.env.NOYDB_REPO || '/repo'
export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '..')
const PKGS = path.join(REPO, 'packages')

function resolveWorkspace(spec) {
  const m = /^@noy-db\/([^/]+)(?:\/(.+))?$/.exec(spec)
  if (!m) return null
  const src = path.join(PKGS, m[1], 'src')
  const cands = m[2]
    ? [path.join(src, m[2], 'index.ts'), path.join(src, m[2] + '.ts'), path.join(src, m[2])]
    : [path.join(src, 'index.ts')]
  for (const c of cands) if (existsSync(c)) return c
  return null
}

/**
 * @param mods  { exportName: '@noy-db/hub/tx' | absolute path | 'packages/...' }
 * @param opts  { fakeFs: bool, external: string[] }
 */
export async function bundle(outDir, mods, opts = {}) {
  mkdirSync(outDir, { recursive: true })
  const lines = []
  for (const [name, spec] of Object.entries(mods)) {
    const p = spec.startsWith('packages/') ? path.join(REPO, spec) : spec
    lines.push(`export * as ${name} from ${JSON.stringify(p)}`)
  }
  const outfile = path.join(outDir, 'nb.mjs')
  await esbuild.build({
    stdin: { contents: lines.join('\n'), resolveDir: path.join(PKGS, 'hub'), loader: 'ts' },
    bundle: true,
    format: 'esm',
    platform: 'node',
    target: 'node22',
    outfile,
    logLevel: 'silent',
    sourcemap: 'inline',
    external: opts.external ?? [],
    ...(opts.ui ? { define: { 'process.env.NODE_ENV': '"production"', __VUE_OPTIONS_API__: 'true', __VUE_PROD_DEVTOOLS__: 'false', __VUE_PROD_HYDRATION_MISMATCH_DETAILS__: 'false' } } : {}),
    plugins: [
      {
        name: 'workspace',
        setup(b) {
          b.onResolve({ filter: /^@noy-db\// }, (a) => {
            const p = resolveWorkspace(a.path)
            return p ? { path: p } : undefined
          })
          if (opts.fakeAws) b.onResolve({ filter: /^@aws-sdk\// }, () => ({ path: path.join(VERIF, 'lib', 'fakeaws.mjs'), external: true }))
          if (opts.fakeWeb) b.onResolve({ filter: /^(express|hono)$/ }, () => ({ path: path.join(VERIF, 'lib', 'fakeweb.mjs'), external: true }))
          if (opts.ui) {
            // browser builds of the frameworks, one instance of each, and a stand-in for React
            const nm = (pkg, file) => path.join(PKGS, pkg, 'node_modules', file)
            b.onResolve({ filter: /^vue$/ }, () => ({ path: realpathSync(nm('in-vue', 'vue/dist/vue.runtime.esm-bundler.js')) }))
            b.onResolve({ filter: /^solid-js$/ }, () => ({ path: realpathSync(nm('in-solid', 'solid-js/dist/solid.js')) }))
            b.onResolve({ filter: /^react$/ }, () => ({ path: path.join(VERIF, 'lib', 'fakereact.mjs'), external: true }))
          }
          b.onResolve({ filter: /^from:/ }, (a) => {
            const [, pkg, name] = a.path.split(':')
            return b.resolve(name, { resolveDir: path.join(PKGS, pkg, 'src'), kind: 'import-statement' })
          })
          if (opts.fakeFs) {
            b.onResolve({ filter: /^(node:)?fs(\/promises)?$/ }, () => ({ path: path.join(VERIF, 'lib', 'fakefs.mjs'), external: true }))
          }
        },
      },
    ],
  })
  return outfile
}

export function scratchDir(tag) {
  const d = path.join(VERIF, '.scratch', `${tag}-${process.pid}`)
  mkdirSync(d, { recursive: true })
  return d
}
export function dropScratch(d) {
  if (d && d.startsWith(path.join(VERIF, '.scratch') + path.sep)) rmSync(d, { recursive: true, force: true })
}
