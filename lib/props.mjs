// Generates properties.jsonl and DESIGN.md from design/*.mjs and design/*.md; then run lib/manifest.mjs.
import { readFileSync, writeFileSync, existsSync } from 'node:fs'
import { props } from '../design/props.mjs'
const ids = new Set()
const lines = []
let md = readFileSync('/verif/design/head.md', 'utf8').trimEnd() + '\n\n## Properties and how each is decided\n'
for (const p of props) {
  if (ids.has(p.id)) throw new Error(`duplicate ${p.id}`)
  ids.add(p.id)
  if (p.title.length > 80) throw new Error(`${p.id} title too long (${p.title.length})`)
  for (const f of p.files) if (!existsSync(`/repo/${f}`)) throw new Error(`${p.id}: no ${f}`)
  lines.push(JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.text }, why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mech.map(([name, where]) => ({ name, where })), ...(p.state ? { state: p.state.map(([name, meaning, where]) => ({ name, meaning, where })) } : {}), ...(p.observe ? { observe_at: p.observe } : {}) } }))
  const f = `/verif/checks/${p.id}.mjs`
  md += `\n### ${p.id} — ${p.title}\n\n${p.statement}\n\n`
  if (existsSync(f)) {
    const c = (await import(f)).default
    const b = (t) => (typeof c.bounds === 'function' ? c.bounds(t) : c.bounds)
    md += `*Decided by:* ${c.technique}.\n\n*Oracle and method:* ${p.design}\n\n*Quick bound:* ${b('quick')}.\n\n${b('thorough') !== b('quick') ? `*Thorough bound:* ${b('thorough')}.\n\n` : ''}*Assumes:* ${(c.assumptions ?? []).join('; ')}.\n\n*Beyond the tests because:* ${p.why}\n`
  } else md += `*Plan:* ${p.design}\n`
}
md += '\n' + readFileSync('/verif/design/tail.md', 'utf8').trimEnd() + '\n'
writeFileSync('/verif/properties.jsonl', lines.join('\n') + '\n')
writeFileSync('/verif/DESIGN.md', md)
console.log(`${lines.length} properties`)
