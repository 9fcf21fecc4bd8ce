// Regenerates MANIFEST.json from checks/*.mjs and properties.jsonl.
import { readFileSync, writeFileSync, existsSync } from 'node:fs'
const props = readFileSync('/verif/properties.jsonl', 'utf8').trim().split('\n').map((l) => JSON.parse(l))
const checks = [], na = []
for (const p of props) {
  const f = `/verif/checks/${p.id}.mjs`
  if (!existsSync(f)) { na.push({ property: p.id, reason: 'no check built yet' }); continue }
  const c = (await import(f)).default
  checks.push({
    property: p.id,
    quick_cmd: `node /verif/lib/run.mjs ${p.id} --tier quick`,
    thorough_cmd: `node /verif/lib/run.mjs ${p.id} --tier thorough`,
    evidence_file: `evidence/${p.id}.json`,
    technique: c.technique,
    level: c.level,
    level_note: c.levelNote ?? `Bounded exhaustive: ${typeof c.bounds === 'function' ? c.bounds('quick') : c.bounds}. Assumes: ${(c.assumptions ?? []).join('; ')}.`,
  })
}
writeFileSync('/verif/MANIFEST.json', JSON.stringify({ version: 1, setup_cmd: 'node /verif/lib/setup.mjs', checks, not_applicable: na, notes: 'All checks bundle /repo sources directly (no dist), run the real code under a controlled world and enumerate a bounded space exhaustively. Replay a violation with: node /verif/lib/run.mjs <ID> --replay <file>.' }, null, 1) + '\n')
console.log(`${checks.length} checks, ${na.length} not applicable`)
