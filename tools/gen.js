// Writes properties.jsonl and MANIFEST.json from spec/*.js (one source of truth).
const fs = require('fs'), path = require('path');
const root = path.join(__dirname, '..');
const props = fs.readdirSync(path.join(root, 'spec')).filter((f) => f.endsWith('.js')).sort().flatMap((f) => require(path.join(root, 'spec', f)));
const ids = new Set();
const lines = [], checks = [], na = [];
for (const p of props) {
  if (ids.has(p.id)) throw new Error('duplicate ' + p.id); ids.add(p.id);
  if (p.title.length > 80) throw new Error('title too long ' + p.id);
  const n = p.statement.split(/[.;]\s+(?=[A-Z])/).length; if (n > 3) throw new Error(p.id + ' has ' + n + ' sentences');
  const anchors = { files: p.files, mechanism: p.mechanism.map(([name, where]) => ({ name, where })) };
  if (p.state) anchors.state = p.state.map(([name, meaning, where]) => ({ name, meaning, where }));
  if (p.observe_at) anchors.observe_at = p.observe_at;
  anchors.hook_needed = null;
  for (const f of p.files) if (!fs.existsSync('/repo/' + f)) throw new Error(p.id + ': no file ' + f);
  lines.push(JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.quantifier }, why_tests_cant: p.why, anchors }));
  if (p.not_applicable) { na.push({ property: p.id, reason: p.not_applicable }); continue; }
  if (!fs.existsSync(path.join(root, 'harness', p.id + '.ts'))) throw new Error('no harness for ' + p.id);
  checks.push({ property: p.id, quick_cmd: `./check ${p.id} quick`, thorough_cmd: `./check ${p.id} thorough`, technique: 'dynamic symbolic execution of the real TypeScript (instrumented from /repo on every run) with z3 deciding every branch and assertion over all values within the bounds; counterexamples replayed on the uninstrumented code', level: 'model_checking', level_note: p.bounds });
}
fs.writeFileSync(path.join(root, 'properties.jsonl'), lines.join('\n') + '\n');
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'true', checks, not_applicable: na, notes: 'Generated by tools/gen.js from spec/. No hooks in /repo are needed. See DESIGN.md.' }, null, 1) + '\n');
console.log(lines.length + ' properties, ' + checks.length + ' claimed, ' + na.length + ' not applicable');
