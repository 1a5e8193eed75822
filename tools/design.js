// Rewrites the generated parts of DESIGN.md: property table from spec/, table of planted bugs from seeded/*/meta.json and tools/caught.json
const fs = require('fs'), path = require('path'); const root = path.join(__dirname, '..');
const props = fs.readdirSync(path.join(root, 'spec')).filter((f) => f.endsWith('.js')).sort().flatMap((f) => require(path.join(root, 'spec', f)));
let s = '<!-- properties -->\n## Properties\n\nFor each: what the solver decides (oracle), and the bounds. "Why tests cannot" is in properties.jsonl.\n\n';
for (const p of props) s += `**${p.id} ${p.title}.** ${p.oracle ? 'Oracle: ' + p.oracle + ' ' : ''}${p.not_applicable ? 'NOT APPLICABLE: ' + p.not_applicable : 'Bounds: ' + p.bounds}\n\n`;
s += '<!-- /properties -->';
let b = '<!-- bugs -->\n## Planted bugs\n\n| id | property | change | caught by |\n|---|---|---|---|\n'; let caught = {}; try { caught = JSON.parse(fs.readFileSync(path.join(__dirname, 'caught.json'), 'utf8')); } catch (e) {}
const sd = path.join(root, 'seeded'); if (fs.existsSync(sd)) for (const d of fs.readdirSync(sd).sort()) { const m = JSON.parse(fs.readFileSync(path.join(sd, d, 'meta.json'), 'utf8')); b += `| ${d} | ${m.property} | ${m.what_it_breaks.replace(/\|/g, '/')} | ${caught[d] || '?'} |\n`; }
b += '<!-- /bugs -->';
const f = path.join(root, 'DESIGN.md'); let t = fs.readFileSync(f, 'utf8');
t = t.includes('@@PROPS@@') ? t.replace('@@PROPS@@', s + '\n\n' + b) : t.replace(/<!-- properties -->[^]*<!-- \/properties -->/, () => s).replace(/<!-- bugs -->[^]*<!-- \/bugs -->/, () => b);
fs.writeFileSync(f, t);
