'use strict';
// node engine/run.js <property> <quick|thorough> [cell-regex]
const fs = require('fs'); const path = require('path'); const os = require('os'); const cp = require('child_process');
const { bundle, REPO } = require('./bundle');
const { instrument } = require('./instrument');
const ROOT = path.join(__dirname, '..');
process.on('unhandledRejection', (e) => { (globalThis.__vpRejections = globalThis.__vpRejections || []).push(e); });

async function main() {
  const prop = process.argv[2], tier = process.argv[3] || process.env.VERIF_TIER || 'quick', only = process.argv[4] ? new RegExp(process.argv[4]) : null;
  const t0 = Date.now();
  const seed = Number(process.env.VERIF_SEED || 1);
  const entry = ['.ts', '.js'].map((e) => path.join(ROOT, 'harness', prop + e)).find((p) => fs.existsSync(p));
  if (!entry) { console.error('no harness for ' + prop); process.exit(2); }
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'vp-' + prop + '-'));
  const clean = () => { try { fs.rmSync(dir, { recursive: true, force: true }); } catch (e) {} };
  let code, ins;
  try {
    code = await bundle(entry);
    ins = instrument(code);
  } catch (e) { console.error('cannot build the harness against the current tree: ' + (e.stack || e)); clean(); process.exit(2); }
  fs.writeFileSync(dir + '/plain.js', code); fs.writeFileSync(dir + '/sym.js', ins.code); fs.writeFileSync(dir + '/fns.json', JSON.stringify(ins.fns));
  // list the cells
  const { compile, runPlain } = require('./explore');
  let meta, names;
  try {
    const RT = require('./runtime'); const { makePlain } = require('./hapi');
    const H = makePlain({ inputs: {}, obs: [], covers: new Set(), progress: 0 });
    const b = compile(code, false)(undefined, H, { Map, Set, URL, URLSearchParams, console: { log() {}, warn() {}, error() {}, info() {}, debug() {} }, random: Math.random, queueMicrotask, NativeDate: Date, TextEncoder, TextDecoder, btoa, atob });
    meta = b.meta || {}; names = Object.keys(b.cells).filter((n) => tier === 'thorough' ? !(meta.quickOnly || []).includes(n) : !(meta.thoroughOnly || []).some((x) => n === x || (x.endsWith('*') && n.startsWith(x.slice(0, -1)))));
  } catch (e) { console.error('harness fails to load against the current tree: ' + (e.stack || e)); clean(); process.exit(2); }
  if (only) names = names.filter((n) => only.test(n));
  const tBuild = Date.now() - t0;
  const budget = Number(process.env.VP_BUDGET_S || (tier === 'thorough' ? (meta.thoroughBudget || 3000) : (meta.budget || 420))) * 1000;
  let known = []; try { known = JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'), 'utf8')).findings.filter((f) => f.property === prop && f.status === 'known'); } catch (e) {}
  const conf = { dir, opts: { maxTicks: 400000, ...(meta.opts || {}) }, deadline: Date.now() + budget, known };
  const nw = Math.max(1, Math.min(Number(process.env.VP_JOBS || os.cpus().length), 8));
  const queue = names.map((n) => ({ cell: n, opts: (meta.cellOpts || {})[n] }));
  const results = []; let stop = false;
  await new Promise((resolve) => {
    const ws = []; let live = 0;
    const pump = () => {
      for (const w of ws) if (w.ready && !w.busy && queue.length && !stop) { const j = queue.shift(); w.busy = j; w.send({ t: 'cell', ...j }); }
      const idle = ws.filter((w) => w.ready && !w.busy).length;
      for (const w of ws) if (w.busy) w.send({ t: 'idle', n: queue.length ? 0 : idle });
      if (!queue.length && ws.every((w) => !w.busy) && ws.some((w) => w.ready) || (stop && ws.every((w) => !w.busy))) { for (const w of ws) { w.quit = true; try { w.send({ t: 'quit' }); } catch (e) {} } resolve(); }
    };
    for (let i = 0; i < nw; i++) {
      const w = { p: cp.fork(path.join(__dirname, 'worker.js'), { execArgv: ['--stack-size=4000', '--max-old-space-size=3000'] }) };
      ws.push(w); w.p.on('error', () => {}); w.send = (m) => { if (w.p.connected) try { w.p.send(m, () => {}); } catch (e) {} };
      w.p.on('message', (m) => {
        if (m.t === 'ready') { w.ready = true; pump(); }
        else if (m.t === 'donate') { queue.push({ cell: m.cell, jobs: m.jobs, opts: m.opts }); pump(); }
        else if (m.t === 'done') { w.busy = null; results.push(m.st); if ((m.st.violations || []).some((v) => !v.known) && !process.env.VP_ALL) { stop = true; queue.length = 0; for (const x of ws) if (x.busy) { x.p.kill('SIGKILL'); } } pump(); }
      });
      w.p.on('exit', (c, s) => { if (!w.quit) { if (w.busy) { results.push({ cell: w.busy.cell, fatal: stop ? null : `worker ended (${c} ${s})` }); w.busy = null; } w.ready = false; if (!stop && ws.every((x) => !x.ready)) { results.push({ cell: '*', fatal: 'all workers ended' }); resolve(); } pump(); } });
      w.send({ t: 'init', conf });
    }
    const tm = setInterval(() => pump(), 300); tm.unref();
  });
  // ---- aggregate
  const sum = (f) => results.reduce((a, r) => a + (f(r) || 0), 0);
  const agg = { cells: names.length, paths: sum((r) => r.paths), branches: sum((r) => r.branches), flips: sum((r) => r.flips), validated: sum((r) => r.validated), infeasible: sum((r) => r.infeasible), solver_ms: Math.round(sum((r) => r.solver && r.solver.ms)), sat: sum((r) => r.solver && r.solver.sat), unsat: sum((r) => r.solver && r.solver.unsat), conc: sum((r) => r.conc) };
  const violations = results.flatMap((r) => r.violations || []);
  const fatal = results.filter((r) => r.fatal).map((r) => `${r.cell}: ${r.fatal}`);
  const engine = results.flatMap((r) => (r.engine || []).map((x) => `${r.cell}: ${x}`));
  const mism = results.flatMap((r) => (r.mismatches || []).map((x) => ({ cell: r.cell, ...x })));
  const incomplete = [...new Set(results.flatMap((r) => (r.incomplete || []).map((x) => `${r.cell}: ${x}`)))];
  const asserts = {}; for (const r of results) for (const k of Object.keys(r.asserts || {})) asserts[k] = (asserts[k] || 0) + r.asserts[k];
  const covers = new Set(results.flatMap((r) => r.covers || []));
  const missing = only || stop ? [] : (meta.mustCover || []).filter((c) => !covers.has(c));
  const entered = [...new Set(results.flatMap((r) => r.entered || []))].sort();
  const concDetail = {}; for (const r of results) for (const k of Object.keys(r.concDetail || {})) concDetail[k] = (concDetail[k] || 0) + r.concDetail[k];
  const perCell = {}; for (const r of results) { const c = perCell[r.cell] = perCell[r.cell] || { paths: 0, queries: 0, ms: 0 }; c.paths += r.paths || 0; c.queries += r.flips || 0; c.ms += r.ms || 0; }
  const fresh = violations.filter((v) => !v.known), listed = violations.filter((v) => v.known);
  const samples = results.flatMap((r) => r.samples || []).slice(0, 6);
  const exhaustive = !incomplete.length && !engine.length && !mism.length && !fatal.length && !stop && !only;
  const ev = {
    property: prop, tier, seed, level: 'model_checking',
    coverage: {
      states: agg.paths, transitions: agg.branches, traces_validated_against_impl: agg.validated, samples: samples.length ? samples : [{ note: 'no observed path' }], exhaustive,
      explanation: 'states = feasible execution paths of the real code explored symbolically; transitions = symbolic branch decisions on them; every untaken side of every decision, and the negation of every assertion, was decided by the SMT solver (queries). traces_validated = paths whose solver-chosen inputs were re-run on the uninstrumented code with identical observations.',
      queries: agg.flips, queries_sat: agg.sat, queries_unsat: agg.unsat, solver_seconds: agg.solver_ms / 1000, solver: 'z3-new 5.3.2 -in', assumed_away_paths: agg.infeasible,
      concretisations: agg.conc, concretisation_sites: concDetail, assertions_reached: asserts, cells: perCell, functions_encoded: entered, bounds: meta.bounds || [], incomplete: [...incomplete, ...engine.slice(0, 20).map((x) => 'path outside the encoding: ' + x), ...mism.slice(0, 20).map((x) => 'path whose encoding disagrees with the real run: ' + x.cell)], cover_labels: [...covers].sort(), missing_cover: missing,
    },
    assumptions: meta.assumptions || [], wall_s: 0, violations: fresh.length,
  };
  ev.wall_s = Math.round((Date.now() - t0) / 100) / 10;
  if (!only) { fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true }); fs.writeFileSync(path.join(ROOT, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1)); }
  console.log(`${prop} ${tier}: ${agg.cells} cells, ${agg.paths} paths, ${agg.branches} branch decisions, ${agg.flips} solver queries (${agg.unsat} unsat, ${agg.sat} sat), solver ${(agg.solver_ms / 1000).toFixed(1)} s, ${agg.validated} paths replayed on the real code, build ${(tBuild / 1000).toFixed(1)} s, wall ${ev.wall_s} s`);
  if (process.env.VP_CELLS) for (const k of Object.keys(perCell)) console.log(`   ${k}: ${perCell[k].paths} paths ${perCell[k].queries} queries ${perCell[k].ms} ms`);
  if (Object.keys(concDetail).length) console.log('  concretised: ' + JSON.stringify(concDetail));
  for (const l of new Set(listed.map((v) => v.known))) { const f = known.find((x) => x.id === l); console.log(`KNOWN-FINDING: property=${prop} ${f ? f.what : l}`); }
  if (fresh.length) {
    const v = fresh[0];
    const rp = path.join(ROOT, 'replays'); fs.mkdirSync(rp, { recursive: true });
    const file = path.join(rp, `${prop}-${v.cell.replace(/[^A-Za-z0-9_-]/g, '_')}-${String(v.label).replace(/[^A-Za-z0-9_-]/g, '_').slice(0, 40)}.json`);
    fs.writeFileSync(file, JSON.stringify({ property: prop, cell: v.cell, label: v.label, inputs: v.inputs, info: v.info, how: `node ${ROOT}/engine/replay.js ${file}` }, null, 1));
    console.log(`  cell ${v.cell}: ${v.label} ${v.info === undefined ? '' : JSON.stringify(v.info).slice(0, 1500)}`);
    console.log(`  inputs ${JSON.stringify(v.inputs).slice(0, 800)}`);
    console.log(`VIOLATION property=${prop} replay=${file}`);
    clean(); process.exit(1);
  }
  for (const x of incomplete.slice(0, 5)) console.log('  INCOMPLETE ' + x);
  for (const x of engine.slice(0, 5)) console.log('  ENGINE ' + x);
  for (const x of mism.slice(0, 3)) console.log('  MISMATCH ' + JSON.stringify(x).slice(0, 1800));
  for (const x of fatal) console.log('  FATAL ' + x);
  if (missing.length) console.log('  NOT REACHED ' + missing.join(', '));
  clean();
  // paths the encoding could not follow are reported as not covered; no verdict only when nothing was decided
  if (fatal.length || missing.length || !agg.validated) process.exit(2);
  if (process.env.VP_STRICT && (engine.length || mism.length || incomplete.length)) process.exit(3);
  process.exit(0);
}
main().catch((e) => { console.error(e); process.exit(2); });
