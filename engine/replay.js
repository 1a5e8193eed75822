'use strict';
// node engine/replay.js FILE : re-run a recorded counterexample on the real, uninstrumented code of /repo
const fs = require('fs'); const path = require('path');
const { bundle } = require('./bundle'); const { compile, runPlain } = require('./explore');
process.on('unhandledRejection', (e) => { (globalThis.__vpRejections = globalThis.__vpRejections || []).push(e); });
(async () => {
  const j = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'));
  const entry = ['.ts', '.js'].map((e) => path.join(__dirname, '..', 'harness', j.property + e)).find((p) => fs.existsSync(p));
  const r = await runPlain(compile(await bundle(entry), false), j.cell, j.inputs);
  console.log(JSON.stringify(r, null, 1)); process.exit(r.outcome === 'violation' ? 1 : 0);
})();
