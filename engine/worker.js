'use strict';
const fs = require('fs');
const { explore, compile } = require('./explore');
const RT = require('./runtime');
const cp = require('child_process');
const path = require('path');
process.on('unhandledRejection', (e) => { (globalThis.__vpRejections = globalThis.__vpRejections || []).push(e); });
let symFn, plainFn, conf, idleWanted = false, fns;
process.on('message', async (m) => {
  if (m.t === 'init') {
    conf = m.conf; fns = JSON.parse(fs.readFileSync(conf.dir + '/fns.json', 'utf8'));
    symFn = compile(fs.readFileSync(conf.dir + '/sym.js', 'utf8'), true); plainFn = compile(fs.readFileSync(conf.dir + '/plain.js', 'utf8'), false);
    process.send({ t: 'ready' });
  } else if (m.t === 'idle') { idleWanted = m.n > 0; }
  else if (m.t === 'cell') {
    RT.entered = new Set();
    let st;
    try {
      st = await explore({ symFn, plainFn, cell: m.cell, jobs: m.jobs, opts: { ...conf.opts, ...(m.opts || {}), known: conf.known ? (label, cell) => { const k = conf.known.find((x) => x.label === label && (!x.cell || x.cell === cell)); return k ? k.id : null; } : null }, deadline: conf.deadline,
        hooks: {
          shouldDonate: () => { if (idleWanted) { idleWanted = false; return true; } return false; },
          donate: (jobs) => process.send({ t: 'donate', cell: m.cell, jobs, opts: m.opts }),
          replayHang: ({ cell, inputs }) => new Promise((res) => {
            const f = conf.dir + '/hang-' + process.pid + '.json'; fs.writeFileSync(f, JSON.stringify({ cell, inputs }));
            const p = cp.spawn(process.execPath, [path.join(__dirname, 'plainrun.js'), conf.dir + '/plain.js', f], { stdio: ['ignore', 'pipe', 'ignore'] });
            let out = ''; p.stdout.on('data', (d) => out += d); const tm = setTimeout(() => { p.kill('SIGKILL'); res({ outcome: 'violation', label: 'nontermination' }); }, 15000);
            p.on('exit', () => { clearTimeout(tm); try { res(JSON.parse(out)); } catch (e) { res({ outcome: 'violation', label: 'nontermination' }); } });
          }),
        } });
    } catch (e) { st = { cell: m.cell, fatal: String(e && e.stack || e) }; }
    st.entered = [...RT.entered].map((i) => fns[i]).filter((f) => f && f.name && f.file.startsWith('packages/')).map((f) => f.file + ':' + f.name);
    process.send({ t: 'done', st });
  } else if (m.t === 'quit') process.exit(0);
});
