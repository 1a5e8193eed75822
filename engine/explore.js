'use strict';
const t = require('./term');
const RT = require('./runtime');
const { Solver } = require('./solver');
const { makeSym, makePlain, deepConc, AssertFail } = require('./hapi');

function baseEnv(symbolic) {
  return { Map: symbolic ? RT.SMap : Map, Set: symbolic ? RT.SSet : Set, URL, URLSearchParams, TextEncoder, TextDecoder, console: { log() { }, warn() { }, error() { }, info() { }, debug() { } }, random: Math.random, queueMicrotask, NativeDate: Date, btoa, atob };
}
function compile(code, symbolic) {
  return new Function('__sym', 'H', '__env', code + '\n;return __bundle;');
}
async function guarded(ctx, p, deadlineTurns = 60) { // detect a harness that waits for ever
  let done = false, res, err, failed = false;
  p.then((v) => { done = true; res = v; }, (e) => { done = true; failed = true; err = e; });
  let idle = 0, last = ctx.progress;
  while (!done) {
    await new Promise((r) => setImmediate(r));
    if (ctx.progress !== last) { last = ctx.progress; idle = 0; } else if (++idle > deadlineTurns) return { stall: true };
  }
  return failed ? { err } : { res };
}
async function runPlain(fn, cell, inputs) {
  const c = { inputs, obs: [], covers: new Set(), progress: 0, fail: null, rej0: (globalThis.__vpRejections || []).length };
  const H = makePlain(c);
  const env = baseEnv(false);
  let r;
  try { const b = fn(undefined, H, env); r = await guarded(c, Promise.resolve().then(() => b.cells[cell](H)), 400); } catch (e) { r = { err: e }; }
  if (c.fail) return { outcome: 'violation', label: c.fail.label, info: c.fail.info, obs: deepConc(c.obs) };
  if (r.stall) return { outcome: 'violation', label: 'stall', obs: deepConc(c.obs) };
  if (r.err) { if (r.err instanceof RT.Abort && r.err.kind === 'assume') return { outcome: 'assume', obs: [] }; return { outcome: 'violation', label: 'throws', info: String(r.err && r.err.stack || r.err).slice(0, 600), obs: deepConc(c.obs) }; }
  return { outcome: 'ok', obs: deepConc(c.obs) };
}
async function runSym(fn, cell, job, opts) {
  const c = RT.newPath(job, opts); c.rej0 = (globalThis.__vpRejections || []).length;
  const H = makeSym(c);
  const env = baseEnv(true);
  let r;
  try { const b = fn(RT.$, H, env); r = await guarded(c, Promise.resolve().then(() => b.cells[cell](H))); } catch (e) { r = { err: e }; }
  if (c.aborted) {
    if (c.aborted.kind === 'violation') return { c, outcome: 'violation', label: c.aborted.info.label, info: c.aborted.info.info };
    if (c.aborted.kind === 'assume') return { c, outcome: 'assume' };
    if (c.aborted.kind === 'ticks') return { c, outcome: 'violation', label: 'nontermination', hang: true };
    return { c, outcome: 'engine', why: c.aborted.kind + ': ' + c.aborted.info };
  }
  if (r.stall) return { c, outcome: 'violation', label: 'stall' };
  if (r.err) return { c, outcome: 'violation', label: 'throws', info: String(r.err && r.err.stack || r.err).slice(0, 900) };
  return { c, outcome: 'ok' };
}
class Backend {
  constructor(opts) { this.opts = opts; this.s = new Solver(opts.solver || 'z3-new', ['-in']); this.init(); }
  init() {
    this.s.send('(set-option :global-declarations true)'); this.s.send('(set-option :timeout ' + (this.opts.qTimeout || 20000) + ')');
    if (this.opts.logic) this.s.send('(set-logic ' + this.opts.logic + ')');
    this.stack = []; this.varLevel = new Map(); this.declared = new Set(); this.ks = new Set();
  }
  varsOf(n) { if (n._vs) return n._vs; const out = new Set(); const seen = new Set(); const go = (x) => { if (seen.has(x.id)) return; seen.add(x.id); if (x.vname) out.add(x); for (const a of x.a) { if (a._vs) a._vs.forEach((v) => out.add(v)); else go(a); } }; go(n); n._vs = [...out]; return n._vs; }
  prep(lit) { // declare variables, emit definitions, assert domains at the current level
    for (const k of RT.imulKs) if (!this.ks.has(k)) { this.ks.add(k); this.s.send(`(declare-fun imulk_${k} ((_ BitVec 32)) (_ BitVec 32))`); }
    for (const v of this.varsOf(lit)) {
      if (!this.declared.has(v)) { this.declared.add(v); this.s.send(`(declare-fun ${v.txt} () ${v.s === 'B' ? 'Bool' : v.s === 'I' ? 'Int' : '(_ BitVec 32)'})`); }
      if (v.s !== 'B' && !this.varLevel.has(v)) {
        this.varLevel.set(v, this.stack.length);
        if (v.s === 'I') this.s.send(`(assert ${v.dom ? '(or ' + v.dom.map(([l, h]) => `(and (<= ${num(l)} ${v.txt}) (<= ${v.txt} ${num(h)}))`).join(' ') + ')' : `(and (<= ${num(v.lo)} ${v.txt}) (<= ${v.txt} ${num(v.hi)}))`})`);
        else { const r = v.dom || [[v.lo, v.hi]]; const sg = v.lo < 0; const hx = (x) => '#x' + (x >>> 0).toString(16).padStart(8, '0'); this.s.send(`(assert (or ${r.map(([l, h]) => `(and (${sg ? 'bvsle' : 'bvule'} ${hx(l)} ${v.txt}) (${sg ? 'bvsle' : 'bvule'} ${v.txt} ${hx(h)}))`).join(' ')}))`); }
      }
    }
    const defs = []; const tx = t.txt(lit, defs); for (const d of defs) this.s.send(d); return tx;
  }
  popTo(n) { if (this.stack.length > n) { this.s.send(`(pop ${this.stack.length - n})`); this.stack.length = n; for (const [v, l] of this.varLevel) if (l > n) this.varLevel.delete(v); } }
  sync(trail, upto) { let k = 0; while (k < this.stack.length && k < upto && this.stack[k] === trail[k].lit) k++; this.popTo(k); for (; k < upto; k++) this.push(trail[k].lit); }
  push(lit) { this.s.send('(push 1)'); this.stack.push(lit); const tx = this.prep(lit); this.s.send(`(assert ${tx})`); }
  // Equal arguments of the uninterpreted products are found by their value on the
  // current run and proved equal by the solver, bottom-up, before the real query.
  async sweep(lit, inp) {
    const nodes = []; const seen = new Set();
    const go = (x) => { if (seen.has(x)) return; seen.add(x); for (const a of x.a) go(a); if (x.op === 'imulk') nodes.push(x); };
    go(lit);
    if (nodes.length < 2) return lit;
    const map = new Map(), memo = new Map(), reps = new Map();
    for (const n of nodes) {
      const v = t.evalV(n, inp, memo); if (v === undefined) continue;
      const m = t.rebuild(n, map); const key = n.v + ':' + v; const l = reps.get(key) || []; reps.set(key, l);
      let hit = false;
      for (const r of l) {
        if (r === m) { hit = true; break; }
        const q = t.not(t.eq(r.a[0], m.a[0])); const tx = this.prep(q); this.s.stats.queries++;
        const a = await this.s.ask(`(push 1)\n(assert ${tx})\n(check-sat)`); this.s.send('(pop 1)');
        if (/^unsat$/.test(a)) { this.s.stats.unsat++; map.set(n, r); hit = true; break; }
      }
      if (!hit) l.push(m);
    }
    return t.rebuild(lit, map);
  }
  async flip(lit, want, inp) { // satisfiable: stack and not lit ?
    if (this.opts.abstractImul) { lit = await this.sweep(lit, inp); if (lit === t.T) return null; if (lit === t.F) lit = t.F; }
    const nl = t.not(lit); const tx = this.prep(nl);
    this.s.stats.queries++;
    const t0 = Date.now();
    const r = await this.s.ask(`(push 1)\n(assert ${tx})\n(check-sat)`);
    this.maxMs = Math.max(this.maxMs || 0, Date.now() - t0);
    if (/^unsat$/.test(r)) { this.s.stats.unsat++; this.s.send('(pop 1)'); return null; }
    if (!/^sat$/.test(r)) { this.s.stats.unknown++; this.s.send('(pop 1)'); this.lastErr = r.slice(0, 300); return 'unknown'; }
    this.s.stats.sat++;
    const vs = want.filter((v) => this.declared.has(v));
    let m = {};
    if (vs.length) { const out = await this.s.ask(`(get-value (${vs.map((v) => v.txt).join(' ')}))`); if (out.includes('(error')) { this.lastErr = out; this.s.send('(pop 1)'); return 'unknown'; } m = parseModel(out, vs); }
    this.s.send('(pop 1)');
    return m;
  }
}
const num = (v) => v < 0 ? `(- ${-v})` : String(v);
function parseModel(out, vs) {
  const m = {}; const byTxt = new Map(vs.map((v) => [v.txt, v]));
  const re = /\((v\d+) (true|false|-?\d+|\(- \d+\)|#x[0-9a-f]+|#b[01]+)\)/g; let x;
  while ((x = re.exec(out))) {
    const v = byTxt.get(x[1]); let y = x[2]; let val;
    if (y === 'true') val = true; else if (y === 'false') val = false; else if (y.startsWith('(-')) val = -Number(y.slice(3, -1)); else if (y.startsWith('#x')) { val = parseInt(y.slice(2), 16); if (v.lo < 0) val |= 0; } else if (y.startsWith('#b')) { val = parseInt(y.slice(2), 2); if (v.lo < 0) val |= 0; } else val = Number(y);
    m[v.vname] = val;
  }
  return m;
}
// Explore every path of one cell (or of the given jobs of it).
async function explore({ symFn, plainFn, cell, jobs, opts, deadline, hooks = {} }) {
  t.reset(); RT.abstractImul = !!opts.abstractImul; RT.imulKs = new Set(); RT.maxTrail = opts.maxTrail;
  const be = new Backend(opts);
  const st = { cell, paths: 0, infeasible: 0, branches: 0, flips: 0, implied: 0, validated: 0, mismatches: [], asserts: {}, covers: new Set(), violations: [], engine: [], incomplete: [], conc: 0, concDetail: {}, samples: [], maxTrail: 0, depth: 0 };
  const stack = jobs && jobs.length ? jobs : [{ prefix: [], inputs: {} }];
  const t0 = Date.now();
  while (stack.length) {
    if (Date.now() > deadline) { st.incomplete.push(`time budget reached with ${stack.length} branches left`); break; }
    if (hooks.shouldDonate && stack.length > 3 && hooks.shouldDonate()) { const k = Math.floor(stack.length / 2); const give = stack.splice(0, k).map((j) => ({ prefix: j.prefix.map((l) => typeof l === 'boolean' ? l : l.op !== 'not'), cks: j.cks, inputs: j.inputs })); hooks.donate(give); }
    const job = stack.pop();
    const plen = job.prefix.length;
    const r = await runSym(symFn, cell, { prefix: job.prefix, cks: job.cks, inputs: { ...job.inputs } }, opts);
    const c = r.c;
    st.paths++; st.branches += c.trail.length; st.maxTrail = Math.max(st.maxTrail, c.trail.length); st.conc += c.conc; for (const k of Object.keys(c.concDetail)) st.concDetail[k] = (st.concDetail[k] || 0) + c.concDetail[k];
    for (const [k, v] of c.asserts) st.asserts[k] = (st.asserts[k] || 0) + v;
    for (const k of c.covers) st.covers.add(k);
    if (hooks.onPath) hooks.onPath();
    if (r.outcome === 'engine') {
      if (plainFn && !/ticks/.test(r.why)) { const p = await runPlain(plainFn, cell, c.used); if (p.outcome === 'violation') { st.violations.push({ label: p.label, info: p.info, inputs: c.used, cell, concreteOnly: true, known: opts.known && opts.known(p.label, cell, p.info, c.used) }); if (st.violations.some((v) => !v.known)) break; } }
      if (process.env.VP_DEBUG) console.error('ENGINE', r.why, JSON.stringify(c.used)); st.engine.push(r.why); if (st.engine.length > 20) { st.incomplete.push('too many engine failures'); break; } }
    else if (r.outcome === 'assume') st.infeasible++;
    // replay on the uninstrumented code
    if (r.outcome === 'ok' || r.outcome === 'violation') {
      let p;
      if (r.hang || !plainFn) p = hooks.replayHang ? await hooks.replayHang({ cell, inputs: c.used }) : { outcome: 'violation', label: r.label };
      else p = await runPlain(plainFn, cell, c.used);
      if (r.outcome === 'violation') {
        if (p.outcome === 'violation') { st.violations.push({ label: p.label, info: p.info, inputs: c.used, cell, known: opts.known && opts.known(p.label, cell, p.info, c.used) }); }
        else { st.engine.push(`counterexample for '${r.label}' does not reproduce on the real code: ${JSON.stringify(r.info || '').slice(0, 300)}`); if (process.env.VP_DEBUG) console.error('SPURIOUS', r.label, r.info, JSON.stringify(c.used), JSON.stringify(deepConc(c.obs)), JSON.stringify(p)); }
      } else {
        const a = JSON.stringify(deepConc(c.obs)), b = JSON.stringify(p.obs);
        if (p.outcome === 'violation') { st.violations.push({ label: p.label, info: p.info, inputs: c.used, cell, concreteOnly: true, known: opts.known && opts.known(p.label, cell, p.info, c.used) }); }
        else if (a !== b) { st.mismatches.push({ sym: a.slice(0, 600), plain: b.slice(0, 600), inputs: c.used }); }
        else { st.validated++; if (st.samples.length < 2 && c.obs.length) st.samples.push({ cell, inputs: c.used, observed: JSON.parse(b) }); }
      }
      if (st.violations.some((v) => !v.known)) break;
    }
    // flips
    if (c.trail.length < plen) { if (r.outcome !== 'engine') st.engine.push('path shorter than its prefix'); continue; }
    st.implied += 0;
    const want = [...c.vars.values()];
    be.sync(c.trail, plen);
    const isolated = [];
    for (let i = plen; i < c.trail.length; i++) {
      const e = c.trail[i];
      const m = await be.flip(e.lit, want, c.used);
      st.flips++;
      if (m === 'unknown') { st.incomplete.push('solver gave no answer: ' + (be.lastErr || '').slice(0, 120)); if (be.s.dead) { be.s = new Solver(opts.solver || 'z3-new', ['-in']); be.init(); } }
      else if (m) {
        const cks = {}; for (let q = 0; q <= i; q++) { const x = c.trail[q]; if (x.ck !== undefined && (q === i) !== (x.lit.op === 'not')) cks[q] = x.ck; }
        isolated.push({ prefix: [...c.trail.slice(0, i).map((x) => x.lit), t.not(e.lit)], cks, inputs: { ...c.inputs, ...m } });
      }
      be.push(e.lit);
    }
    for (const j of isolated) stack.push(j);
  }
  st.ms = Date.now() - t0; st.solver = be.s.stats; st.solver.maxMs = be.maxMs || 0; be.s.close();
  st.covers = [...st.covers];
  return st;
}
module.exports = { explore, compile, runPlain, runSym };
