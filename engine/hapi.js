'use strict';
// The H interface the harnesses use: symbolic inputs, assumptions, assertions.
// One implementation for the symbolic run, one for the plain (replay) run.
const t = require('./term');
const RT = require('./runtime');
const { $, Sym, SB, SI, SV, SS, wb, wi, bnode, branch } = RT;

function uniq(names, name) { const k = (names.get(name) || 0); names.set(name, k + 1); return k ? name + '#' + k : name; }
function alphaRanges(a) { // 'a-z0-9_' or list of ranges
  if (Array.isArray(a)) return a;
  const r = []; for (let i = 0; i < a.length; i++) { const lo = a.charCodeAt(i); if (a[i + 1] === '-' && i + 2 < a.length) { r.push([lo, a.charCodeAt(i + 2)]); i += 2; } else r.push([lo, lo]); }
  r.sort((x, y) => x[0] - y[0]); const m = []; for (const [l, h] of r) { const last = m[m.length - 1]; if (last && l <= last[1] + 1) last[1] = Math.max(last[1], h); else m.push([l, h]); } return m;
}
function deepConc(x, seen = new Map()) {
  x = RT.norm(x);
  if (x instanceof Sym) return RT.concOf(x);
  if (x === null || typeof x !== 'object') return typeof x === 'function' ? '[fn]' : typeof x === 'symbol' ? String(x) : x === undefined ? '[undefined]' : typeof x === 'number' && !Number.isFinite(x) ? String(x) : x;
  if (seen.has(x)) return '[cycle]'; seen.set(x, true);
  let r;
  if (Array.isArray(x)) r = Array.from(x, (y) => deepConc(y, seen));
  else if (x instanceof RT.SMap || x instanceof Map) r = ['Map', ...[...x.entries()].map((e) => deepConc([e[0], e[1]], seen))];
  else if (x instanceof RT.SSet || x instanceof Set) r = ['Set', ...[...x.values()].map((e) => deepConc(e, seen))];
  else if (x instanceof Error) r = 'Error:' + x.name + ':' + x.message;
  else { r = {}; for (const k of Object.keys(x).map((k) => [RT.concStr(k), k]).sort((a, b) => a[0] < b[0] ? -1 : 1)) r[k[0]] = deepConc(x[k[1]], seen); }
  seen.delete(x); return r;
}
const isObj = (x) => x !== null && typeof x === 'object' && !(x instanceof Sym);
class AssertFail extends Error { constructor(label, info) { super('assert:' + label); this.label = label; this.info = info; } }

// promises of the code under test rejected without anyone listening (ends a Node process; reported by browsers)
function rejections(c) { const all = globalThis.__vpRejections || []; return all.slice(c.rej0 || 0).filter((e) => !(e && e.constructor && e.constructor.name === 'Abort') && !(e instanceof AssertFail)).map((e) => String(e && e.message || e).slice(0, 200)); }
function makeSym(c) { // c: path context
  c.vars = new Map(); const declare = (name, ...r) => { const n = t.variable(name, ...r); c.vars.set(name, n); return n; };
  const names = new Map();
  const input = (name, dflt) => { if (!(name in c.inputs)) c.inputs[name] = dflt; c.used[name] = c.inputs[name]; return c.inputs[name]; };
  const H = {
    symbolic: true,
    int(name, lo, hi) {
      name = uniq(names, name); let v = input(name, lo); if (v < lo || v > hi) v = lo; c.used[name] = v;
      return lo === hi ? lo : new SI(declare(name, 'I', lo, hi), v);
    },
    word(name, lo = -0x80000000, hi = 0x7fffffff) { // 32-bit word
      name = uniq(names, name); let v = input(name, lo); c.used[name] = v;
      return new SV(declare(name, 'V', lo, hi), v, lo >= 0 && hi > 0x7fffffff ? 'u' : 's', lo, hi);
    },
    bool(name) {
      name = uniq(names, name); const v = !!input(name, false); c.used[name] = v;
      return new SB(declare(name, 'B'), v);
    },
    char(name, alpha, word) {
      name = uniq(names, name); const r = alphaRanges(alpha || 'a-z'); const lo = r[0][0], hi = r[r.length - 1][1];
      let v = input(name, lo); if (!r.some(([l, h]) => v >= l && v <= h)) v = lo; c.used[name] = v;
      if (lo === hi) return lo;
      if (word) return new SV(declare(name, 'V', lo, hi, r.length > 1 ? r : null), v, 's', lo, hi);
      return new SI(declare(name, 'I', lo, hi, r.length > 1 ? r : null), v);
    },
    str(name, { min = 0, max = 2, alpha = 'a-z', word = false } = {}) {
      const len = max > min ? min + H.choose(name + '.len', max - min + 1) : min;
      const ch = []; for (let i = 0; i < len; i++) ch.push(H.char(name + '[' + i + ']', alpha, word));
      return RT.mkSS(ch);
    },
    id(name, k = 3) { return RT.mkSS([H.char(name, [[97, 97 + k - 1]])]); },
    choose(name, n) {
      name = uniq(names, name); let v = input(name, 0); if (!(v >= 0 && v < n)) v = 0; c.used[name] = v;
      if (n <= 1) return 0;
      const x = declare(name, 'I', 0, n - 1);
      for (let i = 0; i < n - 1; i++) if (branch(t.eq(x, t.I(i)), v === i, 'choice')) return i;
      return n - 1;
    },
    fork(name) { return H.choose(name, 2) === 1; },
    pick(name, arr) { return arr[H.choose(name, arr.length)]; },
    assume(x) { if (!$.t(x)) RT.abort('assume'); },
    assert(x, label, info) {
      c.asserts.set(label, (c.asserts.get(label) || 0) + 1);
      let ok;
      if (x instanceof Sym) ok = branch(x instanceof SB ? x.n : bnode($.not($.not(x))), !!RT.concOf(x), 'assert', label); else ok = !!x;
      if (!ok) RT.abort('violation', { label, info: info === undefined ? undefined : deepConc(info) });
    },
    fail(label, info) { H.assert(false, label, info); },
    and(...l) { l = l.flat(); return wb(t.and(l.map(bnodeT)), l.every((x) => !!RT.concOf(x))); },
    or(...l) { l = l.flat(); return wb(t.or(l.map(bnodeT)), l.some((x) => !!RT.concOf(x))); },
    not(x) { return $.not(x); },
    iff(a, b) { return wb(t.eq(bnodeT(a), bnodeT(b)), !!RT.concOf(a) === !!RT.concOf(b)); },
    implies(a, b) { return H.or(H.not(a), b); },
    ite(cnd, a, b) {
      if (!(cnd instanceof Sym)) return cnd ? a : b;
      const n = bnodeT(cnd), k = !!RT.concOf(cnd);
      const ta = $.typeof(a), tb = $.typeof(b);
      if (ta === 'boolean' && tb === 'boolean') return wb(t.ite(n, bnodeT(a), bnodeT(b)), k ? !!RT.concOf(a) : !!RT.concOf(b));
      if (ta === 'number' && tb === 'number' && !(a instanceof SV) && !(b instanceof SV)) return wi(t.ite(n, a instanceof SI ? a.n : t.num(a), b instanceof SI ? b.n : t.num(b)), RT.concOf(k ? a : b));
      return branch(n, k) ? a : b;
    },
    eq(a, b) { return wb(sameNode(a, b), deepSame(a, b)); },
    ne(a, b) { return H.not(H.eq(a, b)); },
    observe(v) { c.obs.push(v); },
    cover(label) { c.covers.add(label); },
    conc(x) { return $.conc(x, 'harness'); },
    show(x) { return deepConc(x); },
    async settle(n = 2) { for (let i = 0; i < n; i++) { c.progress++; await new Promise((r) => setImmediate(r)); } },
    tick() { $.tick(); },
    rejections: () => rejections(c),
    isSym: (x) => x instanceof Sym,
    num(x) { return x; },
  };
  return H;
}
const bnodeT = (x) => { if (x instanceof Sym) { const r = x instanceof SB ? x : $.not($.not(x)); return bnode(r); } return t.B(!!x); };
function plainKeys(o) { return Object.keys(o).map(RT.norm); }
function sameNode(a, b) {
  a = RT.norm(a); b = RT.norm(b);
  if (!isObj(a) || !isObj(b)) { if (isObj(a) || isObj(b)) return t.F; if (typeof a === 'number' && typeof b === 'number' && a !== a && b !== b) return t.T; return RT.seqNode(a, b); }
  if (a === b) return t.T;
  if (Array.isArray(a) !== Array.isArray(b)) return t.F;
  if (Array.isArray(a)) { if (a.length !== b.length) return t.F; return t.and(a.map((x, i) => sameNode(x, b[i]))); }
  const ka = Object.keys(a).filter((k) => a[k] !== undefined), kb = Object.keys(b).filter((k) => b[k] !== undefined);
  if (ka.length !== kb.length) return t.F;
  const parts = [];
  for (const k of ka) {
    if (kb.includes(k)) { parts.push(sameNode(a[k], b[k])); continue; }
    const cands = kb.map((j) => t.and([RT.seqNode(k, j), sameNode(a[k], b[j])])).filter((x) => x !== t.F);
    parts.push(t.or(cands));
  }
  return t.and(parts);
}
function deepSame(a, b) { return JSON.stringify(deepConc(strip(a))) === JSON.stringify(deepConc(strip(b))); }
function strip(a) { if (Array.isArray(a)) return a.map(strip); if (isObj(a) && !(a instanceof RT.SMap) && !(a instanceof RT.SSet) && !(a instanceof Map) && !(a instanceof Set)) { const r = {}; for (const k of Object.keys(a)) if (a[k] !== undefined) r[k] = strip(a[k]); return r; } return a; }

function makePlain(c) {
  const names = new Map();
  const input = (name, d) => (name in c.inputs ? c.inputs[name] : d);
  const H = {
    symbolic: false,
    int(name, lo, hi) { name = uniq(names, name); const v = input(name, lo); return v < lo || v > hi ? lo : v; },
    word(name, lo = -0x80000000) { name = uniq(names, name); return input(name, lo); },
    bool(name) { name = uniq(names, name); return !!input(name, false); },
    char(name, alpha) { name = uniq(names, name); const r = alphaRanges(alpha || 'a-z'); const v = input(name, r[0][0]); return r.some(([l, h]) => v >= l && v <= h) ? v : r[0][0]; },
    str(name, { min = 0, max = 2, alpha = 'a-z' } = {}) { const len = max > min ? min + H.choose(name + '.len', max - min + 1) : min; let s = ''; for (let i = 0; i < len; i++) s += String.fromCharCode(H.char(name + '[' + i + ']', alpha)); return s; },
    id(name, k = 3) { return String.fromCharCode(H.char(name, [[97, 97 + k - 1]])); },
    choose(name, n) { name = uniq(names, name); const v = input(name, 0); return v >= 0 && v < n ? v : 0; },
    fork(name) { return H.choose(name, 2) === 1; },
    pick(name, arr) { return arr[H.choose(name, arr.length)]; },
    assume(x) { if (!x) throw new RT.Abort('assume'); },
    assert(x, label, info) { if (!x && !c.fail) c.fail = { label, info: info === undefined ? undefined : deepConc(info) }; if (!x) throw new AssertFail(label, info); },
    fail(label, info) { H.assert(false, label, info); },
    and: (...l) => l.flat().every((x) => !!x), or: (...l) => l.flat().some((x) => !!x), not: (x) => !x, iff: (a, b) => !!a === !!b, implies: (a, b) => !a || !!b,
    ite: (k, a, b) => k ? a : b, eq: (a, b) => deepSame(a, b), ne: (a, b) => !deepSame(a, b),
    observe(v) { c.obs.push(v); }, cover(l) { c.covers.add(l); }, conc: (x) => x, show: deepConc,
    async settle(n = 2) { for (let i = 0; i < n; i++) { c.progress++; await new Promise((r) => setImmediate(r)); } },
    rejections: () => rejections(c),
    tick() { }, isSym: () => false, num: (x) => x,
  };
  return H;
}
module.exports = { makeSym, makePlain, deepConc, AssertFail };
