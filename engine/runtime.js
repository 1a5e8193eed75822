'use strict';
const t = require('./term');
const K = t.isK;

class Abort extends Error { constructor(kind, info) { super('engine:' + kind); this.kind = kind; this.info = info; } }
class Sym { }
class SB extends Sym { constructor(n, c) { super(); this.n = n; this.c = c; } }
class SI extends Sym { constructor(n, c) { super(); this.n = n; this.c = c; } }
class SV extends Sym { // 32-bit word: value is the signed/unsigned reading of n; wide: only n (mod 2^32) is known
  constructor(n, c, mode, lo, hi) { super(); this.n = n; this.c = c; this.mode = mode; this.lo = lo; this.hi = hi; }
}
class SQ extends SI { // an unsigned word divided by a positive integer constant
  constructor(sv, k) { super(t.rdiv(t.mk('bv2nat', 'I', [sv.n], undefined, sv.lo, sv.hi), k), sv.c / k); this.sv = sv; this.k = k; }
}
class Seg { }
class NumSeg extends Seg { constructor(v) { super(); this.v = v; } }
class EncSeg extends Seg { constructor(kind, s) { super(); this.kind = kind; this.s = s; } }
class SS extends Sym {
  constructor(ch) { super(); this.ch = ch; }
  get length() { return $.get(this, 'length'); }
  [Symbol.iterator]() { return $.iter(this)[Symbol.iterator](); }
  get c() { return concStr(this); }
}
for (const C of [SB, SI, SV, SS]) Object.defineProperty(C.prototype, Symbol.toPrimitive, { value() { if (process.env.VP_LEAK) process.stderr.write(new Error("leak").stack.split("\n").slice(1, 9).join("\n") + "\n"); return $.conc(this, 'leak'); } });

let ctx = null;
const $ = {};
const RT = { $, Sym, SB, SI, SV, SS, Abort, Seg, NumSeg, EncSeg, get ctx() { return ctx; } };

RT.newPath = (job, opts) => {
  ctx = { inputs: job.inputs || {}, prefix: job.prefix || [], cks: job.cks || {}, trail: [], facts: new Map(), ticks: 0, names: new Map(), markers: new Map(), markerBy: new Map(), hasMarkers: false,
    aborted: null, obs: [], covers: new Set(), asserts: new Map(), used: {}, conc: 0, maxTicks: opts.maxTicks || 400000, progress: 0, concDetail: {} , labels: [] };
  return ctx;
};
RT.entered = new Set();
const abort = (kind, info) => { if (!ctx.aborted) ctx.aborted = { kind, info }; throw new Abort(kind, info); };
RT.abort = abort;
$.em = (a) => (a instanceof Sym || isMarker(a)) ? concStr($.str(a)) : a;

function record(n, c, kind, label) {
  const i = ctx.trail.length;
  const lit = c ? n : t.not(n);
  if (i < ctx.prefix.length) {
    const ex = ctx.prefix[i];
    if (typeof ex === 'boolean' ? ex !== (lit.op !== 'not') : ex !== lit) abort('divergence', `at branch ${i}: expected ${typeof ex === 'boolean' ? ex : t.txt(ex, [])} got ${t.txt(lit, [])}`);
  }
  ctx.trail.push({ n, lit, kind, label, ck: undefined });
  learn(lit);
  if (ctx.trail.length > (RT.maxTrail || 4000)) abort('trail', 'too many branches on one path');
}
function learn(lit) {
  ctx.facts.set(lit.id, true); ctx.facts.set(t.not(lit).id, false);
  if (lit.op === 'and') for (const x of lit.a) learn(x);
  if (lit.op === 'not' && lit.a[0].op === 'or') for (const x of lit.a[0].a) learn(t.not(x));
}
function known(n) {
  if (n === t.T) return true; if (n === t.F) return false;
  const f = ctx.facts.get(n.id); if (f !== undefined) return f;
  if (n.op === 'and') { let all = true; for (const x of n.a) { const k = known(x); if (k === false) return false; if (k !== true) all = false; } if (all) return true; }
  if (n.op === 'or') { let all = true; for (const x of n.a) { const k = known(x); if (k === true) return true; if (k !== false) all = false; } if (all) return false; }
  if (n.op === 'not') { const k = known(n.a[0]); if (k !== undefined) return !k; }
  return undefined;
}
function branch(n, c, kind, label) {
  ctx.progress++;
  const k = known(n);
  if (k !== undefined) { if (k !== c && !ctx.aborted) abort('inconsistent', 'known fact contradicts concrete value: ' + t.txt(n, [])); return k; }
  record(n, c, kind, label);
  return c;
}
RT.branch = branch;
const wb = (n, c) => n === t.T ? true : n === t.F ? false : new SB(n, c);
const wi = (n, c) => { if (K(n)) return n.v; if (n.s === 'I' && !(n.lo >= -9007199254740991 && n.hi <= 9007199254740991)) abort('range', 'integer range beyond 2^53'); return new SI(n, c); };
RT.wb = wb; RT.wi = wi;
function bnode(x) { // boolean-ish value -> node
  return x instanceof SB ? x.n : t.B(!!x);
}
RT.bnode = bnode;
// ---------- strings
const isMarker = (s) => typeof s === 'string' && s.length > 2 && s.charCodeAt(0) === 0 && s.charCodeAt(1) === 0xA7;
const norm = (x) => (typeof x === 'string' && x.length > 2 && x.charCodeAt(0) === 0 && x.charCodeAt(1) === 0xA7 && ctx && ctx.markerBy.get(x)) || x;
RT.norm = norm;
function mkSS(ch) {
  for (const c of ch) if (typeof c !== 'number') return new SS(ch);
  return String.fromCharCode(...ch);
}
RT.mkSS = mkSS;
const chOf = (s) => { if (s instanceof SS) return s.ch; const r = new Array(s.length); for (let i = 0; i < s.length; i++) r[i] = s.charCodeAt(i); return r; };
function concStr(x) {
  x = norm(x);
  if (typeof x === 'string') return x;
  let r = '';
  for (const c of x.ch) r += typeof c === 'number' ? String.fromCharCode(c) : c instanceof NumSeg ? String(c.v.c) : c instanceof EncSeg ? RT.enc[c.kind](concStr(c.s)) : String.fromCharCode(c.c);
  return r;
}
RT.concStr = concStr;
RT.enc = { uri: encodeURIComponent, iso: (s) => s };
function sigOf(ss) { return ss.ch.map((c) => typeof c === 'number' ? c : c instanceof NumSeg ? 'n' + c.v.n.id : c instanceof EncSeg ? 'e' + c.kind + '(' + (typeof c.s === 'string' ? '"' + c.s : sigOf(c.s)) + ')' : 's' + c.n.id).join(','); }
function marker(ss) {
  const k = sigOf(ss); let m = ctx.markers.get(k);
  if (!m) { m = '\u0000\u00A7' + ctx.markers.size + '\u0000'; ctx.markers.set(k, m); ctx.markerBy.set(m, ss); }
  return m;
}
RT.marker = marker;
function cnode(c) { return typeof c === 'number' ? (null) : c.n; }
function chEq(a, b) { // chars -> node
  if (typeof a === 'number' && typeof b === 'number') return t.B(a === b);
  if (a instanceof Seg || b instanceof Seg) {
    if (a instanceof NumSeg && b instanceof NumSeg) return numEqNode(a.v, b.v);
    if (a instanceof EncSeg && b instanceof EncSeg && a.kind === b.kind) return strEqNode(a.s, b.s);
    return null;
  }
  const s = (typeof a !== 'number' && a instanceof SV) || (typeof b !== 'number' && b instanceof SV) ? 'V' : 'I';
  const na = typeof a === 'number' ? (s === 'V' ? t.V(a) : t.I(a)) : a.n, nb = typeof b === 'number' ? (s === 'V' ? t.V(b) : t.I(b)) : b.n;
  return t.eq(na, nb);
}
const hasSeg = (ss) => ss instanceof SS && ss.ch.some((c) => c instanceof Seg);
function flat(s) { // expand number segments into digits by forking on sign and digit count
  if (!hasSeg(s)) return s;
  const out = [];
  for (const c of s.ch) {
    if (c instanceof NumSeg) {
      let v = c.v;
      if (v instanceof SV) v = $.conc(v, 'digits');
      if (!(v instanceof SI) || v.n.s !== 'I') { out.push(...chOf(String($.conc(v, 'digits')))); continue; }
      let n = v.n, cc = v.c;
      if (branch(t.lt(n, t.I(0)), cc < 0)) { out.push(45); n = t.neg(n); cc = -cc; }
      let d = 1, p = 10;
      while (branch(t.le(t.I(p), n), p <= cc)) { d++; p *= 10; }
      for (let i = d - 1; i >= 0; i--) { const q = 10 ** i; const dn = t.add(t.imod(t.idiv(n, q), 10), t.I(48)); const dc = Math.floor(cc / q) % 10 + 48; out.push(K(dn) ? dn.v : new SI(dn, dc)); }
    } else if (c instanceof EncSeg) {
      if (c.kind === 'uri') { out.push(...chOf(encodeURIComponentSym(flat(c.s)))); }
      else out.push(...chOf($.conc(mkSS([c]), 'seg')));
    } else out.push(c);
  }
  return mkSS(out);
}
RT.flat = flat;
function strEqNode(a, b) {
  a = norm(a); b = norm(b);
  if (typeof a === 'string' && typeof b === 'string') return t.B(a === b);
  if (hasSeg(a) || hasSeg(b)) {
    const x = chOf(a), y = chOf(b);
    // strip a common concrete prefix / suffix and compare segment-wise
    if (x.length === y.length) {
      const parts = []; let ok = true;
      for (let i = 0; i < x.length; i++) { const e = chEq(x[i], y[i]); if (e === null) { ok = false; break; } parts.push(e); }
      if (ok) {
        // segments must be delimited unambiguously: a number segment next to a digit could realign
        const amb = (l) => l.some((c, i) => c instanceof Seg && [l[i - 1], l[i + 1]].some((d) => d instanceof Seg || (d !== undefined && (typeof d !== 'number' || (d >= 48 && d <= 57) || d === 45 || d === 37))));
        if (!amb(x) && !amb(y)) return t.and(parts);
      }
    }
    let i = 0; while (i < x.length && i < y.length && typeof x[i] === 'number' && typeof y[i] === 'number') { if (x[i] !== y[i]) return t.F; i++; }
    let p = x.length - 1, q = y.length - 1; while (p >= i && q >= i && typeof x[p] === 'number' && typeof y[q] === 'number') { if (x[p] !== y[q]) return t.F; p--; q--; }
    // number segment against a concrete text
    if (p === i && x[i] instanceof NumSeg && y.slice(i, q + 1).every((c) => typeof c === 'number')) return numTextNode(x[i].v, String.fromCharCode(...y.slice(i, q + 1)));
    if (q === i && y[i] instanceof NumSeg && x.slice(i, p + 1).every((c) => typeof c === 'number')) return numTextNode(y[i].v, String.fromCharCode(...x.slice(i, p + 1)));
    if (p === i && x[i] instanceof EncSeg && x[i].kind === 'uri' && y.slice(i, q + 1).every((c) => typeof c === 'number')) { const tx = String.fromCharCode(...y.slice(i, q + 1)); let d; try { d = decodeURIComponent(tx); } catch (e) { return t.F; } return encodeURIComponent(d) === tx ? strEqNode(x[i].s, d) : t.F; }
    if (q === i && y[i] instanceof EncSeg && y[i].kind === 'uri' && x.slice(i, p + 1).every((c) => typeof c === 'number')) return strEqNode(b, a);
    if ((p < i) !== (q < i)) { const l = p < i ? y.slice(i, q + 1) : x.slice(i, p + 1); if (l.some((c) => c instanceof NumSeg || typeof c === 'number')) return t.F; }
    return strEqNode(flat(a), flat(b));
  }
  const x = chOf(a), y = chOf(b);
  if (x.length !== y.length) return t.F;
  const parts = [];
  for (let i = 0; i < x.length; i++) { const e = chEq(x[i], y[i]); if (e === t.F) return t.F; parts.push(e); }
  return t.and(parts);
}
function numTextNode(v, text) {
  const k = Number(text);
  if (String(k) !== text || !Number.isFinite(k)) return t.F;
  return numEqNode(v, k);
}
function numEqNode(a, b) {
  if (a instanceof SV || b instanceof SV) {
    const ia = svInt(a), ib = svInt(b);
    if (ia && ib) { // same 32-bit reading or constants
      const ra = a instanceof SV ? a : null, rb = b instanceof SV ? b : null;
      if (ra && rb) {
        if (ra.mode === rb.mode || (ra.lo >= 0 && rb.lo >= 0 && ra.hi <= 0x7fffffff && rb.hi <= 0x7fffffff)) return t.eq(ra.n, rb.n);
        // signed vs unsigned reading: equal iff words equal and non-negative
        return t.and([t.eq(ra.n, rb.n), t.bvcmp('bvsle', t.V(0), ra.n)]);
      }
      const s = ra || rb, k = ra ? b : a;
      if (typeof k === 'number') {
        if (!Number.isInteger(k)) return t.F;
        if (s.mode === 's' ? (k < -0x80000000 || k > 0x7fffffff) : (k < 0 || k > 0xffffffff)) return t.F;
        return t.eq(s.n, t.V(k));
      }
    }
    if (a instanceof SV) a = $.conc(a, 'sv-eq'); if (b instanceof SV) b = $.conc(b, 'sv-eq');
  }
  const na = typeof a === 'number' ? a : a.n, nb = typeof b === 'number' ? b : b.n;
  if (typeof na === 'number' && !Number.isFinite(na)) return t.F;
  if (typeof nb === 'number' && !Number.isFinite(nb)) return t.F;
  return t.eq(typeof na === 'number' ? t.num(na) : na, typeof nb === 'number' ? t.num(nb) : nb);
}
const svInt = (x) => typeof x === 'number' || (x instanceof SV && x.mode !== 'w');
const conc = (x) => { x = norm(x); return x instanceof SS ? concStr(x) : x instanceof Sym ? x.c : x; };
RT.concOf = conc;

// ---------- equality
function seqNode(a, b) {
  a = norm(a); b = norm(b);
  if (!(a instanceof Sym) && !(b instanceof Sym)) return t.B(a === b);
  const ta = $.typeof(a), tb = $.typeof(b);
  if (ta !== tb) return t.F;
  if (ta === 'string') return strEqNode(a, b);
  if (ta === 'boolean') return t.eq(bnode(a), bnode(b));
  if (ta === 'number') return numEqNode(a, b);
  return t.F;
}
RT.seqNode = seqNode;
$.seq = (a, b) => {
  if (!(a instanceof Sym) && !(b instanceof Sym) && !(ctx && ctx.hasMarkers && (isMarker(a) || isMarker(b)))) return a === b;
  return wb(seqNode(a, b), conc(a) === conc(b));
};
$.sne = (a, b) => $.not($.seq(a, b));
$.eqeq = (a, b) => {
  a = norm(a); b = norm(b);
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a == b;
  if (a === null || a === undefined || b === null || b === undefined) return false;
  if (typeof a === 'object' && !(a instanceof Sym)) a = prim(a, 'default');
  if (typeof b === 'object' && !(b instanceof Sym)) b = prim(b, 'default');
  const ta = $.typeof(a), tb = $.typeof(b);
  if (ta === tb) return $.seq(a, b);
  return $.seq($.num(a), $.num(b));
};
$.neqeq = (a, b) => $.not($.eqeq(a, b));
$.typeof = (x) => { if (x instanceof Sym) return x instanceof SS ? 'string' : x instanceof SB ? 'boolean' : 'number'; return typeof x; };
function truthNode(x) {
  if (x instanceof SB) return x.n;
  if (x instanceof SI) return t.not(t.eq(x.n, x.n.s === 'R' ? t.R(0) : t.I(0)));
  if (x instanceof SV) return t.not(t.eq(x.n, t.V(0)));
  if (x instanceof SS) { return t.T; } // an SS has length >= 1 by construction
  return t.B(!!x);
}
$.t = (x) => {
  if (!(x instanceof Sym)) return !!x;
  if (x instanceof SS) return true;
  return branch(truthNode(x), !!x.c);
};
$.nn = (x) => x !== null && x !== undefined;
$.not = (x) => { if (!(x instanceof Sym)) return !x; if (x instanceof SS) return false; return wb(t.not(truthNode(x)), !x.c); };
$.and = (a, b) => $.t(a) ? b() : a;
$.or = (a, b) => $.t(a) ? a : b();
$.nc = (a, b) => $.nn(a) ? a : b();
$.sw = (d, cases) => { for (let i = 0; i < cases.length; i++) if ($.t($.seq(d, cases[i]()))) return i; return -1; };
$.tick = () => { ctx.progress++; if (ctx.aborted) throw new Abort('again'); if (++ctx.ticks > ctx.maxTicks) abort('ticks', 'loop/recursion budget exceeded'); };
$.enter = (id) => { RT.entered.add(id); $.tick(); };
$.chk = (e) => { if (e instanceof Abort) throw e; if (ctx.aborted) throw new Abort('again'); };
$.post = (a) => a;

// ---------- concretisation: fork on equality with the current value
$.conc = (x, why) => {
  x = norm(x);
  if (!(x instanceof Sym)) return x;
  const known0 = ctx.trail.length;
  if (x instanceof SB) return branch(x.n, x.c);
  if (x instanceof SI || x instanceof SV) {
    const mk = (k) => x instanceof SI ? t.eq(x.n, t.num(k)) : t.eq(x.n, t.V(k));
    // values this decision was already taken for on sibling paths: record the refusals first
    for (let i = ctx.trail.length; i in ctx.cks && ctx.cks[i] !== x.c; i = ctx.trail.length) { branch(mk(ctx.cks[i]), false, 'conc', why); if (ctx.trail.length === i) break; ctx.trail[i].ck = ctx.cks[i]; }
    const i = ctx.trail.length; branch(mk(x.c), true, 'conc', why); if (ctx.trail.length > i) ctx.trail[i].ck = x.c;
  }
  else if (x instanceof SS) {
    for (const c of x.ch) if (typeof c !== 'number') { if (c instanceof NumSeg) $.conc(c.v, why); else if (c instanceof EncSeg) $.conc(c.s, why); else $.conc(c, why); }
  }
  if (ctx.trail.length > known0) { ctx.conc++; ctx.concDetail[why] = (ctx.concDetail[why] || 0) + 1; }
  return conc(x);
};
const concDeepShallow = (a, why) => { for (let i = 0; i < a.length; i++) if (a[i] instanceof Sym || isMarker(a[i])) a[i] = $.conc(a[i], why); return a; };

// ---------- numbers
function prim(x, hint) {
  if (x instanceof Sym || x === null || (typeof x !== 'object' && typeof x !== 'function')) return x;
  const ex = x[Symbol.toPrimitive];
  if (ex) return ex.call(x, hint);
  const order = hint === 'string' ? ['toString', 'valueOf'] : ['valueOf', 'toString'];
  for (const m of order) { const fn = x[m]; if (typeof fn === 'function') { const r = $.call(x, m, []); if (r instanceof Sym || r === null || typeof r !== 'object') return r; } }
  throw new TypeError('Cannot convert object to primitive value');
}
$.num = (x) => {
  x = norm(x);
  if (typeof x === 'number') return x;
  if (x instanceof SI || x instanceof SV) return x;
  if (x instanceof SB) return wi(t.ite(x.n, t.I(1), t.I(0)), x.c ? 1 : 0);
  if (x instanceof SS) return strToNum(x);
  if (x !== null && typeof x === 'object') return $.num(prim(x, 'number'));
  return +x;
};
const isWS = (c) => c === 32 || (c >= 9 && c <= 13) || c === 0xa0 || c === 0xfeff;
function digitNode(c) { return inSet(c, [[48, 57]]); }
function inSet(c, ranges) { // char in set -> node
  if (typeof c === 'number') return t.B(ranges.some(([l, h]) => c >= l && c <= h));
  if (c instanceof SV) return t.or(ranges.map(([l, h]) => l === h ? t.eq(c.n, t.V(l)) : t.and([t.bvcmp('bvule', t.V(l), c.n), t.bvcmp('bvule', c.n, t.V(h))])));
  return t.or(ranges.filter(([l, h]) => !c.n.dom || c.n.dom.some(([a, b]) => a <= h && b >= l)).map(([l, h]) => l === h ? t.eq(c.n, t.I(l)) : t.and([t.le(t.I(l), c.n), t.le(c.n, t.I(h))])));
}
const cc = (c) => typeof c === 'number' ? c : c.c;
const inR = (c, ranges) => ranges.some(([l, h]) => c >= l && c <= h);
function testSet(c, ranges) { return branch(inSet(c, ranges), inR(cc(c), ranges)); }
RT.testSet = testSet;
const WS = [[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
function strToNum(ss) {
  if (ss.ch.length === 1 && ss.ch[0] instanceof NumSeg) return ss.ch[0].v;
  ss = flat(ss); if (typeof ss === 'string') return Number(ss);
  let ch = ss.ch.slice();
  while (ch.length && testSet(ch[0], WS)) ch.shift();
  while (ch.length && testSet(ch[ch.length - 1], WS)) ch.pop();
  if (!ch.length) return 0;
  let sign = 1, i = 0;
  if (testSet(ch[0], [[43, 43], [45, 45]])) { if (testSet(ch[0], [[45, 45]])) sign = -1; i = 1; }
  if (i >= ch.length) return NaN;
  let j = i; while (j < ch.length && testSet(ch[j], [[48, 57]])) j++;
  if (j === ch.length && ch.length - i <= 15) {
    let n = t.I(0), c = 0;
    for (let k = i; k < ch.length; k++) { const x = ch[k]; n = t.add(t.mul(n, t.I(10)), t.sub(typeof x === 'number' ? t.I(x) : x.n, t.I(48))); c = c * 10 + (cc(x) - 48); }
    if (sign < 0) { n = t.neg(n); c = -c; }
    return wi(n, c);
  }
  // anything outside [0-9+-.eExXoObBa-fA-FInfity] makes it NaN
  for (const x of ch) if (!testSet(x, [[48, 57], [43, 43], [45, 46], [65, 70], [97, 102], [69, 69], [101, 101], [88, 88], [120, 120], [79, 79], [111, 111], [73, 73], [110, 110], [105, 105], [116, 116], [121, 121]])) return NaN;
  return Number($.conc(mkSS(ch), 'Number(str)'));
}
function asNum(x) { return $.num(x); }
const isSN = (x) => x instanceof SI || x instanceof SV;
function nd(x) { return typeof x === 'number' ? t.num(x) : x.n; } // finite numbers / SI only
const rtSV = {
  exact(x) { return typeof x === 'number' ? { lo: x, hi: x } : { lo: x.lo, hi: x.hi }; },
};
function mkSV(n, c, lo, hi) {
  if (lo >= -0x80000000 && hi <= 0x7fffffff) { return K(n) ? (n.v | 0) : new SV(n, c, 's', lo, hi); }
  if (lo >= 0 && hi <= 0xffffffff) { return K(n) ? n.v : new SV(n, c, 'u', lo, hi); }
  return new SV(n, c, 'w', lo, hi);
}
const svn = (x) => typeof x === 'number' ? t.V(x) : x.n;
function arith(op, a, b) {
  a = asNum(a); b = asNum(b);
  const J = { add: (x, y) => x + y, sub: (x, y) => x - y, mul: (x, y) => x * y, div: (x, y) => x / y, mod: (x, y) => x % y, pow: (x, y) => x ** y }[op];
  if (!isSN(a) && !isSN(b)) return J(a, b);
  if (typeof a === 'bigint' || typeof b === 'bigint') throw new TypeError('Cannot mix BigInt');
  if (a instanceof SV || b instanceof SV) {
    if ((a instanceof SI) || (b instanceof SI)) { if (a instanceof SV) a = $.conc(a, 'sv-mix'); if (b instanceof SV) b = $.conc(b, 'sv-mix'); return arith(op, a, b); }
    const x = rtSV.exact(a), y = rtSV.exact(b);
    if (['add', 'sub', 'mul'].includes(op) && (typeof a !== 'number' || Number.isInteger(a)) && (typeof b !== 'number' || Number.isInteger(b))) {
      let lo, hi; if (op === 'add') { lo = x.lo + y.lo; hi = x.hi + y.hi; } else if (op === 'sub') { lo = x.lo - y.hi; hi = x.hi - y.lo; } else { const q = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]; lo = Math.min(...q); hi = Math.max(...q); }
      if (lo >= -9007199254740991 && hi <= 9007199254740991) return mkSV(t.bv('bv' + op, svn(a), svn(b)), J(conc(a), conc(b)), lo, hi);
    }
    if (op === 'mod' && typeof b === 'number' && b > 0 && a.mode !== 'w' && a.lo >= 0) { const n = t.mk('bvurem', 'V', [a.n, t.V(b)], undefined, 0, b - 1); return new SV(n, a.c % b, 's', 0, b - 1); }
    if (op === 'div' && typeof b === 'number' && Number.isInteger(b) && b > 0 && a instanceof SV && a.mode !== 'w' && a.lo >= 0) return new SQ(a, b);
    if (a instanceof SV) a = $.conc(a, 'sv-' + op); if (b instanceof SV) b = $.conc(b, 'sv-' + op);
    return J(a, b);
  }
  for (const x of [a, b]) if (typeof x === 'number' && !Number.isFinite(x)) {
    // NaN / Infinity with a finite symbolic operand
    const other = x === a ? b : a; void other;
    if (Number.isNaN(x)) return NaN;
    if (op === 'add' || op === 'sub') return J(conc(a), conc(b));
    if (op === 'div' && x === b) return 0;
    return J($.conc(a, 'inf'), $.conc(b, 'inf'));
  }
  const ca = conc(a), cb = conc(b);
  switch (op) {
    case 'add': return wi(t.add(nd(a), nd(b)), ca + cb);
    case 'sub': return wi(t.sub(nd(a), nd(b)), ca - cb);
    case 'mul': return wi(t.mul(nd(a), nd(b)), ca * cb);
    case 'div':
      if (typeof b === 'number' && b !== 0) return wi(t.rdiv(nd(a), b), ca / cb);
      break;
    case 'mod':
      if (typeof b === 'number' && Number.isInteger(b) && b !== 0 && a.n.s === 'I') {
        const k = Math.abs(b);
        if (a.n.lo >= 0 || branch(t.le(t.I(0), a.n), ca >= 0)) return wi(t.imod(a.n, k), ca % k);
        return wi(t.neg(t.imod(t.neg(a.n), k)), ca % k);
      }
      break;
    case 'pow': if (b === 2) return wi(t.mul(nd(a), nd(a)), ca * ca); break;
  }
  if (op === 'div' && isSN(b)) { // symbolic divisor: fork on zero, then concretise the divisor
    b = $.conc(b, 'div'); return arith(op, a, b);
  }
  return J($.conc(a, 'arith-' + op), $.conc(b, 'arith-' + op));
}
$.add = (a, b) => {
  if ((typeof a === 'number' && typeof b === 'number')) return a + b;
  a = prim(norm(a), 'default'); b = prim(norm(b), 'default');
  if (!(a instanceof Sym) && !(b instanceof Sym)) return a + b;
  const sa = $.typeof(a) === 'string', sb = $.typeof(b) === 'string';
  if (sa || sb) return concat($.str(a), $.str(b));
  return arith('add', a, b);
};
for (const op of ['sub', 'mul', 'div', 'mod', 'pow']) {
  const J = { sub: (x, y) => x - y, mul: (x, y) => x * y, div: (x, y) => x / y, mod: (x, y) => x % y, pow: (x, y) => x ** y }[op];
  $[op] = (a, b) => (typeof a === 'number' && typeof b === 'number') || (typeof a === 'bigint') ? J(a, b) : arith(op, prim(norm(a), 'number'), prim(norm(b), 'number'));
}
$.inc = (a) => typeof a === 'number' ? a + 1 : arith('add', a, 1);
$.dec = (a) => typeof a === 'number' ? a - 1 : arith('sub', a, 1);
$.neg = (a) => { a = norm(a); if (!(a instanceof Sym) && (a === null || typeof a !== 'object')) return -a; return arith('mul', prim(a, 'number'), -1); };
function cmp(op, a, b) { // lt le
  const J = op === 'lt' ? (x, y) => x < y : (x, y) => x <= y;
  a = prim(norm(a), 'number'); b = prim(norm(b), 'number');
  if (!(a instanceof Sym) && !(b instanceof Sym)) return J(a, b);
  if ($.typeof(a) === 'string' && $.typeof(b) === 'string') {
    const x = chOf(flat(a)), y = chOf(flat(b)); let n = t.B(op === 'lt' ? x.length < y.length : x.length <= y.length);
    const m = Math.min(x.length, y.length);
    const cn = (c, s) => typeof c === 'number' ? (s ? t.V(c) : t.I(c)) : c.n;
    for (let i = m - 1; i >= 0; i--) { const s = x[i] instanceof SV || y[i] instanceof SV; const p = cn(x[i], s), q = cn(y[i], s); n = t.or([s ? t.bvcmp('bvult', p, q) : t.lt(p, q), t.and([t.eq(p, q), n])]); }
    return wb(n, J(conc(a), conc(b)));
  }
  a = asNum(a); b = asNum(b);
  if (!isSN(a) && !isSN(b)) return J(a, b);
  if (a instanceof SV || b instanceof SV) {
    const okS = (x) => typeof x === 'number' ? Number.isInteger(x) && x >= -0x80000000 && x <= 0x7fffffff : x instanceof SV && (x.mode === 's' || (x.mode === 'u' && x.hi <= 0x7fffffff));
    const okU = (x) => typeof x === 'number' ? Number.isInteger(x) && x >= 0 && x <= 0xffffffff : x instanceof SV && x.mode !== 'w' && x.lo >= 0;
    if (okS(a) && okS(b)) return wb(t.bvcmp(op === 'lt' ? 'bvslt' : 'bvsle', svn(a), svn(b)), J(conc(a), conc(b)));
    if (okU(a) && okU(b)) return wb(t.bvcmp(op === 'lt' ? 'bvult' : 'bvule', svn(a), svn(b)), J(conc(a), conc(b)));
    if (typeof a === 'number' && b.mode !== 'w') { if (a < b.lo) return true; if (a > b.hi) return false; }
    if (typeof b === 'number' && a.mode !== 'w') { if (b > a.hi) return true; if (b < a.lo) return false; }
    return J($.conc(a, 'sv-cmp'), $.conc(b, 'sv-cmp'));
  }
  for (const x of [a, b]) if (typeof x === 'number' && !Number.isFinite(x)) return J(conc(a), conc(b));
  return wb(op === 'lt' ? t.lt(nd(a), nd(b)) : t.le(nd(a), nd(b)), J(conc(a), conc(b)));
}
$.lt = (a, b) => typeof a === 'number' && typeof b === 'number' ? a < b : cmp('lt', a, b);
$.le = (a, b) => typeof a === 'number' && typeof b === 'number' ? a <= b : cmp('le', a, b);
$.gt = (a, b) => typeof a === 'number' && typeof b === 'number' ? a > b : cmp('lt', b, a);
$.ge = (a, b) => typeof a === 'number' && typeof b === 'number' ? a >= b : cmp('le', b, a);
const BIT = { band: ['bvand', (x, y) => x & y], bor: ['bvor', (x, y) => x | y], bxor: ['bvxor', (x, y) => x ^ y], shl: ['bvshl', (x, y) => x << y], shr: ['bvashr', (x, y) => x >> y], ushr: ['bvlshr', (x, y) => x >>> y] };
for (const op of Object.keys(BIT)) {
  const [bop, J] = BIT[op];
  $[op] = (a, b) => {
    if (typeof a === 'number' && typeof b === 'number') return J(a, b);
    if (typeof a === 'bigint' && typeof b === 'bigint') return op === 'band' ? a & b : op === 'bor' ? a | b : op === 'bxor' ? a ^ b : op === 'shl' ? a << b : a >> b;
    a = asNum(norm(a)); b = asNum(norm(b));
    if (!isSN(a) && !isSN(b)) return J(a, b);
    const ca = conc(a), cb = conc(b), c = J(ca, cb);
    if (a instanceof SV || b instanceof SV) {
      if (a instanceof SI) a = $.conc(a, 'bit-mix'); if (b instanceof SI) b = $.conc(b, 'bit-mix');
      let nb = svn(b);
      if (op === 'shl' || op === 'shr' || op === 'ushr') nb = t.bv('bvand', nb, t.V(31));
      const n = t.bv(bop, svn(a), nb);
      let lo = -0x80000000, hi = 0x7fffffff;
      if (op === 'ushr') { lo = 0; hi = 0xffffffff; if (typeof b === 'number') hi = 0xffffffff >>> (b & 31); }
      if (op === 'band') { for (const x of [a, b]) { if (typeof x === 'number' && (x | 0) >= 0) { lo = 0; hi = Math.min(hi, x | 0); } else if (x instanceof SV && x.mode === 's' && x.lo >= 0) { lo = 0; hi = Math.min(hi, x.hi); } } }
      const rng = (x) => typeof x === 'number' ? [x, x] : [x.lo, x.hi];
      const [al, ah] = rng(a), [bl, bh] = rng(b);
      if ((op === 'bor' || op === 'bxor') && al >= 0 && bl >= 0 && ah <= 0x7fffffff && bh <= 0x7fffffff) { lo = 0; hi = 2 ** (32 - Math.clz32(Math.max(ah, bh))) - 1; }
      if (op === 'shr' && al >= 0 && ah <= 0x7fffffff) { lo = 0; hi = typeof b === 'number' ? ah >> (b & 31) : ah; }
      if (op === 'shl' && al >= 0 && typeof b === 'number' && ah * 2 ** (b & 31) <= 0x7fffffff) { lo = 0; hi = ah * 2 ** (b & 31); }
      return mkSV(n, c, lo, hi);
    }
    // Int terms
    if (typeof b === 'number' && a instanceof SI && a.n.s === 'I') {
      const { lo, hi } = a.n;
      if ((op === 'bor' && b === 0 || op === 'shr' && b === 0) && lo >= -0x80000000 && hi <= 0x7fffffff) return a;
      if (op === 'ushr' && b === 0 && lo >= 0 && hi <= 0xffffffff) return a;
      if (lo >= 0 && hi <= 0x7fffffff) {
        if (op === 'shr' || op === 'ushr') return wi(t.idiv(a.n, 2 ** (b & 31)), c);
        if (op === 'shl' && hi * 2 ** (b & 31) <= 0x7fffffff) return wi(t.mul(a.n, t.I(2 ** (b & 31))), c);
        if (op === 'band' && b >= 0 && ((b + 1) & b) === 0) return wi(t.imod(a.n, b + 1), c);
      }
    }
    if (typeof a === 'number' && b instanceof SI && (op === 'band' || op === 'bor')) return $[op](b, a);
    return J($.conc(a, 'bit-' + op), $.conc(b, 'bit-' + op));
  };
}
$.bnot = (a) => { a = norm(a); if (a instanceof Sym) return $.bxor(a, -1); return ~a; };
function sgn(n) { return n; }
// ---------- strings
function concat(a, b) { return typeof a === 'string' && typeof b === 'string' ? a + b : mkSS([...chOf(a), ...chOf(b)]); }
$.str = (x) => {
  x = norm(x);
  if (typeof x === 'string' || x instanceof SS) return x;
  if (x instanceof SB) return branch(x.n, x.c) ? 'true' : 'false';
  if (x instanceof SI || x instanceof SV) return new SS([new NumSeg(x)]);
  if (typeof x === 'symbol') throw new TypeError('Cannot convert a Symbol value to a string');
  if (x !== null && typeof x === 'object') { if (Array.isArray(x) && x.join === Array.prototype.join) return HK.get(Array.prototype.join)(x, []); const p = prim(x, 'string'); return $.str(p); }
  return String(x);
};
$.tpl = (strs, exps) => { let r = strs[0]; for (let i = 0; i < exps.length; i++) { r = concat(r, $.str(exps[i])); if (strs[i + 1]) r = concat(r, strs[i + 1]); } return r; };
const codeRange = (c) => typeof c === 'number' ? [c, c] : c instanceof SV ? [c.lo, c.hi] : [c.n.lo, c.n.hi];
function mapAsciiCase(c, lower) {
  if (typeof c === 'number') { const s = String.fromCharCode(c); return lower ? s.toLowerCase() : s.toUpperCase(); }
  const [lo, hi] = codeRange(c);
  if (hi >= 128) { if (!testSet(c, [[0, 127]])) return lower ? $.conc(mkSS([c]), 'case').toLowerCase() : $.conc(mkSS([c]), 'case').toUpperCase(); }
  const rng = lower ? [[65, 90]] : [[97, 122]]; const d = lower ? 32 : -32;
  const is = inSet(c, rng);
  const k = known(is);
  if (k === false) return mkSS([c]);
  const x = cc(c); const nx = inR(x, rng) ? x + d : x;
  if (c instanceof SV) { const n = t.ite(is, t.bv('bvadd', c.n, t.V(d)), c.n); return mkSS([new SV(n, nx, 's', 0, 127)]); }
  const n = t.ite(is, t.add(c.n, t.I(d)), c.n);
  return mkSS([K(n) ? n.v : new SI(n, nx)]);
}
const idx = (x, d) => { if (x === undefined) return d; x = $.num(x); x = $.conc(x, 'index'); return Number.isNaN(x) ? 0 : Math.trunc(x); };
function matchAt(h, p, i) { // node: needle p at position i of h
  const parts = []; for (let j = 0; j < p.length; j++) { const e = chEq(h[i + j], p[j]); if (e === t.F) return t.F; if (e === null) return null; parts.push(e); } return t.and(parts);
}
// does a needle need segments expanded?  Only if it could overlap a segment.
function prepFind(s, needle) {
  let h = s; const p = chOf(needle);
  if (hasSeg(s)) {
    const clash = p.some((c) => typeof c !== 'number' || (c >= 48 && c <= 57) || c === 45 || c === 46) || p.length === 0;
    const hasEnc = s.ch.some((c) => c instanceof EncSeg);
    const encClash = p.some((c) => typeof c !== 'number' || /[A-Za-z0-9\-_.!~*'()%]/.test(String.fromCharCode(c)));
    if ((clash && s.ch.some((c) => c instanceof NumSeg)) || (hasEnc && encClash)) h = flat(s);
    else return [chOf(s), p, true];
  }
  if (hasSeg(needle)) return [chOf(flat(h)), chOf(flat(needle)), false];
  return [chOf(h), p, false];
}
const segSafeMatch = (h, p, i) => { for (let j = 0; j < p.length; j++) if (h[i + j] instanceof Seg) return t.F; return matchAt(h, p, i); };
const cMatch = (h, p, i) => { for (let j = 0; j < p.length; j++) { if (h[i + j] instanceof Seg) return false; if (cc(h[i + j]) !== cc(p[j])) return false; } return true; };
function findFrom(h, p, from) { for (let i = from; i + p.length <= h.length; i++) if (branch(segSafeMatch(h, p, i), cMatch(h, p, i))) return i; return -1; }
const S = {
  toString: (s) => s, valueOf: (s) => s,
  charAt: (s, i) => { s = flat(s); i = idx(i, 0); const h = chOf(s); return i >= 0 && i < h.length ? mkSS([h[i]]) : ''; },
  at: (s, i) => { s = flat(s); i = idx(i, 0); const h = chOf(s); if (i < 0) i += h.length; return i >= 0 && i < h.length ? mkSS([h[i]]) : undefined; },
  charCodeAt: (s, i) => { s = flat(s); i = idx(i, 0); const h = chOf(s); return i >= 0 && i < h.length ? h[i] : NaN; },
  codePointAt: (s, i) => {
    s = flat(s); i = idx(i, 0); const h = chOf(s); if (i < 0 || i >= h.length) return undefined;
    const a = h[i]; if (!testSet(a, [[0xd800, 0xdbff]]) || i + 1 >= h.length) return a;
    const b = h[i + 1]; if (!testSet(b, [[0xdc00, 0xdfff]])) return a;
    return $.add($.add($.mul($.sub(a, 0xd800), 0x400), $.sub(b, 0xdc00)), 0x10000);
  },
  concat: (s, ...r) => r.reduce((x, y) => concat(x, $.str(y)), s),
  includes: (s, n, from) => {
    if (norm(n) instanceof RegExp) throw new TypeError('regex');
    n = $.str(n); const [h, p] = prepFind(s, n); const f0 = idx(from, 0);
    const l = []; let c = false; for (let i = Math.max(0, f0); i + p.length <= h.length; i++) { l.push(segSafeMatch(h, p, i)); c = c || cMatch(h, p, i); }
    return wb(t.or(l), c);
  },
  startsWith: (s, n, pos) => { n = $.str(n); const [h, p] = prepFind(s, n); const i = Math.max(0, idx(pos, 0)); return i + p.length <= h.length ? wb(segSafeMatch(h, p, i), cMatch(h, p, i)) : false; },
  endsWith: (s, n, pos) => { n = $.str(n); const [h0, p] = prepFind(s, n); const h = pos === undefined ? h0 : h0.slice(0, idx(pos)); const i = h.length - p.length; return i >= 0 ? wb(segSafeMatch(h, p, i), cMatch(h, p, i)) : false; },
  indexOf: (s, n, from) => { n = $.str(n); const [h, p, seg] = prepFind(s, n); const r = findFrom(h, p, Math.max(0, idx(from, 0))); if (r >= 0 && seg && h.slice(0, r).some((c) => c instanceof Seg)) return S.indexOf(flat(s), n, from); return r; },
  lastIndexOf: (s, n, from) => { n = $.str(n); s = flat(s); const [h, p] = prepFind(s, n); let i = h.length - p.length; if (from !== undefined) i = Math.min(i, idx(from)); for (; i >= 0; i--) if (branch(segSafeMatch(h, p, i), cMatch(h, p, i))) return i; return -1; },
  slice: (s, a, b) => {
    if (hasSeg(s)) { a = idx(a, 0); const h = chOf(s); const k = h.findIndex((c) => c instanceof Seg); if (a >= 0 && b === undefined && a <= k) return mkSS(h.slice(a)); if (a >= 0 && b !== undefined && idx(b) >= 0 && idx(b) <= k) return mkSS(h.slice(a, idx(b))); s = flat(s); }
    return mkSS(chOf(s).slice(idx(a, 0), b === undefined ? undefined : idx(b)));
  },
  substring: (s, a, b) => { if (b === undefined && hasSeg(s)) return S.slice(s, Math.max(0, idx(a, 0))); s = flat(s); const h = chOf(s); let x = Math.min(Math.max(idx(a, 0), 0), h.length), y = b === undefined ? h.length : Math.min(Math.max(idx(b), 0), h.length); if (x > y) [x, y] = [y, x]; return mkSS(h.slice(x, y)); },
  substr: (s, a, b) => { s = flat(s); const h = chOf(s); let x = idx(a, 0); if (x < 0) x = Math.max(0, h.length + x); return mkSS(h.slice(x, b === undefined ? undefined : x + idx(b))); },
  split: (s, sep, lim) => {
    sep = norm(sep);
    if (sep === undefined) return [s];
    if (sep instanceof RegExp) return RT.regex.split(flat(s), sep);
    sep = $.str(sep);
    if (sep === '') return chOf(flat(s)).map((c) => mkSS([c]));
    const [h, p] = prepFind(s, sep); const out = []; let i = 0;
    for (;;) { const j = findFrom(h, p, i); if (j < 0) { out.push(mkSS(h.slice(i))); break; } out.push(mkSS(h.slice(i, j))); i = j + p.length; }
    return lim === undefined ? out : out.slice(0, idx(lim));
  },
  toLowerCase: (s) => chOf(flat(s)).map((c) => mapAsciiCase(c, true)).reduce(concat, ''),
  toUpperCase: (s) => chOf(flat(s)).map((c) => mapAsciiCase(c, false)).reduce(concat, ''),
  trimStart: (s) => { let h = chOf(s).slice(); while (h.length && !(h[0] instanceof Seg) && testSet(h[0], WS)) h.shift(); return mkSS(h); },
  trimEnd: (s) => { let h = chOf(s).slice(); while (h.length && !(h[h.length - 1] instanceof Seg) && testSet(h[h.length - 1], WS)) h.pop(); return mkSS(h); },
  trim: (s) => S.trimEnd(S.trimStart(s)),
  replace: (s, p, r) => {
    p = norm(p);
    if (p instanceof RegExp) return RT.regex.replace(flat(s), p, r);
    p = $.str(p); const [h, q] = prepFind(s, p); const i = findFrom(h, q, 0); if (i < 0) return mkSS(h);
    const rep = typeof r === 'function' ? $.str(r(mkSS(h.slice(i, i + q.length)), i, s)) : RT.regex.expand($.str(r), mkSS(h.slice(i, i + q.length)), [], mkSS(h.slice(0, i)), mkSS(h.slice(i + q.length)));
    return concat(concat(mkSS(h.slice(0, i)), rep), mkSS(h.slice(i + q.length)));
  },
  replaceAll: (s, p, r) => { p = norm(p); if (p instanceof RegExp) return S.replace(s, p, r); return HK.get(Array.prototype.join)(S.split(s, p), [r]); },
  match: (s, re) => { if (!(re instanceof RegExp)) re = new RegExp($.conc(re, 'regex-src')); return re.global ? RT.regex.matchAll(flat(s), re) : RT.regex.exec(re, flat(s)); },
  search: (s, re) => { const m = RT.regex.exec(new RegExp(re.source, re.flags.replace(/[gy]/g, '')), flat(s)); return m ? m.index : -1; },
  repeat: (s, n) => { let r = ''; for (let i = idx(n, 0); i > 0; i--) r = concat(r, s); return r; },
  padStart: (s, n, f) => { s = flat(s); n = idx(n); f = f === undefined ? ' ' : $.str(f); let h = chOf(s); const pad = []; const fc = chOf(f); while (pad.length + h.length < n) pad.push(fc[pad.length % fc.length]); return mkSS([...pad, ...h]); },
  padEnd: (s, n, f) => { s = flat(s); n = idx(n); f = f === undefined ? ' ' : $.str(f); let h = chOf(s); const pad = []; const fc = chOf(f); while (pad.length + h.length < n) pad.push(fc[pad.length % fc.length]); return mkSS([...h, ...pad]); },
  localeCompare: (s, o) => { o = $.str(o); if ($.t($.seq(s, o))) return 0; return $.conc(s, 'localeCompare').localeCompare($.conc(o, 'localeCompare')); },
  normalize: (s) => s,
};
RT.S = S;
function strIter(s) { // by code point
  s = flat(norm(s)); const h = chOf(s); const out = [];
  for (let i = 0; i < h.length; i++) {
    const [lo, hi] = codeRange(h[i]);
    if (hi >= 0xd800 && i + 1 < h.length && testSet(h[i], [[0xd800, 0xdbff]]) && testSet(h[i + 1], [[0xdc00, 0xdfff]])) { out.push(mkSS([h[i], h[i + 1]])); i++; } else out.push(mkSS([h[i]]));
  }
  return out;
}
$.iter = (x) => { const n = norm(x); if (n instanceof SS) return strIter(n); return x; };
$.destr = (x) => { if (x instanceof SS) return { length: $.get(x, 'length') }; return x; };
const UNRES = [[65, 90], [97, 122], [48, 57], [45, 46], [95, 95], [33, 33], [126, 126], [39, 42]];
function hexd(n, c) { const d = t.ite(t.lt(n, t.I(10)), t.add(n, t.I(48)), t.add(n, t.I(55))); return K(d) ? d.v : new SI(d, c < 10 ? c + 48 : c + 55); }
function encodeURIComponentSym(s, extra) {
  if (typeof s === 'string') return encodeURIComponent(s);
  const out = [];
  for (const ch of chOf(s)) {
    if (ch instanceof NumSeg) { out.push(ch); continue; }
    if (typeof ch === 'number') { if (ch >= 0xd800 && ch <= 0xdfff) return encodeURIComponent($.conc(s, 'uri')); out.push(...chOf(encodeURIComponent(String.fromCharCode(ch)))); continue; }
    if (testSet(ch, UNRES)) { out.push(ch); continue; }
    if (ch instanceof SV || !testSet(ch, [[0, 127]])) { return encodeURIComponent($.conc(s, 'uri')); }
    const q = t.idiv(ch.n, 16), r = t.imod(ch.n, 16);
    out.push(37, hexd(q, Math.floor(ch.c / 16)), hexd(r, ch.c % 16));
  }
  return mkSS(out);
}

// ---------- objects
const own = Object.prototype.hasOwnProperty;
const plain = (o) => { const p = Object.getPrototypeOf(o); return p === null || p === Object.prototype; };
function resolveKey(o, k) { // -> native key to use
  k = norm(k);
  if (k instanceof SI || k instanceof SV) {
    if (Array.isArray(o) || ArrayBuffer.isView(o)) return $.conc(k, 'index');
    k = $.str(k);
  }
  if (k instanceof SB) k = $.str(k);
  if (k instanceof SS) {
    const kc = concStr(k);
    const m = marker(k);
    if (own.call(o, m)) return m;
    if (o !== null && (typeof o === 'object' || typeof o === 'function')) {
      for (const e of Object.getOwnPropertyNames(o)) {
        if (typeof o === 'function' && (e === 'length' || e === 'name' || e === 'prototype')) continue;
        const n = seqNode(k, e);
        if (n === t.F) continue;
        if (branch(n, kc === concStr(e))) return e;
      }
      // inherited names (methods): a symbolic key may name one
      if (!plain(o)) { let p = Object.getPrototypeOf(o); while (p && p !== Object.prototype && p !== Array.prototype && p !== Function.prototype) { for (const e of Object.getOwnPropertyNames(p)) { const n = seqNode(k, e); if (n !== t.F && branch(n, kc === e)) return e; } p = Object.getPrototypeOf(p); } }
      else if (Object.getPrototypeOf(o) === Object.prototype) for (const e of ['constructor', 'toString', 'valueOf', 'hasOwnProperty', '__proto__', 'isPrototypeOf', 'propertyIsEnumerable', 'toLocaleString', '__defineGetter__', '__defineSetter__', '__lookupGetter__', '__lookupSetter__']) { const n = seqNode(k, e); if (n !== t.F && branch(n, kc === e)) return e; }
    }
    return m;
  }
  if (ctx.hasMarkers && typeof k === 'string' && o !== null && typeof o === 'object' && plain(o) && !own.call(o, k)) {
    for (const e in o) if (isMarker(e) && own.call(o, e)) { const n = seqNode(k, e); if (n === t.F) continue; if (branch(n, k === concStr(e))) return e; }
  }
  return typeof k === 'object' && k !== null ? $.str(k) : k;
}
const NUMP = new Set(['toString', 'toFixed', 'valueOf', 'toLocaleString']);
$.get = (o, k) => {
  if (typeof o === 'string') { const n = norm(o); if (n !== o) o = n; }
  if (o instanceof Sym) {
    if (o instanceof SS) {
      if (k === 'length') { if (hasSeg(o)) o = flat(o); return chOf(o).length; }
      const kk = norm(k);
      if (typeof kk === 'number' || kk instanceof SI || (typeof kk === 'string' && /^\d+$/.test(kk))) { const i = idx(kk); const h = chOf(flat(o)); return i < h.length && i >= 0 ? mkSS([h[i]]) : undefined; }
      return ''[$.conc(k)];
    }
    return (o instanceof SB ? false : 0)[$.conc(k)];
  }
  if (o === null || o === undefined) return o[$.conc(k)]; // throws the native TypeError
  if (k instanceof Sym || (ctx.hasMarkers && typeof k === 'string')) {
    if (typeof o === 'string') return $.get(new SS(chOf(o)), k);
    return o[resolveKey(o, k)];
  }
  if (typeof k === 'object' && k !== null) k = $.str(k);
  return o[k];
};
$.set = (o, k, v) => {
  if (o === null || o === undefined) { o[$.conc(k)] = v; return v; }
  const kk = (k instanceof Sym || ctx.hasMarkers) ? resolveKey(o, k) : k;
  if (isMarker(kk)) ctx.hasMarkers = true;
  if (Array.isArray(o) && kk === 'length') v = $.conc(v, 'length');
  if (o instanceof SU8 && typeof kk !== 'symbol' && kk !== 'length') v = $.band($.num(v), 255);
  if (ArrayBuffer.isView(o) && v instanceof Sym) v = $.conc(v, 'typed-array');
  o[kk] = v; return v;
};
$.del = (o, k) => { const kk = (k instanceof Sym || ctx.hasMarkers) ? resolveKey(o, k) : k; return delete o[kk]; };
$.in = (k, o) => { const kk = (k instanceof Sym || ctx.hasMarkers) ? resolveKey(o, k) : k; return kk in o; };
$.opset = (o, k, op, v) => $.set(o, k, $[op]($.get(o, k), v));
$.opsetf = (o, k, op, fv) => { const old = $.get(o, k); return $.set(o, k, $[op](old, fv())); };
$.preupd = (o, k, op) => $.set(o, k, $[op]($.get(o, k)));
$.postupd = (o, k, op) => { const old = $.num($.get(o, k)); $.set(o, k, $[op](old)); return old; };
const keysOf = (o) => { o = norm(o); if (o instanceof SS) return chOf(flat(o)).map((_, i) => String(i)); return Object.keys(o).map(norm); };
$.forin = (o) => { if (o === null || o === undefined) return []; const r = []; for (const k in o) r.push(norm(k)); return r; };
function copyInto(tgt, src) {
  src = norm(src);
  if (src === null || src === undefined) return tgt;
  if (src instanceof Sym) { if (src instanceof SS) chOf(flat(src)).forEach((c, i) => { tgt[i] = mkSS([c]); }); return tgt; }
  if (!ctx.hasMarkers || typeof src !== 'object') { return Object.assign(tgt, src); }
  for (const k of Object.keys(src)) $.set(tgt, norm(k), src[k]);
  for (const s of Object.getOwnPropertySymbols(src)) tgt[s] = src[s];
  return tgt;
}
$.objl = (parts) => {
  const r = {};
  for (const p of parts) {
    if (p[0] === 's') copyInto(r, p[1]);
    else if (p[0] === 'p') { const kk = resolveKey(r, p[1]); if (isMarker(kk)) ctx.hasMarkers = true; Object.defineProperty(r, kk, { value: p[2], writable: true, enumerable: true, configurable: true }); }
    else { for (const k of Reflect.ownKeys(p[1])) { const d = Object.getOwnPropertyDescriptor(p[1], k); const kk = typeof k === 'string' && ctx.hasMarkers ? resolveKey(r, k) : k; Object.defineProperty(r, kk, d); } }
  }
  return r;
};
// ---------- calls
const HK = new Map(); RT.HK = HK;
const nat = new WeakMap(), bounds = new WeakMap(); // bounds: function made by bind -> what it calls
function isNative(fn) { let r = nat.get(fn); if (r === undefined) { r = Function.prototype.toString.call(fn).includes('[native code]'); nat.set(fn, r); } return r; }
const SAFE = new Set([Array.prototype.push, Array.prototype.unshift, Array.prototype.concat, Array.prototype.forEach, Array.prototype.map, Array.prototype.reduce, Array.prototype.reduceRight, Array.prototype.flatMap, Array.prototype.flat, Array.prototype.fill,
  Array.prototype.pop, Array.prototype.shift, Array.prototype.reverse, Array.prototype.entries, Array.prototype.keys, Array.prototype.values, Promise.resolve, Promise.reject, Promise.all, Promise.race, Promise.allSettled, Promise.prototype.then, Promise.prototype.catch, Promise.prototype.finally,
  Array.isArray, Array.of, Object.freeze, Object.isFrozen, Object.create, Object.getPrototypeOf, Object.setPrototypeOf, Object.getOwnPropertySymbols, Object.getOwnPropertyDescriptor, WeakMap.prototype.get, WeakMap.prototype.set, WeakMap.prototype.has, WeakSet.prototype.add, WeakSet.prototype.has]);
function invoke(fn, self, args) {
  if (typeof fn === 'function') {
    if (typeof args[0] === 'function' && HK.has(args[0]) && (SAFE.has(fn) || HK.has(fn)) && !HK.has(self)) { const cb = args[0]; args = [(...a) => HK.get(cb)(undefined, a), ...args.slice(1)]; }
    const h = HK.get(fn);
    if (h) return h(self, args);
    const bd = bounds.get(fn); if (bd) return invoke(bd[0], bd[1], [...bd[2], ...args]);
    if (fn === Function.prototype.bind) { const r = Reflect.apply(fn, self, args); bounds.set(r, [self, args[0], args.slice(1)]); return r; }
    if (fn === Function.prototype.call) return invoke(self, args[0], args.slice(1));
    if (fn === Function.prototype.apply) return invoke(self, args[0], args[1] ? Array.from(args[1]) : []);
    if (isNative(fn) && !SAFE.has(fn) && !fn.__symok) {
      let hot = self instanceof Sym || isMarker(self);
      if (!hot) for (const a of args) if (a instanceof Sym || isMarker(a)) { hot = true; break; }
      if (hot) { // no model for this built-in: fork on the concrete values
        const why = 'native:' + fn.name; self = $.conc(self, why); args = concDeepShallow(args.slice(), why);
      }
    }
  }
  return Reflect.apply(fn, self, args);
}
class SU8 extends Array { // Uint8Array over possibly symbolic bytes
  static make(src) { const r = new SU8(); if (typeof src === 'number') for (let i = 0; i < src; i++) r.push(0); else for (const v of src) r.push($.band($.num(v), 255)); return r; }
  static get [Symbol.species]() { return Array; }
  set(src, off = 0) { let i = off; for (const v of src) this[i++] = $.band($.num(v), 255); }
  subarray(a, b) { return SU8.make(Array.from(this).slice(a, b)); }
  get byteLength() { return this.length; }
}
RT.SU8 = SU8;
const isStrM = (fn) => strFn.get(fn);
const strFn = new Map();
for (const m of Object.keys(S)) { const fn = String.prototype[m]; if (fn) HK.set(fn, (self, args) => {
  self = norm(self);
  if (!(self instanceof Sym) && typeof self !== 'string') { if (self === null || self === undefined) throw new TypeError('String.prototype.' + m); self = $.str(self); }
  let hot = self instanceof Sym; if (!hot) for (const a of args) if (a instanceof Sym || isMarker(a)) { hot = true; break; }
  if (!hot) { if ((m === 'replace' || m === 'replaceAll') && typeof args[1] === 'function') { const cb = args[1]; return S[m](self, args[0], cb); } return fn.apply(self, args); }
  return S[m](self, ...args);
}); }
HK.set(String.prototype.trimLeft, HK.get(String.prototype.trimStart));
HK.set(String.prototype[Symbol.iterator], (self) => strIter($.str(self))[Symbol.iterator]());
for (const C of [Number, Boolean]) for (const m of ['toString', 'valueOf', 'toFixed', 'toLocaleString']) { const fn = C.prototype[m]; if (!fn) continue; HK.set(fn, (self, args) => {
  if (!(self instanceof Sym)) return fn.apply(self, concDeepShallow(args.slice(), 'num'));
  if (m === 'valueOf') return self;
  if (m === 'toString' && (args.length === 0 || args[0] === undefined || args[0] === 10)) return $.str(self);
  return fn.apply($.conc(self, 'num.' + m), concDeepShallow(args.slice(), 'num'));
}); }
$.call = (o, k, args) => {
  if (typeof o === 'string') { const n = norm(o); if (n !== o) o = n; }
  const fn = $.get(o, k);
  if (typeof fn !== 'function') { if (o instanceof Sym) throw new TypeError(`${String($.conc(k))} is not a function`); return o[$.conc(k)](...args); }
  return invoke(fn, o, args);
};
$.fcall = (fn, args) => { if (typeof fn !== 'function') return fn(...args); return invoke(fn, undefined, args); };
$.new = (C, args) => {
  if (C === Uint8Array) { const a = args[0]; if (a === undefined || typeof a === 'number' || Array.isArray(a)) return SU8.make(a === undefined ? 0 : a); }
  if (C === RegExp || C === Date || C === URL || C === URLSearchParams || C === Uint8Array) args = concDeepShallow(args.slice(), 'new ' + C.name);
  if (C === String) throw new TypeError('boxed string');
  if (C === Error || (typeof C === 'function' && C.prototype instanceof Error && isNative(C))) args = args.map((a) => (a instanceof Sym || isMarker(a)) ? concStr($.str(a)) : a);
  if (C === Array && args.length === 1) args = concDeepShallow(args.slice(), 'new Array');
  return Reflect.construct(C, args);
};
const hk = (fn, h) => HK.set(fn, h);
hk(Uint8Array.from, (s, a) => { const src = norm(a[0]); let l = src instanceof SS || typeof src === 'string' ? $.iter(src) : Array.isArray(src) ? src : Array.from(src); l = Array.from(l); if (a[1]) l = l.map((v, i) => $.fcall(a[1], [v, i])); return SU8.make(l); });
hk(Uint8Array.of, (s, a) => SU8.make(a));
const symAny = (args) => { for (const a of args) if (a instanceof Sym || isMarker(a)) return true; return false; };
hk(String, (s, a) => a.length ? (typeof a[0] === 'symbol' ? String(a[0]) : $.str(a[0])) : '');
hk(Number, (s, a) => a.length ? $.num(a[0]) : 0);
hk(Boolean, (s, a) => a[0] instanceof SS ? true : a[0] instanceof Sym ? wb(truthNode(a[0]), !!a[0].c) : !!a[0]);
hk(Object, (s, a) => Object(a[0]));
hk(isNaN, (s, a) => { const n = $.num(a[0]); return n instanceof Sym ? false : isNaN(n); });
hk(isFinite, (s, a) => { const n = $.num(a[0]); return n instanceof Sym ? true : isFinite(n); });
hk(Number.isNaN, (s, a) => a[0] instanceof Sym ? false : Number.isNaN(a[0]));
hk(Number.isFinite, (s, a) => isSN(a[0]) ? true : Number.isFinite(a[0]));
hk(Number.isInteger, (s, a) => a[0] instanceof SV || (a[0] instanceof SI && a[0].n.s === 'I') ? true : Number.isInteger(a[0] instanceof SI ? $.conc(a[0], 'isInteger') : a[0]));
hk(Number.isSafeInteger, (s, a) => HK.get(Number.isInteger)(s, a));
hk(parseFloat, (s, a) => { const x = norm(a[0]); if (isSN(x)) return x; if (x instanceof SS) { if (x.ch.length === 1 && x.ch[0] instanceof NumSeg) return x.ch[0].v; return parseFloat($.conc(x, 'parseFloat')); } return parseFloat(x); });
hk(Number.parseFloat, HK.get(parseFloat));
hk(parseInt, (s, a) => {
  let x = norm(a[0]); const radix = a[1];
  if (isSN(x)) return x;
  if (x instanceof SS && (radix === undefined || radix === 10 || radix === 0)) {
    if (x.ch.length === 1 && x.ch[0] instanceof NumSeg) return x.ch[0].v;
    x = flat(x); if (typeof x === 'string') return parseInt(x, radix);
    let h = x.ch.slice(); while (h.length && testSet(h[0], WS)) h.shift();
    let sign = 1; if (h.length && testSet(h[0], [[43, 43], [45, 45]])) { if (testSet(h[0], [[45, 45]])) sign = -1; h.shift(); }
    if (radix !== 10 && h.length > 1 && testSet(h[0], [[48, 48]]) && testSet(h[1], [[88, 88], [120, 120]])) return parseInt($.conc(x, 'parseInt'), radix);
    let j = 0; while (j < h.length && j < 15 && testSet(h[j], [[48, 57]])) j++;
    if (!j) return NaN;
    let n = t.I(0), c = 0; for (let i = 0; i < j; i++) { n = t.add(t.mul(n, t.I(10)), t.sub(typeof h[i] === 'number' ? t.I(h[i]) : h[i].n, t.I(48))); c = c * 10 + cc(h[i]) - 48; }
    return sign < 0 ? wi(t.neg(n), c === 0 ? 0 : -c) : wi(n, c);
  }
  return parseInt(...concDeepShallow(a.slice(), 'parseInt'));
});
hk(Number.parseInt, HK.get(parseInt));
const intSeg = (c) => c instanceof NumSeg && c.v instanceof SI && c.v.n.s === 'I'; // digits and minus are the same encoded
const keepInts = (x) => x instanceof SS && x.ch.every((c) => !(c instanceof Seg) || intSeg(c));
hk(encodeURIComponent, (s, a) => { const x = $.str(a[0]); return x instanceof SS ? encodeURIComponentSym(keepInts(x) ? x : flat(x)) : encodeURIComponent(x); });
hk(decodeURIComponent, (s, a) => {
  let x = $.str(a[0]); if (!(keepInts(x) && x.ch.every((c, i) => typeof c !== 'number' || c !== 37 || !(x.ch[i + 1] instanceof Seg || x.ch[i + 2] instanceof Seg)) && x.ch.every((c) => typeof c === 'number' || c instanceof Seg))) x = flat(x); if (typeof x === 'string') return decodeURIComponent(x);
  const h = x.ch, out = [];
  for (let i = 0; i < h.length; i++) {
    const c = h[i];
    if (c instanceof EncSeg) { out.push(...chOf(c.s)); continue; }
    if (c instanceof NumSeg) { out.push(c); continue; }
    if (!testSet(c, [[37, 37]])) { out.push(c); continue; }
    if (i + 2 >= h.length) throw new URIError('URI malformed');
    const HX = [[48, 57], [65, 70], [97, 102]];
    if (!testSet(h[i + 1], HX) || !testSet(h[i + 2], HX)) throw new URIError('URI malformed');
    const dec = (d) => { if (typeof d === 'number') return parseInt(String.fromCharCode(d), 16); if (testSet(d, [[48, 57]])) return wi(t.sub(d.n, t.I(48)), d.c - 48); if (testSet(d, [[65, 70]])) return wi(t.sub(d.n, t.I(55)), d.c - 55); return wi(t.sub(d.n, t.I(87)), d.c - 87); };
    const v = $.add($.mul(dec(h[i + 1]), 16), dec(h[i + 2]));
    if ($.t($.lt(v, 128))) { out.push(v); i += 2; } else return decodeURIComponent($.conc(x, 'decodeURI'));
  }
  return mkSS(out);
});
hk(Math.floor, (s, a) => { const x = $.num(a[0]); if (x instanceof SQ) { const lo = Math.floor(x.sv.lo / x.k), hi = Math.floor(x.sv.hi / x.k); return new SV(t.mk('bvudiv', 'V', [x.sv.n, t.V(x.k)], undefined, lo, hi), Math.floor(x.c), hi <= 0x7fffffff ? 's' : 'u', lo, hi); } return x instanceof SI ? wi(t.floor(x.n), Math.floor(x.c)) : x instanceof SV ? x : Math.floor(x); });
hk(Math.ceil, (s, a) => { const x = $.num(a[0]); return x instanceof SI ? wi(t.neg(t.floor(t.neg(x.n))), Math.ceil(x.c)) : x instanceof SV ? x : Math.ceil(x); });
hk(Math.round, (s, a) => { const x = $.num(a[0]); return x instanceof SI ? (x.n.s === 'I' ? x : wi(t.floor(t.add(x.n, t.R(0.5))), Math.round(x.c))) : x instanceof SV ? x : Math.round(x); });
hk(Math.trunc, (s, a) => { const x = $.num(a[0]); if (!(x instanceof SI)) return x instanceof SV ? x : Math.trunc(x); if (x.n.s === 'I') return x; return $.t($.lt(x, 0)) ? HK.get(Math.ceil)(null, [x]) : HK.get(Math.floor)(null, [x]); });
hk(Math.abs, (s, a) => { const x = $.num(a[0]); return x instanceof SI ? wi(t.ite(t.lt(x.n, t.I(0)), t.neg(x.n), x.n), Math.abs(x.c)) : Math.abs($.conc(x, 'abs')); });
const mm = (isMax) => (s, a) => { if (!a.length) return isMax ? -Infinity : Infinity; let r = $.num(a[0]); for (let i = 1; i < a.length; i++) { const x = $.num(a[i]); if (!isSN(r) && !isSN(x)) { r = isMax ? Math.max(r, x) : Math.min(r, x); continue; }
  if ((typeof r === 'number' && Number.isNaN(r)) || (typeof x === 'number' && Number.isNaN(x))) { r = NaN; continue; }
  const c = isMax ? $.lt(r, x) : $.lt(x, r); if (c === true) r = x; else if (c === false) continue; else if (r instanceof SV || x instanceof SV) r = $.t(c) ? x : r; else r = wi(t.ite(c.n, nd(x), nd(r)), c.c ? conc(x) : conc(r)); } return r; };
hk(Math.max, mm(true)); hk(Math.min, mm(false));
hk(Math.imul, (s, a) => {
  const x = $.num(a[0]), y = $.num(a[1]); if (!isSN(x) && !isSN(y)) return Math.imul(x, y);
  let p = x, q = y; if (p instanceof SI) p = $.conc(p, 'imul'); if (q instanceof SI) q = $.conc(q, 'imul');
  const k = typeof p === 'number' ? p : typeof q === 'number' ? q : null; const v = typeof p === 'number' ? q : p;
  const c = Math.imul(conc(p), conc(q));
  if (k !== null && v instanceof Sym && RT.abstractImul) { const n = t.mk('imulk', 'V', [v.n], k >>> 0, 0, 0xffffffff); RT.imulKs.add(k >>> 0); return new SV(n, c, 's', -0x80000000, 0x7fffffff); }
  return mkSV(t.bv('bvmul', svn(p), svn(q)), c, -0x80000000, 0x7fffffff);
});
RT.imulKs = new Set();
hk(String.fromCharCode, (s, a) => symAny(a) ? mkSS(a.map((x) => x instanceof SI && x.n.lo >= 0 && x.n.hi <= 0xffff || x instanceof SV && x.lo >= 0 && x.hi <= 0xffff ? x : $.conc(x, 'fromCharCode'))) : String.fromCharCode(...a));
// arrays
hk(Array.prototype.includes, (s, a) => { if (s === null || s === undefined) throw new TypeError(); const l = []; let c = false; const nan = typeof a[0] === 'number' && Number.isNaN(a[0]); for (let i = 0; i < s.length; i++) { const x = s[i]; if (nan) { if (typeof x === 'number' && Number.isNaN(x)) return true; continue; } const n = seqNode(x, a[0]); if (n === t.T) return true; l.push(n); c = c || conc(x) === conc(a[0]); } return wb(t.or(l), c); });
hk(Array.prototype.indexOf, (s, a) => { for (let i = a[1] ? idx(a[1]) : 0; i < s.length; i++) if (i in s && $.t($.seq(s[i], a[0]))) return i; return -1; });
hk(Array.prototype.lastIndexOf, (s, a) => { for (let i = s.length - 1; i >= 0; i--) if ($.t($.seq(s[i], a[0]))) return i; return -1; });
hk(Array.prototype.filter, (s, a) => { const r = []; for (let i = 0; i < s.length; i++) if (i in s) { const v = s[i]; if ($.t(a[0].call(a[1], v, i, s))) r.push(v); } return r; });
hk(Array.prototype.find, (s, a) => { for (let i = 0; i < s.length; i++) { const v = s[i]; if ($.t(a[0].call(a[1], v, i, s))) return v; } return undefined; });
hk(Array.prototype.findIndex, (s, a) => { for (let i = 0; i < s.length; i++) if ($.t(a[0].call(a[1], s[i], i, s))) return i; return -1; });
if (Array.prototype.findLast) hk(Array.prototype.findLast, (s, a) => { for (let i = s.length - 1; i >= 0; i--) { const v = s[i]; if ($.t(a[0].call(a[1], v, i, s))) return v; } return undefined; });
if (Array.prototype.findLastIndex) hk(Array.prototype.findLastIndex, (s, a) => { for (let i = s.length - 1; i >= 0; i--) if ($.t(a[0].call(a[1], s[i], i, s))) return i; return -1; });
hk(Array.prototype.some, (s, a) => { for (let i = 0; i < s.length; i++) if (i in s && $.t(a[0].call(a[1], s[i], i, s))) return true; return false; });
hk(Array.prototype.every, (s, a) => { for (let i = 0; i < s.length; i++) if (i in s && !$.t(a[0].call(a[1], s[i], i, s))) return false; return true; });
hk(Array.prototype.join, (s, a) => { const sep = a[0] === undefined ? ',' : $.str(a[0]); let r = ''; for (let i = 0; i < s.length; i++) { if (i) r = concat(r, sep); if (s[i] !== null && s[i] !== undefined) r = concat(r, $.str(s[i])); } return r; });
hk(Array.prototype.toString, (s) => HK.get(Array.prototype.join)(s, []));
hk(Array.prototype.slice, (s, a) => Array.prototype.slice.apply(s, concDeepShallow(a.slice(), 'slice')));
hk(Array.prototype.at, (s, a) => Array.prototype.at.apply(s, concDeepShallow(a.slice(), 'at')));
hk(Array.prototype.splice, (s, a) => { const b = a.slice(); for (let i = 0; i < Math.min(2, b.length); i++) b[i] = $.conc(b[i], 'splice'); return Array.prototype.splice.apply(s, b); });
hk(Array.prototype.sort, (s, a) => {
  const f = a[0]; const less = (x, y) => { // y strictly before x ?
    if (x === undefined) return false; 
    const r = f ? f(x, y) : ($.t($.lt($.str(y), $.str(x))) ? 1 : -1); return $.t($.gt($.num(r), 0)); };
  const def = s.filter((x) => x !== undefined), und = s.length - def.length;
  for (let i = 1; i < def.length; i++) { const v = def[i]; let j = i - 1; while (j >= 0 && less(def[j], v)) { def[j + 1] = def[j]; j--; } def[j + 1] = v; }
  for (let i = 0; i < def.length; i++) s[i] = def[i]; for (let i = 0; i < und; i++) s[def.length + i] = undefined;
  return s;
});
hk(Array.from, (s, a) => { const x = norm(a[0]); const src = x instanceof SS ? strIter(x) : a[0]; if (src && typeof src === 'object' && !src[Symbol.iterator] && src.length instanceof Sym) $.set(src, 'length', $.conc(src.length, 'length')); return a[1] ? Array.from(src, a[1], a[2]) : Array.from(src); });
// objects
hk(Object.keys, (s, a) => { if (a[0] === null || a[0] === undefined) return Object.keys(a[0]); return keysOf(a[0]); });
hk(Object.getOwnPropertyNames, (s, a) => Object.getOwnPropertyNames(a[0]).map(norm));
hk(Object.entries, (s, a) => { const o = norm(a[0]); if (o instanceof SS) return chOf(flat(o)).map((c, i) => [String(i), mkSS([c])]); return Object.entries(o).map(([k, v]) => [norm(k), v]); });
hk(Object.values, (s, a) => { const o = norm(a[0]); if (o instanceof SS) return chOf(flat(o)).map((c) => mkSS([c])); return Object.values(o); });
hk(Object.assign, (s, a) => { for (let i = 1; i < a.length; i++) { const src = a[i]; if (src === null || src === undefined) continue; if (ctx.hasMarkers && !(src instanceof Sym)) for (const k of Object.keys(src)) $.set(a[0], norm(k), src[k]); else copyInto(a[0], src); } return a[0]; });
hk(Object.fromEntries, (s, a) => { const r = {}; for (const [k, v] of a[0]) $.set(r, k, v); return r; });
hk(Object.prototype.hasOwnProperty, (s, a) => { const k = (a[0] instanceof Sym || ctx.hasMarkers) ? resolveKey(s, a[0]) : a[0]; return own.call(s, k); });
if (Object.hasOwn) hk(Object.hasOwn, (s, a) => HK.get(Object.prototype.hasOwnProperty)(a[0], [a[1]]));
hk(Object.defineProperty, (s, a) => { const k = (a[1] instanceof Sym) ? resolveKey(a[0], a[1]) : a[1]; if (isMarker(k)) ctx.hasMarkers = true; return Object.defineProperty(a[0], k, a[2]); });
hk(Object.is, (s, a) => symAny(a) ? $.seq(a[0], a[1]) : Object.is(a[0], a[1]));
if (typeof structuredClone === 'function') hk(structuredClone, (s, a) => deepClone(a[0]));
function deepClone(x) { if (x === null || typeof x !== 'object' || x instanceof Sym) return x; if (Array.isArray(x)) return x.map(deepClone); if (plain(x)) { const r = {}; for (const k of Object.keys(x)) r[k] = deepClone(x[k]); return r; } return structuredClone(x); }
hk(Reflect.ownKeys, (s, a) => Reflect.ownKeys(a[0]).map(norm));
// JSON
function hasSym(x, seen = new Set()) {
  if (x instanceof Sym) return true; if (typeof x === 'string') return isMarker(x);
  if (x === null || typeof x !== 'object') return false; if (seen.has(x)) return false; seen.add(x);
  if (x instanceof RT.SMap || x instanceof RT.SSet) return false;
  for (const k of Object.keys(x)) { if (isMarker(k)) return true; if (hasSym(x[k], seen)) return true; }
  return false;
}
RT.hasSym = hasSym;
function quote(s) {
  if (typeof s === 'string') return JSON.stringify(s);
  const out = [34];
  for (const c of chOf(s)) {
    if (c instanceof NumSeg) { out.push(c); continue; }
    if (c instanceof EncSeg) { out.push(c); continue; }
    if (typeof c === 'number') { out.push(...chOf(JSON.stringify(String.fromCharCode(c))).slice(1, -1)); continue; }
    if (testSet(c, [[0, 31], [34, 34], [92, 92], [0xd800, 0xdfff]])) { out.push(...chOf(JSON.stringify($.conc(mkSS([c]), 'json')).slice(1, -1))); continue; }
    out.push(c);
  }
  out.push(34); return mkSS(out);
}
function jstr(holder, key, v, rep, allow, gap, ind) {
  v = norm(v);
  if (v !== null && typeof v === 'object' && !(v instanceof Sym) && typeof v.toJSON === 'function') v = norm(v.toJSON(key));
  if (rep) v = norm(rep.call(holder, key, v));
  if (v === null) return 'null';
  if (v instanceof SS || typeof v === 'string') return quote(v);
  if (v instanceof SB) return branch(v.n, v.c) ? 'true' : 'false';
  if (isSN(v)) return $.str(v);
  if (typeof v === 'boolean') return String(v);
  if (typeof v === 'number') return Number.isFinite(v) ? String(v) : 'null';
  if (typeof v === 'undefined' || typeof v === 'function' || typeof v === 'symbol') return undefined;
  const nl = gap ? '\n' + ind + gap : '', end = gap ? '\n' + ind : '';
  $.tick(); if (ind.length > 400) throw new TypeError('Converting circular structure to JSON');
  if (Array.isArray(v)) { let r = '['; v.forEach((x, i) => { if (i) r = concat(r, ','); const q = jstr(v, String(i), x, rep, allow, gap, ind + (gap || ' ')); r = concat(concat(r, nl), q === undefined ? 'null' : q); }); return concat(r, (v.length ? end : '') + ']'); }
  let r = '{', first = true;
  const ks = allow || Object.keys(v).map(norm);
  for (const k of ks) { const q = jstr(v, k, $.get(v, k), rep, allow, gap, ind + (gap || ' ')); if (q === undefined) continue; if (!first) r = concat(r, ','); first = false; r = concat(concat(concat(concat(r, nl), quote(k)), gap ? ': ' : ':'), q); }
  return concat(r, (first ? '' : end) + '}');
}
hk(JSON.stringify, (s, a) => {
  if (!hasSym(a[0]) && !ctx.hasMarkers) return JSON.stringify(...a);
  const rep = typeof a[1] === 'function' ? a[1] : null; const allow = Array.isArray(a[1]) ? a[1] : null;
  let gap = ''; if (typeof a[2] === 'number') gap = ' '.repeat(a[2]); else if (typeof a[2] === 'string') gap = a[2];
  return jstr({ '': a[0] }, '', a[0], rep, allow, gap, '');
});
function jparse(ss, reviver) {
  const h = ss.ch; let i = 0;
  const err = () => { throw new SyntaxError('Unexpected token in JSON at position ' + i); };
  const is = (set) => i < h.length && !(h[i] instanceof Seg) && testSet(h[i], set);
  const ws = () => { while (is([[32, 32], [9, 10], [13, 13]])) i++; };
  const lit = (w, v) => { for (const c of w) { if (!is([[c.charCodeAt(0), c.charCodeAt(0)]])) err(); i++; } return v; };
  function str() {
    i++; const out = [];
    for (;;) {
      if (i >= h.length) err();
      const c = h[i];
      if (c instanceof Seg) { out.push(c); i++; continue; }
      if (testSet(c, [[34, 34]])) { i++; return mkSS(out); }
      if (testSet(c, [[0, 31]])) err();
      if (testSet(c, [[92, 92]])) {
        i++; if (i >= h.length) err(); const e = $.conc(h[i], 'json-esc'); i++;
        const m = { 34: 34, 92: 92, 47: 47, 98: 8, 102: 12, 110: 10, 114: 13, 116: 9 };
        if (e === 117) { let x = ''; for (let j = 0; j < 4; j++, i++) { if (i >= h.length) err(); x += String.fromCharCode($.conc(h[i], 'json-esc')); } if (!/^[0-9a-fA-F]{4}$/.test(x)) err(); out.push(parseInt(x, 16)); } else if (m[e] !== undefined) out.push(m[e]); else err();
        continue;
      }
      out.push(c); i++;
    }
  }
  function val() {
    $.tick(); ws(); if (i >= h.length) err();
    const c = h[i];
    if (c instanceof NumSeg) { const n = h[i + 1]; if (n === undefined || (typeof n === 'number' && [44, 93, 125, 32, 10].includes(n))) { i++; return c.v; } const rest = flat(mkSS(h.slice(i))); h.splice(i, h.length - i, ...chOf(rest)); return val(); }
    if (c instanceof EncSeg) { const rest = flat(mkSS(h.slice(i))); h.splice(i, h.length - i, ...chOf(rest)); return val(); }
    if (is([[34, 34]])) return str();
    if (is([[123, 123]])) {
      i++; const o = {}; ws(); if (is([[125, 125]])) { i++; return o; }
      for (;;) { ws(); if (!is([[34, 34]])) err(); const k = str(); ws(); if (!is([[58, 58]])) err(); i++; const v = val(); $.set(o, k, v); ws(); if (is([[44, 44]])) { i++; continue; } if (is([[125, 125]])) { i++; return o; } err(); }
    }
    if (is([[91, 91]])) { i++; const a = []; ws(); if (is([[93, 93]])) { i++; return a; } for (;;) { a.push(val()); ws(); if (is([[44, 44]])) { i++; continue; } if (is([[93, 93]])) { i++; return a; } err(); } }
    if (is([[116, 116]])) return lit('true', true);
    if (is([[102, 102]])) return lit('false', false);
    if (is([[110, 110]])) return lit('null', null);
    if (is([[45, 45], [48, 57]])) {
      const st = i; i++; while (is([[48, 57], [43, 43], [45, 46], [69, 69], [101, 101]])) i++;
      if (i < h.length && h[i] instanceof Seg) err();
      const ds = h.slice(st, i);
      if (ds.some((c) => typeof c !== 'number') && ds.every((c) => typeof c === 'number' || c instanceof SI)) { // an integer of symbolic digits
        const neg = testSet(ds[0], [[45, 45]]); const r = neg ? ds.slice(1) : ds;
        if (r.length > 0 && r.length <= 15 && r.every((c) => testSet(c, [[48, 57]]))) {
          if (r.length > 1 && testSet(r[0], [[48, 48]])) err();
          let v = 0; for (const c of r) v = $.add($.mul(v, 10), typeof c === 'number' ? c - 48 : wi(t.sub(c.n, t.I(48)), c.c - 48));
          if (!neg) return v; return $.t($.seq(v, 0)) ? -0 : $.sub(0, v);
        }
      }
      const text = $.conc(mkSS(ds), 'json-num'); return JSON.parse(text);
    }
    err();
  }
  const r = val(); ws(); if (i < h.length) err(); return r;
}
hk(JSON.parse, (s, a) => {
  const x = norm(a[0]);
  if (x instanceof SS) return jparse(new SS(x.ch.slice()));
  if (isSN(x)) return x; if (x instanceof SB) return x;
  return JSON.parse(x, a[1]);
});
hk(RegExp.prototype.test, (s, a) => { const x = $.str(a[0]); if (typeof x === 'string') return s.test(x); return RT.regex.exec(s, flat(x)) !== null; });
hk(RegExp.prototype.exec, (s, a) => { const x = $.str(a[0]); if (typeof x === 'string') return s.exec(x); return RT.regex.exec(s, flat(x)); });
hk(RegExp.prototype.toString, (s) => RegExp.prototype.toString.call(s));
hk(console.log, () => undefined);
// ---------- Map / Set with symbolic keys
function canon(k) { k = norm(k); return k instanceof SS ? marker(k) : k instanceof Sym ? '\u0000\u00A8' + k.n.id : k; }
class SMap {
  constructor(it) { this._m = new Map(); this._s = 0; if (it) for (const [k, v] of it) this.set(k, v); }
  _find(k) {
    const c = canon(k); if (this._m.has(c)) return c;
    k = norm(k);
    if (k instanceof Sym || this._s) for (const [e, [ok]] of this._m) { if (!(k instanceof Sym) && !(ok instanceof Sym)) continue; const n = seqNode(k, ok); if (n === t.F) continue; if (branch(n, conc(k) === conc(ok))) return e; }
    return undefined;
  }
  has(k) { return this._find(k) !== undefined || (k === undefined && this._m.has(undefined)); }
  get(k) { const e = k === undefined ? undefined : this._find(k); const r = e === undefined && k !== undefined ? undefined : this._m.get(e); return r && r[1]; }
  set(k, v) { let e = k === undefined ? undefined : this._find(k); if (e === undefined && k !== undefined) { e = canon(k); if (norm(k) instanceof Sym) this._s++; this._m.set(e, [norm(k), v]); } else if (this._m.has(e)) this._m.get(e)[1] = v; else this._m.set(e, [k, v]); return this; }
  delete(k) { const e = this._find(k); if (e === undefined && !(k === undefined && this._m.has(undefined))) return false; const r = this._m.get(e); if (r[0] instanceof Sym) this._s--; return this._m.delete(e); }
  clear() { this._m.clear(); this._s = 0; }
  get size() { return this._m.size; }
  *entries() { for (const [, r] of this._m) yield [r[0], r[1]]; }
  *keys() { for (const [, r] of this._m) yield r[0]; }
  *values() { for (const [, r] of this._m) yield r[1]; }
  [Symbol.iterator]() { return this.entries(); }
  forEach(f, th) { for (const [, r] of this._m) f.call(th, r[1], r[0], this); }
  get [Symbol.toStringTag]() { return 'Map'; }
}
class SSet {
  constructor(it) { this._m = new SMap(); if (it) for (const k of $.iter(it)) this.add(k); }
  has(k) { return this._m.has(k); }
  add(k) { if (!this._m.has(k)) this._m.set(k, true); return this; }
  delete(k) { return this._m.delete(k); }
  clear() { this._m.clear(); }
  get size() { return this._m.size; }
  keys() { return this._m.keys(); }
  values() { return this._m.keys(); }
  *entries() { for (const k of this._m.keys()) yield [k, k]; }
  [Symbol.iterator]() { return this._m.keys(); }
  forEach(f, th) { for (const k of this._m.keys()) f.call(th, k, k, this); }
  get [Symbol.toStringTag]() { return 'Set'; }
}
RT.SMap = SMap; RT.SSet = SSet;
RT.chOf = chOf; RT.concat = concat; RT.chEq = chEq; RT.strEqNode = strEqNode; RT.cc = cc; RT.inSet = inSet; RT.known = known;
module.exports = RT;
RT.regex = require('./regex');
