'use strict';
// Hash-consed SMT terms. Sorts: 'B' Bool, 'I' Int, 'R' Real, 'V' BitVec 32.
let table = new Map(); let seq = 0; let vars = [];
const LIM = Number.MAX_SAFE_INTEGER;
class Node { constructor(op, s, a, v, lo, hi) { this.id = seq++; this.op = op; this.s = s; this.a = a; this.v = v; this.lo = lo; this.hi = hi; this.txt = null; this.defd = false; this.dom = null; } }
function mk(op, s, a, v, lo, hi) {
  let key = op + s + '|' + (v === undefined ? '' : typeof v + v) + '|';
  for (let i = 0; i < a.length; i++) key += a[i].id + ',';
  let n = table.get(key);
  if (!n) { n = new Node(op, s, a, v, lo, hi); table.set(key, n); }
  return n;
}
function reset() { table = new Map(); seq = 0; vars = []; mkConsts(); }
let T, F;
function mkConsts() { T = mk('true', 'B', []); F = mk('false', 'B', []); module.exports.T = T; module.exports.F = F; }
const I = (v) => mk('k', 'I', [], v, v, v);
function R(v) { return mk('k', 'R', [], v, v, v); }
const V = (v) => mk('k', 'V', [], v >>> 0, 0, 0xffffffff);
const B = (b) => b ? T : F;
const isK = (n) => n.op === 'k';
function variable(name, s, lo, hi, dom) {
  const id = name + '|' + s + '|' + lo + '|' + hi + '|' + (dom ? JSON.stringify(dom) : '');
  const n = mk('var', s, [], id, lo, hi);
  if (!n.vname) { n.vname = name; n.dom = dom || null; n.txt = 'v' + n.id; vars.push(n); }
  return n;
}
const toR = (n) => n.s === 'R' ? n : isK(n) ? R(n.v) : mk('to_real', 'R', [n], undefined, n.lo, n.hi);
function unify(a, b) { if (a.s === b.s) return [a, b]; return [toR(a), toR(b)]; }
const num = (v) => Number.isSafeInteger(v) ? I(v === 0 ? 0 : v) : R(v);
function add(a, b) {
  [a, b] = unify(a, b);
  if (isK(a) && isK(b)) return a.s === 'I' ? I(a.v + b.v) : R(a.v + b.v);
  if (isK(a)) { const t = a; a = b; b = t; }
  if (isK(b) && b.v === 0) return a;
  if (isK(b) && a.op === '+' && isK(a.a[1])) return add(a.a[0], a.s === 'I' ? I(a.a[1].v + b.v) : R(a.a[1].v + b.v));
  if (!isK(b) && a.op === '+' && isK(a.a[1])) return add(add(a.a[0], b), a.a[1]);
  if (!isK(b) && b.op === '+' && isK(b.a[1])) return add(add(a, b.a[0]), b.a[1]);
  return mk('+', a.s, [a, b], undefined, a.lo + b.lo, a.hi + b.hi);
}
function neg(a) { return mul(a, a.s === 'I' ? I(-1) : R(-1)); }
const sub = (a, b) => { [a, b] = unify(a, b); if (a === b) return a.s === 'I' ? I(0) : R(0); return add(a, neg(b)); };
function mul(a, b) {
  [a, b] = unify(a, b);
  if (isK(a)) { const t = a; a = b; b = t; }
  if (isK(a) && isK(b)) return a.s === 'I' ? I(a.v * b.v) : R(a.v * b.v);
  if (isK(b)) { if (b.v === 0) return b; if (b.v === 1) return a; if (a.op === '*' && isK(a.a[1])) return mul(a.a[0], a.s === 'I' ? I(a.a[1].v * b.v) : R(a.a[1].v * b.v));
    if (a.op === '+' && isK(a.a[1])) return add(mul(a.a[0], b), mul(a.a[1], b)); }
  const c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi];
  return mk('*', a.s, [a, b], undefined, Math.min(...c), Math.max(...c));
}
function rdiv(a, k) { // divide by a non-zero constant, as a Real
  a = toR(a); if (isK(a)) return R(a.v / k);
  const c = [a.lo / k, a.hi / k];
  return mk('/', 'R', [a, R(k)], undefined, Math.min(...c), Math.max(...c));
}
function floor(a) { // Real -> Int
  if (a.s === 'I') return a;
  if (isK(a)) return I(Math.floor(a.v));
  if (a.op === '/' && a.a[0].op === 'to_real' && Number.isSafeInteger(a.a[1].v) && a.a[1].v > 0) return idiv(a.a[0].a[0], a.a[1].v);
  return mk('to_int', 'I', [a], undefined, Math.floor(a.lo), Math.floor(a.hi));
}
function idiv(a, k) { // floor division by a positive constant
  if (isK(a)) return I(Math.floor(a.v / k));
  if (k === 1) return a;
  const lo = Math.floor(a.lo / k), hi = Math.floor(a.hi / k);
  if (lo === hi) return I(lo);
  return mk('div', 'I', [a, I(k)], undefined, lo, hi);
}
function imod(a, k) { // mathematical modulo, k > 0
  if (isK(a)) return I(((a.v % k) + k) % k);
  if (a.lo >= 0 && a.hi < k) return a;
  return mk('mod', 'I', [a, I(k)], undefined, 0, k - 1);
}
function eq(a, b) {
  if (a === b) return T;
  if (a.s === 'B') { if (a === T) return b; if (b === T) return a; if (a === F) return not(b); if (b === F) return not(a); if (a.id > b.id) { const t = a; a = b; b = t; } return mk('=', 'B', [a, b]); }
  if (a.s !== 'V') [a, b] = unify(a, b);
  if (a === b) return T;
  if (isK(a) && isK(b)) return B(a.v === b.v);
  if (a.s !== 'V') {
    if (a.hi < b.lo || b.hi < a.lo) return F;
    if (isK(a)) { const t = a; a = b; b = t; }
    if (isK(b)) {
      if (a.dom && !a.dom.some(([l, h]) => b.v >= l && b.v <= h)) return F;
      if (a.op === '+' && isK(a.a[1]) && a.s === 'I') return eq(a.a[0], I(b.v - a.a[1].v));
      if (a.op === 'ite' && (isK(a.a[1]) || isK(a.a[2]))) { return or([and([a.a[0], eq(a.a[1], b)]), and([not(a.a[0]), eq(a.a[2], b)])]); }
    }
    if (a.op === '+' && b.op === '+' && isK(a.a[1]) && isK(b.a[1]) && a.a[0] === b.a[0]) return B(a.a[1].v === b.a[1].v);
    if (a.op === '+' && isK(a.a[1]) && a.a[0] === b) return B(a.a[1].v === 0);
    if (b.op === '+' && isK(b.a[1]) && b.a[0] === a) return B(b.a[1].v === 0);
  }
  if (!isK(b) && a.id > b.id) { const t = a; a = b; b = t; }
  return mk('=', 'B', [a, b]);
}
function le(a, b) {
  [a, b] = unify(a, b);
  if (a === b) return T;
  if (isK(a) && isK(b)) return B(a.v <= b.v);
  if (a.hi <= b.lo) return T;
  if (a.lo > b.hi) return F;
  if (a.s === 'I') {
    if (a.op === '+' && isK(a.a[1]) && isK(b)) return le(a.a[0], I(b.v - a.a[1].v));
    if (b.op === '+' && isK(b.a[1]) && isK(a)) return le(I(a.v - b.a[1].v), b.a[0]);
    if (a.op === '+' && b.op === '+' && isK(a.a[1]) && isK(b.a[1]) && a.a[0] === b.a[0]) return B(a.a[1].v <= b.a[1].v);
    if (a.op === '+' && isK(a.a[1]) && a.a[0] === b) return B(a.a[1].v <= 0);
    if (b.op === '+' && isK(b.a[1]) && b.a[0] === a) return B(0 <= b.a[1].v);
  }
  return mk('<=', 'B', [a, b]);
}
const lt = (a, b) => { [a, b] = unify(a, b); return not(le(b, a)); };
function not(a) {
  if (a === T) return F; if (a === F) return T;
  if (a.op === 'not') return a.a[0];
  return mk('not', 'B', [a]);
}
function and(l) {
  const out = []; const seen = new Set();
  for (const x of l) { if (x === F) return F; if (x === T || seen.has(x.id)) continue; if (x.op === 'and') { for (const y of x.a) if (!seen.has(y.id)) { seen.add(y.id); out.push(y); } seen.add(x.id); continue; } seen.add(x.id); out.push(x); }
  for (const x of out) if (seen.has(not(x).id)) return F;
  if (!out.length) return T; if (out.length === 1) return out[0];
  return mk('and', 'B', out);
}
function or(l) {
  const out = []; const seen = new Set();
  for (const x of l) { if (x === T) return T; if (x === F || seen.has(x.id)) continue; seen.add(x.id); out.push(x); }
  for (const x of out) if (seen.has(not(x).id)) return T;
  if (!out.length) return F; if (out.length === 1) return out[0];
  return mk('or', 'B', out);
}
function ite(c, a, b) {
  if (c === T) return a; if (c === F) return b; if (a === b) return a;
  if (a.s === 'B') { if (a === T && b === F) return c; if (a === F && b === T) return not(c); return or([and([c, a]), and([not(c), b])]); }
  if (a.s !== 'V') [a, b] = unify(a, b);
  return mk('ite', a.s, [c, a, b], undefined, Math.min(a.lo, b.lo), Math.max(a.hi, b.hi));
}
const BVJ = { bvand: (x, y) => x & y, bvor: (x, y) => x | y, bvxor: (x, y) => x ^ y, bvadd: (x, y) => (x + y), bvsub: (x, y) => x - y, bvmul: (x, y) => Math.imul(x, y), bvshl: (x, y) => x << y, bvlshr: (x, y) => x >>> y, bvashr: (x, y) => (x | 0) >> y };
function bv(op, a, b) {
  if (isK(a) && isK(b)) return V(BVJ[op](a.v, b.v));
  if (['bvand', 'bvor', 'bvxor', 'bvadd', 'bvmul'].includes(op)) {
    if (isK(a) || (!isK(b) && a.id > b.id)) { const t = a; a = b; b = t; }
    if (isK(b)) {
      if (op === 'bvand' && b.v === 0) return b; if (op === 'bvand' && b.v === 0xffffffff) return a;
      if (['bvor', 'bvxor', 'bvadd'].includes(op) && b.v === 0) return a;
      if (op === 'bvmul' && b.v === 1) return a;
    }
  } else if (isK(b) && b.v === 0) return a;
  return mk(op, 'V', [a, b], undefined, 0, 0xffffffff);
}
function bvcmp(op, a, b) { // bvult bvule bvslt bvsle
  if (isK(a) && isK(b)) { const s = op[2] === 's'; const x = s ? a.v | 0 : a.v, y = s ? b.v | 0 : b.v; return B(op.endsWith('t') ? x < y : x <= y); }
  if (a === b) return B(op.endsWith('e'));
  return mk(op, 'B', [a, b]);
}
function ratStr(v) {
  if (v < 0) return '(- ' + ratStr(-v) + ')';
  if (Number.isInteger(v)) return BigInt(v).toString() + '.0';
  let d = 1n; let x = v; let e = 0;
  while (!Number.isInteger(x)) { x *= 2; e++; }
  d = 1n << BigInt(e);
  return '(/ ' + BigInt(x) + '.0 ' + d + '.0)';
}
function txt(n, defs) {
  if (n.txt) return n.txt;
  let r;
  switch (n.op) {
    case 'true': case 'false': r = n.op; break;
    case 'k': r = n.s === 'I' ? (n.v < 0 ? '(- ' + -n.v + ')' : String(n.v)) : n.s === 'R' ? ratStr(n.v) : '#x' + n.v.toString(16).padStart(8, '0'); break;
    default: {
      const op = n.op === 'imulk' ? 'imulk_' + n.v : n.op;
      r = '(' + op + ' ' + n.a.map((x) => txt(x, defs)).join(' ') + ')';
      if (r.length > 160) {
        const name = 'd' + n.id;
        defs.push(`(define-fun ${name} () ${n.s === 'B' ? 'Bool' : n.s === 'I' ? 'Int' : n.s === 'R' ? 'Real' : '(_ BitVec 32)'} ${r})`);
        r = name;
      }
    }
  }
  n.txt = r; return r;
}
// value of a bit-vector term under concrete inputs (undefined when out of reach)
function evalV(n, inp, memo) {
  if (memo.has(n)) return memo.get(n);
  let r;
  if (n.op === 'k') r = n.v >>> 0;
  else if (n.op === 'var') r = n.vname in inp ? inp[n.vname] >>> 0 : undefined;
  else if (n.op === 'imulk') { const x = evalV(n.a[0], inp, memo); r = x === undefined ? x : Math.imul(x, n.v) >>> 0; }
  else if (BVJ[n.op]) { const x = evalV(n.a[0], inp, memo), y = evalV(n.a[1], inp, memo); r = x === undefined || y === undefined ? undefined : BVJ[n.op](x, y) >>> 0; }
  memo.set(n, r); return r;
}
function rebuild(n, map) {
  if (map.has(n)) return map.get(n);
  let r = n;
  if (n.a.length) {
    const a = n.a.map((x) => rebuild(x, map));
    if (a.some((x, i) => x !== n.a[i])) r = n.op === '=' ? eq(a[0], a[1]) : n.op === 'not' ? not(a[0]) : n.op === 'and' ? and(a) : n.op === 'or' ? or(a) : BVJ[n.op] ? bv(n.op, a[0], a[1]) : mk(n.op, n.s, a, n.v, n.lo, n.hi);
  }
  map.set(n, r); return r;
}
module.exports = { evalV, rebuild, reset, I, R, V, B, isK, variable, num, add, sub, neg, mul, rdiv, floor, idiv, imod, eq, le, lt, not, and, or, ite, bv, bvcmp, txt, mk, vars: () => vars };
mkConsts();
