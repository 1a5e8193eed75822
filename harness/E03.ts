// Scalar targeting operators against an independent definition.
import './lib/env';
import { EvaluationEngine } from 'repo:experiment-core/src/index';
declare const H: any;
const engine = () => new EvaluationEngine();
function matches(prop: any, op: string, values: any[]): boolean {
  const seg: any = { conditions: [[{ selector: ['context', 'user', 'p'], op, values }]], variant: 'on' };
  const user: any = {}; if (prop !== MISSING) user.p = prop;
  return engine().evaluate({ user }, [{ key: 'f', variants: { on: { key: 'on' } }, segments: [seg] }]).f !== undefined;
}
const MISSING = { missing: true };
const lc = (s: string) => { let r = ''; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); r += String.fromCharCode(H.ite(H.and(c >= 65, c <= 90), c + 32, c)); } return r; };
const boolish = (l: string) => H.or(H.eq(l, 'true'), H.eq(l, 'false'));
const isRef = (p: string, vs: string[]) => H.or(...vs.map((v) => H.or(H.eq(p, v), H.and(boolish(lc(p)), H.eq(lc(p), lc(v))))));
function sub(h: string, n: string) { // h contains n
  const o: any[] = []; for (let i = 0; i + n.length <= h.length; i++) { const e: any[] = []; for (let j = 0; j < n.length; j++) e.push(h.charCodeAt(i + j) === n.charCodeAt(j)); o.push(H.and(...e, true)); }
  return H.or(...o, false);
}
const containsRef = (p: string, vs: string[]) => H.or(...vs.map((v) => sub(lc(p), lc(v))), false);
function expect(got: any, want: any, label: string, info: any) { H.cover(label); H.observe(got); H.assert(H.iff(got, want), label, info); }
const A = 'abAB1';
function vals(n: number, opt: any) { const r: any[] = []; for (let i = 0; i < n; i++) r.push(H.str('v' + i, opt)); return r; }
const caseWord = (name: string, w: string) => { let s = ''; for (let i = 0; i < w.length; i++) s += String.fromCharCode(H.char(name + i, [[w.toUpperCase().charCodeAt(i), w.toUpperCase().charCodeAt(i)], [w.charCodeAt(i), w.charCodeAt(i)]])); return s; };
const CMP: Record<string, (a: any, b: any) => any> = { less: (a, b) => a < b, 'less or equal': (a, b) => a <= b, greater: (a, b) => a > b, 'greater or equal': (a, b) => a >= b };
// hand-written readings of the patterns used below
const RE: [string, (s: string) => any][] = [
  ['a', (s) => sub(s, 'a')], ['^a', (s) => s.length > 0 && s.charCodeAt(0) === 97], ['b$', (s) => s.length > 0 && s.charCodeAt(s.length - 1) === 98], ['^ab?$', (s) => H.or(H.eq(s, 'a'), H.eq(s, 'ab'))],
  ['a|1', (s) => H.or(sub(s, 'a'), sub(s, '1'))], ['^[0-9]+$', (s) => { if (!s.length) return false; const e: any[] = []; for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); e.push(H.and(c >= 48, c <= 57)); } return H.and(...e); }], ['^$', (s) => s.length === 0], ['.', (s) => s.length > 0], ['A', (s) => sub(s, 'A')],
];
export const cells: Record<string, any> = {};
for (const n of [0, 1, 2]) {
  cells['is-' + n] = () => { const p = H.str('p', { min: 0, max: 2, alpha: A }); const vs = vals(n, { min: 0, max: 2, alpha: A }); expect(matches(p, 'is', vs), p.length >= 0 && n ? isRef(p, vs) : false, 'is', { p, vs }); };
  cells['is-not-' + n] = () => { const p = H.str('p', { min: 0, max: 2, alpha: A }); const vs = vals(n, { min: 0, max: 2, alpha: A }); expect(matches(p, 'is not', vs), n ? H.not(isRef(p, vs)) : true, 'is not', { p, vs }); };
  cells['contains-' + n] = () => { const p = H.str('p', { min: 0, max: 3, alpha: A }); const vs = vals(n, { min: 0, max: 2, alpha: A }); const neg = H.fork('neg'); const w = containsRef(p, vs); expect(matches(p, neg ? 'does not contain' : 'contains', vs), neg ? H.not(w) : w, neg ? 'does not contain' : 'contains', { p, vs }); };
}
cells['is-boolean-case'] = () => {
  const neg = H.fork('neg');
  const kind = H.choose('kind', 4);
  const p: any = kind === 0 ? true : kind === 1 ? false : caseWord('p', kind === 2 ? 'true' : 'false');
  const w = [H.choose('w0', 3), H.choose('w1', 3)];
  const vs = w.map((k, i) => k === 0 ? caseWord('v' + i, 'true') : k === 1 ? caseWord('v' + i, 'false') : H.str('s' + i, { min: 1, max: 1, alpha: A }));
  const ref = isRef(String(p), vs);
  expect(matches(p, neg ? 'is not' : 'is', vs), neg ? H.not(ref) : ref, 'is on booleans', { p, vs });
};
cells['is-number'] = () => { const neg = H.fork('neg'); const p = H.int('p', -50, 200), v = H.int('v', -50, 200), w = H.int('w', -50, 200); const ref = H.or(p === v, p === w); expect(matches(p, neg ? 'is not' : 'is', [String(v), String(w)]), neg ? H.not(ref) : ref, 'is on numbers', { p, v, w }); };
for (const op of Object.keys(CMP)) {
  cells['num ' + op] = () => { const p = H.int('p', -1000, 1000), v = H.int('v', -1000, 1000), w = H.int('w', -1000, 1000); const asText = H.fork('text'); const two = H.fork('two'); const got = matches(asText ? String(p) : p, op, two ? [String(v), String(w)] : [String(v)]); expect(got, two ? H.or(CMP[op](p, v), CMP[op](p, w)) : CMP[op](p, v), 'numeric comparison', { op, p, v, w, two }); };
  cells['num-text ' + op] = () => { // decimal texts, digit by digit: compared as numbers, not as text
    const p = H.str('p', { min: 1, max: 3, alpha: '0-9' }), v = H.str('v', { min: 1, max: 3, alpha: '0-9' });
    const val = (s: string) => { let n = 0; for (let i = 0; i < s.length; i++) n = n * 10 + (s.charCodeAt(i) - 48); return n; };
    expect(matches(p, op, [v]), CMP[op](val(p), val(v)), 'numeric comparison of text', { op, p, v });
  };
  cells['num-frac ' + op] = () => { const p = H.int('p', -20, 20); const [tx, nv] = H.pick('v', [['0.5', 0.5], ['-3.25', -3.25], ['1e1', 10], ['7', 7], ['-0', 0]]); expect(matches(p, op, [tx]), CMP[op](p, nv), 'numeric comparison', { op, p, tx }); };
}
for (let i = 0; i < RE.length; i++) cells['regex ' + i] = () => { const neg = H.fork('neg'); const s = H.str('s', { min: 0, max: 3, alpha: 'abA1' }); const w = RE[i][1](s); if (s.length === 0) { /* an empty property is a value, not null */ } expect(matches(s, neg ? 'regex does not match' : 'regex match', [RE[i][0]]), neg ? H.not(w) : w, 'regex', { s, re: RE[i][0] }); };
cells['regex-two'] = () => { const neg = H.fork('neg'); const i = H.choose('i', RE.length), j = H.choose('j', RE.length); const s = H.str('s', { min: 0, max: 2, alpha: 'abA1' }); const w = H.or(RE[i][1](s), RE[j][1](s)); expect(matches(s, neg ? 'regex does not match' : 'regex match', [RE[i][0], RE[j][0]]), neg ? H.not(w) : w, 'regex', { s }); };
const POS = ['is', 'contains', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal', 'version greater', 'version greater or equal', 'set is', 'set contains', 'set contains any'];
const NEG = ['is not', 'does not contain', 'set does not contain', 'set does not contain any'];
cells['null'] = () => { // an unset property matches '(none)' only
  const prop = H.pick('prop', [null, undefined, MISSING]);
  const op = H.pick('op', [...POS, ...NEG]);
  const other = H.str('o', { min: 0, max: 1, alpha: 'a(' });
  const vs = H.pick('vs', [['(none)'], [other], [other, '(none)'], ['(none)', other], []]);
  const none = vs.some((v: any) => v === '(none)');
  expect(matches(prop, op, vs), NEG.includes(op) ? !none : none, 'unset property', { op, vs });
};
cells['unknown-op'] = () => { const prop = H.pick('prop', ['a', null, 1, ['a']]); H.assert(!matches(prop, H.pick('op', ['bogus', '', 'IS']), ['a', '(none)']), 'an unknown operator never matches'); };
cells['list-any'] = () => { // a list property matches a scalar operator iff some element does
  const n = H.choose('n', 3); const l: any[] = []; for (let i = 0; i < n; i++) l.push(H.str('e' + i, { min: 1, max: 2, alpha: 'abA' }));
  const v = H.str('v', { min: 1, max: 1, alpha: 'abA' });
  const op = H.pick('op', ['is', 'is not', 'contains', 'does not contain']);
  const one = (e: string) => op === 'is' ? H.eq(e, v) : op === 'is not' ? H.not(H.eq(e, v)) : op === 'contains' ? containsRef(e, [v]) : H.not(containsRef(e, [v]));
  const asJson = n > 0 && H.fork('json');
  const prop = asJson ? '[' + l.map((e) => '"' + e + '"').join(',') + ']' : l;
  expect(matches(prop, op, [v]), H.or(...l.map(one), false), 'list property', { op, l, v });
};
cells['object'] = () => { const s = H.str('s', { min: 1, max: 2, alpha: 'ab' }); const v = H.str('v', { min: 1, max: 2, alpha: 'ab' }); expect(matches({ k: s }, 'is', ['{"k":"' + v + '"}']), H.eq(s, v), 'object property', { s, v }); };
export const meta = {
  mustCover: ['is', 'is not', 'contains', 'does not contain', 'is on booleans', 'is on numbers', 'numeric comparison', 'numeric comparison of text', 'regex', 'unset property', 'list property', 'object property'],
  bounds: ['property texts up to 3 characters over {a,b,A,B,1}; up to 2 filter values of up to 2 characters', 'boolean words in every letter case', 'integers -1000..1000; decimal texts up to 3 digits; 5 fractional/exponent constants', '9 regular expressions and pairs of them over every text up to 3 characters'],
  assumptions: ['non-numeric operands of numeric operators, and set-is-not / regex operators on an unset property, are outside the claim'],
};
