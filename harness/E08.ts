// Set operators.
import './lib/env';
import { EvaluationEngine } from 'repo:experiment-core/src/index';
declare const H: any;
function matches(prop: any, op: string, values: any[]): boolean {
  return new EvaluationEngine().evaluate({ user: { p: prop } }, [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'p'], op, values }]], variant: 'on' }] }]).f !== undefined;
}
const inList = (x: any, l: any[]) => H.or(...l.map((y) => H.eq(x, y)), false);
const all = (l: any[], f: (x: any) => any) => H.and(...l.map(f), true);
const some = (l: any[], f: (x: any) => any) => H.or(...l.map(f), false);
const REF: Record<string, (p: any[], f: any[]) => any> = {
  'set is': (p, f) => H.and(all(f, (x) => inList(x, p)), all(p, (x) => inList(x, f))),
  'set contains': (p, f) => all(f, (x) => inList(x, p)),
  'set contains any': (p, f) => some(f, (x) => inList(x, p)),
};
REF['set is not'] = (p, f) => H.not(REF['set is'](p, f)); REF['set does not contain'] = (p, f) => H.not(REF['set contains'](p, f)); REF['set does not contain any'] = (p, f) => H.not(REF['set contains any'](p, f));
const distinct = (l: any[]) => { for (let i = 0; i < l.length; i++) for (let j = 0; j < i; j++) H.assume(H.ne(l[i], l[j])); };
const list = (name: string, n: number, k: number) => { const r: any[] = []; for (let i = 0; i < n; i++) r.push(H.id(name + i, k)); return r; };
function check(np: number, nf: number) {
  const p = list('p', np, 3), f = list('f', nf, 4); distinct(f);
  for (const op of Object.keys(REF)) {
    const form = op === 'set is' ? H.choose('form', 3) : 0; // array, JSON text, array with a duplicate at the end
    const prop: any = form === 1 ? '[' + p.map((x) => `"${x}"`).join(',') + ']' : form === 2 && p.length ? [...p, p[0]] : p;
    const got = matches(prop, op, f); H.observe(got); H.cover(op);
    H.assert(H.iff(got, REF[op](p, f)), op, { p, f, form });
  }
}
export const cells: Record<string, any> = {};
for (let a = 0; a <= 3; a++) for (let b = 0; b <= 3; b++) cells[`p${a}f${b}`] = () => check(a, b);
cells['numbers'] = () => { const p = [H.int('p0', 0, 4), H.int('p1', 0, 4)]; const f = [H.int('f0', 0, 4), H.int('f1', 0, 4)]; distinct(f); const op = H.pick('op', Object.keys(REF)); const got = matches(H.fork('json') ? `[${p[0]},${p[1]}]` : p, op, f.map(String)); H.observe(got); H.assert(H.iff(got, REF[op](p, f)), 'elements are compared by their text', { p, f, op }); };
cells['not-a-list'] = () => { const op = H.pick('op', Object.keys(REF)); const s = H.str('s', { min: 0, max: 2, alpha: 'ab' }); const prop = H.pick('k', [s, 5, true, { a: s }, '[' + s]); H.assert(!matches(prop, op, [s, 'a']), 'a set operator on a non-list never matches', { op, prop }); };
cells['order'] = () => { const p = list('p', 3, 3); const f = list('f', 2, 3); distinct(f); const op = H.pick('op', Object.keys(REF)); const q = [p[H.choose('r', 3)]]; for (const x of p) if (q.length < 3 && !q.includes(x)) q.push(x); const a = matches(p, op, f), b = matches([p[2], p[0], p[1]], op, [f[1], f[0]]); H.observe([a, b]); H.assert(H.iff(a, b), 'order of elements and filter values is irrelevant', { p, f, op }); };
cells['empties'] = () => { const p = list('p', 1, 2); const f = list('f', 1, 2); const op = H.pick('op', Object.keys(REF)); const pad = H.pick('pad', ['', null, undefined]); const got = matches([pad, p[0], pad], op, f); H.observe(got); H.assert(H.iff(got, REF[op](p, f)), 'null and empty elements are ignored', { p, f, op }); };
export const meta = { mustCover: Object.keys(REF), bounds: ['0..3 list elements over 3 values, 0..3 distinct filter values over 4 values', 'array, JSON-text and duplicated-element forms'], assumptions: ['filter values are distinct', 'elements and filters are not boolean words'] };
