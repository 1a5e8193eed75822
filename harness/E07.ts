// Version operators order by semantic version.
import './lib/env';
import { EvaluationEngine } from 'repo:experiment-core/src/index';
declare const H: any;
function op(p: string, o: string, v: any): boolean {
  const vs = Array.isArray(v) ? v : [v];
  return new EvaluationEngine().evaluate({ user: { version: p } }, [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'version'], op: o, values: vs }]], variant: 'on' }] }]).f !== undefined;
}
const OPS: Record<string, (c: any) => any> = { 'version less': (c) => c < 0, 'version less or equal': (c) => c <= 0, 'version greater': (c) => c > 0, 'version greater or equal': (c) => c >= 0 };
const CMPT: Record<string, (a: any, b: any) => any> = { 'version less': (a, b) => a < b, 'version less or equal': (a, b) => a <= b, 'version greater': (a, b) => a > b, 'version greater or equal': (a, b) => a >= b };
const names = Object.keys(OPS);
const sgn = (a: any, b: any) => H.ite(a < b, -1, H.ite(a > b, 1, 0));
const first = (...l: any[]) => { let r: any = 0; for (let i = l.length - 1; i >= 0; i--) r = H.ite(H.eq(l[i], 0), r, l[i]); return r; };
const text = (v: any[], parts: number) => parts === 2 ? `${v[0]}.${v[1]}` : `${v[0]}.${v[1]}.${v[2]}`;
const triple = (n: string, hi: number) => [H.int(n + '.major', 0, hi), H.int(n + '.minor', 0, hi), H.int(n + '.patch', 0, hi)];
const cmp3 = (a: any[], b: any[]) => first(sgn(a[0], b[0]), sgn(a[1], b[1]), sgn(a[2], b[2]));
export const cells: Record<string, any> = {};
for (const o of names) {
  cells['triple ' + o] = () => { const a = triple('a', 120), b = triple('b', 120); const pa = H.choose('pa', 2) + 2, pb = H.choose('pb', 2) + 2; if (pa === 2) a[2] = 0; if (pb === 2) b[2] = 0; const got = op(text(a, pa), o, text(b, pb)); H.observe(got); H.assert(H.iff(got, OPS[o](cmp3(a, b))), 'ordered by numeric major, minor, patch', { a: text(a, pa), b: text(b, pb), o }); };
  cells['pre ' + o] = () => { // a pre-release precedes its release, pre-releases order by text
    const a = triple('a', 3), b = triple('b', 3);
    const qa = H.fork('prea') ? H.str('qa', { min: 1, max: 2, alpha: 'aBb1_' }) : '', qb = H.fork('preb') ? H.str('qb', { min: 1, max: 2, alpha: 'aBb1_' }) : '';
    const pc = qa && !qb ? -1 : !qa && qb ? 1 : H.ite(qa < qb, -1, H.ite(qa > qb, 1, 0));
    const got = op(text(a, 3) + (qa ? '-' + qa : ''), o, text(b, 3) + (qb ? '-' + qb : '')); H.observe(got);
    H.cover(qa ? (qb ? 'both' : 'left') : qb ? 'right' : 'neither');
    H.assert(H.iff(got, OPS[o](first(cmp3(a, b), pc))), 'pre-release precedence', { a, b, qa, qb, o });
  };
  cells['any ' + o] = () => { const a = triple('a', 9), b = triple('b', 9), c = triple('c', 9); const got = op(text(a, 3), o, [text(b, 3), text(c, 3)]); H.observe(got); H.assert(H.iff(got, H.or(OPS[o](cmp3(a, b)), OPS[o](cmp3(a, c)))), 'several filter values: any of them', { a, b, c, o }); };
}
cells['order-laws'] = () => { // total order: exactly one of <, =, > and transitivity, over arbitrary digit texts
  const v = (n: string) => H.str(n + 'M', { min: 1, max: 2, alpha: '0-9' }) + '.' + H.str(n + 'm', { min: 1, max: 2, alpha: '0-9' });
  const a = v('a'), b = v('b');
  const lt = op(a, 'version less', b), gt = op(a, 'version greater', b), le = op(a, 'version less or equal', b), ge = op(a, 'version greater or equal', b);
  H.observe([lt, gt, le, ge]);
  H.assert(H.not(H.and(lt, gt)), 'never both less and greater', { a, b });
  H.assert(H.and(H.iff(le, H.not(gt)), H.iff(ge, H.not(lt))), 'or-equal is the complement of the opposite', { a, b });
  H.assert(H.iff(lt, op(b, 'version greater', a)), 'less and greater are converse', { a, b });
};
cells['leading-zeros'] = () => { const n = H.int('n', 0, 99), m = H.int('m', 0, 99); const o = H.pick('o', names); const got = op(`0${n}.1.0`, o, `${m}.01`); H.observe(got); H.assert(H.iff(got, OPS[o](sgn(n, m))), 'numbers, not text', { n, m, o }); };
cells['malformed'] = () => { // a text that is not a version is never read as one
  const bad = (n: string) => { const w = H.str(n, { min: 1, max: 2, alpha: '0-9' }); return H.pick(n + '.form', [w, w + '.', '.' + w, w + '.1.', w + '.1.1.1', w + '.1.x', 'v' + w + '.1', w + '.1-a', w + '.1.1 ', w + '.-1', w + '.1.1+b']); };
  const o = H.pick('o', names); const T = CMPT[o];
  if (H.fork('badprop')) { const p = bad('p'), f = `${H.int('f', 0, 99)}.1.0`; const got = op(p, o, f); H.observe(got); H.cover('malformed property'); H.assert(H.iff(got, T(p, f)), 'a malformed property is compared as text', { p, f, o }); }
  else { const a = triple('a', 19), b = triple('b', 19), x = bad('x'); const both = H.fork('both'); const got = op(text(a, 3), o, both ? [x, text(b, 3)] : [x]); H.observe(got); H.cover(both ? 'malformed alternative' : 'malformed filter');
    H.assert(H.iff(got, both ? OPS[o](cmp3(a, b)) : T(text(a, 3), x)), both ? 'a malformed alternative is ignored beside a version' : 'a malformed filter value is compared as text', { a, b, x, o }); }
};
export const meta = { mustCover: ['both', 'left', 'right', 'neither', 'malformed property', 'malformed alternative', 'malformed filter'], bounds: ['major/minor/patch 0..120, two- and three-part versions', 'pre-release texts of 1..2 of the characters aBb1_', 'two filter values', '11 malformed shapes around every one- or two-digit number', 'trichotomy over all digit texts of up to 2 digits per part'], assumptions: [] };
