// Traces: evaluation with traces returns the same results, and the trace explains them.
import './lib/env';
import { EvaluationEngine } from 'repo:experiment-core/src/index';
declare const H: any;
const engine = () => new EvaluationEngine();
const OPS = ['is', 'is not', 'contains', 'set contains'];
function scenario(nSeg: number, nOr: number, nAnd: number) {
  const u: any = { user_id: 'u' }; for (let i = 0; i < 3; i++) u['p' + i] = H.id('p' + i, 2);
  const segs: any[] = [];
  for (let s = 0; s < nSeg; s++) {
    const seg: any = { variant: 'v' + s, metadata: { segmentName: 's' + s, all: 'segment', sv: 'segment', fs: 'segment' } };
    const shape = H.choose('shape' + s, 4);
    if (shape === 0) delete seg.metadata;
    if (shape === 1) delete seg.variant;
    if (shape === 3) seg.bucket = { selector: ['context', 'user', 'user_id'], salt: 'x', allocations: [{ range: [0, H.int('hi' + s, 0, 100)], distributions: [{ variant: 'w', range: [0, 42949673] }] }] };
    if (H.fork('cond' + s)) { seg.conditions = []; for (let o = 0; o < nOr; o++) { const row: any[] = []; for (let a = 0; a < nAnd; a++) row.push({ selector: ['context', 'user', 'p' + ((s + o + a) % 3)], op: 'is', values: [a ? 'b' : 'a'] }); seg.conditions.push(row); } }
    segs.push(seg);
  }
  const variants: any = { w: { key: 'w' } }; for (let s = 0; s < nSeg; s++) variants['v' + s] = { key: 'v' + s, metadata: { m: s, all: 'variant', sv: 'variant', fv: 'variant' } };
  const flags: any[] = [{ key: 'f', variants, segments: segs, metadata: { fm: 1, all: 'flag', fs: 'flag', fv: 'flag' } }, { key: 'g', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['result', 'f', 'key'], op: 'is', values: ['v0'] }]], variant: 'on' }] }];
  const plain = engine().evaluate({ user: u }, flags);
  const { results, traces } = engine().evaluateWithTraces({ user: u }, flags);
  H.observe([plain, results, traces]);
  H.assert(H.eq(plain, results), 'evaluating with traces gives the same variants', { plain, results });
  H.assert(H.eq(Object.keys(traces).sort(), ['f', 'g']), 'one trace per flag');
  const t = traces.f;
  H.assert(t.flagKey === 'f' && t.matched === ('f' in plain), 'matched says whether the flag got a variant', { t, plain });
  H.assert(t.steps.length === nSeg, 'one step per segment');
  let first = -1;
  for (let s = 0; s < nSeg; s++) {
    const st = t.steps[s], seg = segs[s];
    let pass: any = true;
    if (seg.conditions) { pass = engine().evaluateConditions({ context: { user: u }, result: {} }, seg.conditions); }
    H.assert(st.conditionsPassed === pass, 'the step says whether the conditions passed', { s, st });
    H.assert(st.matched === (st.conditionsPassed && st.bucketVariant !== undefined), 'a step matches iff it passed and assigned a variant', { s, st });
    if (st.matched && first < 0) first = s;
    if (seg.conditions) { const rows = st.conditionResult; let any: any = false; for (const r of rows) { if (r.every((c: any) => c.matched)) any = true; for (const c of r) H.assert(H.eq(c.propValue, u[c.condition.selector[2]]) && H.iff(c.matched, c.propValue === c.condition.values[0]), 'each condition reports its value and outcome', { c }); } H.assert(any === st.conditionsPassed, 'the conditions explain the step'); }
  }
  H.cover(first < 0 ? 'none' : 'first' + first);
  H.assert(first < 0 ? !('f' in plain) : plain.f.key === t.steps[first].bucketVariant, 'the first matching step is the one that decided', { plain, t });
  H.assert(t.matchedSegment === (first < 0 || !segs[first].metadata ? undefined : segs[first].metadata.segmentName), 'the matched segment is the first matching step', { t, first });
}
// also where variants are missing, buckets empty or split, and flags depend on each other in any order
function shapes(n: number) {
  const u: any = { user_id: H.fork('no id') ? undefined : 'u', p: H.id('p', 2) }; const KEYS = ['f', 'g', 'h']; const mk = (i: number): any => { const key = KEYS[i]; const segs: any[] = []; for (let s = 0; s < n; s++) { const kind = H.choose('kind' + i + s, 4); const seg: any = { variant: kind === 0 ? 'missing' : 'a', metadata: { segmentName: 's' + s, m: s } }; if (kind === 1) seg.bucket = { selector: ['context', 'user', 'user_id'], salt: 'x', allocations: [{ range: [H.int('from' + i + s, 0, 100), 100], distributions: [{ variant: 'b', range: [0, H.int('split' + i + s, 0, 42949673)] }, { variant: 'c', range: [0, 42949673] }] }] }; if (kind === 1 && H.fork('rest' + i + s)) delete seg.variant; if (kind === 2) seg.conditions = [[{ selector: ['context', 'user', 'p'], op: OPS[H.choose('op' + i + s, 4)], values: ['a'] }]]; if (kind === 3) { if (i === 0) seg.conditions = []; else seg.conditions = [[{ selector: ['result', KEYS[H.choose('of' + i + s, 3)], 'metadata', 'segmentName'], op: 'is', values: ['s0'] }]]; } segs.push(seg); } return { key, variants: { a: { key: 'a', metadata: { v: 1 } }, b: { key: 'b' }, c: { key: 'c', metadata: { m: 'c' } } }, segments: segs, ...(H.fork('meta' + i) ? { metadata: { m: 'f', f: 1 } } : {}) }; };
  const flags = [mk(0), mk(1)]; const plain = engine().evaluate({ user: u }, flags), traced = engine().evaluateWithTraces({ user: u }, flags); H.observe([plain, traced.results]); H.assert(H.eq(plain, traced.results), 'evaluating with traces gives the same variants', { plain, traced: traced.results }); for (const k of ['f', 'g']) { const t = traced.traces[k]; H.assert(t.matched === k in plain, 'matched says whether the flag got a variant', t); if (k in plain) H.assert(plain[k].metadata!.segmentName === t.matchedSegment, 'the segment which decided', { t, plain }); } H.cover('f' in plain ? 'shapes' : 'no variant');
}
export const cells: Record<string, any> = { 'shapes': () => shapes(1), 'shapes 2': () => shapes(2),  's1': () => scenario(1, 2, 2), 's2': () => scenario(2, 1, 2), 's2or': () => scenario(2, 2, 1), 's3': () => scenario(3, 1, 1) };
export const meta = { mustCover: ['shapes', 'no variant', 'none', 'first0', 'first1', 'first2'], thoroughOnly: ['shapes 2'], bounds: ['up to 3 segments, 2 alternatives, 2 conditions, symbolic properties and allocation ends; a dependent second flag; two flags of 1 (thorough 2) segments: missing variants, split allocations, four operators, no conditions, results of either flag'], assumptions: ['a trace of a segment naming a variant the flag does not have is compared in its results only'] };
