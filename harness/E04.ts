// Flag evaluation: conditions are an OR of ANDs, the first matching segment decides,
// metadata merges variant over segment over flag, results chain through dependencies.
import './lib/env';
import { EvaluationEngine } from 'repo:experiment-core/src/index';
declare const H: any;
const engine = () => new EvaluationEngine();
const atom = (i: number, v: string) => ({ selector: ['context', 'user', 'p' + i], op: 'is', values: [v] });
function user(n: number): [any, any[]] { const u: any = {}; const ps: any[] = []; for (let i = 0; i < n; i++) { const p = H.id('p' + i, 2); u['p' + i] = p; ps.push(p); } return [u, ps]; }
function segments(nSeg: number, nOr: number, nAnd: number) {
  const [u, ps] = user(3);
  const segs: any[] = []; let want: any = undefined; let decided: any = false; const wants: any[] = [];
  for (let s = 0; s < nSeg; s++) {
    const kind = H.choose('kind' + s, 3); // 0: no conditions, 1: OR of ANDs, 2: empty OR list
    const seg: any = { variant: 'v' + s, metadata: { segmentName: 's' + s, from: 'segment', seg: s } };
    if (H.fork('nov' + s)) delete seg.variant;
    let m: any = true;
    if (kind > 0) {
      seg.conditions = []; const ors: any[] = [];
      if (kind === 1) for (let o = 0; o < nOr; o++) { const row: any[] = []; const ands: any[] = []; const k = H.choose('and' + s + o, nAnd + 1); for (let a = 0; a < k; a++) { const i = (s + o + a) % 3; const v = a === 0 ? 'a' : 'b'; row.push(atom(i, v)); ands.push(ps[i] === v); } seg.conditions.push(row); ors.push(H.and(...ands, true)); }
      m = H.or(...ors, false);
    }
    segs.push(seg); wants.push([m, seg.variant]);
  }
  const variants: any = {}; for (let s = 0; s < nSeg; s++) { variants['v' + s] = { key: 'v' + s, value: 'V' + s }; if (s === 0) variants.v0.metadata = { from: 'variant', own: true }; }
  const flag = { key: 'f', variants, segments: segs, metadata: { from: 'flag', experimentKey: 'e', deployed: true } };
  const res = engine().evaluate({ user: u }, [flag]);
  for (let s = 0; s < nSeg && !decided; s++) { if (wants[s][1] !== undefined && wants[s][0]) { decided = true; want = s; } }
  H.observe(res);
  if (want === undefined) { H.cover('no-match'); H.assert(!('f' in res), 'a flag with no matching segment is absent', res); return; }
  H.cover('match' + want);
  const meta: any = { experimentKey: 'e', deployed: true, segmentName: 's' + want, seg: want, from: want === 0 ? 'variant' : 'segment' }; if (want === 0) meta.own = true;
  H.assert(H.eq(res, { f: { key: 'v' + want, value: 'V' + want, metadata: meta } }), 'first matching segment decides, with merged metadata', { res, want, meta });
  H.assert(H.eq(flag.metadata, { from: 'flag', experimentKey: 'e', deployed: true }) && (!variants.v0.metadata || H.eq(variants.v0.metadata, { from: 'variant', own: true })), 'evaluation does not change the flag configuration');
}
const dep = (flagKey: string, variantKey: string) => ({ selector: ['result', flagKey, 'key'], op: 'is', values: [variantKey] });
export const cells: Record<string, any> = {
  'seg1': () => segments(1, 2, 2), 'seg2': () => segments(2, 2, 1), 'seg2-or1and2': () => segments(2, 1, 2), 'seg3': () => segments(3, 1, 1),
  'metadata': () => { // key-wise precedence with symbolic values on every level
    const lv: any[] = ['flag', 'segment', 'variant'].map((n) => { const kind = H.choose(n, 3); if (kind === 0) return undefined; const m: any = {}; if (kind === 2) m.k = H.id('k.' + n); m.j = n; return m; });
    const flag: any = { key: 'f', variants: { on: { key: 'on', metadata: lv[2], payload: { x: 1 } } }, segments: [{ variant: 'on', metadata: lv[1] }], metadata: lv[0] };
    const r = engine().evaluate({ user: {} }, [flag]).f; H.observe(r);
    const w: any = {}; for (const m of lv) if (m) for (const k of Object.keys(m)) w[k] = m[k];
    H.assert(H.eq(r, { key: 'on', payload: { x: 1 }, metadata: w }), 'variant over segment over flag metadata', { r, w });
  },
  'isolated': () => { // each flag's result depends on its own definition only
    const [u, ps] = user(2);
    const mk = (key: string, i: number) => ({ key, variants: { on: { key: 'on' }, off: { key: 'off' } }, segments: [{ conditions: [[atom(i, 'a')]], variant: 'on' }, { conditions: [[atom(1 - i, 'b')]], variant: 'off' }] });
    const f = mk('f', 0), g = mk('g', 1);
    const both = engine().evaluate({ user: u }, H.fork('order') ? [f, g] : [g, f]);
    const one = engine().evaluate({ user: u }, [f]), two = engine().evaluate({ user: u }, [g]);
    H.observe(both);
    H.assert(H.and(H.eq(both.f, one.f), H.eq(both.g, two.g)), 'independent flags do not influence each other', { both, one, two });
    H.assert(H.eq(one.f && one.f.key, ps[0] === 'a' ? 'on' : ps[1] === 'b' ? 'off' : undefined), 'flag decided by its own conditions');
  },
  'dependency': () => { // a later flag sees exactly the variant the earlier flag evaluated to
    const [u, ps] = user(2);
    const f: any = { key: 'f', variants: { on: { key: 'on' }, ctl: { key: 'ctl' } }, segments: [{ conditions: [[atom(0, 'a')]], variant: 'on' }, { conditions: [[atom(1, 'a')]], variant: 'ctl' }] };
    const want = H.pick('want', ['on', 'ctl', 'zz']);
    const neg = H.fork('neg');
    const g: any = { key: 'g', dependencies: ['f'], variants: { yes: { key: 'yes' }, no: { key: 'no' } }, segments: [{ conditions: [[neg ? { ...dep('f', want), op: 'is not' } : dep('f', want)]], variant: 'yes' }, { variant: 'no' }] };
    const r = engine().evaluate({ user: u }, [f, g]); H.observe(r);
    const fk = ps[0] === 'a' ? 'on' : ps[1] === 'a' ? 'ctl' : undefined;
    H.assert(H.eq(r.f && r.f.key, fk), 'prerequisite result');
    const sat = fk === want; H.cover(sat ? 'dep-yes' : 'dep-no');
    H.assert(r.g.key === ((neg ? !sat : sat) ? 'yes' : 'no'), 'the dependent flag sees the prerequisite result', { r, want, neg });
  },
  'no-leak-between-calls': () => { // results of one evaluation never feed another
    const e = engine(); const [u] = user(1);
    const f: any = { key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[atom(0, 'a')]], variant: 'on' }] };
    const g: any = { key: 'g', variants: { yes: { key: 'yes' } }, segments: [{ conditions: [[dep('f', 'on')]], variant: 'yes' }] };
    const before = e.evaluate({ user: u }, [f]); const r = e.evaluate({ user: u }, [g]); H.observe([before, r]);
    H.assert(r.g === undefined, 'an evaluation starts with no prior results', r);
  },
  'deep-select': () => { // nested selectors and unset parents
    const v = H.id('v', 2); const kind = H.choose('kind', 5);
    const ctx: any = [{ user: { user_properties: { plan: v } } }, { user: { user_properties: null } }, { user: {} }, {}, { user: { user_properties: 'text' } }][kind];
    const f: any = { key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'user_properties', 'plan'], op: 'is', values: ['a'] }]], variant: 'on' }] };
    const r = engine().evaluate(ctx, [f]); H.observe(r);
    H.assert(H.iff(r.f !== undefined, kind === 0 ? v === 'a' : false), 'a selector through an unset parent reads as unset', { r, kind });
  },
};
export const meta = {
  mustCover: ['no-match', 'match0', 'match1', 'match2', 'dep-yes', 'dep-no'],
  bounds: ['up to 3 segments, each with no conditions, an empty list, or up to 2 alternatives of up to 2 conditions over 3 symbolic properties', 'two-flag dependency chains, metadata on all three levels'],
  assumptions: ['segment variants exist in the flag'],
};
