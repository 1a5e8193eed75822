// Bucketing: half-open allocation and distribution ranges over the hash of "salt/value".
import './lib/env';
import { EvaluationEngine } from 'repo:experiment-core/src/index';
declare const H: any;

function refHash(s: string): number { // MurmurHash3_x86_32 of an ASCII string, seed 0
  const b: number[] = []; for (let i = 0; i < s.length; i++) b.push(s.charCodeAt(i));
  const rotl = (x: number, r: number) => (x << r) | (x >>> (32 - r));
  const mixk = (k: number) => Math.imul(rotl(Math.imul(k, 0xcc9e2d51), 15), 0x1b873593);
  let h = 0; const n = b.length >> 2;
  for (let i = 0; i < n; i++) { h ^= mixk(b[4 * i] | (b[4 * i + 1] << 8) | (b[4 * i + 2] << 16) | (b[4 * i + 3] << 24)); h = (Math.imul(rotl(h, 13), 5) + 0xe6546b64) | 0; }
  let k = 0; for (let i = b.length - 1; i >= 4 * n; i--) k = (k << 8) | b[i];
  if (b.length & 3) h ^= mixk(k);
  h ^= b.length; h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
}
const VALUES = ['user', 'u-2', 'abc', 'device-17', 'z'];
const V = { a: { key: 'a', value: 'A' }, b: { key: 'b', value: 'B' }, c: { key: 'c', value: 'C' }, d: { key: 'd', value: 'D' } };
const names = ['a', 'b', 'c', 'd'];
function evaluate(ctx: any, segment: any) {
  return new EvaluationEngine().evaluate(ctx, [{ key: 'f', variants: V as any, segments: [segment] }]).f;
}
function expected(hash: number, allocs: any[], dflt: any) {
  const al = hash % 100, di = Math.floor(hash / 100);
  for (const a of allocs) if (a.range[0] <= al && al < a.range[1]) for (const d of a.distributions) if (d.range[0] <= di && di < d.range[1]) return d.variant;
  return dflt;
}
function ranges(nAlloc: number, nDist: number, dflt: string | undefined) {
  const value = H.pick('value', VALUES);
  const salt = H.pick('salt', ['s', 'salt']);
  let n = 0;
  const allocs: any[] = [];
  for (let i = 0; i < nAlloc; i++) {
    const ds: any[] = [];
    for (let j = 0; j < nDist; j++) ds.push({ variant: names[n++], range: [H.int('d' + i + j + 'lo', 0, 42949673), H.int('d' + i + j + 'hi', 0, 42949673)] });
    allocs.push({ range: [H.int('a' + i + 'lo', 0, 100), H.int('a' + i + 'hi', 0, 100)], distributions: ds });
  }
  const seg: any = { bucket: { selector: ['context', 'user', 'user_id'], salt, allocations: allocs } };
  if (dflt) seg.variant = dflt;
  const got = evaluate({ user: { user_id: value } }, seg);
  const want = expected(refHash(salt + '/' + value), allocs, dflt);
  H.cover(want === undefined ? 'none' : want === dflt ? 'default' : 'bucketed');
  H.observe(got && got.key);
  H.assert((got === undefined ? undefined : got.key) === want, 'the variant of the first matching range, else the default', { got: got && got.key, want, value, salt });
  if (want !== undefined) H.assert(got.value === (V as any)[want].value, 'value of the bucketed variant');
}
export const cells: Record<string, any> = {
  '1x1': () => ranges(1, 1, 'd'), '1x2': () => ranges(1, 2, 'd'), '2x1': () => ranges(2, 1, 'd'), '2x2-nodefault': () => ranges(2, 2, undefined), '1x3-nodefault': () => ranges(1, 3, undefined),
  'no-bucket': () => { const got = evaluate({ user: {} }, { variant: H.pick('v', names) }); H.observe(got); H.assert(got && H.eq(got.key, H.pick('v', names) && got.key), 'ok'); },
  'empty-value': () => { // null, missing and empty values fall back to the default variant whatever the ranges say
    const kind = H.choose('kind', 5);
    const user: any = [{}, { user_id: null }, { user_id: '' }, undefined, { user_id: undefined }][kind];
    const seg: any = { bucket: { selector: ['context', 'user', 'user_id'], salt: 's', allocations: [{ range: [0, 100], distributions: [{ variant: 'a', range: [0, 42949673] }] }] } };
    const d = H.pick('dflt', [undefined, 'b', 'c']); if (d) seg.variant = d;
    const got = evaluate({ user }, seg);
    H.observe(got); H.assert((got === undefined ? undefined : got.key) === d, 'a value that cannot be bucketed gets the default variant', { got, d });
  },
  'numeric-value': () => { // a numeric or boolean bucketing value is bucketed by its text
    const v: any = H.pick('v', [17, true, false, -3, 0]);
    const lo = H.int('lo', 0, 100), hi = H.int('hi', 0, 100);
    const seg: any = { bucket: { selector: ['context', 'user', 'user_id'], salt: 's', allocations: [{ range: [lo, hi], distributions: [{ variant: 'a', range: [0, 42949673] }] }] }, variant: 'b' };
    const got = evaluate({ user: { user_id: v } }, seg);
    H.observe(got); H.assert(got.key === expected(refHash('s/' + v), seg.bucket.allocations, 'b'), 'bucketed by the text of the value', { got, v });
  },
  'full-rollout': () => { // [0,100) x [0,42949673) buckets every value: symbolic value
    const v = H.str('v', { min: 1, max: 3, alpha: [[0, 0x7f]], word: true });
    const seg: any = { bucket: { selector: ['context', 'user', 'user_id'], salt: 's', allocations: [{ range: [0, 100], distributions: [{ variant: 'a', range: [0, 42949673] }] }] }, variant: 'b' };
    const got = evaluate({ user: { user_id: v } }, seg);
    H.observe(got); H.assert(got.key === 'a', 'full ranges bucket everyone', { got });
  },
  'sticky': () => { // the same user always gets the same variant, independent of anything else in the context
    const value = H.pick('value', VALUES);
    const noise = H.str('noise', { min: 0, max: 2 });
    const lo = H.int('lo', 0, 100), hi = H.int('hi', 0, 100), m = H.int('m', 0, 42949673);
    const seg: any = { bucket: { selector: ['context', 'user', 'user_id'], salt: 's', allocations: [{ range: [lo, hi], distributions: [{ variant: 'a', range: [0, m] }, { variant: 'b', range: [m, 42949673] }] }] }, variant: 'c' };
    const one = evaluate({ user: { user_id: value } }, seg), two = evaluate({ user: { user_id: value, device_id: noise, user_properties: { p: noise } }, groups: { g: noise } }, seg);
    H.observe([one, two]); H.assert(one.key === two.key, 'bucketing depends only on salt and value');
  },
};
cells['no-bucket'] = () => { const v = H.pick('v', [undefined, ...names]); const seg: any = {}; if (v) seg.variant = v; const got = evaluate({ user: { user_id: 'x' } }, seg); H.observe(got); H.assert((got === undefined ? undefined : got.key) === v, 'a segment without a bucket yields its variant'); };
export const meta = {
  opts: { abstractImul: true },
  mustCover: ['none', 'default', 'bucketed'],
  bounds: ['every allocation endpoint 0..100 and distribution endpoint 0..42949673, up to 2 allocations x 2 distributions or 1 x 3', '5 concrete bucketing values and 2 salts for the range cells; every ASCII value of 1..3 characters for the full-rollout cell'],
  assumptions: ['the hash itself is checked by E01'],
};
