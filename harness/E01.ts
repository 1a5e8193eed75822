// The evaluation hash equals MurmurHash3_x86_32 over the UTF-8 bytes.
import './lib/env';
import { hash32x86 } from 'repo:experiment-core/src/evaluation/murmur3';
declare const H: any;

// Reference: Appleby's MurmurHash3_x86_32, transliterated, over explicit bytes.
function ref(bytes: number[], seed: number): number {
  const c1 = 0xcc9e2d51, c2 = 0x1b873593;
  const rotl = (x: number, r: number) => (x << r) | (x >>> (32 - r));
  let h1 = seed;
  const n = bytes.length >> 2;
  for (let i = 0; i < n; i++) {
    let k1 = bytes[4 * i] | (bytes[4 * i + 1] << 8) | (bytes[4 * i + 2] << 16) | (bytes[4 * i + 3] << 24);
    k1 = Math.imul(k1, c1); k1 = rotl(k1, 15); k1 = Math.imul(k1, c2);
    h1 ^= k1; h1 = rotl(h1, 13); h1 = (Math.imul(h1, 5) + 0xe6546b64) | 0;
  }
  let k1 = 0;
  const r = bytes.length & 3;
  if (r >= 3) k1 ^= bytes[4 * n + 2] << 16;
  if (r >= 2) k1 ^= bytes[4 * n + 1] << 8;
  if (r >= 1) { k1 ^= bytes[4 * n]; k1 = Math.imul(k1, c1); k1 = rotl(k1, 15); k1 = Math.imul(k1, c2); h1 ^= k1; }
  h1 ^= bytes.length;
  h1 ^= h1 >>> 16; h1 = Math.imul(h1, 0x85ebca6b); h1 ^= h1 >>> 13; h1 = Math.imul(h1, 0xc2b2ae35); h1 ^= h1 >>> 16;
  return h1 >>> 0;
}
// UTF-8, from the definition, one scalar value at a time
function utf8(cps: number[]): number[] {
  const out: number[] = [];
  for (const c of cps) {
    if (c < 0x80) out.push(c);
    else if (c < 0x800) out.push(0xc0 | (c >> 6), 0x80 | (c & 63));
    else if (c < 0x10000) out.push(0xe0 | (c >> 12), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63));
    else out.push(0xf0 | (c >> 18), 0x80 | ((c >> 12) & 63), 0x80 | ((c >> 6) & 63), 0x80 | (c & 63));
  }
  return out;
}
const ASCII = [[0, 0x7f]], TWO = [[0x80, 0x7ff]], THREE = [[0x800, 0xd7ff], [0xe000, 0xffff]];
function scalar(name: string, cls: number): [any, any[]] { // [code point, utf-16 units]
  if (cls < 3) { const c = H.char(name, [ASCII, TWO, THREE][cls], true); return [c, [c]]; }
  const hi = H.char(name + '.hi', [[0xd800, 0xdbff]], true), lo = H.char(name + '.lo', [[0xdc00, 0xdfff]], true);
  return [(((hi - 0xd800) << 10) | (lo - 0xdc00)) + 0x10000, [hi, lo]];
}
function check(classes: number[]) {
  const cps: any[] = []; const units: any[] = [];
  classes.forEach((k, i) => { const [cp, us] = scalar('c' + i, k); cps.push(cp); units.push(...us); });
  const s = String.fromCharCode(...units);
  const got = hash32x86(s);
  const want = ref(utf8(cps), 0);
  H.cover('hashed');
  H.assert(got === want, 'hash equals MurmurHash3_x86_32 of the UTF-8 bytes');
  H.observe(got);
}
export const cells: Record<string, any> = {};
for (let n = 0; n <= 12; n++) cells['ascii' + n] = () => check(Array(n).fill(0));
for (let n = 13; n <= 24; n++) cells['ascii' + n] = () => check(Array(n).fill(0));
// every sequence of UTF-8 classes up to three characters
for (let n = 1; n <= 3; n++) cells['mixed' + n] = () => { const cl: number[] = []; for (let i = 0; i < n; i++) cl.push(H.choose('class', 4)); check(cl); };
cells['mixed4'] = () => { const cl: number[] = []; for (let i = 0; i < 4; i++) cl.push(H.choose('class', 4)); check(cl); };
cells['word-range'] = () => { // the result is always a non-negative 32-bit integer
  const s = H.str('s', { min: 0, max: 5, alpha: [[0, 0xffff]], word: true });
  const h = hash32x86(s);
  H.assert(h >= 0 && h <= 0xffffffff, 'hash is an unsigned 32-bit integer');
  H.observe(h);
};
export const meta = {
  opts: { abstractImul: true, logic: null },
  thoroughOnly: ['mixed4', 'ascii13', 'ascii14', 'ascii15', 'ascii16', 'ascii17', 'ascii18', 'ascii19', 'ascii20', 'ascii21', 'ascii22', 'ascii23', 'ascii24'],
  mustCover: ['hashed'],
  bounds: ['strings of up to 12 ASCII characters (24 thorough)', 'every mix of 1-, 2-, 3- and 4-byte characters up to 3 characters (4 thorough)', 'seed 0'],
  assumptions: ['Math.imul(x, c) by a constant is an uninterpreted function of x, the same on both sides', 'no lone surrogates in the equivalence cells'],
};
