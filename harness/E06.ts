// Dependency ordering.
import './lib/env';
import { topologicalSort } from 'repo:experiment-core/src/index';
declare const H: any;
function graph(n: number, withMissing: boolean) {
  const keys: string[] = []; for (let i = 0; i < n; i++) keys.push('f' + i);
  const flags: any = {}; const deps: string[][] = [];
  for (let i = 0; i < n; i++) {
    const d: string[] = [];
    for (let j = 0; j < n; j++) if (H.fork('e' + i + j)) d.push(keys[j]);
    if (withMissing && H.fork('m' + i)) d.unshift('missing');
    deps.push(d);
    flags[keys[i]] = { key: keys[i], variants: {}, segments: [], dependencies: d.length === 0 && H.fork('nil' + i) ? undefined : d };
  }
  const sub = H.choose('sub', n + 1); // 0: everything or nothing, k: start from one key (twice)
  const start: string[] | undefined = sub === 0 ? (H.fork('none') ? [] : undefined) : H.fork('dup') ? [keys[sub - 1], keys[sub - 1]] : [keys[sub - 1]];
  // reachability and cycles, by closure
  const idx = (k: string) => keys.indexOf(k);
  const reach: boolean[][] = deps.map(() => keys.map(() => false));
  for (let i = 0; i < n; i++) for (const d of deps[i]) if (idx(d) >= 0) reach[i][idx(d)] = true;
  for (let k = 0; k < n; k++) for (let i = 0; i < n; i++) for (let j = 0; j < n; j++) if (reach[i][k] && reach[k][j]) reach[i][j] = true;
  const roots = start ? start.map(idx) : keys.map((_, i) => i);
  const needed = keys.map((_, i) => roots.some((r) => r === i || reach[r][i]));
  const cyclic = keys.some((_, i) => needed[i] && reach[i][i]);
  let out: any, err = false, deep = false;
  try { out = topologicalSort(flags, start); } catch (e) { err = true; deep = e instanceof RangeError; }
  H.observe([out && out.map((f: any) => f.key), err]);
  if (cyclic) { H.cover('cycle'); H.assert(err && !deep, 'a dependency cycle is refused', { deps }); return; }
  H.cover('acyclic');
  H.assert(!err, 'acyclic flags are never refused', { deps, start });
  const got = out.map((f: any) => f.key);
  H.assert(got.every((k: string, i: number) => got.indexOf(k) === i), 'no flag twice', { got });
  H.assert(keys.every((k, i) => got.includes(k) === needed[i]) && got.length === needed.filter((x) => x).length, 'exactly the requested flags and what they depend on', { got, deps, start });
  for (let i = 0; i < n; i++) for (const d of deps[i]) if (idx(d) >= 0 && needed[i]) H.assert(got.indexOf(d) < got.indexOf(keys[i]), 'dependencies come first', { got, deps });
  H.assert(Object.keys(flags).length === n, 'the given flags are left as they were');
}
export const cells: Record<string, any> = {
  'g1': () => graph(1, true), 'g2': () => graph(2, true), 'g3': () => graph(3, false),
  'g4': () => dag(4), 'g5': () => dag(5), 'g3m': () => graph(3, true),
  'inherited': () => { // a key named like a member of every object names no flag, unless a flag has it
    const name = H.pick('name', ['toString', 'constructor', 'valueOf', 'hasOwnProperty']); const has = H.fork('has'), start = H.choose('start', 4);
    const fl = (key: string, d?: string[]) => ({ key, variants: {}, segments: [], dependencies: d });
    const flags: any = { a: fl('a', H.fork('list') ? [name, 'b'] : ['b', name]), b: fl('b') }; if (has) flags[name] = fl(name, H.fork('chain') ? ['b'] : undefined);
    const out = topologicalSort(flags, [undefined, ['a'], [name], [name, 'a']][start] as any); const got = out.map((f: any) => f.key); H.observe(got);
    const want = [...(has ? [name] : []), ...(start === 2 ? [] : ['a']), ...(start === 2 && !(has && flags[name].dependencies) ? [] : ['b'])];
    H.assert(out.every((f: any) => f === flags[f.key]) && got.length === want.length && want.every((k) => got.includes(k)), 'only flags are returned', { got, want });
    H.assert(!got.includes('a') || (got.indexOf('b') < got.indexOf('a') && (!has || got.indexOf(name) < got.indexOf('a'))), 'dependencies come first', got);
  },
  'unknown-start': () => { const out = topologicalSort({ a: { key: 'a', variants: {}, segments: [] } } as any, ['zz', 'a']); H.observe(out); H.assert(H.eq(out.map((f: any) => f.key), ['a']), 'unknown keys are skipped'); },
  'empty': () => { H.assert(topologicalSort({}).length === 0 && topologicalSort({}, ['x']).length === 0, 'nothing in, nothing out'); },
};
function dag(n: number) { // edges towards lower ranks only, rank order chosen by a rotation, plus one optional back edge
  const rot = H.choose('rot', n); const rank = (i: number) => (i + rot) % n;
  const flags: any = {}; const deps: string[][] = []; const keys: string[] = []; for (let i = 0; i < n; i++) keys.push('f' + i);
  for (let i = 0; i < n; i++) { const d: string[] = []; for (let j = n - 1; j >= 0; j--) if (rank(j) < rank(i) && (j + i) % 2 + (n > 4 ? 0 : 1) > 0 && H.fork('e' + i + j)) d.push(keys[j]); deps.push(d); flags[keys[i]] = { key: keys[i], variants: {}, segments: [], dependencies: d }; }
  const start = H.choose('start', 3) === 0 ? undefined : H.fork('rev') ? [keys[n - 1], keys[0]] : [keys[1]];
  let out: any; try { out = topologicalSort(flags, start); } catch (e) { H.fail('acyclic flags are never refused', { deps, start }); }
  const got = out.map((f: any) => f.key); H.observe(got);
  const need = new Set<string>(); const add = (k: string) => { if (need.has(k)) return; need.add(k); for (const d of deps[keys.indexOf(k)]) add(d); };
  for (const k of start || keys) add(k);
  H.assert(got.length === need.size && got.every((k: string) => need.has(k)), 'exactly the requested flags and what they depend on', { got, deps, start });
  H.assert(got.every((k: string, i: number) => got.indexOf(k) === i), 'no flag twice', { got });
  for (const k of got) for (const d of deps[keys.indexOf(k)]) H.assert(got.indexOf(d) < got.indexOf(k), 'dependencies come first', { got, deps });
}
export const meta = { mustCover: ['cycle', 'acyclic'], thoroughOnly: ['g3m', 'g5'], bounds: ['every dependency graph over up to 3 flags incl. self-loops and missing keys, from every start; missing keys named like members of Object.prototype; every 4-flag acyclic graph under 4 rank orders (5 flags thorough)'], assumptions: ['the map key of a flag is its key', 'dependency lists hold each key once'] };
