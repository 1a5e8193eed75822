// all(): merge of every source, locally evaluated flags first.
import './lib/env';
import { client, storeVariants, storeFlags } from './lib/browser';
declare const H: any;
const KS = ['a', 'b', 'c'];
function mapOf(name: string, n: number) { // up to n entries under symbolic keys
  const m: any = {}; for (let i = 0; i < n; i++) { const k = H.id(name + i, 3); m[k] = { key: name + i, value: name + i }; } return m;
}
function run(src: string, nStored: number, nInit: number, nFlags: number) {
  const stored = mapOf('stored', nStored), init = mapOf('init', nInit); const flags: any = {}; const modes: any = {}; const miss: any = {};
  for (let i = 0; i < nFlags; i++) {
    const k = H.id('flag' + i, 3); const mode = H.pick('mode' + i, ['local', 'remote', undefined]); const hit = H.choose('hit' + i, 3);
    flags[k] = { key: k, variants: { on: { key: 'on', value: 'flag' + i }, off: { key: 'off', metadata: { default: true } } }, segments: hit === 0 ? [] : [{ variant: hit === 1 ? 'on' : 'off' }], metadata: mode ? { evaluationMode: mode } : {} };
    modes[k] = mode === 'local' && hit > 0 ? (hit === 1 ? { key: 'on', value: 'flag' + i, metadata: { evaluationMode: 'local' } } : { key: 'off', metadata: { evaluationMode: 'local', default: true } }) : null;
    miss[k] = mode === 'local' && hit !== 1;
  }
  storeVariants(stored); storeFlags(flags);
  const c = client({ source: src, initialVariants: init });
  const got = c.all(); H.observe(got);
  const first = src === 'localStorage' ? stored : init, second = src === 'localStorage' ? init : stored;
  for (const k of KS) {
    const want = modes[k] ? modes[k] : first[k] ? first[k] : second[k];
    H.assert(H.eq(got[k], want), 'evaluated flags win, then the configured source, then the other source', { k, got, want, src });
    H.cover(modes[k] ? 'evaluated' : first[k] ? 'source' : second[k] ? 'secondary' : 'absent');
  }
  H.assert(H.and(...Object.keys(got).map((k) => H.or(...KS.map((x) => H.eq(k, x))))), 'no key from nowhere', got);
  for (const k of KS) { if (H.fork('tamper' + k)) delete got[k]; else got[k] = { key: 'tampered' }; }
  const again = c.all();
  for (const k of KS) { const want = modes[k] ? modes[k] : first[k] ? first[k] : second[k]; H.assert(H.eq(again[k], want), 'the returned map is a copy', { k, again }); }
  for (const k of KS) { const v = c.variant(k); const want = modes[k] || first[k] || second[k]; if (want && !miss[k]) H.assert(H.eq(v, want), 'all() and variant() agree', { k, v, want }); }
}
export const cells: Record<string, any> = {};
for (const s of ['localStorage', 'initialVariants']) for (const [a, b, f] of [[1, 1, 0], [2, 1, 0], [1, 2, 0], [0, 0, 2], [1, 0, 1], [0, 1, 1], [1, 1, 1]]) cells[`${s} ${a}${b}${f}`] = () => run(s, a, b, f);
for (const s of ['localStorage', 'initialVariants']) cells[`${s} 221`] = () => run(s, 2, 2, 1);
cells['no-key'] = () => { storeVariants({ a: { key: 'on' } }); H.assert(H.eq(client({ initialVariants: { b: { key: 'x' } } }, undefined, '').all(), {}), 'without a deployment key there is nothing'); };
cells['agree-evaluated'] = () => { // a locally evaluated flag is read from the current user, also after it changes
  storeFlags({ a: { key: 'a', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'user_id'], op: 'is', values: ['a'] }]], variant: 'on' }], metadata: { evaluationMode: 'local' } } });
  storeVariants({ a: { key: 'stale' } });
  const c = client(); const u = [H.id('u0', 2), H.id('u1', 2)];
  for (const x of u) { c.setUser({ user_id: x }); const got = c.all(); H.observe(got); H.assert(H.eq(got.a, x === 'a' ? { key: 'on', metadata: { evaluationMode: 'local' } } : { key: 'stale' }), 'evaluated for the current user', { x, got }); }
};
export const meta = { thoroughOnly: ['localStorage 221', 'initialVariants 221'], mustCover: ['evaluated', 'source', 'secondary', 'absent'], bounds: ['up to 2 stored and 2 initial variants and 2 flags under symbolic keys (every collision), each flag local/remote/unset and yielding a variant, its default or nothing; both source modes'], assumptions: [] };
