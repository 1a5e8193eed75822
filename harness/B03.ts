// Fetched variants replace or update the stored ones, survive a reload, and a failure changes nothing.
import { localStorage, advance, clock } from './lib/env';
import { client, storeVariants, Http, VARIANTS_KEY } from './lib/browser';
declare const H: any;
const KS = ['a', 'b', 'c'];
const old = (k: string) => ({ key: 'old', value: 'old-' + k });
function server(name: string, i: number) { // a variant as the server sends it, and as it must be read back
  const v = H.id(name + i + '.v', 26); const kind = H.choose(name + i, 3);
  if (kind === 0) return [{ key: v, value: v }, { key: v, value: v }];
  if (kind === 1) return [{ key: v, value: 'on', payload: { p: v }, metadata: { experimentKey: 'e' + v, default: false } }, { key: v, value: 'on', payload: { p: v }, metadata: { experimentKey: 'e' + v, default: false }, expKey: 'e' + v }];
  return [{ key: 'off', metadata: { default: true, d: v } }, { key: 'off', metadata: { default: true, d: v } }];
}
function same(c: any, want: any, label: string) {
  const all = c.all();
  for (const k of KS) H.assert(H.eq(all[k], want[k]), label, { k, all, want });
  H.assert(H.and(true, ...Object.keys(all).map((k) => H.or(...KS.map((x) => H.eq(k, x))))), label + ' (no key from nowhere)', all);
}
async function fetching(nOld: number, nNew: number, opt: string) {
  const prior: any = {}; for (let i = 0; i < nOld; i++) { const k = H.id('old' + i, 3); prior[k] = old('x' + i); }
  storeVariants(prior);
  const http = new Http(); const c = client({}, http);
  same(c, prior, 'stored variants are loaded on startup');
  const body: any = {}, read: any = {}; for (let i = 0; i < nNew; i++) { const k = H.id('new' + i, 3); const [s, r] = server('srv', i); body[k] = s; read[k] = r; }
  let keys: any; if (opt === 'keys1') keys = [H.id('q0', 3)]; if (opt === 'keys2') keys = [H.id('q0', 3), H.id('q1', 3)]; if (opt === 'empty') keys = [];
  const p = c.fetch({ user_id: 'u' }, keys ? { flagKeys: keys } : opt === 'opts' ? {} : undefined); await H.settle(2);
  same(c, prior, 'nothing changes while the request is in flight');
  H.assert(http.of('vardata').length === 1, 'one request per fetch', http.reqs.length);
  http.reqs[0].ok(body); await p;
  const want: any = {};
  if (keys && keys.length) { for (const k of KS) { if (read[k]) want[k] = read[k]; else if (!keys.some((q: any) => q === k)) want[k] = prior[k]; } H.cover('subset'); }
  else { for (const k of KS) want[k] = read[k]; H.cover('replace'); }
  H.observe(c.all());
  same(c, want, keys && keys.length ? 'requested flags are updated or removed, others kept' : 'the response replaces everything');
  H.assert(http.reqs.length === 1, 'no further request'); 
  same(client({}, new Http()), want, 'a reload sees exactly what was fetched');
}
async function failing() {
  const k = H.id('old', 3); const prior: any = { [k]: old('x') }; storeVariants(prior);
  const http = new Http(); const c = client({ retryFetchOnFailure: H.fork('retry'), throwOnError: H.fork('throw') }, http); const raw = localStorage.raw(VARIANTS_KEY);
  const p = c.fetch({ user_id: 'u' }, H.pick('o', [undefined, { flagKeys: ['a'] }, { flagKeys: [] }])).then(() => 'resolved', () => 'rejected'); await H.settle(2);
  const kind = H.choose('kind', 4);
  if (kind === 0) { const st = H.int('status', 100, 599); H.assume(H.ne(st, 200)); http.reqs[0].ok({ a: { key: 'bad' } }, st); }
  else if (kind === 1) http.reqs[0].fail(new Error('network')); else if (kind === 2) http.reqs[0].ok('not json {'); else http.reqs[0].ok('', 200);
  const how = await p; H.observe(how); H.cover('failed');
  H.assert(how === (c.config.throwOnError ? 'rejected' : 'resolved'), 'errors surface only when asked for', how);
  same(c, prior, 'a failed fetch changes no variant'); H.assert(H.eq(localStorage.raw(VARIANTS_KEY), raw), 'a failed fetch changes nothing stored');
}
async function two() { // completed fetches apply in order
  const http = new Http(); const c = client({}, http); let want: any = {};
  for (let i = 0; i < 2; i++) {
    const p = c.fetch({ user_id: 'u' + i }, H.fork('sub' + i) ? { flagKeys: [H.id('q' + i, 3)] } : undefined); await H.settle(2);
    const k = H.id('k' + i, 3); const r = http.reqs[i]; r.ok({ [k]: { key: 'v' + i, value: 'v' + i } }); await p;
    const sub = c.__none, q = r.headers['X-Amp-Exp-Flag-Keys'];
    if (q === undefined) want = {}; else for (const x of KS) if (q === 'b64:["' + x + '"]') delete want[x];
    want[k] = { key: 'v' + i, value: 'v' + i };
  }
  H.observe(c.all()); same(c, want, 'later fetches build on earlier ones'); same(client({}, new Http()), want, 'a reload sees the same');
}
async function clearing() {
  const k = H.id('old', 3); storeVariants({ [k]: old('x') }); const c = client({}, new Http()); c.clear();
  same(c, {}, 'clear removes every variant'); same(client({}, new Http()), {}, 'clear reaches storage'); H.cover('cleared');
  H.assert(H.eq(c.variant(k), {}), 'no variant after clear');
}
async function reload() { // storage formats of earlier versions
  const v = H.id('v', 26); const kind = H.choose('kind', 6);
  const [raw, want]: any = [[v, { key: v, value: v }], [{ value: v }, { key: v, value: v }], [{ value: v, payload: 1 }, { key: v, value: v, payload: 1 }], [{ key: v, value: 'x', expKey: 'e' }, { key: v, value: 'x', expKey: 'e', metadata: { experimentKey: 'e' } }],
    [{ key: v, metadata: { experimentKey: 'm', q: 1 }, expKey: 'e' }, { key: v, metadata: { experimentKey: 'm', q: 1 }, expKey: 'm' }], [{ key: v, value: 'x', metadata: { default: true } }, { key: v, value: 'x', metadata: { default: true } }]][kind];
  storeVariants({ a: raw }); const c = client({}, new Http()); const got = c.all().a; H.observe(got); H.assert(H.eq(got, want), 'stored variants of every format version are read', { raw, got, want });
  const two = client({}, new Http()).all().a; H.assert(H.eq(two, want), 'reading is repeatable', two);
}
async function instances() { // different instance names and deployments do not share variants
  const http = new Http(); const k = H.id('k', 3); const kind = H.choose('kind', 3);
  const c = client({ instanceName: 'one' }, http), d = client({ instanceName: kind === 0 ? 'two' : 'one' }, http, kind === 1 ? 'client-zzzzzz' : kind === 2 ? 'other-abcdef' : 'client-abcdef');
  const p = c.fetch({}); await H.settle(2); http.reqs[0].ok({ [k]: { key: 'v' } }); await p;
  const e = client({ instanceName: kind === 0 ? 'two' : 'one' }, http, kind === 1 ? 'client-zzzzzz' : 'client-abcdef');
  H.assert(H.eq(d.all(), {}), 'a live client is not changed by another one'); if (kind < 2) H.assert(H.eq(e.all(), {}), 'variants are stored per instance and deployment', e.all());
}
export const cells: Record<string, any> = { failing, two, clearing, reload, instances };
for (const o of ['none', 'opts', 'empty', 'keys1', 'keys2']) for (const [a, b] of [[0, 1], [1, 0], [1, 1], [2, 1], [1, 2]]) cells[`${o} ${a}${b}`] = () => fetching(a, b, o);
cells['keys2 22'] = () => fetching(2, 2, 'keys2'); cells['none 22'] = () => fetching(2, 2, 'none');
export const meta = { thoroughOnly: ['keys2 22', 'none 22'], mustCover: ['subset', 'replace', 'failed', 'cleared'], bounds: ['up to 2 stored variants, 2 returned variants (3 shapes each) and 2 requested keys, all keys symbolic; every error status; two consecutive fetches; 6 stored formats'], assumptions: ['the server gives every variant a key', 'the stale answer of a request overtaken by another is outside the claim'] };
