// The user sent and evaluated: explicit over integration over provider, field by field; copies stay private.
import './lib/env';
import { client, Http } from './lib/browser';
declare const H: any;
const FIELDS = ['user_id', 'device_id', 'country', 'version'];
function sources(nf: number) { // each level may lack a field, or set it to undefined, null or a value
  const lv: any = {}; for (const n of ['provider', 'integration', 'user']) { const u: any = {}; for (let i = 0; i < nf; i++) { const f = FIELDS[i]; const k = H.choose(n + '.' + f, 4); if (k === 1) u[f] = undefined; if (k === 2) u[f] = null; if (k === 3) u[f] = n + H.id(n + f, 26); } lv[n] = u; }
  return lv;
}
const set = (x: any) => x !== undefined && x !== null;
const pickOf = (lv: any, f: string) => set(lv.user[f]) ? lv.user[f] : set(lv.integration[f]) ? lv.integration[f] : lv.provider[f];
function flagOn(field: string, v: string) { return { key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', field], op: 'is', values: [v] }]], variant: 'on' }], metadata: { evaluationMode: 'local' } }; }
async function merge(nf: number, via: string) {
  const lv = sources(nf); const http = new Http(); const hasI = H.fork('hasI'), hasP = H.fork('hasP'); if (!hasI) lv.integration = {}; if (!hasP) lv.provider = {};
  const c = client({ ...(hasP && via === 'config' ? { userProvider: { getUser: () => lv.provider } } : {}) }, http); if (hasP && via === 'setter') c.setUserProvider({ getUser: () => lv.provider });
  if (hasI) c.addPlugin({ type: 'integration', getUser: () => lv.integration, track: () => true });
  const p = c.fetch({ ...lv.user, user_properties: { x: 'y' }, cookie: { secret: 'z' } }); await H.settle(3);
  const sent = JSON.parse(http.of('vardata')[0].headers['X-Amp-Exp-User'].slice(4)); http.reqs[0].ok({}); await p; H.observe(sent);
  for (let i = 0; i < nf; i++) { const f = FIELDS[i]; const w = pickOf(lv, f); H.assert(set(w) ? H.eq(sent[f], w) : !set(sent[f]), 'explicit over integration over provider, falling back where unset', { f, sent, lv }); H.cover(set(lv.user[f]) ? 'user' : set(lv.integration[f]) ? 'integration' : set(lv.provider[f]) ? 'provider' : 'unset'); }
  H.assert(sent.cookie === undefined, 'cookies are never sent'); H.assert(String(sent.library).startsWith('experiment-js-client/'), 'the library is named', sent.library); H.assert(H.eq(sent.user_properties, { x: 'y' }), 'user properties are sent');
}
async function props() { // user_properties merge key by key with the same precedence
  const lv: any = {}; const KS = ['a', 'b']; for (const n of ['provider', 'integration', 'user']) { const k = H.choose(n, 3); if (k === 0) lv[n] = {}; else if (k === 1) lv[n] = { user_properties: undefined }; else { const up: any = {}; for (const f of KS) if (H.fork(n + f)) up[f] = n + H.id(n + f + 'v', 26); lv[n] = { user_properties: up }; } }
  const http = new Http(); const c = client({ userProvider: { getUser: () => lv.provider } }, http); c.addPlugin({ type: 'integration', getUser: () => lv.integration, track: () => true });
  const p = c.fetch(lv.user); await H.settle(3); const sent = JSON.parse(http.reqs[0].headers['X-Amp-Exp-User'].slice(4)); http.reqs[0].ok({}); await p; H.observe(sent);
  const up = (n: string, f: string) => lv[n].user_properties && lv[n].user_properties[f];
  for (const f of KS) { const w = set(up('user', f)) ? up('user', f) : set(up('integration', f)) ? up('integration', f) : up('provider', f); H.assert(H.eq(sent.user_properties[f], w), 'user properties merge key by key', { f, sent, lv }); H.cover('props'); }
}
async function evaluated() { // local evaluation sees the same merged user
  const lv = sources(1); const probe = H.pick('probe', ['user', 'integration', 'provider']) + H.id('probe.v', 26); const v = H.choose('by', 2);
  const http = new Http(); const c = client({ userProvider: { getUser: () => lv.provider }, initialFlags: JSON.stringify([flagOn('user_id', 'PROBE')]).replace('PROBE', probe) }, http); c.addPlugin({ type: 'integration', getUser: () => lv.integration, track: () => true }); c.setUser(lv.user);
  const w = pickOf(lv, 'user_id'); const got = v ? c.variant('f') : c.all().f; H.observe(got); H.assert(H.iff(got && got.key === 'on', set(w) && w === probe), 'local evaluation uses the merged user', { lv, probe, got });
}
function isolation() { // what the caller does to its objects later never reaches the client, and vice versa
  const c = client({}, new Http()); const first = H.choose('first', 4); const a = H.id('a'), b = H.id('b'), x = H.id('x');
  if (first === 1) c.setUser({ user_id: 'z' }); if (first === 2) c.setUser({ user_id: 'z', user_properties: { q: 1 } }); if (first === 3) c.setUser(null);
  const withProps = H.fork('props'); const mine: any = withProps ? { user_id: a, user_properties: { p: b } } : { user_id: a }; c.setUser(mine);
  const want = withProps ? { user_id: a, user_properties: { p: b } } : { user_id: a };
  H.assert(H.eq(c.getUser(), want), 'the user is returned as set', { got: c.getUser(), want });
  mine.user_id = 'changed' + x; mine.country = 'changed'; if (mine.user_properties) { mine.user_properties.p = 'changed'; mine.user_properties.n = x; }
  H.assert(H.eq(c.getUser(), want), 'later changes to the caller\'s object have no effect', { got: c.getUser(), want });
  const got: any = c.getUser(); got.user_id = 'changed' + x; got.n = 1; if (got.user_properties) { got.user_properties.p = x; got.user_properties.n = 1; }
  H.assert(H.eq(c.getUser(), want), 'changes to a returned copy have no effect', { got: c.getUser(), want }); H.cover('isolated'); H.observe(c.getUser());
}
async function startUser() { // start(user) and fetch(user) set the user; fetch() reuses it
  const http = new Http(); http.auto = (r) => ({ body: r.kind === 'flags' ? [] : {} }); const c = client({ pollOnStart: false }, http); const a = H.id('a'), b = H.id('b'); await c.start({ user_id: 's' + a }); H.assert(H.eq(c.getUser(), { user_id: 's' + a }), 'start sets the user'); const explicit = H.fork('explicit'); await c.fetch(explicit ? { user_id: 'f' + b } : undefined);
  const v = http.of('vardata'); const sent = JSON.parse(v[v.length - 1].headers['X-Amp-Exp-User'].slice(4)); H.observe(sent); H.assert(H.eq(sent.user_id, explicit ? 'f' + b : 's' + a), 'fetch uses the given or the current user', sent); H.assert(H.eq(c.getUser().user_id, explicit ? 'f' + b : 's' + a), 'fetch sets the user');
}
async function inputsUntouched() { const lv = sources(2); const u: any = { ...lv.user, user_properties: { a: H.id('a') }, groups: { org: ['x'] }, group_properties: { org: { x: { k: 'v' } } } }; const copy = JSON.stringify(u), pc = JSON.stringify(lv.provider), ic = JSON.stringify(lv.integration); const http = new Http(); http.auto = () => ({ body: {} }); const c = client({ userProvider: { getUser: () => lv.provider }, initialFlags: JSON.stringify([flagOn('user_id', 'q')]) }, http); c.addPlugin({ type: 'integration', getUser: () => lv.integration, track: () => true }); await c.fetch(u); c.variant('f'); c.all(); c.exposure('f'); H.assert(H.and(H.eq(JSON.stringify(u), copy), H.eq(JSON.stringify(lv.provider), pc), H.eq(JSON.stringify(lv.integration), ic)), 'the given objects are not modified'); H.assert(H.eq(c.getUser().groups, { org: ['x'] }), 'groups stay part of the user'); const s = JSON.parse(http.reqs[0].headers['X-Amp-Exp-User'].slice(4)); H.assert(H.eq([s.groups, s.group_properties], [u.groups, u.group_properties]), 'groups are sent'); }
export const cells: Record<string, any> = { 'config 1': () => merge(1, 'config'), 'setter 1': () => merge(1, 'setter'), 'config 2': () => merge(2, 'config'), props, evaluated, isolation, startUser, inputsUntouched };
export const meta = { mustCover: ['user', 'integration', 'provider', 'unset', 'props', 'isolated'], bounds: ['2 fields, each absent/undefined/null/set on each of 3 levels; 2 user properties present or absent on each level; symbolic texts; previous user absent/null/with or without properties'], assumptions: [] };
