// Local evaluation sees the user, groups and page; one flag is evaluated as all of them are.
import { location, setGlobal } from './lib/env';
import { client, Http, storeFlags } from './lib/browser';
declare const H: any;
const cond = (sel: string[], v: any, op = 'is') => ({ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', ...sel], op, values: [v] }]], variant: 'on' }], metadata: { evaluationMode: 'local' } });
async function groups() { // the first name of each group type, with its properties
  const u: any = { user_id: 'u' }; const gk = H.choose('groups', 4); let name: any, gp: any; const g: any = {};
  if (gk >= 1) { const n = H.choose('names', 4); const list = n === 0 ? [] : n === 1 ? [H.id('g1', 3)] : n === 2 ? [H.id('g1', 3), 'z'] : ['']; g.org = list; name = n === 1 || n === 2 ? list[0] : undefined; if (gk === 2) g.team = ['t']; u.groups = g; if (gk === 3) u.groups = H.fork('null') ? null : {}, (name = undefined); }
  const pk = H.choose('props', 4); if (pk) { u.group_properties = pk === 1 ? {} : pk === 2 ? { org: { a: { p: 'x' }, b: {} } } : { other: { a: { p: 'x' } }, org: { c: { p: 'y' } } }; gp = name !== undefined ? (pk === 2 && name === 'a' ? 'x' : pk === 3 && name === 'c' ? 'y' : undefined) : undefined; }
  const what = H.choose('what', 3); const probe = what === 0 ? H.id('probe', 4) : what === 1 ? H.id('pp', 25) : 't'; storeFlags({ f: what === 0 ? cond(['groups', 'org', 'group_name'], probe) : what === 1 ? cond(['groups', 'org', 'group_properties', 'p'], probe) : cond(['groups', 'team', 'group_name'], 't') });
  const h = new Http(); const c = client({}, h); const before = JSON.stringify(u); c.setUser(u); const want = what === 0 ? (name === undefined ? false : H.eq(name, probe)) : what === 1 ? (gp === undefined ? false : H.eq(gp, probe)) : gk === 2;
  for (let i = 0; i < 2; i++) { const v = c.variant('f'); H.observe(v); H.assert(H.iff(v.key === 'on', want), 'groups are targetable, again and again', { v, u, what, probe }); } H.assert(JSON.stringify(u) === before, 'the given user is unchanged', u); H.assert(JSON.stringify(c.getUser()) === before, 'the user of the client is unchanged', c.getUser());
  const p = c.fetch(c.getUser()); await H.settle(3); const s = JSON.parse(h.of('vardata')[0].headers['X-Amp-Exp-User'].slice(4)); if (u.groups && gk < 3) H.assert(H.eq(s.groups, u.groups), 'groups are sent', s); h.of('vardata')[0].ok({}); await p; if (want === true || gp !== undefined) H.cover('property'); H.cover('what' + what);
}
function page() { // the current address, and every user field and property
  const k = H.choose('k', 4); const A = 'https://a.b/', v = k ? 'v' + H.id('v', 26) : A + H.str('v', { max: 3, alpha: 'a/?#=' }), w = k ? 'v' + H.id('w', 26) : A + H.str('w', { max: 3, alpha: 'a/?#=' }); const u: any = { user_id: 'u' }; let want: any = H.eq(v, w); let sel: string[];
  if (k === 0) { sel = ['page', 'url']; location.href = v; if (H.fork('moved')) { storeFlags({ f: cond(sel, w) }); const c = client({}, new Http()); c.setUser(u); location.href = w; H.assert(c.variant('f').key === 'on', 'the address at the moment'); location.href = v; H.assert(H.iff(c.variant('f').key === 'on', want), 'the address at the moment'); H.cover('moved'); return; } }
  else if (k === 1) { const F = ['device_id', 'country', 'city', 'language', 'platform', 'version', 'os', 'device_model', 'carrier', 'region', 'dma', 'device_brand', 'device_manufacturer', 'ip_address']; const f = F[H.choose('f', F.length)]; sel = ['user', f]; u[f] = v; }
  else if (k === 2) { sel = ['user', 'user_properties', 'p']; u.user_properties = { p: v }; } else { sel = ['user', 'library']; want = false; }
  storeFlags({ f: cond(sel, w) }); const c = client({}, new Http()); if (!(k === 0 && H.fork('no user'))) c.setUser(u); H.assert(H.iff(c.variant('f').key === 'on', want), 'targetable', { sel, v, w }); H.cover('k' + k);
}
function deps() { // looking up one flag evaluates what it depends on, as listing all does
  const K = ['a', 'b', 'c']; const flags: any = {}; const order = H.choose('order', 2) ? ['c', 'b', 'a'] : K; const dep: any = {}; const edges = [['b', 'a'], ['c', 'b'], ['c', 'a']]; for (const [x, y] of edges) if (H.fork(x + y)) (dep[x] = dep[x] || []).push(y);
  const want: any = {}; for (const k of order) { flags[k] = { key: k, variants: { on: { key: 'on' }, off: { key: 'off' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'user_properties', k], op: 'is', values: ['y'] }, ...(dep[k] || []).map((d: string) => ({ selector: ['result', d, 'key'], op: 'is', values: ['on'] }))]], variant: 'on' }, { variant: 'off' }], ...(dep[k] ? { dependencies: dep[k] } : {}), metadata: { evaluationMode: H.fork('mode' + k) ? 'local' : 'remote' } }; }
  const missing = H.fork('missing'); if (missing) delete flags.a; storeFlags(flags); const up: any = {}; for (const k of K) up[k] = H.pick('up' + k, ['y', 'n']); for (const k of K) if (flags[k]) want[k] = up[k] === 'y' && (dep[k] || []).every((d: string) => want[d]);
  const c = client({ source: 'initialVariants' }, new Http()); c.setUser({ user_id: 'u', user_properties: up }); const all = c.all(); for (const k of K) { if (!flags[k]) continue; const g = c.variant(k).key; H.observe(g); H.assert(g === (want[k] ? 'on' : 'off'), 'dependencies are evaluated first', { k, g, want, dep }); if (flags[k].metadata.evaluationMode === 'local') { H.assert(all[k] && all[k].key === g, 'as in the list of all', { k, all }); } else H.assert(!(k in all), 'remote flags are not listed'); } H.cover(missing ? 'missing' : 'deps');
}
export const cells: Record<string, any> = { groups, page, deps };
export const meta = { mustCover: ['property', 'what0', 'what1', 'what2', 'moved', 'k0', 'k1', 'k2', 'k3', 'missing', 'deps'], bounds: ['groups absent, empty, null, of 1..2 types with 0..2 names over 3 values; 4 forms of group properties; 14 user fields, one user property and the page address with symbolic values; 3 flags with every acyclic dependency among them, a missing one, both evaluation modes'], assumptions: [] };
