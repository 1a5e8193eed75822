// Variants reach the application with their key, value, payload and metadata, whichever way they come; initial flags fill gaps only.
import { localStorage } from './lib/env';
import { client, Http, storeFlags } from './lib/browser';
declare const H: any;
function json(n: string, depth: number): any { const k = H.choose(n, depth ? 9 : 7); if (k === 0) return undefined; if (k === 1) return null; if (k === 2) return H.bool(n + 'b'); if (k === 3) return H.int(n + 'i', -2, 2); if (k === 4) return H.str(n + 's', { min: 0, max: 1, alpha: 'ab' }); if (k === 5) return []; if (k === 6) return {}; const v = json(n + '.', depth - 1); return k === 7 ? [v === undefined ? null : v] : v === undefined ? {} : { a: v }; }
function shape() { const v: any = { key: 'k' + H.id('key', 26) }; const val = H.choose('value', 3); if (val === 1) v.value = v.key; if (val === 2) v.value = 'w' + H.id('val', 26); const p = json('payload', 1); if (p !== undefined) v.payload = p; const m = H.choose('meta', 4); if (m) v.metadata = m === 1 ? {} : m === 2 ? { experimentKey: 'e' + H.id('exp', 26), x: 1 } : { x: json('mx', 0) }; return v; }
function same(got: any, v: any, tag: string) {
  H.assert(H.eq(got.key, v.key), tag + ': key', { got, v }); H.assert(H.eq(got.value, v.value), tag + ': value', { got, v });
  if (v.payload === undefined || v.payload === null) H.assert(got.payload === undefined || got.payload === null, tag + ': no payload', { got, v }); else { H.assert(got.payload !== undefined && H.eq(got.payload, v.payload), tag + ': payload', { got, v }); H.cover('payload'); }
  const ek = v.metadata && v.metadata.experimentKey; H.assert(ek ? H.eq(got.expKey, ek) : got.expKey === undefined, tag + ': experiment key', { got, v });
}
async function remote() { // fetched, then looked up, listed, and looked up after a reload
  const v = shape(); const h = new Http(); const c = client({}, h); const p = c.fetch({ user_id: 'u' }); await H.settle(3); h.of('vardata')[0].ok({ f: v }); await p; const g = c.variant('f'); H.observe(g); same(g, v, 'fetched'); if (v.metadata) H.assert(H.eq(g.metadata, v.metadata), 'fetched: metadata', { g, v }); same(c.all().f, v, 'listed');
  const r = client({}, new Http()).variant('f'); same(r, v, 'reloaded'); if (v.metadata) H.assert(H.eq(r.metadata, v.metadata), 'reloaded: metadata', { r, v }); H.cover('remote');
}
function local() { // evaluated locally, from stored or initial flags; metadata of flag, segment and variant merged
  const v = shape(); const f = { key: 'f', variants: { [v.key]: v }, segments: [{ variant: v.key }], metadata: { evaluationMode: 'local' } }; const how = H.fork('initial'); if (!how) storeFlags({ f }); const c = client(how ? { initialFlags: JSON.stringify([f]) } : {}, new Http()); const g = c.variant('f'); H.observe(g); same(g, v, 'evaluated'); H.assert(H.eq(g.metadata, { evaluationMode: 'local', ...(v.metadata || {}) }), 'evaluated: metadata', { g, v }); same(c.all().f, v, 'listed'); H.cover('local');
}
function initial() { // bootstrapped; the object given is left alone
  const str = H.fork('string'); const v: any = str ? 'k' + H.id('key', 26) : shape(); if (!str && H.fork('frozen')) { if (v.metadata) Object.freeze(v.metadata); Object.freeze(v); } if (!str && !(v.metadata && v.metadata.experimentKey) && !Object.isFrozen(v) && H.fork('expKey')) v.expKey = 'x' + H.id('xk', 26);
  const iv: any = { f: v }; Object.freeze(iv); const before = JSON.stringify(iv); const c = client({ initialVariants: iv, source: 'initialVariants' }, new Http()); const g = c.variant('f'); H.observe(g); if (!str && (v.metadata || v.expKey)) { H.assert(H.eq(g.metadata, { ...(v.metadata || {}), ...(v.expKey ? { experimentKey: v.expKey } : {}) }), 'initial: metadata', { g, v }); if (v.expKey && v.metadata) H.cover('both'); } if (str) H.assert(H.eq(g, { key: v, value: v }), 'a text is key and value', g); else if (v.expKey) H.assert(H.eq(g.expKey, v.expKey) && H.eq(g.key, v.key), 'experiment key', g); else same(g, v, 'initial'); H.assert(iv.f === v && H.eq(JSON.stringify(iv), before), 'the given object is unchanged', { iv, before }); H.cover('initial');
}
async function flags() { // initial flags fill in for missing ones only, before and after loading flags, also after a reload
  const mk = (key: any, w: string) => ({ key, variants: { [w]: { key: w } }, segments: [{ variant: w }], metadata: { evaluationMode: 'local' } }); const K = ['a', 'b'];
  const has = (n: string) => K.filter((k) => H.fork(n + k)); const st = has('stored'), ini = has('initial'), srv = has('server'); if (st.length) storeFlags(Object.fromEntries(st.map((k) => [k, mk(k, 'stored')])));
  const cfg = { initialFlags: JSON.stringify(ini.map((k) => mk(k, 'initial'))), pollOnStart: false, fetchOnStart: false }; const h = new Http(); const c = client(cfg, h);
  const look = (cl: any, first: string[], w: string, tag: string) => { for (const k of K) { const g = cl.variant(k).key, e = first.includes(k) ? w : ini.includes(k) ? 'initial' : undefined; H.assert(g === e, tag, { k, g, e, st, ini, srv }); } };
  look(c, st, 'stored', 'stored flags win over initial ones'); const p = c.start({ user_id: 'u' }); await H.settle(3); const ok = H.choose('ok', 3); const r = h.of('flags')[0]; if (ok === 0) r.ok(srv.map((k) => mk(k, 'server'))); else if (ok === 1) r.ok('x', 500); else r.fail(new Error('net')); await p;
  look(c, ok === 0 ? srv : st, ok === 0 ? 'server' : 'stored', 'loaded flags win over initial ones'); const c2 = client(cfg, new Http()); look(c2, ok === 0 ? srv : st, ok === 0 ? 'server' : 'stored', 'also after a reload'); H.cover('flags' + ok);
}
export const cells: Record<string, any> = { remote, local, initial, flags };
export const meta = { mustCover: ['payload', 'remote', 'local', 'initial', 'both', 'flags0', 'flags1', 'flags2'], bounds: ['payloads: every JSON value of nesting depth 1 over null, booleans, -2..2, texts up to 1 letter, lists and objects; value equal to the key, different or absent; metadata absent, empty, with experiment key or a value; two flags each stored, initial and on the server or not'], assumptions: ['variants have keys; no payload and a null payload are the same'] };
