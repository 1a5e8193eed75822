// Who the visitor is: kept over visits and subdomains, migrated from older formats, shared with targeting.
import './lib/env';
import { KEY, flag, mut, pageObject, configs, integration, clock, advance, setGlobal, window, log, localStorage, sessionStorage, cookies, go } from './lib/tag';
import { campaign } from '@amplitude/analytics-core';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
import { resolveCrossSubdomainObject } from 'repo:experiment-tag/src/util/cookie';
declare const H: any;
const USER = 'EXP_client-abc', SEEN = 'EXP_client-abc_DEFAULT_USER_PROVIDER', COOKIE = 'EXP_client-abc_identity';
const local = (k: string) => { const r = localStorage.raw(k); return r === null ? null : JSON.parse(r); };
const cookie = () => { const c = cookies.jar.filter((x: any) => x.name === COOKIE); return c.length ? JSON.parse(JSON.parse(decodeURIComponent(c[c.length - 1].value))) : null; };
const put = (v: any) => cookies.jar.push({ name: COOKIE, value: encodeURIComponent(JSON.stringify(JSON.stringify(v))), domain: 'example.com', attrs: {} } as any);
let requests: any[] = [];
async function start() { (window as any).webExperiment = undefined; requests = []; integration(); const c: any = DefaultWebExperimentClient.getInstance(KEY, configs([], {}), { httpClient: { request: async () => ({ status: 200, body: '[]' }) } } as any); c.start(); await H.settle(50); return c; }
const uuid = (x: any) => typeof x === 'string' && /^[0-9a-f]{8}-/.test(x);
async function identity() { // every combination of what earlier visits left
  go('https://www.example.com/'); const stored: any = {}; const s = H.choose('local', 3); const W = 'w' + H.id('W', 3), D = 'd' + H.id('D', 3), V = 'v' + H.id('V', 3), L = 'l' + H.id('L', 3); if (H.fork('web_exp_id')) stored.web_exp_id = W; if (H.fork('device_id')) stored.device_id = D; if (H.fork('v2')) stored.web_exp_id_v2 = V; if (s > 0) localStorage.put(USER, JSON.stringify({ ...stored, other: 1 })); const has = s > 0 ? stored : {};
  const seenLocal = H.fork('seen') ? '1' : undefined; if (seenLocal) localStorage.put(SEEN, JSON.stringify({ first_seen: seenLocal, landing_url: 'x' })); const ck = H.choose('cookie', 5); const C: any = [null, { web_exp_id_v2: L, first_seen: '2' }, { web_exp_id_v2: L }, { first_seen: '2', web_exp_id_v2: '' }, null][ck]; if (C) put(C); if (ck === 4) cookies.jar.push({ name: COOKIE, value: '%7B', domain: 'example.com', attrs: {} } as any); const blockedCookie = H.fork('blocked'); if (blockedCookie) Object.defineProperty(cookies, 'cookie', { get: () => '', set: () => undefined });
  const c = await start(); const u = c.getExperimentClient().getUser(); H.observe([u, local(USER)]); const cc = blockedCookie ? null : C;
  if (has.web_exp_id !== undefined) H.assert(H.eq(u.web_exp_id, W), 'a known visitor is recognised', u); else if (has.device_id !== undefined) { H.assert(H.eq(u.web_exp_id, D), 'the identity of older versions is taken over', u); H.cover('migrated'); } else { H.assert(uuid(u.web_exp_id), 'a new visitor gets an identity', u); H.cover('new'); }
  const v2 = cc && cc.web_exp_id_v2 ? L : has.web_exp_id_v2 !== undefined ? V : u.web_exp_id; H.assert(H.eq(u.web_exp_id_v2, v2), 'shared among subdomains, seeded from what this one has', { u, v2 }); const seen = cc && cc.first_seen ? '2' : seenLocal ? '1' : String(clock.now / 1000); H.assert(u.first_seen === seen, 'first seen', { u, seen }); if (cc && cc.web_exp_id_v2) H.cover('shared');
  const l = local(USER); H.assert(H.and(H.eq(l.web_exp_id, u.web_exp_id), H.eq(l.web_exp_id_v2, v2)) && !('device_id' in l) && !('device_id' in u && u.device_id !== 'd' && false), 'kept for the next visit', l); H.assert(!(s > 0) || l.other === 1, 'other content is kept', l); H.assert(local(SEEN).first_seen === seen && (!seenLocal || local(SEEN).landing_url === 'x'), 'first seen is kept', local(SEEN));
  if (!blockedCookie) { H.assert(H.eq(cookie(), { web_exp_id_v2: v2, first_seen: seen }), 'and for the other subdomains', cookie()); H.assert(cookies.jar.filter((x: any) => x.name === COOKIE).every((x: any) => x.domain === 'example.com' && (!x.attrs['max-age'] || x.attrs['max-age'] === '31536000')), 'on the common domain, for a year', cookies.jar); H.assert(cookies.jar.every((x: any) => x.name === COOKIE || /^(AMP_MKTG|EXP_)/.test(x.name)), 'probes are removed', cookies.jar.map((x: any) => x.name)); } }
async function visits() { // two visits, to any subdomains, with storage kept or lost
  const hosts = ['www.example.com', 'shop.example.com', 'example.com']; const first = hosts[H.choose('h0', 3)], second = hosts[H.choose('h1', 3)]; const d = [0, 1, 1500, 99999999][H.choose('later', 4)]; go('https://' + first + '/'); const a = (await start()).getExperimentClient().getUser(); clock.now = clock.now + d; go('https://' + second + '/'); const lost = first !== second || H.fork('local lost'); if (lost) for (const k of localStorage.names()) localStorage.drop(k); const noCookie = H.fork('cookie lost'); if (noCookie) cookies.jar = []; for (const k of sessionStorage.names()) sessionStorage.drop(k); const b = (await start()).getExperimentClient().getUser(); H.observe([a, b]);
  if (!noCookie || !lost) { H.assert(b.web_exp_id_v2 === a.web_exp_id_v2, 'the visitor stays the same', [a, b]); H.assert(b.first_seen === a.first_seen, 'first seen stays', [a, b]); H.cover(first === second ? 'again' : 'other subdomain'); } if (!lost) H.assert(b.web_exp_id === a.web_exp_id, 'within the subdomain', [a, b]); if (lost && noCookie) { H.assert(H.eq(b.first_seen, String((1000000 + d) / 1000)), 'a new visitor', [a, b]); H.cover('forgotten'); } }
async function unusable() { // damaged contents count as none
  const docs = ['5', 'true', '"x"', '[]', 'null', '{', '{"web_exp_id":""}', '0']; const k = H.choose('k', 8), j = H.choose('j', 8), z = H.choose('z', 6); localStorage.put(USER, docs[k]); localStorage.put(SEEN, docs[j]); if (z) cookies.jar.push({ name: COOKIE, value: encodeURIComponent(z % 2 ? JSON.stringify(['', '5', 'null', '"x"', '[]', '{'][z]) : ['', '5', 'null', '"x"', '[]', '{'][z]), domain: 'example.com', attrs: {} } as any); const c = await start(); const u = c.getExperimentClient().getUser(); H.observe([u]); H.assert(u && uuid(u.web_exp_id) && u.web_exp_id_v2 === u.web_exp_id && u.first_seen === String(clock.now / 1000), 'an identity in any case', u); H.assert(c.isRunning, 'and the tag starts'); const c2 = await start(); H.assert(k === 3 && false || c2.getExperimentClient().getUser().web_exp_id_v2 === u.web_exp_id_v2, 'which is lasting', [u, c2.getExperimentClient().getUser()]); H.cover('unusable'); }
async function resolve() { // fields of one record: from the store, else the fallback, else made; at most one write
  const cur: any = {}; const kinds = [undefined, '', 'c', 5, null]; const a = H.choose('a', 5), b = H.choose('b', 5); if (a) cur.a = kinds[a]; if (b) cur.b = kinds[b]; cur.more = 'm'; const fb: any = {}; if (H.fork('fa')) fb.a = 'f' + H.id('x', 3); if (H.fork('fb')) fb.b = H.fork('empty') ? '' : 'fb'; const failGet = H.fork('failGet'), failSet = H.fork('failSet'); let writes: any[] = [], reads = 0, made = 0; const store: any = { get: async () => { reads++; if (failGet) throw new Error('no'); return JSON.stringify(cur); }, set: async (k: string, v: string) => { writes.push(JSON.parse(v)); if (failSet) throw new Error('no'); }, remove: async () => undefined };
  const r: any = await resolveCrossSubdomainObject(store, 'k', fb, { a: () => 'made' + ++made, b: () => 'made' + ++made }); H.observe([r, writes]); let n = 0; for (const k of ['a', 'b']) { const have = !failGet && cur[k] === 'c'; if (!have) n++; H.assert(H.eq(r[k], have ? 'c' : fb[k] !== undefined ? fb[k] : 'made' + (k === 'b' && (!(!failGet && cur.a === 'c') && fb.a === undefined) ? 2 : 1)), 'the field', { r, k }); } H.assert(reads === 1 && writes.length === (n ? 1 : 0) && (!n || H.eq(writes[0], r)), 'read once, written once if needed', writes); H.cover('resolved'); }
export const cells: Record<string, any> = { identity, visits, unusable, resolve };
export const meta = { mustCover: ['migrated', 'new', 'shared', 'again', 'other subdomain', 'forgotten', 'unusable', 'resolved'], bounds: ['every combination of present and absent web_exp_id, device_id, web_exp_id_v2 and first_seen in local storage and in the cookie, each id any of 3, cookies usable or blocked; two visits to 3 hosts at 4 intervals with storage or cookies lost or kept; 8 damaged contents of each record and 6 of the cookie; a record of two fields with every source and failure'], assumptions: ['cookies of the common domain are accepted', 'base64 of the cookie is a transparent stand-in'] };
