// What the default user provider reports about the page, and what sticks.
import { clock, localStorage, sessionStorage, cookies, location, navigator, setGlobal } from './lib/env';
import { Http } from './lib/browser';
import { uaResult } from './stubs/amplitude_ua-parser-js';
import { Experiment } from 'repo:experiment-browser/src/index';
declare const H: any; declare const document: any;
let made = 0;
const client = (cfg: any = {}, key = 'client-abcdefgh' ) => (Experiment as any).initialize(key, { httpClient: new Http() as any, automaticExposureTracking: false, instanceName: 'p' + made++, ...cfg });
const user = (c: any) => c.getUserProvider().getUser();
function fields() {
  const over: any = {}; for (const f of ['language', 'platform', 'browser', 'landing_url', 'url_param', 'device_category', 'country']) if (H.fork(f)) over[f] = f === 'url_param' ? { mine: 'x' } : f + H.id(f, 26);
  location.href = 'https://e.com/p?q=1'; const has = H.fork('provider'); const u = user(client(has ? { userProvider: { getUser: () => over } } : {})); H.observe(u);
  const def: any = { language: 'en-US', platform: 'Web', browser: 'Chrome', landing_url: 'https://e.com/p?q=1', url_param: { q: '1' }, device_category: 'desktop', country: undefined };
  for (const f of Object.keys(def)) { const w = has && f in over ? over[f] : def[f]; H.assert(H.eq(u[f], w), 'fields given by the application win, others are detected', { f, got: u[f], w }); } H.cover('fields');
}
function detected() {
  const nl = H.choose('langs', 4); (navigator as any).languages = nl === 0 ? ['de', 'en'] : nl === 1 ? [] : undefined; (navigator as any).language = nl === 3 ? undefined : 'fr'; const lang = nl === 0 ? 'de' : nl === 3 ? '' : 'fr';
  const b = H.pick('b', ['Chrome', 'Mobile Chrome', 'Chromium', 'Mobile Firefox', 'Mobile Safari', 'Edge', 'Edge Mobile', 'Opera Mini', 'Other', undefined]); const major = ['7', undefined, null][H.choose('major', 3)] as any; const type = H.pick('type', ['mobile', 'tablet', undefined]); uaResult.value = { browser: { name: b, major }, os: { name: 'Mac' }, device: { type } } as any;
  const ref = H.pick('ref', ['', 'https://r.com', 'https://r.com/', 'https://r.com/a/']); document.referrer = ref; const u = user(client()); H.observe(u);
  const nb: any = { 'Mobile Chrome': 'Chrome', Chromium: 'Chrome', 'Mobile Firefox': 'Firefox', 'Mobile Safari': 'Safari', 'Opera Mini': 'Opera', 'Edge Mobile': 'Edge' };
  H.assert(u.language === lang, 'language', u.language); H.assert(u.browser === (b && nb[b] || b), 'browser family', u.browser); H.assert(u.os === [b, major].filter((x) => x !== undefined && x !== null).join(' '), 'browser and version', u.os); H.assert(u.device_model === 'Mac', 'system'); H.assert(u.device_category === (type || 'desktop'), 'device category', u.device_category); H.assert(u.referring_url === (ref.endsWith('/') ? ref.slice(0, -1) : ref), 'referrer without trailing slash', u.referring_url); H.assert(u.user_agent === 'ua', 'agent');
}
function sticky() { // landing page: first URL of the session; first seen: first visit of the browser
  const t0 = H.int('t0', 0, 9) * 1000 + 1700000000000; clock.now = t0; const urls = ['https://e.com', 'https://e.com/', 'https://e.com/a', 'https://e.com/a/?x=1']; const strip = (u: string) => u.endsWith('/') ? u.slice(0, -1) : u;
  let landing: any, seen: any; const n = 3; const keys = ['client-aaaaaa', 'client-bbbbbb']; const first: any = {};
  for (let i = 0; i < n; i++) {
    const ev = H.choose('ev' + i, 3); if (ev === 1) { for (const k of sessionStorage.names()) sessionStorage.drop(k); for (const k of keys) delete (first[k] || {}).landing; H.cover('new session'); } if (ev === 2) clock.now = clock.now + 5000;
    const key = keys[H.choose('key' + i, 2)]; const url = H.pick('url' + i, urls); location.href = url; const u = user(client({}, key)); const f = first[key] = first[key] || {}; if (f.landing === undefined) f.landing = strip(url); if (f.seen === undefined) f.seen = clock.now;
    H.assert(u.landing_url === f.landing, 'the landing page is the first page of the session', { got: u.landing_url, want: f.landing }); H.assert(Number(u.first_seen) * 1000 === f.seen, 'first seen is the first visit', { got: u.first_seen, want: f.seen });
  }
  H.cover('sticky');
}
function cookieMap() { // every cookie with its full value
  const a = H.str('a', { min: 0, max: 3, alpha: 'xy=%' }), b = H.str('b', { min: 0, max: 2, alpha: 'xy=' }); const n = H.choose('n', 3); if (n > 0) cookies.jar.push({ name: 'a', value: a, domain: '', attrs: {} } as any); if (n > 1) cookies.jar.push({ name: 'b', value: b, domain: '', attrs: {} } as any);
  const u = user(client()); H.observe(u.cookie); H.assert(H.eq(u.cookie, n === 0 ? undefined : n === 1 ? { a } : { a, b }), 'every cookie with its value', { got: u.cookie, a, b }); H.cover('cookies ' + n);
  const c = client({ initialFlags: JSON.stringify([{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'user', 'cookie', 'a'], op: 'is', values: ['x=y'] }]], variant: 'on' }], metadata: { evaluationMode: 'local' } }]) });
  H.assert(H.iff(c.variant('f').key === 'on', n > 0 && a === 'x=y'), 'flags can target a cookie value', c.variant('f'));
}
function params() { // query parameters: lists for repeated names and commas
  const n = H.choose('n', 4); const want: any = Object.create(null); let q = ''; const names = ['a', 'b', 'constructor', 'toString']; const vals = ['', 'x', 'x,y', 'p%20q'];
  for (let i = 0; i < n; i++) { const k = names[H.choose('k' + i, 4)], v = vals[H.choose('v' + i, 4)]; q += (i ? '&' : '?') + k + '=' + v; want[k] = [...(want[k] || []), ...(v === 'p%20q' ? ['p q'] : v.split(','))]; }
  location.href = 'https://e.com/z' + q + (H.fork('hash') ? '#h?k=v' : ''); const u = user(client()); H.observe(u.url_param); const got = u.url_param; H.assert(got && Object.keys(got).length === Object.keys(want).length, 'exactly the parameters of the URL', { got, want }); for (const k of Object.keys(want)) H.assert(H.eq(got[k], want[k].length === 1 ? want[k][0] : want[k]), 'a value, or the list of values', { k, got, want }); H.cover('params');
}
function broken() { // unusable storage leaves the two fields out and breaks nothing
  const which = H.choose('which', 3), how = H.choose('how', 4); const st: any = which === 0 ? [localStorage] : which === 1 ? [sessionStorage] : [localStorage, sessionStorage]; for (const s of st) { if (how === 0) s.__d.failAll = true; else if (how === 1) s.__d.failGet = true; else s.put('EXP_client-abc_DEFAULT_USER_PROVIDER', how === 2 ? '{bad' : 'null'); }
  location.href = 'https://e.com/q'; const u = user(client()); H.assert(u.platform === 'Web' && u.language !== undefined, 'the other fields are there', u); if (which === 0) H.assert(u.landing_url === 'https://e.com/q', 'landing page unaffected', u.landing_url); if (which === 1) H.assert(u.first_seen !== undefined, 'first seen unaffected'); H.cover('broken');
}
export const cells: Record<string, any> = { fields, detected, sticky, cookieMap, params, broken };
export const meta = { mustCover: ['fields', 'new session', 'sticky', 'cookies 0', 'cookies 1', 'cookies 2', 'params', 'broken'], bounds: ['7 fields overridden or not; 3 page loads over 2 API keys and 4 URLs with session ends in between; two cookies with every value up to 3 characters of xy=%; up to 3 query parameters over 4 names and 4 values'], assumptions: ['the user agent parser is a stand-in', 'the application provider sets fields to values, not null or undefined'] };
