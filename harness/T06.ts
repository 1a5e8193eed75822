// Cookies: the common domain, round trips of any value; campaign parameters and their precedence.
import { clock, cookies, location, log, localStorage, document } from './lib/env';
import { go } from './lib/tag';
import { campaign } from '@amplitude/analytics-core';
import { getCookieDomainLevels, getTopLevelDomainSync, getTopLevelDomain, readRawCookie, writeRawCookie, deleteRawCookie, SyncJsonCookie, setMarketingCookie } from 'repo:experiment-tag/src/util/cookie';
import { enrichUserWithCampaignData } from 'repo:experiment-tag/src/util/campaign';
import { getUrlParams, removeQueryParams, concatenateQueryParamsOf, urlWithoutHash, urlWithoutQuery, urlWithoutParamsAndAnchor } from 'repo:experiment-tag/src/util/url';
declare const H: any;
const KEY = 'client-abcdefghij';
const SUFFIX = ['com', 'co.uk', 'github.io', 'io', 'uk', 'xco.uk'], PUBLIC: any = { com: 1, io: 1, uk: 1, 'co.uk': 2, 'github.io': 2 };
const upper = (s: string) => H.fork('upper') ? s.toUpperCase() : s;
function levels() { // from the registrable domain down to the host itself
  const n = H.choose('labels', 4), s = SUFFIX[H.choose('suffix', 6)]; const ls: any[] = []; for (let i = 0; i < n; i++) ls.push(H.str('l' + i, { min: 1, max: 1, alpha: 'a-c' }) + (H.fork('long' + i) ? 'co' : '')); if (n && H.fork('inner suffix')) ls.splice(H.choose('where', n), 0, 'co', 'uk'); const lower = [...ls, s].join('.'); const host = upper(lower); const got = getCookieDomainLevels(host); H.observe(got); const all = [...ls, ...s.split('.')]; const pub = s === 'xco.uk' ? 1 : PUBLIC[s]; const want: any[] = []; for (let i = all.length - pub - 1; i >= 0; i--) want.push(all.slice(i).join('.'));
  if (n === 0 && (s === 'co.uk' || s === 'github.io')) return; H.assert(H.eq(got, want), 'the domains a cookie of all subdomains can have', { got, want, host }); H.cover('levels'); }
function addresses() { const k = H.choose('k', 4); const oct = (n: string) => ['0', '1', '10', '255'][H.choose(n, 4)]; const hosts = ['', 'localhost', '', '[::1]']; const host = k === 2 ? [oct('a'), oct('b'), '0', oct('d')].join('.') : hosts[k]; const got = getCookieDomainLevels(host); H.observe(got); H.assert(got.length === 0, 'none for addresses and single names', { host, got }); H.cover('none'); }
async function domain() { // the first domain accepted by the browser, probing leaves nothing behind
  const lv = ['example.com', 'b.example.com', 'a.b.example.com']; const ok = lv.filter((_, i) => H.fork('ok' + i)); (cookies as any).onlyDomains = ok; const other = H.fork('other'); if (other) cookies.jar.push({ name: 'x', value: '1', domain: '', attrs: {} } as any); const want = ok.length ? '.' + ok[0] : ''; const throws = H.fork('throws'); if (throws) Object.defineProperty(cookies, 'cookie', { get: () => '', set: () => { throw new Error('no'); } }); const got = throws || H.fork('sync') ? getTopLevelDomainSync('a.b.example.com') : await getTopLevelDomain('a.b.example.com'); H.observe(got); H.assert(got === (throws ? '' : want), 'the first usable one', { got, want }); H.assert(cookies.jar.length === (other ? 1 : 0), 'nothing is left behind', cookies.jar); H.cover('domain'); }
function roundtrip() { // any value under any name, next to others with similar names
  const value = H.str('value', { max: 2, alpha: 'a;= %,"1é' }), https = H.fork('https'), dom = H.fork('domain') ? '.example.com' : undefined; go((https ? 'https' : 'http') + '://www.example.com/'); const names = ['k', 'kk', 'xk']; const before = H.choose('before', 3); for (let i = 0; i < before; i++) cookies.jar.push({ name: names[1 + i], value: 'other' + i, domain: '', attrs: {} } as any); const age = H.choose('age', 3); const opts: any = { ...(dom ? { domain: dom } : {}), ...(age ? { maxAgeSeconds: age === 1 ? 60 : 31536000 } : {}) };
  const okay = writeRawCookie('k', value, opts); const got = readRawCookie('k'); H.observe([okay, got]); H.assert(okay === true && H.eq(got, value), 'read back as written', { got, value }); H.assert(readRawCookie('kkk') === undefined && readRawCookie('') === undefined, 'no other'); const c: any = cookies.jar.find((x: any) => x.name === 'k'); H.assert(c.attrs.path === '/' && c.attrs.samesite === 'Lax' && !!c.attrs.secure === https && c.domain === (dom ? 'example.com' : '') && c.attrs['max-age'] === (age === 0 ? undefined : age === 1 ? '60' : '31536000'), 'its attributes', c); for (let i = 0; i < before; i++) H.assert(readRawCookie(names[1 + i]) === 'other' + i, 'others are untouched'); deleteRawCookie('k', dom); H.assert(readRawCookie('k') === undefined && cookies.jar.length === before, 'removed', cookies.jar); H.cover('round trip'); }
function broken() { // what is not a proper encoding is read as it is; a write which does not take effect is reported
  const raw = H.str('raw', { max: 3, alpha: '%2a4g=' }); cookies.jar.push({ name: 'k', value: raw, domain: '', attrs: {} } as any); let want: any = raw; try { want = decodeURIComponent(raw); } catch { want = raw; } H.assert(H.eq(readRawCookie('k'), want), 'read', { raw }); (cookies as any).onlyDomains = []; const r = writeRawCookie('k', 'new', { domain: '.example.com' }); H.assert(r === H.conc(H.eq(want, 'new')), 'a dropped write is noticed'); H.observe(r); const j = new SyncJsonCookie<any>('j', () => '.example.com'); j.write({ n: 1 }); H.assert(H.eq(j.read(), { n: 1 }), 'kept for the page all the same'); j.clear(); H.assert(j.read() === undefined, 'cleared'); H.cover('broken'); }
const UTM = ['utm_source', 'utm_medium', 'utm_id'];
async function merge() { // page over own record over that of the analytics SDK, parameter by parameter
  const src: any[] = [{}, {}, {}]; for (let i = 0; i < 3; i++) for (let u = 0; u < 2; u++) if (H.fork('has' + i + u)) src[i][UTM[u]] = ['p', 'e', 'a'][i] + H.id('v' + i + u, 2); if (H.fork('undefined')) src[0].utm_source = undefined; const noise = H.fork('noise'); if (noise) for (const s of src) { s.gclid = 'g'; s.referrer = 'r'; } campaign.value = src[0]; const e = H.choose('own', 3), a = H.choose('analytics', 3); const own = e === 0 ? null : e === 1 ? JSON.stringify(src[1]) : '{'; if (own !== null) localStorage.put('EXP_MKTG_client-abc', own); if (a) document.cookie = 'AMP_MKTG_client-abc=' + (a === 1 ? encodeURIComponent(JSON.stringify(src[2])) : 'x') + '; path=/';
  const user = { user_id: 'u', user_properties: { x: 1 } }; const r: any = await enrichUserWithCampaignData(KEY, user); H.observe(r); const want: any = {}; for (const s of [a === 1 ? src[2] : {}, e === 1 ? src[1] : {}, src[0]]) for (const k of UTM) if (s[k] !== undefined) want[k] = s[k]; const any = Object.keys(want).length > 0; H.assert(H.eq(r, any ? { ...user, persisted_url_param: want } : user) && user.user_id === 'u' && !('persisted_url_param' in user), 'the parameters of the user', { r, want }); const st = localStorage.raw('EXP_MKTG_client-abc'); H.assert(any ? H.eq(JSON.parse(st), want) : st === own, 'and kept for later', st); H.cover('merged');
  if (any) { campaign.value = {}; for (const c of cookies.jar.slice()) if (c.name === 'AMP_MKTG_client-abc') cookies.jar = cookies.jar.filter((x: any) => x !== c); const later: any = await enrichUserWithCampaignData(KEY, user); H.assert(H.eq(later.persisted_url_param, want), 'as at a later page', later); } campaign.value = src[0]; await setMarketingCookie(KEY, 'www.example.com'); const c: any = cookies.jar.find((x: any) => x.name === 'AMP_MKTG_ORIGINAL_client-abc'); const all: any = {}; for (const k of Object.keys(src[0])) if (src[0][k] !== undefined) all[k] = src[0][k]; H.assert(!!c && c.domain === 'example.com' && H.eq(JSON.parse(decodeURIComponent(c.value)), all), 'the campaign is passed on over a redirect', c); }
// addresses: parameters of the page are carried over unless the target has its own
function urls() { const base = ['https://a.com/p', 'https://a.com/', 'http://b.a.com/x/y'][H.choose('base', 3)]; const ps = ['a', 'b', 'c'].filter((_, i) => H.fork('cur' + i)), ts = ['a', 'b'].filter((_, i) => H.fork('tgt' + i)); const dup = H.fork('dup'); const hash = H.fork('hash') ? '#h?a=9' : ''; const enc = H.fork('encoded'); const val = (s: string, p: string) => s + p + (enc ? '%26%C3%A9+' : ''); const q = (l: string[], v: string) => l.length ? '?' + l.map((p) => p + '=' + val(v, p)).join('&') : ''; const cur = base + q(ps, 'c') + (dup && ps.length ? '&' + ps[0] + '=again' : '') + hash; const tgt = 'https://t.com/z' + q(ts, 't') + (H.fork('thash') ? '#there' : '');
  const r = concatenateQueryParamsOf(cur, tgt); const u = new URL(r), c = new URL(cur), t = new URL(tgt); H.observe(r); H.assert(u.origin + u.pathname + u.hash === t.origin + t.pathname + t.hash, 'the target', { r, tgt }); for (const p of ['a', 'b', 'c']) H.assert(H.eq(u.searchParams.getAll(p), t.searchParams.has(p) ? t.searchParams.getAll(p) : c.searchParams.getAll(p)), 'its parameters', { r, cur, tgt, p }); go(cur); const gp: any = getUrlParams(); for (const p of ['a', 'b', 'c']) { const l = c.searchParams.getAll(p); H.assert(gp[p] === (l.length ? l[l.length - 1] : undefined), 'parameters of the page', gp); } const rm = new URL(removeQueryParams(cur, ['a', 'zz'])); H.assert(!rm.searchParams.has('a') && H.eq(rm.searchParams.getAll('b'), c.searchParams.getAll('b')) && rm.hash === c.hash && rm.pathname === c.pathname, 'removing parameters', rm.toString()); H.assert(urlWithoutHash(cur) === cur.replace(/#.*$/, '') && urlWithoutParamsAndAnchor(cur) === base && urlWithoutQuery(cur) === base + hash, 'without its parts', [urlWithoutHash(cur), urlWithoutQuery(cur)]); H.assert(urlWithoutHash('nonsense') === 'nonsense' && urlWithoutQuery('nonsense') === 'nonsense' && urlWithoutHash('') === '' && urlWithoutQuery('') === '' && urlWithoutParamsAndAnchor('') === '', 'no address'); H.cover('urls'); }
export const cells: Record<string, any> = { levels, addresses, domain, roundtrip, broken, merge, urls };
export const meta = { mustCover: ['levels', 'none', 'domain', 'round trip', 'broken', 'merged', 'urls'], bounds: ['hosts of up to 3 labels of 2 lengths (with another suffix before or among them) before 6 suffixes, IPv4 and IPv6 addresses; every subset of 3 domains accepted, or all cookies blocked; values up to 2 characters of a;= %,"1é next to up to 2 others; raw values up to 3 characters of %2a4g=; two parameters in each of three places with any of 2 values, unusable places; addresses with up to 3 parameters on either side, repeated or encoded, with and without hash'], assumptions: ['the browser decodes addresses as the URL standard says'] };
