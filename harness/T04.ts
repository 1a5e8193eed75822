// A refusal removes everything the tag stored, and nothing else.
import './lib/env';
import { KEY, flag, mut, redirect, pageObject, configs, integration, clock, advance, setGlobal, window, log, localStorage, sessionStorage, cookies, go, listeners } from './lib/tag';
import { campaign } from '@amplitude/analytics-core';
import { initialize, setConsentStatus } from 'repo:experiment-tag/src/index';
import { clearIfErasedElsewhere, clearAllPersistedData } from 'repo:experiment-tag/src/consent/clear-data';
import { getCookieDomainLevels } from 'repo:experiment-tag/src/util/cookie';
declare const H: any;
const MARK = 'EXP_client-abc_erased';
const rules = { b: { r1: [[{ condition: { type: 'behavior', event_type: 'seen', op: 'greater or equal', value: 1, time_type: 'current_session', time_value: 0 } }]] } };
const HOSTS: [string, string[]][] = [['https://example.com/', ['example.com']], ['https://shop.example.co.uk/', ['example.co.uk', 'shop.example.co.uk']], ['https://a.b.example.com/', ['example.com', 'b.example.com', 'a.b.example.com']], ['http://localhost/', []]];
const foreign = () => { for (const s of [localStorage, sessionStorage]) { s.put('EXP_client-abd', '1'); s.put('other', '1'); s.put('EXP_client-abc_', '1'); } cookies.jar.push({ name: 'AMP_MKTG_client-abc', value: '1', domain: '', attrs: {} } as any, { name: 'EXP_client-abd_identity', value: '1', domain: '', attrs: {} } as any); };
const isForeign = (k: string) => ['EXP_client-abd', 'other', 'EXP_client-abc_', 'AMP_MKTG_client-abc', 'EXP_client-abd_identity'].includes(k);
const device = () => [...localStorage.names().map((k: string) => 'local ' + k), ...sessionStorage.names().map((k: string) => 'session ' + k), ...cookies.jar.map((c: any) => 'cookie ' + c.name)];
const mine = () => device().filter((x) => !isForeign(x.slice(x.indexOf(' ') + 1)));
function features() { // a page using everything which stores something
  const h = H.choose('host', 3); go(HOSTS[h][0] + 'here?utm_source=x'); campaign.value = { utm_source: 'x' }; cookies.onlyDomains = HOSTS[h][1].length && H.fork('restricted') ? [HOSTS[h][1][0]] : null; integration(); foreign(); const name = H.fork('named') ? 'mine' : undefined; const redir = H.choose('redirect', 3);
  const target = redir === 1 ? 'https://example.com/there' : 'https://x.example.com/there';
  return { init: configs([flag('a', 'on', { on: [mut('a')] }), ...(redir ? [flag('r', 'on', { on: [redirect(target)] })] : []), flag('b', 'on', { on: [mut('b')] }), { ...flag('remote', 'on', { on: [mut('remote')] }), metadata: { evaluationMode: 'remote', deliveryMethod: 'web' } }], { a: { p: pageObject('p') }, r: { p: pageObject('p') }, b: { p: pageObject('p') }, remote: { p: pageObject('p') } }, rules), config: { ...(name ? { instanceName: name } : {}), redirectConfig: { encodeRedirectInCookie: true }, httpClient: { request: async () => ({ status: 200, body: '[]' }) } }, name };
}
async function whenever(points: number) { // the refusal may come at any moment of the start and after
  const { init, config } = features(); setConsentStatus('granted'); initialize(KEY, init, { ...config, consentOptions: { consentRequired: true } } as any);
  const at = H.choose('at', points); const tick = async () => { await H.settle(1); };
  for (let i = 0; i < at; i++) { await tick(); if (i % 6 === 5) await advance(clock.now + 300, 1, 3); }
  const c: any = (window as any).webExperiment; if (H.fork('event')) c.trackEvent && c.trackEvent('seen', {}); if (H.fork('later')) await advance(clock.now + 600, 2, 5);
  if (device().length > 6) H.cover('stored'); if (sessionStorage.raw('EXP_client-abc_REDIRECT_MARKER')) H.cover('redirected');
  setConsentStatus('denied'); H.observe(device()); const left = mine().filter((x) => x !== 'cookie ' + MARK); H.assert(left.length === 0, 'nothing of the tag is left on the device', left);
  H.assert(device().filter((x) => x !== 'cookie ' + MARK).length === 8, 'and nothing else is removed', device());
  log.length = 0; await H.settle(40); await advance(clock.now + 5000, 20, 12); for (const l of listeners.slice()) if (l.type === 'beforeunload') l.fn({ type: 'beforeunload' });
  const back = mine().filter((x) => x !== 'cookie ' + MARK && !/amp-exp-|EXP_(un)?sent|DEFAULT_USER_PROVIDER/.test(x)); H.assert(back.length === 0, 'nothing of the tag is stored again', back); H.cover('refused');
}
const OWN = (n: string): [string, string][] => [['local', 'EXP_client-abc'], ['local', 'EXP_client-abc_DEFAULT_USER_PROVIDER'], ['session', 'EXP_client-abc_DEFAULT_USER_PROVIDER'], ['local', 'EXP_client-abc_rtbt_events'], ['cookie', 'EXP_client-abc_rtbt_session'], ['local', 'EXP_MKTG_client-abc'], ['cookie', 'AMP_MKTG_ORIGINAL_client-abc'], ['cookie', 'EXP_client-abc_identity'], ['session', 'EXP_client-abc_REDIRECT'], ['cookie', 'EXP_client-abc_REDIRECT'], ['session', 'EXP_client-abc_REDIRECT_MARKER'], ['session', 'EXP_client-abc_REDIRECT_SUPPRESSED'], ['session', 'amp-exp-' + n + '-web-efghij'], ['session', 'amp-exp-' + n + '-web-efghij-flags'], ['session', 'amp-exp-' + n + '-web-efghij-variants-options'], ['local', 'EXP_unsent_' + n], ['session', 'EXP_sent_v3_' + n], ['session', 'EXP_sent_v2_' + n], ['session', 'EXP_sent_' + n]];
// what earlier visits left, at every level a cookie can have
function earlier(n: string, host: number) { const levels = ['', ...HOSTS[host][1]]; const present: string[] = []; OWN(n).forEach(([st, k], i) => { if (st === 'cookie') { const l = H.choose('cookie' + i, levels.length + 1); if (l > 0) { cookies.jar.push({ name: k, value: '1', domain: levels[l - 1], attrs: {} } as any); present.push(k); } } else (st === 'local' ? localStorage : sessionStorage).put(k, '1'); }); return present; }
async function atLoad() { const h = H.choose('host', 4); go(HOSTS[h][0]); foreign(); const n = H.fork('named') ? 'mine' : '$default_instance'; earlier(n, h); if (h === 1) cookies.onlyDomains = [HOSTS[h][1][0], HOSTS[h][1][1]];
  const how = H.choose('how', 3); if (how === 0) setConsentStatus('denied'); initialize(KEY, configs([], {}), { ...(n === 'mine' ? { instanceName: n } : {}), consentOptions: { consentRequired: true, ...(how === 1 ? { consentStatus: 'denied' } : {}) } } as any); if (how === 2) setConsentStatus('denied');
  H.observe(device()); H.assert(mine().filter((x) => x !== 'cookie ' + MARK).length === 0, 'nothing of the tag is left on the device', mine()); H.assert(device().filter((x) => x !== 'cookie ' + MARK).length === 8, 'and nothing else is removed', device());
  const marks = cookies.jar.filter((c: any) => c.name === MARK); H.assert(marks.length === (HOSTS[h][1].length ? 1 : 0) && marks.every((c: any) => c.domain === HOSTS[h][1][0]), 'the refusal is known to all subdomains', marks); H.cover('at load');
}
function elsewhere() { // a refusal on another subdomain is carried over unless there is a new identity
  const h = H.choose('host', 3); go(HOSTS[h][0]); foreign(); earlier('$default_instance', h); const marker = H.fork('marker'); const identity = cookies.jar.some((c: any) => c.name === 'EXP_client-abc_identity'); if (marker) cookies.jar.push({ name: MARK, value: '1', domain: HOSTS[h][1][0], attrs: {} } as any); const before = device().length;
  clearIfErasedElsewhere(KEY); H.observe(device()); if (marker && !identity) { H.assert(mine().filter((x) => x !== 'cookie ' + MARK).length === 0, 'erased', mine()); H.cover('carried over'); } else { H.assert(device().length === before, 'kept', device()); H.cover('kept'); } }
export const cells: Record<string, any> = { 'during the start': () => whenever(16), atLoad, elsewhere };
export const meta = { mustCover: ['stored', 'redirected', 'refused', 'at load', 'carried over', 'kept'], bounds: ['refusal after 0..15 task steps of the start, later, or already at load; 3 hosts and localhost; cookies at every domain level or absent, with the values of the tag, of others and of other API keys; named instance or not; same-host, cross-subdomain or no redirect'], assumptions: ['the running client may persist its caches again after the refusal (documented: the page is expected to stop using it)'] };
