// Options of the script tag: the page's own win over those of the script, which win over the defaults; whoever reads them.
import './lib/env';
import { fetches } from './lib/fetch';
import { KEY, flag, mut, redirect, pageObject, configs, integration, clock, advance, window, document, location, localStorage, sessionStorage, go, live, timers, page, browser, spa, listeners, setGlobal, mutations, cookies } from './lib/tag';
import { initialize, setConsentStatus } from 'repo:experiment-tag/src/index';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
declare const H: any;
const O = 'https://www.example.com', RED = 'EXP_client-abc_REDIRECT';
let frames: any[] = []; let events: any[] = [];
const make = (document as any).createElement; document.createElement = ((t: string) => { const e: any = make.call(document, t); if (t === 'iframe') { e.contentWindow = { postMessage() {} }; frames.push(e); } return e; }) as any;
const fresh = (url = O + '/a') => { browser(); for (const n of ['webExperiment', 'WebExperiment', 'experimentConfig']) setGlobal(n, undefined); consentGate.reset(); listeners.length = 0; timers.list = []; mutations.live = []; fetches.length = 0; frames = []; location.replaced.length = 0; go(url); events = integration(); };
// one option: on the page, in the script, or nowhere
const level = (name: string, value: (n: string) => any) => ({ page: H.fork(name + ' on page') ? { v: value(name + ' page') } : null, script: H.fork(name + ' in script') ? { v: value(name + ' script') } : null });
const effective = (l: any, dflt?: any) => l.page ? l.page.v : l.script ? l.script.v : dflt;
const put = (o: any, l: any, name: string) => { if (l.page) o.page[name] = l.page.v; if (l.script) o.script[name] = l.script.v; };
const begin = (o: any, flags: any[], pages: any, rules?: any) => { if (Object.keys(o.page).length || H.fork('empty on page')) setGlobal('experimentConfig', o.page); const keys = [Object.keys(o.page), Object.keys(o.script)]; initialize(KEY, configs(flags, pages, rules), o.script); return () => H.assert(H.eq([Object.keys(o.page), Object.keys(o.script)], keys), 'the options given stay as they are', o); };
const base = () => ({ l: { L: pageObject('L') } });
const rules: any = { l: { r: [[{ condition: { type: 'behavior', event_type: 'e', op: 'greater or equal', value: 9, time_type: 'rolling', time_value: 1, interval: 'day' } }]] } };
// which servers are asked
async function servers() {
  fresh(); const o: any = { page: {}, script: {} }; const zone = level('zone', (n) => H.str(n, { max: 2, alpha: 'eEuUsS' })); put(o, zone, 'serverZone'); const relay = H.choose('relay', 4), R = ['', 'https://relay.example.com:3036', 'https://x.example.com//']; if (relay & 1) o.page.relayUrl = R[1]; if (relay & 2) o.script.relayUrl = R[2]; const srv = H.choose('servers', 4); if (srv & 1) o.page.flagsServerUrl = 'https://p.example.com'; if (srv & 2) o.script.flagsServerUrl = 'https://s.example.com';
  const preview = H.choose('preview', 3); if (preview === 1) sessionStorage.put('amp-preview-mode', JSON.stringify({ previewFlags: { other: 'on' } })); if (preview === 2) setGlobal('WebExperiment', { injectedByExtension: true });
  const flags = [flag('l', 'on', { on: [mut('l')] }), flag('r', 'on', { on: [mut('r')] }, { metadata: { evaluationMode: 'remote' } })]; const kept = begin(o, flags, { ...base(), r: { R: pageObject('R') } }, rules); await H.settle(60); const z = effective(zone, ''); const eu = H.conc(H.eq(z.toLowerCase(), 'eu'));
  const latest = fetches.filter((f: any) => String(f.url).includes('/web/v1/configs')); H.assert(latest.length === (preview ? 1 : 0), 'the latest configuration is asked for in previews only', { n: latest.length }); if (preview) { H.assert(latest[0].url === (eu ? 'https://api.lab.eu.amplitude.com' : 'https://api.lab.amplitude.com') + '/web/v1/configs', 'in the zone', { url: latest[0].url, eu }); latest[0].fail(new Error('x')); await H.settle(80); H.cover('latest configuration'); }
  const asked = fetches.filter((f: any) => /flags/.test(String(f.url))).map((f: any) => String(f.url).split('?')[0]); H.observe([asked, frames.map((f) => f.src), eu]); const server = srv & 1 ? 'https://p.example.com' : srv & 2 ? 'https://s.example.com' : eu ? 'https://flag.lab.eu.amplitude.com' : 'https://flag.lab.amplitude.com'; H.assert(asked.length === 1 && asked[0] === server + '/sdk/v2/flags', 'flags of the zone, unless said otherwise', { asked, server });
  const q = fetches.find((f: any) => /flags/.test(String(f.url))) as any; q.head(200); await H.settle(8); q.body('[]'); await H.settle(60); const from = relay & 1 ? R[1] : relay & 2 ? 'https://x.example.com' : eu ? 'https://cdn.eu.amplitude.com' : 'https://cdn.amplitude.com'; H.assert(frames.length === 1 && frames[0].src === from + '/script/' + KEY + '.relay.html', 'the frame of the zone, unless said otherwise', { src: frames.map((f) => f.src), from }); H.cover(eu ? 'eu' : 'us'); if (zone.page && zone.script) H.cover('both'); kept(); }
// how the destination of a redirect learns of it
async function redirects() {
  fresh(); const o: any = { page: {}, script: {} }; const r = level('redirect', (n) => ({ encodeRedirectInUrl: H.bool(n + ' url'), encodeRedirectInCookie: H.bool(n + ' cookie') })); put(o, r, 'redirectConfig'); cookies.jar.length = 0; const kept = begin(o, [flag('l', 'on', { on: [redirect('https://shop.example.com/b')] })], base()); await H.settle(70); const e = effective(r, { encodeRedirectInUrl: false, encodeRedirectInCookie: true }); const to = location.replaced.slice(); H.observe([to, cookies.jar.map((c: any) => c.name)]); H.assert(to.length === 1, 'one redirect', to); const inUrl = to[0].includes('AMP_REDIRECT='), inCookie = cookies.jar.some((c: any) => c.name === RED && c.domain === 'example.com');
  H.assert(H.eq(inUrl, e.encodeRedirectInUrl), 'in the address', { to, r }); H.assert(H.eq(inCookie, e.encodeRedirectInCookie), 'in the cookie', { inCookie, r }); H.cover(inUrl ? 'address' : 'not in address'); H.cover(inCookie ? 'cookie' : 'no cookie'); kept();
  // and the destination reads it under its own options
  const imp = JSON.stringify({ l: { redirectUrl: 'https://shop.example.com/b', variantKey: 'on' } }); const where = H.choose('where', 2); sessionStorage.clear(); cookies.jar.length = 0; fresh('https://shop.example.com/b' + (where ? '' : '?AMP_REDIRECT=' + encodeURIComponent(btoa(imp)))); if (where) cookies.jar.push({ name: RED, value: encodeURIComponent(imp), domain: 'example.com', attrs: {} } as any); const o2: any = { page: {}, script: {} }; const r2 = level('destination', (n) => ({ encodeRedirectInUrl: H.bool(n + ' url'), encodeRedirectInCookie: H.bool(n + ' cookie') })); put(o2, r2, 'redirectConfig'); begin(o2, [flag('l', 'on', { on: [mut('l')] })], { l: { L: pageObject('L', 'manual', { name: 'M' }) } }); await H.settle(70); await advance(clock.now + 600, 10, 20); await H.settle(20); const e2 = effective(r2, { encodeRedirectInUrl: false, encodeRedirectInCookie: true }); const seen = events.filter((x: any) => x.eventProperties.flag_key === 'l').length; const want = where ? e2.encodeRedirectInCookie : e2.encodeRedirectInUrl; H.observe(seen); H.assert(H.eq(seen, H.ite(want, 1, 0)), 'the impression is tracked at the destination', { seen, where, r2 }); H.assert(where ? true : H.eq(location.href.includes('AMP_REDIRECT'), H.not(want)), 'and leaves the address', location.href); H.cover(seen ? 'tracked' : 'not tracked'); }
// whether the tag follows navigation by itself
async function navigation() { fresh(); const o: any = { page: {}, script: {} }; const n = level('navigation', (x) => H.bool(x)); put(o, n, 'useDefaultNavigationHandler'); const kept = begin(o, [flag('l', 'on', { on: [mut('l')] })], { l: { L: pageObject('L', 'url_change', {}, [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/b'] }]]) } }); await H.settle(60); H.assert(live().length === 0, 'not here', {}); spa('/b'); await H.settle(60); const e = effective(n, true); H.observe(live()); H.assert(H.eq(live().length, H.ite(e, 1, 0)), 'applied after navigation', { live: live(), n }); H.cover(live().length ? 'follows' : 'stays'); kept(); }
// when a session of behaviors ends
async function sessions() { fresh(); cookies.jar.length = 0; const o: any = { page: {}, script: {} }; const t = level('timeout', (x) => H.int(x, 0, 4000000)); put(o, t, 'rtbtSessionTimeout'); const rs: any = { l: { r: [[{ condition: { type: 'behavior', event_type: 'e', op: 'greater or equal', value: 2, time_type: 'current_session', time_value: 0 } }]] } }; const kept = begin(o, [flag('l', 'off', { on: [mut('l')] }, { segments: [{ conditions: [[{ selector: ['context', 'user', 'behavioral_targeting'], op: 'set contains', values: ['r'] }]], variant: 'on' }] })], base(), rs); await H.settle(60); const c = (window as any).webExperiment; c.trackEvent('e', {}); await H.settle(20); timers.list = []; const d = H.int('pause', 0, 4000000); clock.now = clock.now + d; c.trackEvent('e', {}); await H.settle(40); const e = effective(t, 1800000); H.observe(live()); H.assert(H.eq(live().length, H.ite(d <= e, 1, 0)), 'two events of one session', { live: live(), t }); H.cover(live().length ? 'one session' : 'two sessions'); kept(); }
// whose client it is: the instance, its storage, its HTTP client
async function instances() { fresh(); sessionStorage.clear(); const o: any = { page: {}, script: {} }; const n = level('name', (x) => ['one', 'two'][H.choose(x, 2)]); put(o, n, 'instanceName'); const asked: any = { page: [], script: [] }; const client = (k: string) => ({ request: async (u: string) => { asked[k].push(u); return { status: 200, body: '[]' }; } }); const h = H.choose('client', 4); if (h & 1) o.page.httpClient = client('page'); if (h & 2) o.script.httpClient = client('script'); const name = effective(n, '$default_instance'); const consent = H.fork('consent'); if (consent) o.script.consentOptions = { consentRequired: true, consentStatus: H.fork('refused') ? 'denied' : 'granted' }; cookies.jar.length = 0; const erased = H.fork('erased elsewhere'); if (erased) cookies.jar.push({ name: 'EXP_client-abc_erased', value: '1', domain: 'example.com', attrs: {} } as any); for (const k of ['$default_instance', 'one', 'two']) sessionStorage.put('amp-exp-' + k + '-web-efghij', JSON.stringify({ old: { key: 'v' } }));
  const kept = begin(o, [flag('l', 'on', { on: [mut('l')] }), flag('r', 'on', { on: [mut('r')] }, { metadata: { evaluationMode: 'remote' } })], { ...base(), r: { R: pageObject('R') } }); await H.settle(70); const refused = consent && o.script.consentOptions.consentStatus === 'denied'; H.observe([live(), refused]);
  for (const k of ['$default_instance', 'one', 'two']) { const there = sessionStorage.raw('amp-exp-' + k + '-web-efghij') !== null; if (refused) H.assert(there === (k !== name), 'what a refusal clears', { k, name }); else if (k !== name) H.assert(sessionStorage.raw('amp-exp-' + k + '-web-efghij') === JSON.stringify({ old: { key: 'v' } }), 'others are left alone', { k, name }); else if (erased) { H.assert(!(sessionStorage.raw('amp-exp-' + k + '-web-efghij') || '').includes('old'), 'a refusal elsewhere is carried over', { k }); H.cover('carried over'); } } if (refused) { H.assert(live().length === 0 && !asked.page.length && !asked.script.length && !fetches.length, 'nothing starts', {}); H.cover('refused'); return; }
  const by = h & 1 ? 'page' : h & 2 ? 'script' : 'fetch'; H.assert((asked.page.length > 0) === (by === 'page') && (asked.script.length > 0) === (by === 'script') && (fetches.length > 0) === (by === 'fetch'), 'asked through', { by, asked, n: fetches.length }); H.assert(live().includes('l'), 'started', {}); H.cover(by); kept(); }
// consent options, each on its own
async function consent() { fresh(); const o: any = { page: {}, script: {} }; const S = ['granted', 'pending', 'denied']; const req = level('required', (x) => H.bool(x)), st = level('status', (x) => S[H.choose(x, 3)]); for (const k of ['page', 'script']) { const c: any = {}; if ((req as any)[k]) c.consentRequired = (req as any)[k].v; if ((st as any)[k]) c.consentStatus = (st as any)[k].v; if (Object.keys(c).length || H.fork('empty ' + k)) o[k].consentOptions = c; }
  const kept = begin(o, [flag('l', 'on', { on: [mut('l')] })], base()); await H.settle(60); const required = effective(req, false), status = effective(st, 'pending'); const on = H.or(H.not(required), status === 'granted'); H.observe([live(), status]); H.assert(H.eq(live().length, H.ite(on, 1, 0)), 'started if consent is given or not needed', { live: live(), req, st }); const started = H.conc(on); H.cover(started ? 'started' : 'deferred'); const then = H.choose('then', 3); setConsentStatus(S[then] as any); await H.settle(60); H.assert(live().length === (started || then === 0 ? 1 : 0), 'later consent starts it', { live: live(), then }); kept(); }
export const cells: Record<string, any> = { servers, redirects, navigation, sessions, instances, consent };
export const meta = { mustCover: ['eu', 'us', 'both', 'latest configuration', 'address', 'not in address', 'cookie', 'no cookie', 'tracked', 'not tracked', 'follows', 'stays', 'one session', 'two sessions', 'refused', 'carried over', 'page', 'script', 'fetch', 'started', 'deferred'], bounds: ['each option given on the page, in the script, in both or in neither; zones of up to two letters of e, u, s in any case; four choices of relay and of flags server; redirect flags as booleans; session timeouts and pauses up to 4,000 s; three instance names; consent required or not and three statuses, field by field'], assumptions: ['the stand-ins of the page', 'options are given as values of their types: an option present with the value undefined or null is outside'] };
