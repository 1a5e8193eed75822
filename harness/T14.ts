// Exposures: once per page and variant, exactly for what is active there; redirects are tracked where they lead, once.
import './lib/env';
import { KEY, flag, mut, inject, redirect, pageObject, configs, integration, clock, advance, setGlobal, window, location, go, live, page, browser, spa, back, sessionStorage, cookies, timers } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
declare const H: any;
const O = 'https://example.com', RED = 'EXP_client-abc_REDIRECT';
const has = (path: any) => [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [path] }]];
const create = (flags: any[], pages: any, cfg: any = {}) => DefaultWebExperimentClient.getInstance(KEY, configs(flags, pages), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) }, ...cfg } as any) as any;
const seg = (v: string) => ({ conditions: [[{ selector: ['context', 'user', 'user_properties', 'v'], op: 'is', values: [v] }]], variant: v, metadata: { segmentName: v } });
const list = (evs: any[]) => evs.filter((e) => (e.eventType === '$impression' || e.eventType === '$exposure')).map((e) => e.eventProperties.flag_key + ':' + (e.eventProperties.variant ?? 'off'));
const same = (a: string[], b: string[]) => H.eq(a.slice().sort(), b.slice().sort());
// visits: navigation to other and same pages, variant changes and triggers
async function visits(N: number) {
  browser(); go(O + '/a'); const evs = integration(); const cond = H.str('part', { min: 1, max: 2, alpha: '/abz' }); const kind = H.choose('kind', 3); const acts = [[mut('m', ['p']), mut('n', ['q'])], [inject('i1', ['p']), inject('i2', ['q'])], [mut('m', ['p']), inject('i2', ['q'])]][kind]; const VS = ['A', 'B', 'control', 'none', 'empty'];
  const c = create([flag('f', 'off', { A: acts, B: acts, control: [], empty: [] }, { segments: VS.map(seg).filter((s) => s.variant !== 'none') }), flag('g', 'on', { on: [mut('always')] })], { f: { p: pageObject('p', 'url_change', {}, has(cond)), q: pageObject('q', 'manual', { name: 'Q' }) }, g: { x: pageObject('x') } });
  let v = H.fork('start with A') ? 'A' : 'none'; (window as any).experimentIntegration.getUser = () => ({ user_id: 'u', device_id: 'd', user_properties: { v } }); await c.start(); await H.settle(40);
  let path = '/a', query = '', base = '', Q = false, cache: any = {}; const check = (what: string) => { const b = O + path; if (b !== base) { base = b; cache = {}; } const P = H.conc(H.eq(true, (O + path + query).includes(cond))); const want: string[] = []; const tr = (k: string, val: string) => { if (cache[k] !== val) { cache[k] = val; want.push(k + ':' + val); } }; tr('g', 'on'); if (P || Q) { if (v === 'A' || v === 'B') tr('f', v); else if (v === 'control') tr('f', 'control'); else if (v === 'none') tr('f', 'off'); } const got = list(evs); H.observe(got); H.assert(same(got, want), 'what is tracked', { got, want, what, path, v, P, Q }); evs.length = 0; if (want.length > 1) H.cover('both'); if (!want.length) H.cover('nothing anew'); };
  check('start'); for (let i = 0; i < N; i++) { const op = H.choose('op' + i, 5); if (op < 2) { const t = op ? (path === '/a' ? '/b' : '/a') : path; query = op ? '' : '?n=' + i + '#h'; path = t; Q = false; spa(path + query); } else if (op === 2) { v = VS[H.choose('v' + i, 5)]; c.getExperimentClient().setUser({ ...c.getExperimentClient().getUser(), user_properties: { v } }); await c.applyVariants(); } else { Q = op === 3; c.toggleManualPageObject('Q', Q); } await H.settle(40); check('step ' + i); } H.cover('visits'); }
// impressions of redirects: wherever they were kept, tracked once with their variant, then forgotten
async function impressions() {
  browser(); const enc = (o: any) => btoa(JSON.stringify(o)); const R: any = { here: O + '/here', there: O + '/there' }; const kept: any = {}; const inSession: any = {}, inCookie: any = {}, inUrl: any = {}; const cfgC = H.fork('cookies on'), cfgU = H.fork('address on'); const flags = ['r1', 'r2']; const want: any = {};
  for (const f of flags) { const where = H.choose('where ' + f, 5), to = H.fork('to ' + f) ? 'here' : 'there'; const imp = (s: string) => ({ redirectUrl: R[to] + (f === 'r2' ? '?x=1#y' : ''), variantKey: where === 4 ? 'vX' : 'v' + s, expKey: 'exp', metadata: { m: f } }); if (where === 1 || where === 4) inSession[f] = imp('S'); if (where === 2 || where === 4) inCookie[f] = imp('C'); if (where === 3 || where === 4) inUrl[f] = imp('U'); if (where) { const s = cfgU && inUrl[f] ? 'U' : inSession[f] ? 'S' : cfgC && inCookie[f] ? 'C' : ''; if (s) want[f] = { v: where === 4 ? 'vX' : 'v' + s, to, U: s === 'U' }; } }
  go(O + '/here?q=1' + (Object.keys(inUrl).length ? '&AMP_REDIRECT=' + encodeURIComponent(H.fork('garbage') ? 'x!' : enc(inUrl)) : '')); const broken = location.href.includes('x!'); if (broken) for (const f of flags) if (want[f]?.U && !inSession[f] && !(cfgC && inCookie[f])) delete want[f];
  if (Object.keys(inSession).length) sessionStorage.put(RED, JSON.stringify(inSession)); if (Object.keys(inCookie).length) cookies.jar.push({ name: RED, value: encodeURIComponent(JSON.stringify(inCookie)), domain: 'example.com', attrs: {} } as any);
  const evs = integration(); const c = create([flag('g', 'on', { on: [] })], { g: { x: pageObject('x') } }, { redirectConfig: { encodeRedirectInCookie: cfgC, encodeRedirectInUrl: cfgU } }); await c.start(); await H.settle(40);
  const due = (t: string) => Object.keys(want).filter((f) => want[f].to === t).map((f) => f + ':' + want[f].v); const first = list(evs); H.observe(first); H.assert(same(first, due('here')), 'tracked at once where the redirect led', { first, want }); evs.length = 0; if (cfgU) H.assert(!location.href.includes('AMP_REDIRECT') && location.search === '?q=1', 'the address is cleaned', location.href);
  const nav = H.choose('navigate', 4), at = [100, 300, 499][H.choose('at', 3)]; await advance(clock.now + at, 20, 10); let got = list(evs); H.assert(same(got, []), 'others are not tracked before half a second', got); let left = due('there'); if (nav === 3) { await c.applyVariants(); await advance(clock.now + 510 - at, 20, 10); got = list(evs); H.assert(same(got, left), 'the others once half a second later', { got, left }); evs.length = 0; left = []; spa('/other'); await H.settle(40); H.cover('left in between'); } else if (nav) { spa(nav === 1 ? '/other' : '/there'); await H.settle(40); got = list(evs); const now = nav === 2 ? left.filter((x) => !x.endsWith('vU')) : []; H.assert(same(got, now), 'the page the redirect led to is reached late', { got, left }); left = left.filter((x) => !now.includes(x)); evs.length = 0; } await advance(clock.now + 3000, 30, 20); got = list(evs); H.assert(same(got, left), 'the others once half a second later', { got, left, nav, at }); for (const e of evs) if ((e.eventType === '$impression' || e.eventType === '$exposure')) H.assert(e.eventProperties.experiment_key === 'exp', 'their experiment'); evs.length = 0;
  H.assert(sessionStorage.raw(RED) === null && (!cfgC || !cookies.jar.some((x: any) => x.name === RED)), 'forgotten', [sessionStorage.raw(RED), cookies.jar]); spa('/here'); await H.settle(40); await advance(clock.now + 3000, 30, 20); got = list(evs); H.assert(same(got, []), 'and not tracked again', got); if (first.length) H.cover('at once'); if (left.length) H.cover('later'); if (nav === 2 && due('there').length) H.cover('reached late'); }
// an impression stored while another one is due is not lost
async function meanwhile() {
  browser(); go(O + '/here'); sessionStorage.put(RED, JSON.stringify({ r1: { redirectUrl: O + '/gone', variantKey: 'v1' } })); const evs = integration(); let to: string[] = []; const cfgC = H.fork('cookies on'); const c = create([flag('g', 'on', { on: [redirect('https://' + (H.fork('cross') ? 'x.' : '') + 'example.com/target')] })], { g: { x: pageObject('x', 'manual', { name: 'Q' }) } }, { redirectConfig: { encodeRedirectInCookie: cfgC } }); c.setRedirectHandler((u: string) => { to.push(u); }); await c.start(); await H.settle(40); const at = H.choose('at', 4) * 150; await advance(clock.now + at, 20, 10); c.toggleManualPageObject('Q', true); await H.settle(40); H.assert(to.length === 1, 'redirected', to); await advance(clock.now + 499 - at, 20, 10); const early = list(evs); H.assert(same(early, []), 'not yet', early); await advance(clock.now + 10, 20, 10); const a = list(evs); H.assert(same(a, ['r1:v1']), 'the one which was due', a); const s = JSON.parse(sessionStorage.raw(RED) || '{}'); H.assert(!!s.g && !s.r1, 'the newer one is kept', s); evs.length = 0; go(to[0]); spa('/target'); dispatchUrl(c); await H.settle(40); await advance(clock.now + 2000, 20, 10); const b = list(evs); H.observe(b); H.assert(same(b, ['g:on']), 'and tracked where it led', b); H.assert(sessionStorage.raw(RED) === null, 'then forgotten', sessionStorage.raw(RED)); H.cover('meanwhile'); }
// records which were damaged: what is usable in them and elsewhere is tracked, and nothing else
async function damaged() {
  const FORMS = ['"abc"', '[1]', '7', 'null', '{bad', '{"d":null}', '{"d":"x"}', '{"d":{}}', '{"d":{"redirectUrl":7,"variantKey":"on"}}', '{"d":{"redirectUrl":"not an address","variantKey":"on"}}', '{"d":{"redirectUrl":"' + O + '/here"}}', '{"d":[]}']; browser(); const form = FORMS[H.choose('form', FORMS.length)], where = H.choose('where', 3), good = H.choose('good', 4), led = H.fork('led here'); const r1 = { redirectUrl: O + (led ? '/here' : '/gone'), variantKey: 'v1' }; const mix = form.startsWith('{"d"') && good === where; const text = mix ? JSON.stringify({ ...JSON.parse(form), r1 }) : form; const parts: (string | null)[] = [null, null, null]; if (good < 3) parts[good] = JSON.stringify({ r1 }); parts[where] = text; const tracked = good < 3 && (good !== where || mix);
  go(O + '/here' + (parts[2] !== null ? '?AMP_REDIRECT=' + encodeURIComponent(btoa(parts[2] as string)) : '')); if (parts[0] !== null) sessionStorage.put(RED, parts[0]); if (parts[1] !== null) cookies.jar.push({ name: RED, value: encodeURIComponent(parts[1] as string), domain: 'example.com', attrs: {} } as any);
  const evs = integration(); const c = create([flag('g', 'on', { on: [mut('m')] })], { g: { x: pageObject('x') } }, { redirectConfig: { encodeRedirectInCookie: true, encodeRedirectInUrl: true } }); await c.start(); await H.settle(40); H.assert(c.isRunning && live().includes('m'), 'the tag runs', live()); const first = list(evs); H.observe(first); H.assert(same(first, ['g:on', ...(tracked && led ? ['r1:v1'] : [])]), 'what is usable is tracked', { first, text, where, good }); evs.length = 0; await advance(clock.now + 3000, 30, 20); const later = list(evs); H.assert(same(later, tracked && !led ? ['r1:v1'] : []), 'and later the rest', { later, text, where, good }); H.assert(!location.href.includes('AMP_REDIRECT'), 'the address is cleaned', location.href); H.cover('damaged'); }
const dispatchUrl = (c: any) => c.messageBus.publish('url_change', {});
export const cells: Record<string, any> = { visits: () => visits(2), visits3: () => visits(3), impressions, meanwhile, damaged };
export const meta = { thoroughOnly: ['visits3'], mustCover: ['both', 'nothing anew', 'visits', 'at once', 'later', 'reached late', 'left in between', 'meanwhile', 'damaged'], bounds: ['2 (thorough 3) steps of navigating elsewhere or to another query and fragment, changing among 5 variants, switching a trigger, a page matching any text of 1 or 2 characters of /abz, 3 mixtures of actions; impressions of two redirects in session, cookie, address or all, damaged or not, enabled or not, navigation to 2 other pages at 3 moments; another redirect at 4 moments before one is due', '12 damaged records in session, cookie or address, beside a good impression of this or another page in any of them or in none'], assumptions: ['base64 is as in browsers', 'copies of an impression in several places are of the same variant'] };
