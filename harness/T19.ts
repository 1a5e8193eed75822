// Remote experiments: applied once their flags are fetched (or cannot be), the page hidden meanwhile if asked, for a second at most.
import './lib/env';
import { fetches } from './lib/fetch';
import { KEY, flag, mut, redirect, pageObject, configs, integration, clock, advance, window, document, location, localStorage, sessionStorage, go, live, timers, page, browser, spa, listeners, setGlobal, mutations } from './lib/tag';
import { initialize } from 'repo:experiment-tag/src/index';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
declare const H: any;
const O = 'https://example.com';
const B = [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/b'] }]];
let events: any[] = [];
const fresh = () => { browser(); setGlobal('webExperiment', undefined); consentGate.reset(); for (const m of [(window as any).experimentInstances]) if (m) for (const k of Object.keys(m)) delete m[k]; listeners.length = 0; timers.list = []; mutations.live = []; fetches.length = 0; location.replaced.length = 0; events = integration(); overlay = false; (document as any).getElementById = (id: string) => (id === 'amp-exp-css' && overlay ? { id, remove() { overlay = false; } } : null); };
let overlay = false; // the style element a customer's snippet hides the page with
const hidden = () => overlay || page.sheets().some((c: string) => c.includes('visibility: hidden'));
const requests = () => fetches.filter((f: any) => String(f.url).includes('/flags'));
const three = (s: string) => ({ a: [mut(s + '-a')], b: [mut(s + '-b')], c: [mut(s + '-c')] });
const tracked = (from: number) => events.slice(from).map((e: any) => e.eventProperties.flag_key + '=' + e.eventProperties.variant).sort();
const served = (v: string, blocking: boolean) => [flag('r', v, three('r'), { metadata: blocking ? { blockingEvaluation: true } : {} })];
const ORDERS = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
// l: local; r: remote; d depends on r; g on d
const load = async (o: any) => { overlay = o.order > 2; go(O + (o.path || '/a') + (o.query || '')); const meta: any = { evaluationMode: 'remote' }; if (o.blocking) meta.blockingEvaluation = true; const r = flag('r', 'a', three('r'), { metadata: meta }), d = flag('d', 'on', { on: [mut('d')] }, { dependencies: ['r'] }), g = flag('g', 'on', { on: [mut('g')] }, { dependencies: ['d'] }), l = flag('l', 'on', { on: [o.redirects ? redirect(O + '/other') : mut('l')] }); const chain = [r, d, g]; const flags = ORDERS[o.order].map((i) => chain[i]); flags.splice(o.at || 0, 0, l); if (o.none) flags.splice(flags.indexOf(r), 1), flags.splice(flags.indexOf(d), 1), flags.splice(flags.indexOf(g), 1);
  const pages: any = { r: { R: pageObject('R', 'url_change', {}, o.elsewhere ? B : []) }, d: { D: pageObject('D') }, g: { G: pageObject('G') }, l: { L: pageObject('L') } }; initialize(KEY, configs(flags, pages), { useDefaultNavigationHandler: true, ...(o.config || {}) } as any); if (o.handler) (window as any).webExperiment.setRedirectHandler(o.handler); await H.settle(70); };
const shows = (want: string[], from: number, info: any) => { H.observe([live().slice().sort(), tracked(from)]); H.assert(live().slice().sort().join() === want.slice().sort().join(), 'what is on the page', { live: live(), want, info }); };
async function one(second: boolean) {
  fresh(); const order = H.choose('order', 6), blocking = H.fork('blocking'), elsewhere = H.fork('elsewhere'); const cached = second ? ['c', 'a'][H.choose('cached', 2)] : null; let from = 0;
  if (second) { await load({ order, blocking }); const q = requests()[0]; q.head(200); await H.settle(8); q.body(JSON.stringify(served(cached!, blocking))); await H.settle(60); shows(['l', 'r-' + cached, 'd', 'g'], 0, 'first page'); fresh(); }
  await load({ order, blocking, elsewhere, at: order % 4 }); const off = (r: string | null) => [...(r && !elsewhere ? ['r-' + r] : [])];
  H.assert(requests().length === 1 && requests()[0].url.includes('delivery_method=web'), 'the flags are fetched once', { n: fetches.map((f: any) => f.url) }); shows(['l', ...off(cached)], 0, 'local experiments do not wait'); const hide = blocking && !elsewhere; H.assert(hidden() === hide, 'the page is hidden only for a blocking experiment active on it', { blocking, elsewhere }); if (hide) H.cover('hidden'); else H.cover('shown'); H.assert(tracked(0).join() === ['l=on', ...(cached && !elsewhere ? ['r=' + cached] : [])].sort().join(), 'only what is applied is tracked', { got: tracked(0) });
  const t0 = clock.now, w = H.int('answer after', 0, 2500); await advance(t0 + w, 30, 20); const late = H.conc(w >= 1000); if (!late) { H.assert(hidden() === hide, 'hidden until answered', {}); shows(['l', ...off(cached)], 0, 'waiting'); } else H.assert(!hidden(), 'for a second at most', {}); clock.now = late ? t0 + 2500 : t0 + 999;
  const q = requests()[0], how = H.choose('answer', 6); let ok = false; if (how === 0) { q.head(200); await H.settle(8); q.body(JSON.stringify(served('b', blocking))); ok = !late; } else if (how === 1) { q.head(H.pick('status', [500, 404, 429])); await H.settle(8); q.body(''); } else if (how === 2) { q.head(200); await H.settle(8); q.body('{'); } else if (how === 3) q.fail(new TypeError('network')); else if (how === 4) { q.head(200); await H.settle(8); q.body('[]'); } else { await advance(t0 + 2600, 30, 20); }
  await H.settle(80); const now = ok ? 'b' : how === 4 && !late ? 'a' : cached || 'a'; shows(['l', ...off(now), 'd', 'g'], 0, { how, late }); H.assert(!hidden(), 'the page is shown in the end', { how, late }); H.assert((window as any).webExperiment.isRunning === true, 'and running', {}); H.cover(ok ? 'fetched' : late ? 'late' : 'failed'); const want = ['l=on', 'd=on', 'g=on', ...(elsewhere ? [] : ['r=' + now, ...(cached && cached !== now ? ['r=' + cached] : [])])].sort(); H.assert(tracked(0).join() === want.join(), 'each tracked once', { got: tracked(0), want, how, late }); from = events.length;
  if (elsewhere) { spa('/b'); await H.settle(40); shows(['l', 'r-' + now, 'd', 'g'], from, 'where it is active'); H.cover('elsewhere'); } H.assert(requests().length === 1, 'with one request in all', {}); }
async function without() { fresh(); const preview = H.choose('preview', 3); const redirects = preview === 0 && H.fork('redirects'), none = preview === 0 && !redirects; const order = H.choose('order', 6); const blocking = H.fork('blocking'); if (preview) sessionStorage.put('amp-preview-mode', JSON.stringify({ previewFlags: preview === 1 ? { r: 'c', d: 'off', g: 'on' } : { r: 'c' } })); setGlobal('WebExperiment', undefined); const soft = redirects && H.fork('soft'), went: string[] = []; await load({ order, blocking, redirects, none, handler: soft ? (u: string) => { went.push(u); } : null }); const cf = fetches.filter((f: any) => String(f.url).includes('configs')); if (preview) { H.assert(cf.length === 1, 'preview configuration', {}); cf[0].fail(new Error('x')); await H.settle(80); }
  const n = requests().length; H.observe([n, live().slice().sort()]); if (none) { H.assert(n === 0, 'nothing is fetched without remote experiments', {}); shows(['l'], 0, 'none'); H.cover('none'); } else if (redirects) { H.assert(n === 0 && (soft ? went : location.replaced).join() === O + '/other', 'nothing is fetched when leaving the page', { n, to: location.replaced }); H.assert(live().length === 0, 'nor applied', {}); const hide = blocking || order > 2; H.assert(hidden() === hide, 'and the page is not shown again for a blink', { blocking, order }); if (soft) { await advance(clock.now + H.pick('on the way', [0, 400]), 5, 5); H.assert(hidden() === hide, 'nor on the way', {}); spa('/other'); await H.settle(60); H.assert(!hidden(), 'shown once there', { blocking, order }); H.assert(live().slice().sort().join() === 'd,g,r-a', 'with what is known', { live: live() }); H.cover('handled'); } else { if (blocking) { await advance(clock.now + 1000, 5, 5); H.assert(!hidden(), 'for a second at most', {}); } H.cover('redirects'); } } else if (preview === 1) { H.assert(n === 0, 'nothing is fetched when all are previewed', { n }); shows(['l', 'r-c', 'g'], 0, 'all previewed'); H.assert(!hidden(), 'nor hidden', {}); H.cover('all previewed'); } else { H.assert(n === 1, 'the others are fetched', { n }); shows(['l', 'r-c'], 0, 'waiting'); const q = requests()[0]; q.head(200); await H.settle(8); q.body(JSON.stringify(served('b', blocking))); await H.settle(60); shows(['l', 'r-c', 'd', 'g'], 0, 'previewed stay'); H.cover('one previewed'); } if (!redirects) H.assert(!hidden(), 'shown', {}); }
// with a holdout or a mutex, who the visitor is must be known first
async function group() { fresh(); const key = ['holdout-1', 'mutex-1', 'x-holdout-', 'other'][H.choose('group', 4)], waits = key === 'holdout-1' || key === 'mutex-1', setup = H.choose('setup', 4); const identity: any = {}; let done: any = null; const plugin: any = { type: 'integration', track: (e: any) => { events.push(e); return true; }, getUser: () => ({ ...identity }) }; if (setup) plugin.setup = () => new Promise((res, rej) => { done = setup === 2 ? rej : res; }); else { identity.user_id = 'late'; } setGlobal('experimentIntegration', plugin); go(O + '/a'); const is = (v: string) => ({ segments: [{ conditions: [[{ selector: ['context', 'user', 'user_id'], op: 'is', values: [v] }]], variant: 'on' }] }); const flags = [flag('l', 'off', { on: [mut('l')] }, is('late')), flag(key, 'on', { on: undefined })]; initialize(KEY, configs(flags, { l: { L: pageObject('L') } }), { useDefaultNavigationHandler: true } as any); await H.settle(70); const early = !setup || !waits;
  if (setup) { H.assert(live().length === 0, 'nothing to show before', {}); H.assert(((window as any).webExperiment.isRunning === true) === early, 'a member of a group is evaluated only once the visitor is known', { key }); await advance(clock.now + H.int('wait', 0, 900), 10, 20); if (setup < 3) { identity.user_id = 'late'; done(); await H.settle(70); } } H.observe([live(), tracked(0)]);
  const on = !setup || (waits && setup < 3); H.assert(live().join() === (on ? 'l' : ''), 'and then as who he is', { live: live(), key, setup }); H.assert(((window as any).webExperiment.isRunning === true) === (early || setup < 3), 'after which the client runs', {}); H.cover(waits ? (setup ? 'group waits' : 'group') : 'no group'); }
export const cells: Record<string, any> = { first: () => one(false), second: () => one(true), without, group };
export const meta = { mustCover: ['hidden', 'shown', 'fetched', 'late', 'failed', 'elsewhere', 'none', 'redirects', 'handled', 'all previewed', 'one previewed', 'group', 'group waits', 'no group'], bounds: ['one local and one remote experiment and a chain of two depending on it, in all six orders; blocking or not; active on the page or on another; first page or after another which cached an answer; an answer at any moment up to 2.5 s, in time or not, three statuses, malformed, network failure, empty, or none; previews of all or one, a local redirect; a holdout or mutex, or not, with an integration set up at any moment, failing, or never'], assumptions: ['the stand-ins of the page'] };
