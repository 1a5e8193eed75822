// Outside of a browser - a server, a worker, a native application - whatever is missing there, the rest works.
import { clock, advance, timers, setGlobal, window, localStorage, sessionStorage, location, navigator, document } from './lib/env';
import { Http } from './lib/browser';
import { Experiment, ExperimentClient } from 'repo:experiment-browser/src/index';
import { TimeoutError } from 'repo:experiment-core/src/index';
import { AnalyticsConnector } from 'repo:analytics-connector/src/index';
declare const H: any; declare const __env: any;
const PARTS = ['document', 'navigator', 'location', 'localStorage', 'sessionStorage'], TIMERS = ['setTimeout', 'clearTimeout', 'setInterval', 'clearInterval'];
const saved: any = {}; for (const k of [...PARTS, ...TIMERS]) saved[k] = (window as any)[k];
const whole: any = __env.globalThis; let made = 0;
const SCOPES = ['globalThis', 'window', 'self'];
const fresh = () => { for (const k of SCOPES) __env[k] = whole; for (const k of Object.keys(saved)) setGlobal(k, saved[k]); (window as any).analyticsConnectorInstances = undefined; location.href = 'https://e.com/p?q=1'; };
const local = (key: string, page: boolean) => ({ key, variants: { on: { key: 'on', value: 'on' }, off: { key: 'off', metadata: { default: true } } }, segments: page ? [{ conditions: [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/p'] }]], variant: 'on' }, { variant: 'off' }] : [{ conditions: [[{ selector: ['context', 'user', 'user_id'], op: 'is', values: ['u'] }]], variant: 'on' }, { variant: 'off' }], metadata: { evaluationMode: 'local' } });
function without(all: boolean) { fresh(); const gone: any = {}; if (all) { for (const k of SCOPES) __env[k] = H.fork('null') ? null : undefined; for (const k of [...PARTS, ...TIMERS]) { __env[k] = undefined; gone[k] = true; } return gone; } for (const k of PARTS) if (H.fork(k)) { setGlobal(k, undefined); gone[k] = true; } if (H.fork('timers')) for (const k of TIMERS) { setGlobal(k, undefined); gone[k] = true; } return gone; }
async function use(all: boolean) {
  const gone = without(all); const h = new Http(); const events: any[] = []; const cfg: any = { instanceName: 'w' + made++, httpClient: h, initialVariants: { i: { key: 'on', value: 'on' } }, automaticExposureTracking: true, fetchTimeoutMillis: 1000, initialFlags: JSON.stringify([local('b', false)]) };
  const c: any = Experiment.initialize('client-abcdef', cfg); H.assert(Experiment.initialize('client-abcdef', { ...cfg, initialVariants: {} }) === c, 'the same client', {}); const same = (a: any, b: any, label: string) => H.assert(H.eq(a, b), label, { a, b, gone });
  same(c.variant('x', 'fb'), { key: 'fb', value: 'fb' }, 'a fallback'); same(c.variant('i').key, 'on', 'a bootstrapped variant');
  const early = H.fork('exposed before'); c.setUser({ user_id: 'u' }); if (early) c.variant('b'); c.addPlugin({ type: 'integration', getUser: () => ({ device_id: 'd' }), track: (e: any) => { events.push(e.eventProperties.flag_key); return true; } }); await H.settle(4);
  const p = c.start({ user_id: 'u' }); await H.settle(4); const fl = h.of('flags')[0], va = h.of('vardata')[0]; H.assert(!!fl && !!va, 'flags and variants are requested', { n: h.reqs.length, gone }); const sent = JSON.parse(va.headers['X-Amp-Exp-User'].slice(4)); H.observe(sent);
  H.assert(sent.user_id === 'u' && sent.device_id === 'd' && sent.platform === 'Web', 'for the user', { sent }); H.assert(sent.language === (gone.navigator ? '' : 'en-US') && (gone.navigator ? !('user_agent' in sent) : sent.user_agent === 'ua'), 'with what is known', { sent, gone }); H.assert(gone.location ? !('url_param' in sent) : H.eq(sent.url_param, { q: '1' }), 'the address if there is one', { sent, gone }); H.assert((sent.landing_url !== undefined) === !(gone.location || gone.sessionStorage) && (all || (sent.first_seen !== undefined) === !gone.localStorage), 'what needs storage only with it', { sent, gone });
  const how = H.choose('answer', 3); fl.ok([local('l', false), local('pg', true)]); if (how === 0) va.ok({ g: { key: 'on', value: 'new' } }); else va.fail(how === 1 ? new Error('e') : new TimeoutError('t')); H.assert((await p.then(() => 'ok', () => 'no')) === 'ok', 'start succeeds', {}); await H.settle(4);
  same(c.variant('l').key, 'on', 'flags are evaluated'); same(c.variant('pg').key, gone.location ? 'off' : 'on', 'by what is known'); same(c.variant('b').key, 'on', 'initial flags too'); if (how === 0) same(c.variant('g').value, 'new', 'variants are served'); const known = Object.keys(c.all()).sort().join(); H.assert(known === (how === 0 ? 'b,g,i,l,pg' : 'b,i,l,pg'), 'and listed', { known });
  if (!gone.setTimeout) await advance(clock.now + 2000, 4, 20); const want = ['b', ...(how === 0 ? ['g'] : []), 'l', 'pg']; await H.settle(4); H.assert(H.eq(events.filter((e, i) => events.indexOf(e) === i).sort(), want.sort()) && events.length === want.length, 'exposures are tracked, each once', { events, want, gone });
  if (how && !gone.setTimeout) H.assert(h.of('vardata').length > 1, 'retries while there are timers', {}); const n = h.reqs.length; c.stop(); if (!gone.setTimeout) { await advance(clock.now + 700000, 4, 20); H.assert(h.of('flags').length <= n, 'stops', {}); } c.clear(); same(c.variant('g'), {}, 'clears'); c.setUser({ user_id: 'other' }); same(c.variant('l').key, 'off', 'another user'); await H.settle(2); H.assert(H.rejections().length === 0, 'nothing is left to fail unnoticed', { rejections: H.rejections() }); H.cover(all ? 'nothing at all' : Object.keys(gone).length ? 'some' : 'all');
}
async function analytics() { // with the analytics SDK of the connector
  const all = H.fork('nothing'); const gone = without(all); const h = new Http(); h.auto = (r: any) => ({ body: r.kind === 'flags' ? [] : { g: { key: 'on' } } }); const name = 'c' + made++; const c: any = Experiment.initializeWithAmplitudeAnalytics('client-abcdef', { instanceName: name, httpClient: h as any, automaticExposureTracking: true } as any); const cn: any = AnalyticsConnector.getInstance(name); const got: any[] = [];
  const early = H.fork('identified'); if (early) cn.identityStore.editIdentity().setUserId('a').commit(); const p = c.fetch(); await H.settle(6); if (!early && !gone.setTimeout) { H.assert(h.reqs.length === 0, 'waits for an identity', {}); cn.identityStore.editIdentity().setUserId('a').commit(); await H.settle(6); } await p; H.assert(h.of('vardata').length === 1, 'asks', {}); const sent = JSON.parse(h.of('vardata')[0].headers['X-Amp-Exp-User'].slice(4)); H.observe(sent); H.assert(sent.user_id === (early || !gone.setTimeout ? 'a' : undefined), 'as known', { sent, gone }); cn.eventBridge.setEventReceiver((e: any) => got.push(e.eventProperties.flag_key)); c.variant('g'); await H.settle(4); if (!gone.setInterval) await advance(clock.now + 1000, 4, 5); H.assert(got.join() === 'g', 'tracks', { got, gone }); await H.settle(2); H.assert(H.rejections().length === 0, 'nothing is left to fail unnoticed', { rejections: H.rejections() }); H.cover(all ? 'analytics, nothing' : 'analytics'); }
export const cells: Record<string, any> = { use: () => use(false), nothing: () => use(true), analytics };
export const meta = { mustCover: ['all', 'some', 'nothing at all', 'analytics', 'analytics, nothing'], bounds: ['every combination of document, navigator, location, either storage and the timers missing, or all, and the global object with them; three answers; with and without identity and exposures beforehand'], assumptions: ['the HTTP client is given', 'what is missing is missing from the construction of the client on'] };
