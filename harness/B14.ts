// The integration with the analytics SDK.
import { clock, timers, localStorage, sessionStorage, cookies, blocked, log, advance, setGlobal } from './lib/env';
import { client, Http, KEY } from './lib/browser';
import { AnalyticsConnector } from 'repo:analytics-connector/src/index';
import { AmplitudeIntegrationPlugin } from 'repo:experiment-browser/src/integration/amplitude';
import { Experiment } from 'repo:experiment-browser/src/index';
declare const H: any;
setGlobal('atob', (s: any) => { if (!s.startsWith('~')) throw new Error('InvalidCharacterError'); return s.slice(1); }); // transparent stand-in
let seq = 0; const conn = () => AnalyticsConnector.getInstance('i' + seq++);
const setCookie = (name: string, value: any) => cookies.jar.push({ name, value, domain: '', attrs: {} } as any);
const API = '1234567890abcdef';
const state = (n: string) => { const s: any = {}; if (H.fork(n + '.d')) s.deviceId = n + H.id(n + 'd', 26); if (H.fork(n + '.u')) s.userId = n + H.id(n + 'u', 26); return s; };
// each place: nothing, a state, or something unusable
function persisted(places: string[], few = false) {
  const ak = H.choose('api', 3); const api = [API, KEY, ''][ak]; let want: any = null; const bad = ['%', '%zz', '~{', '~null', '!!'];
  for (const pl of ['new', 'old', 'local', 'session']) { if (!places.includes(pl)) continue; const k = H.choose(pl, 3); if (k === 0) continue; const s = state(pl);
    if (pl === 'new') setCookie('AMP_1234567890', k === 1 ? '~' + JSON.stringify(s) : bad[few ? 2 : H.choose('bad.new', 5)]);
    if (pl === 'old') { if (k === 1) s.deviceId = s.deviceId || 'dev'; setCookie('amp_123456', k === 1 ? s.deviceId + (s.userId || (!few && H.fork('dots')) ? '.' + (s.userId ? '~' + s.userId : '') + '..x.y' : '') : ['%', 'd.zz.x', '%E0%A4%A'][few ? 1 : H.choose('bad.old', 3)]); }
    if (pl === 'local' || pl === 'session') { const st = pl === 'local' ? localStorage : sessionStorage; st.put('AMP_1234567890', k === 1 ? JSON.stringify(s) : ['{', 'null', '5', '"x"', ''][few ? 2 : H.choose('bad.' + pl, 5)]); }
    if (k === 1 && want === null) want = s; H.cover(pl + k);
  }
  const other = !few && H.fork('other'); if (other) { setCookie('zz', '%'); setCookie('AMP_1234567890x', '~{"deviceId":"no"}'); }
  log.length = 0; const c = conn(); new AmplitudeIntegrationPlugin(api, c, 10000); const id = c.identityStore.getIdentity(); H.observe(id);
  if (ak > 0) { H.assert(id.deviceId === undefined && id.userId === undefined && log.length === 0, 'nothing is read for other keys', { id, log: log.length }); return; }
  H.assert(want ? H.eq(id.deviceId, want.deviceId) && H.eq(id.userId, want.userId) : !id.deviceId && !id.userId, 'the identity of the first usable place', { id, want });
}
function kept() { // a stored state without a user does not take away the one already known
  const c = conn(), u = H.id('known', 26), s = { deviceId: 'd' + H.id('d', 26), ...(H.fork('user') ? { userId: 'n' } : {}) } as any; c.identityStore.editIdentity().setUserId(u).commit(); const pl = H.choose('place', 4); if (pl === 0) setCookie('AMP_1234567890', '~' + JSON.stringify(s)); if (pl === 1) setCookie('amp_123456', s.deviceId + '.' + (s.userId ? '~' + s.userId : '') + '..x'); if (pl > 1) (pl === 2 ? localStorage : sessionStorage).put('AMP_1234567890', JSON.stringify(s));
  new AmplitudeIntegrationPlugin(API, c, 10000); const id = c.identityStore.getIdentity(); H.observe(id); H.assert(H.eq(id.userId, s.userId || u) && H.eq(id.deviceId, s.deviceId), 'the user stays known', { id, s, u }); H.cover('kept'); }
function garbled() { // any text in any place is survived
  const v = H.str('v', { min: 1, max: 3, alpha: '%E0~.{}"' }); const pl = H.choose('place', 4); if (pl < 2) setCookie(pl ? 'amp_123456' : 'AMP_1234567890', v); else (pl === 2 ? localStorage : sessionStorage).put('AMP_1234567890', v);
  const c = conn(); const p = new AmplitudeIntegrationPlugin(API, c, 10000); H.assert(typeof p.getUser() === 'object', 'constructed'); H.cover('garbled');
}
function inaccessible() { const k = H.choose('k', 3); if (k === 0) { blocked.local = blocked.session = true; } if (k === 1) { localStorage.__d.failAll = sessionStorage.__d.failAll = true; } if (k === 2) Object.defineProperty((globalThis as any).document, 'cookie', { configurable: true, get() { throw new Error('SecurityError'); } }); if (k === 2) sessionStorage.put('AMP_1234567890', JSON.stringify({ deviceId: 'd' }));
  const c = conn(); const p = new AmplitudeIntegrationPlugin(API, c, 10000); H.assert(H.eq(p.getUser().device_id, k === 2 ? 'd' : undefined), 'places which cannot be read are skipped'); H.cover('inaccessible'); }
async function waits() { // requests wait for an identity, at most ten seconds
  const name = 'w' + seq++; const c = AnalyticsConnector.getInstance(name); const known = H.choose('known', 3); if (known === 1) c.identityStore.editIdentity().setUserId('a').commit(); if (known === 2) c.identityStore.editIdentity().setDeviceId('a').commit();
  const h = new Http(); const cl = Experiment.initializeWithAmplitudeAnalytics(KEY, { instanceName: name, httpClient: h as any, automaticExposureTracking: false, pollOnStart: false }); const t0 = clock.now; const p = cl.fetch({ country: 'c' }); await H.settle(6);
  if (known) { H.assert(h.of('vardata').length === 1, 'sent at once if the identity is known'); H.cover('known'); }
  else { H.assert(h.of('vardata').length === 0, 'waits'); const t = H.int('t', 1, 20000); H.assume(H.not(H.eq(t, 10000))); const set = H.choose('set', 3); timers.list.push({ id: ++timers.seq, fn: () => { const e = c.identityStore.editIdentity(); if (set === 1) e.setUserId('a'); else if (set === 2) e.setDeviceId('a'); e.commit(); }, due: t0 + t, delay: 0, interval: false, args: [], fired: 0 } as any);
    await advance(t0 + 30000, 8, 5); await H.settle(6); const at = set ? (t < 10000 ? t : 10000) : 10000; H.assert(h.of('vardata').length === 1, 'sent', h.of('vardata').length); H.assert(H.eq(h.of('vardata')[0].at - t0, at), 'when the identity is known, or after ten seconds', { at: h.of('vardata')[0].at - t0, t, set }); H.cover(set ? (t < 10000 ? 'identified' : 'late') : 'never'); }
  const sent = JSON.parse(h.of('vardata')[0].headers['X-Amp-Exp-User'].slice(4)); H.observe(sent); H.assert(sent.country === 'c', 'the user given'); if (known) H.assert(known === 1 ? sent.user_id === 'a' : sent.device_id === 'a', 'and the identity', sent); h.of('vardata')[0].ok({}); await p;
}
async function refetch() { // a fetch for every change of identity, if asked for
  const name = 'r' + seq++; const on = H.choose('on', 3); const c = AnalyticsConnector.getInstance(name); const h = new Http(); h.auto = (r: any) => ({ body: {} }); c.identityStore.editIdentity().setUserId('x').commit(); Experiment.initializeWithAmplitudeAnalytics(KEY, { instanceName: name, httpClient: h as any, automaticExposureTracking: false, ...(on ? { automaticFetchOnAmplitudeIdentityChange: on === 1 } : {}) }); await H.settle(3);
  let u: any = 'x', d: any, n = 0; for (let i = 0; i < 3; i++) { const e = c.identityStore.editIdentity(); const k = H.choose('k' + i, 3); let ch: any = false; if (k === 0) { const v = H.id('u' + i, 2); ch = u !== v; e.setUserId(v); u = v; } if (k === 1) { const v = H.id('d' + i, 2); ch = d !== v; e.setDeviceId(v); d = v; } e.commit(); if (ch && on === 1) n++; await H.settle(6); H.assert(h.of('vardata').length === n, 'one fetch per change', { n, got: h.of('vardata').length, i }); if (ch && on === 1) { const s = JSON.parse(h.of('vardata')[n - 1].headers['X-Amp-Exp-User'].slice(4)); H.assert(H.eq([s.user_id, s.device_id], [u, d]), 'for the new identity', { s, u, d }); H.cover('refetch'); } }
  H.observe(n);
}
async function tracking() { // exposures reach the analytics SDK's receiver in order, once
  const name = 't' + seq++; const c = AnalyticsConnector.getInstance(name); c.identityStore.editIdentity().setUserId('x').commit(); const got: any[] = []; const cl = Experiment.initializeWithAmplitudeAnalytics(KEY, { instanceName: name, httpClient: new Http() as any, automaticExposureTracking: false, source: 'initialVariants' as any, initialVariants: { a: { key: 'on' }, b: { key: 'on' }, c: { key: 'on' } } }); await H.settle(8);
  const when = H.choose('when', 4); for (let i = 0; i < 3; i++) { if (when === i) c.eventBridge.setEventReceiver((e: any) => got.push(e)); const k = ['a', 'b', 'c'][i]; cl.exposure(k); if (H.fork('t' + i)) await advance(clock.now + 1000, 2, 5); if (when <= i) H.assert(got.length === i + 1, 'delivered at once when the SDK listens', got.length); else H.assert(got.length === 0, 'kept until then'); }
  if (when === 3) c.eventBridge.setEventReceiver((e: any) => got.push(e)); await advance(clock.now + 1000, 2, 5); H.observe(got); H.assert(H.eq(got.map((e) => [e.eventType, e.eventProperties.flag_key]), [['$exposure', 'a'], ['$exposure', 'b'], ['$exposure', 'c']]), 'in order, once, within a second', got); H.cover('tracking');
}
async function identity() { // the user evaluated is the analytics identity at the moment
  const c = conn(); const p = new AmplitudeIntegrationPlugin(KEY, c, 0); H.assert(p.setup === undefined, 'no wait without a limit'); const cl = client({ source: 'initialVariants' }, new Http()); cl.addPlugin(p as any);
  for (let i = 0; i < 2; i++) { const e = c.identityStore.editIdentity(); const u = H.id('u' + i, 26), d = H.id('d' + i, 26), v = H.id('p' + i, 26); e.setUserId(u).setDeviceId(d).updateUserProperties({ $set: { p: v } }).commit(); c.applicationContextProvider.versionName = 'v' + i; const g: any = p.getUser(); H.observe(g); H.assert(H.eq(g, { user_id: u, device_id: d, user_properties: { p: v }, version: 'v' + i }), 'current identity', g); H.cover('identity'); }
}
export const cells: Record<string, any> = { 'persisted cookies': () => persisted(['new', 'old']), 'persisted storage': () => persisted(['local', 'session']), 'persisted mixed': () => persisted(['old', 'local']), 'persisted all': () => persisted(['new', 'old', 'local', 'session'], true), kept, garbled, inaccessible, waits, refetch, tracking, identity };
export const meta = { mustCover: ['new1', 'new2', 'old1', 'old2', 'local1', 'local2', 'session1', 'session2', 'kept', 'garbled', 'inaccessible', 'known', 'identified', 'late', 'never', 'refetch', 'tracking', 'identity'], bounds: ['each of two places holding nothing, a state with or without device and user id, or 3..5 unusable contents, all four with one unusable content, and every text up to 3 characters of %E0~.{}"; identity arriving 1..20000 ms after the request or never; 3 identity edits; 3 exposures with the receiver set at any point'], assumptions: ['base64 is a transparent stand-in', 'identity does not arrive in the very millisecond of the limit'] };
