// The deprecated analytics provider: user property set and event tracked once per value, unset once per loss.
import './lib/env';
import { clock, advance } from './lib/env';
import { client, Http, storeFlags } from './lib/browser';
import { Experiment, AmplitudeUserProvider, AmplitudeAnalyticsProvider } from 'repo:experiment-browser/src/index';
declare const H: any;
const flag = (key: string) => ({ key, variants: { on: { key: 'on', value: 'von' }, ctl: { key: 'ctl', value: 'vctl' }, nov: { key: 'nov' } }, segments: [
  { conditions: [[{ selector: ['context', 'user', 'user_properties', 'p'], op: 'is', values: ['a'] }]], variant: 'on' }, { conditions: [[{ selector: ['context', 'user', 'user_properties', 'p'], op: 'is', values: ['b'] }]], variant: 'ctl' }, { conditions: [[{ selector: ['context', 'user', 'user_properties', 'p'], op: 'is', values: ['c'] }]], variant: 'nov' }], metadata: { evaluationMode: 'local' } });
function steps(n: number, one = false) {
  storeFlags({ f: flag('f'), toString: flag('toString') }); const got: any[] = []; const hasSet = one || H.fork('hasSet'), hasUnset = one || H.fork('hasUnset'); const p: any = { track(e: any) { got.push(['track', e]); } }; if (hasSet) p.setUserProperty = (e: any) => got.push(['set', e]); if (hasUnset) p.unsetUserProperty = (e: any) => got.push(['unset', e]);
  const c = client({ analyticsProvider: p, automaticExposureTracking: true }); const st: any = Object.create(null);
  for (let i = 0; i < n; i++) { const key = !one && H.fork('key' + i) ? 'toString' : 'f', pv = H.id('p' + i, 4); c.setUser({ user_id: 'u', user_properties: { p: pv } }); const fb = !one && H.fork('fb' + i); got.length = 0; const v = fb ? c.variant(key, 'inline') : c.variant(key);
    const val = pv === 'a' ? 'von' : pv === 'b' ? 'vctl' : undefined; const names = got.map((g) => g[0]); H.observe(names); const s = (st[key] = st[key] || {});
    let want: string[]; if (val !== undefined) { want = s.v === val ? [] : hasSet ? ['set', 'track'] : ['track']; s.v = val; s.unset = false; } else { want = s.unset || !hasUnset ? [] : ['unset']; s.unset = true; s.v = undefined; }
    H.assert(H.eq(names, want), 'set and tracked once per value, unset once per loss', { i, names, want, pv, key }); H.cover(want.join('+') || 'nothing');
    for (const [, e] of got) { H.assert(e.name === '[Experiment] Exposure' && e.key === key && e.userProperty === '[Experiment] ' + key && e.user.user_id === 'u', 'event', e); if (val !== undefined) H.assert(e.variant.value === val && e.properties.key === key && e.properties.variant === val && e.userProperties['[Experiment] ' + key] === val, 'value', e); }
    if (val !== undefined) H.assert(v.value === val, 'lookup is unaffected', v); else if (fb && pv !== 'c') H.assert(v.value === 'inline', 'fallback', v);
  }
}
function instances() { // one client per instance name, API key and delivery
  const nm = ['$default_instance', 'n', 'm'], ks = ['client-aaaaaa', 'client-bbbbbb'], sx = [undefined, 'web', 'x']; const mk = (i: number) => { const n = H.choose('n' + i, 4), k = H.choose('k' + i, 2), s = H.choose('s' + i, 3); const cfg: any = { pollOnStart: false, httpClient: new Http(), initialVariants: { w: { key: 'i' + i } } }; if (n < 3) cfg.instanceName = nm[n]; if (sx[s]) cfg.internalInstanceNameSuffix = sx[s]; if (n === 3 && s === 0 && H.fork('noname' + i)) cfg.instanceName = H.fork('empty' + i) ? '' : undefined; const c = H.fork('amp' + i) ? Experiment.initializeWithAmplitudeAnalytics(ks[k], cfg) : Experiment.initialize(ks[k], cfg); return { id: (n === 3 ? 0 : n) + '/' + k + '/' + s, c }; };
  const a = mk(0), b = mk(1); H.assert((a.c === b.c) === (a.id === b.id), 'the same client exactly for the same instance', { a: a.id, b: b.id }); if (a.c === b.c) H.assert(b.c.variant('w').key === 'i0', 'the first configuration counts'); else { H.assert(b.c.variant('w').key === 'i1', 'own configuration'); a.c.setUser({ user_id: 'x' }); H.assert(!b.c.getUser() || b.c.getUser().user_id === undefined, 'own user'); } H.cover(a.c === b.c ? 'same' : 'different');
}
// the providers for the legacy Amplitude SDK: what it knows at the moment, and what is to be told to it
async function legacy(full: boolean) {
  const amp: any = {}; const opt = (o: any, k: string, i: string) => { const n = H.choose(i, 3); if (n === 1) o[k] = null; else if (n === 2) o[k] = i + H.id(i + 'v', 26); return n === 2 ? o[k] : undefined; }; const o: any = {}, ua: any = {}; const ids = full || H.fork('options'); let device: any, user: any, version: any, language: any, platform: any; if (ids) { device = opt(o, 'deviceId', 'd'); user = opt(o, 'userId', 'u'); if (!full) { version = opt(o, 'versionName', 've'); language = opt(o, 'language', 'la'); platform = opt(o, 'platform', 'pl'); } amp.options = o; }
  let name: any, major: any, model: any; const uak = full ? H.choose('agent', 4) : 0; if (uak) { amp._ua = ua; if (uak > 1) { ua.browser = {}; name = opt(ua.browser, 'name', 'n'); major = opt(ua.browser, 'major', 'm'); } if (uak === 3) { ua.os = {}; model = opt(ua.os, 'name', 'o'); } } const gone = !ids && !uak && H.fork('no sdk');
  const p: any = new AmplitudeUserProvider((gone ? undefined : amp) as any); const u: any = p.getUser(); H.observe(u); const is = (a: any, b: any) => (b === undefined ? H.or(H.eq(a, null), H.eq(a, undefined)) : H.eq(a, b)); H.assert(is(u.device_id, device) && is(u.user_id, user) && is(u.version, version) && is(u.language, language) && is(u.platform, platform) && is(u.device_model, model), 'what the SDK knows', { u }); H.assert(H.eq(u.os, [name, major].filter((x) => x !== undefined).join(' ')), 'the browser', { u });
  if (!full) { H.cover(gone ? 'no sdk' : 'sdk'); return; } const h = new Http(); h.auto = () => ({ body: {} }); const c = client({ userProvider: p }, h); const mine = H.choose('mine', 3); const first: any = {}; if (mine === 1) first.user_id = 'me'; if (mine === 2) first.device_id = 'mine'; await c.fetch(first); const sent = (i: number) => JSON.parse(h.of('vardata')[i].headers['X-Amp-Exp-User'].slice(4)); const s = sent(0); H.assert(is(s.user_id, mine === 1 ? 'me' : user) && is(s.device_id, mine === 2 ? 'mine' : device), 'is sent unless the application says otherwise', { s, mine }); o.userId = 'later'; await c.fetch(first); H.assert(sent(1).user_id === (mine === 1 ? 'me' : 'later'), 'as of now', { s: sent(1) }); H.cover('merged'); }
function told(n: number) { // every exposure is an event of its name with its properties and sets the property; a loss unsets it
  storeFlags({ f: flag('f'), toString: flag('toString') }); const got: any[] = []; const amp: any = { logEvent(...a: any[]) { H.assert(this === amp, 'as a method', {}); got.push(['log', ...a]); }, setUserProperties(...a: any[]) { H.assert(this === amp, 'as a method', {}); got.push(['set', ...a]); }, _logEvent(...a: any[]) { H.assert(this === amp, 'as a method', {}); got.push(['_log', ...a]); } }; const c = client({ analyticsProvider: new AmplitudeAnalyticsProvider(amp), automaticExposureTracking: true }); const st: any = Object.create(null);
  for (let i = 0; i < n; i++) { const key = H.fork('key' + i) ? 'toString' : 'f', pv = H.id('p' + i, 3); c.setUser({ user_id: 'u', user_properties: { p: pv } }); got.length = 0; c.variant(key); const val = pv === 'a' ? 'von' : pv === 'b' ? 'vctl' : undefined, prop = '[Experiment] ' + key; H.observe(got); let want: any[]; if (val === st[key] && (val || key in st)) want = []; else if (val) want = [['set', { [prop]: val }], ['log', '[Experiment] Exposure', { key, variant: val, source: 'local-evaluation' }]]; else want = [['_log', '$identify', null, null, { $unset: { [prop]: '-' } }]]; st[key] = val; H.assert(H.eq(got.map((g) => (g[0] === 'log' ? [g[0], g[1], { key: g[2].key, variant: g[2].variant, source: want[1] ? want[1][2].source : 0 }] : g)), want), 'the SDK is told', { got, want, i }); H.cover(val ? 'told' : 'untold'); } }
export const cells: Record<string, any> = { legacy: () => legacy(false), 'legacy user': () => legacy(true), told: () => told(2), told3: () => told(3), 'steps 2': () => steps(2), 'steps 3': () => steps(3), 'one flag': () => steps(4, true), instances };
export const meta = { thoroughOnly: ['steps 3', 'told3'], mustCover: ['sdk', 'no sdk', 'merged', 'told', 'untold', 'set+track', 'track', 'unset', 'nothing', 'same', 'different'], bounds: ['4 lookups of one flag; 2 (thorough: 3) lookups over 2 flags, 2 values, a variant without value and no variant, with and without inline fallback, providers with and without the optional methods; pairs of initialisations over 3 instance names or none, 2 API keys and 3 delivery suffixes', 'the legacy Amplitude SDK absent or with each of its 8 facts missing, null or any letter; 2 (thorough: 3) lookups of two flags told to it'], assumptions: [] };
