// Broken, corrupted or refused browser storage never breaks the client.
import { localStorage, sessionStorage, blocked, clock, advance } from './lib/env';
import { client, Http, VARIANTS_KEY, FLAGS_KEY } from './lib/browser';
import { Experiment } from 'repo:experiment-browser/src/index';
declare const H: any;
const QUEUE = 'EXP_unsent_$default_instance', SENT = 'EXP_sent_v3_$default_instance', OPTS = VARIANTS_KEY + '-variants-options';
const JUNK = ['{', 'null', '5', '"x"', '[]', 'true', ''];
const text = (n: string) => { const k = H.choose(n, JUNK.length + 1); return k < JUNK.length ? JUNK[k] : H.str(n + '.text', { min: 1, max: 2, alpha: '{}[]"1tn,:' }); };
async function use(c: any, http: Http, label: string) {
  const tracked: any[] = [];
  const v = c.variant('f', 'fb'); H.assert(H.or(H.eq(v, { key: 'fb', value: 'fb' })), label + ': a variant or the fallback', v);
  c.exposure('f'); c.exposure('i'); H.assert(H.eq(c.variant('i'), { key: 'on', value: 'on' }), label + ': configured variants are served', c.variant('i'));
  c.all(); H.assert(H.eq(c.all().i, { key: 'on', value: 'on' }), label + ': all()');
  c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { tracked.push(e.eventProperties.flag_key); return true; } }); c.exposure('j');
  const p = c.fetch({ user_id: 'u' }); await H.settle(3); H.assert(http.of('vardata').length === 1, label + ': the request is still made', http.reqs.length); http.of('vardata')[0].ok({ g: { key: 'on', value: 'new' } }); await p; await H.settle(1);
  H.assert(H.eq(c.variant('g'), { key: 'on', value: 'new' }), label + ': fetched variants are served', c.variant('g'));
  await advance(clock.now + 1000, 1);
  H.assert(tracked.includes('j'), label + ': exposures still reach the integration', tracked);
  const q = c.start({ user_id: 'u' }); await H.settle(3); for (const r of http.reqs) if (!r.settled) r.ok(r.kind === 'flags' ? [{ key: 'l', variants: { on: { key: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } }] : {}); await q;
  H.assert(H.eq(c.variant('l').key, 'on'), label + ': fetched flags are evaluated'); c.stop(); c.clear(); H.assert(H.eq(c.variant('g'), {}), label + ': clear works');
  H.observe(tracked);
}
const cfg = { source: 'initialVariants', initialVariants: { i: { key: 'on', value: 'on' }, j: { key: 'on', value: 'on' } }, automaticExposureTracking: true, exposureTrackingProvider: { track() {} } };
async function corrupted(key: string, session: boolean) { const junk = text('content'); if (key === FLAGS_KEY && junk.length) H.assume(junk.charCodeAt(0) !== 34); (session ? sessionStorage : localStorage).put(key, junk); const http = new Http(); const c = client(cfg, http); H.cover('corrupted'); await use(c, http, 'corrupted storage'); }
async function failing(when: number) { // storage that refuses reads, writes or any access, from the start or later
  const how = H.choose('how', 4), which = H.choose('which', 3);
  const set = () => { for (const s of [localStorage, sessionStorage]) { if (which === 0 && s !== localStorage || which === 1 && s !== sessionStorage) continue; if (how === 0) s.__d.failSet = true; if (how === 1) s.__d.failGet = true; if (how === 2) s.__d.failAll = true; if (how === 3) { if (s === localStorage) blocked.local = true; else blocked.session = true; } } };
  const http = new Http(); if (when === 0) set(); const c = client(cfg, http); if (when === 1) set(); H.cover('failing ' + how); await use(c, http, 'failing storage');
}
export const cells: Record<string, any> = {
  'fail from start': () => failing(0), 'fail later': () => failing(1),
  'variants': () => corrupted(VARIANTS_KEY, false), 'flags': () => corrupted(FLAGS_KEY, false), 'options': () => corrupted(OPTS, false), 'queue': () => corrupted(QUEUE, false), 'sent': () => corrupted(SENT, true),
  'entries': () => { // one unusable entry does not hide the others
    const bad = H.pick('bad', ['null', '5', 'true', '0', 'false']); const k = H.id('k', 2); localStorage.put(VARIANTS_KEY, `{"${k}":${bad},"z":{"key":"on","value":"on"},"y":"text"}`); const c = client({}, new Http()); const all = c.all(); H.observe(all);
    H.assert(H.eq(all, { z: { key: 'on', value: 'on' }, y: { key: 'text', value: 'text' } }), 'usable entries are kept, unusable ones dropped', all);
  },
  'factory': () => { // initialisation itself
    const how = H.choose('how', 4); for (const s of [localStorage, sessionStorage]) { if (how === 0) s.__d.failSet = true; if (how === 1) s.__d.failGet = true; if (how === 2) s.__d.failAll = true; } if (how === 3) { blocked.local = true; blocked.session = true; }
    const c: any = H.fork('amp') ? Experiment.initializeWithAmplitudeAnalytics('client-abcdef', { httpClient: new Http() as any } as any) : Experiment.initialize('client-abcdef', { httpClient: new Http() as any } as any);
    H.assert(H.eq(c.variant('f', 'fb'), { key: 'fb', value: 'fb' }), 'the client works'); c.exposure('f'); H.cover('factory');
  },
};
export const meta = { mustCover: ['corrupted', 'failing 0', 'failing 1', 'failing 2', 'failing 3', 'factory'], bounds: ['7 corrupt contents and every text up to 2 characters of {}[]"1tn,: under each of the 5 storage keys', 'local, session or both storages refusing writes, reads, every operation, or access itself, from the start or after construction'], assumptions: ['stored flag definitions that are valid JSON objects or texts have the shape of flags'] };
