// The Segment integration.
import { clock, timers, localStorage, blocked, advance, setGlobal, window } from './lib/env';
import { client, Http } from './lib/browser';
import { segmentIntegrationPlugin } from 'repo:plugin-segment/src/index';
declare const H: any;
const G: any = window;
function at(t: any, fn: () => void) { timers.list.push({ id: ++timers.seq, fn, due: clock.now + t, delay: t, interval: false, args: [], fired: 0 } as any); }
// Segment's real SDK
function sdk(got: any[], accept: () => boolean = () => true) { const cbs: any[] = []; const s: any = { initialized: false, initialize() {}, ready(cb: any) { if (s.up) cb(); else cbs.push(cb); }, up: false, start() { s.up = true; s.initialized = true; for (const c of cbs.splice(0)) c(); }, track(t: any, p: any) { got.push([t, p.flag_key]); if (!accept()) throw new Error('segment'); }, user: () => ({ id: () => s.uid, anonymousId: () => s.aid, traits: () => s.tr }), uid: 'su', aid: 'sa', tr: { t: 'st' } }; return s; }
async function flow(modes: string[]) {
  const mode = modes[H.choose('mode', modes.length)]; const got: any[] = [], other: any[] = []; const real = sdk(got); const key = H.fork('instanceKey') ? 'segm' : 'analytics'; const skip = H.fork('skipSetup'); const opt: any = skip ? { skipSetup: true } : {}; if (key !== 'analytics') opt.instanceKey = key;
  G[key] = undefined; const t = H.pick('t', [0, 30, 120, 1500]); const t0 = clock.now; let due: any = t;
  // how Segment comes to the page
  if (mode === 'given') { opt.instance = real; G[key] = sdk(other); if (t === 0) real.start(); else at(t, () => real.start()); }
  else if (mode === 'present') { G[key] = real; if (t === 0) real.start(); else at(t, () => real.start()); }
  else if (mode === 'nested') { G[key] = { instance: real, ready() { throw new Error('not here'); } }; if (t === 0) real.start(); else at(t, () => real.start()); }
  else if (mode === 'snippet') { G[key] = H.fork('queued') ? [['page']] : undefined; at(t, () => { const q = G[key]; G[key] = real; real.start(); for (const e of q) if (e[0] === 'ready') real.ready(e[1]); }); }
  else if (mode === 'npm') { at(t, () => { G[key] = real; real.start(); }); due = t + 50; } // calls queued in the stub are ignored
  const plugin: any = segmentIntegrationPlugin(opt); const c = client({ source: 'initialVariants', initialVariants: { a: { key: 'on' }, b: { key: 'on' }, c: { key: 'on' } } }, new Http()); c.addPlugin(plugin);
  const n = H.choose('n', 3) + 1; for (let i = 0; i < n; i++) { c.exposure(['a', 'b', 'c'][i]); await H.settle(2); if (H.fork('wait' + i)) await advance(clock.now + 100, 3, 30); if (clock.now < t0 + t) H.assert(got.length === 0, 'nothing before Segment is ready', got); }
  if (mode !== 'npm' && clock.now < t0 + t) { await advance(t0 + t + 1, 3, 200); await H.settle(3); H.assert(plugin.getUser().user_id === 'su', 'ready as soon as Segment is', { mode, t, skip }); } const end = Math.max(clock.now, t0 + due) + (skip ? 1050 : 60); await advance(end, 3, 200); await H.settle(4); H.assert(!timers.list.some((x: any) => x.interval && x.delay === 50), 'and no longer asked', { mode }); H.observe(got); H.assert(H.eq(got, ['a', 'b', 'c'].slice(0, n).map((k) => ['$exposure', k])), 'delivered once, in order, when Segment is ready', { got, n, t, mode, skip }); H.assert(other.length === 0, 'to the given instance'); const u = plugin.getUser(); H.assert(H.eq(u, { user_id: 'su', device_id: 'sa', user_properties: { t: 'st' } }), 'the user of Segment', u); real.uid = 'x'; H.assert(plugin.getUser().user_id === 'x', 'at the moment'); H.cover(mode); if (skip) H.cover('skip');
}
function before() { // until then the identity Segment has stored; anything unusable counts as absent
  G.analytics = undefined; const val = (n: string) => { const k = H.choose(n, 5); return k === 0 ? { raw: undefined } : k === 1 ? { v: 'i' + H.id(n + 'v', 26) } : k === 2 ? { raw: 'null' } : k === 3 ? { raw: H.pick(n + 'r', ['{', 'plain', '"', '']) } : { raw: H.str(n + 's', { min: 1, max: 2, alpha: '{}[]"1tn' }), any: true }; };
  const vs: any = { ajs_user_id: val('u'), ajs_anonymous_id: val('a') }; const tk = H.choose('traits', 4); const tr = tk === 1 ? { k: 'v' + H.id('tv', 26) } : undefined; for (const k of Object.keys(vs)) { const v = vs[k]; if (v.v !== undefined) localStorage.put(k, JSON.stringify(v.v)); else if (v.raw !== undefined) localStorage.put(k, v.raw); } if (tk) localStorage.put('ajs_user_traits', tk === 1 ? JSON.stringify(tr) : tk === 2 ? '{"k"' : 'null');
  const br = H.choose('storage', 3); if (br === 1) blocked.local = true; if (br === 2) localStorage.__d.failAll = true; const p: any = segmentIntegrationPlugin(H.fork('skip') ? { skipSetup: true } : {}); const u = p.getUser(); H.observe(u);
  const w = (x: any) => (br ? undefined : x); if (!vs.ajs_user_id.any) H.assert(H.eq(u.user_id, w(vs.ajs_user_id.v)), 'user id', u); if (!vs.ajs_anonymous_id.any) H.assert(H.eq(u.device_id, w(vs.ajs_anonymous_id.v)), 'device id', u); H.assert(H.eq(u.user_properties, w(tr)), 'traits', u); H.assert(p.track({ eventType: 'x', eventProperties: {} }) === false, 'nothing is tracked yet'); H.cover(br ? 'unusable' : 'stored');
}
async function rejecting() { // an event Segment fails on is retried
  let ok = false; const got: any[] = []; const real = sdk(got, () => ok); real.start(); G.analytics = undefined; const c = client({ source: 'initialVariants', initialVariants: { a: { key: 'on' }, b: { key: 'on' } } }, new Http()); c.addPlugin(segmentIntegrationPlugin({ instance: real }) as any); await H.settle(4); c.exposure('a'); const n = H.choose('n', 3); await advance(clock.now + n * 1000, 3, 10); ok = true; got.length = 0; if (H.fork('more')) c.exposure('b'); await advance(clock.now + 1000, 3, 10); H.assert(got.length >= 1 && got[0][1] === 'a' && got.filter((g) => g[1] === 'a').length === 1, 'retried until accepted', got); H.cover('rejecting');
}
export const cells: Record<string, any> = { loaded: () => flow(['given', 'present', 'nested']), loading: () => flow(['snippet', 'npm']), before, rejecting };
export const meta = { mustCover: ['given', 'present', 'nested', 'snippet', 'npm', 'skip', 'stored', 'unusable', 'rejecting'], bounds: ['5 ways Segment comes to the page, ready after 0, 30, 120 or 1500 ms, default and configured instance key, with and without waiting for setup, 1..3 exposures with 0 or 100 ms in between; stored ids and traits absent, valid, null or any text up to 2 characters of {}[]"1tn; storage blocked or failing'], assumptions: ['the Segment SDK is a stand-in'] };
