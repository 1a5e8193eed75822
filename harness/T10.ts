// Events shared among subdomains through a hidden frame.
import { clock, timers, location, listeners, advance, document, window, localStorage, rnd, mkElement, setGlobal } from './lib/env';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { RelayClient, getRelayUrl } from 'repo:experiment-tag/src/behavioral-targeting/relay-client';
import { BehavioralTargetingManager } from 'repo:experiment-tag/src/behavioral-targeting/behavioral-targeting-manager';
declare const H: any;
const KEY = 'client-abcdefghij', URL_ = 'https://cdn.amplitude.com/script/' + KEY + '.relay.html', ORIGIN = 'https://cdn.amplitude.com', STORE = 'EXP_client-abc_rtbt_events';
let draws = 0; rnd.next = () => (++draws * 997) / 65536; let us = 0; (window as any).crypto = { randomUUID: () => 'u' + us++ };
const frames: any[] = []; const posts: any[] = []; // every frame created; every request posted to one
document.createElement = ((tag: string) => { const e: any = mkElement(tag); if (tag === 'iframe') { e.contentWindow = { postMessage: (r: any, to: string) => { posts.push({ r, to, at: clock.now, frame: frames.indexOf(e) }); } }; frames.push(e); } return e; }) as any;
const say = (data: any, origin = ORIGIN, source: any = frames[frames.length - 1] && frames[frames.length - 1].contentWindow) => { for (const l of listeners.slice()) if (l.type === 'message') l.fn({ data, origin, source }); };
const outcome = (p: Promise<any>) => { const o: any = { n: 0 }; p.then((v) => { o.n++; o.v = v; o.at = clock.now; }, (e) => { o.n++; o.e = e.message; o.at = clock.now; }); return o; };
const ev = (uuid: string) => ({ uuid, id: 1, event_type: 'a', timestamp: 1, session_id: 's', properties: {} });
const ready = () => H.fork('form') ? { type: 'AMP_RELAY_READY' } : 'AMP_RELAY_READY';
async function trust() { // only the frame itself, from its own origin, is listened to
  const r = new RelayClient(KEY, 'user', URL_); r.init(); await H.settle(1); H.assert(frames.length === 1 && frames[0].src === URL_ && frames[0].style.display === 'none' && (document as any).body.children.includes(frames[0]), 'one hidden frame'); const fromOrigin = H.bool('origin'), fromFrame = H.bool('frame'); const o = () => fromOrigin ? ORIGIN : ['https://cdn.amplitude.com.evil.com', 'http://cdn.amplitude.com', 'https://example.com', 'null', ''][H.choose('o', 5)], s = () => fromFrame ? frames[0].contentWindow : H.fork('none') ? null : window; const ok = fromOrigin && fromFrame;
  const k = H.choose('k', 5); if (k === 0) { say(ready(), o(), s()); H.assert(r.relayAvailable === ok, 'available when the frame says so', { ok }); H.cover(ok ? 'ready' : 'not trusted'); return; } const junk = [null, undefined, 5, 'other', { type: 'other' }, [], { requestId: 'no' }]; if (k === 1) { say(junk[H.choose('junk', 7)], o(), s()); H.assert(!r.relayAvailable, 'not by anything else'); return; }
  say('AMP_RELAY_READY'); const p = outcome(r.checkMigrated('x')); await H.settle(1); const id = posts[0].r.requestId; H.assert(posts.length === 1 && posts[0].to === ORIGIN && posts[0].r.apiKey === KEY && posts[0].r.web_exp_id_v2 === 'user' && posts[0].r.type === 'CHECK_MIGRATED' && posts[0].r.payload.sourceOrigin === 'x', 'the request', posts);
  if (k === 2) { say({ requestId: id, ok: true, payload: { migrated: true } }, o(), s()); await H.settle(2); H.assert(p.n === (ok ? 1 : 0) && (!ok || p.v === true), 'answered only by the frame', p); H.cover(ok ? 'answered' : 'not trusted'); return; }
  say(k === 3 ? junk[H.choose('junk', 7)] : { requestId: id + '0', ok: true, payload: { migrated: true } }, ORIGIN, frames[0].contentWindow); await H.settle(2); H.assert(p.n === 0, 'only by its own answer', p); await advance(clock.now + 2000, 2, 3); H.assert(p.n === 1 && p.e === 'relay rpc timeout', 'else it fails after two seconds', p); say({ requestId: id, ok: true, payload: { migrated: true } }); await H.settle(2); H.assert(p.n === 1, 'once'); H.cover('timeout'); }
async function rpc() { // two requests answered in any order, at any time, or not
  const r = new RelayClient(KEY, 'user', URL_); const early = outcome(r.checkMigrated('x')); await H.settle(1); H.assert(early.n === 1 && early.e === 'relay unavailable' && posts.length === 0, 'nothing is sent before the frame is ready', early); r.init(); say('AMP_RELAY_READY'); const T0 = clock.now; const call = (k: number) => k === 0 ? r.readEvents() : k === 1 ? r.checkMigrated('o') : r.migrateEvents('o', { events: [], nextId: 1 }); const ks = [H.choose('k0', 3), H.choose('k1', 3)]; const ps = ks.map((k) => outcome(call(k))); H.assert(posts.length === 2 && posts[0].r.requestId !== posts[1].r.requestId, 'two requests'); ks.forEach((k, i) => { const q = posts[i]; H.assert(q.to === ORIGIN && q.r.apiKey === KEY && q.r.web_exp_id_v2 === 'user' && q.r.type === ['READ_EVENTS', 'CHECK_MIGRATED', 'MIGRATE_EVENTS'][k] && (k === 0 || q.r.payload.sourceOrigin === 'o') && (k < 2 || H.eq(q.r.payload.store, { events: [], nextId: 1 })), 'each asks what it should', q); });
  const at = [H.int('t0', 1, 3000), H.int('t1', 1, 3000)], oks = [H.bool('ok0'), H.bool('ok1')], kind = [H.choose('p0', 3), H.choose('p1', 3)]; const gone = H.fork('destroyed') ? H.int('td', 1, 3000) : null; H.assume(H.and(H.ne(at[0], at[1]), H.ne(at[0], 2000), H.ne(at[1], 2000), gone === null ? true : H.and(H.ne(gone, at[0]), H.ne(gone, at[1]), H.ne(gone, 2000)))); const payload = (i: number) => kind[i] === 0 ? undefined : ks[i] === 0 ? { events: [ev('z' + i)], nextId: 2 } : { migrated: kind[i] === 1 };
  const steps: any[] = [0, 1].map((i) => ({ t: at[i], f: () => say({ requestId: posts[i].r.requestId, ok: oks[i], ...(kind[i] === 1 ? { error: 'why' + i } : {}), ...(payload(i) === undefined ? {} : { payload: payload(i) }) }) })); if (gone !== null) steps.push({ t: gone, f: () => r.destroy() }); steps.sort((a, b) => a.t - b.t); for (const s of steps) { await advance(T0 + s.t, 1, 3); s.f(); await H.settle(1); } await advance(T0 + 9000, 1, 4); H.observe(ps.map((p) => [p.v, p.e, p.at]));
  [0, 1].forEach((i) => { const p = ps[i]; H.assert(p.n === 1, 'settles exactly once', { p, i }); const end = gone === null ? 2000 : H.ite(gone < 2000, gone, 2000); if (H.conc(at[i] < end)) { H.assert(H.eq(p.at, T0 + at[i]), 'when answered', p); if (H.conc(oks[i])) { const v = payload(i) as any; H.assert(p.e === undefined && H.eq(p.v, ks[i] === 0 ? v || { events: [], nextId: 1 } : ks[i] === 1 ? !!(v && v.migrated) : undefined), 'with the answer', { p, v }); } else H.assert(kind[i] === 1 ? p.e === 'why' + i : typeof p.e === 'string' && p.e.length > 0 && !/^why/.test(p.e), 'or its failure', p); } else { H.assert(H.eq(p.at, T0 + end) && p.e === (gone !== null && H.conc(gone < 2000) ? 'relay destroyed' : 'relay rpc timeout'), 'or when it is too late', p); H.cover('late'); } }); }
async function init() { // initialisation ends when the frame is ready, after two seconds, or when torn down
  const r = new RelayClient(KEY, 'user', URL_); const T0 = clock.now; const body = (document as any).body; const late = H.fork('no body'); if (late) (document as any).body = null; const a = outcome(r.init()), b = outcome(r.init()); const w = outcome(r.waitForAvailable(H.int('wait', 0, 5000) + 0)); const wait = 0; if (late) { H.assert(frames.length === 0, 'waits for the body'); await advance(T0 + 40, 1, 4); (document as any).body = body; await advance(T0 + 60, 1, 4); }
  const k = H.choose('k', 3), t = H.int('t', 61, 6000); H.assume(H.ne(t, 2000)); if (k < 2) { await advance(T0 + t, 2, 6); if (k === 0) say('AMP_RELAY_READY'); else r.destroy(); await H.settle(2); } await advance(T0 + 9000, 2, 6); H.assert(frames.length === 1, 'one frame', frames.length); const end = k < 2 ? H.ite(t < 2000, t, 2000) : 2000; H.assert(a.n === 1 && b.n === 1 && a.e === undefined && H.and(H.eq(a.at, T0 + end), H.eq(b.at, a.at)), 'initialised', { a, b }); H.assert(w.n === 1 && r.relayAvailable === (k === 0), 'available', w);
  if (k === 1) { H.assert(!(document as any).body.children.includes(frames[0]) && !listeners.some((l: any) => l.type === 'message') && timers.list.length === 0, 'nothing is left behind', timers.list.length); say('AMP_RELAY_READY'); H.assert(!r.relayAvailable, 'stays gone'); H.assert((await r.waitForAvailable()) === false, 'stays gone'); const c = outcome(r.init()); say('AMP_RELAY_READY'); await H.settle(1); H.assert(r.relayAvailable && c.n === 1 && frames.length === 2, 'unless initialised again'); H.cover('again'); } H.cover('initialised'); }
async function waiting() { const r = new RelayClient(KEY, 'user', URL_); r.init(); const T0 = clock.now; const d = H.int('wait', 1, 5000), t = H.int('t', 1, 6000), how = H.choose('how', 3); H.assume(H.and(H.ne(d, t), H.ne(t, 2000), H.ne(d, 2000))); const w = outcome(r.waitForAvailable(d)); await advance(T0 + t, 2, 4); if (how === 0) say('AMP_RELAY_READY'); if (how === 1) r.destroy(); await H.settle(2); await advance(T0 + 9000, 2, 4); const soon = how < 2 && H.conc(t < d); H.assert(w.n === 1 && w.v === (soon && how === 0) && H.eq(w.at, T0 + (soon ? t : d)), 'waits until it is available, at most so long', w); H.observe([w.v, w.at]); H.cover('waited'); }
async function writes() { // each event is sent until confirmed
  const r = new RelayClient(KEY, 'user', URL_); let avail = false, gone = false; r.init(); let pending: string[] = []; const flight: any[] = []; let n = 0;
  for (let i = 0; i < 5; i++) { const from = posts.length; const k = H.choose('k' + i, 6); let want: string[] = []; if (k === 0) { const again = pending.length > 0 && H.fork('again' + i); const u = again ? pending[0] : 'e' + n++; r.writeEvent(ev(u)); if (!gone) { if (!again) pending.push(u); if (avail) want = [u]; } }
    if (k === 1) { if (!avail && !gone) { say('AMP_RELAY_READY'); avail = true; want = [...pending]; } else continue; } if (k === 2) { r.flush(); if (avail) want = [...pending]; } if (k === 3) { const f = flight.filter((x) => !x.done); if (!f.length) continue; const x = f[H.choose('which' + i, f.length)]; x.done = true; const ok = H.fork('ok' + i); say({ requestId: x.id, ok }); await H.settle(2); if (ok && !gone) { pending = pending.filter((u) => u !== x.u); H.cover('confirmed'); } else H.cover('refused'); }
    if (k === 4) { await advance(clock.now + 2000, 2, 8); for (const x of flight) x.done = true; } if (k === 5) { if (gone) continue; r.destroy(); gone = true; avail = false; pending = []; for (const x of flight) x.done = true; await H.settle(1); }
    const got = posts.slice(from).map((p: any) => p.r.payload.event.uuid); H.assert(H.eq(got, want), 'the events sent', { got, want, i, k }); H.assert(posts.slice(from).every((p: any) => p.r.type === 'WRITE_EVENT' && p.to === ORIGIN), 'as events'); for (const p of posts.slice(from)) flight.push({ id: p.r.requestId, u: p.r.payload.event.uuid, done: false }); }
  if (avail) { await advance(clock.now + 2000, 2, 9); const from = posts.length; r.flush(); H.assert(H.eq(posts.slice(from).map((p: any) => p.r.payload.event.uuid), pending), 'what is not confirmed is sent again', pending); H.cover('resent'); } H.observe(pending); }
const rules = { f: { r: [[{ condition: { type: 'behavior', event_type: 'a', op: 'greater or equal', value: 2, time_type: 'rolling', time_value: 9, interval: 'day' } }]] } } as any;
const stored = (names: string[]) => names.map((u, i) => ({ ...ev(u), id: i + 1, timestamp: clock.now - 100 + i }));
// merging with the events of other subdomains, every step of which may fail; consent may be withdrawn at any step
async function sync(withConsent: boolean) {
  if (withConsent) { consentGate.required = true; consentGate.manager.setStatus('granted'); } const mine = H.choose('mine', 3); const mineIds = ['m0', 'both'].slice(0, mine); if (mine) localStorage.put(STORE, JSON.stringify({ events: stored(mineIds), nextId: 9 })); const theirs = ['both', 't1'].slice(0, H.choose('theirs', 3)); const before = mine >= 2; const m = new BehavioralTargetingManager(KEY, rules); H.assert(m.getMatchedBehaviors().has('f') === before, 'before'); const r = new RelayClient(KEY, 'user', URL_); const res = outcome(m.beginRelaySync(r)); await H.settle(1);
  const store = new Set<string>(theirs); let migrated = H.fork('migrated'); const faults: any = {}; let seen = 0, refusedAt = -1, late = 0; const avail = !H.fork('absent'); const stop = withConsent ? H.choose('refusal', 5) : 9; let step = 0; const maybeRefuse = () => { if (step++ === stop) { consentGate.manager.setStatus('denied'); refusedAt = posts.length; H.cover('refused during'); if (H.fork('event after')) m.trackEvent('a', {}); } };
  maybeRefuse(); if (avail) say('AMP_RELAY_READY'); else await advance(clock.now + 4100, 2, 8); await H.settle(2); let failed = !avail;
  for (let i = 0; i < 12 && seen < posts.length; i++) { const p = posts[seen++].r; maybeRefuse(); const write = p.type === 'WRITE_EVENT'; const fault = write || refusedAt >= 0 ? 0 : H.choose('fault ' + p.type, 3); if (fault === 2) { await advance(clock.now + 2000, 3, 4); failed = true; H.cover('no answer'); continue; } if (fault === 1) { say({ requestId: p.requestId, ok: false, error: 'no' }); failed = true; await H.settle(3); continue; } let payload: any; if (p.type === 'CHECK_MIGRATED') { H.assert(p.payload.sourceOrigin === 'https://example.com', 'origin'); payload = { migrated }; } if (p.type === 'MIGRATE_EVENTS') { H.assert(!migrated, 'migrated once'); H.assert(p.payload.sourceOrigin === 'https://example.com' && H.eq(p.payload.store.events.map((e: any) => e.uuid), mineIds), 'what is migrated', p.payload); for (const e of p.payload.store.events) store.add(e.uuid); migrated = true; } if (p.type === 'READ_EVENTS') payload = { events: stored([...store].filter((u) => theirs.includes(u))), nextId: 20 }; if (write) store.add(p.payload.event.uuid); say({ requestId: p.requestId, ok: true, payload }); await H.settle(3); }
  await advance(clock.now + 5000, 2, 6); H.assert(res.n === 1 && res.e === undefined, 'settles', res); H.observe([res.v, [...store]]);
  if (refusedAt >= 0) { H.assert(posts.slice(refusedAt).every((p: any) => !['WRITE_EVENT', 'MIGRATE_EVENTS'].includes(p.r.type)), 'no event is shared after a refusal', posts.slice(refusedAt)); return; }
  const after = m.getMatchedBehaviors().has('f'); H.assert(res.v.status === (!avail ? 'unavailable' : failed ? 'sync_failed' : after !== before ? 'behaviors_changed' : 'unchanged'), 'the outcome', { v: res.v, avail, failed, before, after }); const union = new Set([...mineIds, ...theirs]); H.assert(after === (res.v.status === 'unavailable' || res.v.status === 'sync_failed' ? before : union.size >= 2), 'the rules see the events of both', { after, union: [...union] }); if (!failed) { for (const u of union) H.assert(store.has(u), 'both have all events', [...store]); H.assert(posts.every((p: any) => p.r.type !== 'WRITE_EVENT' || !theirs.includes(p.r.payload.event.uuid)), 'what is there is not sent'); H.cover('synced'); if (after !== before) H.cover('changed'); } }
function url() { const zone = ['EU', 'US', undefined][H.choose('zone', 3)]; const own = ['https://x.com', 'https://x.com/', 'https://x.com//', undefined, ''][H.choose('own', 5)]; const u = getRelayUrl(KEY, zone, own); H.observe(u); H.assert(u === (own ? 'https://x.com' : zone === 'EU' ? 'https://cdn.eu.amplitude.com' : ORIGIN) + '/script/' + KEY + '.relay.html', 'the address of the frame', u); H.cover('url'); }
export const cells: Record<string, any> = { trust, rpc, init, waiting, writes, sync: () => sync(false), withdrawn: () => sync(true), url };
export const meta = { mustCover: ['ready', 'not trusted', 'answered', 'timeout', 'late', 'again', 'initialised', 'waited', 'confirmed', 'refused', 'resent', 'refused during', 'no answer', 'synced', 'changed', 'url'], bounds: ['messages from 5 other origins and 2 other windows, 7 other contents; 2 requests of 3 kinds answered, failing or torn down at any time up to 3 s; readiness or teardown at any time up to 6 s, with the body there or not; 5 steps of writing (anew or again), readiness, flushing, answers, timeouts, teardown; synchronising up to 2 own with up to 2 shared events, each step failing or unanswered, consent withdrawn before any step'], assumptions: ['nothing happens in the very millisecond of a timeout', 'random identities are distinct'] };
