// Exposure events wait for the integration: none lost, none doubled, in order.
import { localStorage, clock, timers, advance } from './lib/env';
import { client } from './lib/browser';
declare const H: any;
const QUEUE = 'EXP_unsent_$default_instance';
const N = 8;
const initialVariants: any = {}; for (let i = 0; i < N; i++) initialVariants['e' + i] = { key: 'on', metadata: { deliveryMethod: 'web', n: i } };
const mk = (): any => client({ source: 'initialVariants', initialVariants: JSON.parse(JSON.stringify(initialVariants)) });
const names = (l: any[]) => l.map((e: any) => e.eventProperties.flag_key);
function world(storage: boolean) {
  const w: any = { pushed: [], delivered: [], calls: 0, mode: 'accept', c: null, plugged: false, deferred: [] };
  if (!storage) localStorage.__d.failSet = true;
  w.answer = (e: any) => { const n = w.calls++; const k = w.mode === 'accept' ? 0 : w.mode === 'reject' ? 1 : H.choose('answer' + n, 3); if (k === 2) throw new Error('tracker failed'); if (k === 0) { w.delivered.push(e); return true; } return false; };
  w.plug = (setup: number) => { const p: any = { type: 'integration', getUser: () => ({}), track: (e: any) => w.answer(e) }; if (setup) p.setup = () => new Promise((res: any, rej: any) => w.deferred.push(setup === 1 ? res : rej)); w.c.addPlugin(p); w.plugged = true; };
  w.start = () => { w.c = mk(); w.plugged = false; w.deferred = []; };
  w.push = () => { const k = 'e' + w.pushed.length; w.pushed.push(k); w.c.exposure(k); };
  w.check = (label: string) => {
    const raw = storage ? localStorage.raw(QUEUE) : null; const stored = raw ? names(JSON.parse(raw)) : []; const d = names(w.delivered);
    if (storage) H.assert(H.eq([...d, ...stored], w.pushed), label, { delivered: d, stored, pushed: w.pushed });
    else H.assert(H.eq(d, w.pushed.slice(0, d.length)), label, { delivered: d, pushed: w.pushed });
  };
  w.start();
  return w;
}
async function history(n: number, storage: boolean, reloads: boolean, answers: string, fills = false) {
  const w = world(storage); w.mode = answers;
  for (let i = 0; i < n; i++) {
    const op = H.choose('op' + i, reloads || fills ? 5 : 4);
    if (op === 0) w.push();
    else if (op === 1) { if (w.plugged) continue; w.plug(H.choose('setup' + i, 3)); await H.settle(2); }
    else if (op === 2) { if (!w.deferred.length) continue; w.deferred.shift()(); await H.settle(2); }
    else if (op === 3) { await advance(clock.now + 1000, 1); }
    else if (fills) { localStorage.__d.failSet = !localStorage.__d.failSet; H.cover('full'); }
    else { timers.list.length = 0; w.start(); H.cover('reload'); }
    if (fills) { const d = names(w.delivered); H.assert(H.eq(d, w.pushed.slice(0, d.length)), 'each is delivered once and in order', { d, pushed: w.pushed }); } else w.check('every event is delivered once, in order, or still queued');
  }
  // at last the integration works
  w.mode = 'accept'; if (!w.plugged) w.plug(0); while (w.deferred.length) w.deferred.shift()(); await H.settle(2);
  await advance(clock.now + 1000, 1); await advance(clock.now + 1000, 1);
  H.observe([names(w.delivered), w.pushed]);
  if (w.pushed.length) H.cover('delivered');
  H.assert(H.eq(names(w.delivered), w.pushed), 'a working integration gets everything within two seconds', { delivered: names(w.delivered), pushed: w.pushed });
  const calls = w.calls; await advance(clock.now + 10000, 1); H.assert(w.calls === calls, 'nothing is sent again', w.calls);
}
export const cells: Record<string, any> = {
  'stored 4': () => history(4, true, true, 'any'), 'memory 4': () => history(4, false, false, 'any'),
  'full 5': () => history(5, true, false, 'accept', true), 'full 4': () => history(4, true, false, 'any', true), 'stored 5': () => history(5, true, true, 'any'), 'stored 6 accept': () => history(6, true, true, 'accept'), 'memory 5': () => history(5, false, false, 'any'), 'stored 6': () => history(6, true, true, 'any'),
  'late reject': async () => { // accepted, then rejected once the queue had been empty: still retried every second
    const w = world(H.fork('storage')); w.plug(0); const k = H.choose('k', 3); for (let i = 0; i < k; i++) w.push(); await advance(clock.now + H.int('gap', 0, 3000), 1);
    w.mode = 'reject'; w.push(); if (H.fork('two')) w.push(); await advance(clock.now + H.int('down', 0, 5000), 1, 40); w.mode = 'accept'; await advance(clock.now + 1000, 1, 40); H.observe(names(w.delivered));
    H.assert(H.eq(names(w.delivered), w.pushed), 'a rejected event is retried within a second of the integration recovering', { delivered: names(w.delivered), pushed: w.pushed }); w.check('none twice'); H.cover('recovered');
  },
  'cap': async () => { // at most 512 waiting events, the oldest are dropped
    const have = 509 + H.choose('have', 4); const l: any[] = []; for (let i = 0; i < have; i++) l.push(`{"eventType":"x","eventProperties":{"flag_key":"o${i}"}}`); localStorage.put(QUEUE, '[' + l.join(',') + ']');
    const w = world(true); const more = H.choose('more', 5); const all: string[] = []; for (let i = 0; i < have; i++) all.push('o' + i); for (let i = 0; i < more; i++) { w.push(); all.push('e' + i); }
    const stored = names(JSON.parse(localStorage.raw(QUEUE))); H.assert(H.eq(stored, all.slice(-512)), 'the newest 512 are kept in order', [stored.length, stored[0], stored[stored.length - 1]]); H.cover('cap');
  },
  'cap memory': async () => { // the same bound holds without local storage
    const w = world(false); const have = 511 + H.choose('have', 3); const q: string[] = []; for (let i = 0; i < have; i++) { const k = 'e' + (i % N); q.push(k); w.c.exposure(k); }
    w.plug(0); await H.settle(2); await advance(clock.now + 1000, 1); H.assert(H.eq(names(w.delivered), q.slice(-512)), 'the newest 512 are delivered in order', w.delivered.length);
  },
  'instances': () => { // queues are kept per instance name
    const w = world(true); const nm = H.id('n', 2); w.push(); const other = client({ instanceName: 'i' + nm, source: 'initialVariants', initialVariants }); const got: any[] = []; other.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { got.push(e); return true; } }); H.assert(got.length === 0, 'events of another instance are not taken', got); w.check('still queued');
  },
  'reentrant': async () => { // an integration which itself exposes flags while it is given events
    const w = world(H.fork('storage')); const from: string[] = []; const own = w.answer; let busy = 0; w.answer = (e: any) => { const k = e.eventProperties.flag_key; if (!from.includes(k) && from.length < 2 && H.fork('exposes' + from.length)) { from.push(k); const at = H.choose('answer first' + from.length, 2); if (at) { const r = own(e); w.push(); return r; } w.push(); } return own(e); };
    const k = H.choose('waiting', 2); for (let i = 0; i < k; i++) w.push(); w.mode = H.fork('any') ? 'any' : 'accept'; w.plug(0); w.push(); await advance(clock.now + 1000, 1); w.mode = 'accept'; await advance(clock.now + 1000, 1); await advance(clock.now + 1000, 1); H.observe([names(w.delivered), w.pushed]); H.assert(H.eq(names(w.delivered), w.pushed), 'each is delivered once and in order, also those raised meanwhile', { delivered: names(w.delivered), pushed: w.pushed }); w.check('and nothing is left'); if (from.length) H.cover('reentrant'); },
  'swap': async () => { // a replaced integration takes over what is left, once
    const w = world(true); w.plug(0); w.mode = 'reject'; const k = H.choose('k', 3); for (let i = 0; i < k; i++) w.push(); const first = w.delivered; let torn = 0;
    w.mode = 'any'; w.c.addPlugin({ type: 'integration', getUser: () => ({}), teardown: async () => { torn++; }, track: (e: any) => w.answer(e) }); w.check('in order'); w.mode = 'accept'; await advance(clock.now + 1000, 1); w.push(); await advance(clock.now + 3000, 1);
    H.observe(names(w.delivered)); H.assert(H.eq(names(w.delivered), w.pushed), 'delivered once to the new integration', { d: names(w.delivered), p: w.pushed });
    H.assert(timers.list.length === 0, 'no timer is left running once the queue is empty', timers.list.length);
  },
  'replaced during setup': async () => { // an integration replaced while it sets up never receives events afterwards, nor does its setup activate the other
    const c: any = mk(); const done: any = {}; const got: any[] = []; const ready: any = {};
    class P { type = 'integration'; setup: any; constructor(public name: string, k: number) { if (k) this.setup = () => new Promise((res: any, rej: any) => { done[name] = k === 1 ? res : rej; }); else ready[name] = true; } getUser() { return {}; } track(e: any) { H.assert(this instanceof P, 'track keeps its receiver'); got.push([this.name, e.eventProperties.flag_key]); return true; } }
    const k1 = H.choose('first', 3), k2 = H.choose('second', 3); c.exposure('e0'); c.addPlugin(new P('a', k1)); await H.settle(2); H.assert(H.eq(got, k1 === 0 ? [['a', 'e0']] : []), 'set up first', got); const base = got.length;
    if (H.fork('finish first')) { if (k1) { done.a(); await H.settle(2); } }
    const aHad = got.length; c.addPlugin(new P('b', k2)); c.exposure('e1'); await H.settle(2);
    const order = H.fork('order'); const fin = async (n: string) => { const before = got.length; if (done[n]) { done[n](); await H.settle(2); } if (n === 'b') ready.b = true; for (const g of got.slice(Math.max(before, 0))) H.assert(g[0] !== 'b' || ready.b, 'no event before set-up is done', { got, n }); };
    if (order) { await fin('a'); await fin('b'); } else { await fin('b'); await fin('a'); } c.exposure('e2'); await advance(clock.now + 1000, 1);
    H.observe(got); H.assert(H.eq(got.map((g: any) => g[1]), ['e0', 'e1', 'e2']), 'every event once in order', got); H.assert(got[got.length - 1][0] === 'b', 'the new integration takes over', got); if (aHad === 0) H.assert(got.every((g: any) => g[0] === 'b'), 'only the new integration gets events', got); H.cover('replaced');
  },
};
export const meta = { thoroughOnly: ['stored 5', 'stored 6 accept', 'memory 5', 'stored 6'], mustCover: ['reload', 'reentrant', 'full', 'delivered', 'recovered', 'cap', 'replaced'], bounds: ['histories of 4 operations (thorough: 6) among expose, add integration (setup absent/succeeding/failing), finish setup, one second passing, reload or the storage becoming full or usable; the integration accepts, rejects or throws on every call', 'queues of 509..512 waiting events plus 0..4 new ones'], assumptions: ['one tab; the page is not closed between the integration taking an event and the queue being written'] };
