// Start, stop and flag polling.
import { clock, timers, advance } from './lib/env';
import { client, Http, quiet } from './lib/browser';
import { TimeoutError } from 'repo:experiment-core/src/index';
declare const H: any;
const flag = (v: string) => [{ key: 'l', variants: { [v]: { key: v } }, segments: [{ variant: v }], metadata: { evaluationMode: 'local' } }];
const nf = (h: Http) => h.of('flags').length, nv = (h: Http) => h.of('vardata').length;
async function until(t: any) { await advance(t, 2, 60); await H.settle(2); }
// Checks that from t0 (a poll just sent) flags are requested exactly every `iv`, answering each
async function polls(h: Http, c: any, iv: any, n: number, tag: string) {
  for (let i = 0; i < n; i++) {
    const t = clock.now; const have = nf(h); await until(t + iv - 1); H.assert(nf(h) === have, 'no poll before the interval', { have, n: nf(h), iv }); await until(t + iv); H.assert(nf(h) === have + 1, 'one poll per interval', { have, n: nf(h), iv });
    const r = h.of('flags')[have]; const k = H.choose(tag + i, 4); const old = c.variant('l').key;
    if (k === 0) r.ok(flag(tag + i)); else if (k === 1) r.fail(new Error('network')); else if (k === 2) r.ok('x', 500); else r.fail(new TimeoutError('late'));
    await H.settle(3); H.assert(c.variant('l').key === (k === 0 ? tag + i : old), 'a poll replaces the flags, a failed one keeps them', { k, got: c.variant('l'), old });
  }
}
async function starting() {
  const cfg: any = {}; const po = H.choose('poll', 3); if (po) cfg.pollOnStart = po === 1; const fo = H.choose('fetch', 3); if (fo) cfg.fetchOnStart = fo === 1; const io = H.choose('iv', 3); if (io) cfg.flagConfigPollingIntervalMillis = io === 1 ? H.int('interval', 0, 59999) : H.int('interval', 60000, 500000); cfg.throwOnError = H.fork('throw'); cfg.retryFetchOnFailure = false;
  const iv = io === 0 ? 300000 : io === 1 ? 60000 : cfg.flagConfigPollingIntervalMillis; const h = new Http(); const c = client(cfg, h);
  const p = c.start({ user_id: 'u' }).then(() => 'resolved', () => 'rejected'); await H.settle(3);
  H.assert(nf(h) === 1, 'flags are requested once', nf(h)); H.assert(nv(h) === (fo === 2 ? 0 : 1), 'variants are fetched unless switched off', nv(h)); H.cover(fo === 2 ? 'no fetch' : 'fetch');
  if (nv(h)) H.assert(H.eq(h.of('vardata')[0].timeoutMillis, 10000), 'fetch timeout'); 
  const k = H.choose('answer', 4); const r = h.of('flags')[0]; if (k === 0) r.ok(flag('one')); else if (k === 1) r.fail(new Error('network')); else if (k === 2) r.ok('[]', 403); else r.fail(new TimeoutError('late')); const k2 = fo === 2 ? 0 : H.choose('vanswer', 2); await H.settle(2); if (fo !== 2) { if (k2 === 0) h.of('vardata')[0].ok({ v: { key: 'on' } }); else h.of('vardata')[0].fail(new Error('network')); }
  const how = await p; await H.settle(2); const bad = k !== 0 || k2 !== 0; H.observe([how, nf(h)]); H.assert(how === (bad && cfg.throwOnError ? 'rejected' : 'resolved'), 'errors surface only when asked for', { how, k, k2 });
  if (k === 0) H.assert(c.variant('l').key === 'one', 'flags are in use once start is done'); if (fo !== 2 && k2 === 0) H.assert(c.variant('v').key === 'on', 'variants are in use once start is done');
  if (how === 'rejected') return;
  if (po === 2) { await until(clock.now + 1000000); H.assert(nf(h) === 1, 'no polling when switched off', nf(h)); H.cover('no poll'); return; }
  H.assert(nf(h) === 2, 'polling starts', nf(h)); h.of('flags')[1].ok(flag('two')); await H.settle(2); H.cover('poll'); await polls(h, c, iv, 1, 'q');
}
async function stopping() { // stop at any point ends polling for good, until started again
  const h = new Http(); const c = client({ retryFetchOnFailure: false, fetchOnStart: H.fork('fetch') }, h); const at = H.choose('at', 6); let p: any;
  if (at === 0) c.stop();
  else { p = c.start({ user_id: 'u' }); await H.settle(H.choose('turns', 3)); if (at === 1) c.stop(); await H.settle(2); h.of('flags')[0].ok(flag('a')); await H.settle(2); if (at === 2) c.stop(); if (nv(h)) { if (H.fork('vok')) h.of('vardata')[0].ok({}); else h.of('vardata')[0].fail(new Error('x')); } await p; await H.settle(2);
    if (at >= 3) { H.assert(nf(h) === 2, 'polling'); if (at === 3) c.stop(); h.of('flags')[1].ok(flag('a')); await H.settle(2); if (at >= 4) { await until(clock.now + 300000); if (at === 4) c.stop(); h.of('flags')[2].ok(flag('a')); await H.settle(2); if (at === 5) { await until(clock.now + H.int('part', 0, 299999)); c.stop(); } } } }
  await H.settle(3); const n = nf(h), v = nv(h); H.cover('stop' + at); if (H.fork('twice')) c.stop();
  await until(clock.now + 2000000); H.assert(nf(h) === n && nv(h) === v, 'no requests after stop', { before: n, after: nf(h), at }); H.assert(timers.list.length === 0, 'no timers after stop', timers.list.length);
  const q = c.start({ user_id: 'w' }); await H.settle(3); H.assert(nf(h) === n + 1, 'start works again after stop', nf(h)); h.of('flags')[n].ok(flag('b')); if (nv(h) > v) h.of('vardata')[v].ok({}); await q; await H.settle(2); H.assert(nf(h) === n + 2, 'and polls again', nf(h)); h.of('flags')[n + 1].ok(flag('b')); await H.settle(2); await polls(h, c, 300000, 1, 'r');
}
async function twice() { // a second start while running does nothing
  const h = new Http(); const c = client({ retryFetchOnFailure: false }, h); const when = H.choose('when', 3); const p = c.start({ user_id: 'u' }); if (when === 1) await H.settle(2); if (when === 2) { await H.settle(2); h.of('flags')[0].ok(flag('a')); h.of('vardata')[0].ok({}); await p; await H.settle(2); h.of('flags')[1].ok(flag('a')); await H.settle(2); }
  const n = nf(h), v = nv(h); const q = c.start({ user_id: 'other' }); await H.settle(2); if (when < 2) { h.of('flags')[0].ok(flag('a')); h.of('vardata')[0].ok({}); } await p; await q; await H.settle(2); if (when < 2) { H.assert(nf(h) === 2 && nv(h) === 1, 'no second start', [nf(h), nv(h)]); h.of('flags')[1].ok(flag('a')); await H.settle(2); } else H.assert(nf(h) === n && nv(h) === v, 'no second start', [nf(h), nv(h)]);
  H.assert(H.eq(c.getUser(), { user_id: 'u' }), 'the running user stays'); await polls(h, c, 300000, 2, 'q'); H.cover('twice');
}
async function restart() { // stop and start while the first start is still waiting: one poller
  const h = new Http(); const c = client({ fetchOnStart: false }, h); const p = c.start({ user_id: 'u' }); await H.settle(2); c.stop(); const q = c.start({ user_id: 'w' }); await H.settle(2); const swap = H.fork('swap'); h.of('flags')[swap ? 1 : 0].ok(flag('a')); await H.settle(3); for (const r of h.reqs) if (!r.settled) r.ok(flag('a')); await p; await q; await H.settle(3); for (const r of h.reqs) if (!r.settled) r.ok(flag('a')); await H.settle(3);
  H.assert(timers.list.length === 1, 'one poller', timers.list.length); c.stop(); H.assert(timers.list.length === 0, 'which stop ends'); H.cover('restart');
}
export const cells: Record<string, any> = quiet({ starting, stopping, twice, restart });
export const meta = { mustCover: ['fetch', 'no fetch', 'poll', 'no poll', 'stop0', 'stop1', 'stop2', 'stop3', 'stop4', 'stop5', 'twice', 'restart'], bounds: ['every polling interval 0..500000 ms and the default; polling/fetching unset/on/off; flag and variant requests succeeding or failing in 4 ways; stop at 6 points (incl. both requests of start in flight), restart, double start'], assumptions: ['timers fire on time'] };
