// Background retries of a failed fetch.
import { clock, timers, advance } from './lib/env';
import { client, Http, quiet } from './lib/browser';
import { TimeoutError } from 'repo:experiment-core/src/index';
declare const H: any;
const GAPS = [500, 750, 1125, 1687.5, 2531.25, 3796.875, 5695.3125, 8542.96875];
const USER = { user_id: 'me', device_id: 'dev' };
// fail a request in a way the harness picks; says whether a retry is due
function failWith(r: any, n: string, lo = 100) {
  const kind = H.choose(n, 4);
  if (kind === 0) { const st = H.int(n + '.status', lo, 599); H.assume(H.ne(st, 200)); r.ok('x', st); return H.or(st < 400, st >= 500, H.eq(st, 429)); }
  if (kind === 1) { r.fail(new Error('network')); return true; }
  if (kind === 2) { r.fail(new TimeoutError('late')); return true; }
  r.ok('not json', 200); return true;
}
async function until(t: number) { await advance(t, 2, 40); await H.settle(2); }
const sent = (http: Http) => http.of('vardata').length;
async function classify() { // which failures are retried
  const http = new Http(); const on = H.fork('on'); const c = client({ retryFetchOnFailure: on, throwOnError: H.fork('throw') }, http);
  const p = c.fetch(USER).then(() => 'resolved', () => 'rejected'); await H.settle(2);
  const due = failWith(http.reqs[0], 'e'); const how = await p; await H.settle(2); H.observe([how, sent(http)]);
  const t0 = clock.now; await until(t0 + 499); H.assert(sent(http) === 1, 'no retry before the first delay'); await until(t0 + 501);
  const retried = sent(http) === 2; H.cover(retried ? 'retried' : 'not retried');
  H.assert(H.iff(retried, H.and(on, due)), 'retried iff enabled and the error is not a client error other than 429', { on });
  if (retried) { http.reqs[1].ok({}); await H.settle(2); }
  await until(t0 + 100000); H.assert(sent(http) === (retried ? 2 : 1), 'nothing further is sent');
}
async function loop(n: number, few: number) { // n failing retries, then success or exhaustion
  const http = new Http(); const c = client({ fetchTimeoutMillis: 1234 }, http); const opts = H.pick('o', [undefined, { flagKeys: ['a'] }]);
  const p = c.fetch(USER, opts); await H.settle(2); H.assert(http.reqs[0].timeoutMillis === 1234, 'the first request uses the configured timeout'); http.reqs[0].fail(new Error('network')); await p;
  for (let i = 0; i < 8; i++) {
    const t0 = clock.now; await until(t0 + GAPS[i] - 0.01); H.assert(sent(http) === i + 1, 'not before the back-off delay', { i, sent: sent(http) });
    await until(t0 + GAPS[i]); H.assert(sent(http) === i + 2, 'retried after the back-off delay', { i, sent: sent(http), t: clock.now - t0 });
    const r = http.reqs[i + 1]; H.assert(r.timeoutMillis === 10000, 'retries use the retry timeout', r.timeoutMillis); H.assert(H.eq(r.headers, http.reqs[0].headers) && r.url === http.reqs[0].url, 'a retry asks the same question', r);
    const vary = i < few || i >= n - 1; if (vary) { await until(clock.now + H.int('lag' + i, 0, 5000)); H.assert(sent(http) === i + 2, 'one request at a time'); }
    if (i === n) { r.ok({ a: { key: 'on', value: 'on' } }); await H.settle(3); H.cover('success'); await until(clock.now + 100000); H.assert(sent(http) === i + 2, 'retries stop after a success', sent(http)); H.assert(H.eq(c.all(), { a: { key: 'on', value: 'on' } }), 'variants of a successful retry are stored'); return; }
    if (vary) failWith(r, 'e' + i); else r.fail(new Error('network')); await H.settle(3);
  }
  H.cover('exhausted'); await until(clock.now + 1000000); H.assert(sent(http) === 9, 'at most eight retries', sent(http));
}
// after a retryable failure at time t0 exactly one loop must be running: requests at the back-off times and no others
async function oneLoop(http: Http, t0: number, base: number, label: string) {
  let t = t0; for (let i = 0; i < 3; i++) { t += GAPS[i]; await until(t - 0.01); H.assert(sent(http) === base + i, label, { i, sent: sent(http), base }); await until(t); H.assert(sent(http) === base + i + 1, label, { i, sent: sent(http), base }); http.reqs[http.reqs.length - 1].fail(new Error('network')); await H.settle(3); }
}
async function cancel() { // a new fetch ends the running retries
  const http = new Http(); const c = client({}, http);
  const p = c.fetch(USER); await H.settle(2); http.reqs[0].fail(new Error('network')); await p;
  const stage = H.choose('stage', 4); // waiting for attempt 0 / in flight 0 / waiting 1 / in flight 1
  if (stage >= 1) await until(clock.now + 500); if (stage >= 2) { http.reqs[1].fail(new Error('network')); await H.settle(3); } if (stage === 3) await until(clock.now + 750);
  const before = sent(http); const old = stage % 2 === 1 ? http.reqs[before - 1] : null;
  const q = c.fetch({ user_id: 'next' }); await H.settle(3); H.assert(sent(http) === before + 1, 'the new fetch is sent at once');
  const oldFirst = H.fork('oldFirst'); const oldEnd = () => { if (old) old.fail(new Error('network')); };
  const mine = http.reqs[before];
  if (oldFirst) { oldEnd(); await H.settle(3); await until(clock.now + H.int('wait', 0, 3000)); H.assert(sent(http) === before + 1, 'retries of an overtaken fetch stay cancelled', sent(http)); }
  const how = H.choose('how', 3);
  if (how === 0) mine.ok({}); else if (how === 1) mine.fail(new Error('network')); else mine.ok('x', 403);
  await q; const t0 = clock.now; if (!oldFirst) { oldEnd(); await H.settle(3); }
  H.cover('cancel' + how);
  if (how === 1) await oneLoop(http, t0, before + 1, 'the new failure starts exactly one retry loop'); else { await until(clock.now + 60000); H.assert(sent(http) === before + 1, 'no retries remain after the new fetch', sent(http)); }
}
async function concurrent() { // two fetches in flight that both fail: still one loop
  const http = new Http(); const c = client({}, http);
  const p = c.fetch(USER), q = c.fetch({ user_id: 'next' }); await H.settle(2); const swap = H.fork('swap'); H.assert(sent(http) === 2, 'both are sent');
  const [x, y] = swap ? [1, 0] : [0, 1]; let t0 = 0;
  for (const i of [x, y]) { http.reqs[i].fail(new Error('network')); await H.settle(3); if (i === 1) t0 = clock.now; if (i === x) { await until(clock.now + H.int('gap', 0, 499)); H.assert(sent(http) === 2, 'no retry yet'); } }
  await p; await q; H.cover('concurrent');
  await oneLoop(http, t0, 2, 'one retry loop after two concurrent failures');
  for (const r of http.reqs.slice(2)) H.assert(H.eq(r.headers, http.reqs[1].headers), 'it retries the newer fetch', r.headers);
  const r = c.fetch(USER); await H.settle(3); const n = sent(http); http.reqs[n - 1].ok({}); await r; await until(clock.now + 100000); H.assert(sent(http) === n, 'a new fetch ends every retry', { n, sent: sent(http) });
}
async function overtaken() { // an older fetch that fails after a newer one was made is not retried
  const http = new Http(); const c = client({}, http); const p = c.fetch(USER), q = c.fetch({ user_id: 'next' }); await H.settle(2);
  const ok = () => http.reqs[1].ok({ a: { key: 'on' } }), bad = () => failWith(http.reqs[0], 'e');
  if (H.fork('order')) { ok(); await H.settle(3); bad(); } else { bad(); await H.settle(3); ok(); }
  await p; await q; await until(clock.now + 60000); H.cover('overtaken'); H.assert(sent(http) === 2, 'an overtaken fetch is not retried', sent(http)); H.assert(H.eq(c.all(), { a: { key: 'on' } }), 'the newer variants stay');
}
export const cells: Record<string, any> = quiet({ classify, cancel, concurrent, overtaken });
for (let n = 0; n <= 8; n++) { cells['loop' + n] = () => loop(n, 1); cells['deep' + n] = () => loop(n, 3); }
export const meta = { opts: { maxTicks: 2000000 }, thoroughOnly: ['deep*'], mustCover: ['retried', 'not retried', 'success', 'exhausted', 'cancel0', 'cancel1', 'cancel2', 'concurrent', 'overtaken'], bounds: ['every status 100..599, network error, timeout, malformed body for the first failure, the first and the last failing retry (the first three in the thorough tier); success after 0..8 failed retries; response lag 0..5 s; a new fetch at 4 stages of the loop; two concurrent failing fetches in both orders'], assumptions: ['timers fire on time'] };
