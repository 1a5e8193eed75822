// The built-in HTTP client: time limits and what it passes on.
import { clock, timers, advance } from './lib/env';
import { fetches } from './lib/fetch';
import { TimeoutError } from 'repo:experiment-core/src/index';
import { FetchHttpClient } from 'repo:experiment-browser/src/transport/http';
import { quiet } from './lib/browser';
import { ExperimentClient } from 'repo:experiment-browser/src/index';
declare const H: any;
function at(t: any, fn: () => void) { timers.list.push({ id: ++timers.seq, fn, due: clock.now + t, delay: t, interval: false, args: [], fired: 0 } as any); }
async function direct() { // rejects at the limit unless the whole answer arrived, and never otherwise
  const k = H.choose('limit', 5); const T: any = k === 0 ? undefined : k === 1 ? null : k === 2 ? H.int('T', -5, 0) : H.int('T', 1, 20000); const limited = k > 2;
  const t0 = clock.now; const out: any = { n: 0 }; const hd = { A: 'b' };
  const m = ['GET', 'POST'][H.choose('method', 2)], data = m === 'GET' ? null : H.str('data', { max: 2, alpha: 'a{' }); const p = FetchHttpClient.request('https://x/y', m, hd, data as any, T); p.then((v: any) => { out.n++; out.v = v; out.at = clock.now; }, (e: any) => { out.n++; out.e = e; out.at = clock.now; }); await H.settle(2);
  H.assert(fetches.length === 1, 'one request'); const f = fetches[0]; H.assert(f.url === 'https://x/y' && f.init.method === m && H.eq(f.init.headers, { A: 'b' }) && H.conc(H.eq(f.init.body, data)), 'as asked for', f.init);
  const how = H.choose('how', 4); const t1 = H.int('t1', 0, 30000), t2 = how === 0 || how === 3 ? H.int('t2', 0, 30000) : 0; H.assume(H.not(H.eq(T === undefined || T === null ? -1 : T, t1 + t2))); const st = H.int('status', 100, 599);
  // 0 answered, 1 network failure, 2 headers only and then nothing, 3 body fails
  at(t1, () => { if (how === 1) f.fail(new Error('net')); else { f.head(st); if (how !== 2) at(t2, () => (how === 0 ? f.body('text') : f.failBody(new Error('cut')))); } });
  await advance(t0 + 100000, 4, 10); await H.settle(4); const end = t1 + t2; H.observe([out.n, out.at]);
  const timedOut = limited && H.or(how === 2, T < end);
  if (timedOut) { H.assert(out.n === 1 && out.e instanceof TimeoutError && H.eq(out.at, t0 + T), 'rejected with a timeout at the limit', { out, T }); H.cover('timeout'); }
  else if (how === 2) { H.assert(out.n === 0, 'waits without a limit'); H.cover('unlimited'); }
  else { H.assert(out.n === 1 && H.eq(out.at, t0 + end), 'settled as soon as the answer is complete', { out, end }); if (how === 0) H.assert(H.eq(out.v.status, st) && out.v.body === 'text', 'status and body', out.v); else H.assert(out.e && !(out.e instanceof TimeoutError), 'the failure itself', out.e); H.cover('in time ' + how); }
}
async function through() { // the client uses it by default: a late answer is not stored, failures are silent unless asked for
  const thr = H.fork('throw'); const c: any = new ExperimentClient('client-abcdef', { fetchTimeoutMillis: 3000, retryFetchOnFailure: false, automaticExposureTracking: false, throwOnError: thr, logger: undefined } as any); const t0 = clock.now;
  const p = c.fetch({ user_id: 'u' }).then(() => 'ok', (e: any) => (e instanceof TimeoutError ? 'timeout' : 'error')); await H.settle(6); H.assert(fetches.length === 1, 'fetched', fetches.length); const t1 = H.int('t1', 0, 6000); H.assume(H.not(H.eq(t1, 3000))); const st = H.int('status', 100, 599); at(t1, () => { fetches[0].head(st); at(0, () => fetches[0].body(JSON.stringify({ f: { key: 'on' } }))); });
  await advance(t0 + 10000, 6, 10); await H.settle(6); const r = await p; H.observe(r); const late = t1 > 3000; H.assert(r === (!thr ? 'ok' : late ? 'timeout' : H.eq(st, 200) ? 'ok' : 'error'), 'outcome', { r, t1, st }); H.assert(H.iff(c.variant('f').key === 'on', H.and(!late, H.eq(st, 200))), 'variants of a complete answer in time only', { v: c.variant('f'), t1, st }); H.cover(late ? 'late' : 'early');
}
export const cells: Record<string, any> = quiet({ direct, through });
export const meta = { mustCover: ['timeout', 'unlimited', 'in time 0', 'in time 1', 'in time 3', 'late', 'early'], bounds: ['every limit -5..20000 ms or absent, answer headers and body each 0..30 s later or never, every status 100..599, network and body failures'], assumptions: ['the answer does not complete in the very millisecond of the limit', 'fetch is available'] };
