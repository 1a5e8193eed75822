// Configuration and the requests made from it.
import { clock, timers, localStorage, advance, setGlobal } from './lib/env';
import { client, Http, VARIANTS_KEY, storeVariants } from './lib/browser';
import { TimeoutError, FetchError, SdkEvaluationApi, SdkFlagApi } from 'repo:experiment-core/src/index';
declare const H: any;
const unset = (o: any, k: string, n: any) => { if (n === 1) o[k] = undefined; if (n === 2) o[k] = null; };
async function urls() { // which server, which timeout
  const cfg: any = {}; const zk = H.choose('zone', 4); let eu: any = false;
  if (zk === 3) { cfg.serverZone = H.str('zone.v', { min: 0, max: 2, alpha: 'eEuUsS' }); eu = H.and(cfg.serverZone.length === 2, H.or(H.eq(cfg.serverZone, 'eu'), H.eq(cfg.serverZone, 'EU'), H.eq(cfg.serverZone, 'Eu'), H.eq(cfg.serverZone, 'eU'))); } else unset(cfg, 'serverZone', zk);
  const sk = H.choose('server', 4); if (sk === 3) cfg.serverUrl = 'https://s.example/' + H.id('srv', 26); else unset(cfg, 'serverUrl', sk);
  const fk = H.choose('flags', 4); if (fk === 3) cfg.flagsServerUrl = 'https://f.example/' + H.id('flg', 26); else unset(cfg, 'flagsServerUrl', fk);
  const tk = H.choose('timeout', 4); if (tk === 3) cfg.fetchTimeoutMillis = H.int('ms', 1, 60000); else unset(cfg, 'fetchTimeoutMillis', tk);
  const h = new Http(); h.auto = (r: any) => ({ body: r.kind === 'flags' ? [] : {} }); const c = client({ pollOnStart: false, ...cfg }, h); await c.start({ user_id: 'u' });
  const [f, v] = [h.of('flags')[0], h.of('vardata')[0]]; H.assert(h.reqs.length === 2 && f && v, 'one request each'); H.observe([f.url, v.url, f.timeoutMillis]);
  const vs = sk === 3 ? cfg.serverUrl : H.ite(eu, 'https://api.lab.eu.amplitude.com', 'https://api.lab.amplitude.com'), fs = fk === 3 ? cfg.flagsServerUrl : H.ite(eu, 'https://flag.lab.eu.amplitude.com', 'https://flag.lab.amplitude.com');
  H.assert(H.eq(v.url.split('/sdk/v2/vardata')[0], vs), 'variants server: explicit, else that of the zone', { url: v.url, cfg }); H.assert(H.eq(f.url, fs + '/sdk/v2/flags'), 'flags server: explicit, else that of the zone', { url: f.url, cfg });
  for (const r of [f, v]) { H.assert(H.eq(r.timeoutMillis, tk === 3 ? cfg.fetchTimeoutMillis : 10000), 'configured timeout, 10 s by default', r.timeoutMillis); H.assert(r.method === 'GET' && r.headers.Authorization === 'Api-Key client-abcdef', 'authorized with the API key'); }
  H.assert(/^experiment-js-client\/\d+\.\d+\.\d+/.test(f.headers['X-Amp-Exp-Library']), 'the library is named', f.headers); H.assert(!('X-Amp-Exp-User' in f.headers) && f.url.indexOf('?') < 0, 'no user in the flags request'); H.cover(eu === false ? 'urls' : 'zone');
}
async function keys() { // flag keys and tracking option reach the server, for retries and after reload too
  const h = new Http(); let c = client({}, h); let want: any; const st = H.choose('fail storage', 2); if (st) { localStorage.__d.failSet = true; }
  for (let i = 0; i < 2; i++) { const t = H.choose('track' + i, 3); if (t) { let threw = false; try { await c.setTracksAssignment(t === 1); } catch (e) { threw = true; } if (!st) H.assert(!threw, 'does not reject'); want = t === 1 ? 'track' : 'no-track'; } if (!st && H.fork('reload' + i)) { c = client({}, h); H.cover('reload'); } }
  const k = H.choose('opts', 4); const a = H.id('a', 26), b = H.id('b', 26); const opts = k === 0 ? undefined : k === 1 ? {} : k === 2 ? { flagKeys: undefined } : { flagKeys: H.fork('two') ? [a, b] : [a] };
  const copy = opts && opts.flagKeys ? [...opts.flagKeys] : undefined; const p = c.fetch({ user_id: 'u' }, opts); await H.settle(3); const n = H.choose('fails', 3); h.of('vardata')[0][n ? 'fail' : 'ok'](n ? new Error('x') : {}); await p; for (let i = 1; i <= n; i++) { await advance(clock.now + 5000, 2, 20, () => h.of('vardata').length > i); const r = h.of('vardata')[i]; H.assert(r !== undefined, 'retried'); if (!r) return; if (i === n) r.ok({}); else r.fail(new Error('y')); await H.settle(4); }
  for (const r of h.of('vardata')) { const hd = r.headers; H.observe(hd); H.assert(copy ? H.eq(JSON.parse(hd['X-Amp-Exp-Flag-Keys'].slice(4)), copy) : !('X-Amp-Exp-Flag-Keys' in hd), 'the flag keys asked for', hd); H.assert(want === undefined ? !('X-Amp-Exp-Track' in hd) : hd['X-Amp-Exp-Track'] === want, 'the latest assignment tracking option', { want, hd }); }
  H.cover('retries ' + n); H.cover('keys ' + k); if (want) H.cover(want);
}
async function web() { // the web tag asks for web flags of the user
  const sfx = H.choose('suffix', 3); const cfg: any = sfx === 0 ? {} : { internalInstanceNameSuffix: sfx === 1 ? 'web' : 'other' }; const h = new Http(); h.auto = (r: any) => ({ body: r.kind === 'flags' ? [] : {} }); const c = client({ pollOnStart: false, ...cfg }, h);
  const u: any = {}; const uk = H.choose('user', 3); if (uk) u.user_id = uk === 1 ? H.id('uid', 26) : ''; const dk = H.choose('device', 3); if (dk) u.device_id = dk === 1 ? H.id('did', 26) : ''; u.country = 'c'; await c.start(u); const f = h.of('flags')[0]; H.observe([f.url, f.headers['X-Amp-Exp-User']]);
  if (sfx === 1) { H.assert(f.url.endsWith('/sdk/v2/flags?delivery_method=web'), 'web flags', f.url); const has = uk === 1 || dk === 1; H.assert(has === ('X-Amp-Exp-User' in f.headers), 'user exactly if identified', f.headers); if (has) { const s = JSON.parse(f.headers['X-Amp-Exp-User'].slice(4)); H.assert((uk ? H.eq(s.user_id, u.user_id) : !('user_id' in s)) && (dk ? H.eq(s.device_id, u.device_id) : !('device_id' in s)) && !('country' in s), 'only the ids', s); H.cover('web user'); } H.cover('web'); }
  else H.assert(f.url.endsWith('/sdk/v2/flags') && !('X-Amp-Exp-User' in f.headers), 'feature flags without user', f.url);
}
async function logging() { // messages below the configured level are not logged; errors never surface otherwise
  const cfg: any = {}; const dk = H.choose('debug', 4); if (dk === 3) cfg.debug = true; else if (dk) cfg.debug = dk === 1 ? null : false; const lk = H.choose('level', 3); if (lk === 1) cfg.logLevel = null; if (lk === 2) cfg.logLevel = H.int('lvl', 0, 5);
  const lvl = dk === 3 ? 4 : lk === 2 ? cfg.logLevel : 1; const got: any = {}; const lp: any = {}; for (const m of ['error', 'warn', 'info', 'debug', 'verbose']) { got[m] = 0; lp[m] = function () { H.assert(this === lp, 'called as a method'); got[m]++; }; }
  const h = new Http(); const c = client({ loggerProvider: lp, retryFetchOnFailure: false, ...cfg }, h); const p = c.fetch({ user_id: 'u' }); await H.settle(3); const how = H.choose('how', 3); if (how === 0) h.reqs[0].ok({}); else h.reqs[0].fail(how === 1 ? new Error('e') : new TimeoutError('t')); await p; H.observe(got);
  H.assert(H.iff(got.error > 0, how === 1 && lvl >= 1), 'failures are errors', { got, how, lvl }); H.assert(H.iff(got.debug > 0, lvl >= 4), 'debug messages only from debug level', { got, lvl }); if (how === 1) H.cover('error'); if (dk === 3) H.cover('debug');
  for (const [m, l] of [['error', 1], ['warn', 2], ['info', 3], ['debug', 4], ['verbose', 5]] as any) { const b = got[m]; c.logger[m]('x'); H.assert(H.eq(got[m] - b, H.ite(lvl >= l, 1, 0)), 'level filter', { m, lvl }); }
}
function consoleLog() { // without a logger of the application messages go to the console, with everything given
  const got: any[] = []; const con: any = {}; for (const m of ['error', 'warn', 'info', 'debug', 'log']) con[m] = (...a: any[]) => { got.push([m, ...a]); }; const cfg: any = {}; const pk = H.choose('provider', 3); if (pk) cfg.loggerProvider = pk === 1 ? null : undefined; const lvl = (cfg.logLevel = H.int('lvl', 0, 5));
  const lp: any = {}; const own = pk === 0 && H.fork('own'); if (own) { for (const m of ['error', 'warn', 'info', 'debug']) lp[m] = (...a: any[]) => { got.push([m, ...a]); }; lp.verbose = (...a: any[]) => { got.push(['verbose', ...a]); }; cfg.loggerProvider = lp; }
  const was = console; setGlobal('console', con); try { const c = client(cfg); got.length = 0; const p = { a: H.id('p', 3) }; [['error', 1], ['warn', 2], ['info', 3], ['debug', 4], ['verbose', 5]].forEach(([m, l]: any) => { got.length = 0; c.logger[m]('x', p, 7); H.assert(H.eq(got.length, H.ite(lvl >= l, 1, 0)) && (got.length === 0 || (H.eq(got[0], [m === 'verbose' && !own ? 'debug' : m, 'x', p, 7]))), 'logged as given', { m, lvl, got }); }); H.cover(own ? 'own logger' : 'console'); } finally { setGlobal('console', was); }
}
async function nulls() { // options explicitly unset behave as absent
  const names = ['source', 'instanceName', 'fallbackVariant', 'initialVariants', 'automaticExposureTracking', 'pollOnStart', 'fetchOnStart', 'initialFlags', 'throwOnError', 'retryFetchOnFailure', 'flagConfigPollingIntervalMillis', 'httpClient_', 'userProvider', 'analyticsProvider', 'exposureTrackingProvider']; const which = H.choose('which', names.length + 1); const cfg: any = {}; const v = H.fork('null') ? null : undefined; names.forEach((n, i) => { if (which === i || which === names.length) cfg[n] = v; });
  storeVariants({ s: { key: 'on', value: 'on' } }); const h = new Http(); const c = client({ automaticExposureTracking: undefined, ...cfg }, h); const ev: any[] = []; c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { ev.push(e); return true; } });
  H.assert(c.variant('s').key === 'on', 'stored variants are the primary source of the default instance'); H.assert(ev.length === 1, 'automatic exposure is on', ev); H.assert(H.eq(c.variant('none'), {}), 'no fallback'); H.assert(c.variant('none', 'in').key === 'in', 'inline fallback');
  const p = c.start({ user_id: 'u' }); await H.settle(3); H.assert(h.of('flags').length === 1 && h.of('vardata').length === 1, 'flags and variants are requested'); h.of('flags')[0].fail(new Error('x')); h.of('vardata')[0].fail(new Error('x')); H.assert((await p.then(() => 'ok', () => 'no')) === 'ok', 'start does not reject'); await H.settle(2); H.assert(h.of('flags').length === 2, 'polls'); await advance(clock.now + 600, 2, 5); await H.settle(2); H.assert(h.of('vardata').length === 2, 'retries'); H.cover('nulls');
}
async function nokey() { // without an API key nothing is requested for variants
  const thr = H.fork('throw'); const h = new Http(); const c = client({ throwOnError: thr }, h, ''); const r = await c.fetch({ user_id: 'u' }).then(() => 'ok', () => 'no'); H.assert(r === (thr ? 'no' : 'ok'), 'rejects only if asked to', r); H.assert(h.of('vardata').length === 0, 'nothing is requested'); await advance(clock.now + 20000, 2, 20); H.assert(h.of('vardata').length === 0, 'nor later'); H.cover('no key');
}
async function direct(flags: boolean) { // what the requests carry is what was asked for, and their outcome that of the answer
  const reqs: any[] = []; const how = H.choose('answer', 3), st: any = how ? 200 : flags ? [200, 199, 201, 304, 404, 500][H.choose('status', 6)] : H.int('status', 100, 599); const http: any = { request: async (r: any) => { reqs.push(r); if (how === 1) throw new Error('net'); return { status: st, body: how === 2 ? '{' : JSON.stringify(flags ? [{ key: 'a' }, { key: 'b', n: 1 }] : { a: { key: 'on' } }) }; } };
  const o: any = {}; const set = (k: string, l: any[]) => { const n = H.choose(k, l.length + 1); if (n) o[k] = l[n - 1]; return o[k]; }; const json = (h: any, k: string, v: any) => v === undefined ? !(k in h) : k in h && H.conc(H.eq(JSON.parse(h[k].slice(4)), v)); const plain = (h: any, k: string, v: any) => v === undefined ? !(k in h) : h[k] === v; const dm = set('deliveryMethod', ['web', 'feature']), tm = H.fork('limit') ? 5 : undefined; if (tm) o.timeoutMillis = tm; const user = { user_id: 'u' + H.id('u', 26) }; let p: Promise<any>, names: string[];
  if (flags) { const u = H.fork('user') ? (o.user = user) : undefined, ln = set('libraryName', ['lib', '']), lv = set('libraryVersion', ['1.0']); p = new SdkFlagApi('KEY', 'https://s', http).getFlags(H.fork('options') ? o : Object.keys(o).length ? o : undefined); p.catch(() => 0); const r = reqs[0]; H.observe(r); H.assert(json(r.headers, 'X-Amp-Exp-User', u) && plain(r.headers, 'X-Amp-Exp-Library', ln && lv ? 'lib/1.0' : undefined), 'what was asked for', r); H.assert(r.requestUrl === 'https://s/sdk/v2/flags' + (dm ? '?delivery_method=' + dm : ''), 'the address', r.requestUrl); names = ['a', 'b']; }
  else { const fk = set('flagKeys', [[], ['a' + H.id('k', 26)]]), tr = set('trackingOption', ['track', 'no-track', 'read-only']), et = set('exposureTrackingOption', ['track', 'no-track']), em = set('evaluationMode', ['remote', 'local']); p = new SdkEvaluationApi('KEY', 'https://s', http).getVariants(user, Object.keys(o).length ? o : undefined); p.catch(() => 0); const r = reqs[0]; H.observe(r); H.assert(json(r.headers, 'X-Amp-Exp-User', user) && json(r.headers, 'X-Amp-Exp-Flag-Keys', fk) && plain(r.headers, 'X-Amp-Exp-Track', tr) && plain(r.headers, 'X-Amp-Exp-Exposure-Track', et), 'what was asked for', r); const q = new URL(r.requestUrl); H.assert(q.searchParams.get('eval_mode') === (em || null) && q.searchParams.get('delivery_method') === (dm || null) && q.origin + q.pathname === 'https://s/sdk/v2/vardata', 'the address', r.requestUrl); names = ['a']; }
  H.assert(reqs.length === 1 && reqs[0].method === 'GET' && reqs[0].headers.Authorization === 'Api-Key KEY' && reqs[0].timeoutMillis === tm, 'one request', reqs); const got: any = await p.then((v) => ({ v }), (e) => ({ e })); if (how === 1) { H.assert(got.e && got.e.message === 'net', 'its failure', got); return; } if (H.conc(H.eq(st, 200))) { H.assert(how === 2 ? !!got.e : H.eq(Object.keys(got.v), names), 'its answer', got); H.cover('answer'); } else { H.assert(got.e && (flags || got.e instanceof FetchError && H.conc(H.eq(got.e.statusCode, st))), 'only a success is one', got); H.cover('refusal'); } }
export const cells: Record<string, any> = { 'variants request': () => direct(false), 'flags request': () => direct(true), urls, keys, web, logging, console: consoleLog, nulls, nokey };
export const meta = { mustCover: ['console', 'own logger', 'answer', 'refusal', 'urls', 'zone', 'reload', 'retries 2', 'keys 3', 'track', 'no-track', 'web user', 'web', 'error', 'debug', 'nulls', 'no key'], bounds: ['every server zone up to 2 letters of eEuUsS, absent/undefined/null/set for the server URLs and timeout (1..60000 ms); up to 2 flag keys; 2 changes of the tracking option with reloads; up to 2 retries; every log level 0..5; 15 options unset singly or together; requests with every combination of their options, any status (six for flags), and failures'], assumptions: ['Base64 is a transparent stand-in'] };
