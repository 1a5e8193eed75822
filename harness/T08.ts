// Sessions of behavioral targeting: shared by subdomains and tabs, rotated after inactivity.
import { clock, cookies, location, log, rnd } from './lib/env';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { SessionManager } from 'repo:experiment-tag/src/behavioral-targeting/session-manager';
declare const H: any;
const KEY = 'client-abcdefghij', NAME = 'EXP_client-abc_rtbt_session';
let draws = 0; rnd.next = () => (++draws * 997) / 65536;
const host = (h: string) => { location.hostname = h; location.host = h; location.href = 'https://' + h + '/'; };
const cookie = () => { const c = cookies.jar.filter((x: any) => x.name === NAME); return c.length ? JSON.parse(decodeURIComponent(c[c.length - 1].value)) : null; };
const timeout = () => H.fork('default') ? { arg: undefined, ms: 1800000 } : (() => { const t = H.int('timeout', 0, 4000000); return { arg: t, ms: t }; })();
function life(blockedCookies: boolean) { // the session of one page, or of two on different subdomains
  host('a.example.com'); const T = timeout(); let i = 0; if (blockedCookies) Object.defineProperty(cookies, 'jar', { get: () => [], set: () => undefined, configurable: true });
  const two = !blockedCookies && H.fork('two'); const a = new SessionManager(KEY, T.arg); let b = a; if (two) { host('b.example.com'); b = new SessionManager(KEY, T.arg); }
  let model: any = null; const seen: string[] = [];
  for (i = 0; i < 4; i++) { const d = H.int('d' + i, 0, 4000000); clock.now = clock.now + d; const now = clock.now; const m = two && H.fork('tab' + i) ? b : a; const k = H.choose('k' + i, 3); const live = model !== null && H.conc(now - model.last <= T.ms); if (model && !live) H.cover('rotated'); if (live) H.cover('kept');
    if (k === 0) { const id = m.getCurrentSessionId(); if (!live || model.id === null) { H.assert(seen.every((s) => s !== id), 'a new session has a new identity', { id, seen }); if (live) { model.id = id; H.cover('asked later'); } else model = { id, start: now, last: now }; seen.push(id); } H.assert(id === model.id, 'the session is that of the last activity, unless it was too long ago', { id, model, i }); H.assert(H.eq(m.getSessionStartTime(), model.start), 'its beginning', { i, model }); H.assert(m.getOrCreateSessionId() === model.id, 'asking again'); }
    if (k === 1) { m.recordActivity(); if (live) model.last = now; else model = { id: null, start: now, last: now }; if (live || H.fork('ask' + i)) { const id = m.getCurrentSessionId(); if (model.id === null) { H.assert(seen.every((s) => s !== id), 'activity after too long begins a new session', { id, seen }); seen.push(id); model.id = id; } H.assert(id === model.id, 'activity keeps the session', { id, model, i }); } H.cover('activity'); }
    if (k === 2) { m.clearSession(); model = null; H.assert(blockedCookies || cookie() === null, 'a cleared session is gone'); if (two) { model = null; break; } H.cover('cleared'); }
    if (model && !blockedCookies) { const c = cookie(); H.assert(c !== null, 'it is stored', { model, i }); H.assert(H.and(model.id === null ? seen.every((s) => s !== c.sessionId) : H.eq(c.sessionId, model.id), H.eq(c.sessionStartTime, model.start), H.eq(c.lastEventTime, model.last)), 'what is stored', { c, model, i }); H.assert(cookies.jar.every((x: any) => x.name !== NAME || x.domain === 'example.com'), 'for all subdomains', cookies.jar); } if (two) H.cover('two subdomains'); if (blockedCookies) H.cover('no cookies'); }
  H.assert(!two || cookies.jar.every((x: any) => x.name === NAME), 'nothing else is left', cookies.jar); H.observe([model, seen.length]); }
function stored() { // whatever the cookie holds
  const k = H.choose('k', 9); const now = clock.now; const s = H.int('start', 0, 3000000), l = H.int('last', 0, 3000000); clock.now = 1800000; const id = 'x'; const docs: any[] = [{ sessionId: id, sessionStartTime: s, lastEventTime: l }, { sessionId: id, lastEventTime: l }, { sessionId: id, sessionStartTime: 'no', lastEventTime: l }, { sessionId: 5, sessionStartTime: s, lastEventTime: l }, { sessionId: id, sessionStartTime: s }, { sessionId: id, sessionStartTime: s, lastEventTime: '7' }, null, [1], 'text'];
  const T = H.int('timeout', 0, 3000000); cookies.jar.push({ name: NAME, value: encodeURIComponent(JSON.stringify(docs[k])), domain: 'example.com', attrs: {} } as any); const m = new SessionManager(KEY, T); const got = m.getCurrentSessionId(), start = m.getSessionStartTime(); const usable = k < 3; const live = usable && H.conc(1800000 - l <= T); H.observe([got, start]);
  if (live) { H.assert(got === id && H.eq(start, k === 0 ? s : l), 'a usable session which is not too old is kept', { got, start }); H.cover('usable'); } else { H.assert(got !== id && H.eq(start, 1800000), 'any other is replaced', { got, start }); H.assert(cookie().sessionId === got, 'stored'); H.cover('replaced'); } }
function garbage() { const t = H.str('text', { max: 2, alpha: '{}[]"1n%;=' }); H.assume(!t.includes(';')); cookies.jar.push({ name: NAME, value: t, domain: 'example.com', attrs: {} } as any); const m = new SessionManager(KEY); const id = m.getCurrentSessionId(); H.assert(typeof id === 'string' && id.length > 3, 'a session in any case', id); m.recordActivity(); H.assert(m.getCurrentSessionId() === id && cookie().sessionId === id, 'which works'); H.observe(id); H.cover('garbage'); }
// a page without consent has a session of its own, which a grant makes lasting
function consent() { consentGate.required = true; const start = H.choose('start', 2); if (start) consentGate.manager.setStatus('granted'); let status = start ? 'granted' : 'pending'; const old = H.fork('old'); const now = clock.now; if (old) cookies.jar.push({ name: NAME, value: encodeURIComponent(JSON.stringify({ sessionId: 'old', sessionStartTime: now, lastEventTime: now })), domain: 'example.com', attrs: {} } as any); const m = new SessionManager(KEY, 1000); let mem: any = null;
  for (let i = 0; i < 4; i++) { const k = H.choose('k' + i, 4); log.length = 0; if (k === 0) { const id = m.getCurrentSessionId(); if (status === 'pending') { H.assert(id !== 'old' && (mem === null || mem === id), 'the session of the page', { id, mem }); mem = id; } if (status === 'granted') { if (mem !== null) H.assert(id === mem, 'is kept on a grant', { id, mem }); else if (old && cookies.jar.some((x: any) => x.name === NAME)) H.assert(id === 'old' || cookie().sessionId === id, 'the stored one', id); } }
    if (k === 1) { m.recordActivity(); if (status === 'pending' && mem === null) mem = m.getCurrentSessionId(); }
    if (k > 1) { const next = k === 2 ? 'granted' : 'denied'; if (status === next) continue; const was = status; status = next; consentGate.manager.setStatus(next as any); if (next === 'granted' && was === 'pending' && mem !== null) { H.assert(cookie() !== null && cookie().sessionId === mem, 'a grant makes the session lasting', { mem, c: cookie() }); H.cover('lasting'); } if (next === 'denied') { H.cover('refused'); mem = null; } if (was === 'denied') return; }
    if (status !== 'granted') H.assert(log.every((l: any) => l[2] !== NAME && !/^AMP_TLD/.test(l[2])), 'cookies are not touched without consent', log); }
  H.observe([status, mem]); }
export const cells: Record<string, any> = { life: () => life(false), blocked: () => life(true), stored, garbage, consent };
export const meta = { mustCover: ['rotated', 'kept', 'activity', 'asked later', 'cleared', 'two subdomains', 'no cookies', 'usable', 'replaced', 'garbage', 'lasting', 'refused'], bounds: ['4 calls each 0..4000 s after the one before, with any timeout of 0..4000 s or the default, on one page, two subdomains or without cookies; 9 shapes of stored content with any times and texts up to 2 characters; 4 calls and consent decisions'], assumptions: ['the clock does not go back', 'random identities are distinct'] };
