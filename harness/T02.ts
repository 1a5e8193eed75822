// The device is left alone while consent is withheld; a grant hands over what was held back.
import { clock, timers, localStorage, sessionStorage, cookies, advance, log } from './lib/env';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { ConsentAwareCookieStorage } from 'repo:experiment-tag/src/consent/consent-cookie-storage';
import { getStorageItem, setStorageItem, removeStorageItem } from 'repo:experiment-tag/src/util/storage';
import { SyncJsonCookie } from 'repo:experiment-tag/src/util/cookie';
declare const H: any;
const ID = 'EXP_client-abc', DUP = 'EXP_client-abc_DEFAULT_USER_PROVIDER', OTHER = 'EXP_client-abc_x', EXEMPT = 'amp-preview-mode';
const STICKY: Record<string, string[]> = { [ID]: ['web_exp_id', 'web_exp_id_v2', 'device_id'], [DUP]: ['first_seen'], [OTHER]: [], [EXEMPT]: [] };
let status = 'pending', required = true;
const decide = (s: string) => { consentGate.manager.setStatus(s as any); status = s; };
const withheld = () => required && status !== 'granted';
const value = (n: string) => { const v: any = { v: n + H.id(n, 9) }; if (H.fork(n + 'sticky')) for (const f of ['web_exp_id', 'first_seen', 'device_id', 'web_exp_id_v2']) v[f] = n + f; return v; };
const merged = (key: string, pending: any, device: any) => { const r = { ...pending }; if (device) for (const f of STICKY[key]) if (device[f] !== undefined) r[f] = device[f]; return r; };
const same = (a: any, b: any) => { const x = Object.entries(a || {}).sort((p: any, q: any) => (p[0] < q[0] ? -1 : 1)), y = Object.entries(b || {}).sort((p: any, q: any) => (p[0] < q[0] ? -1 : 1)); return (a === null || a === undefined) === (b === null || b === undefined) && H.eq(x, y); };
function web(keys: string[], steps: number, stores: string[], req = true) { // localStorage and sessionStorage
  required = req; consentGate.required = required; const dev: any = {}, held: any = {}; const st: any = { localStorage, sessionStorage };
  for (const s of stores) for (const k of keys) if (k !== EXEMPT && H.fork('old' + s + k)) { const v = value('old' + s + k); st[s].put(k, JSON.stringify(v)); dev[s + k] = v; }
  log.length = 0;
  for (let i = 0; i < steps; i++) {
    const op = H.choose('op' + i, 5); log.length = 0;
    if (op < 3) { const s = stores[H.choose('s' + i, stores.length)], k = keys[H.choose('k' + i, keys.length)], key = s + k; const gated = withheld() && k !== EXEMPT;
      if (op === 0) { const v = value('w' + i); const given = JSON.stringify(v); setStorageItem(s as any, k, v); v.v = 'changed'; v.extra = 1; const want = JSON.parse(given); if (!gated) dev[key] = want; else if (status === 'pending') held[key] = want; }
      if (op === 1) { const r: any = getStorageItem(s as any, k); H.observe(r); H.assert(same(r, gated ? held[key] : dev[key]), gated ? 'only what this page wrote is read' : 'the device is read', { r, held: held[key], dev: dev[key] }); if (r && gated) { r.v = 'changed'; H.cover('read back'); } }
      if (op === 2) { removeStorageItem(s as any, k); if (required && status === 'pending' && k !== EXEMPT) delete held[key]; else delete dev[key]; }
      if (gated) { H.assert(log.every((l: any) => status === 'denied' && l[0] === 'remove'), 'the device is not touched without consent', log); H.cover('gated'); }
    } else { const next = op === 3 ? 'granted' : 'denied'; const was = status; decide(next);
      if (required && was === 'pending' && next === 'granted') { for (const key of Object.keys(held)) { const k = key.replace(/^(local|session)Storage/, ''); dev[key] = merged(k, held[key], dev[key]); } H.cover('handed over'); }
      else H.assert(log.every((l: any) => l[0] === 'remove'), 'nothing is written', log);
      for (const key of Object.keys(held)) delete held[key]; }
    for (const s of stores) for (const k of keys) { const raw = st[s].raw(k); H.assert(same(raw === null ? null : JSON.parse(raw), dev[s + k]), 'the device holds what was consented to', { s, k, raw, want: dev[s + k], i, op }); }
  }
}
async function revoked() { // a refusal in the middle of the handover (a storage listener revokes) stops it
  consentGate.required = true; setStorageItem('localStorage', OTHER, { a: 1 }); setStorageItem('localStorage', ID, { a: 1 }); setStorageItem('sessionStorage', OTHER, { a: 1 }); let n = 0; const at = H.choose('at', 4); const hook = localStorage.setItem.bind(localStorage); (localStorage as any).setItem = (k: any, v: any) => { hook(k, v); if (++n === at) { decide('denied'); log.length = 0; } }; decide('granted'); H.observe(log);
  if (at > 0 && at < 3) { H.assert(log.every((l: any) => l[0] !== 'set'), 'nothing more is written', log); H.cover('revoked'); } }
// the asynchronous cookie storage: every step may be followed by others before it finishes
async function asyncCookie(steps: number, KS: string[], req = true, first: number[] = [], objects = false) {
  const copy = (v: any) => v && typeof v === 'object' ? JSON.parse(JSON.stringify(v)) : v;
  required = req; const slow = H.choose('slow', 2); consentGate.required = required; const jar = new Map<string, any>(), acts: any[] = []; const lag = (n: string) => slow * 2;
  const delegate = { n: 0, async get(k: string) { acts.push(['get', k, consentGate.manager.getStatus()]); const v = copy(jar.get(k)); for (let i = lag('lag' + this.n++); i > 0; i--) await null; return v; }, async set(k: string, v: any) { acts.push(['set', k, consentGate.manager.getStatus()]); jar.set(k, copy(v)); }, async remove(k: string) { acts.push(['remove', k, consentGate.manager.getStatus()]); jar.delete(k); } };
  const s = new ConsentAwareCookieStorage<any>(delegate as any); const dev: any = {}; let held: any = {};
  const old = H.fork('old'); if (old) { const o: any = objects ? { v: 'old' } : JSON.stringify({ web_exp_id_v2: 'sticky', other: 1 }); jar.set('k', o); dev.k = o; }
  const pendingReads: any[] = [];
  for (let i = 0; i < steps; i++) {
    const op = i < first.length ? first[i] : H.choose('op' + i, 5); const k = op < 3 ? KS[i < first.length ? i : H.choose('k' + i, KS.length)] : ''; const w = withheld();
    if (op === 0) { const text = JSON.stringify({ v: 'w' + i, web_exp_id_v2: 'fresh' + i }); const v: any = objects ? JSON.parse(text) : text, kept: any = copy(v); void s.set(k, v); if (!w) dev[k] = kept; else if (status === 'pending') held[k] = kept; if (objects && w) { v.v = 'changed'; H.cover('changed later'); } }
    if (op === 1) { const want = w ? held[k] : undefined; pendingReads.push(s.get(k).then((r) => { if (w) H.assert(same(r, want), 'reads what this page wrote', { r, want }); if (objects && w && r) r.v = 'changed'; }, () => {})); }
    if (op === 2) { void s.remove(k); if (required && status === 'pending') delete held[k]; else delete dev[k]; }
    if (op > 2) { const next = op === 3 ? 'granted' : 'denied'; const was = status; if (was === 'denied') await H.settle(12); decide(next); if (required && was === 'pending') { if (next === 'granted') for (const q of Object.keys(held)) dev[q] = merge(held[q], dev[q]); held = {}; H.cover('decided ' + next); } if (required && next === 'denied') { jar.clear(); for (const q of KS) delete dev[q]; acts.length = 0; H.cover('swept'); } }
    const g = i < first.length - 1 ? 0 : H.choose('gap' + i, first.length ? 4 : 2); await H.settle([0, 12, 2, 4][g]);
    for (const a of acts) H.assert(!required || a[2] === 'granted' || (a[2] === 'denied' && a[0] === 'remove'), 'the cookie is not touched without consent', { a, acts, i });
  }
  await H.settle(20); for (const a of acts) H.assert(!required || a[2] === 'granted' || (a[2] === 'denied' && a[0] === 'remove'), 'the cookie is not touched without consent', { a, acts });
  H.observe([...jar]); if (required && status === 'denied') H.assert(jar.size === 0, 'nothing remains after a refusal', [...jar]);
  else for (const q of KS) H.assert(H.eq(jar.get(q), dev[q]), 'the cookie holds what was consented to', { q, got: jar.get(q), want: dev[q] });
}
const merge = (pending: any, device?: string): any => { if (!device || typeof pending !== 'string') return pending; const d = JSON.parse(device), p = JSON.parse(pending); return JSON.stringify({ ...p, ...(d.web_exp_id_v2 !== undefined ? { web_exp_id_v2: d.web_exp_id_v2 } : {}) }); };
function jsonCookie(steps: number, req = true) { // the synchronous JSON cookie
  required = req; consentGate.required = required; const c = new SyncJsonCookie<any>('sess', () => '', { maxAgeSeconds: 1800 }); let dev: any = null, mem: any = undefined; if (H.fork('old')) { dev = { v: 'old' }; cookies.jar.push({ name: 'sess', value: encodeURIComponent('{"v":"old"}'), domain: '', attrs: {} } as any); }
  for (let i = 0; i < steps; i++) { const op = H.choose('op' + i, 5); log.length = 0; const w = withheld();
    if (op === 0) { const v = { v: 'w' + i }; c.write(v); mem = v; if (!w) dev = v; }
    if (op === 1) { const r: any = c.read(); const want = w ? mem : dev || mem; H.observe(r); H.assert(H.eq(r ? r.v : null, want ? want.v : null), 'the value in force is read', { r, want, status }); }
    if (op === 2) { c.clear(); mem = undefined; if (!(required && status === 'pending')) dev = null; }
    if (op < 3 && w) { H.assert(log.every((l: any) => status === 'denied' && l[0] === 'remove'), 'the cookie is not touched without consent', log); H.cover('json gated'); }
    if (op > 2) { const was = status; decide(op === 3 ? 'granted' : 'denied'); if (required && was === 'pending' && op === 3 && mem !== undefined) { dev = mem; H.cover('json kept'); } if (!(required && was === 'pending' && op === 3)) H.assert(log.every((l: any) => l[0] !== 'set'), 'nothing is written', log); }
    const raw = cookies.value('sess'); H.assert(H.eq(raw === undefined ? null : JSON.parse(decodeURIComponent(raw)).v, dev ? dev.v : null), 'the cookie holds what was consented to', { raw, dev, i, op });
  }
}
export const cells: Record<string, any> = { 'identity record': () => web([ID], 4, ['localStorage']), 'user record': () => web([DUP], 4, ['sessionStorage']), 'other records': () => web([OTHER, EXEMPT], 3, ['localStorage']), 'two stores': () => web([OTHER], 3, ['localStorage', 'sessionStorage']), 'not required': () => web([ID, OTHER], 2, ['localStorage'], false), revoked, cookie: () => asyncCookie(4, ['k']), 'cookies': () => asyncCookie(5, ['k', 'l'], true, [0, 0, 3]), 'cookie of an object': () => asyncCookie(4, ['k'], true, [], true), 'cookie not required': () => asyncCookie(3, ['k'], false), 'json cookie': () => jsonCookie(4), 'json cookie not required': () => jsonCookie(3, false) };
export const meta = { mustCover: ['gated', 'read back', 'handed over', 'revoked', 'decided granted', 'decided denied', 'swept', 'changed later', 'json gated', 'json kept'], bounds: ['histories of 4 storage operations and consent decisions over one record (identity, default user, other, exempt), 3 over two records or two stores, each value any of 9 identifiers with or without the sticky fields, an older value on the device or not; 4 operations and decisions on the asynchronous cookie store, of texts or of objects changed later, with each gap empty or settled, and 2 after a grant of two held cookies with gaps of 0, 2, 4 or all microtasks, slow or fast reads; 4 on the JSON cookie; a refusal after any write of a handover'], assumptions: ['the cookie store underneath acts when called and may answer later', 'a refusal and a new grant are not issued in the same task while an operation is in flight'] };
