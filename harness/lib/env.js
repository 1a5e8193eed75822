// The environment the real code runs in: clock, timers, storages, cookies,
// window/document.  Everything here is part of the claim (see DESIGN.md).
// It is instrumented together with the code, so keys, values and times may be symbolic.
export const clock = { now: 1000000 };
export const timers = { seq: 0, list: [] };
export const log = []; // device accesses: [op, store, key]
export const rnd = { next: () => 0.5 };

class FakeDate {
  constructor(...a) { this.ms = a.length === 0 ? clock.now : a[0] instanceof FakeDate ? a[0].ms : typeof a[0] === 'string' ? new __env.NativeDate(a[0]).getTime() : a.length > 1 ? new __env.NativeDate(...a).getTime() : a[0]; }
  getTime() { return this.ms; }
  valueOf() { return this.ms; }
  toISOString() { return 'D' + this.ms + 'Z'; }
  toUTCString() { return 'U' + this.ms + 'Z'; }
  toJSON() { return this.toISOString(); }
  toString() { return 'S' + this.ms + 'Z'; }
  setTime(v) { this.ms = v; return v; }
  getTimezoneOffset() { return 0; }
  static now() { return clock.now; }
}
function addTimer(fn, delay, interval, args) {
  const id = ++timers.seq;
  const d = delay === undefined || delay === null ? 0 : delay;
  timers.list.push({ id, fn, due: clock.now + d, delay: d, interval, args, fired: 0 });
  return id;
}
function clearTimer(id) { timers.list = timers.list.filter((t) => t.id !== id); }
export function fire(t) { // run one timer now (the caller sets the clock)
  if (!t.interval) clearTimer(t.id); else t.due = t.due + t.delay;
  t.fired++;
  return t.fn(...(t.args || []));
}
// advance the clock to the earliest timer due at or before `until` and run it; repeat
export async function advance(until, settle = 1, max = 20) {
  for (let n = 0; n < max; n++) {
    let best = null;
    for (const t of timers.list) if (t.due <= until && (best === null || t.due < best.due)) best = t;
    if (best === null) break;
    if (best.due > clock.now) clock.now = best.due;
    fire(best);
    await H.settle(settle);
  }
  if (until > clock.now) clock.now = until;
}

export class FakeStorage {
  constructor(name) { this.__d = { name, map: new Map(), failGet: false, failSet: false, failAll: false, onSet: null }; }
  getItem(k) { const d = this.__d; log.push(['get', d.name, k]); if (d.failGet || d.failAll) throw new Error('storage read denied'); const v = d.map.get(k); return v === undefined ? null : v; }
  setItem(k, v) { const d = this.__d; log.push(['set', d.name, k]); if (d.failSet || d.failAll) throw new Error('QuotaExceededError'); d.map.set(k, typeof v === 'string' ? v : String(v)); }
  removeItem(k) { const d = this.__d; log.push(['remove', d.name, k]); if (d.failAll) throw new Error('storage denied'); d.map.delete(k); }
  clear() { this.__d.map.clear(); log.push(['clear', this.__d.name, '']); }
  key(i) { const ks = [...this.__d.map.keys()]; return i < ks.length ? ks[i] : null; }
  get length() { return this.__d.map.size; }
  raw(k) { const v = this.__d.map.get(k); return v === undefined ? null : v; }
  put(k, v) { this.__d.map.set(k, v); }
  drop(k) { this.__d.map.delete(k); }
  names() { return [...this.__d.map.keys()]; }
}
// proxies would hide symbolic keys, so Object.keys(localStorage) is served by explicit own enumeration only where a harness needs it

export class CookieJar {
  constructor() { this.jar = []; this.onlyDomains = null; this.log = log; }
  get cookie() { log.push(['get', 'cookie', '']); return this.jar.map((c) => c.name + '=' + c.value).join('; '); }
  set cookie(s) {
    const parts = s.split(';');
    const eq = parts[0].indexOf('=');
    const name = parts[0].slice(0, eq).trim(), value = parts[0].slice(eq + 1).trim();
    const at = { path: '/' };
    for (let i = 1; i < parts.length; i++) { const p = parts[i].trim(); const j = p.indexOf('='); const k = (j < 0 ? p : p.slice(0, j)).toLowerCase(); at[k] = j < 0 ? true : p.slice(j + 1); }
    const domain = at.domain ? at.domain.replace(/^\./, '') : '';
    if (this.onlyDomains && domain !== '' && !this.onlyDomains.includes(domain)) { log.push(['rejected', 'cookie', name]); return; }
    let dead = value === '' && at.expires !== undefined && /1970|^U-?0?Z|Thu, 01 Jan/.test(String(at.expires));
    if (at['max-age'] !== undefined) { if (Number(at['max-age']) <= 0) dead = true; }
    if (at.expires !== undefined && /^U/.test(at.expires)) { const ms = Number(at.expires.slice(1, -1)); if (ms <= clock.now) dead = true; }
    log.push([dead ? 'remove' : 'set', 'cookie', name]);
    this.jar = this.jar.filter((c) => !(c.name === name && c.domain === domain));
    if (!dead) this.jar.push({ name, value, domain, attrs: at });
  }
  value(name) { for (const c of this.jar) if (c.name === name) return c.value; return undefined; }
}

export const listeners = [];
const win = {
  addEventListener(type, fn, opts) { listeners.push({ target: 'window', type, fn, opts }); },
  removeEventListener(type, fn) { const i = listeners.findIndex((l) => l.type === type && l.fn === fn); if (i >= 0) listeners.splice(i, 1); },
  dispatchEvent(e) { for (const l of [...listeners]) if (l.type === e.type) l.fn(e); return true; },
};
export const localStorage = new FakeStorage('local');
export const sessionStorage = new FakeStorage('session');
export const cookies = new CookieJar();
const doc = {
  referrer: '', title: 't', readyState: 'complete', hidden: false, visibilityState: 'visible',
  get cookie() { return cookies.cookie; }, set cookie(v) { cookies.cookie = v; },
  addEventListener(type, fn, opts) { listeners.push({ target: 'document', type, fn, opts }); },
  removeEventListener(type, fn) { win.removeEventListener(type, fn); },
  dispatchEvent(e) { return win.dispatchEvent(e); },
  querySelector() { return null; }, querySelectorAll() { return []; }, getElementById() { return null; },
  createElement(tag) { return mkElement(tag); }, createTextNode(t) { return { nodeType: 3, textContent: t }; },
  documentElement: null, head: null, body: null,
};
export function mkElement(tag) {
  const e = { tagName: String(tag).toUpperCase(), id: '', style: {}, children: [], attributes: {}, parentNode: null, textContent: '', innerText: '', sheet: { insertRule() {}, cssRules: [] },
    setAttribute(k, v) { e.attributes[k] = v; }, getAttribute(k) { return k in e.attributes ? e.attributes[k] : null; }, removeAttribute(k) { delete e.attributes[k]; },
    appendChild(c) { e.children.push(c); c.parentNode = e; return c; }, removeChild(c) { const i = e.children.indexOf(c); if (i >= 0) e.children.splice(i, 1); c.parentNode = null; return c; },
    remove() { if (e.parentNode) e.parentNode.removeChild(e); }, addEventListener(type, fn) { listeners.push({ target: e, type, fn }); }, removeEventListener() {}, insertBefore(c) { return e.appendChild(c); },
    querySelector() { return null; }, querySelectorAll() { return []; }, contains() { return false; }, classList: { add() {}, remove() {}, contains() { return false; } } };
  return e;
}
doc.documentElement = mkElement('html'); doc.head = mkElement('head'); doc.body = mkElement('body');
export const location = { href: 'https://example.com/', hostname: 'example.com', host: 'example.com', origin: 'https://example.com', pathname: '/', search: '', hash: '', protocol: 'https:', replace(u) { location.replaced.push(u); }, assign(u) { location.replaced.push(u); }, reload() { location.reloaded = (location.reloaded || 0) + 1; }, replaced: [] };
export const history = { state: null, length: 1, pushState(s, t, u) { history.calls.push(['push', u]); }, replaceState(s, t, u) { history.calls.push(['replace', u]); }, back() {}, forward() {}, go() {}, calls: [] };
export const navigator = { userAgent: 'ua', language: 'en-US', languages: ['en-US'], sendBeacon() { return true; } };

const E = {
  Date: FakeDate,
  setTimeout: (fn, d, ...args) => addTimer(fn, d, false, args),
  setInterval: (fn, d, ...args) => addTimer(fn, d, true, args),
  clearTimeout: clearTimer, clearInterval: clearTimer,
  requestAnimationFrame: (fn) => addTimer(fn, 16, false, []),
  queueMicrotask: (fn) => { Promise.resolve().then(fn); },
  localStorage, sessionStorage, navigator, location, history, document: doc,
  performance: { now: () => clock.now },
  random: () => rnd.next(),
  crypto: undefined,
  MutationObserver: class { constructor(cb) { this.cb = cb; } observe() {} disconnect() {} takeRecords() { return []; } },
  IntersectionObserver: class { constructor(cb) { this.cb = cb; } observe() {} disconnect() {} unobserve() {} },
  CustomEvent: class { constructor(type, init) { this.type = type; this.detail = init && init.detail; } },
  Event: class { constructor(type) { this.type = type; } },
  HTMLElement: class {}, Element: class {}, Node: class {},
  AbortController: class { constructor() { this.signal = { aborted: false }; } abort() { this.signal.aborted = true; } },
  fetch: undefined, XMLHttpRequest: undefined, BroadcastChannel: undefined, MessageChannel: undefined, CSSStyleSheet: undefined, DOMParser: undefined, StorageEvent: undefined, screen: { width: 1, height: 1 },
};
for (const k of Object.keys(E)) { __env[k] = E[k]; if (k !== 'random') win[k] = E[k]; }
win.console = __env.console; win.Map = __env.Map; win.Set = __env.Set; win.URL = __env.URL; win.URLSearchParams = __env.URLSearchParams; win.Math = Math;
win.window = win; win.self = win; win.globalThis = win; win.parent = win; win.top = win; win.opener = null; win.btoa = __env.btoa; win.atob = __env.atob; win.TextEncoder = __env.TextEncoder; win.TextDecoder = __env.TextDecoder;
win.Promise = Promise; win.JSON = JSON; win.Object = Object; win.Array = Array; win.postMessage = () => {};
__env.window = win; __env.globalThis = win; __env.self = win;
export const blocked = { local: false, session: false }; // access itself throws, as with cookies blocked
for (const o of [win, __env]) {
  Object.defineProperty(o, 'localStorage', { configurable: true, enumerable: true, get() { if (blocked.local) throw new Error('SecurityError'); return localStorage; }, set(v) { Object.defineProperty(o, 'localStorage', { value: v, configurable: true, writable: true, enumerable: true }); } });
  Object.defineProperty(o, 'sessionStorage', { configurable: true, enumerable: true, get() { if (blocked.session) throw new Error('SecurityError'); return sessionStorage; }, set(v) { Object.defineProperty(o, 'sessionStorage', { value: v, configurable: true, writable: true, enumerable: true }); } });
}
export const window = win; export const document = doc;
export function setGlobal(k, v) { __env[k] = v; win[k] = v; }
