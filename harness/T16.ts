// The visual editor's overlay: what may load it, and what the page does meanwhile.
import './lib/env';
import { KEY, flag, mut, pageObject, configs, integration, clock, advance, setGlobal, window, document, location, history, sessionStorage, go, live, timers, page, browser, dispatch, listeners } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
import { showOpenerSeveredBanner } from 'repo:experiment-tag/src/util/opener-severed-banner';
import { WindowMessenger } from 'repo:experiment-tag/src/util/messenger';
declare const H: any;
const O = 'https://example.com', SESSION = 'visual-editor-state', GOOD = 'https://cdn.amplitude.com/overlay.js';
const native = URL;
// An address whose parts may be symbolic: scheme://[user@]host[:port][/path][?query][#hash]
class Address { protocol = ''; hostname = ''; href = ''; constructor(u: any) { if (typeof u !== 'string') throw new TypeError('Invalid URL'); const i = u.indexOf('://'); if (i <= 0) throw new TypeError('Invalid URL'); this.href = u; this.protocol = u.slice(0, i + 1); let a: string = u.slice(i + 3); for (const c of ['/', '?', '#']) { const j = a.indexOf(c); if (j >= 0) a = a.slice(0, j); } const k = a.lastIndexOf('@'); if (k >= 0) a = a.slice(k + 1); const p = a.indexOf(':'); if (p >= 0) { if (a.slice(p + 1) !== '') throw new TypeError('Invalid URL'); a = a.slice(0, p); } if (a === '') throw new TypeError('Invalid URL'); this.hostname = a; } toString() { return this.href; } }
const under = (h: string) => { const s = '.amplitude.com'; return h.length >= s.length && h.slice(h.length - s.length) === s; };
const okUrl = (u: any) => { try { const a = new Address(u); return { https: a.protocol === 'https:', host: under(a.hostname) }; } catch { return { https: false, host: false }; } };
const allows = (u: any, secure: boolean) => { const o = okUrl(u); return H.conc(secure ? H.and(o.https, o.host) : o.host); };
let nonce: any = null;
const dom = () => { browser(); const d: any = document; const find = (e: any, id: string): any => { for (const c of e.children || []) { if (c.id === id) return c; const r = find(c, id); if (r) return r; } return null; }; d.getElementById = (id: string) => find(d.head, id) || (d.body && find(d.body, id)) || find(d.documentElement, id); d.querySelector = (q: string) => q === '[nonce]' ? nonce : null; (window as any).opener = { closed: false }; setGlobal('webExperiment', undefined); };
const scripts = () => (document as any).head.children.filter((c: any) => c.tagName === 'SCRIPT' && c.src !== undefined);
const outcome = async (s: any, type: string) => { for (const l of listeners.slice()) if (l.target === s && l.type === type) l.fn({ type }); await H.settle(6); };
const message = async (origin: any, type: any, src: any) => { for (const l of listeners.slice()) if (l.type === 'message') { try { l.fn({ origin, data: { type, context: { injectSrc: src, amplitudeWindowUrl: 'w' } } }); } catch (e) { if (!String(e).includes('Invalid URL')) throw e; } } await H.settle(4); };
const indicator = () => !!(document as any).getElementById('amp-exp-loading');
const CH = '.amplitudecomx@?/';
// an address: fixed scheme choice, then any short text before and after parts of the real host
const address = (name: string, k: number) => { const scheme = ['https', 'http'][H.choose(name + '.scheme', 2)]; const a = H.str(name + '.a', { max: k, alpha: '.ax@?/:' }); const mid = ['.amplitude.com', 'amplitude.com', 'amplitudexcom', '.amplitudecom'][H.choose(name + '.mid', 4)]; const b = H.str(name + '.b', { max: k, alpha: '.cx@?/:' }); return scheme + '://' + a + mid + b; };
async function gate(which: number, k: number) { // one message (or stored session) with any origin or any script address
  dom(); setGlobal('URL', Address); const u = address('u', k); H.show('address', u); const kind = H.choose('nonce', 3); nonce = kind ? { nonce: kind === 2 ? '' : 'n1', getAttribute: (a: string) => a === 'nonce' && kind === 2 ? 'n1' : '' } : null;
  let expect: any; if (which === 2) { sessionStorage.put(SESSION, JSON.stringify({ injectSrc: H.conc(u), amplitudeWindowUrl: 'w' })); }
  WindowMessenger.setup(); await H.settle(4);
  if (which === 0) { await message(u, 'OpenOverlay', GOOD); expect = allows(u, false); } else if (which === 1) { await message('https://app.amplitude.com', 'OpenOverlay', u); expect = allows(u, true); } else expect = allows(u, true);
  const s = scripts(); H.observe(s.map((x: any) => x.src)); H.assert(s.length === (expect ? 1 : 0), 'the script is loaded exactly when its sender and address are allowed', { u, expect, which });
  if (expect) { H.cover('allowed ' + which); H.assert(H.eq(s[0].src, which === 0 ? GOOD : u), 'and it is the one asked for', { src: s[0].src, u }); H.assert(s[0].getAttribute('nonce') === (nonce ? 'n1' : null), 'with the nonce of the page', {}); } else H.cover('refused ' + which);
  if (which === 2 && !expect) { await message('https://app.amplitude.com', 'OpenOverlay', GOOD); H.assert(scripts().length === 1, 'a session which is not valid does not keep the editor from being opened', { u }); } }
async function stored(k: number) { dom(); const damaged = ['5', '"x"', '{}', '{"injectSrc":5}', '[]', '{', 'null', '{"injectSrc":"https://cdn.amplitude.com/o.js","amplitudeWindowUrl":"w"}'][H.choose('damaged', 8)]; sessionStorage.put(SESSION, damaged); WindowMessenger.setup(); await H.settle(4); const ok = damaged.includes('cdn'); H.observe(scripts().length); H.assert(scripts().length === (ok ? 1 : 0), 'a stored session is used only if valid', { damaged }); H.assert(indicator() === ok, 'the loading indicator is shown while it loads', { damaged }); await message('https://app.amplitude.com', 'OpenOverlay', GOOD); H.assert(scripts().length === 1, 'the editor opens once', { damaged });if (ok && H.fork('fails')) { await outcome(scripts()[0], 'error'); H.assert(!indicator(), 'and not after a failure', {}); H.cover('stored fails'); } else if (ok) { await outcome(scripts()[0], 'load'); await message('https://app.amplitude.com', 'OpenOverlay', GOOD); H.assert(scripts().length === 1, 'the editor opens once', { damaged }); } await advance(clock.now + 10100, 4, 10); H.assert(!indicator(), 'the indicator is gone after 10 s', {}); }
// several messages, with the scripts loading, failing or still under way
export const hook: any = { check: null };
export async function sequence(N: number) {
  dom(); const noBody = H.fork('no body'), d: any = document; const body = d.body; if (noBody) d.body = null; WindowMessenger.setup(); let state = 'closed', wanted = 0, pending: any = null, loadedAt: any = null;
  for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 6); // 0 good message, 1 bad message, 2 loads, 3 fails, 4 body, 5 six seconds
    if (op === 0) { await message(['https://app.amplitude.com', 'https://x.amplitude.com:8443', 'http://a.b.amplitude.com'][n % 3], 'OpenOverlay', GOOD); if (state === 'closed') { state = 'opening'; wanted++; loadedAt = clock.now; } }
    else if (op === 1) { const bad = H.choose('bad' + n, 7); await message(bad === 0 ? '' : bad === 1 ? 'null' : bad === 2 ? 'https://evil.com' : 'https://app.amplitude.com', bad === 3 ? 'CloseOverlay' : 'OpenOverlay', bad === 4 ? 'http://cdn.amplitude.com/o.js' : bad === 5 ? 'https://cdn.amplitude.com.evil.com/o.js' : bad === 6 ? 'data://cdn.amplitude.com/o.js' : GOOD); }
    else if (op === 5) { const frames = timers.list.filter((t: any) => t.delay === 16); timers.list = timers.list.filter((t: any) => t.delay !== 16); await advance(clock.now + 6000, 4, 9); timers.list.push(...frames); if (state === 'opening' && clock.now - loadedAt > 6000) H.cover('long'); }
    else if (op === 4) { await advance(clock.now + 40, 4, 5); H.assert(d.body || scripts().length === 0, 'not before the body is there', {}); d.body = body; await advance(clock.now + 16, 4, 5); await H.settle(4); }
    else { const s = scripts(); const last = s[s.length - 1]; if (state === 'opening' && last && last !== pending) { await outcome(last, op === 2 ? 'load' : 'error'); pending = last; state = op === 2 ? 'open' : 'closed'; } }
    const there = d.body ? wanted : 0; const s = scripts(); H.observe([state, s.length]); H.assert(s.length === (d.body ? wanted : s.length === 0 ? 0 : wanted), 'scripts are loaded one at a time, and none after one has loaded', { state, wanted, n: s.length, body: !!d.body, there });
    H.assert(d.body !== null || s.length === 0 || !noBody, 'not before the body is there', {}); if (d.body) H.assert(state === 'open' || indicator() === (state === 'opening' && clock.now - loadedAt < 10000), 'the loading indicator is shown while loading', { state, since: clock.now - (loadedAt || 0) }); if (state === 'closed') H.assert(!indicator(), 'and not after a failure', {}); H.cover('state ' + state + (wanted > 1 ? ' again' : '')); if (hook.check) hook.check(state, wanted); }
  if (!d.body) { const frames = timers.list.filter((t: any) => t.delay === 16); timers.list = timers.list.filter((t: any) => t.delay !== 16); await advance(clock.now + 10100, 4, 9); timers.list.push(...frames); d.body = body; } await advance(clock.now + 10100, 4, 10); H.assert(!indicator(), 'the indicator is gone after 10 s', {}); H.assert(scripts().length === wanted, 'and the script there once the body is', { wanted }); }
async function again() { // the indicator of a second attempt has ten seconds of its own
  dom(); WindowMessenger.setup(); await message('https://app.amplitude.com', 'OpenOverlay', GOOD); const w = H.int('before', 0, 9000), v = H.int('after', 0, 12000); await advance(clock.now + w, 4, 9); await outcome(scripts()[0], 'error'); await message('https://app.amplitude.com', 'OpenOverlay', GOOD); const at = clock.now; await advance(at + v, 4, 9); H.assert(indicator() === H.conc(v < 10000), 'the loading indicator is shown while loading', { w, v }); H.assert(scripts().length === 2, 'opened again'); H.cover('again'); H.observe(indicator()); }
async function notice(n: number) { // that the editor is cut off is said once, as soon as there is a body, until it is closed
  dom(); const d: any = document, body = d.body; const noBody = H.fork('no body'); if (noBody) d.body = null; const modal = H.fork('modal'); const make = d.createElement, made: any[] = []; const shown = () => (body.children || []).filter((c: any) => c.id === 'amp-exp-opener-severed');
  d.createElement = (tag: string) => { const e = make.call(d, tag); if (tag === 'dialog') { const bs = [make.call(d, 'button'), make.call(d, 'button')]; e.buttons = bs; e.open = false; e.querySelectorAll = (q: string) => (q.includes('close') ? bs : []); if (modal) { e.showModal = () => { H.assert(!e.open, 'opened once', {}); if (!shown().includes(e)) throw new Error('InvalidStateError'); e.open = true; }; e.close = () => { e.open = false; }; } else e.setAttribute = (k: string) => { if (k === 'open') e.open = true; }; made.push(e); } return e; };
  try { let want = 0, asked = false; for (let i = 0; i < n; i++) { const op = H.choose('op' + i, 3); if (op === 0) { showOpenerSeveredBanner(); if (d.body) want = 1; else asked = true; } else if (op === 1) { if (!d.body) { d.body = body; } await advance(clock.now + 16, 4, 5); await H.settle(2); } else { const e = shown()[0]; if (!e) continue; const b = e.buttons[H.choose('button' + i, 2)]; for (const l of listeners.slice()) if (l.target === b && l.type === 'click') l.fn({ type: 'click' }); H.assert(!e.open || !modal, 'closed', {}); want = 0; }
      if (d.body && asked) { want = 1; asked = false; } const s = shown(); H.observe(s.length); H.assert(s.length === (d.body ? want : 0), 'the notice is there once, until closed', { want, n: s.length, op }); H.assert(s.every((e: any) => e.open), 'and seen', {}); H.cover('notice ' + want); } } finally { d.createElement = make; d.body = body; } }
// the whole client
async function client(which: number) {
  dom(); const events = integration(); const opener = H.choose('opener', 3); (window as any).opener = opener === 0 ? { closed: false } : opener === 1 ? null : { closed: true };
  const ve = H.choose('editor', 3), preview = H.fork('preview'); go(O + '/a?k=1' + (ve === 1 ? '&VISUAL_EDITOR=true' : '') + (preview ? '&PREVIEW=true&f=on' : '')); if (ve === 2) sessionStorage.put(SESSION, JSON.stringify({ injectSrc: GOOD, amplitudeWindowUrl: 'w' }));
  const c: any = DefaultWebExperimentClient.getInstance(KEY, configs([flag('f', 'on', { on: [mut('m')] })], { f: { A: pageObject('A') } }), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) } } as any); await c.start(); await H.settle(40);
  const broken = opener > 0; H.observe([live(), events.length, scripts().length, location.href]);
  if (ve) { H.assert(live().length === 0 && events.length === 0, 'in the editor no variant is applied nor tracked', { live: live() }); H.assert(!location.href.includes('VISUAL_EDITOR') && (preview || location.href.includes('k=1')), 'the parameter is removed from the address', { href: location.href });
    if (!broken) { H.assert(Object.keys(c.getActivePages()).join() === 'f', 'pages stay known', { pages: c.getActivePages() }); if (ve === 1) await message('https://app.amplitude.com', 'OpenOverlay', GOOD); H.assert(scripts().length === 1, 'the editor opens once', { n: scripts().length, ve, preview, l: listeners.filter((l: any) => l.type === 'message').length }); H.assert(indicator(), 'the loading indicator is shown while loading'); c.hideLoadingIndicator(); H.assert(!indicator(), 'until the editor is ready'); H.cover('editor'); }
    else { await message('https://app.amplitude.com', 'OpenOverlay', GOOD); H.assert(scripts().length === 0, 'without the window that opened it nothing is loaded', { ve, opener, preview }); await advance(clock.now + 20, 4, 5); H.cover('no opener'); H.assert(!!(document as any).getElementById('amp-exp-opener-severed'), 'but told', {}); } }
  else { H.assert(live().join() === 'm', 'otherwise the page runs', { live: live() }); await message('https://app.amplitude.com', 'OpenOverlay', GOOD); H.assert(scripts().length === (preview ? 1 : 0), 'and listens only in preview mode', { preview, n: scripts().length }); H.cover(preview ? 'preview' : 'plain'); }
  go(O + '/b'); if (ve) { dispatch('window', 'popstate'); await H.settle(20); H.assert(live().length === 0 && events.length === 0, 'nor after navigation', {}); } }
export const cells: Record<string, any> = { origin: () => gate(0, 2), script: () => gate(1, 2), session: () => gate(2, 1), stored: () => stored(0), sequence: () => sequence(3), client: () => client(0), again, notice: () => notice(4), origin3: () => gate(0, 3), script3: () => gate(1, 3), sequence4: () => sequence(4) };
export const meta = { thoroughOnly: ['origin3', 'script3', 'sequence4'], mustCover: ['notice 0', 'notice 1', 'again', 'long', 'stored fails', 'allowed 0', 'allowed 1', 'allowed 2', 'refused 0', 'refused 1', 'refused 2', 'state opening', 'state open', 'state closed', 'state opening again', 'editor', 'no opener', 'preview', 'plain'], bounds: ['any origin and any script address made of http or https, up to 2 (thorough 3) characters before and after four spellings of the host, over an alphabet of seven characters; 3 (4) messages, loads, failures and the body appearing, in any order; every mix of editor parameter or session, preview parameters and the state of the opener; eight stored sessions; 4 calls, closings and the body appearing for the notice that the editor is cut off'], assumptions: ['addresses are taken apart as scheme, user, host, port, path'] };
