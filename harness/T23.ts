// The editor's mobile view: the page inside a frame of its own, whose address the page follows.
import './lib/env';
import { KEY, flag, mut, redirect, pageObject, configs, integration, clock, advance, setGlobal, window, document, location, history, localStorage, sessionStorage, cookies, go, live, browser, dispatch, listeners, timers } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
import { buildShell, getCustomerDocument, getCustomerWindow, isMobileModeActive } from 'repo:experiment-tag/src/util/shell';
declare const H: any;
const O = 'https://example.com', MOBILE = 'amp-visual-editor-mobile-mode', SESSION = 'visual-editor-state', GOOD = 'https://cdn.amplitude.com/overlay.js', FRAME = 'amp-device-iframe';
const d: any = document, w: any = window; let frames: any[] = [], moves: any[] = []; const mk = d.createElement;
const dom = () => { browser(); frames = []; moves = []; listeners.length = 0; timers.list.length = 0; w.webExperiment = undefined; w.frameElement = null; w.ampDomMutator = undefined; w.opener = { closed: false }; sessionStorage.drop(MOBILE); sessionStorage.drop(SESSION); (history as any).state = { app: 1 };
  const h: any = history; for (const m of ['pushState', 'replaceState']) h[m] = (st: any, _t: any, u: any) => { const to = u === undefined || u === null ? location.href : new URL(u, location.href); if (new URL(to).origin !== location.origin) throw new Error('SecurityError'); moves.push([m, st, String(to)]); h.state = st; go(String(to)); };
  d.createElement = (t: string) => { const e = mk(t); if (t === 'iframe') { e.contentWindow = null; frames.push(e); } return e; };
  Object.defineProperty(d.body, 'firstChild', { configurable: true, get: () => d.body.children[0] || null }); d.body.children.length = 0; for (const id of ['nav', 'main']) { const e = mk('div'); e.id = id; d.body.appendChild(e); }
  d.getElementById = (id: string) => { const f = (e: any): any => { for (const c of e.children || []) { if (c.id === id) return c; const r = f(c, id as never); if (r) return r; } return null; }; return f(d.body); }; };
const ids = () => d.body.children.map((c: any) => c.id);
const scripts = () => d.head.children.filter((c: any) => c.tagName === 'SCRIPT' && c.src !== undefined);
const fire = (target: any, type: string) => { for (const l of listeners.slice()) if (l.target === target && l.type === type) l.fn({ type }); };
// a document in the frame
const open = (href: string, foreign = false) => { const win: any = { calls: [], addEventListener: (type: string, fn: any) => { listeners.push({ target: win, type, fn }); }, document: {} }; const loc: any = { href }; if (foreign) Object.defineProperty(win, 'location', { get: () => { throw new Error('SecurityError'); } }); else win.location = loc; const hist: any = { state: null, length: 1 }; for (const m of ['pushState', 'replaceState']) hist[m] = function (st: any, t: any, u: any) { const to = new URL(u === undefined || u === null ? loc.href : u, loc.href); if (to.origin !== new URL(loc.href).origin) throw new Error('SecurityError'); win.calls.push([m, st, t, u]); hist.state = st; loc.href = to.toString(); }; Object.defineProperty(win, 'history', { get: () => { if (foreign) throw new Error('SecurityError'); return hist; } }); win.loc = loc; const f = frames[0]; f.contentWindow = win; f.contentDocument = win.document; return win; };
const editor = async (extra = '') => { go(O + '/a?k=1' + extra); const ve = H.choose('editor', 2); if (ve === 0) go(O + '/a?k=1&VISUAL_EDITOR=true' + extra); const stored = ve === 1 || H.fork('stored'); if (stored) sessionStorage.put(SESSION, JSON.stringify({ injectSrc: GOOD, amplitudeWindowUrl: 'w' })); return stored; };
const client = (flags: any[], pages: any) => DefaultWebExperimentClient.getInstance(KEY, configs(flags, pages), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) } } as any) as any;
const PAGES = { f: { A: pageObject('A'), B: pageObject('B', 'url_change', {}, [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/b'] }]]) } };
// the page is given up only once it has loaded, and the overlay comes afterwards
async function build() {
  dom(); const events = integration(); const stored = await editor(); const body = d.body; const late = H.fork('late body'); if (late) d.body = null; d.readyState = ['loading', 'interactive', 'complete'][H.choose('ready', 3)]; const mobile = H.choose('mobile', 4); if (mobile < 3) sessionStorage.put(MOBILE, ['true', 'false', ''][mobile]); const on = mobile === 0; let built = d.readyState === 'complete' && !late; const before = d.adoptedStyleSheets.length;
  const c = client([flag('f', 'on', { on: [mut('m'), redirect(O + '/r')] })], PAGES); c.start(); await H.settle(30);
  for (let i = 0; i < 4; i++) { const shell = on && built; d.body = d.body || null; H.assert(frames.length === (shell ? 1 : 0), 'a frame once the page has loaded', { on, built, i, n: frames.length }); if (d.body) H.assert(H.eq(ids().filter((x: string) => ['nav', 'main'].includes(x)), shell ? [] : ['nav', 'main']), 'the page is left alone until then', { ids: ids(), on, built }); if (on && !built) H.assert(scripts().length === 0 && !c.isRunning, 'nor does the overlay come before', {}); if (on && built) H.assert(scripts().length === (stored ? 1 : 0) && c.isRunning, 'the overlay comes then', { n: scripts().length, stored });
    if (shell) { const f = frames[0]; H.assert(f.id === FRAME && f.src === O + '/a?k=1' && d.getElementById(FRAME) === f, 'it shows the same address', f.src); H.assert(d.adoptedStyleSheets.some((s: any) => s.css.includes('body > *') && s.css.includes('none')), 'nothing else is shown', {}); H.cover('built' + (i ? ' later' : '')); }
    else if (!on) { H.assert(d.adoptedStyleSheets.length === before, 'no other style', {}); H.cover('not mobile'); }
    const k = H.choose('next' + i, 3); if (k === 0) d.readyState = 'complete'; if (k === 1) d.body = body; await advance(clock.now + 20, 3, 6); await H.settle(20); built = built || (d.readyState === 'complete' && !!d.body); }
  H.observe([frames.length, location.href]); H.assert(!location.href.includes('VISUAL') && location.href.includes('k=1'), 'the parameter is gone', location.href); H.assert(live().length === 0 && events.length === 0 && location.replaced.length === 0, 'nothing is applied', {}); if (!d.body) d.body = body; d.readyState = 'complete'; await advance(clock.now + 40, 3, 6); await H.settle(20); H.assert(frames.length === (on ? 1 : 0), 'one frame', frames.length); if (on) H.assert(c.isRunning, 'and then it runs', {}); }
// whatever happens in the frame, the address of the page is that of the frame
async function follow(N: number) {
  dom(); const events = integration(); go(O + '/a?k=1'); sessionStorage.put(SESSION, '{}'); d.readyState = 'complete'; sessionStorage.put(MOBILE, 'true'); const c = client([flag('f', 'on', { on: [mut('m'), redirect(O + '/r')] })], PAGES); await c.start(); await H.settle(30); const f = frames[0]; H.assert(!!f && c.isRunning, 'started', {}); const state = ((history as any).state = { app: 2 }); let win = open(f.src), here = location.href, foreign = false;
  fire(f, 'load'); await H.settle(10); H.assert(location.href === O + '/a?k=1', 'at first the same', { href: location.href });
  const addr = (n: string) => [O + '/b', O + '/a?k=2', O + '/a?k=1#x', '/b?q'][H.choose(n, 4)];
  for (let i = 0; i < N; i++) { const k = H.choose('op' + i, 7); let want = here; const from = moves.length; const l = win.loc.href;
    if (k === 0) { const u = new URL(addr('to' + i), O + '/a').toString(); win = open(u); foreign = false; fire(f, 'load'); want = u; H.cover('load'); }
    else if (k === 1 || k === 2) { if (foreign) continue; const m = k === 1 ? 'pushState' : 'replaceState', bare = H.fork('bare' + i), u = bare ? undefined : addr('to' + i), n = win.calls.length; const st = { s: i }; win.history[m](st, 't', u); H.assert(win.calls.length === n + 1 && H.eq(win.calls[n].slice(0, 3), [m, st, 't']) && (win.calls[n][3] === u), 'the frame navigates as it asked to', { calls: win.calls, u }); want = win.loc.href; H.cover(m); }
    else if (k === 3) { if (foreign) continue; win.loc.href = new URL(addr('to' + i), l).toString(); fire(win, 'popstate'); want = win.loc.href; H.cover('back'); }
    else if (k === 4) { win = open('https://evil.com/', true); foreign = true; fire(f, 'load'); H.cover('foreign'); }
    else if (k === 5) { if (foreign) continue; let thrown = false; const n = win.calls.length; try { win.history.pushState({}, '', 'https://evil.com/'); } catch { thrown = true; } H.assert(thrown && win.calls.length === n, 'the browser refuses', {}); H.cover('refused'); }
    else { f.contentWindow = null; fire(f, 'load'); f.contentWindow = win; H.cover('empty'); }
    await H.settle(12); here = want; const made = moves.slice(from); H.observe([location.href, made.length]); H.assert(location.href === want, 'the page follows', { got: location.href, want, k, i }); H.assert(made.every((m: any) => m[0] === 'replaceState' && H.eq(m[1], state)), 'without entries of its own, keeping its state', made); H.assert(H.eq(Object.keys((c.getActivePages().f || {})).sort(), want.includes('/b') ? ['A', 'B'] : ['A']), 'the pages are those of the frame', { pages: c.getActivePages(), want }); H.assert(live().length === 0 && events.length === 0 && location.replaced.length === 0, 'nothing is applied', {}); H.assert(frames.length === 1 && d.getElementById(FRAME) === f, 'the frame stays', {}); H.assert(getCustomerDocument(w) === f.contentDocument && getCustomerWindow(w) === win, 'what is edited is in the frame', {}); }
  H.cover('followed'); }
// inside the frame the tag leaves the page to the overlay
async function inside() {
  dom(); const events = integration(); const how = H.choose('frame', 5), mobile = H.choose('mobile', 4); if (how === 4) Object.defineProperty(w, 'frameElement', { configurable: true, get: () => { throw new Error('SecurityError'); } }); else w.frameElement = [null, { id: FRAME }, { id: 'other' }, undefined][how]; if (mobile < 3) sessionStorage.put(MOBILE, ['true', 'false', ''][mobile]); const deaf = mobile === 3 && H.fork('storage throws'); go(O + '/a'); const rd = H.fork('redirect'), param = H.fork('parameter'); if (param) go(O + '/a?VISUAL_EDITOR=true'); if (H.fork('session')) sessionStorage.put(SESSION, JSON.stringify({ injectSrc: GOOD, amplitudeWindowUrl: 'w' })); d.readyState = 'complete';
  const inFrame = how === 1 && mobile === 0; if (!inFrame && (param || sessionStorage.raw(SESSION))) return; const gi = (sessionStorage as any).getItem; if (deaf) (sessionStorage as any).getItem = () => { throw new Error('SecurityError'); };
  H.assert(isMobileModeActive() === (mobile === 0), 'mobile as stored', {}); H.assert(getCustomerDocument(w) === d && getCustomerWindow(w) === w, 'without a frame the page is what is edited', {});
  const c = client([flag('f', 'on', { on: rd ? [redirect(O + '/r')] : [mut('m')] })], { f: { A: pageObject('A') } }); await c.start(); await H.settle(40); (sessionStorage as any).getItem = gi; H.observe([live(), location.replaced, events.length]);
  if (inFrame) { H.assert(live().length === 0 && events.length === 0 && location.replaced.length === 0 && scripts().length === 0 && frames.length === 0, 'nothing is applied nor opened', { live: live() }); H.assert(!!w.ampDomMutator && typeof w.ampDomMutator.pauseGlobalObserver === 'function', 'the overlay gets the mutator', Object.keys(w.ampDomMutator || {})); H.assert(c.isRunning, 'and it counts as started', {}); H.assert(location.href === (param ? O + '/a?VISUAL_EDITOR=true' : O + '/a') , 'the address stays', location.href); await c.start(); (c as any).trackEvent('e', {}); c.toggleManualPageObject('x', true); w.history.pushState({}, '', '/b'); dispatch('window', 'popstate'); await H.settle(30); H.assert(live().length === 0 && events.length === 0 && location.replaced.length === 0, 'nor later', {}); H.cover('inside'); }
  else { H.assert(w.ampDomMutator === undefined, 'elsewhere the mutator stays private', {}); H.assert(rd ? location.replaced.length === 1 : live().join() === 'm', 'and the page runs', { live: live() }); H.assert(frames.filter((x: any) => x.id === FRAME).length === 0, 'with no frame', {}); H.cover('outside'); } }
export const cells: Record<string, any> = { build, follow: () => follow(3), inside, follow4: () => follow(4) };
export const meta = { thoroughOnly: ['follow4'], mustCover: ['built', 'built later', 'not mobile', 'load', 'pushState', 'replaceState', 'back', 'foreign', 'refused', 'empty', 'followed', 'inside', 'outside'], bounds: ['the page complete or not, with its body or not, over 4 steps; 3 (thorough 4) loads, pushes, replacements, returns, foreign pages, refused or empty loads in the frame, to 4 addresses; 5 kinds of frame, 4 settings of the mobile view'], assumptions: ['a window left by the frame runs no more'] };
