// What the tag adds to a page: links changed by an experiment go where they say as the page's router would, style sheets come and go alone, and removing nodes never fails.
import './lib/env';
import { KEY, flag, mut, pageObject, configs, integration, setGlobal, window, document, location, history, go, browser, dispatch, listeners } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
import { cspSafeStyleSheet } from 'repo:experiment-tag/src/util/csp-safe-stylesheet';
declare const H: any;
const O = 'https://example.com';
const create = (flags: any[], pages: any, cfg: any = {}, key = KEY) => DefaultWebExperimentClient.getInstance(key, configs(flags, pages), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) }, ...cfg } as any) as any;
class El { attrs: any = {}; up: any = null; tag = 'A'; getAttribute(n: string) { return this.attrs[n] === undefined ? null : this.attrs[n]; } closest(q: string) { for (let e: any = this; e; e = e.up) if (e.tag.toLowerCase() === q) return e; return null; } }
async function links(all: boolean) { const odd = all ? -1 : H.choose('odd', 5); const dim = (i: number, name: string, n: number, good: number) => (all || odd === i ? H.choose(name, n) : good);
  browser(); go(O + '/a/b?x=1'); integration(); setGlobal('Element', El); setGlobal('PopStateEvent', class { type: string; state: any; constructor(t: string, o: any) { this.type = t; this.state = o && o.state; } }); const W: any = window; delete W[Symbol.for('@amplitude/spa-link-interceptor-initiated')]; const pops: any[] = []; W.dispatchEvent = (e: any) => { pops.push([e.type, location.href]); dispatch('window', e.type, e); return true; };
  const c = create([flag('f', 'on', { on: [mut('m')] })], { f: { p: pageObject('p') } }); await c.start(); if (H.fork('another client')) { W.webExperiment = undefined; const d = create([], {}, {}, 'client-other'); await d.start(); } await H.settle(30); const n = listeners.filter((l: any) => l.target === 'document' && l.type === 'click' && (l.opts === true || (l.opts && l.opts.capture))).length;
  const pushed: string[] = []; const nx = H.choose('next', 3); if (nx) W.next = { router: nx === 1 ? { push: (h: string) => { pushed.push(h); } } : {} };
  const href = [O + '/c', '/c?d=1#e', 'c', '?y', 'https://other.example.com/c', 'http://example.com/c', 'mailto:x', null, ''][H.choose('href', 9)]; const a: any = new El(); a.attrs.href = href === null ? undefined : href; const tg = dim(1, 'target', 5, 2); a.attrs.target = [undefined, '', '_self', '_blank', 'other'][tg]; const mutated = dim(2, 'mutated', 4, 1); if (mutated) a.__mutationRecord__ = { attributes: mutated === 1 ? { href: { mutations: [{}] } } : mutated === 2 ? { href: { mutations: [] } } : { class: { mutations: [{}] } } };
  const link = dim(3, 'kind', 4, 1); if (link) a.__reactFiber$x1 = { memoizedProps: link === 1 ? { onClick: { toString: () => 'e=>{e.defaultPrevented||go()}' } } : link === 2 ? { onClick: { toString: () => 'e=>{log()}' } } : {} };
  const inner: any = new El(); inner.tag = 'SPAN'; inner.up = a; const outside: any = new El(); outside.tag = 'DIV'; const on = dim(4, 'on', 4, 1); const target = [a, inner, outside, { text: 1 }][on]; const mods = ['metaKey', 'ctrlKey', 'shiftKey', 'altKey']; const m: any = {}; for (const k of mods) m[k] = H.bool(k); m.button = H.int('button', 0, 4);
  H.assert(n === 1, 'installed once', n); const before = location.href, calls = history.calls.length; let prevented = 0; pops.length = 0; dispatch('document', 'click', { target, ...m, preventDefault: () => prevented++ }); await H.settle(20);
  const want = H.conc(H.and(H.not(m.metaKey), H.not(m.ctrlKey), H.not(m.shiftKey), H.not(m.altKey), m.button === 0)) && on < 2 && mutated === 1 && link === 1 && !!href && tg < 3; const moves = history.calls.slice(calls).filter((x: any) => x[0] === 'pushState' || x[0] === 'push'); const info = { href, prevented, moves, pushed, pops, now: location.href, n }; H.observe([prevented, moves.length, pushed.length]);
  if (!want) { H.assert(prevented === 0 && !moves.length && !pushed.length && !pops.length && location.href === before, 'any other click is the page’s own', info); H.cover('left alone'); } else { H.assert(prevented > 0, 'not followed by the browser too', info); const u: URL = new URL(href!, before); if (u.origin !== O) { H.assert(location.href === href && !moves.length && !pushed.length, 'elsewhere with a full load', info); H.cover('elsewhere'); } else if (nx === 1) { H.assert(H.eq(pushed, [href]) && !moves.length && location.href === before, 'by the router of the page', info); H.cover('router'); } else { H.assert(moves.length === 1 && moves[0][1] === href && !pushed.length, 'one entry in the history', info); H.assert(pops.length === 1 && pops[0][0] === 'popstate' && pops[0][1] === u.toString(), 'and the router is told once there', info); H.cover('history'); } } }
// style sheets in documents, shadow roots, and roots which cannot adopt any
async function sheets(N: number) {
  browser(); const kind = H.choose('kind', 4); const made: string[] = []; class Sheet { css = ''; realm: string; constructor(r: string) { this.realm = r; made.push(r); } replaceSync(c: string) { this.css = c; } } const doc: any = document; doc.adoptedStyleSheets = []; doc.defaultView = { CSSStyleSheet: class extends Sheet { constructor() { super('page'); } } }; setGlobal('CSSStyleSheet', class extends Sheet { constructor() { super('own'); } });
  const frame: any = { nodeType: 9, adoptedStyleSheets: [], defaultView: { CSSStyleSheet: class extends Sheet { constructor() { super('frame'); } } }, ownerDocument: null }; const target: any = [doc, frame, { nodeType: 11, ownerDocument: frame, adoptedStyleSheets: [] }, { nodeType: 11, ownerDocument: doc }][kind], where: any = kind === 3 ? doc : target, realm = kind === 1 || kind === 2 ? 'frame' : 'page';
  const own = [{ css: 'own1' }, { css: 'own2' }]; if (H.fork('page has sheets')) where.adoptedStyleSheets = own.slice(); let theirs: any[] = where.adoptedStyleSheets.slice(); const hs: any[] = [], on: boolean[] = []; const same = H.fork('same'), names = ['a', 'b'].map((n) => 'css-' + (same ? '' : n));
  for (let i = 0; i < N; i++) { const op = H.choose('op' + i, 6); if (op < 2) { if (!hs[op]) { hs[op] = cspSafeStyleSheet(target, names[op]); on[op] = true; } else { hs[op].reapply(); on[op] = true; } } else if (op < 4) { if (hs[op - 2]) { hs[op - 2].revert(); on[op - 2] = false; } } else if (op === 4) { const s = { css: 'own' + (3 + i) }; where.adoptedStyleSheets = [...where.adoptedStyleSheets, s]; theirs.push(s); } else { where.adoptedStyleSheets = where.adoptedStyleSheets.slice().filter((s: any) => s !== theirs[0]); theirs = theirs.slice(1); }
    const now = where.adoptedStyleSheets; H.assert(H.eq(now.filter((s: any) => !(s instanceof Sheet)).map((s: any) => s.css), theirs.map((s) => s.css)), 'those of the page stay, in order', now.map((s: any) => s.css)); H.assert(H.eq(now.filter((s: any) => s instanceof Sheet).map((s: any) => s.css).sort(), names.filter((_, k) => on[k])), 'those in effect, once each', { now: now.map((s: any) => s.css), on }); H.assert(made.every((r) => r === realm), 'of the window they are for', made); H.assert(kind === 3 ? target.adoptedStyleSheets === undefined : true, 'nothing invented'); if (on.length > 1) H.cover('two'); if (on.includes(false)) H.cover('hidden'); H.cover('kind' + kind); } }
// nodes of the page, removed by its own code after an experiment has moved them
async function removal() {
  browser(); go(O + '/a'); integration(); const native: any[] = []; class N { parentNode: any = null; removeChild(n: any): any { native.push([this, n]); if (!n || n.parentNode !== this) throw new Error('NotFoundError'); n.parentNode = null; return n; } } class HE extends N {} setGlobal('Node', N); setGlobal('HTMLElement', HE);
  const c = create([flag('f', 'on', { on: [] })], { f: { p: pageObject('p') } }); await c.start(); await H.settle(20); const p: any = new HE(), q: any = new HE(), child: any = new HE(); const at = H.choose('parent', 3); child.parentNode = [p, q, null][at]; let r: any, threw = false; try { r = p.removeChild(child); } catch { threw = true; } H.assert(!threw && r === child, 'never fails', { threw, at }); H.assert(child.parentNode === [null, q, null][at] && native.length === (at === 0 ? 1 : 0), 'and removes only its own', { at, n: native.length }); let nul = false; try { p.removeChild(null); } catch { nul = true; } H.assert(nul, 'nothing is no node'); H.cover('removal' + at); }
export const cells: Record<string, any> = { links: () => links(false), sheets: () => sheets(3), removal, sheets4: () => sheets(4), linksAll: () => links(true) };
export const meta = { thoroughOnly: ['sheets4', 'linksAll'], mustCover: ['left alone', 'elsewhere', 'router', 'history', 'two', 'hidden', 'kind0', 'kind1', 'kind2', 'kind3', 'removal0', 'removal1', 'removal2'], bounds: ['9 addresses, 5 targets, any modifier keys and buttons, 4 records of mutations, 4 kinds of links and 4 places clicked, 3 routers, one or two clients (one of these oddities at a time, thorough all); 3 (thorough 4) steps with two sheets of a document, a frame, a shadow root or one that cannot adopt, among others of the page; a child, a child of another and one of none'], assumptions: ['the record of mutations is that of dom-mutator'] };
