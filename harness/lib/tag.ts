// Building blocks for harnesses of the script tag's client.
import { clock, timers, localStorage, sessionStorage, cookies, location, history, log, advance, setGlobal, window, listeners, document } from './env';
import { mutations } from 'dom-mutator';
declare const H: any;
export const KEY = 'client-abcdefghij';
export const mut = (m: string, scope?: string[]) => ({ action: 'mutate', data: { mutations: [{ selector: '#a', m, ...(scope ? { metadata: { scope } } : {}) }] } });
export const redirect = (url: string, scope?: string[]) => ({ action: 'redirect', data: { url, ...(scope ? { metadata: { scope } } : {}) } });
// variants: key -> payload; the last segment serves `variant`
export const flag = (key: string, variant: string, variants: Record<string, any>, o: any = {}) => { const vs: any = { off: { key: 'off', metadata: { default: true, deliveryMethod: 'web' } } }; for (const k of Object.keys(variants)) vs[k] = { key: k, value: k, ...(variants[k] !== undefined ? { payload: variants[k] } : {}), metadata: { deliveryMethod: 'web', ...(o.variantMetadata || {}) } }; return { key, variants: vs, segments: [...(o.segments || []), { variant, metadata: { segmentName: 's' } }], ...(o.dependencies ? { dependencies: o.dependencies } : {}), metadata: { evaluationMode: 'local', deliveryMethod: 'web', flagType: 'experiment', ...(o.metadata || {}) } }; };
export const pageObject = (id: string, trigger_type = 'url_change', trigger_value: any = {}, conditions: any = []) => ({ id, name: id, conditions, trigger_type, trigger_value });
export const configs = (flags: any[], pages: any, rules?: any) => ({ initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages), ...(rules ? { behavioralTargetingRules: JSON.stringify(rules) } : {}) }) as any;
export const go = (url: string) => { const u = new URL(url); location.href = url; location.hostname = u.hostname; location.host = u.host; location.origin = u.origin; location.pathname = u.pathname; location.search = u.search; location.hash = u.hash; location.protocol = u.protocol; };
export const live = () => mutations.live.map((e: any) => e.m.m);
// impressions reach a custom integration
export const integration = () => { const events: any[] = []; setGlobal('experimentIntegration', { type: 'integration', track: (e: any) => { events.push(e); return true; }, getUser: () => ({ user_id: 'u', device_id: 'd' }) }); return events; };
export { clock, timers, localStorage, sessionStorage, cookies, location, history, log, advance, setGlobal, window, listeners, document, mutations };

// A page: history that moves, elements, observers, style sheets and injected scripts.
export const page: any = { runs: 0, els: [], io: [], mo: [], sheets: () => (document as any).adoptedStyleSheets.map((x: any) => x.css), injected: [], removed: [], scripts: () => (document as any).head.children.filter((c: any) => c.tagName === 'SCRIPT').map((c: any) => c.id) };
export const element = (sels: string[], parent: any = null) => { const e: any = { nodeType: 1, sels, parentNode: parent, parentElement: parent, isConnected: true, style: {}, ownerDocument: document, matches: (q: string) => { if (q === '<<') throw new Error('not a selector'); return e.sels.includes(q); }, closest: (q: string) => { for (let x = e; x; x = x.parentNode) if (x.matches(q)) return x; return null; }, contains: (o: any) => { for (let x = o; x; x = x.parentNode) if (x === e) return true; return false; }, querySelector: (q: string) => page.els.find((x: any) => x !== e && e.contains(x) && x.matches(q)) || null }; page.els.push(e); return e; };
// a change of the document, told to the observers which asked for it: of an attribute, or of the children of the target
export const changed = (target: any, attr: string | null, added: any[] = [], removed: any[] = []) => { for (const m of page.mo.slice()) { const o = m.opts; if (!m.on || (m.root !== target && !o.subtree) || (m.root !== target && m.root !== document && m.root !== (document as any).documentElement && !m.root.contains(target))) continue; if (attr === null ? o.childList : o.attributeFilter ? o.attributes !== false && o.attributeFilter.includes(attr) : o.attributes) m.cb([{ type: attr === null ? 'childList' : 'attributes', attributeName: attr, target, addedNodes: added, removedNodes: removed }]); } };
export const dispatch = (target: string, type: string, ev: any = {}) => { for (const l of listeners.slice()) if (l.type === type && l.target === target && !(l.opts && l.opts.signal && l.opts.signal.aborted)) l.fn({ type, ...ev }); };
export const spa = (url: string, how = 'pushState') => { (window as any).history[how]({}, '', url); };
export const back = (url: string) => { go(url); dispatch('window', 'popstate'); };
export function browser() {
  const h: any = history; for (const m of ['pushState', 'replaceState']) h[m] = (st: any, t: any, u: any) => { h.calls.push([m, u]); if (u !== undefined && u !== null) go(new URL(u, location.href).toString()); };
  const d: any = document; d.adoptedStyleSheets = []; d.nodeType = 9; d.defaultView = window; d.querySelectorAll = (q: string) => { if (q === '<<') throw new Error('not a selector'); return page.els.filter((e: any) => e.isConnected && e.matches(q)); }; d.querySelector = (q: string) => d.querySelectorAll(q)[0] || null;
  setGlobal('Node', class { static ELEMENT_NODE = 1; static DOCUMENT_NODE = 9; removeChild() {} }); setGlobal('CSSStyleSheet', class { css = ''; replaceSync(c: string) { this.css = c; } }); (window as any).getComputedStyle = (e: any) => e.style;
  setGlobal('IntersectionObserver', class { cb: any; opts: any; seen: any[] = []; told = new Map(); constructor(cb: any, opts: any) { this.cb = cb; this.opts = opts; page.io.push(this); } observe(e: any) { if (!this.seen.includes(e)) this.seen.push(e); } disconnect() { this.seen = []; this.told = new Map(); } unobserve(e: any) { this.seen = this.seen.filter((x) => x !== e); this.told.delete(e); } });
  setGlobal('MutationObserver', class { cb: any; on = false; root: any; opts: any = {}; constructor(cb: any) { this.cb = cb; page.mo.push(this); } observe(root: any, opts: any) { this.on = true; this.root = root; this.opts = opts || {}; } disconnect() { this.on = false; } takeRecords() { return []; } });
  setGlobal('DOMParser', class { parseFromString(t: string) { return { body: { firstElementChild: { html: t } } }; } });
  const ap = d.head.appendChild; d.head.appendChild = (c: any) => { const m = /^function (\w+)\(/.exec(c.textContent || ''); if (m) (window as any)[m[1]] = (html: any, utils: any, id: string) => { page.runs++; page.injected.push(id); if (page.onInject) page.onInject(html, utils, id); if (c.textContent.includes('FAIL')) throw new Error('injected'); utils.remove = () => { page.removed.push(id); if (page.failRemove === id) throw new Error('removal'); const i = page.injected.indexOf(id); if (i >= 0) page.injected.splice(i, 1); }; }; return ap(c); };
}
export const inject = (id: string, scope?: string[], js = 'go()') => ({ action: 'inject', data: { id, js, css: 'css-' + id, ...(scope ? { scope } : {}) } });
