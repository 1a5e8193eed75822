// Preview mode: the variants asked for in the address are forced, with the freshest configuration, for the whole session.
import './lib/env';
import { fetches } from './lib/fetch';
import { KEY, flag, mut, pageObject, configs, integration, clock, advance, window, document, location, sessionStorage, go, live, timers, page, browser, spa, listeners, setGlobal, mutations } from './lib/tag';
import { initialize } from 'repo:experiment-tag/src/index';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
declare const H: any;
const O = 'https://example.com', STORE = 'amp-preview-mode';
const B = [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/b'] }]];
const set = (p: string) => { const flags = [flag('f', 'on', { on: [mut(p + 'f-on')], b: [mut(p + 'f-b')], ctl: undefined }), flag('g', 'on', { on: [mut(p + 'g-on')] }), flag('h', 'on', { on: [mut(p + 'h-on'), mut(p + 'h-on2')] })]; const pages: any = { f: { A: pageObject('A') }, g: { G: pageObject('G', 'url_change', {}, B) }, h: { Hh: pageObject('Hh') } }; return { flags, pages }; };
const old = () => { const s = set('old-'); return configs(s.flags, s.pages); };
const body = () => { const s = set('new-'); return JSON.stringify({ flags: s.flags, pageObjects: s.pages }); };
const cfg = (more: any = {}) => ({ useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) }, ...more } as any);
let events: any[] = [];
const find = (e: any, id: string): any => { for (const c of (e && e.children) || []) { if (c.id === id) return c; const r = find(c, id); if (r) return r; } return null; };
const fresh = () => { browser(); (document as any).body.children = []; (document as any).getElementById = (id: string) => find((document as any).body, id); setGlobal('webExperiment', undefined); consentGate.reset(); for (const m of [(window as any).experimentInstances]) if (m) for (const k of Object.keys(m)) delete m[k]; listeners.length = 0; timers.list = []; mutations.live = []; fetches.length = 0; events = integration(); };
const hidden = () => page.sheets().some((c: string) => c.includes('visibility: hidden'));
const BAD = ['{', '{}', 'null', '5', '{"flags":5,"pageObjects":{}}', '{"flags":[null],"pageObjects":{}}'];
// answers the fetch of configurations; says whether the fresh ones are used
const answer = async (how: any) => { const f = fetches[0]; if (how === 0) { f.head(200); await H.settle(8); f.body(body()); } else if (how === 1) { f.head(H.pick('status', [500, 404, 304, 204])); await H.settle(8); f.body(body()); } else if (how === 2) { f.head(200); await H.settle(8); f.body(BAD[H.choose('bad', BAD.length)]); } else if (how === 3) f.fail(new TypeError('network')); else if (how === 4) { const w = H.int('late', 0, 12000), t0 = clock.now; f.head(200); await advance(clock.now + w, 8, 20); f.body(body()); clock.now = H.conc(w < 10000) ? t0 + 9999 : t0 + 12000; await H.settle(60); return H.conc(w < 10000); } else { await advance(clock.now + 10000, 30, 20); } await H.settle(60); return how === 0; };
const expected = (p: string, preview: Record<string, string>, at: string) => { const r: string[] = []; const f = preview.f ?? 'on'; if (f === 'on' || f === 'b') r.push(p + 'f-' + f); if (at === '/b' && (preview.g ?? 'on') === 'on') r.push(p + 'g-on'); if ((preview.h ?? 'on') === 'on') r.push(p + 'h-on', p + 'h-on2'); return r.sort(); };
// what is tracked on one address
const tracked = (preview: Record<string, string>, at: string) => { const r: string[] = []; const known: any = { f: ['on', 'b', 'ctl', 'off'], g: ['on', 'off'], h: ['on', 'off'] }; for (const k of ['f', 'g', 'h']) { const v = preview[k] ?? 'on'; if (known[k].includes(v) && (k !== 'g' || at === '/b')) r.push(k + '=' + v); } return r.sort(); };
const names = (from: number) => events.slice(from).map((e: any) => e.eventProperties.flag_key + '=' + e.eventProperties.variant).sort();
const check = (p: string, preview: any, at: string, from: number, info: any) => { H.observe([live().slice().sort(), names(from)]); H.assert(live().slice().sort().join() === expected(p, preview, at).join(), 'the previewed variants are on the page, the others as evaluated', { live: live(), want: expected(p, preview, at), info, preview }); H.assert(names(from).join() === tracked(preview, at).join(), 'and each is tracked once', { got: names(from), want: tracked(preview, at), info, preview }); H.assert(!hidden(), 'the page is not left hidden', { info }); };
async function run(how: number[], values: any[], gs: any[], steps: number) {
  fresh(); const on = H.choose('mode', 4); // preview parameter, another value, none, stored session
  const preview: Record<string, string> = {}; const f = values[H.choose('f', values.length)], g = gs[H.choose('g', gs.length)]; if (f !== null) preview.f = f; if (g !== null) preview.g = g; const q = Object.keys(preview).map((k) => '&' + k + '=' + preview[k]).join(''); const all = H.fork('order'); const active = on === 0 || on === 3; const eff: any = {}; if (active) for (const k of Object.keys(preview)) if (preview[k] !== '') eff[k] = preview[k];
  go(O + '/a?' + (on === 0 ? (all ? 'PREVIEW=true' + q : (q + '&PREVIEW=true').slice(1)) : on === 1 ? 'PREVIEW=yes' + q : on === 2 ? 'x=1' + q : 'utm=1')); if (on === 3) { if (Object.keys(eff).length) sessionStorage.put(STORE, JSON.stringify({ previewFlags: eff })); } else if (H.fork('earlier')) { if (on === 0) sessionStorage.put(STORE, JSON.stringify({ previewFlags: { h: 'off' } })); }
  const ext = on === 2 && H.fork('extension'); if (ext) setGlobal('WebExperiment', { injectedByExtension: true }); else setGlobal('WebExperiment', undefined); const eu = H.fork('eu'); const fetching = on === 0 || (on === 3 && Object.keys(eff).length > 0) || ext;
  initialize(KEY, old(), cfg(eu ? { serverZone: 'EU' } : {})); await H.settle(60); H.assert(fetches.length === (fetching ? 1 : 0), 'the configuration is fetched in preview', { n: fetches.length, on }); let p = 'old-';
  if (fetching) { const r = fetches[0]; H.assert(r.url === (eu ? 'https://api.lab.eu.amplitude.com' : 'https://api.lab.amplitude.com') + '/web/v1/configs' && r.init.headers.Authorization === 'Api-Key ' + KEY, 'from the server of its zone', { url: r.url }); H.assert(live().length === 0 && hidden(), 'and the page is hidden until then', {}); const h = how[H.choose('answer', how.length)]; if (await answer(h)) { p = 'new-'; H.cover('fresh'); } else H.cover('fallback'); }
  if (on === 0) H.assert(!/PREVIEW|[fg]=[^&]/.test(location.href), 'the parameters leave the address', { href: location.href });
  check(p, eff, '/a', 0, 'start'); { const shown = Object.keys(eff).some((k) => ({ f: ['on', 'b', 'ctl', 'off'], g: ['on', 'off'] } as any)[k].includes(eff[k])); await advance(clock.now + 600, 8, 30); const m = (document as any).body.children.filter((c: any) => c.id === 'amp-preview-modal'); H.assert(m.length === (shown ? 1 : 0), 'a notice tells that this is a preview', { n: m.length, eff }); if (shown) { const text = m[0].children[0].children.map((r: any) => [r.children[1].textContent, r.children[3].children[1].textContent].join('=')).sort().join(); H.assert(text === Object.keys(eff).map((k) => k + '=' + eff[k]).sort().join(), 'and of what', { text }); } } if (Object.keys(eff).length) H.cover('preview'); if (on === 3) H.cover('from session'); let at = '/a';
  for (let n = 0; n < steps; n++) { if (H.fork('move' + n)) { at = at === '/a' ? '/b' : '/a'; const from = events.length; spa(at); await H.settle(40); check(p, eff, at, from, 'moved'); } else { // another page of the session
      go(O + at + '?k=1'); fresh(); initialize(KEY, old(), cfg()); await H.settle(60); p = 'old-'; const again = Object.keys(eff).length > 0 || ext; H.assert(fetches.length === (again ? 1 : 0), 'in the session too', { on, eff }); if (again) { await answer(0); p = 'new-'; } check(p, eff, at, 0, 'next page'); H.cover('next page'); } } }
async function damaged() { fresh(); const v = ['5', '"x"', '{}', '{', 'null', '[]', '{"previewFlags":null}', '{"previewFlags":5}', '{"previewFlags":"x"}', '{"previewFlags":[]}', '{"previewFlags":{"f":5}}', '{"previewFlags":{"f":null}}', '{"previewFlags":{"zz":"on"}}'][H.choose('stored', 13)]; sessionStorage.put(STORE, v); go(O + '/a'); initialize(KEY, old(), cfg()); await H.settle(60); let p = 'old-'; if (fetches.length) { await answer(0); p = 'new-'; } H.observe([live().slice().sort()]); const l = live(); H.assert(l.includes(p + 'h-on') && (v.includes('"f"') || l.includes(p + 'f-on')) && (window as any).webExperiment.isRunning === true, 'a damaged stored preview does not keep the page from running', { v, l }); H.assert(!hidden(), 'nor leave it hidden', {}); H.cover('damaged'); }
// the notice appears once there is a page to show it on, styled, and goes when closed
async function notice() { fresh(); const body = (document as any).body, make = (document as any).createElement; const byClass = (e: any, c: string): any => { for (const x of e.children || []) { if (String(x.className || '').split(' ').includes(c)) return x; const y = byClass(x, c); if (y) return y; } return null; }; (document as any).createElement = (t: string) => { const e = make(t); e.querySelector = (q: string) => (q[0] === '.' ? byClass(e, q.slice(1)) : null); return e; };
  const at = H.pick('body', [0, 100, 480, 500, 520, 900]), both = H.fork('both'); if (at) (document as any).body = null; const find0 = (document as any).getElementById; (document as any).getElementById = (id: string) => (body ? find(body, id) : null); void find0;
  sessionStorage.put(STORE, JSON.stringify({ previewFlags: both ? { f: 'b', h: 'on' } : { f: 'b' } })); go(O + '/a'); const t0 = clock.now; initialize(KEY, old(), cfg()); await H.settle(60); const q = fetches[0]; q.head(200); await H.settle(8); q.body(body_()); await H.settle(60); const shown = () => body.children.filter((c: any) => c.id === 'amp-preview-modal');
  if (at && at < 500) { await advance(t0 + at, 8, 60); (document as any).body = body; } await advance(t0 + 490, 8, 60); H.assert(shown().length === 0, 'not at once', {}); if (at >= 500) { await advance(t0 + at, 8, 60); H.assert(shown().length === 0, 'not without a page', {}); (document as any).body = body; } await advance(t0 + Math.max(at, 500) + 60, 8, 60);
  const m = shown(); H.observe(m.length); H.assert(m.length === 1, 'one notice', { n: m.length, at }); H.assert(page.sheets().filter((c: string) => c.includes('.amp-preview-modal')).length === 1, 'styled', {}); const badge = byClass(m[0], 'amp-preview-modal-variant-b'); H.assert(!!badge && !!byClass(m[0], 'amp-preview-modal-title'), 'by the parts it has', {}); const x = m[0].children.find((c: any) => c.tagName === 'BUTTON'); H.assert(!!x, 'which can be closed', {}); for (const l of [...listeners] as any[]) if (l.target === x && l.type === 'click') l.fn({}); H.assert(shown().length === 0, 'and is gone then', {}); await advance(clock.now + 2000, 8, 60); H.assert(shown().length === 0, 'for good', {}); H.assert(live().includes('new-f-b'), 'the preview stays', {}); (document as any).createElement = make; (document as any).body = body; H.cover('notice'); }
const body_ = body;
// the programmatic preview, any variant at any moment
async function direct(N: number) { fresh(); go(O + '/a'); const s = set(''); const c: any = DefaultWebExperimentClient.getInstance(KEY, configs(s.flags, s.pages), cfg()); await c.start(); await H.settle(40); let want: any = { f: 'on', h: 'on' }; for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 3); if (op < 2) { const k = op ? 'h' : 'f', v = ['on', 'b', 'off', 'zz'][H.choose('v' + n, 4)]; await c.previewVariants({ keyToVariant: { [k]: v } }); await H.settle(10); want[k] = v; } else { await c.applyVariants(); await H.settle(10); want = { f: 'on', h: 'on' }; } const w = expected('', want, '/a').filter((x) => !(want.h === 'b' && x.startsWith('h'))); H.observe(live().slice().sort()); H.assert(live().slice().sort().join() === w.join(), 'the page shows the variant previewed last', { live: live(), w, want, n }); H.cover('direct'); } }
export const cells: Record<string, any> = { answers: () => run([0, 1, 2, 3, 4, 5], [null, 'b'], [null], 1), values: () => run([0, 3], [null, 'on', 'b', 'ctl', 'off', 'zz', ''], [null, 'off', 'zz'], 1), damaged, notice, direct: () => direct(3), values2: () => run([0, 3], [null, 'on', 'b', 'ctl', 'off', 'zz', ''], [null, 'off', 'zz'], 2) };
export const meta = { thoroughOnly: ['values2'], mustCover: ['fresh', 'fallback', 'preview', 'from session', 'next page', 'damaged', 'notice', 'direct'], bounds: ['three flags, one with four variants; every choice of previewed variants (known, unknown, empty), given by the address (two orders, with other values of the parameter) or by the session; answers in time or at any moment up to 12 s, four other statuses, six malformed bodies, failures; one (thorough two) navigations or further pages; thirteen damaged stored states; a page complete at six moments up to 900 ms; three previews and applications in any order'], assumptions: ['the stand-ins of the page'] };
