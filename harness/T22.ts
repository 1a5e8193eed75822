// Pages made known: every subscriber is told of each change of the active pages, and the visual editor's pages replace those configured.
import './lib/env';
import { KEY, flag, mut, pageObject, configs, integration, setGlobal, window, sessionStorage, clock, advance, timers, element, go, browser, spa, dispatch, live, listeners } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
declare const H: any;
const O = 'https://example.com';
const create = (flags: any[], pages: any, cfg: any = {}) => DefaultWebExperimentClient.getInstance(KEY, configs(flags, pages), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) }, ...cfg } as any) as any;
const at = (part: string) => [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [part] }]];
const ids = (p: any) => { const r: string[] = []; for (const f of Object.keys(p)) for (const k of Object.keys(p[f])) r.push(f + '.' + p[f][k].id); return r.sort(); };
// sets of pages: flag -> page -> [trigger, value, address]
const sets = (part: any): any[] => [{ f: { a: ['url_change', {}, part], q: ['manual', { name: 'Q' }, ''] }, g: { k: ['user_interaction', { selector: '.b', interactionType: 'click' }, part] } }, { f: { q: ['manual', { name: 'Q' }, part] }, h: { u: ['url_change', {}, ''] } }, { g: { k: ['user_interaction', { selector: '.b', interactionType: 'click' }, ''] }, f: { t: ['url_change', {}, part] } }, { f: { q: ['url_change', {}, part, 'z'] }, h: { u: ['url_change', {}, '', 'w'] } }];
const objects = (s: any) => { const r: any = {}; for (const f of Object.keys(s)) { r[f] = {}; for (const p of Object.keys(s[f])) r[f][p] = pageObject(s[f][p][3] || p, s[f][p][0], s[f][p][1], s[f][p][2] === '' ? [] : at(s[f][p][2])); } return r; };
async function pages(editor: boolean, N: number) {
  browser(); go(O + '/a'); integration(); const b = element(['.b']); const part = H.str('part', { min: 1, max: 2, alpha: '/ab' }); const S = sets(part); let cur = S[0]; if (editor) { sessionStorage.put('visual-editor-state', '{}'); (window as any).opener = {}; } const flags = ['f', 'g', 'h'].map((k) => flag(k, 'on', { on: [mut('m' + k)] })); const c = create(flags, objects(S[0])); await c.start(); await H.settle(25); timers.list = timers.list.filter((t: any) => !t.interval);
  let path = '/a', Q = false, K = false; const now = () => { const r: string[] = []; for (const f of Object.keys(cur)) for (const p of Object.keys(cur[f])) { const [type, , cond] = cur[f][p]; if ((cond === '' || H.conc(H.eq((O + path).includes(cond), true))) && (type === 'url_change' || (type === 'manual' ? Q : K))) r.push(f + '.' + (cur[f][p][3] || p)); } return r.sort(); };
  const got: any = { x: [], y: [] }; const off: any = {}; const say = (n: string) => (e: any) => { got[n].push(ids(e.activePages)); }; c.addPageChangeSubscriber(() => { throw new Error('subscriber'); }); off.x = c.addPageChangeSubscriber(say('x')); off.y = c.addPageChangeSubscriber(say('y')); let on = true; H.assert(H.eq(ids(c.getActivePages()), now()), 'active at the start', { got: ids(c.getActivePages()), want: now() }); let last = now();
  for (let i = 0; i < N; i++) { const op = H.choose('op' + i, 5); got.x.length = got.y.length = 0; let fresh = false; if (op === 0) { Q = H.fork('Q' + i); c.toggleManualPageObject('Q', Q); } else if (op === 1) { K = true; dispatch('document', 'click', { target: b }); } else if (op === 2) { path = path === '/a' ? '/b' : '/a'; Q = K = false; spa(path); } else if (op === 3) { const k = H.choose('set' + i, 4); c.setPageObjects(objects(S[k])); if (editor) { cur = S[k]; Q = K = false; fresh = true; } } else { off.y(); on = false; } await H.settle(25); if (i === N - 1 || (N > 3 && H.fork('and wait' + i))) { await advance(clock.now + 300, 12, 30); await H.settle(12); }
    const want = now(), act = ids(c.getActivePages()), changed = !H.eq(want, last) || (op === 2 && false); const info = { want, act, last, x: got.x, y: got.y, op, i, path, Q, K }; H.observe(act); H.assert(H.eq(act, want), 'which pages are active', info); for (const n of ['x', 'y']) { const g = got[n]; if (n === 'y' && !on) { H.assert(g.length === 0, 'unsubscribed', info); H.cover('unsubscribed'); continue; } if (changed) { H.assert(g.length > 0 && H.eq(g[g.length - 1], want), 'told of the change', info); H.cover('told' + op); } if (!fresh && op !== 2) H.assert(g.length === (changed ? 1 : 0), 'once, only of changes', info); g.forEach((v: any, k: number) => H.assert(k === 0 || !H.eq(v, g[k - 1]) || op === 2, 'nothing twice', info)); if (!changed && g.length) H.assert(H.eq(g[g.length - 1], want), 'not misled', info); } H.assert(H.eq(got.x, got.y) || !on, 'everyone alike', info);
    const L = live().slice().sort(); if (editor) H.assert(!L.length, 'nothing is applied while editing', L); else H.assert(H.eq(L, [...new Set(want.map((p: string) => 'm' + p[0]))].sort()), 'as applied', { L, want }); last = want; } const lost = H.rejections(); H.assert(lost.length === 0, 'no failure goes unnoticed', lost); if (editor) H.cover('editor'); else H.cover('page'); }
export const cells: Record<string, any> = { page: () => pages(false, 3), editor: () => pages(true, 3), page4: () => pages(false, 4), editor4: () => pages(true, 4) };
export const meta = { thoroughOnly: ['page4', 'editor4'], mustCover: ['told0', 'told1', 'told2', 'told3', 'unsubscribed', 'editor', 'page'], bounds: ['3 (thorough 4) steps of a manual and a click trigger, navigation, other sets of pages and unsubscribing, with conditions on any text of 1 or 2 characters of /ab; 4 sets of pages, in and out of the visual editor, beside a subscriber which fails'], assumptions: [] };
