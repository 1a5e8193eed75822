// Mutations and injections are on the page exactly while the served variant and its scope say so.
import './lib/env';
import { KEY, flag, mut, inject, redirect, pageObject, configs, integration, clock, advance, setGlobal, window, location, go, live, mutations, page, browser, spa, back, localStorage } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
declare const H: any;
const O = 'https://example.com';
const is = (path: string) => [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [path] }]];
const start = async (flags: any[], pages: any, cfg: any = {}, rules?: any) => { const c: any = DefaultWebExperimentClient.getInstance(KEY, configs(flags, pages, rules), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) }, ...cfg } as any); await c.start(); await H.settle(40); return c; };
const shown = () => ({ m: live().slice().sort(), i: page.injected.slice().sort(), css: page.sheets().sort(), s: page.scripts().sort() });
const expected = (ms: string[], is: string[]) => ({ m: ms.slice().sort(), i: is.slice().sort(), css: is.map((x) => 'css-' + x).sort(), s: is.map((x) => 'js-' + x).sort() });
// pages of the site with conditions on the address; scoped and unscoped actions in one or several actions
async function addresses() {
  browser(); go(O + '/a'); integration(); const where: any = {}; for (const p of ['p', 'q']) { where[p] = H.str('page ' + p, { min: 1, max: 2, alpha: '/abz' }); }
  const split = H.fork('split'), scoped = H.choose('scoped', 3); const sc = [undefined, ['q'], ['q', 'p']][scoped]; const m1 = mut('one'), m2 = mut('two', sc); const payload = split ? [m1, m2, inject('i1', sc)] : [{ action: 'mutate', data: { mutations: [...m1.data.mutations, ...m2.data.mutations] } }, inject('i1', sc)];
  const c = await start([flag('f', 'on', { on: payload }), flag('g', 'on', { on: [mut('other')] })], { f: { p: pageObject('p', 'url_change', {}, is(where.p)), q: pageObject('q', 'url_change', {}, is(where.q)) }, g: { x: pageObject('x') } });
  let path = '/a', ran = 0; for (let i = 0; i < 3; i++) { if (i) { const from = path; path = ['/a', '/b', '/c'][H.choose('to' + i, 3)]; if (path === from) continue; const how = H.choose('how' + i, 3); if (how === 2) back(O + path); else spa(path, how ? 'replaceState' : 'pushState'); await H.settle(30); }
    const P = H.conc((O + path).includes(where.p)), Q = H.conc((O + path).includes(where.q)), any = P || Q; const s = scoped === 1 ? Q : any; if (s) ran++; H.assert(page.runs === ran, 'an injection runs anew on each page', { runs: page.runs, ran }); H.observe(shown()); H.assert(H.eq(shown(), expected([...(any ? ['one'] : []), ...(s ? ['two'] : []), 'other'], s ? ['i1'] : [])), 'what is on the page', { got: shown(), path, where, scoped }); H.assert(H.eq(c.getActiveExperiments().sort(), any ? ['f', 'g'] : ['g']), 'the experiments reported', { got: c.getActiveExperiments(), any }); const act = c.getActivePages(); H.assert(!!act.f?.p === P && !!act.f?.q === Q && !!act.g?.x && !!act.f === any, 'the pages reported', act); if (any) H.cover('active'); else H.cover('inactive'); } }
// manual triggers switched on and off, at once or in turn, with navigation in between
async function manual(N: number) {
  browser(); go(O + '/a'); integration(); const c = await start([flag('f', 'on', { on: [mut('one', ['p']), mut('two', ['q']), inject('i1', ['p']), inject('i2', ['q'])] }), flag('g', 'on', { on: [mut('any'), inject('i3')] })], { f: { p: pageObject('p', 'manual', { name: 'P' }), q: pageObject('q', 'manual', { name: 'Q' }) }, g: { p: pageObject('p', 'manual', { name: 'P' }), b: pageObject('b', 'manual', { name: 'Q' }, is('/b')) } });
  let P = false, Q = false, path = '/a'; for (let i = 0; i < N; i++) { const op = H.choose('op' + i, 5); if (op < 4) { const on = op % 2 === 0; if (op < 2) P = on; else Q = on; c.toggleManualPageObject(op < 2 ? 'P' : 'Q', on); } else { const to = path === '/a' ? '/b' : '/a'; spa(to); path = to; P = Q = false; } const wait = H.choose('wait' + i, 3); await H.settle([0, 2, 25][wait]); }
  await H.settle(40); const B = Q && path === '/b', any = P || B; H.observe(shown()); H.assert(H.eq(shown(), expected([...(P ? ['one'] : []), ...(Q ? ['two'] : []), ...(any ? ['any'] : [])], [...(P ? ['i1'] : []), ...(Q ? ['i2'] : []), ...(any ? ['i3'] : [])])), 'what is on the page', { got: shown(), P, Q, path }); H.assert(H.eq(c.getActiveExperiments().sort(), [...(P || Q ? ['f'] : []), ...(any ? ['g'] : [])]), 'the experiments reported', { got: c.getActiveExperiments(), P, Q }); if (P || Q) H.cover('triggered'); H.cover('manual'); }
// switched again at any moment while variants are being applied, on pages and by events
async function close() {
  browser(); go(O + '/a'); integration(); const rules: any = { f: { r: [[{ condition: { type: 'behavior', event_type: 'e', op: 'is', value: 1, time_type: 'current_session', time_value: 0 } }]] } }; const seg = { conditions: [[{ selector: ['context', 'user', 'behavioral_targeting'], op: 'set contains', values: ['r'] }]], variant: 'on', metadata: { segmentName: 'r' } }; const more = Array.from({ length: H.choose('more', 3) }, (_, i) => flag('x' + i, 'on', { on: [mut('x')] })); const c = await start([flag('f', 'off', { on: [mut('matched')] }, { segments: [seg] }), flag('g', 'on', { on: [mut('toggled')] }), ...more], { f: { p: pageObject('p') }, g: { q: pageObject('q', 'manual', { name: 'Q' }) } }, {}, rules);
  let n = 0, on = false; for (let i = 0; i < 3; i++) { if (H.fork('event' + i)) { c.trackEvent('e', {}); n++; } else { on = !on; c.toggleManualPageObject('Q', on); } if (i < 2) await H.settle(H.choose('pause' + i, 14)); } await H.settle(60); H.observe(live()); H.assert(H.eq(live().slice().sort(), [...(n === 1 ? ['matched'] : []), ...(on ? ['toggled'] : [])].sort()), 'what is on the page', { got: live(), n, on }); H.assert(H.eq(c.getExperimentClient().getUser().behavioral_targeting, n === 1 ? ['r'] : []), 'behaviors of the user', c.getExperimentClient().getUser()); if (n === 2) H.cover('no longer matched'); H.cover('close'); }
// what is matched at load, after navigation and after a relay sync counts as known
async function follow() {
  browser(); go(O + '/a'); integration(); const stored = H.choose('stored', 3), synced = H.fork('synced'); if (stored) localStorage.put('EXP_client-abc_rtbt_events', JSON.stringify({ events: Array.from({ length: stored }, (_, i) => ({ uuid: 'u' + i, id: i + 1, event_type: 'e', session_id: 's', properties: {}, timestamp: clock.now })), nextId: stored + 1 })); const rules: any = { f: { r: [[{ condition: { type: 'behavior', event_type: 'e', op: 'is', value: H.fork('two') ? 2 : 1, time_type: 'rolling', time_value: 1, interval: 'day' } }]] } }; const want = rules.f.r[0][0].condition.value; const seg = { conditions: [[{ selector: ['context', 'user', 'behavioral_targeting'], op: 'set contains', values: ['r'] }]], variant: 'on', metadata: { segmentName: 'r' } };
  const c: any = DefaultWebExperimentClient.getInstance(KEY, configs([flag('f', 'off', { on: [mut('matched')] }, { segments: [seg] })], { f: { p: pageObject('p') } }, rules), { useDefaultNavigationHandler: true } as any); const m = c.behavioralTargetingManager; m.beginRelaySync = async () => { await H.settle(3); if (!synced) return { status: 'unchanged' }; m.trackEvent('e', {}); return { status: 'behaviors_changed' }; }; m.setRelayClient = () => {}; await c.start(); await H.settle(60); let n = stored + (synced ? 1 : 0); const check = () => { H.observe(live()); H.assert(H.eq(live(), n === want ? ['matched'] : []), 'what is on the page', { got: live(), n, want }); H.assert(H.eq(c.getExperimentClient().getUser().behavioral_targeting, n === want ? ['r'] : []), 'behaviors of the user', { n, want }); }; check(); for (let i = 0; i < 3; i++) { const op = H.choose('op' + i, 3); if (op < 2) { c.trackEvent('e', {}); n++; } if (op) spa(location.pathname === '/a' ? '/b' : '/a'); await H.settle(40); check(); } H.cover('followed'); }
// the variant served changes: the former one is taken back
async function variants() {
  browser(); go(O + '/a'); integration(); const seg = (v: string) => ({ conditions: [[{ selector: ['context', 'user', 'user_properties', 'v'], op: 'is', values: [v] }]], variant: v, metadata: { segmentName: v } }); const c = await start([flag('f', 'off', { A: [mut('a1'), inject('ia')], B: [mut('b1'), mut('b2')], control: [] }, { segments: [seg('A'), seg('B'), seg('control')] }), flag('g', 'on', { on: [mut('other')] })], { f: { p: pageObject('p', 'url_change', {}, is('/a')) }, g: { x: pageObject('x') } });
  const VS = ['A', 'B', 'control', 'none']; let v = 'none', path = '/a'; for (let i = 0; i < 3; i++) { v = VS[H.choose('v' + i, 4)]; c.getExperimentClient().setUser({ ...c.getExperimentClient().getUser(), user_properties: { v } }); if (H.fork('navigate' + i)) { path = path === '/a' ? '/b' : '/a'; spa(path); } else { const keys = H.choose('keys' + i, 2); await c.applyVariants(keys ? { flagKeys: ['f'] } : undefined); } await H.settle(30);
    const on = path === '/a'; H.observe(shown()); H.assert(H.eq(shown(), expected([...(on && v === 'A' ? ['a1'] : []), ...(on && v === 'B' ? ['b1', 'b2'] : []), 'other'], on && v === 'A' ? ['ia'] : [])), 'what is on the page', { got: shown(), v, path }); H.assert(H.eq(Object.keys(c.getVariants()).sort(), ['f', 'g']) && (c.getVariants().f.key || 'off') === (v === 'none' ? 'off' : v), 'the variants', c.getVariants()); }
  const r = H.choose('revert', 3); if (r) { c.revertVariants(r === 1 ? undefined : { flagKeys: ['g'] }); const on = path === '/a' && r === 2; H.assert(H.eq(shown(), expected([...(on && v === 'A' ? ['a1'] : []), ...(on && v === 'B' ? ['b1', 'b2'] : [])], on && v === 'A' ? ['ia'] : [])), 'taken back on demand', shown()); await c.applyVariants(); const there = path === '/a'; H.assert(H.eq(shown(), expected([...(there && v === 'A' ? ['a1'] : []), ...(there && v === 'B' ? ['b1', 'b2'] : []), 'other'], there && v === 'A' ? ['ia'] : [])), 'and applied again', shown()); H.cover('reverted'); } H.cover('variants'); }
// what fails does not keep the rest away
async function failing() {
  browser(); go(O + '/a'); integration(); const k = H.choose('failing', 7); const bad: any = [{ action: 'mutate', data: { mutations: [{ selector: '<<', m: 'x' }, { selector: '#b', m: 'beside' }] } }, redirect('/relative'), inject('bad', undefined, 'FAIL'), { action: 'mutate' }, { action: 'inject' }, { action: 'unknown', data: {} }, { action: 'inject', data: { id: '' } }][k]; const first = H.fork('first'); const f = flag('bad', 'on', { on: first ? [bad, mut('after')] : [mut('before'), bad] }), g = flag('good', 'on', { on: [mut('good')] });
  const c = await start(H.fork('order') ? [f, g] : [g, f], { bad: { p: pageObject('p') }, good: { p: pageObject('p', 'url_change', {}, is('/a')) } }); H.observe(shown()); const m = live(); H.assert(m.includes('good') && c.isRunning, 'others are applied', m); if (!first) H.assert(m.includes('before'), 'so is what comes before'); if (k === 0) H.assert(m.includes('beside'), 'and what is beside'); if (k !== 1 && first) H.assert(m.includes('after'), 'and after', { m, k }); H.assert(!page.scripts().includes('js-bad'), 'a failing script is removed'); spa('/b'); await H.settle(30); H.assert(!live().includes('good'), 'and all goes on', live()); spa('/a'); await H.settle(30); const n = live(); H.assert(n.includes('good') && new Set(n).size === n.length, 'nothing is applied twice', n); const lost = H.rejections(); H.assert(lost.length === 0, 'no failure goes unnoticed', { lost }); H.cover('failing'); }
// experiments which depend on one whose behaviors matched, however far, follow it
async function dependents() {
  browser(); go(O + '/a'); integration(); const synced = H.fork('synced'), remote = H.fork('remote'), two = H.fork('two'); const rules: any = { f: { r: [[{ condition: { type: 'behavior', event_type: 'e', op: 'is', value: two ? 2 : 1, time_type: 'current_session', time_value: 0 } }]] } }; const seg = { conditions: [[{ selector: ['context', 'user', 'behavioral_targeting'], op: 'set contains', values: ['r'] }]], variant: 'on', metadata: { segmentName: 'r' } }; const after = (k: string, v: string) => ({ conditions: [[{ selector: ['result', k, 'key'], op: 'is', values: [v] }]], variant: 'on', metadata: { segmentName: 's' } }); const mode = remote ? 'remote' : 'local'; const list = [flag('f', 'off', { on: [mut('f')] }, { segments: [seg] }), flag('g', 'off', { on: [mut('g')] }, { segments: [after('f', 'on')] }), flag('h', 'off', { on: [mut('h'), inject('ih')] }, { segments: [after('g', 'off')] }), flag('x', 'on', { on: [mut('x')] })]; list[1].dependencies = ['f']; list[2].dependencies = ['g']; if (remote) list[1].metadata = { ...list[1].metadata, evaluationMode: 'remote' }; const order = H.fork('order') ? list : list.slice().reverse();
  const c: any = DefaultWebExperimentClient.getInstance(KEY, configs(order, Object.fromEntries('fghx'.split('').map((k) => [k, { p: pageObject('p') }])), rules), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: JSON.stringify(remote ? [{ ...list[1], metadata: { ...list[1].metadata, evaluationMode: 'local' } }] : []) }) } } as any); const m = c.behavioralTargetingManager; m.beginRelaySync = async () => { await H.settle(3); if (!synced) return { status: 'unchanged' }; m.trackEvent('e', {}); return two ? { status: 'unchanged' } : { status: 'behaviors_changed' }; }; m.setRelayClient = () => {}; await c.start(); await H.settle(60); let n = synced ? 1 : 0;
  const check = () => { const on = n === (two ? 2 : 1); H.observe(shown()); H.assert(H.eq(shown(), expected(['x', ...(on ? ['f', 'g'] : ['h'])], on ? [] : ['ih'])), 'what is on the page', { got: shown(), n, two, remote, synced }); const vs = c.getVariants(); H.assert((vs.g.key === 'on') === on && (vs.h.key === 'on') === !on, 'the variants', vs); if (on) H.cover('dependents'); else H.cover('no dependents'); }; check(); for (let i = 0; i < 3; i++) { if (H.fork('event' + i)) { c.trackEvent('e', {}); n++; } else spa(location.pathname === '/a' ? '/b' : '/a'); await H.settle(40); check(); } }
// the clean-up of injected code fails: all else is taken back nevertheless
async function removal() {
  browser(); go(O + '/a'); integration(); const how = H.choose('how', 4), which = H.fork('first'), scoped = H.fork('scoped'); page.onInject = null; const f = flag('f', 'on', { on: [mut('m'), inject('i1', scoped ? ['p'] : undefined), inject('i2', scoped ? ['p'] : undefined), mut('n')] }), g = flag('g', 'on', { on: [inject('i3'), mut('o')] }); const c = await start(H.fork('order') ? [f, g] : [g, f], { f: { p: pageObject('p', how === 3 ? 'manual' : 'url_change', how === 3 ? { name: 'P' } : {}, is('/a')), q: pageObject('q', 'url_change', {}, is('/b')) }, g: { x: pageObject('x', 'url_change', {}, is('/a')) } }); if (how === 3) { c.toggleManualPageObject('P', true); await H.settle(30); } const all = shown(); H.observe(all); H.assert(H.eq(all, expected(['m', 'n', 'o'], ['i1', 'i2', 'i3'])), 'applied', all);
  const bad = which ? 'i1' : 'i2'; page.failRemove = bad; if (how < 2) { spa('/b'); await H.settle(40); } else if (how === 2) c.revertVariants(); else { c.toggleManualPageObject('P', false); await H.settle(40); } page.failRemove = null; const left = shown(); const stay = how < 2 ? ['m', 'n'] : how === 3 ? ['o'] : []; const iLeft = how < 2 && !scoped ? ['i1', 'i2'] : how === 3 ? ['i3'] : []; H.observe(left); H.assert(H.eq(left.m, stay.sort()) && H.eq(left.css, iLeft.map((x) => 'css-' + x)) && H.eq(left.s, iLeft.map((x) => 'js-' + x)), 'taken back', { left, stay, iLeft, how, scoped });
  if (how < 2) { spa('/a'); await H.settle(40); } else if (how === 2) { await c.applyVariants(); await H.settle(20); } else { c.toggleManualPageObject('P', true); await H.settle(40); } const again = shown(); H.assert(H.eq(again.m, ['m', 'n', 'o']) && H.eq(again.css, ['css-i1', 'css-i2', 'css-i3']) && H.eq(again.s, ['js-i1', 'js-i2', 'js-i3']), 'and applied again', again); const lost = H.rejections(); H.assert(lost.length === 0, 'no failure goes unnoticed', { lost }); H.cover('removal'); }
export const cells: Record<string, any> = { addresses, manual: () => manual(3), manual4: () => manual(4), variants, failing, close, follow, dependents, removal };
export const meta = { thoroughOnly: ['manual4'], mustCover: ['followed', 'removal', 'dependents', 'no dependents', 'close', 'no longer matched', 'active', 'inactive', 'triggered', 'manual', 'variants', 'reverted', 'failing'], bounds: ['two pages each matching any text of 1 or 2 characters of /abz in the address, actions scoped or not and split or not, three addresses of 3 reached by pushState, replaceState or back; 3 (thorough 4) steps of switching two manual triggers or navigating with three pauses between; 3 toggles or events with pauses of 0..13 microtasks among up to 5 experiments; up to 2 stored events, a sync adding one or none, 3 events with or without navigation; 3 changes among 4 variants with or without navigation, reverting all or one; 7 failing or unusable actions in two positions and orders', 'a chain of 3 experiments depending on one with behaviors, local or remote, in both orders, with 3 events or navigations and a sync or none', 'the removal of either of two injections failing on navigation, on demand or by its trigger'], assumptions: ['a declared mutation is applied and reverted by dom-mutator as asked'] };
