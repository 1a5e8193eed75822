// The debugger tells the truth: what it says of variants, audiences, dependencies, pages and triggers is what is so, and it is told of changes.
import './lib/env';
import { KEY, mut, pageObject, configs, integration, clock, advance, setGlobal, window, localStorage, timers, browser, spa, back, go, live } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
import { histories, hook } from './T15';
import { sequence, hook as editor } from './T16';
import { initialize, setConsentStatus } from 'repo:experiment-tag/src/index';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { wrapIntegrationTrack } from 'repo:experiment-tag/src/consent/consent-impression-buffer';
import { DebugRecorder } from 'repo:experiment-tag/src/util/debug-recorder';
declare const H: any;
const O = 'https://example.com';
const create = (flags: any[], pages: any, cfg: any = {}) => DefaultWebExperimentClient.getInstance(KEY, configs(flags, pages), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) }, ...cfg } as any) as any;
const condOf: any = { x2: 1, z: 1, t1b: 1, e0: 1, p50: 1, or: 1, q: 1, v0: 1 };
// every kind of trigger, in whatever has happened: reported as passed, with its address, exactly if the page is active
const trigger = (name: string, n: number) => async () => {
  hook.begin = () => setGlobal('__AMP_DEBUG', true);
  hook.check = (c: any, got: string[], info: any, here: string) => { const s = c.getDebugState(); H.assert(s.currentUrl === O + here, 'the address', s.currentUrl); for (const k of Object.keys(s.flags)) { const f = s.flags[k], p = f.pageObjects[0], on = got.includes(k); H.assert(f.isActive === on, 'whether an experiment is active', { k, f, got }); H.assert(f.pageObjects.length === 1 && p.id === 'page-' + k, 'its pages', p); H.assert(p.urlConditionsPassed === (!p0cond(name, k) || here === '/b'), 'whether the address is right', { k, p, here }); H.assert((p.overallStatus === 'pass') === on, 'passed exactly if active', { k, p, on, info }); H.assert(p.trigger.passed === p.triggerPassed && (p.overallStatus === 'pass') === (p.urlConditionsPassed && p.triggerPassed), 'in one voice', p); H.assert(f.variant && f.variant.key === 'on' && f.inactiveReason === undefined, 'its variant', f); H.cover((on ? 'pass ' : 'fail ') + name); if (!on && p.triggerPassed) H.cover('triggered elsewhere'); if (p.trigger.elapsedMs !== undefined) H.assert(H.conc(H.and(p.trigger.elapsedMs >= 0, p.trigger.elapsedMs <= clock.now)), 'a time', p.trigger.elapsedMs); } };
  try { await histories[name](n); } finally { hook.begin = hook.check = null; } };
const p0cond = (name: string, k: string) => (name === 'exit' ? k === 'e0' : name === 'scrolled' ? k === 'p50' : !!condOf[k]);
// audiences and dependencies
const cond = (sel: string[], op: string, values: string[]) => ({ selector: sel, op, values });
const v = (key: string) => ({ key, value: key, payload: key === 'on' ? [mut('m')] : undefined, metadata: key === 'off' ? { default: true, deliveryMethod: 'web' } : { deliveryMethod: 'web' } });
const mk = (key: string, segments: any[], o: any = {}) => ({ key, variants: { off: v('off'), on: v('on'), control: v('control') }, segments, metadata: { evaluationMode: 'local', deliveryMethod: 'web', flagType: 'experiment', marker: key }, ...o });
async function audience(size: number) {
  browser(); go(O + '/a'); integration(); setGlobal('__AMP_DEBUG', true); const val = (n: string) => H.str(n, { min: 1, max: 1, alpha: 'xyz' }); const u1 = val('u1'), u2 = val('u2'), ud = val('ud'); (window as any).experimentIntegration.getUser = () => ({ user_id: 'u', device_id: 'd', user_properties: { p1: u1, p2: u2, pd: ud } });
  const prop = (n: string) => ['context', 'user', 'user_properties', n]; const dep = ['holdout-1', 'mutex-2', 'other'][H.choose('dependency', 3)]; const DV = dep === 'holdout-1' ? ['on', 'control'] : ['on', 'off']; const D = mk(dep, [{ conditions: [[cond(prop('pd'), 'is', ['x'])]], variant: DV[0] }, { conditions: [[cond(prop('pd'), 'is', ['y'])]], variant: DV[1] }]); // anyone else gets none
  const dk = H.conc(H.eq(ud, 'x')) ? DV[0] : H.conc(H.eq(ud, 'y')) ? DV[1] : null; const needs = cond(['result', dep, 'key'], 'is', ['on']), depOk = dk === 'on';
  const kinds: any[] = [['dep', needs], ['p1', cond(prop('p1'), 'is', ['x'])], ['p2', cond(prop('p2'), 'is', ['x'])]]; const truth = (n: string) => (n === 'dep' ? depOk : H.conc(H.eq(n === 'p1' ? u1 : u2, 'x')));
  const shapes: string[][][] = [[['dep', 'p1']], [['p1', 'dep']], [['dep'], ['p1']], [['p1']], [], [['dep', 'p1'], ['p2', 'dep']]]; const segs: any[] = []; const plan: any[] = [];
  for (let i = 0; i < size; i++) { const s = shapes[H.choose('shape' + i, shapes.length)]; const to = ['on', 'off', 'control'][H.choose('to' + i, 3)]; plan.push({ s, to }); segs.push({ ...(s.length ? { conditions: s.map((g) => g.map((n) => kinds.find((k) => k[0] === n)[1])) } : {}), variant: to, metadata: { segmentName: 'seg' + i } }); }
  const c = create([D, mk('f', segs, { dependencies: [dep] }), mk('g', [{ variant: 'on', metadata: { segmentName: 'all' } }])], { f: { p: pageObject('p', 'manual', { name: 'Q' }) } }); await c.start(); await H.settle(30);
  let winner = -1; for (let i = 0; i < size && winner < 0; i++) if (!plan[i].s.length || plan[i].s.some((g: any) => g.every(truth))) winner = i;
  const before = plan.slice(0, winner < 0 ? size : winner); const key = winner < 0 ? null : plan[winner].to, isOn = !!key && key !== 'off'; const maybe = before.some((p) => p.s.some((g: any) => g.includes('dep') && !depOk)), sure = before.some((p) => p.s.some((g: any) => g.includes('dep') && !depOk && g.every((n: string) => n === 'dep' || truth(n))));
  const S = c.getDebugState().flags, f = S.f; const vs = c.getVariants(); H.assert(!!f, 'reported', { S: JSON.stringify(S).slice(0, 300), run: c.isRunning }); H.observe([key, f.inactiveReason]); const info = { plan, key, winner, dk, f: JSON.stringify(f).slice(0, 1500) };
  for (const k of Object.keys(S)) { H.assert((S[k].variant ? S[k].variant.key : undefined) === (vs[k] && vs[k].key) && (!S[k].variant || (S[k].variant.value === vs[k].value)), 'the variant is that of the client', { k, said: S[k].variant, is: vs[k] }); H.assert(S[k].flagMetadata && S[k].flagMetadata.marker === k, 'its metadata'); }
  H.assert(Object.keys(S).sort().join() === ['f', 'g', dep].sort().join(), 'every flag', Object.keys(S)); H.assert((f.variant ? f.variant.key : null) === key, 'the variant', info);
  const a = f.audienceEvaluation; H.assert(a && a.matched === winner >= 0 && a.matchedSegment === (winner < 0 ? undefined : 'seg' + winner), 'the matching segment', info); H.assert(a.steps.length === size && a.steps.findIndex((s: any) => s.matched) === winner, 'its place', info); a.steps.forEach((s: any, i: number) => { const ok = !plan[i].s.length || plan[i].s.some((g: any) => g.every(truth)); H.assert(s.matched === ok && s.segmentMetadata.segmentName === 'seg' + i, 'each segment', { i, s, ok }); });
  const d = f.dependencies; H.assert(d && d.length === 1 && d[0].flagKey === dep && d[0].type === { 'holdout-1': 'holdout', 'mutex-2': 'mutex', other: 'prerequisite' }[dep], 'its dependency', d); H.assert(d[0].resolvedVariant === dk, 'what it resolved to', { d, dk }); if (d[0].blocking) H.assert(!isOn && maybe, 'a dependency blocks only if unmet', info); if (!isOn && sure) H.assert(d[0].blocking, 'what blocks is named', info);
  const r = f.inactiveReason; if (isOn) H.assert(r === undefined, 'no reason if on', info); else { H.assert(typeof r === 'string' && r.length > 0, 'a reason if off', info); if (d[0].blocking) { H.assert(r.includes('"' + dep + '"'), 'blocked by', r); if (dep === 'other') H.assert(r.endsWith('= ' + (dk ?? 'off')), 'which is', r); } else { H.assert(!r.includes(dep), 'not blocked', info); H.assert(r === (winner < 0 ? 'Audience not matched' : 'No variant assigned'), 'why', info); } H.cover(d[0].blocking ? 'blocked ' + d[0].type : r); } if (isOn) H.cover('on');
  H.assert(S.g.dependencies === undefined && S.g.variant.key === 'on' && S.g.audienceEvaluation.matched && S.g.inactiveReason === undefined && S.g.isActive === false, 'another flag', S.g); H.assert(f.isActive === false, 'not active'); c.toggleManualPageObject('Q', true); await H.settle(20); const f2 = c.getDebugState().flags.f; H.assert(f2.isActive === true && (f2.variant ? f2.variant.key : null) === key && f2.inactiveReason === r, 'a page changes nothing else', f2); H.assert(H.eq(live(), isOn && key === 'on' ? ['m'] : []), 'as on the page', live()); }
// told of changes: once, when nothing has changed for a tenth of a second
async function told(N: number) {
  browser(); go(O + '/a'); integration(); const how = H.choose('activated', 4); if (how === 1) setGlobal('__AMP_DEBUG', true); if (how === 2) localStorage.put('amp-ve-debug', 'true'); if (how === 3) localStorage.put('amp-ve-debug', 'yes'); const active = how === 1 || how === 2;
  const c = create([mk('f', [{ variant: 'on' }])], { f: { p: pageObject('p', 'manual', { name: 'Q' }), q: pageObject('q', 'manual', { name: 'R' }) } }); await c.start(); await H.settle(30); timers.list = timers.list.filter((t: any) => !t.interval); await advance(clock.now + 500, 12, 30); await H.settle(12);
  const A: any[] = [], Z: any[] = []; const seen: any[] = []; const take = (s: any) => { H.assert(s.timestamp === clock.now, 'of this moment', s.timestamp); H.assert(H.eq(s.flags.f.pageObjects.map((p: any) => p.triggerPassed), Q), 'as it is', [s.flags.f.pageObjects, Q]); H.assert(s.currentUrl === O + path, 'where it is', s.currentUrl); }; c.addDebugStateSubscriber(() => { throw new Error('subscriber'); }); const offA = c.addDebugStateSubscriber((s: any) => { take(s); A.push(clock.now); }), offZ = c.addDebugStateSubscriber((s: any) => { take(s); Z.push(clock.now); }); H.assert(typeof offA === 'function', 'can be ended');
  if (how !== 1) N = active ? 2 : 1; let due: any = null, Q = [false, false], path = '/a', zOn = true, wantA: any[] = [], wantZ: any[] = [], n = 0; const events0 = c.getDebugState().events.length;
  for (let i = 0; i < N; i++) { const op = H.choose('op' + i, 5); let change = false; if (op < 2) { Q = Q.slice(); Q[op] = !Q[op]; change = true; c.toggleManualPageObject('QR'[op], Q[op]); } else if (op === 2) { path = path === '/a' ? '/b' : '/a'; Q = [false, false]; change = true; spa(path); } else if (op === 3) { c.toggleManualPageObject('other', true); } else if (zOn) { offZ(); zOn = false; } await H.settle(15); if (change && active) due = clock.now + 100;
    const w = H.int('wait' + i, 0, 150), to = clock.now + w; await advance(to, 12, 30); await H.settle(12); if (due !== null && H.conc(due <= to)) { wantA.push(due); if (zOn) wantZ.push(due); due = null; } H.assert(A.length === wantA.length && H.conc(H.and(...A.map((t, j) => H.eq(t, wantA[j])))), 'when told', { A, wantA, i }); H.assert(Z.length === wantZ.length, 'unless unsubscribed', { Z, wantZ }); }
  if (A.length) H.cover('told'); if (A.length > 1) H.cover('told again'); if (!active) { H.assert(c.getDebugState().events.length === 0, 'nothing is recorded', c.getDebugState().events); H.cover('not active'); } else H.assert(c.getDebugState().events.length >= events0, 'recorded'); }
// consent: the gate, and what is held
async function consent(N: number) {
  browser(); go(O + '/a'); integration(); let status = 'pending', explicit = false, required = false, parked = false, started = false; const S = ['pending', 'granted', 'denied', 'other'];
  const set = (s: string) => { if (s === 'granted' || s === 'denied') status = s; };
  for (let i = 0; i < N; i++) {
    if (H.fork('initialize' + i)) { const need = H.bool('required' + i), s = S[H.choose('status' + i, 4)]; initialize(KEY, configs([mk('f', [{ variant: 'on' }])], { f: { p: pageObject('p') } }), { consentOptions: { consentRequired: need, consentStatus: s }, httpClient: { request: async () => ({ status: 200, body: '[]' }) } } as any); if (!started) { const gated = H.conc(need) || parked; if (gated) { required = true; if (!explicit) set(s); } if (gated && status !== 'granted') parked = true; else { started = true; parked = false; } } }
    else { const s = S[H.choose('decide' + i, 4)]; setConsentStatus(s as any); if (s !== 'other') { explicit = true; set(s); if (status === 'granted' && parked) { started = true; parked = false; } } }
    await H.settle(40); const d = DebugRecorder.getDebugState().consent, want = { status, required, started, startDeferred: parked }; H.observe(want); const { impressionBuffers, ...said } = d as any; H.assert(H.eq(said, want), 'consent', { said, want }); H.assert(impressionBuffers.length === (started && required ? 1 : 0) && impressionBuffers.every((b: any) => !b.buffered && !b.flushArmed && !b.retrying), 'nothing is held', impressionBuffers);
    const c = (window as any).webExperiment; if (started) { H.assert(H.eq(c.getDebugState().consent, d), 'the client says the same'); H.cover(required ? 'consented' : 'ungated'); } else { H.assert(!c || !c.getDebugState, 'no client'); H.cover(parked ? 'parked' : 'not initialized'); } } }
async function held(N: number) { consentGate.required = true; const A: any[] = []; for (let k = 0; k < 2; k++) { const a: any = { calls: 0, took: 0, left: 0, armed: false }; a.it = { type: 'integration', track: () => { const ok = H.fork('accepts' + k + '.' + a.calls++); if (ok) a.took++; return ok; } }; wrapIntegrationTrack(a.it); A.push(a); }
  let status = 'pending';
  for (let i = 0; i < N; i++) { const op = H.choose('op' + i, 5), took = A.map((a) => a.took);
    if (op < 2) { A[op].it.track({ eventType: '$impression', eventProperties: { n: i } }); if (status === 'pending') { A[op].left++; A[op].armed = true; } } else if (op === 2) { consentGate.manager.setStatus('granted'); status = 'granted'; } else if (op === 3) { consentGate.manager.setStatus('denied'); status = 'denied'; } else await advance(clock.now + 1000, 2, 8);
    const now = DebugRecorder.getDebugState().consent.impressionBuffers; H.assert(now.length === 2, 'one entry for each'); H.observe(now);
    now.forEach((b: any, k: number) => { const a = A[k]; if (status === 'denied') a.left = 0; else if (op === 2 || op === 4) a.left -= a.took - took[k]; H.assert(b.buffered === a.left, 'how many are held', { b, left: a.left }); H.assert(b.retrying === (status === 'granted' && a.left > 0), 'offered again while any is left', b); H.assert(b.flushArmed === a.armed, 'whether a decision is awaited', b); if (a.left) H.cover('held'); if (b.retrying) H.cover('retrying'); }); } }
async function messenger(N: number) { editor.check = (state: string, wanted: number) => { const v = DebugRecorder.getDebugState().visualEditor.messengerState; H.observe(v); H.assert(v === ({ closed: wanted ? 'error' : 'waiting', opening: 'loading', open: 'loaded' } as any)[state], 'how far the editor is', { v, state, wanted }); H.cover('editor ' + v); }; try { await sequence(N); } finally { editor.check = null; } }
async function section() { browser(); integration(); (window as any).opener = { closed: false }; const ve = H.choose('editor', 3), gone = H.fork('no opener'); if (gone) (window as any).opener = null; go(O + '/a' + (ve === 1 ? '?VISUAL_EDITOR=true' : '')); if (ve === 2) (window as any).sessionStorage.setItem('visual-editor-state', JSON.stringify({ injectSrc: 'https://cdn.amplitude.com/o.js', amplitudeWindowUrl: 'w' }));
  const c = create([mk('f', [{ variant: 'on' }])], { f: { p: pageObject('p') } }); await c.start(); await H.settle(30); const v = c.getDebugState().visualEditor; H.observe(v); H.assert(v.isActive === ve > 0, 'whether it is the editor', v); if (!gone || !ve) H.assert(v.source === [null, 'url_param', 'session_storage'][ve], 'and how it was opened', v); H.cover('section ' + ve); if (ve) H.assert(v.messengerState === (gone ? 'error' : ve === 2 ? 'loading' : 'waiting'), 'and how far it is', { v, gone }); }
export const cells: Record<string, any> = { audience: () => audience(2), told: () => told(3), consent: () => consent(3), held: () => held(4), messenger: () => messenger(2), section, consent4: () => consent(4), held5: () => held(5), messenger3: () => messenger(3), audience3: () => audience(3), told4: () => told(4) };
const quick: any = { clicks: 2, pointing: 2, time: 3, exit: 2, events: 2, appeared: 2, visible: 3, scrolled: 2 };
for (const k of Object.keys(histories)) { cells[k] = trigger(k, quick[k]); cells[k + '+'] = trigger(k, quick[k] + 1); }
export const meta = { thoroughOnly: ['audience3', 'consent4', 'held5', 'messenger3', 'told4', ...Object.keys(histories).map((k) => k + '+')], mustCover: [...['clicks', 'pointing', 'time', 'exit', 'events', 'appeared', 'visible', 'scrolled'].flatMap((x) => ['pass ' + x, 'fail ' + x]), 'triggered elsewhere', 'on', 'blocked holdout', 'blocked mutex', 'blocked prerequisite', 'Audience not matched', 'No variant assigned', 'told', 'told again', 'not active', 'consented', 'ungated', 'parked', 'not initialized', 'held', 'retrying', 'editor waiting', 'editor loading', 'editor loaded', 'editor error', 'section 0', 'section 1', 'section 2'], bounds: ['the histories of T15 for every kind of trigger, with 2 or 3 steps (thorough one more); 2 (thorough 3) segments of 6 shapes to 3 variants over a dependency of 3 kinds and 2 user properties with any values of one character of xyz; 3 (4) steps of activating two pages, navigating and unsubscribing with any waits up to 150 ms, debugging activated in 2 ways or not; 3 (4) steps of initialising and deciding; 4 (5) of two integrations tracking, accepting or refusing each event, and decisions; the editor being opened in 2 (3) steps'], assumptions: ['those of T15'] };
