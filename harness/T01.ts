// When the tag starts: consent and configuration decide, whatever the order of calls.
import './lib/env';
import { KEY, flag, mut, inject, pageObject, configs, integration, live, clock, advance, setGlobal, window, log, localStorage, browser, go, page, spa } from './lib/tag';
import { initialize, setConsentStatus, createPlugin } from 'repo:experiment-tag/src/index';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { ConsentManager } from 'repo:experiment-tag/src/consent/consent-manager';
declare const H: any;
const STATUS: any[] = ['granted', 'pending', 'denied'];
const text = (n: string) => { const k = H.choose(n, 3); return k === 2 ? undefined : H.str(n + '.t', { min: 7 - k, max: 7 - k }); }; // any word as long as a status, or none
const valid = (s: any) => s === 'granted' || s === 'pending' || s === 'denied';
let tracked: string[] = [], starts = 0;
const spy = () => { integration(); const P: any = DefaultWebExperimentClient.prototype; const te = P.trackEvent, st = P.start; P.trackEvent = function (t: string, p: any) { tracked.push(t + (p ? p.n : '')); return te.call(this, t, p); }; P.start = function () { starts++; return st.call(this); }; };
const touched = () => log.filter((l: any) => !(l[0] === 'remove' || l[0] === 'rejected' || (l[1] === 'cookie' && (l[2] === '' || l[2] === 'EXP_client-abc_erased'))));
async function run(steps: number, kinds: string[], early: string[] = []) {
  spy(); const plugin = createPlugin(); let status = 'pending', explicit = false, deferred: any = null, started: any = null, n = 0; let buffered: string[] = []; const expected: string[] = []; let win: any = undefined, everGated = false;
  const begin = (name: string) => { started = name; deferred = null; };
  const move = (s: string) => { if (s !== 'pending') status = s; };
  const settle = async () => { await H.settle(60); if (started) { expected.push(...buffered); buffered = []; } };
  for (let i = 0; i < steps; i++) {
    const k = i < early.length ? early[i] : kinds[H.choose('op' + i, kinds.length)]; if (!started) log.length = 0;
    if (k === 'initialize') { const name = 'f' + i; const cs = text('status' + i); const opts: any = { consentRequired: H.bool('required' + i) }; if (cs !== undefined) opts.consentStatus = cs;
      initialize(KEY, configs([flag(name, 'on', { on: [mut(name)] })], { [name]: { p: pageObject('p') } }), { consentOptions: opts } as any);
      if (!started) { const eff = { ...opts, ...win }; if (eff.consentRequired || deferred) { everGated = true; if (!explicit) move(valid(eff.consentStatus) ? eff.consentStatus : 'pending'); if (status === 'granted') begin(name); else { deferred = name; buffered = []; } } else begin(name); } else H.cover('initialized again'); }
    if (k === 'window') { win = {}; if (H.fork('wr' + i)) win.consentRequired = H.bool('wrt' + i); const cs = text('ws' + i); if (cs !== undefined) win.consentStatus = cs; setGlobal('experimentConfig', { consentOptions: { ...win } }); }
    if (k === 'decide') { const s = text('decide' + i); if (i % 2 && (window as any).webExperiment) (window as any).webExperiment.setConsentStatus(s); else setConsentStatus(s); if (valid(s)) { explicit = true; move(s); if (status === 'granted' && deferred && !started) { begin(deferred); H.cover('late grant'); } } }
    if (k === 'event') { const e = 'e' + n++; const running = (window as any).webExperiment && (window as any).webExperiment.isRunning; const pl: any = running && i % 2 ? (window as any).webExperiment.plugin() : plugin, ctx: any = { event_type: e, event_properties: { n }, other: 1 }; const r = await pl.execute(ctx); H.assert(r === ctx && H.eq(ctx, { event_type: e, event_properties: { n }, other: 1 }) && pl.type === 'enrichment' && typeof pl.name === 'string', 'the event goes on as it was', r); if (running) expected.push(e + n); else if (deferred && !started) H.cover('event dropped'); else buffered.push(e + n); }
    if (i < steps - 1 && i >= early.length - 1 && H.fork('wait' + i)) await settle();
    H.assert(starts === (started ? 1 : 0), 'started exactly once and only with consent', { starts, started, status, k, i });
    H.assert(consentGate.started === !!started, 'state', [consentGate.started, started]);
    if (!started && deferred) { const a = touched(); H.assert(a.length === 0, 'nothing is stored or read before consent', a); H.cover('untouched'); }
  }
  await settle(); await settle(); await advance(clock.now + 3000, 20, 8); H.observe([status, starts, tracked]);
  H.assert(starts === (started ? 1 : 0), 'started exactly once', { starts, started });
  H.assert(H.eq(live(), started ? [started] : []), 'runs what the latest accepted initialisation gave', { live: live(), started, status }); if (started) H.cover(everGated ? 'gated start' : 'ungated start'); else H.cover('no start');
  H.assert(H.eq(tracked, expected), 'events reach the client once, in order, and none from before consent', { tracked, expected });
}
async function buffer() { // at most 500 events wait for the client
  spy(); const plugin = createPlugin(); const extra = H.choose('extra', 3); for (let i = 0; i < 499 + extra; i++) void plugin.execute!({ event_type: 'e' + i } as any); initialize(KEY, configs([], {}), {} as any); await H.settle(60); const from = Math.max(0, extra - 1); H.assert(tracked.length === 499 + extra - from && tracked[0] === 'e' + from && tracked[tracked.length - 1] === 'e' + (498 + extra), 'the newest 500 in order', [tracked.length, tracked[0]]); H.observe(tracked.length); H.cover('buffer'); }
function manager() { // transitions, listeners
  const m = new ConsentManager(STATUS[H.choose('initial', 3)]); let st = m.getStatus(), ex = false; const got: any[] = [[], []]; const un: any[] = []; const on = [false, false]; const want: any[] = [[], []]; const bad = H.fork('bad');
  for (let i = 0; i < 4; i++) { const k = H.choose('k' + i, 4); if (k < 2) { const s = STATUS[H.choose('s' + i, 3)]; const applies = !(k === 1 && ex) && s !== st && s !== 'pending'; const r = k === 0 ? m.setStatus(s) : m.seedFromConfig(s); if (k === 0) ex = true; H.assert(r === applies, 'whether it applied', { r, applies, s, st }); if (applies) { for (const j of [0, 1]) if (on[j]) want[j].push([s, st]); st = s; } }
    else { const j = k - 2; if (on[j]) { un[j](); on[j] = false; } else { un[j] = m.onChange((a: any, b: any) => { got[j].push([a, b]); if (bad && j === 0) throw new Error('listener'); }); on[j] = true; } }
    H.assert(m.getStatus() === st && m.hasExplicitStatus() === ex, 'state', [m.getStatus(), st]); H.assert(H.eq(got, want), 'each listener sees every change once', { got, want }); }
  H.observe([st, got]); H.cover('manager'); }
// the page starts the client itself, once more, while it starts or afterwards: nothing happens twice
async function again() {
  browser(); go('https://example.com/a'); const evs = integration(); const requests: string[] = []; const late = [0, 6, 25][H.choose('answered after', 3)], n = H.int('calls', 1, 2), at = H.int('at', 0, 40); const cfg: any = { useDefaultNavigationHandler: true, httpClient: { request: async (u: string) => { requests.push(u); await H.settle(late); return { status: 200, body: '[]' }; } } }; const remote = flag('r', 'on', { on: [mut('remote')] }, { evaluationMode: 'remote' }); remote.metadata = { ...remote.metadata, evaluationMode: 'remote' };
  const c: any = DefaultWebExperimentClient.getInstance(KEY, configs([flag('f', 'on', { on: [mut('one'), inject('i1')] }), remote], { f: { p: pageObject('p') }, r: { p: pageObject('p') } }), cfg); const told: any[] = []; const p = c.start(); let done = 0; p.then(() => { done++; }); await H.settle(H.conc(at)); const busy = !c.isRunning; for (let i = 0; i < H.conc(n); i++) { const q = c.start(); q.then(() => { H.assert(c.isRunning, 'the promise waits for the start', { busy }); done++; }); } await H.settle(120); c.addPageChangeSubscriber?.((a: any) => told.push(a));
  const list = () => evs.filter((e: any) => /^.(impression|exposure)$/.test(e.eventType)).map((e: any) => e.eventProperties.flag_key).sort(); H.observe(list()); H.assert(done === 1 + H.conc(n) && c.isRunning, 'started', done); H.assert(requests.filter((u) => u.includes('/flags')).length === 1, 'one request', requests); H.assert(page.runs === 1 && H.eq(live().slice().sort(), ['one', 'remote']), 'applied once', { runs: page.runs, live: live() }); H.assert(H.eq(list(), ['f', 'r']), 'tracked once', list()); evs.length = 0; spa('/b'); await H.settle(60); H.assert(page.runs === 2 && H.eq(live().slice().sort(), ['one', 'remote']) && H.eq(list(), ['f', 'r']), 'and once after navigating', { runs: page.runs, live: live(), list: list() }); if (busy) H.cover('while starting'); else H.cover('afterwards'); }
export const cells: Record<string, any> = { 'initialize and decide': () => run(3, ['initialize', 'decide']), 'events': () => run(4, ['event', 'decide'], ['event', 'initialize']), 'window configuration': () => run(3, ['decide', 'initialize'], ['window', 'initialize']), 'window later': () => run(3, ['initialize', 'decide'], ['initialize', 'window']), 'decide first': () => run(3, ['initialize', 'event'], ['decide']), buffer, manager, again };
export const meta = { mustCover: ['while starting', 'afterwards', 'initialized again', 'late grant', 'event dropped', 'untouched', 'gated start', 'ungated start', 'no start', 'buffer', 'manager'], bounds: ['3..4 calls among initialisation, consent decision, event and window configuration in the stated orders, each followed at once or later by the next; status: any text of 6 or 7 letters or none; consent required, not required, overridden on the window; 499..501 events before the start; 4 transitions of the state machine with 2 listeners', '1 or 2 further calls of start() at any of 41 moments, with three delays of the answer'], assumptions: ['one API key per page'] };
