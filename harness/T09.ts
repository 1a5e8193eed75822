// Behavioral rules: matched exactly when the counted events say so.
import { clock, localStorage, advance, window, rnd } from './lib/env';
import { BehavioralTargetingManager } from 'repo:experiment-tag/src/behavioral-targeting/behavioral-targeting-manager';
import { areBehaviorsEqual } from 'repo:experiment-tag/src/behavioral-targeting/util';
declare const H: any;
const KEY = 'client-abcdefghij', STORE = 'EXP_client-abc_rtbt_events', DAY = 86400000;
let draws = 0; rnd.next = () => (++draws * 997) / 65536; let us = 0; (window as any).crypto = { randomUUID: () => 'u' + us++ };
const NAMES = ['greater or equal', 'greater', 'is', 'less', 'less or equal', 'is not'];
const compare = (op: number, n: number, v: any) => [n >= v, n > v, n === v, n < v, n <= v, n !== v][op];
const cond = (event_type: string, op: string, value: any, o: any = {}) => ({ type: 'behavior', event_type, op, value, time_type: 'current_session', time_value: 0, ...o });
const put = (evs: any[]) => localStorage.put(STORE, JSON.stringify({ events: evs.map((e, i) => ({ uuid: 'r' + i, id: i, session_id: 's', properties: {}, ...e })), nextId: evs.length + 1 }));
const matched = (m: any) => { const r: any = {}; for (const [k, v] of m.getMatchedBehaviors()) r[k] = [...v].sort(); return r; };
// one condition over stored events: of the asked type, in the session or the window, counted and compared
function count(N: number) {
  const evs: any[] = []; for (let i = 0; i < N; i++) evs.push({ ty: H.bool('type' + i), ses: H.bool('ses' + i), at: H.int('at' + i, 0, 4 * DAY), p: H.bool('p' + i) });
  put(evs.map((e) => ({ event_type: e.ty ? 'a' : 'b', session_id: e.ses ? 'now' : 'then', timestamp: e.at, properties: { plan: e.p ? 'x' : 'y' } })));
  const op = H.choose('op', 7), v = H.int('value', -1, 4), neg = H.bool('negated'), rolling = H.fork('rolling'), tv = H.int('window', 0, 5), unit = H.fork('hours') ? 'hour' : 'day', filter = H.fork('filter'); clock.now = 4 * DAY; (window as any).document.cookie = 'EXP_client-abc_rtbt_session=' + encodeURIComponent(JSON.stringify({ sessionId: 'now', sessionStartTime: clock.now, lastEventTime: clock.now }));
  const m = new BehavioralTargetingManager(KEY, { f: { r: [[{ condition: cond('a', op < 6 ? NAMES[op] : 'contains', v, { ...(rolling ? { time_type: 'rolling', time_value: tv, interval: unit } : {}), ...(filter ? { event_props: [{ selector: ['context', 'plan'], op: 'is', values: ['x'] }] } : {}) }) as any, negated: neg }]] } });
  let n: any = 0; for (const e of evs) n = n + H.ite(H.and(e.ty, rolling ? 4 * DAY - e.at <= tv * (unit === 'day' ? DAY : 3600000) : e.ses, filter ? e.p : true), 1, 0); const r = op < 6 ? compare(op, n, v) : false; const want = H.ite(neg, H.not(r), r); const got = 'f' in matched(m); H.observe(matched(m)); H.assert(H.iff(want, got), 'matched exactly if the count says so', { got, n, v, op }); H.assert(m.hasRules('f') && !m.hasRules('g'), 'flags with rules'); H.cover('count'); if (filter) H.cover('filter'); if (rolling) H.cover('rolling'); }
// alternatives of conjunctions, each condition possibly negated
function dnf() { const truth = [H.bool('a'), H.bool('b'), H.bool('c')]; const evs: any[] = []; truth.forEach((x, i) => { evs.push({ event_type: x ? 'abc'[i] : 'z', timestamp: 1 }); }); put(evs.map((e) => ({ ...e, session_id: 'x' }))); clock.now = 1000; (window as any).document.cookie = 'EXP_client-abc_rtbt_session=' + encodeURIComponent(JSON.stringify({ sessionId: 'x', sessionStartTime: 1000, lastEventTime: 1000 }));
  const groups: any[] = [], ng = H.choose('groups', 4); let want: any = false; for (let g = 0; g < ng; g++) { const nc = H.choose('conds' + g, g === 2 ? 2 : 4); const conds: any[] = []; let all: any = true; for (let c = 0; c < nc; c++) { const e = (g + c) % 3, neg = H.bool('neg' + g + c); conds.push({ condition: cond('abc'[e], 'greater', 0), ...(c || g ? { negated: neg } : {}) }); all = H.and(all, c || g ? H.ite(neg, H.not(truth[e]), truth[e]) : truth[e]); } groups.push(conds); want = H.or(want, all); }
  const m = new BehavioralTargetingManager(KEY, { f: { r: groups } }); const got = 'f' in matched(m); H.observe(got); H.assert(H.iff(want, got), 'any of the alternatives, all of its conditions', { got, truth }); H.cover('dnf'); }
// the matched set follows events: each rule is as if evaluated at load and at every event it is about
function follow() { const RULES: any = { f: { both: [[{ condition: cond('a', 'greater', 0) }, { condition: cond('b', 'is', 1, { time_type: 'rolling', time_value: 1, interval: 'hour' }) }]], notA: [[{ condition: cond('a', 'greater or equal', 2), negated: true }]] }, g: { onlyB: [[{ condition: cond('b', 'less', 2) }], [{ condition: cond('c', 'is', 1) }]], never: [] } };
  const about: any = { both: 'ab', notA: 'a', onlyB: 'bc', never: '' }; const m = new BehavioralTargetingManager(KEY, RULES, 2000000); let evs: any[] = [], ses = 0, last = clock.now; const held = (id: string) => { const inS = (t: string) => evs.filter((e) => e.t === t && e.s === ses).length; if (id === 'both') return inS('a') > 0 && evs.filter((e) => e.t === 'b' && clock.now - e.at <= 3600000).length === 1; if (id === 'notA') return !(inS('a') >= 2); if (id === 'onlyB') return inS('b') < 2 || inS('c') === 1; return false; };
  const state: any = {}; for (const id of Object.keys(about)) state[id] = held(id); let prev = new Map([...m.getMatchedBehaviors()].map(([k, v]) => [k, new Set(v)])); H.assert(areBehaviorsEqual(m.getMatchedBehaviors(), prev) && (prev.size === 0 || !areBehaviorsEqual(undefined, prev)) && areBehaviorsEqual(undefined, new Map()), 'comparison');
  for (let i = 0; i < 3; i++) { const d = H.int('d' + i, 0, 4000000); clock.now = clock.now + d; const t = 'abcz'[H.choose('t' + i, 4)]; if (H.conc(clock.now - last > 2000000)) { ses++; H.cover('new session'); } last = clock.now; m.trackEvent(t, { i }); if (t !== 'z') evs.push({ t, s: ses, at: clock.now }); for (const id of Object.keys(about)) if (about[id].includes(t)) state[id] = H.conc(held(id));
    const want: any = {}; if (state.both || state.notA) want.f = [...(state.both ? ['both'] : []), ...(state.notA ? ['notA'] : [])]; if (state.onlyB) want.g = ['onlyB']; const got = matched(m); H.observe(got); H.assert(H.eq(got, want), 'the matched rules', { got, want, i }); H.assert(areBehaviorsEqual(m.getMatchedBehaviors(), prev) === (JSON.stringify(matched({ getMatchedBehaviors: () => prev })) === JSON.stringify(got)), 'a change is noticed', { got }); prev = new Map([...m.getMatchedBehaviors()].map(([k, v]) => [k, new Set(v)])); }
  m.cleanup(); const again = new BehavioralTargetingManager(KEY, RULES, 2000000); const now: any = {}; for (const id of Object.keys(about)) { const h = H.conc(held(id)); if (h) now[about[id] === 'bc' ? 'g' : 'f'] = [...(now[about[id] === 'bc' ? 'g' : 'f'] || []), id]; } H.assert(H.eq(matched(again), now), 'and on the next page', { got: matched(again), now }); H.cover('followed'); }
// what the filters of a rule see
function props() { const x = H.int('x', 0, 3), y = H.str('y', { max: 2, alpha: 'pP1' }), kind = H.choose('kind', 4); const m = new BehavioralTargetingManager(KEY, { f: { r: [[{ condition: cond('a', 'greater', 0, { event_props: kind === 3 ? [] : [{ selector: ['context', 'y'], op: ['is', 'contains', 'is not'][kind], values: ['p1'] }, { selector: ['context', 'deep', 'x'], op: 'greater or equal', values: ['2'] }] }) as any }]] } }); m.trackEvent('a', { y, deep: { x } }); const got = 'f' in matched(m); H.observe(got);
  const c = kind === 0 ? H.eq(y, 'p1') : kind === 1 ? y.toLowerCase().includes('p1') : H.not(H.eq(y, 'p1')); H.assert(H.iff(kind === 3 ? true : H.and(c, x >= 2), got), 'all filters must hold for an event to count', { got, y, x, kind }); H.cover('props'); }
export const cells: Record<string, any> = { count: () => count(2), count3: () => count(3), dnf, follow, props };
export const meta = { thoroughOnly: ['count3'], mustCover: ['count', 'filter', 'rolling', 'dnf', 'new session', 'followed', 'props'], bounds: ['2 (thorough 3) stored events of 2 types, sessions and values of a property at any time of 4 days, counted in the session or any 0..5 hours or days, compared by all operators and an unknown one with -1..4, negated or not; up to 3 alternatives of up to 3, 3 and 1 conditions over 3 types; 3 events of 4 types each 0..4000 s after the one before against 4 rules of 2 flags; filters with texts up to 2 characters and numbers 0..3'], assumptions: ['the clock does not go back', 'rules are not evaluated anew merely because time passes (documented)'] };
