// Triggers: a page object becomes active when its trigger has happened on the current page, and stays so until navigation.
import './lib/env';
import { KEY, flag, mut, pageObject, configs, integration, clock, advance, setGlobal, window, document, location, go, live, timers, page, browser, element, changed, spa, back, dispatch, listeners } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
declare const H: any;
const O = 'https://example.com', B = [[{ selector: ['context', 'page', 'url'], op: 'contains', values: ['/b'] }]];
let here = '/a';
export const hook: any = { begin: null, check: null };
// one experiment with a mutation for every trigger
const start = async (triggers: Record<string, any>) => { const flags: any[] = [], pages: any = {}; for (const k of Object.keys(triggers)) { const [type, value, cond] = triggers[k]; flags.push(flag(k, 'on', { on: [mut(k)] })); pages[k] = { ['page-' + k]: pageObject('page-' + k, type, value, cond ? B : []) }; } const c: any = DefaultWebExperimentClient.getInstance(KEY, configs(flags, pages), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) } } as any); await c.start(); await H.settle(30); timers.list = timers.list.filter((t: any) => !t.interval); return c; };
const begin = () => { browser(); go(O + '/a'); here = '/a'; integration(); (document as any).hidden = false; if (hook.begin) hook.begin(); };
const move = async (i: any) => { here = here === '/a' ? '/b' : '/a'; if (i % 2) back(O + here); else spa(here); await H.settle(25); };
const wait = async (ms: any) => { await advance(clock.now + ms, 12, 30); await H.settle(12); };
// want: k -> true, false or undefined (either)
const check = (c: any, want: Record<string, any>, info: any) => { const got: string[] = []; for (const f of Object.keys(c.getActivePages())) if (Object.keys(c.getActivePages()[f]).length) got.push(f); H.observe(got.sort()); for (const k of Object.keys(want)) if (want[k] !== undefined) { H.assert(got.includes(k) === want[k], 'active exactly when triggered', { k, want, got, info, here, now: clock.now }); if (want[k]) H.cover('active ' + info); else H.cover('inactive ' + info); } H.assert(H.eq(live().slice().sort(), got), 'and so is its experiment', { live: live(), got }); if (hook.check) hook.check(c, got, info, here); };
const at = (cond: any) => !cond || here === '/b';
async function clicks(N: number) {
  begin(); const outer = element(['.o', '.x']), inner = element(['.i'], outer), other = element(['.z', '.x']); const T: any = { bad: ['user_interaction', { selector: '<<', interactionType: 'click' }], o: ['user_interaction', { selector: '.o', interactionType: 'click' }], i1: ['user_interaction', { selector: '.i', interactionType: 'click', minThresholdMs: 1000 }], x2: ['user_interaction', { selector: '.x', interactionType: 'click', minThresholdMs: 2000 }, true] }; const c = await start(T); let due: any = {};
  for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 4); if (op === 3) { await move(n); due = {}; } else { const e = [inner, outer, other][op]; for (const k of Object.keys(T)) { const v = T[k][1]; if (v.interactionType === 'click' && v.selector !== '<<' && e.closest(v.selector) && due[k] === undefined) due[k] = clock.now + (v.minThresholdMs || 0); } dispatch('document', 'click', { target: e }); await H.settle(12); } await wait(H.int('wait' + n, 0, 2500));
    const want: any = {}; for (const k of Object.keys(T)) want[k] = due[k] !== undefined && H.conc(due[k] <= clock.now) && at(T[k][2]); check(c, want, 'clicks'); } }
async function pointing(N: number) {
  begin(); const focus = H.fork('focus'), type = focus ? 'focus' : 'hover'; const outer = element(['.n']), inner = element(['.i', '.n'], outer), other = element(['.z']); const T: any = { i0: [, { selector: '.i' }], i1: [, { selector: '.i', minThresholdMs: 1000 }], n1: [, { selector: '.n', minThresholdMs: 1000 }], z: [, { selector: '.z', minThresholdMs: 1000 }, true] }; for (const k of Object.keys(T)) { T[k][0] = 'user_interaction'; T[k][1].interactionType = type; } const c = await start(T);
  const els = [null, outer, inner, other]; let over: any = null; const since = new Map(); let sure: any = {}, may: any = {}; // per trigger and element: since when
  const over1 = (e: any, v: any) => { const r: any[] = []; for (let x = e; x; x = x.parentNode) if (x.matches(v.selector)) r.push(x); return r; };
  let held: any = {}; for (const k of Object.keys(T)) held[k] = new Map(); const update = () => { for (const k of Object.keys(T)) for (const [e, s] of held[k]) if (H.conc(clock.now - s.any >= (T[k][1].minThresholdMs || 0))) { may[k] = true; if (s.own !== null && H.conc(clock.now - s.own >= (T[k][1].minThresholdMs || 0))) sure[k] = true; } };
  for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 5); if (op === 4) { await move(n); sure = {}; may = {}; for (const k of Object.keys(T)) for (const [e, s] of held[k]) { s.own = null; s.any = Infinity; } } else { const to = els[op], from = over; if (to === from) continue; over = to;
      for (const k of Object.keys(T)) { const m = over1(to, T[k][1]); for (const e of [...held[k].keys()]) if (!m.includes(e)) held[k].delete(e); m.forEach((e, i) => { const h = held[k].get(e); if (!h) held[k].set(e, { any: clock.now, own: i === 0 ? clock.now : null }); else if (i === 0) { if (h.own === null) h.own = clock.now; if (h.any === Infinity) h.any = clock.now; } }); }
      if (from) dispatch('document', focus ? 'focusout' : 'mouseout', { target: from, relatedTarget: to }); if (to) dispatch('document', focus ? 'focusin' : 'mouseover', { target: to, relatedTarget: from }); await H.settle(12); }
    await wait(H.int('wait' + n, 0, 2500)); update(); const want: any = {}; for (const k of Object.keys(T)) want[k] = sure[k] ? at(T[k][2]) : may[k] ? (at(T[k][2]) ? undefined : false) : false; check(c, want, type); } }
async function time(N: number) {
  begin(); const doc: any = document; doc.hidden = H.fork('hidden'); const T: any = { t1: ['time_on_page', { durationMs: 1000 }], t3: ['time_on_page', { durationMs: 3000 }], t1b: ['time_on_page', { durationMs: 1000 }, true] }; const c = await start(T); let from: any = doc.hidden ? null : clock.now, done: any = {};
  const update = () => { for (const k of Object.keys(T)) if (from !== null && H.conc(clock.now - from >= T[k][1].durationMs)) done[k] = true; };
  for (let n = 0; n < N; n++) { await wait(H.int('wait' + n, 0, 3500)); update(); const want: any = {}; for (const k of Object.keys(T)) want[k] = !!done[k] && at(T[k][2]); check(c, want, 'time'); if (n === N - 1) break; const op = H.choose('op' + n, 2); if (op) { await move(n); done = {}; from = doc.hidden ? null : clock.now; } else { doc.hidden = !doc.hidden; from = doc.hidden ? null : clock.now; dispatch('document', 'visibilitychange'); } } }
async function exit(N: number) {
  begin(); const m1 = H.int('minimum', 0, 4000); const two = H.fork('two'); const T: any = { e1: ['exit_intent', { minTimeOnPageMs: m1 }] }; if (two) T.e0 = ['exit_intent', {}, true]; const c = await start(T); let loaded: any = clock.now, done: any = {};
  for (let n = 0; n < N; n++) { await wait(H.int('wait' + n, 0, 3500)); const op = H.choose('op' + n, 3); if (op === 2) { await move(n); done = {}; loaded = clock.now; } else { const y = n % 2 ? 50 : H.int('y' + n, -20, 200); dispatch('document', 'mouseleave', { clientY: y, relatedTarget: op ? {} : null }); await H.settle(12); if (!op && H.conc(y <= 50)) for (const k of Object.keys(T)) if (H.conc(clock.now - loaded >= (T[k][1].minTimeOnPageMs ?? 0))) done[k] = true; } const want: any = {}; for (const k of Object.keys(T)) want[k] = !!done[k] && at(T[k][2]); check(c, want, 'exit'); } }
async function events(N: number) {
  begin(); const ev = (name: any, more: any[] = []) => [[{ selector: ['context', 'data', 'event'], op: 'is', values: [name] }, ...more]]; const name = H.str('name', { min: 1, max: 1, alpha: 'xyz' }); const T: any = { n: ['analytics_event', ev(name)], p: ['analytics_event', ev('x', [{ selector: ['context', 'data', 'properties', 'k'], op: 'is', values: ['1'] }])], or: ['analytics_event', [...ev('y'), ...ev('z')], true] }; const c = await start(T); let done: any = {};
  for (let n = 0; n < N; n++) { if (H.choose('op' + n, 3) === 2) { await move(n); done = {}; } else { const e = H.str('event' + n, { min: 1, max: 1, alpha: 'xyz' }), k = H.str('k' + n, { max: 1, alpha: '12' }); c.trackEvent(e, { k }); await H.settle(15); if (H.conc(e === name)) done.n = true; if (H.conc(H.and(e === 'x', k === '1'))) done.p = true; if (here === '/b' && H.conc(e !== 'x')) done.or = true; } check(c, { n: !!done.n, p: !!done.p, or: !!done.or && at(true) }, 'events'); } }
// a document whose changes are observed
const mutated = async (target: any, attr: string | null, added: any[] = []) => { changed(target, attr, added); await H.settle(12); };
async function appeared(N: number) {
  begin(); const body = element(['body']); const el = element(['.p'], body), other = element(['.q'], body); const first = H.choose('first', 3); el.isConnected = first > 0; other.isConnected = false; el.style.display = first === 1 ? 'none' : 'block'; const T: any = { p: ['element_appeared', { selector: '.p' }], q: ['element_appeared', { selector: '.q' }, true] }; const c = await start(T); const els = [el, other], shown = (e: any) => e.isConnected && e.sels.length > 0 && e.style.display !== 'none' && e.style.visibility !== 'hidden'; let ever = els.map(shown), sure = els.map(shown), since: any[] = els.map((e) => shown(e) ? clock.now : null);
  for (let n = 0; n < N; n++) { const op = H.choose('op' + n, n ? 4 : 3); if (op === 3) { await move(n); ever = els.map(shown); sure = els.map(shown); } else { const i = op === 2 ? 1 : 0, e = els[i]; if (op === 1) { const how = (n + first) % 3; if (shown(e) && how === 2) { e.sels = []; await mutated(e, 'class'); } else if (!e.sels.length) { e.sels = ['.p']; await mutated(e, 'class'); } else { e.style = shown(e) ? [{ display: 'none' }, { visibility: 'hidden' }][how] : { display: 'block' }; await mutated(e, 'style'); } } else { e.isConnected = !e.isConnected; await mutated(body, null, e.isConnected ? [e] : []); } if (shown(e)) { ever[i] = true; if (since[i] === null) since[i] = clock.now; } else since[i] = null; }
    await wait(H.int('wait' + n, 0, 250)); els.forEach((e, i) => { if (!sure[i] && since[i] !== null && H.conc(clock.now - since[i] >= 200)) sure[i] = true; }); const w = (i: number, cond: any) => !at(cond) ? false : sure[i] ? true : ever[i] ? undefined : false; check(c, { p: w(0, false), q: w(1, true) }, 'appeared'); } }
// intersections as a browser tells them: at first, and when a threshold is crossed
const cross = async (ratio: (e: any, io: any) => any) => { for (const io of page.io) for (const e of io.seen) { const r = e.isConnected ? ratio(e, io) : 0; const inside = H.conc(r > 0), reach = inside && H.conc(r >= (io.opts.threshold || 0)), key = inside + '/' + reach; if (io.told.get(e) !== key) { io.told.set(e, key); io.cb([{ target: e, isIntersecting: inside, intersectionRatio: r }]); } } await H.settle(12); };
async function visible(N: number) {
  begin(); const body = element(['body']); const v = element(['.v'], body), w = element(['.w'], body); w.isConnected = H.fork('there'); const ratio = new Map<any, any>([[v, 0], [w, 0]]);
  const T: any = { v5: ['element_visible', { selector: '.v', visibilityRatio: 0.5 }], v0: ['element_visible', { selector: '.v' }, true], w1: ['element_visible', { selector: '.w', visibilityRatio: 1 }], bad: ['element_visible', { selector: '<<' }] }; const c = await start(T); let done: any = {}; let added = w.isConnected;
  const look = async () => { await cross((e) => ratio.get(e)); for (const k of ['v5', 'v0', 'w1']) { const e = k === 'w1' ? w : v; const r = ratio.get(e); if (e.isConnected && (e === v || added) && H.conc(r > 0) && H.conc(r >= (T[k][1].visibilityRatio || 0))) done[k] = true; } };
  await look(); for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 4); if (op < 2) { ratio.set(op ? w : v, H.int('percent' + n, 0, 100) / 100); await look(); } else if (op === 2) { if (w.isConnected) continue; w.isConnected = true; await mutated(body, null, [w]); await wait(200); added = true; await look(); } else { await move(n); done = {}; await look(); }
    const want: any = { bad: false }; for (const k of ['v5', 'v0', 'w1']) want[k] = !!done[k] && at(T[k][2]); check(c, want, 'visible'); } }
async function scrolled(N: number) {
  begin(); const win: any = window; win.innerHeight = 500; win.scrollY = 0; (document as any).documentElement.scrollHeight = 1500; const P = H.int('percentage', 1, 100); const s = element(['.s']);
  const T: any = { p: ['scrolled_to', { mode: 'percent', percentage: P }], p50: ['scrolled_to', { mode: 'percent', percentage: 50 }, true], e0: ['scrolled_to', { mode: 'element', selector: '.s' }], e2: ['scrolled_to', { mode: 'element', selector: '.s', offsetPx: -200 }] }; const c = await start(T); let max: any = 0, done: any = {}; const TOP = 900; const margin = (o: any) => parseInt(/^0px 0px (-?\d+)px 0px$/.exec(o.rootMargin)![1], 10); const look = async () => { await cross((e, io) => H.conc(win.scrollY + 500 + margin(io.opts) > TOP) && H.conc(win.scrollY < TOP + 100) ? 1 : 0); for (const k of ['e0', 'e2']) if (H.conc(win.scrollY + 500 + (T[k][1].offsetPx || 0) > TOP) && H.conc(win.scrollY < TOP + 100)) done[k] = true; };
  await look(); let frame: any = null; for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 3); if (op === 2) { await move(n); max = 0; done = {}; } else { win.scrollY = H.int('y' + n, 0, 1000); dispatch('window', 'scroll'); if (frame === null) frame = clock.now + 16; } await look(); const to = clock.now + (op === 0 ? 16 : 5); await wait(op === 0 ? 16 : 5); if (frame !== null && frame <= to) { frame = null; const q = win.scrollY / 10; if (H.conc(q > max)) max = q; }
    const want: any = { e0: !!done.e0, e2: !!done.e2, p: H.conc(max >= P), p50: at(true) && H.conc(max >= 50) }; check(c, want, 'scrolled'); } }
export const histories: Record<string, (n: number) => any> = { clicks, pointing, time, exit, events, appeared, visible, scrolled };
export const cells: Record<string, any> = { clicks: () => clicks(3), pointing: () => pointing(3), time: () => time(4), exit: () => exit(3), events: () => events(3), appeared: () => appeared(3), visible: () => visible(3), scrolled: () => scrolled(3), clicks4: () => clicks(4), time5: () => time(5), visible4: () => visible(4), scrolled4: () => scrolled(4) };
export const meta = { thoroughOnly: ['clicks4', 'time5', 'visible4', 'scrolled4'], mustCover: ['clicks', 'hover', 'focus', 'time', 'exit', 'events', 'appeared', 'visible', 'scrolled'].flatMap((x) => ['active ' + x, 'inactive ' + x]), bounds: ['3 (thorough 4) steps each followed by any wait of up to 2.5 s: clicks on nested and other elements with delays of 0, 1 and 2 s; moving the pointer or focus among nested and other elements; 4 (5) steps of hiding, showing or navigating with waits up to 3.5 s against durations of 1 and 3 s; exits at any height of -20..200 and time against any minimum of 0..4 s; any event names of one of 3 characters and a property; adding, removing, hiding and showing elements with waits up to 250 ms; any percentage of an element in view against 3 ratios; any scroll position of 1000 and percentage, elements with 2 offsets; navigation at any step, conditions on the address'], assumptions: ['observers report changes as the standards say', 'an element which appears counts within 200 ms', 'between nested elements of one selector the pointer may count for either'] };
