// Helpers given to injected code: waiting for an element, and keeping one in the page.
import './lib/env';
import { KEY, flag, pageObject, configs, integration, clock, advance, document, go, timers, page, changed, browser, element, spa, inject, mutations } from './lib/tag';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
import { getInjectUtils } from 'repo:experiment-tag/src/util/inject-utils';
declare const H: any;
const O = 'https://example.com';
// a small document: body > .par > .sib
let body: any, par: any, sib: any, inserts: any[], mine: any;
const within = (e: any) => { for (let x = e; x; x = x.parentNode) if (x === body) return true; return false; };
const build = () => { browser(); page.els.length = 0; inserts = []; body = element(['body']); const node = (sels: string[]) => { const e: any = element(sels); Object.defineProperty(e, 'isConnected', { get: () => within(e) || e.ownerDocument !== document, configurable: true }); e.kids = []; e.insertBefore = (c: any, before: any) => { H.assert(mutations.paused === 1, 'the mutation engine is paused while inserting', {}); if (before && !e.kids.includes(before)) throw new Error('NotFoundError'); if (c.parentNode) c.parentNode.kids = c.parentNode.kids.filter((x: any) => x !== c); c.parentNode = e; c.ownerDocument = document; const i = before ? e.kids.indexOf(before) : -1; if (i < 0) e.kids.push(c); else e.kids.splice(i, 0, c); inserts.push(clock.now); }; return e; }; body.kids = []; Object.defineProperty(body, 'isConnected', { value: true }); par = node(['.par']); sib = node(['.sib']); mine = node(['.mine']); (document as any).documentElement.connected = true; };
const put = (e: any, where: any, at?: any) => { take(e); e.parentNode = where; const i = at ? where.kids.indexOf(at) : -1; if (i < 0) where.kids.push(e); else where.kids.splice(i, 0, e); };
const take = (e: any) => { if (e.parentNode) e.parentNode.kids = e.parentNode.kids.filter((x: any) => x !== e); e.parentNode = null; };
const mutated = async (e: any = null) => { changed(e || body, e ? 'data-x' : null); await H.settle(3); };
const has = (e: any) => within(e) && e.sels.length > 0;
const turn = async (e: any, sel: string, n: number) => { if (within(e) && (n % 2 || !e.sels.length)) { e.sels = e.sels.length ? [] : [sel]; H.cover('by attribute'); await mutated(e); } else { if (within(e)) take(e); else put(e, body); await mutated(); } };
const recent = () => inserts.filter((t: any) => H.conc(clock.now - t < 1000)).length;
async function keep(N: number, needsSib: boolean) {
  build(); const state = { cancelled: false }; const other = H.fork('other document'); if (other) mine.ownerDocument = {}; const there = H.choose('there', 4); if (there > 0) put(par, body); if (there > 1) put(sib, par); if (there > 2) par.sels = []; let called = 0, resolved = 0; const utils = getInjectUtils(state);
  const opts = { parentSelector: '.par', insertBeforeSelector: needsSib ? '.sib' : null }; const promise = utils.insertElement(mine, opts, !other ? () => { called++; } : undefined as any); void promise.then(() => { resolved++; }); await H.settle(3);
  const check = (info: any) => { const can = has(par) && (!needsSib || sib.parentNode === par); const placed = mine.ownerDocument === document && within(mine); H.observe([inserts.length, placed, resolved]);
    if (state.cancelled) return; if (can && info.max < 10 && !info.was) H.assert(placed, 'the element is in the page whenever its place is and it changed', { info, inserts }); if (placed && inserts.length > info.before) { H.assert(mine.parentNode === par, 'in its parent', {}); H.assert(needsSib ? par.kids.indexOf(mine) === par.kids.indexOf(sib) - 1 : par.kids.indexOf(mine) === par.kids.length - 1, 'before its sibling, or last', { kids: par.kids.map((k: any) => k.sels) }); H.cover('placed'); } if (placed) H.cover('in page'); else H.cover('not yet');
    H.assert((resolved > 0) === (inserts.length > 0), 'the promise is resolved when first inserted', { resolved, inserts }); H.assert(mutations.paused === 0, 'and the engine runs', {}); };
  check({ max: 0, was: inserts.length > 0, before: 0 });
  for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 6); const before = inserts.length; let max = recent(), was = mine.ownerDocument === document && within(mine);
    if (op === 0) await turn(par, '.par', n); else if (op === 1) { if (sib.parentNode === par) put(sib, body); else if (sib.parentNode) put(sib, par); else put(sib, n % 2 ? body : par); await mutated(); }
    else if (op === 2) { const times = [1, 10, 12][H.choose('times' + n, 3)]; for (let i = 0; i < times; i++) { take(mine); was = false; max = recent(); await mutated(); } } else if (op === 3) { const times = 11; for (let i = 0; i < times; i++) { await mutated(); } max = 0; was = mine.ownerDocument === document && within(mine) || recent() >= 10; }
    else if (op === 4) { state.cancelled = true; take(mine); await mutated(); } else { await advance(clock.now + H.int('wait' + n, 0, 1500), 1, 40); continue; }
    for (let i = 0; i + 10 < inserts.length; i++) H.assert(inserts[i + 10] - inserts[i] >= 1000, 'at most 10 times within a second', { inserts, i }); if (inserts.length >= 10 && max >= 10) H.cover('limited');
    if (state.cancelled) { H.assert(inserts.length === before || op !== 4, 'nothing is inserted after the injection is taken back', {}); const k = inserts.length; par.sels = ['.par']; put(par, body); put(sib, par); take(mine); await mutated(); await advance(clock.now + 1200, 1, 40); await mutated(); H.assert(inserts.length === k, 'ever', {}); H.assert(page.mo.every((m: any) => !m.on), 'and the document is no longer watched', {}); H.cover('cancelled'); return; }
    check({ op, max, was: was && op !== 2, before }); }
  if (called) H.assert(called === inserts.length, 'the callback follows every insertion', { called, inserts: inserts.length }); }
async function pace() { build(); put(par, body); const u = getInjectUtils({ cancelled: false }); void u.insertElement(mine, { parentSelector: '.par', insertBeforeSelector: null }); await H.settle(3); for (let n = 0; n < 3; n++) { const w = H.int('wait' + n, 0, 1500); await advance(clock.now + w, 1, 40); for (let i = 0; i < [9, 10, 4][n]; i++) { const free = recent() < 10; take(mine); await mutated(); H.assert(within(mine) === free, 'it is put back unless that was done 10 times within the last second', { n, i, inserts }); } H.observe(inserts.length); H.cover('paced'); } }
async function waiting(N: number) {
  build(); const state = { cancelled: false }; const there = H.choose('there', 3); if (there) put(par, body); if (there > 1) par.sels = []; const extra = H.fork('two'); let got: any[] = []; const u = getInjectUtils(state); void u.waitForElement('.par').then((e: any) => { got.push(e); }); if (extra) void u.waitForElement('.sib').then((e: any) => { got.push(e); }); await H.settle(3); let want = has(par) ? [par] : [], done = has(par), doneSib = false;
  for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 5); if (op === 4) await advance(clock.now + 5000, 1, 10); else { if (op === 0) await turn(par, '.par', n); else { if (op === 1) { if (sib.parentNode) take(sib); else put(sib, body); } else if (op === 3) state.cancelled = true; await mutated(); } if (!state.cancelled) { if (!done && has(par)) { done = true; want.push(par); } if (extra && !doneSib && within(sib)) { doneSib = true; want.push(sib); } } }
    H.observe(got.map((e: any) => e.sels[0])); H.assert(got.length === want.length && got.every((e: any, i: number) => e === want[i]), 'the element is given once it is in the page, and once', { got: got.map((e: any) => e.sels), want: want.map((e: any) => e.sels) }); if (state.cancelled) { H.assert(page.mo.every((m: any) => !m.on), 'watching ends', {}); H.cover('cancelled wait'); } else if (done && (!extra || doneSib)) { H.assert(page.mo.every((m: any) => !m.on), 'watching ends when found', {}); H.cover('found'); } else H.cover('waiting'); } }
// an insertion which cannot be done, or whose callback fails, leaves the engine of the other mutations running
async function failing() { build(); const inner: any = element(['.in']); inner.kids = []; put(par, body); put(inner, par); const nested = H.fork('nested'), late = H.fork('late'), throwing = !nested || H.fork('throwing'); if (!late) put(sib, nested ? inner : par); let calls = 0; const u = getInjectUtils({ cancelled: false }); u.insertElement(mine, { parentSelector: '.par', insertBeforeSelector: '.sib' }, () => { calls++; if (throwing) throw new Error('callback'); }).catch(() => undefined); await H.settle(3); if (late) { put(sib, nested ? inner : par); try { await mutated(); } catch { H.cover('fails late'); } }
  H.observe([calls, within(mine)]); H.assert(mutations.paused === 0, 'the engine runs although an insertion fails', { nested, late }); H.assert(within(mine) === !nested, 'it is in its place if there is one', { nested }); H.cover('fails'); }
// through the client: each injection has helpers of its own, which end with it
async function client(N: number) {
  build(); go(O + '/a'); integration(); const utils: Record<string, any> = {}; const got: string[] = []; page.onInject = (html: any, u: any, id: string) => { utils[id] = u; void u.waitForElement('.par').then(() => { got.push(id); }); const e: any = element(['.new' + id]); Object.defineProperty(e, 'isConnected', { get: () => within(e), configurable: true }); e.kids = []; void u.insertElement(e, { parentSelector: '.par', insertBeforeSelector: null }); u.el = e; };
  const flags = [flag('f', 'on', { on: [inject('i1', ['A'])] }), flag('g', 'on', { on: [inject('i2', ['B'])] })]; const on = (v: string) => [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [v] }]];
  const c: any = DefaultWebExperimentClient.getInstance(KEY, configs(flags, { f: { A: pageObject('A', 'url_change', {}, on('/a')) }, g: { B: pageObject('B', 'url_change', {}, on('/b')) } }), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) } } as any); await c.start(); await H.settle(40); timers.list = timers.list.filter((t: any) => !t.interval); let here = '/a', runs = 1; let el = utils.i1.el;
  for (let n = 0; n < N; n++) { const op = H.choose('op' + n, 3); if (op === 0) { here = here === '/a' ? '/b' : '/a'; const old = el; const gone = () => { take(old); }; spa(here); await H.settle(25); gone(); el = utils[here === '/a' ? 'i1' : 'i2'].el; runs++; await mutated(); H.assert(!within(old), 'an element of an injection taken back stays away', { here }); } else if (op === 1) { if (within(par)) take(par); else put(par, body); await mutated(); } else { take(el); await advance(clock.now + 200, 1, 10); await mutated(); }
    H.observe([here, within(el), got.length]); H.assert(within(el) === within(par), 'each keeps its own element in the page', { here, n }); if (within(el)) H.cover('client'); if (n && within(el) && here === '/b') H.cover('client moved'); H.assert(page.runs === runs, 'and runs once per visit', { runs: page.runs }); } }
export const cells: Record<string, any> = { last: () => keep(3, false), sibling: () => keep(3, true), pace, failing, waiting: () => waiting(4), client: () => client(3), last4: () => keep(4, false), waiting5: () => waiting(5), client4: () => client(4) };
export const meta = { thoroughOnly: ['last4', 'waiting5', 'client4'], mustCover: ['placed', 'in page', 'not yet', 'limited', 'paced', 'cancelled', 'found', 'waiting', 'by attribute', 'cancelled wait', 'fails', 'fails late', 'client', 'client moved'], bounds: ['3 (thorough 4) steps: the parent or sibling coming or going, the element taken away or the document changing up to 12 times at once, waits up to 1.5 s, taking the injection back; 4 (5) steps of waiting for two elements; an insertion which fails at once or later; two injections over 3 (4) navigations and changes'], assumptions: ['changes are told to the observers which asked for them'] };
