// Redirects: once, to the right address, never in a loop, and always leaving what the destination needs.
import './lib/env';
import { KEY, flag, mut, redirect, pageObject, configs, integration, clock, advance, setGlobal, window, location, go, live, page, browser, spa, dispatch, listeners, sessionStorage, cookies } from './lib/tag';
import { campaign } from '@amplitude/analytics-core';
import { DefaultWebExperimentClient } from 'repo:experiment-tag/src/experiment';
declare const H: any;
const O = 'https://example.com', RED = 'EXP_client-abc_REDIRECT';
const load = async (flags: any[], pages: any, cfg: any = {}, handler?: any) => { (window as any).webExperiment = undefined; listeners.length = 0; browser(); const c: any = DefaultWebExperimentClient.getInstance(KEY, configs(flags, pages), { useDefaultNavigationHandler: true, httpClient: { request: async () => ({ status: 200, body: '[]' }) }, ...cfg } as any); if (handler) c.setRedirectHandler(handler); await c.start(); await H.settle(50); return c; };
const at = (part: string) => [[{ selector: ['context', 'page', 'url'], op: 'contains', values: [part] }]];
// whether and where to: the page is in scope and the destination is elsewhere
async function decide() {
  const dots = (n: string, k: number, l: string[]) => l[H.choose(n, k)]; const path = dots('path', 2, ['/a', '/b']), q = dots('query', 5, ['', '?x=1', '?x=2&y=1', '?y=%20z', '?x=1&x=2&x=']), hash = dots('hash', 2, ['', '#h']); const tp = dots('to path', 2, ['/b', '/a']), tq = dots('to query', 3, ['', '?x=1', '?x=2']), th = dots('to hash', 3, ['', '#h', '#k']); const host = H.fork('other host') ? 'https://shop.example.com' : O; const cond = H.str('part', { min: 1, max: 2, alpha: '/abz' }); const scoped = H.fork('scoped'), soft = H.fork('handler'); go(O + path + q + hash); integration(); const sent: string[] = [];
  const to = host + tp + tq + th; const c = await load([flag('f', 'on', { on: [redirect(to, scoped ? ['p'] : undefined), redirect(O + '/second')] }), flag('g', 'on', { on: [redirect(O + '/third')] })], { f: { p: pageObject('p', 'url_change', {}, at(cond)), n: pageObject('n', 'manual', { name: 'N' }) }, g: { p: pageObject('p', 'url_change', {}, at('/never')) } }, {}, soft ? (u: string) => { sent.push(u); } : undefined); if (!soft) sent.push(...location.replaced);
  const here = new URL(location.href), t = new URL(to); for (const k of ['x', 'y']) if (!new URL(to).searchParams.has(k) && here.searchParams.has(k)) for (const val of here.searchParams.getAll(k)) t.searchParams.append(k, val); const active = H.conc(here.href.includes(cond)); const there = here.href === t.href || (!t.hash && here.href.replace(/#.*$/, '') === t.href); H.observe(sent); const want = !active ? [] : there ? [O + '/second' + here.search] : [t.href];
  H.assert(sent.length === want.length && sent.every((u, i) => new URL(u).href === new URL(want[i]).href || (want[i].startsWith(O + '/second') && u.startsWith(O + '/second'))), 'one redirect, to the right address', { sent, want, there, active }); H.assert(c.isRunning && c.isRedirecting === want.length > 0, 'the start completes', c.isRedirecting); if (want.length) { const s = JSON.parse(sessionStorage.raw(RED) || '{}'); H.assert(H.eq(Object.keys(s), ['f']) && s.f.variantKey === 'on' && s.f.redirectUrl === (there ? O + '/second' : to), 'its impression is kept for the destination', s); H.cover('redirected'); } else { H.assert(sessionStorage.raw(RED) === null, 'no impression'); H.cover('not in scope'); } if (there) H.cover('already there'); }
// what undoes a redirect without the visitor ends it for the session; a visitor who returns is redirected again
async function loops(N: number) {
  const soft = H.fork('soft'), SRC = O + '/a?z=1', OTHER = O + '/c', params = H.fork('params'); const to = params ? O + '/a?v=1' : O + '/b', TGT = params ? O + '/a?v=1&z=1' : O + '/b?z=1'; integration(); let sent: string[] = []; const flags = [flag('f', 'on', { on: [redirect(to)] })], pages = { f: { p: pageObject('p', 'url_change', {}, at('/a')) } }; const handler = soft ? (u: string) => { sent.push(u); } : undefined; let marker: any = null, sup = false, pending = false, total = 0;
  const settle = async () => { await H.settle(40); const got = [...sent, ...location.replaced]; let want = false; if (location.href === SRC && !sup) { if (marker) { sup = true; marker = null; H.cover('undone by the app'); } else want = true; } H.observe(got); H.assert(H.eq(got, want ? [TGT] : []), 'redirected unless undone before', { got, want, sup, marker }); if (want) { marker = { landed: false }; total++; } sent = []; location.replaced.length = 0; pending = want; };
  const hard = async (u: string) => { go(u); if (marker) { if (u === TGT) { if (marker.landed) marker = null; else marker.landed = true; } else { if (u === SRC && !marker.landed) { sup = true; H.cover('undone by the server'); } marker = null; } } await load(flags, pages, {}, handler); await settle(); };
  const soften = async (u: string) => { if (location.href !== u) { spa(u); await settle(); } };
  await hard(SRC); for (let i = 0; i < N; i++) {
    if (pending) { pending = false; const turned = H.fork('turned' + i); if (soft) { await soften(TGT); if (turned) await soften(SRC); } else await hard(turned ? SRC : TGT); continue; }
    const op = H.choose('op' + i, 6); if (op === 0) await soften(SRC); else if (op === 1) { dispatch('window', ['pointerdown', 'keydown', 'popstate'][H.choose('by' + i, 3)]); marker = null; } else if (op === 2) await soften(OTHER); else if (op === 3) await hard(location.href); else if (op === 4) await hard(SRC); else await soften(TGT); }
  const st = JSON.parse(sessionStorage.raw('EXP_client-abc_REDIRECT_SUPPRESSED') || '[]'); H.assert(H.eq(st, sup ? ['f'] : []), 'remembered for the session', st); if (total > 1) H.cover('again'); H.cover('loops'); }
// what the destination on another subdomain gets, whatever the names
async function handover() {
  go(O + '/a?k=1'); integration(); campaign.value = { utm_source: 'news' }; const inUrl = H.fork('address'), inCookie = H.fork('cookie'), cross = H.fork('cross'); const text = H.str('text', { max: 2, alpha: 'a"\\é中%+' }); const before = H.fork('before'); const to = (cross ? 'https://shop.example.com' : O) + '/b' + (before ? '?AMP_REDIRECT=' + encodeURIComponent(btoa(JSON.stringify({ e: { redirectUrl: 'https://e.com/', variantKey: 'x' } }))) : ''); const f = flag('f', 'on', { on: [redirect(to)] }, { variantMetadata: { note: text, experimentKey: 'exp' } });
  const c = await load([f], { f: { p: pageObject('p', 'url_change', {}, at('/a')) } }, { redirectConfig: { encodeRedirectInUrl: inUrl, encodeRedirectInCookie: inCookie } }); const sent = location.replaced.slice(); H.assert(sent.length === 1 && c.isRunning, 'redirected', sent); const mk: any = cookies.jar.find((x: any) => x.name === 'AMP_MKTG_ORIGINAL_client-abc'); H.assert(mk && mk.domain === 'example.com' && decodeURIComponent(mk.value).includes('news'), 'the campaign is kept for the destination', mk); const u = new URL(sent[0]); H.assert(u.searchParams.get('k') === '1' && u.pathname === '/b', 'with the parameters of the page', sent); const enc = u.searchParams.get('AMP_REDIRECT'); H.observe(enc); const dec = enc ? JSON.parse(atob(enc)) : {}; H.assert(inUrl && cross ? !!dec.f : !dec.f, 'the address tells the impression', { dec, inUrl, cross }); H.assert(before === !!dec.e, 'and keeps another one', dec); const ck: any = cookies.jar.find((x: any) => x.name === RED); H.assert(inCookie && cross ? !!ck && ck.domain === 'example.com' : !ck, 'so does the cookie', ck);
  const imps = [JSON.parse(sessionStorage.raw(RED) || '{}').f, ...(dec.f ? [dec.f] : []), ...(ck ? [JSON.parse(decodeURIComponent(ck.value)).f] : [])]; for (const im of imps) H.assert(H.eq(im.metadata.note, text) && im.variantKey === 'on' && im.expKey === 'exp' && im.redirectUrl === to, 'its contents', { im, text }); if (dec.f) H.cover('encoded'); if (ck) H.cover('cookie');
  // and there
  go(sent[0]); if (cross) sessionStorage.drop(RED); location.replaced.length = 0; const evs = integration(); await load([f], { f: { p: pageObject('p', 'url_change', {}, at('/a')) } }, { redirectConfig: { encodeRedirectInUrl: inUrl, encodeRedirectInCookie: inCookie } }); await advance(clock.now + 3000, 20, 20); const got = evs.filter((e: any) => e.eventProperties.flag_key === 'f'); H.assert(got.length === (cross && !inUrl && !inCookie ? 0 : 1) && got.every((e: any) => e.eventProperties.variant === 'on' && H.conc(H.eq(e.eventProperties.metadata.note, text))), 'tracked once at the destination', got); H.cover('handover'); }
// a navigation which fails
async function failing() {
  go(O + '/a'); integration(); const how = H.choose('how', 3); let n = 0; const fail = () => { n++; throw new Error('no'); }; const old = location.replace; if (how === 0) (location as any).replace = fail; const f = flag('f', 'on', { on: how === 2 ? [redirect('//')] : [redirect(O + '/b')] }); const c = await load([f, flag('g', 'on', { on: [mut('g')] })], { f: { p: pageObject('p') }, g: { p: pageObject('p') } }, {}, how === 1 ? fail : undefined); H.assert(c.isRunning && !c.isRedirecting && live().includes('g'), 'the page goes on', live()); H.assert(JSON.parse(sessionStorage.raw('EXP_client-abc_REDIRECT_MARKER') || '{}').f === undefined, 'no record of it'); if (how < 2) { (location as any).replace = old; const sent: string[] = []; c.setRedirectHandler((u: string) => sent.push(u)); await c.applyVariants(); await H.settle(20); H.assert(H.eq(sent, [O + '/b']), 'and may be tried again', sent); } H.cover('failing'); }
// evaluations while a redirect is being prepared, and another redirect meanwhile
async function meanwhile() {
  go(O + '/a'); integration(); const inCookie = H.fork('cookie'), soft = H.fork('handler'), n = H.int('evaluations', 0, 2), gap = H.int('after', 0, 12); const sent: string[] = []; const c: any = DefaultWebExperimentClient; (window as any).webExperiment = undefined; listeners.length = 0; browser(); const k: any = c.getInstance(KEY, configs([flag('f', 'on', { on: [redirect('https://shop.example.com/b')] }), flag('g', 'on', { on: [redirect(O + '/c')] })], { f: { p: pageObject('p') }, g: { p: pageObject('p') } }), { useDefaultNavigationHandler: true, redirectConfig: { encodeRedirectInCookie: inCookie }, httpClient: { request: async () => ({ status: 200, body: '[]' }) } } as any); if (soft) k.setRedirectHandler((u: string) => { sent.push(u); });
  const done = k.start(); await H.settle(20 + H.conc(gap)); for (let i = 0; i < H.conc(n); i++) k.applyVariants(); await done; await H.settle(60); const all = [...sent, ...location.replaced]; H.observe(all); H.assert(H.eq(all, ['https://shop.example.com/b']), 'one navigation', all); const st = JSON.parse(sessionStorage.raw(RED) || '{}'); H.assert(H.eq(Object.keys(st), ['f']), 'and its impression only', st); H.cover('meanwhile'); }
// session records of redirects which were damaged
async function damaged() {
  const FORMS = ['"abc"', '"f"', '[1]', '7', 'true', 'null', '{bad', '{"f":null}', '{}', '{"f":{}}', '{"f":"x"}']; const KEYS = ['_REDIRECT_MARKER', '_REDIRECT_SUPPRESSED', '_REDIRECT', '']; const key = KEYS[H.choose('key', 4)], form = FORMS[H.choose('form', FORMS.length)]; const inCookie = H.fork('cookie'); go(O + '/a'); integration(); if (key) sessionStorage.put('EXP_client-abc' + key, form); else cookies.jar.push({ name: RED, value: encodeURIComponent(form), domain: 'example.com', attrs: {} } as any);
  const c = await load([flag('f', 'on', { on: [redirect('https://shop.example.com/b')] })], { f: { p: pageObject('p') } }, { redirectConfig: { encodeRedirectInCookie: inCookie } }); const all = location.replaced.slice(); H.observe(all); H.assert(c.isRunning && H.eq(all, ['https://shop.example.com/b']), 'redirected once', { all, key, form }); const st = JSON.parse(sessionStorage.raw(RED) || '{}'); H.assert(st.f && st.f.variantKey === 'on' && st.f.redirectUrl === 'https://shop.example.com/b', 'its impression', st); if (inCookie) { const ck: any = cookies.jar.find((x: any) => x.name === RED); const k = ck && JSON.parse(decodeURIComponent(ck.value)); H.assert(k && k.f && k.f.variantKey === 'on', 'also in the cookie', ck); } H.cover('damaged'); }
export const cells: Record<string, any> = { decide, loops: () => loops(4), loops5: () => loops(5), handover, failing, meanwhile, damaged };
export const meta = { thoroughOnly: ['loops5'], mustCover: ['redirected', 'not in scope', 'already there', 'undone by the server', 'undone by the app', 'again', 'loops', 'encoded', 'cookie', 'handover', 'failing', 'meanwhile', 'damaged'], bounds: ['2 paths, 5 queries and 2 fragments against 2 paths, 3 queries and 3 fragments on 2 hosts, any page condition of 1 or 2 characters of /abz; 4 (thorough 5) steps of being turned back, loading, acting, navigating to 3 addresses, by handler or by the browser, target differing in path or parameters; texts up to 2 characters in the impression, on the same or another subdomain, with or without one there already; navigation failing in 3 ways; up to 2 further evaluations at 13 moments while redirecting', '11 damaged session records of markers, suppressed redirects and impressions, or cookies'], assumptions: ['the browser decodes addresses as the URL standard says'] };
