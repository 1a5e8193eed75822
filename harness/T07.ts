// Events for behavioral targeting: kept, counted, merged, persisted and forgotten.
import { clock, timers, localStorage, sessionStorage, cookies, advance, log, window, document, listeners, fire, blocked } from './lib/env';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { EventStorageManager } from 'repo:experiment-tag/src/behavioral-targeting/event-storage';
declare const H: any;
const KEY = 'client-abcdefghij', STORE = 'EXP_client-abc_rtbt_events';
const session = (get: () => any) => ({ getCurrentSessionId: get }) as any;
let us = 0; const uuid = { randomUUID: () => 'u' + us++ };
const mk = (ses: any = () => 's', persist?: Set<string>) => { (window as any).crypto = uuid; return new EventStorageManager(KEY, session(ses), persist); };
const stored = () => { const r = localStorage.raw(STORE); return r === null ? null : JSON.parse(r).events.map((e: any) => e.properties.n); };
const ns = (es: any[]) => es.map((e) => e.properties.n);
const rec = (n: any, o: any = {}) => ({ uuid: 'r' + n, id: 1, event_type: 'a', timestamp: 1, session_id: 's', properties: { n }, ...o });
function windows() { // counting within a session and within rolling hours or days
  let cur: any = 's'; const s = mk(() => cur); const evs: any[] = []; const T0 = clock.now; for (let i = 0; i < 3; i++) { const ty = H.id('type' + i, 2), ses = H.id('ses' + i, 2), at = H.int('at' + i, 0, 20 * 86400000); cur = ses; s.addEvent(ty, { n: i }, T0 + at); evs.push({ ty, ses, at }); }
  cur = H.id('now', 2); const now = H.int('clock', 0, 25 * 86400000); clock.now = T0 + now; const ty = H.id('ask', 2); const inSession = ns(s.getEventsInTimeWindow(ty, 'current_session', H.int('ignored', 0, 3))); const want = evs.map((e, i) => H.and(H.eq(e.ty, ty), H.eq(e.ses, cur)));
  want.forEach((w, i) => H.assert(H.iff(w, inSession.includes(i)), 'exactly the events of the session', { i, inSession })); H.observe(inSession);
  const v = H.int('value', 0, 30), unit = H.choose('unit', 3); const ms = v * (unit === 0 ? 86400000 : 3600000); const got = ns(s.getEventsInTimeWindow(ty, 'rolling', v, (['day', 'hour', undefined] as any)[unit])); H.observe(got);
  evs.forEach((e, i) => H.assert(H.iff(H.and(H.eq(e.ty, ty), now - e.at <= ms), got.includes(i)), 'exactly the events of the last hours or days', { i, got })); H.assert(s.getEventCountInTimeWindow(ty, 'rolling', v, (['day', 'hour', undefined] as any)[unit]) === got.length && s.getEventCount(ty) === s.getEventsByType(ty).length, 'counts'); H.cover('windows');
}
function fifo() { const extra = H.choose('extra', 4); const s = mk(); for (let i = 0; i < 498 + extra; i++) s.addEvent('a', { n: i }); const from = Math.max(0, extra - 2); const all = ns(s.getAllEvents()); H.observe(all.length); H.assert(all.length === 498 + extra - from && all[0] === from && all[all.length - 1] === 497 + extra, 'the newest 500 are kept', [all.length, all[0]]); s.flush(); H.assert(stored().length === all.length && stored()[0] === from, 'and stored'); H.cover('fifo'); }
async function persist() { // written half a second after the last change, or at once when the page is left or hidden
  const only = H.fork('only') ? new Set(['a']) : undefined; const s = mk(() => 's', only); let want: number[] = [], disk: any = null, last: any = null, n = 0; const due = () => { if (last !== null && clock.now - last >= 500) { disk = [...want]; last = null; } };
  for (let i = 0; i < 4; i++) { const k = H.choose('k' + i, 4); if (k === 0) { const ty = H.fork('ty' + i) ? 'b' : 'a'; s.addEvent(ty, { n }); if (!only || ty === 'a') { want.push(n); last = clock.now; } n++; }
    if (k === 1) { const d = [499, 500, 250][H.choose('d' + i, 3)]; const until = clock.now + d; const end = last === null ? null : last + 500; await advance(until, 1, 5); if (end !== null && end <= until) { disk = [...want]; last = null; } }
    if (k === 2) { const how = H.choose('how' + i, 3); const ty = how === 0 ? 'beforeunload' : 'visibilitychange'; (document as any).visibilityState = how === 1 ? 'hidden' : 'visible'; for (const l of listeners.slice()) if (l.type === ty) l.fn({ type: ty }); if (how < 2 && last !== null) { disk = [...want]; last = null; H.cover('left'); } }
    if (k === 3) { s.clearEvents(); want = []; disk = []; last = null; H.cover('cleared'); }
    H.assert(H.eq(stored(), disk), 'the stored events', { stored: stored(), disk, i, k }); H.assert(H.eq(ns(s.getAllEvents()), want), 'the events'); }
  s.cleanup(); if (last !== null) disk = [...want]; H.assert(H.eq(stored(), disk), 'written when torn down'); H.assert(!listeners.some((l: any) => l.type === 'beforeunload' || l.type === 'visibilitychange'), 'no listener is left'); const again = mk(() => 's', only); H.assert(H.eq(ns(again.getAllEvents()), disk || []), 'read back by the next page', ns(again.getAllEvents())); H.observe(disk); H.cover('persisted'); }
function load() { // whatever is stored, loading survives it, and old records get a lasting identity
  const k = H.choose('k', 8); const docs: any = ['{', 'null', '5', '{"events":[]}', '{"events":{},"nextId":1}', '{"nextId":2}', null]; if (k < 7) { if (docs[k] !== null) localStorage.put(STORE, docs[k]); const s = mk(); H.assert(s.getAllEvents().length === 0, 'nothing usable'); s.addEvent('a', { n: 1 }); H.assert(ns(s.getAllEvents()).length === 1, 'works'); s.flush(); H.assert(H.eq(stored(), [1]), 'stored'); H.cover('unusable'); return; }
  const evs: any[] = []; for (let i = 0; i < 3; i++) { const e: any = rec(i, { timestamp: H.int('t' + i, 0, 9) }); const u = H.choose('u' + i, 4); if (u === 0) delete e.uuid; if (u === 1) e.uuid = ''; if (u === 2) e.uuid = 5; evs.push(e); } localStorage.put(STORE, JSON.stringify({ events: evs, nextId: 4 })); const a = mk(); const ids = a.getAllEvents().map((e) => e.uuid); H.observe(ids.length); H.assert(H.eq(ns(a.getAllEvents()), [0, 1, 2]), 'all kept'); H.assert(new Set(ids).size === 3 && ids.every((x) => typeof x === 'string' && x !== ''), 'distinct identities', ids); const b = mk(); H.assert(H.eq(b.getAllEvents().map((e) => e.uuid), ids), 'the same on the next page', [ids, b.getAllEvents().map((e) => e.uuid)]); H.cover('identities'); }
function merge() { // the union by identity, ordered by time
  const s = mk(); const local: any[] = [], remote: any[] = []; const T = (n: string) => H.int(n, 0, 5); localStorage.put(STORE, 'x'); const s2: any = s; for (let i = 0; i < 2; i++) local.push(rec('l' + i, { uuid: 'id' + i, timestamp: T('l' + i), id: 1 + i })); localStorage.put(STORE, JSON.stringify({ events: local, nextId: 3 })); const m = mk();
  for (let i = 0; i < 2; i++) remote.push(rec('r' + i, { uuid: 'id' + H.choose('rid' + i, 4) + (i ? '' : ''), timestamp: T('r' + i), id: H.int('rn' + i, 1, 9) })); if (H.eq(remote[0].uuid, remote[1].uuid)) { H.cover('duplicate'); } const nx = H.int('next', 1, 12); m.mergeFromRelay({ events: remote, nextId: nx } as any); const got = m.getAllEvents(); H.observe(got);
  const ids = [...new Set([...local, ...remote].map((e) => e.uuid))]; H.assert(got.length === ids.length && new Set(got.map((e) => e.uuid)).size === ids.length, 'each event once', got); for (const e of got) { const r = remote.filter((x) => x.uuid === e.uuid).pop(); H.assert(H.eq(e, r || local.find((x) => x.uuid === e.uuid)), 'the relay\'s copy if there is one', e); } for (let i = 1; i < got.length; i++) H.assert(got[i - 1].timestamp <= got[i].timestamp, 'in order of time', got);
  const before = got.map((e) => e.id); m.addEvent('a', { n: 'new' }); const id = m.getAllEvents()[m.getAllEvents().length - 1].id; for (const b of before) H.assert(id > b, 'later events get larger numbers', { id, b }); m.mergeFromRelay({ events: remote, nextId: nx } as any); H.assert(m.getAllEvents().length === ids.length + 1, 'merging again changes nothing'); m.flush(); H.assert(JSON.parse(localStorage.raw(STORE)).events.length === ids.length + 1, 'stored'); H.cover('merged'); }
function mergeFull() { const extra = H.choose('extra', 3); const s = mk(); for (let i = 0; i < 300; i++) s.addEvent('a', { n: i }, 2 * i); s.mergeFromRelay({ events: Array.from({ length: 199 + extra }, (_, i) => rec('r' + i, { uuid: 'r' + i, timestamp: 2 * i + 1 })), nextId: 1 } as any); const all = s.getAllEvents(); H.assert(all.length === Math.min(500, 499 + extra), 'at most 500', all.length); H.assert(all[0].timestamp === (extra === 2 ? 1 : 0), 'the newest', all[0]); H.observe(all.length); H.cover('merge full'); }
async function consent() { // events of a page without consent
  consentGate.required = true; const start = H.choose('start', 2); if (start) consentGate.manager.setStatus('granted'); let status = start ? 'granted' : 'pending'; const old = H.fork('old'); if (old) localStorage.put(STORE, JSON.stringify({ events: [rec('old', { timestamp: 0 })], nextId: 2 })); const sent: any[] = []; const relay: any = { writeEvent: (e: any) => sent.push([e.properties.n, status]), flush() { sent.push(['flush', status]); } }; const s = mk(); s.setRelayClient(relay);
  let disk: any = old ? ['old'] : null, refused: any[] = [], n = 0; let dirty = false; let mem: any[] = start && old ? ['old'] : [];
  for (let i = 0; i < 5; i++) { const k = H.choose('k' + i, 4); log.length = 0; if (k === 0) { s.addEvent('a', { n }, 10 + n); if (status === 'denied') refused.push(n); else mem.push(n); n++; } if (k === 1) { await advance(clock.now + 500, 1, 4); for (const l of listeners.slice()) if (l.type === 'beforeunload') l.fn({ type: l.type }); }
    if (k > 1) { const next = k === 2 ? 'granted' : 'denied'; const was = status; if (was === next) continue; status = next; consentGate.manager.setStatus(next as any); if (next === 'denied') { localStorage.drop(STORE); refused.push(...mem); mem = []; H.cover('refused'); } else if (was === 'pending') { if (old) mem = ['old', ...mem]; H.assert(mem.length === 0 || H.eq(stored(), mem), 'on a grant what was held joins what was stored', { stored: stored(), mem }); H.cover('granted'); } else H.cover('granted again'); }
    if (status !== 'granted') H.assert(log.every((l: any) => l[2] !== STORE || l[0] === 'remove'), 'the stored events are not touched without consent', log);
    for (const x of stored() || []) H.assert(status === 'pending' || !refused.includes(x), 'what came before or during a refusal is never stored', { x, stored: stored(), status }); for (const [x, st] of sent) H.assert(st !== 'denied', 'nothing is shared after a refusal', sent); }
  if (status === 'granted') { s.flush(); for (const x of mem) H.assert((stored() || []).includes(x), 'what was consented to is stored', { mem, stored: stored() }); for (const x of refused) H.assert(!(stored() || []).includes(x), 'what came before or during a refusal is never stored', { x, stored: stored() }); } H.observe([status, stored(), sent]); }
export const cells: Record<string, any> = { windows, fifo, persist, load, merge, mergeFull, consent };
export const meta = { mustCover: ['windows', 'fifo', 'left', 'cleared', 'persisted', 'unusable', 'identities', 'duplicate', 'merged', 'merge full', 'refused', 'granted', 'granted again'], bounds: ['3 events of 2 types and 2 sessions at any time within 20 days, asked for at any time within 25 days for any 0..30 hours or days; 498..501 events; 4 steps of adding, waiting 250, 499 or 500 ms, hiding or leaving the page, clearing; 8 unusable or old stored contents; merging two stored with two shared events of any times, coinciding or not; 5 steps of events, waiting and consent decisions'], assumptions: ['random identities are distinct', 'clock does not go back'] };
