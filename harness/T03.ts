// Impressions and consent: held while undecided, sent once on a grant, never after a refusal.
import { clock, timers, advance, log } from './lib/env';
import { consentGate } from 'repo:experiment-tag/src/consent/consent-gate';
import { wrapIntegrationTrack } from 'repo:experiment-tag/src/consent/consent-impression-buffer';
declare const H: any;
const ev = (n: number, time?: any) => ({ eventType: '$impression', eventProperties: { n, ...(time !== undefined ? { time } : {}) } });
function make(answers: (n: number) => number) { // 0 refuse, 1 accept, 2 throw
  const calls: any[] = []; const it: any = { type: 'integration', tag: {}, track(e: any) { H.assert(this === it && !!e, 'called on the integration, with an event', {}); const a = answers(calls.length); calls.push({ n: e.eventProperties.n, time: e.eventProperties.time, at: clock.now, a, st: consentGate.manager.getStatus() }); if (a === 2) throw new Error('integration'); return a === 1; } };
  wrapIntegrationTrack(it); return { it, calls };
}
const run = async (steps: number, kinds: string[]) => {
  consentGate.required = true; const script: any[] = []; const { it, calls } = make((n) => H.choose('answer' + n, 3));
  let held: number[] = [], status = 'pending', seq = 0; const direct: number[] = [], dropped: number[] = [], t: any = {}; let retryDue: number | null = null, acceptAll = false;
  const check = (from: number, what: string) => { for (const c of calls.slice(from)) { H.assert(c.st === 'granted', 'nothing is sent without consent', { c, what }); } };
  const attempt = (from: number) => { // what a delivery round must have done
    const round = calls.slice(from); let i = 0; for (; i < held.length; i++) { const c = round[i]; H.assert(c !== undefined && c.n === held[i], 'held impressions are offered in order', { held, round }); H.assert(H.eq(c.time, t[held[i]]), 'with the time they happened', { c, t }); if (c.a !== 1) { i++; break; } }
    H.assert(round.length === i, 'each once, up to the first refusal', { held, round }); const ok = round.filter((c) => c.a === 1).length; held = held.slice(ok); retryDue = held.length ? clock.now : null; };
  for (let s = 0; s < steps; s++) {
    const k = kinds[H.choose('op' + s, kinds.length)]; const from = calls.length; script.push(k);
    if (k === 'track') { const n = seq++; const own = H.fork('own' + n) ? H.int('time' + n, 0, 1000) : undefined; const e = ev(n, own); const frozen = JSON.stringify(e); t[n] = own === undefined ? clock.now : own; let r: any, threw = false; try { r = it.track(e); } catch { threw = true; }
      H.assert(H.eq(JSON.stringify(e), frozen), 'the event given is not changed');
      if (status === 'granted') { H.assert(calls.length === from + 1 && calls[from].n === n && H.eq(calls[from].time, own), 'passed on as is', calls); const a = calls[from].a; H.assert(threw === (a === 2) && (threw || r === (a === 1)), 'with the integration\'s answer', { r, a }); H.cover('direct'); }
      else { H.assert(calls.length === from && r === true, 'taken without being sent', { r }); if (status === 'pending') held.push(n); } }
    else if (k === 'grant' || k === 'deny') { const next = k === 'grant' ? 'granted' : 'denied'; const was = status; consentGate.manager.setStatus(next as any); status = next;
      if (was === next) H.assert(calls.length === from, 'nothing happens'); else if (next === 'granted') { if (was === 'pending') { if (held.length) { attempt(from); H.cover('flushed'); } } else { H.assert(calls.length === from, 'what was gathered before a refusal is not sent', { calls, script }); H.cover('regranted'); } }
      else { H.assert(calls.length === from, 'nothing is sent'); if (held.length) H.cover(was === 'granted' ? 'dropped later' : 'dropped'); held = []; retryDue = null; } }
    else { const d = k === 'wait' ? 1000 : 400; const until = clock.now + d; // a delivery round every second while something is left
      const t0 = clock.now; await advance(until, 1, 5); const at = calls.slice(from);
      if (status !== 'granted' || held.length === 0) H.assert(at.length === 0, 'nothing is sent', { at, held, status, script });
      else if (k === 'wait') { H.assert(at.length > 0, 'offered again within a second', { held, script }); const was = clock.now; attempt(from); H.cover('retried'); } else if (at.length) attempt(from); }
    check(from, k); if (!held.length) H.assert(timers.list.length === 0, 'nothing is retried with nothing left', { held, status, k });
  }
  H.observe([status, held, calls]);
};
async function full() { // the newest 512 are kept
  consentGate.required = true; const extra = H.choose('extra', 4); const { it, calls } = make(() => 1); for (let i = 0; i < 511 + extra; i++) it.track(ev(i, i)); consentGate.manager.setStatus('granted'); const first = Math.max(0, extra - 1);
  H.assert(calls.length === 511 + extra - first && calls.every((c, i) => c.n === i + first), 'the newest 512 in order', { n: calls.length, first: calls[0] }); H.observe(calls.length); H.cover('full'); await advance(clock.now + 3000, 1, 5); H.assert(calls.length === 511 + extra - first, 'once'); }
async function ungated() { consentGate.required = false; const { it, calls } = make((n) => H.choose('answer' + n, 3)); for (let i = 0; i < 3; i++) { const k = H.choose('k' + i, 4); if (k === 3) { consentGate.manager.setStatus('granted'); continue; } if (k === 2) { consentGate.manager.setStatus('denied'); continue; } if (k === 1) { const again = it.track; wrapIntegrationTrack(it); H.assert(it.track === again, 'wrapped once'); } const from = calls.length; let r: any = 'threw'; try { r = it.track(ev(i)); } catch { r = 'threw'; } H.assert(calls.length === from + 1 && H.eq(r, [false, true, 'threw'][calls[from].a]), 'passed on', r); H.cover('ungated'); } H.observe(calls); }
async function rewrap() { // wrapping again, as a second copy of the tag does, does not send twice
  consentGate.required = true; const { it, calls } = make(() => 1); it.track(ev(0)); wrapIntegrationTrack(it); it.track(ev(1)); consentGate.manager.setStatus('granted'); H.assert(H.eq(calls.map((c) => c.n), [0, 1]), 'each once', calls); it.track(ev(2)); H.assert(calls.length === 3, 'once'); H.observe(calls.length); H.cover('rewrap'); }
async function two() { // each integration keeps its own
  consentGate.required = true; const a = make((n) => H.choose('a' + n, 2)), b = make((n) => H.choose('b' + n, 2)); for (let i = 0; i < 3; i++) (H.fork('which' + i) ? a : b).it.track(ev(i)); consentGate.manager.setStatus('granted'); await advance(clock.now + 1000, 1, 5); await advance(clock.now + 1000, 1, 5); H.observe([a.calls.length, b.calls.length]);
  const acc = (x: any) => x.calls.filter((c: any) => c.a === 1).map((c: any) => c.n); H.assert(new Set([...acc(a), ...acc(b)]).size === acc(a).length + acc(b).length, 'no duplicates'); for (const x of [a, b]) { const s = acc(x); for (let i = 1; i < s.length; i++) H.assert(s[i] > s[i - 1], 'in order'); } H.cover('two'); }
export const cells: Record<string, any> = { 'any history': () => run(4, ['track', 'grant', 'deny', 'wait', 'pause']), 'deferred': async () => run(5, ['track', 'grant', 'deny', 'wait']), full, ungated, rewrap, two };
export const meta = { mustCover: ['direct', 'flushed', 'regranted', 'dropped', 'dropped later', 'retried', 'full', 'ungated', 'rewrap', 'two'], bounds: ['histories of 4 (thorough 5) among tracking, a grant, a refusal, a second and less than a second, every call of the integration accepting, refusing or throwing; events with or without their own time (any); 511..514 impressions; two integrations'], assumptions: ['the integration does not change consent itself'] };
