// Event bridge: events wait for the receiver, in order, at most 512 of them, and are delivered once.
import './lib/env';
import { AnalyticsConnector } from 'repo:analytics-connector/src/index';
declare const H: any;
let made = 0; const bridge = () => { const c: any = (AnalyticsConnector as any).getInstance('e' + made++); return c.eventBridge; };
function history(n: number) { // log / set a receiver, which may itself log further events while handling one
  const b = bridge(); const sent: string[] = [], got: any[] = []; let cur = ''; let extra = 0; const pending: string[] = [];
  const mk = (name: string, echo: boolean) => (e: any) => { got.push([name, e.eventType]); if (echo && e.eventType[0] === 'n' && extra < 2) { const x = 'x' + extra++; sent.push(x); b.logEvent({ eventType: x }); } };
  for (let i = 0; i < n; i++) {
    const op = H.choose('op' + i, 3);
    if (op === 0) { const e = 'n' + i; sent.push(e); if (!cur) pending.push(e); const g = got.length; b.logEvent({ eventType: e, eventProperties: { k: H.id('k' + i) } }); if (cur) H.assert(got.length > g && got[g][0] === cur && got[g][1] === e, 'with a receiver events go straight to it', got); else H.assert(got.length === g, 'without one they wait'); }
    else { const name = 'r' + i; const first = !cur; cur = name; const g = got.length; b.setEventReceiver(mk(name, op === 2)); const seen = got.slice(g).map((x) => x[1]); if (first) { H.assert(H.eq(seen.filter((x: any) => x[0] === 'n'), pending), 'waiting events are delivered in order', { seen, pending }); if (pending.length) H.cover('flushed'); } else H.assert(seen.length === 0, 'a new receiver does not get old events again', seen); }
  }
  if (!cur) b.setEventReceiver(mk('last', false));
  H.observe(got); const ids = got.map((x) => x[1]); H.assert(ids.length === sent.length && sent.every((s) => ids.filter((x) => x === s).length === 1), 'every event is delivered exactly once', { sent, got }); const ns = ids.filter((x) => x[0] === 'n'); H.assert(H.eq(ns, [...ns].sort()), 'in the order logged', ns); if (extra) H.cover('re-entrant');
}
function cap() { // the first 512 waiting events are kept
  const b = bridge(); const n = 510 + H.choose('n', 5); for (let i = 0; i < n; i++) b.logEvent({ eventType: 'e' + i }); const got: string[] = []; b.setEventReceiver((e: any) => got.push(e.eventType)); H.assert(got.length === Math.min(n, 512) && got.every((x, i) => x === 'e' + i), 'the first 512 events are kept in order', [n, got.length]); b.logEvent({ eventType: 'more' }); H.assert(got[got.length - 1] === 'more', 'later events are delivered'); H.cover('cap'); const g2: any[] = []; b.setEventReceiver((e: any) => g2.push(e)); H.assert(g2.length === 0, 'nothing twice');
}
function separate() { const a = bridge(), b = bridge(); a.logEvent({ eventType: 'x' }); const g: any[] = []; b.setEventReceiver((e: any) => g.push(e)); H.assert(g.length === 0, 'bridges are separate'); a.setEventReceiver((e: any) => g.push(e)); H.assert(g.length === 1, 'own events'); H.fork('f'); }
export const cells: Record<string, any> = { 'history 4': () => history(4), 'history 5': () => history(5), 'history 7': () => history(7), cap, separate };
export const meta = { thoroughOnly: ['history 7'], mustCover: ['flushed', 're-entrant', 'cap'], bounds: ['histories of 5 (thorough: 7) operations among logging an event and setting a receiver which may log further events while receiving one; 510..514 waiting events'], assumptions: ['receivers do not throw'] };
