// One exposure per flag, variant and user: the tracking provider and the integration.
import { sessionStorage } from './lib/env';
import { client, storeFlags } from './lib/browser';
declare const H: any;
const flag = (key: string) => ({ key, variants: { on: { key: 'on' }, ctl: { key: 'ctl' }, off: { key: 'off', metadata: { default: true } } }, segments: [
  { conditions: [[{ selector: ['context', 'user', 'user_properties', 'p'], op: 'is', values: ['a'] }]], variant: 'on' }, { conditions: [[{ selector: ['context', 'user', 'user_properties', 'p'], op: 'is', values: ['b'] }]], variant: 'ctl' }, { variant: 'off' }], metadata: { evaluationMode: 'local' } });
const VAR: any = { a: 'on', b: 'ctl', c: undefined };
function steps(n: number, mode: string, idkinds: any[], broken = false) {
  if (broken) { const d: any = sessionStorage.__d; const k = H.choose('broken', 3); if (k === 0) d.failSet = true; else if (k === 1) d.failAll = true; else { d.failSet = true; d.failGet = true; } }
  storeFlags({ f: flag('f'), g: flag('g') });
  const got: any[] = [], plug: any[] = [];
  const c = client({ automaticExposureTracking: true, ...(mode === 'provider' ? { exposureTrackingProvider: { track: (e: any) => got.push(e) } } : {}) });
  if (mode === 'plugin') c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { plug.push(e.eventProperties); return true; } });
  const sink = mode === 'provider' ? got : plug;
  let id: any = null; let seen: any = {};
  for (let i = 0; i < n; i++) {
    const p = H.id('p' + i, 3); const key = H.fork('key' + i) ? 'g' : 'f'; const kind = H.pick('id' + i, idkinds);
    const u: any = { user_properties: { p } }; if (kind.includes('u')) u.user_id = H.id('u' + i, 2); if (kind.includes('d')) u.device_id = H.id('d' + i, 2);
    c.setUser(u);
    const before = sink.length; if (H.fork('how' + i)) c.exposure(key); else c.variant(key);
    let same: any = id !== null;
    if (same) {
      if (mode === 'provider') same = H.and(H.eq(id.user_id, u.user_id), H.eq(id.device_id, u.device_id));
      else same = id.user_id && u.user_id ? H.eq(id.user_id, u.user_id) : !id.user_id && !u.user_id ? H.eq(id.device_id, u.device_id) : false;
    } // the first user of a client has seen nothing yet
    if (!same) seen = {};
    id = u; const v = VAR[p === 'a' ? 'a' : p === 'b' ? 'b' : 'c'];
    const due = !(key in seen) || seen[key] !== v; seen[key] = v;
    H.cover(due ? (i ? 'again' : 'first') : 'duplicate');
    H.assert(sink.length === before + (due ? 1 : 0), 'tracked iff new for this user', { i, key, v, due, u });
    if (due) { const e = sink[sink.length - 1]; H.assert(H.eq([e.flag_key, e.variant], [key, v]), 'the exposure tracked is the current one', e); }
  }
  H.observe(sink);
}
export const cells: Record<string, any> = {};
for (const m of ['provider', 'plugin']) {
  cells[m + ' u3'] = () => steps(3, m, ['u']); cells[m + ' d3'] = () => steps(3, m, ['d']); cells[m + ' ud2'] = () => steps(2, m, ['ud', 'u', 'd', '']); cells[m + ' anon3'] = () => steps(3, m, ['']); cells[m + ' ud3'] = () => steps(3, m, ['ud', 'u', 'd', '']); cells[m + ' u4'] = () => steps(4, m, ['u']);
}
cells['broken u3'] = () => steps(3, 'plugin', ['u'], true);
cells['web'] = () => { // web deliveries are impressions: never deduplicated by the integration
  const plug: any[] = []; storeFlags({ f: { key: 'f', variants: { on: { key: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local', deliveryMethod: 'web' } } }); const c = client();
  c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { plug.push(e); return true; } }); c.setUser({ user_id: 'u' }); const n = H.choose('n', 4); for (let i = 0; i < n; i++) c.exposure('f'); H.assert(plug.length === n, 'every impression is sent', plug.length);
};
cells['blocked storage'] = () => { // deduplication also works when session storage cannot be written
  const plug: any[] = []; storeFlags({ f: flag('f') }); const when = H.choose('when', 3); if (when === 0) sessionStorage.__d.failSet = true; const c = client();   c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { plug.push(e); return true; } }); let last: any; let want = 0;
  for (let i = 0; i < 3; i++) { if (when === 1 && H.fork('fails' + i)) sessionStorage.__d.failSet = !sessionStorage.__d.failSet; const p = H.id('p' + i, 2); c.setUser({ user_id: 'u', user_properties: { p } }); c.exposure('f'); if (!(last === p)) want++; last = p; }
  H.observe(plug); H.assert(plug.length === want, 'no duplicates and none lost without session storage', { n: plug.length, want, when });
};
export const meta = { thoroughOnly: ['provider ud3', 'plugin ud3', 'provider u4', 'plugin u4'], mustCover: ['first', 'again', 'duplicate'], bounds: ['3 steps (thorough: 4) over 2 flags and 3 outcomes, user ids and device ids each over 2 values or absent (every combination over 2 steps, thorough 3), with working or unusable session storage, automatic and explicit exposure'], assumptions: ['one client per page load: the record kept across reloads is not claimed'] };
