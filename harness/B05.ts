// Exposure tracking: what is tracked for which source of a variant.
import { clock, advance, location, localStorage, sessionStorage } from './lib/env';
import { client, storeVariants, storeFlags } from './lib/browser';
declare const H: any;
const ch = (n: string) => H.id(n, 26);
// the variant of the flag: [stored or evaluated form, as read, ] with or without each field
function shape(name: string, k: number) {
  const v = ch(name); const md: any = {}; const full: any = { key: 'k' + v, value: 'v' + v };
  switch (k) {
    case 0: return { key: 'k' + v, value: 'v' + v };
    case 1: return { ...full, metadata: { a: v } };
    case 2: return { ...full, expKey: 'e' + v, metadata: { experimentKey: 'e' + v, trackExposure: true } };
    case 3: return { ...full, metadata: { trackExposure: false } };
    case 4: return { key: 'off', metadata: { default: true } };
    case 5: return { key: 'off', metadata: { default: true, trackExposure: false } };
    case 6: return { key: 'off', expKey: 'e' + v, metadata: { default: true, experimentKey: 'e' + v } };
    default: return { ...full, metadata: { trackExposure: null } };
  }
}
function run(src: string, primary: string, auto: boolean) {
  const s: any = shape('p', H.choose('shape', 8)); const dflt = !!(s.metadata && s.metadata.default);
  const cfg: any = { source: src, automaticExposureTracking: auto }; const got: any[] = [], plug: any[] = [];
  cfg.exposureTrackingProvider = { track: (e: any) => got.push(e) };
  let from = 'none';
  if (primary === 'stored') { storeVariants({ f: s }); from = 'tracked'; }
  if (primary === 'initial') { cfg.initialVariants = { f: s }; from = src === 'initialVariants' ? 'tracked' : 'fallback'; }
  if (primary === 'evaluated' || primary === 'evaluated-remote') { const { expKey, ...ev } = s; storeFlags({ f: { key: 'f', variants: { x: ev }, segments: [{ variant: 'x' }], metadata: { evaluationMode: primary === 'evaluated' ? 'local' : 'remote' } } }); from = 'tracked'; s.metadata = { evaluationMode: primary === 'evaluated' ? 'local' : 'remote', ...s.metadata }; }
  // fallbacks behind it
  let want: any = primary === 'none' ? undefined : s; let inline: any; let behind = false;
  const pickable = primary !== 'initial' && (primary === 'none' || dflt); // a default (or nothing) gives way to fallbacks
  const fb = H.choose('fb', 4); const f: any = { key: 'fk', value: 'fv', metadata: { m: ch('fb') } };
  const local = primary === 'evaluated-remote';
  if (fb === 1 && auto) inline = f; if (fb === 2 && primary !== 'initial') cfg.initialVariants = { f: f }; if (fb === 3) cfg.fallbackVariant = f;
  let useFb = pickable && !(fb === 0 || (fb === 1 && !auto));
  if (fb === 2 && src === 'initialVariants' && primary !== 'initial') { if (primary !== 'evaluated') { want = f; from = 'tracked'; useFb = false; } }
  if (local && !(fb === 2 && src === 'initialVariants')) { if (fb !== 0 && !(fb === 1 && !auto)) { want = f; from = 'fallback-nodefault'; useFb = false; } }
  let hasDefault = false;
  if (useFb) { hasDefault = dflt && primary !== 'none'; want = f; from = 'fallback'; behind = true; }
  const c = client(cfg); c.setUser({ user_id: 'u' });
  c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { plug.push(e); return true; } });
  if (auto) c.variant('f', inline); else { c.variant('f', inline); H.assert(got.length === 0 && plug.length === 0, 'no exposure unless asked for'); c.exposure('f'); }
  H.observe([got, plug]);
  const md = want && want.metadata; const off = md && md.trackExposure === false;
  let exp: any = null;
  const isFb = want === undefined || from.startsWith('fallback');
  if (!off && !(isFb && !hasDefault)) {
    exp = { flag_key: 'f' }; const ek = want.expKey || (md && md.experimentKey); if (ek) exp.experiment_key = ek;
    if (!isFb && !(md && md.default)) exp.variant = want.key; if (md) exp.metadata = md;
  }
  H.cover(exp ? (exp.variant ? 'variant' : isFb ? 'fallback with default' : 'default') : off ? 'disabled' : 'untracked fallback');
  if (!exp) H.assert(got.length === 0 && plug.length === 0, 'nothing is tracked', { got, want, from });
  else {
    H.assert(got.length === 1, 'exactly one exposure', { got, exp });
    H.assert(H.eq(got[0], exp), 'the exposure names flag, experiment, variant and metadata', { got: got[0], exp, from });
    H.assert(plug.length === 1 && plug[0].eventType === '$exposure' && H.eq(plug[0].eventProperties, exp), 'the integration gets the same exposure', { plug, exp });
  }
}
export const cells: Record<string, any> = {};
for (const s of ['localStorage', 'initialVariants']) for (const p of ['stored', 'initial', 'evaluated', 'evaluated-remote', 'none']) for (const a of [true, false]) cells[`${s} ${p} ${a ? 'auto' : 'manual'}`] = () => run(s, p, a);
cells['value only'] = () => { // a variant without a key is exposed by its value
  const v = ch('v'); const got: any[] = []; storeFlags({ f: { key: 'f', variants: { on: { value: v } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } } });
  const c = client({ exposureTrackingProvider: { track: (e: any) => got.push(e) } }); c.exposure('f'); H.observe(got); H.assert(got.length === 1 && H.eq(got[0].variant, v), 'the value stands in for a missing key', got);
};
cells['event type'] = () => { // the integration event is named by the metadata
  const plug: any[] = []; const kind = H.choose('kind', 4); const nm = ch('n'); const md: any = [{}, { exposureEvent: 'x' + nm }, { deliveryMethod: 'web' }, { exposureEvent: 'x' + nm, deliveryMethod: 'web' }][kind];
  storeVariants({ f: { key: 'on', metadata: md } }); const c = client(); c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { plug.push(e); return true; } }); c.exposure('f'); H.observe(plug);
  H.assert(plug.length === 1 && H.eq(plug[0].eventType, kind === 0 ? '$exposure' : kind === 2 ? '$impression' : 'x' + nm), 'event name', plug);
};
cells.web = async () => { // an exposure of web delivery tells when and on which page it was, whenever the integration comes
  const v = ch('v'); const mine = { key: 'on', value: 'on', metadata: { deliveryMethod: 'web', a: v } }; const where = H.choose('where', 3); const cfg: any = { internalInstanceNameSuffix: 'web' };
  if (where === 0) { cfg.source = 'initialVariants'; cfg.initialVariants = { f: mine }; } else if (where === 1) sessionStorage.put('amp-exp-$default_instance-web-abcdef', JSON.stringify({ f: mine })); else cfg.initialFlags = JSON.stringify([{ key: 'f', variants: { on: mine }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } }]);
  const c = client(cfg); c.setUser({ user_id: 'u' }); const plug: any[] = []; const blocked = H.fork('blocked'); if (blocked) { for (const st of [localStorage, sessionStorage] as any[]) st.setItem = () => { throw new Error('full'); }; }
  const late = H.choose('late', 3); const add = () => c.addPlugin({ type: 'integration', getUser: () => ({}), track: (e: any) => { plug.push(e); return true; } }); const want: any[] = [];
  for (let i = 0; i < 2; i++) { if (late === i) add(); clock.now = clock.now + H.int('gap' + i, 0, 1000); const pg = ['/a', '/b'][H.choose('page' + i, 2)]; location.href = 'https://example.com' + pg + (H.fork('query' + i) ? '?q=1' : ''); c.exposure('f'); want.push([clock.now, 'https://example.com' + pg]); }
  if (late === 2) add(); await advance(clock.now + 1500, 3, 10); H.observe(plug); H.assert(plug.length === 2, 'each is tracked', plug); plug.forEach((e, i) => { const p = e.eventProperties; H.assert(e.eventType === '$impression' && p.flag_key === 'f' && p.variant === 'on' && p.metadata.a === v, 'the exposure', e); H.assert(H.eq(p.time, want[i][0]), 'with its time', { p, want, i }); H.assert(p.metadata.url === want[i][1], 'and its page', { p, want, i }); });
  H.cover(late === 0 ? 'web' : 'web later'); };
cells['unknown flag'] = () => { const got: any[] = []; storeVariants({ a: { key: 'on' } }); const k = H.id('k', 3); const c = client({ automaticExposureTracking: true, exposureTrackingProvider: { track: (e: any) => got.push(e) } }); if (H.fork('m')) c.exposure(k); else c.variant(k, H.pick('fb', [undefined, 'x'])); H.observe(got); H.assert(got.length === (k === 'a' ? 1 : 0), 'no exposure without a variant', { k, got }); };
export const meta = { mustCover: ['web', 'web later', 'variant', 'fallback with default', 'default', 'disabled', 'untracked fallback'], bounds: ['8 variant shapes x 5 places it comes from x 4 fallbacks x both source modes x automatic/explicit tracking, symbolic texts; web delivery: 2 exposures up to 1 s apart on 2 pages with the integration set up before, between or after, storage full or not'], assumptions: [] };
