// variant(): which source wins.
import './lib/env';
import { localStorage } from './lib/env';
import { client, storeVariants, storeFlags, VARIANTS_KEY } from './lib/browser';
declare const H: any;
const KEYS = ['f', 'toString']; // also a key which names a member of every object
const ch = (n: string) => H.id(n, 26);
// every source may be absent, hold a variant, or (where it means something) hold a default variant
function source(name: string, kinds: string[]) {
  const kind = H.pick(name, kinds); const v = ch(name + '.v');
  switch (kind) {
    case 'none': return { raw: undefined, want: undefined };
    case 'null': return { raw: null, want: undefined };
    case 'string': return { raw: v, want: { key: v, value: v } };
    case 'empty': return { raw: {}, want: undefined };
    case 'emptytext': return { raw: '', want: { key: '', value: '' } };
    case 'variant': return { raw: { key: name, value: v, payload: { p: v }, metadata: { m: v } }, want: { key: name, value: v, payload: { p: v }, metadata: { m: v } } };
    case 'notdefault': return { raw: { key: name, value: v, metadata: { default: false } }, want: { key: name, value: v, metadata: { default: false } } };
    case 'valueonly': return { raw: { value: v }, want: { key: v, value: v } };
    case 'default': return { raw: { key: 'off', metadata: { default: true, w: v } }, want: { key: 'off', metadata: { default: true, w: v } }, dflt: true };
  }
  throw new Error(kind);
}
function flagOf(kind: string, mode: string | undefined, name: string) {
  if (kind === 'none') return { flag: undefined, want: undefined, mode: undefined };
  const v = ch('flag.v'); const md: any = mode ? { evaluationMode: mode } : {};
  const flag: any = { key: name, variants: { on: { key: 'on', value: v }, off: { key: 'off', metadata: { default: true } } }, segments: [{ variant: kind === 'off' ? 'off' : 'on', conditions: kind === 'nothing' ? [] : undefined }], metadata: md };
  if (!flag.segments[0].conditions) delete flag.segments[0].conditions;
  return { flag, mode, want: kind === 'nothing' ? undefined : kind === 'off' ? { key: 'off', metadata: { ...md, default: true } } : { key: 'on', value: v, metadata: md }, dflt: kind === 'off' };
}
function decide(order: any[], config: any) {
  let dflt: any; for (const s of order) { if (s.want === undefined) continue; if (s.dflt) { dflt = s.want; continue; } return s.want; }
  return config.want !== undefined ? config.want : dflt;
}
function run(src: string, fkind: string, mode: string | undefined) {
  const stored: any = source('stored', ['none', 'variant', 'string', 'notdefault', 'default']);
  const inline: any = source('inline', ['none', 'null', 'string', 'emptytext', 'variant', 'empty']);
  if (inline.raw && inline.want === undefined) inline.want = {};
  const initial: any = source('initial', ['none', 'variant', 'string', 'default']);
  initial.dflt = false; // a default marker matters only on stored and evaluated variants
  const config: any = source('config', ['none', 'empty', 'string', 'variant']);
  const name = H.pick('key', KEYS); const local: any = flagOf(fkind, mode, name);
  const others = { key: 'zz', value: 'zz' };
  storeVariants({ ...(stored.raw === undefined ? {} : { [name]: stored.raw }), g: others });
  if (local.flag) storeFlags({ [name]: local.flag });
  const cfg: any = { source: src };
  if (H.fork('initcfg') || initial.raw !== undefined) cfg.initialVariants = { ...(initial.raw === undefined ? {} : { [name]: initial.raw }), g: others };
  if (config.raw !== undefined) cfg.fallbackVariant = config.raw;
  const c = client(cfg);
  const got = c.variant(name, inline.raw); H.observe(got);
  let want: any = decide(src === 'localStorage' ? [stored, inline, initial] : [initial, stored, inline], config);
  let by = 'source';
  if (local.flag && (mode === 'local' || want === undefined)) { want = decide([local, inline, initial], config); by = mode === 'local' ? 'local mode' : 'evaluated last'; }
  H.cover(by);
  H.assert(H.eq(got, want === undefined ? {} : want), 'the first source that has a variant decides', { got, want });
  H.assert(H.eq(c.variant(name, inline.raw), got), 'reading again gives the same variant', got);
}
export const cells: Record<string, any> = {};
for (const s of ['localStorage', 'initialVariants']) {
  cells[s + ' noflag'] = () => run(s, 'none', undefined);
  for (const k of ['on', 'off', 'nothing']) for (const m of ['local', 'remote', undefined]) cells[`${s} ${k} ${m}`] = () => run(s, k, m);
}
cells['no-key'] = () => { storeVariants({ f: { key: 'on', value: 'on' } }); const c = client({ initialVariants: { f: { key: 'x' } } }, undefined, ''); H.assert(H.eq(c.variant('f', H.pick('fb', [undefined, 'zz'])), { value: undefined }), 'without a deployment key there is no variant'); };
cells['other-key'] = () => { // a key nobody knows gives the fallback, whatever else is stored
  const k = H.fork('inherited') ? H.pick('name', ['constructor', 'toString', 'valueOf', 'hasOwnProperty', 'isPrototypeOf', 'toLocaleString']) : H.id('key', 3); const broken = H.fork('broken'); if (broken) localStorage.put(VARIANTS_KEY, '{"a":'); else storeVariants({ a: { key: 'on', value: 'on' } }); storeFlags({ b: { key: 'b', variants: { on: { key: 'on' } }, segments: [{ variant: 'on' }], metadata: { evaluationMode: 'local' } } });
  const fb = H.pick('fb', [undefined, 'zz']); const got = client().variant(k, fb); H.observe(got);
  H.assert(H.eq(got, k === 'a' && !broken ? { key: 'on', value: 'on' } : k === 'b' ? { key: 'on', metadata: { evaluationMode: 'local' } } : fb ? { key: 'zz', value: 'zz' } : {}), 'each key is looked up on its own', { k, got });
};
export const meta = { mustCover: ['source', 'local mode', 'evaluated last'], bounds: ['one flag key, ordinary or named like a member of Object.prototype; every combination of 5 stored, 6 inline, 4 initial, 4 configured-fallback forms, no flag or a flag in local/remote/unset mode yielding a variant, its default or nothing; both source modes; symbolic variant texts'], assumptions: ['texts are one letter long (only copied, never compared)'] };
