// Identity store of the analytics connector: edits are atomic, isolated, and announced exactly when something changed.
import './lib/env';
import { AnalyticsConnector } from 'repo:analytics-connector/src/index';
declare const H: any;
let made = 0; const store = () => { const c: any = (AnalyticsConnector as any).getInstance('i' + made++); return c.identityStore; };
const norm = (i: any) => { const r: any = {}; for (const k of ['userId', 'deviceId', 'optOut']) if (i[k] !== undefined) r[k] = i[k]; r.userProperties = i.userProperties || {}; return r; };
function steps(n: number, two: boolean) {
  const s = store(); let m: any = { userProperties: {} }; const heard: any[] = [], other: any[] = []; const l2 = (i: any) => other.push(norm(i)); let on2 = false, want2 = 0;
  s.addIdentityListener((i: any) => heard.push(norm(i)));
  for (let k = 0; k < n; k++) {
    const before = norm(m); const next: any = { ...m, userProperties: { ...m.userProperties } }; const v = 'v' + H.id('v' + k, 2), p = H.pick('p' + k, ['a', 'b']);
    const lop = two ? H.choose('listener' + k, 3) : 0; if (lop === 1) { s.addIdentityListener(l2); on2 = true; } if (lop === 2) { s.removeIdentityListener(l2); on2 = false; }
    const op = H.choose('op' + k, 10); const h0 = heard.length, o0 = other.length;
    if (op === 8) { const given: any = H.fork('bare' + k) ? { userId: v, userProperties: {} } : { userId: v, userProperties: { [p]: v } }; s.setIdentity(given); m = { ...given, userProperties: { ...(given.userProperties || {}) } }; }
    else if (op === 9) { const e = s.editIdentity(); e.setUserId('x').setDeviceId('x').updateUserProperties({ $set: { a: 'x' } }); if (H.fork('drop' + k)) e.setUserProperties({}); H.assert(H.eq(norm(s.getIdentity()), before), 'an edit not committed changes nothing', s.getIdentity()); H.cover('uncommitted'); continue; }
    else {
      const e = s.editIdentity();
      if (op === 0) { e.setUserId(v); next.userId = v; } else if (op === 1) { e.setDeviceId(v); next.deviceId = v; } else if (op === 2) { const b = H.bool('b' + k); e.setOptOut(b); next.optOut = b; }
      else if (op === 3) { e.setUserProperties({ [p]: v }); next.userProperties = { [p]: v }; }
      else if (op === 4) { e.updateUserProperties({ $set: { [p]: v } }); next.userProperties[p] = v; }
      else if (op === 5) { e.updateUserProperties({ $unset: { [p]: 1 } }); delete next.userProperties[p]; }
      else if (op === 6) { e.updateUserProperties({ $clearAll: {} }); next.userProperties = {}; }
      else { e.setUserId(v).updateUserProperties({ $clearAll: {}, $set: { [p]: v } }).setDeviceId(v); next.userId = next.deviceId = v; next.userProperties = { [p]: v }; }
      e.commit(); m = next;
    }
    const got = norm(s.getIdentity()); H.assert(H.eq(got, norm(m)), 'the identity is the one committed', { got, want: norm(m), op });
    if (op === 8) { H.assert(heard.length <= h0 + 1, 'one notification at most'); if (H.eq(before, norm(m))) { H.cover('same set'); } else H.assert(heard.length === h0 + 1, 'a change is announced'); if (on2) want2 = 0; continue; }
    const same = H.eq(before, norm(m)); if (same) { H.cover('unchanged'); H.assert(heard.length === h0, 'nothing is announced when nothing changed', { before, op }); } else { H.cover('changed'); H.assert(heard.length === h0 + 1 && H.eq(heard[h0], norm(m)), 'a change is announced once with the new identity', { heard, want: norm(m) }); }
    H.assert(other.length - o0 === (on2 && heard.length > h0 ? 1 : 0), 'listeners are called while added', other.length);
  }
  H.observe([norm(s.getIdentity()), heard]);
}
function isolation() {
  const s = store(); let n = 0; s.addIdentityListener(() => { n++; }); const a = 'a' + H.id('a', 3), b = 'b' + H.id('b', 3);
  const mine: any = { plan: a }; const how = H.choose('how', 3);
  const commit = (p: any) => { if (how === 0) s.editIdentity().setUserProperties(p).commit(); else if (how === 1) s.setIdentity({ userId: 'u', userProperties: p }); else s.editIdentity().setUserId('u').setUserProperties(p).commit(); };
  commit(mine); H.assert(n === 1, 'announced', n);
  const act = H.choose('act', 6);
  if (act === 0) { mine.plan = b; H.assert(H.eq(s.getIdentity().userProperties, { plan: a }), 'changing the object given does not change the identity', s.getIdentity()); commit(mine); H.assert(n === 2 && H.eq(s.getIdentity().userProperties, { plan: b }), 'committing the changed object is a change', { n, i: s.getIdentity() }); H.cover('reused object'); }
  else if (act === 1) { const g = s.getIdentity(); g.userId = 'x'; g.userProperties.plan = b; H.assert(H.eq(s.getIdentity().userProperties, { plan: a }) && s.getIdentity().userId !== 'x', 'changing the identity returned does not change the store', s.getIdentity()); }
  else if (act === 2) { const e = s.editIdentity(); const p2: any = { x: a }; e.setUserProperties(p2).updateUserProperties({ $set: { y: b } }); H.assert(H.eq(p2, { x: a }), 'the object given is not modified', p2); e.commit(); H.assert(H.eq(s.getIdentity().userProperties, { x: a, y: b }), 'both edits apply', s.getIdentity()); H.assert(H.eq(p2, { x: a }), 'nor by committing', p2); }
  else if (act === 3) { const e = s.editIdentity(); e.updateUserProperties({ $set: { y: a } }).commit(); const n0 = n; e.updateUserProperties({ $set: { y: a + b } }); H.assert(s.getIdentity().userProperties.y === a && n === n0, 'an editor used on after its commit changes nothing until committed', s.getIdentity()); e.commit(); H.assert(n === n0 + 1 && s.getIdentity().userProperties.y === a + b, 'its second commit is a change', { n, n0 }); H.cover('editor reused'); }
  else if (act === 4) { const s2 = store(); s2.setIdentity({ userProperties: { plan: a } }); s2.editIdentity().setUserId('q').updateUserProperties({ $set: { plan: b } }).commit(); H.assert(H.eq(s.getIdentity().userProperties, { plan: a }), 'stores are separate'); }
  else { let seen: any; s.addIdentityListener((i: any) => { seen = i; }); s.editIdentity().setUserProperties({ plan: b + '!' }).commit(); seen.userProperties.plan = 'z'; seen.userId = 'z'; H.assert(H.eq(s.getIdentity().userProperties, { plan: b + '!' }) && s.getIdentity().userId !== 'z', 'a listener cannot change the store', s.getIdentity()); }
  H.observe([n, s.getIdentity()]);
}
// A value of bounded shape
function val(nm: string, d: number): any {
  const k = H.choose(nm, d > 0 ? 8 : 5); if (k === 0) return 's' + H.id(nm + 's', 2); if (k === 1) return H.int(nm + 'n', 0, 2); if (k === 2) return H.bool(nm + 'b'); if (k === 3) return null; if (k === 4) return H.fork(nm + 'e') ? [] : {};
  if (k === 5) { const r: any[] = []; const l = 1 + H.choose(nm + 'l', 2); for (let i = 0; i < l; i++) r.push(val(nm + i, d - 1)); return r; }
  const r: any = {}; for (const key of k === 6 ? ['x'] : ['length']) r[key] = val(nm + key, d - 1); return r;
}
function same(a: any, b: any): any { // structural equality
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') { if (typeof a !== typeof b || (a === null) !== (b === null)) return false; return a === b; }
  if (Array.isArray(a) !== Array.isArray(b)) return false; const ka = Object.keys(a), kb = Object.keys(b); if (ka.length !== kb.length) return false;
  for (const k of ka) { if (!kb.includes(k) || !same(a[k], b[k])) return false; } return true;
}
function change(d: number) { // announced exactly when a property value differs structurally
  const s = store(); let n = 0; const a = val('a', d), b = val('b', d); s.setIdentity({ userId: 'u', userProperties: { p: a } }); s.addIdentityListener(() => { n++; });
  s.editIdentity().updateUserProperties({ $set: { p: b } }).commit(); const eq = same(a, b); H.observe([a, b, n]); H.assert(n === (eq ? 0 : 1), 'announced exactly when the value differs', { a, b, n }); H.cover(eq ? 'equal' : 'different');
}
function keys() { // added and removed keys are changes
  const s = store(); let n = 0; const mk = (nm: string) => { const o: any = {}; for (const k of ['a', 'b', 'length']) if (H.fork(nm + k)) o[k] = H.int(nm + k + 'v', 0, 1); return o; }; const a = mk('x'), b = mk('y'); s.setIdentity({ userProperties: a }); s.addIdentityListener(() => { n++; }); s.setIdentity({ userProperties: b }); const eq = H.eq(a, b); H.assert(n === (eq ? 0 : 1), 'announced exactly when keys or values differ', { a, b, n });
}
function instances() { const x = H.id('x', 2), y = H.id('y', 2); const A: any = (AnalyticsConnector as any).getInstance('n' + x), B: any = (AnalyticsConnector as any).getInstance('n' + y); H.assert(H.iff(A === B, x === y), 'one connector per instance name'); A.identityStore.setIdentity({ userId: 'u' }); H.assert(H.iff(B.identityStore.getIdentity().userId === 'u', x === y), 'with its own identity'); }
export const cells: Record<string, any> = { 'steps 1': () => steps(1, true), 'steps 2': () => steps(2, false), 'steps 2 listeners': () => steps(2, true), 'steps 3': () => steps(3, false), isolation, 'change 1': () => change(1), 'change 2': () => change(2), keys, instances };
export const meta = { thoroughOnly: ['steps 3', 'change 2', 'steps 2 listeners'], mustCover: ['uncommitted', 'unchanged', 'changed', 'reused object', 'editor reused', 'equal', 'different'], bounds: ['2 (thorough: 3) consecutive edits of 10 kinds over 2 properties with symbolic values; listener added/removed at any step; property values of nesting depth 1 (thorough: 2) incl. lists, objects, null'], assumptions: ['values are JSON values; nested values of user properties are not copied'] };
