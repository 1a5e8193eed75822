'use strict';
// Backtracking regular-expression matcher over symbolic characters: every
// character test is a branch, so one run follows one path and the explorer
// covers the others.
const RT = require('./runtime');
const DIGIT = [[48, 57]], WORD = [[48, 57], [65, 90], [95, 95], [97, 122]];
const SPACE = [[9, 13], [32, 32], [0xa0, 0xa0], [0x1680, 0x1680], [0x2000, 0x200a], [0x2028, 0x2029], [0x202f, 0x202f], [0x205f, 0x205f], [0x3000, 0x3000], [0xfeff, 0xfeff]];
const LT = [[10, 10], [13, 13], [0x2028, 0x2029]];
function inv(r) { const s = [...r].sort((a, b) => a[0] - b[0]); const out = []; let p = 0; for (const [l, h] of s) { if (l > p) out.push([p, l - 1]); p = Math.max(p, h + 1); } if (p <= 0xffff) out.push([p, 0xffff]); return out; }
function ci(r) { const out = [...r]; for (const [l, h] of r) { for (let c = Math.max(l, 65); c <= Math.min(h, 90); c++) out.push([c + 32, c + 32]); for (let c = Math.max(l, 97); c <= Math.min(h, 122); c++) out.push([c - 32, c - 32]); } return out; }
const cache = new Map();
function parse(src, flags) {
  const ck = flags + '/' + src; if (cache.has(ck)) return cache.get(ck);
  let i = 0; let ncap = 0; const names = {}; const I = flags.includes('i');
  const bad = (m) => { const e = new Error('regex ' + m + ' in ' + src); e.unsupported = true; throw e; };
  const set = (r) => ({ k: 'set', r: I ? ci(r) : r });
  function alt() { const alts = [seq()]; while (src[i] === '|') { i++; alts.push(seq()); } return alts.length === 1 ? alts[0] : { k: 'alt', a: alts }; }
  function seq() { const items = []; while (i < src.length && src[i] !== '|' && src[i] !== ')') items.push(quant(atom())); return { k: 'seq', a: items }; }
  function quant(a) {
    let min, max; const c = src[i];
    if (c === '*') { min = 0; max = Infinity; i++; } else if (c === '+') { min = 1; max = Infinity; i++; } else if (c === '?') { min = 0; max = 1; i++; }
    else if (c === '{') { const m = /^\{(\d+)(,(\d*))?\}/.exec(src.slice(i)); if (!m) return a; min = +m[1]; max = m[2] ? (m[3] ? +m[3] : Infinity) : min; i += m[0].length; } else return a;
    let lazy = false; if (src[i] === '?') { lazy = true; i++; }
    return { k: 'q', a, min, max, lazy };
  }
  function esc(inClass) {
    const c = src[i++];
    switch (c) {
      case 'd': return DIGIT; case 'D': return inv(DIGIT); case 'w': return WORD; case 'W': return inv(WORD); case 's': return SPACE; case 'S': return inv(SPACE);
      case 'n': return [[10, 10]]; case 't': return [[9, 9]]; case 'r': return [[13, 13]]; case 'f': return [[12, 12]]; case 'v': return [[11, 11]]; case '0': return [[0, 0]];
      case 'x': { const h = src.slice(i, i + 2); if (/^[0-9a-fA-F]{2}$/.test(h)) { i += 2; const v = parseInt(h, 16); return [[v, v]]; } return [[120, 120]]; }
      case 'u': { const h = src.slice(i, i + 4); if (/^[0-9a-fA-F]{4}$/.test(h)) { i += 4; const v = parseInt(h, 16); return [[v, v]]; } return [[117, 117]]; }
      case 'b': if (inClass) return [[8, 8]];
    }
    const v = c.charCodeAt(0); return [[v, v]];
  }
  function atom() {
    const c = src[i++];
    if (c === '^') return { k: 'bol' }; if (c === '$') return { k: 'eol' };
    if (c === '.') return { k: 'set', r: flags.includes('s') ? [[0, 0xffff]] : inv(LT) };
    if (c === '(') {
      let node;
      if (src.startsWith('?:', i)) { i += 2; node = alt(); }
      else if (src.startsWith('?=', i)) { i += 2; node = { k: 'look', a: alt(), neg: false }; }
      else if (src.startsWith('?!', i)) { i += 2; node = { k: 'look', a: alt(), neg: true }; }
      else if (src.startsWith('?<=', i) || src.startsWith('?<!', i)) bad('lookbehind');
      else { const n = ++ncap; if (src.startsWith('?<', i)) { const m = /^\?<([^>]+)>/.exec(src.slice(i)); names[m[1]] = n; i += m[0].length; } node = { k: 'cap', n, a: alt() }; }
      i++; return node;
    }
    if (c === '[') {
      let neg = false; if (src[i] === '^') { neg = true; i++; } const r = [];
      while (src[i] !== ']') {
        let a; if (src[i] === '\\') { i++; a = esc(true); } else { const v = src.charCodeAt(i++); a = [[v, v]]; }
        if (src[i] === '-' && src[i + 1] !== ']' && a.length === 1 && a[0][0] === a[0][1]) { i++; let b; if (src[i] === '\\') { i++; b = esc(true); } else { const v = src.charCodeAt(i++); b = [[v, v]]; } r.push([a[0][0], b[0][1]]); } else r.push(...a);
      }
      i++; const rr = I ? ci(r) : r; return { k: 'set', r: neg ? inv(rr) : rr };
    }
    if (c === '\\') {
      if (src[i] === 'b') { i++; return { k: 'wb', neg: false }; } if (src[i] === 'B') { i++; return { k: 'wb', neg: true }; }
      if (/[1-9]/.test(src[i])) { const m = /^\d+/.exec(src.slice(i)); i += m[0].length; return { k: 'back', n: +m[0] }; }
      if (src[i] === 'k' || src[i] === 'p' || src[i] === 'P') bad('escape');
      return set(esc(false));
    }
    const v = c.charCodeAt(0); return set([[v, v]]);
  }
  if (/[uvy]/.test(flags)) bad('flag');
  const ast = alt(); const r = { ast, ncap, names }; cache.set(ck, r); return r;
}
function matchHere(ast, h, start, flags, caps) {
  const M = flags.includes('m');
  const has = (c, r) => RT.testSet(c, r);
  function m(n, i, k) {
    RT.$.tick();
    switch (n.k) {
      case 'set': return i < h.length && has(h[i], n.r) ? k(i + 1) : null;
      case 'seq': { const go = (j, p) => j === n.a.length ? k(p) : m(n.a[j], p, (q) => go(j + 1, q)); return go(0, i); }
      case 'alt': for (const a of n.a) { const r = m(a, i, k); if (r !== null) return r; } return null;
      case 'cap': { const old = caps[n.n]; const r = m(n.a, i, (e) => { const o2 = caps[n.n]; caps[n.n] = [i, e]; const z = k(e); if (z === null) caps[n.n] = o2; return z; }); if (r === null) caps[n.n] = old; return r; }
      case 'q': {
        const go = (cnt, p) => {
          const more = () => cnt < n.max ? m(n.a, p, (q) => (q === p && cnt >= n.min) ? null : go(cnt + 1, q)) : null;
          if (cnt < n.min) return more();
          if (n.lazy) { const r = k(p); return r !== null ? r : more(); }
          const r = more(); return r !== null ? r : k(p);
        };
        return go(0, i);
      }
      case 'bol': return i === 0 || (M && has(h[i - 1], LT)) ? k(i) : null;
      case 'eol': return i === h.length || (M && has(h[i], LT)) ? k(i) : null;
      case 'wb': { const a = i > 0 && has(h[i - 1], WORD), b = i < h.length && has(h[i], WORD); return (a !== b) !== n.neg ? k(i) : null; }
      case 'look': { const saved = caps.slice(); const r = m(n.a, i, (e) => e); if (n.neg) { for (let j = 0; j < saved.length; j++) caps[j] = saved[j]; return r === null ? k(i) : null; } return r === null ? null : k(i); }
      case 'back': { const c = caps[n.n]; if (!c) return k(i); const l = c[1] - c[0]; if (i + l > h.length) return null; for (let j = 0; j < l; j++) { if (!RT.branch(RT.chEq(h[c[0] + j], h[i + j]), RT.cc(h[c[0] + j]) === RT.cc(h[i + j]))) return null; } return k(i + l); }
    }
    throw new Error('regex node ' + n.k);
  }
  return m(ast, start, (e) => e);
}
function execAt(re, s, from) {
  let p; try { p = parse(re.source, re.flags.replace(/[gd]/g, '')); } catch (e) { if (!e.unsupported) throw e; const c = RT.$.conc(s, 'regex'); const r2 = new RegExp(re.source, re.flags.replace('g', '') + 'g'); r2.lastIndex = from; const m = r2.exec(c); return m; }
  const h = RT.chOf(s);
  for (let st = from; st <= h.length; st++) {
    const caps = [];
    const e = matchHere(p.ast, h, st, re.flags, caps);
    if (e !== null) {
      const m = [RT.mkSS(h.slice(st, e))]; for (let j = 1; j <= p.ncap; j++) m.push(caps[j] ? RT.mkSS(h.slice(caps[j][0], caps[j][1])) : undefined);
      m.index = st; m.input = s; m.end = e; m.groups = undefined;
      if (Object.keys(p.names).length) { m.groups = Object.create(null); for (const k of Object.keys(p.names)) m.groups[k] = m[p.names[k]]; }
      return m;
    }
  }
  return null;
}
function exec(re, s) {
  const g = re.global || re.sticky;
  const m = execAt(re, s, g ? re.lastIndex : 0);
  if (g) re.lastIndex = m ? (m.end !== undefined ? m.end : m.index + m[0].length) : 0;
  return m;
}
function all(re, s) { const out = []; let i = 0; const n = RT.chOf(s).length; while (i <= n) { const m = execAt(re, s, i); if (!m) break; const e = m.end !== undefined ? m.end : m.index + m[0].length; m.end = e; out.push(m); i = e === m.index ? e + 1 : e; if (!re.global) break; } re.lastIndex = 0; return out; }
function expand(r, match, caps, before, after) {
  if (typeof r !== 'string') { return r; }
  if (!r.includes('$')) return r;
  let out = '';
  for (let i = 0; i < r.length; i++) {
    if (r[i] === '$' && i + 1 < r.length) {
      const c = r[i + 1];
      if (c === '$') { out = RT.concat(out, '$'); i++; continue; }
      if (c === '&') { out = RT.concat(out, match); i++; continue; }
      if (c === '`') { out = RT.concat(out, before); i++; continue; }
      if (c === "'") { out = RT.concat(out, after); i++; continue; }
      if (/[1-9]/.test(c) && +c < caps.length + 1) { out = RT.concat(out, caps[+c - 1] === undefined ? '' : caps[+c - 1]); i++; continue; }
    }
    out = RT.concat(out, r[i]);
  }
  return out;
}
function replace(s, re, r) {
  const h = RT.chOf(s); let out = ''; let p = 0;
  for (const m of all(re, s)) {
    out = RT.concat(out, RT.mkSS(h.slice(p, m.index)));
    const caps = m.slice(1);
    out = RT.concat(out, typeof r === 'function' ? RT.$.str(r(m[0], ...caps, m.index, s)) : expand(RT.$.str(r), m[0], caps, RT.mkSS(h.slice(0, m.index)), RT.mkSS(h.slice(m.end))));
    p = m.end;
  }
  return RT.concat(out, RT.mkSS(h.slice(p)));
}
function matchAll(s, re) { const l = all(re, s); return l.length ? l.map((m) => m[0]) : null; }
function split(s, re) {
  const h = RT.chOf(s); const out = []; let p = 0, i = 0; const g = new RegExp(re.source, re.flags.replace('g', '') + 'g');
  if (!h.length) return [s];
  while (i < h.length) { const m = execAt(g, s, i); if (!m || m.index >= h.length) break; const e = m.end !== undefined ? m.end : m.index + m[0].length; if (e === m.index && e === p) { i++; if (e === m.index && m.index !== p) { } continue; } out.push(RT.mkSS(h.slice(p, m.index)), ...m.slice(1)); p = e; i = e === m.index ? e + 1 : e; }
  out.push(RT.mkSS(h.slice(p))); return out;
}
module.exports = { exec, replace, matchAll, split, expand };
