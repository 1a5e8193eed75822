'use strict';
// Bundles a harness together with the real sources under /repo (never dist).
const path = require('path');
const fs = require('fs');
const TOOLS = '/opt/veriftools/node/node_modules';
module.paths.push(TOOLS);
const esbuild = require(path.join(TOOLS, 'esbuild'));
const REPO = process.env.VP_REPO || '/repo';
const PK = REPO + '/packages';
const ALIAS = {
  '@amplitude/experiment-core': PK + '/experiment-core/src/index.ts',
  '@amplitude/analytics-connector': PK + '/analytics-connector/src/index.ts',
  '@amplitude/experiment-js-client': PK + '/experiment-browser/src/index.ts',
};
const GLOBALS = ['window', 'document', 'globalThis', 'self', 'localStorage', 'sessionStorage', 'navigator', 'location', 'history',
  'Date', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'console', 'fetch', 'crypto', 'URL', 'URLSearchParams',
  'XMLHttpRequest', 'AbortController', 'Map', 'Set', 'performance', 'MutationObserver', 'CustomEvent', 'Event', 'requestAnimationFrame',
  'MessageChannel', 'BroadcastChannel', 'Node', 'Element', 'HTMLElement', 'queueMicrotask', 'IntersectionObserver', 'StorageEvent', 'DOMParser', 'PopStateEvent', 'CSSStyleSheet', 'Headers', 'Request', 'screen', 'TextEncoder', 'TextDecoder', 'btoa', 'atob'];

async function bundle(entry, opts = {}) {
  const define = { 'Math.random': '__env.random', 'global': '__env.globalThis' };
  for (const g of GLOBALS) define[g] = '__env.' + g;
  const stubs = path.join(__dirname, '..', 'harness', 'stubs');
  const plugin = {
    name: 'repo',
    setup(b) {
      b.onResolve({ filter: /^repo:/ }, (a) => {
        const p = PK + '/' + a.path.slice(5);
        for (const e of ['', '.ts', '/index.ts']) if (fs.existsSync(p + e) && fs.statSync(p + e).isFile()) return { path: p + e };
        return { errors: [{ text: 'not in repo: ' + a.path }] };
      });
      b.onResolve({ filter: /^(dom-mutator|js-base64|@amplitude\/analytics-core|@segment\/analytics-next|@amplitude\/ua-parser-js)(\/|$)/ }, (a) => {
        const nm = a.path.replace(/^@/, '').replace(/[\/]/g, '_') + '.ts';
        if (opts.real && opts.real.includes(a.path)) return undefined;
        return fs.existsSync(path.join(stubs, nm)) ? { path: path.join(stubs, nm) } : undefined;
      });
      b.onResolve({ filter: /^@amplitude\/(experiment-core|analytics-connector|experiment-js-client)$/ }, (a) => ({ path: ALIAS[a.path] }));
    },
  };
  const r = await esbuild.build({
    entryPoints: [entry], bundle: true, write: false, format: 'iife', globalName: '__bundle', target: 'es2019',
    define, plugins: [plugin], logLevel: 'silent', treeShaking: true, legalComments: 'none', platform: 'browser',
    mainFields: ['module', 'main'], nodePaths: [REPO + '/node_modules'],
    tsconfigRaw: opts.tsconfigRaw, supported: { 'nullish-coalescing': false, 'optional-chain': false, 'logical-assignment': false },
    absWorkingDir: REPO, loader: { '.json': 'json' }, keepNames: false, charset: 'utf8',
  });
  return r.outputFiles[0].text;
}
module.exports = { bundle, REPO };
