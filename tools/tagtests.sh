#!/bin/bash
# Runs all tests of experiment-tag in a scratch copy with a stand-in for dom-mutator
# (which is not installed, so that some of them cannot run in /repo).
set -e
R=/tmp/r2; mkdir -p $R; S=/tmp/dmstub
if [ ! -d $R/node_modules/dom-mutator ]; then cp -a /repo/. $R/; mkdir -p $R/node_modules/dom-mutator/dist; cd $R/node_modules/dom-mutator
echo '{"name":"dom-mutator","version":"0.0.0","main":"dist/index.js","types":"dist/index.d.ts"}' > package.json
echo 'export type MutationController = { revert: () => void }; export type ElementRecord = any;' > dist/types.d.ts
echo "declare const m: { declarative: (x: any) => import('./types').MutationController }; export default m; export function pauseGlobalObserver(): void; export function resumeGlobalObserver(): void;" > dist/index.d.ts
cat > dist/index.js <<'J'
Object.defineProperty(exports,'__esModule',{value:true});
exports.default={declarative:(m)=>{const els=[];try{document.querySelectorAll(m.selector).forEach(e=>{const old=e.innerHTML;if(m.attribute==='html')e.innerHTML=m.value;els.push([e,old]);});}catch(e){}return{revert(){els.forEach(([e,o])=>{e.innerHTML=o;});}}}};
exports.pauseGlobalObserver=()=>{};exports.resumeGlobalObserver=()=>{};
J
fi
for p in experiment-tag experiment-browser experiment-core analytics-connector; do rm -rf $R/packages/$p/src; cp -a ${SRC:-/repo}/packages/$p/src $R/packages/$p/src; done
cd $R/packages/experiment-tag && npx jest "$@" 2>&1 | grep "●\|^Tests:\|^Test Suites\|FAIL\|TS[0-9]" | sort | uniq -c | grep -v "● Console" | head -60
