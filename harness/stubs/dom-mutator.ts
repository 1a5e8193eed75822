// Stand-in for dom-mutator: records what is applied to the page and what is taken back.
export const mutations: any = { live: [], applied: 0, paused: 0 };
const declarative = (m: any) => { if (m.selector === '<<') throw new Error('not a selector'); const e = { m }; mutations.live.push(e); mutations.applied++; return { revert: () => { const i = mutations.live.indexOf(e); if (i >= 0) mutations.live.splice(i, 1); } }; };
export default { declarative };
export const pauseGlobalObserver = () => { mutations.paused++; }; export const resumeGlobalObserver = () => { mutations.paused--; };
