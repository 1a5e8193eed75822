import { clock, timers, localStorage, sessionStorage, log, advance, fire, setGlobal } from './env';
import { ExperimentClient } from 'repo:experiment-browser/src/index';
declare const H: any;
export const KEY = 'client-abcdef';
// An HTTP client whose answers the harness decides. auto: answer at once.
export class Http {
  reqs: any[] = [];
  auto: ((r: any) => any) | null = null;
  request(url: string, method: string, headers: any, data: any, timeoutMillis: any): Promise<any> {
    const r: any = { url, method, headers, data, timeoutMillis, at: clock.now, kind: url.includes('/vardata') ? 'vardata' : url.includes('/flags') ? 'flags' : '?', settled: false };
    const p = new Promise((res, rej) => { r.ok = (body: any, status: any = 200) => { r.settled = true; res({ status, body: typeof body === 'string' ? body : JSON.stringify(body) }); }; r.fail = (e: any) => { r.settled = true; rej(e); }; });
    this.reqs.push(r);
    if (this.auto) { const a = this.auto(r); if (a instanceof Error) r.fail(a); else if (a !== undefined) r.ok(a.body, a.status === undefined ? 200 : a.status); }
    return p;
  }
  of(kind: string) { return this.reqs.filter((r) => r.kind === kind); }
}
export function client(cfg: any = {}, http: Http = new Http(), key: string = KEY): any { return new ExperimentClient(key, { httpClient: http as any, automaticExposureTracking: false, ...cfg }); }
export const VARIANTS_KEY = 'amp-exp-$default_instance-abcdef';
export const FLAGS_KEY = VARIANTS_KEY + '-flags';
export const storeVariants = (v: any) => localStorage.put(VARIANTS_KEY, JSON.stringify(v));
export const storeFlags = (f: any) => localStorage.put(FLAGS_KEY, JSON.stringify(f));
export const simpleFlag = (key: string, variant: string, mode: string | undefined, extra: any = {}) => ({ key, variants: { [variant]: { key: variant, value: variant, ...extra } }, segments: [{ variant }], metadata: mode ? { evaluationMode: mode } : {} });
// cells which also fail if a promise is rejected with nobody to notice
export const quiet = (cells: Record<string, any>): Record<string, any> => { const r: Record<string, any> = {}; for (const k of Object.keys(cells)) r[k] = async () => { await cells[k](); await H.settle(2); const l = H.rejections(); H.assert(l.length === 0, 'no failure is left without anyone to notice', { rejections: l }); }; return r; };
