// A global fetch whose answers the harness decides; must be imported before the repository's code.
import { clock, setGlobal } from './env';
export const fetches: any[] = [];
setGlobal('fetch', (url: string, init: any) => {
  const f: any = { url, init, at: clock.now }; fetches.push(f);
  return new Promise((res, rej) => { f.fail = rej; f.head = (status: any) => res({ status, text: () => new Promise((r2, j2) => { f.body = r2; f.failBody = j2; }) }); });
});
