// Stand-in for the parts of analytics-core the tag uses: a cookie store over
// document.cookie (plain JSON instead of base64) and the campaign of the page.
export const MKTG = 'MKTG';
export const getStorageKey = (apiKey: string, postKey = '', limit = 10) => ['AMP', postKey, apiKey.substring(0, limit)].filter((x) => x !== '').join('_');
export const campaign: any = { value: {} };
export const cookieHook: any = { on: null };
export class CampaignParser { async parse() { return { ...campaign.value }; } }
export class CookieStorage<T> {
  options: any;
  constructor(options?: any) { this.options = { ...options }; }
  static async isDomainWritable(domain: string): Promise<boolean> { const k = 'AMP_TLDTEST'; document.cookie = k + '=1; path=/; domain=' + domain; const ok = document.cookie.split('; ').some((c: string) => c === k + '=1'); document.cookie = k + '=; path=/; expires=Thu, 01 Jan 1970 00:00:00 GMT; domain=' + domain; return ok; }
  async get(key: string): Promise<T | undefined> { await null; if (cookieHook.on) cookieHook.on('get', key); const c = document.cookie.split('; ').find((x: string) => x.startsWith(key + '=')); if (!c) return undefined; try { return JSON.parse(decodeURIComponent(c.slice(key.length + 1))); } catch { return undefined; } }
  async set(key: string, value: T): Promise<void> { if (cookieHook.on) cookieHook.on('set', key); const o = this.options; document.cookie = key + '=' + encodeURIComponent(JSON.stringify(value)) + (o.expirationDays ? '; max-age=' + Math.round(o.expirationDays * 86400) : '') + '; path=/' + (o.domain ? '; domain=' + o.domain : '') + (o.sameSite ? '; SameSite=' + o.sameSite : ''); }
  async remove(key: string): Promise<void> { const o = this.options; document.cookie = key + '=; path=/; expires=Thu, 01 Jan 1970 00:00:00 GMT' + (o.domain ? '; domain=' + o.domain : ''); }
}
