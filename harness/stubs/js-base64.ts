// Stand-in for js-base64: a transparent, injective "encoding", so that what was sent can be read back.
export const Base64 = { encodeURL: (s: string) => 'b64:' + s, encode: (s: string) => 'b64:' + s, encodeURI: (s: string) => 'b64:' + s, decode: (s: string) => s.slice(4) };
export const encodeURL = Base64.encodeURL; export const decode = Base64.decode;
