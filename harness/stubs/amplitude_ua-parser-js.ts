// Stand-in for the user agent parser: the harness decides what it found.
export const uaResult: any = { value: { browser: { name: 'Chrome', major: '100' }, os: { name: 'Linux' }, device: { type: undefined } } };
export class UAParser { constructor(ua?: any) {} getResult(): any { return uaResult.value; } }
