const C = 'packages/analytics-connector/src/';
module.exports = [
{ id: 'C01', title: 'The shared identity store changes atomically and never leaks state',
  statement: 'Edits to the identity take effect only when committed, all at once, and every listener then registered is called exactly once with the new identity if and only if it differs structurally from the old one. The identity is isolated from objects given to, returned from or passed to listeners by the store and from reuse of an editor. There is exactly one store per instance name.',
  over: ['inputs', 'histories'], quantifier: 'every sequence of edits, commits and listener changes and every property value',
  why: 'Tests commit a few fixed edits; aliasing and structural equality need all values and orders.',
  files: [C + 'identityStore.ts', C + 'util/equals.ts', C + 'analyticsConnector.ts'], mechanism: [['editor and commit', C + 'identityStore.ts'], ['structural equality', C + 'util/equals.ts'], ['one connector per instance', C + 'analyticsConnector.ts']], observe_at: ['getIdentity()', 'calls of listeners'],
  bounds: '2 (thorough: 3) consecutive edits of 10 kinds over 2 properties with symbolic values; listeners added or removed at any step; property values of nesting depth 1 (thorough: 2). Nested values of user properties are not claimed to be copied.' },
{ id: 'C02', title: 'The event bridge delivers every event exactly once and in order',
  statement: 'Events logged before a receiver is set wait in order, the first 512 being kept, and are delivered to the receiver when it is set; later ones are delivered at once. Each is delivered exactly once also when the receiver itself logs events, and bridges of different instances do not share events.',
  over: ['histories', 'schedules'], quantifier: 'every history of events, receivers and re-entrant events and every number of waiting events',
  why: 'Tests log a few events before and after one receiver.',
  files: [C + 'eventBridge.ts'], mechanism: [['queue and receiver', C + 'eventBridge.ts']], observe_at: ['events received'],
  bounds: 'Histories of 5 (thorough: 7) operations; 510..514 waiting events; receivers do not throw.' },
];
