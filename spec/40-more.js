const B = 'packages/experiment-browser/src/';
const CL = B + 'experimentClient.ts', FA = B + 'factory.ts', MG = B + 'integration/manager.ts';
module.exports = [
{ id: 'B12', title: 'Configuration determines the requests, with unset options as defaults',
  statement: 'Flags and variants are requested from the explicitly configured servers, else from those of the configured zone, authorized by the API key, within the configured timeout; the flag keys asked for and the latest assignment tracking option, which survives a reload, accompany every variants request including retries. Options set to null or undefined behave exactly as absent ones, messages below the configured log level are not logged, and without an API key no variants are requested. The web delivery asks for web flags, of the identified user only.',
  over: ['configurations', 'inputs', 'histories'], quantifier: 'every combination of set and unset options and every value',
  why: 'Tests use a handful of configurations and never check the requests of retries or of unset options in combination.',
  files: [CL, 'packages/experiment-core/src/api/evaluation-api.ts', 'packages/experiment-core/src/api/flag-api.ts', B + 'logger/ampLogger.ts'], mechanism: [['configuration and its defaults', CL], ['variants request', 'packages/experiment-core/src/api/evaluation-api.ts'], ['flags request', 'packages/experiment-core/src/api/flag-api.ts'], ['log level filter', B + 'logger/ampLogger.ts']], observe_at: ['requests given to the HTTP client', 'calls of the logger'],
  bounds: 'Every server zone of up to 2 letters of eEuUsS; server URLs and timeout absent/undefined/null/set; up to 2 flag keys; 2 changes of the tracking option with reloads; up to 2 retries; log levels 0..5; 15 options unset singly or together.' },
{ id: 'B13', title: 'The built-in HTTP client enforces its time limit exactly',
  statement: 'A request made with a positive time limit is rejected with a timeout error at that moment unless the complete answer, body included, has arrived before, and otherwise settles as soon as the answer is complete or has failed; without a limit it waits. Variants of a late or unsuccessful answer are never stored, and failures reach the caller only if the client is configured to throw.',
  over: ['schedules', 'fault_sequences', 'inputs'], quantifier: 'every limit, arrival time of headers and body, status and failure',
  why: 'Tests try one fast and one slow answer.',
  files: [B + 'transport/http.ts', CL], mechanism: [['time limit and request', B + 'transport/http.ts'], ['handling of timeouts', CL]], observe_at: ['outcome and time of FetchHttpClient.request', 'outcome of fetch()', 'variant()'],
  bounds: 'Limits -5..20000 ms or absent; headers and body each 0..30 s later or never; status 100..599; network and body failures. The answer does not complete in the very millisecond of the limit.' },
{ id: 'B14', title: 'The analytics integration supplies identity, waits for it, and tracks',
  statement: 'With an analytics API key the identity persisted by the analytics SDK is taken from the first place holding a usable one (new cookie, old cookie, local storage, session storage), and nothing is read for other keys; garbled or inaccessible places are skipped without failing. Requests wait for an identity at most ten seconds, changes of identity trigger one fetch each if configured, and exposures are handed to the analytics SDK in order, exactly once, as soon as it listens.',
  over: ['inputs', 'schedules', 'histories', 'fault_sequences'], quantifier: 'every persisted content, moment of identification and sequence of identity changes and exposures',
  why: 'Tests use well-formed cookies and one delay.',
  files: [B + 'integration/amplitude.ts', B + 'util/state.ts', FA, MG], mechanism: [['plugin', B + 'integration/amplitude.ts'], ['persisted state', B + 'util/state.ts'], ['initialisation', FA], ['waiting for the integration', MG]], observe_at: ['identity in the connector', 'time and user of requests', 'events received by the analytics SDK'],
  bounds: 'Each place holding nothing, a state with or without each id, or unusable contents, and every text up to 3 characters of %E0~.{}"; identity arriving after 1..20000 ms or never; 3 identity edits; 3 exposures. Base64 is a transparent stand-in.' },
{ id: 'B15', title: 'Variants keep their key, value, payload and metadata on every path',
  statement: 'Whether fetched, evaluated locally, bootstrapped or reloaded from storage, a variant reaches the application with its key, value, payload, experiment key and metadata unchanged, and objects given by the application are not modified. Initial flags are used exactly for flags that are neither stored nor loaded, before and after loading and after a reload.',
  over: ['inputs', 'histories'], quantifier: 'every shape of variant and payload and every assignment of flags to sources',
  why: 'Tests use one payload text and non-overlapping flags.',
  files: [CL, B + 'util/convert.ts', B + 'storage/cache.ts'], mechanism: [['conversion', B + 'util/convert.ts'], ['storage format', B + 'storage/cache.ts'], ['initial variants and flags', CL]], observe_at: ['variant()', 'all()'],
  bounds: 'Payloads: every JSON value of nesting depth 1 over null, booleans, -2..2, texts up to one letter, lists, objects; value equal, different or absent; metadata absent, empty or with values; two flags each stored, initial, on the server or not. Variants have keys.' },
{ id: 'B16', title: 'Legacy analytics works as documented, told once; instances are singletons',
  statement: 'The deprecated analytics provider has the user property set and the exposure tracked once per flag and value, and unset once when the value is lost, whatever the order of lookups and whichever optional methods it has; lookups are unaffected. The providers for the legacy Amplitude SDK give what it knows at the moment, without failing when it is absent or incomplete, and tell it each exposure. Initialising again with the same instance name, API key and delivery returns the same client with its first configuration, and a different, independent client otherwise.',
  over: ['histories', 'configurations'], quantifier: 'every history of lookups and every pair of initialisations',
  why: 'Tests cover a single lookup with a provider having all methods.',
  files: [B + 'util/sessionAnalyticsProvider.ts', B + 'providers/amplitude.ts', CL, FA], mechanism: [['legacy Amplitude SDK', B + 'providers/amplitude.ts'], ['deduplication', B + 'util/sessionAnalyticsProvider.ts'], ['legacy exposure', CL], ['instances', FA]], observe_at: ['calls of the analytics provider', 'identity of clients'],
  bounds: '4 lookups of one flag, 2 (thorough: 3) over 2 flags, 2 values, a valueless variant and none, with and without fallback and optional methods; pairs of initialisations over 3 names or none, 2 keys, 3 deliveries; the legacy SDK absent or with each of its 8 facts missing, null or any letter.' },
{ id: 'B17', title: 'Local evaluation sees user, groups, page and dependencies correctly',
  statement: 'Flags evaluated locally can target every user field and property, the current page address, and for each group type the first group name with the properties of exactly that group, without modifying the user. Looking up one flag evaluates the flags it depends on first and gives the same result as listing all.',
  over: ['inputs', 'programs'], quantifier: 'every user, groups and group properties, address and dependency graph',
  why: 'Tests check two users with one group each and no dependencies.',
  files: [CL, B + 'util/convert.ts', 'packages/experiment-core/src/evaluation/topological-sort.ts'], mechanism: [['context of evaluation', B + 'util/convert.ts'], ['evaluation', CL], ['ordering', 'packages/experiment-core/src/evaluation/topological-sort.ts']], observe_at: ['variant()', 'all()', 'getUser()', 'user in the fetch request'],
  bounds: 'Groups absent, empty, null or of 1..2 types with 0..2 names over 3 values; 4 forms of group properties; 14 user fields, a user property and the address symbolic; 3 flags with every acyclic dependency, a missing one, both modes.' },
{ id: 'S01', title: 'The Segment integration tracks and identifies exactly when ready',
  statement: 'However Segment comes to the page (given instance, loaded script, loading snippet, npm package), exposures wait until it is ready and are then tracked with it once and in order, those it fails on being retried, also when set up without waiting. The user is that of Segment once ready and the stored identity before, unusable stored values counting as absent.',
  over: ['schedules', 'histories', 'fault_sequences', 'inputs'], quantifier: 'every way and moment of loading, sequence of exposures and stored content',
  why: 'Tests use a mock that is ready at once or never.',
  files: ['packages/plugin-segment/src/plugin.ts', 'packages/plugin-segment/src/snippet.ts', MG], mechanism: [['plugin', 'packages/plugin-segment/src/plugin.ts'], ['stub of the Segment global', 'packages/plugin-segment/src/snippet.ts'], ['queue', MG]], observe_at: ['events tracked with Segment', 'getUser()'],
  bounds: '5 ways of loading, ready after 0, 30, 120 or 1500 ms, default and configured key, 1..3 exposures; stored values valid, null or any text up to 2 characters of {}[]"1tn; storage blocked or failing. The Segment SDK is a stand-in.' },
{ id: 'B18', title: 'Whatever of the browser is missing, the client does the rest',
  statement: 'On a server, in a worker or a native application, where the document, navigator, location, storages, timers or the whole global object are missing, nothing throws and no promise is left to reject unnoticed. Flags and variants are requested, evaluated and served and each exposure tracked once, for the user with the facts that are known, flags that target the page not matching without one; without timers nothing is retried, polled or waited for.',
  over: ['configurations', 'fault_sequences'], quantifier: 'every combination of missing facilities, every outcome of the requests',
  why: 'Tests run in jsdom, where everything is present.',
  files: [CL, FA, MG, B + 'providers/default.ts', B + 'util/convert.ts', B + 'util/backoff.ts', B + 'integration/amplitude.ts', 'packages/experiment-core/src/util/global.ts', 'packages/experiment-core/src/util/poller.ts'], mechanism: [['global scope', 'packages/experiment-core/src/util/global.ts'], ['facts about the page', B + 'providers/default.ts'], ['page of the evaluation', B + 'util/convert.ts']], observe_at: ['requests', 'variants returned', 'events of the integration', 'unhandled rejections'],
  bounds: 'Every combination of document, navigator, location, either storage and the timers missing, or all of them with the global object; three outcomes of the request; with and without identity and lookups beforehand; with the analytics SDK or an integration.' },
];
