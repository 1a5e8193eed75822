const B = 'packages/experiment-browser/src/';
const CL = B + 'experimentClient.ts', MG = B + 'integration/manager.ts', CA = B + 'storage/cache.ts', CV = B + 'util/convert.ts', DP = B + 'providers/default.ts';
module.exports = [
{ id: 'B01', title: 'variant() resolves sources and fallbacks in the documented order',
  statement: 'A variant lookup consults, with the local-storage source, the stored variant (unless it is a default), the inline fallback, the initial variant, the configured fallback (unless empty), then any stored default; with the initial-variants source the initial variant comes before the stored one; for a flag in local evaluation mode the locally evaluated variant comes first, then inline, initial and configured fallbacks, and a default variant only last. The first source holding a variant decides the whole result, a variant given as text becomes one whose key and value are that text, and a lookup that finds nothing yields an undefined value. Flags not in local mode are evaluated locally only if nothing else was found.',
  over: ['inputs', 'configurations'], quantifier: 'every combination of what the sources hold for the flag, both source modes and every evaluation mode',
  why: 'Unit tests try a dozen combinations of present sources; the precedence has hundreds and several code paths.',
  files: [CL, CV], mechanism: [['variant resolution for the two source modes and local flags', CL], ['variant conversion', CV]], observe_at: ['return value of variant()'],
  bounds: 'One flag key; every combination of 5 stored, 6 inline, 4 initial and 4 configured-fallback forms, no flag or a flag in local/remote/unset mode yielding a variant, its default or nothing; both source modes; symbolic one-letter texts.' },
{ id: 'B02', title: 'all() is the key-wise union of sources and agrees with variant()',
  statement: 'Listing all variants returns for every known flag key the locally evaluated variant if the flag is in local evaluation mode, otherwise the variant of the primary source, otherwise that of the secondary source. It contains nothing else, agrees with looking up each key where a primary or secondary source decides, and is a copy whose modification does not affect the client.',
  over: ['inputs', 'configurations'], quantifier: 'every assignment of keys to sources and flags, including every collision of keys',
  why: 'Tests use fixed keys with at most one collision.',
  files: [CL], mechanism: [['union of sources and local evaluation', CL]], observe_at: ['return value of all()', 'return value of variant()'],
  bounds: 'Up to 2 stored and 2 initial variants and 2 flags under symbolic keys (every collision), each flag local/remote/unset and yielding a variant, its default or nothing; both source modes.' },
{ id: 'B03', title: 'Fetched variants replace or update the stored ones exactly, and survive reload',
  statement: 'A successful fetch without flag keys replaces all stored variants with the returned ones; a fetch for given flag keys stores the returned ones, removes requested ones that were not returned and keeps all others; a failed fetch changes nothing. A client created later with the same API key and instance name sees the same variants, one with another key or name sees none, and variants stored in the older formats remain readable. Clearing removes all of them, also from storage.',
  over: ['inputs', 'histories', 'fault_sequences'], quantifier: 'every set of stored, requested and returned keys and every response status',
  why: 'Tests fetch one or two fixed flags with a live server or a fixed mock.',
  files: [CL, CA, CV], mechanism: [['fetch and store', CL], ['storage-backed cache', CA]], observe_at: ['all() and variant() before and after reload', 'local storage contents'],
  bounds: 'Up to 2 stored variants, 2 returned variants (3 shapes each) and 2 requested keys, all keys symbolic; every error status 400..599; two consecutive fetches; 6 stored formats. The answer of a request overtaken by another is outside.' },
{ id: 'B04', title: 'Failed fetches retry with bounded backoff, one loop at a time',
  statement: 'After a failed fetch the client retries in the background if and only if retrying is enabled and the failure is not a client error other than 429, at most 8 times, with delays growing by half from 500 ms and each request limited to 10 s; it stops at the first success, whose variants are stored, and failures meanwhile stay in the background. A new fetch cancels the retries of the previous one, and at most one retry loop, that of the latest fetch, runs at any time.',
  over: ['fault_sequences', 'schedules'], quantifier: 'every failure of every attempt, every response delay and every moment of a new fetch',
  why: 'Tests use one fake failure with shortened timers; sequences of mixed failures and overlapping fetches are not tried.',
  files: [CL, B + 'util/backoff.ts'], mechanism: [['retry decision and loop ownership', CL], ['backoff loop', B + 'util/backoff.ts']], observe_at: ['times and timeouts of the requests sent', 'stored variants'],
  bounds: 'Every status 100..599, network error, timeout and malformed body for the first failure, the first and the last failing retry (thorough: the first three); success after 0..8 failed retries; response lag 0..5 s; a new fetch at 4 stages of the loop; two concurrent failing fetches in both orders.' },
{ id: 'B05', title: 'Exposure events carry what the user saw, and only for tracked sources',
  statement: 'Looking up or explicitly exposing a variant tracks an event with the flag key and, for an assigned variant, its key (its value if it has no key), experiment key and metadata; if a fallback or default was seen the event omits the variant, and nothing is tracked where the documentation says so or when the variant\'s metadata switches exposure tracking off. The event type is the one named by the metadata, else the impression type for web delivery, which adds the time and page seen, else the exposure type. Automatic tracking happens only if enabled, explicit exposure always.',
  over: ['inputs', 'configurations'], quantifier: 'every variant shape, source, fallback and tracking configuration',
  why: 'Tests check about ten fixed variants.',
  files: [CL, MG], mechanism: [['exposure construction', CL], ['event construction', MG]], observe_at: ['events given to the tracking integration'],
  bounds: '8 variant shapes x 5 places it comes from x 4 fallbacks x both source modes x automatic/explicit tracking, symbolic texts; web delivery: 2 exposures up to 1 s apart on 2 pages, the integration set up before, between or after, storage full or not.' },
{ id: 'B06', title: 'An exposure is tracked once per flag, variant and user identity',
  statement: 'Within one page load an exposure is sent when and only when the variant last exposed for that flag differs or the user identity changed since. For the deprecated analytics provider identities are equal when user id and device id both are; for integrations when the user ids are equal, or neither has one and the device ids are equal. Web-delivered variants are never suppressed, and session storage which is or becomes unusable does not change any of this.',
  over: ['histories', 'inputs'], quantifier: 'every history of exposures, variant changes and identity changes',
  why: 'Tests replay a handful of two- or three-step histories.',
  files: [MG, B + 'util/userSessionExposureTracker.ts', B + 'util/sessionAnalyticsProvider.ts'], mechanism: [['session dedupe cache', MG], ['per-user exposure tracker', B + 'util/userSessionExposureTracker.ts']], observe_at: ['events received by the integration or provider'],
  bounds: '3 steps (thorough: 4) over 2 flags and 3 outcomes; user and device ids each over 2 values or absent over 2 steps (thorough: 3); automatic and explicit exposure; one client per page load (the record kept across reloads is not claimed).' },
{ id: 'B07', title: 'Exposure events reach the integration in order, exactly once, none lost',
  statement: 'Every exposure event is delivered to the integration in order and is removed from the queue exactly when the integration accepts it: events raised before an integration is set up, rejected by it, or left over from an earlier page load are delivered later, retried within a second. At most the newest 512 events are kept, also while storage is full, replacing the integration continues with the new one, and a failing or throwing integration never makes the client throw.',
  over: ['histories', 'fault_sequences', 'schedules'], quantifier: 'every history of exposures, integration changes, acceptances, time and reloads',
  why: 'Tests cover one set-up delay and one rejection each; mixed histories are not tried.',
  files: [MG], mechanism: [['persistent tracking queue and its poller', MG], ['integration set-up', MG]], observe_at: ['sequence of events the integration accepts', 'local storage'],
  bounds: 'Histories of 4 operations (thorough: 6) among expose, add integration (set-up absent/succeeding/failing), finish set-up, one second passing, reload or the storage becoming full or usable; every call accepted, rejected or throwing; queues of 509..512 waiting events plus 0..4 new ones. One tab.' },
{ id: 'B08', title: 'Missing, full or corrupt browser storage never breaks the client',
  statement: 'With local or session storage absent, blocked, full, failing on any operation, or holding arbitrary corrupt content under the keys of this library, creating the client, fetching, looking up variants, tracking exposures and clearing never throw. Lookups then behave as if the storage were empty, and variants fetched afterwards are returned.',
  over: ['fault_sequences', 'inputs'], quantifier: 'every storage failure at every point and every corrupt content',
  why: 'Tests disable storage in one way; arbitrary content and access errors are not tried.',
  files: [CA, MG, B + 'storage/local-storage.ts', B + 'storage/session-storage.ts', 'packages/experiment-core/src/util/global.ts'], mechanism: [['cache load/store', CA], ['storage access', 'packages/experiment-core/src/util/global.ts'], ['queue and dedupe storage', MG]], observe_at: ['absence of exceptions', 'variants returned'],
  bounds: '7 corrupt contents and every text up to 2 characters of {}[]"1tn,: under each of the 5 storage keys; local, session or both storages refusing writes, reads, every operation or access itself, from the start or after construction.' },
{ id: 'B09', title: 'The user sent is the merge of explicit user, provider and integration',
  statement: 'The user evaluated and sent is the field-wise merge in which a field set explicitly wins over the integration\'s, which wins over the user provider\'s, null and undefined counting as unset, and user properties are merged likewise property by property; the library name and version are always included and the cookie is never sent. Neither the objects the application passed in nor those returned by the client share state with it: changing them later changes nothing.',
  over: ['inputs', 'histories'], quantifier: 'every presence and value of each field on each level',
  why: 'Tests merge one or two fixed users.',
  files: [CL, CV], mechanism: [['merging of users', CL]], observe_at: ['user in the fetch request', 'getUser()'],
  bounds: '2 fields, each absent/undefined/null/set on each of 3 levels; 2 user properties present or absent on each level; symbolic texts; previous user absent/null/with or without properties.' },
{ id: 'B10', title: 'Start and stop control flag loading and polling exactly',
  statement: 'Starting requests the flags once and fetches variants unless switched off; failures, polls\' included, surface only if configured to, and then to the caller; then, unless switched off, flags are polled at once and after every polling interval (default 5 minutes, never below one minute), a successful poll replacing the flags and a failed one keeping them. A second start while running does nothing, and after stop, called at any moment, nothing is requested and no timer remains until the next start, after which exactly one poller runs.',
  over: ['schedules', 'configurations', 'fault_sequences'], quantifier: 'every configuration, every failure of the requests and every moment of stop',
  why: 'Tests start and stop once with all requests succeeding at once.',
  files: [CL, 'packages/experiment-core/src/util/poller.ts'], mechanism: [['start, stop', CL], ['poller', 'packages/experiment-core/src/util/poller.ts']], observe_at: ['requests sent and their times', 'variants returned', 'pending timers'],
  bounds: 'Every polling interval 0..500000 ms and the default; polling and fetching unset/on/off; flag and variant requests succeeding or failing in 4 ways; stop at 6 points (including both requests of start in flight), restart, double start.' },
{ id: 'B11', title: 'The default user context describes the page faithfully',
  statement: 'The built-in user provider reports language, platform, browser, operating system, device and referrer, with fields given by the application\'s own provider taking precedence; the landing page stays that of the first page of the browser session, and the first-seen time that of the first visit, per API key. All cookies with their whole values and all URL parameters, with lists for repeated or comma-separated ones, can be targeted by local flags, and unusable storage affects only those fields which need it.',
  over: ['inputs', 'histories', 'fault_sequences'], quantifier: 'every cookie and query string, sequence of page loads and storage failure',
  why: 'Tests look at one page load with plain values.',
  files: [DP, B + 'factory.ts', CL], mechanism: [['default provider', DP], ['local evaluation context', CL]], observe_at: ['provider.getUser()', 'variant() of a locally evaluated flag'],
  bounds: '7 fields overridden or not; 3 page loads over 2 API keys and 4 URLs with session ends; two cookies with values up to 3 characters of xy=%; up to 3 query parameters over 4 names and 4 values. The user agent parser is a stand-in.' },
];
