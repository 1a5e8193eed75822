const T = 'packages/experiment-tag/src/';
const EX = T + 'experiment.ts', IX = T + 'index.ts';
module.exports = [
{ id: 'T01', title: 'The web experiment tag runs only with consent, and starts once',
  statement: 'Where consent is required, nothing is started, stored, read or tracked before it is granted, whatever the order of initialisation, consent decisions, window configuration and events; with consent the tag starts exactly once. The decision at runtime takes precedence over configuration and invalid decisions are ignored. Events from before the grant are never replayed, while those after it but before the start are replayed once in order, the newest 500.',
  over: ['schedules', 'histories', 'configurations'], quantifier: 'every order and timing of initialisation, consent decisions, configuration and events',
  why: 'Tests exercise a few fixed orders with a mocked client; the suites of the tag cannot even run offline.',
  files: [IX, T + 'consent/consent-gate.ts', T + 'consent/consent-manager.ts', T + 'util/config.ts', EX], mechanism: [['entry points', IX], ['gate before the start', T + 'consent/consent-gate.ts'], ['decision and listeners', T + 'consent/consent-manager.ts']], observe_at: ['starts of the client', 'web storage and cookies', 'events reaching the client'],
  bounds: '3..4 calls among initialisation, consent decision, event and window configuration in the stated orders; any status text of 6 or 7 letters or none; 499..501 events before the start; 4 transitions of the consent state with 2 listeners. One API key per page; 1 or 2 further calls of start() at any of 41 moments.' },
{ id: 'T02', title: 'Web storage and cookies are untouched while consent is withheld',
  statement: 'While consent is pending or refused, no access through the tag reads or writes web storage or cookies, except records declared exempt; readers see what was held in memory. A grant hands over what was held exactly once, keeping the identity already on the device, and a refusal discards it. This holds also for cookie operations in flight when the decision comes.',
  over: ['histories', 'schedules', 'inputs', 'fault_sequences'], quantifier: 'every history of storage operations and decisions with every timing of asynchronous cookie access',
  why: 'Tests check single operations before and after a single grant.',
  files: [T + 'util/storage.ts', T + 'util/grant-flush-merge.ts', T + 'util/storage-keys.ts', T + 'consent/consent-cookie-storage.ts', T + 'util/cookie.ts'], mechanism: [['gated web storage', T + 'util/storage.ts'], ['merge on grant', T + 'util/grant-flush-merge.ts'], ['gated cookies', T + 'consent/consent-cookie-storage.ts']], observe_at: ['localStorage and sessionStorage', 'calls of the cookie store', 'values read back'],
  bounds: '4 operations and decisions over one record (3 over two records or stores), 9 identifiers; 4 on asynchronous cookies with gaps of 0..4 microtasks or all; 4 on the JSON cookie; a refusal after any write of a handover.' },
{ id: 'T03', title: 'Impressions wait for consent and are then sent exactly once',
  statement: 'Impressions tracked while consent is pending are held, the newest 512 in order, and sent exactly once on a grant with the time they happened, failed ones being retried every second. A refusal at any moment drops all that are held or waiting for another attempt, even if consent returns. With consent they are sent directly.',
  over: ['histories', 'schedules', 'fault_sequences'], quantifier: 'every history of impressions, decisions and time with every outcome of each delivery',
  why: 'Tests check one impression and one decision.',
  files: [T + 'consent/consent-impression-buffer.ts'], mechanism: [['buffer', T + 'consent/consent-impression-buffer.ts']], observe_at: ['events given to the integration'],
  bounds: 'Histories of 4 (thorough 5) steps among tracking, grant, refusal, a second and less, each delivery accepted, refused or failing; 511..514 impressions; two integrations.' },
{ id: 'T04', title: 'Refusing consent erases everything the tag stored and nothing else',
  statement: 'A refusal at load or at any moment of the start removes every record the tag wrote to web storage and every cookie it set at any domain level, and leaves everything else, including other API keys and the analytics SDK. It leaves a marker for other subdomains, on which they erase their own records once.',
  over: ['schedules', 'configurations', 'inputs'], quantifier: 'every moment of refusal, page, host and prior storage content',
  why: 'Tests compare a fixed list of keys, so a record the list forgets is left behind unnoticed.',
  files: [T + 'consent/clear-data.ts', T + 'util/cookie.ts', EX, IX], mechanism: [['erasure', T + 'consent/clear-data.ts'], ['cookies at all levels', T + 'util/cookie.ts'], ['refusal', IX]], observe_at: ['localStorage and sessionStorage', 'cookies at every domain level'],
  bounds: 'Refusal after 0..15 task steps of the start, later, or at load; 3 hosts and localhost; cookies at every level or absent; named instance or not; same-host, cross-subdomain or no redirect. The running client may persist its caches again.' },
{ id: 'T07', title: 'Behavioral events are kept within limits, persisted, merged and gated',
  statement: 'Queries see exactly the events of the asked type within the session or rolling window; at most the newest 500 are kept, and they survive reload, unload and hiding of the page, while unusable stored contents count as none. Merging with other subdomains yields the union by identity in time order. Events from before or during a refusal are neither stored nor shared.',
  over: ['histories', 'inputs', 'schedules'], quantifier: 'every set of events and times, history of writes and decisions, and stored content',
  why: 'Tests use a few events well within one window and a single merge.',
  files: [T + 'behavioral-targeting/event-storage.ts'], mechanism: [['event storage', T + 'behavioral-targeting/event-storage.ts']], observe_at: ['results of queries', 'localStorage', 'events given to the relay'],
  bounds: '3 events of 2 types and 2 sessions within 20 days, windows of 0..30 hours or days; 498..501 events; 4 steps of adding, waiting, hiding, leaving, clearing; 8 unusable contents; 2 stored merged with 2 shared events; 5 steps with consent decisions.' },
{ id: 'T05', title: 'A visitor keeps one identity over visits and subdomains',
  statement: 'The web experiment id is the one already known to the device (including the older device id) and is otherwise made anew once; the visitor id and time of first visit come from the cookie of the common domain, else from local storage, else are made anew. All are kept for later visits, and on every subdomain where cookies can be set. Contents which cannot be used count as absent and never stop the start.',
  over: ['histories', 'inputs', 'fault_sequences'], quantifier: 'every prior content of storage and cookies, history of visits and loss of either',
  why: 'Tests check one prior content at a time with mocked cookies.',
  files: [EX, T + 'util/cookie.ts'], mechanism: [['resolution at the start', EX], ['shared record', T + 'util/cookie.ts']], observe_at: ['user given to the evaluation', 'localStorage', 'cookies'],
  bounds: 'All combinations of presence of 4 records with 3 ids, cookies usable or blocked; two visits to 3 hosts at 4 intervals with loss of storage or cookies; 8 damaged contents of each record and 6 of the cookie.' },
{ id: 'T06', title: 'Cookies round-trip and campaign parameters merge by precedence',
  statement: 'A cookie reads back exactly as written whatever its text and neighbours, on the broadest domain the browser accepts, never on a public suffix or address; probing leaves nothing behind. Campaign parameters of the page win over the own record, and that over the record of the analytics SDK, parameter by parameter, and are kept. Parameters carried over to another address never replace those it has.',
  over: ['inputs', 'configurations'], quantifier: 'every cookie text, host, set of acceptable domains, source of parameters and address',
  why: 'Tests read and write single plain values on one host.',
  files: [T + 'util/cookie.ts', T + 'util/campaign.ts', T + 'util/url.ts'], mechanism: [['domains and raw cookies', T + 'util/cookie.ts'], ['campaign data', T + 'util/campaign.ts'], ['addresses', T + 'util/url.ts']], observe_at: ['cookies', 'user properties', 'addresses returned'],
  bounds: 'Hosts of up to 3 labels before 6 suffixes, 64 IPv4 and one IPv6 address; every subset of 3 domains accepted or all blocked; texts up to 2 characters of a set of 8 next to 2 others, raw ones up to 3; 2 parameters in 3 places; addresses with up to 3 parameters, repeated or encoded.' },
{ id: 'T08', title: 'A session lasts until inactivity exceeds its timeout',
  statement: 'Calls within the timeout (30 minutes unless configured) of the latest activity get the same session id, the first call after it a new one, and each session keeps its time of start. Tabs and subdomains share the session where cookies can be set, otherwise it lives in memory. Stored contents which cannot be used are replaced, and without consent nothing is stored.',
  over: ['histories', 'inputs', 'schedules'], quantifier: 'every history of calls over tabs and subdomains, with any gaps and timeout, and every stored content',
  why: 'Tests jump the clock by amounts far from the boundary in a single tab.',
  files: [T + 'behavioral-targeting/session-manager.ts', T + 'util/cookie.ts'], mechanism: [['session', T + 'behavioral-targeting/session-manager.ts'], ['shared record', T + 'util/cookie.ts']], observe_at: ['session ids returned', 'cookies'],
  bounds: '4 calls each 0..4000 s after the one before with any timeout of 0..4000 s or the default, on one page, two subdomains or without cookies; 9 shapes of stored content with texts up to 2 characters; 4 calls and consent decisions. The clock does not go back.' },
{ id: 'T09', title: 'Behavioral rules match exactly when the counted events say so',
  statement: 'A condition holds exactly if the number of events of its type and property filters, within its session or rolling window, compares as asked, or does not where it is negated; a rule holds if all conditions of any of its alternatives hold. The matched rules of every flag are those that held at load or at the latest event the rule is about, and every change of them is noticed.',
  over: ['histories', 'inputs', 'programs'], quantifier: 'every set of stored events and times, condition, rule and history of events',
  why: 'Tests evaluate a few rules over a few events without times near the window.',
  files: [T + 'behavioral-targeting/evaluator.ts', T + 'behavioral-targeting/behavioral-targeting-manager.ts', T + 'behavioral-targeting/event-storage.ts', T + 'behavioral-targeting/util.ts'], mechanism: [['conditions and rules', T + 'behavioral-targeting/evaluator.ts'], ['matched rules', T + 'behavioral-targeting/behavioral-targeting-manager.ts'], ['windows', T + 'behavioral-targeting/event-storage.ts']], observe_at: ['matched rules of each flag'],
  bounds: '2 (thorough 3) stored events at any time of 4 days, windows of 0..5 hours or days or the session, all operators with -1..4; up to 3 alternatives of up to 3 conditions; 3 events each 0..4000 s after the one before against 4 rules; filters with texts up to 2 characters. Rules are not evaluated anew merely because time passes.' },
{ id: 'T10', title: 'The event relay trusts only its own frame and loses no event',
  statement: 'Only messages of the relay frame from its origin are taken, and each request settles exactly once with its answer, failure, timeout or teardown. Events wait until the relay is ready and are kept until it confirms them; after a sync both sides hold the union. Nothing is shared once consent is refused, and a relay that fails or is absent never disturbs local operation.',
  over: ['schedules', 'fault_sequences', 'histories', 'inputs'], quantifier: 'every origin, timing and outcome of messages, readiness, teardown, and consent decision',
  why: 'Tests answer each request at once from the right origin.',
  files: [T + 'behavioral-targeting/relay-client.ts', T + 'behavioral-targeting/event-storage.ts', T + 'behavioral-targeting/behavioral-targeting-manager.ts'], mechanism: [['frame and requests', T + 'behavioral-targeting/relay-client.ts'], ['sync and union', T + 'behavioral-targeting/event-storage.ts'], ['refusal', T + 'behavioral-targeting/behavioral-targeting-manager.ts']], observe_at: ['messages posted', 'results of requests', 'local events'],
  bounds: '5 other origins and 2 other windows, 7 other contents; 2 requests of 3 kinds answered, failing or torn down up to 3 s; readiness or teardown up to 6 s; 5 steps of writing and readiness; sync of 2 own with 2 shared events with each step failing and consent withdrawn before any. Nothing happens in the very millisecond of a timeout.' },
{ id: 'T12', title: 'Visitors are redirected once, to the right address, never in a loop',
  statement: 'A redirect in scope whose destination is elsewhere navigates exactly once, to its address with the page\'s parameters it does not set itself, and leaves its impression and campaign for the destination in the session, cookie and address as configured. If the server or the application undoes it without the visitor acting it is suppressed for the session, while a visitor who returns is redirected again. A navigation that fails leaves no trace, can be tried again and does not disturb the page.',
  over: ['inputs', 'histories', 'schedules', 'fault_sequences'], quantifier: 'every address, scope and history of navigations and visitor actions, and evaluations at any moment',
  why: 'Tests check fixed addresses and one loop at a time.',
  files: [EX, T + 'util/url.ts'], mechanism: [['redirect and loop detection', EX], ['addresses', T + 'util/url.ts']], observe_at: ['navigations', 'sessionStorage and cookies', 'events tracked at the destination'],
  bounds: '2 paths, 5 queries (one repeating a parameter) and 2 fragments against 2 paths, 3 queries, 3 fragments and 2 hosts; any page condition of 1 or 2 characters; 4 (thorough 5) steps of being turned back, loading, acting or navigating among 3 addresses; impression texts up to 2 characters; 3 ways of failing; up to 2 evaluations at 13 moments while redirecting; 11 damaged records of 4 kinds.' },
{ id: 'T13', title: 'The page shows exactly what the current variants and page scopes say',
  statement: 'At any settled moment the mutations and injections present are those of the served variants whose page scope is active, whatever sequence of navigations, manual activations, behaviors, applications and reverts led there; none is applied twice, left behind or missed. An action which fails does not affect any other. Active pages and experiments are reported accordingly.',
  over: ['histories', 'inputs', 'schedules', 'fault_sequences'], quantifier: 'every history of navigations, activations, behavioral events, variant changes and reverts, with every timing between them',
  why: 'Tests apply one variant on one page and mock the pieces in between.',
  files: [EX, T + 'subscriptions/subscriptions.ts', T + 'subscriptions/message-bus.ts', T + 'util/page-object.ts'], mechanism: [['apply and revert', EX], ['pages and behaviors', T + 'subscriptions/subscriptions.ts'], ['messages', T + 'subscriptions/message-bus.ts']], observe_at: ['mutations and injections on the page', 'active pages and experiments reported'],
  bounds: '2 pages each matching any text of 1 or 2 characters, 3 addresses reached in 3 ways, 3 (thorough 4) steps of switching 2 manual triggers or navigating; 3 toggles or events with pauses of 0..13 microtasks; 2 stored events and a sync; 3 changes among 4 variants; 7 failing or unusable actions; 3 experiments depending on one with behaviors; failing removals.' },
{ id: 'T14', title: 'Web exposures and redirect impressions are tracked exactly once',
  statement: 'An exposure is tracked exactly once per page and variant, for exactly the experiments active there and not for anything else. An impression kept by a redirect is tracked once when the visitor reaches its destination, or half a second later otherwise, and is then forgotten; one kept meanwhile is not lost. Damaged records count as none.',
  over: ['histories', 'inputs', 'schedules', 'fault_sequences'], quantifier: 'every history of navigations, variant changes and activations, and every origin and content of a kept impression',
  why: 'Tests check a single exposure or a single stored impression on a fixed page.',
  files: [EX, T + 'util/url.ts', T + 'subscriptions/subscriptions.ts'], mechanism: [['exposures and impressions', EX], ['addresses', T + 'util/url.ts'], ['navigation', T + 'subscriptions/subscriptions.ts']], observe_at: ['events given to the integration', 'sessionStorage, cookie and address'],
  bounds: '2 (thorough 3) steps of navigating, changing among 5 variants, or switching a trigger, with any page text of 1 or 2 characters and 3 mixtures of actions; impressions of 2 redirects in session, cookie, address or all, damaged or not; 2 other pages at 3 moments; another redirect at 4 moments before one is due; 12 damaged records in 3 places beside a good one.' },
{ id: 'T15', title: 'Pages become active exactly when their trigger happens',
  statement: 'A page with a click, hover, focus, element, visibility, scroll, time, exit or event trigger becomes active exactly when that has happened, for the required time or extent, on the current address with its conditions matching, and stays so until navigation. Every matching trigger counts, independently of others. Navigation ends all of them, including those still pending.',
  over: ['histories', 'schedules', 'inputs'], quantifier: 'every history of interactions, page changes, times and navigations, and every threshold',
  why: 'Tests trigger each kind once in a mocked page and hardly ever twice, nested, hidden or across navigation.',
  files: [T + 'subscriptions/subscriptions.ts', T + 'subscriptions/message-bus.ts', T + 'util/triggers/mutation-manager.ts', T + 'util/page-object.ts', EX], mechanism: [['triggers and their state', T + 'subscriptions/subscriptions.ts'], ['messages', T + 'subscriptions/message-bus.ts'], ['observed document', T + 'util/triggers/mutation-manager.ts']], observe_at: ['active pages reported', 'mutations on the page'],
  bounds: '3 (thorough 4) steps with any wait of up to 2.5..3.5 s, at most 4 triggers of one kind on nested and other elements; delays of 0..3 s, any minimum time, scroll position, percentage and share in view; event names of 3 characters. The pointer may count for either of nested elements of one selector.' },
{ id: 'T16', title: 'The visual editor loads only trusted overlays, once, and pauses experiments',
  statement: 'The editor\'s overlay script is loaded only from an https address whose host ends in .amplitude.com, and only for an OpenOverlay message from such a host or for a valid stored session; scripts load one at a time, none after one has loaded, and one that failed may be asked for again. It carries the nonce of the page and waits for its body, with an indicator shown only while loading and for at most 10 s. In the editor no variant is applied or tracked, the parameter leaves the address, and without the window that opened it nothing loads and a notice is shown.',
  over: ['inputs', 'histories', 'faults'], quantifier: 'every origin, script address and stored session, and every order of messages, loads and failures',
  why: 'Tests send a handful of messages; whether a lookalike host, an early message or two modes at once slip through depends on all of them.',
  files: [T + 'util/messenger.ts', T + 'util/when-body-ready.ts', T + 'util/loading-indicator.ts', T + 'util/opener-channel.ts', T + 'util/opener-severed-banner.ts', EX], mechanism: [['messages and sessions', T + 'util/messenger.ts'], ['waiting for the body', T + 'util/when-body-ready.ts'], ['editor mode of the client', EX]], observe_at: ['scripts in the document', 'mutations and events', 'address'],
  bounds: 'Any origin or script address of http(s), up to 2 (thorough 3) characters of a 7-letter alphabet before and after four spellings of the host; 3 (4) messages, loads, failures and body changes; all mixes of editor and preview parameters, sessions and opener states.' },
{ id: 'T17', title: 'Injected code can wait for elements and keep its own in the page',
  statement: 'waitForElement gives an element matching the selector as soon as the page has one, once. insertElement puts the element at its place (last in the parent, or right before the sibling inside it) as soon as that place exists and whenever the element was removed, at most ten times within a second, calling back after each and resolving at the first. Once the injection is reverted nothing more is inserted or given and the page is no longer watched; injections do not affect each other or other mutations, also if one fails.',
  over: ['histories', 'schedules'], quantifier: 'every history of page changes, removals, waits and reverts',
  why: 'The helpers run on each change of a page that fights back; tests make one or two changes.',
  files: [T + 'util/inject-utils.ts', EX], mechanism: [['the helpers', T + 'util/inject-utils.ts'], ['injection and its revert', EX]], observe_at: ['document', 'promises and callbacks'],
  bounds: '3 (thorough 4) steps: parent or sibling coming, moving, going or coming to match, 1, 10 or 12 removals or 11 changes at once, any wait up to 1.5 s, the revert; three bursts of removals after any two waits; insertions failing at once or later; 4 (5) steps of waiting for two elements; two injections over 3 (4) navigations.' },
{ id: 'T18', title: 'Preview mode forces the asked variants on fresh configuration all session',
  statement: 'With PREVIEW=true in the address, every parameter naming a flag forces that variant (an unknown one shows nothing) on the pages where the flag is active, while other flags run as evaluated; each is tracked once per address. This holds for the whole session and all navigations, the parameters leave the address, and one notice lists them. The latest configuration is fetched first with the page hidden; when that fails, is malformed or takes 10 s, the given one is used, and a damaged stored preview is ignored.',
  over: ['inputs', 'faults', 'histories'], quantifier: 'every choice of previewed variants, way of asking, answer of the server and sequence of navigations and pages',
  why: 'Tests preview one flag on one page with a working server; combinations with failures, sessions and navigation are left out.',
  files: [IX, EX, T + 'preview/preview-api.ts', T + 'preview/http.ts', T + 'preview/preview.ts', T + 'util/url.ts', T + 'subscriptions/subscriptions.ts'], mechanism: [['fetch and fallback', IX], ['forced variants', EX], ['after navigation', T + 'subscriptions/subscriptions.ts']], observe_at: ['mutations and events', 'requests', 'address', 'notice'],
  bounds: 'Three flags, up to four variants; known, unknown and empty values, two orders, other values of the parameter, stored sessions, the extension; answers at any moment up to 12 s, four other statuses, six malformed bodies, failures; one (thorough two) navigations or pages; thirteen damaged sessions; three previews by method.' },
{ id: 'T19', title: 'Remote experiments wait for their flags, others do not, nothing stays hidden',
  statement: 'Local experiments are applied without waiting; remote ones, and all that depend on them however far, after one request for flags is answered, with the flags served or, if it fails or takes over 1 s, the cached or initial ones; a cached answer shows its variant meanwhile. The page is hidden only for a blocking remote experiment active on it, until answered and for 1 s at most, and a hiding style of its own goes once it is ready. Nothing is fetched without remote experiments, when all are previewed, or when redirecting, and with a holdout or mutex, variants wait until the integration knows the visitor.',
  over: ['inputs', 'schedules', 'faults'], quantifier: 'every order of flags, dependency, state of the cache and moment and kind of answer',
  why: 'Tests answer at once with one ordering of flags; races of the answer with the two timeouts and the cache are not sampled.',
  files: [EX, IX, T + 'util/anti-flicker.ts', T + 'util/csp-safe-stylesheet.ts', 'packages/experiment-browser/src/experimentClient.ts', 'packages/experiment-browser/src/integration/manager.ts'], mechanism: [['order of a start', EX], ['fetch of flags', 'packages/experiment-browser/src/experimentClient.ts'], ['hiding', T + 'util/anti-flicker.ts']], observe_at: ['mutations and events', 'style sheets', 'requests'],
  bounds: 'One local and one remote experiment and a chain of two depending on it, in all six orders; blocking or not, active here or elsewhere; with or without a cached answer; answered at any moment up to 2.5 s by flags, three statuses, malformed, empty, a failure or never; previews; a redirect, by the browser or the application; with and without a hiding style of the page; four groups and integrations set up at any moment, failing or never.' },
{ id: 'T20', title: 'The debug state says what is so, and its subscribers hear of changes',
  statement: 'For every flag the debug state gives the variant the client gives, the segment that matched, and a reason exactly when it is off, naming a dependency as blocking only if the flag is off and a condition on it failed before any segment matched. A page is reported as passed exactly if it is active, whatever its trigger and however it came about; consent, the impressions held for it and the state of the editor are reported as they are. With debugging on, each subscriber is given the state once, 100 ms after the last change of pages or address; with it off nothing is recorded.',
  over: ['histories', 'inputs', 'schedules'], quantifier: 'every history of triggers and navigations, every user and every order of segments and dependencies',
  why: 'Tests look at one snapshot of a fixed configuration; that it agrees with what the client does needs all histories.',
  files: [EX, T + 'subscriptions/subscriptions.ts', T + 'util/debug-recorder.ts', T + 'types/debug.ts', 'packages/experiment-browser/src/experimentClient.ts', 'packages/experiment-core/src/evaluation/evaluation.ts'], mechanism: [['flags and dependencies', EX], ['pages and triggers', T + 'subscriptions/subscriptions.ts'], ['snapshot', T + 'util/debug-recorder.ts']], observe_at: ['getDebugState', 'addDebugStateSubscriber', 'mutations on the page'],
  bounds: '2 or 3 (thorough 1 more) steps of the histories of T15 for each kind of trigger; 2 (3) segments of 6 shapes to 3 variants over a holdout, mutex or prerequisite and two user properties of one character; 3 (4) steps of 2 pages, navigation and unsubscribing with any waits up to 150 ms, debugging activated in two ways, wrongly or not; 3 (4) steps of initialising and deciding on consent, 4 (5) of two integrations with impressions held, 2 (3) of opening the editor.' },
{ id: 'T21', title: 'What the tag adds to a page leaves the rest of it alone',
  statement: 'A plain click on a link of the page\'s router whose address an experiment changed goes to that address exactly once: by the router or the history on this origin, with a full load elsewhere; any other click is left to the page. Style sheets are in effect exactly while not reverted, once each, made in the window they are for, and those of the page stay in order. Removing a node that is no longer a child does nothing instead of failing.',
  over: ['inputs', 'histories'], quantifier: 'every click, link and router, and every sequence of changes of style sheets',
  why: 'No test covers the links; those of style sheets use one handle on a page of its own.',
  files: [T + 'util/spa-link-interceptor.ts', T + 'util/csp-safe-stylesheet.ts', T + 'util/patch.ts', EX], mechanism: [['links', T + 'util/spa-link-interceptor.ts'], ['style sheets', T + 'util/csp-safe-stylesheet.ts'], ['removal', T + 'util/patch.ts']], observe_at: ['history, router and address', 'adopted style sheets', 'nodes'],
  bounds: '9 addresses, 5 targets, any modifier keys and buttons, 4 records of mutations, 4 kinds of links, 4 places clicked (one deviation from a link to follow, thorough all), 3 routers, one or two clients; 3 (4) steps with 2 sheets of equal or other text on 4 kinds of roots; 3 relations of nodes.' },
{ id: 'T22', title: 'Page subscribers hear of every change; the editor replaces the pages',
  statement: 'Every subscriber is told of each change of the active pages, once, with those active then, until it unsubscribes, and of nothing else. In the visual editor a new set of pages replaces the former one at once: exactly its pages whose triggers have happened since and whose conditions match become active, and no variant is applied. Outside of the editor the pages cannot be replaced.',
  over: ['histories', 'inputs'], quantifier: 'every history of triggers, navigations, subscriptions and sets of pages',
  why: 'Tests subscribe once, and replace the pages once if at all.',
  files: [EX, T + 'subscriptions/subscriptions.ts', T + 'subscriptions/message-bus.ts', T + 'util/page-object.ts'], mechanism: [['changes told', T + 'subscriptions/subscriptions.ts'], ['pages of the editor', EX], ['comparison', T + 'util/page-object.ts']], observe_at: ['callbacks', 'active pages reported', 'mutations on the page'],
  bounds: '3 (thorough 4) steps of a manual and a click trigger, navigation, 4 sets of pages and unsubscribing, with conditions on any text of 1 or 2 characters of /ab, in and out of the editor; beside a failing subscriber.' },
{ id: 'T11', title: 'Options on the page win over the script\'s, whichever part of the tag reads them',
  statement: 'An option in window.experimentConfig wins over the same option given to initialize, which wins over the default; consent options do so one by one. Every part of the tag acts on that option: flags, latest preview configuration and the shared frame come from the same server zone, written in any case, unless their addresses are given; so do redirects, navigation, sessions, the instance whose data a refusal clears, the HTTP client and the consent gate. The objects holding the options stay as they are.',
  over: ['inputs', 'configurations'], quantifier: 'every assignment of the options on the page and in the script',
  why: 'Tests set one option in one place and look at one reader; agreement needs all combinations and readers.',
  files: [T + 'util/config.ts', IX, EX, T + 'behavioral-targeting/relay-client.ts', T + 'consent/clear-data.ts', T + 'preview/preview-api.ts', 'packages/experiment-browser/src/experimentClient.ts'], mechanism: [['merging', T + 'util/config.ts'], ['gate and preview configuration', IX], ['frame', T + 'behavioral-targeting/relay-client.ts']], observe_at: ['requests and frames', 'redirect address and cookies', 'mutations on the page', 'stored data'],
  bounds: 'Each option on the page, in the script, in both or neither: zones of up to 2 letters of e, u, s in any case; 4 choices of frame and of flags server; redirect flags; navigation; session timeouts and pauses up to 4,000 s; 3 instance names and 4 HTTP clients; consent required or not and 3 statuses.' },
{ id: 'T23', title: "The editor's mobile view frames the loaded page and follows its address",
  statement: "With the visual editor open in mobile view, the page is replaced by a single frame with the same address, less the editor's parameter, only once it has loaded, and the overlay script comes only after that. The address of the page, and with it the active pages, then follows every load, push, replacement and return in the frame, adding no history entries and keeping the history state, while foreign documents leave it as it is and the frame's own navigations keep their arguments and failures. Within that frame, and only there, the tag applies, tracks, redirects and opens nothing, and hands its DOM mutator to the overlay.",
  over: ['histories', 'schedules', 'configurations'], quantifier: 'every moment at which the page finishes loading, every sequence of navigations in the frame and every kind of frame and setting',
  why: 'No test of the repository exercises the shell; it depends on load order and on histories in the frame.',
  files: [T + 'util/shell.ts', EX], mechanism: [['shell and following its address', T + 'util/shell.ts'], ['start in editor mode and in the frame', EX]], observe_at: ['page elements', 'address and history', 'overlay script', 'mutations, exposures and redirects'],
  bounds: 'The page complete or not, with its body or not, over 4 steps; 3 (thorough 4) loads, pushes, replacements, returns, foreign documents, refused navigations or empty loads to 4 addresses; 5 kinds of frame and 4 settings of the mobile view, with and without the parameter or a stored session.' },
];
