const C = 'packages/experiment-core/src/evaluation/';
const EV = C + 'evaluation.ts';
module.exports = [
{ id: 'E01', title: 'Bucketing hash is MurmurHash3 x86-32 of the UTF-8 bytes, for every string',
  statement: 'The hash used to bucket users equals the reference MurmurHash3 x86 32-bit hash (seed 0) of the UTF-8 encoding of the bucketing text, for every text. Text in any language therefore buckets identically in this SDK and in every other implementation of the same hash.',
  over: ['inputs'], quantifier: 'every text, of every length modulo 4 and every mix of 1- to 4-byte characters',
  why: 'Unit tests compare a fixed list of random ASCII words with stored hashes; they never exercise every tail length with every byte, nor non-ASCII text.',
  files: [C + 'murmur3.ts', C + 'utils.ts'], mechanism: [['hash32x86 body/tail/finalisation', C + 'murmur3.ts'], ['stringToUtf8ByteArray', C + 'utils.ts']], observe_at: ['return value of the hash', 'variant assigned by a flag evaluation'],
  bounds: 'All ASCII strings up to 12 characters (24 in the thorough tier) and every mix of 1- to 4-byte characters up to 3 (4) characters, for all values. Multiplication by a constant is an uninterpreted function shared by code and reference (sound: constants and operand order are checked).' },
{ id: 'E02', title: 'Allocations and distributions bucket exactly the configured ranges',
  statement: 'A segment with a bucket gives a user the variant of the distribution whose half-open range contains floor(hash/100), inside the first allocation whose half-open range contains hash mod 100, where hash is that of "salt/value"; outside every range the segment\'s default variant applies, or the segment yields nothing if it has none. A missing, null or empty bucketing value always takes the default, non-text values are bucketed by their text, and the same value always receives the same variant.',
  over: ['inputs', 'configurations'], quantifier: 'every bucketing configuration (range endpoints, order, overlap) and every bucketing value',
  why: 'Tests evaluate a handful of flags with fixed ranges and a few users; off-by-one errors at range ends affect one user in millions.',
  files: [EV], mechanism: [['bucketing of a segment', EV]], observe_at: ['variants returned by a flag evaluation'],
  bounds: 'All allocation endpoints 0..100 and distribution endpoints 0..42949673 symbolically, up to 2 allocations x 2 distributions or 1 x 3; symbolic bucketing text up to 3 characters at full rollout, otherwise 5 concrete values and 2 salts (hash checked separately).' },
{ id: 'E03', title: 'Targeting operators follow their documented comparison semantics',
  statement: 'For a single condition, "is"/"is not", "contains"/"does not contain" (case-insensitive containment), the four ordered comparisons (numeric when both sides are numbers, otherwise textual), regular-expression match, and boolean words compared case-insensitively give the documented answer, and each negative operator is the exact complement of its positive one. Several filter values are alternatives: the positive operator holds if any of them matches. An unset property satisfies a positive operator exactly when the filter lists "(none)" and a negative one exactly when it does not; a list property satisfies a scalar operator when some element does, and an object is compared by its JSON text.',
  over: ['inputs', 'configurations'], quantifier: 'every property value and every filter value of each operator',
  why: 'Integration tests cover one or two literal values per operator and need the network for their flag configuration.',
  files: [EV], mechanism: [['operator matching', EV]], observe_at: ['whether the flag yields its variant'],
  bounds: 'Texts up to 3 characters, up to two filter values of up to 2 characters, integers -1000..1000 and 3-digit decimals, all letter cases of boolean words, 9 regular expressions. Excluded: non-numeric operands of numeric operators.' },
{ id: 'E04', title: 'First matching segment decides; metadata merges; results chain via dependencies',
  statement: 'A flag evaluates to the variant of its first segment whose conditions hold, where conditions are an OR of ANDs, no conditions at all means match and an empty OR list means no match; with no such segment the flag is absent from the result. The result carries the variant\'s fields with metadata merged key by key, variant over segment over flag, without modifying the configuration. Flags later in the list can test the variants earlier flags evaluated to in the same call, and nothing else carries over between flags or between calls.',
  over: ['inputs', 'configurations'], quantifier: 'every segment/condition structure and every user',
  why: 'Tests use a few fixed server-side flags; structures with several matching segments, empty lists and every truth assignment are not sampled.',
  files: [EV, C + 'select.ts'], mechanism: [['segment loop and metadata merge', EV], ['nested property selection', C + 'select.ts']], observe_at: ['map of flag key to variant returned by an evaluation'],
  bounds: 'Up to 3 segments, up to 2 alternatives x 2 conditions each, three symbolic properties; two-flag dependency chains; metadata present/absent on each level with symbolic values.' },
{ id: 'E05', title: 'Evaluation traces agree with the evaluation and explain it',
  statement: 'Evaluating with a trace returns exactly the variants that evaluating without a trace returns, for every user and flag list. The trace of a flag lists its segments in order up to the deciding one, marks exactly the matching segment and conditions as matched, and reports the values that were actually compared.',
  over: ['inputs', 'configurations'], quantifier: 'every user and flag configuration',
  why: 'Tests compare traces for single hand-written flags only; the traced path is a second implementation of evaluation that can drift.',
  files: [EV], mechanism: [['traced evaluation', EV]], observe_at: ['variants and trace objects returned'],
  bounds: 'Up to 3 segments, 2 alternatives, 2 conditions, symbolic properties, symbolic allocation end, a dependent second flag; two flags of 1 (thorough 2) segments with missing variants, split allocations and results of each other.' },
{ id: 'E06', title: 'Flags evaluate after their dependencies; cycles are reported',
  statement: 'Ordering flags for evaluation returns every requested flag and everything it transitively depends on exactly once, each after all of its dependencies, and nothing else; with no request it returns all flags. Dependencies and requested keys that name no flag are ignored, a dependency cycle reachable from the request raises an error and an acyclic graph never does, and the flag configuration is left unmodified.',
  over: ['configurations', 'inputs'], quantifier: 'every dependency graph and every requested start set',
  why: 'Tests order about ten hand-drawn graphs; the number of graphs and start sets is exponential.',
  files: [C + 'topological-sort.ts'], mechanism: [['topological sort', C + 'topological-sort.ts']], observe_at: ['ordered list or error'],
  bounds: 'Every graph on up to 3 flags incl. self-loops and missing keys and every start set; every 4-flag (thorough: 5) acyclic graph under several rank orders.' },
{ id: 'E07', title: 'Version operators order versions as semantic versions',
  statement: 'The version operators compare well-formed versions major, then minor, then patch numerically, treat a missing patch as zero, order a pre-release before its release and pre-releases textually, so that exactly one of less, equal, greater holds. A property or a filter list without any well-formed version is compared as plain text, and a malformed filter value beside a well-formed one is ignored.',
  over: ['inputs'], quantifier: 'every pair of versions',
  why: 'Tests compare about twenty literal version pairs.',
  files: [C + 'semantic-version.ts', EV], mechanism: [['version parsing and comparison', C + 'semantic-version.ts']], observe_at: ['whether a flag with a version condition yields its variant'],
  bounds: 'Each numeric part 0..120, two- and three-part versions, pre-release texts of 1-2 of the characters aBb1_, up to two filter values.' },
{ id: 'E08', title: 'Set operators implement set equality, containment and their complements',
  statement: 'For list-valued properties (arrays, or text holding a JSON array) the operators set is, set contains, set contains any and their negative forms decide set equality, filter-subset-of-property, non-empty intersection and the respective complements, ignoring order and duplicates in the property. A property that is neither a list nor the text of one satisfies no set operator, positive or negative.',
  over: ['inputs'], quantifier: 'every list of property values against every set of filter values',
  why: 'Tests hold one literal list per operator.',
  files: [EV], mechanism: [['set operators', EV]], observe_at: ['whether a flag with a set condition yields its variant'],
  bounds: '0..3 list elements over 3 values, 0..3 distinct filter values over 4 values, array and JSON-text and duplicated forms.' },
];
