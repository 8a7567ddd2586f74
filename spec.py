"""The single source of properties.jsonl, MANIFEST.json and the plan of the checks (see gen.py)."""

KEYS = ("Keys are dotted (delimited) paths of non-empty segments over a small shared alphabet plus longer, "
        "non-ASCII and digit segments, so that they share runs of characters, are prefixes of each other, "
        "and fall on and off segment boundaries.")

P = []


def prop(id, title, statement, over, text, why, files, mechanism, quick, thorough, rule, note, state=None, observe=None, **plan):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a, "note": note,
              "plan": dict(quick=quick, thorough=thorough, rule=rule, **plan)})


prop("C01", "A key reads back the value last set for it",
     "After any sequence of sets, overwrites and removals, reading an existing key gives exactly the value most recently set for it, and setting a key reports the value it replaced. "
     "Reading a path that was never set, or was removed, reports that it is not found and gives no data, whatever characters it shares with existing keys. "
     "No operation on one key changes the value of any other key, including keys that are a prefix, an extension or a sibling of it.",
     ["histories", "inputs"], "all histories of set/insert/setex/remove over all well-formed keys (no empty segments, no spaces, no segment starting with ':' or '*'), all values, delimiters '.', '/', '-', '_', ':' and others",
     "The tests insert a fixed list of a few dozen keys in one order; the radix tree's shape (splits, promotions of inner nodes) depends on the order and on the exact shared characters of every key.",
     ["radix/node.go", "radix/trie.go", "store.go"],
     [("insertion and node split", "radix/node.go: insertInternal, splitChild, insertAsLeaf"), ("lookup", "radix/node.go: matchR; radix/trie.go: search, Query, Get, MustGet"), ("store front", "store.go: Set, Get, MustGet, setKV")],
     160000, 3000000,
     "A case is a history of 1-24 operations on a store or a bare trie with probes; after every operation every model key and every probe is read. Non-trivial: at least one tree split and one overwrite happened.",
     "Model-based random search over histories against a plain map; explores bounded histories (24 operations), trusts the map model and the key domain stated.",
     state=[("tree", "radix tree of path pieces, data and type flags per node", "radix/node.go: nodeS")],
     observe=["Store.Get/MustGet/Has/Locate/Query", "return values of Set/Insert/SetEx"])

prop("C02", "Removal takes away exactly the named key or section",
     "Removing an existing key removes that key, and removing an existing section removes all keys below it; every other key keeps its value and stays listed. "
     "Removing a path that does not exist as a key or a section reports false and changes nothing, even if existing keys start with the same characters. "
     "After a removal the path is no longer found and can be set again.",
     ["histories", "inputs"], "all histories of set and remove over all well-formed keys",
     "The tests remove a handful of keys from one fixed tree; whether the removed node's neighbours survive depends on how the tree was split.",
     ["radix/trie.go", "radix/node.go", "store.go"],
     [("locating and detaching the node", "radix/trie.go: RemoveEx, removeAt"), ("child removal", "radix/node.go: remove, detach"), ("store front", "store.go: Remove, RemoveEx")],
     120000, 2400000,
     "A case is a history of 2-26 set/remove/removeex operations with probes; after each removal all keys, probes, existence and enumeration are compared with the model. Non-trivial: something was removed and something is left.",
     "Model-based random search over histories of up to 26 operations against a map model with section semantics.",
     observe=["Store.Remove/RemoveEx result", "Get/Has/Walk afterwards"])

prop("C03", "Existence queries agree with the stored keys",
     "A path exists exactly if it is a stored key or a section, that is a whole-segment prefix of a stored key; an empty store contains nothing. "
     "A path that only shares leading characters with a key, or that extends one, does not exist. Asked for a part of a path, the store has it if a stored key begins with it, and not if no key ever began with it.",
     ["histories", "inputs"], "all histories and all well-formed probe paths (existing keys, sections, cut or extended keys, neighbours)",
     "The tests probe some ten fixed paths in one tree; the answer for a cut-off path depends on where the tree happened to be split.",
     ["radix/trie.go", "radix/node.go", "store.go"],
     [("existence", "radix/trie.go: Has, HasPart, Search, Locate, isBelow"), ("matching", "radix/node.go: matchR")],
     160000, 3000000,
     "A case is a history of 0-22 operations and 1-16 probe paths derived from its keys by cutting, extending and mutating. Non-trivial: some probes exist and some do not.",
     "Model-based random search; oracle is the set of keys and their whole-segment prefixes.",
     observe=["Store.Has/HasPart/Locate/Query/GetEx"])

prop("C04", "Enumeration lists every stored key exactly once",
     "Walking the whole store visits every stored key exactly once with its own full path, value and metadata, and no path that is not stored is presented as a key with data. "
     "The textual dump and the full extraction show the same set of keys, and the dump shows the description and the comment of each.",
     ["histories"], "all histories of set/remove/insert/setnode/merge/update over well-formed keys",
     "Tests print a dump of a fixed tree; a key lost or doubled by a particular split or removal is not visible there.",
     ["radix/node.go", "radix/trie.go", "radix/cvter.go"],
     [("tree walk", "radix/trie.go: Walk; radix/node.go: walk, dumpR"), ("node identity kept through splits", "radix/node.go: splitChild")],
     240000, 3000000,
     "A case is a history of 0-26 operations; afterwards the set of enumerated keys is compared with the model. Non-trivial: the tree was split and holds 3 or more keys.",
     "Model-based random search; whole-tree enumeration compared with the model as a multiset.",
     observe=["Store.Walk(\"\")", "GetM(\"\")", "Dump"])

prop("C05", "Section extraction returns exactly the keys below the section",
     "Extracting a section as a map returns every key below that section with its value and nothing else: nested under the section's relative segments, or under flat relative keys, or as the full nested hierarchy when asked. "
     "A filter option keeps exactly the keys it accepts, and extracting a path that does not exist is an error or empty and never returns a neighbour's keys.",
     ["histories", "inputs", "configurations"], "all histories, all sections, all extraction options (flat/nested, keep prefix, filter)",
     "The tests extract three fixed sections from one fixed tree.",
     ["radix/cvter.go"],
     [("map extraction", "radix/cvter.go: GetM, GetR, MustM, MustR, prefixPutter, splitCompactKeys, submap"), ("section membership", "radix/cvter.go: sectionPath, inSection")],
     200000, 2000000,
     "A case is a history followed by extractions of every section, some keys and missing paths with the options drawn. Non-trivial: a proper subtree of 2 or more keys was extracted.",
     "Model-based random search; oracle nests/filters the model's keys. Nested forms are only claimed when no key is also a section.",
     observe=["Store.GetM/MustM/GetR/MustR"])

prop("C06", "Description, comment and tag stay with their key",
     "Description, comment and tag given to a key are read back for that key after any later operations on other keys, are not shown for any other key, and survive overwriting the key's value. "
     "Removing a key removes its metadata, and setting metadata does not change any value.",
     ["histories"], "all histories of set, setnode, setcomment, settag, remove over well-formed keys",
     "Tests set a comment on one key and read it back immediately; nodes are split and rebuilt only by later insertions.",
     ["radix/node.go", "radix/trie.go"],
     [("metadata in nodes, carried through split", "radix/node.go: SetComment, SetTag, splitChild"), ("path based access", "radix/trie.go: SetNode, SetComment, SetTag, GetDesc, GetComment, GetTag")],
     120000, 2400000,
     "A case is a history mixing value and metadata operations; metadata of all keys is compared with the model. Non-trivial: annotated keys are left and the tree was split.",
     "Model-based random search against a map of key to (value, description, comment, tag).",
     observe=["GetDesc/GetComment/GetTag, Must variants, Walk nodes"])

prop("C07", "A prefixed view is a window onto the same store",
     "A view of a store with a prefix reads, writes, removes and tests exactly the keys of the store under that prefix, addressed relative to it, and both sides see each other's changes at once. "
     "Views can be nested (prefixes join) or replaced, and a read, write, removal or test through a view never touches or shows keys outside its prefix (Walk, Dump, GetR and GetM of the empty path with kept prefixes list the whole tree).",
     ["histories", "configurations"], "all histories interleaving operations through the store and any number of (nested, replaced) views, all prefixes and delimiters",
     "Tests make one view and read one key through it.",
     ["radix/load.go", "radix/trie.go", "store.go"],
     [("prefix joining", "radix/load.go: WithPrefix, WithPrefixReplaced, SetPrefix; radix/trie.go: join1, Join"), ("shared root", "radix/trie.go: dupS; store.go: dupS")],
     90000, 1200000,
     "A case is a history whose operations go through a base store or one of several views; all views are compared with the model. Non-trivial: something was changed through a view and keys exist below a view.",
     "Model-based random search; the model is one map, views are key translations.",
     observe=["all read and write operations through WithPrefix/WithPrefixReplaced"])

prop("C08", "Behaviour does not depend on the choice of delimiter",
     "Two stores that differ only in the path delimiter, given the same history with keys spelled in their own delimiter, show the same keys, sections, values, existence and extraction results up to that spelling. "
     "A character that is the delimiter of another store is an ordinary character of a segment.",
     ["configurations", "histories"], "all pairs of delimiters and all histories",
     "Tests use '.' nearly everywhere and '/' in one route test.",
     ["radix/trie.go", "radix/node.go", "radix/cvter.go", "store.go"],
     [("delimiter handling", "radix/trie.go: SetDelimiter, Join, getMatchCtx; radix/node.go: matchR, isEndpoint; store.go: WithDelimiter")],
     100000, 2000000,
     "A case is a history run on two stores with two delimiters (set at creation or by setter). Non-trivial: sections were found and more than one key is stored.",
     "Metamorphic (differential) random search: results are compared after translating the delimiter.",
     observe=["Get/Has/Walk/GetM/GetR"])

prop("C09", "Merging a nested map equals setting its leaves one by one",
     "Merging a nested map at a path gives the same store as setting every leaf of the map at the joined path; keys not named by the map keep their values, and keys named by it take the new value. "
     "Nested maps become sections at any depth, through prefixed views as well as at the root.",
     ["inputs", "histories"], "all nested maps (including nil and slice leaves and maps inside maps), all merge points, with and without prefix and slice flattening",
     "Tests merge one literal map into an empty store.",
     ["store.go", "load.go", "radix/load.go", "radix/trie.go"],
     [("store merge", "store.go: Merge; load.go: loadMap"), ("trie merge", "radix/trie.go: Merge; radix/load.go: loadMap, loadMapByValueType")],
     30000, 600000,
     "A case is a history with merges of generated nested maps on a store or trie, compared with setting the flattened leaves. Non-trivial: two or more leaves merged from a nested map.",
     "Metamorphic and model-based random search; maps in which two entries flatten to the same key are excluded.",
     observe=["Walk/Get after Merge"])

prop("C10", "Loading a source stores exactly the source's leaves",
     "Loading a source of nested maps through a provider (as raw data through a codec, or item by item) stores exactly its leaves under their joined paths below the chosen store prefix, with the values of the source. "
     "Slices are kept whole or flattened to indexed keys as configured, descriptions, comments and tags carried by items arrive with their keys, and keys not in the source are untouched.",
     ["inputs", "configurations"], "all sources, store prefixes, codecs and provider kinds, slice flattening, loads on top of each other and through views",
     "Tests load a handful of files of a few keys each.",
     ["load.go", "new.go", "store.go"],
     [("loader", "load.go: Load, loader.tryLoad, loadMap and friends"), ("options", "new.go: With... options")],
     60000, 1200000,
     "A case is a list of loads (source, provider kind, codec, prefix, flatten) onto existing keys. Non-trivial: more than one key arrived from a nested source.",
     "Model-based random search with in-memory providers and codecs written for the check.",
     observe=["Walk/Get/GetDesc/GetComment/GetTag after Load"])

prop("C11", "Modified state marks exactly the keys changed by the user",
     "A key set by the user is marked modified; loading from a source (or setting within a loading block) does not mark any key modified and does not clear marks of keys it does not touch. "
     "Resetting a key's mark affects that key only, and after any history the marked keys are exactly those changed and not reset.",
     ["histories"], "all histories of load, set-within-loading, set, reset over well-formed keys",
     "Tests check one key after one load.",
     ["store.go", "load.go", "radix/node.go"],
     [("mark on set", "store.go: Set, setKV; radix/node.go: SetModified, ResetModified"), ("loading switch", "load.go: WithinLoading, Load")],
     120000, 2400000,
     "A case is a history of sets, loads, sets within loading and resets. Non-trivial: a proper non-empty subset of the keys is marked at the end.",
     "Model-based random search against a set of dirty keys.",
     observe=["Node.Modified via Walk/Locate"])

prop("C14", "Scalar typed getters convert faithfully",
     "A typed getter returns the stored value converted to its type whenever the value is representable in that type: between all integer and float widths, from decimal text, boolean words, durations and RFC 3339 times, and to text. "
     "For a missing key it returns the given default, or without one the zero value together with a not-found error; for an existing key, zero values included, the default is never used.",
     ["inputs"], "all stored values, all scalar getters, with and without default, present and missing keys",
     "Tests read a few literal values with a few getters; each of the some 18 getters is its own copy of the code.",
     ["radix/cvter.go"],
     [("typed getters", "radix/cvter.go: GetString ... GetTime and Must variants")],
     800000, 6000000,
     "A case is a stored value, a getter and an optional default, on a store or trie with a prefix. Non-trivial: the conversion is one the property promises.",
     "Random search against an exact conversion oracle (big integers); lossy and exotic conversions are not claimed.",
     observe=["Get<Type>/Must<Type>"])

prop("C15", "Slice and map getters convert every element faithfully",
     "A typed slice getter returns the stored slice with every element, in order, converted to its type, and a typed map getter returns every entry of the stored map converted. "
     "For a missing key they return the given default, or without one an empty result together with a not-found error.",
     ["inputs"], "all element lists and maps, all slice and map getters, with and without default",
     "Tests read one literal slice with a few getters; each of the some 36 getters is its own copy of the code.",
     ["radix/cvter.go"],
     [("typed slice and map getters", "radix/cvter.go: GetStringSlice ... GetTimeMap and Must variants")],
     900000, 5000000,
     "A case is a stored slice or map of generated elements and a getter. Non-trivial: two or more elements.",
     "Random search against an element-wise conversion oracle; conversions the underlying converter does not offer are not claimed.",
     observe=["Get<Type>Slice/Get<Type>Map and Must variants"])

prop("C16", "Size texts are parsed to their exact byte count",
     "A size text made of a decimal or hexadecimal number and an optional unit (k, m, g, t, p, e in either case, with an optional byte suffix) gives number times 1024 to the unit's power in the kibi form and times 1000 to the unit's power in the kilo form. "
     "A missing key gives the default, and stored numbers are returned as they are.",
     ["inputs"], "all numbers and unit spellings whose result fits 64 bits",
     "Tests parse a few literal sizes.",
     ["radix/cvter.go"],
     [("size parsing", "radix/cvter.go: FromKibiBytes, FromKiloBytes, GetKibiBytes, GetKiloBytes and Must variants")],
     1200000, 6000000,
     "A case is a number, unit and spelling. Non-trivial: a positive result with a unit.",
     "Random search against exact arithmetic; overflowing results and ambiguous hexadecimal spellings are not claimed.",
     observe=["FromKibiBytes/FromKiloBytes/GetKibiBytes/GetKiloBytes"])

prop("C12", "Saving writes exactly the changed keys, saving-as all of them",
     "Saving back a loaded source hands to its provider one encoded document that nests exactly the keys below the load's store prefix which are marked modified, with their current values; saving-as hands over all keys below that prefix. "
     "With nothing to save nothing is written, a failure of the codec or of the provider, or a provider that cannot be written to, is returned as an error, and saving never changes the store.",
     ["histories", "fault_sequences"], "all sources and histories of set/remove/mark/save after a load, with faults injected in the codec or the provider, providers with a Write method or an io.Writer",
     "Tests save one loaded file after changing one key.",
     ["load.go", "radix/cvter.go"],
     [("save", "load.go: Loader.Save, trySave, Loader.SaveAs, WithSaveAsProvider, WithSaveAsCodec"), ("extraction of modified keys", "radix/cvter.go: GetM with WithFilter")],
     120000, 1600000,
     "A case is a load followed by a history that ends with save and save-as. Non-trivial: something was saved, and one save wrote a proper subset of the keys.",
     "Model-based random search with recording codecs and providers and injected failures; documents in which a key would also be a section are excluded.",
     observe=["what the codec is given", "what the provider is given", "errors"])

prop("C13", "A copy and its original are independent",
     "A duplicate of a store or tree holds the same keys, values, descriptions, comments and tags as the original at that moment, with the same delimiter and prefix. "
     "Any later change to one of them is not visible in the other.",
     ["histories"], "all histories before copying, all interleavings of histories on original and copy afterwards",
     "Tests duplicate a fixed tree and compare its dump; sharing of an inner node shows only after a later insertion splits or overwrites it.",
     ["radix/node.go", "radix/trie.go", "store.go"],
     [("deep copy", "radix/node.go: Dup, dupR; radix/trie.go: Dup; store.go: Dup, Clone")],
     160000, 1600000,
     "A case is a history, a copy (Dup or Clone), and two histories interleaved on original and copy, each compared with its own model. Non-trivial: both sides were changed afterwards.",
     "Model-based random search; values are scalars and lists of scalars (deep copy of arbitrary values is third-party code).",
     observe=["Walk/Get/GetDesc/GetComment/GetTag on both"])

prop("C17", "Filling a struct from a section gives each field its key's value",
     "Extracting a section into a struct gives every field the value of the key named after it below that section, nested structs from nested sections, slices element by element with nothing dropped or merged, numbers converted to the field's type. "
     "Keys rejected by a filter are not filled in, and a path that does not exist leaves the struct as it was and never fills it from a neighbour.",
     ["inputs", "histories"], "all generated struct types (nested, slices, maps, numbers) filled from all generated stores at any section",
     "Tests fill one fixed struct from one fixed document.",
     ["radix/cvter.go", "store.go"],
     [("struct extraction", "radix/cvter.go: To, GetSectionFrom; store.go: To, GetSectionFrom"), ("section contents", "radix/cvter.go: GetM, GetR")],
     80000, 800000,
     "A case is a struct type built at run time, a value for each of its leaves, further keys around it, and the section it lies at. Non-trivial: more than one leaf was stored.",
     "Random search over struct types (reflect.StructOf) against the value tree they were generated from; fields without a key are not claimed, values the third-party copier cannot convert are outside the domain.",
     observe=["the filled struct"])

prop("C18", "Handlers are told of every change exactly once",
     "Every registered handler is called exactly once for each key that is newly set (new), overwritten (change) or removed (delete), with the key's full path, its new value and its old value; no handler is called when nothing changes. "
     "The flag passed along is true exactly for changes that come from loading or merging.",
     ["histories", "configurations"], "all histories of set, set within loading, remove, merge and load, any number of handlers of each kind, nil ones among them, registered together or apart",
     "Tests register one handler and print what it gets.",
     ["store.go", "load.go", "radix/trie.go"],
     [("notification", "store.go: setKV, Set, Remove, RemoveEx, Merge, tryOnDelete"), ("handlers", "store.go: WithOnChangeHandlers, WithOnNewHandlers, WithOnDeleteHandlers")],
     240000, 1600000,
     "A case is a history with 0-2 handlers of each kind; the calls of every operation are compared with the model's. Non-trivial: both new and change handlers were registered and due.",
     "Model-based random search; calls within one operation are compared regardless of their order. The old value given for a removed section is not determined.",
     observe=["calls of the handlers"])

prop("C19", "Back-recursive lookup finds a key in the nearest enclosing section",
     "Looking a key name up from a section finds the value stored under that name in the nearest section, going outwards, that has it, however deep the asking path is and whether or not that path exists. "
     "If no enclosing section has it the lookup is not found, and keys that merely share leading characters are never returned. "
     "Only looking up is recursive: setting, removing, commenting and tagging through such a view works on exactly the path named.",
     ["histories", "inputs"], "all histories, asking paths and key names",
     "Tests look up three paths in one tree.",
     ["radix/trie.go", "radix/node.go", "store.go"],
     [("outward search", "radix/trie.go: search with RecursiveUp mode, isBelow; radix/load.go: BR; radix/node.go: matchR")],
     240000, 1600000,
     "A case is a history through a plain and a back-recursive view, 1-14 lookups from paths inside and outside of the tree, and up to four writes through the recursive view to the paths looked up. Non-trivial: a lookup succeeded in an outer section.",
     "Model-based random search; a name stored at the top level (outside any section) is not claimed to be found or not.",
     observe=["Trie/Store lookups with back recursion"])

prop("C20", "Route patterns bind their parameters to the matched segments",
     "A path matched against stored patterns with ':name' segments and a trailing '*rest' finds the pattern with the same static segments in the same places, and binds each name to exactly the text of its segment and '*rest' to the remaining path. "
     "A path with a different static segment, or with too few or too many segments, matches no pattern.",
     ["inputs", "configurations"], "all sets of patterns with one kind of segment per position, all paths derived from them by instantiating, cutting, extending and mutating",
     "Tests match a handful of paths with two patterns.",
     ["radix/node.go", "radix/trie.go"],
     [("variable matching", "radix/node.go: matchR; radix/trie.go: Query, Locate with KVPair")],
     400000, 2000000,
     "A case is 1-5 patterns and 1-12 paths. Non-trivial: a parameter was bound while several patterns were stored.",
     "Model-based random search against a segment-wise matcher; a variable and a static segment competing for the same position are not claimed.",
     observe=["Query/Locate results and their KVPair"])

prop("C21", "A key with a time to live expires once, and not early",
     "A key given a time to live keeps its value until that time has passed and is cleared then, calling back exactly once with its value; a section given one is dropped as a whole. "
     "A time to live of a removed key does not touch a key set anew under the same path, closing the store cancels what is pending, a path that does not exist is refused, and no other key is affected.",
     ["schedules", "histories"], "all histories of set/remove/ttl/sleep/close in virtual time, through the store, the bare tree and prefixed views",
     "Tests sleep for a second once; the order of expiries against later operations is never varied.",
     ["radix/trie.go", "radix/node.go", "store.go"],
     [("expiry runner", "radix/trie.go: TTL, run, Add, Close"), ("entry points", "radix/trie.go: SetTTL, SetTTLFast; radix/node.go: SetTTL; store.go: SetTTL, Close")],
     320000, 3200000,
     "A case is a timed history of 4-26 operations executed in a bubble of virtual time. Non-trivial: something expired and something stayed.",
     "Model-based random search over timed histories with a virtual clock (testing/synctest); no two jobs are due at the same instant.",
     observe=["Get/Walk before and after each instant", "callbacks"])

prop("C22", "What a codec writes, it reads back",
     "For every document a codec can express, decoding what it encoded gives the same document, and a store saved through a codec and loaded again holds the same keys and values. "
     "A codec object can be used any number of times, and its results do not depend on earlier uses. "
     "The JSON codec indents what it writes unless told otherwise, and the registry of codecs hands out for a file extension the codec of that format.",
     ["inputs", "configurations"], "all nested documents of scalars (and lists where the format has them) over the codecs json, yaml, toml, hjson, hcl, nestext and gob",
     "Each codec's test decodes one document.",
     ["codecs/json/json.go", "codecs/yaml/yaml.go", "codecs/toml/toml.go", "codecs/hjson/hjson.go", "codecs/nestext/nestext.go", "codecs/gob/gob.go", "codecs/hcl/hcl.go", "codecs/all/all.go"],
     [("encode/decode", "codecs/*: Marshal, Unmarshal; codecs/json, codecs/yaml: Load, Save"), ("registry", "codecs/all/all.go: Codec, MustCodec, Register, Deregister")],
     300000, 1200000,
     "A case is one or more documents through one codec object, directly and through a store. Non-trivial: two or more leaves, nested.",
     "Round-trip random search; values are compared up to the number types of the format, and texts the third-party parsers do not read back are outside the domain (DESIGN.md). hcl is checked with its single-block flattening on, the form in which a section is a block.",
     observe=["Marshal/Unmarshal", "Loader.SaveAs then Store.Load"])

prop("C23", "Environment, flag and map sources deliver every item they select",
     "The environment, flag and map providers offer exactly the items selected by their options, each once, under the key the options transform it to and with its value, by reading at once or by iterating. "
     "Loading such a provider sets exactly these keys and values below the given place and nothing else. A map given as source is copied: it is left as it was, later changes of it are not seen, and maps inside get keys of text.",
     ["inputs", "configurations"], "all sets of environment variables, flags and nested maps; all combinations of prefix, stripping, lower case, underline-to-dot, key callback and store prefix",
     "Each provider's test loads one fixed environment, flag set or map.",
     ["providers/env/env.go", "providers/flags/flags.go", "providers/maps/maps.go", "load.go"],
     [("selection and naming of items", "providers/env/env.go: prepare; providers/flags/flags.go: prepare; providers/maps/maps.go"), ("item iteration", "providers/*: Count, Has, Next, Keys, Value, MustValue"), ("loading", "load.go: tryLoad, Load")],
     240000, 1200000,
     "A case is a source (environment, flag set or map) with options. Non-trivial: more than one item is selected.",
     "Random search; oracle is an independent restatement of the selection and naming rules. Sources in which two items get the same key, or a key is also a section, are excluded.",
     observe=["Keys/Next/Value/Has/Count/Read of the provider", "the loaded store"])

prop("C26", "Changes of a watched source reach the store",
     "A source loaded with watching on is watched once; every created or written item it reports is set at the place the source was loaded to, every removed item is removed, handlers are told of each, and other events, errors and unknown events change nothing. "
     "A source loaded without watching is not watched, a source that cannot be watched still loads, and closing the store closes every watching source once. The text of an operation reads back as that operation.",
     ["histories", "configurations", "fault_sequences"], "all sequences of events from 1-3 sources interleaved with direct changes, with watching on or off, at the root or below a prefix",
     "No test delivers an event from a source.",
     ["load.go", "op.go", "store.go"],
     [("watch start and stop", "load.go: startWatch; store.go: Close"), ("applying events", "load.go: applyExternalChanges, applyChanges"), ("operation names", "op.go: MarshalText, UnmarshalText")],
     60000, 1200000,
     "A case is 1-3 sources and 1-12 events and direct changes. Non-trivial: more than one item was applied from events.",
     "Model-based random search with a provider the check drives; whether an external write of an existing key is told as new or as changed is not claimed.",
     observe=["GetM(\"\") after each event", "calls of the handlers", "Watch/Close of the source"], findings=["file_watch"])

prop("C24", "Configuration files load, save and convert faithfully",
     "A configuration file in JSON, YAML, TOML or HJSON, from disk or from a file system object, loads every key with its value below the chosen place and is not touched by loading. "
     "Saving writes back exactly the keys changed since, in the same format, only if write-back is enabled, and otherwise reports an error and leaves the file alone; exporting into another file and format keeps every key. "
     "A saved file stays the file it is, with its permissions, a symbolic link to it included; a missing file is an error that changes nothing, and no other file is ever touched.",
     ["inputs", "histories", "configurations"], "all documents the formats can express, edits between load and save, repeated saves, write-back on or off, codec given to the loader or the provider, file and fs providers, links, relative names, permissions, file systems that read in pieces",
     "Tests load five fixed files and save none of them twice.",
     ["providers/file/file.go", "providers/fs/fs.go", "load.go", "codecs/json/json.go", "codecs/yaml/yaml.go", "codecs/toml/toml.go", "codecs/hjson/hjson.go"],
     [("reading and writing", "providers/file/file.go: ReadBytes, Write; providers/fs/fs.go: ReadBytes, Write"), ("decode, merge, write-back, export", "load.go: tryLoad, trySave, SaveAs")],
     80000, 400000,
     "A case is a document written by the harness (not by the codec), 1-2 rounds of edits and saves, and an export. Non-trivial: two or more keys, and a save that wrote or was refused.",
     "Model-based random search on real files in a scratch directory; values are compared up to the number types of the formats; documents in which a key is also a section are excluded.",
     observe=["the store", "the bytes of the files", "errors"])

prop("C25", "A typed tree keeps values of its type",
     "A tree of any value type behaves like the general one: a key reads back exactly the value last set, including the zero value, a missing path gives the zero value and is not found, removal and enumeration are exact, and a copy is independent; the node of a key that was set says it has data, whatever the value. "
     "This holds for scalars, structures, pointers, lists and functions, directly and through a prefixed view.",
     ["histories", "inputs"], "all histories of set/setex/setnode/update/setempty/merge/remove on trees of seven value types",
     "Tests use trees of one type with a few keys and no zero values.",
     ["radix/trie.go", "radix/node.go", "radix/load.go", "new.go"],
     [("generic tree", "radix/trie.go: NewTrie, NewTrieBy, Set, Get, SetEx, SetNode, SetEmpty, Update, Remove, Walk, Dup"), ("minimal store", "new.go: NewStoreT")],
     240000, 1200000,
     "A case is a value type and a history of 1-20 operations. Non-trivial: two or more keys are left.",
     "Model-based random search against a typed map.",
     observe=["Get/MustGet/Has/Walk/GetM/GetComment", "old values reported"])

prop("C27", "A failed load changes nothing",
     "When a source cannot be read, its content cannot be decoded, or it breaks off in the middle, loading reports an error that carries the cause, and leaves every key, value, description, comment, tag and modified mark as they were; no handler is told of a change and no watch is left behind. "
     "The store remains usable: later sets and loads behave as if the failed load had not been tried.",
     ["fault_sequences", "inputs"], "all failures of a source (read error, decode error, panic), all truncations of documents, malformed texts after any number of well-formed lines, in any sequence",
     "No test makes a source fail.",
     ["load.go", "codecs/json/json.go", "codecs/yaml/yaml.go", "codecs/toml/toml.go", "codecs/gob/gob.go", "codecs/hcl/hcl.go"],
     [("load", "load.go: Load, tryLoad, inLoading"), ("decoding", "codecs/*: Unmarshal")],
     180000, 1200000,
     "A case is a store with 0-6 operations of history and 1-3 failing loads. Non-trivial: the store had a history.",
     "Fault injection with random search; oracle is the unchanged model.",
     observe=["the error", "store content, metadata and modified flags", "handler calls", "Watch calls"])

prop("C28", "A node handle stays with its key",
     "A node obtained for a key, by setting it, by a callback, by locating it or by walking, keeps standing for that key while other keys are set and removed around it: it shows the key's current value, description, comment and tag, and changing it changes exactly that key. "
     "Callbacks of set and update are called exactly once, with the node of the key and the value it had.",
     ["histories"], "all histories of set/setex/setnode/update/setempty/remove interleaved with obtaining and using handles",
     "Tests use a node only right after obtaining it.",
     ["radix/node.go", "radix/trie.go"],
     [("node identity through splits", "radix/node.go: insertInternal, splitChild"), ("callbacks", "radix/trie.go: SetEx, Update, GetEx, SetNode"), ("edits", "radix/node.go: SetData, SetEmpty, SetComment, SetTag, SetModified, ToggleModified")],
     240000, 1600000,
     "A case is a history of 3-24 operations, a third of which obtain or use handles. Non-trivial: a held node was used while two or more keys exist.",
     "Model-based random search; a handle of a removed key is not claimed.",
     observe=["the node", "reads by path", "callbacks"])

prop("C30", "A Consul source loads what the service holds",
     "Loading from Consul sets every entry at or below the position under its normalized name (stripped, prepended, with the delimiter) with its value, and with its indexes, flags and session as tag if asked, and nothing else. "
     "An entry that does not exist loads nothing, and a failing service is an error that changes nothing.",
     ["inputs", "configurations", "fault_sequences"], "all sets of entries, positions, recursive or single, with or without metadata, all combinations of stripping, prepending and store prefix",
     "Consul's tests need a running service; none runs.",
     ["providers/consul/consul.go", "load.go"],
     [("reading", "providers/consul/consul.go: Read, NormalizeKey")],
     160000, 800000,
     "A case is 0-8 entries and the options. Non-trivial: several entries (or the single one asked for) are selected.",
     "Random search with a stand-in for the service behind the HTTP client; names with a trailing slash and two entries of the same name are excluded.",
     observe=["the loaded store", "tags", "errors"])

prop("C32", "Changes of a watched Consul source reach the store",
     "After every change of the watched entries, one at a time, several before the watcher asks again, or between loading and the first answer to the watcher, the store holds exactly what the service holds, created, written and removed entries alike, and each is reported as what it is. "
     "Watching is off unless enabled, and closing the store ends it.",
     ["schedules", "histories"], "all sequences of batches of put/delete/rewrite on watched and other entries, recursive or single",
     "Consul's tests need a running service; none runs.",
     ["providers/consul/consul.go", "providers/consul/change.go", "load.go"],
     [("watch plan", "providers/consul/consul.go: Watch, Close"), ("change detection", "providers/consul/change.go"), ("applying", "load.go: applyChanges")],
     20000, 60000,
     "A case is 0-4 entries, changes right after loading, and 1-5 batches of 1-4 changes. Non-trivial: more than one change while watching.",
     "Random search against a stand-in service on the loopback network with blocking queries; the check waits for the watcher's next query, not for time. A removed entry with others below it is a known finding, run as a fixed scenario and not generated.",
     observe=["the store after each batch", "the service's open queries"], findings=["consul_remove_parent"])

prop("C33", "An etcd source is loaded and followed",
     "Loading from etcd sets every entry at or below the position under its normalized name with its value and nothing else, and every created, written or deleted entry of a watched source reaches the store in order, reported as what it is, also one that comes between loading and watching. "
     "A failing service is an error that changes nothing, and closing the store closes the client and ends the watch.",
     ["inputs", "histories", "fault_sequences"], "all sets of entries, positions, recursive or single, naming options, and sequences of watch responses with 1-3 events",
     "etcd's tests need a running service; none runs.",
     ["providers/etcd/etcd.go", "providers/etcd/change.go", "load.go"],
     [("reading", "providers/etcd/etcd.go: Read, NormalizeKey"), ("watching", "providers/etcd/etcd.go: Watch, Close; providers/etcd/change.go: Set, Next, Has")],
     64000, 300000,
     "A case is 0-6 entries and 0-5 batches of changes. Non-trivial: several entries were loaded or an event was applied.",
     "Random search with stand-ins for the client's KV and Watcher interfaces; two entries of the same name are excluded; a deleted entry with others below it is a known finding, run as a fixed scenario and not generated.",
     observe=["the store after loading and after each response", "goroutines left"], findings=["etcd_remove_parent"])

prop("C31", "Concurrent readers are safe and see the same values",
     "Any number of goroutines may read a store and views of it at the same time: every read returns what it returns alone, without a data race or a deadlock. "
     "That includes reading keys whose time to live arrives meanwhile: a read gives the value or, once expired, nothing.",
     ["schedules", "inputs"], "all contents, all mixes of lookups, typed reads, sections, walks and dumps by 2-5 goroutines, with or without keys expiring under them",
     "The tests read from one goroutine, so an unsynchronised cache or a lock taken twice is never noticed.",
     ["radix/node.go", "radix/trie.go", "radix/cvter.go", "store.go"],
     [("locks of a node", "radix/node.go: readLockFor, lockFor, Data, Tag, SetEmpty, dumpR"), ("pooled match context", "radix/trie.go: search, Query, getNode"), ("expiry", "radix/trie.go: TTL.Add, TTL.run")],
     6400, 120000,
     "A case is a history of 1-14 writes, then 2-5 goroutines with 1-8 reads each. Non-trivial: at least two keys and at least six concurrent reads, or a key that expires meanwhile.",
     "Random search over programs under the race detector with real scheduling: interleavings are sampled, not enumerated. Dup, To and GetSectionFrom are excluded (the copy library they use writes a global log flag), and so is a section that expires.",
     race=True, procs=4, shards=4, repeat=20, observe=["the results of all reads", "the reports of the race detector", "blocked goroutines"])

prop("C34", "Independent stores do not affect each other",
     "Stores and tries that share nothing can be written and read in different goroutines at the same time: each behaves as when it is the only one, without a data race.",
     ["schedules", "histories"], "all histories of set, insert, update, merge, remove, comments, tags and views on 2-4 separate stores run in parallel",
     "The tests of the package run one after another, so state kept in package variables would go unnoticed.",
     ["radix/trie.go", "radix/node.go", "store.go", "load.go"],
     [("pooled and package state", "radix/trie.go: getMatchCtx, putBack, search, Insert, Merge; store.go: newStore")],
     6400, 120000,
     "A case is 2-4 histories of 1-16 operations, each checked against the reference map after every step. Non-trivial: at least eight operations in all.",
     "Random search under the race detector with real scheduling. Loading from files and codecs is not part of it.",
     race=True, procs=4, shards=4, repeat=20, observe=["all reads of every store", "the reports of the race detector"])

prop("C35", "Reading never changes a store",
     "No read changes what a store holds: after any lookup, typed getter, section or struct extraction, walk, dump, copy or view, all keys, values, comments, tags and modified marks are as before, and the same plain read returns the same again.",
     ["inputs", "histories"], "all contents (with keys that are also sections and values that are maps) and all sequences of reads through stores, tries and views",
     "The tests look at the result of a read, never at what the read left behind.",
     ["radix/cvter.go", "radix/trie.go", "radix/node.go", "store.go"],
     [("sections as maps", "radix/cvter.go: GetM, splitCompactKeys, submap, prefixPutter.putKeys, To"), ("typed getters", "radix/cvter.go: GetXXX, MustXXX"), ("lookups", "radix/trie.go: Query, Locate, GetEx, Walk, Dump, Dup")],
     96000, 600000,
     "A case is a history of 1-14 writes and 1-12 reads out of about 150 entries. Non-trivial: at least two keys and three reads.",
     "Random search; the whole state is rendered before and after every read and compared.",
     observe=["keys, values, comments, tags, modified marks after each read"])

prop("C29", "Any text can be used as a path",
     "No path makes an operation panic, loop without end or break the store: empty text, delimiters in any place, white space, bytes that are not UTF-8, pattern characters and texts of any length included, for reading, writing, removing, merging, extracting, walking and prefixed views. "
     "Afterwards other keys can be set, read, listed and removed as usual.",
     ["inputs", "histories"], "all byte strings as paths, in all sequences of operations on a store or trie that also holds plain keys, with any delimiter",
     "The tests use well-formed paths.",
     ["radix/node.go", "radix/trie.go", "radix/cvter.go", "store.go"],
     [("matching", "radix/node.go: matchR, extractor"), ("insertion", "radix/node.go: insertInternal, splitChild"), ("extraction", "radix/cvter.go: GetM, GetR, submap")],
     160000, 1600000,
     "A case is up to 6 plain keys and 1-16 operations on paths made of odd pieces. Non-trivial: more than three operations.",
     "Random search with a crash, hang and usability oracle; what an ill-formed path reads back is not claimed.",
     observe=["panic, hang", "Set/Get/Has/Walk/Remove of a fresh key afterwards"])

prop("C36", "A dummy store accepts everything and keeps nothing",
     "A dummy store takes every operation of a store without failing and holds nothing afterwards: every query finds nothing and returns the zero value, no callback of a query, change or walk is called, and views of it are the dummy store itself. Only its prefix can be set and read back, and a function given to run within loading is run exactly once.",
     ["histories"], "all sequences of calls of all methods of a store, with any arguments",
     "The test calls each method once.",
     ["dummy.go"],
     [("dummy store", "dummy.go: dummyS")],
     40000, 400000,
     "A case is 1-20 calls of methods of store.Store, picked and given arguments by reflection. Non-trivial: at least two writes.",
     "Random search over the method set.",
     observe=["all results", "callbacks"])

prop("C37", "A document means the same in every notation its format offers",
     "A JSON, YAML, TOML, HJSON, NestedText or HCL document written by hand is read as the values it denotes, whichever of the notations of the format it uses: spacing, line ends and comments, quoting and escapes, number notations, block and inline forms, dotted keys, tables and lists of tables, multi-line text, and, in HCL, attributes, blocks, labelled and repeated blocks. "
     "Loaded into a store, from memory or from a file, it gives exactly the keys of those values.",
     ["inputs"], "all documents of these formats over the values a store can hold, in all mixtures of the notations listed",
     "The tests read a few fixed documents and print what they got.",
     ["codecs/json/json.go", "codecs/yaml/yaml.go", "codecs/toml/toml.go", "codecs/hjson/hjson.go", "codecs/nestext/nestext.go", "codecs/hcl/hcl.go", "load.go"],
     [("decoders", "codecs/*: Unmarshal"), ("HCL bodies", "codecs/hcl/hcl.go: decodeBody, goValue, flattenHCL"), ("loading", "load.go: tryLoad, loadMap")],
     120000, 1200000,
     "A case is a value tree and a list of choices that an emitter of each format spells it out with. Non-trivial: at least two entries, one of them a section, and more than two choices.",
     "Random search; the emitters are written for the format definitions and know nothing of the codecs.",
     observe=["Unmarshal", "keys and values of the loaded store"])

prop("C38", "A watched file reports its changes, and only its, until it is closed",
     "A file source that is watched calls back for every change of its file's content, by writing or by replacing the file (or the link by which it is named), and for nothing else that happens in the folder; when the file goes away it calls back once with an error. "
     "That holds whatever form the file's name has: absolute, relative, bare, or with dots. "
     "When the source, or the store that watches it, is closed, or its context ends, nothing is reported any more, and no goroutine and no system watcher is left behind.",
     ["histories", "schedules"], "all sequences of writes and replacements of the file, of other files in its folder, of changed permissions, and then of its removal or renaming, ended by Close (once, twice), by the context or by both, in any form of the name, watched directly or by a store",
     "The test of the provider watches a file that never changes.",
     ["providers/file/file.go", "load.go", "store.go"],
     [("watching", "providers/file/file.go: Watch, watchRunner, Close"), ("ownership of watchers", "load.go: startWatch; store.go: Close")],
     2400, 48000,
     "A case is 0-6 steps on a file in a scratch folder, watched through the kernel. Non-trivial: at least one change of the file.",
     "Random search over histories on a real file system, in real time: every report is awaited (20 s at most) rather than timed. Identical events within 5 ms may be merged by the provider, so the number of reports is bounded from both sides only; writes to the target of a link need not be noticed.",
     observe=["calls of the callback", "goroutines and inotify descriptors of the process"])

prop("C39", "A store can be written while keys of it expire",
     "A program that writes a store may do so at the very moment keys of it expire: there is no data race, no write to another key is lost, and the key itself holds the value just written or, if the expiry came last, nothing. "
     "Every expiry calls back exactly once, and a key set anew after its removal is not touched.",
     ["schedules", "histories"], "all histories of sets, node updates, tags, comments, marks, merges, removals, copies and further times to live, with operations at the same instant as the expiry of the same or of other keys",
     "The tests do nothing while a time to live is pending.",
     ["radix/trie.go", "radix/node.go", "store.go"],
     [("expiry runner", "radix/trie.go: TTL.run"), ("locks of a node", "radix/node.go: lockFor, insertInternal, SetData, SetTag, SetModified, SetEmpty, Dup")],
     24000, 400000,
     "A case is 1-5 keys and 1-4 rounds of setting times to live, sleeping until the very instant they are due, and 1-4 operations there. Non-trivial: a key is written at the instant it expires, and there are others.",
     "Random search in virtual time (testing/synctest) with real parallel execution under the race detector: the order of write and expiry is sampled. Sections that expire are a known finding.",
     race=True, procs=4, shards=4, repeat=20, findings=["section_expiry"], observe=["Get/GetM/GetTag after each instant", "callbacks", "the reports of the race detector"])

PLAN = {p["id"]: p["plan"] for p in P}
NOT_APPLICABLE = []
