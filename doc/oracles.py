ORACLE = {
 "C01": "the reference map: after every operation all stored keys and all probes are read through Get, MustGet, Query, GetEx and Locate",
 "C02": "the reference map with section removal; full enumeration and existence of all probes after each removal",
 "C03": "set of keys and of their whole-segment prefixes, against Has, HasPart (lower bound), Search, Locate",
 "C04": "the model's entries as a multiset, against Walk(\"\"), Dump and GetR(\"\")",
 "C05": "nesting, flattening and filtering the model's keys by independent code",
 "C06": "the model's description, comment and tag of each key",
 "C07": "one map, with every view a translation of keys; all views and the base are compared after the history",
 "C08": "differential: two real stores with different delimiters must agree after translation",
 "C09": "differential: merging into one store against setting the flattened leaves in another, and the model",
 "C10": "flattening of the source by independent code added to the model; providers and codecs are written for the check",
 "C11": "a set of dirty keys in the model",
 "C12": "the nested document built from the model's modified (all) keys, compared with what the recording codec was given; failures of codec and provider are injected",
 "C13": "two independent models from the moment of the copy",
 "C14": "exact conversion over big integers, strconv and time; a conversion is only required when representable",
 "C15": "element-wise application of the C14 oracle",
 "C16": "exact integer arithmetic on (number, unit)",
 "C17": "the value tree from which the struct type (reflect.StructOf) and the keys were both generated",
 "C18": "the model's list of new, changed and removed keys per operation",
 "C19": "walking outwards over the model's sections",
 "C20": "a segment-wise pattern matcher",
 "C21": "a timed model executed with testing/synctest's virtual clock: expiries, callbacks and cancellations at exact instants",
 "C22": "round trip, directly and through a store; plus independence of earlier uses of the codec object",
 "C23": "independent restatement of the selection and renaming rules of each provider",
 "C24": "documents written by the harness itself, the model of edits, and the bytes of all files in the scratch directory",
 "C25": "a typed reference map, for scalars, structs, pointers, lists and functions",
 "C26": "the model plus the events fed by a provider that the check drives; every event is awaited by a handshake, not by time",
 "C27": "fault injection: nothing may change, and the error wraps the injected cause",
 "C28": "the model's entry of the key a node was obtained for",
 "C29": "no panic, no case that stands still, and a fresh key behaves as in the reference map afterwards",
 "C30": "an in-memory stand-in behind the HTTP client; independent naming rules",
 "C31": "the results of the same reads alone; the race detector; a watchdog for deadlocks",
 "C32": "a loopback HTTP server that implements blocking queries; the contents of the server after each batch",
 "C33": "stand-ins for the client's KV and Watcher; the sequence of events",
 "C34": "one model per store while they run in parallel; the race detector",
 "C35": "a rendering of the whole state before and after each read",
 "C37": "the value tree the text was spelled out from",
 "C36": "the zero value of every result type",
 "C38": "the list of changes made to the file, as bounds on the number of calls; the process's goroutines and inotify descriptors before and after",
 "C39": "for every key the set of values it may hold (written, or cleared if due at that instant); the race detector",
}
