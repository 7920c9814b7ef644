#!/usr/bin/env python3
# Generates properties.jsonl (kept as source so that edits stay consistent with the schema).
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Concurrent lookups in one session never influence each other",
 "Lookups that run at the same time in one session - requests to the REST server or library calls with separate invocations, each with its own variables, default, type and merge option - each produce exactly the result, or the failure, that the same lookup produces when it runs alone in a session over the same data. No lookup sees a variable, option, intermediate value or error of another one.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of any number of concurrent lookups, at every statement, for every mix of requests and server options",
 "No existing test runs two lookups at once: each test does one lookup in a fresh session, so no schedule other than the sequential one is ever reached.",
 ["hieraserver/rest/rest.go", "session/invocation.go", "session/session.go", "hiera/hiera.go", "provider/muxlookupkey.go"],
 [("per-request copy of the command options and per-lookup invocation", "hieraserver/rest/rest.go CreateRouter; session/session.go Invocation"),
  ("shared session caches are concurrent maps", "session/session.go New"),
  ("mode switches copy the invocation", "session/invocation.go ForData, ForLookupOptions")],
 ["HTTP responses of /lookup", "return values of the lookup functions"])

prop("C02", "A lookup yields the configured value, or fails if a source it needs fails",
 "The outcome of a lookup is the value that the hierarchy order, the merge strategy, the lookup options, interpolation and the dotted key define over the sources that exist; sources that do not exist are skipped. If a source that the lookup consults exists but cannot be examined, read or parsed, or its provider fails, then the lookup fails with an error: it never falls through to a source of lower priority, returns a partial merge, or substitutes the default.",
 ["fault_sequences", "inputs", "configurations"],
 "every hierarchy, data set, key and merge strategy, and every sequence of I/O faults (permission, I/O error, descriptor exhaustion, short reads, torn content) on any subset of the sources",
 "Tests use a fixed set of readable data files on a healthy disk; none makes a stat, open or read fail, delivers short reads or tears a file, and the inputs are a handful of hand-written hierarchies.",
 ["internal/datahashprovider.go", "internal/lookupkeyprovider.go", "internal/datadigprovider.go", "provider/yamldata.go", "provider/jsondata.go", "config/path.go", "config/mappedpaths.go", "session/invocation.go", "session/resolvedconfig.go", "merge/strategy.go"],
 [("providers read whole files and panic on errors", "provider/yamldata.go, provider/jsondata.go"),
  ("location resolution records whether the source exists", "config/path.go Resolve, config/mappedpaths.go Resolve"),
  ("merge strategies walk the hierarchy in order", "merge/strategy.go")],
 ["return value or error of a lookup", "stdout and error of the CLI"])

prop("C03", "The hierarchy configuration of a session loads once, and failures never wedge it",
 "Within one session a hierarchy configuration is loaded successfully at most once and every lookup uses that one configuration, whatever happens to the file later. If loading fails, the lookups that needed it fail with the cause of that failure and every later lookup tries again, so that the session works as soon as the configuration can be read; no lookup ever blocks forever on the load of another one.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of concurrent first lookups, every pattern of stat/open/read/parse failures during the load, and every point in time at which the file is replaced or repaired",
 "Tests load a valid configuration once, sequentially. The lock hand-over to concurrent waiters and the failure path under that lock are never executed.",
 ["session/invocation.go", "config/config.go", "session/resolvedconfig.go"],
 [("first loader publishes under a per-path lock in the shared cache, others wait for it", "session/invocation.go Config")],
 ["opens of the configuration file", "lookup outcomes", "tasks blocked at the end of the run"],
 [("shared cache", "loaded configurations and their load locks, per session", "session/session.go SharedCache")])

prop("C04", "One invocation sees one version of each data source",
 "All lookups made through one invocation, including interpolated and merged sub-lookups, take the data of a given hierarchy source from one and the same version of that source, even when the file is replaced, truncated or removed between or during those lookups. A result never mixes values from two versions of one source (a file that two hierarchy entries use counts as two sources), and a new invocation sees the data that is current when it first consults the source.",
 ["histories", "schedules"],
 "every point at which a data file is atomically replaced or removed relative to the steps of one or more lookups of the same invocation",
 "Tests never change a data file during a lookup or between two lookups of one invocation.",
 ["internal/datahashprovider.go", "session/invocation.go", "session/resolvedconfig.go"],
 [("per-provider hash cache keyed by location", "internal/datahashprovider.go dataHash"),
  ("resolved configuration is kept per invocation and shared by its mode copies", "session/invocation.go Config")],
 ["lookup results", "reads of each data file per invocation"])

prop("C05", "A plugin that fails to start is reported, ended and forgotten",
 "If a plugin cannot be started - the program cannot be executed, exits early, prints a malformed, incomplete or incompatible greeting, or prints none at all - then the lookup that needs it fails with an error within a few seconds of that plugin's start. Its process is then terminated and reaped, nothing of it (task, pipe, registration) outlives that failure for more than a few seconds, and a later lookup starts it afresh and succeeds if the cause is gone.",
 ["fault_sequences", "schedules", "crash_points"],
 "every way and every time at which a plugin start can fail (exec error, pipe error, exit before, during and after the greeting, truncated, late, missing or wrong greeting, unreadable pipe), combined with concurrent lookups and later retries",
 "The tests start one well-behaved plugin. Only a bad handshake message or two is covered, not timing, crash points, leaked processes or later recovery.",
 ["session/pluginloader.go", "session/session.go", "session/proc_unix.go"],
 [("greeting is awaited with a timeout and the process is killed if the start fails", "session/pluginloader.go startPlugin")],
 ["lookup error", "process table", "live goroutines"])

prop("C06", "At most one process per plugin and session, shared by all lookups",
 "However many lookups of one session use the functions of a plugin at the same time, at most one live process of that plugin exists for the session and all of those lookups are served by it. Each of them gets the result of its own call as if it had been alone, and none fails because another one is starting the plugin.",
 ["schedules"],
 "every interleaving of concurrent first and later uses of one or several plugins and of several functions of one plugin",
 "Tests use plugins from one goroutine only; the race between several first uses is never exercised.",
 ["session/session.go", "session/pluginloader.go"],
 [("registry of plugins guarded by a lock, keyed by path", "session/pluginloader.go startPlugin"),
  ("functions are found through the namespaces of the loader", "session/session.go LoadFunction")],
 ["process starts per path", "lookup results"])

prop("C07", "A plugin call delivers that call's answer, not-found, or an error in time",
 "Every call of a plugin function ends within five seconds (plus scheduling slack) with exactly the value that the plugin answered to this very call for the given key and options, with 'not found' if and only if the plugin answered so, or with an error. A refused, reset, truncated, hung, garbled or error answer is always reported as an error and is never taken for a value or for 'not found'; a finished call leaves no connection behind. A call is made to the function of the kind and the name that the hierarchy entry says.",
 ["fault_sequences", "schedules", "inputs"],
 "every network fault (refusal, delay, reset, stall or truncation at any byte) and plugin reaction (any status, late or partial body, crash in the middle) during concurrent calls with any key and options",
 "Tests talk to a healthy plugin over a healthy socket; no test drops, delays or truncates an answer, crashes the plugin, or counts connections.",
 ["session/pluginloader.go"],
 [("HTTP client with a timeout, status and body checks", "session/pluginloader.go callPlugin")],
 ["lookup result or error and its virtual duration", "open connections after the call"])

prop("C08", "Ending a session ends and reaps all of its plugins in bounded time",
 "When a session ends, normally or because its user function failed, every plugin process that the session started has been asked to terminate, has been killed if it did not do so within about three seconds, and has been reaped by the time that the ending call returns or at most seconds after it. Ending takes bounded time whatever the plugins do, ending twice is harmless, and no goroutine of the plugin machinery remains.",
 ["fault_sequences", "schedules", "crash_points"],
 "every combination of cooperating, slow, signal-ignoring, already dead, and output-flooding plugins, failing signals, and sessions that end normally, by panic, or with calls still in progress",
 "The tests end sessions with cooperating plugins only and do not look at the process table or at goroutines afterwards.",
 ["session/pluginloader.go", "hiera/hiera.go", "session/session.go"],
 [("deferred kill of all registered plugins", "hiera/hiera.go TryWithParent, DoWithParent"),
  ("interrupt, wait three seconds, kill", "session/pluginloader.go kill")],
 ["process table and signals", "virtual time of the ending call", "live goroutines"])

prop("C09", "Plugin output is forwarded completely and in order, and never blocks the plugin",
 "Everything that a plugin writes to its standard error appears in the log of the host, complete, in order and with its lines intact, also when several plugins write at the same time and when the plugin exits or crashes right after writing. A plugin is never blocked because nobody reads its standard output or standard error, however much it writes at whatever time.",
 ["schedules", "inputs", "crash_points"],
 "every amount, chunking and timing of output on both streams of one or several plugins, and every moment of exit",
 "Tests look at one short line of plugin output; no test floods a pipe, splits lines or lets two plugins write concurrently.",
 ["session/pluginloader.go"],
 [("one goroutine per stream that copies or discards", "session/pluginloader.go copyErrToLog, ignoreOut")],
 ["bytes received by the log output", "writers found blocked on a full pipe"])

prop("C10", "Every REST request gets exactly one correct answer and cannot hurt others",
 "For every request the REST server sends exactly one answer: 200 with the JSON rendering of the found value or given default, 404 if nothing is found, or 500 with the error. Whatever a request contains and whatever its lookup runs into, the server neither ends nor stalls nor answers other requests differently because of it, and it keeps no trace of the request.",
 ["inputs", "schedules", "fault_sequences"],
 "every request path and query, valid or not, under every interleaving with other requests and every fault of the sources they consult",
 "Tests send single well-formed requests through a recorder with healthy data.",
 ["hieraserver/rest/rest.go", "hiera/hiera.go", "hiera/render.go"],
 [("handler recovers and maps outcomes to status codes", "hieraserver/rest/rest.go CreateRouter")],
 ["status, header and body of each response", "liveness of the server process"])

prop("C11", "The cache that providers share within a session is linearizable",
 "The cache that lookup functions use to keep values for the session behaves as one atomic map: every read returns the latest value stored before it in some order that agrees with real time, and storing a value returns the value that it replaced, so that no stored value is ever returned as replaced twice or lost. Caches of different sessions are disjoint.",
 ["schedules", "histories"],
 "every interleaving of stores, bulk stores, reads and listings by concurrently running lookup functions",
 "Tests use the cache from one goroutine.",
 ["session/serverctx.go", "session/session.go"],
 [("concurrent map per session", "session/serverctx.go Cache, CachedValue, CacheAll, CachedEntries")],
 ["returned values of the cache operations"])

prop("C12", "A failed lookup leaves its session and invocation as if it had not happened",
 "After a lookup has failed for any reason - a source fault, a plugin error, an interpolation or conversion error, a recursion - later lookups through the same invocation and the same session give the same results as if the failed one had not been made, once the cause is gone. In particular scope, redaction, recursion tracking and the explanation's nesting are back to where they were.",
 ["fault_sequences", "histories"],
 "every sequence of lookups on one invocation or session in which any of them fails at any point",
 "Tests discard the session after an error.",
 ["session/invocation.go", "config/mappedpaths.go", "internal/datahashprovider.go"],
 [("state is pushed and popped around nested work", "session/invocation.go With..., DoWithScope, DoRedacted")],
 ["results and explanations of later lookups"])

prop("C13", "Output that cannot be written completely is reported as a failure",
 "When a lookup renders its result or explanation to an output that fails, at once or after it has accepted part of the bytes, the lookup reports an error instead of success. Without a fault the output holds the complete rendering, exactly once.",
 ["fault_sequences"],
 "every byte position at which the output can fail or be cut short, for every rendering and value",
 "Tests render to memory buffers that never fail.",
 ["hiera/render.go", "hiera/hiera.go", "cli/hiera.go"],
 [("write errors are raised", "hiera/render.go Render")],
 ["error of the lookup and bytes accepted by the output"])

prop("C14", "Variable and fact files take full effect or fail the lookup",
 "Variables and facts given to a lookup on the command line or to the server, inline, in files or on standard input, are all in effect for the lookup, with later ones overriding earlier ones and facts also being available under 'facts'. A variable or fact source that cannot be read completely or parsed makes the lookup fail; it is never ignored or applied in part.",
 ["fault_sequences", "inputs"],
 "every order and content of variable sources and every fault (missing, unreadable, short, torn, failing half-way) on any of them",
 "Tests pass a few healthy files.",
 ["hiera/hiera.go", "cli/hiera.go"],
 [("each source is read completely and parsed before it is merged into the scope", "hiera/hiera.go createScope, addVarPaths")],
 ["lookup result or error"])

prop("C15", "Results do not depend on the order in which directories are enumerated",
 "The result of a lookup, including its explanation, depends only on the names and contents of the files involved. The order in which the operating system lists the entries of a directory, for glob locations and for module directories, never changes the value found or the priority of a source.",
 ["schedules", "configurations"],
 "every permutation of every directory listing made during a lookup",
 "A test sees the one order that its file system happens to give.",
 ["config/glob.go", "provider/modulelookupkey.go"],
 [("glob matches are turned into locations", "config/glob.go Resolve"),
  ("module directory is searched by name ignoring case", "provider/modulelookupkey.go loadModule")],
 ["lookup results under permuted listings"])

prop("C16", "Module lookups find each module's data, concurrently and despite faults",
 "A lookup of a key with a module prefix gives the value that this module's own hierarchy defines, and not found for unknown modules, also when many lookups use the same or different modules of a session for the first time at once. If the module path cannot be listed or the module's configuration cannot be examined or read, the lookups that need it fail and later ones try again; a failure is never remembered as 'no such module'.",
 ["schedules", "fault_sequences"],
 "every interleaving of first uses of modules by concurrent lookups, and every fault of listing, examining and reading module directories, followed by repair",
 "Tests look up module data sequentially on a healthy disk.",
 ["provider/modulelookupkey.go", "session/invocation.go"],
 [("module providers are kept in the session's provider cache", "provider/modulelookupkey.go moduleProviders, loadModuleProvider")],
 ["lookup results and errors", "repeat after repair"])

prop("C17", "Sessions in one process are independent of each other",
 "Sessions that exist at the same time in one process do not share anything that affects results: configuration, options, variables, cached values, functions, plugins and failures of one never show in another. Ending one session never disturbs the plugins or lookups of another.",
 ["schedules", "histories"],
 "every interleaving of creation, lookups, failures and ending of two or more sessions, including sessions with the same configuration path and the same plugin",
 "Tests run sessions one after another.",
 ["session/session.go", "session/pluginloader.go"],
 [("caches, registry and loader are created per session", "session/session.go New")],
 ["lookup results per session", "process table"])

prop("C18", "Explaining a lookup does not change its outcome",
 "A lookup that is made with an explanation, of its data or of its options, finds the same value, or fails in the same way, as the same lookup without one, with the same faults. The explanation that it renders shows the value that the hierarchy gave for the key, merged if it was merged, unless that value is sensitive.",
 ["inputs", "configurations", "fault_sequences"],
 "every hierarchy, data set, key, merge option and source fault, with each kind of explanation",
 "Tests check the text of a few explanations but never compare outcomes between explained and plain lookups, and never under faults.",
 ["explain/explainer.go", "session/invocation.go", "hiera/hiera.go"],
 [("explainer is a passive observer behind nil checks", "session/invocation.go With..., Report...")],
 ["value or failure of both lookups", "rendered explanation"])

prop("C19", "Recursive lookups end with an error, and only those do",
 "A lookup whose value refers back to itself, directly or through any chain of interpolations, aliases, sources or modules, ends with an error that says so, within a number of steps proportional to the chain; it never exhausts the process. A lookup that is not recursive is never rejected as recursive, however often a key is used in it and however many lookups of the same key run at the same time.",
 ["inputs", "schedules"],
 "every finite graph of references between keys, with and without cycles, and every interleaving of concurrent lookups of the same keys",
 "No test contains a cyclic reference; the guard for it is not reached by any test.",
 ["session/invocation.go", "session/interpolate.go"],
 [("stack of keys being looked up, per invocation", "session/invocation.go WithKey")],
 ["lookup error", "survival of the process"])

prop("C20", "The key grammar, digging into values and wrapping of dug values are consistent",
 "Every dotted key is either rejected or split into parts that identify one path into a value; digging that path out of a value and wrapping the result back yields the original element.",
 ["inputs"], "every key string and value",
 "Tests use a list of sample keys.", ["api/key.go"], [("key parser", "api/key.go NewKey, Dig, Bury")])
prop("C21", "Merging is the documented algebra over values",
 "The unique, hash and deep merges of any list of values in priority order yield the documented union, shallow and recursive merge with the higher priority winning, and never change their operands.",
 ["inputs"], "every list of values and merge options", "Tests merge a handful of sample values.",
 ["merge/strategy.go", "merge/deepmerge.go"], [("merge strategies", "merge/strategy.go")])
prop("C22", "Invalid hierarchy configurations are rejected with an explanation",
 "A configuration that is not valid according to the documented schema is rejected as a whole with an error that names the offence, and a valid one is accepted with the documented defaults.",
 ["inputs", "configurations"], "every configuration text", "Tests use a fixed list of bad configurations.",
 ["config/config.go", "config/entry.go"], [("schema and entry checks", "config/config.go New")])
prop("C23", "Sensitive values never show in explanations",
 "The value of a key that the lookup options convert to a sensitive type, whatever sources, merges and interpolations it is obtained from, never shows in the text of an explanation, directly or through keys that refer to it, nor in the log, also when the lookup fails midway; the value itself is delivered in full. Nothing else is hidden: what other lookups find remains visible in their explanations, also after or while a sensitive value was looked up through the same invocation or session.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every hierarchy, merge and reference between keys, every history of failing and succeeding lookups of an invocation, and every interleaving with others",
 "One test renders one sensitive value; no test explains a lookup of one, and none looks at what remains after one has failed.",
 ["session/invocation.go", "explain/explainer.go"], [("values are redacted while a sensitive value is being looked up", "session/invocation.go LookupAndConvertData, DoRedacted")],
 ["rendered explanations", "log", "found values"])
prop("C24", "Renderings of a value read back as that value",
 "The YAML and JSON renderings of a found value parse back into that value, and the text rendering is its plain form.",
 ["inputs"], "every value", "Tests render sample values.", ["hiera/render.go"], [("renderers", "hiera/render.go Render")])
prop("C25", "YAML to JSON conversion writes equal data completely, or fails",
 "The program that converts YAML from its standard input to JSON on its standard output succeeds only when it has read all of the document and written all of a JSON document with equal data. When the input is malformed, holds more than one document or holds what JSON has no equal for, or when reading or writing fails at any point, it ends with a failure status. However the input is split, a document whose data JSON can hold is converted.",
 ["inputs", "fault_sequences", "crash_points"],
 "every YAML document, every way in which its input arrives in pieces, and every point at which reading it or writing the result fails",
 "There is no test of the program.", ["yaml2json/main.go"], [("convert", "yaml2json/main.go main, stringKeys")],
 ["exit status", "standard output"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, s)
print(len(P), "properties")
