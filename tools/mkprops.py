#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    a = {"files": list(dict.fromkeys(files)), "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "An instrumented build behaves like the plain build plus its advice",
  "For every buildable program and injector configuration, building through the tool (compile, link, and test binaries) succeeds, and the resulting executable prints and returns exactly what the ordinarily built one does, plus exactly one execution of the injected code for every execution of a matching location. Packages that the injected code needs but the program did not import, including ones needed only at link time and through several levels of dependencies, are present in the binary and initialised.",
  ["programs", "configurations"],
  "every multi-package module x every set of aspects drawn from the join point and advice vocabulary, for go build, go run and go test",
  "Existing tests weave single golden packages and a handful of sample apps; the composition of weaving, import resolution, link-deps propagation, the synthetic main import file and the linker is sampled on fixed programs only.",
  ["internal/toolexec/aspect/oncompile.go", "internal/toolexec/aspect/oncompile-main.go", "internal/toolexec/aspect/onlink.go", "internal/cmd/toolexec.go", "internal/injector/injector.go", "internal/jobserver/pkgs/resolve.go"],
  [("compile interception and weaving", "internal/toolexec/aspect/oncompile.go"), ("link.deps propagation into main and the link step", "internal/toolexec/aspect/oncompile-main.go, onlink.go")],
  observe=["stdout, stderr and exit status of the built executables"])

prop("C02", "Weaving leaves everything that was not matched exactly as written",
  "A source file that no configured aspect matches is not rewritten at all. In a file that is rewritten, every declaration, statement, expression, comment and compiler directive outside of the code the matched aspects add or replace is still there, unchanged and in its original order.",
  ["programs", "configurations"],
  "every type-checkable Go package x every set of aspects, including none that match",
  "Golden-file tests compare a fixed set of inputs to fixed outputs; nothing checks preservation for arbitrary syntax (comments, directives, generics, labels, cgo preambles, build tags) around a match.",
  ["internal/injector/injector.go", "internal/injector/write.go", "internal/injector/restorer.go", "internal/injector/postprocess.go", "internal/injector/parse/parser.go"],
  [("modified flag per file", "internal/injector/injector.go"), ("canonical import rewriting", "internal/injector/imports.go")],
  observe=["text of the files returned by the injector"])

prop("C03", "Injected code refers to the packages its template names, and compiles",
  "For every template and every surrounding file, the woven package type-checks, and each package-qualified name used by injected code denotes the package the template's import table bound it to, whatever that file imports, renames, dot-imports, or declares under the same names. No package ends up imported in a way that breaks compilation (unused or conflicting), and every package the injected code uses is reported as a dependency of the file; the language version requested by templates only ever raises the effective one.",
  ["programs", "configurations"],
  "every combination of existing imports and local names in a file x templates with arbitrary import tables and language levels",
  "Tests cover a few import layouts by golden file; aliasing, shadowing and repeated injection of the same package under different names form a product space the goldens do not sample.",
  ["internal/injector/imports.go", "internal/injector/injector.go", "internal/injector/restorer.go", "internal/injector/typed/refmap.go", "internal/injector/aspect/advice/code/template.go", "internal/injector/aspect/advice/code/dot.go", "internal/injector/aspect/context/golang.go"],
  [("synthetic import aliasing", "internal/injector/typed/refmap.go"), ("import canonicalisation", "internal/injector/imports.go")],
  observe=["go/types result of the woven package", "reported references and language level"])

prop("C04", "Woven files keep the original line numbers",
  "In every rewritten file, each original token that is retained is reported by the Go toolchain (through the line directives of the rewritten file) at its original file and line. Code that was synthesised is never attributed to a line of the user's file other than by position retained from a user node it wraps.",
  ["programs", "configurations"],
  "every source layout (comments, blank lines, multi-line expressions, one-line functions, pre-existing line directives) x every set of advice",
  "Golden files show the directives for fixed layouts; no test derives the effective position of each retained token.",
  ["internal/injector/lineinfo/annotation.go", "internal/injector/write.go", "internal/injector/postprocess.go", "internal/injector/restorer.go", "internal/injector/parse/parser.go"],
  [("line directive annotation of moved nodes", "internal/injector/lineinfo")],
  observe=["positions of identifiers and literals when the output is parsed with directives applied"])

prop("C05", "The ignore directive excludes exactly the code it annotates",
  "No advice is applied to any node lexically inside a declaration, statement or other element annotated with either spelling of the ignore directive, whatever aspects are configured and however deep the node is. Elements that are not annotated are woven as if the directive did not exist anywhere else.",
  ["programs", "configurations"],
  "every placement of the directive (with or without trailing text, stacked with other comments) in every program x every set of aspects",
  "Two golden files exercise one function-level and one statement-level placement.",
  ["internal/injector/injector.go"],
  [("pruning of ignored subtrees during traversal", "internal/injector/injector.go isIgnored")],
  observe=["differences between woven files with and without the directive"])

prop("C06", "Skipping heuristics never suppress a match",
  "Whenever an aspect's join point would match some node of some file of a package, the heuristics that skip packages by imports, import path and name, and files by their content, do not skip that package or that file. Equivalently, weaving with the heuristics and weaving with every aspect offered to every file give the same result.",
  ["programs", "configurations"],
  "every join point expression (including nested boolean combinations and negation) x every package",
  "Unit tests exercise the three-valued logic on a few operands; no test relates the heuristics to the matcher they approximate.",
  ["internal/injector/aspect/may/match.go", "internal/injector/aspect/may/context.go", "internal/injector/aspect/join", "internal/injector/aspect/aspect.go", "internal/injector/injector.go", "internal/injector/parse/parser.go"],
  [("three-valued package and file pre-checks", "internal/injector/aspect/may, join/*.go PackageMayMatch and FileMayMatch")],
  observe=["pre-check verdicts against actual matches"])

prop("C07", "Weaving is deterministic",
  "Weaving the same package with the same configuration produces byte-identical files, language level and reported dependencies, in every run and under every scheduling of the files that are processed concurrently. The result for one file does not depend on the order in which files are listed, nor on which other files of the package are modified.",
  ["programs", "schedules", "configurations"],
  "every package, repeated under permuted file order, varied parallelism and repeated runs",
  "Goldens are single runs of mostly single-file packages; map iteration order and goroutine interleavings are not explored.",
  ["internal/injector/injector.go", "internal/injector/imports.go", "internal/injector/typed/refmap.go", "internal/injector/parse/parser.go", "internal/toolexec/aspect/linkdeps/linkdeps.go"],
  [("sorted synthetic imports", "internal/injector/typed/refmap.go"), ("per-file goroutines", "internal/injector/injector.go")],
  observe=["bytes of all outputs"])

prop("C08", "Advice applies in namespace, then order, then definition order",
  "At every node matched by several pieces of advice, from one or many aspects, they are applied in ascending order of namespace (alphabetically), then order number, then the order in which the configuration defines them. Advice without an explicit order or namespace behaves as order 0 in the default namespace, and every applicable piece of advice is applied exactly once.",
  ["configurations"],
  "every list of aspects with every assignment of namespaces and orders, including duplicates, negatives and defaults",
  "Unit tests sort small hand-written lists; end-to-end ordering over generated sets and nested matches is not tested.",
  ["internal/injector/injector.go", "internal/injector/aspect/advice/order.go", "internal/injector/aspect/advice/block.go", "internal/injector/aspect/advice/unmarshal.go"],
  [("stable sort of matched advice", "internal/injector/injector.go, internal/injector/aspect/advice/order.go")],
  observe=["sequence of injected statements in the woven function"])

prop("C09", "Join points match exactly the nodes their documentation describes",
  "For every node of every type-checkable program, each join point (import path, package name, package filter, function by name, signature, receiver, result or argument type, function body, function or method call, struct definition and literal, value declaration, configuration, test main, and the all-of, one-of and not combinators) matches if and only if its documented condition holds there. In particular package filters treat * as one path segment and ** as any number, and method calls account for pointer receivers, embedding and interface satisfaction as requested.",
  ["programs", "configurations"],
  "every program over the generated grammar x every parameterisation of every join point",
  "Each join point has a handful of example tests; agreement with the documented meaning over arbitrary programs is not tested.",
  ["internal/injector/aspect/join", "internal/injector/typed/typename.go", "internal/injector/typed/typecheck.go"],
  [("matchers", "internal/injector/aspect/join/*.go")],
  observe=["set of matched nodes against an independent reference evaluator"])

prop("C10", "Directives attach where Go programmers expect and their arguments survive",
  "A directive join point matches precisely the annotated element, propagating from a declaration, assignment or call statement to the function or call it governs as documented, and never matches look-alike comments (with white space, longer names or other text). The key and value pairs a template reads from a directive are those written, in order, including quoted values and flags without values, and malformed text never crashes the build.",
  ["programs", "inputs"],
  "every directive name and argument text, attached to every kind of element",
  "The directive tests list a dozen comments; argument parsing has a few goldens.",
  ["internal/injector/aspect/join/directive.go", "internal/injector/aspect/advice/code/dot_directive.go", "internal/injector/aspect/advice/code/dot.go"],
  [("directive matching", "internal/injector/aspect/join/directive.go"), ("directive argument parsing", "internal/injector/aspect/advice/code")],
  observe=["match result", "arguments seen by a template"])

prop("C11", "Templates see the enclosing function's real signature",
  "Within a template, the n-th argument, the n-th result, the first argument or result of a given type, the receiver and the function name always denote the corresponding element of the innermost enclosing function, for every way of writing the parameter list (grouped, anonymous, blank, variadic, named or not). Anonymous or blank elements that are used get a fresh name that makes the function refer to the right value without changing its type or capturing another name, and out of range requests are errors.",
  ["programs", "configurations"],
  "every function signature and nesting x every accessor and index",
  "A few goldens cover named and unnamed parameters; grouping and mixed blanks combine beyond those.",
  ["internal/injector/aspect/advice/code/dot_function.go", "internal/injector/aspect/advice/code/dot.go"],
  [("field lookup and implicit naming", "internal/injector/aspect/advice/code/dot_function.go")],
  observe=["run-time values observed by injected code, types of the woven function"])

prop("C12", "Type names round-trip and identify exactly one type",
  "Type names are those of (pointers to) built-in or package-qualified named types: every such name is accepted and converts to the type expression it denotes, which it matches, and text that is not one is rejected with an error. A type expression in a program is matched by the type name that denotes its type and by no other one, however it is written: under any import name, between parentheses, with type arguments, or as an empty interface.",
  ["inputs", "programs"],
  "every type expression of the supported grammar x every type occurring in a program",
  "Tests list a few names; equality against arbitrary types is not explored.",
  ["internal/injector/typed/typename.go", "internal/injector/typed/typecheck.go", "internal/injector/typed/typecheck.go"],
  [("type name parser and matcher", "internal/injector/typed")],
  observe=["parse, print and match results"])

prop("C13", "Configurations with different effects have different fingerprints",
  "The fingerprint of an injector configuration is a pure function of its meaning: loading the same configuration again gives the same fingerprint, and any change to a join point, advice, template, import table, order, namespace, language level or to the sequence of aspects that can change what is woven gives a different one.",
  ["configurations", "histories"],
  "every pair of configurations, in particular ones a single edit apart",
  "Tests fingerprint a few primitive values; no test relates configuration edits to the fingerprint.",
  ["internal/fingerprint/fingerprint.go", "internal/injector/aspect/aspect.go", "internal/injector/aspect/join", "internal/injector/aspect/advice"],
  [("structural hashing", "internal/fingerprint, Hash methods of join points and advice")],
  observe=["fingerprint string of generated configurations"])

prop("C14", "The build identity changes whenever the build's inputs to weaving change",
  "The version text appended to the toolchain's version output is the same for all requests of one build and for repeated builds of unchanged inputs, and differs when the configuration, or the content, embedded files or set of files of any locally developed module that may be injected (directly or through its dependencies) changes. It keeps the three-field form the Go toolchain requires.",
  ["histories", "inputs", "configurations"],
  "every sequence of edits to the configuration and the files of injectable modules",
  "The version service has no direct tests; the version command test checks the format for one input.",
  ["internal/jobserver/buildid/version.go", "internal/toolexec/version.go", "internal/cmd/toolexec.go"],
  [("content hashing of unversioned modules", "internal/jobserver/buildid/version.go")],
  observe=["version suffix replies", "output of an intercepted -V=full call"])

prop("C15", "Configuration loading collects every reachable file once, in order",
  "For every graph of packages, tool files, configuration files and extends clauses (with sharing and cycles), loading terminates and yields the aspects of every reachable configuration file exactly once, dependencies before dependents in written order, independent of the directory it was started from. Missing extended files, undeclared keys under validation and malformed documents are reported as errors naming the file, never ignored and never a crash.",
  ["configurations", "inputs"],
  "every configuration graph and every document, valid or mutated",
  "Tests load a few fixture directories.",
  ["internal/injector/config/config.go", "internal/injector/config/config-go.go", "internal/injector/config/config-yml.go", "internal/injector/config/config.go", "internal/injector/config/validate.go", "internal/yaml"],
  [("visited-file bookkeeping", "internal/injector/config/config.go"), ("schema validation", "internal/injector/config/validate.go")],
  observe=["sequence of loaded aspects, returned errors"])

prop("C16", "Any configuration document the loader accepts can be woven safely",
  "Every aspect document that conforms to the published schema, with well-formed names and templates, is accepted by the loader, and with validation requested (as when pinning) every document it accepts conforms to the schema; the others are rejected with an error. Neither loading any document nor weaving with an accepted one crashes or runs forever.",
  ["configurations", "inputs"],
  "every document generated from the schema, and mutations of such documents",
  "The fixtures contain a few valid documents per construct; acceptance of the two grammars is not compared.",
  ["internal/injector/config/schema.json", "internal/injector/aspect/aspect.go", "internal/injector/aspect/join/unmarshal.go", "internal/injector/aspect/advice/unmarshal.go", "internal/yaml"],
  [("per-construct unmarshalers", "internal/injector/aspect/join/*.go, advice/*.go")],
  observe=["loader verdict against schema verdict"])

prop("C17", "Recorded link dependencies survive storage and keep their strength",
  "The set of extra dependencies stored in a package archive reads back as exactly the same set with the same strength, for any archive contents; re-recording a dependency never weakens it, text is canonical (sorted, same set gives same bytes), older records are read conservatively, and unsupported or malformed records are rejected. Storing never damages the other members of the archive.",
  ["inputs", "histories"],
  "every sequence of recordings over every archive",
  "Tests round-trip a couple of sets.",
  ["internal/toolexec/aspect/linkdeps/linkdeps.go", "internal/toolexec/proxy/compile.go"],
  [("link.deps encoding", "internal/toolexec/aspect/linkdeps"), ("attachment to the archive", "internal/toolexec/proxy/compile.go")],
  observe=["members of the archive, decoded sets"])

prop("C18", "Import configurations are rewritten without loss",
  "Parsing and re-writing any import configuration preserves every package file entry, import mapping and other line; reading the archive of a package goes through the import mapping; and merging another one only adds packages that were missing, never changing an existing entry. Lines that are not understood are kept as they are.",
  ["inputs", "histories"],
  "every import configuration text, with every combination of line kinds",
  "Tests parse one file.",
  ["internal/toolexec/importcfg/importcfg.go", "internal/toolexec/importcfg/importcfg.go", "internal/toolexec/importcfg/lookup.go"],
  [("importcfg parse and write", "internal/toolexec/importcfg")],
  observe=["parsed and rewritten entries"])

prop("C19", "Tool command lines are understood and edited like the Go tools would",
  "For every command line the go command can produce for the compiler and linker, the recognised stage, flag values, source files, output and working directory are those the real tool would see. Replacing a source file or raising the language level changes exactly that argument and leaves every other argument in place and in order, and the language level is never lowered.",
  ["inputs", "histories"],
  "every argument vector over the documented flags (joined and separate values, repeated, interleaved), and every sequence of edits",
  "Tests parse a few command lines.",
  ["internal/toolexec/proxy/proxy.go", "internal/toolexec/proxy/compile.go", "internal/toolexec/proxy/link.go", "internal/toolexec/proxy/parse.go", "internal/toolexec/proxy/compile.flags.go"],
  [("flag parsing from struct tags", "internal/toolexec/proxy/compile.flags.go"), ("parameter replacement", "internal/toolexec/proxy/proxy.go")],
  observe=["parsed command and resulting arguments"])

prop("C20", "Link and compile steps receive exactly the archives they need",
  "After interception, the import configuration given to the compiler or linker lists an archive for every package reachable from the woven code through imports and recorded link dependencies, keeps every archive the go command had chosen, and the synthetic main imports precisely the missing packages that must be initialised. Conflicting requirements for the same package between test variants are reported instead of silently linking a mismatching archive.",
  ["programs", "configurations", "histories"],
  "every dependency graph of injected packages and recorded link dependencies, with any subset already present",
  "Tests cover merge helpers with a few maps; closure over arbitrary graphs is not tested.",
  ["internal/toolexec/aspect/oncompile.go", "internal/toolexec/aspect/oncompile-main.go", "internal/toolexec/aspect/onlink.go", "internal/toolexec/aspect/resolve.go"],
  [("transitive resolution of link deps", "internal/toolexec/aspect/resolve.go, onlink.go, oncompile-main.go")],
  observe=["import configuration file contents, generated source"])

prop("C21", "A package is built once and every other request gets that result",
  "For every interleaving of requests, exactly one requester of a given package and build identity is told to build it, all the others wait and then receive byte-identical copies of the files it produced, or its error. A result is accepted only from the holder of the build token and only once, requests for different packages or identities never affect each other, and once a build is finished nobody waits forever.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of start, finish and failing-finish requests over several packages and identities",
  "Tests run a few fixed sequences with ten concurrent readers.",
  ["internal/jobserver/nbt/nbt.go", "internal/toolexec/proxy/compile.go", "internal/files/files.go"],
  [("build state per package and identity", "internal/jobserver/nbt/nbt.go")],
  observe=["replies to concurrent clients of a real job server"])

prop("C22", "Shared results are computed once and dependency cycles are refused",
  "Concurrent lookups of the same key run the loader once and all observe its value, while a failed load is reported to its caller and retried by the next one. A dependency edge is refused exactly when it would close a cycle among the edges currently present, in every graph and after every history of additions and removals.",
  ["schedules", "histories"],
  "every history of lookups with failing loaders, and of edge additions and removals",
  "One test adds three edges.",
  ["internal/jobserver/common/cache.go", "internal/jobserver/common/graph.go"],
  [("slot locking", "internal/jobserver/common/cache.go"), ("path search before insertion", "internal/jobserver/common/graph.go")],
  observe=["results against a model map and a reference reachability search"])

prop("C23", "Package resolution replies depend only on what can change the answer",
  "Requests to resolve a package that differ only in the order of environment entries, in overridden duplicates, or in variables known not to matter share one answer, while requests that differ in directory, pattern, test variant or any other effective variable do not. Every reply lists the archives of the requested package and of all its dependencies, and failures to load any of them are reported.",
  ["histories", "configurations"],
  "every environment, directory and pattern, in every order of requests",
  "Tests resolve a couple of packages with a fixed environment.",
  ["internal/jobserver/pkgs/resolve.go", "internal/jobserver/pkgs/load.go"],
  [("request canonicalisation and hashing", "internal/jobserver/pkgs/resolve.go")],
  observe=["number of loads and replies through the job server"])

prop("C24", "Build flags of the go command are reproduced for child builds",
  "For every go command line and GOFLAGS value, the build flags handed to child builds are those the go command itself would act on: same values, command line overriding GOFLAGS, values and positional arguments not confused with flags. No command line crashes the parser.",
  ["inputs"],
  "every argument vector over go's build, test and run flags in all their spellings, with every GOFLAGS",
  "Tests parse about fifteen lines.",
  ["internal/goflags/flags.go", "internal/goflags/quoted/quoted.go"],
  [("flag classification tables", "internal/goflags/flags.go")],
  observe=["parsed flags against a reference parser of the go command's rules"])

prop("C25", "Go commands are forwarded faithfully",
  "Running a go command through the tool executes the real go command with the user's arguments unchanged and in order, adding only the tool-execution hook to commands that build, in the directory requested, with the environment preserved, and returns its exit status and output. Signals asking the tool to end are passed on to the go command, whose status is still the one returned, and nothing is left in the temporary directory. The added hook reaches the tool intact whatever characters its path contains.",
  ["inputs", "configurations"],
  "every argument vector, directory flag and tool path",
  "Tests check a few invocations.",
  ["internal/goproxy/proxy.go", "internal/goproxy/dashc.go", "internal/cmd/go.go", "main.go"],
  [("argument insertion", "internal/goproxy/proxy.go")],
  observe=["arguments, directory and environment received by a recording go stand-in"])

prop("C26", "Intercepted tools that need no weaving run exactly as requested",
  "A toolchain command other than those being woven runs with the very same arguments, environment, input, output and exit status as without interception. A failing tool makes the interception fail with the same exit status, and internal errors are never reported as success.",
  ["inputs", "fault_sequences"],
  "every tool name, argument vector, output and exit status",
  "Tests run one tool.",
  ["internal/cmd/toolexec.go", "internal/toolexec/proxy/proxy.go", "internal/toolexec/proxy/parse.go", "main.go"],
  [("command execution", "internal/toolexec/proxy/proxy.go, internal/cmd/toolexec.go")],
  observe=["what a recording tool stand-in receives, exit status"])

prop("C34", "Diagnostics never change what is built",
  "Whatever the log level, log file and profiles that are asked for, by flags or in the environment, the go command and the tools run with the same arguments, input, directory and environment (besides the settings of the tool itself), and end with the same output and exit status, as without. The documented levels are all accepted, and nothing less severe than the level is reported. With a log file, messages are appended to it, with $PID and ${PID} standing for the process, as complete lines, its directory is created and none go to the standard error; relative names are those of the directory the tool was started in, for every process below. No other file is left behind.",
  ["inputs", "configurations"],
  "every level x every file name, relative or absolute, new or existing x every way of setting them x every command and exit status",
  "Tests never set them.",
  ["main.go", "internal/cmd/go.go", "internal/cmd/toolexec.go", "internal/goproxy/proxy.go"],
  [("settings of diagnostics", "main.go")],
  observe=["what recording stand-ins receive, output, exit status, log files"])

prop("C27", "Pinning is idempotent and keeps what users wrote",
  "Pinning a module leaves a valid tool file that imports the tool and the default integrations, keeps every import that provides integrations along with the user's comments and declarations, removes or reports the ones that do not according to the options, and leaves the module file requiring at least the running version. Comments that end the line of an import are the tool's own, and comments attached to a removed import go with it. Pinning again with the same options changes nothing.",
  ["inputs", "histories", "configurations"],
  "every pre-existing tool file and module file x every combination of options",
  "The pin tests need the network and cover six files.",
  ["internal/pin/pin.go", "internal/pin/importset.go", "internal/gomod/gomod.go"],
  [("tool file rewriting", "internal/pin/pin.go"), ("import set", "internal/pin/importset.go")],
  observe=["tool file and go.mod after pinning"])

prop("C28", "Version checks accept exactly the required version and never downgrade",
  "The version guard accepts the running binary exactly when it is the version (or the local replacement directory) the module requires. When integrations are upgraded the selected version is never lower than the one already required, and is the newest of the candidates when none was.",
  ["inputs", "configurations"],
  "every combination of required, replaced, shipped and latest versions",
  "Table tests list a few combinations.",
  ["internal/ensure/requiredversion.go", "internal/ensure/requiredintegrations.go", "internal/version/version.go"],
  [("version selection", "internal/ensure")],
  observe=["guard verdict and chosen version"])

prop("C29", "Reports attribute each woven file to its source and package",
  "For every work directory, the report lists every rewritten file exactly once with the original file and package it came from, filters keep exactly the matching files, and synthetic or never-woven packages are hidden only when requested. The difference output shows only what was added, in a stable order.",
  ["inputs", "histories"],
  "every work directory layout and file content, valid or truncated",
  "Tests use a few in-memory directories.",
  ["internal/report/report.go", "internal/injector/parse/mappedfilename.go", "internal/cmd/diff.go"],
  [("line directive recovery", "internal/injector/parse"), ("work directory walk", "internal/report/report.go")],
  observe=["file, package and diff listings"])

prop("C30", "At most one job server serves a build and it outlives its clients",
  "For every interleaving of processes asking for a job server of the same work directory, at most one keeps running and all of them reach it. File locks exclude writers from readers and other writers across processes; a server stays up while clients are connected, and stops after the inactivity period, when its beacon file is removed, or when it is told to terminate, leaving neither storage nor beacon behind, and never removing the beacon of another server.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of starting servers, connecting and disconnecting clients, and removing the beacon file",
  "One lock test and no test of concurrent server start.",
  ["internal/filelock/filelock.go", "internal/filelock/filelock_posix.go", "internal/cmd/server.go", "internal/jobserver/server.go", "internal/jobserver/client/env.go"],
  [("lock upgrade around the URL file", "internal/cmd/server.go")],
  observe=["server processes and the beacon file"])

prop("C35", "Every request to the job server gets its own answer",
  "Whatever the number of clients, over the network or within the process, and whatever is requested at the same time, a request that is answered gets exactly what its handler returned for it, and a request that fails gets an error with the handler's message, never a result. Requests do not wait for one another: a handler that is late or stuck delays its own answer only, and a client that gives up ends in time without disturbing others. Messages that are not requests, and answers larger than what can be sent, are answered by errors. Clients that connect before the server listens get through once it does.",
  ["inputs", "schedules", "histories"],
  "every set of concurrent requests x every outcome of handlers x every payload",
  "Tests send one request at a time.",
  ["internal/jobserver/common/handler.go", "internal/jobserver/client/client.go", "internal/jobserver/server.go"],
  [("requests and responses", "internal/jobserver/common/handler.go"), ("connections", "internal/jobserver/client/client.go")],
  observe=["results and errors of requests of a service of the test, duration", "data races"])

prop("C31", "Reserved packages are never woven, whatever the configuration",
  "Packages reserved to prevent circular instrumentation are left untouched by every aspect; tracer packages only receive aspects that opted in; all other packages receive all aspects. The classification depends only on the package's import path, with sub-package patterns matching whole path segments.",
  ["inputs", "configurations"],
  "every import path derived from, extending or truncating a reserved one",
  "A small table test.",
  ["internal/toolexec/aspect/specialcase.go", "internal/toolexec/aspect/oncompile.go"],
  [("override table lookup", "internal/toolexec/aspect/specialcase.go")],
  observe=["override verdict, woven arguments"])

prop("C32", "Advice does to the matched node what it says, and nothing else",
  "For every matched node, wrapping an expression yields the template's expression around the original, prepending inserts the statements ahead of the unchanged body, appending arguments adds them after the existing ones in order (re-packing variadic arguments without altering or re-evaluating them), replacing or redirecting a call keeps its arguments, adding a struct field or declarations adds just those, and assigning a value sets just it. The woven program evaluates original sub-expressions as many times and in the same order as before.",
  ["programs", "configurations"],
  "every matched expression, statement, function, call (plain, variadic, generic, method) or struct x every advice",
  "Golden files show single applications of each advice.",
  ["internal/injector/aspect/advice/wrap.go", "internal/injector/aspect/advice/block.go", "internal/injector/aspect/advice/call.go", "internal/injector/aspect/advice/assign.go", "internal/injector/aspect/advice/struct.go", "internal/injector/aspect/advice/inject.go", "internal/injector/aspect/advice/import.go"],
  [("advice application", "internal/injector/aspect/advice/*.go")],
  observe=["run-time traces of the woven program"])

prop("C33", "Dependencies injected by aspects are declared ahead of time",
  "Every package that weaving with an aspect can add to a file, by import or by link-time reference, is among the packages the configuration announces as injectable, so that build identity and resolution account for it. Packages an aspect's join point guarantees to be imported already are the only ones that may be left out of the added ones.",
  ["configurations", "programs"],
  "every aspect and every program it matches",
  "No test relates announced packages to those actually added.",
  ["internal/injector/aspect/aspect.go", "internal/injector/aspect/join", "internal/injector/aspect/advice"],
  [("injected path computation", "internal/injector/aspect/aspect.go")],
  observe=["announced packages against references reported by weaving"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
