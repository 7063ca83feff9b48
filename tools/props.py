#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one place to keep them in step."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, observe, technique, note, thorough=True, done=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, done=done))

G = "generator/generator.go"; T = "generator/types.go"; GE = "generator/generics.go"; PR = "printer/printer.go"
CG = "cmd_generate.go"; CT = "cmd_template.go"; LD = "loader/loader.go"; PK = "pkg/package.go"; MAIN = "cmd/gowrap/gowrap.go"

p("C01", "Bundled templates always yield decorators that implement the interface",
  "For every non-generic interface type that can be named from the destination package and every bundled template, gowrap succeeds and the file it writes compiles together with its package. The decorator it declares implements the source interface, with the decorator name the template documents or the one given with DecoratorName.",
  ["inputs", "programs", "configurations"], "every interface declaration (parameter and result types, names, variadics, embeds), every bundled template, same or other destination package",
  "The tests generate from a handful of fixed interfaces with names that do not collide; a decorator that does not compile for another signature is never seen.",
  [G, T, PR] + ["templates/"], [("method model and type printing", T + " NewMethod; " + PR + " PrintType"), ("bundled templates", "templates/*")],
  ["exit status of gowrap gen", "the Go compiler's verdict on the module"],
  "runtime monitoring: gowrap run on generated and real interfaces, the compiler as the oracle",
  "exploration of random signatures (seeded) and of the real interfaces installed here; parameter names equal to package names or predeclared identifiers a template uses are outside the property, as are generic interfaces")

p("C02", "The method model given to templates is the interface's method set",
  "The methods a template sees are exactly the method set the Go type checker gives the interface, whatever combination of own methods, embedded, aliased, re-declared and generic interfaces it comes from. Each signature, printed in the destination package, denotes types identical to the source's.",
  ["inputs", "programs"], "every interface the Go compiler accepts: type expressions of any depth, embeds across files and packages, import aliases, instantiated generics",
  "Tests fix about two dozen interfaces; the space of type expressions times embedding shapes times import forms is unbounded.",
  [G, T, GE, PR, PK], [("collection of methods", G + " findMethods, processInterface, processEmbedded"), ("type printing", PR + " PrintType")],
  ["a probe template that dumps the model and declares every method", "go/types view of the source package"],
  "runtime monitoring: a probe template records the model of every run, an offline checker compares it with go/types",
  "exploration; the reference is the Go compiler and go/types on the same sources; names that shadow packages and non-ASCII import aliases are not generated")

p("C03", "Parameter names, context and error flags and documentation are faithful",
  "In every method of the model all parameter and result names are valid, non-blank and distinct, source names are kept unless they collide with another or a generated name, and the context and error positions are called ctx and err. AcceptsContext holds exactly when the first parameter is context.Context, ReturnsError exactly when the last result is error, and doc and trailing comments are the source's, verbatim and in order.",
  ["inputs", "programs"], "every method declaration: named, unnamed, blank and colliding names, comments, look-alike Context types",
  "The tests check a few names; collisions depend on the combination of names and types in one signature.",
  [T, G], [("naming", T + " NewMethod, NewParam, genName"), ("context detection", G + " isContext")],
  ["the dumped model", "the source's syntax tree"],
  "runtime monitoring: a probe template records the model of every run, an offline checker compares it with the source",
  "exploration over random and real interfaces; parenthesised or aliased error/context types are not judged")

p("C04", "Rendering helpers forward calls, arguments and results faithfully",
  "Code rendered with Call, Pass, Declaration, Signature, ParamsNames, ResultsNames, the struct, pointer-struct and map helpers and ReturnStruct compiles and, when run, carries every argument and result, in order and unchanged, under its model name. This includes variadic parameters, nil values and functions without results.",
  ["inputs", "programs"], "every method signature and every argument and result value",
  "The tests compare the text of helpers on one method each; what the text does when compiled for another signature is not run.",
  [T], [("helpers", T + " Call, Pass, ParamsStruct, ParamPtrsStruct, ResultsStruct, ParamsMap, ResultsMap, ReturnStruct, Signature")],
  ["values that reach the base and the caller, and what the rendered structs and maps hold"],
  "runtime monitoring: decorators made of the helpers are executed with unique values, a monitor checks conservation",
  "exploration over random signatures with race detector builds")

p("C05", "Requests that cannot be satisfied are refused and touch nothing",
  "When the interface does not exist, is not a non-empty interface, needs unexported names or a main package from another package, or the template cannot be loaded, parsed, executed or does not render Go, gowrap exits with a non-zero status and a message on stderr. It then creates, changes and removes no file or directory, an existing output file included.",
  ["inputs", "programs", "fault_sequences"], "every kind of invalid request combined with a missing or existing output",
  "Tests exercise error returns of functions with mocks; they never look at the file system after a failed command.",
  [CG, G, PR, MAIN], [("order of generation and writing", CG + " Run"), ("refusals", G + " NewGenerator; " + PR + " checkExported, printIdent")],
  ["exit status, stderr, and the file tree before and after"],
  "runtime monitoring: invalid requests against the real command, a monitor compares the file tree before and after",
  "exploration; failures of the final write itself (disk full) are outside")

p("C06", "Generation is deterministic and go:generate reproduces the file",
  "The same request on the same sources always writes the same bytes, wherever it is run from and whatever a previous generation left in the output file. Running go generate on the written file executes the equivalent request and reproduces the file byte for byte, for every template path, output name, variable and local prefix.",
  ["inputs", "configurations", "histories"], "every combination of options (values with spaces, quotes, dollars, equal signs), template locations and runs",
  "Tests compare one rendering in one process; map order, quoting and relative paths vary with inputs and runs.",
  [CG, G], [("header template and go:generate line", CG + " headerTemplate, varsToArgs, quoteArg"), ("sorted output", G + " Generate, makeImports")],
  ["bytes of the output over repeated runs and after go generate"],
  "runtime monitoring: repeated runs and real go generate round trips, byte comparison",
  "exploration; the installed go command executes the directives")

p("C07", "Output is formatted and has exactly the right imports",
  "Every written file is gofmt-clean Go that compiles with no unused or missing import, whatever the source's and the template's own imports are, as long as they do not use one name for two packages. Imports that match a -l prefix are in a group of their own after the others, and the Import helper renders one block with each of the source's and the template's imports once.",
  ["inputs", "programs", "configurations"], "every set of source imports, aliases, template imports and local prefixes",
  "Tests use sources with a few fixed imports; conflicts and groupings depend on combinations.",
  [G], [("imports", G + " Import, makeImports, useImports, processImports")],
  ["the written file: gofmt, its import declarations, the compiler's verdict"],
  "runtime monitoring: outputs of generated programs checked by gofmt, the compiler and an import oracle",
  "exploration; sources that use one name for different packages in different files are outside")

p("C08", "Template functions compute what they document on every string",
  "up, down, upFirst, downFirst, replace and snake return the documented mapping for every string, including empty, non-ASCII, invalid UTF-8 and special-casing ones. The sprig functions are available to templates too and keep their meaning.",
  ["inputs"], "every string", "Tests use a few ASCII words.",
  [CG], [("helper functions", CG + " helperFuncs, upFirst, downFirst, toSnakeCase")],
  ["what a template renders"],
  "runtime monitoring: templates apply the functions to generated strings, a reference model checks the renderings",
  "exploration of random and edge-case strings against independent reference implementations")

p("C09", "Templates are resolved exactly and faults never yield a template",
  "A template reference resolves to the local file when there is one, else to the URL or to the named template of the repository at a commit that contains it, and the bytes used are exactly the bytes served or stored. Any fault on the way (transport error, status other than 200, malformed or empty answer, truncated body) makes the command or the call fail without a template, without a request after the fault, and with every response body closed.",
  ["fault_sequences", "inputs"], "every reference form and every sequence of responses and faults",
  "Tests mock one fault at a time; sequences, bodies and the real HTTP stack are not covered.",
  [LD, CG], [("loading", LD + " Load, get, fetchFromGithub"), ("local first", CG + " loader.Load")],
  ["requests seen by a scripted client and server, bodies closed, bytes returned, exit status"],
  "runtime monitoring with fault injection: scripted HTTP client and TLS server, a model of the protocol as the oracle",
  "fault sequences are sampled at every step of the protocol; GitHub itself is played by a local server")

p("C10", "template list and copy reproduce the remote repository",
  "template list prints exactly the entries under templates/ of the remote tree, in its order and once each, and template copy writes exactly the bytes of the remote template to the named file. When the remote fails both exit non-zero and copy leaves the destination as it was.",
  ["inputs", "fault_sequences"], "every remote tree, template content and fault",
  "Tests use one mocked tree and one mocked body.",
  [CT, LD], [("list", LD + " List; " + CT + " list"), ("copy", CT + " fetch")],
  ["stdout, destination file, exit status against a local server"],
  "runtime monitoring with fault injection: the real command against a scripted TLS server",
  "sampled trees and bodies, faults at each request")

p("C11", "The command line never crashes and its exit status tells the outcome",
  "For every argument list gowrap ends without a Go panic: with 0 when it did what was asked, 2 with a pointer to the help for a usage error, 1 when a well-formed request fails. help lists every command and flag, and the errors it prints contain user supplied text verbatim.",
  ["inputs"], "every argument list", "Tests cover commands in process; main, exit codes and argument combinations are not covered.",
  [MAIN, "command.go", CG, CT], [("dispatch", MAIN + " main, die, help"), ("flag errors", CG + " Run, checkFlags")],
  ["exit status, stdout and stderr of the process"],
  "runtime monitoring: the real command under generated argument lists, a classification model as the oracle",
  "exploration of a grammar of argument lists")

p("C12", "The library can be used concurrently",
  "Generators made and run from several goroutines in one process, with the same or different options, produce exactly what each produces alone. No data race occurs in gowrap's packages.",
  ["schedules", "configurations"], "every interleaving of concurrent NewGenerator and Generate calls",
  "Tests run one generator at a time.",
  [G, PR, PK], [("protected global formatter options", G + " processImports")],
  ["outputs compared with sequential ones", "reports of the race detector"],
  "race detector and output comparison under concurrent stress",
  "schedules the run produced, repeated; only the races the detector sees on them")

D = lambda t: ["templates/" + x for x in t]
obs = ["calls that reach the implementation, results and panics that reach the caller"]

p("C13", "Decorators are transparent when they have nothing to do",
  "A decorator of any bundled template that has no reason to interfere calls the decorated method exactly once with the same arguments and context values and gives the caller the same results. Panics, goroutine exits and cancellations pass through in both directions.",
  ["inputs", "programs", "configurations"], "every method signature, argument and result value, and every template in a neutral configuration",
  "Tests call one method of one interface with one value per template.",
  ["templates/"], [("bodies of the decorated methods", "templates/*")], obs,
  "runtime monitoring: unique values through every decorator in virtual time, conservation oracle, race detector build",
  "exploration; opentelemetry is compiled against a recording stub of its API")

p("C14", "retry makes at most n more attempts, stops at success and obeys the context",
  "A retry decorator repeats a failing call until it succeeds or retryCount further attempts failed, with the interval between attempts, and returns the last attempt's results. Every attempt gets the same arguments, methods without an error are called once, and a context that ends during a wait ends the call with the last attempt's results and no further attempt.",
  ["inputs", "schedules", "histories"], "every method, count, interval, pattern of failures and time of cancellation",
  "Tests cover one failure and one success in real time.", D(["retry"]), [("retry loop", "templates/retry")], obs + ["virtual times of the attempts"],
  "runtime monitoring in virtual time: recorded attempts against a reference model", "exploration; count 0 with any interval, positive intervals otherwise")

p("C15", "circuitbreaker opens after consecutive errors and closes after the interval",
  "The breaker lets calls through until the given number of consecutive counted errors, then rejects calls without reaching the implementation until the open interval has passed; then calls go through again, the next counted error re-opens it and a success resets the count. Ignored errors count as successes, methods without an error pass, and concurrent calls never corrupt this state.",
  ["histories", "schedules"], "every history of outcomes, times and overlaps",
  "Tests walk one history.", D(["circuitbreaker"]), [("state under the lock", "templates/circuitbreaker")], obs + ["virtual times"],
  "runtime monitoring in virtual time: recorded histories against an executable model, race detector build", "exploration of random sequential and overlapping histories")

p("C16", "ratelimit never exceeds its rate and never loses a call",
  "At most the configured burst and one call per rate interval are admitted in any window, and every waiting call is eventually admitted. A call with a context and an error whose context ends while it waits returns the context's error without reaching the implementation.",
  ["schedules", "histories"], "every arrival pattern, burst, rate and cancellation",
  "Tests measure one pattern in real time.", D(["ratelimit"]), [("token ticker and semaphore", "templates/ratelimit")], obs + ["virtual admission times"],
  "runtime monitoring in virtual time: window counts over recorded admissions", "exploration; the bound allows the burst the implementation documents plus what the ticker may have buffered")

p("C17", "robinpool hands calls to its implementations in strict rotation",
  "Over any window of calls the pool's implementations are used equally often up to one, in rotation order when calls are sequential, also under concurrency. A pool of no implementations is refused when it is made.",
  ["schedules", "histories"], "every pool size and interleaving of calls",
  "Tests make a few sequential calls.", D(["robinpool"]), [("atomic counter", "templates/robinpool")], obs,
  "runtime monitoring: counts and order of recorded calls under concurrent stress", "exploration")

p("C18", "syncpool lends an implementation to one call at a time and gets it back",
  "No implementation in the pool serves two calls at once, and after a call ends, by return, panic or goroutine exit, its implementation serves again. With more calls than implementations the surplus waits instead of failing, and a pool of none is refused when it is made.",
  ["schedules", "histories"], "every interleaving of calls, panics and exits",
  "Tests make sequential calls.", D(["syncpool"]), [("pool channel", "templates/syncpool")], obs,
  "runtime monitoring: exclusive-use and return-to-pool monitor under concurrent stress in virtual time", "exploration")

p("C19", "fallback returns the first success and tries implementations in order",
  "A fallback decorator starts implementations in order, the next as soon as one fails or at the next tick of the interval, and returns the results of the first that succeeds. It fails only when all have failed or the context ended, with an error that names the failures in order or wraps the context's, and starts nothing after it returned.",
  ["schedules", "histories", "fault_sequences"], "every number of implementations, durations, outcomes, intervals and cancellations",
  "Tests fix two implementations and one timing.", D(["fallback"]), [("race of the implementations", "templates/fallback")], obs + ["virtual start times"],
  "runtime monitoring in virtual time: recorded launches and outcome against a reference model", "exploration; positive intervals and at least one implementation")

p("C20", "timeout bounds the context of each method by its own setting",
  "The context the implementation sees has the configured timeout of that method unless the caller's deadline is earlier or the timeout is zero, keeps the caller's values and cancellation, and ends when the call returns. Methods without a context are passed through.",
  ["inputs", "configurations", "schedules"], "every method, timeout and parent context",
  "Tests use one timeout.", D(["timeout"]), [("context.WithTimeout", "templates/timeout")], obs + ["deadline and end of the implementation's context"],
  "runtime monitoring in virtual time: contexts observed by the implementation", "exploration")

p("C21", "Validation decorators reject exactly the calls with an invalid argument",
  "In methods that return an error each of the three validation decorators validates the arguments (never the context) in order and, when one is invalid, returns its error (as an InvalidArgument error in grpc_validate and twirp_validate) with zero values for the other results and without reaching the implementation. Every other call passes through.",
  ["inputs", "programs"], "every combination of parameters that can and cannot be validated, variadic and nil ones included",
  "Tests use one method with one argument.", D(["validate", "grpc_validate", "twirp_validate"]), [("Validate calls", "templates/validate")], obs + ["order of Validate calls"],
  "runtime monitoring: recorded validations and outcomes against a model", "exploration")

p("C22", "twirp_error adds the request to the errors it passes",
  "When a method with a parameter other than the context fails, the decorator returns a twirp error with the same code, message and metadata and the JSON of the first such parameter under the key request. Other errors become internal twirp errors that unwrap to the original, and all other calls and results reach the caller as they are.",
  ["inputs"], "every method and error", "Tests use one error.", D(["twirp_error"]), [("metadata", "templates/twirp_error")], obs,
  "runtime monitoring: errors and metadata observed by the caller", "exploration")

p("C23", "log and logrus write one faithful record before and after each call",
  "Each call writes its records in order, with the method's name and its parameters before the call and the results and the error after it, to the documented destination and level (log: standard output, standard error for failures; logrus: debug, error for failures). Nothing is written for other calls and the call itself is not changed.",
  ["inputs", "histories"], "every method, value and outcome", "Tests look for substrings of one call.", D(["log", "logrus"]), [("records", "templates/log, templates/logrus")], ["written records"],
  "runtime monitoring: written records parsed and matched with the calls", "exploration")

p("C24", "prometheus counts and times every call under the right labels",
  "Each call adds exactly one observation of its duration to the summary of the interface (named by MetricName when given), labelled with the instance, the method and the result ok or error. No observation is lost, duplicated or mislabelled under concurrency.",
  ["histories", "schedules"], "every history of calls", "Tests make one call.", D(["prometheus"]), [("deferred observation", "templates/prometheus")], ["gathered metrics"],
  "runtime monitoring in virtual time: conservation between calls and gathered metrics", "exploration")

p("C25", "Tracing decorators open one span per call, tell errors and always end it",
  "Each call with a context runs in a span named after the instance and method, child of the caller's span, whose context the implementation receives; it is ended exactly once however the call ends. Errors are recorded on the span unless a span decorator is given, which then sees the parameters and results once, and no success is reported as an error.",
  ["inputs", "histories", "schedules"], "every method, outcome and parent", "Tests use mocks for one call.", D(["opencensus", "opentracing", "opentelemetry", "elasticapm"]), [("spans", "templates/open*, templates/elasticapm")], ["spans recorded by in-memory tracers"],
  "runtime monitoring: recorded spans matched with calls", "exploration; opentelemetry is compiled against a recording stub of its API, the other three against the real libraries")

p("C26", "Variables reach templates verbatim",
  "Every -v name=value is available to the template as that name with exactly that text, a name without an equal sign is true, and the last of several settings of one name wins. The bundled templates take DecoratorName and their documented variables from there.",
  ["inputs", "configurations"], "every name and value, including equal signs, quotes, spaces, newlines and invalid UTF-8",
  "Tests set two variables.", [CG], [("vars", CG + " vars.Set, toMap")], ["what a probe template renders"],
  "runtime monitoring: a probe template dumps the variables of generated argument lists", "exploration")

p("C27", "Decorators can be shared by goroutines",
  "A decorator of any bundled template used by several goroutines at once, over implementations that are safe for that, has no data race and answers every call. This holds with cancellations, errors and slow implementations in flight.",
  ["schedules"], "every interleaving of concurrent calls on one decorator", "Tests of decorators are sequential.", ["templates/"], [("shared state of decorators", "templates/*")], ["reports of the race detector", "completed calls"],
  "race detector under concurrent stress of every bundled decorator", "schedules the run produced; only the races the detector sees on them")

p("C28", "Regeneration follows the sources through any history of edits",
  "After any sequence of edits of the source interface, regenerating (by command or go generate) succeeds although the decorator of the previous version no longer compiles, and the package then compiles again. The result is what a generation from scratch gives.",
  ["histories", "programs"], "every history of adding, removing, renaming and retyping methods, in the interface's own or another package",
  "Tests generate once from scratch.", [G, CG, PK], [("loading packages that do not compile", PK + " Load; " + G + " loadDestinationPackage")], ["exit status, compiler's verdict, bytes"],
  "runtime monitoring: edit histories against the real command, compiler and from-scratch generation as oracles", "exploration of random histories")

p("C29", "Generic interfaces are modelled with their type parameters",
  "For a generic interface the model gives a type parameter list and argument list that, put on a declaration and its uses, compile to a type implementing the interface for every instantiation. Instantiated embeds have their arguments substituted throughout.",
  ["inputs", "programs"], "every type parameter list, constraint and use of the parameters", "Tests use a few fixed generic interfaces.", [GE, G, PR], [("generics", GE + " buildVars, typeArgs")], ["compiler's verdict on generic decorators rendered by a probe template"],
  "runtime monitoring: gowrap run on generated generic interfaces, the compiler and go/types as oracles", "exploration; constraints that cannot be named from the destination are outside")

p("C30", "The output lands in the right package",
  "The written file has the package clause of the package that already is in its directory, else the name of the directory, refers to source types unqualified in the source's own package and qualified elsewhere, and missing directories are created. Only the named output file changes.",
  ["inputs", "configurations"], "every output location: existing, missing, nested, current, absolute, package names that differ from directories",
  "Tests write to two fixed places.", [G, CG, PK], [("destination package", G + " loadDestinationPackage, makePackage"), ("writing", CG + " Run")], ["the file tree before and after, the compiler's verdict"],
  "runtime monitoring: output locations against the real command, compiler and file tree as oracles", "exploration")

p("C31", "The declaration that belongs to the build is decorated",
  "When several files of a directory declare the name, build constraints, file name suffixes, test files, grouped and local declarations decide as they do for the go command: the package's own declaration is decorated, and so for embedded interfaces. The choice does not depend on file names or map order.",
  ["inputs", "programs", "configurations"], "every arrangement of declarations over files and constraints", "Tests have one declaration per name.", [G, PK], [("declaration lookup", G + " iterateFiles, typeSpecs; " + PK + " AST")], ["the dumped model against go/types"],
  "runtime monitoring: generated package layouts against the real command, go/types as oracle", "exploration")

p("C32", "The library honours its options and leaves them as they were",
  "A generator made through the generator package with the options of a command line yields what the command writes, however the output path is spelled and whether the source package is preloaded or not. Vars, HeaderVars, Funcs and Imports reach the templates, SourcePackageAlias names the source package everywhere, Generate can be repeated with the same result, an error of a template or of the writer is returned with nothing else written, and no map or slice of the options is changed.",
  ["inputs", "configurations", "histories", "fault_sequences"], "every interface, template and combination of the options, every point at which the writer fails",
  "Tests make one generator with mocked parts; they don't compare it with the command, use it twice or let the writer fail.",
  [G, CG], [("options", G + " Options, NewGenerator"), ("generation", G + " Generate, processImports")],
  ["outputs of variations of the same options and of the command, compared", "the options before and after", "what reaches a writer that fails"],
  "runtime monitoring: metamorphic variations of the options of real generators, compared by an offline checker; injected writer faults",
  "exploration over random modules and option variations; the command is the reference for the base options")

def main():
    done = set(sys.argv[1:]) if len(sys.argv) > 1 else None
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["text"]},
                "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                            "observe_at": x["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    src = "".join(open(os.path.join(ROOT, "harness/internal/checks", n)).read() for n in sorted(os.listdir(os.path.join(ROOT, "harness/internal/checks"))))
    have = [x for x in P if f'decor("{x["id"]}"' in src or f'reg("{x["id"]}"' in src]
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": x["id"], "quick_cmd": "bash check.sh " + x["id"], "thorough_cmd": "bash check.sh " + x["id"] + " thorough",
                     "evidence_file": "evidence/" + x["id"] + ".json", "technique": x["technique"], "level": "exploration", "level_note": x["note"]} for x in have],
         "not_applicable": [{"property": x["id"], "reason": "its check is not built yet"} for x in P if x not in have]}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
main()
