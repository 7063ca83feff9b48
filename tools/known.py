#!/usr/bin/env python3
"""Writes known_findings.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fixed = [
 ("C02","60990ba","struct-tags","struct tags of parameter types were lost: the decorator did not implement the interface"),
 ("C02","29e6926","type-printing","parenthesized types, interface literals and unions were printed without the package prefix or not at all"),
 ("C05","5be96d8","unexported-fields","type literals with unexported fields or methods were decorated in other packages, giving code that cannot compile"),
 ("C29","cd1f450","type-args","type arguments of embedded generic interfaces were substituted only in top-level positions"),
 ("C02","7e97449","embedded-kinds","methods of embedded interfaces behind aliases, parentheses and re-declarations were lost or refused"),
 ("C02","2d3f18a","selectors","package selectors were resolved with the imports of another file"),
 ("C07","fbd8b0e","embedded-imports","imports embedded interfaces need were missing in the output"),
 ("C03","dc74bc4","blank-names","blank parameters and results kept the name _ and produced code that does not compile"),
 ("C05","5a028df","unexported-interface","an unexported interface was decorated in another package, giving code that cannot compile"),
 ("C02","5530b62","array-length","constants in array lengths were not qualified in another package"),
 ("C03","5a6dafd","context","any type named Context was taken for context.Context"),
 ("C31","cf426d6","build-constraints","a declaration excluded by build constraints could be decorated"),
 ("C11","7108a34","dashdash","gowrap -- panicked with an index out of range"),
 ("C11","4df4a27","verbatim","error messages were used as formats: percent signs in user supplied text were mangled"),
 ("C09","4e36f18","http-url","http:// template URLs were joined with the destination path in the go:generate line"),
 ("C08","760784d","invalid-utf8","upFirst and downFirst changed or dropped bytes of strings that are not valid UTF-8"),
 ("C12","61972b0","concurrent","concurrent Generate calls raced on the formatter's global local prefix"),
 ("C06","a881830","quoting","arguments with spaces, quotes or dollars were not quoted in the go:generate line"),
 ("C01","48859f1","elasticapm-option","elasticapm: the option function was declared with a name that clashes between decorators"),
 ("C01","eb1cde2","hidden-params","elasticapm, timeout: local variables hid method parameters"),
 ("C01","0fc1cba","elasticapm-noctx","elasticapm: methods without a context were not implemented"),
 ("C01","e4fef72","twirp-helper","twirp_error: two decorators in one package declared the same helper"),
 ("C19","cc4ec28","fallback-noctx","fallback: a method without a context returned the zero values as soon as the first implementation failed"),
 ("C03","373b3ca","nonascii-type","unnamed parameters of types with non-ASCII names got invalid names and the output did not parse"),
 ("C02","6dae4d8","empty-results","a method with an empty parenthesized result list crashed gowrap"),
 ("C02","718a009","embedded-literals","interfaces that embed interface literals were refused"),
 ("C03","84156f6","context-look-alike-name","a first parameter of a type named Context that is not context.Context lost its name"),
 ("C29","21036e0","constraints","constraints other than names, ~names and unions of them were dropped: the output did not parse or declared other type parameters"),
 ("C06","acfd122","local-prefix-quoting","the local prefix was not quoted in the go:generate line"),
 ("C05","9406fc9","main-package","an interface of a main package was decorated in another package, giving code that cannot compile"),
 ("C06","3e15f60","invalid-utf8","arguments that are not valid UTF-8 were not quoted in the go:generate line, and the output did not parse"),
 ("C06","bf426e6","template-path","a template path with a line break broke the header comment"),
 ("C07","80a080c","raw-import-paths","import paths written as raw string literals were not recognized"),
 ("C07","2e7c875","merged-imports","named imports of the source that the template (or its Import helper) imports too were declared twice; imports of the template were not put in the group of the local prefix"),
 ("C07","86ecd34","cgo","decorators of interfaces of files that use cgo imported C and repeated imports"),
 ("C31","f8c11db","hidden-file","files named _x.go and .x.go were parsed as part of the package: syntax errors in them were reported and their declarations used"),
 ("C31","ee71faa","excluded-predeclared","types of excluded files hid the predeclared ones of the same name: interfaces were refused for unexported types"),
 ("C30","63eb196","empty-directory","decorators for an empty current directory were refused, those for an empty parent directory were not valid Go"),
 ("C30","883790b","other-module","a decorator written to a package of another module got the name of the directory instead of the package's"),
 ("C09","d821e12","template-name","names of remote templates with characters special in URLs referred to other templates (log#v2 to log) or were requested incorrectly"),
 ("C09","4a16d4c","no-commit","an answer without the hash of a commit was followed by a request for a template of no commit"),
 ("C10","38dbac0","full-stdout","template list exited with 0 when the list could not be printed"),
 ("C12","b457f7e","shared-imports","NewGenerator appended to the Imports slice of its caller: a data race of generators made with the same options"),
 ("C07","9e73632","dot-imports","dot imports of the source were copied to the output, where they were unused, and dot imported interfaces could not be embedded"),
 ("C17","da7e68e","counter-overflow","robinpool: after 2^32 calls the counter wrapped and a pool whose size is no power of two used one implementation twice in a row"),
 ("C05","85d86f5","exported-names","names that start with a title-case letter were taken for exported and capitals without a lower-case form for unexported: requests were accepted or refused wrongly"),
 ("C01","bbfbee3","field-names","elasticapm, fallback, prometheus, robinpool, syncpool, timeout: fields clashed with unexported methods of the same names"),
 ("C06","4779e16","symbolic-links","the template path in the go:generate line was wrong, or depended on where gowrap was run, when the working or output directory was reached through a symbolic link"),
 ("C01","6048d26","type-names","fallback: the decorator did not compile when a parameter or result was called like a type of the method, as in (user user, err error) or (url *url.URL)"),
 ("C02","2ccb8a3","array-lengths","printer: array lengths with conversions, calls or unary operators ([int(N)]T, [len(V)]T, [-N+4]T) lost the package of their identifiers in the decorators of other packages, they did not compile"),
("C02","324a945","parens","findMethods: an interface declared in parentheses, as in type I (interface{ F() }) or type I (io.Reader), was refused as one without methods"),
("C03","89c9ef1","parens","newMethod: AcceptsContext and ReturnsError were false when context.Context or error were in parentheses"),
("C12","d7bd71d","race/pkg.Dir","pkg.Dir appended to the file list of the loaded package: generators sharing a preloaded package with assembly or C files raced"),
 ("C03","4666a36","generic-error","a method of an embedded generic interface instantiated with error or context.Context did not count as returning an error or accepting a context"),
 ("C29","8f70062","typeparam-names","a parameter named like a type parameter of the target was redeclared in the decorator, which did not compile"),
]
# the ids of the hazards of C01, recorded as findings: see DESIGN.md
findings = """
hazard/circuitbreaker/Hides_circuitbreaker_errors
hazard/circuitbreaker/Hides_circuitbreaker_time
hazard/circuitbreaker/Named
hazard/elasticapm/Hides_elasticapm_nil
hazard/fallback/Hides_fallback_append
hazard/fallback/Hides_fallback_close
hazard/fallback/Hides_fallback_context
hazard/fallback/Hides_fallback_errors
hazard/fallback/Hides_fallback_fmt
hazard/fallback/Hides_fallback_int
hazard/fallback/Hides_fallback_len
hazard/fallback/Hides_fallback_make
hazard/fallback/Hides_fallback_string
hazard/fallback/Hides_fallback_strings
hazard/fallback/Hides_fallback_time
hazard/grpc_validate/Hides_grpc_validate_error
hazard/grpc_validate/Hides_grpc_validate_nil
hazard/grpc_validate/Named
hazard/log/Hides_log_nil
hazard/logrus/Hides_logrus_logrus
hazard/logrus/Hides_logrus_string
hazard/opencensus/Hides_opencensus_string
hazard/opencensus/Hides_opencensus_trace
hazard/opencensus/Hides_opencensus_true
hazard/opencensus/Named
hazard/opentelemetry/Hides_opentelemetry_attribute
hazard/opentelemetry/Hides_opentelemetry_string
hazard/opentelemetry/Named
hazard/opentracing/Hides_opentracing_opentracing
hazard/opentracing/Hides_opentracing_string
hazard/opentracing/Hides_opentracing_true
hazard/opentracing/Named
hazard/prometheus/Hides_prometheus_time
hazard/retry/Hides_retry_time
hazard/retry/Named
hazard/robinpool/Hides_robinpool_atomic
hazard/timeout/Hides_timeout_context
hazard/timeout/Named
hazard/twirp_error/Named
hazard/twirp_validate/Hides_twirp_validate_error
hazard/twirp_validate/Hides_twirp_validate_twirp
hazard/twirp_validate/Named
hazard/validate/Hides_validate_error
hazard/validate/Hides_validate_nil
hazard/validate/Named
hazard/circuitbreaker/Imports
hazard/fallback/Imports
hazard/robinpool/Imports
hazard/log/ImportsLog
""".split()
with open(os.path.join(ROOT, "known_findings.jsonl"), "w") as f:
    for p, c, i, w in fixed:
        f.write(json.dumps({"property": p, "id": i, "status": "fixed", "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"}) + "\n")
    for i in findings:
        _, tmpl, name = i.split("/")
        if name == "Named":
            w = f"{tmpl} embeds the interface: one that has a method of its own name is not implemented"
        elif name == "ImportsLog":
            w = f"{tmpl} imports log: it clashes with another package called log that the file of the interface imports, the decorator does not compile"
        elif name == "Imports":
            w = f"{tmpl} imports errors: it clashes with another package called errors that the file of the interface imports, the decorator does not compile"
        else:
            w = f"{tmpl}: a parameter called {name.removeprefix('Hides_' + tmpl + '_')} hides what the template uses, the decorator does not compile"
        f.write(json.dumps({"property": "C01", "id": i, "status": "finding", "what": w}) + "\n")
