// Package checks decides the properties.
package checks

import (
	"verifharness/internal/core"
	"verifharness/internal/world"
)

// Check decides one property.
type Check struct {
	ID  string
	Run func(c *core.Ctx)
}

// All the checks.
var All []Check

func reg(id string, f func(c *core.Ctx)) { All = append(All, Check{id, f}) }

// decor is a check of one or more templates by run-time monitors.
func decor(id string, tmpls []string, rts []string, body string, need map[string]int, rule string, assume ...string) {
	reg(id, func(c *core.Ctx) {
		c.Rule = rule
		c.Assume = append(assume, "the monitors see the histories this run produced: fixed interfaces plus random ones, random plans from the seed, virtual time")
		var imports []string
		for _, r := range rts {
			imports = append(imports, "decmod/"+r)
		}
		mods, per := c.Pick(3, 8), c.Pick(4, 6)
		if len(tmpls) == 1 && tmpls[0] == "kit" {
			mods, per = c.Pick(12, 60), 6
		}
		w := world.Build(c, "w", world.Opts{Templates: tmpls, Modules: mods, Per: per, Hostile: true, Seed: c.Seed, Rt: rts, Skip: skip})
		w.Run(world.Monitor{Imports: imports, Body: body, Shards: c.Pick(4, 8), Need: need})
	})
}

var skip = map[string]bool{}

func init() {
	decor("C04", []string{"kit"}, nil, "rt.Kit(t)", map[string]int{"calls": 4000, "reports": 800, "fields": 3000, "entries": 2000},
		"a case is one call of a decorator made of one of seven combinations of the helpers, with unique values, nils and variadic arguments; non-trivial: distinct method and combination")
	decor("C14", []string{"retry"}, nil, "rt.Retry(t)", map[string]int{"attempts": 1000, "retried": 100, "cancelled_during": 20, "cancelled_before": 5, "concurrent_calls": 10},
		"a case is one call of one decorated method with a retry count, an interval, a number of failures, durations of the attempts and a moment of cancellation; non-trivial: distinct method and plan")
	decor("C15", []string{"circuitbreaker"}, nil, "rt.Breaker(t)", map[string]int{"calls": 2000, "refused": 200, "circuit_opened": 100, "panics": 20},
		"a case is a history of 30 calls, sequential or overlapping, with random pauses around the open interval, outcomes and ignored errors; non-trivial: distinct history")
	decor("C16", []string{"ratelimit"}, nil, "rt.RateLimit(t)", map[string]int{"admissions": 2000, "cancelled_calls": 100, "arrival_patterns": 50},
		"a case is an arrival pattern of calls with a burst and a rate: all at once, random arrivals, or calls that give up; non-trivial: distinct parameters")
	decor("C17", []string{"robinpool"}, nil, "rt.RobinPool(t)", map[string]int{"sequential_calls": 1000, "concurrent_calls": 1000},
		"a case is a sequence of calls, or of concurrent calls, over a pool of 1..6 implementations; non-trivial: distinct pool size, length and round")
	decor("C18", []string{"syncpool"}, nil, "rt.SyncPool(t)", map[string]int{"calls": 1000, "panics": 50, "goexits": 50},
		"a case is a set of concurrent calls over a pool of 1..4 implementations that return, panic or exit the goroutine; non-trivial: distinct pool size and round")
	decor("C19", []string{"fallback"}, nil, "rt.Fallback(t)", map[string]int{"successes": 200, "cancelled": 50, "all_failed": 50, "launches": 500, "concurrent_calls": 10},
		"a case is one call with 1..5 implementations of planned duration and outcome, an interval and possibly a cancellation or a deadline; non-trivial: distinct method and plan")
	decor("C20", []string{"timeout"}, nil, "rt.Timeout(t)", map[string]int{"calls": 500, "with_timeout": 100, "contexts_ended": 50},
		"a case is one call with per-method timeouts, a parent context without, with an earlier or a later deadline, or cancelled, and a base that works or waits for its context; non-trivial: distinct method and plan")
	decor("C21", []string{"validate", "grpc_validate", "twirp_validate"}, []string{"rtgrpc", "rttwirp"}, "rt.Validate(t)\nrtgrpc.Validate(t)\nrttwirp.Validate(t)",
		map[string]int{"validations": 1000, "rejected": 500, "passed": 1000},
		"a case is one call whose arguments can be validated or not, some of them invalid; non-trivial: distinct method, number of values and position of the first invalid one")
	decor("C22", []string{"twirp_error"}, []string{"rttwirp"}, "rttwirp.Error(t)", map[string]int{"calls": 1000, "errors": 500, "twirp_errors": 100},
		"a case is one call whose base returns no error, a plain, a wrapped or a twirp error; non-trivial: distinct method and plan")
	decor("C23", []string{"log", "logrus"}, []string{"rtlogrus"}, "rt.LogDecorator(t)\nrtlogrus.Logrus(t)", map[string]int{"lines": 1000, "errors_logged": 100, "panics": 50, "entries": 1000, "error_entries": 100},
		"a case is one call that succeeds, fails or panics, with what is written before and after it; non-trivial: distinct method and outcome")
	decor("C24", []string{"prometheus"}, []string{"rtprom"}, "rtprom.Prometheus(t)", map[string]int{"observations": 300, "concurrent_calls": 300},
		"a case is a sequence of 12 calls of planned duration and outcome with the metrics gathered after each; non-trivial: distinct sequence")
	decor("C25", []string{"opencensus", "opentracing", "opentelemetry", "elasticapm"}, []string{"rtoc", "rtot", "rtotel", "rtapm"}, "rtoc.Tracing(t)\nrtot.Tracing(t)\nrtotel.Tracing(t)\nrtapm.Tracing(t)",
		map[string]int{"spans": 500, "error_spans": 100, "span_decorators": 100, "panics": 50, "concurrent_calls": 500, "labelled_spans": 50},
		"a case is one call with or without a parent span, a span decorator, an error or a panic; non-trivial: distinct method and plan",
		"opentelemetry is not installed: its decorators are compiled against a stub of its API that records what is done to the spans")
	decor("C13", world.All, []string{"rtall"}, "rtall.Transparent(t)", map[string]int{"calls": 5000, "panics": 300, "goexits": 300, "cancellations": 100},
		"a case is one call of one method of one decorator of the 18 templates, configured to have nothing to do; the base returns, fails, panics, exits or sees a cancellation; non-trivial: distinct method, template and outcome")
	decor("C27", world.All, []string{"rtall"}, "rtall.Races(t)", map[string]int{"concurrent_calls": 10000},
		"a case is a round of 64 calls from 8 goroutines of one decorator of one of the 18 templates in real time under the race detector; non-trivial: distinct decorator and round")
}
