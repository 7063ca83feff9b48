// Package rtall drives the decorators of every bundled template.
package rtall

import (
	"io"
	"testing"
	"time"

	"decmod/rt"

	opentracing "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
	"github.com/sirupsen/logrus"
	octrace "go.opencensus.io/trace"
	oteltrace "go.opentelemetry.io/otel/trace"
)

func logger() *logrus.Entry {
	l := logrus.New()
	l.SetOutput(io.Discard)
	l.SetLevel(logrus.DebugLevel)
	return logrus.NewEntry(l)
}

func single(tmpl string) func(i *rt.Iface, base any) any {
	return func(i *rt.Iface, base any) any { return i.B[tmpl].(func(any) any)(base) }
}

// Transparent monitors all the decorators that have nothing to do.
func Transparent(t *testing.T) {
	opentracing.SetGlobalTracer(mocktracer.New())
	nth := 0 // decorators are made one after another
	neutral := []struct {
		n int
		d time.Duration
	}{{0, time.Second}, {0, 0}, {-1, time.Millisecond}, {-1, 0}, {0, -time.Second}, {0, time.Nanosecond}}
	rt.Transparent(t, []rt.Neutral{
		{Tmpl: "retry", Build: func(i *rt.Iface, b any) any {
			nth++
			n, d := neutral[nth%len(neutral)].n, neutral[nth%len(neutral)].d
			return i.B["retry"].(func(any, int, time.Duration) any)(b, n, d)
		}},
		{Tmpl: "circuitbreaker", Build: func(i *rt.Iface, b any) any {
			nth++
			return i.B["circuitbreaker"].(func(any, int, time.Duration, ...error) any)(b, 1000, []time.Duration{time.Second, 0, 1, time.Hour}[nth%4])
		}},
		{Tmpl: "ratelimit", Build: func(i *rt.Iface, b any) any { return i.B["ratelimit"].(func(any, int, float64) any)(b, 5, 1) }},
		{Tmpl: "robinpool", Build: func(i *rt.Iface, b any) any { return i.B["robinpool_must"].(func(...any) any)(b) }},
		{Tmpl: "syncpool", Build: func(i *rt.Iface, b any) any { return i.B["syncpool"].(func(...any) any)(b) }},
		{Tmpl: "fallback", NoPanic: true, NoError: true, Build: func(i *rt.Iface, b any) any {
			return i.B["fallback"].(func(time.Duration, ...any) any)(time.Second, b)
		}},
		{Tmpl: "timeout", Build: func(i *rt.Iface, b any) any {
			m := map[string]time.Duration{}
			for k, x := range i.Methods() {
				m[x.Name] = time.Duration(k%2) * time.Hour
			}
			return i.B["timeout"].(func(any, map[string]time.Duration) any)(b, m)
		}},
		{Tmpl: "log", Build: func(i *rt.Iface, b any) any {
			return i.B["log"].(func(any, io.Writer, io.Writer) any)(b, io.Discard, io.Discard)
		}},
		{Tmpl: "logrus", Build: func(i *rt.Iface, b any) any { return i.B["logrus"].(func(any, *logrus.Entry) any)(b, logger()) }},
		{Tmpl: "prometheus", Build: func(i *rt.Iface, b any) any { return i.B["prometheus"].(func(any, string) any)(b, "x") }},
		{Tmpl: "validate", Build: single("validate")},
		{Tmpl: "grpc_validate", Build: single("grpc_validate")},
		{Tmpl: "twirp_validate", Build: single("twirp_validate")},
		{Tmpl: "twirp_error", NoError: true, Build: single("twirp_error")},
		{Tmpl: "opencensus", Build: func(i *rt.Iface, b any) any { return oc(i, b) }},
		{Tmpl: "opentracing", Build: func(i *rt.Iface, b any) any { return ot(i, b) }},
		{Tmpl: "opentelemetry", Build: func(i *rt.Iface, b any) any { return otel(i, b) }},
		{Tmpl: "elasticapm", Real: true, Build: func(i *rt.Iface, b any) any { return i.B["elasticapm"].(func(any, string, bool) any)(b, "", true) }},
	})
}

func oc(i *rt.Iface, b any) any {
	return i.B["opencensus"].(func(any, string, ...func(*octrace.Span, map[string]interface{}, map[string]interface{})) any)(b, "x")
}

func ot(i *rt.Iface, b any) any {
	return i.B["opentracing"].(func(any, string, ...func(opentracing.Span, map[string]interface{}, map[string]interface{})) any)(b, "x")
}

func otel(i *rt.Iface, b any) any {
	return i.B["opentelemetry"].(func(any, string, ...func(oteltrace.Span, map[string]interface{}, map[string]interface{})) any)(b, "x")
}

// Races uses every decorator concurrently.
func Races(t *testing.T) {
	opentracing.SetGlobalTracer(mocktracer.New())
	one := func(f func(i *rt.Iface, b any) any) func(*rt.Iface, []any) any {
		return func(i *rt.Iface, bs []any) any { return f(i, bs[0]) }
	}
	rt.Races(t, []rt.Shared{
		{Tmpl: "retry", Build: one(func(i *rt.Iface, b any) any {
			return i.B["retry"].(func(any, int, time.Duration) any)(b, 2, 100*time.Microsecond)
		})},
		{Tmpl: "circuitbreaker", Build: one(func(i *rt.Iface, b any) any {
			return i.B["circuitbreaker"].(func(any, int, time.Duration, ...error) any)(b, 2, 50*time.Microsecond, io.EOF, io.ErrShortWrite)
		})},
		{Tmpl: "ratelimit", Build: one(func(i *rt.Iface, b any) any { return i.B["ratelimit"].(func(any, int, float64) any)(b, 4, 20000) })},
		{Tmpl: "robinpool", Build: func(i *rt.Iface, bs []any) any {
			d, err := i.B["robinpool"].(func(...any) (any, error))(bs...)
			if err != nil {
				return nil
			}
			return d
		}},
		{Tmpl: "syncpool", Build: func(i *rt.Iface, bs []any) any { return i.B["syncpool"].(func(...any) any)(bs...) }},
		{Tmpl: "fallback", Build: func(i *rt.Iface, bs []any) any {
			return i.B["fallback"].(func(time.Duration, ...any) any)(30*time.Microsecond, bs...)
		}},
		{Tmpl: "timeout", Build: one(func(i *rt.Iface, b any) any {
			m := map[string]time.Duration{}
			for k, x := range i.Methods() {
				m[x.Name] = time.Duration(k%4) * 100 * time.Microsecond
			}
			return i.B["timeout"].(func(any, map[string]time.Duration) any)(b, m)
		})},
		{Tmpl: "log", Build: one(func(i *rt.Iface, b any) any {
			return i.B["log"].(func(any, io.Writer, io.Writer) any)(b, io.Discard, io.Discard)
		})},
		{Tmpl: "logrus", Build: one(func(i *rt.Iface, b any) any { return i.B["logrus"].(func(any, *logrus.Entry) any)(b, logger()) })},
		{Tmpl: "prometheus", Build: one(func(i *rt.Iface, b any) any { return i.B["prometheus"].(func(any, string) any)(b, "x") })},
		{Tmpl: "validate", Build: one(single("validate"))},
		{Tmpl: "grpc_validate", Build: one(single("grpc_validate"))},
		{Tmpl: "twirp_validate", Build: one(single("twirp_validate"))},
		{Tmpl: "twirp_error", Build: one(single("twirp_error"))},
		{Tmpl: "opencensus", Build: one(oc)},
		{Tmpl: "opentracing", Build: one(ot)},
		{Tmpl: "opentelemetry", Build: one(otel)},
		{Tmpl: "elasticapm", Build: one(func(i *rt.Iface, b any) any { return i.B["elasticapm"].(func(any, string, bool) any)(b, "", true) })},
	})
}
