// Package rtotel monitors the opentelemetry decorator.
package rtotel

import (
	"context"
	"fmt"
	"testing"

	"decmod/rt"

	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/rec"
	"go.opentelemetry.io/otel/trace"
)

func sid(s trace.Span) string {
	if r, ok := s.(*rec.Span); ok {
		return fmt.Sprint(r.ID)
	}
	return ""
}

// Tracing is the monitor.
func Tracing(t *testing.T) {
	rt.Tracing(t, rt.Backend{
		Name: "opentelemetry",
		Start: func(ctx context.Context) (context.Context, string, func()) {
			ctx, s := otel.Tracer("parent").Start(ctx, "parent")
			return ctx, sid(s), func() { s.End() }
		},
		Current: func(ctx context.Context) string { return sid(trace.SpanFromContext(ctx)) },
		Running: func(id string) bool { return rec.Running(id) },
		Take: func() []rt.Span {
			var out []rt.Span
			for _, m := range rec.Take() {
				s := rt.Span{ID: fmt.Sprint(m.ID), Name: m.Name, Tracer: m.Tracer, Ended: m.Ended, AfterEnd: m.AfterEnd, Dur: -1}
				if m.ParentSpan != nil {
					s.Parent = fmt.Sprint(m.ParentSpan.ID)
				}
				s.IsErr = m.Status == codes.Error
				s.Message = m.Desc
				if s.IsErr && (len(m.Errors) != 1 || m.Errors[0].Error() != m.Desc) {
					s.Message = fmt.Sprintf("%q with recorded errors %v", m.Desc, m.Errors)
				}
				if !s.IsErr && len(m.Errors) > 0 {
					s.IsErr = true
					s.Message = "recorded without the status"
				}
				out = append(out, s)
			}
			return out
		},
		Build: func(i *rt.Iface, base any, instance string, deco func(string, map[string]any, map[string]any)) any {
			mk := i.B["opentelemetry"].(func(any, string, ...func(trace.Span, map[string]interface{}, map[string]interface{})) any)
			if deco == nil {
				if len(instance)%2 == 0 {
					return mk(base, instance, nil)
				}
				return mk(base, instance)
			}
			return mk(base, instance, func(s trace.Span, p, r map[string]interface{}) { deco(sid(s), p, r) })
		},
		NameOK: func(i *rt.Iface, m rt.Meth, instance string, s rt.Span) string {
			if s.Tracer != instance {
				return fmt.Sprintf("the tracer is %q instead of %q", s.Tracer, instance)
			}
			p := i.Vars["opentelemetry"]["SpanNamePrefix"]
			if p == "" {
				p = i.Name
			}
			if s.Name != p+"."+m.Name {
				return fmt.Sprintf("the span is named %q instead of %q", s.Name, p+"."+m.Name)
			}
			return ""
		},
	})
}
