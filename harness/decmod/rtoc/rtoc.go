// Package rtoc monitors the opencensus decorator.
package rtoc

import (
	"context"
	"sync"
	"testing"

	"decmod/rt"

	"go.opencensus.io/trace"
)

type exporter struct {
	mu    sync.Mutex
	spans []*trace.SpanData
}

func (e *exporter) ExportSpan(s *trace.SpanData) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.spans = append(e.spans, s)
}

// Tracing is the monitor.
func Tracing(t *testing.T) {
	ex := &exporter{}
	trace.RegisterExporter(ex)
	trace.ApplyConfig(trace.Config{DefaultSampler: trace.AlwaysSample()})
	ended := func(id string) bool {
		ex.mu.Lock()
		defer ex.mu.Unlock()
		for _, s := range ex.spans {
			if s.SpanID.String() == id {
				return true
			}
		}
		return false
	}
	rt.Tracing(t, rt.Backend{
		Name: "opencensus",
		Start: func(ctx context.Context) (context.Context, string, func()) {
			ctx, s := trace.StartSpan(ctx, "parent")
			return ctx, s.SpanContext().SpanID.String(), s.End
		},
		Current: func(ctx context.Context) string {
			s := trace.FromContext(ctx)
			if s == nil {
				return ""
			}
			return s.SpanContext().SpanID.String()
		},
		Running: func(id string) bool { return !ended(id) },
		Take: func() []rt.Span {
			ex.mu.Lock()
			defer ex.mu.Unlock()
			byID := map[string]*rt.Span{}
			var order []string
			for _, d := range ex.spans {
				id := d.SpanID.String()
				if s := byID[id]; s != nil {
					s.Ended++
					continue
				}
				p := d.ParentSpanID.String()
				if d.ParentSpanID == (trace.SpanID{}) {
					p = ""
				}
				s := &rt.Span{ID: id, Parent: p, Name: d.Name, Ended: 1, Dur: d.EndTime.Sub(d.StartTime)}
				if b, ok := d.Attributes["error"].(bool); ok {
					s.IsErr = b
				}
				s.Message, _ = d.Attributes["message"].(string)
				byID[id] = s
				order = append(order, id)
			}
			ex.spans = nil
			var out []rt.Span
			for _, id := range order {
				out = append(out, *byID[id])
			}
			return out
		},
		Build: func(i *rt.Iface, base any, instance string, deco func(string, map[string]any, map[string]any)) any {
			mk := i.B["opencensus"].(func(any, string, ...func(*trace.Span, map[string]interface{}, map[string]interface{})) any)
			if deco == nil {
				if len(instance)%2 == 0 {
					return mk(base, instance, nil)
				}
				return mk(base, instance)
			}
			return mk(base, instance, func(s *trace.Span, p, r map[string]interface{}) { deco(s.SpanContext().SpanID.String(), p, r) })
		},
		NameOK: func(i *rt.Iface, m rt.Meth, instance string, s rt.Span) string {
			return rt.NameIs(s.Name, instance, i, m)
		},
	})
}
