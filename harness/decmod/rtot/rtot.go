// Package rtot monitors the opentracing decorator.
package rtot

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"decmod/rt"

	opentracing "github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
)

// counting wraps the mock tracer to see every start and finish.
type counting struct {
	*mocktracer.MockTracer
	mu    sync.Mutex
	spans map[int]*mocktracer.MockSpan
	order []int
}

func (c *counting) StartSpan(name string, opts ...opentracing.StartSpanOption) opentracing.Span {
	s := c.MockTracer.StartSpan(name, opts...).(*mocktracer.MockSpan)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.spans[s.SpanContext.SpanID] = s
	c.order = append(c.order, s.SpanContext.SpanID)
	return s
}

func sid(s opentracing.Span) string {
	if m, ok := s.(*mocktracer.MockSpan); ok && m != nil {
		return fmt.Sprint(m.SpanContext.SpanID)
	}
	return ""
}

// Tracing is the monitor.
func Tracing(t *testing.T) {
	tr := &counting{MockTracer: mocktracer.New(), spans: map[int]*mocktracer.MockSpan{}}
	opentracing.SetGlobalTracer(tr)
	finished := func() map[int]int {
		n := map[int]int{}
		for _, s := range tr.FinishedSpans() {
			n[s.SpanContext.SpanID]++
		}
		return n
	}
	rt.Tracing(t, rt.Backend{
		Name: "opentracing",
		Start: func(ctx context.Context) (context.Context, string, func()) {
			s, ctx := opentracing.StartSpanFromContext(ctx, "parent")
			return ctx, sid(s), s.Finish
		},
		Current: func(ctx context.Context) string {
			s := opentracing.SpanFromContext(ctx)
			if s == nil {
				return ""
			}
			return sid(s)
		},
		Running: func(id string) bool {
			for k := range finished() {
				if fmt.Sprint(k) == id {
					return false
				}
			}
			return true
		},
		Take: func() []rt.Span {
			n := finished()
			tr.mu.Lock()
			defer tr.mu.Unlock()
			var out []rt.Span
			for _, id := range tr.order {
				m := tr.spans[id]
				s := rt.Span{ID: fmt.Sprint(id), Name: m.OperationName, Ended: n[id], Dur: -1}
				if m.ParentID != 0 {
					s.Parent = fmt.Sprint(m.ParentID)
				}
				if n[id] > 0 {
					s.Dur = m.FinishTime.Sub(m.StartTime)
				}
				if b, ok := m.Tag("error").(bool); ok {
					s.IsErr = b
				}
				for _, l := range m.Logs() {
					for _, f := range l.Fields {
						if f.Key == "message" {
							s.Message = f.ValueString
						}
					}
				}
				out = append(out, s)
			}
			tr.order = nil
			tr.spans = map[int]*mocktracer.MockSpan{}
			tr.Reset()
			return out
		},
		Build: func(i *rt.Iface, base any, instance string, deco func(string, map[string]any, map[string]any)) any {
			mk := i.B["opentracing"].(func(any, string, ...func(opentracing.Span, map[string]interface{}, map[string]interface{})) any)
			if deco == nil {
				if len(instance)%2 == 0 {
					return mk(base, instance, nil)
				}
				return mk(base, instance)
			}
			return mk(base, instance, func(s opentracing.Span, p, r map[string]interface{}) { deco(sid(s), p, r) })
		},
		NameOK: func(i *rt.Iface, m rt.Meth, instance string, s rt.Span) string {
			return rt.NameIs(s.Name, instance, i, m)
		},
	})
}
