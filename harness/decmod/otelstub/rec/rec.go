// Package rec records what is done to the spans.
package rec

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
)

type Span struct {
	mu         sync.Mutex
	Tracer     string
	Name       string
	ID         uint64
	ParentSpan *Span
	Ended      int
	AfterEnd   int
	Errors     []error
	Status     codes.Code
	Desc       string
	Attrs      []attribute.KeyValue
	Events     int
}

var (
	mu    sync.Mutex
	spans []*Span
	ids   atomic.Uint64
)

// Take returns the spans started since the last call.
func Take() []*Span {
	mu.Lock()
	defer mu.Unlock()
	s := spans
	spans = nil
	return s
}

type Provider struct{}

func (Provider) Tracer(name string, _ ...trace.TracerOption) trace.Tracer { return tracer(name) }

type tracer string

func (t tracer) Start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, trace.Span) {
	s := &Span{Tracer: string(t), Name: name, ID: ids.Add(1)}
	if ctx == nil {
		ctx = context.Background()
	}
	if p, ok := trace.SpanFromContext(ctx).(*Span); ok {
		s.ParentSpan = p
	}
	var c trace.SpanConfig
	for _, o := range opts {
		o.SpanStart(&c)
	}
	s.Attrs = c.Attributes
	mu.Lock()
	spans = append(spans, s)
	mu.Unlock()
	return trace.ContextWithSpan(ctx, s), s
}

func (s *Span) do(f func()) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Ended > 0 {
		s.AfterEnd++
		return
	}
	f()
}

func (s *Span) End(...trace.SpanEndOption) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Ended++
}
func (s *Span) AddEvent(string, ...trace.EventOption) { s.do(func() { s.Events++ }) }
func (s *Span) IsRecording() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.Ended == 0
}
func (s *Span) RecordError(err error, _ ...trace.EventOption) {
	s.do(func() {
		if err != nil {
			s.Errors = append(s.Errors, err)
		}
	})
}
func (s *Span) SpanContext() trace.SpanContext { return trace.SpanContext{TraceID: 1, SpanID: s.ID} }
func (s *Span) SetStatus(c codes.Code, d string) {
	s.do(func() { s.Status, s.Desc = c, d })
}
func (s *Span) SetName(n string) { s.do(func() { s.Name = n }) }
func (s *Span) SetAttributes(kv ...attribute.KeyValue) {
	s.do(func() { s.Attrs = append(s.Attrs, kv...) })
}

// Running tells that a span is not ended.
func Running(id string) bool {
	mu.Lock()
	defer mu.Unlock()
	for _, s := range spans {
		if fmt.Sprint(s.ID) == id {
			return s.IsRecording()
		}
	}
	return false
}
