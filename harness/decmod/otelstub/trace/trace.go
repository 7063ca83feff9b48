// Package trace is a stand-in for the package of the same name, which is not available offline.
// Its spans are created by the recorder in go.opentelemetry.io/otel/rec.
package trace

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
)

type SpanContext struct{ TraceID, SpanID uint64 }

func (c SpanContext) IsValid() bool { return c.SpanID != 0 }

type SpanConfig struct{ Attributes []attribute.KeyValue }
type EventConfig struct{ Attributes []attribute.KeyValue }
type TracerConfig struct{ Version string }

type SpanStartOption interface{ SpanStart(*SpanConfig) }
type SpanEndOption interface{ SpanEnd(*SpanConfig) }
type EventOption interface{ Event(*EventConfig) }
type TracerOption interface{ Tracer(*TracerConfig) }

type attrs []attribute.KeyValue

func (a attrs) SpanStart(c *SpanConfig) { c.Attributes = append(c.Attributes, a...) }
func (a attrs) Event(c *EventConfig)    { c.Attributes = append(c.Attributes, a...) }

func WithAttributes(a ...attribute.KeyValue) attrs { return attrs(a) }

type stack bool

func (s stack) SpanEnd(*SpanConfig) {}
func (s stack) Event(*EventConfig)  {}

func WithStackTrace(b bool) stack { return stack(b) }

type SpanKind int

func (k SpanKind) SpanStart(*SpanConfig) {}

const (
	SpanKindUnspecified SpanKind = iota
	SpanKindInternal
	SpanKindServer
	SpanKindClient
)

func WithSpanKind(k SpanKind) SpanStartOption { return k }

type Span interface {
	End(options ...SpanEndOption)
	AddEvent(name string, options ...EventOption)
	IsRecording() bool
	RecordError(err error, options ...EventOption)
	SpanContext() SpanContext
	SetStatus(code codes.Code, description string)
	SetName(name string)
	SetAttributes(kv ...attribute.KeyValue)
}

type Tracer interface {
	Start(ctx context.Context, spanName string, opts ...SpanStartOption) (context.Context, Span)
}

type TracerProvider interface {
	Tracer(name string, options ...TracerOption) Tracer
}

type key struct{}

func ContextWithSpan(ctx context.Context, s Span) context.Context {
	return context.WithValue(ctx, key{}, s)
}

func SpanFromContext(ctx context.Context) Span {
	s, _ := ctx.Value(key{}).(Span)
	return s
}
