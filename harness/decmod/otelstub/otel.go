// Package otel is a stand-in for the package of the same name, which is not available offline.
package otel

import (
	"go.opentelemetry.io/otel/rec"
	"go.opentelemetry.io/otel/trace"
)

func Tracer(name string, opts ...trace.TracerOption) trace.Tracer {
	return rec.Provider{}.Tracer(name, opts...)
}

func GetTracerProvider() trace.TracerProvider { return rec.Provider{} }
