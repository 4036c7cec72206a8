// Package model holds stand-ins of library functions that use reflection.
package model

import (
	"context"
	"reflect"

	"go.opentelemetry.io/otel/trace"
)

type spanKey struct{}

type noSpan struct{ trace.Span }

func (noSpan) IsRecording() bool { return false }

// SpanFromContext and ContextWithSpan are those of go.opentelemetry.io/otel/trace.
func SpanFromContext(ctx context.Context) trace.Span {
	if ctx == nil {
		return noSpan{}
	}
	if span, ok := ctx.Value(spanKey{}).(trace.Span); ok {
		return span
	}
	return noSpan{}
}

func ContextWithSpan(parent context.Context, span trace.Span) context.Context {
	return context.WithValue(parent, spanKey{}, span)
}

// Is is errors.Is for comparable errors.
func Is(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target)
}

func is(err, target error) bool {
	for {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if is(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// MatchesSignature is method.MatchesSignature without its goroutine: the
// channel holds every matching method and is closed.
func MatchesSignature(obj reflect.Value, sig reflect.Value) chan reflect.Value {
	if sig.Kind() != reflect.Func {
		panic("MatchesSignature(): sig must be kind == Func")
	}
	n := obj.NumMethod()
	ch := make(chan reflect.Value, n)
	for i := 0; i < n; i++ {
		if obj.Method(i).Type().AssignableTo(sig.Type()) {
			ch <- obj.Method(i)
		}
	}
	close(ch)
	return ch
}
