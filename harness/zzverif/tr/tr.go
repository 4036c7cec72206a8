// Package tr is a tracer for the harnesses: contexts of Background() carry a recording span
// if the parameter "traced" is set, and every span started below it is accounted for.
package tr

import (
	"context"

	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/trace"
	"go.opentelemetry.io/otel/trace/embedded"

	"github.com/gostdlib/concurrency/zzverif/rt"
)

// Span is a span that records.
type Span struct {
	embedded.Span
	Parent *Span
	Ended  int
}

// Open is the number of spans that were started and not yet ended.
var Open, Started int

var root = &Span{}

func (s *Span) End(options ...trace.SpanEndOption) {
	rt.Assert(s != root, "the span of the caller was ended")
	rt.Atomic(func() {
		s.Ended++
		Open--
	})
	rt.Assert(s.Ended == 1, "a span was ended twice")
}
func (s *Span) AddEvent(name string, options ...trace.EventOption) {
	rt.Assert(s.Ended == 0, "an event was added to an ended span")
}
func (s *Span) AddLink(link trace.Link)                               {}
func (s *Span) IsRecording() bool                                     { return true }
func (s *Span) RecordError(err error, options ...trace.EventOption) {
	rt.Assert(s.Ended == 0, "an error was recorded on an ended span")
}
func (s *Span) SpanContext() trace.SpanContext { return trace.SpanContext{} }
func (s *Span) SetStatus(code codes.Code, description string) {
	rt.Assert(s != root, "the status of the caller's span was set")
	rt.Assert(s.Ended == 0, "the status of an ended span was set")
}
func (s *Span) SetName(name string)                    {}
func (s *Span) SetAttributes(kv ...attribute.KeyValue) {}
func (s *Span) TracerProvider() trace.TracerProvider   { return provider{} }

type provider struct{ embedded.TracerProvider }

func (provider) Tracer(name string, options ...trace.TracerOption) trace.Tracer { return tracer{} }

type tracer struct{ embedded.Tracer }

func (tracer) Start(ctx context.Context, name string, opts ...trace.SpanStartOption) (context.Context, trace.Span) {
	s := &Span{Parent: Of(ctx)}
	rt.Atomic(func() {
		Open++
		Started++
	})
	return trace.ContextWithSpan(ctx, s), s
}

// Of returns the span of a context, nil if it has none of ours.
func Of(ctx context.Context) *Span {
	s, _ := trace.SpanFromContext(ctx).(*Span)
	return s
}

// Background is context.Background(), with a span that records if the parameter "traced" is set.
func Background() context.Context {
	if rt.Param("traced", 0) == 0 {
		return context.Background()
	}
	return trace.ContextWithSpan(context.Background(), root)
}

// Root is the span of the contexts of Background().
func Root() *Span { return root }

// Done asserts that no span is left open.
func Done(what string) {
	if rt.Param("traced", 0) == 1 {
		rt.Assert(Open == 0, what)
		rt.Cover("spans ended")
	}
}

var closed = make(chan bool, 8)

// Closed tells that a request group was closed.
func Closed() {
	if rt.Param("traced", 0) == 1 {
		closed <- true
	}
}

// AllClosed waits until n groups were closed, after which no span may be open.
func AllClosed(n int) {
	if rt.Param("traced", 0) == 1 {
		for i := 0; i < n; i++ {
			<-closed
		}
		Done("a span of the pipelines was not ended although all groups were closed")
	}
}

// Stage looks at the context of a stage; the result is the span of the request.
func Stage(ctx context.Context, request *Span) *Span {
	if rt.Param("traced", 0) == 0 {
		return nil
	}
	s := Of(ctx)
	rt.Assert(s != nil && s != root && s.Ended == 0, "a stage does not run in a live span of its own")
	up := s.Parent
	rt.Assert(up != nil && up != root && up.Ended == 0, "the span of a stage is not below a live span of its request")
	rt.Assert(request == nil || up == request, "the span of a stage is not a child of the span of its request")
	return up
}

// Func looks at the context of a function of a wait group; the result is the span of the group.
func Func(ctx context.Context, group *Span) *Span {
	if rt.Param("traced", 0) == 0 {
		return nil
	}
	s := Of(ctx)
	rt.Assert(s != nil && s != root && s.Ended == 0, "a function of a group does not run in a live span of the group")
	rt.Assert(group == nil || s == group, "the functions of a group do not run in the same span")
	return s
}
