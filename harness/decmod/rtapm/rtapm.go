// Package rtapm monitors the elasticapm decorator.
package rtapm

import (
	"bufio"
	"compress/zlib"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"decmod/rt"

	"go.elastic.co/apm/v2"
)

type event struct {
	Span *struct {
		ID       string `json:"id"`
		ParentID string `json:"parent_id"`
		Name     string
		Type     string
		Context  struct {
			Tags map[string]any
		}
	}
	Transaction *struct {
		ID   string
		Name string
	}
	Error *struct {
		ParentID  string `json:"parent_id"`
		Exception struct{ Message string }
	}
}

// sinkTransport decodes what the tracer sends.
type sinkTransport struct {
	mu    sync.Mutex
	evs   []event
	ended map[string]bool // transactions
	fail  string
}

func (s *sinkTransport) SendStream(ctx context.Context, r io.Reader) error {
	z, err := zlib.NewReader(r)
	if err != nil {
		return nil
	}
	b := bufio.NewReader(z)
	for {
		l, err := b.ReadBytes('\n')
		if len(l) > 0 {
			var e event
			if json.Unmarshal(l, &e) == nil {
				s.mu.Lock()
				if e.Transaction != nil {
					s.ended[e.Transaction.Name] = true
				} else if e.Span != nil || e.Error != nil {
					s.evs = append(s.evs, e)
				}
				s.mu.Unlock()
			}
		}
		if err != nil {
			return nil
		}
	}
}

func spanID(ctx context.Context) string {
	s := apm.SpanFromContext(ctx)
	if s == nil {
		return ""
	}
	id := s.TraceContext().Span
	return fmt.Sprintf("%x", id[:])
}

// Tracing is the monitor.
func Tracing(t *testing.T) {
	os.Setenv("ELASTIC_APM_METRICS_INTERVAL", "0s")
	os.Setenv("ELASTIC_APM_CENTRAL_CONFIG", "false")
	os.Setenv("ELASTIC_APM_STACK_TRACE_LIMIT", "0")
	os.Setenv("ELASTIC_APM_TRANSACTION_MAX_SPANS", "100000")
	os.Setenv("ELASTIC_APM_SPAN_COMPRESSION_ENABLED", "false")
	sink := &sinkTransport{ended: map[string]bool{}}
	tracer, err := apm.NewTracerOptions(apm.TracerOptions{ServiceName: "monitor", Transport: sink})
	if err != nil {
		rt.Bad("tracer: %v", err)
		return
	}
	defer tracer.Close()
	running := map[string]*apm.Span{}
	var rmu sync.Mutex
	lastTx := ""
	n := 0
	labels := false
	b := rt.Backend{
		Name: "elasticapm", NoDecorator: true, NoVirtualTime: true, NeedParent: true,
		Start: func(ctx context.Context) (context.Context, string, func()) {
			n++
			lastTx = fmt.Sprintf("tx%d", n)
			tx := tracer.StartTransaction(lastTx, "test")
			id := tx.TraceContext().Span
			return apm.ContextWithTransaction(ctx, tx), fmt.Sprintf("%x", id[:]), tx.End
		},
		Current: func(ctx context.Context) string {
			id := spanID(ctx)
			rmu.Lock()
			running[id] = apm.SpanFromContext(ctx)
			rmu.Unlock()
			return id
		},
		Running: func(id string) bool {
			rmu.Lock()
			defer rmu.Unlock()
			s := running[id]
			return s != nil && s.SpanData != nil // nil once the span is ended
		},
		Take: func() []rt.Span {
			if lastTx != "" {
				// the transaction ends last: when it is here, so is everything before it
				deadline := time.Now().Add(60 * time.Second)
				for {
					tracer.Flush(nil)
					sink.mu.Lock()
					ok := sink.ended[lastTx]
					sink.mu.Unlock()
					if ok {
						break
					}
					if time.Now().After(deadline) {
						rt.Bad("the transaction %s did not arrive", lastTx)
						break
					}
					time.Sleep(time.Millisecond)
				}
			}
			lastTx = ""
			sink.mu.Lock()
			defer sink.mu.Unlock()
			byID := map[string]*rt.Span{}
			var order []string
			for _, e := range sink.evs {
				if e.Span == nil {
					continue
				}
				if s := byID[e.Span.ID]; s != nil {
					s.Ended++
					continue
				}
				byID[e.Span.ID] = &rt.Span{ID: e.Span.ID, Parent: e.Span.ParentID, Name: e.Span.Name, Type: e.Span.Type, Ended: 1, Dur: -1, Labels: e.Span.Context.Tags}
				order = append(order, e.Span.ID)
			}
			for _, e := range sink.evs {
				if e.Error == nil {
					continue
				}
				if s := byID[e.Error.ParentID]; s != nil && !s.IsErr {
					s.IsErr, s.Message = true, e.Error.Exception.Message
					if s.Message == "[EMPTY]" { // what apm makes of ""
						s.Message = ""
					}
				} else if s != nil {
					s.Message = "captured more than once"
				} else {
					order = append(order, "error")
					byID["error"] = &rt.Span{ID: "error without a span", Name: e.Error.Exception.Message}
				}
			}
			sink.evs = nil
			var out []rt.Span
			for _, id := range order {
				out = append(out, *byID[id])
			}
			return out
		},
		Build: func(i *rt.Iface, base any, instance string, _ func(string, map[string]any, map[string]any)) any {
			labels = len(instance)%2 == 0
			typ := ""
			if labels {
				typ = "special"
			}
			return i.B["elasticapm"].(func(any, string, bool) any)(base, typ, labels)
		},
		NameOK: func(i *rt.Iface, m rt.Meth, instance string, s rt.Span) string {
			c := i.Vars["elasticapm"]["ComponentName"]
			if c == "" {
				c = strings.ToLower(i.Name)
				if !strings.EqualFold(s.Name, c+"."+m.Name) || !strings.HasSuffix(s.Name, "."+m.Name) {
					return fmt.Sprintf("the span is named %q instead of %s.%s", s.Name, c, m.Name)
				}
			} else if s.Name != c+"."+m.Name {
				return fmt.Sprintf("the span is named %q instead of %s.%s", s.Name, c, m.Name)
			}
			want := c
			if labels {
				want = "special"
			}
			if !strings.EqualFold(s.Type, want) {
				return fmt.Sprintf("the span has the type %q instead of %q", s.Type, want)
			}
			return ""
		},
		Extra: func(i *rt.Iface, m rt.Meth, s rt.Span, args []reflect.Value) string {
			if !labels {
				if len(s.Labels) != 0 {
					return fmt.Sprintf("labels are set without the option: %v", s.Labels)
				}
				return ""
			}
			rt.Count("labelled_spans", 1)
			names, ok := m.FieldNames(false)
			if !ok {
				return ""
			}
			want := map[string]reflect.Value{}
			for k, n := range names {
				if k == 0 && m.Ctx {
					continue
				}
				if l, ok := snake[n]; ok {
					want[l] = args[k]
				} else {
					return "" // the label of the name is not in the table
				}
			}
			if len(s.Labels) != len(want) {
				return fmt.Sprintf("the labels are %v, %d expected", s.Labels, len(want))
			}
			for l, v := range want {
				g, ok := s.Labels[l]
				if !ok {
					return fmt.Sprintf("the labels are %v, without %s", s.Labels, l)
				}
				switch v.Kind() {
				case reflect.String:
					if v.Type() == reflect.TypeOf("") && g != v.String() {
						return fmt.Sprintf("the label %s is %v instead of %q", l, g, v.String())
					}
				case reflect.Int:
					if g != float64(v.Int()) {
						return fmt.Sprintf("the label %s is %v instead of %d", l, g, v.Int())
					}
				}
			}
			return ""
		},
	}
	rt.Tracing(t, b)
}

// snake is how names of the hand-written interfaces read in snake case.
var snake = map[string]string{"a": "a", "b": "b", "n": "n", "userName": "user_name", "userID": "user_id", "name": "name", "d": "d", "opts": "opts", "req": "req", "key": "key", "value": "value", "id": "id", "filter": "filter", "limit": "limit"}
