package rt

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
)

var (
	mu       sync.Mutex
	counters = map[string]int{}
	nviol    int
	distinct = map[string]bool{}
)

func emit(v any) {
	b, _ := json.Marshal(v)
	os.Stdout.WriteString("\n@@" + string(b) + "\n")
}

// Viol reports a violation.
func Viol(id, format string, a ...any) {
	mu.Lock()
	nviol++
	n := nviol
	mu.Unlock()
	if n <= 8 {
		emit(map[string]any{"k": "viol", "id": id, "what": fmt.Sprintf(format, a...)})
	}
}

// Bad reports a problem of the machinery.
func Bad(format string, a ...any) {
	emit(map[string]any{"k": "bad", "what": fmt.Sprintf(format, a...)})
}

// Sample records a case.
func Sample(format string, a ...any) {
	mu.Lock()
	counters["_samples"]++
	n := counters["_samples"]
	mu.Unlock()
	if n <= 4 {
		emit(map[string]any{"k": "sample", "what": fmt.Sprintf(format, a...)})
	}
}

// Count counts observed events.
func Count(name string, n int) {
	mu.Lock()
	counters[name] += n
	mu.Unlock()
}

// Eval counts an evaluated case.
func Eval(key string) {
	mu.Lock()
	counters["_evals"]++
	distinct[key] = true
	mu.Unlock()
}

// Done emits the counters.
func Done() {
	mu.Lock()
	defer mu.Unlock()
	var ks []string
	for k := range distinct {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	emit(map[string]any{"k": "done", "counters": counters, "distinct": len(ks)})
}

// Seed of the run.
func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("RT_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// N scales a number of cases by the tier.
func N(quick, thorough int) int {
	if os.Getenv("RT_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// Rand returns a source that depends on the seed and on a label.
func Rand(label string, n int) *rand.Rand {
	h := int64(1469598103934665603)
	for _, c := range []byte(label) {
		h = (h ^ int64(c)) * 1099511628211
	}
	return rand.New(rand.NewSource(h ^ (Seed() * 1000003) ^ int64(n)*7919))
}

// Bubble runs f with virtual time. It returns a description of the deadlock if
// goroutines are left that can never go on.
func Bubble(t *testing.T, f func()) (deadlock string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "deadlock") {
				deadlock = s
				return
			}
			panic(r)
		}
	}()
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				Viol("panic", "unexpected panic in the scenario: %v", r)
			}
		}()
		f()
	})
	return ""
}

// Settle waits until everything else in the bubble is blocked.
func Settle() { synctest.Wait() }
