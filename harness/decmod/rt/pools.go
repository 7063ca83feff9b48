package rt

import (
	"context"
	"fmt"
	"maps"
	"math/rand"
	"reflect"
	"runtime"
	"sync"
	"testing"
	"time"
)

// RobinPool is the monitor of the robinpool decorator.
func RobinPool(t *testing.T) {
	for _, ifc := range Ifaces("robinpool") {
		id := "robinpool/" + ifc.Key
		mk := ifc.B["robinpool"].(func(...any) (any, error))
		must := ifc.B["robinpool_must"].(func(...any) any)
		if d, err := mk(); err == nil || d != nil {
			Viol(id, "an empty pool is accepted: decorator %v, error %v", d, err)
		}
		func() {
			defer func() {
				if recover() == nil {
					Viol(id, "MustNew accepts an empty pool")
				}
			}()
			must()
		}()
		ms := ifc.Methods()
		for k := 0; k < N(30, 300); k++ {
			r := Rand("robin"+ifc.Key+ifc.Where, k)
			n := 1 + r.Intn(6)
			if k%15 == 7 {
				n = []int{255, 256, 257, 300, 513}[r.Intn(5)]
			}
			var mu sync.Mutex
			var order []int
			var last *Call
			var impls []any
			panicEvery := 0
			if r.Intn(4) == 0 {
				panicEvery = 3
			}
			for i := 0; i < n; i++ {
				impls = append(impls, ifc.New(&Impl{ID: i, On: func(c *Call) {
					mu.Lock()
					order = append(order, c.Impl.ID)
					last = c
					np := len(order)
					mu.Unlock()
					for _, m := range ms {
						if m.Name == c.Method {
							c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(np)))}, FailErr()))
						}
					}
					if panicEvery > 0 && np%panicEvery == 0 {
						panic("impl")
					}
				}}))
			}
			at := make([]int, n)
			for i := range at {
				at[i] = i
			}
			times := map[int]int{} // how often each implementation is in the pool
			if k%3 == 1 && n > 1 && n < 100 {
				for q := 1 + r.Intn(2); q > 0; q-- {
					from, to := r.Intn(n), r.Intn(n)
					if r.Intn(2) == 0 {
						from, to = 0, n-1
					}
					impls[to] = impls[from]
					at[to] = at[from]
				}
				Count("pools_with_repetitions", 1)
			}
			for _, x := range at {
				times[x]++
			}
			var dec any
			var err error
			if k%2 == 0 {
				dec, err = mk(impls...)
			} else {
				dec = must(impls...)
			}
			if err != nil || dec == nil {
				Viol(id, "a pool of %d is refused: %v", n, err)
				continue
			}
			calls := n*3 + r.Intn(5)
			jump, base := -1, 0
			if k%5 == 3 && n < 100 {
				jump = n + 1
			}
			for i := 0; i < calls; i++ {
				if i == jump && ahead(dec, uint64(i), 1<<32-uint64(1+r.Intn(n))) {
					// as after so many calls, in the same order
					Count("histories_of_2^32_calls", 1)
					base = len(order)
				}
				m := ms[r.Intn(len(ms))]
				args := m.Args(&Fab{R: r}, context.Background())
				before := len(order)
				o := Invoke(dec, m, args)
				if len(order) != before+1 {
					Viol(id, "one call of %s makes %d calls", m.Name, len(order)-before)
					break
				}
				if s := SameArgs(last.Args, args); s != "" || last.Method != m.Name {
					Viol(id, "%s -> %s: %s", m.Name, last.Method, s)
				}
				if !o.Panicked {
					if s := SameAll(o.Results, last.Results, "result"); s != "" {
						Viol(id, "%s: %s", m.Name, s)
					}
				}
			}
			for i := 0; i+n <= len(order); i++ {
				if i < base && i+n > base {
					continue // the history between is missing
				}
				seen := map[int]int{}
				for _, x := range order[i : i+n] {
					seen[x]++
				}
				if !maps.Equal(seen, times) {
					Viol(id, "pool of %d: the consecutive calls %d..%d go to %v", n, i, i+n-1, order[i:i+n])
					break
				}
			}
			Count("sequential_calls", len(order))
			Eval(fmt.Sprintf("%s %d %d %d", id, n, calls, k))
			if n > 2 {
				Sample("%s pool of %d, order of %d calls: %v", id, n, len(order), order)
			}
		}
		// concurrently
		for k := 0; k < N(4, 40); k++ {
			n := 2 + k%4
			var mu sync.Mutex
			counts := make([]int, n)
			var impls []any
			for i := 0; i < n; i++ {
				impls = append(impls, ifc.New(&Impl{ID: i, On: func(c *Call) {
					mu.Lock()
					counts[c.Impl.ID]++
					mu.Unlock()
					if Uniq()%7 == 0 {
						runtime.Gosched()
					}
				}}))
			}
			dec, err := mk(impls...)
			if err != nil {
				Viol(id, "refused: %v", err)
				continue
			}
			var wg sync.WaitGroup
			G, per := 8, 25
			for g := 0; g < G; g++ {
				r := Rand("robinconc"+ifc.Key, g*100+k)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < per; i++ {
						m := ms[r.Intn(len(ms))]
						Invoke(dec, m, m.Args(&Fab{R: r}, context.Background()))
					}
				}()
			}
			wg.Wait()
			lo, hi, sum := counts[0], counts[0], 0
			for _, c := range counts {
				lo, hi, sum = min(lo, c), max(hi, c), sum+c
			}
			if hi-lo > 1 || sum != G*per {
				Viol(id, "%d concurrent calls over a pool of %d are spread as %v", G*per, n, counts)
			}
			Count("concurrent_calls", sum)
			Eval(fmt.Sprintf("%s conc %d", id, k))
		}
	}
}

// ahead puts the counter of calls of a decorator forward, when it has one:
// a field that holds the number of calls so far.
func ahead(dec any, now, then uint64) bool {
	p := reflect.ValueOf(dec)
	if p.Kind() != reflect.Pointer || p.Elem().Kind() != reflect.Struct {
		return false
	}
	var found []reflect.Value
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Uint, reflect.Uint32, reflect.Uint64:
			if v.Uint() == now {
				found = append(found, v)
			}
		case reflect.Int, reflect.Int64:
			if v.Int() == int64(now) {
				found = append(found, v)
			}
		}
	}
	walk(p.Elem())
	if len(found) != 1 {
		return false
	}
	f := reflect.NewAt(found[0].Type(), found[0].Addr().UnsafePointer()).Elem()
	if f.CanInt() {
		f.SetInt(int64(then))
	} else {
		f.SetUint(then)
	}
	return true
}

// SyncPool is the monitor of the syncpool decorator.
func SyncPool(t *testing.T) {
	for _, ifc := range Ifaces("syncpool") {
		id := "syncpool/" + ifc.Key
		mk := ifc.B["syncpool"].(func(...any) any)
		func() {
			defer func() {
				if recover() == nil {
					Viol(id, "an empty pool is accepted")
				}
			}()
			mk()
		}()
		ms := ifc.Methods()
		for k := 0; k < N(30, 300); k++ {
			r := Rand("syncpool"+ifc.Key+ifc.Where, k)
			n := 1 + r.Intn(4)
			total := n*4 + r.Intn(8)
			same := k%3 == 0 // everything arrives at once
			dead := Bubble(t, func() {
				var mu sync.Mutex
				busy := make([]bool, n)
				nbusy, peak, violated := 0, 0, false
				used := map[int]int{}
				var impls []any
				for i := 0; i < n; i++ {
					impls = append(impls, ifc.New(&Impl{ID: i, On: func(c *Call) {
						q := Uniq()
						mu.Lock()
						if busy[c.Impl.ID] && !violated {
							violated = true
							Viol(id, "an implementation is used by two calls at the same time")
						}
						busy[c.Impl.ID] = true
						nbusy++
						peak = max(peak, nbusy)
						used[c.Impl.ID]++
						mu.Unlock()
						for _, m := range ms {
							if m.Name == c.Method {
								c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(q)))}, nil))
							}
						}
						rr := rand.New(rand.NewSource(int64(q) + Seed()))
						time.Sleep(time.Duration(1 + rr.Intn(1000)))
						mu.Lock()
						busy[c.Impl.ID] = false
						nbusy--
						mu.Unlock()
						switch rr.Intn(8) {
						case 0:
							panic("impl")
						case 1:
							runtime.Goexit()
						}
					}}))
				}
				dec := mk(impls...)
				var wg sync.WaitGroup
				type iv struct{ arr, end time.Time }
				var ivs []iv
				var ended [3]int
				for i := 0; i < total; i++ {
					m := ms[r.Intn(len(ms))]
					args := m.Args(&Fab{R: r}, context.Background())
					if !same {
						time.Sleep(time.Duration(r.Intn(700)))
					}
					arr := time.Now()
					wg.Add(1)
					go func() {
						var o Outcome
						o.Exited = true
						defer wg.Done()
						defer func() {
							mu.Lock()
							ivs = append(ivs, iv{arr, time.Now()})
							switch {
							case o.Panicked:
								ended[1]++
							case o.Exited:
								ended[2]++
							default:
								ended[0]++
							}
							mu.Unlock()
						}()
						o = Invoke(dec, m, args)
					}()
					// work conserving: when an implementation is free nobody waits
					Settle()
					mu.Lock()
					inFlight := i + 1 - len(ivs)
					if nbusy != min(inFlight, n) {
						Viol(id, "pool of %d: %d calls in flight but %d implementations in use", n, inFlight, nbusy)
						mu.Unlock()
						return
					}
					mu.Unlock()
				}
				wg.Wait()
				// nothing is lost: the whole pool is available again
				mu.Lock()
				calls := 0
				for _, u := range used {
					calls += u
				}
				if calls != total {
					Viol(id, "%d calls reach the implementations instead of %d", calls, total)
				}
				mu.Unlock()
				block := make(chan struct{})
				reached := map[int]bool{}
				_ = block
				for i := 0; i < n; i++ {
					m := ms[r.Intn(len(ms))]
					args := m.Args(&Fab{R: r}, context.Background())
					wg.Add(1)
					go func() {
						defer wg.Done()
						Invoke(dec, m, args)
					}()
				}
				Settle()
				mu.Lock()
				if nbusy != n {
					Viol(id, "pool of %d: only %d implementations are available after %d calls (%d returned, %d panicked, %d exited)", n, nbusy, total, ended[0], ended[1], ended[2])
				}
				_ = reached
				mu.Unlock()
				wg.Wait()
				Count("calls", total+n)
				Count("panics", ended[1])
				Count("goexits", ended[2])
				Count("peak_in_use", peak)
				Eval(fmt.Sprintf("%s %d %d", id, n, k))
				Sample("%s pool of %d, %d calls: %d returned, %d panicked, %d exited, use of implementations %v", id, n, total, ended[0], ended[1], ended[2], used)
			})
			if dead != "" {
				Viol(id, "pool of %d: calls are left waiting for ever: %s", n, dead)
			}
		}
	}
}
