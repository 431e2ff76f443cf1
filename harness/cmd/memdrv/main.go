// memdrv drives the memory blocker with real memory (units of a few MB on the heap, collected on command) and
// records who is let go when.
package main

import (
	"runtime"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"github.com/KitchenMishap/pudding-shed/memblocker"
	"verifharness/vh"
)

const unit = 4 << 20
const patience = 10 * time.Second

var ballast [][]byte
var failures int

func heap() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func main() {
	debug.SetGCPercent(-1)
	vh.Run(func(sc vh.Scenario, dir string, t *vh.Trace) {
		if failures == 0 {
			scenario(sc, t)
		}
	})
}

func scenario(sc vh.Scenario, t *vh.Trace) {
	var b *memblocker.MemBlocker
	var base, max int64
	var mu sync.Mutex
	back := []int64{} // waiters that have returned, not yet reported
	got := int64(0)   // the freer that has been let in
	inLine := 0
	ballast = nil
	// settle gives the blocker time to let `want` waiters go (and a freer in, if one should get in)
	settle := func(want int, in bool) []int64 {
		end := time.Now().Add(patience)
		for {
			mu.Lock()
			ok := len(back) >= want && (!in || got != 0)
			mu.Unlock()
			if ok {
				break
			}
			if time.Now().After(end) {
				failures++
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
		time.Sleep(2 * time.Millisecond)
		mu.Lock()
		defer mu.Unlock()
		r := back
		back = []int64{}
		sort.Slice(r, func(a, b int) bool { return r[a] < r[b] })
		return r
	}
	holder := func() int64 { mu.Lock(); defer mu.Unlock(); return got }
	done := func(want int) {
		f := holder()
		mu.Lock()
		got = 0
		mu.Unlock()
		b.MemoryWasFreed()
		w := 0
		if inLine == 0 {
			w = want
		}
		r := settle(w, inLine > 0)
		if inLine > 0 {
			inLine--
		}
		t.Add(vh.M{"op": "done", "f": f, "back": r, "holder": holder()})
		if h := holder(); h == f {
			failures++
		}
	}
	for _, o := range sc.Ops {
		if failures > 0 {
			return
		}
		want := int(vh.I(o, "want"))
		switch vh.S(o, "op") {
		case "new":
			runtime.GC()
			max = vh.I(o, "max")
			base = heap()
			b = memblocker.NewMemBlocker(uint64(base + max*unit - unit/2))
			t.Add(vh.M{"op": "new", "max": max})
		case "call":
			for _, w := range vh.Ints(o, "ws") {
				go func() {
					b.WaitForSpareMemory()
					mu.Lock()
					back = append(back, w)
					mu.Unlock()
				}()
			}
			t.Add(vh.M{"op": "call", "ws": vh.Ints(o, "ws"), "back": settle(want, false)})
		case "take":
			for k := int64(0); k < vh.I(o, "k"); k++ {
				ballast = append(ballast, make([]byte, unit))
			}
			t.Add(vh.M{"op": "take", "k": vh.I(o, "k"), "back": settle(0, false)})
		case "drop":
			k := int(vh.I(o, "k"))
			for j := 0; j < k; j++ {
				ballast[len(ballast)-1] = nil
				ballast = ballast[:len(ballast)-1]
			}
			runtime.GC()
			t.Add(vh.M{"op": "drop", "k": k, "back": settle(0, false)})
		case "begin":
			f := vh.I(o, "f")
			in := vh.I(o, "held") == 1
			go func() {
				b.StartFreeingMem()
				mu.Lock()
				got = f
				mu.Unlock()
			}()
			if !in {
				inLine++
			}
			r := settle(0, in)
			t.Add(vh.M{"op": "begin", "f": f, "back": r, "holder": holder()})
		case "done":
			done(want)
		case "line": // everybody in line frees nothing more, one after the other
			n := 0
			for {
				last := inLine == 0
				left := want - n
				if left < 0 {
					left = 0
				}
				done(left)
				n += len(t.Events[len(t.Events)-1]["back"].([]int64))
				if last || failures > 0 {
					break
				}
			}
		case "spare":
			free := b.IsThereFreeMemory()
			last := (int64(b.LastHeapSize()) - base + unit/2) / unit
			t.Add(vh.M{"op": "spare", "free": free, "last": last, "back": settle(0, false)})
		}
	}
}
