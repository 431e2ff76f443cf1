// seqdrv drives the sequencer and the worker pool (package concurrency) and records what they do.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/KitchenMishap/pudding-shed/concurrency"
	"verifharness/vh"
)

type item struct{ n int64 }

func (i *item) SequenceNumber() int64 { return i.n }

const patience = 10 * time.Second

// failures: how often the code under test made us wait in vain; after the second, the rest is skipped
var failures int

func main() {
	vh.Run(func(sc vh.Scenario, dir string, t *vh.Trace) {
		if failures >= 2 {
			return
		}
		switch vh.S(sc.Cfg, "kind") {
		case "seq":
			sequencer(sc, t)
		case "pipe":
			pipeline(sc, t)
		case "pool":
			pool(sc, t)
		default:
			vh.Fatal("kind?")
		}
	})
}

func sequencer(sc vh.Scenario, t *vh.Trace) {
	first, limit := vh.I(sc.Cfg, "first"), int(vh.I(sc.Cfg, "limit"))
	outChan := make(chan *item, vh.I(sc.Cfg, "outcap"))
	s := concurrency.NewSequencerContainer[*item](first, limit, outChan)
	var mu sync.Mutex
	got := []int64{}
	closed := false
	go func() {
		for x := range outChan {
			mu.Lock()
			got = append(got, x.n)
			mu.Unlock()
		}
		mu.Lock()
		closed = true
		mu.Unlock()
	}()
	taken := 0
	// outs waits until `want` further items have come out (or patience runs out) and reports everything new
	outs := func(want int) []int64 {
		end := time.Now().Add(patience)
		for {
			mu.Lock()
			n := len(got)
			mu.Unlock()
			if n-taken >= want || time.Now().After(end) {
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
		mu.Lock()
		r := append([]int64{}, got[taken:]...)
		mu.Unlock()
		taken += len(r)
		return r
	}
	send := func(n int64) bool {
		select {
		case s.InChan <- &item{n}:
			return true
		case <-time.After(patience):
			return false
		}
	}
	var blocked int64 // waiters that have not returned
	t.Add(vh.M{"op": "new", "first": first, "limit": limit})
	for _, o := range sc.Ops {
		switch vh.S(o, "op") {
		case "send":
			n := vh.I(o, "s")
			ok := send(first + n)
			r := outs(int(vh.I(o, "want")))
			t.Add(vh.M{"op": "send", "s": first + n, "ok": ok, "outs": r})
			if !ok || len(r) < int(vh.I(o, "want")) {
				failures++
				return
			}
		case "batch": // several senders at once
			var wg sync.WaitGroup
			var bad int64
			ns := []int64{}
			for _, n := range vh.Ints(o, "ss") {
				ns = append(ns, first+n)
				wg.Add(1)
				go func() {
					defer wg.Done()
					if !send(first + n) {
						atomic.AddInt64(&bad, 1)
					}
				}()
			}
			wg.Wait()
			r := outs(int(vh.I(o, "want")))
			t.Add(vh.M{"op": "batch", "ss": ns, "ok": bad == 0, "outs": r})
			if bad != 0 || len(r) < int(vh.I(o, "want")) {
				failures++
				return
			}
		case "probe":
			n := vh.I(o, "n")
			wantClosed := vh.B(o, "closed")
			start := func() {
				for k := int64(0); k < n; k++ {
					atomic.AddInt64(&blocked, 1)
					go func() {
						s.WaitForNotBloated()
						atomic.AddInt64(&blocked, -1)
					}()
				}
			}
			var b int64
			if wantClosed {
				was := atomic.LoadInt64(&blocked)
				for try := 0; try < 8; try++ { // the sequencer may still be handling the last item
					start()
					time.Sleep(time.Duration(3+20*try) * time.Millisecond)
					b = atomic.LoadInt64(&blocked) - was
					if b == n {
						break
					}
					was = atomic.LoadInt64(&blocked)
				}
			} else {
				start()
				end := time.Now().Add(patience)
				for atomic.LoadInt64(&blocked) > 0 && time.Now().Before(end) {
					time.Sleep(20 * time.Microsecond)
				}
				b = atomic.LoadInt64(&blocked)
			}
			t.Add(vh.M{"op": "probe", "n": n, "blocked": b})
			if wantClosed != (b == n) {
				failures++
				return
			}
		case "close":
			close(s.InChan)
			end := time.Now().Add(patience)
			for {
				mu.Lock()
				c := closed
				mu.Unlock()
				if c || time.Now().After(end) {
					break
				}
				time.Sleep(20 * time.Microsecond)
			}
			mu.Lock()
			if !closed {
				failures++
			}
			t.Add(vh.M{"op": "close", "outs": append([]int64{}, got[taken:]...), "closed": closed})
			mu.Unlock()
		}
	}
}

// pipeline: gate -> in-order hand-out to workers -> sequencer -> consumer, as the import does it
func pipeline(sc vh.Scenario, t *vh.Trace) {
	cfg := sc.Cfg
	n, w, limit := vh.I(cfg, "n"), int(vh.I(cfg, "w")), int(vh.I(cfg, "limit"))
	mode := vh.S(cfg, "mode")
	if p := int(vh.I(cfg, "procs")); p > 0 {
		defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(p))
	}
	t.Add(vh.M{"op": "pipeline", "n": n, "w": w, "limit": limit, "mode": mode, "outcap": vh.I(cfg, "outcap")})
	outChan := make(chan *item, vh.I(cfg, "outcap"))
	s := concurrency.NewSequencerContainer[*item](0, limit, outChan)
	handed := make(chan *item)
	var passed, inSeq, emitted int64
	var maxWaiting int64
	go func() {
		for k := int64(0); k < n; k++ {
			s.WaitForNotBloated()
			p := atomic.AddInt64(&passed, 1)
			if d := p - atomic.LoadInt64(&emitted); d > atomic.LoadInt64(&maxWaiting) {
				atomic.StoreInt64(&maxWaiting, d)
			}
			handed <- &item{k}
		}
		close(handed)
	}()
	var wg sync.WaitGroup
	head := func() int64 { return atomic.LoadInt64(&emitted) }
	for k := 0; k < w; k++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(vh.I(cfg, "seed")*1000 + int64(k)))
		go func() {
			defer wg.Done()
			for it := range handed {
				switch mode {
				case "random":
					switch r.Intn(4) {
					case 0:
						time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
					case 1:
						runtime.Gosched()
					}
				case "head": // the item everybody waits for is the slowest: nothing else can move before it is released
					if it.n == head() && r.Intn(3) == 0 {
						last := int64(-1)
						for {
							now := atomic.LoadInt64(&passed) + atomic.LoadInt64(&inSeq)
							if now == last {
								break
							}
							last = now
							time.Sleep(2 * time.Millisecond)
						}
					}
				case "even": // whole groups arrive in reverse
					if it.n%int64(w) != int64(w)-1 {
						time.Sleep(time.Duration(int64(w)-it.n%int64(w)) * 200 * time.Microsecond)
					}
				}
				atomic.AddInt64(&inSeq, 1)
				s.InChan <- it
			}
		}()
	}
	go func() { wg.Wait(); close(s.InChan) }()
	outs := make([]int64, 0, n)
	dead := time.After(45 * time.Second)
	r := rand.New(rand.NewSource(vh.I(cfg, "seed")))
	hung := false
	func() {
		for {
			select {
			case x, ok := <-outChan:
				if !ok {
					return
				}
				outs = append(outs, x.n)
				atomic.AddInt64(&emitted, 1)
				if mode != "head" && r.Intn(8) == 0 {
					time.Sleep(time.Duration(r.Intn(200)) * time.Microsecond)
				}
			case <-dead:
				hung = true
				failures++
				return
			}
		}
	}()
	t.Add(vh.M{"op": "out", "outs": outs, "hung": hung, "ahead": atomic.LoadInt64(&maxWaiting)})
}

type logger struct {
	sync.Mutex
	t *vh.Trace
}

func (l *logger) add(e vh.M) { l.Lock(); l.t.Add(e); l.Unlock() }

type task struct {
	id, errID int64
	l         *logger
	wait      func()
	err       error
	done      func()
	mu        sync.Mutex
}

type taskErr struct{ id int64 }

func (e taskErr) Error() string { return fmt.Sprint("error ", e.id) }

func (k *task) Process() error {
	k.l.add(vh.M{"op": "start", "t": k.id})
	if k.wait != nil {
		k.wait()
	}
	k.l.add(vh.M{"op": "end", "t": k.id, "e": k.errID})
	if k.errID == 0 {
		return nil
	}
	return taskErr{k.errID}
}
func (k *task) SetError(e error) {
	var te taskErr
	id := int64(-1)
	if e == nil {
		id = 0
	} else if errors.As(e, &te) {
		id = te.id
	}
	k.l.add(vh.M{"op": "seterr", "t": k.id, "e": id})
	k.mu.Lock()
	k.err = e
	k.mu.Unlock()
}
func (k *task) GetError() error { k.mu.Lock(); defer k.mu.Unlock(); return k.err }
func (k *task) Done() {
	k.l.add(vh.M{"op": "done", "t": k.id})
	if k.done != nil {
		k.done()
	}
}

func pool(sc vh.Scenario, t *vh.Trace) {
	n := int(vh.I(sc.Cfg, "w"))
	l := &logger{t: t}
	l.add(vh.M{"op": "new", "w": n})
	p := concurrency.NewWorkerPool(n)
	r := rand.New(rand.NewSource(vh.I(sc.Cfg, "seed")))
	id := int64(0)
	mk := func(e int64, wait func(), wg *sync.WaitGroup) *task {
		id++
		wg.Add(1)
		return &task{id: id, errID: e, l: l, wait: wait, done: wg.Done}
	}
	errOf := func() int64 {
		if r.Intn(3) == 0 {
			return int64(1 + r.Intn(5))
		}
		return 0
	}
	await := func(wg *sync.WaitGroup) bool {
		c := make(chan bool)
		go func() { wg.Wait(); close(c) }()
		select {
		case <-c:
			return true
		case <-time.After(patience):
			return false
		}
	}
	for _, o := range sc.Ops {
		var wg sync.WaitGroup
		cnt := int(vh.I(o, "n"))
		switch vh.S(o, "op") {
		case "tasks": // ordinary tasks, sent by one or several senders
			var sw sync.WaitGroup
			senders := int(vh.I(o, "senders"))
			ts := []*task{}
			for i := 0; i < cnt; i++ {
				d := time.Duration(r.Intn(150)) * time.Microsecond
				ts = append(ts, mk(errOf(), func() {
					if d > 75*time.Microsecond {
						time.Sleep(d)
					}
				}, &wg))
			}
			for k := 0; k < senders; k++ {
				sw.Add(1)
				go func() {
					defer sw.Done()
					for i := k; i < len(ts); i += senders {
						p.InChan <- ts[i]
					}
				}()
			}
			ok := await(&sw) && await(&wg)
			l.add(vh.M{"op": "quiet", "ok": ok, "count": id})
			if !ok {
				failures++
				return
			}
		case "barrier": // exactly w tasks, none of which finishes before all have started
			var st sync.WaitGroup
			st.Add(n)
			var late int64
			for i := 0; i < n; i++ {
				k := mk(errOf(), func() {
					st.Done()
					if !await(&st) {
						atomic.AddInt64(&late, 1)
					}
				}, &wg)
				go func() { p.InChan <- k }()
			}
			ok := await(&wg) && await(&wg)
			l.add(vh.M{"op": "together", "ok": ok && late == 0, "count": id})
			if !ok {
				failures++
				return
			}
		case "hold": // more tasks than workers, all held until nothing moves any more
			release := make(chan bool)
			var started int64
			for i := 0; i < cnt; i++ {
				k := mk(errOf(), func() { atomic.AddInt64(&started, 1); <-release }, &wg)
				go func() { p.InChan <- k }()
			}
			last := int64(-1)
			for {
				s := atomic.LoadInt64(&started)
				if s == last {
					break
				}
				last = s
				time.Sleep(5 * time.Millisecond)
			}
			close(release)
			ok := await(&wg)
			l.add(vh.M{"op": "quiet", "ok": ok, "count": id})
			if !ok {
				failures++
				return
			}
		case "close": // close while accepted tasks are still in progress
			release := make(chan bool)
			for i := 0; i < n; i++ {
				p.InChan <- mk(errOf(), func() { <-release }, &wg)
			}
			close(p.InChan)
			time.Sleep(2 * time.Millisecond)
			close(release)
			ok := await(&wg)
			l.add(vh.M{"op": "quiet", "ok": ok, "count": id})
		}
	}
	l.Lock() // nothing is recorded any more
	t2 := append([]vh.M{}, t.Events...)
	*t = vh.Trace{Events: t2}
	l.Unlock()
}
