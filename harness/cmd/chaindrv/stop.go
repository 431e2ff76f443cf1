package main

import (
	"encoding/json"
	"fmt"
	"io/fs"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"verifharness/chainkit"
	"verifharness/vh"
)

// An earlier attempt at a phase, which a child process makes and does not live to finish, or for which files can not
// grow beyond a size, or in which an operation on a file fails.  What it leaves behind is what the attempt that counts finds.

type attempt struct {
	Phase string `json:"phase"`
	Blk   []any  `json:"blocks"`
	N     int64  `json:"n"`
	R     vh.M   `json:"r"`
	Dir   string `json:"dir"`
	Sole  bool   `json:"sole"`
	// killed at the At-th request, Micros later (At = 0: counted from the start); or files end at Full bytes
	At, Micros, Full int64
	Fault            vh.M // or this fails
}

// attempts makes the earlier attempts of a phase; done when one of them claims to have finished it though it met a limit.
func (im *importer) attempts(phase string) (done bool) {
	ss, _ := im.r["stops"].([]any)
	for _, x := range ss {
		s := vh.M(x.(map[string]any))
		if vh.S(s, "phase") != phase {
			continue
		}
		r := vh.M{}
		for k, v := range im.r {
			r[k] = v
		}
		for k, v := range s {
			r[k] = v
		}
		delete(r, "stops")
		n := im.n
		if m := vh.I(s, "n"); m > 0 {
			n = min(n, m)
		}
		a := attempt{phase, im.blocks, n, r, im.dir, im.sole, vh.I(s, "at"), vh.I(s, "us"), vh.I(s, "full"), nil}
		if f, ok := s["fault"].(map[string]any); ok {
			a.Fault = f
			a.Full = 1 << 30 // no limit
		}
		b, err := json.Marshal(a)
		vh.Must(err)
		f := im.dir + ".attempt"
		vh.Must(os.WriteFile(f, b, 0o600))
		cmd := exec.Command(os.Args[0])
		cmd.Env = append(os.Environ(), "CHAINDRV_ATTEMPT="+f)
		var text strings.Builder
		cmd.Stderr = &text
		tm := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
		start := time.Now()
		err = cmd.Run()
		if !tm.Stop() && time.Since(start) > 50*time.Second {
			im.t.Add(vh.M{"op": "hang", "name": "attempt " + phase})
			return false
		}
		os.Remove(f)
		end := "finished"
		if err != nil {
			if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				end = "killed"
			} else if cmd.ProcessState.ExitCode() == 3 {
				end = "error" // it said so
			} else {
				end = "panic"
			}
		}
		m := strings.TrimSpace(text.String())
		if len(m) > 300 {
			m = m[:150] + " ... " + m[len(m)-150:]
		}
		im.t.Add(vh.M{"op": "attempt", "phase": phase, "end": end, "full": a.Full, "text": m, "n": n})
		if a.Full > 0 && end == "finished" && n == im.n {
			return true
		}
	}
	return false
}

// anew makes the attempt at a phase that counts.  Where earlier ones have left something it may refuse, having changed
// nothing; then what they have left is removed.
func (im *importer) anew(phase string, f func() error) bool {
	was := len(im.t.Events)
	if im.attempts(phase) {
		return true
	}
	if len(im.t.Events) == was {
		return im.phase(phase, f)
	}
	before, n := im.digests(), len(im.t.Events)
	if im.phase(phase, f) {
		return true
	}
	if e := im.t.Events[n]; e["op"] != "phase" || phase == "index" {
		return false
	}
	im.t.Events[n] = vh.M{"op": "refused", "phase": phase, "before": before, "after": im.digests(), "text": im.t.Events[n]["text"]}
	if phase == "hashes" {
		vh.Must(os.RemoveAll(im.dir))
		vh.Must(os.MkdirAll(im.dir, 0o755))
	} else {
		vh.Must(filepath.WalkDir(im.dir, func(p string, d fs.DirEntry, err error) error {
			if err != nil || d.IsDir() {
				return err
			}
			if strings.Contains(filepath.ToSlash(p), "/Hashes/") {
				return nil
			}
			return os.Remove(p)
		}))
	}
	return im.phase(phase, f)
}

// child is the process that makes an attempt.
func child(f string) int {
	b, err := os.ReadFile(f)
	vh.Must(err)
	var a attempt
	vh.Must(json.Unmarshal(b, &a))
	c := chainkit.FromJSON(a.Blk, 0)
	im := &importer{c: c, n: a.N, r: a.R, dir: a.Dir, t: &vh.Trace{}, sole: a.Sole, blocks: a.Blk, stopAt: a.At, micros: a.Micros, full: a.Full > 0}
	if a.Full > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		vh.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(a.Full), Max: uint64(a.Full)}))
		if a.Fault != nil {
			f := vh.FaultFrom(a.Fault, im.dir)
			f.Set()
			defer func() {
				if f.Met() {
					fmt.Fprintln(os.Stderr, "a fault was met")
				}
			}()
		}
	} else if a.At == 0 {
		time.AfterFunc(time.Duration(a.Micros)*time.Microsecond, kill)
	}
	threads := max(1, int(vh.I(a.R, "threads")))
	switch a.Phase {
	case "hashes":
		err = im.hashes(vh.B(a.R, "json"), vh.B(a.R, "chi"), threads)
	case "index":
		err = im.index(threads)
	case "store":
		err = im.store(vh.B(a.R, "json"), vh.B(a.R, "chi"), threads)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return 0
}

func kill() { syscall.Kill(os.Getpid(), syscall.SIGKILL) }

// stopper kills the process at a request.
type stopper struct {
	http.RoundTripper
	n      atomic.Int64
	at, us int64
}

func (s *stopper) RoundTrip(r *http.Request) (*http.Response, error) {
	if s.n.Add(1) == s.at {
		if s.us == 0 {
			kill()
		}
		time.AfterFunc(time.Duration(s.us)*time.Microsecond, kill)
	}
	return s.RoundTripper.RoundTrip(r)
}

func (im *importer) transport() http.RoundTripper {
	if im.stopAt > 0 {
		return &stopper{RoundTripper: im.node(), at: im.stopAt, us: im.micros}
	}
	return im.node()
}
