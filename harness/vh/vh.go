// Package vh is the common part of the conformance drivers: it reads scenarios (one JSON object per line on stdin),
// lets the driver run each on the real code, and prints the recorded trace (one JSON array per line, prefixed "TR ").
package vh

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
)

type M = map[string]any

type Scenario struct {
	Cfg M   `json:"cfg"`
	Ops []M `json:"ops"`
}

type Trace struct{ Events []M }

func (t *Trace) Add(e M) { t.Events = append(t.Events, e) }

func I(m M, k string) int64 {
	v, ok := m[k]
	if !ok {
		return 0
	}
	switch x := v.(type) {
	case float64:
		return int64(x)
	case bool:
		if x {
			return 1
		}
		return 0
	case json.Number:
		n, _ := x.Int64()
		return n
	}
	Fatal("field %s is not a number: %v", k, v)
	return 0
}
func S(m M, k string) string { s, _ := m[k].(string); return s }
func B(m M, k string) bool   { return I(m, k) != 0 }
func Ints(m M, k string) []int64 {
	a, _ := m[k].([]any)
	r := make([]int64, len(a))
	for i, x := range a {
		r[i] = int64(x.(float64))
	}
	return r
}
func Strs(m M, k string) []string {
	a, _ := m[k].([]any)
	r := make([]string, len(a))
	for i, x := range a {
		r[i] = x.(string)
	}
	return r
}

// Err classifies an error for the trace.
func Err(err error) string {
	if err == nil {
		return ""
	}
	if err == io.EOF {
		return "EOF"
	}
	return "ERR"
}

// Fatal reports a failure of the driver itself (never of the code under test).
func Fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "DRIVER-ERROR "+f+"\n", a...)
	os.Exit(3)
}
func Must(err error) {
	if err != nil {
		Fatal("%v\n%s", err, debug.Stack())
	}
}

// Run runs every scenario from stdin in a fresh scratch directory.
func Run(f func(sc Scenario, dir string, t *Trace)) { RunTo(os.Stdout, f) }

// RunTo is Run for drivers whose code under test prints on stdout.
func RunTo(w io.Writer, f func(sc Scenario, dir string, t *Trace)) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriterSize(w, 1<<20)
	base, err := os.MkdirTemp("", "vh-")
	Must(err)
	defer os.RemoveAll(base)
	n := 0
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var sc Scenario
			if e := json.Unmarshal(line, &sc); e != nil {
				Fatal("bad scenario: %v", e)
			}
			dir := filepath.Join(base, fmt.Sprint(n))
			n++
			Must(os.MkdirAll(dir, 0o755))
			t := &Trace{}
			Guard(t, func() { f(sc, dir, t) })
			b, e := json.Marshal(t.Events)
			Must(e)
			out.WriteString("TR ")
			out.Write(b)
			out.WriteString("\n")
			out.Flush()
			os.RemoveAll(dir)
		}
		if err != nil {
			break
		}
	}
	out.Flush()
}

// Guard turns a panic of the code under test into a "panic" event, which no specification accepts.
func Guard(t *Trace, f func()) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if !strings.Contains(st, "pudding-shed") {
				Fatal("panic in driver: %v\n%s", r, st)
			}
			if len(st) > 1800 {
				st = st[:1800]
			}
			t.Add(M{"op": "panic", "msg": fmt.Sprint(r), "stack": st})
		}
	}()
	f()
}

// CopyDir copies a directory tree as it is on disk now (a crash snapshot).
func CopyDir(src, dst string) {
	Must(filepath.Walk(src, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if info.IsDir() {
			return os.MkdirAll(q, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0o644)
	}))
}

// Check panics on an error, so that Guard records it as an event of the trace (Must ends the
// driver instead).
func Check(err error) {
	if err != nil {
		panic(err)
	}
}
