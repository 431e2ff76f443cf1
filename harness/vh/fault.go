//go:build faults

package vh

import (
	"os"
	"strings"
	"sync"
	"syscall"
)

// Fault makes the K-th operation of kind Op on a file whose path contains In (and begins with Dir) fail, having written
// Part bytes of what was to be written; and, if Ever, all later ones.
type Fault struct {
	Op, In, Dir string
	K, Part     int64
	Ever        bool
	mu          sync.Mutex
	n           int64
	What        string // the first that failed
}

var errno = map[string]error{"open": syscall.EMFILE, "write": syscall.ENOSPC, "read": syscall.EIO, "sync": syscall.EIO,
	"rename": syscall.ENOSPC, "mkdir": syscall.ENOSPC}

func (f *Fault) ask(op, name string, n int) (int, error) {
	if op != f.Op || !strings.HasPrefix(name, f.Dir) || !strings.Contains(name[len(f.Dir):], f.In) {
		return 0, nil
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if f.n < f.K || f.n > f.K && !f.Ever {
		return 0, nil
	}
	if f.What == "" {
		f.What = op + " " + name
	}
	return int(min(f.Part, int64(n))), errno[op]
}

// FaultFrom takes the fault an operation of a scenario names.
func FaultFrom(m M, dir string) *Fault {
	return &Fault{Op: S(m, "kind"), In: S(m, "in"), Dir: dir, K: I(m, "k"), Part: I(m, "part"), Ever: B(m, "ever")}
}
func (f *Fault) Set()      { os.VerifFault = f.ask }
func (f *Fault) Lift()     { os.VerifFault = nil }
func (f *Fault) Met() bool { return f.What != "" }
