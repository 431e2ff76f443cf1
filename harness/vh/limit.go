package vh

import (
	"os"
	"os/signal"
	"path/filepath"
	"syscall"
)

// Limits stands in for a disk that is full (no file grows beyond Bytes) and for a process that has run out of file
// descriptors (Files).  Soft limits only, so that they can be lifted again; negative: no limit.
// Or certain operations on files fail (a driver built with faults).
type Limits struct {
	Bytes, Files int64
	Fault        *Fault
}

func NoLimits() *Limits {
	signal.Ignore(syscall.SIGXFSZ)
	l := &Limits{-1, -1, nil}
	l.Lift()
	return l
}

func set(res int, n int64) {
	var r syscall.Rlimit
	Must(syscall.Getrlimit(res, &r))
	if n < 0 || uint64(n) > r.Max {
		r.Cur = r.Max
	} else {
		r.Cur = uint64(n)
	}
	Must(syscall.Setrlimit(res, &r))
}

// From takes the limits an operation of a scenario sets; the bytes are counted from the size of the largest file there is
// in the directory, as a full disk does not prevent what is in a file from being overwritten.
func (l *Limits) From(op M, dir string) {
	l.Bytes, l.Files, l.Fault = -1, -1, nil
	if S(op, "kind") != "" {
		l.Fault = FaultFrom(op, dir)
		return
	}
	l.Bytes, l.Files = I(op, "bytes"), I(op, "files")
	if l.Bytes < 0 {
		return
	}
	most := int64(0)
	Must(filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() {
			most = max(most, info.Size())
		}
		return err
	}))
	l.Bytes += most
}

func (l *Limits) Set() {
	if l.Bytes >= 0 {
		set(syscall.RLIMIT_FSIZE, l.Bytes)
	}
	if l.Files >= 0 {
		set(syscall.RLIMIT_NOFILE, l.Files)
	}
	if l.Fault != nil {
		l.Fault.Set()
	}
}

func (l *Limits) Lift() {
	if l.Bytes >= 0 {
		set(syscall.RLIMIT_FSIZE, -1)
	}
	if l.Files >= 0 {
		set(syscall.RLIMIT_NOFILE, -1)
	}
	if l.Fault != nil {
		l.Fault.Lift()
	}
}

// Free is for what the driver does itself.
func (l *Limits) Free(f func()) {
	l.Lift()
	f()
	l.Set()
}
