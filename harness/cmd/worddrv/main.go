// worddrv replays histories of word files and hash lists on package wordfile.
package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/vh"
)

type store struct {
	w       int64 // word width in bytes; 32 for a hash list
	toID    map[int64]int64
	hashID  map[[32]byte]int64
	dir     string
	gen     int
	kind    string
	ro      wordfile.ReadAtWordCounter
	rw      wordfile.ReadWriteAtWordCounter
	hash    *wordfile.HashFile
	isHash  bool
	lim     *vh.Limits
}

func (s *store) val(id int64) int64 {
	if id == 0 {
		return 0
	}
	// an odd multiplier keeps this injective modulo 2^(8w) and uses all bytes
	v := uint64(id) * 0x9E3779B97F4A7C15
	if s.w < 8 {
		v &= (uint64(1) << (8 * uint(s.w))) - 1
	}
	return int64(v)
}
func hashVal(id int64) (h [32]byte) {
	if id == 0 {
		return
	}
	for i := range h {
		h[i] = byte(id*int64(2*i+1) + int64(i))
	}
	h[0] = byte(id)
	return
}
func (s *store) id(v int64) int64 {
	if x, ok := s.toID[v]; ok {
		return x
	}
	return -1
}
func (s *store) path() string { return filepath.Join(s.dir, fmt.Sprint("g", s.gen)) }

func (s *store) creator(kind string) wordfile.WordFileCreator {
	switch kind {
	case "plain", "ro":
		return wordfile.NewConcreteWordFileCreator("W", s.path(), s.w, false, false)
	case "shadow", "roshadow":
		return wordfile.NewConcreteWordFileCreator("W", s.path(), s.w, true, false)
	case "mmap":
		return wordfile.NewConcreteWordFileCreator("W", s.path(), s.w, false, true)
	}
	vh.Fatal("kind %s", kind)
	return nil
}
func (s *store) hashName() string { return filepath.Join(s.path(), "H.hsh") }

func (s *store) open(kind string) (err error) {
	s.kind = kind
	s.ro, s.rw, s.hash = nil, nil, nil
	switch kind {
	case "hash":
		f, e := os.OpenFile(s.hashName(), os.O_RDWR, 0)
		if e != nil {
			return e
		}
		st, e := f.Stat()
		vh.Must(e)
		af, e := memfile.NewAppendOptimizedFile(f)
		if e != nil {
			return e
		}
		s.hash = wordfile.NewHashFile(af, st.Size()/32)
	case "plain", "shadow":
		s.rw, err = s.creator(kind).OpenWordFile()
		s.ro = s.rw
	default:
		s.ro, err = s.creator(kind).OpenWordFileReadOnly()
	}
	return err
}
func (s *store) read(off int64) (int64, error) {
	if s.isHash {
		h, err := s.hash.ReadHashAt(off)
		if err != nil {
			return -1, err
		}
		if x, ok := s.hashID[h]; ok {
			return x, nil
		}
		return -1, nil
	}
	v, err := s.ro.ReadWordAt(off)
	if err != nil {
		return -1, err
	}
	return s.id(v), nil
}
func (s *store) write(off, id int64) error {
	if s.isHash {
		return s.hash.WriteHashAt(hashVal(id), off)
	}
	return s.rw.WriteWordAt(s.val(id), off)
}
func (s *store) count() (int64, error) {
	if s.isHash {
		return s.hash.CountHashes(), nil
	}
	return s.ro.CountWords()
}
func (s *store) dump() []int64 {
	n, err := s.count()
	res := []int64{}
	if err != nil {
		return []int64{-9}
	}
	for i := int64(0); i < n; i++ {
		v, err := s.read(i)
		if err != nil {
			v = -2
		}
		res = append(res, v)
	}
	return res
}
func (s *store) close() error {
	if s.isHash {
		return s.hash.Close()
	}
	return s.ro.Close()
}
// snapshot copies the directory as it is on disk and reads it with an independent opener.
func (s *store) snapshot(kind string) ([]int64, error) {
	s.lim.Lift()
	defer s.lim.Set()
	c := *s
	c.dir = filepath.Join(s.dir, "snap")
	os.RemoveAll(c.dir)
	vh.CopyDir(s.path(), c.path())
	defer os.RemoveAll(c.dir)
	if err := c.open(kind); err != nil {
		return []int64{}, err
	}
	d := c.dump()
	return d, c.close()
}

func main() {
	vh.Run(func(sc vh.Scenario, dir string, t *vh.Trace) {
		s := &store{w: vh.I(sc.Cfg, "w"), dir: dir, lim: vh.NoLimits()}
		defer s.lim.Lift()
		s.isHash = s.w == 32
		s.toID, s.hashID = map[int64]int64{}, map[[32]byte]int64{}
		for id := int64(0); id <= 255; id++ {
			if s.isHash {
				s.hashID[hashVal(id)] = id
			} else {
				s.toID[s.val(id)] = id
			}
		}
		base := func(kind string) string {
			if s.isHash {
				return "hash"
			}
			return "plain"
		}
		for _, op := range sc.Ops {
			e := vh.M{}
			for k, v := range op {
				e[k] = v
			}
			switch vh.S(op, "op") {
			case "limit":
				s.lim.Lift()
				s.lim.From(op, s.path())
				s.lim.Set()
			case "new":
				s.gen++
				var err error
				if s.isHash {
					vh.Must(os.MkdirAll(s.path(), 0o755))
					vh.Must(os.WriteFile(s.hashName(), nil, 0o644))
				} else {
					c := s.creator(vh.S(op, "kind"))
					e["before"] = c.WordFileExists()
					if z := vh.I(op, "zeros"); z > 0 {
						err = c.CreateWordFileFilledZeros(z)
					} else {
						err = c.CreateWordFile()
					}
					e["after"] = c.WordFileExists()
				}
				if err == nil {
					err = s.open(vh.S(op, "kind"))
				}
				e["err"] = vh.Err(err)
			case "write":
				e["err"] = vh.Err(s.write(vh.I(op, "off"), vh.I(op, "v")))
			case "append":
				idx, err := s.hash.AppendHash(hashVal(vh.I(op, "v")))
				e["idx"], e["err"] = idx, vh.Err(err)
			case "run":
				e["err"] = ""
				for k := int64(1); k <= vh.I(op, "n"); k++ {
					if err := s.write(vh.I(op, "off")+k-1, (vh.I(op, "seed")+k)%200+1); err != nil {
						e["err"] = vh.Err(err)
						break
					}
				}
			case "read":
				v, err := s.read(vh.I(op, "off"))
				e["v"], e["err"] = v, vh.Err(err)
			case "dump":
				e["vals"] = s.dump()
			case "count":
				n, err := s.count()
				e["n"], e["err"] = n, vh.Err(err)
			case "whole":
				vals, err := s.rw.ReadWholeFileAsInt64s()
				ids := []int64{}
				for _, v := range vals {
					ids = append(ids, s.id(v))
				}
				e["vals"], e["err"] = ids, vh.Err(err)
			case "sync":
				var err error
				if s.isHash {
					err = s.hash.Sync()
				} else {
					err = s.rw.Sync()
				}
				var err2 error
				e["disk"], err2 = s.snapshot(base(s.kind))
				e["seen"] = err2 == nil
				if err == nil {
					err = err2
				}
				e["err"] = vh.Err(err)
			case "close":
				err := s.close()
				var err2 error
				e["disk"], err2 = s.snapshot(base(s.kind))
				e["seen"] = err2 == nil
				if err == nil {
					err = err2
				}
				e["err"] = vh.Err(err)
			case "reopen":
				err := s.open(vh.S(op, "kind"))
				e["err"] = vh.Err(err)
				if vh.B(sc.Cfg, "limits") && err == nil {
					s.lim.Free(func() { e["disk"] = s.dump() })
				}
			case "crash":
				old := s.path()
				s.gen++
				s.lim.Lift()
				*s.lim = vh.Limits{Bytes: -1, Files: -1}
				vh.CopyDir(old, s.path())
				err := s.open(vh.S(op, "kind"))
				if err == nil {
					e["disk"] = s.dump()
				} else {
					e["disk"] = []int64{}
				}
				e["err"] = vh.Err(err)
			}
			t.Add(e)
			if o := vh.S(op, "op"); vh.B(sc.Cfg, "limits") && (o == "reopen" || o == "crash") {
				if e["err"] != "" {
					break // nothing is open now
				}
				if s.isHash {
					st, err := os.Stat(s.hashName())
					vh.Must(err)
					if st.Size()%32 != 0 {
						e["torn"] = 1
						break // the next hash goes where there is a part of one
					}
				}
			}
		}
	})
}
