// filedrv replays file histories on the real file objects of package memfile and records what they return.
package main

import (
	"os"
	"path/filepath"

	"github.com/KitchenMishap/pudding-shed/memfile"
	"verifharness/vh"
)

// Abstract block b (0..255) is K concrete bytes; block 0 is K zero bytes.
func expand(blocks []int64, k int64) []byte {
	out := make([]byte, 0, int64(len(blocks))*k)
	for _, b := range blocks {
		for j := int64(0); j < k; j++ {
			out = append(out, fill(b, j))
		}
	}
	return out
}
func fill(b, j int64) byte {
	if b == 0 {
		return 0
	}
	if j == 0 {
		return byte(b)
	}
	return byte(b*7 + j*31 + j/256)
}

// contract is the inverse; anything that is not a clean run of blocks maps to -1 entries.
func contract(data []byte, k int64) []int64 {
	res := []int64{}
	for p := int64(0); p < int64(len(data)); p += k {
		if p+k > int64(len(data)) {
			res = append(res, -1)
			break
		}
		b := int64(data[p])
		for j := int64(0); j < k; j++ {
			if data[p+j] != fill(b, j) {
				b = -1
				break
			}
		}
		res = append(res, b)
	}
	return res
}

type anyFile interface {
	ReadAt(p []byte, off int64) (int, error)
	WriteAt(p []byte, off int64) (int, error)
	Sync() error
	Close() error
}

func main() {
	vh.Run(func(sc vh.Scenario, dir string, t *vh.Trace) {
		k := vh.I(sc.Cfg, "k")
		name := filepath.Join(dir, "f.bin")
		var f anyFile
		open := func(kind string) error {
			switch kind {
			case "ao":
				h, err := os.OpenFile(name, os.O_RDWR, 0)
				vh.Must(err)
				f, err = memfile.NewAppendOptimizedFile(h)
				return err
			case "fws":
				h, err := os.OpenFile(name, os.O_RDWR, 0)
				vh.Must(err)
				f = memfile.NewFileWithSize(h)
				return nil
			case "fixed":
				var err error
				f, err = memfile.NewFixedSizeMemFile(name, 0o644)
				return err
			case "mmap":
				h, err := os.Open(name)
				vh.Must(err)
				f, err = memfile.NewMmapReadOnly(h)
				return err
			}
			vh.Fatal("kind %s", kind)
			return nil
		}
		disk := func() []int64 {
			b, err := os.ReadFile(name)
			vh.Must(err)
			return contract(b, k)
		}
		for _, op := range sc.Ops {
			e := vh.M{"op": vh.S(op, "op")}
			for kk, v := range op {
				e[kk] = v
			}
			switch vh.S(op, "op") {
			case "new":
				vh.Must(os.WriteFile(name, expand(vh.Ints(op, "init"), k), 0o644))
				if err := open(vh.S(op, "kind")); err != nil {
					e["op"] = "newfailed"
				}
			case "write":
				data := expand(vh.Ints(op, "data"), k)
				n, err := f.WriteAt(data, vh.I(op, "off")*k)
				e["n"], e["err"] = int64(n)/k, vh.Err(err)
				if int64(n)%k != 0 {
					e["n"] = -1
				}
				for j := range data { // the caller may reuse its slice
					data[j] = 0xEE
				}
			case "read":
				buf := make([]byte, vh.I(op, "n")*k)
				for j := range buf {
					buf[j] = 0xDD
				}
				n, err := readGuard(f, buf, vh.I(op, "off")*k)
				e["got"], e["err"] = int64(n)/k, vh.Err(err)
				if int64(n)%k != 0 {
					e["got"] = -1
				}
				e["data"] = contract(buf[:n], k)
			case "size":
				e["n"] = int64(-1)
				if s, ok := f.(interface{ Size() int64 }); ok {
					e["n"] = s.Size() / k
					if s.Size()%k != 0 {
						e["n"] = -1
					}
				} else {
					e["op"] = "nosize"
				}
			case "readall":
				if s, ok := f.(interface{ ReadAll() ([]byte, error) }); ok {
					b, err := s.ReadAll()
					e["data"], e["err"] = contract(b, k), vh.Err(err)
				} else {
					e["op"] = "noreadall"
				}
			case "sync":
				e["err"] = vh.Err(f.Sync())
				e["disk"] = disk()
			case "close":
				e["err"] = vh.Err(f.Close())
				e["disk"] = disk()
			case "reopen":
				e["err"] = vh.Err(open(vh.S(op, "kind")))
			}
			t.Add(e)
		}
	})
}

// An out-of-range slice in the memory-held copy is Go's way of refusing the read.
func readGuard(f anyFile, buf []byte, off int64) (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			n, err = 0, os.ErrInvalid
		}
	}()
	return f.ReadAt(buf, off)
}
