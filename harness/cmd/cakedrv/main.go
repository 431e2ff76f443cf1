// cakedrv drives the layered ("wedding cake") hash store: appends that fill and bake its tiers, lookups, re-opens.
package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"syscall"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/weddingcakeback"
	"github.com/KitchenMishap/pudding-shed/weddingcakefront"
	"verifharness/vh"
)

const fillBase = 1000000

func main() {
	// The code under test prints on stdout; the protocol needs stdout for itself.
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

type sha = weddingcakefront.Sha256

type world struct {
	cfg        vh.M
	t          *vh.Trace
	named      []sha
	ids        map[sha]int64
	cr         *weddingcakefront.CakeCreator
	rw         weddingcakefront.HashReadWriter[*sha]
	r          weddingcakefront.HashReader[*sha]
	dir, saved string
	lim        *vh.Limits // what fails now, if anything
	skip       bool       // what a failure left is anybody's guess: on with the saved one
}

// fill is the id'th pseudo-random hash.
func (w *world) fill(id int64) sha {
	var h sha
	x := uint64(id)*0x9E3779B97F4A7C15 + uint64(vh.I(w.cfg, "seed"))
	for i := 0; i < 4; i++ {
		x += 0x9E3779B97F4A7C15
		z := x
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		binary.LittleEndian.PutUint64(h[8*i:], z^(z>>31))
	}
	// Leading bytes may be confined, so that buckets selected by them can be left to the named hashes
	for i, m := range vh.Ints(w.cfg, "lead") {
		h[i] = byte(int64(h[i]) % m)
	}
	return h
}

func (w *world) hash(id int64) sha {
	if id >= fillBase {
		return w.fill(id)
	}
	return w.named[id-1]
}

func (w *world) id(h sha) int64 {
	if x, ok := w.ids[h]; ok {
		return x
	}
	return -1
}

// config finds the creator's cake configuration (by type, whatever the fields are called), so that
// lower tiers can be reached with few appends.
func config(v reflect.Value, depth int) *weddingcakeback.CakeConfig {
	want := reflect.TypeOf((*weddingcakeback.CakeConfig)(nil))
	for v.Kind() == reflect.Pointer {
		if v.Type() == want {
			return (*weddingcakeback.CakeConfig)(unsafe.Pointer(v.Pointer()))
		}
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct || depth > 3 {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Pointer || f.Kind() == reflect.Struct {
			if c := config(f, depth+1); c != nil {
				return c
			}
		}
	}
	return nil
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	w := &world{cfg: sc.Cfg, t: t, ids: map[sha]int64{}, dir: filepath.Join(dir, "c"), saved: filepath.Join(dir, "s")}
	vh.Must(os.Mkdir(w.dir, 0o755))
	for i, s := range vh.Strs(sc.Cfg, "named") {
		b, err := hex.DecodeString(s)
		vh.Must(err)
		var h sha
		copy(h[:], b)
		w.named = append(w.named, h)
		w.ids[h] = int64(i + 1)
	}
	// Named hashes that differ from a fill hash in given bytes: [fill id, byte, byte, ...]
	for _, a := range list(sc.Cfg, "near") {
		h := w.fill(a[0])
		for _, b := range a[1:] {
			h[b] ^= 0x5A
		}
		w.named = append(w.named, h)
		w.ids[h] = int64(len(w.named))
	}
	w.cr = weddingcakefront.NewCakeCreator(w.dir, byte(vh.I(sc.Cfg, "reass")))
	if mf := vh.Ints(sc.Cfg, "maxf"); len(mf) > 0 {
		c := config(reflect.ValueOf(w.cr), 0)
		if c == nil {
			return // the configuration is not reachable from outside: nothing to say about this scenario
		}
		for i, m := range mf {
			c.TierBelowConfigs[i].MaxDonutForests = byte(m)
		}
	}
	defer func() {
		defer func() { recover() }()
		w.lift()
		if w.r != nil {
			w.r.Close()
		}
	}()
	for _, o := range sc.Ops {
		if !w.step(o) {
			return
		}
	}
}

func (w *world) lift() {
	if w.lim != nil {
		w.lim.Lift()
		w.lim = nil
	}
}

// loud runs f; while operations fail, to panic is to fail too.
func (w *world) loud(f func(), err *error) {
	if w.lim != nil {
		defer func() {
			if x := recover(); x != nil {
				*err = fmt.Errorf("panic: %v", x)
			}
		}()
	}
	f()
}

func list(m vh.M, k string) [][]int64 {
	a, _ := m[k].([]any)
	r := [][]int64{}
	for _, x := range a {
		y := []int64{}
		for _, z := range x.([]any) {
			y = append(y, int64(z.(float64)))
		}
		r = append(r, y)
	}
	return r
}

// runs compresses the answers to a sweep of questions start, start+stride, ...: [start, n, stride, value, step]
// says that n questions in a row were answered value, value+step*stride, value+2*step*stride, ...
type runs struct{ out [][]int64 }

func (r *runs) add(q, stride, v int64) {
	if k := len(r.out) - 1; k >= 0 {
		l := r.out[k]
		if l[2] == stride && q == l[0]+l[1]*stride {
			if l[1] == 1 && v == l[3] {
				l[1], l[4] = 2, 0
				return
			}
			if l[1] == 1 && v == l[3]+stride {
				l[1], l[4] = 2, 1
				return
			}
			if l[1] > 1 && v == l[3]+l[4]*l[1]*stride {
				l[1]++
				return
			}
		}
	}
	r.out = append(r.out, []int64{q, 1, stride, v, 0})
}

func (w *world) step(o vh.M) bool {
	op := vh.S(o, "op")
	e := vh.M{"op": op, "err": ""}
	if w.skip && op != "again" {
		return true
	}
	switch op {
	case "limit":
		w.lift()
		w.lim = &vh.Limits{}
		w.lim.From(o, w.dir)
		w.lim.Set()
	case "lift":
		w.lift()
	case "save":
		vh.Must(w.r.Close())
		w.r, w.rw = nil, nil
		vh.Must(os.CopyFS(w.saved, os.DirFS(w.dir)))
		w.rw, _ = w.cr.OpenHashStore()
		w.r = w.rw
	case "again":
		w.lift()
		w.skip = false
		if w.r != nil {
			func() {
				defer func() { recover() }()
				w.r.Close()
			}()
		}
		w.r, w.rw = nil, nil
		vh.Must(os.RemoveAll(w.dir))
		vh.Must(os.CopyFS(w.dir, os.DirFS(w.saved)))
		var err error
		w.rw, err = w.cr.OpenHashStore()
		w.r = w.rw
		e["err"] = vh.Err(err)
	case "new":
		e["empty"] = !w.cr.HashStoreExists()
		err := w.cr.CreateHashStore()
		if err == nil {
			w.rw, err = w.cr.OpenHashStore()
			w.r = w.rw
		}
		e["err"], e["exists"] = vh.Err(err), w.cr.HashStoreExists()
	case "fill", "app":
		// Every append's answer, run-length compressed: question = id, answer = index
		rs := &runs{out: [][]int64{}}
		ids := vh.Ints(o, "ids")
		if op == "fill" {
			for k := int64(0); k < vh.I(o, "n"); k++ {
				ids = append(ids, vh.I(o, "id")+k)
			}
		}
		buf := sha{}
		e["failed"] = false
		for _, id := range ids {
			buf = w.hash(id) // the caller's buffer is reused from one append to the next
			if _, ok := w.ids[buf]; !ok {
				w.ids[buf] = id
			}
			x, err := int64(0), error(nil)
			w.loud(func() { x, err = w.rw.AppendHash(&buf) }, &err)
			if err != nil && w.lim != nil {
				w.skip, e["failed"] = true, true
				break
			}
			if err != nil {
				x = -9
			}
			rs.add(id, 1, x)
		}
		e["runs"] = rs.out
	case "q":
		fs, gs := &runs{out: [][]int64{}}, &runs{out: [][]int64{}}
		for _, a := range list(o, "finds") {
			for k := int64(0); k < a[1]; k++ {
				id := a[0] + k*a[2]
				h := w.hash(id)
				x, err := w.r.IndexOfHash(&h)
				if err != nil {
					x = -9
				}
				fs.add(id, a[2], x)
			}
		}
		for _, a := range list(o, "gets") {
			for k := int64(0); k < a[1]; k++ {
				var h sha
				i := a[0] + k*a[2]
				v := int64(-8)
				if w.r.GetHashAtIndex(i, &h) == nil {
					v = w.id(h)
				}
				gs.add(i, a[2], v)
			}
		}
		e["fs"], e["gs"] = fs.out, gs.out
	case "sync":
		e["err"] = vh.Err(w.rw.Sync())
	case "reopen":
		err := w.r.Close()
		w.r, w.rw = nil, nil
		if err == nil {
			w.loud(func() {
				if vh.B(o, "ro") {
					w.r, err = w.cr.OpenHashStoreReadOnly()
				} else {
					w.rw, err = w.cr.OpenHashStore()
					w.r = w.rw
				}
			}, &err)
		}
		e["err"] = vh.Err(err)
		if err != nil && w.lim != nil {
			w.t.Add(e)
			w.skip = true
			return true
		}
	default:
		vh.Fatal("unknown op %s", op)
	}
	w.t.Add(e)
	return e["err"] == ""
}
