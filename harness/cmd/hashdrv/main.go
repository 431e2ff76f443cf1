// hashdrv drives the hash stores: the classic store and its variants, the pre-built bin index, and the uniform store.
package main

import (
	"encoding/hex"
	"io"
	"log"
	"os"
	"path/filepath"
	"syscall"

	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/wordfile"
	"verifharness/vh"
)

func main() {
	// The code under test prints progress on stdout; the protocol needs stdout for itself.
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	log.SetOutput(io.Discard) // so does it on stderr
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

type world struct {
	sc      vh.Scenario
	dir     string
	t       *vh.Trace
	uni     []indexedhashes.Sha256
	ids     map[indexedhashes.Sha256]int64
	kind    string
	rw      indexedhashes.HashReadWriter
	r       indexedhashes.HashReader
	bins    *indexedhashes3.BinsArray
	lim     *vh.Limits
	limited bool
	wrote   bool // appended to since it was opened
}

func (w *world) h(id int64) *indexedhashes.Sha256 { x := w.uni[id-1]; return &x }
func (w *world) id(h indexedhashes.Sha256) int64 {
	if x, ok := w.ids[h]; ok {
		return x
	}
	if h == (indexedhashes.Sha256{}) {
		return 0
	}
	return -1
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	w := &world{sc: sc, dir: dir, t: t, ids: map[indexedhashes.Sha256]int64{}, kind: vh.S(sc.Cfg, "kind")}
	for i, s := range vh.Strs(sc.Cfg, "hashes") {
		var h indexedhashes.Sha256
		b, err := hex.DecodeString(s)
		vh.Must(err)
		copy(h[:], b)
		w.uni = append(w.uni, h)
		w.ids[h] = int64(i + 1)
	}
	w.lim = &vh.Limits{Bytes: -1, Files: -1}
	defer func() {
		w.lim.Lift()
		if w.r != nil {
			w.r.Close()
		}
	}()
	for _, o := range sc.Ops {
		if !w.step(o) {
			return
		}
	}
}

func (w *world) classic() *indexedhashes.ConcreteHashStoreCreator {
	c := w.sc.Cfg
	cr, err := indexedhashes.NewConcreteHashStoreCreator("s", w.dir, vh.I(c, "bits"), vh.I(c, "entry"), vh.I(c, "cpc"), vh.B(c, "memlkp"), vh.B(c, "ao"))
	if err != nil {
		return nil
	}
	return cr
}

func (w *world) creator() indexedhashes.HashStoreCreator {
	switch w.kind {
	case "classic":
		if cr := w.classic(); cr != nil {
			return cr
		}
		return nil
	case "memory":
		cr, err := indexedhashes.NewConcreteHashStoreCreatorMemory("s", w.dir)
		if err != nil {
			return nil
		}
		return cr
	case "bins":
		cr, err := indexedhashes3.NewHashStoreCreatorFromFile(w.dir, "Hashes", vh.B(w.sc.Cfg, "ram"))
		if err != nil {
			return nil
		}
		return cr
	case "uniform":
		cr, _, err := indexedhashes.NewUniformHashStoreCreatorAndPreloaderFromFile(w.dir, "Hashes", 1)
		if err != nil {
			return nil
		}
		return cr
	}
	return nil
}

func (w *world) open(ro bool) (indexedhashes.HashReader, error) {
	if w.kind == "basic" {
		f, err := os.OpenFile(filepath.Join(w.dir, "b.hsh"), os.O_RDWR|os.O_CREATE, 0o644)
		if err != nil {
			return nil, err
		}
		st, _ := f.Stat()
		return indexedhashes.NewBasicHashStore(wordfile.NewHashFile(f, st.Size()/32)), nil
	}
	cr := w.creator()
	if cr == nil {
		return nil, os.ErrInvalid
	}
	if ro {
		return cr.OpenHashStoreReadOnly()
	}
	return cr.OpenHashStore()
}

func (w *world) query(r indexedhashes.HashReader, o vh.M, e vh.M) {
	idx, gh := []int64{}, []int64{}
	for _, id := range vh.Ints(o, "finds") {
		x, err := r.IndexOfHash(w.h(id))
		if err != nil {
			x = -9
		}
		idx = append(idx, x)
	}
	for _, i := range vh.Ints(o, "gets") {
		var h indexedhashes.Sha256
		err := r.GetHashAtIndex(i, &h)
		if err != nil {
			gh = append(gh, -8)
		} else {
			gh = append(gh, w.id(h))
		}
	}
	n, err := r.CountHashes()
	if err != nil {
		n = -9
	}
	e["finds"], e["gets"], e["idx"], e["gh"], e["n"] = vh.Ints(o, "finds"), vh.Ints(o, "gets"), idx, gh, n
}

func (w *world) params() *indexedhashes3.HashIndexingParams {
	c := w.sc.Cfg
	return indexedhashes3.NewHashStoreParams(vh.I(c, "bits"), vh.I(c, "est"), int(vh.I(c, "digits")), vh.I(c, "bins"), vh.I(c, "entries"), vh.I(c, "sort"))
}

func (w *world) build(o vh.M) error {
	c := w.sc.Cfg
	list := vh.Ints(o, "ids")
	hdir := filepath.Join(w.dir, "Hashes")
	w.lim.Free(func() { vh.Must(os.MkdirAll(hdir, 0o755)) })
	buf := make([]byte, 0, 32*len(list))
	for _, id := range list {
		buf = append(buf, w.h(id)[:]...)
	}
	if w.kind == "uniform" {
		cr := indexedhashes.NewUniformHashStoreCreatorPrivate(vh.I(c, "est"), w.dir, "Hashes", int(vh.I(c, "digits")))
		if over := vh.I(o, "over"); over == 0 { // otherwise over what an earlier indexing left
			if err := cr.CreateHashStore(); err != nil {
				return err
			}
		}
		w.lim.Free(func() { vh.Must(os.WriteFile(filepath.Join(hdir, "Hashes.hsh"), buf, 0o644)) })
		fcr, pl, err := indexedhashes.NewUniformHashStoreCreatorAndPreloaderFromFile(w.dir, "Hashes", 1)
		if err != nil {
			return err
		}
		if b := vh.I(o, "pass"); b > 0 {
			pl = indexedhashes.NewMultipassPreloader(fcr, b)
		}
		if vh.I(o, "over") == 2 {
			if err := pl.CreateInitialFiles(); err != nil {
				return err
			}
		}
		return pl.IndexTheHashes()
	}
	w.lim.Free(func() { vh.Must(os.WriteFile(filepath.Join(hdir, "Hashes.hsh"), buf, 0o644)) })
	p := w.params()
	threads := int(vh.I(o, "threads"))
	if vh.S(o, "method") == "adaptive" {
		_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(w.dir, "Hashes", p, int(vh.I(o, "gb")))
		if err != nil {
			return err
		}
		return pl.IndexTheHashes(threads)
	}
	if w.bins == nil {
		w.bins = indexedhashes3.NewBinsArray(vh.I(o, "prebins"), p.BytesPerBinEntry(), vh.I(o, "prebins"))
	}
	_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloader(w.dir, "Hashes", p, int(vh.I(o, "gb")), w.bins)
	if err != nil {
		return err
	}
	return pl.IndexTheHashes(threads)
}

func (w *world) lift() {
	w.lim.Lift()
	w.lim, w.limited = &vh.Limits{Bytes: -1, Files: -1}, false
}

func (w *world) reopen(o vh.M) error {
	var err error
	if w.r != nil {
		err = w.r.Close()
		w.r = nil
	}
	if err == nil {
		w.r, err = w.open(vh.B(o, "ro"))
	}
	w.t.Add(vh.M{"op": "reopen", "err": vh.Err(err)})
	w.wrote = false
	if err != nil {
		w.r = nil
		return err
	}
	w.rw, _ = w.r.(indexedhashes.HashReadWriter)
	return nil
}

func (w *world) step(o vh.M) bool {
	op := vh.S(o, "op")
	switch op {
	case "limit":
		w.lim.Lift()
		w.lim.From(o, w.dir)
		w.limited = true
		w.lim.Set()
		w.t.Add(vh.M{"op": "limit", "err": ""})
	case "lift":
		w.lift()
		w.t.Add(vh.M{"op": "lift", "err": ""})
	case "new":
		e := vh.M{"op": "new", "kind": w.kind, "cap": vh.I(w.sc.Cfg, "cap")}
		var err error
		switch w.kind {
		case "basic":
		case "bins": // an empty index to be appended to
			w.lim.Free(func() { vh.Must(os.MkdirAll(filepath.Join(w.dir, "Hashes"), 0o755)) })
			var cr indexedhashes.HashStoreCreator
			cr, _, err = indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(w.dir, "Hashes", w.params(), 1)
			if err == nil {
				err = cr.CreateHashStore()
			}
		default:
			cr := w.creator()
			if cr == nil {
				err = os.ErrInvalid
			} else {
				err = cr.CreateHashStore()
			}
		}
		if err == nil {
			w.r, err = w.open(false)
		}
		e["err"] = vh.Err(err)
		w.t.Add(e)
		w.lift()
		if err != nil {
			w.r = nil
			return false
		}
		w.rw, _ = w.r.(indexedhashes.HashReadWriter)
	case "build":
		if w.r != nil {
			w.r.Close()
			w.r = nil
		}
		err := w.build(o)
		w.lift()
		msg := ""
		if err != nil {
			msg = err.Error()
		}
		w.t.Add(vh.M{"op": "build", "kind": w.kind, "ids": vh.Ints(o, "ids"), "err": vh.Err(err), "msg": msg})
		if err != nil {
			return false
		}
		fallthrough
	case "reopen":
		wrote := w.wrote
		err := w.reopen(o)
		if err != nil && w.limited && wrote { // appended while writes fail: they may be lost, as was reported
			return false
		}
		if err != nil && w.limited { // once more, without the faults
			w.lift()
			w.t.Add(vh.M{"op": "lift", "err": ""})
			err = w.reopen(o)
		}
		if err != nil {
			return false
		}
	case "append":
		h := w.h(vh.I(o, "h"))
		cp := *h
		i, err := w.rw.AppendHash(&cp)
		w.wrote = true
		cp[0] ^= 0x55 // the caller's buffer is the caller's to reuse
		w.t.Add(vh.M{"op": "append", "h": vh.I(o, "h"), "i": i, "err": vh.Err(err)})
		if err != nil && w.limited { // what it left is anybody's guess
			return false
		}
	case "q":
		e := vh.M{"op": "q", "err": ""}
		w.query(w.r, o, e)
		w.t.Add(e)
	case "sync":
		err := w.rw.Sync()
		if err != nil && w.limited {
			w.t.Add(vh.M{"op": "sync", "err": vh.Err(err)})
			return false
		}
		e := vh.M{"op": "q", "err": vh.Err(err)}
		if vh.B(o, "ro") && w.kind != "basic" && err == nil && !vh.B(w.sc.Cfg, "memlkp") { // what another process sees
			r, err := w.open(true)
			if err != nil {
				e["err"] = vh.Err(err)
				e["finds"], e["gets"], e["idx"], e["gh"], e["n"] = []int64{}, []int64{}, []int64{}, []int64{}, -9
			} else {
				w.query(r, o, e)
				r.Close()
			}
		} else {
			w.query(w.r, o, e)
		}
		w.t.Add(e)
	default:
		vh.Fatal("op %s", op)
	}
	return true
}
