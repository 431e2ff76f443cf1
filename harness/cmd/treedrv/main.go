// treedrv drives the trees that tell hashes apart, the chunks of bytes they are stored in, and the small
// store of the newest hashes.
package main

import (
	"encoding/binary"
	"encoding/hex"
	"os"
	"path/filepath"
	"reflect"
	"syscall"
	"unsafe"

	"github.com/KitchenMishap/pudding-shed/weddingcake"
	back "github.com/KitchenMishap/pudding-shed/weddingcakeback"
	"verifharness/vh"
)

func main() {
	// The code under test may print on stdout; the protocol needs stdout for itself.
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

type world struct {
	t       *vh.Trace
	dir     string
	kind    string
	length  byte
	prefix  byte
	reass   byte
	hashes  [][]byte
	pis     []int64
	hi      int64 // all presentation indices are this many times 2^32 higher than the trace says
	shallow *weddingcake.ShallowTree
	single  *back.SingleTree
	chunks  []*weddingcake.Chunk
	read    []weddingcake.Chunk
	unmap   func() error
	zero    weddingcake.LegacyHashReadWriter
	zr      weddingcake.LegacyHashReader
	zc      weddingcake.LegacyHashStoreCreator
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
func unhex(ss []string) [][]byte {
	r := make([][]byte, len(ss))
	for i, s := range ss {
		b, err := hex.DecodeString(s)
		vh.Must(err)
		r[i] = b
	}
	return r
}
func fill(seed, id int64, n int) []byte {
	b := make([]byte, (n+7)/8*8)
	x := uint64(id)*0x9E3779B97F4A7C15 + uint64(seed)
	for i := 0; i < len(b); i += 8 {
		x += 0x9E3779B97F4A7C15
		z := x
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		binary.LittleEndian.PutUint64(b[i:], z^(z>>31))
	}
	return b[:n]
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	w := &world{t: t, dir: dir, hi: vh.I(sc.Cfg, "hi")}
	t.Add(vh.M{"op": "new"})
	for _, o := range sc.Ops {
		if !w.step(o) {
			return
		}
	}
}

func (w *world) up(p int64) int64 { return p + w.hi<<32 }
func (w *world) down(p int64) int64 {
	if p == -1 {
		return -1
	}
	return p - w.hi<<32
}

// nodes lists a tree's nodes, the root first, children after their parents.
func (w *world) nodes() []vh.M {
	out := []vh.M{}
	if w.kind == "shallow" {
		if w.shallow.RootSlot.IsEmpty() {
			return out
		}
		todo := []*weddingcake.ShallowTreeNode{w.shallow.RootSlot.NextNode}
		for k := 0; k < len(todo); k++ {
			n := todo[k]
			if n.LeafNode != nil {
				out = append(out, vh.M{"lv": n.Level, "b": -1, "re": ints(n.LeafNode.ReassuranceHashBytes), "pi": w.down(n.LeafNode.PresentationIndex), "sv": []int{}, "sc": []int{}})
				continue
			}
			sv, sc := []int{}, []int{}
			for v := 0; v < 256; v++ {
				if s := n.SlotsNode.Slots[v]; !s.IsEmpty() {
					todo = append(todo, s.NextNode)
					sv, sc = append(sv, v), append(sc, len(todo))
				}
			}
			out = append(out, vh.M{"lv": n.Level, "b": n.SlotsNode.HashByteIndex, "sv": sv, "sc": sc})
		}
		return out
	}
	if w.single.RootSlot.IsEmpty() {
		return out
	}
	todo := []*back.SingleTreeNode{w.single.RootSlot.NextNode}
	for k := 0; k < len(todo); k++ {
		n := todo[k]
		if n.LeafNode != nil {
			out = append(out, vh.M{"lv": n.Level, "b": -1, "re": ints(n.LeafNode.ReassuranceHashBytes), "pi": int64(n.LeafNode.PresentationIndex) - w.hi<<32, "h": ints(n.LeafNode.Hash), "sv": []int{}, "sc": []int{}})
			continue
		}
		sv, sc := []int{}, []int{}
		for v := 0; v < 256; v++ {
			if s := n.SlotsNode.Slots[v]; !s.IsEmpty() {
				todo = append(todo, s.NextNode)
				sv, sc = append(sv, v), append(sc, len(todo))
			}
		}
		out = append(out, vh.M{"lv": n.Level, "b": n.SlotsNode.HashByteIndex, "sv": sv, "sc": sc})
	}
	return out
}

func (w *world) build() {
	if w.kind == "shallow" {
		in := make([]weddingcake.ShallowTreeHash, len(w.hashes))
		for i := range in {
			in[i] = weddingcake.ShallowTreeHash{Hash: w.hashes[i], PresentationIndex: w.up(w.pis[i])}
		}
		w.shallow = weddingcake.GenerateShallowTree(in, w.length, w.reass)
		for i := range in { // the caller's list is the caller's
			if &in[i].Hash[0] != &w.hashes[i][0] || in[i].PresentationIndex != w.up(w.pis[i]) {
				w.t.Add(vh.M{"op": "changed-input"})
			}
		}
	} else {
		in := make([]back.SingleTreeHash, len(w.hashes))
		for i := range in {
			in[i] = back.SingleTreeHash{Hash: w.hashes[i], PresentationIndex: back.SingleTreePiType(w.up(w.pis[i]))}
		}
		w.single = back.GenerateSingleTree(in, w.prefix, w.length, w.reass)
		for i := range in {
			if &in[i].Hash[0] != &w.hashes[i][0] || int64(in[i].PresentationIndex) != w.up(w.pis[i]) {
				w.t.Add(vh.M{"op": "changed-input"})
			}
		}
	}
}

func (w *world) lookup(h []byte) int64 {
	if w.kind == "shallow" {
		return w.down(w.shallow.LookupHash(h))
	}
	p := int64(w.single.LookupHash(h))
	if p == 0 {
		return 0
	}
	return p - w.hi<<32
}

// chunkOf finds the serialised chunk inside its preparation, whatever the field is called.
func chunkOf(cp *weddingcake.ChunkPreparation) *weddingcake.Chunk {
	v := reflect.ValueOf(cp).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf(weddingcake.Chunk{}) {
			return (*weddingcake.Chunk)(unsafe.Pointer(f.UnsafeAddr()))
		}
		if f.Type() == reflect.TypeOf((*weddingcake.Chunk)(nil)) {
			return (*weddingcake.Chunk)(unsafe.Pointer(f.Pointer()))
		}
	}
	vh.Fatal("no chunk in the preparation")
	return nil
}

func chunksOf(r *weddingcake.ChunkFilesRead) []weddingcake.Chunk {
	v := reflect.ValueOf(r).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Type() == reflect.TypeOf([]weddingcake.Chunk{}) {
			return *(*[]weddingcake.Chunk)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	vh.Fatal("no chunks in the reader")
	return nil
}

func ids[T ~uint32](n int64) weddingcake.NByteIdConfig[T] {
	switch n {
	case 2:
		return weddingcake.ID16[T]{}
	case 3:
		return weddingcake.ID24[T]{}
	}
	return weddingcake.ID32[T]{}
}

func (w *world) prep(o vh.M) *weddingcake.Chunk {
	in := make([]weddingcake.ShallowTreeHash, len(w.hashes))
	for i := range in {
		in[i] = weddingcake.ShallowTreeHash{Hash: w.hashes[i], PresentationIndex: w.up(w.pis[i])}
	}
	cp := weddingcake.NewChunkPreparation(in, w.length, w.reass, byte(vh.I(o, "specs")),
		ids[weddingcake.NodeIdType](vh.I(o, "W")), ids[weddingcake.HashIndexIdType](vh.I(o, "H")))
	cp.PrepareAndSerialize()
	return chunkOf(cp)
}

// write appends chunks to chunk files in a fresh folder.
func (w *world) write(sub string, chunks []*weddingcake.Chunk) (string, error) {
	d := filepath.Join(w.dir, sub)
	vh.Must(os.MkdirAll(d, 0o755))
	f, err := os.Create(filepath.Join(d, "ChunksInfo.bin"))
	vh.Must(err)
	vh.Must(f.Close())
	cw := weddingcake.NewChunkFilesWrite(d)
	for _, c := range chunks {
		if err := cw.AppendChunk(c); err != nil {
			return d, err
		}
	}
	return d, nil
}

func (w *world) first(c *weddingcake.Chunk) int64 {
	if len(c.ChunkLevels) == 0 {
		return int64(c.FirstGlobalPresentationIndexOfChunk)
	}
	return int64(c.FirstGlobalPresentationIndexOfChunk) - w.hi<<32
}

func (w *world) step(o vh.M) bool {
	op := vh.S(o, "op")
	e := vh.M{"op": op, "err": ""}
	switch op {
	case "gen":
		w.kind, w.length, w.prefix, w.reass = vh.S(o, "kind"), byte(vh.I(o, "len")), byte(vh.I(o, "prefix")), byte(vh.I(o, "reass"))
		w.hashes, w.pis = unhex(vh.Strs(o, "hashes")), vh.Ints(o, "pis")
		hs := make([][]int, len(w.hashes))
		for i, h := range w.hashes {
			hs[i] = ints(h)
		}
		w.t.Add(vh.M{"op": "gen", "err": "", "kind": w.kind, "len": w.length, "prefix": w.prefix, "reass": w.reass, "hashes": hs, "pis": w.pis})
		if vh.B(o, "only") {
			return true
		}
		w.build()
		for i, h := range w.hashes { // the caller's list is the caller's
			if hex.EncodeToString(h) != vh.Strs(o, "hashes")[i] {
				w.t.Add(vh.M{"op": "changed-input"})
			}
		}
		w.t.Add(vh.M{"op": "tree", "nodes": w.nodes()})
		c := vh.M{"op": "counts"}
		if w.kind == "single" {
			c["nodes"], c["hashes"], c["leaves"] = w.single.CountNodes(), w.single.HashCount, w.single.CountLeaves()
			pis := []int64{}
			w.single.VisitAllLeaves(func(n *back.SingleTreeLeafNode) { pis = append(pis, int64(n.PresentationIndex)-w.hi<<32) })
			c["pis"] = pis
		} else {
			c["nodes"], c["hashes"] = w.shallow.CountNodes(), w.shallow.HashCount
		}
		w.t.Add(c)
		s := vh.M{"op": "shape"}
		hist := [][3]int64{}
		if w.kind == "single" {
			tm := &back.TierMetrics{}
			tm.RecurseAccumulateSubtreeMetrics(w.single.RootSlot.NextNode)
			for l := range tm.Levels {
				for k, n := range tm.Levels[l].ActiveSlotHistogram {
					if n > 0 {
						hist = append(hist, [3]int64{int64(l), int64(k), int64(n)})
					}
				}
			}
		} else {
			sh := w.shallow.CountLevelShapes()
			for l := range sh.LevelShapes {
				for k, n := range sh.LevelShapes[l].ActiveSlotCountHistogram {
					if n > 0 {
						hist = append(hist, [3]int64{int64(l), int64(k), int64(n)})
					}
				}
			}
			s["levels"], s["most"] = sh.NonEmptyLevels, sh.GreatestNodesPerLevel
		}
		s["hist"] = hist
		w.t.Add(s)
		return true
	case "find":
		hs, as := [][]int{}, []int64{}
		for _, h := range unhex(vh.Strs(o, "hs")) {
			hs, as = append(hs, ints(h)), append(as, w.lookup(h))
		}
		e["hs"], e["as"] = hs, as
	case "chunk":
		c := w.prep(o)
		w.chunks = append(w.chunks, c)
		lv := []vh.M{}
		for _, l := range c.ChunkLevels {
			lv = append(lv, vh.M{"ix": ints(l.IndexBytes), "nb": ints(l.NodeBytes)})
		}
		e["W"], e["H"], e["levels"], e["first"], e["hi"] = vh.I(o, "W"), vh.I(o, "H"), lv, w.first(c), w.hi
		if len(c.ChunkLevels) == 0 {
			e["hi"] = 0
		}
	case "cfind":
		k := vh.I(o, "c")
		c := w.chunks[k-1]
		if vh.B(o, "file") {
			c = &w.read[k-1]
		}
		hs, as := [][]int{}, []int64{}
		for _, h := range unhex(vh.Strs(o, "hs")) {
			hs, as = append(hs, ints(h)), append(as, w.down(int64(c.LookupHash(h))))
		}
		e["c"], e["hs"], e["as"], e["file"] = k, hs, as, vh.B(o, "file")
	case "files":
		d, err := w.write("chunks", w.chunks)
		e["err"] = vh.Err(err)
		info, err := os.ReadFile(filepath.Join(d, "ChunksInfo.bin"))
		vh.Must(err)
		lv := [][]int{}
		for l := 0; l <= 0x40; l++ {
			b, err := os.ReadFile(filepath.Join(d, "Level"+hexByte(l)+".bin"))
			if err != nil {
				break
			}
			lv = append(lv, ints(b))
		}
		e["info"], e["levels"] = ints(info), lv
	case "read":
		if w.unmap != nil {
			vh.Must(w.unmap())
		}
		r := weddingcake.NewChunkFilesRead(filepath.Join(w.dir, "chunks"))
		e["err"] = vh.Err(r.ReadAndMmap(w.chunks[0].Config))
		w.unmap, w.read = r.UnMmapLevelFiles, chunksOf(r)
		fs, ls := []int64{}, []int{}
		for k := range w.read {
			fs, ls = append(fs, w.first(&w.read[k])), append(ls, len(w.read[k].ChunkLevels))
		}
		e["firsts"], e["ls"] = fs, ls
	case "big":
		// A long list: every hash's answer, run-length compressed
		n, seed, first := vh.I(o, "n"), vh.I(o, "seed"), vh.I(o, "first")
		w.kind, w.length, w.prefix, w.reass = vh.S(o, "kind"), byte(vh.I(o, "len")), byte(vh.I(o, "prefix")), byte(vh.I(o, "reass"))
		w.hashes, w.pis = nil, nil
		for i := int64(0); i < n; i++ {
			h := fill(seed, i, int(w.length))
			if vh.S(o, "shape") == "widths" { // one node of every width from 2, as far as the hashes reach
				v, x := int64(0), i
				for x >= v+2 {
					x -= v + 2
					v++
				}
				h = fill(seed, 0, int(w.length))
				h[len(h)/2], h[len(h)-1] = byte(v), byte(x)
			}
			if w.length <= 4 && vh.S(o, "shape") == "" { // short hashes: distinct by construction
				b := make([]byte, 8)
				binary.LittleEndian.PutUint64(b, uint64(i)*vh_odd)
				copy(h, b)
			}
			for j := 0; j < int(w.prefix); j++ {
				h[j] = byte(seed)
			}
			w.hashes, w.pis = append(w.hashes, h), append(w.pis, first+i)
		}
		ask := w.lookup
		leaves := -1
		switch vh.S(o, "via") {
		case "tree":
			w.build()
			if w.kind == "single" {
				leaves = w.single.CountLeaves()
			}
		case "chunk":
			c := w.prep(o)
			ask = func(h []byte) int64 { return w.down(int64(c.LookupHash(h))) }
		case "file":
			c := w.prep(o)
			d, err := w.write("big", []*weddingcake.Chunk{c, c})
			if err == nil {
				r := weddingcake.NewChunkFilesRead(d)
				err = r.ReadAndMmap(c.Config)
				cs := chunksOf(r)
				ask = func(h []byte) int64 {
					a, b := int64(cs[0].LookupHash(h)), int64(cs[1].LookupHash(h))
					if a != b {
						return -5
					}
					return w.down(a)
				}
				if len(cs) != 2 {
					e["err"] = "ERR"
				}
			}
			if err != nil {
				e["err"] = vh.Err(err)
			}
		}
		runs := [][]int64{}
		for i, h := range w.hashes {
			a := ask(h)
			if k := len(runs) - 1; k >= 0 && a == runs[k][2]+runs[k][1] {
				runs[k][1]++
			} else {
				runs = append(runs, []int64{int64(i), 1, a})
			}
			if len(runs) > 50 {
				break
			}
		}
		e["runs"], e["first"], e["n"], e["leaves"], e["kind"], e["len"], e["via"] = runs, first, n, leaves, w.kind, w.length, vh.S(o, "via")
	case "znew":
		w.zc = weddingcake.NewTierZeroCreator(filepath.Join(w.dir, "zero"))
		e["was"] = w.zc.HashStoreExists()
		err := w.zc.CreateHashStore()
		if err == nil {
			w.zero, err = w.zc.OpenHashStore()
			w.zr = w.zero
		}
		e["err"], e["is"] = vh.Err(err), w.zc.HashStoreExists()
	case "zapp":
		var h weddingcake.Sha256
		copy(h[:], fill(7, vh.I(o, "x"), 32))
		i, err := w.zero.AppendHash(&h)
		e["x"], e["i"], e["err"] = vh.I(o, "x"), i, vh.Err(err)
	case "zfind":
		var h weddingcake.Sha256
		copy(h[:], fill(7, vh.I(o, "x"), 32))
		i, err := w.zr.IndexOfHash(&h)
		e["x"], e["i"], e["err"] = vh.I(o, "x"), i, vh.Err(err)
	case "zget":
		var h weddingcake.Sha256
		e["i"], e["x"] = vh.I(o, "i"), -1
		e["ok"] = w.zr.GetHashAtIndex(vh.I(o, "i"), &h) == nil
		if e["ok"] == true {
			for x := int64(1); x <= 64; x++ {
				if string(fill(7, x, 32)) == string(h[:]) {
					e["x"] = x
				}
			}
		}
	case "zcount":
		n, err := w.zr.CountHashes()
		e["n"], e["err"] = n, vh.Err(err)
	case "zsync":
		e["err"] = vh.Err(w.zero.Sync())
	case "zreopen":
		err := w.zr.Close()
		w.zero, w.zr = nil, nil
		if err == nil {
			if vh.B(o, "ro") {
				w.zr, err = w.zc.OpenHashStoreReadOnly()
			} else {
				w.zero, err = w.zc.OpenHashStore()
				w.zr = w.zero
			}
		}
		e["err"], e["ro"] = vh.Err(err), vh.B(o, "ro")
	default:
		vh.Fatal("unknown op %s", op)
	}
	w.t.Add(e)
	return e["err"] == ""
}

const vh_odd = 2654435761

func hexByte(n int) string {
	const d = "0123456789ABCDEF"
	return string([]byte{d[n>>4], d[n&15]})
}
