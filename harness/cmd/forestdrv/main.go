// forestdrv bakes small tiers of hashes into forests of trees, by the real baking code, and reports what is on disk
// afterwards and what the tiers answer. What is baked comes from a stand-in for the tier above.
package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	back "github.com/KitchenMishap/pudding-shed/weddingcakeback"
	"verifharness/vh"
)

func main() {
	// The code under test prints on stdout; the protocol needs stdout for itself.
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

const tiers = back.MaxTiersBelowCount

// source is the tier above: a list of hashes presented from index first on.
type source struct {
	cfg    *back.CakeConfig
	dest   byte
	first  back.GlobalPiType
	hashes [][]byte
	next   back.TierReadable
}

func (s *source) GetIndicesCount() uint64 {
	if s.dest == 0 {
		return 1
	}
	return 1 << (8 * uint(s.cfg.TierBelowConfigs[s.dest-1].PrefixBytesCount))
}
func (s *source) GetHashesAtIndex(index uint64, offset back.GlobalPiType) []back.SingleTreeHash {
	n := 0
	if s.dest > 0 {
		n = int(s.cfg.TierBelowConfigs[s.dest-1].PrefixBytesCount)
	}
	res := []back.SingleTreeHash{}
	seen := map[string]bool{}
	for i, h := range s.hashes {
		x := uint64(0)
		for _, b := range h[:n] {
			x = x<<8 + uint64(b)
		}
		if x == index && !seen[string(h)] {
			seen[string(h)] = true
			res = append(res, back.SingleTreeHash{Hash: append([]byte{}, h...), PresentationIndex: back.SingleTreePiType(int64(s.first) + int64(i) + 1)})
		}
	}
	return res
}
func (s *source) GetNextTierPrefixBytesCount() byte {
	return s.cfg.TierBelowConfigs[s.dest].PrefixBytesCount
}
func (s *source) GetNextTierIndex() byte { return s.dest }
func (s *source) AppendHashesFile(f *os.File) error {
	for _, h := range s.hashes {
		if _, err := f.Write(h); err != nil {
			return err
		}
	}
	return f.Close()
}
func (s *source) GetFirstPresentationIndex() back.GlobalPiType { return s.first }
func (s *source) MakeEmptyAfterBaking() error {
	// as the top tier does
	if s.next != nil {
		if err := s.next.CloseThis(); err != nil {
			return err
		}
		s.next = nil
	}
	s.hashes = nil
	return nil
}
func (s *source) SetNextTier(t back.TierReadable) { s.next = t }
func (s *source) TryIndexOfHash(hash []byte) (back.GlobalPiType, bool, error) {
	return back.GlobalPiNoMatch, false, nil
}
func (s *source) TryGetHashAtIndex(index back.GlobalPiType, hash []byte) (bool, error) {
	return false, nil
}
func (s *source) GetNextTier() back.TierReadable { return s.next }
func (s *source) CloseThis() error               { return nil }
func (s *source) CloseAll() error {
	if s.next != nil {
		return s.next.CloseAll()
	}
	return nil
}

type limit interface {
	Set()
	Lift()
}

type world struct {
	t     *vh.Trace
	dir   string
	cfg   *back.CakeConfig
	src   *source
	base  int64 // the first index of all, which the trace does not show
	total int64
	lim   limit // on the next operation only
}

func nodeIds(n int64) back.NByteIdConfig[back.NodeIdType] {
	switch n {
	case 2:
		return back.ID16[back.NodeIdType]{}
	case 3:
		return back.ID24[back.NodeIdType]{}
	case 4:
		return back.ID32[back.NodeIdType]{}
	}
	return back.ID40[back.NodeIdType]{}
}
func indexIds(n int64) back.NByteIdConfig[back.HashIndexIdType] {
	switch n {
	case 2:
		return back.ID16[back.HashIndexIdType]{}
	case 3:
		return back.ID24[back.HashIndexIdType]{}
	case 4:
		return back.ID32[back.HashIndexIdType]{}
	}
	return back.ID40[back.HashIndexIdType]{}
}

func ints(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}
func unhex(ss []string) [][]byte {
	r := make([][]byte, len(ss))
	for i, s := range ss {
		b, err := hex.DecodeString(s)
		vh.Must(err)
		r[i] = b
	}
	return r
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	w := &world{t: t, dir: dir, base: vh.I(sc.Cfg, "hi")<<32 + vh.I(sc.Cfg, "lo")}
	W, H, R, G := vh.Ints(sc.Cfg, "W"), vh.Ints(sc.Cfg, "H"), vh.Ints(sc.Cfg, "R"), vh.Ints(sc.Cfg, "groups")
	quota := vh.Ints(sc.Cfg, "quota")
	w.cfg = back.NewCakeConfig(32, 0)
	prefix := []int{}
	for k := range w.cfg.TierBelowConfigs {
		tc := &w.cfg.TierBelowConfigs[k]
		tc.NodeIdConfig, tc.HashIndexIdConfig = nodeIds(W[k]), indexIds(H[k])
		tc.ReassuranceBytesCount, tc.NodeFormatSpecsPerLevel, tc.MaxDonutForests = byte(R[k]), byte(G[k]), byte(quota[k])
		prefix = append(prefix, int(tc.PrefixBytesCount))
	}
	w.src = &source{cfg: w.cfg, dest: byte(vh.I(sc.Cfg, "dest")), first: back.GlobalPiType(w.base)}
	t.Add(vh.M{"op": "new", "W": W, "H": H, "R": R, "quota": quota, "prefix": prefix, "dest": vh.I(sc.Cfg, "dest"), "lo": vh.I(sc.Cfg, "lo"), "hi": vh.I(sc.Cfg, "hi")})
	for _, o := range sc.Ops {
		if !w.step(o) {
			break
		}
	}
	_ = w.src.CloseAll()
}

// tierOf tells which tier a readable tier is.
func tierOf(t back.TierReadable) int { return int(t.(*back.TierBelow).TierIndex) }

func (w *world) chain() (r []back.TierReadable) {
	for t := w.src.next; t != nil; t = t.GetNextTier() {
		r = append(r, t)
		if len(r) > 20 {
			return r
		}
	}
	return r
}

// sparse lists the bytes of a file that are not zero.
func sparse(b []byte) [][2]int {
	r := [][2]int{}
	for i, x := range b {
		if x != 0 {
			r = append(r, [2]int{i, int(x)})
		}
	}
	return r
}

func (w *world) disk() {
	for k := 0; k < tiers; k++ {
		f := filepath.Join(w.dir, fmt.Sprintf("Tier%d", k))
		e := vh.M{"op": "disk", "tier": k, "there": false}
		if hs, err := os.ReadFile(filepath.Join(f, "Hashes.hsh")); err == nil {
			e["there"] = true
			rows := [][]int{}
			for len(hs) > 0 {
				n := min(32, len(hs))
				rows, hs = append(rows, ints(hs[:n])), hs[n:]
			}
			e["hashes"] = rows
			info, _ := os.ReadFile(filepath.Join(f, "DonutForestsInfo.bin"))
			e["info"] = ints(info)
			jump, _ := os.ReadFile(filepath.Join(f, "DonutForestsJumpTables.bin"))
			e["jumplen"], e["jump"] = len(jump), sparse(jump)
			lv := [][]int{}
			last := 0
			for l := 0; l <= 64; l++ {
				b, err := os.ReadFile(filepath.Join(f, fmt.Sprintf("Level%02XNodes.bin", l)))
				if err == nil {
					last = l + 1
				}
				lv = append(lv, ints(b))
			}
			e["levels"] = lv[:last]
		}
		w.t.Add(e)
	}
}

func (w *world) open() error {
	var above interface{ SetNextTier(back.TierReadable) } = w.src
	for k := int(w.src.dest); k < tiers; k++ {
		tb := back.NewTierBelow(w.dir, byte(k), w.cfg)
		if tb.ExistsOnDisk() {
			if err := tb.Open(); err != nil {
				return err
			}
		} else {
			tb.OpenAsEmptyTier()
		}
		above.SetNextTier(tb)
		above = tb
	}
	return nil
}

func (w *world) limited(f func() error) (res string) {
	if w.lim != nil {
		w.lim.Set()
		defer func() {
			w.lim.Lift()
			w.lim = nil
			if x := recover(); x != nil {
				res = fmt.Sprint("panic: ", x)
			}
		}()
	}
	return vh.Err(f())
}

func (w *world) step(o vh.M) bool {
	op := vh.S(o, "op")
	e := vh.M{"op": op, "err": ""}
	switch op {
	case "bake":
		hs := unhex(vh.Strs(o, "hs"))
		rows := [][]int{}
		for _, h := range hs {
			rows = append(rows, ints(h))
		}
		e["hs"] = rows
		w.src.hashes, w.src.first = hs, back.GlobalPiType(w.base+w.total)
		w.total += int64(len(hs))
		e["err"] = w.limited(func() error { return back.NewDonutForestWrite(w.src, w.cfg).Write(w.dir) })
	case "limit": // the disk is full, or there are few descriptors left, while what follows is done
		l := vh.NoLimits()
		l.Bytes, l.Files = vh.I(o, "bytes"), vh.I(o, "files")
		w.lim = l
		w.t.Add(vh.M{"op": "limit"})
		return true
	case "fault": // one operation, or all from then on, of one kind on some files fail
		w.lim = vh.FaultFrom(o, w.dir)
		w.t.Add(vh.M{"op": "limit"})
		return true
	case "disk":
		w.disk()
		return true
	case "reopen": // open everything anew from the files
		vh.Must(w.src.CloseAll())
		w.src.next = nil
		e["err"] = w.limited(w.open)
	case "find":
		hs := unhex(vh.Strs(o, "hs"))
		rows := [][]int{}
		for _, h := range hs {
			rows = append(rows, ints(h))
		}
		e["hs"] = rows
		as := []vh.M{}
		for _, t := range w.chain() {
			a := []int64{}
			for _, h := range hs {
				p, ok, err := t.TryIndexOfHash(h)
				if err != nil {
					a = append(a, -3)
				} else if !ok {
					a = append(a, -1)
				} else {
					a = append(a, int64(p)-w.base)
				}
			}
			as = append(as, vh.M{"tier": tierOf(t), "as": a})
		}
		e["tiers"] = as
	case "get":
		as := []vh.M{}
		for _, t := range w.chain() {
			a := [][]int{}
			for i := int64(-2); i < w.total+2; i++ {
				h := make([]byte, 32)
				ok, err := t.TryGetHashAtIndex(back.GlobalPiType(w.base+i), h)
				if err != nil {
					a = append(a, []int{-3})
				} else if !ok {
					a = append(a, []int{})
				} else {
					a = append(a, ints(h))
				}
			}
			as = append(as, vh.M{"tier": tierOf(t), "as": a})
		}
		e["tiers"] = as
	default:
		vh.Fatal("unknown op %q", op)
	}
	w.t.Add(e)
	return e["err"] == ""
}
