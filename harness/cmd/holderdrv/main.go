// holderdrv feeds blocks to both one-block holders and asks them everything about each.
package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"verifharness/chainkit"
	"verifharness/vh"
)

type hash = indexedhashes.Sha256

func main() {
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

// names gives hashes to names and back.
type names struct {
	mu sync.Mutex
	of map[hash]string
}

func (n *names) hash(s string) hash {
	var h hash
	switch base, flip, flipped := strings.Cut(s, "~"); {
	case flipped:
		k, err := strconv.Atoi(flip)
		vh.Must(err)
		h = n.hash(base)
		h[k] ^= 1 << (k % 8)
	case s == "zero":
	case s == "g":
		b, _ := hex.DecodeString("6fe28c0ab6f1b372c1a6a246ae63f74f931e8365e15a089c68d6190000000000")
		copy(h[:], b)
	default:
		h = sha256.Sum256([]byte(s))
	}
	n.put(h, s)
	return h
}

func (n *names) put(h hash, s string) {
	n.mu.Lock()
	defer n.mu.Unlock()
	n.of[h] = s
}
func (n *names) name(h hash) string {
	n.mu.Lock()
	defer n.mu.Unlock()
	if s, ok := n.of[h]; ok {
		return s
	}
	return "?" + hex.EncodeToString(h[:4])
}

func word(x any) (n uint64) {
	for _, w := range x.([]any) {
		n = n<<16 | uint64(w.(float64))
	}
	return
}
func limbs(n int64) []int {
	if n < 0 || n >= 1<<32 {
		return []int{-1, -1}
	}
	return []int{int(n >> 16), int(n & 0xffff)}
}
func small(n int64) int64 {
	if n < -1<<31 || n >= 1<<31 {
		return -2000000000
	}
	return n
}
func ints(x any) []int {
	r := []int{}
	for _, y := range x.([]any) {
		r = append(r, int(y.(float64)))
	}
	return r
}

// block makes what a parser would have made, other things being in the storage too.
func block(m vh.M, n *names) *intrinsicobjects.Block {
	sz := ints(m["sizes"])
	b := &intrinsicobjects.Block{BlockHash: n.hash(vh.S(m, "hash")), PrevHash: n.hash(vh.S(m, "prev")), Time: uint32(word(m["time"])),
		Size: sz[0], StrippedSize: sz[1], Weight: sz[2], Storage: intrinsicobjects.NewMultiTransactionStorage()}
	bits := ints(m["bits"])
	b.NBits = uint32(bits[0])<<24 | uint32(bits[1])<<16 | uint32(bits[2])<<8 | uint32(bits[3])
	b.Difficulty = intrinsicobjects.CalculateDifficulty(b.NBits)
	st := b.Storage
	for _, y := range m["txs"].([]any) {
		t := y.(map[string]any)
		sz := ints(t["sizes"])
		x := intrinsicobjects.Transaction{TxId: n.hash(vh.S(t, "id")), Size: sz[0], VSize: sz[1], Weight: sz[2],
			TxisStart: int64(len(st.Txis)), TxosStart: int64(len(st.Txos))}
		for _, z := range t["ins"].([]any) {
			i := z.([]any)
			st.Txis = append(st.Txis, intrinsicobjects.Txi{TxId: n.hash(i[0].(string)), VOut: int64(i[1].(float64))})
			x.TxisCount++
		}
		for _, z := range t["outs"].([]any) {
			o := z.([]any)
			v, err := strconv.ParseInt(o[0].(string), 10, 64)
			vh.Must(err)
			sc := chainkit.Script(int64(o[1].(float64)))
			n.put(sha256.Sum256(sc), fmt.Sprint("script ", o[1]))
			st.Txos = append(st.Txos, intrinsicobjects.Txo{Value: v, ScriptPubKeyStart: int32(len(st.Scripts)), ScriptPubKeyLen: int32(len(sc))})
			st.Scripts = append(st.Scripts, sc...)
			x.TxosCount++
		}
		b.Transactions = append(b.Transactions, x)
	}
	return b
}

// notes is an indexer that remembers what it is told.
type notes struct {
	n                       *names
	firsts, parents, hashes [][]any
}

func (x *notes) StoreTransHashToHeight(h *hash, t int64) error {
	x.hashes = append(x.hashes, []any{t, x.n.name(*h)})
	return nil
}
func (x *notes) StoreTransHeightToParentBlock(t, b int64) error {
	x.parents = append(x.parents, []any{t, b})
	return nil
}
func (x *notes) StoreBlockHeightToFirstTrans(b, t int64) error {
	x.firsts = append(x.firsts, []any{b, t})
	return nil
}
func (x *notes) RetrieveTransHashToHeight(*hash) (int64, error)        { panic("not asked for") }
func (x *notes) RetrieveTransHeightToParentBlock(int64) (int64, error) { panic("not asked for") }
func (x *notes) RetrieveBlockHeightToFirstTrans(int64) (int64, error)  { panic("not asked for") }
func (x *notes) Close()                                                {}

func neis(m map[string]int64) vh.M {
	var d [8]byte
	binary.LittleEndian.PutUint64(d[:], uint64(m["difficulty"]))
	diff := []int{}
	for _, x := range d {
		diff = append(diff, int(x))
	}
	return vh.M{"time": limbs(m["time"]), "mediantime": limbs(m["mediantime"]), "difficulty": diff, "size": small(m["size"]),
		"strippedsize": small(m["strippedsize"]), "weight": small(m["weight"])}
}

func sizes(m map[string]int64) []int64 {
	return []int64{small(m["size"]), small(m["vsize"]), small(m["weight"])}
}

func script(n *names, h hash) any {
	s, ok := strings.CutPrefix(n.name(h), "script ")
	k, err := strconv.Atoi(s)
	if !ok || err != nil {
		return "?" + s
	}
	return k
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	t.Add(vh.M{"op": "new"})
	for _, o := range sc.Ops {
		t.Add(vh.M{"op": "fed", "b": o})
	}
	for _, path := range []string{"cri", "chi"} {
		for _, indexed := range []bool{true, false} {
			n := &names{of: map[hash]string{}}
			var ix *notes
			if indexed {
				ix = &notes{n: n}
			}
			ch := &holder{n: n, path: path}
			ch.open(ix)
			refused := false
			done := make(chan bool)
			go func() {
				for _, o := range sc.Ops {
					select {
					case ch.in <- block(o, n):
					case <-done:
						return
					}
				}
				close(ch.in)
			}()
			for k := range sc.Ops {
				e := ch.take(k)
				e["path"], e["k"] = path, k
				t.Add(e)
				if e["op"] != "take" || e["ok"] == false {
					refused = true
					break
				}
			}
			if !refused {
				vh.Guard(t, func() { t.Add(vh.M{"op": "end", "path": path, "invalid": ch.atEnd()}) })
				if ix != nil {
					for _, l := range [][][]any{ix.firsts, ix.parents, ix.hashes} {
						sort.SliceStable(l, func(i, j int) bool { return l[i][0].(int64) < l[j][0].(int64) })
					}
					t.Add(vh.M{"op": "notes", "firsts": ix.firsts, "parents": ix.parents, "hashes": ix.hashes})
				}
			}
			close(done)
		}
	}
}

type holder struct {
	n    *names
	path string
	in   chan *intrinsicobjects.Block
	cri  *intrinsicobjectscri.OneBlockHolder
	hb   chainreadinterface.IBlockHandle
	chi  *intrinsicobjectschi.OneBlockHolder
	hc   chainhandleinterface.BlockHandle
	br   *chainhandleinterface.BlockReceiver
	tr   *chainhandleinterface.BitcoinCoreTransactionReceiver
	ir   *chainhandleinterface.TxiReceiver
	or   *chainhandleinterface.TxoReceiver
}

func (h *holder) open(ix *notes) {
	if h.path == "cri" {
		if ix != nil {
			h.cri = intrinsicobjectscri.CreateOneBlockHolder(ix)
		} else {
			h.cri = intrinsicobjectscri.CreateOneBlockHolder(nil)
		}
		h.in = h.cri.InChan
		return
	}
	if ix != nil {
		h.chi = intrinsicobjectschi.CreateOneBlockHolder(ix)
	} else {
		h.chi = intrinsicobjectschi.CreateOneBlockHolder(nil)
	}
	h.in = h.chi.InChan
	h.br, h.tr = chainhandleinterface.NewBlockReceiver(), chainhandleinterface.NewBitcoinCoreTransactionReceiver()
	h.ir, h.or = chainhandleinterface.NewTxiReceiver(), chainhandleinterface.NewTxoReceiver()
}

// take has the holder take the next block; a panic or an error on the way is a refusal.
func (h *holder) take(k int) vh.M {
	res := make(chan vh.M, 1)
	go func() {
		tt := &vh.Trace{}
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			var err error
			switch {
			case h.path == "cri" && k == 0:
				h.hb = h.cri.GenesisBlock()
			case h.path == "cri":
				h.hb, err = h.cri.NextBlock(h.hb)
			case k == 0:
				h.hc, err = h.chi.GenesisBlock()
			default:
				h.hc, err = h.chi.NextBlock(h.hc)
			}
			return err == nil
		}()
		if !ok {
			res <- vh.M{"op": "take", "ok": false}
			return
		}
		vh.Guard(tt, func() {
			if h.path == "cri" {
				tt.Add(h.showCri())
			} else {
				tt.Add(h.showChi(k))
			}
		})
		res <- tt.Events[0]
	}()
	select {
	case e := <-res:
		return e
	case <-time.After(20 * time.Second):
		return vh.M{"op": "hang"}
	}
}

func (h *holder) atEnd() bool {
	if h.path == "cri" {
		b, err := h.cri.NextBlock(h.hb)
		return err == nil && b.IsInvalid()
	}
	b, err := h.chi.NextBlock(h.hc)
	return err == nil && h.chi.IsBlockHandleInvalid(b)
}

func (h *holder) showCri() vh.M {
	b, err := h.cri.BlockInterface(h.hb)
	vh.Check(err)
	bh, err := h.hb.Hash()
	vh.Check(err)
	ne, err := b.NonEssentialInts()
	vh.Check(err)
	txs := []vh.M{}
	cnt, err := b.TransactionCount()
	vh.Check(err)
	for j := range cnt {
		ht, err := b.NthTransaction(j)
		vh.Check(err)
		x, err := h.cri.TransInterface(ht)
		vh.Check(err)
		id, err := ht.Hash()
		vh.Check(err)
		par := true
		ins, outs := []any{}, []any{}
		ni, err := x.TxiCount()
		vh.Check(err)
		for k := range ni {
			hi, err := x.NthTxi(k)
			vh.Check(err)
			i, err := h.cri.TxiInterface(hi)
			vh.Check(err)
			src, err := i.SourceTxo()
			vh.Check(err)
			sh, err := src.ParentTrans().Hash()
			vh.Check(err)
			ph, err := i.ParentTrans().Hash()
			vh.Check(err)
			par = par && ph == id && i.ParentIndex() == k
			ins = append(ins, []any{h.n.name(sh), small(src.ParentIndex())})
		}
		no, err := x.TxoCount()
		vh.Check(err)
		all, err := x.AllTxoSatoshis()
		vh.Check(err)
		for k := range no {
			ho, err := x.NthTxo(k)
			vh.Check(err)
			o, err := h.cri.TxoInterface(ho)
			vh.Check(err)
			v, err := o.Satoshis()
			vh.Check(err)
			a, err := o.Address()
			vh.Check(err)
			ph, err := o.ParentTrans().Hash()
			vh.Check(err)
			par = par && ph == id && o.ParentIndex() == k && all[k] == v && len(all) == int(no)
			outs = append(outs, []any{fmt.Sprint(v), script(h.n, a.Hash())})
		}
		tn, err := x.NonEssentialInts()
		vh.Check(err)
		txs = append(txs, vh.M{"id": h.n.name(id), "parents": par, "ins": ins, "outs": outs, "sizes": sizes(*tn)})
	}
	return vh.M{"op": "take", "ok": true, "hash": h.n.name(bh), "neis": neis(*ne), "txs": txs}
}

func (h *holder) showChi(k int) vh.M {
	vh.Check(h.chi.GetBlockInfo(h.hc, h.br))
	txs := []vh.M{}
	handles := append([]chainhandleinterface.TransactionHandle{}, h.br.TransactionHandles...)
	e := vh.M{"op": "take", "ok": true, "hash": h.n.name(h.br.BlockHash), "height": h.br.BlockHeight, "neis": neis(h.br.FieldMap)}
	for _, th := range handles {
		vh.Check(h.chi.GetTransactionInfo(th, h.tr))
		par := h.tr.ParentBlockHandle == h.hc
		ins, outs := []any{}, []any{}
		for _, ih := range h.tr.TxiHandles {
			vh.Check(h.chi.GetTxiInfo(ih, h.ir))
			par = par && h.ir.ParentTransactionHandle == th
			ins = append(ins, []any{h.n.name(h.ir.IncomingTxid), small(h.ir.IncomingVout)})
		}
		for _, oh := range h.tr.TxoHandles {
			vh.Check(h.chi.GetTxoInfo(oh, h.or))
			par = par && h.or.ParentTransactionHandle == th
			outs = append(outs, []any{fmt.Sprint(h.or.SatoshisValue), script(h.n, sha256.Sum256(h.or.ScriptPubBytes))})
		}
		txs = append(txs, vh.M{"id": h.n.name(h.tr.TransactionHash), "parents": par, "ins": ins, "outs": outs, "sizes": sizes(h.tr.FieldMap)})
	}
	e["txs"] = txs
	return e
}
