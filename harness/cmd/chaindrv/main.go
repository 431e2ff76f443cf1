// chaindrv imports synthetic chains with the real three-phase import (or its parts), dumps the files written, and asks
// the readable chain everything.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainhandleinterface"
	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"github.com/KitchenMishap/pudding-shed/jobs"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
	"verifharness/chainkit"
	"verifharness/vh"
)

var blkNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
var trnNeis = []string{"size", "vsize", "weight"}

func main() {
	if f := os.Getenv("CHAINDRV_ATTEMPT"); f != "" {
		null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		vh.Must(err)
		os.Stdout = null
		os.Exit(child(f))
	}
	// The code under test prints progress on stdout; the protocol needs stdout for itself.
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	blocks := make([]any, len(sc.Ops))
	for i, o := range sc.Ops {
		blocks[i] = map[string]any(o)
	}
	c := chainkit.FromJSON(blocks, 0)
	n := vh.I(sc.Cfg, "n")
	if n == 0 {
		n = int64(len(c.Blocks))
	}
	t.Add(vh.M{"op": "new", "n": n})
	for _, e := range c.Events(int(n)) {
		t.Add(e)
	}
	t.Add(vh.M{"op": "start"})
	for k, r := range sc.Cfg["runs"].([]any) {
		im := &importer{c: c, n: n, r: r.(map[string]any), dir: filepath.Join(dir, fmt.Sprint("run", k)), t: t, blocks: blocks}
		if !im.run() {
			return
		}
		os.RemoveAll(im.dir)
	}
}

type importer struct {
	c   *chainkit.Chain
	n   int64
	r   vh.M
	dir string
	t   *vh.Trace
	// sole: the chain indexes transactions itself
	sole bool
	// an attempt that does not end well
	blocks         []any
	stopAt, micros int64
	full           bool
}

func (im *importer) node() *chainkit.Node {
	nd := chainkit.NewNode(im.c, vh.I(im.r, "seed"))
	if b := vh.I(im.r, "batch"); b > 0 {
		nd.Batch = int(b)
	}
	nd.MaxDelay = int(vh.I(im.r, "delay"))
	if h, ok := im.r["hold"].([]any); ok {
		for _, x := range h {
			p := x.([]any)
			nd.Hold[int64(p[0].(float64))] = int(p[1].(float64))
		}
	}
	if f, ok := im.r["faults"].([]any); ok {
		for _, x := range f {
			p := x.([]any)
			nd.Faults[[2]int64{int64(p[0].(float64)), int64(p[1].(float64))}] = p[2].(string)
		}
	}
	return nd
}

// phase runs f against a deadline; false when it hangs or fails.
func (im *importer) phase(name string, f func() error) bool {
	done := make(chan vh.M, 1)
	go func() {
		tt := &vh.Trace{}
		vh.Guard(tt, func() {
			err := f()
			e := vh.M{"op": "phase", "name": name, "err": vh.Err(err)}
			if err != nil {
				e["text"] = err.Error()
			}
			tt.Add(e)
		})
		done <- tt.Events[0]
	}()
	limit := 60 * time.Second
	if s := vh.I(im.r, "limit"); s > 0 {
		limit = time.Duration(s) * time.Second
	}
	select {
	case e := <-done:
		im.t.Add(e)
		return e["op"] == "phase" && e["err"] == ""
	case <-time.After(limit):
		buf := make([]byte, 1<<16)
		buf = buf[:runtime.Stack(buf, true)]
		st := string(buf)
		if len(st) > 6000 {
			st = st[:6000]
		}
		im.t.Add(vh.M{"op": "hang", "name": name, "stack": st})
		return false
	}
}

func (im *importer) run() bool {
	r, threads := im.r, int(vh.I(im.r, "threads"))
	if threads == 0 {
		threads = 1
	}
	useJson, chi := vh.B(r, "json"), vh.B(r, "chi")
	vh.Must(os.MkdirAll(im.dir, 0o755))
	if !im.anew("hashes", func() error { return im.hashes(useJson, chi, threads) }) {
		return false
	}
	if vh.B(r, "lists") {
		im.t.Add(vh.M{"op": "lists", "blocks": im.hashList("Blocks", true), "transactions": im.hashList("Transactions", true), "addresses": im.hashList("Addresses", false)})
	}
	if vh.B(r, "hashesonly") {
		return true
	}
	if !im.anew("index", func() error { return im.index(threads) }) {
		return false
	}
	if !im.anew("store", func() error { return im.store(useJson, chi, threads) }) {
		return false
	}
	if vh.B(r, "dump") {
		im.dump()
	}
	if vh.B(r, "digests") {
		im.t.Add(vh.M{"op": "digests", "files": im.digests()})
	}
	if vh.S(r, "copy") != "" && !im.copy() {
		return false
	}
	if vh.B(r, "reads") {
		good := true
		for _, ram := range []bool{false, true} {
			if ram && !vh.B(r, "inram") {
				continue
			}
			good = good && im.phase("read", func() error { return im.readOnly(ram) })
		}
		return good
	}
	return true
}

func (im *importer) hashes(useJson, chi bool, threads int) error {
	if vh.B(im.r, "direct") {
		return im.directHashes(useJson, chi)
	}
	corereader2.TheOneAndOnlyClient.Transport = im.transport()
	if chi {
		return jobs.PhaseOneParallelIntrinsicChi(im.dir, useJson, im.n, 1000, threads, "\n")
	}
	return jobs.PhaseOneParallelIntrinsic(im.dir, useJson, im.n, 1000, threads, "\n")
}

func (im *importer) parse(useJson bool, h int64) (*intrinsicobjects.Block, error) {
	b := &intrinsicobjects.Block{}
	if useJson {
		return b, intrinsicobjects.ParseJsonBlock(im.c.Blocks[h].JSON, b)
	}
	return b, intrinsicobjects.ParseBinaryBlock(im.c.Blocks[h].Bin, b)
}

func (im *importer) feed(useJson bool, ch chan *intrinsicobjects.Block) {
	for h := int64(0); h < im.n; h++ {
		b, err := im.parse(useJson, h)
		if err != nil {
			panic(err) // pudding-shed's parser refused a valid block
		}
		ch <- b
	}
	close(ch)
}

// shut closes something; where files can not grow forever, Sync has to say whether they did, as Close does not.
func (im *importer) shut(x interface {
	Sync() error
	Close()
}) error {
	var err error
	if im.full {
		err = x.Sync()
	}
	x.Close()
	return err
}

// directHashes is phase one with one block after the other; the lists are closed and opened again now and then.
func (im *importer) directHashes(useJson, chi bool) error {
	hcc := chainstorage.NewConcreteHashesChainCreator(im.dir)
	if err := hcc.Create(); err != nil {
		return err
	}
	hc, err := hcc.Open()
	if err != nil {
		return err
	}
	again := func(h int64) error {
		if k := vh.I(im.r, "syncs"); k > 0 && h%k == 0 {
			if err := hc.Sync(); err != nil {
				return err
			}
			if vh.B(im.r, "image") {
				im.t.Add(vh.M{"op": "slists", "n": h, "blocks": im.hashList("Blocks", true), "transactions": im.hashList("Transactions", true), "addresses": im.hashList("Addresses", false)})
			}
		}
		if k := vh.I(im.r, "reopens"); k > 0 && h%k == 0 {
			if err := im.shut(hc); err != nil {
				return err
			}
			hc, err = hcc.Open()
			if err != nil {
				return err
			}
			b, tr, a, err := hc.CountHashes()
			im.t.Add(vh.M{"op": "hashcounts", "blocks": b, "transactions": tr, "addresses": a, "n": h, "err": vh.Err(err)})
		}
		return nil
	}
	if chi {
		obh := intrinsicobjectschi.CreateOneBlockHolder(nil)
		go im.feed(useJson, obh.InChan)
		hb, err := obh.GenesisBlock()
		for h := int64(0); err == nil && !obh.IsBlockHandleInvalid(hb); h++ {
			if h > 0 {
				if err = again(h); err != nil {
					return err
				}
			}
			if err = hc.AppendHashesChi(obh, hb); err == nil {
				hb, err = obh.NextBlock(hb)
			}
		}
		return errors.Join(err, im.shut(hc))
	}
	obh := intrinsicobjectscri.CreateOneBlockHolder(nil)
	go im.feed(useJson, obh.InChan)
	hb := obh.GenesisBlock()
	for h := int64(0); err == nil && !hb.IsInvalid(); h++ {
		if h > 0 {
			if err = again(h); err != nil {
				return err
			}
		}
		if err = hc.AppendHashesCri(obh, hb, h); err == nil {
			hb, err = obh.NextBlock(hb)
		}
	}
	return errors.Join(err, im.shut(hc))
}

func (im *importer) index(threads int) error {
	r := im.r
	for _, kind := range []string{"Addresses", "Transactions", "Blocks"} {
		p := indexedhashes3.NewHashStoreParams(vh.I(r, "bits"), vh.I(r, "est"), int(vh.I(r, "digits")), vh.I(r, "bins"), vh.I(r, "entries"), 8)
		var pl interface{ IndexTheHashes(int) error }
		var err error
		if vh.B(r, "adaptive") {
			_, pl, err = indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(im.dir, kind+"/Hashes", p, 1)
		} else {
			ba := indexedhashes3.NewBinsArray(p.EntriesInBinStart(), p.BytesPerBinEntry(), vh.I(r, "bins"))
			_, pl, err = indexedhashes3.NewHashStoreCreatorAndPreloader(im.dir, kind+"/Hashes", p, 1, ba)
		}
		if err != nil {
			return err
		}
		if err = pl.IndexTheHashes(threads); err != nil {
			return err
		}
	}
	return nil
}

func (im *importer) creator(inRam bool) (*chainstorage.ConcreteAppendableChainCreator, error) {
	return chainstorage.NewConcreteAppendableChainCreator(im.dir, blkNeis, trnNeis, !im.sole, inRam, vh.B(im.r, "hashram"))
}

func (im *importer) store(useJson, chi bool, threads int) error {
	acc, err := im.creator(false)
	if err != nil {
		return err
	}
	if err = acc.CreateFromHashStores(); err != nil {
		return err
	}
	ac, ind, err := acc.OpenWithIndexer()
	if err != nil {
		return err
	}
	if vh.B(im.r, "direct") {
		return im.directStore(useJson, chi, ac, ind)
	}
	corereader2.TheOneAndOnlyClient.Transport = im.transport()
	if chi {
		return jobs.PhaseThreeParallelIntrinsicChi(im.n, useJson, 1000, ac, ind, threads, "\n")
	}
	return jobs.PhaseThreeParallelIntrinsic(im.n, useJson, 1000, ac, ind, threads, "\n")
}

// directStore is phase three with one block after the other; the chain is read while it is still open for appending.
func (im *importer) directStore(useJson, chi bool, ac chainstorage.IAppendableChain, ind transactionindexing.ITransactionIndexer) error {
	sync := func(h int64) error {
		if k := vh.I(im.r, "syncs"); k > 0 && h%k == 0 {
			if err := ac.Sync(); err != nil {
				return err
			}
			if vh.B(im.r, "image") {
				return im.image(h + 1)
			}
		}
		return nil
	}
	var err error
	if chi {
		obh := intrinsicobjectschi.CreateOneBlockHolder(ind)
		go im.feed(useJson, obh.InChan)
		var hb chainhandleinterface.BlockHandle
		hb, err = obh.GenesisBlock()
		for h := int64(0); err == nil && !obh.IsBlockHandleInvalid(hb); h++ {
			if err = ac.AppendBlockChi(obh, hb); err == nil {
				err = sync(h)
			}
			if err == nil {
				hb, err = obh.NextBlock(hb)
			}
		}
	} else {
		obh := intrinsicobjectscri.CreateOneBlockHolder(ind)
		go im.feed(useJson, obh.InChan)
		hb := obh.GenesisBlock()
		for h := int64(0); err == nil && !hb.IsInvalid(); h++ {
			if err = ac.AppendBlock(obh, hb); err == nil {
				err = sync(h)
			}
			if err == nil {
				hb, err = obh.NextBlock(hb)
			}
		}
	}
	if err == nil && vh.B(im.r, "reads") {
		ch := ac.GetAsChainReadInterface()
		hc, _ := ch.(chainreadinterface.IHandleCreator)
		par, _ := ch.(chainstorage.IParents)
		priv, _ := ch.(chainstorage.IPrivilegedFiles)
		err = im.reads(ch, hc, par, priv)
	}
	return errors.Join(err, im.shut(ac))
}

// ---- what is on disk -------------------------------------------------------------------------------------------

func (im *importer) hashList(kind string, rev bool) []string {
	b, err := os.ReadFile(filepath.Join(im.dir, kind, "Hashes", "Hashes.hsh"))
	vh.Must(err)
	res := []string{}
	for ; len(b) >= 32; b = b[32:] {
		if rev {
			res = append(res, chainkit.Rev(chainkit.Hash(b[:32])))
		} else {
			res = append(res, hex.EncodeToString(b[:32]))
		}
	}
	if len(b) > 0 {
		res = append(res, "cut:"+hex.EncodeToString(b))
	}
	return res
}

func (im *importer) words(name string, size int) ([]int64, bool) {
	b, err := os.ReadFile(filepath.Join(im.dir, filepath.FromSlash(name)+".int"))
	if err != nil {
		return nil, false
	}
	res := []int64{}
	for ; len(b) >= size; b = b[size:] {
		var w [8]byte
		copy(w[:], b[:size])
		res = append(res, int64(binary.LittleEndian.Uint64(w[:])))
	}
	return res, len(b) == 0
}

func clamp(x int64) int64 {
	if x > 1<<31-1 || x < -(1<<31) {
		return -2000000000
	}
	return x
}

func (im *importer) dump() { im.dumpOf("", im.n) }

// dumpOf tells what the files hold; mark distinguishes files of a chain of which n blocks have been stored so far.
func (im *importer) dumpOf(mark string, n int64) {
	trns := int64(0)
	for _, b := range im.c.Blocks[:n] {
		trns += int64(len(b.Txs))
	}
	for _, f := range []struct {
		name string
		size int
		str  bool
	}{{"Blocks/firsttrans", 4, false}, {"Transactions/firsttxi", 5, false}, {"Transactions/firsttxo", 5, false}, {"TransactionInputs/tx", 4, false},
		{"TransactionInputs/vout", 4, false}, {"TransactionOutputs/value", 7, true}, {"TransactionOutputs/address", 5, false},
		{"TransactionOutputs/spenttotxi", 5, false}, {"Addresses/firsttxo", 5, false}, {"Parents/parentblockoftrans", 4, false},
		{"Parents/parenttransoftxi", 5, false}, {"Parents/parenttransoftxo", 5, false}} {
		w, ok := im.words(f.name, f.size)
		vals := []any{}
		for _, x := range w {
			if f.str {
				vals = append(vals, fmt.Sprint(x))
			} else {
				vals = append(vals, clamp(x))
			}
		}
		if !ok {
			vals = append(vals, "bad file")
			if !f.str {
				vals = []any{-3}
			}
		}
		im.t.Add(vh.M{"op": mark + "file", "name": f.name, "vals": vals, "n": n})
	}
	for _, x := range []struct {
		what, folder string
		names        []string
	}{{"blk", "Blocks/", blkNeis}, {"trn", "Transactions/", trnNeis}} {
		for _, nm := range x.names {
			// the size of a word of these is the store's choice: it follows from the file's length
			st, err := os.Stat(filepath.Join(im.dir, x.folder+nm+".int"))
			vals := []string{}
			count := n
			if x.what == "trn" {
				count = trns
			}
			if err == nil && count > 0 && st.Size()%count == 0 && st.Size()/count <= 8 {
				w, _ := im.words(x.folder+nm, int(st.Size()/count))
				for _, v := range w {
					vals = append(vals, fmt.Sprint(v))
				}
			}
			im.t.Add(vh.M{"op": mark + "nei", "what": x.what, "name": nm, "vals": vals, "n": n})
		}
	}
}

// image looks at the chain as a process would that starts now, the first n blocks having been stored and synced.
func (im *importer) image(n int64) error {
	now := &importer{c: im.c, n: n, r: im.r, dir: im.dir + "image", t: im.t}
	defer os.RemoveAll(now.dir)
	if err := os.CopyFS(now.dir, os.DirFS(im.dir)); err != nil {
		return err
	}
	now.dumpOf("s", n)
	acc, err := now.creator(false)
	if err != nil {
		return err
	}
	_, hc, _, _, err := acc.OpenReadOnly()
	if err != nil {
		return err
	}
	ch := hc.(chainreadinterface.IBlockChain)
	seen := map[[32]byte]bool{}
	for _, b := range im.c.Blocks[:n] {
		for _, x := range b.Txs {
			for _, o := range x.Outs {
				id := indexedhashes.HashOfBytes(o.Script)
				if seen[id] || len(seen) > 40 {
					continue
				}
				seen[id] = true
				h, err := hc.AddressHandleByHash(id)
				if err != nil {
					return err
				}
				ai, err := ch.AddressInterface(h)
				if err != nil {
					return err
				}
				k, err := ai.TxoCount()
				if err != nil {
					return err
				}
				os := []int64{}
				for j := int64(0); j < k; j++ {
					ho, err := ai.NthTxo(j)
					if err != nil {
						return err
					}
					os = append(os, ho.TxoHeight())
				}
				im.t.Add(vh.M{"op": "sadr", "n": n, "hash": hex.EncodeToString(id[:]), "txos": os})
			}
		}
	}
	return nil
}

// digests of all files whose content depends on the blocks (the index files made from the hash lists excepted).
func (im *importer) digests() vh.M {
	res := vh.M{}
	vh.Must(filepath.WalkDir(im.dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		rel, _ := filepath.Rel(im.dir, p)
		rel = filepath.ToSlash(rel)
		if strings.Contains(rel, "/Hashes/") && !strings.HasSuffix(rel, "Hashes.hsh") {
			return nil
		}
		b, err := os.ReadFile(p)
		s := sha256.Sum256(b)
		res[rel] = fmt.Sprint(len(b), ":", hex.EncodeToString(s[:8]))
		return err
	}))
	return res
}

// ---- what the readable chain answers --------------------------------------------------------------------------------

type hashHandle struct{ h [32]byte }

func (x hashHandle) Height() int64                       { return -99 }
func (x hashHandle) Hash() (indexedhashes.Sha256, error) { return x.h, nil }
func (x hashHandle) HeightSpecified() bool               { return false }
func (x hashHandle) HashSpecified() bool                 { return true }
func (x hashHandle) IsInvalid() bool                     { return false }
func (x hashHandle) IsBlockHandle()                      {}
func (x hashHandle) IsTransHandle()                      {}
func (x hashHandle) IndicesPath() (int64, int64)         { return -1, -1 }
func (x hashHandle) IndicesPathSpecified() bool          { return false }

type adrHandle struct{ h [32]byte }

func (x adrHandle) Height() int64              { return -99 }
func (x adrHandle) Hash() indexedhashes.Sha256 { return x.h }
func (x adrHandle) HeightSpecified() bool      { return false }
func (x adrHandle) HashSpecified() bool        { return true }

// partHandle is an input or output known by its transaction and its place in it.
type partHandle struct {
	tr chainreadinterface.ITransHandle
	k  int64
}

func (x partHandle) ParentTrans() chainreadinterface.ITransHandle { return x.tr }
func (x partHandle) ParentIndex() int64                           { return x.k }
func (x partHandle) TxiHeight() int64                             { return -99 }
func (x partHandle) TxoHeight() int64                             { return -99 }
func (x partHandle) IndicesPath() (int64, int64, int64)           { return -1, -1, -1 }
func (x partHandle) ParentSpecified() bool                        { return true }
func (x partHandle) TxiHeightSpecified() bool                     { return false }
func (x partHandle) TxoHeightSpecified() bool                     { return false }
func (x partHandle) IndicesPathSpecified() bool                   { return false }

func (im *importer) readOnly(inRam bool) error {
	if inRam { // it asks whether there is enough memory
		r, w, err := os.Pipe()
		vh.Must(err)
		w.WriteString("128GB\n128GB\n")
		w.Close()
		old := os.Stdin
		os.Stdin = r
		defer func() { os.Stdin = old; r.Close() }()
	}
	acc, err := im.creator(inRam)
	if err != nil {
		return err
	}
	ch, hc, par, priv, err := acc.OpenReadOnly()
	if err != nil {
		return err
	}
	return im.reads(ch, hc, par, priv)
}

type reader struct {
	im   *importer
	t    *vh.Trace
	ch   chainreadinterface.IBlockChain
	hc   chainreadinterface.IHandleCreator
	par  chainstorage.IParents
	priv chainstorage.IPrivilegedFiles
	errs error

	script map[[32]byte]string

	bad bool // operations fail
	lim *vh.Limits

	kept []func() // to ask the very objects again
}

func (r *reader) ck(err error) {
	if err != nil && r.errs == nil {
		r.errs = err
	}
}
func (r *reader) err() string {
	e := r.errs
	r.errs = nil
	return vh.Err(e)
}

// hash is a hash for the trace; the zero hash is "0".
func hash(h indexedhashes.Sha256, err error) string {
	if err != nil {
		return "ERR"
	}
	if h == (indexedhashes.Sha256{}) {
		return "0"
	}
	return chainkit.Rev(chainkit.Hash(h))
}
func ht(h interface{ Height() int64 }) int64 {
	if h == nil {
		return -77
	}
	return clamp(h.Height())
}
func neis(m *map[string]int64) vh.M {
	res := vh.M{}
	if m != nil {
		for k, v := range *m {
			res[k] = fmt.Sprint(v)
		}
	}
	return res
}

// pick chooses which of n items are asked about: all, or a sample with both ends.
func (im *importer) pick(n int64, salt int64) []int64 {
	res := []int64{}
	max := vh.I(im.r, "sample")
	x := uint64(vh.I(im.r, "seed")+salt)*0x9E3779B97F4A7C15 + 99
	rnd := func() uint64 { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x }
	for k := int64(0); k < n; k++ {
		if max == 0 || n <= max || k == 0 || k == n-1 || int64(rnd()%uint64(n)) < max {
			res = append(res, k)
		}
	}
	for k := len(res) - 1; k > 0; k-- { // in no particular order
		j := int(rnd() % uint64(k+1))
		res[k], res[j] = res[j], res[k]
	}
	return res
}

func (im *importer) reads(ch chainreadinterface.IBlockChain, hc chainreadinterface.IHandleCreator, par chainstorage.IParents, priv chainstorage.IPrivilegedFiles) error {
	if hc == nil || par == nil || priv == nil {
		return errors.New("the readable chain lacks an interface")
	}
	r := &reader{im: im, t: im.t, ch: ch, hc: hc, par: par, priv: priv}
	lb, err := ch.LatestBlock()
	r.ck(err)
	lt, err := ch.LatestTransaction()
	r.ck(err)
	ni, err := priv.TxiTxFile().CountWords()
	r.ck(err)
	no, err := priv.TxoSatsFile().CountWords()
	r.ck(err)
	gt, err := ch.GenesisTransaction()
	r.ck(err)
	if r.errs != nil {
		return r.errs
	}
	im.t.Add(vh.M{"op": "counts", "blk": ht(lb), "trn": ht(lt), "txi": clamp(ni), "txo": clamp(no), "genesis": ht(ch.GenesisBlock()), "gentx": ht(gt)})
	nb, nt := int64(0), int64(0)
	nti, nto := int64(0), int64(0)
	for _, b := range im.c.Blocks[:im.n] {
		nb++
		for k, t := range b.Txs {
			nt++
			if k > 0 {
				nti += int64(len(t.Ins))
			}
			nto += int64(len(t.Outs))
		}
	}
	r.walks(nb, nt)
	for _, h := range im.pick(nb, 1) {
		r.block(h)
	}
	for _, h := range im.pick(nt, 2) {
		r.trans(h)
	}
	for _, h := range im.pick(nti, 3) {
		r.txi(h)
	}
	for _, h := range im.pick(nto, 4) {
		r.txo(h)
	}
	r.finds()
	r.failing([]int64{nb, nt, nti, nto})
	return nil
}

// failing asks again, while operations on files fail.
func (r *reader) failing(n []int64) {
	fs, _ := r.im.r["bad"].([]any)
	if len(fs) == 0 {
		return
	}
	var ids [3][][32]byte
	for _, b := range r.im.c.Blocks[:r.im.n] {
		ids[0] = append(ids[0], b.Hash)
		for _, t := range b.Txs {
			ids[1] = append(ids[1], t.Id)
			for _, o := range t.Outs {
				ids[2] = append(ids[2], sha256.Sum256(o.Script))
			}
		}
	}
	for _, x := range fs {
		f, _ := x.(vh.M)
		at, what := vh.I(f, "at"), vh.I(f, "what")
		ask := func() {
			switch what {
			case 0, 1, 2, 3:
				if n[what] > 0 {
					[]func(int64){r.block, r.trans, r.txi, r.txo}[what](at % n[what])
				}
			default:
				l := ids[what-4]
				r.find([]string{"blk", "trn", "adr"}[what-4], l[at%int64(len(l))])
			}
		}
		ks, was := []int64{vh.I(f, "k")}, f["k"]
		if ks[0] == 0 { // each operation in turn, as many as there are
			ks = ks[:0]
			for k := int64(1); k <= 100; k++ {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			r.lim = &vh.Limits{Bytes: -1, Files: -1}
			f["k"], r.kept = float64(k), nil
			r.lim.From(f, r.im.dir)
			r.lim.Set()
			said := len(r.t.Events)
			func() {
				defer func() {
					r.lim.Lift()
					if x := recover(); x != nil {
						r.t.Events = r.t.Events[:said]
						r.t.Add(vh.M{"op": "panic", "text": fmt.Sprint(x)})
					}
				}()
				r.bad = true
				ask()
			}()
			r.bad, r.errs = false, nil
			met := r.lim.Fault.Met()
			if met || len(ks) == 1 {
				ask() // and all is well again
				for _, again := range r.kept {
					again()
				}
			}
			if !met {
				break
			}
		}
		f["k"] = was
	}
}

// say records an answer.
func (r *reader) say(e vh.M) {
	if r.bad {
		e["bad"] = true
		z := strings.Repeat("0", 64) // the hash of an address that could not be read: Hash() has no other way to say so
		if strings.Contains(fmt.Sprint(e), "ERR") || e["hash"] == z || e["adrhash"] == z { // said of a part of the answer
			e["err"] = "ERR"
		}
	}
	r.t.Add(e)
}

func (r *reader) walks(nb, nt int64) {
	seq, back := []int64{}, []int64{}
	hb := r.ch.GenesisBlock()
	for k := int64(0); k <= nb && !hb.IsInvalid(); k++ {
		seq = append(seq, ht(hb))
		n, err := r.ch.NextBlock(hb)
		if err != nil {
			seq = append(seq, -88)
			break
		}
		hb = n
	}
	hb, err := r.ch.LatestBlock()
	for k := int64(0); err == nil && k <= nb && !hb.IsInvalid(); k++ {
		back = append(back, ht(hb))
		hb = r.ch.ParentBlock(hb)
	}
	r.t.Add(vh.M{"op": "walk", "what": "blk", "seq": seq, "back": back})
	seq, back = []int64{}, []int64{}
	tr, err := r.ch.GenesisTransaction()
	for k := int64(0); err == nil && k <= nt && !tr.IsInvalid(); k++ {
		seq = append(seq, ht(tr))
		tr, err = r.ch.NextTransaction(tr)
		if err != nil {
			seq = append(seq, -88)
		}
	}
	tr, err = r.ch.LatestTransaction()
	for k := int64(0); err == nil && k <= nt && !tr.IsInvalid(); k++ {
		back = append(back, ht(tr))
		tr = r.ch.PreviousTransaction(tr)
	}
	r.t.Add(vh.M{"op": "walk", "what": "trn", "seq": seq, "back": back})
}

func (r *reader) block(h int64) {
	e := vh.M{"op": "rblk", "h": h}
	defer func() { e["err"] = r.err(); r.say(e) }()
	hb, err := r.hc.BlockHandleByHeight(h)
	r.ck(err)
	e["hhash"] = hash(hb.Hash())
	b, err := r.ch.BlockInterface(hb)
	r.ck(err)
	if err != nil {
		return
	}
	e["height"], e["hash"] = ht(b), hash(b.Hash())
	n, err := b.TransactionCount()
	r.ck(err)
	e["n"] = clamp(n)
	txs := []int64{}
	for k := int64(0); k < n && k < 100000; k++ {
		x, err := b.NthTransaction(k)
		r.ck(err)
		txs = append(txs, ht(x))
	}
	e["txs"] = txs
	m, err := b.NonEssentialInts()
	r.ck(err)
	e["neis"] = neis(m)
	e["prev"] = ht(r.ch.ParentBlock(hb))
	nx, err := r.ch.NextBlock(b)
	r.ck(err)
	e["next"] = ht(nx)
}

func (r *reader) trans(h int64) {
	e := vh.M{"op": "rtrn", "h": h}
	defer func() { e["err"] = r.err(); r.say(e) }()
	hx, err := r.hc.TransactionHandleByHeight(h)
	r.ck(err)
	e["hhash"] = hash(hx.Hash())
	x, err := r.ch.TransInterface(hx)
	r.ck(err)
	if err != nil {
		return
	}
	e["height"], e["hash"] = ht(x), hash(x.Hash())
	ni, err := x.TxiCount()
	r.ck(err)
	no, err := x.TxoCount()
	r.ck(err)
	e["ni"], e["no"] = clamp(ni), clamp(no)
	is, os, sats := []int64{}, []int64{}, []string{}
	for k := int64(0); k < ni && k < 100000; k++ {
		y, err := x.NthTxi(k)
		r.ck(err)
		is = append(is, clamp(y.TxiHeight()))
	}
	for k := int64(0); k < no && k < 100000; k++ {
		y, err := x.NthTxo(k)
		r.ck(err)
		os = append(os, clamp(y.TxoHeight()))
	}
	// the same by way of the transaction
	pis, pos := []int64{}, []int64{}
	for k := int64(0); k < ni && k < 100000; k++ {
		y, err := r.ch.TxiInterface(partHandle{hx, k})
		r.ck(err)
		if err == nil {
			pis = append(pis, clamp(y.TxiHeight()))
		}
	}
	for k := int64(0); k < no && k < 100000; k++ {
		y, err := r.ch.TxoInterface(partHandle{hx, k})
		r.ck(err)
		if err == nil {
			pos = append(pos, clamp(y.TxoHeight()))
		}
	}
	fi, err := r.priv.TransFirstTxiFile().ReadWordAt(h)
	r.ck(err)
	fo, err := r.priv.TransFirstTxoFile().ReadWordAt(h)
	r.ck(err)
	e["ptxis"], e["ptxos"], e["fti"], e["fto"] = pis, pos, clamp(fi), clamp(fo)
	all, err := x.AllTxoSatoshis()
	r.ck(err)
	for _, v := range all {
		sats = append(sats, fmt.Sprint(v))
	}
	e["txis"], e["txos"], e["sats"] = is, os, sats
	m, err := x.NonEssentialInts()
	r.ck(err)
	e["neis"] = neis(m)
	e["prev"] = ht(r.ch.PreviousTransaction(hx))
	nx, err := r.ch.NextTransaction(x)
	r.ck(err)
	e["next"] = ht(nx)
	p, err := r.par.ParentBlockOfTrans(h)
	r.ck(err)
	e["pblk"] = clamp(p)
}

func (r *reader) txi(h int64) {
	e := vh.M{"op": "rtxi", "h": h}
	defer func() { e["err"] = r.err(); r.say(e) }()
	hx, err := r.hc.TxiHandleByHeight(h)
	r.ck(err)
	x, err := r.ch.TxiInterface(hx)
	r.ck(err)
	if err != nil {
		return
	}
	s, err := x.SourceTxo()
	r.ck(err)
	if err != nil {
		return
	}
	e["src"], e["v"] = ht(s.ParentTrans()), clamp(s.ParentIndex())
	o, err := r.ch.TxoInterface(s)
	r.ck(err)
	if err == nil {
		e["txo"] = clamp(o.TxoHeight())
	}
	p, err := r.par.ParentTransOfTxi(h)
	r.ck(err)
	e["ptrn"] = clamp(p)
	p, err = r.priv.TxiTxFile().ReadWordAt(h)
	r.ck(err)
	e["fsrc"] = clamp(p)
	p, err = r.priv.TxiVoutFile().ReadWordAt(h)
	r.ck(err)
	e["fv"] = clamp(p)
}

func (r *reader) txo(h int64) {
	e := vh.M{"op": "rtxo", "h": h}
	defer func() { e["err"] = r.err(); r.say(e) }()
	hx, err := r.hc.TxoHandleByHeight(h)
	r.ck(err)
	x, err := r.ch.TxoInterface(hx)
	r.ck(err)
	if err != nil {
		return
	}
	v, err := x.Satoshis()
	r.ck(err)
	e["val"] = fmt.Sprint(v)
	v, err = r.priv.TxoSatsFile().ReadWordAt(h)
	r.ck(err)
	e["fval"] = fmt.Sprint(v)
	a, err := x.Address()
	r.ck(err)
	if err == nil {
		e["adr"] = ht(a)
		ai, err := r.ch.AddressInterface(a)
		r.ck(err)
		if err == nil {
			hh := ai.Hash()
			e["adrhash"] = hex.EncodeToString(hh[:])
		}
	}
	p, err := r.par.ParentTransOfTxo(h)
	r.ck(err)
	e["ptrn"] = clamp(p)
}

func (r *reader) address(ai chainreadinterface.IAddress, h int64) {
	e := vh.M{"op": "radr", "h": h}
	hh := ai.Hash()
	e["hash"] = hex.EncodeToString(hh[:])
	n, err := ai.TxoCount()
	r.ck(err)
	e["n"] = clamp(n)
	txos := []int64{}
	for k := int64(0); k < n && k < 100000; k++ {
		o, err := ai.NthTxo(k)
		r.ck(err)
		if err == nil {
			txos = append(txos, clamp(o.TxoHeight()))
		}
	}
	e["txos"], e["err"] = txos, r.err()
	r.say(e)
	if r.bad {
		r.kept = append(r.kept, func() { r.address(ai, h) })
	}
}

func (r *reader) find(what string, id [32]byte) {
	e := vh.M{"op": "find", "what": what, "h": -1, "h2": -1}
	var err, err2 error
	switch what {
	case "blk":
		e["id"] = chainkit.Rev(id)
		var hb chainreadinterface.IBlockHandle
		if hb, err = r.hc.BlockHandleByHash(id); err == nil {
			e["h"] = ht(hb)
			if x, err := hb.Hash(); err != nil && r.bad {
				r.ck(err)
			} else if hash(x, err) != chainkit.Rev(id) {
				e["h"] = -5
			}
		}
		var b chainreadinterface.IBlock
		if b, err2 = r.ch.BlockInterface(hashHandle{id}); err2 == nil {
			e["h2"] = ht(b)
		}
	case "trn":
		e["id"] = chainkit.Rev(id)
		var hb chainreadinterface.ITransHandle
		if hb, err = r.hc.TransactionHandleByHash(id); err == nil {
			e["h"] = ht(hb)
			if x, err := hb.Hash(); err != nil && r.bad {
				r.ck(err)
			} else if hash(x, err) != chainkit.Rev(id) {
				e["h"] = -5
			}
		}
		var b chainreadinterface.ITransaction
		if b, err2 = r.ch.TransInterface(hashHandle{id}); err2 == nil {
			e["h2"] = ht(b)
			if e["h2"] != int64(-1) { // its first output by its hash
				o, err := r.ch.TxoInterface(partHandle{hashHandle{id}, 0})
				r.ck(err)
				if err == nil {
					e["o0"] = clamp(o.TxoHeight())
				}
				if n, err := b.TxiCount(); err == nil && n > 0 {
					y, err := r.ch.TxiInterface(partHandle{hashHandle{id}, n - 1})
					r.ck(err)
					if err == nil {
						e["il"] = clamp(y.TxiHeight())
					}
				}
			}
		}
	case "adr":
		e["id"] = hex.EncodeToString(id[:])
		var hb chainreadinterface.IAddressHandle
		if hb, err = r.hc.AddressHandleByHash(id); err == nil {
			e["h"], e["h2"] = ht(hb), ht(hb)
			ai, err := r.ch.AddressInterface(hb)
			r.ck(err)
			if err == nil {
				r.address(ai, ht(hb))
			}
			ai, err = r.ch.AddressInterface(adrHandle{id})
			r.ck(err)
			if err == nil {
				r.address(ai, ht(hb))
			}
			hh, err := r.hc.AddressHandleByHeight(ht(hb))
			r.ck(err)
			if err == nil {
				ai, err = r.ch.AddressInterface(hh)
				r.ck(err)
				if err == nil {
					r.address(ai, ht(hb))
				}
			}
			if sc, ok := r.script[id]; ok { // an address by the string it is made of
				e["hs"] = int64(-1)
				hh, err := r.hc.AddressHandleByString(sc)
				r.ck(err)
				if err == nil {
					e["hs"] = ht(hh)
				}
			}
		} else if ai, e2 := r.ch.AddressInterface(adrHandle{id}); e2 == nil {
			if n, e3 := ai.TxoCount(); e3 == nil && n > 0 {
				e["h2"] = -6 // outputs of an address that is not there
			}
		}
	}
	r.ck(err)
	r.ck(err2)
	e["err"] = r.err()
	r.say(e)
}

func (r *reader) finds() {
	im := r.im
	var ts, as [][32]byte
	seen := map[[32]byte]bool{}
	r.script = map[[32]byte]string{}
	for _, b := range im.c.Blocks[:im.n] {
		for _, t := range b.Txs {
			ts = append(ts, t.Id)
			for _, o := range t.Outs {
				a := sha256.Sum256(o.Script)
				if !seen[a] {
					seen[a] = true
					as = append(as, a)
					r.script[a] = string(o.Script)
				}
			}
		}
	}
	sort.Slice(as, func(i, j int) bool { return bytes.Compare(as[i][:], as[j][:]) < 0 })
	for _, k := range im.pick(im.n, 5) {
		r.find("blk", im.c.Blocks[k].Hash)
	}
	for _, k := range im.pick(int64(len(ts)), 6) {
		r.find("trn", ts[k])
	}
	for _, k := range im.pick(int64(len(as)), 7) {
		r.find("adr", as[k])
	}
	for k, what := range []string{"blk", "trn", "adr"} { // not there, but much like one that is
		x := [][32]byte{im.c.Blocks[im.n-1].Hash, ts[len(ts)-1], as[0]}[k]
		for _, pos := range []int{0, 3, 7, 8, 20, 31} {
			y := x
			y[pos] ^= 0x40
			r.find(what, y)
		}
	}
}
