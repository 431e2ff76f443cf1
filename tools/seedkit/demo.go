package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"net/http"
	"os"
	"time"

	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/indexedhashes3"
	"github.com/KitchenMishap/pudding-shed/jobs"
)

type vhM = map[string]any

func vhMust(err error) {
	if err != nil {
		panic(err)
	}
}
func vhFatal(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
func vhI(m vhM, k string) int64  { f, _ := m[k].(float64); return int64(f) }
func vhS(m vhM, k string) string { s, _ := m[k].(string); return s }

func bad(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(1)
}

// watchdog ends the demonstration as failed if it takes too long.
func watchdog(s int) {
	go func() { time.Sleep(time.Duration(s) * time.Second); bad("no end") }()
}

func chainOf(js string) *Chain {
	var x []any
	vhMust(json.Unmarshal([]byte(js), &x))
	return FromJSON(x, 0)
}

type opts struct {
	threads   int
	json, chi bool
	node      func(*Node)
	hashRam   bool
	wrap      func(http.RoundTripper) http.RoundTripper
}

var blkNeis = []string{"time", "mediantime", "difficulty", "strippedsize", "size", "weight"}
var trnNeis = []string{"size", "vsize", "weight"}

func (o *opts) wrapped(nd http.RoundTripper) http.RoundTripper {
	if o.wrap == nil {
		return nd
	}
	return o.wrap(nd)
}

// importChain imports the first n blocks of a chain into dir.
func importChain(c *Chain, n int64, dir string, o opts) {
	if o.threads == 0 {
		o.threads = 2
	}
	vhMust(os.MkdirAll(dir, 0o755))
	nd := NewNode(c, 1)
	if o.node != nil {
		o.node(nd)
	}
	corereader2.TheOneAndOnlyClient.Transport = o.wrapped(nd)
	var err error
	if o.chi {
		err = jobs.PhaseOneParallelIntrinsicChi(dir, o.json, n, 1000, o.threads, "\n")
	} else {
		err = jobs.PhaseOneParallelIntrinsic(dir, o.json, n, 1000, o.threads, "\n")
	}
	if err != nil {
		bad("phase one: %v", err)
	}
	for _, kind := range []string{"Addresses", "Transactions", "Blocks"} {
		p := indexedhashes3.NewHashStoreParams(32, 100, 2, 4, 8, 8)
		_, pl, err := indexedhashes3.NewHashStoreCreatorAndPreloaderAdaptive(dir, kind+"/Hashes", p, 1)
		if err == nil {
			err = pl.IndexTheHashes(o.threads)
		}
		if err != nil {
			bad("phase two: %v", err)
		}
	}
	acc, err := chainstorage.NewConcreteAppendableChainCreator(dir, blkNeis, trnNeis, true, false, o.hashRam)
	vhMust(err)
	if err = acc.CreateFromHashStores(); err != nil {
		bad("create: %v", err)
	}
	ac, ind, err := acc.OpenWithIndexer()
	if err != nil {
		bad("open: %v", err)
	}
	nd = NewNode(c, 2)
	if o.node != nil {
		o.node(nd)
	}
	corereader2.TheOneAndOnlyClient.Transport = o.wrapped(nd)
	if o.chi {
		err = jobs.PhaseThreeParallelIntrinsicChi(n, o.json, 1000, ac, ind, o.threads, "\n")
	} else {
		err = jobs.PhaseThreeParallelIntrinsic(n, o.json, 1000, ac, ind, o.threads, "\n")
	}
	if err != nil {
		bad("phase three: %v", err)
	}
}

// verify compares what the stored chain answers with the chain.
func verify(c *Chain, n int64, dir string) {
	acc, err := chainstorage.NewConcreteAppendableChainCreator(dir, blkNeis, trnNeis, true, false, false)
	vhMust(err)
	ch, hc, par, _, err := acc.OpenReadOnly()
	if err != nil {
		bad("open read only: %v", err)
	}
	ck := func(err error) {
		if err != nil {
			bad("read: %v", err)
		}
	}
	first := map[Hash]int64{} // transaction id -> first height
	outs := map[Hash][]int64{}
	txo0 := []int64{}
	nt, ni, no := int64(0), int64(0), int64(0)
	for _, b := range c.Blocks[:n] {
		for _, t := range b.Txs {
			if _, ok := first[t.Id]; !ok {
				first[t.Id] = nt
			}
			txo0 = append(txo0, no)
			for _, o := range t.Outs {
				a := sha256.Sum256(o.Script)
				outs[a] = append(outs[a], no)
				no++
			}
			nt++
		}
	}
	lb, err := ch.LatestBlock()
	ck(err)
	lt, err := ch.LatestTransaction()
	ck(err)
	if lb.Height() != n-1 || lt.Height() != nt-1 {
		bad("counts: %d blocks, %d transactions", lb.Height()+1, lt.Height()+1)
	}
	nt, no = 0, 0
	for h, b := range c.Blocks[:n] {
		hb, err := hc.BlockHandleByHash(indexedhashes.Sha256(b.Hash))
		ck(err)
		bi, err := ch.BlockInterface(hb)
		ck(err)
		nn, err := bi.TransactionCount()
		ck(err)
		m, err := bi.NonEssentialInts()
		ck(err)
		if bi.Height() != int64(h) || nn != int64(len(b.Txs)) {
			bad("block %d: height %d, %d transactions", h, bi.Height(), nn)
		}
		for k, v := range map[string]int64{"time": int64(b.Time), "mediantime": b.Median, "difficulty": b.Difficulty, "strippedsize": b.Stripped, "size": b.Size, "weight": b.Weight} {
			if (*m)[k] != v {
				bad("block %d: %s is %d, not %d", h, k, (*m)[k], v)
			}
		}
		for k, t := range b.Txs {
			x, err := bi.NthTransaction(int64(k))
			ck(err)
			tr, err := ch.TransInterface(x)
			ck(err)
			if tr.Height() != nt {
				bad("transaction %d of block %d has height %d", k, h, tr.Height())
			}
			hx, err := tr.Hash()
			ck(err)
			if hx != indexedhashes.Sha256(t.Id) && hx != (indexedhashes.Sha256{}) {
				bad("transaction %d has another hash", nt)
			}
			fh, err := hc.TransactionHandleByHash(indexedhashes.Sha256(t.Id))
			ck(err)
			if fh.Height() != first[t.Id] {
				bad("transaction %d is found at %d", nt, fh.Height())
			}
			p, err := par.ParentBlockOfTrans(nt)
			ck(err)
			if p != int64(h) {
				bad("transaction %d: parent block %d", nt, p)
			}
			m, err := tr.NonEssentialInts()
			ck(err)
			for k, v := range map[string]int64{"size": t.Size, "vsize": t.VSize, "weight": t.Weight} {
				if (*m)[k] != v {
					bad("transaction %d: %s is %d, not %d", nt, k, (*m)[k], v)
				}
			}
			ins := t.Ins
			if k == 0 {
				ins = nil
			}
			cnt, err := tr.TxiCount()
			ck(err)
			if cnt != int64(len(ins)) {
				bad("transaction %d: %d inputs", nt, cnt)
			}
			for j, in := range ins {
				y, err := tr.NthTxi(int64(j))
				ck(err)
				if y.TxiHeight() != ni {
					bad("input %d of transaction %d: %d", j, nt, y.TxiHeight())
				}
				ti, err := ch.TxiInterface(y)
				ck(err)
				src, err := ti.SourceTxo()
				ck(err)
				so, err := ch.TxoInterface(src)
				ck(err)
				if so.TxoHeight() != txo0[first[in.Src]]+in.Vout {
					bad("input %d spends output %d", ni, so.TxoHeight())
				}
				p, err := par.ParentTransOfTxi(ni)
				ck(err)
				if p != nt {
					bad("input %d: parent %d", ni, p)
				}
				ni++
			}
			cnt, err = tr.TxoCount()
			ck(err)
			if cnt != int64(len(t.Outs)) {
				bad("transaction %d: %d outputs", nt, cnt)
			}
			sats, err := tr.AllTxoSatoshis()
			ck(err)
			if len(sats) != len(t.Outs) {
				bad("transaction %d: %d values", nt, len(sats))
			}
			for j, ot := range t.Outs {
				y, err := tr.NthTxo(int64(j))
				ck(err)
				to, err := ch.TxoInterface(y)
				ck(err)
				v, err := to.Satoshis()
				ck(err)
				if y.TxoHeight() != no || v != ot.Val || sats[j] != ot.Val {
					bad("output %d of transaction %d: %d, %d satoshis", j, nt, y.TxoHeight(), v)
				}
				p, err := par.ParentTransOfTxo(no)
				ck(err)
				if p != nt {
					bad("output %d: parent %d", no, p)
				}
				ah, err := to.Address()
				ck(err)
				ai, err := ch.AddressInterface(ah)
				ck(err)
				a := sha256.Sum256(ot.Script)
				h2 := ai.Hash()
				if !bytes.Equal(h2[:], a[:]) {
					bad("output %d: another address", no)
				}
				no++
			}
			nt++
		}
	}
	for a, list := range outs {
		ah, err := hc.AddressHandleByHash(a)
		ck(err)
		ai, err := ch.AddressInterface(ah)
		ck(err)
		cnt, err := ai.TxoCount()
		ck(err)
		got := []int64{}
		for k := int64(0); k < cnt; k++ {
			o, err := ai.NthTxo(k)
			ck(err)
			got = append(got, o.TxoHeight())
		}
		if fmt.Sprint(got) != fmt.Sprint(list) {
			bad("address: outputs %v, not %v", got, list)
		}
	}
}

// refinish recalculates blocks from the one at the height given, after their transactions have been changed.
func (c *Chain) refinish(from int) {
	for i := from; i < len(c.Blocks); i++ {
		if i > 0 {
			c.Blocks[i].Prev = c.Blocks[i-1].Hash
		}
		c.Blocks[i].Finish()
	}
	c.At = map[Hash]int{}
	for i, b := range c.Blocks {
		c.At[b.Hash] = i
	}
}
