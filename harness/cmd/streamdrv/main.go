// streamdrv has the real code stream header hashes and fetch blocks from a fake node.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"runtime"
	"sort"
	"syscall"
	"time"

	"github.com/KitchenMishap/pudding-shed/corereader2"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"verifharness/chainkit"
	"verifharness/vh"
)

func main() {
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	if vh.B(sc.Cfg, "fetch") {
		fetch(sc, t)
		return
	}
	longest := 1
	for _, o := range sc.Ops {
		if l := int(vh.I(o, "len") + vh.I(o, "more")); l > longest {
			longest = l
		}
	}
	c := chainkit.HeaderChain(longest)
	for _, o := range sc.Ops {
		t.Add(vh.M{"op": "new", "len": vh.I(o, "len")})
		if !stream(c, o, t) {
			return
		}
	}
}

func hung(t *vh.Trace, what string) {
	buf := make([]byte, 1<<16)
	st := string(buf[:runtime.Stack(buf, true)])
	if len(st) > 5000 {
		st = st[:5000]
	}
	t.Add(vh.M{"op": "hang", "name": what, "stack": st})
}

func stream(c *chainkit.Chain, o vh.M, t *vh.Trace) bool {
	nd := chainkit.NewNode(c, 1)
	nd.Tip = int(vh.I(o, "len"))
	nd.GrowAt, nd.GrowTo = int(vh.I(o, "grow")), nd.Tip+int(vh.I(o, "more"))
	nd.HeadFault = map[int]string{}
	if f := int(vh.I(o, "failat")); f >= 0 {
		nd.HeadFault[f] = vh.S(o, "fail")
	}
	corereader2.TheOneAndOnlyClient.Transport = nd
	n := vh.I(o, "n")
	ch := make(chan indexedhashes.Sha256, int(vh.I(o, "n")%3)) // unbuffered or not
	errs := make(chan vh.M, 1)
	go func() {
		tt := &vh.Trace{}
		vh.Guard(tt, func() {
			tt.Add(vh.M{"op": "stream", "err": vh.Err(corereader2.StreamBlockHashesFromGenesis(n, ch))})
		})
		errs <- tt.Events[0]
	}()
	runs, last := [][2]int{}, -2
	limit := time.After(60 * time.Second)
	var e vh.M
	open := true
	for open || e == nil {
		in := ch
		if !open {
			in = nil
		}
		select {
		case h, ok := <-in:
			if !ok {
				open = false
				break
			}
			at, known := c.At[h]
			if !known {
				at = -1
			}
			if known && len(runs) > 0 && at == last+1 {
				runs[len(runs)-1][1]++
			} else if len(runs) < 50 {
				runs = append(runs, [2]int{at, 1})
			}
			last = at
		case e = <-errs:
			if e["op"] != "stream" {
				t.Add(e)
				return false
			}
			// the stream has ended: what is still in the channel, and whether it is closed
			if open && cap(ch) == 0 {
				select {
				case _, ok := <-ch:
					open = ok
				case <-time.After(100 * time.Millisecond):
					e["closed"] = false
					open = false
				}
			}
		case <-limit:
			hung(t, "stream")
			return false
		}
	}
	if _, ok := e["closed"]; !ok {
		e["closed"] = true
	}
	e["n"], e["got"], e["hit"], e["len2"] = n, runs, nd.Hit, nd.Tip
	t.Add(e)
	return true
}

func fetch(sc vh.Scenario, t *vh.Trace) {
	blocks := make([]any, len(sc.Ops))
	for i, o := range sc.Ops {
		blocks[i] = map[string]any(o)
	}
	c := chainkit.FromJSON(blocks, 0)
	t.Add(vh.M{"op": "new", "len": len(c.Blocks)})
	for _, e := range c.Events(len(c.Blocks)) {
		t.Add(e)
	}
	for _, x := range sc.Cfg["runs"].([]any) {
		r := x.(map[string]any)
		of := []int{}
		for _, y := range r["of"].([]any) {
			of = append(of, int(y.(float64)))
		}
		nd := chainkit.NewNode(c, vh.I(r, "seed"))
		nd.MaxDelay = int(vh.I(r, "delay"))
		for _, y := range r["faults"].([]any) {
			p := y.([]any)
			nd.Faults[[2]int64{int64(p[0].(float64)), int64(p[1].(float64))}] = p[2].(string)
		}
		for _, y := range r["hold"].([]any) {
			p := y.([]any)
			nd.Hold[int64(p[0].(float64))] = int(p[1].(float64))
		}
		corereader2.TheOneAndOnlyClient.Transport = nd
		in, out := make(chan indexedhashes.Sha256), make(chan *corereader2.HeightNumberedBlock, int(vh.I(r, "buf")))
		go func() {
			for _, h := range of {
				in <- c.Blocks[h].Hash
			}
			close(in)
		}()
		corereader2.GetAndParseBlocks(in, vh.B(r, "json"), out, int(vh.I(r, "threads")))
		got := []*corereader2.HeightNumberedBlock{}
		limit := time.After(60 * time.Second)
		for open := true; open; {
			select {
			case b, ok := <-out:
				if ok {
					got = append(got, b)
				}
				open = ok
			case <-limit:
				hung(t, "fetch")
				return
			}
		}
		vh.Guard(t, func() { t.Add(vh.M{"op": "fetch", "closed": true, "err": "", "of": of, "got": describe(got)}) })
	}
}

func describe(got []*corereader2.HeightNumberedBlock) []vh.M {
	sort.SliceStable(got, func(i, j int) bool { return got[i].BlockHeight < got[j].BlockHeight })
	res := []vh.M{}
	for _, b := range got {
		txs := []vh.M{}
		for k := range b.Block.Transactions {
			tx := &b.Block.Transactions[k]
			ins, outs := []any{}, []any{}
			if k > 0 {
				for j := range tx.TxiCount() {
					i := tx.GetTxi(b.Block.Storage, j)
					ins = append(ins, []any{chainkit.Rev(i.TxId), i.VOut})
				}
			}
			for j := range tx.TxoCount() {
				o := tx.GetTxo(b.Block.Storage, j)
				a := sha256.Sum256(b.Block.Storage.Scripts[o.ScriptPubKeyStart : o.ScriptPubKeyStart+o.ScriptPubKeyLen])
				outs = append(outs, []any{fmt.Sprint(o.Value), hex.EncodeToString(a[:])})
			}
			txs = append(txs, vh.M{"id": chainkit.Rev(tx.TxId), "ins": ins, "outs": outs})
		}
		res = append(res, vh.M{"h": b.BlockHeight, "hash": chainkit.Rev(b.BlockHash), "bhash": chainkit.Rev(b.Block.BlockHash), "txs": txs})
	}
	return res
}
