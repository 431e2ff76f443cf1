// codecdrv has the real parsers parse binary and JSON blocks, into fresh and reused storage, whole and truncated.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"
	"syscall"

	"github.com/KitchenMishap/pudding-shed/intrinsicobjects"
	"verifharness/chainkit"
	"verifharness/vh"
)

func main() {
	fd, err := syscall.Dup(1)
	vh.Must(err)
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	vh.Must(err)
	os.Stdout = null
	vh.RunTo(os.NewFile(uintptr(fd), "out"), run)
}

// expand gives the bytes that pieces stand for.
func expand(x any) []byte {
	var b bytes.Buffer
	for _, p := range x.([]any) {
		b.Write(piece(p))
	}
	return b.Bytes()
}
func piece(p any) []byte {
	q := p.([]any)
	raw, err := hex.DecodeString(q[0].(string))
	vh.Must(err)
	return bytes.Repeat(raw, int(q[1].(float64)))
}
func word(x any) (n uint64) {
	for _, w := range x.([]any) {
		n = n<<16 | uint64(w.(float64))
	}
	return
}
func limbs(n uint64, k int) []int {
	r := make([]int, k)
	for i := range r {
		r[i] = int(n >> (16 * (k - 1 - i)) & 0xffff)
	}
	return r
}
func arr(m any, k string) []any { a, _ := m.(map[string]any)[k].([]any); return a }
func num(m any, k string) int   { return int(m.(map[string]any)[k].(float64)) }

type source struct {
	bin, js []byte
	raws    [][]byte // per transaction group
	txs     []vh.M   // JSON of each transaction group
	n       []int
}

// btc is a value as Core writes it; values beyond what it can be are not for JSON.
func btc(v uint64) json.Number {
	if v > 1<<53 {
		return "0"
	}
	return chainkit.Btc(int64(v))
}

func rev(s string) string {
	b, err := hex.DecodeString(s)
	vh.Must(err)
	var h chainkit.Hash
	copy(h[:], b)
	return chainkit.Rev(h)
}

func merge[T any](list []T) []vh.M {
	r := []vh.M{}
	for _, x := range list {
		if len(r) > 0 && reflect.DeepEqual(r[len(r)-1]["x"], any(x)) {
			r[len(r)-1]["n"] = r[len(r)-1]["n"].(int) + 1
		} else {
			r = append(r, vh.M{"x": x, "n": 1})
		}
	}
	return r
}

func makeSource(p map[string]any, t *vh.Trace) *source {
	b := p["b"].(map[string]any)
	s := &source{bin: expand(p["bin"])}
	t.Add(vh.M{"op": "block", "b": b})
	head := chainkit.Dsha(expand(p["head"]))
	t.Add(vh.M{"op": "sha", "c": p["head"], "d": hex.EncodeToString(head[:])})
	seen := map[string]bool{}
	jtx := []any{}
	total := 0
	for k, y := range arr(b, "txs") {
		pre := p["pres"].([]any)[k]
		id := chainkit.Dsha(expand(pre))
		t.Add(vh.M{"op": "sha", "c": pre, "d": hex.EncodeToString(id[:])})
		raw := expand(p["raw"].([]any)[k])
		wid := chainkit.Dsha(raw)
		vin, vout := []any{}, []any{}
		for j, in := range arr(y, "ins") {
			m := vh.M{"sequence": word(in.(map[string]any)["seq"])}
			if k == 0 && j == 0 {
				m["coinbase"] = hex.EncodeToString(piece(in.(map[string]any)["sig"]))
			} else {
				m["txid"], m["vout"] = rev(vh.S(in.(map[string]any), "src")), word(in.(map[string]any)["v"])
				m["scriptSig"] = vh.M{"asm": "", "hex": hex.EncodeToString(piece(in.(map[string]any)["sig"]))}
			}
			w := []string{}
			for _, it := range arr(in, "wit") {
				w = append(w, hex.EncodeToString(piece(it)))
			}
			if len(w) > 0 {
				m["txinwitness"] = w
			}
			for range num(in, "n") {
				vin = append(vin, m)
			}
		}
		for _, o := range arr(y, "outs") {
			sc := o.(map[string]any)["scr"]
			raw := piece(sc)
			if key := fmt.Sprint(sc); !seen[key] {
				seen[key] = true
				h := sha256.Sum256(raw)
				t.Add(vh.M{"op": "scr", "c": sc, "d": hex.EncodeToString(h[:])})
			}
			for range num(o, "n") {
				vout = append(vout, vh.M{"value": btc(word(o.(map[string]any)["val"])), "n": len(vout),
					"scriptPubKey": vh.M{"asm": "", "desc": "", "hex": hex.EncodeToString(raw), "type": "nonstandard"}})
			}
		}
		sz := p["txs"].([]any)[k]
		m := vh.M{"txid": chainkit.Rev(id), "hash": chainkit.Rev(wid), "version": word(y.(map[string]any)["ver"]), "size": num(sz, "size"), "vsize": num(sz, "vsize"),
			"weight": num(sz, "weight"), "locktime": word(y.(map[string]any)["lock"]), "vin": vin, "vout": vout, "hex": hex.EncodeToString(raw)}
		s.txs, s.raws, s.n = append(s.txs, m), append(s.raws, raw), append(s.n, num(y, "n"))
		for range num(y, "n") {
			jtx = append(jtx, m)
			total++
		}
	}
	bits := uint32(word(b["bits"]))
	m := vh.M{"hash": chainkit.Rev(head), "confirmations": 3, "height": 77, "version": int32(word(b["ver"])), "versionHex": fmt.Sprintf("%08x", word(b["ver"])),
		"merkleroot": rev(vh.S(b, "merkle")), "time": word(b["time"]), "mediantime": 1, "nonce": word(b["nonce"]), "bits": fmt.Sprintf("%08x", bits),
		"difficulty": json.Number(strconv.FormatFloat(chainkit.CoreDifficulty(bits), 'g', 16, 64)), "chainwork": "00", "nTx": total, "previousblockhash": rev(vh.S(b, "prev")),
		"strippedsize": num(p, "stripped"), "size": num(p, "size"), "weight": num(p, "weight"), "tx": jtx}
	var err error
	s.js, err = json.Marshal(m)
	vh.Must(err)
	return s
}

func showTx(t *intrinsicobjects.Transaction, st *intrinsicobjects.MultiTransactionStorage) vh.M {
	ins, outs := []vh.M{}, []vh.M{}
	for k := range t.TxiCount() {
		x := t.GetTxi(st, k)
		v := limbs(uint64(x.VOut), 2)
		if x.VOut < 0 || x.VOut > math.MaxUint32 {
			v = []int{-1, -1}
		}
		ins = append(ins, vh.M{"src": hex.EncodeToString(x.TxId[:]), "v": v})
	}
	for k := range t.TxoCount() {
		x := t.GetTxo(st, k)
		sc := st.Scripts[x.ScriptPubKeyStart : x.ScriptPubKeyStart+x.ScriptPubKeyLen]
		h := sha256.Sum256(sc)
		outs = append(outs, vh.M{"val": limbs(uint64(x.Value), 4), "scr": hex.EncodeToString(h[:]), "len": len(sc)})
	}
	return vh.M{"id": hex.EncodeToString(t.TxId[:]), "ver": limbs(uint64(t.Version), 2), "sw": t.IsSegWit, "ins": merge(ins), "outs": merge(outs),
		"size": t.Size, "stripped": t.StrippedSize, "vsize": t.VSize, "weight": t.Weight}
}

func show(b *intrinsicobjects.Block) vh.M {
	txs := []vh.M{}
	for k := range b.Transactions {
		txs = append(txs, showTx(&b.Transactions[k], b.Storage))
	}
	var d [8]byte
	binary.LittleEndian.PutUint64(d[:], uint64(int64(math.Round(b.Difficulty))))
	diff := []int{}
	for _, x := range d {
		diff = append(diff, int(x))
	}
	return vh.M{"hash": hex.EncodeToString(b.BlockHash[:]), "ver": limbs(uint64(b.Version), 2), "prev": hex.EncodeToString(b.PrevHash[:]),
		"merkle": hex.EncodeToString(b.MerkleRoot[:]), "time": limbs(uint64(b.Time), 2), "bits": limbs(uint64(b.NBits), 2), "nonce": limbs(uint64(b.Nonce), 2),
		"size": b.Size, "stripped": b.StrippedSize, "weight": b.Weight, "diff": diff, "txs": merge(txs)}
}

func parse(src []byte, js bool, b *intrinsicobjects.Block) error {
	if js {
		return intrinsicobjects.ParseJsonBlock(src, b)
	}
	return intrinsicobjects.ParseBinaryBlock(src, b)
}

func run(sc vh.Scenario, dir string, t *vh.Trace) {
	t.Add(vh.M{"op": "new"})
	srcs := []*source{}
	for _, p := range sc.Ops {
		srcs = append(srcs, makeSource(p, t))
	}
	slots := map[int64]*intrinsicobjects.Block{}
	for _, x := range sc.Cfg["plan"].([]any) {
		a := vh.M(x.(map[string]any))
		k, slot, js := vh.I(a, "k"), vh.I(a, "slot"), vh.B(a, "json")
		if slots[slot] == nil {
			slots[slot] = &intrinsicobjects.Block{}
		}
		src := srcs[0].bin
		if k > 0 {
			src = srcs[k-1].bin
			if js {
				src = srcs[k-1].js
			}
		}
		vh.Guard(t, func() {
			switch vh.S(a, "op") {
			case "parse":
				own := append([]byte{}, src...)
				err := parse(own, js, slots[slot])
				for i := range own { // the block must not depend on the source afterwards
					own[i] = 0xee
				}
				e := vh.M{"op": "parse", "k": k, "slot": slot, "json": js, "err": vh.Err(err)}
				if err == nil {
					e["blk"] = show(slots[slot])
				}
				t.Add(e)
			case "again":
				t.Add(vh.M{"op": "again", "slot": slot, "blk": show(slots[slot])})
			case "cuts":
				at, accepted := []int{}, []int{}
				try := func(n int) {
					if n < 0 || n >= len(src) {
						return
					}
					at = append(at, n)
					in := src[:n] // with capacity beyond its end
					if n%2 == 1 {
						in = append([]byte{}, in...)
					}
					if parse(in, js, slots[slot]) == nil {
						accepted = append(accepted, n)
					}
				}
				if lim := int(vh.I(a, "all")); len(src) <= lim {
					for n := range src {
						try(n)
					}
				} else {
					for n := range 90 {
						try(n)
						try(len(src) - 1 - n)
					}
					for _, f := range a["at"].([]any) {
						try(int(f.(float64) * float64(len(src))))
					}
				}
				t.Add(vh.M{"op": "cuts", "k": k, "slot": slot, "json": js, "at": at, "accepted": accepted, "whole": len(src)})
			case "txs":
				st := intrinsicobjects.NewMultiTransactionStorage()
				list, used := []*intrinsicobjects.Transaction{}, []int{}
				s := srcs[k-1]
				errText := ""
				for g := range s.raws {
					for range s.n[g] {
						tx := &intrinsicobjects.Transaction{}
						if js {
							j, err := json.Marshal(s.txs[g])
							vh.Must(err)
							if err = intrinsicobjects.ParseJsonTransaction(j, tx, st); err != nil {
								errText = err.Error()
							}
							used = append(used, 0)
						} else {
							lead := strings.Repeat("\x02", g%5) // not at the start of the bytes
							h := sha256.New()
							h.Write([]byte("left over"))
							used = append(used, intrinsicobjects.ParseBinaryTransaction(append([]byte(lead), append(append([]byte{}, s.raws[g]...), 1, 2, 3)...), len(lead), h, tx, st))
						}
						list = append(list, tx)
					}
				}
				shown := []vh.M{}
				for _, tx := range list {
					shown = append(shown, showTx(tx, st))
				}
				t.Add(vh.M{"op": "txs", "k": k, "json": js, "err": errText, "txs": merge(shown), "used": merge(used)})
			}
		})
	}
}
