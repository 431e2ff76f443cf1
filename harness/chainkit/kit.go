// Package chainkit builds synthetic block chains (binary and JSON forms, as Bitcoin Core's REST interface gives them)
// from abstract descriptions, independently of the code under test, and serves them through a fake HTTP transport.
package chainkit

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strconv"

	"verifharness/vh"
)

type Hash = [32]byte

func Dsha(b []byte) Hash { a := sha256.Sum256(b); return sha256.Sum256(a[:]) }

// Rev is the hash as it is written in hexadecimal for people.
func Rev(h Hash) string {
	var r Hash
	for i := range h {
		r[31-i] = h[i]
	}
	return hex.EncodeToString(r[:])
}

type In struct {
	Coinbase bool
	Src      Hash
	Vout     int64
	Sig      []byte
	Seq      uint32
	Wit      [][]byte
}
type Out struct {
	Val    int64
	Script []byte
}
type Tx struct {
	Ver, Lock uint32
	Segwit    bool
	Ins       []In
	Outs      []Out
	// derived
	Id, WId        Hash
	Size, Stripped int64
	Weight, VSize  int64
}
type Block struct {
	Ver        uint32
	Prev       Hash
	Merkle     Hash
	Time       uint32
	Bits       uint32
	Nonce      uint32
	Txs        []*Tx
	Hash       Hash
	Size       int64
	Stripped   int64
	Weight     int64
	Height     int64
	Median     int64
	Difficulty int64 // rounded
	Bin, JSON  []byte
}
type Chain struct {
	Blocks []*Block
	At     map[Hash]int
}

func compact(b *bytes.Buffer, n int) {
	switch {
	case n < 253:
		b.WriteByte(byte(n))
	case n < 1<<16:
		b.WriteByte(253)
		binary.Write(b, binary.LittleEndian, uint16(n))
	default:
		b.WriteByte(254)
		binary.Write(b, binary.LittleEndian, uint32(n))
	}
}

func (t *Tx) bytes(wit bool) []byte {
	var b bytes.Buffer
	le := binary.LittleEndian
	binary.Write(&b, le, t.Ver)
	if wit {
		b.Write([]byte{0, 1})
	}
	compact(&b, len(t.Ins))
	for _, i := range t.Ins {
		b.Write(i.Src[:])
		binary.Write(&b, le, uint32(i.Vout))
		compact(&b, len(i.Sig))
		b.Write(i.Sig)
		binary.Write(&b, le, i.Seq)
	}
	compact(&b, len(t.Outs))
	for _, o := range t.Outs {
		binary.Write(&b, le, uint64(o.Val))
		compact(&b, len(o.Script))
		b.Write(o.Script)
	}
	if wit {
		for _, i := range t.Ins {
			compact(&b, len(i.Wit))
			for _, w := range i.Wit {
				compact(&b, len(w))
				b.Write(w)
			}
		}
	}
	binary.Write(&b, le, t.Lock)
	return b.Bytes()
}

func (t *Tx) Finish() []byte {
	s, f := t.bytes(false), t.bytes(t.Segwit)
	t.Id, t.WId = Dsha(s), Dsha(f)
	t.Stripped, t.Size = int64(len(s)), int64(len(f))
	t.Weight = 3*t.Stripped + t.Size
	t.VSize = (t.Weight + 3) / 4
	return f
}

func merkle(ids []Hash) Hash {
	if len(ids) == 0 {
		return Hash{}
	}
	for len(ids) > 1 {
		if len(ids)%2 == 1 {
			ids = append(ids, ids[len(ids)-1])
		}
		var n []Hash
		for i := 0; i < len(ids); i += 2 {
			n = append(n, Dsha(append(append([]byte{}, ids[i][:]...), ids[i+1][:]...)))
		}
		ids = n
	}
	return ids[0]
}

func (b *Block) header() []byte {
	var w bytes.Buffer
	le := binary.LittleEndian
	binary.Write(&w, le, b.Ver)
	w.Write(b.Prev[:])
	w.Write(b.Merkle[:])
	binary.Write(&w, le, b.Time)
	binary.Write(&w, le, b.Bits)
	binary.Write(&w, le, b.Nonce)
	return w.Bytes()
}

// RoundedDifficulty is the difficulty of a compact target, rounded half away from zero, by exact arithmetic.
func RoundedDifficulty(bits uint32) int64 {
	t := new(big.Int).SetUint64(uint64(bits & 0xffffff))
	t.Lsh(t, uint(8*(int(bits>>24)-3)))
	g := new(big.Int).Lsh(big.NewInt(0xffff), 208)
	n := new(big.Int).Add(new(big.Int).Lsh(g, 1), t)
	return n.Div(n, new(big.Int).Lsh(t, 1)).Int64()
}

// CoreDifficulty is the difficulty as Bitcoin Core computes it.
func CoreDifficulty(bits uint32) float64 {
	shift := bits >> 24
	d := float64(0x0000ffff) / float64(bits&0x00ffffff)
	for shift < 29 {
		d *= 256
		shift++
	}
	for shift > 29 {
		d /= 256
		shift--
	}
	return d
}

func Btc(sats int64) json.Number {
	return json.Number(fmt.Sprintf("%d.%08d", sats/100000000, sats%100000000))
}

func (t *Tx) json() vh.M {
	vin := []vh.M{}
	for _, i := range t.Ins {
		m := vh.M{"sequence": i.Seq}
		if i.Coinbase {
			m["coinbase"] = hex.EncodeToString(i.Sig)
		} else {
			m["txid"], m["vout"] = Rev(i.Src), i.Vout
			m["scriptSig"] = vh.M{"asm": "", "hex": hex.EncodeToString(i.Sig)}
		}
		if len(i.Wit) > 0 {
			w := []string{}
			for _, x := range i.Wit {
				w = append(w, hex.EncodeToString(x))
			}
			m["txinwitness"] = w
		}
		vin = append(vin, m)
	}
	vout := []vh.M{}
	for k, o := range t.Outs {
		vout = append(vout, vh.M{"value": Btc(o.Val), "n": k,
			"scriptPubKey": vh.M{"asm": "", "desc": "", "hex": hex.EncodeToString(o.Script), "type": "nonstandard"}})
	}
	return vh.M{"txid": Rev(t.Id), "hash": Rev(t.WId), "version": t.Ver, "size": t.Size, "vsize": t.VSize, "weight": t.Weight,
		"locktime": t.Lock, "vin": vin, "vout": vout, "hex": ""}
}

// Finish computes everything derived, given the predecessor.
func (b *Block) Finish() {
	var body bytes.Buffer
	ids := []Hash{}
	compact(&body, len(b.Txs))
	b.Stripped = 80 + int64(body.Len())
	for _, t := range b.Txs {
		body.Write(t.Finish())
		ids = append(ids, t.Id)
		b.Stripped += t.Stripped
	}
	b.Difficulty = RoundedDifficulty(b.Bits)
	if b.Height != 0 {
		b.Merkle = merkle(ids)
	}
	h := b.header()
	b.Hash = Dsha(h)
	b.Bin = append(h, body.Bytes()...)
	b.Size = int64(len(b.Bin))
	b.Weight = 3*b.Stripped + b.Size
	txs := []vh.M{}
	for _, t := range b.Txs {
		txs = append(txs, t.json())
	}
	m := vh.M{"hash": Rev(b.Hash), "confirmations": 1, "height": b.Height, "version": b.Ver, "versionHex": fmt.Sprintf("%08x", b.Ver),
		"merkleroot": Rev(b.Merkle), "time": b.Time, "mediantime": b.Median, "nonce": b.Nonce, "bits": fmt.Sprintf("%08x", b.Bits),
		"difficulty": json.Number(strconv.FormatFloat(CoreDifficulty(b.Bits), 'g', 16, 64)), "chainwork": "00", "nTx": len(b.Txs),
		"strippedsize": b.Stripped, "size": b.Size, "weight": b.Weight, "tx": txs}
	if b.Height > 0 {
		m["previousblockhash"] = Rev(b.Prev)
	}
	j, err := json.Marshal(m)
	vh.Must(err)
	b.JSON = j
}

// Median is the protocol's median time past including the block itself.
func Median(times []int64) int64 {
	if len(times) > 11 {
		times = times[len(times)-11:]
	}
	s := append([]int64{}, times...)
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s[len(s)/2]
}

func unhex(s string) []byte { b, err := hex.DecodeString(s); vh.Must(err); return b }

// GenesisHeader fills in the header that the real genesis block has (the code under test insists on its hash).
func (b *Block) genesisHeader() {
	b.Ver, b.Time, b.Bits, b.Nonce = 1, 1231006505, 0x1d00ffff, 2083236893
	copy(b.Merkle[:], unhex("3ba3edfd7a7b12b27ac72c3e67768f617fc81bc3888a51323a9fb8aa4b1e5e4a"))
}

// pattern is a deterministic byte string.
func pattern(n int, seed int64) []byte {
	b := make([]byte, n)
	x := uint64(seed)*0x9E3779B97F4A7C15 + 12345
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 32)
	}
	return b
}

// Script is the locking script number k: different numbers have different scripts, of many lengths (number 0 is empty).
// Scripts of equal length differ in a few bytes only, at their start, in their middle or at their end, and those of other
// lengths share what they have in common; some are nothing but a longer or shorter row of one byte.
func Script(k int64) []byte {
	if k == 0 {
		return nil
	}
	n := []int{25, 34, 22, 67, 1, 300, 35, 10}[k%8]
	if n == 1 {
		if k%16 == 4 {
			return bytes.Repeat([]byte{0x51}, int(k))
		}
		return append([]byte{0x6a}, []byte(fmt.Sprint(k))...)
	}
	b := pattern(n, 77)
	at := []int{n - 3, 0, n / 2, n - 5}[(k/8)%4]
	copy(b[at:], []byte{byte(k), byte(k >> 8), byte(k>>16) ^ 0x87})
	return b
}

// FromJSON builds a chain from its abstract description: blocks, each {"dt": seconds after the previous block,
// "bits":, "txs": [{"salt":, "ins": [[b,t,v],..], "outs": [["value",script],..], "wit": 0|1}, ..]}; the first transaction
// of each block is its coinbase and has no "ins".
func FromJSON(blocks []any, t0 int64) *Chain {
	c := &Chain{At: map[Hash]int{}}
	times := []int64{}
	for h, x := range blocks {
		m := x.(map[string]any)
		b := &Block{Height: int64(h), Ver: 0x20000000, Bits: 0x1d00ffff, Nonce: uint32(7 * h)}
		if h == 0 {
			b.genesisHeader()
			if t0 != 0 {
				vh.Fatal("genesis time is fixed")
			}
		} else {
			b.Prev = c.Blocks[h-1].Hash
			b.Time = uint32(times[h-1] + vh.I(m, "dt"))
			if s := vh.S(m, "bits"); s != "" {
				n, err := strconv.ParseUint(s, 16, 32)
				vh.Must(err)
				b.Bits = uint32(n)
			}
		}
		times = append(times, int64(b.Time))
		b.Median = Median(times)
		for k, y := range m["txs"].([]any) {
			b.Txs = append(b.Txs, txFrom(c, b, y.(map[string]any), k == 0))
		}
		b.Finish()
		c.Blocks = append(c.Blocks, b)
		c.At[b.Hash] = h
	}
	return c
}

func txFrom(c *Chain, cur *Block, m map[string]any, coinbase bool) *Tx {
	t := &Tx{Ver: 1 + uint32(vh.I(m, "salt")%2)}
	wit := vh.I(m, "wit")
	salt := vh.I(m, "salt")
	if coinbase {
		t.Ins = []In{{Coinbase: true, Vout: 0xffffffff, Sig: append(pattern(4+int(salt%90), salt), []byte(fmt.Sprint(salt))...), Seq: 0xffffffff}}
		if wit != 0 {
			t.Segwit = true
			t.Ins[0].Wit = [][]byte{make([]byte, 32)}
		}
	} else {
		for k, z := range m["ins"].([]any) {
			r := z.([]any)
			bi, ti, v := int(r[0].(float64)), int(r[1].(float64)), int64(r[2].(float64))
			src := cur
			if bi < len(c.Blocks) {
				src = c.Blocks[bi]
			}
			in := In{Src: src.Txs[ti].Id, Vout: v, Sig: pattern(int((salt+int64(k))%120), salt), Seq: uint32(0xfffffffd + salt%3)}
			if src == cur { // its id is not derived yet
				src.Txs[ti].Finish()
				in.Src = src.Txs[ti].Id
			}
			if wit != 0 {
				t.Segwit = true
				if k == 0 || wit > 1 {
					in.Wit = [][]byte{pattern(int(salt%75), salt), {}, pattern(33, salt+int64(k))}
				}
			}
			t.Ins = append(t.Ins, in)
		}
		t.Lock = uint32(salt)
	}
	for _, z := range m["outs"].([]any) {
		r := z.([]any)
		v, err := strconv.ParseInt(r[0].(string), 10, 64)
		vh.Must(err)
		t.Outs = append(t.Outs, Out{Val: v, Script: Script(int64(r[1].(float64)))})
	}
	return t
}

// Events is the chain as the specification is given it: block by block.
func (c *Chain) Events(upto int) []vh.M {
	res := []vh.M{}
	for _, b := range c.Blocks[:upto] {
		txs := []vh.M{}
		for k, t := range b.Txs {
			ins, outs := []any{}, []any{}
			if k > 0 {
				for _, i := range t.Ins {
					ins = append(ins, []any{Rev(i.Src), i.Vout})
				}
			}
			for _, o := range t.Outs {
				a := sha256.Sum256(o.Script)
				outs = append(outs, []any{fmt.Sprint(o.Val), hex.EncodeToString(a[:])})
			}
			txs = append(txs, vh.M{"id": Rev(t.Id), "neis": vh.M{"size": fmt.Sprint(t.Size), "vsize": fmt.Sprint(t.VSize), "weight": fmt.Sprint(t.Weight)},
				"ins": ins, "outs": outs})
		}
		res = append(res, vh.M{"op": "block", "hash": Rev(b.Hash), "time": []any{int64(b.Time) - 1<<31, fmt.Sprint(b.Time)}, "txs": txs,
			"neis": vh.M{"size": fmt.Sprint(b.Size), "strippedsize": fmt.Sprint(b.Stripped), "weight": fmt.Sprint(b.Weight),
				"difficulty": fmt.Sprint(b.Difficulty), "time": fmt.Sprint(b.Time)}})
	}
	return res
}

// HeaderChain is a chain of blocks that have headers only.
func HeaderChain(n int) *Chain {
	c := &Chain{At: map[Hash]int{}}
	for h := 0; h < n; h++ {
		b := &Block{Height: int64(h), Ver: 0x20000000, Time: uint32(1231006505 + 600*h), Bits: 0x1d00ffff, Nonce: uint32(h)}
		if h == 0 {
			b.genesisHeader()
		} else {
			b.Prev = c.Blocks[h-1].Hash
		}
		b.Hash = Dsha(b.header())
		c.Blocks = append(c.Blocks, b)
		c.At[b.Hash] = h
	}
	return c
}
