package main

// Chains taken from other sources than the node's blocks: a chain stored anew from the stored chain itself, from a source
// that specifies its objects in whichever ways it was told to, and from one block after the other with the appendable
// chain making its own index of transactions.

import (
	"errors"
	"os"

	"verifharness/chainkit"
	"verifharness/vh"

	"github.com/KitchenMishap/pudding-shed/chainreadinterface"
	"github.com/KitchenMishap/pudding-shed/chainstorage"
	"github.com/KitchenMishap/pudding-shed/indexedhashes"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectschi"
	"github.com/KitchenMishap/pudding-shed/intrinsicobjectscri"
	"github.com/KitchenMishap/pudding-shed/transactionindexing"
)

// ways in which a made source specifies things
const (
	blkHeight = 1 << iota
	trnHeight
	trnPath
	txiHeight
	txoHeight
	adrHeight
	srcHeight
	srcPath
)

type made struct {
	c        *chainkit.Chain
	n        int64
	ways     int64
	firstTrn []int64   // the number of a block's first transaction
	txi, txo [][]int64 // the numbers of a transaction's first input and output, by block and place
	at       map[chainkit.Hash][2]int64
	adr      map[chainkit.Hash]int64
}

func (m *made) is(w int64) bool { return m.ways&w != 0 }

func make_(c *chainkit.Chain, n, ways int64) *made {
	m := &made{c: c, n: n, ways: ways, at: map[chainkit.Hash][2]int64{}, adr: map[chainkit.Hash]int64{}}
	var t, i, o int64
	for h, b := range c.Blocks[:n] {
		m.firstTrn = append(m.firstTrn, t)
		var is, os []int64
		for k, x := range b.Txs {
			is, os = append(is, i), append(os, o)
			if _, ok := m.at[x.Id]; !ok {
				m.at[x.Id] = [2]int64{int64(h), int64(k)}
			}
			if k > 0 {
				i += int64(len(x.Ins))
			}
			for _, y := range x.Outs {
				a := indexedhashes.HashOfBytes(y.Script)
				if _, ok := m.adr[a]; !ok {
					m.adr[a] = o
				}
				o++
			}
			t++
		}
		m.txi, m.txo = append(m.txi, is), append(m.txo, os)
	}
	return m
}

func (m *made) unique() bool {
	k := 0
	for _, b := range m.c.Blocks[:m.n] {
		k += len(b.Txs)
	}
	return k == len(m.at)
}

type mBlk struct {
	m *made
	h int64
}

func (x mBlk) Height() int64 {
	if x.m.is(blkHeight) || x.h < 0 {
		return x.h
	}
	return -99
}
func (x mBlk) Hash() (indexedhashes.Sha256, error) {
	return indexedhashes.Sha256(x.m.c.Blocks[x.h].Hash), nil
}
func (x mBlk) HeightSpecified() bool            { return x.m.is(blkHeight) }
func (x mBlk) HashSpecified() bool              { return true }
func (x mBlk) IsBlockHandle()                   {}
func (x mBlk) IsInvalid() bool                  { return x.h < 0 }
func (x mBlk) TransactionCount() (int64, error) { return int64(len(x.m.c.Blocks[x.h].Txs)), nil }
func (x mBlk) NthTransaction(n int64) (chainreadinterface.ITransHandle, error) {
	return mTrn{m: x.m, b: x.h, t: n, ht: x.m.is(trnHeight), path: x.m.is(trnPath), hash: true}, nil
}
func (x mBlk) NonEssentialInts() (*map[string]int64, error) {
	b := x.m.c.Blocks[x.h]
	return &map[string]int64{"time": int64(b.Time), "mediantime": b.Median, "difficulty": b.Difficulty, "strippedsize": b.Stripped, "size": b.Size, "weight": b.Weight,
		"version": int64(b.Ver), "nonce": int64(b.Nonce)}, nil
}

type mTrn struct {
	m              *made
	b, t           int64
	ht, path, hash bool
}

func (x mTrn) tx() *chainkit.Tx { return x.m.c.Blocks[x.b].Txs[x.t] }
func (x mTrn) Height() int64 {
	if x.ht {
		return x.m.firstTrn[x.b] + x.t
	}
	return -99
}
func (x mTrn) Hash() (indexedhashes.Sha256, error) {
	if !x.hash {
		return indexedhashes.Sha256{}, errors.New("a hash that was not specified")
	}
	return indexedhashes.Sha256(x.tx().Id), nil
}
func (x mTrn) IndicesPath() (int64, int64) {
	if x.path {
		return x.b, x.t
	}
	return -98, -98
}
func (x mTrn) HeightSpecified() bool      { return x.ht }
func (x mTrn) HashSpecified() bool        { return x.hash }
func (x mTrn) IndicesPathSpecified() bool { return x.path }
func (x mTrn) IsTransHandle()             {}
func (x mTrn) IsInvalid() bool            { return x.b < 0 }
func (x mTrn) TxiCount() (int64, error) {
	if x.t == 0 {
		return 0, nil
	}
	return int64(len(x.tx().Ins)), nil
}
func (x mTrn) NthTxi(n int64) (chainreadinterface.ITxiHandle, error) { return mTxi{mTxx{x, n}}, nil }
func (x mTrn) TxoCount() (int64, error)                              { return int64(len(x.tx().Outs)), nil }
func (x mTrn) NthTxo(n int64) (chainreadinterface.ITxoHandle, error) {
	return mTxo{mTxx{x, n}, x.m.is(txoHeight), true}, nil
}
func (x mTrn) AllTxoSatoshis() ([]int64, error) {
	v := []int64{}
	for _, o := range x.tx().Outs {
		v = append(v, o.Val)
	}
	return v, nil
}
func (x mTrn) NonEssentialInts() (*map[string]int64, error) {
	t := x.tx()
	return &map[string]int64{"size": t.Size, "vsize": t.VSize, "weight": t.Weight, "version": int64(t.Ver), "locktime": int64(t.Lock)}, nil
}

type mTxx struct {
	p mTrn
	n int64
}

func (x mTxx) ParentTrans() chainreadinterface.ITransHandle { return x.p }
func (x mTxx) ParentIndex() int64                           { return x.n }
func (x mTxx) ParentSpecified() bool                        { return true }
func (x mTxx) IndicesPath() (int64, int64, int64)           { return x.p.b, x.p.t, x.n }
func (x mTxx) IndicesPathSpecified() bool                   { return x.p.path }

type mTxi struct{ mTxx }

func (x mTxi) TxiHeight() int64 {
	if x.TxiHeightSpecified() {
		return x.p.m.txi[x.p.b][x.p.t] + x.n
	}
	return -97
}
func (x mTxi) TxiHeightSpecified() bool { return x.p.m.is(txiHeight) }
func (x mTxi) SourceTxo() (chainreadinterface.ITxoHandle, error) {
	in := x.p.tx().Ins[x.n]
	at, ok := x.p.m.at[in.Src]
	if !ok {
		return nil, errors.New("unknown source")
	}
	h, p := x.p.m.is(srcHeight), x.p.m.is(srcPath)
	return mTxo{mTxx{mTrn{m: x.p.m, b: at[0], t: at[1], ht: h, path: p, hash: !h && !p}, in.Vout}, false, false}, nil
}

type mTxo struct {
	mTxx
	ht, whole bool
}

func (x mTxo) TxoHeight() int64 {
	if x.ht {
		return x.p.m.txo[x.p.b][x.p.t] + x.n
	}
	return -96
}
func (x mTxo) TxoHeightSpecified() bool { return x.ht }
func (x mTxo) Satoshis() (int64, error) { return x.p.tx().Outs[x.n].Val, nil }
func (x mTxo) Address() (chainreadinterface.IAddressHandle, error) {
	return mAdr{x.p.m, indexedhashes.HashOfBytes(x.p.tx().Outs[x.n].Script)}, nil
}

type mAdr struct {
	m *made
	h indexedhashes.Sha256
}

func (x mAdr) Height() int64 {
	if x.HeightSpecified() {
		return x.m.adr[chainkit.Hash(x.h)]
	}
	return -95
}
func (x mAdr) Hash() indexedhashes.Sha256 { return x.h }
func (x mAdr) HeightSpecified() bool      { return x.m.is(adrHeight) }
func (x mAdr) HashSpecified() bool        { return true }
func (x mAdr) TxoCount() (int64, error)   { return 0, errors.New("not supported") }
func (x mAdr) NthTxo(int64) (chainreadinterface.ITxoHandle, error) {
	return nil, errors.New("not supported")
}

func (m *made) InvalidBlock() chainreadinterface.IBlockHandle { return mBlk{m, -1} }
func (m *made) InvalidTrans() chainreadinterface.ITransHandle { return mTrn{m: m, b: -1} }
func (m *made) GenesisBlock() chainreadinterface.IBlockHandle { return mBlk{m, 0} }
func (m *made) ParentBlock(b chainreadinterface.IBlockHandle) chainreadinterface.IBlockHandle {
	return mBlk{m, b.(mBlk).h - 1}
}
func (m *made) GenesisTransaction() (chainreadinterface.ITransHandle, error) {
	return mBlk{m, 0}.NthTransaction(0)
}
func (m *made) PreviousTransaction(chainreadinterface.ITransHandle) chainreadinterface.ITransHandle {
	return m.InvalidTrans()
}
func (m *made) IsBlockTree() bool { return false }
func (m *made) BlockInterface(b chainreadinterface.IBlockHandle) (chainreadinterface.IBlock, error) {
	return b.(mBlk), nil
}
func (m *made) TransInterface(t chainreadinterface.ITransHandle) (chainreadinterface.ITransaction, error) {
	return t.(mTrn), nil
}
func (m *made) TxiInterface(t chainreadinterface.ITxiHandle) (chainreadinterface.ITxi, error) {
	return t.(mTxi), nil
}
func (m *made) TxoInterface(t chainreadinterface.ITxoHandle) (chainreadinterface.ITxo, error) {
	return t.(mTxo), nil
}
func (m *made) AddressInterface(a chainreadinterface.IAddressHandle) (chainreadinterface.IAddress, error) {
	return a.(mAdr), nil
}
func (m *made) LatestBlock() (chainreadinterface.IBlockHandle, error) { return mBlk{m, m.n - 1}, nil }
func (m *made) NextBlock(b chainreadinterface.IBlockHandle) (chainreadinterface.IBlockHandle, error) {
	if h := b.(mBlk).h + 1; h < m.n {
		return mBlk{m, h}, nil
	}
	return m.InvalidBlock(), nil
}
func (m *made) LatestTransaction() (chainreadinterface.ITransHandle, error) {
	return nil, errors.New("not supported")
}
func (m *made) NextTransaction(chainreadinterface.ITransHandle) (chainreadinterface.ITransHandle, error) {
	return nil, errors.New("not supported")
}

var _ chainreadinterface.IBlockChain = (*made)(nil)

// copy stores the chain anew, from the source that the run names; true when all went well.
func (im *importer) copy() bool {
	from, ways := vh.S(im.r, "copy"), vh.I(im.r, "ways")
	m := make_(im.c, im.n, ways)
	delegated := from == "made" && ways&(trnHeight|trnPath) != 0 && vh.B(im.r, "delegated")
	if !delegated && !m.unique() {
		return true // it finds transactions by their hashes: only where these tell them apart
	}
	to := &importer{c: im.c, n: im.n, r: im.r, dir: im.dir + "copy", t: im.t, sole: !delegated}
	defer os.RemoveAll(to.dir)
	vh.Must(os.MkdirAll(to.dir, 0o755))
	source := func() (chainreadinterface.IBlockChain, error) {
		if from == "made" {
			return m, nil
		}
		acc, err := im.creator(false)
		if err != nil {
			return nil, err
		}
		ch, _, _, _, err := acc.OpenReadOnly()
		return ch, err
	}
	each := func(f func(src chainreadinterface.IBlockChain, b chainreadinterface.IBlockHandle, h int64) error) error {
		src, err := source()
		if err != nil {
			return err
		}
		b := src.GenesisBlock()
		for h := int64(0); err == nil && !b.IsInvalid(); h++ {
			if err = f(src, b, h); err == nil {
				b, err = src.NextBlock(b)
			}
		}
		return err
	}
	ok := im.phase("copy hashes", func() error {
		if from == "chi" || from == "cri" {
			return to.directHashes(vh.B(im.r, "json"), from == "chi")
		}
		hcc := chainstorage.NewConcreteHashesChainCreator(to.dir)
		if err := hcc.Create(); err != nil {
			return err
		}
		hc, err := hcc.Open()
		if err != nil {
			return err
		}
		defer hc.Close()
		// the stored chain's outputs specify no hashes of their addresses, which this demands
		for h := int64(0); h < im.n && err == nil; h++ {
			err = hc.AppendHashesCri(m, mBlk{m, h}, h)
		}
		return err
	})
	ok = ok && im.phase("copy index", func() error { return to.index(1) })
	ok = ok && im.phase("copy store", func() error {
		acc, err := to.creator(false)
		if err != nil {
			return err
		}
		if err = acc.CreateFromHashStores(); err != nil {
			return err
		}
		var ac chainstorage.IAppendableChain
		var ind transactionindexing.ITransactionIndexer
		if delegated {
			ac, ind, err = acc.OpenWithIndexer()
		} else {
			ac, err = acc.Open()
		}
		if err != nil {
			return err
		}
		defer func() { ac.Close() }()
		if from == "chi" || from == "cri" {
			return to.appendAll(ac, from == "chi")
		}
		return each(func(src chainreadinterface.IBlockChain, b chainreadinterface.IBlockHandle, h int64) error {
			if ind != nil { // whoever feeds the chain tells the index
				for t := m.firstTrn[h]; t < m.firstTrn[h]+int64(len(im.c.Blocks[h].Txs)); t++ {
					id := indexedhashes.Sha256(im.c.Blocks[h].Txs[t-m.firstTrn[h]].Id)
					if err := ind.StoreTransHashToHeight(&id, t); err != nil {
						return err
					}
					if err := ind.StoreTransHeightToParentBlock(t, h); err != nil {
						return err
					}
				}
				if err := ind.StoreBlockHeightToFirstTrans(h, m.firstTrn[h]); err != nil {
					return err
				}
			}
			if err := ac.AppendBlock(src, b); err != nil {
				return err
			}
			if k := vh.I(im.r, "reopens"); k > 0 && h%k == 0 {
				ac.Close()
				if delegated {
					ac, ind, err = acc.OpenWithIndexer()
				} else {
					ac, err = acc.Open()
				}
			}
			return err
		})
	})
	if !ok {
		return false
	}
	if vh.B(im.r, "dump") {
		to.dump()
	}
	im.t.Add(vh.M{"op": "copied", "from": im.digests(), "to": to.digests()})
	if vh.B(im.r, "reads") {
		return im.phase("read", func() error { return to.readOnly(false) })
	}
	return true
}

// appendAll appends the node's blocks one after the other, without anyone indexing transactions for the chain.
func (im *importer) appendAll(ac chainstorage.IAppendableChain, chi bool) error {
	useJson := vh.B(im.r, "json")
	if chi {
		obh := intrinsicobjectschi.CreateOneBlockHolder(nil)
		go im.feed(useJson, obh.InChan)
		hb, err := obh.GenesisBlock()
		for err == nil && !obh.IsBlockHandleInvalid(hb) {
			if err = ac.AppendBlockChi(obh, hb); err == nil {
				hb, err = obh.NextBlock(hb)
			}
		}
		return err
	}
	obh := intrinsicobjectscri.CreateOneBlockHolder(nil)
	go im.feed(useJson, obh.InChan)
	var err error
	for hb := obh.GenesisBlock(); err == nil && !hb.IsInvalid(); {
		if err = ac.AppendBlock(obh, hb); err == nil {
			hb, err = obh.NextBlock(hb)
		}
	}
	return err
}
