package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// LaterOp is something done to a builder, an edit or a larger operation.
type LaterOp struct {
	Kind  string  `json:"kind"`
	Edit  *EditOp `json:"edit,omitempty"`
	V     int64   `json:"v,omitempty"`
	Coins []Coin  `json:"coins,omitempty"`
	Keys  []int   `json:"keys,omitempty"`
}

type CopyCase struct {
	Tx     Tx        `json:"tx"`
	Before []LaterOp `json:"before"`
	A      []LaterOp `json:"a"` // on the original
	B      []LaterOp `json:"b"` // on the copy
	FlipA  bool      `json:"flip_a,omitempty"`
	FlipB  bool      `json:"flip_b,omitempty"`
}

func genLater(t *rapid.T, c Tx, base, max int) []LaterOp {
	var ops []LaterOp
	for n := rapid.IntRange(0, max).Draw(t, "operations"); n > 0; n-- {
		op := LaterOp{Kind: rapid.SampledFrom([]string{"edit", "edit", "edit", "edit", "calculate", "calculate",
			"adjust", "adjust", "zero", "fund", "sign", "sign only", "settings"}).Draw(t, "operation")}
		switch op.Kind {
		case "edit":
			edits := genEdits(t, c, 1, 1, c.Fee)
			op.Edit = &edits[0]
		case "adjust", "settings":
			op.V = int64(rapid.IntRange(-3000, 3000).Draw(t, "amount"))
		case "fund":
			op.Coins = genCoins(t, 1, 3, base, false)
			for i := range op.Coins {
				op.Coins[i].V = genValue(t, 1, 10000000)
			}
		case "sign", "sign only":
			op.Keys = genKeys(t, c.Ins, false)
		}
		ops = append(ops, op)
	}
	return ops
}

// applyLater returns what the operation returns, as text.
func applyLater(b *txbuilder.TxBuilder, op LaterOp) string {
	text := func(v interface{}, err error) string {
		if err != nil {
			return fmt.Sprint(v, " error")
		}
		return fmt.Sprint(v, " ok")
	}
	switch op.Kind {
	case "edit":
		return text("", applyEdit(b, *op.Edit))
	case "calculate":
		return text("", b.CalculateFee())
	case "adjust":
		done, err := b.AdjustFee(op.V)
		return text(done, err)
	case "zero":
		return text("", b.ZeroizeFee())
	case "fund":
		return text("", b.AddFunding(utxos(op.Coins)))
	case "sign", "sign only":
		f := b.Sign
		if op.Kind == "sign only" {
			f = b.SignOnly
		}
		used, err := f(keyList(op.Keys))
		numbers, nerr := keyNumbers(used)
		if nerr != nil {
			return nerr.Error()
		}
		return text(numbers, err)
	case "settings":
		switch op.V % 5 {
		case 0:
			b.SendMax = !b.SendMax
		case 1, -1:
			b.FeeRate = float32(op.V&0xff) / 100
		case 2, -2:
			b.DustFeeRate = float32(op.V&3) / 4
		case 3, -3:
			b.MsgTx.LockTime = uint32(op.V)
		default:
			b.MsgTx.Version = int32(op.V)
		}
		return ""
	}
	panic("harness: operation " + op.Kind)
}

// flip edits everything in place.
func flip(b *txbuilder.TxBuilder) {
	f := func(s bitcoin.Script) {
		for i := range s {
			s[i] ^= 0x55
		}
	}
	f(b.ChangeScript)
	for i, in := range b.MsgTx.TxIn {
		f(in.UnlockingScript)
		in.PreviousOutPoint.Hash[5] ^= 1
		in.PreviousOutPoint.Index++
		in.Sequence--
		f(b.Inputs[i].LockingScript)
		b.Inputs[i].Value++
		b.Inputs[i].KeyID += "x"
	}
	for i, out := range b.MsgTx.TxOut {
		f(out.LockingScript)
		out.Value++
		b.Outputs[i].IsRemainder = !b.Outputs[i].IsRemainder
		b.Outputs[i].IsDust = !b.Outputs[i].IsDust
		b.Outputs[i].KeyID += "x"
	}
	b.ChangeKeyID += "x"
	b.SendMax = !b.SendMax
	b.FeeRate++
	b.DustFeeRate++
	b.MsgTx.Version++
	b.MsgTx.LockTime++
}

func genC18(t *rapid.T) CopyCase {
	c := CopyCase{Tx: genTx(t, txOpts{minIns: 0, maxIns: 3, minOuts: 0, maxOuts: 3,
		signable: rapid.Bool().Draw(t, "signable"), maxScript: 100, manyIns: true,
		many: rapid.IntRange(0, 4).Draw(t, "maybe many") == 2})}
	c.Before = genLater(t, c.Tx, 200, 4)
	c.A = genLater(t, c.Tx, 300, 4)
	c.B = genLater(t, c.Tx, 400, 4)
	c.FlipA = rapid.Bool().Draw(t, "edit original in place")
	c.FlipB = rapid.Bool().Draw(t, "edit copy in place")
	return c
}

func checkC18(c CopyCase, r *Rec) error {
	start := func() (*txbuilder.TxBuilder, error) {
		b, err := c.Tx.Build()
		if err != nil {
			return nil, err
		}
		for _, op := range c.Before {
			applyLater(b, op)
		}
		return b, nil
	}
	// Builders that never were copied say what should happen.
	controlA, err := start()
	if err != nil {
		return err
	}
	controlB, _ := start()
	b, _ := start()
	d := b.Copy()
	cp := &d

	before := snap(controlA)
	if err := sameSnap("copy", before, snap(cp)); err != nil {
		return err
	}
	if err := sameSnap("original after copying", before, snap(b)); err != nil {
		return err
	}
	if len(c.A) > 0 && len(c.B) > 0 && len(before.Ins) > 0 && len(before.Outs) > 0 {
		r.NonTrivial()
	}

	for i := 0; i < len(c.A) || i < len(c.B); i++ {
		if i < len(c.A) {
			want, got := applyLater(controlA, c.A[i]), applyLater(b, c.A[i])
			if want != got {
				return fmt.Errorf("%s on the original: %s, without a copy: %s", c.A[i].Kind, got, want)
			}
			r.Class("later " + c.A[i].Kind)
		}
		if i < len(c.B) {
			want, got := applyLater(controlB, c.B[i]), applyLater(cp, c.B[i])
			if want != got {
				return fmt.Errorf("%s on the copy: %s, on a builder of its own: %s", c.B[i].Kind, got, want)
			}
		}
	}
	if err := sameSnap("original", snap(controlA), snap(b)); err != nil {
		return err
	}
	if err := sameSnap("copy after operations", snap(controlB), snap(cp)); err != nil {
		return err
	}
	if c.FlipA {
		flip(b)
		if err := sameSnap("copy after the original was edited in place", snap(controlB), snap(cp)); err != nil {
			return err
		}
		flip(controlA)
	}
	if c.FlipB {
		flip(cp)
		if err := sameSnap("original after the copy was edited in place", snap(controlA), snap(b)); err != nil {
			return err
		}
	}
	return nil
}

// SpendIn refers to an output of a parent transaction.
type SpendIn struct {
	P   int    `json:"p"`
	I   uint32 `json:"i"`
	Seq uint32 `json:"seq"`
	K   string `json:"k,omitempty"`
	U   int    `json:"u,omitempty"` // length of an existing unlocking script
}

type RebuildCase struct {
	Fee     float32   `json:"fee"`
	Dust    float32   `json:"dust"`
	Ver     int32     `json:"ver"`
	Lock    uint32    `json:"lock"`
	Parents []RawTx   `json:"parents"`
	Ins     []SpendIn `json:"ins"`
	Outs    []RawOut  `json:"outs"`
	Given   []int     `json:"given"` // numbers of the parents given, in order; larger ones are unrelated
	Coins   []int     `json:"coins"` // numbers of the inputs whose coins are given, larger ones unrelated
}

func genC19(t *rapid.T) RebuildCase {
	c := RebuildCase{Fee: genFeeRate(t), Dust: genDustRate(t), Ver: genVersion(t), Lock: genLockTime(t)}
	for i := rapid.IntRange(1, 3).Draw(t, "parents"); i > 0; i-- {
		p := genRawTx(t, 1)
		p.Lock = uint32(i) // distinct
		p.Outs = nil
		for n := rapid.IntRange(1, 4).Draw(t, "parent outputs"); n > 0; n-- {
			o := RawOut{V: genValue(t, 0, 1000000000), S: genCoinScript(t,
				rapid.IntRange(0, 4).Draw(t, "signable") != 0)}
			if rapid.IntRange(0, 39).Draw(t, "empty script") == 39 {
				o.S = Script{T: tRaw}
			}
			p.Outs = append(p.Outs, o)
		}
		c.Parents = append(c.Parents, p)
	}
	// Some of the outputs are spent, in any order.
	type ref struct {
		p int
		i uint32
	}
	var refs []ref
	for i, p := range c.Parents {
		for j := range p.Outs {
			refs = append(refs, ref{i, uint32(j)})
		}
		if rapid.IntRange(0, 9).Draw(t, "past the end") == 9 {
			refs = append(refs, ref{i, rapid.SampledFrom([]uint32{uint32(len(p.Outs)), uint32(len(p.Outs)),
				uint32(len(p.Outs)) + 1, 0x100, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff}).Draw(t, "index")})
		}
	}
	refs = rapid.Permutation(refs).Draw(t, "spent")
	refs = refs[:rapid.IntRange(1, len(refs)).Draw(t, "inputs")]
	if rapid.IntRange(0, 79).Draw(t, "many inputs") == 40 {
		// Of a parent with many outputs
		p := &c.Parents[0]
		for n := rapid.SampledFrom([]int{20, 70, 253, 260}).Draw(t, "inputs"); n > 0; n-- {
			taken := false
			for _, x := range refs {
				taken = taken || x == ref{0, uint32(len(p.Outs))} // was past the end
			}
			if !taken {
				refs = append(refs, ref{0, uint32(len(p.Outs))})
			}
			p.Outs = append(p.Outs, RawOut{V: uint64(n) * 1001, S: Script{T: tPKH, K: []int{n % changeKeys}}})
		}
		if rapid.Bool().Draw(t, "reverse") {
			for i, j := 0, len(refs)-1; i < j; i, j = i+1, j-1 {
				refs[i], refs[j] = refs[j], refs[i]
			}
		}
	}
	for _, x := range refs {
		in := SpendIn{P: x.p, I: x.i, K: genKeyID(t),
			Seq: rapid.SampledFrom([]uint32{0xffffffff, 0, 1, 0x01020304}).Draw(t, "sequence")}
		if rapid.IntRange(0, 5).Draw(t, "unlocked") == 5 {
			in.U = genLength(t, 70000)
		}
		c.Ins = append(c.Ins, in)
	}
	if rapid.IntRange(0, 19).Draw(t, "coinbase") == 19 {
		in := SpendIn{P: -1, I: rapid.SampledFrom([]uint32{0xffffffff, 0, 1}).Draw(t, "index"), Seq: 0xffffffff,
			U: genLength(t, 100)}
		if rapid.Bool().Draw(t, "first") {
			c.Ins = append([]SpendIn{in}, c.Ins...)
		} else {
			c.Ins = append(c.Ins, in)
		}
	}
	for n := rapid.IntRange(0, 4).Draw(t, "outputs"); n > 0; n-- {
		c.Outs = append(c.Outs, RawOut{V: genValue(t, 0, 1000000000), S: genOutScript(t, 70000)})
	}
	if rapid.IntRange(0, 49).Draw(t, "many") == 49 {
		for n := rapid.IntRange(250, 256).Draw(t, "outputs"); len(c.Outs) < n; {
			c.Outs = append(c.Outs, RawOut{V: uint64(len(c.Outs)), S: Script{T: tPKH, K: []int{1}}})
		}
	}

	subset := func(n int) []int {
		var list []int
		drop := rapid.IntRange(0, 3).Draw(t, "some missing") == 0
		extra := 2
		if rapid.IntRange(0, 7).Draw(t, "many unrelated") == 4 {
			extra = 20
		}
		for i := 0; i < n+extra; i++ {
			if i >= n && rapid.Bool().Draw(t, "unrelated") || i < n && !(drop && rapid.IntRange(0, 2).Draw(t,
				"missing") == 0) {
				list = append(list, i)
			}
		}
		if len(list) < 2 {
			return list
		}
		return rapid.Permutation(list).Draw(t, "given")
	}
	c.Given = subset(len(c.Parents))
	c.Coins = subset(len(c.Ins))
	return c
}

// source is a transaction with some of its spent outputs.
type source struct {
	tx   *wire.MsgTx
	outs []*wire.TxOut
}

func (s *source) TxID() bitcoin.Hash32     { return *s.tx.TxHash() }
func (s *source) GetMsgTx() *wire.MsgTx    { return s.tx }
func (s *source) InputCount() int          { return len(s.tx.TxIn) }
func (s *source) Input(i int) *wire.TxIn   { return s.tx.TxIn[i] }
func (s *source) OutputCount() int         { return len(s.tx.TxOut) }
func (s *source) Output(i int) *wire.TxOut { return s.tx.TxOut[i] }
func (s *source) InputOutput(i int) (*wire.TxOut, error) {
	if s.outs[i] == nil {
		return nil, errors.New("not available")
	}
	return s.outs[i], nil
}

func checkC19(c RebuildCase, r *Rec) error {
	var parents []*wire.MsgTx
	for _, p := range c.Parents {
		parents = append(parents, p.Msg())
	}
	hash := func(tx *wire.MsgTx) (h bitcoin.Hash32) {
		copy(h[:], dsha(refSerialize(tx)))
		return
	}

	parentHash := func(n int) (h bitcoin.Hash32) {
		if n < 0 { // the input creates coins
			return
		}
		return hash(parents[n])
	}

	// The transaction and what its inputs spend.
	build := func() *wire.MsgTx {
		tx := &wire.MsgTx{Version: c.Ver, LockTime: c.Lock}
		for _, in := range c.Ins {
			txin := &wire.TxIn{PreviousOutPoint: wire.OutPoint{Hash: parentHash(in.P), Index: in.I},
				Sequence: in.Seq}
			if in.U > 0 {
				txin.UnlockingScript = append([]byte{0x51}, filler(in.U)...)
			}
			tx.TxIn = append(tx.TxIn, txin)
		}
		for _, o := range c.Outs {
			tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: o.V, LockingScript: o.S.Bytes()})
		}
		return tx
	}
	spent := make([]*RawOut, len(c.Ins))
	for i, in := range c.Ins {
		if in.P >= 0 && int(in.I) < len(c.Parents[in.P].Outs) {
			spent[i] = &c.Parents[in.P].Outs[in.I]
		}
	}

	// A builder made input by input.
	orig := txbuilder.NewTxBuilder(c.Fee, c.Dust)
	orig.MsgTx.Version, orig.MsgTx.LockTime = c.Ver, c.Lock
	shape := build()
	for i, in := range shape.TxIn {
		var script bitcoin.Script
		value := uint64(0)
		if spent[i] != nil {
			script, value = spent[i].S.Bytes(), spent[i].V
		}
		if err := orig.AddInput(in.PreviousOutPoint, script, value); err != nil {
			return fmt.Errorf("add input: %s", err)
		}
		orig.MsgTx.TxIn[i].Sequence = in.Sequence
		orig.MsgTx.TxIn[i].UnlockingScript = in.UnlockingScript
	}
	for _, o := range shape.TxOut {
		orig.AddOutputs([]*txbuilder.Output{{TxOut: *o}})
	}

	// Encoding
	raw, err := orig.Serialize()
	if err != nil {
		return fmt.Errorf("serialize: %s", err)
	}
	if !bytes.Equal(raw, refSerialize(shape)) {
		return fmt.Errorf("serialized as %x, want %x", raw, refSerialize(shape))
	}
	decoded := &wire.MsgTx{}
	if err := decoded.Deserialize(bytes.NewReader(raw)); err != nil {
		return fmt.Errorf("decode: %s", err)
	}
	if orig.TxID() != hash(shape) || !bytes.Equal(refSerialize(decoded), raw) {
		return fmt.Errorf("decoded transaction differs")
	}

	// As JSON
	stored := orig.Copy()
	for i := range stored.Inputs {
		stored.Inputs[i].KeyID = c.Ins[i].K
	}
	for i := range stored.Outputs {
		stored.Outputs[i].IsRemainder = i%3 == 0
		stored.Outputs[i].IsDust = i%4 == 1
		stored.Outputs[i].KeyID = c.Ins[i%len(c.Ins)].K
	}
	stored.SendMax = c.Lock%2 == 1
	stored.ChangeScript, stored.ChangeKeyID = Script{T: tPKH, K: []int{changeKeys}}.Bytes(), c.Ins[0].K
	js, err := json.Marshal(stored)
	if err != nil {
		return fmt.Errorf("to JSON: %s", err)
	}
	var back txbuilder.TxBuilder
	if err := json.Unmarshal(js, &back); err != nil {
		return fmt.Errorf("from JSON: %s", err)
	}
	if err := sameSnap("from JSON", snap(&stored), snap(&back)); err != nil {
		return err
	}

	// Ways of rebuilding
	want := func(have func(i int) bool, keyIDs, creating bool) (Snap, bool) {
		s := Snap{Version: c.Ver, LockTime: c.Lock, Fee: c.Fee, Dust: c.Dust}
		missing := false
		for i, in := range shape.TxIn {
			x := snapIn{Out: in.PreviousOutPoint, Unlock: string(in.UnlockingScript), Seq: in.Sequence}
			if have(i) {
				x.Lock, x.Value = string(spent[i].S.Bytes()), spent[i].V
				if keyIDs {
					x.KeyID = c.Ins[i].K
				}
			} else if !(creating && c.Ins[i].P < 0) {
				missing = true
			}
			s.Ins = append(s.Ins, x)
		}
		for _, o := range shape.TxOut {
			s.Outs = append(s.Outs, snapOut{Value: o.Value, Script: string(o.LockingScript)})
		}
		return s, missing
	}
	compare := func(what string, b *txbuilder.TxBuilder, err error, s Snap, missing bool) error {
		if b == nil {
			return fmt.Errorf("%s: no builder, error %v", what, err)
		}
		if missing && !is(err, txbuilder.ErrMissingInputData) {
			return fmt.Errorf("%s: error %v with missing data", what, err)
		}
		if !missing && err != nil {
			return fmt.Errorf("%s: %s", what, err)
		}
		for i := range s.Ins {
			if b.Inputs[i] == nil {
				return fmt.Errorf("%s: input %d has no data", what, i)
			}
		}
		if err := sameSnap(what, s, snap(b)); err != nil {
			return err
		}
		if missing {
			r.Class(what + " missing")
			exercise(b)
			return nil
		}
		r.Class(what)
		if b.InputValue() != orig.InputValue() || b.OutputValue(true) != orig.OutputValue(true) ||
			b.EstimatedSize() != orig.EstimatedSize() || b.Fee() != orig.Fee() {
			return fmt.Errorf("%s: totals differ from the original", what)
		}
		x, y := orig.Copy(), b.Copy()
		all := []int{0}
		for _, o := range spent {
			if o != nil && o.S.Signable() {
				all = append(all, o.S.NeededKeys()...)
			}
		}
		all = sortedSet(all)
		_, err1 := x.SignOnly(keyList(all))
		_, err2 := y.SignOnly(keyList(all))
		if (err1 == nil) != (err2 == nil) {
			return fmt.Errorf("%s: signing fails with %v, original with %v", what, err2, err1)
		}
		if !bytes.Equal(refSerialize(x.MsgTx), refSerialize(y.MsgTx)) {
			return fmt.Errorf("%s: signed transaction differs", what)
		}
		// Data given to one item later belongs to that item only.
		for i := range b.Inputs {
			b.Inputs[i].KeyID = fmt.Sprintf("input %d", i)
			b.Inputs[i].Value = uint64(i) + 1
		}
		for i := range b.Outputs {
			b.Outputs[i].KeyID = fmt.Sprintf("output %d", i)
		}
		for i := range b.Inputs {
			if b.Inputs[i].KeyID != fmt.Sprintf("input %d", i) || b.Inputs[i].Value != uint64(i)+1 {
				return fmt.Errorf("%s: data of input %d is shared with another input", what, i)
			}
		}
		for i := range b.Outputs {
			if b.Outputs[i].KeyID != fmt.Sprintf("output %d", i) {
				return fmt.Errorf("%s: data of output %d is shared with another output", what, i)
			}
		}
		r.NonTrivial()
		return nil
	}

	// Parent transactions
	given := map[int]bool{}
	var list []*wire.MsgTx
	for _, n := range c.Given {
		given[n] = true
		if n < len(parents) {
			list = append(list, c.Parents[n].Msg())
		} else {
			list = append(list, RawTx{Ver: int32(n), Lock: 77, Ins: []RawIn{{H: n}}, Outs: []RawOut{{V: 5,
				S: Script{T: tPKH, K: []int{3}}}, {V: 6, S: Script{T: tPKH, K: []int{4}}}}}.Msg())
		}
	}
	s, missing := want(func(i int) bool { return given[c.Ins[i].P] && spent[i] != nil }, false, false)
	b, err := txbuilder.NewTxBuilderFromWire(c.Fee, c.Dust, build(), list)
	if err := compare("from parents", b, err, s, missing); err != nil {
		return err
	}

	// Coins
	given = map[int]bool{}
	var coins []bitcoin.UTXO
	for _, n := range c.Coins {
		given[n] = true
		if n < len(c.Ins) && spent[n] != nil {
			coins = append(coins, bitcoin.UTXO{Hash: shape.TxIn[n].PreviousOutPoint.Hash,
				Index: c.Ins[n].I, Value: spent[n].V, LockingScript: spent[n].S.Bytes(), KeyID: c.Ins[n].K})
			continue
		}
		// The same transaction with another index, or another transaction with the same index.
		u := bitcoin.UTXO{Hash: shape.TxIn[0].PreviousOutPoint.Hash, Index: c.Ins[0].I, Value: 99,
			LockingScript: Script{T: tPKH, K: []int{5}}.Bytes(), KeyID: "unrelated"}
		if n%2 == 0 {
			u.Index ^= 1 << (n / 2 % 32)
		} else {
			u.Hash[n/2%32] ^= 1 << (n % 8)
		}
		spends := false
		for _, in := range shape.TxIn {
			spends = spends || in.PreviousOutPoint == (wire.OutPoint{Hash: u.Hash, Index: u.Index})
		}
		if !spends {
			coins = append(coins, u)
		}
	}
	s, missing = want(func(i int) bool { return given[i] && spent[i] != nil }, true, false)
	b, err = txbuilder.NewTxBuilderFromWireUTXOs(c.Fee, c.Dust, build(), coins)
	if err := compare("from coins", b, err, s, missing); err != nil {
		return err
	}

	// Any source of spent outputs
	src := &source{tx: build()}
	for _, o := range spent {
		if o == nil {
			src.outs = append(src.outs, nil)
		} else {
			src.outs = append(src.outs, &wire.TxOut{Value: o.V, LockingScript: o.S.Bytes()})
		}
	}
	s, missing = want(func(i int) bool { return spent[i] != nil }, false, true)
	b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(c.Fee, c.Dust, src)
	if missing {
		if err == nil {
			return fmt.Errorf("from source: no error with missing data")
		}
		return nil
	}
	if err := compare("from source", b, err, s, false); err != nil {
		return err
	}
	empty := false
	for _, o := range spent {
		empty = empty || o != nil && len(o.S.Bytes()) == 0 && o.V == 0
	}
	if !empty {
		b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(c.Fee, c.Dust, orig)
		if err := compare("from builder", b, err, s, false); err != nil {
			return err
		}
	}
	return nil
}

// exercise calls everything that reads the data of the inputs. None of it may crash.
func exercise(b *txbuilder.TxBuilder) {
	b.InputValue()
	b.OutputValue(true)
	b.Fee()
	b.ActualFee()
	b.Remainder()
	b.EstimatedSize()
	b.EstimatedFee()
	b.TxID()
	b.Serialize()
	b.AllInputsAreSigned()
	long := false // addresses of long scripts take long to encode
	for i, in := range b.Inputs {
		long = long || in != nil && len(in.LockingScript)+len(b.MsgTx.TxIn[i].UnlockingScript) > 500
	}
	for _, out := range b.MsgTx.TxOut {
		long = long || len(out.LockingScript) > 500
	}
	if !long {
		_ = b.String(bitcoin.MainNet)
		_ = txbuilder.TxString(b)
	}
	for i := range b.Inputs {
		b.InputAddress(i)
		b.InputOutput(i)
		b.InputIsSigned(i)
		x := b.Copy()
		x.SignP2PKHInput(i, keys[0], &txbuilder.SigHashCache{})
	}
	later := []func(b *txbuilder.TxBuilder){
		func(b *txbuilder.TxBuilder) { b.SignOnly(keys[:3]) },
		func(b *txbuilder.TxBuilder) { b.Sign(keys[:3]) },
		func(b *txbuilder.TxBuilder) { b.CalculateFee() },
		func(b *txbuilder.TxBuilder) { b.ZeroizeFee() },
		func(b *txbuilder.TxBuilder) {
			b.AddFunding([]bitcoin.UTXO{Coin{H: 500, V: 5000000000, S: Script{T: tPKH, K: []int{1}}}.UTXO()})
		},
		func(b *txbuilder.TxBuilder) {
			b.UpdateInputUTXO(0, Coin{H: 500, V: 5000000000, S: Script{T: tPKH, K: []int{1}}}.UTXO())
		},
	}
	for _, f := range later {
		x := b.Copy()
		f(&x)
	}
}

// PartyCase is a transaction signed by several parties.
type PartyCase struct {
	Tx      Tx      `json:"tx"`
	Parties [][]int `json:"parties"`
	Signed  []bool  `json:"signed,omitempty"` // inputs that already have an unlocking script
	Single  []int   `json:"single"`           // for single input signing: index and key
}

func genC20(t *rapid.T) PartyCase {
	c := PartyCase{Tx: genTx(t, txOpts{minIns: 1, maxIns: 5, minOuts: 0, maxOuts: 3, signable: true,
		maxScript: 300, manyIns: true, many: rapid.IntRange(0, 4).Draw(t, "maybe many") == 2})}
	list := genKeys(t, c.Tx.Ins, rapid.IntRange(0, 3).Draw(t, "missing") == 0)
	n := rapid.IntRange(1, 4).Draw(t, "parties")
	c.Parties = make([][]int, n)
	for _, k := range list {
		for i := range c.Parties {
			if rapid.IntRange(0, n-1).Draw(t, "party") == 0 {
				c.Parties[i] = append(c.Parties[i], k)
			}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "last has all") != 0 {
		c.Parties = append(c.Parties, list)
	}
	if rapid.IntRange(0, 3).Draw(t, "signed before") == 0 {
		for range c.Tx.Ins {
			c.Signed = append(c.Signed, rapid.Bool().Draw(t, "signed"))
		}
	}
	c.Single = []int{rapid.IntRange(0, len(c.Tx.Ins)+2).Draw(t, "index"), genKey(t)}
	if c.Single[0] < len(c.Tx.Ins) && rapid.Bool().Draw(t, "right key") {
		c.Single[1] = c.Tx.Ins[c.Single[0]].S.K[0]
	}
	if rapid.IntRange(0, 4).Draw(t, "other template") == 4 {
		c.Tx.Ins[0].S = genCoinScript(t, false)
		if !c.Tx.Ins[0].S.Signable() {
			c.Parties = nil
			c.Single[0] = 0
		}
	}
	for i, s := range c.Signed {
		if s && rapid.IntRange(0, 3).Draw(t, "foreign") == 3 {
			c.Tx.Ins[i].S = genCoinScript(t, false) // signed by other means
		}
	}
	return c
}

func checkC20(c PartyCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	done := make([]bool, len(c.Tx.Ins))
	presign := func(b *txbuilder.TxBuilder) {
		for i, s := range c.Signed {
			if s {
				b.MsgTx.TxIn[i].UnlockingScript = unlockFor(uint64(i) + 5)
				done[i] = true
			}
		}
	}
	presign(b)

	if err := checkSingle(c, b, r); err != nil {
		return err
	}

	initial := append([]bool{}, done...)
	by := make([]int, len(done)) // the party that signed
	for n, party := range c.Parties {
		before := snap(b)
		have := keySet(party)
		used, err := b.SignOnly(keyList(party))
		missing := false
		var placed []int
		for i, in := range c.Tx.Ins {
			if done[i] {
				continue
			}
			if !in.S.CanUnlock(have) {
				missing = true
				continue
			}
			u, verr := refVerifyInput(b.MsgTx, i, in.S, in.V)
			if verr != nil {
				return fmt.Errorf("party %d, input %d: %s", n, i, verr)
			}
			placed = append(placed, u...)
			done[i] = true
			by[i] = n
			before.Ins[i].Unlock = string(b.MsgTx.TxIn[i].UnlockingScript)
		}
		if missing && !is(err, txbuilder.ErrMissingPrivateKey) {
			return fmt.Errorf("party %d: error %v with a missing key", n, err)
		}
		if !missing && err != nil {
			return fmt.Errorf("party %d: %s", n, err)
		}
		if err := sameSnap(fmt.Sprintf("party %d", n), before, snap(b)); err != nil {
			return err
		}
		numbers, err := keyNumbers(used)
		if err != nil {
			return err
		}
		if hasDuplicates(numbers) && !repeatedKeys(c.Tx.Ins) {
			return fmt.Errorf("party %d: keys %v reported more than once", n, numbers)
		}
		if fmt.Sprint(sortedSet(numbers)) != fmt.Sprint(sortedSet(placed)) {
			return fmt.Errorf("party %d: keys %v reported, %v used", n, sortedSet(numbers), sortedSet(placed))
		}
		all := true
		for i := range done {
			all = all && done[i]
			if b.InputIsSigned(i) != done[i] {
				return fmt.Errorf("party %d: input %d reported as signed: %v", n, i, b.InputIsSigned(i))
			}
		}
		if b.AllInputsAreSigned() != all {
			return fmt.Errorf("party %d: all inputs reported as signed: %v", n, b.AllInputsAreSigned())
		}
		if len(placed) > 0 && n > 0 {
			r.NonTrivial()
		}
		r.If(missing, "missing key")
	}
	for i := 0; i < 3; i++ {
		if b.InputIsSigned(len(done) + i) {
			return fmt.Errorf("input %d of %d reported as signed", len(done)+i, len(done))
		}
	}

	// The same when the party that signed an input is the only one.
	alone := make([]*txbuilder.TxBuilder, len(c.Parties))
	for i := range done {
		if !done[i] || initial[i] {
			continue
		}
		x := alone[by[i]]
		if x == nil {
			if x, err = c.Tx.Build(); err != nil {
				return err
			}
			presign(x)
			x.SignOnly(keyList(c.Parties[by[i]]))
			alone[by[i]] = x
		}
		if !bytes.Equal(x.MsgTx.TxIn[i].UnlockingScript, b.MsgTx.TxIn[i].UnlockingScript) {
			return fmt.Errorf("input %d differs from signing in one call", i)
		}
	}
	return nil
}

// checkSingle signs one input with one key on a copy.
func checkSingle(c PartyCase, orig *txbuilder.TxBuilder, r *Rec) error {
	cp := orig.Copy()
	b := &cp
	before := snap(b)
	index, key := c.Single[0], c.Single[1]
	cache := &txbuilder.SigHashCache{}
	err := b.SignP2PKHInput(index, keys[key], cache)
	var want error
	switch {
	case index >= len(c.Tx.Ins):
		if err == nil {
			return fmt.Errorf("signed input %d of %d", index, len(c.Tx.Ins))
		}
		r.Class("single past the end")
		return sameSnap("refused single", before, snap(b))
	case c.Tx.Ins[index].S.T != tPKH:
		r.Class("single of another template")
		s := c.Tx.Ins[index].S
		if err == nil {
			return fmt.Errorf("signed input with template %s", s.T)
		}
		if s.HasAddress() && !(s.T == tMulti && s.M > 16) {
			want = txbuilder.ErrWrongScriptTemplate
		}
	case c.Tx.Ins[index].S.K[0] != key:
		want = txbuilder.ErrWrongPrivateKey
		r.Class("single with wrong key")
	default:
		if err != nil {
			return fmt.Errorf("single: %s", err)
		}
		// All single key hash inputs with one cache.
		for i, in := range c.Tx.Ins {
			if in.S.T != tPKH {
				continue
			}
			if err := b.SignP2PKHInput(i, keys[in.S.K[0]], cache); err != nil {
				return fmt.Errorf("single %d: %s", i, err)
			}
			if _, err := refVerifyInput(b.MsgTx, i, in.S, in.V); err != nil {
				return fmt.Errorf("single %d: %s", i, err)
			}
			before.Ins[i].Unlock = string(b.MsgTx.TxIn[i].UnlockingScript)
		}
		r.Class("single")
		return sameSnap("single", before, snap(b))
	}
	if want != nil && !is(err, want) {
		return fmt.Errorf("single: error %v, want %v", err, want)
	}
	return sameSnap("refused single", before, snap(b))
}

func init() {
	register("C18", "operations on both and at least one input and output", 27000, 87500, genC18, checkC18)
	register("C19", "rebuilt and signed like the original", 3750, 10500, genC19, checkC19)
	register("C20", "a later party placed a signature", 3200, 15750, genC20, checkC20)
}
