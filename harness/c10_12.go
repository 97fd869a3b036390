package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// Emb is an input whose spent output is unknown but that carries unlocking data.
type Emb struct {
	At    int    `json:"at"` // position among the inputs
	Size  uint64 `json:"size"`
	Value uint64 `json:"value"`
	Party uint64 `json:"party,omitempty"`
	Known uint64 `json:"known,omitempty"` // value of the coin if that is known
}

func (e Emb) Script() bitcoin.Script {
	s, err := channels.Wrap(&unlocking_data.UnlockingData{Size: e.Size, Value: e.Value,
		Party: unlocking_data.Party(e.Party)})
	if err != nil {
		panic("harness: unlocking data: " + err.Error())
	}
	return s
}

func genEmb(t *rapid.T, inputs int) Emb {
	return Emb{
		At:    rapid.IntRange(0, inputs).Draw(t, "position"),
		Size:  uint64(genLength(t, 70000)),
		Value: genValue(t, 1, maxMoney/16),
		Party: rapid.Uint64Range(0, 3).Draw(t, "party"),
	}
}

// genKnownEmb draws data of an input whose value may be known otherwise.
func genKnownEmb(t *rapid.T, inputs int) Emb {
	e := genEmb(t, inputs)
	if rapid.IntRange(0, 3).Draw(t, "value known") == 3 {
		e.Known = genValue(t, 1, maxMoney/16)
	}
	return e
}

// InputValue is the value that the input adds to the transaction.
func (e Emb) InputValue() uint64 {
	if e.Known > 0 {
		return e.Known
	}
	return e.Value
}

// SizeCase is a builder whose sizes are compared.
type SizeCase struct {
	Tx   Tx     `json:"tx"`
	Embs []Emb  `json:"embs,omitempty"`
	Raw  string `json:"raw,omitempty"`  // an unknown script
	RawU int    `json:"rawu,omitempty"` // length of the unlocking script of that input
	Junk int    `json:"junk,omitempty"` // an input of which nothing is known
	Also bool   `json:"also,omitempty"` // inputs with a known script have embedded data too
	N    uint64 `json:"n,omitempty"`
}

func genUnknownScript(t *rapid.T) Script {
	if rapid.IntRange(0, 2).Draw(t, "cut script") == 2 {
		// The beginning of a known script
		s := genCoinScript(t, false)
		b := s.Bytes()
		if len(b) == 0 {
			return Script{T: tRaw}
		}
		return Script{T: tRaw, X: fmt.Sprintf("%x", b[:rapid.IntRange(0, len(b)-1).Draw(t, "cut at")])}
	}
	n := rapid.IntRange(0, 12).Draw(t, "length")
	var b []byte
	for i := 0; i < n; i++ {
		// No data pushes, so that every byte is an op code.
		op := rapid.SampledFrom([]byte{0x00, 0x51, 0x60, 0x61, 0x63, 0x64, 0x67, 0x68, 0x69, 0x6b, 0x6c,
			0x75, 0x76, 0x87, 0x88, 0x8b, 0xa1, 0xa9, 0xab, 0xac, 0xad, 0xff}).Draw(t, "op")
		b = append(b, op)
	}
	if rapid.IntRange(0, 3).Draw(t, "cut push") == 0 {
		b = append(b, rapid.SampledFrom([][]byte{{5, 1}, {0x4c}, {0x4c, 9, 1}, {0x4d, 1}, {0x4e, 1, 0, 0, 0},
			{75}}).Draw(t, "push")...)
	}
	return Script{T: tRaw, X: fmt.Sprintf("%x", b)}
}

func genRate(t *rapid.T) float32 {
	switch rapid.IntRange(0, 4).Draw(t, "rate kind") {
	case 0:
		return genFeeRate(t)
	case 1:
		return rapid.SampledFrom([]float32{0, 0, 1e-6, 0.001, 0.05, 0.5, 1, 1000, 1e6}).Draw(t, "rate")
	case 2:
		return float32(rapid.IntRange(0, 100000).Draw(t, "rate")) / 1000
	case 3:
		return rapid.Float32Range(0, 10).Draw(t, "rate")
	}
	// Any 32 bit float in a realistic range of exponents.
	return math.Float32frombits(rapid.Uint32Range(0x35000000, 0x49000000).Draw(t, "rate bits"))
}

// FigureCase compares fee and dust figures.
type FigureCase struct {
	S      Script  `json:"s"`
	K      string  `json:"k"`
	V      uint64  `json:"v"`
	Size   int     `json:"size"`
	Size2  int     `json:"size2"`
	Rate   float32 `json:"rate"`
	Rate2  float32 `json:"rate2"`
	Rate64 float64 `json:"rate64"`
}

func genSize(t *rapid.T) int {
	switch rapid.IntRange(0, 3).Draw(t, "size kind") {
	case 0:
		return rapid.IntRange(0, 500).Draw(t, "size")
	case 1:
		return rapid.IntRange(0, 100000).Draw(t, "size")
	case 2:
		return rapid.IntRange(0, 1000).Draw(t, "size") * rapid.SampledFrom([]int{1, 20, 1000, 250000}).Draw(t,
			"unit")
	}
	return rapid.IntRange(0, 500000000).Draw(t, "size")
}

func init() {
	register("C10", "signed and measured, or more than one script type, or embedded data", 3600, 10500,
		func(t *rapid.T) SizeCase {
			signable := rapid.Bool().Draw(t, "signable")
			c := SizeCase{Tx: genTx(t, txOpts{minIns: 0, maxIns: 5, minOuts: 0, maxOuts: 4, signable: signable,
				maxScript: 70000, many: true, manyIns: true})}
			c.N = genCount(t)
			if !signable {
				for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "embedded"); i > 0; i-- {
					c.Embs = append(c.Embs, genKnownEmb(t, len(c.Tx.Ins)+len(c.Embs)))
				}
				c.Raw = genUnknownScript(t).X
				c.RawU = rapid.SampledFrom([]int{0, 0, 1, 108, 300}).Draw(t, "unlocked")
				c.Junk = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4}).Draw(t, "nothing known")
				c.Also = rapid.IntRange(0, 3).Draw(t, "also embedded") == 3
				if rapid.IntRange(0, 9).Draw(t, "many signers") == 9 && len(c.Tx.Ins) > 0 {
					s := genMulti(t, 8)
					for i, n := 0, rapid.IntRange(17, 140).Draw(t, "signers"); len(s.K) < n; i++ {
						s.K = append(s.K, i%changeKeys)
					}
					s.M = rapid.IntRange(1, len(s.K)).Draw(t, "required")
					c.Tx.Ins[0].S = s
					if rapid.IntRange(0, 3).Draw(t, "even more") == 2 {
						c.Tx.Ins[0].S = genLargeMulti(t)
					}
				}
			} else if rapid.IntRange(0, 49).Draw(t, "many inputs") == 49 {
				n := rapid.IntRange(250, 256).Draw(t, "inputs")
				for len(c.Tx.Ins) < n {
					i := len(c.Tx.Ins)
					c.Tx.Ins = append(c.Tx.Ins, Coin{H: 100 + i, V: 1, S: Script{T: tPKH,
						K: []int{i % changeKeys}}})
				}
			}
			return c
		}, checkC10)

	register("C11", "rate and size are not zero and size times rate is not an integer", 96000, 336000,
		func(t *rapid.T) FigureCase {
			c := FigureCase{K: genKeyID(t), V: rapid.Uint64Range(0, maxMoney).Draw(t, "value"),
				Size: genSize(t), Size2: genSize(t), Rate: genRate(t), Rate2: genRate(t),
				Rate64: rapid.SampledFrom([]float64{0.05, 0.1, 0.3, 0.7, 1.1, 1e-5, 2.000001}).Draw(t, "rate64")}
			c.S = genOutScript(t, 70000)
			switch rapid.IntRange(0, 15).Draw(t, "other script") {
			case 0, 1, 2:
				c.S = genUnknownScript(t)
			case 3:
				c.S = genLargeMulti(t)
			}
			if rapid.Bool().Draw(t, "near") {
				c.Size2 = c.Size + rapid.IntRange(0, 2).Draw(t, "more")
			}
			if rapid.IntRange(0, 3).Draw(t, "near") == 0 {
				c.Rate2 = math.Nextafter32(c.Rate, math.MaxFloat32)
			}
			return c
		}, checkC11)

	register("C12", "a request near a threshold was refused or changed a dust output", 150000, 420000, genC12,
		checkC12)
}

// genCount draws a number with the places where variable integers change size.
func genCount(t *rapid.T) uint64 {
	if rapid.Bool().Draw(t, "any count") {
		return rapid.Uint64().Draw(t, "count")
	}
	return rapid.SampledFrom([]uint64{0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x100, 0xfffe, 0xffff, 0x10000, 0x10001,
		0xfffffffe, 0xffffffff, 0x100000000, 0x100000001, math.MaxUint64}).Draw(t, "count")
}

// withEmbedded inserts the inputs with embedded data and returns the positions of the coins.
func withEmbedded(b *txbuilder.TxBuilder, embs []Emb) error {
	for i, e := range embs {
		utxo := bitcoin.UTXO{Hash: txID(300 + i), Index: uint32(i), Value: e.Known}
		if err := b.InsertInput(e.At, utxo); err != nil {
			return fmt.Errorf("insert input: %s", err)
		}
		b.MsgTx.TxIn[e.At].UnlockingScript = e.Script()
	}
	return nil
}

func checkC10(c SizeCase, r *Rec) error {
	if got := txbuilder.VarIntSerializeSize(c.N); got != len(refVarInt(c.N)) {
		return fmt.Errorf("variable integer %d: size %d", c.N, got)
	}

	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	types := map[string]bool{}
	for i, in := range c.Tx.Ins {
		types[in.S.T] = true
		wantUnlock, known := in.S.UnlockSize()
		gotUnlock, err := txbuilder.UnlockingScriptSize(in.S.Bytes())
		gotIn, inErr := txbuilder.InputSize(in.S.Bytes())
		if !known {
			if !is(err, bitcoin.ErrUnknownScriptTemplate) || !is(inErr, bitcoin.ErrUnknownScriptTemplate) {
				return fmt.Errorf("input %d (%s): errors %v, %v", i, in.S.T, err, inErr)
			}
			continue
		}
		if err != nil || inErr != nil {
			return fmt.Errorf("input %d (%s): errors %v, %v", i, in.S.T, err, inErr)
		}
		wantIn, _ := in.S.InSize()
		if gotUnlock != wantUnlock || gotIn != wantIn {
			return fmt.Errorf("input %d (%s): unlocking size %d, input size %d, want %d, %d", i, in.S.T,
				gotUnlock, gotIn, wantUnlock, wantIn)
		}
	}
	for i, out := range c.Tx.Outs {
		if got := txbuilder.OutputSize(out.S.Bytes()); got != out.S.OutSize() {
			return fmt.Errorf("output %d: size %d, want %d", i, got, out.S.OutSize())
		}
	}

	size := c.Tx.estSize()
	value := c.Tx.inTotal()
	if len(c.Embs) > 0 {
		if err := withEmbedded(b, c.Embs); err != nil {
			return err
		}
		size += refVarIntSize(uint64(len(c.Tx.Ins)+len(c.Embs))) - refVarIntSize(uint64(len(c.Tx.Ins)))
		for _, e := range c.Embs {
			size += 40 + refVarIntSize(e.Size) + int(e.Size)
			value += e.InputValue()
			r.If(e.Known > 0, "embedded data with known value")
		}
		r.Class("embedded data")
	}
	if c.Raw != "" {
		s := Script{T: tRaw, X: c.Raw}
		if err := b.AddInput(wire.OutPoint{Hash: txID(400)}, s.Bytes(), 7); err != nil {
			return fmt.Errorf("add input: %s", err)
		}
		b.MsgTx.TxIn[len(b.MsgTx.TxIn)-1].UnlockingScript = filler(c.RawU)
		n := uint64(len(c.Tx.Ins) + len(c.Embs))
		size += 149 + refVarIntSize(n+1) - refVarIntSize(n)
		value += 7
		if _, err := txbuilder.UnlockingScriptSize(s.Bytes()); !is(err, bitcoin.ErrUnknownScriptTemplate) {
			return fmt.Errorf("unknown script %s: error %v", c.Raw, err)
		}
		r.Class("unknown script")
	}
	if c.Junk > 0 {
		n := uint64(len(b.MsgTx.TxIn))
		if err := b.AddInput(wire.OutPoint{Hash: txID(401)}, nil, 0); err != nil {
			return fmt.Errorf("add input: %s", err)
		}
		data := Emb{Size: 99, Value: 1234}.Script()
		b.MsgTx.TxIn[n].UnlockingScript = [][]byte{nil, nil, Script{T: tFRet, M: 20}.Bytes(), {0x00, 0x6a},
			data[:len(data)-3]}[c.Junk]
		size += 149 + refVarIntSize(n+1) - refVarIntSize(n)
		r.Class("nothing known")
	}

	for i, in := range b.Inputs {
		if c.Also && len(in.LockingScript) != 0 && in.Value != 0 {
			if _, err := txbuilder.UnlockingScriptSize(in.LockingScript); err == nil {
				b.MsgTx.TxIn[i].UnlockingScript = Emb{Size: 99, Value: 1234}.Script()
				r.Class("embedded data with known script")
			}
		}
	}

	if got := b.EstimatedSize(); got != size {
		return fmt.Errorf("estimated size %d, want %d", got, size)
	}
	if got := b.EstimatedFee(); got != refFee(size, c.Tx.Fee) {
		return fmt.Errorf("estimated fee %d, want %d", got, refFee(size, c.Tx.Fee))
	}
	if got := b.InputValue(); got != value {
		return fmt.Errorf("input value %d, want %d", got, value)
	}
	r.If(len(c.Tx.Ins) > 240, "many inputs")
	r.If(len(c.Tx.Outs) > 240, "many outputs")
	if len(types) > 1 || len(c.Embs) > 0 {
		r.NonTrivial()
	}

	if c.Raw != "" || c.Junk > 0 || c.Also || len(c.Embs) > 0 || !allSignable(c.Tx.Ins) || len(c.Tx.Ins) == 0 {
		return nil
	}
	if _, err := b.SignOnly(keyList(neededKeys(c.Tx.Ins))); err != nil {
		return fmt.Errorf("sign: %s", err)
	}
	r.NonTrivial()
	r.Class("signed")
	actual := len(refSerialize(b.MsgTx))
	slack := 0
	for i, in := range b.MsgTx.TxIn {
		pushes, err := refPushes(in.UnlockingScript)
		if err != nil {
			return fmt.Errorf("input %d: %s", i, err)
		}
		for _, p := range pushes {
			if len(p) > 40 {
				slack += 73 - len(p)
			}
		}
		want, _ := c.Tx.Ins[i].S.UnlockSize()
		slack += refVarIntSize(uint64(want)) - refVarIntSize(uint64(len(in.UnlockingScript)))
	}
	if actual > size {
		return fmt.Errorf("signed size %d above estimate %d", actual, size)
	}
	if size-actual != slack {
		return fmt.Errorf("signed size %d, estimate %d, signatures are %d short of the maximum", actual, size,
			slack)
	}
	if got := b.EstimatedSize(); got != size {
		return fmt.Errorf("estimated size %d after signing, before %d", got, size)
	}
	return nil
}

// dustRange gives the limits for a dust figure calculated with 32 bit floats.
func dustRange(size int, rate float32) (uint64, uint64) {
	bound := func(factor float64) uint64 {
		r := new(big.Rat).SetFloat64(float64(rate))
		r.Mul(r, new(big.Rat).SetInt64(int64(size+148)*3))
		r.Mul(r, new(big.Rat).SetFloat64(factor))
		q := new(big.Int).Quo(r.Num(), r.Denom()).Uint64()
		if q < 1 {
			return 1
		}
		return q
	}
	const e = 1.0 / (1 << 22)
	return bound(1 - e), bound(1 + e)
}

func checkC11(c FigureCase, r *Rec) error {
	fee := func(size int, rate float32) error {
		up, down := refFee(size, rate), refFeeDown(size, rate)
		if got := txbuilder.EstimatedFeeValue(uint64(size), float64(rate)); got != up {
			return fmt.Errorf("fee for %d bytes at %g is %d, want %d", size, rate, got, up)
		}
		if got := txbuilder.EstimatedFeeValueDown(uint64(size), float64(rate)); got != down {
			return fmt.Errorf("fee rounded down for %d bytes at %g is %d, want %d", size, rate, got, down)
		}
		lo, hi := dustRange(size, rate)
		if got := txbuilder.DustLimit(size, rate); got < lo || got > hi {
			return fmt.Errorf("dust limit for %d bytes at %g is %d, want %d to %d", size, rate, got, lo, hi)
		}
		if up != down && size > 0 {
			r.NonTrivial()
		}
		return nil
	}
	for _, size := range []int{c.Size, c.Size2} {
		for _, rate := range []float32{c.Rate, c.Rate2} {
			if err := fee(size, rate); err != nil {
				return err
			}
		}
	}

	// 64 bit rates are exact up to the rounding of one product.
	exact := new(big.Rat).SetFloat64(c.Rate64)
	exact.Mul(exact, new(big.Rat).SetInt64(int64(c.Size)))
	about, _ := exact.Float64()
	got := txbuilder.EstimatedFeeValue(uint64(c.Size), c.Rate64)
	if float64(got) < math.Ceil(about*(1-1e-15)) || float64(got) > math.Ceil(about*(1+1e-15)) {
		return fmt.Errorf("fee for %d bytes at %g is %d", c.Size, c.Rate64, got)
	}

	// Growing
	s1, s2, r1, r2 := c.Size, c.Size2, c.Rate, c.Rate2
	if s1 > s2 {
		s1, s2 = s2, s1
	}
	if r1 > r2 {
		r1, r2 = r2, r1
	}
	if a, b := txbuilder.EstimatedFeeValue(uint64(s1), float64(r1)),
		txbuilder.EstimatedFeeValue(uint64(s2), float64(r2)); a > b {
		return fmt.Errorf("fee falls from %d to %d", a, b)
	}
	if a, b := txbuilder.DustLimit(s1, r1), txbuilder.DustLimit(s2, r2); a > b {
		return fmt.Errorf("dust limit falls from %d to %d for %d, %g and %d, %g", a, b, s1, r1, s2, r2)
	}

	// Figures for items
	script := c.S.Bytes()
	size := c.S.OutSize()
	outFee, outFee2 := refFee(size, c.Rate), refFee(size, c.Rate2)
	dlo, dhi := dustRange(size, c.Rate2)
	isDust := func(d uint64) bool { return d >= dlo && d <= dhi }
	dust := txbuilder.DustLimit(size, c.Rate2)
	r.Class("script " + c.S.T)

	txout := &wire.TxOut{Value: c.V, LockingScript: script}
	if d := txbuilder.DustLimitForOutput(txout, c.Rate2); d != dust || !isDust(d) {
		return fmt.Errorf("dust limit for output %d, want %d", d, dust)
	}
	if d := txbuilder.DustLimitForLockingScript(script, c.Rate2); d != dust {
		return fmt.Errorf("dust limit for script %d, want %d", d, dust)
	}
	if f, d := txbuilder.OutputFeeAndDustForLockingScript(script, c.Rate2, c.Rate); f != outFee || d != dust {
		return fmt.Errorf("fee %d and dust %d for script, want %d and %d", f, d, outFee, dust)
	}
	if f := txbuilder.LockingScriptOutputFee(script, c.Rate2); f != outFee2 {
		return fmt.Errorf("output fee %d, want %d", f, outFee2)
	}

	inSize, known := c.S.InSize()
	inFee := refFee(inSize, c.Rate)
	f, i, err := txbuilder.OutputTotalCost(script, c.Rate)
	utxo := bitcoin.UTXO{Hash: txID(1), Index: 2, Value: c.V, LockingScript: script, KeyID: c.K}
	uf, uerr := txbuilder.UTXOFee(utxo, c.Rate)
	us, usf, userr := txbuilder.UTXOInputSizeAndFee(utxo, c.Rate)
	lf, lerr := txbuilder.LockingScriptInputFee(script, c.Rate)
	if f != outFee {
		return fmt.Errorf("total cost: output fee %d, want %d", f, outFee)
	}
	if !known {
		if err == nil || uerr == nil || userr == nil || lerr == nil {
			return fmt.Errorf("cost of spending an unknown script: errors %v, %v, %v, %v", err, uerr, userr, lerr)
		}
		if i != 0 {
			return fmt.Errorf("cost of spending an unknown script is %d", i)
		}
	} else {
		if err != nil || uerr != nil || userr != nil || lerr != nil {
			return fmt.Errorf("cost of spending: errors %v, %v, %v, %v", err, uerr, userr, lerr)
		}
		if i != inFee || uf != inFee || usf != inFee || lf != inFee || us != inSize {
			return fmt.Errorf("cost of spending %d, %d, %d, %d, size %d, want %d, %d", i, uf, usf, lf, us, inFee,
				inSize)
		}
	}

	if !c.S.HasAddress() {
		return nil
	}
	ra, err := c.S.Address()
	if err != nil {
		return err
	}
	if d, err := txbuilder.DustLimitForAddress(ra, c.Rate2); err != nil || d != dust {
		return fmt.Errorf("dust limit for address %d, %v, want %d", d, err, dust)
	}
	if f, d, err := txbuilder.OutputFeeAndDustForAddress(ra, c.Rate2, c.Rate); err != nil || f != outFee ||
		d != dust {
		return fmt.Errorf("fee %d and dust %d for address, %v, want %d and %d", f, d, err, outFee, dust)
	}
	if f, err := txbuilder.AddressOutputFee(ra, c.Rate); err != nil || f != outFee {
		return fmt.Errorf("output fee for address %d, %v, want %d", f, err, outFee)
	}
	return nil
}

// ValueOp is a request that changes output values.
type ValueOp struct {
	Op  string `json:"op"`
	At  int    `json:"at,omitempty"`
	S   Script `json:"s,omitempty"`
	V   uint64 `json:"v,omitempty"`
	Rem bool   `json:"rem,omitempty"`
	D   bool   `json:"dust,omitempty"`
}

type ValueCase struct {
	Fee     float32   `json:"fee"`
	Dust    float32   `json:"dust"`
	SendMax bool      `json:"sendmax,omitempty"`
	Ops     []ValueOp `json:"ops"`
}

func genC12(t *rapid.T) ValueCase {
	c := ValueCase{Fee: genFeeRate(t), Dust: genDustRate(t),
		SendMax: rapid.IntRange(0, 3).Draw(t, "send max") == 3}
	if rapid.IntRange(0, 9).Draw(t, "zero fee") == 9 {
		c.Fee = 0
	}
	var sizes []int
	for n := rapid.IntRange(1, 14).Draw(t, "requests"); n > 0; n-- {
		op := ValueOp{Op: rapid.SampledFrom([]string{"add", "add", "insert", "payment", "dust", "add value",
			"add value", "subtract", "subtract", "subtract", "set dust", "update"}).Draw(t, "request")}
		if len(sizes) == 0 && n > 1 {
			op.Op = "add"
		}
		// The threshold that matters for the request.
		size := 34
		switch op.Op {
		case "add", "insert":
			op.S = genOutScript(t, 300)
			op.Rem = rapid.IntRange(0, 3).Draw(t, "remainder") == 3
			op.D = rapid.IntRange(0, 2).Draw(t, "dust") == 2
			size = op.S.OutSize()
			if op.Op == "insert" {
				op.At = rapid.IntRange(0, len(sizes)).Draw(t, "position")
			}
			sizes = append(sizes, size)
		case "payment", "dust":
			op.S = genAddressScript(t)
			op.Rem = rapid.IntRange(0, 3).Draw(t, "remainder") == 3
			size = op.S.OutSize()
			sizes = append(sizes, size)
		default:
			op.At = rapid.IntRange(0, len(sizes)+1).Draw(t, "position")
			if len(sizes) > 0 && rapid.IntRange(0, 9).Draw(t, "in range") != 9 {
				op.At = rapid.IntRange(0, len(sizes)-1).Draw(t, "position")
			} else if rapid.IntRange(0, 3).Draw(t, "far") == 2 {
				op.At = rapid.SampledFrom([]int{0x80, 0x100, 0x10000, 0x80000000, 0xffffffff}).Draw(t, "position")
			}
			if op.Op == "update" {
				op.S = genOutScript(t, 300)
				if op.At < len(sizes) {
					sizes[op.At] = op.S.OutSize()
				}
			}
			if op.At < len(sizes) {
				size = sizes[op.At]
			}
		}
		fee, dust := refFee(size, c.Fee), refDust(size, c.Dust)
		base := rapid.SampledFrom([]uint64{0, fee, fee, dust, dust, 2 * dust, fee + dust}).Draw(t, "threshold")
		switch rapid.IntRange(0, 3).Draw(t, "value kind") {
		case 0:
			op.V = base
		case 1, 2:
			op.V = base + rapid.Uint64Range(0, 4).Draw(t, "around")
			op.V -= minU(op.V, 2)
		case 3:
			op.V = genValue(t, 0, maxMoney/100)
			if rapid.IntRange(0, 9).Draw(t, "more than there is") == 5 {
				op.V = 1<<rapid.IntRange(51, 59).Draw(t, "bit") + rapid.Uint64Range(0, 5000).Draw(t, "above")
			}
			if op.Op == "subtract" && rapid.IntRange(0, 4).Draw(t, "wraps") == 2 {
				op.V = -(base + rapid.Uint64Range(0, 4).Draw(t, "below"))
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type valueOut struct {
	s     Script
	v     uint64
	rem   bool
	dust  bool
	keyID string
}

func checkC12(c ValueCase, r *Rec) error {
	b := txbuilder.NewTxBuilder(c.Fee, c.Dust)
	b.SendMax = c.SendMax
	var model []valueOut

	for n, op := range c.Ops {
		var err error
		var want error // nil: accepted, errAny: some error
		errAny := fmt.Errorf("any")
		next := append([]valueOut{}, model...)
		size, dust := 0, uint64(0)
		if op.At < len(model) {
			size = model[op.At].s.OutSize()
			dust = refDust(size, c.Dust)
		}
		switch op.Op {
		case "add", "insert", "payment", "dust":
			o := valueOut{s: op.S, v: op.V, rem: op.Rem, dust: op.D}
			if op.Op == "payment" {
				o.dust = false
			}
			if op.Op == "dust" {
				o.dust = true
			}
			size = op.S.OutSize()
			if o.dust {
				o.v = refDust(size, c.Dust)
				r.Class("dust output")
			} else if op.V < refFee(size, c.Fee) && op.S.Spendable() && !(c.SendMax && op.Rem) {
				want = txbuilder.ErrBelowDustValue
				r.Class("refused below fee")
				r.NonTrivial()
			}
			at := len(model)
			if op.Op == "insert" {
				at = op.At
				if at > len(model) {
					at = len(model) // earlier requests may have been refused
				}
			}
			if want == nil {
				next = append(append(append([]valueOut{}, model[:at]...), o), model[at:]...)
			}
			switch op.Op {
			case "add":
				err = b.AddOutput(op.S.Bytes(), op.V, op.Rem, op.D)
			case "insert":
				err = b.InsertOutput(at, op.S.Bytes(), op.V, op.Rem, op.D)
			default:
				ra, aerr := op.S.Address()
				if aerr != nil {
					return aerr
				}
				if op.Op == "payment" {
					err = b.AddPaymentOutput(ra, op.V, op.Rem)
				} else {
					err = b.AddDustOutput(ra, op.Rem)
				}
			}
		case "add value":
			switch {
			case op.At >= len(model):
				want = errAny
			case model[op.At].dust && op.V < dust:
				want = txbuilder.ErrBelowDustValue
				r.Class("refused below dust")
				r.NonTrivial()
			case model[op.At].dust:
				next[op.At].dust = false
				next[op.At].v = op.V
				r.Class("dust replaced")
				r.NonTrivial()
			default:
				next[op.At].v += op.V
			}
			err = b.AddValueToOutput(uint32(op.At), op.V)
		case "subtract":
			switch {
			case op.At >= len(model):
				want = errAny
			case model[op.At].v < op.V || model[op.At].v-op.V < dust:
				want = errAny
				r.Class("refused to subtract")
				r.NonTrivial()
			default:
				next[op.At].v -= op.V
				r.Class("subtracted")
			}
			err = b.SubtractValueFromOutput(uint32(op.At), op.V)
		case "set dust":
			if op.At >= len(model) {
				want = errAny
			} else {
				next[op.At].dust = true
				next[op.At].v = dust
			}
			err = b.SetOutputToDust(uint32(op.At))
		case "update": // the limits are those of the new script from then on
			if op.At >= len(model) {
				want = errAny
			} else {
				next[op.At].s = op.S
			}
			err = b.UpdateOutput(uint32(op.At), op.S.Bytes())
		}

		what := fmt.Sprintf("request %d (%s %d)", n, op.Op, op.V)
		switch {
		case want == nil && err != nil:
			return fmt.Errorf("%s refused: %s", what, err)
		case want == errAny && err == nil:
			return fmt.Errorf("%s accepted", what)
		case want != nil && want != errAny && !is(err, want):
			return fmt.Errorf("%s: error %v, want %v", what, err, want)
		}
		if want == nil {
			model = next
		}
		s := snap(b)
		if len(s.Outs) != len(model) {
			return fmt.Errorf("%s: %d outputs, want %d", what, len(s.Outs), len(model))
		}
		for i, m := range model {
			o := snapOut{Value: m.v, Script: string(m.s.Bytes()), Remainder: m.rem, Dust: m.dust}
			if s.Outs[i] != o {
				return fmt.Errorf("%s: output %d is %+v, want %+v", what, i, s.Outs[i], o)
			}
		}
	}
	return nil
}
