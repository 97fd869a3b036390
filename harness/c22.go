package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"math/big"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"

	"pgregory.net/rapid"
)

type HelperCase struct {
	Tx     Tx      `json:"tx"`
	Embs   []Emb   `json:"embs,omitempty"`
	Lost   string  `json:"lost,omitempty"` // an input without data: empty, data, script, error
	LostAt int     `json:"lost_at,omitempty"`
	S      Script  `json:"s"`
	Unlock int     `json:"unlock"` // size given by a fixed estimator
	Size   int     `json:"size"`
	Rate   float32 `json:"rate"`
	Rate64 float64 `json:"rate64"`
}

func genC22(t *rapid.T) HelperCase {
	signable := rapid.Bool().Draw(t, "signable")
	c := HelperCase{
		Tx: genTx(t, txOpts{minIns: 0, maxIns: 4, minOuts: 0, maxOuts: 4, signable: signable, maxScript: 70000,
			zeroFee: true, many: true, manyIns: true}),
		S:      genOutScript(t, 70000),
		Unlock: genLength(t, 70000),
		Size:   genSize(t),
		Rate:   genRate(t),
		Rate64: rapid.SampledFrom([]float64{0.05, 0.1, 0.3, 0.7, 1.1, 1e-5, 2.000001}).Draw(t, "rate64"),
	}
	for i := range c.Tx.Ins {
		if c.Tx.Ins[i].V == 0 {
			c.Tx.Ins[i].V = 1 // outputs without value count as unknown
		}
	}
	if rapid.IntRange(0, 29).Draw(t, "large values") == 29 {
		for i := range c.Tx.Outs {
			if !c.Tx.Outs[i].D && c.Tx.Outs[i].S.Spendable() {
				c.Tx.Outs[i].V = maxMoney - rapid.Uint64Range(0, maxMoney/2).Draw(t, "less")
				break
			}
		}
	}
	switch rapid.IntRange(0, 15).Draw(t, "other script") {
	case 0, 1, 2, 3:
		c.S = genUnknownScript(t)
	case 4:
		c.S = genLargeMulti(t)
	}
	if !signable || rapid.IntRange(0, 3).Draw(t, "also embedded") == 0 {
		for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "embedded"); i > 0; i-- {
			c.Embs = append(c.Embs, genKnownEmb(t, len(c.Tx.Ins)+len(c.Embs)))
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "lost") == 0 {
		c.Lost = rapid.SampledFrom([]string{"empty", "data", "script", "error"}).Draw(t, "lost kind")
		c.LostAt = rapid.IntRange(0, len(c.Tx.Ins)+len(c.Embs)).Draw(t, "lost at")
	}
	return c
}

// estimator sizes unlocking scripts with the given function.
type estimator struct {
	size func(bitcoin.Script) (int, error)
}

func (e estimator) Unlock(ctx context.Context, tx bitcoin_interpreter.TransactionWithOutputs,
	index int) (bitcoin.Script, error) {
	return nil, bitcoin_interpreter.CantSign
}

func (e estimator) SubUnlock(ctx context.Context, tx bitcoin_interpreter.TransactionWithOutputs, index int,
	offset int) (bitcoin.Script, error) {
	return nil, bitcoin_interpreter.CantSign
}

func (e estimator) UnlockingSize(s bitcoin.Script) (int, error) { return e.size(s) }
func (e estimator) CanUnlock(s bitcoin.Script) bool             { return false }
func (e estimator) CanPartiallyUnlock(s bitcoin.Script) bool    { return false }
func (e estimator) Copy() bitcoin_interpreter.Unlocker          { return e }

// refDustUp is the dust limit rounded up.
func refDustUp(outputSize int, rate float32) uint64 {
	d := refFee((outputSize+148)*3, rate)
	if d < 1 {
		return 1
	}
	return d
}

var errEstimator = errors.New("no estimate")

func checkC22(c HelperCase, r *Rec) error {
	if err := helperFigures(c, r); err != nil {
		return err
	}

	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	if err := withEmbedded(b, c.Embs); err != nil {
		return err
	}
	if c.Lost != "" {
		if err := b.InsertInput(c.LostAt, bitcoin.UTXO{Hash: txID(350)}); err != nil {
			return fmt.Errorf("insert: %s", err)
		}
		in := b.MsgTx.TxIn[c.LostAt]
		switch c.Lost {
		case "data":
			in.UnlockingScript = Script{T: tFRet, M: 20}.Bytes()
		case "script":
			in.UnlockingScript = unlockFor(3)
		}
	}

	// A source that gives an empty output where it is not known.
	src := &source{tx: b.MsgTx}
	type known struct {
		s    *Script
		size int // of the input
		v    uint64
	}
	var model []known
	coins := c.Tx.Ins
	allKnown := true // with scripts of a known size
	for i := range b.MsgTx.TxIn {
		in := b.Inputs[i]
		src.outs = append(src.outs, &wire.TxOut{LockingScript: in.LockingScript, Value: in.Value})
		if len(in.LockingScript) != 0 {
			coin := coins[0]
			coins = coins[1:]
			size, ok := coin.S.InSize()
			allKnown = allKnown && ok
			model = append(model, known{&coin.S, size, coin.V})
			continue
		}
		if c.Lost != "" && i == c.LostAt {
			model = append(model, known{})
			if c.Lost == "error" {
				src.outs[i] = nil
			}
			continue
		}
		var e *Emb
		for j := range c.Embs {
			if b.MsgTx.TxIn[i].PreviousOutPoint.Hash == txID(300+j) {
				e = &c.Embs[j]
			}
		}
		model = append(model, known{nil, 40 + refVarIntSize(e.Size) + int(e.Size), e.InputValue()})
		r.Class("embedded data")
	}

	size := 8 + refVarIntSize(uint64(len(model))) + refVarIntSize(uint64(len(c.Tx.Outs)))
	fixedSize := size
	value := uint64(0)
	byScript := estimator{fees.EstimateUnlockingSize}
	fixed := estimator{func(bitcoin.Script) (int, error) { return c.Unlock, nil }}
	failing := estimator{func(bitcoin.Script) (int, error) { return 0, errEstimator }}
	for i, m := range model {
		if c.Lost != "" && i == c.LostAt {
			continue
		}
		txin, out := b.MsgTx.TxIn[i], src.outs[i]
		want := m.size
		_, sizeKnown := c.S.InSize()
		if m.s != nil {
			_, sizeKnown = m.s.InSize()
			if _, err := fees.EstimateInputSize(txin, out.LockingScript, failing); !is(err, errEstimator) {
				return fmt.Errorf("input %d: error %v of failing estimator", i, err)
			}
		} else {
			sizeKnown = true
		}
		got, err := fees.EstimateInputSize(txin, out.LockingScript, byScript)
		if sizeKnown && (err != nil || got != want) || !sizeKnown && err == nil {
			return fmt.Errorf("input %d: estimated size %d, error %v, want %d", i, got, err, want)
		}
		if m.s != nil {
			want = 40 + refVarIntSize(uint64(c.Unlock)) + c.Unlock
		}
		got, err = fees.EstimateInputSize(txin, out.LockingScript, fixed)
		if err != nil || got != want {
			return fmt.Errorf("input %d: size with fixed estimator %d, error %v, want %d", i, got, err, want)
		}
		v, err := fees.InputValue(txin, out)
		if err != nil || v != m.v {
			return fmt.Errorf("input %d: value %d, error %v, want %d", i, v, err, m.v)
		}
		size += m.size
		fixedSize += want
		value += m.v
	}
	for _, o := range c.Tx.Outs {
		size += o.S.OutSize()
		fixedSize += o.S.OutSize()
	}
	outs := c.Tx.outTotal()
	if got := fees.OutputsValue(src); got != outs {
		return fmt.Errorf("outputs value %d, want %d", got, outs)
	}

	gotSize, sizeErr := fees.EstimateSize(src, byScript)
	gotFee, feeErr := fees.EstimateFee(src, byScript, float64(c.Rate))
	gotFixed, fixedErr := fees.EstimateSize(src, fixed)
	gotFixedFee, fixedFeeErr := fees.EstimateFee(src, fixed, float64(c.Rate))
	gotValue, valueErr := fees.InputsValue(src)
	gotActual, actualErr := fees.Fee(src)

	if c.Lost != "" {
		r.Class("lost " + c.Lost)
		for _, err := range []error{sizeErr, feeErr, fixedErr, fixedFeeErr, valueErr, actualErr} {
			if err == nil {
				return fmt.Errorf("no error without data for input %d", c.LostAt)
			}
		}
		if c.Lost != "error" {
			for _, err := range []error{fixedErr, fixedFeeErr, valueErr, actualErr} {
				if !is(err, fees.MissingUnlockingData) {
					return fmt.Errorf("error %v without data for input %d", err, c.LostAt)
				}
			}
		}
		return nil
	}

	if valueErr != nil || gotValue != value {
		return fmt.Errorf("inputs value %d, error %v, want %d", gotValue, valueErr, value)
	}
	if actualErr != nil || gotActual != int64(value)-int64(outs) {
		return fmt.Errorf("fee %d, error %v, want %d - %d", gotActual, actualErr, value, outs)
	}
	r.If(gotActual < 0, "negative fee")
	if fixedErr != nil || gotFixed != fixedSize {
		return fmt.Errorf("size with fixed estimator %d, error %v, want %d", gotFixed, fixedErr, fixedSize)
	}
	if fixedFeeErr != nil || gotFixedFee != refFee(fixedSize, c.Rate) {
		return fmt.Errorf("fee with fixed estimator %d, error %v, want %d", gotFixedFee, fixedFeeErr,
			refFee(fixedSize, c.Rate))
	}
	if !allKnown {
		r.Class("unknown spent script")
		if sizeErr == nil || feeErr == nil {
			return fmt.Errorf("no error for a script without known unlocking size")
		}
		return nil
	}
	if sizeErr != nil || gotSize != size {
		return fmt.Errorf("size %d, error %v, want %d", gotSize, sizeErr, size)
	}
	if feeErr != nil || gotFee != refFee(size, c.Rate) {
		return fmt.Errorf("estimated fee %d, error %v, want %d", gotFee, feeErr, refFee(size, c.Rate))
	}
	if b.EstimatedSize() != gotSize || b.InputValue() != gotValue || b.OutputValue(true) != outs ||
		b.ActualFee() != gotActual {
		return fmt.Errorf("builder has size %d, inputs %d, outputs %d, fee %d", b.EstimatedSize(),
			b.InputValue(), b.OutputValue(true), b.ActualFee())
	}
	if len(model) > 0 && len(c.Tx.Outs) > 0 {
		r.NonTrivial()
	}

	// The builder is a source too.
	if len(c.Embs) == 0 {
		s, err := fees.EstimateSize(b, byScript)
		v, verr := fees.Fee(b)
		if err != nil || s != size || verr != nil || v != gotActual {
			return fmt.Errorf("builder as source: size %d, error %v, fee %d, error %v", s, err, v, verr)
		}
		if allSignable(c.Tx.Ins) && len(c.Tx.Ins) > 0 {
			if _, err := b.SignOnly(keyList(neededKeys(c.Tx.Ins))); err != nil {
				return fmt.Errorf("sign: %s", err)
			}
			if n := len(refSerialize(b.MsgTx)); n > gotSize {
				return fmt.Errorf("signed size %d above estimate %d", n, gotSize)
			}
			if s, err := fees.EstimateSize(b, byScript); err != nil || s != size {
				return fmt.Errorf("estimate %d, error %v after signing, before %d", s, err, size)
			}
			r.Class("signed")
		}
	}
	return nil
}

// helperFigures checks what depends on a script, a size and rates alone.
func helperFigures(c HelperCase, r *Rec) error {
	script := c.S.Bytes()
	rate := float64(c.Rate)
	dustRate := float64(c.Tx.Dust)

	want, known := c.S.UnlockSize()
	got, err := fees.EstimateUnlockingSize(script)
	other, otherErr := txbuilder.UnlockingScriptSize(script)
	if (err == nil) != known || got != want {
		return fmt.Errorf("unlocking size of %s is %d, error %v, want %d", c.S.T, got, err, want)
	}
	if (otherErr == nil) != known || other != want {
		return fmt.Errorf("unlocking size of %s from builder is %d, error %v, want %d", c.S.T, other, otherErr,
			want)
	}
	r.Class("script " + c.S.T)

	// Embedded data does not matter if the script is known.
	if len(script) > 0 {
		txin := &wire.TxIn{UnlockingScript: Emb{Size: uint64(c.Size % 1000), Value: 5000}.Script()}
		byScript := estimator{fees.EstimateUnlockingSize}
		inSize, _ := c.S.InSize()
		if n, err := fees.EstimateInputSize(txin, script, byScript); (err == nil) != known || known && n != inSize {
			return fmt.Errorf("size of input with %s and embedded data %d, error %v, want %d", c.S.T, n, err, inSize)
		}
		for _, v := range []uint64{1, 4999} {
			if n, err := fees.InputValue(txin, &wire.TxOut{Value: v, LockingScript: script}); err != nil || n != v {
				return fmt.Errorf("value of input with embedded data %d, error %v, want %d", n, err, v)
			}
		}
	}

	outSize := c.S.OutSize()
	outFee := refFee(outSize, c.Rate)
	inFee := uint64(0)
	if known {
		inSize, _ := c.S.InSize()
		inFee = refFee(inSize, c.Rate)
	}
	f, i, err := fees.OutputTotalCost(script, rate)
	if f != outFee || i != inFee || (err == nil) != known {
		return fmt.Errorf("total cost %d and %d, error %v, want %d and %d", f, i, err, outFee, inFee)
	}
	if f := fees.OutputFeeForLockingScript(script, rate); f != outFee {
		return fmt.Errorf("output fee %d, want %d", f, outFee)
	}
	if n := fees.OutputSize(script); n != outSize {
		return fmt.Errorf("output size %d, want %d", n, outSize)
	}
	if n := fees.OutputSizeForLockingScriptSize(len(script)); n != outSize {
		return fmt.Errorf("output size for length %d, want %d", n, outSize)
	}
	if n := fees.OutputSizeForLockingScriptSize(c.Size); n != refOutSize(c.Size) {
		return fmt.Errorf("output size for length %d is %d", c.Size, n)
	}
	if n := fees.InputSizeForUnlockingScriptSize(c.Size); n != 40+refVarIntSize(uint64(c.Size))+c.Size {
		return fmt.Errorf("input size for length %d is %d", c.Size, n)
	}
	if n := fees.InputSizeForUnlockingScriptSize(c.Unlock); n != 40+refVarIntSize(uint64(c.Unlock))+c.Unlock {
		return fmt.Errorf("input size for length %d is %d", c.Unlock, n)
	}
	if f := fees.EstimateFeeValue(c.Size, rate); f != refFee(c.Size, c.Rate) {
		return fmt.Errorf("fee of %d bytes is %d, want %d", c.Size, f, refFee(c.Size, c.Rate))
	}
	exact := new(big.Rat).SetFloat64(c.Rate64)
	exact.Mul(exact, new(big.Rat).SetInt64(int64(c.Size)))
	about, _ := exact.Float64()
	if f := float64(fees.EstimateFeeValue(c.Size, c.Rate64)); f < math.Ceil(about*(1-1e-15)) ||
		f > math.Ceil(about*(1+1e-15)) {
		return fmt.Errorf("fee of %d bytes at %g is %g", c.Size, c.Rate64, f)
	}

	for _, x := range []float32{c.Rate, c.Tx.Dust} {
		if d := fees.DustLimit(c.Size, float64(x)); d != refDustUp(c.Size, x) {
			return fmt.Errorf("dust limit for %d bytes at %g is %d, want %d", c.Size, x, d,
				refDustUp(c.Size, x))
		}
		dust := refDustUp(outSize, x)
		if d := fees.DustLimitForOutput(&wire.TxOut{Value: 5, LockingScript: script}, float64(x)); d != dust {
			return fmt.Errorf("dust limit of output %d, want %d", d, dust)
		}
		if d := fees.DustLimitForLockingScript(script, float64(x)); d != dust {
			return fmt.Errorf("dust limit of script %d, want %d", d, dust)
		}
		if d := fees.DustLimitForLockingScriptSize(len(script), float64(x)); d != dust {
			return fmt.Errorf("dust limit of script length %d, want %d", d, dust)
		}
	}
	dust := refDustUp(outSize, c.Tx.Dust)
	if f, d := fees.OutputFeeAndDustForLockingScript(script, dustRate, rate); f != outFee || d != dust {
		return fmt.Errorf("fee and dust %d and %d, want %d and %d", f, d, outFee, dust)
	}
	if n, d := fees.OutputSizeAndDustForLockingScript(script, dustRate); n != outSize || d != dust {
		return fmt.Errorf("size and dust %d and %d, want %d and %d", n, d, outSize, dust)
	}
	return nil
}

func init() {
	register("C22", "at least one input and one output with all figures known", 27000, 87500, genC22, checkC22)
}
