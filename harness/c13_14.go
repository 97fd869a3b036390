package main

import (
	"bytes"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// InputOp is a request about inputs.
type InputOp struct {
	Op    string `json:"op"`
	At    int    `json:"at,omitempty"`
	Coin  Coin   `json:"coin"`
	Coins []Coin `json:"coins,omitempty"`
}

type DoubleCase struct {
	Fill int       `json:"fill,omitempty"` // inputs before the first request
	Pay  uint64    `json:"pay"`
	Ops  []InputOp `json:"ops"`
}

// poolCoin draws a coin from a small pool with shared transactions and indexes.
// First is the place of the byte in which the ids of the first two transactions differ.
func poolCoin(t *rapid.T, first, fill int) Coin {
	if fill > 0 && rapid.IntRange(0, 3).Draw(t, "early input") == 2 {
		return fillCoin(rapid.IntRange(0, fill-1).Draw(t, "input"))
	}
	h := rapid.IntRange(0, 3).Draw(t, "transaction")
	i := rapid.SampledFrom([]uint32{0, 0, 1, 2, 0x100, 0x10000, 0x1000000, 0x80000000, 0xffffffff}).Draw(t, "index")
	// The same outpoint mostly has the same script and value.
	c := Coin{H: (first+h/2*5)%32 + h%2*32, I: i, V: 400 + 100*uint64(h) + uint64(i)%97,
		S: Script{T: tPKH, K: []int{(h*7 + int(i%5)) % changeKeys}}}
	switch rapid.IntRange(0, 9).Draw(t, "other data") {
	case 4:
		c.V = 0
	case 6:
		c.S.K[0] = (c.S.K[0] + 1) % changeKeys
	}
	return c
}

func fillCoin(n int) Coin {
	return Coin{H: 70, I: uint32(n), V: 1, S: Script{T: tPKH, K: []int{n % changeKeys}}}
}

func fillOut(n int) Out {
	return Out{V: 1000 + uint64(n), Rem: n%7 == 3, K: fmt.Sprint("fill ", n), S: Script{T: tPKH,
		K: []int{n % changeKeys}}}
}

func genC13(t *rapid.T) DoubleCase {
	c := DoubleCase{Pay: rapid.SampledFrom([]uint64{1000, 3000, 100000}).Draw(t, "payment")}
	first := rapid.IntRange(0, 31).Draw(t, "first")
	if rapid.IntRange(0, 49).Draw(t, "many inputs") == 25 {
		c.Fill = rapid.SampledFrom([]int{16, 31, 62, 126, 251, 300}).Draw(t, "inputs")
	}
	count := c.Fill
	for n := rapid.IntRange(2, 16).Draw(t, "requests"); n > 0; n-- {
		op := InputOp{Op: rapid.SampledFrom([]string{"add", "add", "add", "add outpoint", "insert", "insert",
			"update", "update", "remove", "fund", "fund break"}).Draw(t, "request")}
		switch op.Op {
		case "fund", "fund break":
			for i := rapid.IntRange(1, 5).Draw(t, "offered"); i > 0; i-- {
				op.Coins = append(op.Coins, poolCoin(t, first, c.Fill))
			}
			count += len(op.Coins) / 2
		default:
			op.Coin = poolCoin(t, first, c.Fill)
			op.At = rapid.IntRange(0, maxI(count, 1)).Draw(t, "position")
			if op.Op == "add" || op.Op == "add outpoint" || op.Op == "insert" {
				count++
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func checkC13(c DoubleCase, r *Rec) error {
	b := txbuilder.NewTxBuilder(0.5, 0.25)
	if err := b.AddOutput(Script{T: tPKH, K: []int{1}}.Bytes(), c.Pay, false, false); err != nil {
		return fmt.Errorf("add output: %s", err)
	}
	change := Script{T: tPKH, K: []int{changeKeys}}
	if err := b.SetChangeLockingScript(change.Bytes(), ""); err != nil {
		return err
	}
	var model []wire.OutPoint
	has := func(o wire.OutPoint, except int) bool {
		for i, m := range model {
			if i != except && m == o {
				return true
			}
		}
		return false
	}
	for i := 0; i < c.Fill; i++ {
		if err := b.AddInputUTXO(fillCoin(i).UTXO()); err != nil {
			return fmt.Errorf("add input %d: %s", i, err)
		}
		model = append(model, fillCoin(i).OutPoint())
	}
	r.If(c.Fill > 0, "many inputs")

	for n, op := range c.Ops {
		before := snap(b)
		o := op.Coin.OutPoint()
		var err error
		duplicate := false
		at := op.At
		what := fmt.Sprintf("request %d (%s)", n, op.Op)
		next := append([]wire.OutPoint{}, model...)
		switch op.Op {
		case "add", "add outpoint":
			duplicate = has(o, -1)
			next = append(next, o)
			if op.Op == "add" {
				err = b.AddInputUTXO(op.Coin.UTXO())
			} else {
				err = b.AddInput(o, op.Coin.S.Bytes(), op.Coin.V)
			}
		case "insert":
			duplicate = has(o, -1)
			if at > len(model) {
				at = len(model)
			}
			next = append(append(append([]wire.OutPoint{}, model[:at]...), o), model[at:]...)
			err = b.InsertInput(at, op.Coin.UTXO())
		case "update", "remove":
			if len(model) == 0 {
				continue
			}
			at %= len(model)
			if op.Op == "remove" {
				next = append(next[:at], next[at+1:]...)
				err = b.RemoveInput(at)
				break
			}
			duplicate = has(o, at)
			if model[at] == o {
				r.Class("replaced by itself")
				r.NonTrivial()
			}
			next[at] = o
			err = b.UpdateInputUTXO(at, op.Coin.UTXO())
		case "fund", "fund break":
			var ferr error
			if op.Op == "fund" {
				ferr = b.AddFunding(utxos(op.Coins))
			} else {
				addrs, aerr := addressKeyIDs([]Script{change})
				if aerr != nil {
					return aerr
				}
				ferr = b.AddFundingBreakChange(utxos(op.Coins), 100, addrs)
			}
			if ferr != nil && is(ferr, txbuilder.ErrDuplicateInput) {
				return fmt.Errorf("%s: %s", what, ferr)
			}
			s := snap(b)
			if len(s.Ins) < len(model) {
				return fmt.Errorf("%s: %d inputs, had %d", what, len(s.Ins), len(model))
			}
			offered := map[wire.OutPoint]bool{}
			for _, coin := range op.Coins {
				offered[coin.OutPoint()] = true
				if has(coin.OutPoint(), -1) {
					r.Class("offered an input again")
					r.NonTrivial()
				}
			}
			for i, in := range s.Ins {
				if i < len(model) {
					if in.Out != model[i] {
						return fmt.Errorf("%s: input %d changed", what, i)
					}
					continue
				}
				if !offered[in.Out] {
					return fmt.Errorf("%s: input %d was not offered", what, i)
				}
				if has(in.Out, -1) {
					return fmt.Errorf("%s: input %d is spent twice", what, i)
				}
				model = append(model, in.Out)
			}
			// Later requests start with payments only.
			for i := len(b.Outputs) - 1; i >= 0; i-- {
				if b.Outputs[i].IsRemainder {
					b.RemoveOutput(i)
				}
			}
			continue
		}

		if duplicate {
			r.Class("duplicate")
			r.NonTrivial()
			if !is(err, txbuilder.ErrDuplicateInput) {
				return fmt.Errorf("%s of a coin that is an input already: error %v", what, err)
			}
			if err := sameSnap(what+" refused", before, snap(b)); err != nil {
				return err
			}
		} else {
			if err != nil {
				return fmt.Errorf("%s: %s", what, err)
			}
			model = next
		}
		s := snap(b)
		if len(s.Ins) != len(model) {
			return fmt.Errorf("%s: %d inputs, want %d", what, len(s.Ins), len(model))
		}
		for i, in := range s.Ins {
			if in.Out != model[i] {
				return fmt.Errorf("%s: input %d is %s", what, i, in.Out)
			}
		}
	}
	return nil
}

// EditOp is an edit of a builder.
type EditOp struct {
	Op   string  `json:"op"`
	At   int     `json:"at,omitempty"`
	Coin *Coin   `json:"coin,omitempty"`
	S    *Script `json:"s,omitempty"`
	V    uint64  `json:"v,omitempty"`
	Rem  bool    `json:"rem,omitempty"`
	D    bool    `json:"dust,omitempty"`
	K    string  `json:"k,omitempty"`
	Outs []Out   `json:"outs,omitempty"`
}

type EditCase struct {
	Fee  float32  `json:"fee"`
	Dust float32  `json:"dust"`
	Ops  []EditOp `json:"ops"`
}

var inputEdits = []string{"add coin", "add coin", "add coin", "add input", "insert input", "insert input",
	"update input", "remove input", "sequence", "unlock"}

var outputEdits = []string{"add", "add", "add", "insert", "insert", "remove", "update", "add outputs",
	"add value", "subtract", "set dust", "change", "change", "payment", "dust", "max", "max script", "key id"}

// genEdits draws a history of edits. Positions reach past the end.
func genEdits(t *rapid.T, c Tx, min, max int, fee float32) []EditOp {
	ins, outs := len(c.Ins), len(c.Outs)
	var scripts []Script
	for _, o := range c.Outs {
		scripts = append(scripts, o.S)
	}
	script := func() *Script {
		s := Script{}
		if len(scripts) > 0 && rapid.IntRange(0, 2).Draw(t, "same script") == 0 {
			s = rapid.SampledFrom(scripts).Draw(t, "script")
		} else {
			s = genOutScript(t, 400)
			scripts = append(scripts, s)
		}
		return &s
	}
	position := func(n int) int {
		if n > 0 && rapid.IntRange(0, 7).Draw(t, "inside") != 7 {
			return rapid.IntRange(0, n-1).Draw(t, "position")
		}
		past := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 0x100, 0x10000, 0x80000000 - n, 0xffffffff - n}).Draw(t,
			"position past the end")
		return n + past
	}
	var ops []EditOp
	for n := rapid.IntRange(min, max).Draw(t, "edits"); n > 0; n-- {
		op := EditOp{}
		if rapid.Bool().Draw(t, "about inputs") {
			op.Op = rapid.SampledFrom(inputEdits).Draw(t, "edit")
		} else {
			op.Op = rapid.SampledFrom(outputEdits).Draw(t, "edit")
		}
		value := func(s *Script) uint64 {
			return genValue(t, refFee(s.OutSize(), fee)-minU(refFee(s.OutSize(), fee), 1), 1000000000)
		}
		switch op.Op {
		case "add coin", "add input", "insert input", "update input":
			coins := genCoins(t, 1, 1, 50+rapid.IntRange(0, 60).Draw(t, "transaction"), false)
			coins[0].V = genValue(t, 0, 1000000000)
			if rapid.IntRange(0, 9).Draw(t, "unknown coin") == 9 {
				coins[0].S = Script{T: tRaw}
				coins[0].V = rapid.Uint64Range(0, 1).Draw(t, "value")
			}
			op.Coin = &coins[0]
			op.At = position(ins)
			if op.Op != "update input" {
				ins++
			}
		case "remove input", "sequence", "unlock":
			op.At = position(ins)
			op.V = uint64(rapid.Uint32().Draw(t, "number"))
			if op.Op == "remove input" && ins > 0 {
				ins--
			}
		case "add", "insert":
			op.S = script()
			op.V = value(op.S)
			op.Rem = rapid.IntRange(0, 2).Draw(t, "remainder") == 2
			op.D = rapid.IntRange(0, 3).Draw(t, "dust") == 3
			op.At = position(outs)
			outs++
		case "remove", "set dust":
			op.At = position(outs)
			if op.Op == "remove" && outs > 0 {
				outs--
			}
		case "update":
			op.At = position(outs)
			op.S = script()
		case "add outputs":
			for i := rapid.IntRange(0, 3).Draw(t, "outputs"); i > 0; i-- {
				s := script()
				op.Outs = append(op.Outs, Out{S: *s, V: genValue(t, 0, 1000000000),
					Rem: rapid.Bool().Draw(t, "remainder"), D: rapid.Bool().Draw(t, "dust"),
					K: genKeyID(t)})
				outs++
			}
		case "add value", "subtract":
			op.At = position(outs)
			op.V = genValue(t, 0, 1000000000)
		case "change":
			op.S = script()
			op.K = genKeyID(t)
		case "payment", "dust", "max":
			s := genAddressScript(t)
			op.S = &s
			op.V = value(op.S)
			op.Rem = rapid.IntRange(0, 2).Draw(t, "remainder") == 2
			outs++
		case "max script":
			op.S = script()
			outs++
		case "key id":
			op.At = position(outs)
			op.K = genKeyID(t)
		}
		ops = append(ops, op)
	}
	return ops
}

// editModel is the list model of a builder.
type editModel struct {
	s       Snap
	scripts map[string]Script // descriptions of the scripts in use
}

func (m *editModel) learn(s Script) string {
	b := string(s.Bytes())
	if _, ok := m.scripts[b]; !ok {
		m.scripts[b] = s
	}
	return b
}

// apply applies an edit to the model and reports if it must be accepted.
func (m *editModel) apply(op EditOp) bool {
	s := &m.s
	coin := func() snapIn {
		in := snapIn{Out: op.Coin.OutPoint(), Seq: 0xffffffff, Lock: m.learn(op.Coin.S), Value: op.Coin.V,
			KeyID: op.Coin.K}
		if op.Op == "add input" {
			in.KeyID = ""
		}
		return in
	}
	spends := func(o wire.OutPoint, except int) bool {
		for i, in := range s.Ins {
			if i != except && in.Out == o {
				return true
			}
		}
		return false
	}
	output := func(at int, rem, dust, max bool) bool {
		o := snapOut{Value: op.V, Script: m.learn(*op.S), Remainder: rem, Dust: dust}
		size := op.S.OutSize()
		if dust {
			o.Value = refDust(size, s.Dust)
		} else if op.V < refFee(size, s.Fee) && op.S.Spendable() && !(max && rem) {
			return false
		}
		s.Outs = append(append(append([]snapOut{}, s.Outs[:at]...), o), s.Outs[at:]...)
		return true
	}

	switch op.Op {
	case "fill":
		for i := 0; i < int(op.V); i++ {
			x := fillCoin(i)
			in := snapIn{Out: x.OutPoint(), Seq: 0xffffffff, Lock: m.learn(x.S), Value: x.V}
			if op.Rem {
				in.Unlock = string(unlockFor(1))
			}
			s.Ins = append(s.Ins, in)
			o := fillOut(i)
			s.Outs = append(s.Outs, snapOut{Value: o.V, Script: m.learn(o.S), Remainder: o.Rem, KeyID: o.K})
		}
	case "add coin", "add input":
		if spends(op.Coin.OutPoint(), -1) {
			return false
		}
		s.Ins = append(s.Ins, coin())
	case "insert input":
		if op.At > len(s.Ins) || spends(op.Coin.OutPoint(), -1) {
			return false
		}
		s.Ins = append(append(append([]snapIn{}, s.Ins[:op.At]...), coin()), s.Ins[op.At:]...)
	case "update input":
		if op.At >= len(s.Ins) || spends(op.Coin.OutPoint(), op.At) {
			return false
		}
		in := coin()
		in.Seq, in.Unlock = s.Ins[op.At].Seq, s.Ins[op.At].Unlock
		s.Ins[op.At] = in
	case "remove input":
		if op.At >= len(s.Ins) {
			return false
		}
		s.Ins = append(s.Ins[:op.At], s.Ins[op.At+1:]...)
	case "sequence":
		if op.At < len(s.Ins) {
			s.Ins[op.At].Seq = uint32(op.V)
		}
	case "unlock":
		if op.At < len(s.Ins) {
			s.Ins[op.At].Unlock = string(unlockFor(op.V))
		}
	case "add":
		return output(len(s.Outs), op.Rem, op.D, s.SendMax)
	case "insert":
		if op.At > len(s.Outs) {
			return false
		}
		return output(op.At, op.Rem, op.D, s.SendMax)
	case "payment":
		return output(len(s.Outs), op.Rem, false, s.SendMax)
	case "dust":
		return output(len(s.Outs), op.Rem, true, s.SendMax)
	case "max", "max script":
		s.SendMax = true
		op.V = 0
		return output(len(s.Outs), true, false, true)
	case "remove":
		if op.At >= len(s.Outs) {
			return false
		}
		s.Outs = append(s.Outs[:op.At], s.Outs[op.At+1:]...)
	case "update":
		if op.At >= len(s.Outs) {
			return false
		}
		s.Outs[op.At].Script = m.learn(*op.S)
	case "add outputs":
		for _, o := range op.Outs {
			s.Outs = append(s.Outs, snapOut{Value: o.V, Script: m.learn(o.S), Remainder: o.Rem, Dust: o.D,
				KeyID: o.K})
		}
	case "add value":
		if op.At >= len(s.Outs) {
			return false
		}
		o := &s.Outs[op.At]
		if o.Dust {
			if op.V < refDust(refOutSize(len(o.Script)), s.Dust) {
				return false
			}
			o.Dust = false
			o.Value = 0
		}
		o.Value += op.V
	case "subtract":
		if op.At >= len(s.Outs) {
			return false
		}
		o := &s.Outs[op.At]
		if o.Value < op.V || o.Value-op.V < refDust(refOutSize(len(o.Script)), s.Dust) {
			return false
		}
		o.Value -= op.V
	case "set dust":
		if op.At >= len(s.Outs) {
			return false
		}
		o := &s.Outs[op.At]
		o.Dust = true
		o.Value = refDust(refOutSize(len(o.Script)), s.Dust)
	case "change":
		script := m.learn(*op.S)
		s.Change, s.ChangeID = script, op.K
		for i := range s.Outs {
			if s.Outs[i].Script == script {
				s.Outs[i].Remainder = true
				s.Outs[i].KeyID = op.K
			}
		}
	case "key id":
		if op.At < len(s.Outs) {
			s.Outs[op.At].KeyID = op.K
		}
	default:
		panic("harness: edit " + op.Op)
	}
	return true
}

// unlockFor is a made up unlocking script.
func unlockFor(n uint64) bitcoin.Script {
	if n%3 == 0 {
		return bitcoin.Script{byte(0x51 + n%10)}
	}
	return append(refPush(filler(int(n%100))), byte(0x51+n%10))
}

// applyEdit applies an edit to a builder.
func applyEdit(b *txbuilder.TxBuilder, op EditOp) error {
	switch op.Op {
	case "fill":
		var list []*txbuilder.Output
		for i := 0; i < int(op.V); i++ {
			if err := b.AddInputUTXO(fillCoin(i).UTXO()); err != nil {
				return err
			}
			if op.Rem {
				b.MsgTx.TxIn[i].UnlockingScript = unlockFor(1)
			}
			o := fillOut(i)
			list = append(list, &txbuilder.Output{
				TxOut:      wire.TxOut{Value: o.V, LockingScript: o.S.Bytes()},
				Supplement: txbuilder.OutputSupplement{IsRemainder: o.Rem, KeyID: o.K},
			})
		}
		b.AddOutputs(list)
	case "add coin":
		return b.AddInputUTXO(op.Coin.UTXO())
	case "add input":
		return b.AddInput(op.Coin.OutPoint(), op.Coin.S.Bytes(), op.Coin.V)
	case "insert input":
		return b.InsertInput(op.At, op.Coin.UTXO())
	case "update input":
		return b.UpdateInputUTXO(op.At, op.Coin.UTXO())
	case "remove input":
		return b.RemoveInput(op.At)
	case "sequence":
		if op.At < len(b.MsgTx.TxIn) {
			b.MsgTx.TxIn[op.At].Sequence = uint32(op.V)
		}
	case "unlock":
		if op.At < len(b.MsgTx.TxIn) {
			b.MsgTx.TxIn[op.At].UnlockingScript = unlockFor(op.V)
		}
	case "add":
		return b.AddOutput(op.S.Bytes(), op.V, op.Rem, op.D)
	case "insert":
		return b.InsertOutput(op.At, op.S.Bytes(), op.V, op.Rem, op.D)
	case "payment", "dust", "max":
		ra, err := op.S.Address()
		if err != nil {
			panic("harness: address: " + err.Error())
		}
		switch op.Op {
		case "payment":
			return b.AddPaymentOutput(ra, op.V, op.Rem)
		case "dust":
			return b.AddDustOutput(ra, op.Rem)
		}
		return b.AddMaxOutput(ra)
	case "max script":
		return b.AddMaxScriptOutput(op.S.Bytes())
	case "remove":
		return b.RemoveOutput(op.At)
	case "update":
		return b.UpdateOutput(uint32(op.At), op.S.Bytes())
	case "add outputs":
		var list []*txbuilder.Output
		for _, o := range op.Outs {
			list = append(list, &txbuilder.Output{
				TxOut:      wire.TxOut{Value: o.V, LockingScript: o.S.Bytes()},
				Supplement: txbuilder.OutputSupplement{IsRemainder: o.Rem, IsDust: o.D, KeyID: o.K},
			})
		}
		b.AddOutputs(list)
	case "add value":
		return b.AddValueToOutput(uint32(op.At), op.V)
	case "subtract":
		return b.SubtractValueFromOutput(uint32(op.At), op.V)
	case "set dust":
		return b.SetOutputToDust(uint32(op.At))
	case "change":
		if op.S.HasAddress() && op.K != "" {
			ra, err := op.S.Address()
			if err != nil {
				panic("harness: address: " + err.Error())
			}
			return b.SetChangeAddress(ra, op.K)
		}
		return b.SetChangeLockingScript(op.S.Bytes(), op.K)
	case "key id":
		if op.At < len(b.Outputs) {
			b.Outputs[op.At].KeyID = op.K
		}
	default:
		panic("harness: edit " + op.Op)
	}
	return nil
}

// size is the estimated size according to the model.
func (m *editModel) size() int {
	n := 8 + refVarIntSize(uint64(len(m.s.Ins))) + refVarIntSize(uint64(len(m.s.Outs)))
	for _, in := range m.s.Ins {
		size, _ := m.scripts[in.Lock].InSize()
		n += size
	}
	for _, o := range m.s.Outs {
		n += refOutSize(len(o.Script))
	}
	return n
}

// reports compares everything the builder reports with the model.
func (m *editModel) reports(b *txbuilder.TxBuilder) error {
	s := m.s
	if b.GetMsgTx() != b.MsgTx {
		return fmt.Errorf("another transaction")
	}
	if b.InputCount() != len(s.Ins) || b.OutputCount() != len(s.Outs) {
		return fmt.Errorf("%d inputs, %d outputs, want %d, %d", b.InputCount(), b.OutputCount(), len(s.Ins),
			len(s.Outs))
	}
	in, out, change, back := uint64(0), uint64(0), uint64(0), uint64(0)
	signed := true
	for i, x := range s.Ins {
		in += x.Value
		txin := b.Input(i)
		if txin.PreviousOutPoint != x.Out || txin.Sequence != x.Seq ||
			string(txin.UnlockingScript) != x.Unlock {
			return fmt.Errorf("input %d is %+v, want %+v", i, txin, x)
		}
		o, err := b.InputOutput(i)
		if x.Lock == "" && x.Value == 0 {
			if err == nil {
				return fmt.Errorf("spent output %d reported without data", i)
			}
		} else if err != nil {
			return fmt.Errorf("spent output %d: %s", i, err)
		} else if string(o.LockingScript) != x.Lock || o.Value != x.Value {
			return fmt.Errorf("spent output %d is %+v, want %+v", i, o, x)
		}
		if err := m.address(fmt.Sprintf("input %d", i), x.Lock, func() (bitcoin.RawAddress, error) {
			return b.InputAddress(i)
		}); err != nil {
			return err
		}
		if b.InputIsSigned(i) != (x.Unlock != "") {
			return fmt.Errorf("input %d is signed: %v", i, b.InputIsSigned(i))
		}
		signed = signed && x.Unlock != ""
	}
	for i, x := range s.Outs {
		out += x.Value
		if x.Remainder {
			change += x.Value
			back += x.Value + refFeeDown(refOutSize(len(x.Script)), s.Fee)
		}
		txout := b.Output(i)
		if txout.Value != x.Value || string(txout.LockingScript) != x.Script {
			return fmt.Errorf("output %d is %+v, want %+v", i, txout, x)
		}
		if err := m.address(fmt.Sprintf("output %d", i), x.Script, func() (bitcoin.RawAddress, error) {
			return b.OutputAddress(i)
		}); err != nil {
			return err
		}
	}
	for d := 0; d < 3; d++ {
		if _, err := b.InputAddress(len(s.Ins) + d); err == nil {
			return fmt.Errorf("address of input %d of %d", len(s.Ins)+d, len(s.Ins))
		}
		if _, err := b.OutputAddress(len(s.Outs) + d); err == nil {
			return fmt.Errorf("address of output %d of %d", len(s.Outs)+d, len(s.Outs))
		}
		if _, err := b.InputOutput(len(s.Ins) + d); err == nil {
			return fmt.Errorf("spent output %d of %d", len(s.Ins)+d, len(s.Ins))
		}
	}
	if b.AllInputsAreSigned() != signed {
		return fmt.Errorf("all inputs are signed: %v", b.AllInputsAreSigned())
	}
	if got := b.InputValue(); got != in {
		return fmt.Errorf("input value %d, want %d", got, in)
	}
	if got := b.OutputValue(true); got != out {
		return fmt.Errorf("output value %d, want %d", got, out)
	}
	if got := b.OutputValue(false); got != out-change {
		return fmt.Errorf("output value without change %d, want %d", got, out-change)
	}
	if got := b.ActualFee(); got != int64(in)-int64(out) {
		return fmt.Errorf("actual fee %d, want %d", got, int64(in)-int64(out))
	}
	fee := uint64(0)
	if in > out {
		fee = in - out
	}
	if got := b.Fee(); got != fee {
		return fmt.Errorf("fee %d, want %d", got, fee)
	}
	if got := b.Remainder(); got != back {
		return fmt.Errorf("remainder %d, want %d", got, back)
	}
	if got := b.EstimatedSize(); got != m.size() {
		return fmt.Errorf("estimated size %d, want %d", got, m.size())
	}
	if got := b.EstimatedFee(); got != refFee(m.size(), s.Fee) {
		return fmt.Errorf("estimated fee %d, want %d", got, refFee(m.size(), s.Fee))
	}
	id := b.TxID()
	if !bytes.Equal(id[:], dsha(refSerialize(b.MsgTx))) {
		return fmt.Errorf("id %s", id)
	}
	return nil
}

// address compares a reported address with the one the script was made from.
func (m *editModel) address(what, script string, get func() (bitcoin.RawAddress, error)) error {
	got, err := get()
	d, ok := m.scripts[script]
	if ok && d.HasAddress() && !(d.T == tMulti && d.M > 16) { // the address type doesn't read larger thresholds
		want, aerr := d.Address()
		if aerr != nil {
			return aerr
		}
		if err != nil || !got.Equal(want) {
			return fmt.Errorf("address of %s (%s): %x, %v", what, d.T, got.Bytes(), err)
		}
		return nil
	}
	want, werr := bitcoin.RawAddressFromLockingScript(bitcoin.Script(script))
	if (err == nil) != (werr == nil) || err == nil && !got.Equal(want) {
		return fmt.Errorf("address of %s: %x, %v", what, got.Bytes(), err)
	}
	return nil
}

func checkC14(c EditCase, r *Rec) error {
	b := txbuilder.NewTxBuilder(c.Fee, c.Dust)
	m := &editModel{s: snap(b), scripts: map[string]Script{"": {T: tRaw}}}
	if b.MsgTx.Version != 1 || b.MsgTx.LockTime != 0 || b.FeeRate != c.Fee || b.DustFeeRate != c.Dust {
		return fmt.Errorf("new builder is %+v", m.s)
	}
	kinds := map[string]bool{}
	for n, op := range c.Ops {
		what := fmt.Sprintf("edit %d (%s at %d)", n, op.Op, op.At)
		before := snap(b)
		ok := m.apply(op)
		err := applyEdit(b, op)
		if ok != (err == nil) {
			return fmt.Errorf("%s: error %v", what, err)
		}
		if !ok {
			r.Class("refused")
			m.s.SendMax = b.SendMax
			before.SendMax = b.SendMax
			if err := sameSnap(what+" refused", before, snap(b)); err != nil {
				return err
			}
		}
		kinds[op.Op] = true
		if err := sameSnap(what, m.s, snap(b)); err != nil {
			return err
		}
		if err := m.reports(b); err != nil {
			return fmt.Errorf("after %s: %s", what, err)
		}
	}
	for _, k := range []string{"insert input", "insert", "remove", "remove input", "change"} {
		r.If(kinds[k], k)
	}
	if len(kinds) >= 4 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	register("C13", "a coin that is an input already was given again", 160000, 560000, genC13, checkC13)
	register("C14", "at least four kinds of edits", 12500, 42000, func(t *rapid.T) EditCase {
		c := EditCase{Fee: genFeeRate(t), Dust: genDustRate(t)}
		if rapid.IntRange(0, 39).Draw(t, "many") == 20 {
			fill := EditOp{Op: "fill", V: rapid.SampledFrom([]uint64{17, 33, 70, 130, 252, 260}).Draw(t, "items"),
				Rem: rapid.Bool().Draw(t, "unlocked")}
			tx := Tx{Ins: make([]Coin, fill.V)}
			for i := 0; i < int(fill.V); i++ {
				tx.Outs = append(tx.Outs, fillOut(i))
			}
			c.Ops = append([]EditOp{fill}, genEdits(t, tx, 1, 6, c.Fee)...)
			return c
		}
		c.Ops = genEdits(t, Tx{}, 3, 20, c.Fee)
		return c
	}, checkC14)
}
