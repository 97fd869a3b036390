package main

import (
	"fmt"

	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// FeeOp changes the fee of a builder, or something between such changes.
type FeeOp struct {
	Kind string `json:"kind"` // adjust, calculate, zero, insert, copy, rate
	Base string `json:"base,omitempty"`
	D    int64  `json:"d,omitempty"`
	Out  *Out   `json:"out,omitempty"`
	At   int    `json:"at,omitempty"`
}

type AdjustCase struct {
	Tx  Tx      `json:"tx"`
	Ops []FeeOp `json:"ops"`
}

func genC21(t *rapid.T) AdjustCase {
	c := AdjustCase{Tx: genTx(t, txOpts{minIns: 0, maxIns: 3, minOuts: 0, maxOuts: 3, maxScript: 300,
		zeroFee: true, many: true, manyIns: true})}
	for n := rapid.IntRange(1, 5).Draw(t, "operations"); n > 0; n-- {
		op := FeeOp{Kind: rapid.SampledFrom([]string{"adjust", "adjust", "adjust", "adjust", "calculate",
			"calculate", "zero", "insert", "copy", "rate"}).Draw(t, "kind")}
		switch op.Kind {
		case "adjust":
			// Amounts relative to the places where something changes.
			op.Base = rapid.SampledFrom([]string{"", "", "+change", "+change", "+change-cost", "+change-cost",
				"-create", "-create", "-fee", "-double"}).Draw(t, "amount")
			op.D = int64(rapid.IntRange(-4, 4).Draw(t, "around"))
			if op.Base == "" {
				op.D = int64(genValue(t, 0, 1000000000))
				if rapid.Bool().Draw(t, "lower") {
					op.D = -op.D
				}
			}
		case "insert":
			op.Out = &Out{S: genChangeScript(t, 2+n), V: genValue(t, 0, 100000),
				Rem: rapid.Bool().Draw(t, "remainder"), K: genKeyID(t)}
			op.At = rapid.IntRange(0, 3).Draw(t, "at")
		case "rate":
			op.D = int64(rapid.IntRange(0, len(feeRates)-1).Draw(t, "rate"))
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// feeModel is what the builder should contain. In it the values of outputs are final.
type feeModel struct {
	Tx
	added map[string]bool // scripts of outputs added by fee adjustment
}

func (m *feeModel) size() int { return refSize(m.Ins, outScripts(m.Outs)) }

// actual is inputs minus outputs.
func (m *feeModel) actual() int64 {
	n := int64(m.inTotal())
	for _, o := range m.Outs {
		n -= int64(o.V)
	}
	return n
}

// cost is the cost of creating and spending an output.
func (m *feeModel) cost(s Script) uint64 {
	n := refFee(s.OutSize(), m.Fee)
	if in, known := s.InSize(); known {
		n += refFee(in, m.Fee)
	}
	return n
}

// amount resolves the amount of an adjustment.
func (m *feeModel) amount(op FeeOp) int64 {
	first := m.remainder()
	add, out, in := m.changeCosts(m.size(), len(m.Outs))
	switch op.Base {
	case "+change":
		if first >= 0 {
			return int64(m.Outs[first].V) + op.D
		}
	case "+change-cost":
		if first >= 0 {
			return int64(m.Outs[first].V) - int64(m.cost(m.Outs[first].S)) + op.D
		}
	case "-create":
		return -int64(add+out+in) - op.D
	case "-double":
		return -int64(add+2*(out+in)) - op.D
	case "-fee":
		return -m.actual() + op.D
	}
	return op.D
}

// adjust returns the result of an adjustment.
func (m *feeModel) adjust(amount int64, r *Rec) (bool, error) {
	if amount == 0 {
		return true, nil
	}
	first := m.remainder()
	if amount > 0 {
		if first < 0 {
			r.Class("raise without change")
			return false, txbuilder.ErrInsufficientValue
		}
		o := &m.Outs[first]
		if o.V < uint64(amount) {
			r.Class("raise by more than change")
			return false, txbuilder.ErrInsufficientValue
		}
		if o.V-uint64(amount) < m.cost(o.S) {
			if !m.added[string(o.S.Bytes())] {
				r.Class("raise leaves too little")
				return false, txbuilder.ErrInsufficientValue
			}
			m.Outs = append(append([]Out{}, m.Outs[:first]...), m.Outs[first+1:]...)
			r.Class("raise drops change")
			r.NonTrivial()
			return true, nil
		}
		o.V -= uint64(amount)
		r.Class("raised")
		r.NonTrivial()
		return false, nil
	}
	lower := uint64(-amount)
	if first >= 0 {
		m.Outs[first].V += lower
		r.Class("lowered")
		r.NonTrivial()
		return false, nil
	}
	add, out, in := m.changeCosts(m.size(), len(m.Outs))
	if lower < add || lower-add <= out+in {
		r.Class("left as fee")
		return true, nil
	}
	if m.Change == nil {
		r.Class("no change script")
		return false, txbuilder.ErrChangeAddressNeeded
	}
	m.Outs = append(m.Outs, Out{S: *m.Change, V: lower - add, Rem: true, K: m.ChKey})
	m.added[string(m.Change.Bytes())] = true
	r.Class("change created")
	r.NonTrivial()
	return false, nil
}

func checkC21(c AdjustCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	m := &feeModel{Tx: c.Tx, added: map[string]bool{}}
	m.Outs = nil
	for _, o := range c.Tx.Outs {
		o.V = c.Tx.outValue(o)
		m.Outs = append(m.Outs, o)
	}
	want := snap(b)

	for i, op := range c.Ops {
		what := fmt.Sprintf("operation %d (%s)", i, op.Kind)
		var wantErr, err error
		var wantDone, done bool
		switch op.Kind {
		case "adjust":
			amount := m.amount(op)
			what += fmt.Sprintf(" by %d", amount)
			wantDone, wantErr = m.adjust(amount, r)
			done, err = b.AdjustFee(amount)
			if err == nil && done != wantDone {
				return fmt.Errorf("%s: done %v", what, done)
			}
		case "calculate":
			count := len(m.Outs)
			_, wantErr = m.adjust(int64(refFee(m.size(), m.Fee))-m.actual(), r)
			err = b.CalculateFee()
			if err == nil && m.remainder() >= 0 && len(m.Outs) >= count {
				if b.ActualFee() != int64(b.EstimatedFee()) || b.ActualFee() != int64(refFee(m.size(), m.Fee)) {
					return fmt.Errorf("%s: fee %d, estimate %d", what, b.ActualFee(), b.EstimatedFee())
				}
				r.Class("calculated with change")
			}
		case "zero":
			had, count := m.remainder() >= 0, len(m.Outs)
			_, wantErr = m.adjust(-m.actual(), r)
			err = b.ZeroizeFee()
			if err == nil && had && len(m.Outs) == count && b.ActualFee() != 0 {
				return fmt.Errorf("%s: fee %d", what, b.ActualFee())
			}
		case "insert":
			at := op.At
			if at > len(m.Outs) {
				at = len(m.Outs)
			}
			o := *op.Out
			m.Outs = append(append(append([]Out{}, m.Outs[:at]...), o), m.Outs[at:]...)
			// The function for bulk additions has no lower limit for values, so insert and update.
			if err := b.InsertOutput(at, o.S.Bytes(), 1000000+o.V, o.Rem, false); err != nil {
				return fmt.Errorf("%s: %s", what, err)
			}
			b.MsgTx.TxOut[at].Value = o.V
			b.Outputs[at].KeyID = o.K
		case "copy":
			x := b.Copy()
			b = &x
		case "rate":
			m.Fee = feeRates[op.D]
			b.FeeRate = m.Fee
		}
		if wantErr != nil {
			if !is(err, wantErr) {
				return fmt.Errorf("%s: error %v, want %v", what, err, wantErr)
			}
		} else if err != nil {
			return fmt.Errorf("%s: %s", what, err)
		}

		want.Fee = m.Fee
		want.Outs = nil
		for _, o := range m.Outs {
			want.Outs = append(want.Outs, snapOut{Value: o.V, Script: string(o.S.Bytes()), Remainder: o.Rem,
				Dust: o.D, KeyID: o.K})
		}
		if err := sameSnap(what, want, snap(b)); err != nil {
			return err
		}
		if b.ActualFee() != m.actual() {
			return fmt.Errorf("%s: actual fee %d, want %d", what, b.ActualFee(), m.actual())
		}
		fee := uint64(0)
		if m.actual() > 0 {
			fee = uint64(m.actual())
		}
		if b.Fee() != fee {
			return fmt.Errorf("%s: fee %d, want %d", what, b.Fee(), fee)
		}
	}
	return nil
}

func init() {
	register("C21", "an adjustment changed an output", 45000, 105000, genC21, checkC21)
}
