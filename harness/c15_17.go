package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// BreakCase breaks a value over recipients.
type BreakCase struct {
	Value    uint64   `json:"value"`
	Break    uint64   `json:"break"`
	To       []Script `json:"to"`
	Scripts  bool     `json:"scripts,omitempty"` // recipients given as scripts
	Fee      float32  `json:"fee"`
	Dust     float32  `json:"dust"`
	Rem      bool     `json:"rem,omitempty"`
	Subtract bool     `json:"subtract,omitempty"`
	Pins     []uint64 `json:"pins"` // random choices of the splitting
}

// genRecipients draws distinct recipients.
func genRecipients(t *rapid.T, scripts bool) []Script {
	n := rapid.IntRange(1, 8).Draw(t, "recipients")
	if rapid.IntRange(0, 9).Draw(t, "many recipients") == 9 {
		n = rapid.IntRange(9, keyCount).Draw(t, "recipients")
	}
	kinds := []string{tPKH, tPKH, tPKH, tPK, tMulti, tSH, tRPH}
	if scripts {
		kinds = append(kinds, tFill, tAgent, tRaw)
	}
	only := rapid.IntRange(0, len(kinds)*2).Draw(t, "one kind")
	var result []Script
	for i := 0; i < n; i++ {
		kind := ""
		if only < len(kinds) {
			kind = kinds[only]
		} else {
			kind = rapid.SampledFrom(kinds).Draw(t, "kind")
		}
		s := Script{T: kind}
		switch kind {
		case tPKH, tPK:
			s.K = []int{i}
		case tMulti:
			s.K = []int{i, (i + 1) % keyCount, (i + 5) % keyCount}
			s.M = rapid.IntRange(1, 3).Draw(t, "required")
		case tAgent:
			s.S = &Script{T: tPKH, K: []int{i}}
			s.M = 1000
		case tRaw:
			s.X = fmt.Sprintf("51%02x", 0x60+i) // distinct op codes
		default:
			s.M = i + 1
		}
		result = append(result, s)
	}
	return result
}

// genBreakValue draws a value around multiples of the break value and around the given marks.
func genBreakValue(t *rapid.T, unit uint64, max uint64, marks ...uint64) uint64 {
	v := uint64(0)
	switch rapid.IntRange(0, 5).Draw(t, "value kind") {
	case 0:
		if len(marks) > 0 {
			v = rapid.SampledFrom(marks).Draw(t, "mark") + rapid.Uint64Range(0, 6).Draw(t, "around")
			v -= minU(v, 3)
		}
	case 1, 2:
		v = genTimes(t, unit, max) + rapid.Uint64Range(0, 6).Draw(t, "around")
		v -= minU(v, 3)
	case 3:
		m := uint64(0)
		for _, x := range marks {
			m += x
		}
		v = genTimes(t, unit, max) + m
	case 4:
		v = genValue(t, 1, max)
	case 5:
		v = rapid.Uint64Range(1, max).Draw(t, "value")
	}
	if v < 1 {
		v = 1
	}
	return minU(v, max)
}

func genTimes(t *rapid.T, unit, max uint64) uint64 {
	n := rapid.Uint64Range(0, 100).Draw(t, "times")
	switch rapid.IntRange(0, 3).Draw(t, "scale") {
	case 0:
		n = rapid.Uint64Range(0, 3).Draw(t, "times")
	case 1:
		n *= 100
	}
	if unit != 0 && n > max/unit {
		return max
	}
	return n * unit
}

func genC15(t *rapid.T) BreakCase {
	c := BreakCase{
		Scripts:  rapid.Bool().Draw(t, "scripts"),
		Fee:      genFeeRate(t),
		Dust:     genDustRate(t),
		Rem:      rapid.Bool().Draw(t, "remainder"),
		Subtract: rapid.Bool().Draw(t, "subtract fee"),
		Break:    genBreak(t),
	}
	if rapid.IntRange(0, 9).Draw(t, "zero fee") == 9 {
		c.Fee = 0
	}
	c.To = genRecipients(t, c.Scripts)
	inSize, _ := c.To[0].InSize()
	in, out := refFee(inSize, c.Fee), refFee(c.To[0].OutSize(), c.Fee)
	c.Value = genBreakValue(t, c.Break, maxMoney, in, out, in+out, c.Break, c.Break+in+out, c.Break+out)
	for i := 0; i < 3; i++ {
		c.Pins = append(c.Pins, rapid.Uint64().Draw(t, "pin"))
	}
	return c
}

func checkC15(c BreakCase, r *Rec) error {
	type cost struct{ out, in uint64 }
	at := map[string]int{}
	var costs []cost
	var scripts []bitcoin.Script
	for i, s := range c.To {
		b := s.Bytes()
		scripts = append(scripts, b)
		at[string(b)] = i
		k := cost{out: refFee(s.OutSize(), c.Fee)}
		if size, ok := s.InSize(); ok {
			k.in = refFee(size, c.Fee)
		}
		costs = append(costs, k)
	}
	if len(at) != len(c.To) {
		return nil // not in the domain
	}
	var addrs []txbuilder.AddressKeyID
	if !c.Scripts {
		var err error
		addrs, err = addressKeyIDs(c.To)
		if err != nil {
			return err
		}
	}

	counts := map[int]bool{}
	for _, pin := range c.Pins {
		rand.VerifPin(pin)
		var outs []*txbuilder.Output
		var err error
		if c.Scripts {
			outs, err = txbuilder.BreakValueLockingScripts(c.Value, c.Break, scripts, c.Dust, c.Fee, c.Rem,
				c.Subtract)
		} else {
			outs, err = txbuilder.BreakValue(c.Value, c.Break, addrs, c.Dust, c.Fee, c.Rem, c.Subtract)
		}
		if err != nil {
			return fmt.Errorf("error %s", err)
		}
		counts[len(outs)] = true

		if len(outs) == 0 {
			least := costs[0].in
			if c.Subtract {
				least += costs[0].out
			}
			if c.Value > least {
				return fmt.Errorf("no outputs, creating and spending the first one costs %d", least)
			}
			r.Class("too small")
			continue
		}

		total, marked, small := uint64(0), 0, 0
		used := map[int]bool{}
		for i, o := range outs {
			to, ok := at[string(o.LockingScript)]
			if !ok {
				return fmt.Errorf("output %d pays an unknown recipient", i)
			}
			if used[to] {
				return fmt.Errorf("recipient %d is paid twice", to)
			}
			used[to] = true
			if o.Value > c.Value {
				return fmt.Errorf("recipient %d is paid %d of %d", to, o.Value, c.Value)
			}
			total += o.Value
			if c.Subtract {
				total += costs[to].out
			}
			wantKey := ""
			if !c.Scripts {
				wantKey = addrKeyID(to)
			}
			if o.Supplement.KeyID != wantKey {
				return fmt.Errorf("recipient %d has key id %q, want %q", to, o.Supplement.KeyID, wantKey)
			}
			if o.Supplement.IsDust {
				return fmt.Errorf("output marked as dust")
			}
			if o.Supplement.IsRemainder {
				marked++
			}
			if belowNineTenths(o.Value, c.Break) {
				small++
				r.Class("rest below the break value")
				if o.Value < costs[to].in {
					return fmt.Errorf("value %d below nine tenths of %d and below the fee %d for spending it",
						o.Value, c.Break, costs[to].in)
				}
				if c.Rem && !o.Supplement.IsRemainder {
					return fmt.Errorf("value %d below nine tenths of %d is not the remainder", o.Value, c.Break)
				}
			}
		}
		if total != c.Value {
			return fmt.Errorf("%d outputs use %d of %d", len(outs), total, c.Value)
		}
		if c.Rem && marked != 1 || !c.Rem && marked != 0 {
			return fmt.Errorf("%d outputs marked as remainder", marked)
		}
		if small > 1 {
			return fmt.Errorf("%d outputs below nine tenths of %d", small, c.Break)
		}
		if len(outs) > 1 {
			r.NonTrivial()
		}
		r.If(len(outs) == len(c.To), "all recipients used")
		r.If(len(outs) < len(c.To), "some recipients used")
	}
	r.If(len(counts) > 1, "random choice changes the count")
	r.If(c.Scripts, "scripts")
	r.If(c.Subtract, "subtract fee")
	return nil
}

// QuantityCase breaks a quantity.
type QuantityCase struct {
	Value uint64   `json:"value"`
	Break uint64   `json:"break"`
	Count int      `json:"count"`
	Pins  []uint64 `json:"pins"`
}

func genC16(t *rapid.T) QuantityCase {
	c := QuantityCase{Break: genBreak(t), Count: rapid.IntRange(1, 8).Draw(t, "count")}
	if rapid.IntRange(0, 3).Draw(t, "many") == 3 {
		c.Count = rapid.IntRange(9, 300).Draw(t, "count")
	}
	c.Value = genBreakValue(t, c.Break, maxMoney)
	if rapid.IntRange(0, 2).Draw(t, "huge") == 2 {
		c.Value = rapid.Uint64Range(1<<59, 1<<64-1).Draw(t, "value")
		if rapid.Bool().Draw(t, "largest") {
			c.Value = 1<<64 - 1 - rapid.Uint64Range(0, 1000).Draw(t, "below the largest")
		}
		switch rapid.IntRange(0, 3).Draw(t, "huge break") {
		case 0:
			c.Break = rapid.Uint64Range(1, 1<<64-1).Draw(t, "break")
		case 1, 2:
			c.Break = c.Value / rapid.Uint64Range(1, 10000).Draw(t, "parts")
			c.Break -= minU(c.Break-1, rapid.Uint64Range(0, 2).Draw(t, "below"))
		}
	}
	if rapid.IntRange(0, 29).Draw(t, "nothing") == 29 {
		c.Value = 0
	}
	for i := 0; i < 4; i++ {
		c.Pins = append(c.Pins, rapid.Uint64().Draw(t, "pin"))
	}
	return c
}

// belowNineTenths is exact for all values.
func belowNineTenths(v, unit uint64) bool {
	if v >= unit {
		return false
	}
	// v < unit - unit/10, exactly
	d := unit - v // missing part
	return d > unit/10 && !(unit%10 == 0 && d == unit/10)
}

func checkC16(c QuantityCase, r *Rec) error {
	for _, pin := range c.Pins {
		rand.VerifPin(pin)
		list, err := txbuilder.BreakQuantity(c.Value, c.Break, c.Count)
		if err != nil {
			return fmt.Errorf("error %s", err)
		}
		if len(list) > c.Count {
			return fmt.Errorf("%d quantities, asked for %d", len(list), c.Count)
		}
		total, small := uint64(0), 0
		for _, q := range list {
			if q == 0 {
				return fmt.Errorf("zero quantity in %v", list)
			}
			if total+q < total {
				return fmt.Errorf("sum of %v wraps", list)
			}
			total += q
			if belowNineTenths(q, c.Break) {
				small++
			}
		}
		if total != c.Value {
			return fmt.Errorf("%v sums to %d, want %d", list, total, c.Value)
		}
		if small > 1 {
			return fmt.Errorf("%d of %v below nine tenths of %d", small, list, c.Break)
		}
		if len(list) > 1 {
			r.NonTrivial()
		}
		r.If(len(list) == c.Count, "count used up")
	}
	r.If(c.Value > 1<<62, "huge value")
	return nil
}

// ShuffleCase shuffles outputs.
type ShuffleCase struct {
	Tx     Tx     `json:"tx"`
	After  int    `json:"after"` // -1: all
	Reach  bool   `json:"reach,omitempty"`
	Fee    bool   `json:"calc,omitempty"` // calculate the fee first
	Adjust int64  `json:"adjust,omitempty"`
	Pin    uint64 `json:"pin"`
}

func genC17(t *rapid.T) ShuffleCase {
	c := ShuffleCase{Tx: genTx(t, txOpts{minIns: 1, maxIns: 3, minOuts: 0, maxOuts: 12, maxScript: 100, many: true}),
		Fee: rapid.Bool().Draw(t, "calculate"), Pin: rapid.Uint64().Draw(t, "pin")}
	if len(c.Tx.Outs) > 1 && rapid.IntRange(0, 2).Draw(t, "equal outputs") == 0 {
		i := rapid.IntRange(1, len(c.Tx.Outs)-1).Draw(t, "equal to the first")
		c.Tx.Outs[i] = c.Tx.Outs[0]
	}
	for i := range c.Tx.Outs {
		// Marks of every kind.
		if rapid.IntRange(0, 5).Draw(t, "marked") == 0 {
			c.Tx.Outs[i].Rem = true
		}
	}
	c.After = -1
	if rapid.IntRange(0, 2).Draw(t, "after") != 0 {
		c.After = rapid.IntRange(0, len(c.Tx.Outs)+1).Draw(t, "after position")
	}
	c.Reach = rapid.IntRange(0, 9).Draw(t, "reach") == 9
	c.Adjust = int64(rapid.IntRange(-3000, 3000).Draw(t, "adjust"))
	return c
}

func shuffle(b *txbuilder.TxBuilder, after int) {
	if after < 0 {
		b.RandomizeOutputs()
	} else {
		b.RandomizeOutputsAfter(after)
	}
}

func sortedOuts(outs []snapOut) []string {
	var result []string
	for _, o := range outs {
		result = append(result, fmt.Sprintf("%+v", o))
	}
	sort.Strings(result)
	return result
}

func checkC17(c ShuffleCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	if c.Fee {
		b.CalculateFee() // may refuse, or add a change output
	}
	before := snap(b)
	twin := b.Copy()
	rand.VerifPin(c.Pin)
	shuffle(b, c.After)
	after := snap(b)
	if err := permuted(before, after, c.After); err != nil {
		return err
	}
	r.If(c.After >= 0, "after a position")
	r.If(c.After == len(before.Outs)-1, "after the last")
	r.If(c.After >= len(before.Outs), "after the end")
	moved := false
	for i := range after.Outs {
		moved = moved || after.Outs[i] != before.Outs[i]
	}
	if moved {
		r.NonTrivial()
	}

	// Later fee adjustments know which change output they may drop.
	rems := 0
	at := 0
	for i, o := range before.Outs {
		if o.Remainder {
			rems++
			at = i
		}
	}
	if rems == 1 {
		amounts := []int64{c.Adjust, int64(before.Outs[at].Value)}
		for _, amount := range amounts {
			x, y := b.Copy(), twin.Copy()
			doneX, errX := x.AdjustFee(amount)
			doneY, errY := y.AdjustFee(amount)
			if doneX != doneY || (errX == nil) != (errY == nil) {
				return fmt.Errorf("adjusting by %d after shuffling: %v, %v, before: %v, %v", amount, doneX, errX,
					doneY, errY)
			}
			sx, sy := sortedOuts(snap(&x).Outs), sortedOuts(snap(&y).Outs)
			if fmt.Sprint(sx) != fmt.Sprint(sy) {
				return fmt.Errorf("adjusting by %d after shuffling gives other outputs", amount)
			}
			r.If(errX == nil && len(sx) < len(before.Outs), "change dropped later")
		}
	}

	// Every eligible output can land in every eligible place.
	first := c.After + 1
	n := len(before.Outs) - first
	if !c.Reach || n < 2 {
		return nil
	}
	r.Class("reachability")
	// Of many places only the thirds are told apart.
	places, rounds := n, 60*n
	place := func(i int) int { return i - first }
	if n > 12 {
		r.Class("reachability of many")
		places, rounds = 3, 200
		place = func(i int) int { return (i - first) * 3 / n }
	}
	seen := map[[2]int]bool{}
	for round := 0; round < rounds; round++ {
		x := twin.Copy()
		for i := range x.Outputs {
			x.Outputs[i].KeyID = fmt.Sprint(i)
		}
		shuffle(&x, c.After)
		for i, o := range x.Outputs {
			var from int
			fmt.Sscan(o.KeyID, &from)
			seen[[2]int{from, place(i)}] = true
		}
	}
	for i := first; i < len(before.Outs); i++ {
		for j := 0; j < places; j++ {
			if !seen[[2]int{i, j}] {
				return fmt.Errorf("output %d of %d never lands in place %d of %d", i, len(before.Outs), j, places)
			}
		}
	}
	return nil
}

// permuted compares the state before and after shuffling the outputs after a position.
func permuted(before, after Snap, pos int) error {
	if len(before.Outs) != len(after.Outs) {
		return fmt.Errorf("%d outputs, had %d", len(after.Outs), len(before.Outs))
	}
	for i := 0; i <= pos && i < len(before.Outs); i++ {
		if before.Outs[i] != after.Outs[i] {
			return fmt.Errorf("output %d changed from %+v to %+v", i, before.Outs[i], after.Outs[i])
		}
	}
	x, y := sortedOuts(before.Outs), sortedOuts(after.Outs)
	for i := range x {
		if x[i] != y[i] {
			return fmt.Errorf("not a permutation: %s instead of %s", y[i], x[i])
		}
	}
	after.Outs = before.Outs
	return sameSnap("shuffling", before, after)
}

func init() {
	register("C15", "more than one output", 100000, 280000, genC15, checkC15)
	register("C16", "more than one quantity", 120000, 560000, genC16, checkC16)
	register("C17", "the order changed", 56000, 196000, genC17, checkC17)
}
