package main

import (
	"pgregory.net/rapid"
)

// txOpts selects what kind of builder is drawn.
type txOpts struct {
	minIns, maxIns   int
	minOuts, maxOuts int
	signable         bool
	maxScript        int
	zeroFee          bool // allow a fee rate of zero
	many             bool // sometimes hundreds of outputs
	manyIns          bool // sometimes hundreds of inputs
}

// genTx draws a builder whose inputs exceed or miss outputs plus estimated fee by amounts around the
// points where something changes.
func genTx(t *rapid.T, o txOpts) Tx {
	c := Tx{
		Fee:  genFeeRate(t),
		Dust: genDustRate(t),
		Ver:  genVersion(t),
		Lock: genLockTime(t),
	}
	if o.zeroFee && rapid.IntRange(0, 15).Draw(t, "zero fee") == 0 {
		c.Fee = 0
	}
	if rapid.IntRange(0, 19).Draw(t, "longer") == 0 {
		o.maxIns, o.maxOuts = o.maxIns*4, o.maxOuts*5
	}
	c.Ins = genCoins(t, o.minIns, o.maxIns, 0, o.signable)
	if o.manyIns && rapid.IntRange(0, 399).Draw(t, "many inputs") == 399 {
		for n := rapid.SampledFrom([]int{40, 70, 130, 250, 251, 252, 253, 254}).Draw(t, "inputs"); len(c.Ins) < n; {
			at := len(c.Ins)
			c.Ins = append(c.Ins, Coin{H: 500 + at/3, I: uint32(at),
				S: Script{T: tPKH, K: []int{at % 3}}})
		}
	}
	c.Seqs = genSeqs(t, len(c.Ins))
	c.Outs = genPayments(t, o.minOuts, o.maxOuts, c.Fee, o.maxScript)
	if o.many && rapid.IntRange(0, 29).Draw(t, "many") == 29 {
		n := rapid.SampledFrom([]int{70, 130, 249, 250, 251, 252, 253, 254, 255}).Draw(t, "many outputs")
		for len(c.Outs) < n {
			c.Outs = append(c.Outs, Out{S: Script{T: tPKH, K: []int{len(c.Outs) % changeKeys}},
				V: refFee(34, c.Fee) + 1000 + uint64(len(c.Outs))})
		}
	}

	// Change: none, script only, output only, both.
	mode := rapid.IntRange(0, 5).Draw(t, "change mode")
	if mode >= 2 {
		s := genChangeScript(t, 0)
		c.Change = &s
		c.ChKey = genKeyID(t)
	}
	if mode == 1 || mode == 5 {
		s := genChangeScript(t, 1)
		rem := Out{S: s, Rem: true, K: genKeyID(t)}
		if rapid.IntRange(0, 5).Draw(t, "dust remainder") == 0 {
			rem.D = true
		} else {
			least := refFee(s.OutSize(), c.Fee)
			rem.V = genValue(t, least, least+100000000)
		}
		at := rapid.IntRange(0, len(c.Outs)).Draw(t, "remainder position")
		outs := append([]Out{}, c.Outs[:at]...)
		outs = append(outs, rem)
		c.Outs = append(outs, c.Outs[at:]...)
		if rapid.IntRange(0, 7).Draw(t, "second remainder") == 7 {
			s := genChangeScript(t, 2)
			if rapid.Bool().Draw(t, "long script") {
				s = Script{T: tFill, M: genLength(t, o.maxScript)}
			}
			rem := Out{S: s, Rem: true, K: genKeyID(t), V: genValue(t, refFee(s.OutSize(), c.Fee), 1000000)}
			at += 1 + rapid.IntRange(0, len(c.Outs)-at-1).Draw(t, "remainder position")
			c.Outs = append(c.Outs[:at:at], append([]Out{rem}, c.Outs[at:]...)...)
		}
	}

	need := c.outTotal() + c.estFee()
	spread(t, c.Ins, genSurplus(t, c, need))
	return c
}

// genSurplus draws the total of the inputs around what is needed.
func genSurplus(t *rapid.T, c Tx, need uint64) uint64 {
	add, out, in := c.changeCosts(c.estSize(), len(c.Outs))
	switch rapid.IntRange(0, 9).Draw(t, "surplus kind") {
	case 0: // too little
		d := rapid.Uint64Range(1, 60).Draw(t, "deficit")
		if rapid.Bool().Draw(t, "large deficit") {
			d = rapid.Uint64Range(1, need+1).Draw(t, "deficit")
		}
		if d > need {
			return 0
		}
		return need - d
	case 1: // exactly or nearly enough
		return need + rapid.Uint64Range(0, 6).Draw(t, "surplus")
	case 2, 3, 4: // where a change output becomes worth it
		at := need + add + out + in
		d := rapid.Uint64Range(0, 12).Draw(t, "around")
		if at+d < need+6 {
			return need
		}
		return at + d - 6
	case 5:
		return need + rapid.Uint64Range(0, 2*(add+out+in)+10).Draw(t, "surplus")
	case 6: // twice the cost matters without a change script
		d := rapid.Uint64Range(0, 12).Draw(t, "around")
		at := need + add + 2*(out+in) + d
		if at < need+6 {
			return need
		}
		return at - 6
	case 7, 8:
		return need + rapid.Uint64Range(0, 1000000).Draw(t, "surplus")
	}
	if need < maxMoney && rapid.Bool().Draw(t, "near the maximum") {
		return maxMoney - rapid.Uint64Range(0, maxMoney-need).Draw(t, "below the maximum")
	}
	return need + rapid.Uint64Range(0, maxMoney/4).Draw(t, "surplus")
}

// neededKeys returns the numbers of keys that can sign any input.
func neededKeys(coins []Coin) []int {
	seen := map[int]bool{}
	var result []int
	for _, c := range coins {
		for _, k := range c.S.NeededKeys() {
			if !seen[k] {
				seen[k] = true
				result = append(result, k)
			}
		}
	}
	return result
}

// genKeys draws the keys given to a signing call: all or only enough of the needed ones, with
// unrelated ones, in any order.
func genKeys(t *rapid.T, coins []Coin, missing bool) []int {
	list := neededKeys(coins)
	if rapid.Bool().Draw(t, "only enough") {
		// Leave out keys as long as every input can be unlocked.
		have := map[int]bool{}
		for _, k := range list {
			have[k] = true
		}
		var kept []int
		for _, k := range list {
			have[k] = false
			ok := rapid.Bool().Draw(t, "leave out")
			for _, c := range coins {
				if ok && c.S.Signable() && !c.S.CanUnlock(have) {
					ok = false
				}
			}
			if !ok {
				have[k] = true
				kept = append(kept, k)
			}
		}
		list = kept
	}
	for i := rapid.IntRange(0, 2).Draw(t, "unrelated"); i > 0; i-- {
		list = append(list, genKey(t))
	}
	if missing && len(list) > 0 {
		n := rapid.IntRange(1, 2).Draw(t, "missing")
		for ; n > 0 && len(list) > 0; n-- {
			at := rapid.IntRange(0, len(list)-1).Draw(t, "missing key")
			list = append(append([]int{}, list[:at]...), list[at+1:]...)
		}
	}
	if len(list) < 2 {
		return list
	}
	if len(list) > 12 {
		// A rotation is enough for long lists.
		at := rapid.IntRange(0, len(list)-1).Draw(t, "rotation")
		return append(append([]int{}, list[at:]...), list[:at]...)
	}
	return rapid.Permutation(list).Draw(t, "keys")
}
