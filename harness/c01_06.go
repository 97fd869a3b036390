package main

import (
	"fmt"
	"sort"

	"github.com/pkg/errors"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// SignCase is a builder and the keys to sign it with.
type SignCase struct {
	Tx   Tx    `json:"tx"`
	Keys []int `json:"keys"`
	Edit int   `json:"edit,omitempty"` // change made before signing again
	At   int   `json:"at,omitempty"`   // where it is made
	Only bool  `json:"only,omitempty"` // sign without fee adjustment
}

const (
	editNone = iota
	editLock
	editVersion
	editSequence
	editValue
	editScript
	editRemove
	editCoin
	editRepay
	editCount
)

// edit changes the builder at the place of the case and returns the coins it spends now.
func (c SignCase) edit(b *txbuilder.TxBuilder) ([]Coin, error) {
	coins := append([]Coin{}, c.Tx.Ins...)
	in := c.At % len(coins)
	out := -1
	for i := range b.Outputs {
		if at := (c.At + i) % len(b.Outputs); !b.Outputs[at].IsRemainder {
			out = at
			break
		}
	}
	if out == -1 && c.Edit >= editValue && c.Edit <= editRemove {
		return coins, nil
	}
	switch c.Edit {
	case editLock:
		b.MsgTx.LockTime++
	case editVersion:
		b.MsgTx.Version++
	case editSequence:
		b.MsgTx.TxIn[in].Sequence ^= 5
	case editValue:
		b.MsgTx.TxOut[out].Value -= b.MsgTx.TxOut[out].Value / 3
	case editScript:
		b.MsgTx.TxOut[out].LockingScript = Script{T: tPKH, K: []int{c.At % changeKeys}}.Bytes()
	case editRemove:
		return coins, b.RemoveOutput(out)
	case editCoin: // another coin of the same script
		coins[in].H, coins[in].I = 4000+c.At, 7
		coins[in].V += uint64(c.At)
		return coins, b.UpdateInputUTXO(in, coins[in].UTXO())
	case editRepay: // a coin of another script and the sequence of the old one
		coins[in] = Coin{H: 4000 + c.At, S: Script{T: tPKH, K: c.Keys[:1]}, V: coins[in].V + 40}
		return coins, b.UpdateInputUTXO(in, coins[in].UTXO())
	}
	return coins, nil
}

func keyList(numbers []int) []bitcoin.Key {
	var result []bitcoin.Key
	for _, n := range numbers {
		result = append(result, keys[n])
	}
	return result
}

func keySet(numbers []int) map[int]bool {
	result := map[int]bool{}
	for _, n := range numbers {
		result[n] = true
	}
	return result
}

func keyNumbers(list []bitcoin.Key) ([]int, error) {
	var result []int
	for _, k := range list {
		found := -1
		for i := range keys {
			if keys[i].Equal(k) {
				found = i
				break
			}
		}
		if found == -1 {
			return nil, fmt.Errorf("unknown key returned")
		}
		result = append(result, found)
	}
	return result, nil
}

func sortedSet(list []int) []int {
	m := keySet(list)
	var result []int
	for k := range m {
		result = append(result, k)
	}
	sort.Ints(result)
	return result
}

func hasDuplicates(list []int) bool { return len(sortedSet(list)) != len(list) }

// repeatedKeys is true if a key occurs twice in one script.
func repeatedKeys(coins []Coin) bool {
	for _, c := range coins {
		if hasDuplicates(c.S.K) {
			return true
		}
	}
	return false
}

func is(err, target error) bool { return errors.Cause(err) == target }

// verifySigned checks all inputs of b against the coins they spend and returns the keys that signed.
func verifySigned(b *txbuilder.TxBuilder, coins []Coin, partial bool, have map[int]bool) ([]int, error) {
	var used []int
	for i, in := range b.MsgTx.TxIn {
		coin, ok := findCoin(in.PreviousOutPoint, coins)
		if !ok {
			return nil, fmt.Errorf("input %d spends an unknown coin", i)
		}
		if partial && !coin.S.CanUnlock(have) {
			if len(in.UnlockingScript) != 0 {
				return nil, fmt.Errorf("input %d has an unlocking script without its keys", i)
			}
			continue
		}
		u, err := refVerifyInput(b.MsgTx, i, coin.S, coin.V)
		if err != nil {
			return nil, fmt.Errorf("input %d (%s): %s", i, coin.S.T, err)
		}
		used = append(used, u...)
	}
	return used, nil
}

func init() {
	register("C01", "signing placed at least one signature and all of them were verified", 4500, 31500,
		func(t *rapid.T) SignCase {
			c := SignCase{Tx: genTx(t, txOpts{minIns: 1, maxIns: 5, minOuts: 0, maxOuts: 4,
				signable: true, maxScript: 300, zeroFee: true, manyIns: true,
				many: rapid.IntRange(0, 4).Draw(t, "maybe many") == 2})}
			c.Keys = genKeys(t, c.Tx.Ins, rapid.IntRange(0, 3).Draw(t, "missing") == 0)
			c.Edit = rapid.SampledFrom([]int{editNone, editLock, editVersion, editSequence,
				editValue, editScript, editRemove, editCoin, editRepay}).Draw(t, "edit")
			c.At = rapid.IntRange(0, 9).Draw(t, "at")
			c.Only = rapid.IntRange(0, 3).Draw(t, "only") == 0
			return c
		}, checkC01)
	register("C04", "inputs within 10000 satoshis of what outputs and fee need", 8400, 58800,
		func(t *rapid.T) SignCase {
			c := SignCase{Tx: genTx(t, txOpts{minIns: 1, maxIns: 4, minOuts: 0, maxOuts: 5,
				signable: true, maxScript: 70000, zeroFee: true, many: true, manyIns: true})}
			c.Keys = genKeys(t, c.Tx.Ins, rapid.IntRange(0, 5).Draw(t, "missing") == 0)
			return c
		}, checkC04)
	register("C05", "signing succeeded with a surplus over the estimated fee or with a change output",
		7200, 50400,
		func(t *rapid.T) SignCase {
			c := SignCase{Tx: genTx(t, txOpts{minIns: 1, maxIns: 3, minOuts: 0, maxOuts: 3,
				signable: true, maxScript: 300, zeroFee: true, many: true, manyIns: true})}
			c.Keys = genKeys(t, c.Tx.Ins, false)
			return c
		}, checkC05)
}

func checkC01(c SignCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	have := keySet(c.Keys)
	complete := true
	for _, in := range c.Tx.Ins {
		complete = complete && in.S.CanUnlock(have)
		r.Class("input " + in.S.T)
	}

	sign := b.Sign
	if c.Only {
		sign = b.SignOnly
		r.Class("without fee adjustment")
	}
	used, err := sign(keyList(c.Keys))
	switch {
	case err == nil:
		if !complete {
			return fmt.Errorf("no error without the keys for all inputs")
		}
		r.Class("signed")
	case is(err, txbuilder.ErrMissingPrivateKey):
		if complete {
			return fmt.Errorf("reported a missing key with all keys given: %s", err)
		}
		r.Class("missing key")
	case !c.Only && (is(err, txbuilder.ErrInsufficientValue) || is(err, txbuilder.ErrChangeAddressNeeded)):
		r.Class("refused: " + errors.Cause(err).Error())
		return nil
	default:
		return fmt.Errorf("unexpected error: %s", err)
	}

	signed, err := verifySigned(b, c.Tx.Ins, !complete, have)
	if err != nil {
		return err
	}
	if len(signed) > 0 {
		r.NonTrivial()
	}
	reported, err := keyNumbers(used)
	if err != nil {
		return err
	}
	if hasDuplicates(reported) && !repeatedKeys(c.Tx.Ins) {
		return fmt.Errorf("keys %v reported more than once", reported)
	}
	if fmt.Sprint(sortedSet(reported)) != fmt.Sprint(sortedSet(signed)) {
		return fmt.Errorf("keys %v reported, %v used", sortedSet(reported), sortedSet(signed))
	}

	if complete {
		if err := interpreterAccepts(b); err != nil {
			return fmt.Errorf("script interpreter: %s", err)
		}
		if !b.AllInputsAreSigned() {
			return fmt.Errorf("not all inputs reported as signed")
		}
		if err := checkMultiUnlock(c, b.MsgTx); err != nil {
			return err
		}
	}
	if !complete || c.Edit == editNone || c.Edit >= editCount || len(c.Keys) == 0 {
		return nil
	}

	// Change something and sign again.
	coins, err := c.edit(b)
	if err != nil {
		return fmt.Errorf("edit: %s", err)
	}
	if _, err := b.Sign(keyList(c.Keys)); err != nil {
		if is(err, txbuilder.ErrInsufficientValue) || is(err, txbuilder.ErrChangeAddressNeeded) {
			return nil
		}
		return fmt.Errorf("signing again: %s", err)
	}
	r.Class("signed again after a change")
	if _, err := verifySigned(b, coins, false, have); err != nil {
		return fmt.Errorf("after change %d: %s", c.Edit, err)
	}
	return nil
}

// checkMultiUnlock puts together an unlocking script of an m-of-n input from single signatures.
func checkMultiUnlock(c SignCase, signed *wire.MsgTx) error {
	for i, in := range c.Tx.Ins {
		if in.S.T != tMulti || in.S.M > 4 {
			continue
		}
		copied := signed.Copy()
		tx := &copied
		sigs := make([][]byte, len(in.S.K))
		pubs := make([][]byte, len(in.S.K))
		for n, k := range in.S.K {
			pubs[n] = pubKeys[k]
		}
		var want []int
		for n := 0; n < in.S.M; n++ {
			at := (c.At + n) % len(in.S.K)
			sig, err := txbuilder.InputSignature(keys[in.S.K[at]], tx, i, in.S.Bytes(), in.V,
				txbuilder.SigHashAll|txbuilder.SigHashForkID, &txbuilder.SigHashCache{})
			if err != nil {
				return fmt.Errorf("signature: %s", err)
			}
			sigs[at] = sig
			want = append(want, in.S.K[at])
		}
		script, err := txbuilder.P2MultiPKHUnlockingScript(uint16(in.S.M), pubs, sigs)
		if err != nil {
			return fmt.Errorf("m-of-n unlocking script: %s", err)
		}
		tx.TxIn[i].UnlockingScript = script
		got, err := refVerifyInput(tx, i, in.S, in.V)
		if err != nil {
			return fmt.Errorf("m-of-n unlocking script: %s", err)
		}
		if fmt.Sprint(sortedSet(got)) != fmt.Sprint(sortedSet(want)) {
			return fmt.Errorf("m-of-n unlocking script of %v, want %v", got, want)
		}
		if _, err := txbuilder.P2MultiPKHUnlockingScript(uint16(in.S.M), pubs,
			sigs[1:]); err == nil {
			return fmt.Errorf("m-of-n unlocking script with a signature missing from the list")
		}
		return nil
	}
	return nil
}

// remainders returns the indexes of the outputs marked as remainder.
func remainders(s Snap) []int {
	var result []int
	for i, o := range s.Outs {
		if o.Remainder {
			result = append(result, i)
		}
	}
	return result
}

func checkC04(c SignCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	before := snap(b)
	in, out, est := c.Tx.inTotal(), c.Tx.outTotal(), c.Tx.estFee()
	add, outFee, inFee := c.Tx.changeCosts(c.Tx.estSize(), len(c.Tx.Outs))
	if in+10000 > out+est && in < out+est+10000 {
		r.NonTrivial()
	}
	r.If(len(c.Tx.Outs) > 240, "many outputs")
	r.If(len(c.Tx.Ins) > 240, "many inputs")

	_, err = b.Sign(keyList(c.Keys))
	if in < out+est {
		if !is(err, txbuilder.ErrInsufficientValue) {
			return fmt.Errorf("inputs %d, outputs %d, fee %d: got error %v", in, out, est, err)
		}
		r.Class("insufficient")
		return sameSnap("after refusal", before, snap(b))
	}
	if c.Tx.remainder() == -1 && c.Tx.Change == nil {
		surplus := in - out - est
		if is(err, txbuilder.ErrChangeAddressNeeded) {
			r.Class("change address needed")
			if surplus <= add+(outFee+inFee)/2 {
				return fmt.Errorf("asked for a change address for a surplus of %d", surplus)
			}
			return sameSnap("after refusal", before, snap(b))
		}
		if surplus > add+outFee+inFee {
			return fmt.Errorf("surplus of %d without change address: got error %v", surplus, err)
		}
	}
	complete := true
	have := keySet(c.Keys)
	for _, coin := range c.Tx.Ins {
		complete = complete && coin.S.CanUnlock(have)
	}
	if complete {
		if err != nil {
			return fmt.Errorf("inputs %d, outputs %d, fee %d: %s", in, out, est, err)
		}
		r.Class("signed")
	} else {
		if !is(err, txbuilder.ErrMissingPrivateKey) {
			return fmt.Errorf("keys missing: got error %v", err)
		}
		r.Class("keys missing")
		// The others sign what they can without touching the amounts.
		partial := snap(b)
		if _, err := b.SignOnly(keyList(neededKeys(c.Tx.Ins))); err != nil {
			return fmt.Errorf("completing: %s", err)
		}
		if got := snap(b); got.inTotal() != partial.inTotal() || got.outTotal() != partial.outTotal() {
			return fmt.Errorf("completing changed amounts")
		}
	}
	r.If(in == out+est, "exactly enough")

	after := snap(b)
	size := len(refSerialize(b.MsgTx))
	if after.outTotal() > after.inTotal() {
		return fmt.Errorf("outputs %d above inputs %d", after.outTotal(), after.inTotal())
	}
	fee := after.inTotal() - after.outTotal()
	if want := refFee(size, c.Tx.Fee); fee < want {
		return fmt.Errorf("fee %d for %d bytes, want at least %d", fee, size, want)
	}
	if b.Fee() != fee || b.ActualFee() != int64(fee) {
		return fmt.Errorf("fee reported as %d and %d, is %d", b.Fee(), b.ActualFee(), fee)
	}
	return nil
}

// finalSize is the estimated size of a builder that spends the coins and has the outputs of s.
func finalSize(coins []Coin, s Snap) int {
	n := 8 + refVarIntSize(uint64(len(s.Ins))) + refVarIntSize(uint64(len(s.Outs)))
	for _, in := range s.Ins {
		coin, ok := findCoin(in.Out, coins)
		if !ok {
			panic("unknown coin")
		}
		size, _ := coin.S.InSize()
		n += size
	}
	for _, out := range s.Outs {
		n += refOutSize(len(out.Script))
	}
	return n
}

func checkC05(c SignCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	before := snap(b)
	if _, err = b.Sign(keyList(c.Keys)); err != nil {
		r.Class("refused")
		return nil // which refusals are right is decided by C04
	}

	after := snap(b)
	fee := after.inTotal() - after.outTotal()
	est := refFee(finalSize(c.Tx.Ins, after), c.Tx.Fee)
	rem := remainders(after)
	add, outFee, inFee := c.Tx.changeCosts(finalSize(c.Tx.Ins, after), len(after.Outs))
	if len(rem) > 0 {
		r.NonTrivial()
		if fee > est {
			return fmt.Errorf("fee %d with a change output, estimated fee %d", fee, est)
		}
	} else {
		r.If(fee > est, "surplus left as fee")
		if fee > est {
			r.NonTrivial()
		}
		if fee > est && fee-est > add+outFee+inFee {
			return fmt.Errorf("fee %d without change output, estimated fee %d, cost of change %d",
				fee, est, add+outFee+inFee)
		}
	}

	switch len(after.Outs) - len(before.Outs) {
	case 0:
	case 1:
		r.Class("change added")
		if len(remainders(before)) > 0 {
			return fmt.Errorf("a second change output was added")
		}
		if len(rem) != 1 {
			return fmt.Errorf("added output is not marked as remainder")
		}
		got := after.Outs[rem[0]]
		if got.Script != string(c.Tx.Change.Bytes()) || got.KeyID != c.Tx.ChKey || got.Dust {
			return fmt.Errorf("added change is %+v", got)
		}
		_, o, i := c.Tx.changeCosts(0, 0)
		if got.Value <= o+i {
			return fmt.Errorf("added change of %d, costs %d", got.Value, o+i)
		}
	default:
		return fmt.Errorf("%d outputs, before %d", len(after.Outs), len(before.Outs))
	}

	// Signing again.
	if _, err := b.Sign(keyList(c.Keys)); err != nil {
		return fmt.Errorf("signing again: %s", err)
	}
	return sameSnap("signing again", after, snap(b))
}
