package main

import (
	"fmt"

	"github.com/pkg/errors"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// FundCase is a builder with coins offered to it.
type FundCase struct {
	Tx    Tx       `json:"tx"`
	Coins []Coin   `json:"coins"`
	Break uint64   `json:"break,omitempty"`
	Addrs []Script `json:"addrs,omitempty"` // change addresses
	Sign  bool     `json:"sign,omitempty"`

	// Send max only.
	Max      *Script `json:"max,omitempty"`
	MaxAt    int     `json:"max_at,omitempty"`
	ByScript bool    `json:"by_script,omitempty"`
	Breaking bool    `json:"breaking,omitempty"` // which of the funding calls
}

func addrKeyID(i int) string {
	if i%3 == 2 {
		return ""
	}
	if i == 4 {
		return longKeyID
	}
	return fmt.Sprintf("change-%d", i)
}

func addressKeyIDs(list []Script) ([]txbuilder.AddressKeyID, error) {
	var result []txbuilder.AddressKeyID
	for i, s := range list {
		ra, err := s.Address()
		if err != nil {
			return nil, err
		}
		result = append(result, txbuilder.AddressKeyID{Address: ra, KeyID: addrKeyID(i)})
	}
	return result, nil
}

// usable are the offered coins that are not spent yet, each once, in order.
func usable(ins, coins []Coin) []Coin {
	var result []Coin
	for _, c := range coins {
		if _, ok := findCoin(c.OutPoint(), ins, result); !ok {
			result = append(result, c)
		}
	}
	return result
}

// fundModel gives totals and sizes with the first k usable coins added.
type fundModel struct {
	tx   Tx
	list []Coin
	in   []uint64 // input value
	size []int    // estimated size
	fees []uint64 // fee with the fee of each coin rounded on its own
	out  uint64
}

func newFundModel(c Tx, coins []Coin) *fundModel {
	m := &fundModel{tx: c, list: usable(c.Ins, coins), out: c.outTotal()}
	in := c.inTotal()
	outs := outScripts(c.Outs)
	size := refSize(c.Ins, outs) - refVarIntSize(uint64(len(c.Ins)))
	for k := 0; k <= len(m.list); k++ {
		if k > 0 {
			in += m.list[k-1].V
			s, _ := m.list[k-1].S.InSize()
			size += s
			count := uint64(len(c.Ins) + k)
			m.fees = append(m.fees, m.fees[k-1]+refFee(s, c.Fee)+
				refFee(refVarIntSize(count)-refVarIntSize(count-1), c.Fee))
		} else {
			m.fees = append(m.fees, c.estFee())
		}
		m.in = append(m.in, in)
		m.size = append(m.size, size+refVarIntSize(uint64(len(c.Ins)+k)))
	}
	return m
}

func (m *fundModel) est(k int) uint64 { return refFee(m.size[k], m.tx.Fee) }

// slack is the difference that separately rounded fees of the first k coins can make.
func (m *fundModel) slack(k int) uint64 { return m.fees[k] - m.est(k) }

// growthFee is the fee for the longer output count after adding outputs.
func growthFee(before, added int, rate float32) uint64 {
	return refFee(refVarIntSize(uint64(before+added))-refVarIntSize(uint64(before)), rate)
}

// appended checks that the inputs of s are the old ones and the first k usable coins.
func (m *fundModel) appended(before, after Snap) (int, error) {
	k := len(after.Ins) - len(before.Ins)
	if k < 0 || k > len(m.list) {
		return 0, fmt.Errorf("%d inputs, before %d, %d usable coins", len(after.Ins), len(before.Ins),
			len(m.list))
	}
	for i := range before.Ins {
		if before.Ins[i] != after.Ins[i] {
			return 0, fmt.Errorf("input %d changed from %+v to %+v", i, before.Ins[i], after.Ins[i])
		}
	}
	for i := 0; i < k; i++ {
		c := m.list[i]
		want := snapIn{Out: c.OutPoint(), Seq: 0xffffffff, Lock: string(c.S.Bytes()), Value: c.V,
			KeyID: c.K}
		if got := after.Ins[len(before.Ins)+i]; got != want {
			return 0, fmt.Errorf("added input %d is %+v, want %+v", i, got, want)
		}
	}
	return k, nil
}

// keptOutputs checks that the outputs of before are the first ones of after. Values of remainders
// may differ.
func keptOutputs(before, after Snap) error {
	if len(after.Outs) < len(before.Outs) {
		return fmt.Errorf("%d outputs, before %d", len(after.Outs), len(before.Outs))
	}
	for i, o := range before.Outs {
		got := after.Outs[i]
		if o.Remainder {
			got.Value = o.Value
		}
		if got != o {
			return fmt.Errorf("output %d changed from %+v to %+v", i, o, after.Outs[i])
		}
	}
	return nil
}

// genOffer draws coins and sets their values around the points where funding completes.
func genOffer(t *rapid.T, c Tx, min, max int) []Coin {
	var coins []Coin
	if rapid.IntRange(0, 59).Draw(t, "many coins") == 59 {
		for i := rapid.IntRange(246, 258).Draw(t, "coins"); i > 0; i-- {
			coins = append(coins, Coin{H: 100 + len(coins), S: Script{T: tPKH, K: []int{i % changeKeys}}})
		}
	} else {
		coins = genCoins(t, min, max, 50, true)
		for i := range coins {
			if rapid.IntRange(0, 9).Draw(t, "agent coin") == 9 {
				coins[i].S = genAgent(t)
			}
		}
	}
	many := len(coins) > 200
	late := many && rapid.IntRange(0, 3).Draw(t, "late") != 0
	for i := range coins {
		if late { // no coin pays for more than itself before the count gets longer
			coins[i].V = minU(149, refFeeDown(149, c.Fee)) / uint64(1+i%3)
			continue
		}
		switch rapid.IntRange(0, 3).Draw(t, "coin value") {
		case 0:
			coins[i].V = rapid.Uint64Range(0, 300).Draw(t, "value")
		case 1, 2:
			coins[i].V = rapid.Uint64Range(0, 20000).Draw(t, "value")
		case 3:
			coins[i].V = rapid.Uint64Range(0, 1000000000).Draw(t, "value")
		}
	}
	if len(coins) == 0 {
		return nil
	}

	// One coin completes the funding with a surplus around the thresholds.
	m := newFundModel(c, coins)
	at := rapid.IntRange(0, len(coins)-1).Draw(t, "completing coin")
	fee := m.est(at + 1)
	if late {
		at = rapid.IntRange(249, 253).Draw(t, "completed by") - len(c.Ins)
		if at < 0 || at >= len(coins) {
			at = len(coins) - 1
		}
		fee = m.est(at + 1)
		if rapid.Bool().Draw(t, "rounded") {
			fee = m.fees[at+1]
		}
	}
	changeSize := 34
	if c.Change != nil {
		changeSize = c.Change.OutSize()
	}
	if i := c.remainder(); i >= 0 {
		changeSize = c.Outs[i].S.OutSize()
	}
	dust, outFee := refDust(changeSize, c.Dust), refFee(changeSize, c.Fee)
	_, o2, i2 := c.changeCosts(m.size[at+1], len(c.Outs))
	base := rapid.SampledFrom([]uint64{0, dust, dust + outFee, outFee, 2 * outFee, o2 + i2, outFee + o2 + i2,
		dust + 2*outFee}).Draw(t, "threshold")
	d := rapid.Uint64Range(0, 8).Draw(t, "around")
	if rapid.IntRange(0, 3).Draw(t, "large surplus") == 0 {
		d = rapid.Uint64Range(0, 1000000).Draw(t, "surplus")
	}
	want := m.out + fee + base + d
	if d <= 8 {
		want -= minU(want, 4)
	}
	if late && rapid.IntRange(0, 2).Draw(t, "exact") == 2 {
		want = m.out + m.fees[at+1] + rapid.Uint64Range(0, 2).Draw(t, "more")
	}
	have := m.in[at]
	if have < want {
		coins[at].V = want - have
	}

	// Coins that are spent already or offered twice.
	for n := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "duplicates"); n > 0; n-- {
		from := append(append([]Coin{}, c.Ins...), coins...)
		dup := from[rapid.IntRange(0, len(from)-1).Draw(t, "duplicate of")]
		pos := rapid.IntRange(0, len(coins)).Draw(t, "position")
		coins = append(coins[:pos:pos], append([]Coin{dup}, coins[pos:]...)...)
	}
	return coins
}

// genFundTx draws a builder that is mostly not funded.
func genFundTx(t *rapid.T, signable bool, maxScript int) Tx {
	c := genTx(t, txOpts{minIns: 0, maxIns: 3, minOuts: 0, maxOuts: 4, signable: signable,
		maxScript: maxScript, zeroFee: true, many: true, manyIns: true})
	switch rapid.IntRange(0, 5).Draw(t, "before") {
	case 0: // as drawn, mostly funded
	case 1, 2:
		for i := range c.Ins {
			c.Ins[i].V = rapid.Uint64Range(0, 400).Draw(t, "value")
		}
	default:
		// Some part of what is needed.
		need := c.outTotal() + c.estFee()
		if need > 0 && len(c.Ins) > 0 {
			spread(t, c.Ins, rapid.Uint64Range(0, need-1).Draw(t, "funded"))
		}
	}
	return c
}

func allSignable(lists ...[]Coin) bool {
	for _, list := range lists {
		for _, c := range list {
			if !c.S.Signable() {
				return false
			}
		}
	}
	return true
}

func init() {
	register("C06", "a call appended inputs or changed an output, or failed", 18000, 50400, genC06, checkC06)
	register("C07", "the builder was not funded before and coins were added", 30000, 84000,
		func(t *rapid.T) FundCase {
			c := FundCase{Sign: rapid.IntRange(0, 3).Draw(t, "sign") == 0}
			c.Tx = genFundTx(t, c.Sign, 300)
			c.Coins = genOffer(t, c.Tx, 0, 6)
			return c
		}, checkC07)
	register("C08", "funding succeeded and added inputs or change", 30000, 84000, genC08, checkC08)
	register("C09", "all offered coins were added and the rest paid to the send-max output", 18000, 50400,
		genC09, checkC09)
}

func checkC07(c FundCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	before := snap(b)
	m := newFundModel(c.Tx, c.Coins)
	rem := c.Tx.remainder()
	funded := len(c.Tx.Ins) > 0 && m.in[0] >= m.out+m.est(0)
	r.If(funded && m.in[0] == m.out+m.est(0), "exactly funded before")
	r.If(c.Tx.Fee == 0, "no fee")
	r.If(len(c.Coins) > 200, "many coins")
	r.If(len(c.Tx.Outs) > 200, "many outputs")
	r.If(len(m.list) < len(c.Coins), "duplicates offered")

	err = b.AddFunding(utxos(c.Coins))
	after := snap(b)
	k, perr := m.appended(before, after)
	if perr != nil {
		return perr
	}
	if perr := keptOutputs(before, after); perr != nil {
		return perr
	}

	if funded {
		r.Class("already funded")
		if k != 0 {
			return fmt.Errorf("%d coins added to a funded transaction", k)
		}
		surplus := m.in[0] - m.out - m.est(0)
		add, o, i := c.Tx.changeCosts(m.size[0], len(c.Tx.Outs))
		if is(err, txbuilder.ErrChangeAddressNeeded) {
			if rem >= 0 || c.Tx.Change != nil || surplus <= add+(o+i)/2 {
				return fmt.Errorf("change address requested for %d", surplus)
			}
			return sameSnap("after refusal", before, after)
		}
		if err != nil {
			return fmt.Errorf("funded transaction: %s", err)
		}
		if rem < 0 && c.Tx.Change == nil && surplus > add+o+i {
			return fmt.Errorf("surplus %d without change address accepted", surplus)
		}
		return c.changeRules(b, before, after, 0, surplus, 0, r)
	}

	r.If(k > 0, "coins added")
	if k > 0 {
		r.NonTrivial()
	}
	// Nothing was to be gained from stopping later.
	last := k
	if is(err, txbuilder.ErrInsufficientValue) {
		last = k + 1
		if k != len(m.list) && len(c.Coins) > 0 {
			return fmt.Errorf("insufficient value with %d of %d coins", k, len(m.list))
		}
	}
	for j := 1; j < last; j++ {
		if m.in[j] >= m.out+m.fees[j] {
			return fmt.Errorf("%d coins are enough (inputs %d, outputs %d, fee %d), %d added, error %v", j,
				m.in[j], m.out, m.est(j), k, err)
		}
	}
	switch {
	case is(err, txbuilder.ErrInsufficientValue):
		r.Class("insufficient")
		return nil
	case is(err, txbuilder.ErrChangeAddressNeeded):
		r.Class("change address needed")
		if rem >= 0 || c.Tx.Change != nil {
			return fmt.Errorf("asked for a change address that is there: %s", err)
		}
		// The value of a change output to a key hash above the dust limit
		if m.in[k] <= m.out+m.est(k)+refDust(34, c.Tx.Dust)+refFeeDown(34, c.Tx.Fee) {
			return fmt.Errorf("asked for a change address, inputs %d, outputs %d, fee %d", m.in[k], m.out,
				m.est(k))
		}
		return nil
	case err != nil:
		return fmt.Errorf("unexpected error: %s", err)
	}
	if m.in[k] < m.out+m.est(k) {
		return fmt.Errorf("funded with %d coins: inputs %d, outputs %d, estimated fee %d", k, m.in[k],
			m.out, m.est(k))
	}
	r.If(m.in[k] == m.out+m.fees[k], "exactly enough")
	r.If(m.in[k] == m.out+m.fees[k] && len(after.Ins) > 250, "exactly enough with many inputs")
	return c.changeRules(b, before, after, k, m.in[k]-m.out-m.est(k), m.slack(k), r)
}

// changeRules checks what a successful funding did with the surplus over the estimated fee. slack is
// what rounding can take from the surplus.
func (c FundCase) changeRules(b *txbuilder.TxBuilder, before, after Snap, k int, surplus, slack uint64,
	r *Rec) error {
	rem := c.Tx.remainder()
	pool := append(append([]Coin{}, c.Tx.Ins...), c.Coins...)
	est := refFee(finalSize(pool, after), c.Tx.Fee)
	if after.inTotal() < after.outTotal()+est {
		return fmt.Errorf("inputs %d, outputs %d, estimated fee %d", after.inTotal(), after.outTotal(), est)
	}
	over := after.inTotal() - after.outTotal() - est

	added := len(after.Outs) - len(before.Outs)
	if added > 1 {
		return fmt.Errorf("%d outputs added", added)
	}
	first := -1
	for i := range before.Outs {
		if !before.Outs[i].Remainder {
			continue
		}
		if first < 0 {
			first = i
			if after.Outs[i].Value < before.Outs[i].Value && k > 0 {
				return fmt.Errorf("change reduced from %d to %d", before.Outs[i].Value,
					after.Outs[i].Value)
			}
		} else if after.Outs[i] != before.Outs[i] {
			return fmt.Errorf("second change output changed")
		}
	}

	switch {
	case rem >= 0:
		if added != 0 {
			return fmt.Errorf("change output added although there is one")
		}
		dust := refDust(c.Tx.Outs[rem].S.OutSize(), c.Tx.Dust)
		if k == 0 {
			dust = 0
		}
		if over > dust+slack {
			return fmt.Errorf("%d over the estimated fee not added to the change", over)
		}
		if k > 0 && surplus <= dust && after.Outs[rem].Value != before.Outs[rem].Value {
			return fmt.Errorf("surplus of %d added to the change, dust limit %d", surplus, dust)
		}
		r.If(k > 0 && surplus == dust, "surplus equal to the dust limit")
		if after.Outs[rem].Value > before.Outs[rem].Value && over > slack {
			return fmt.Errorf("%d over the estimated fee left beside the change", over)
		}
		r.If(surplus > dust+slack, "change topped up")
	case added == 1:
		r.Class("change added")
		got := after.Outs[len(after.Outs)-1]
		want := snapOut{Value: got.Value, Script: string(c.Tx.Change.Bytes()), Remainder: true,
			KeyID: c.Tx.ChKey}
		if got != want {
			return fmt.Errorf("change is %+v, want %+v", got, want)
		}
		size := c.Tx.Change.OutSize()
		rounding := uint64(0)
		if k > 0 {
			// The fee of the output is rounded on its own, too.
			paid := after.inTotal() - before.outTotal() - surplus + slack + refFee(size, c.Tx.Fee) +
				growthFee(len(before.Outs), 1, c.Tx.Fee)
			rounding = paid - est
		}
		if over > rounding {
			return fmt.Errorf("%d over the estimated fee not paid to the change, %d from rounding", over,
				rounding)
		}
		if k > 0 && got.Value <= refDust(size, c.Tx.Dust) {
			return fmt.Errorf("change of %d not above dust", got.Value)
		}
	default:
		size := 34
		if c.Tx.Change != nil {
			size = c.Tx.Change.OutSize()
		}
		outFee := refFee(size, c.Tx.Fee) + growthFee(len(before.Outs), 1, c.Tx.Fee)
		limit := refDust(size, c.Tx.Dust)
		if limit+1 < outFee {
			limit = outFee - 1 // the least value of an output
		}
		limit += outFee + slack
		if k == 0 {
			add, o, i := c.Tx.changeCosts(finalSize(pool, before), len(before.Outs))
			limit = add + o + i
		}
		if over > limit {
			return fmt.Errorf("%d over the estimated fee left, limit %d", over, limit)
		}
		r.If(over > 0, "surplus left as fee")
	}

	if c.Sign && allSignable(pool) && len(after.Ins) < 20 {
		r.Class("signed")
		return signFunded(b, pool, c.Tx)
	}
	return nil
}

// signFunded signs with all keys and verifies the result.
func signFunded(b *txbuilder.TxBuilder, pool []Coin, tx Tx) error {
	before := snap(b)
	_, err := b.Sign(keyList(neededKeys(pool)))
	if is(err, txbuilder.ErrChangeAddressNeeded) && len(remainders(before)) == 0 && len(before.Change) == 0 {
		return nil // a surplus between the limits of funding and of signing
	}
	if err != nil {
		return fmt.Errorf("sign after funding: %s", err)
	}
	if _, err := verifySigned(b, pool, false, nil); err != nil {
		return fmt.Errorf("sign after funding: %s", err)
	}
	after := snap(b)
	fee := after.inTotal() - after.outTotal()
	if want := refFee(len(refSerialize(b.MsgTx)), tx.Fee); fee < want {
		return fmt.Errorf("signed after funding: fee %d, want at least %d", fee, want)
	}
	return nil
}

func genC08(t *rapid.T) FundCase {
	c := FundCase{Sign: rapid.IntRange(0, 3).Draw(t, "sign") == 0}
	c.Tx = genFundTx(t, c.Sign, 300)
	for i := rapid.IntRange(0, 8).Draw(t, "change addresses"); i > 0; i-- {
		c.Addrs = append(c.Addrs, genChangeScript(t, 2+len(c.Addrs)))
	}
	if rapid.IntRange(0, 39).Draw(t, "many addresses") == 20 {
		// Distinct ones, of four keys
		for n := rapid.SampledFrom([]int{17, 20, 33, 70}).Draw(t, "change addresses"); len(c.Addrs) < n; {
			i := len(c.Addrs)
			c.Addrs = append(c.Addrs, Script{T: tMulti, M: 1, K: []int{changeKeys + i%10, changeKeys + i/10,
				changeKeys + (i+1)%10, changeKeys}})
		}
	}
	if len(c.Addrs) == 0 && c.Tx.remainder() < 0 && rapid.IntRange(0, 9).Draw(t, "no address") != 0 {
		c.Addrs = []Script{genChangeScript(t, 2)}
	}
	// The offer and the surplus are drawn for the change that can be used.
	drawn := c.Tx
	if len(c.Addrs) > 0 {
		drawn.Change = &c.Addrs[0]
	}
	c.Coins = genOffer(t, drawn, 0, 6)
	if len(c.Tx.Ins) > 0 && rapid.IntRange(0, 3).Draw(t, "funded before") == 0 {
		spread(t, c.Tx.Ins, genSurplus(t, drawn, c.Tx.outTotal()+c.Tx.estFee()))
	}
	c.Break = genBreak(t)
	return c
}

func genBreak(t *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(t, "break kind") {
	case 0:
		return rapid.Uint64Range(1, 12).Draw(t, "break")
	case 1:
		return rapid.Uint64Range(1, 1000).Draw(t, "break")
	case 2:
		return rapid.SampledFrom([]uint64{100, 1000, 10000, 100000}).Draw(t, "break")
	}
	if rapid.IntRange(0, 4).Draw(t, "large break") == 2 {
		if rapid.IntRange(0, 9).Draw(t, "unreachable") == 5 {
			return -rapid.SampledFrom([]uint64{1, 1000, 1 << 62, 1 << 63}).Draw(t, "break")
		}
		return 1<<rapid.IntRange(23, 50).Draw(t, "break bit") + rapid.Uint64Range(0, 1000).Draw(t, "break")
	}
	return rapid.Uint64Range(1, 10000000).Draw(t, "break")
}

func checkC08(c FundCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	addrs, err := addressKeyIDs(c.Addrs)
	if err != nil {
		return fmt.Errorf("address: %s", err)
	}
	before := snap(b)
	m := newFundModel(c.Tx, c.Coins)
	rem := c.Tx.remainder()

	// Costs of one change output.
	firstSize, firstOut, firstIn := 0, uint64(0), uint64(0)
	if rem < 0 && len(c.Addrs) > 0 {
		firstSize = c.Addrs[0].OutSize()
		firstOut = refFee(firstSize, c.Tx.Fee)
		if size, ok := c.Addrs[0].InSize(); ok {
			firstIn = refFee(size, c.Tx.Fee)
		}
	}

	err = b.AddFundingBreakChange(utxos(c.Coins), c.Break, addrs)
	after := snap(b)
	k, perr := m.appended(before, after)
	if perr != nil {
		return perr
	}
	if perr := keptOutputs(before, after); perr != nil {
		return perr
	}
	end := len(m.list)
	if rem < 0 && len(c.Addrs) == 0 {
		r.Class("no address")
		if err == nil && after.inTotal() < after.outTotal()+m.est(k) {
			return fmt.Errorf("not funded, no error")
		}
		if err == nil && after.inTotal() > after.outTotal()+m.est(k) {
			return fmt.Errorf("surplus left without change addresses")
		}
		return nil
	}

	switch {
	case is(err, txbuilder.ErrInsufficientValue):
		r.Class("insufficient")
		if m.in[end] >= m.out+m.est(end) {
			return fmt.Errorf("insufficient value with inputs %d, outputs %d, fee %d: %s", m.in[end], m.out,
				m.est(end), err)
		}
		return nil
	case err != nil:
		return fmt.Errorf("unexpected error: %s", err)
	}

	// No more coins than needed for outputs, fee and one change output, with the output count of
	// all change addresses.
	growth := 0
	if rem < 0 {
		growth = refVarIntSize(uint64(len(before.Outs)+len(c.Addrs))) - refVarIntSize(uint64(len(before.Outs)))
	}
	for j := 0; j < k; j++ {
		enough := m.out + refFee(m.size[j]+firstSize+growth, c.Tx.Fee)
		if j == 0 {
			enough += firstOut + firstIn
		}
		if m.in[j] >= enough && m.in[j] > m.out {
			return fmt.Errorf("%d coins are enough (inputs %d, outputs %d, fee %d), %d added", j, m.in[j],
				m.out, m.est(j), k)
		}
	}

	// No fewer coins than needed, unless none are left.
	if m.in[k] < m.out+m.est(k) {
		return fmt.Errorf("not funded by %d coins: inputs %d, outputs %d, fee %d", k, m.in[k], m.out, m.est(k))
	}
	if needed := m.out + refFee(m.size[k]+firstSize, c.Tx.Fee); k < end && m.in[k] < needed {
		return fmt.Errorf("%d of %d coins added, a change output is not covered: inputs %d, needed %d", k, end,
			m.in[k], needed)
	}
	r.If(k < end && rem < 0 && k > 0 && m.in[k-1] >= m.out+m.est(k-1), "coin added for the change output")

	pool := append(append([]Coin{}, c.Tx.Ins...), c.Coins...)
	est := refFee(finalSize(pool, after), c.Tx.Fee)
	if after.inTotal() < after.outTotal()+est {
		return fmt.Errorf("%d coins added, inputs %d, outputs %d, estimated fee %d", k, after.inTotal(),
			after.outTotal(), est)
	}
	over := after.inTotal() - after.outTotal() - est
	added := after.Outs[len(before.Outs):]
	if len(added) > 0 || k > 0 {
		r.NonTrivial()
	}
	r.If(k == 0, "funded before")
	r.If(rem >= 0, "existing change")
	r.If(len(added) == 1, "one change output")
	r.If(len(added) > 1, "several change outputs")

	switch {
	case rem >= 0:
		if len(added) > 0 {
			return fmt.Errorf("%d outputs added beside the change output", len(added))
		}
		if over > 0 {
			return fmt.Errorf("%d over the estimated fee not paid to the change output", over)
		}
		seen := false
		for i, o := range before.Outs {
			if o.Remainder {
				if seen && after.Outs[i] != o {
					return fmt.Errorf("second change output changed")
				}
				seen = true
			}
		}
	case len(added) == 0:
		limit := refFee(m.size[k]+growth, c.Tx.Fee) - est + firstOut + firstIn
		if k == 0 {
			limit += firstOut
		}
		if over > limit {
			return fmt.Errorf("no change output, %d over the estimated fee, limit %d", over, limit)
		}
	default:
		// The fee of each output is rounded on its own.
		limit := refFee(m.size[k]+growth, c.Tx.Fee)
		for _, o := range added {
			limit += refFee(refOutSize(len(o.Script)), c.Tx.Fee)
		}
		limit -= est
		if k == 0 {
			limit = 0
		}
		if over > limit {
			return fmt.Errorf("%d over the estimated fee with %d change outputs", over, len(added))
		}
	}
	if err := breakRecipients(added, c.Addrs, true); err != nil {
		return err
	}

	if c.Sign && allSignable(pool) && len(after.Ins) < 20 {
		r.Class("signed")
		return signFunded(b, pool, c.Tx)
	}
	return nil
}

// breakRecipients checks that each output pays a different recipient with its key id, and that one
// is the remainder if there are any and it is wanted.
func breakRecipients(outs []snapOut, addrs []Script, remainder bool) error {
	used := map[int]bool{}
	marked := 0
	for _, o := range outs {
		at := -1
		for i, a := range addrs {
			if string(a.Bytes()) == o.Script {
				at = i
			}
		}
		if at < 0 {
			return fmt.Errorf("output pays none of the addresses")
		}
		if used[at] {
			return fmt.Errorf("address %d is used twice", at)
		}
		used[at] = true
		if o.KeyID != addrKeyID(at) {
			return fmt.Errorf("address %d has key id %q", at, o.KeyID)
		}
		if o.Dust {
			return fmt.Errorf("output marked as dust")
		}
		if o.Remainder {
			marked++
		}
	}
	if want := remainder && len(outs) > 0; want != (marked == 1) || marked > 1 {
		return fmt.Errorf("%d of %d outputs marked as remainder", marked, len(outs))
	}
	return nil
}

func genC09(t *rapid.T) FundCase {
	c := FundCase{Sign: rapid.IntRange(0, 3).Draw(t, "sign") == 0}
	c.Tx = genFundTx(t, c.Sign, 300)
	var outs []Out
	for _, o := range c.Tx.Outs {
		if !o.Rem {
			outs = append(outs, o)
		}
	}
	c.Tx.Outs = outs
	s := genChangeScript(t, 9)
	c.ByScript = rapid.Bool().Draw(t, "by script")
	if c.ByScript && rapid.IntRange(0, 3).Draw(t, "other script") == 0 {
		s = genOutScript(t, 300)
		for _, o := range outs {
			if string(o.S.Bytes()) == string(s.Bytes()) {
				s = genChangeScript(t, 9)
			}
		}
	}
	c.Max = &s
	c.MaxAt = rapid.IntRange(0, len(outs)).Draw(t, "position")
	c.Breaking = rapid.Bool().Draw(t, "breaking")
	if c.Breaking {
		c.Break = genBreak(t)
		for i := rapid.IntRange(0, 3).Draw(t, "change addresses"); i > 0; i-- {
			c.Addrs = append(c.Addrs, genChangeScript(t, 2+len(c.Addrs)))
		}
	}
	with := c.Tx
	with.Outs = append(append([]Out{}, outs...), Out{S: s})
	c.Coins = genOffer(t, with, 0, 6)
	if len(c.Coins) == 0 && len(c.Tx.Ins) > 0 {
		spread(t, c.Tx.Ins, genSurplus(t, with, with.outTotal()+with.estFee()))
	}
	return c
}

func checkC09(c FundCase, r *Rec) error {
	head, tail := c.Tx, c.Tx.Outs[c.MaxAt:]
	head.Outs = c.Tx.Outs[:c.MaxAt]
	b, err := head.Build()
	if err != nil {
		return err
	}
	if c.ByScript {
		err = b.AddMaxScriptOutput(c.Max.Bytes())
	} else {
		ra, aerr := c.Max.Address()
		if aerr != nil {
			return aerr
		}
		err = b.AddMaxOutput(ra)
	}
	if err != nil {
		return fmt.Errorf("add send-max output: %s", err)
	}
	for i, o := range tail {
		if err := b.AddOutput(o.S.Bytes(), o.V, o.Rem, o.D); err != nil {
			return fmt.Errorf("add output %d: %s", c.MaxAt+i, err)
		}
		b.Outputs[len(b.Outputs)-1].KeyID = o.K
	}
	before := snap(b)
	if got := before.Outs[c.MaxAt]; got.Value != 0 || !got.Remainder || got.Dust ||
		got.Script != string(c.Max.Bytes()) {
		return fmt.Errorf("send-max output is %+v", got)
	}

	with := c.Tx
	with.Outs = append(append([]Out{}, c.Tx.Outs...), Out{S: *c.Max})
	m := newFundModel(with, c.Coins)
	end := len(m.list)

	if c.Breaking {
		addrs, aerr := addressKeyIDs(c.Addrs)
		if aerr != nil {
			return aerr
		}
		r.Class("breaking")
		err = b.AddFundingBreakChange(utxos(c.Coins), c.Break, addrs)
	} else {
		err = b.AddFunding(utxos(c.Coins))
	}
	after := snap(b)
	k, perr := m.appended(before, after)
	if perr != nil {
		return perr
	}
	if k != end {
		return fmt.Errorf("%d of %d coins added, error %v", k, end, err)
	}
	r.If(end < len(c.Coins), "duplicates offered")
	r.If(len(c.Coins) == 0, "no coins offered")
	want := append([]snapOut{}, before.Outs...)
	if m.in[end] < m.out+m.est(end) {
		r.Class("insufficient")
		if !is(err, txbuilder.ErrInsufficientValue) {
			return fmt.Errorf("inputs %d, other outputs %d, fee %d: error %v", m.in[end], m.out,
				m.est(end), err)
		}
		// The amount of the send-max output is not determined by a refusal.
		want[c.MaxAt].Value = after.Outs[c.MaxAt].Value
	} else {
		r.NonTrivial()
		if err != nil {
			return fmt.Errorf("inputs %d, other outputs %d, fee %d: %s", m.in[end], m.out, m.est(end), err)
		}
		want[c.MaxAt].Value = m.in[end] - m.out - m.est(end)
		r.If(want[c.MaxAt].Value < 600, "small send-max value")
	}
	if len(after.Outs) != len(want) {
		return fmt.Errorf("%d outputs, want %d", len(after.Outs), len(want))
	}
	for i := range want {
		if after.Outs[i] != want[i] {
			return fmt.Errorf("output %d is %+v, want %+v", i, after.Outs[i], want[i])
		}
	}
	if err != nil {
		return nil
	}

	pool := append(append([]Coin{}, c.Tx.Ins...), c.Coins...)
	if c.Sign && allSignable(pool) && len(after.Ins) < 20 {
		r.Class("signed")
		if err := signFunded(b, pool, c.Tx); err != nil {
			return err
		}
		if len(b.MsgTx.TxOut) != len(want) {
			return fmt.Errorf("signing added outputs")
		}
	}
	return nil
}

// KeepOp is a call that must preserve what was asked for.
type KeepOp struct {
	Op    string   `json:"op"`
	Coins []Coin   `json:"coins,omitempty"`
	Keys  []int    `json:"keys,omitempty"`
	Break uint64   `json:"break,omitempty"`
	Addrs []Script `json:"addrs,omitempty"`
	N     int64    `json:"n,omitempty"`
	Pay   *Out     `json:"pay,omitempty"`
	At    int      `json:"at,omitempty"` // position of an inserted payment, -1 to append
}

type KeepCase struct {
	Tx  Tx       `json:"tx"`
	Ops []KeepOp `json:"ops"`
}

func genC06(t *rapid.T) KeepCase {
	c := KeepCase{}
	if rapid.Bool().Draw(t, "funded") {
		c.Tx = genTx(t, txOpts{minIns: 1, maxIns: 4, minOuts: 0, maxOuts: 5, signable: true, maxScript: 300,
			zeroFee: true, many: true, manyIns: true})
	} else {
		c.Tx = genFundTx(t, true, 300)
	}
	pool := append([]Coin{}, c.Tx.Ins...)
	for i := rapid.IntRange(1, 5).Draw(t, "calls"); i > 0; i-- {
		op := KeepOp{Op: rapid.SampledFrom([]string{"fund", "fund", "break", "fee", "sign", "sign", "sign only",
			"adjust", "drop", "zero", "pay", "pay", "input", "script"}).Draw(t, "call")}
		switch op.Op {
		case "fund", "break":
			op.Coins = genOffer(t, c.Tx, 0, 4)
			if len(op.Coins) > 20 {
				op.Coins = op.Coins[:20]
			}
			for j := range op.Coins {
				if op.Coins[j].H >= 50 {
					op.Coins[j].H += 20 * len(c.Ops)
				}
			}
			pool = append(pool, op.Coins...)
			if op.Op == "break" {
				op.Break = genBreak(t)
				n := len(c.Ops)
				for j := rapid.IntRange(1, 2).Draw(t, "addresses"); j > 0; j-- {
					op.Addrs = append(op.Addrs, genChangeScript(t, 2+(n*2+len(op.Addrs))%8))
				}
			}
		case "sign", "sign only":
			op.Keys = genKeys(t, pool, rapid.IntRange(0, 2).Draw(t, "missing") == 0)
		case "adjust":
			op.N = rapid.Int64Range(-2000, 2000).Draw(t, "amount")
		case "drop":
			// About the amount that uses up the last change output.
			op.N = rapid.Int64Range(-20, 20).Draw(t, "around")
		case "pay":
			o := Out{S: genOutScript(t, 100)}
			o.V = refFee(o.S.OutSize(), c.Tx.Fee) + rapid.Uint64Range(0, 3000).Draw(t, "payment")
			o.D = rapid.IntRange(0, 4).Draw(t, "dust") == 4
			op.Pay = &o
			op.At = rapid.IntRange(-1, 4).Draw(t, "position")
		case "script":
			op.Pay = &Out{S: genOutScript(t, 300)}
			op.At = rapid.IntRange(0, 4).Draw(t, "position")
		case "input":
			op.Coins = []Coin{{H: 400 + i, S: genCoinScript(t, true), V: rapid.Uint64Range(0, 5000).Draw(t, "value")}}
			pool = append(pool, op.Coins...)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC06(c KeepCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	start := snap(b)
	var changeScripts []string
	if c.Tx.Change != nil {
		changeScripts = append(changeScripts, string(c.Tx.Change.Bytes()))
	}
	for _, op := range c.Ops {
		for _, a := range op.Addrs {
			changeScripts = append(changeScripts, string(a.Bytes()))
		}
	}
	isChange := func(script string) bool {
		for _, s := range changeScripts {
			if s == script {
				return true
			}
		}
		return false
	}
	payments := func(s Snap) []snapOut {
		var result []snapOut
		for _, o := range s.Outs {
			if !o.Remainder && !isChange(o.Script) {
				result = append(result, o)
			}
		}
		return result
	}
	wantPayments := payments(start)

	before := start
	for n, op := range c.Ops {
		var err error
		switch op.Op {
		case "fund":
			err = b.AddFunding(utxos(op.Coins))
		case "break":
			addrs, aerr := addressKeyIDs(op.Addrs)
			if aerr != nil {
				return aerr
			}
			err = b.AddFundingBreakChange(utxos(op.Coins), op.Break, addrs)
		case "fee":
			err = b.CalculateFee()
		case "sign":
			_, err = b.Sign(keyList(op.Keys))
		case "sign only":
			_, err = b.SignOnly(keyList(op.Keys))
		case "adjust":
			_, err = b.AdjustFee(op.N)
		case "drop":
			amount := op.N
			for _, o := range before.Outs {
				if o.Remainder {
					amount = int64(o.Value) + op.N
				}
			}
			_, err = b.AdjustFee(amount)
		case "zero":
			err = b.ZeroizeFee()
		case "pay", "input", "script":
			// Steps of the caller between the calls.
			want, paid := before, 0
			switch {
			case op.Op == "input":
				coin := op.Coins[0]
				err = b.AddInputUTXO(coin.UTXO())
				want.Ins = append(append([]snapIn{}, before.Ins...), snapIn{Out: coin.OutPoint(),
					Seq: 0xffffffff, Lock: string(coin.S.Bytes()), Value: coin.V, KeyID: coin.K})
			case op.Op == "script":
				if op.At >= len(before.Outs) || before.Outs[op.At].Remainder || isChange(before.Outs[op.At].Script) {
					continue
				}
				err = b.UpdateOutput(uint32(op.At), op.Pay.S.Bytes())
				want.Outs = append([]snapOut{}, before.Outs...)
				want.Outs[op.At].Script = string(op.Pay.S.Bytes())
			default:
				at := len(before.Outs)
				if op.At >= 0 && op.At < at {
					at = op.At
					err = b.InsertOutput(at, op.Pay.S.Bytes(), op.Pay.V, false, op.Pay.D)
				} else {
					err = b.AddOutput(op.Pay.S.Bytes(), op.Pay.V, false, op.Pay.D)
				}
				paid = at
				want.Outs = append(append(append([]snapOut{}, before.Outs[:at]...), snapOut{
					Script: string(op.Pay.S.Bytes()), Value: op.Pay.V, Dust: op.Pay.D}), before.Outs[at:]...)
			}
			if err != nil {
				return fmt.Errorf("call %d (%s): %s", n, op.Op, err)
			}
			after := snap(b)
			if op.Op == "pay" && op.Pay.D && len(after.Outs) == len(want.Outs) {
				want.Outs[paid].Value = after.Outs[paid].Value // set by the builder
			}
			if err := sameSnap(fmt.Sprintf("call %d (%s)", n, op.Op), want, after); err != nil {
				return err
			}
			r.Class(op.Op)
			wantPayments = payments(after)
			before = after
			continue
		}
		after := snap(b)
		r.Class(op.Op)
		if err != nil {
			r.Class("failed " + errors.Cause(err).Error())
		}
		if err != nil || len(after.Ins) != len(before.Ins) || fmt.Sprint(after.Outs) != fmt.Sprint(before.Outs) {
			r.NonTrivial()
		}
		what := fmt.Sprintf("call %d (%s, error %v)", n, op.Op, err)

		// Inputs
		if len(after.Ins) < len(before.Ins) {
			return fmt.Errorf("%s: %d inputs, before %d", what, len(after.Ins), len(before.Ins))
		}
		for i, in := range after.Ins {
			if i < len(before.Ins) {
				old := before.Ins[i]
				if op.Op == "sign" || op.Op == "sign only" {
					old.Unlock = in.Unlock
				}
				if in != old {
					return fmt.Errorf("%s: input %d changed from %+v to %+v", what, i, before.Ins[i], in)
				}
				continue
			}
			if op.Op != "fund" && op.Op != "break" {
				return fmt.Errorf("%s: input added", what)
			}
			coin, ok := findCoin(in.Out, op.Coins)
			if !ok || in.Value != coin.V || in.Lock != string(coin.S.Bytes()) || in.KeyID != coin.K ||
				in.Seq != 0xffffffff || in.Unlock != "" {
				return fmt.Errorf("%s: added input %+v is none of the coins", what, in)
			}
		}

		// Outputs
		got := payments(after)
		if len(got) != len(wantPayments) {
			return fmt.Errorf("%s: %d payments, want %d", what, len(got), len(wantPayments))
		}
		for i := range got {
			if got[i] != wantPayments[i] {
				return fmt.Errorf("%s: payment %d is %+v, want %+v", what, i, got[i], wantPayments[i])
			}
		}
		if op.Op == "sign only" {
			if fmt.Sprint(after.Outs) != fmt.Sprint(before.Outs) {
				return fmt.Errorf("%s: outputs changed", what)
			}
		}
		// The change outputs of the caller stay, with marks and key id.
		at := 0
		for _, o := range start.Outs {
			if !o.Remainder {
				continue
			}
			found := false
			for ; at < len(after.Outs) && !found; at++ {
				g := after.Outs[at]
				found = g.Remainder && g.Script == o.Script && g.KeyID == o.KeyID && g.Dust == o.Dust
			}
			if !found {
				return fmt.Errorf("%s: change output of the caller is gone", what)
			}
		}

		if after.Version != start.Version || after.LockTime != start.LockTime {
			return fmt.Errorf("%s: version %d, lock time %d", what, after.Version, after.LockTime)
		}
		if after.Fee != start.Fee || after.Dust != start.Dust || after.SendMax != start.SendMax {
			return fmt.Errorf("%s: settings changed: %s", what, diffSnap(before, after))
		}
		if op.Op != "break" && (after.Change != before.Change || after.ChangeID != before.ChangeID) {
			return fmt.Errorf("%s: change settings changed", what)
		}
		fee := int64(after.inTotal()) - int64(after.outTotal())
		if b.ActualFee() != fee {
			return fmt.Errorf("%s: fee %d, inputs minus outputs %d", what, b.ActualFee(), fee)
		}
		if err == nil && op.Op != "adjust" && op.Op != "drop" && op.Op != "sign only" && fee < 0 {
			return fmt.Errorf("%s: outputs above inputs by %d", what, -fee)
		}
		before = after
	}
	return nil
}
