package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

type PrintCase struct {
	Tx   Tx    `json:"tx"`
	Embs []Emb `json:"embs,omitempty"`
	// Inputs whose spent output is not known, without or with an unlocking script
	Lost    []int `json:"lost,omitempty"`
	LostSig []int `json:"lost_sig,omitempty"`
	Sign    bool  `json:"sign,omitempty"`
	Foreign bool  `json:"foreign,omitempty"` // scripts without known size are unlocked
	Test    bool  `json:"test,omitempty"`    // test network
}

func genC23(t *rapid.T) PrintCase {
	c := PrintCase{Tx: genTx(t, txOpts{minIns: 0, maxIns: 4, minOuts: 0, maxOuts: 4,
		signable: rapid.Bool().Draw(t, "signable"), maxScript: 300, zeroFee: true,
		many:    rapid.IntRange(0, 9).Draw(t, "maybe many") == 5,
		manyIns: rapid.IntRange(0, 9).Draw(t, "maybe many") == 5})}
	c.Sign = rapid.Bool().Draw(t, "sign")
	c.Foreign = rapid.Bool().Draw(t, "foreign")
	c.Test = rapid.Bool().Draw(t, "test network")
	if rapid.IntRange(0, 2).Draw(t, "embedded") == 2 {
		for i := rapid.IntRange(1, 2).Draw(t, "embedded inputs"); i > 0; i-- {
			e := genEmb(t, len(c.Tx.Ins)+len(c.Embs))
			if rapid.IntRange(0, 5).Draw(t, "no size") == 5 {
				e.Size = 0
			}
			if rapid.IntRange(0, 5).Draw(t, "no value") == 5 {
				e.Value = 0
			}
			c.Embs = append(c.Embs, e)
		}
	}
	n := len(c.Tx.Ins) + len(c.Embs)
	if rapid.IntRange(0, 5).Draw(t, "lost") == 5 {
		c.Lost = append(c.Lost, rapid.IntRange(0, n).Draw(t, "lost at"))
		n++
	}
	if rapid.IntRange(0, 5).Draw(t, "lost signed") == 5 {
		c.LostSig = append(c.LostSig, rapid.IntRange(0, n).Draw(t, "lost at"))
	}
	if rapid.IntRange(0, 3).Draw(t, "large values") == 3 {
		for i := range c.Tx.Outs {
			if !c.Tx.Outs[i].D && c.Tx.Outs[i].S.Spendable() {
				c.Tx.Outs[i].V = maxMoney/8 + rapid.Uint64Range(0, maxMoney/8).Draw(t, "value")
			}
		}
	}
	return c
}

// report is a text as blocks of lines "key: value" that are separated by empty lines.
type report struct {
	head   map[string]string // lines before the inputs
	ins    []map[string]string
	outs   []map[string]string
	tail   map[string]string // lines after the outputs
	counts [2]string
}

var (
	inputsLine  = regexp.MustCompile(`^\s*Inputs\s*(\d*)\s*:\s*$`)
	outputsLine = regexp.MustCompile(`^\s*Outputs\s*(\d*)\s*:\s*$`)
)

// parseReport reads a report. Entries start with their first indented line after an empty line or a
// heading. Lines after the entries have the indentation of the headings.
func parseReport(text string) (*report, error) {
	r := &report{head: map[string]string{}, tail: map[string]string{}}
	section := "head"
	var entry map[string]string
	for _, line := range strings.Split(text, "\n") {
		trimmed := strings.TrimSpace(line)
		indent := len(line) - len(strings.TrimLeft(line, " "))
		if m := inputsLine.FindStringSubmatch(line); m != nil {
			section, entry, r.counts[0] = "ins", nil, m[1]
			continue
		}
		if m := outputsLine.FindStringSubmatch(line); m != nil {
			section, entry, r.counts[1] = "outs", nil, m[1]
			continue
		}
		if trimmed == "" {
			entry = nil
			continue
		}
		key, value := trimmed, ""
		if i := strings.Index(trimmed, ":"); i >= 0 {
			key, value = strings.TrimSpace(trimmed[:i]), strings.TrimSpace(trimmed[i+1:])
		}
		if section == "outs" && indent <= 2 {
			section = "tail"
		}
		var m map[string]string
		switch section {
		case "head":
			m = r.head
		case "tail":
			m = r.tail
		default:
			if entry == nil {
				entry = map[string]string{}
				if section == "ins" {
					r.ins = append(r.ins, entry)
				} else {
					r.outs = append(r.outs, entry)
				}
			}
			m = entry
		}
		if _, exists := m[key]; exists {
			return nil, fmt.Errorf("line %q more than once in a part", key)
		}
		m[key] = value
	}
	return r, nil
}

func sameLines(what string, want, got map[string]string) error {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("%s: no line %q", what, k)
		}
		if g != v {
			return fmt.Errorf("%s: %q is %q, want %q", what, k, g, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("%s: unexpected line %q", what, k)
		}
	}
	return nil
}

func checkC23(c PrintCase, r *Rec) error {
	b, err := c.Tx.Build()
	if err != nil {
		return err
	}
	if c.Sign {
		b.SignOnly(keyList(neededKeys(c.Tx.Ins)))
	}
	if c.Foreign {
		for i, in := range c.Tx.Ins {
			if _, ok := in.S.UnlockSize(); !ok {
				b.MsgTx.TxIn[i].UnlockingScript = unlockFor(uint64(i))
				r.Class("unknown script unlocked")
			}
		}
	}
	if err := withEmbedded(b, c.Embs); err != nil {
		return err
	}
	for i, at := range c.Lost {
		if err := b.InsertInput(at, bitcoin.UTXO{Hash: txID(340 + i)}); err != nil {
			return err
		}
	}
	for i, at := range c.LostSig {
		if err := b.InsertInput(at, bitcoin.UTXO{Hash: txID(345 + i), Index: 3}); err != nil {
			return err
		}
		b.MsgTx.TxIn[at].UnlockingScript = unlockFor(uint64(at))
	}

	// What each input spends, in order
	coins := c.Tx.Ins
	known := make([]*Coin, len(b.MsgTx.TxIn))
	embs := make([]*Emb, len(b.MsgTx.TxIn))
	for i, in := range b.MsgTx.TxIn {
		if len(coins) > 0 && in.PreviousOutPoint == coins[0].OutPoint() {
			known[i] = &coins[0]
			coins = coins[1:]
		}
		for j := range c.Embs {
			if in.PreviousOutPoint.Hash == txID(300+j) {
				embs[i] = &c.Embs[j]
			}
		}
	}
	if len(coins) > 0 {
		return fmt.Errorf("inputs are not in order")
	}

	if err := checkTxString(c, b, known, embs, r); err != nil {
		return fmt.Errorf("report: %s", err)
	}
	if err := checkBuilderString(c, b, known, embs, r); err != nil {
		return fmt.Errorf("builder report: %s", err)
	}
	if len(b.MsgTx.TxIn) > 0 && len(b.MsgTx.TxOut) > 0 {
		r.NonTrivial()
	}
	return nil
}

func checkTxString(c PrintCase, b *txbuilder.TxBuilder, known []*Coin, embs []*Emb, r *Rec) error {
	src := &source{tx: b.MsgTx}
	for _, coin := range known {
		if coin == nil {
			src.outs = append(src.outs, nil)
		} else {
			src.outs = append(src.outs, &wire.TxOut{Value: coin.V, LockingScript: coin.S.Bytes()})
		}
	}
	text := txbuilder.TxString(src)
	if other := txbuilder.TxString(b); other != text && !zeroEmpty(known) {
		return fmt.Errorf("the builder gives\n%s\nthe same transaction gives\n%s", other, text)
	}
	rep, err := parseReport(text)
	if err != nil {
		return err
	}

	var hash bitcoin.Hash32
	copy(hash[:], dsha(refSerialize(b.MsgTx)))
	if err := sameLines("head", map[string]string{"TxID": hash.String()}, rep.head); err != nil {
		return err
	}
	if rep.counts[0] != fmt.Sprint(len(b.MsgTx.TxIn)) || rep.counts[1] != fmt.Sprint(len(b.MsgTx.TxOut)) {
		return fmt.Errorf("counts %v", rep.counts)
	}
	if len(rep.ins) != len(known) || len(rep.outs) != len(b.MsgTx.TxOut) {
		return fmt.Errorf("%d inputs and %d outputs listed", len(rep.ins), len(rep.outs))
	}

	size := 8 + refVarIntSize(uint64(len(known))) + refVarIntSize(uint64(len(b.MsgTx.TxOut)))
	sizeKnown, valueKnown := true, true
	in, out := uint64(0), uint64(0)
	for i, txin := range b.MsgTx.TxIn {
		want := map[string]string{
			"Outpoint":         fmt.Sprintf("%s:%d", txin.PreviousOutPoint.Hash, txin.PreviousOutPoint.Index),
			"Unlocking script": strings.TrimSpace(fmt.Sprint(txin.UnlockingScript)),
			"Sequence":         fmt.Sprintf("0x%08x", txin.Sequence),
		}
		switch {
		case known[i] != nil:
			coin := known[i]
			want["Locking script"] = strings.TrimSpace(fmt.Sprint(coin.S.Bytes()))
			want["Value"] = fmt.Sprint(coin.V)
			in += coin.V
			if n, ok := coin.S.UnlockSize(); ok {
				want["Estimated unlocking script size"] = fmt.Sprint(n)
				size += 40 + refVarIntSize(uint64(n)) + n
			} else {
				sizeKnown = false
				r.Class("unknown script")
			}
		case embs[i] != nil:
			e := embs[i]
			want["Embedded unlocking data"] = ""
			want["Party"] = unlocking_data.Party(e.Party).String()
			if e.Size > 0 {
				want["Size"] = fmt.Sprint(e.Size)
			} else {
				sizeKnown = false
			}
			if e.Value > 0 {
				want["Value"] = fmt.Sprint(e.Value)
			} else {
				valueKnown = false
			}
			in += e.Value
			size += 40 + refVarIntSize(e.Size) + int(e.Size)
			r.Class("embedded data")
		case len(txin.UnlockingScript) > 0:
			valueKnown = false
			n := len(txin.UnlockingScript)
			size += 40 + refVarIntSize(uint64(n)) + n
			r.Class("unlocked but not known")
		default:
			want["Input's output not found"] = ""
			sizeKnown, valueKnown = false, false
			r.Class("not known")
		}
		if err := sameLines(fmt.Sprintf("input %d", i), want, rep.ins[i]); err != nil {
			return err
		}
	}
	for i, o := range c.Tx.Outs {
		v := c.Tx.outValue(o)
		size += o.S.OutSize()
		out += v
		want := map[string]string{"Locking script": strings.TrimSpace(fmt.Sprint(o.S.Bytes())),
			"Value": fmt.Sprint(v)}
		if err := sameLines(fmt.Sprintf("output %d", i), want, rep.outs[i]); err != nil {
			return err
		}
	}
	want := map[string]string{
		"Locktime": fmt.Sprint(c.Tx.Lock),
		"Raw size": fmt.Sprintf("%d bytes", len(refSerialize(b.MsgTx))),
	}
	if sizeKnown {
		want["Estimated tx size"] = fmt.Sprintf("%d bytes", size)
		r.Class("size known")
	}
	if valueKnown {
		r.Class("fee known")
		if in >= out {
			want["Fee"] = fmt.Sprintf("%d (inputs %d, outputs %d)", in-out, in, out)
			if sizeKnown {
				// The rate is a rounded number.
				text, ok := rep.tail["Fee rate"]
				if !ok {
					return fmt.Errorf("no fee rate")
				}
				got, err := strconv.ParseFloat(strings.TrimSuffix(text, " sat/byte"), 64)
				exact := float64(in-out) / float64(size)
				if err != nil || math.Abs(got-exact) > 0.00006+exact*1e-6 {
					return fmt.Errorf("fee rate %q, want %f", text, exact)
				}
				want["Fee rate"] = text
			}
		} else {
			r.Class("negative fee")
			want["Negative fee"] = fmt.Sprintf("-%d (inputs %d, outputs %d)", out-in, in, out)
		}
	}
	return sameLines("end", want, rep.tail)
}

// zeroEmpty is true if some coin looks like no data.
func zeroEmpty(coins []*Coin) bool {
	for _, c := range coins {
		if c != nil && c.V == 0 && len(c.S.Bytes()) == 0 {
			return true
		}
	}
	return false
}

func checkBuilderString(c PrintCase, b *txbuilder.TxBuilder, known []*Coin, embs []*Emb, r *Rec) error {
	net := bitcoin.MainNet
	if c.Test {
		net = bitcoin.TestNet
	}
	rep, err := parseReport(b.String(net))
	if err != nil {
		return err
	}
	raw := refSerialize(b.MsgTx)
	var hash bitcoin.Hash32
	copy(hash[:], dsha(raw))
	size := 8 + refVarIntSize(uint64(len(known))) + refVarIntSize(uint64(len(b.MsgTx.TxOut)))
	value := uint64(0)
	for i := range known {
		switch {
		case known[i] != nil:
			n, _ := known[i].S.InSize()
			size += n
			value += known[i].V
		case embs[i] != nil:
			size += 40 + refVarIntSize(embs[i].Size) + int(embs[i].Size)
			value += embs[i].Value
		default:
			size += 149
		}
	}
	for _, o := range c.Tx.Outs {
		size += o.S.OutSize()
	}
	fee := uint64(0)
	if value > c.Tx.outTotal() {
		fee = value - c.Tx.outTotal()
	}
	want := map[string]string{"Version": fmt.Sprint(c.Tx.Ver),
		"TxId": fmt.Sprintf("%s (%d bytes) (%d estimated / %d fee)", hash, len(raw), size, fee)}
	if err := sameLines("head", want, rep.head); err != nil {
		return err
	}

	if len(rep.ins) != len(known) || len(rep.outs) != len(b.MsgTx.TxOut) {
		return fmt.Errorf("%d inputs and %d outputs listed", len(rep.ins), len(rep.outs))
	}
	address := func(s bitcoin.Script) string {
		ra, err := bitcoin.RawAddressFromLockingScript(s)
		if err != nil {
			return ""
		}
		return bitcoin.NewAddressFromRawAddress(ra, net).String()
	}
	for i, txin := range b.MsgTx.TxIn {
		want := map[string]string{
			"Outpoint":        fmt.Sprintf("%d - %s", txin.PreviousOutPoint.Index, txin.PreviousOutPoint.Hash),
			"UnlockingScript": strings.TrimSpace(fmt.Sprint(txin.UnlockingScript)),
			"Sequence":        fmt.Sprintf("%x", txin.Sequence),
			"LockingScript":   "",
			"Value":           "0",
		}
		if known[i] != nil {
			coin := known[i]
			want["LockingScript"] = strings.TrimSpace(fmt.Sprint(coin.S.Bytes()))
			want["Value"] = fmt.Sprint(coin.V)
			if coin.K != "" {
				want["KeyID"] = coin.K
			}
			if a := address(coin.S.Bytes()); a != "" {
				want["Address"] = a
				r.Class("address")
			}
		}
		if err := sameLines(fmt.Sprintf("input %d", i), want, rep.ins[i]); err != nil {
			return err
		}
	}
	for i, o := range c.Tx.Outs {
		v := c.Tx.outValue(o)
		want := map[string]string{"LockingScript": strings.TrimSpace(fmt.Sprint(o.S.Bytes())),
			"Value": fmt.Sprintf("%d.%08d", v/100000000, v%100000000)}
		if o.K != "" {
			want["KeyID"] = o.K
		}
		if o.Rem {
			want["IsRemainder"] = ""
		}
		if o.D {
			want["IsDust"] = ""
		}
		if a := address(o.S.Bytes()); a != "" {
			want["Address"] = a
		}
		if err := sameLines(fmt.Sprintf("output %d", i), want, rep.outs[i]); err != nil {
			return err
		}
	}
	return sameLines("end", map[string]string{"LockTime": fmt.Sprint(c.Tx.Lock)}, rep.tail)
}

func init() {
	register("C23", "at least one input and one output", 12500, 42000, genC23, checkC23)
}
