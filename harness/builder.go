package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// Coin is an unspent output.
type Coin struct {
	H int    `json:"h"` // number of the transaction
	I uint32 `json:"i"`
	S Script `json:"s"`
	V uint64 `json:"v"`
	K string `json:"k,omitempty"`
}

func txID(n int) bitcoin.Hash32 {
	// Ids that differ in one byte each, so that a partial comparison is noticed.
	var h bitcoin.Hash32
	for i := range h {
		h[i] = byte(0x30 + i)
	}
	p := n % 64
	if p < 32 {
		h[p] ^= 0x80
	} else {
		h[p-32] ^= 0x01
	}
	binary.LittleEndian.PutUint16(h[14:], binary.LittleEndian.Uint16(h[14:])+uint16(n/64)*3)
	return h
}

func (c Coin) UTXO() bitcoin.UTXO {
	return bitcoin.UTXO{
		Hash:          txID(c.H),
		Index:         c.I,
		Value:         c.V,
		LockingScript: c.S.Bytes(),
		KeyID:         c.K,
	}
}

func (c Coin) OutPoint() wire.OutPoint { return wire.OutPoint{Hash: txID(c.H), Index: c.I} }

func utxos(coins []Coin) []bitcoin.UTXO {
	var result []bitcoin.UTXO
	for _, c := range coins {
		result = append(result, c.UTXO())
	}
	return result
}

// Out is an output to add.
type Out struct {
	S   Script `json:"s"`
	V   uint64 `json:"v"`
	Rem bool   `json:"rem,omitempty"`
	D   bool   `json:"dust,omitempty"`
	K   string `json:"k,omitempty"`
}

// Tx describes a builder.
type Tx struct {
	Fee    float32  `json:"fee"`
	Dust   float32  `json:"dust"`
	Ver    int32    `json:"ver"`
	Lock   uint32   `json:"lock"`
	Ins    []Coin   `json:"ins"`
	Seqs   []uint32 `json:"seqs,omitempty"` // sequence numbers of the first inputs
	Outs   []Out    `json:"outs"`
	Change *Script  `json:"change,omitempty"`
	ChKey  string   `json:"chkey,omitempty"`
}

// Build makes the builder through its public interface.
func (c Tx) Build() (*txbuilder.TxBuilder, error) {
	b := txbuilder.NewTxBuilder(c.Fee, c.Dust)
	b.MsgTx.Version = c.Ver
	b.MsgTx.LockTime = c.Lock
	for i, in := range c.Ins {
		if err := b.AddInputUTXO(in.UTXO()); err != nil {
			return nil, fmt.Errorf("add input %d: %s", i, err)
		}
		if i < len(c.Seqs) {
			b.MsgTx.TxIn[i].Sequence = c.Seqs[i]
		}
	}
	if c.Change != nil {
		if err := b.SetChangeLockingScript(c.Change.Bytes(), c.ChKey); err != nil {
			return nil, fmt.Errorf("set change: %s", err)
		}
	}
	for i, out := range c.Outs {
		if err := b.AddOutput(out.S.Bytes(), out.V, out.Rem, out.D); err != nil {
			return nil, fmt.Errorf("add output %d: %s", i, err)
		}
		b.Outputs[i].KeyID = out.K
	}
	return b, nil
}

// refSize is the estimated size from the descriptions alone.
func refSize(ins []Coin, outs []Script) int {
	n := 8 + refVarIntSize(uint64(len(ins))) + refVarIntSize(uint64(len(outs)))
	for _, in := range ins {
		size, _ := in.S.InSize()
		n += size
	}
	for _, out := range outs {
		n += out.OutSize()
	}
	return n
}

func outScripts(outs []Out) []Script {
	var result []Script
	for _, o := range outs {
		result = append(result, o.S)
	}
	return result
}

// outValue is the value the output gets when it is added.
func (c Tx) outValue(o Out) uint64 {
	if o.D {
		return refDust(o.S.OutSize(), c.Dust)
	}
	return o.V
}

func (c Tx) outTotal() uint64 {
	total := uint64(0)
	for _, o := range c.Outs {
		total += c.outValue(o)
	}
	return total
}

func (c Tx) inTotal() uint64 {
	total := uint64(0)
	for _, in := range c.Ins {
		total += in.V
	}
	return total
}

func (c Tx) estSize() int   { return refSize(c.Ins, outScripts(c.Outs)) }
func (c Tx) estFee() uint64 { return refFee(c.estSize(), c.Fee) }
func (c Tx) remainder() int {
	for i, o := range c.Outs {
		if o.Rem {
			return i
		}
	}
	return -1
}

// changeCosts are the fee for adding a change output to a transaction with n outputs of estimated
// size, and the fees of that output and of the input that spends it.
func (c Tx) changeCosts(size, n int) (add, out, in uint64) {
	outSize, inSize := 34, 149
	known := true
	if c.Change != nil {
		outSize = c.Change.OutSize()
		inSize, known = c.Change.InSize()
	}
	newSize := size + outSize + refVarIntSize(uint64(n+1)) - refVarIntSize(uint64(n))
	add = refFee(newSize, c.Fee) - refFee(size, c.Fee)
	if c.Change == nil {
		return add, refFee(2*outSize, c.Fee), refFee(2*inSize, c.Fee)
	}
	out = refFee(outSize, c.Fee)
	if known {
		in = refFee(inSize, c.Fee)
	}
	return
}

// snapshots

type snapIn struct {
	Out    wire.OutPoint
	Unlock string
	Seq    uint32
	Lock   string
	Value  uint64
	KeyID  string
}

type snapOut struct {
	Value     uint64
	Script    string
	Remainder bool
	Dust      bool
	KeyID     string
}

// Snap is a copy of everything observable of a builder.
type Snap struct {
	Version  int32
	LockTime uint32
	Ins      []snapIn
	Outs     []snapOut
	Change   string
	ChangeID string
	Fee      float32
	Dust     float32
	SendMax  bool
}

func snap(b *txbuilder.TxBuilder) Snap {
	s := Snap{
		Version:  b.MsgTx.Version,
		LockTime: b.MsgTx.LockTime,
		Change:   string(b.ChangeScript),
		ChangeID: b.ChangeKeyID,
		Fee:      b.FeeRate,
		Dust:     b.DustFeeRate,
		SendMax:  b.SendMax,
	}
	if len(b.MsgTx.TxIn) != len(b.Inputs) {
		panic(fmt.Sprintf("%d inputs with data of %d", len(b.MsgTx.TxIn), len(b.Inputs)))
	}
	if len(b.MsgTx.TxOut) != len(b.Outputs) {
		panic(fmt.Sprintf("%d outputs with data of %d", len(b.MsgTx.TxOut), len(b.Outputs)))
	}
	for i, in := range b.MsgTx.TxIn {
		s.Ins = append(s.Ins, snapIn{
			Out:    in.PreviousOutPoint,
			Unlock: string(in.UnlockingScript),
			Seq:    in.Sequence,
			Lock:   string(b.Inputs[i].LockingScript),
			Value:  b.Inputs[i].Value,
			KeyID:  b.Inputs[i].KeyID,
		})
	}
	for i, out := range b.MsgTx.TxOut {
		s.Outs = append(s.Outs, snapOut{
			Value:     out.Value,
			Script:    string(out.LockingScript),
			Remainder: b.Outputs[i].IsRemainder,
			Dust:      b.Outputs[i].IsDust,
			KeyID:     b.Outputs[i].KeyID,
		})
	}
	return s
}

func (s Snap) inTotal() uint64 {
	t := uint64(0)
	for _, in := range s.Ins {
		t += in.Value
	}
	return t
}

// outTotal does not wrap.
func (s Snap) outTotal() uint64 {
	t := uint64(0)
	for _, out := range s.Outs {
		if t+out.Value < t || t+out.Value > 1<<62 {
			return 1 << 62 // more than any input value
		}
		t += out.Value
	}
	return t
}

func sameSnap(what string, want, got Snap) error {
	for _, s := range []*Snap{&want, &got} {
		if len(s.Ins) == 0 {
			s.Ins = nil
		}
		if len(s.Outs) == 0 {
			s.Outs = nil
		}
	}
	if reflect.DeepEqual(want, got) {
		return nil
	}
	return fmt.Errorf("%s: %s", what, diffSnap(want, got))
}

func diffSnap(want, got Snap) string {
	if len(want.Ins) != len(got.Ins) {
		return fmt.Sprintf("%d inputs, want %d", len(got.Ins), len(want.Ins))
	}
	if len(want.Outs) != len(got.Outs) {
		return fmt.Sprintf("%d outputs, want %d", len(got.Outs), len(want.Outs))
	}
	for i := range want.Ins {
		if want.Ins[i] != got.Ins[i] {
			return fmt.Sprintf("input %d is %+v, want %+v", i, got.Ins[i], want.Ins[i])
		}
	}
	for i := range want.Outs {
		if want.Outs[i] != got.Outs[i] {
			return fmt.Sprintf("output %d is %+v, want %+v", i, got.Outs[i], want.Outs[i])
		}
	}
	want.Ins, got.Ins, want.Outs, got.Outs = nil, nil, nil, nil
	return fmt.Sprintf("%+v, want %+v", got, want)
}

// interpreterAccepts runs the script interpreter of the dependency over all inputs.
func interpreterAccepts(b *txbuilder.TxBuilder) error {
	return bitcoin_interpreter.VerifyTx(context.Background(), b)
}

// coinsOfTx returns the coins that the inputs of b spend, found by outpoint in the pools.
func findCoin(o wire.OutPoint, pools ...[]Coin) (Coin, bool) {
	for _, pool := range pools {
		for _, c := range pool {
			if c.OutPoint() == o {
				return c, true
			}
		}
	}
	return Coin{}, false
}

// generators

var feeRates = []float32{0.001, 0.01, 0.05, 0.05, 0.25, 0.5, 0.5, 0.9, 1, 1, 1.1, 2, 5, 10, 60}

func genFeeRate(t *rapid.T) float32 {
	if rapid.IntRange(0, 3).Draw(t, "rate kind") == 0 {
		return float32(rapid.IntRange(1, 4000).Draw(t, "rate")) / 1000
	}
	return rapid.SampledFrom(feeRates).Draw(t, "rate")
}

func genDustRate(t *rapid.T) float32 {
	return rapid.SampledFrom([]float32{0, 0, 0.05, 0.25, 0.5, 1, 1, 2}).Draw(t, "dust rate")
}

// genValue draws a value with magnitudes from nothing to many bitcoins.
func genValue(t *rapid.T, min, max uint64) uint64 {
	if max <= min {
		return min
	}
	switch rapid.IntRange(0, 5).Draw(t, "magnitude") {
	case 0:
		return min + rapid.Uint64Range(0, minU(max-min, 10)).Draw(t, "value")
	case 1, 2:
		return min + rapid.Uint64Range(0, minU(max-min, 2000)).Draw(t, "value")
	case 3, 4:
		return min + rapid.Uint64Range(0, minU(max-min, 1000000)).Draw(t, "value")
	}
	return min + rapid.Uint64Range(0, max-min).Draw(t, "value")
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

const maxMoney = 2100000000000000 // satoshis

var longKeyID = strings.Repeat("m/44'/236'/", 30)

func genKeyID(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "a", "key-1", "m/0/2", "key-1", "clé ключ 鍵", longKeyID[:70],
		longKeyID}).Draw(t, "key id")
}

// genCoins draws coins with distinct outpoints. Values are drawn later.
func genCoins(t *rapid.T, min, max, base int, signable bool) []Coin {
	n := rapid.IntRange(min, max).Draw(t, "coins")
	var result []Coin
	for i := 0; i < n; i++ {
		index := uint32(rapid.SampledFrom([]int{0, 0, 1, 7, 256}).Draw(t, "index") * 2)
		if i%2 == 1 {
			index = result[i-1].I ^ 1<<rapid.SampledFrom([]int{0, 0, 1, 4, 7, 8, 15, 16, 24, 31}).Draw(t, "bit")
		}
		result = append(result, Coin{
			// Pairs share the transaction and differ in one bit of the index, other pairs share the index.
			H: base + i/2,
			I: index,
			S: genCoinScript(t, signable),
			K: genKeyID(t),
		})
	}
	return result
}

// genPayments draws outputs that are accepted for any value at or above the fee of the output.
func genPayments(t *rapid.T, min, max int, fee float32, maxLen int) []Out {
	n := rapid.IntRange(min, max).Draw(t, "payments")
	var result []Out
	for i := 0; i < n; i++ {
		o := Out{S: genOutScript(t, maxLen), K: genKeyID(t)}
		if o.S.Spendable() {
			o.D = rapid.IntRange(0, 5).Draw(t, "dust output") == 0
		}
		if !o.D {
			least := refFee(o.S.OutSize(), fee)
			if !o.S.Spendable() {
				least = 0
			}
			o.V = genValue(t, least, least+1000000000)
		}
		result = append(result, o)
	}
	return result
}

func genVersion(t *rapid.T) int32 {
	return rapid.SampledFrom([]int32{1, 1, 2, 0, 7, -1, 0x01020304}).Draw(t, "version")
}

func genLockTime(t *rapid.T) uint32 {
	return rapid.SampledFrom([]uint32{0, 0, 1, 500000000, 0xffffffff, 0x01020304}).Draw(t, "lock time")
}

func genSeqs(t *rapid.T, n int) []uint32 {
	var result []uint32
	if rapid.Bool().Draw(t, "sequences") {
		for i := 0; i < n; i++ {
			result = append(result, rapid.SampledFrom([]uint32{0xffffffff, 0xfffffffe, 0, 1,
				0x01020304}).Draw(t, "sequence"))
		}
	}
	return result
}

// spread distributes a total over the coins.
func spread(t *rapid.T, coins []Coin, total uint64) {
	left := total
	for i := range coins {
		if i == len(coins)-1 {
			coins[i].V = left
			break
		}
		part := uint64(0)
		switch rapid.IntRange(0, 2).Draw(t, "part") {
		case 0:
			part = left / uint64(len(coins)-i)
		case 1:
			part = rapid.Uint64Range(0, left).Draw(t, "part value")
		case 2:
			part = minU(left, rapid.Uint64Range(0, 2000).Draw(t, "part value"))
		}
		coins[i].V = part
		left -= part
	}
}
