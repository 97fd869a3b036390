package main

import (
	"bytes"
	"fmt"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"

	"pgregory.net/rapid"
)

// Item is one element of a locking script.
type Item struct {
	Op  byte `json:"op"`            // op code when it is not a push
	P   bool `json:"p,omitempty"`   // push of Len bytes
	Len int  `json:"len,omitempty"` //
	Enc int  `json:"enc,omitempty"` // 0 shortest push, 1, 2 and 4: push with a length of that many bytes
	N   int  `json:"n,omitempty"`   // how often, zero means once
}

// RawIn and RawOut describe a transaction without a builder.
type RawIn struct {
	H   int    `json:"h"`
	I   uint32 `json:"i"`
	Seq uint32 `json:"seq"`
	U   int    `json:"u,omitempty"` // length of the unlocking script
}

type RawOut struct {
	V uint64 `json:"v"`
	S Script `json:"s"`
}

type RawTx struct {
	Ver  int32    `json:"ver"`
	Lock uint32   `json:"lock"`
	Ins  []RawIn  `json:"ins"`
	Outs []RawOut `json:"outs"`
}

func (c RawTx) Msg() *wire.MsgTx {
	tx := &wire.MsgTx{Version: c.Ver, LockTime: c.Lock}
	for _, in := range c.Ins {
		tx.TxIn = append(tx.TxIn, &wire.TxIn{
			PreviousOutPoint: wire.OutPoint{Hash: txID(in.H), Index: in.I},
			UnlockingScript:  bitcoin.Script(filler(in.U)),
			Sequence:         in.Seq,
		})
	}
	for _, out := range c.Outs {
		tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: out.V, LockingScript: out.S.Bytes()})
	}
	return tx
}

func genRawTx(t *rapid.T, minIns int) RawTx {
	c := RawTx{Ver: genVersion(t), Lock: rapid.Uint32().Draw(t, "lock time")}
	most := 4
	if rapid.IntRange(0, 19).Draw(t, "longer") == 0 {
		most = 20
	}
	for i := rapid.IntRange(minIns, most).Draw(t, "inputs"); i > 0; i-- {
		c.Ins = append(c.Ins, RawIn{
			H:   rapid.IntRange(0, 200).Draw(t, "tx"),
			I:   rapid.SampledFrom([]uint32{0, 1, 255, 256, 0x01020304, 0xffffffff}).Draw(t, "index"),
			Seq: rapid.SampledFrom([]uint32{0, 1, 0xffffffff, 0xfffffffe, 0x01020304}).Draw(t, "sequence"),
			U:   rapid.SampledFrom([]int{0, 0, 1, 107}).Draw(t, "unlocking"),
		})
	}
	for i := rapid.IntRange(0, most).Draw(t, "outputs"); i > 0; i-- {
		c.Outs = append(c.Outs, RawOut{
			V: rapid.SampledFrom([]uint64{0, 1, 546, 0x0102030405060708, 5000000000}).Draw(t, "value"),
		})
		if rapid.IntRange(0, 7).Draw(t, "empty script") == 0 {
			c.Outs[len(c.Outs)-1].S = Script{T: tRaw}
		} else {
			c.Outs[len(c.Outs)-1].S = genOutScript(t, 70000)
		}
	}
	if rapid.IntRange(0, 399).Draw(t, "many") == 399 {
		for n := rapid.IntRange(250, 260).Draw(t, "inputs"); len(c.Ins) < n; {
			c.Ins = append(c.Ins, RawIn{H: 300 + len(c.Ins), I: uint32(len(c.Ins)), Seq: uint32(len(c.Ins))})
		}
		for n := rapid.IntRange(250, 260).Draw(t, "outputs"); len(c.Outs) < n; {
			c.Outs = append(c.Outs, RawOut{V: uint64(len(c.Outs)), S: Script{T: tPKH, K: []int{len(c.Outs) % 7}}})
		}
	}
	return c
}

func genItems(t *rapid.T) []Item {
	var items []Item
	for i := rapid.IntRange(0, 8).Draw(t, "items"); i > 0; i-- {
		switch rapid.IntRange(0, 5).Draw(t, "item") {
		case 0, 1:
			items = append(items, Item{Op: 0xab})
		case 2, 3:
			l := genLength(t, 70000)
			var encs []int
			encs = append(encs, 0)
			if l <= 255 {
				encs = append(encs, 1)
			}
			if l <= 65535 {
				encs = append(encs, 2)
			}
			encs = append(encs, 4)
			items = append(items, Item{P: true, Len: l,
				Enc: rapid.SampledFrom(encs).Draw(t, "encoding")})
		case 4:
			items = append(items, Item{Op: byte(rapid.IntRange(0x4f, 0xff).Draw(t, "any op"))})
		default:
			items = append(items, Item{Op: rapid.SampledFrom([]byte{0x00, 0x51, 0x60, 0x4f, 0x61, 0x63,
				0x67, 0x68, 0x69, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xaa, 0xac, 0xad, 0xae, 0xaf,
				0xb0}).Draw(t, "op")})
		}
		if last := &items[len(items)-1]; last.Len < 300 && rapid.IntRange(0, 39).Draw(t, "repeated") == 20 {
			last.N = rapid.SampledFrom([]int{2, 17, 130, 260, 1100}).Draw(t, "times")
		}
	}
	return items
}

// itemsScript returns the script and the part after its last code separator.
func itemsScript(items []Item) (script, code []byte) {
	last := 0
	var all []Item
	for _, item := range items {
		for i := 0; i < item.N || i == 0; i++ {
			all = append(all, item)
		}
	}
	for _, item := range all {
		if !item.P {
			script = append(script, item.Op)
			if item.Op == 0xab {
				last = len(script)
			}
			continue
		}
		data := filler(item.Len)
		if item.Len > 2 {
			data[1] = 0xab // looks like a code separator
			data[item.Len-1] = 0xab
		}
		l := item.Len
		switch item.Enc {
		case 0:
			if l == 0 {
				script = append(script, 0)
				continue
			}
			script = append(script, refPush(data)...)
		case 1:
			script = append(append(script, 0x4c, byte(l)), data...)
		case 2:
			script = append(append(script, 0x4d, byte(l), byte(l>>8)), data...)
		case 4:
			script = append(append(script, 0x4e, byte(l), byte(l>>8), byte(l>>16), byte(l>>24)), data...)
		}
	}
	return script, script[last:]
}

// genHashType draws a defined hash type: all, none or single, with any of the flag bits. The digest
// of other types is not defined by anything the network accepts.
func genHashType(t *rapid.T) byte {
	base := rapid.SampledFrom([]byte{1, 1, 2, 3}).Draw(t, "hash type")
	return base | rapid.SampledFrom([]byte{0x40, 0x40, 0xc0, 0xc0, 0, 0x80, 0x20, 0xe0, 0x60, 0xa0}).Draw(t,
		"flags")
}

// HashCase is one digest request.
type HashCase struct {
	Tx    RawTx  `json:"tx"`
	Index int    `json:"index"`
	Items []Item `json:"items"`
	Value uint64 `json:"value"`
	Type  byte   `json:"type"`
	Key   int    `json:"key"`
}

func init() {
	register("C02", "hash type other than all, more than one input or output, or a code separator", 64000, 448000,
		func(t *rapid.T) HashCase {
			c := HashCase{Tx: genRawTx(t, 0), Items: genItems(t), Type: genHashType(t), Key: genKey(t)}
			c.Index = rapid.IntRange(0, len(c.Tx.Ins)+1).Draw(t, "index")
			if len(c.Tx.Ins) > 0 && rapid.IntRange(0, 9).Draw(t, "valid") != 0 {
				c.Index = rapid.IntRange(0, len(c.Tx.Ins)-1).Draw(t, "index")
			}
			if len(c.Tx.Ins) > 200 && rapid.Bool().Draw(t, "late") {
				c.Index = len(c.Tx.Ins) - 1 - rapid.IntRange(0, 9).Draw(t, "from the end")
			}
			c.Value = rapid.SampledFrom([]uint64{0, 1, 546, 0x0102030405060708, maxMoney}).Draw(t, "value")
			return c
		}, checkC02)
	register("C03", "at least two requests answered by one cache with a change between two of them", 100000, 350000,
		genC03, checkC03)
}

func checkC02(c HashCase, r *Rec) error {
	tx := c.Tx.Msg()
	script, code := itemsScript(c.Items)
	hashType := txbuilder.SigHashType(c.Type)
	original := refSerialize(tx)

	digest, err := txbuilder.SignatureHash(tx, c.Index, script, c.Value, hashType,
		&txbuilder.SigHashCache{})
	pre1, err1 := txbuilder.SignatureHashPreimageBytes(tx, c.Index, script, c.Value, hashType,
		&txbuilder.SigHashCache{})
	pre2, err2 := txbuilder.SignaturePreimage(tx, c.Index, script, c.Value, hashType,
		&txbuilder.SigHashCache{})

	if c.Index >= len(c.Tx.Ins) {
		r.Class("index out of range")
		if err == nil || err1 == nil || err2 == nil {
			return fmt.Errorf("no error for index %d of %d inputs", c.Index, len(c.Tx.Ins))
		}
		if _, err := txbuilder.InputSignature(keys[c.Key], tx, c.Index, script, c.Value, hashType,
			&txbuilder.SigHashCache{}); err == nil {
			return fmt.Errorf("signature for index %d of %d inputs", c.Index, len(c.Tx.Ins))
		}
		return nil
	}
	for _, e := range []error{err, err1, err2} {
		if e != nil {
			return fmt.Errorf("unexpected error: %s", e)
		}
	}

	want := refPreimage(tx, c.Index, code, c.Value, uint32(c.Type))
	if !bytes.Equal(pre1, want) {
		return fmt.Errorf("preimage bytes\n got %x\nwant %x", pre1, want)
	}
	if !bytes.Equal(pre2, want) {
		return fmt.Errorf("preimage\n got %x\nwant %x", pre2, want)
	}
	if !bytes.Equal(digest[:], dsha(want)) {
		return fmt.Errorf("digest %x, want %x", digest[:], dsha(want))
	}
	if !bytes.Equal(refSerialize(tx), original) {
		return fmt.Errorf("transaction was changed")
	}

	hasSeparator := false
	for _, item := range c.Items {
		hasSeparator = hasSeparator || (!item.P && item.Op == 0xab)
	}
	base := c.Type & 0x1f
	r.If(hasSeparator, "code separator")
	r.If(base == 2, "none")
	r.If(base == 3 && c.Index < len(c.Tx.Outs), "single")
	r.If(base == 3 && c.Index >= len(c.Tx.Outs), "single without output")
	r.If(c.Type&0x80 != 0, "anyone can pay")
	if hasSeparator || base == 2 || base == 3 || c.Type&0x80 != 0 || len(c.Tx.Ins) > 1 ||
		len(c.Tx.Outs) > 1 {
		r.NonTrivial()
	}

	// Signatures and unlocking scripts made from the digest, for a part of the cases.
	if c.Value != 546 {
		return nil
	}
	r.Class("signature verified")
	sig, err := txbuilder.InputSignature(keys[c.Key], tx, c.Index, script, c.Value, hashType,
		&txbuilder.SigHashCache{})
	if err != nil {
		return fmt.Errorf("signature: %s", err)
	}
	if err := refCheckSig(sig, pubKeys[c.Key], dsha(want), c.Type); err != nil {
		return fmt.Errorf("signature: %s", err)
	}
	unlock, err := txbuilder.P2PKHUnlockingScript(keys[c.Key], tx, c.Index, script, c.Value, hashType,
		&txbuilder.SigHashCache{})
	if err != nil {
		return fmt.Errorf("P2PKH unlocking script: %s", err)
	}
	if !bytes.Equal(unlock, append(refPush(sig), refPush(pubKeys[c.Key])...)) {
		return fmt.Errorf("P2PKH unlocking script %x", unlock)
	}
	unlock, err = txbuilder.P2PKUnlockingScript(keys[c.Key], tx, c.Index, script, c.Value, hashType,
		&txbuilder.SigHashCache{})
	if err != nil {
		return fmt.Errorf("P2PK unlocking script: %s", err)
	}
	if !bytes.Equal(unlock, refPush(sig)) {
		return fmt.Errorf("P2PK unlocking script %x", unlock)
	}
	return nil
}

// CacheOp is a step of a history with one cache.
type CacheOp struct {
	Op    string  `json:"op"`
	Index int     `json:"index,omitempty"`
	Type  byte    `json:"type,omitempty"`
	Fn    int     `json:"fn,omitempty"`
	S     *Script `json:"s,omitempty"`
	V     uint64  `json:"v,omitempty"`
	Full  bool    `json:"full,omitempty"` // clear everything although only outputs changed
}

type CacheCase struct {
	Tx  RawTx     `json:"tx"`
	Ops []CacheOp `json:"ops"`
}

func genC03(t *rapid.T) CacheCase {
	c := CacheCase{Tx: genRawTx(t, 1)}
	for i := rapid.IntRange(2, 16).Draw(t, "steps"); i > 0; i-- {
		op := CacheOp{Op: rapid.SampledFrom([]string{"hash", "hash", "hash", "hash", "parts", "out value",
			"out script", "out add", "out remove", "outpoint", "sequence", "in add", "in remove",
			"version", "lock time", "clear", "clear outputs"}).Draw(t, "op")}
		op.Index = rapid.IntRange(0, 5).Draw(t, "index")
		switch op.Op {
		case "hash":
			op.Type = genHashType(t)
			op.Fn = rapid.IntRange(0, 2).Draw(t, "function")
			s := genOutScript(t, 300)
			op.S = &s
			op.V = rapid.Uint64Range(0, maxMoney).Draw(t, "value")
		case "out script", "out add":
			s := genOutScript(t, 300)
			op.S = &s
			op.V = rapid.Uint64Range(0, maxMoney).Draw(t, "value")
		case "out value", "outpoint", "sequence", "in add", "version", "lock time":
			op.V = rapid.Uint64Range(0, 1000).Draw(t, "value")
		}
		op.Full = rapid.Bool().Draw(t, "full")
		c.Ops = append(c.Ops, op)
	}
	return c
}

func checkC03(c CacheCase, r *Rec) error {
	tx := c.Tx.Msg()
	cache := &txbuilder.SigHashCache{}
	requests, changesBetween, pending := 0, 0, false

	changed := func(outputsOnly, full bool) {
		pending = requests > 0
		if outputsOnly && !full {
			cache.ClearOutputs()
		} else {
			cache.Clear()
		}
	}

	for i, op := range c.Ops {
		switch op.Op {
		case "hash":
			if len(tx.TxIn) == 0 {
				continue
			}
			index := op.Index % len(tx.TxIn)
			script := op.S.Bytes()
			want := refPreimage(tx, index, refCode(script), op.V, uint32(op.Type))
			var got []byte
			var err error
			switch op.Fn {
			case 0:
				got, err = txbuilder.SignaturePreimage(tx, index, script, op.V,
					txbuilder.SigHashType(op.Type), cache)
			case 1:
				got, err = txbuilder.SignatureHashPreimageBytes(tx, index, script, op.V,
					txbuilder.SigHashType(op.Type), cache)
			case 2:
				var h *bitcoin.Hash32
				h, err = txbuilder.SignatureHash(tx, index, script, op.V,
					txbuilder.SigHashType(op.Type), cache)
				if err == nil {
					got = h[:]
				}
				want = dsha(want)
			}
			if err != nil {
				return fmt.Errorf("step %d: %s", i, err)
			}
			if !bytes.Equal(got, want) {
				return fmt.Errorf("step %d: function %d, index %d, type %02x\n got %x\nwant %x", i, op.Fn,
					index, op.Type, got, want)
			}
			requests++
			if pending {
				changesBetween++
				pending = false
			}
		case "parts":
			var prev, seq, outs []byte
			for _, in := range tx.TxIn {
				prev = append(prev, refOutPoint(in.PreviousOutPoint)...)
				seq = append(seq, byte(in.Sequence), byte(in.Sequence>>8), byte(in.Sequence>>16),
					byte(in.Sequence>>24))
			}
			for _, out := range tx.TxOut {
				outs = append(outs, refTxOut(out.Value, out.LockingScript)...)
			}
			if got := cache.HashPrevOuts(tx); !bytes.Equal(got, dsha(prev)) {
				return fmt.Errorf("step %d: outpoints hash %x", i, got)
			}
			if got := cache.HashSequence(tx); !bytes.Equal(got, dsha(seq)) {
				return fmt.Errorf("step %d: sequence hash %x", i, got)
			}
			if got := cache.HashOutputs(tx); !bytes.Equal(got, dsha(outs)) {
				return fmt.Errorf("step %d: outputs hash %x", i, got)
			}
		case "out value":
			if len(tx.TxOut) > 0 {
				tx.TxOut[op.Index%len(tx.TxOut)].Value += op.V + 1
				changed(true, op.Full)
			}
		case "out script":
			if len(tx.TxOut) > 0 {
				tx.TxOut[op.Index%len(tx.TxOut)].LockingScript = op.S.Bytes()
				changed(true, op.Full)
			}
		case "out add":
			tx.TxOut = append(tx.TxOut, &wire.TxOut{Value: op.V, LockingScript: op.S.Bytes()})
			changed(true, op.Full)
		case "out remove":
			if len(tx.TxOut) > 0 {
				at := op.Index % len(tx.TxOut)
				tx.TxOut = append(tx.TxOut[:at], tx.TxOut[at+1:]...)
				changed(true, op.Full)
			}
		case "outpoint":
			if len(tx.TxIn) > 0 {
				tx.TxIn[op.Index%len(tx.TxIn)].PreviousOutPoint.Index += uint32(op.V) + 1
				changed(false, true)
			}
		case "sequence":
			if len(tx.TxIn) > 0 {
				tx.TxIn[op.Index%len(tx.TxIn)].Sequence -= uint32(op.V) + 1
				changed(false, true)
			}
		case "in add":
			tx.TxIn = append(tx.TxIn, &wire.TxIn{
				PreviousOutPoint: wire.OutPoint{Hash: txID(int(op.V)), Index: uint32(op.Index)},
				Sequence:         uint32(op.V),
			})
			changed(false, true)
		case "in remove":
			if len(tx.TxIn) > 1 {
				at := op.Index % len(tx.TxIn)
				tx.TxIn = append(tx.TxIn[:at], tx.TxIn[at+1:]...)
				changed(false, true)
			}
		case "version":
			tx.Version += int32(op.V) + 1
			changed(false, true)
		case "lock time":
			tx.LockTime += uint32(op.V) + 1
			changed(false, true)
		case "clear":
			cache.Clear()
		case "clear outputs":
			cache.ClearOutputs()
		}
	}
	if changesBetween > 0 && requests > 1 {
		r.NonTrivial()
	}
	r.If(requests > 3, "more than three requests")
	return nil
}
