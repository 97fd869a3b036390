package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"

	"github.com/btcsuite/btcd/btcec"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// Reference implementations, written from the protocol rules and not from the code under test.

func refVarInt(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n < 0x10000:
		return binary.LittleEndian.AppendUint16([]byte{0xfd}, uint16(n))
	case n < 0x100000000:
		return binary.LittleEndian.AppendUint32([]byte{0xfe}, uint32(n))
	}
	return binary.LittleEndian.AppendUint64([]byte{0xff}, n)
}

func refOutPoint(o wire.OutPoint) []byte {
	return binary.LittleEndian.AppendUint32(append([]byte(nil), o.Hash[:]...), o.Index)
}

func refTxOut(value uint64, script []byte) []byte {
	b := binary.LittleEndian.AppendUint64(nil, value)
	b = append(b, refVarInt(uint64(len(script)))...)
	return append(b, script...)
}

// refSerialize is the wire encoding of a transaction.
func refSerialize(tx *wire.MsgTx) []byte {
	b := binary.LittleEndian.AppendUint32(nil, uint32(tx.Version))
	b = append(b, refVarInt(uint64(len(tx.TxIn)))...)
	for _, in := range tx.TxIn {
		b = append(b, refOutPoint(in.PreviousOutPoint)...)
		b = append(b, refVarInt(uint64(len(in.UnlockingScript)))...)
		b = append(b, in.UnlockingScript...)
		b = binary.LittleEndian.AppendUint32(b, in.Sequence)
	}
	b = append(b, refVarInt(uint64(len(tx.TxOut)))...)
	for _, out := range tx.TxOut {
		b = append(b, refTxOut(out.Value, out.LockingScript)...)
	}
	return binary.LittleEndian.AppendUint32(b, tx.LockTime)
}

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

// refPreimage is the BIP-143 preimage. scriptCode is already reduced to what follows the last code
// separator. The fork id bit is always set.
func refPreimage(tx *wire.MsgTx, index int, scriptCode []byte, value uint64, hashType uint32) []byte {
	zero := make([]byte, 32)
	anyone := hashType&0x80 != 0
	base := hashType & 0x1f

	b := binary.LittleEndian.AppendUint32(nil, uint32(tx.Version))
	if anyone {
		b = append(b, zero...)
	} else {
		var p []byte
		for _, in := range tx.TxIn {
			p = append(p, refOutPoint(in.PreviousOutPoint)...)
		}
		b = append(b, dsha(p)...)
	}
	if anyone || base == 2 || base == 3 {
		b = append(b, zero...)
	} else {
		var p []byte
		for _, in := range tx.TxIn {
			p = binary.LittleEndian.AppendUint32(p, in.Sequence)
		}
		b = append(b, dsha(p)...)
	}
	b = append(b, refOutPoint(tx.TxIn[index].PreviousOutPoint)...)
	b = append(b, refVarInt(uint64(len(scriptCode)))...)
	b = append(b, scriptCode...)
	b = binary.LittleEndian.AppendUint64(b, value)
	b = binary.LittleEndian.AppendUint32(b, tx.TxIn[index].Sequence)
	switch {
	case base != 2 && base != 3:
		var p []byte
		for _, out := range tx.TxOut {
			p = append(p, refTxOut(out.Value, out.LockingScript)...)
		}
		b = append(b, dsha(p)...)
	case base == 3 && index < len(tx.TxOut):
		b = append(b, dsha(refTxOut(tx.TxOut[index].Value, tx.TxOut[index].LockingScript))...)
	default:
		b = append(b, zero...)
	}
	b = binary.LittleEndian.AppendUint32(b, tx.LockTime)
	return binary.LittleEndian.AppendUint32(b, hashType|0x40)
}

var (
	curve     = btcec.S256()
	halfOrder = new(big.Int).Rsh(curve.N, 1)
)

// refCheckSig checks a strict signature with hash type byte against a digest.
func refCheckSig(sig, pubKey, digest []byte, hashType byte) error {
	if len(sig) < 9 || len(sig) > 73 {
		return fmt.Errorf("signature of %d bytes", len(sig))
	}
	if sig[len(sig)-1] != hashType {
		return fmt.Errorf("hash type %02x", sig[len(sig)-1])
	}
	der := sig[:len(sig)-1]
	// Strict DER: 30 len 02 lr r 02 ls s, minimal and positive numbers.
	if der[0] != 0x30 || int(der[1]) != len(der)-2 || der[2] != 0x02 {
		return fmt.Errorf("signature header %x", der[:3])
	}
	lr := int(der[3])
	if lr == 0 || 4+lr+2 > len(der) {
		return fmt.Errorf("r length %d", lr)
	}
	rb := der[4 : 4+lr]
	if der[4+lr] != 0x02 {
		return fmt.Errorf("no second number")
	}
	ls := int(der[5+lr])
	if ls == 0 || 6+lr+ls != len(der) {
		return fmt.Errorf("s length %d", ls)
	}
	sb := der[6+lr:]
	for _, n := range [][]byte{rb, sb} {
		if n[0]&0x80 != 0 {
			return fmt.Errorf("negative number")
		}
		if len(n) > 1 && n[0] == 0 && n[1]&0x80 == 0 {
			return fmt.Errorf("padded number")
		}
	}
	s := &btcec.Signature{R: new(big.Int).SetBytes(rb), S: new(big.Int).SetBytes(sb)}
	if s.S.Cmp(halfOrder) > 0 {
		return fmt.Errorf("high S value")
	}
	pk, err := btcec.ParsePubKey(pubKey, curve)
	if err != nil {
		return fmt.Errorf("public key: %s", err)
	}
	if !s.Verify(digest, pk) {
		return fmt.Errorf("signature does not verify")
	}
	return nil
}

// refPushes splits a script that consists of direct pushes, OP_0 and OP_1.
func refPushes(script []byte) ([][]byte, error) {
	var result [][]byte
	for len(script) > 0 {
		op := int(script[0])
		script = script[1:]
		switch {
		case op == 0:
			result = append(result, nil)
		case op == 0x51:
			result = append(result, []byte{1})
		case op <= 75:
			if len(script) < op {
				return nil, fmt.Errorf("truncated push")
			}
			result = append(result, script[:op])
			script = script[op:]
		default:
			return nil, fmt.Errorf("op code %02x in unlocking script", op)
		}
	}
	return result, nil
}

// refVerifyInput checks that the unlocking script of an input satisfies the locking script of the
// spent output with signatures of all inputs and outputs. It returns the key numbers that signed.
func refVerifyInput(tx *wire.MsgTx, index int, lock Script, value uint64) ([]int, error) {
	unlock := tx.TxIn[index].UnlockingScript
	code := lock.Bytes()
	digest := dsha(refPreimage(tx, index, code, value, 0x41))
	pushes, err := refPushes(unlock)
	if err != nil {
		return nil, err
	}
	switch lock.T {
	case tPKH:
		if len(pushes) != 2 {
			return nil, fmt.Errorf("%d pushes", len(pushes))
		}
		if !bytes.Equal(bitcoin.Hash160(pushes[1]), keyHashes[lock.K[0]]) {
			return nil, fmt.Errorf("wrong public key")
		}
		return lock.K[:1], refCheckSig(pushes[0], pushes[1], digest, 0x41)
	case tPK:
		if len(pushes) != 1 {
			return nil, fmt.Errorf("%d pushes", len(pushes))
		}
		return lock.K[:1], refCheckSig(pushes[0], pubKeys[lock.K[0]], digest, 0x41)
	case tMulti:
		// The last pushed items are used by the first key.
		var used []int
		for _, k := range lock.K {
			if len(pushes) == 0 {
				return nil, fmt.Errorf("not enough items")
			}
			flag := pushes[len(pushes)-1]
			pushes = pushes[:len(pushes)-1]
			if len(flag) == 0 {
				continue
			}
			if !bytes.Equal(flag, []byte{1}) {
				return nil, fmt.Errorf("selector %x", flag)
			}
			if len(pushes) < 2 {
				return nil, fmt.Errorf("not enough items")
			}
			pub, sig := pushes[len(pushes)-1], pushes[len(pushes)-2]
			pushes = pushes[:len(pushes)-2]
			if !bytes.Equal(bitcoin.Hash160(pub), keyHashes[k]) {
				return nil, fmt.Errorf("wrong public key for signer %d", k)
			}
			if err := refCheckSig(sig, pub, digest, 0x41); err != nil {
				return nil, err
			}
			used = append(used, k)
		}
		if len(pushes) != 0 {
			return nil, fmt.Errorf("%d items left", len(pushes))
		}
		if len(used) < lock.M {
			return nil, fmt.Errorf("%d of %d signatures", len(used), lock.M)
		}
		return used, nil
	}
	return nil, fmt.Errorf("template %s", lock.T)
}

// refFee is the exact fee for a size, rounded up.
func refFee(size int, rate float32) uint64 { return refFee64(size, float64(rate), true) }

func refFeeDown(size int, rate float32) uint64 { return refFee64(size, float64(rate), false) }

func refFee64(size int, rate float64, up bool) uint64 {
	r := new(big.Rat)
	if r.SetFloat64(rate) == nil {
		panic("harness: fee rate")
	}
	r.Mul(r, new(big.Rat).SetInt64(int64(size)))
	q, m := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	if up && m.Sign() > 0 {
		q.Add(q, big.NewInt(1))
	}
	return q.Uint64()
}

// refDust is the exact dust limit: three times the rate for the output and a standard input, rounded
// down, at least one.
func refDust(outputSize int, rate float32) uint64 {
	d := refFeeDown((outputSize+148)*3, rate)
	if d < 1 {
		return 1
	}
	return d
}

// refCode is the part of a script after its last code separator.
func refCode(script []byte) []byte {
	last := 0
	for i := 0; i < len(script); {
		op := script[i]
		i++
		switch {
		case op <= 75:
			i += int(op)
		case op == 0x4c:
			i += 1 + int(script[i])
		case op == 0x4d:
			i += 2 + int(script[i]) + int(script[i+1])<<8
		case op == 0x4e:
			i += 4 + int(script[i]) + int(script[i+1])<<8 + int(script[i+2])<<16
		case op == 0xab:
			last = i
		}
	}
	return script[last:]
}
