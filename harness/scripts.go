package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math/big"
	"sync"

	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/pkg/bitcoin"

	"pgregory.net/rapid"
)

const keyCount = 40

var (
	keys      [keyCount]bitcoin.Key
	pubKeys   [keyCount][]byte
	keyHashes [keyCount][]byte
)

func init() {
	curveOrder, _ := new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)
	for i := range keys {
		h := sha256.Sum256([]byte(fmt.Sprintf("verification key %d", i)))
		if i%8 == 1 { // public key of the one before except for the first byte
			n := new(big.Int).Sub(curveOrder, new(big.Int).SetBytes(keys[i-1].Number()))
			n.FillBytes(h[:])
		}
		key, err := bitcoin.KeyFromNumber(h[:], bitcoin.MainNet)
		if err != nil {
			panic(err)
		}
		keys[i] = key
		pubKeys[i] = key.PublicKey().Bytes()
		keyHashes[i] = bitcoin.Hash160(pubKeys[i])
	}
}

// Script describes a locking script.
type Script struct {
	T string  `json:"t"`           // template
	K []int   `json:"k,omitempty"` // key numbers
	M int     `json:"m,omitempty"` // required signatures, or length of filler
	X string  `json:"x,omitempty"` // raw hex
	S *Script `json:"s,omitempty"` // inner script
}

const (
	tPKH   = "pkh"    // single key hash
	tPK    = "pk"     // bare public key
	tMulti = "mpkh"   // m of n key hashes
	tSH    = "sh"     // script hash
	tRPH   = "rph"    // R puzzle hash
	tRet   = "ret"    // OP_RETURN and a push
	tFRet  = "fret"   // OP_FALSE OP_RETURN and a push
	tAgent = "agent"  // agent bitcoin transfer around an inner script
	tRaw   = "raw"    // raw bytes
	tFill  = "filler" // push of M bytes and OP_DROP OP_1
)

var scriptCache sync.Map // description -> []byte

// Bytes returns a new copy of the locking script.
func (s Script) Bytes() bitcoin.Script {
	key := string(caseJSON(s))
	if b, ok := scriptCache.Load(key); ok {
		return append(bitcoin.Script(nil), b.([]byte)...)
	}
	b := s.build()
	scriptCache.Store(key, []byte(b))
	return append(bitcoin.Script(nil), b...)
}

// refPush is the minimal push of data of any length.
func refPush(data []byte) []byte {
	l := len(data)
	switch {
	case l <= 75:
		return append([]byte{byte(l)}, data...)
	case l <= 255:
		return append([]byte{0x4c, byte(l)}, data...)
	case l <= 65535:
		return append([]byte{0x4d, byte(l), byte(l >> 8)}, data...)
	default:
		return append([]byte{0x4e, byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24)}, data...)
	}
}

func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(17 + i*31)
	}
	return b
}

// refNumber is the script that pushes a small positive number.
func refNumber(n int) []byte {
	switch {
	case n == 0:
		return []byte{0}
	case n <= 16:
		return []byte{byte(0x50 + n)}
	case n < 128:
		return []byte{1, byte(n)}
	}
	return []byte{2, byte(n), byte(n >> 8)}
}

func (s Script) build() bitcoin.Script {
	switch s.T {
	case tPKH:
		b := append([]byte{0x76, 0xa9}, refPush(keyHashes[s.K[0]])...)
		return append(b, 0x88, 0xac)
	case tPK:
		return append(refPush(pubKeys[s.K[0]]), 0xac)
	case tMulti:
		// OP_0 OP_TOALTSTACK
		// ( OP_IF OP_DUP OP_HASH160 <hash> OP_EQUALVERIFY OP_CHECKSIGVERIFY OP_FROMALTSTACK
		//   OP_1ADD OP_TOALTSTACK OP_ENDIF ) per key
		// <required> OP_FROMALTSTACK OP_LESSTHANOREQUAL
		b := []byte{0x00, 0x6b}
		for _, k := range s.K {
			b = append(b, 0x63, 0x76, 0xa9)
			b = append(b, refPush(keyHashes[k])...)
			b = append(b, 0x88, 0xad, 0x6c, 0x8b, 0x6b, 0x68)
		}
		b = append(b, refNumber(s.M)...)
		return append(b, 0x6c, 0xa1)
	case tSH:
		h := bitcoin.Hash160([]byte{byte(s.M), byte(s.M >> 8), 1})
		return append(append([]byte{0xa9}, refPush(h)...), 0x87)
	case tRPH:
		h := bitcoin.Hash160([]byte{byte(s.M), byte(s.M >> 8), 2})
		ra, err := bitcoin.NewRawAddressRPH(h)
		if err != nil {
			panic(err)
		}
		script, err := ra.LockingScript()
		if err != nil {
			panic(err)
		}
		return script
	case tRet:
		return append([]byte{0x6a}, refPush(filler(s.M))...)
	case tFRet:
		return append([]byte{0x00, 0x6a}, refPush(filler(s.M))...)
	case tFill:
		return append(refPush(filler(s.M)), 0x75, 0x51)
	case tAgent:
		pay := Script{T: tPKH, K: []int{1}}
		script, err := agent_bitcoin_transfer.CreateScript(s.S.Bytes(), pay.Bytes(), pay.Bytes(), 1000,
			Script{T: tPKH, K: []int{2}}.Bytes(), uint32(s.M))
		if err != nil {
			panic(err)
		}
		return script
	case tRaw:
		b, err := hex.DecodeString(s.X)
		if err != nil {
			panic(err)
		}
		return b
	}
	panic("harness: script template " + s.T)
}

// Address returns the address form of the script.
func (s Script) Address() (bitcoin.RawAddress, error) {
	switch s.T {
	case tPKH:
		return bitcoin.NewRawAddressPKH(keyHashes[s.K[0]])
	case tPK:
		return bitcoin.NewRawAddressCompressedPublicKey(pubKeys[s.K[0]])
	case tMulti:
		var hashes [][]byte
		for _, k := range s.K {
			hashes = append(hashes, keyHashes[k])
		}
		return bitcoin.NewRawAddressMultiPKH(s.M, hashes)
	case tSH:
		return bitcoin.NewRawAddressSH(bitcoin.Hash160([]byte{byte(s.M), byte(s.M >> 8), 1}))
	case tRPH:
		return bitcoin.NewRawAddressRPH(bitcoin.Hash160([]byte{byte(s.M), byte(s.M >> 8), 2}))
	}
	return bitcoin.NewRawAddressNonStandard(s.Bytes())
}

// HasAddress is true if Address describes exactly this script.
func (s Script) HasAddress() bool {
	switch s.T {
	case tPKH, tPK, tSH, tRPH, tMulti:
		return true
	}
	return false
}

// Spendable is false for provably unspendable scripts.
func (s Script) Spendable() bool {
	b := s.Bytes()
	return !(len(b) > 0 && b[0] == 0x6a) && !(len(b) > 1 && b[0] == 0 && b[1] == 0x6a)
}

// Signable is true for the templates that signing supports.
func (s Script) Signable() bool {
	return s.T == tPKH || s.T == tPK || s.T == tMulti
}

// refVarIntSize is the size of a variable length integer.
func refVarIntSize(n uint64) int {
	switch {
	case n < 0xfd:
		return 1
	case n < 0x10000:
		return 3
	case n < 0x100000000:
		return 5
	}
	return 9
}

// UnlockSize returns the largest size of a script that unlocks s, or false if it is not known.
// A signature is at most 72 bytes and a hash type, a public key 33 bytes, each with a push byte.
func (s Script) UnlockSize() (int, bool) {
	const sig, pub = 1 + 72 + 1, 1 + 33
	switch s.T {
	case tPKH:
		return sig + pub, true
	case tPK:
		return sig, true
	case tMulti:
		return len(s.K) - s.M + s.M*(sig+pub+1), true
	case tAgent:
		n, ok := s.S.UnlockSize()
		if !ok {
			return 0, false
		}
		return agent_bitcoin_transfer.ApproveUnlockingSize(n), true
	}
	return 0, false
}

// InSize is the estimated size of an input that spends s.
func (s Script) InSize() (int, bool) {
	n, ok := s.UnlockSize()
	if !ok {
		return 149, false // like a single key hash
	}
	return 40 + refVarIntSize(uint64(n)) + n, true
}

// OutSize is the size of an output with the script s.
func (s Script) OutSize() int { return refOutSize(len(s.Bytes())) }

func refOutSize(scriptLen int) int { return 8 + refVarIntSize(uint64(scriptLen)) + scriptLen }

// Keys needed at most to unlock.
func (s Script) NeededKeys() []int {
	switch s.T {
	case tPKH, tPK:
		return s.K[:1]
	case tMulti:
		return s.K
	}
	return nil
}

// CanUnlock is true if the given keys are enough for a signable script.
func (s Script) CanUnlock(have map[int]bool) bool {
	switch s.T {
	case tPKH, tPK:
		return have[s.K[0]]
	case tMulti:
		n := 0
		for _, k := range s.K {
			if have[k] {
				n++
			}
		}
		return n >= s.M
	}
	return false
}

// selfTest compares the scripts built here with the ones of the address type.
func selfTest() error {
	for _, s := range []Script{{T: tPKH, K: []int{3}}, {T: tPK, K: []int{4}}, {T: tSH, M: 9},
		{T: tMulti, M: 2, K: []int{1, 5, 9}}, {T: tMulti, M: 17, K: []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9,
			10, 11, 12, 13, 14, 15, 16, 17}}} {
		ra, err := s.Address()
		if err != nil {
			return err
		}
		b, err := ra.LockingScript()
		if err != nil {
			return err
		}
		if !bytes.Equal(b, s.Bytes()) {
			return fmt.Errorf("script %s: %x, address %x", s.T, []byte(s.Bytes()), []byte(b))
		}
	}
	return nil
}

// generators

// Coins and payments use the keys below changeKeys, change uses the others.
const changeKeys = 30

func genKey(t *rapid.T) int { return rapid.IntRange(0, changeKeys-1).Draw(t, "key") }

func genMulti(t *rapid.T, maxKeys int) Script {
	n := rapid.IntRange(1, maxKeys).Draw(t, "signers")
	start := genKey(t)
	step := rapid.SampledFrom([]int{1, 7, 11, 29}).Draw(t, "step")
	s := Script{T: tMulti, M: rapid.IntRange(1, n).Draw(t, "required")}
	for i := 0; i < n; i++ {
		s.K = append(s.K, (start+i*step)%changeKeys)
	}
	return s
}

// genLargeMulti draws an m-of-n script with so many signers that its unlocking script can need the long
// forms of its length.
func genLargeMulti(t *rapid.T) Script {
	if rapid.IntRange(0, 9).Draw(t, "hundreds of signers") != 5 {
		return genMulti(t, 140)
	}
	s := Script{T: tMulti, M: rapid.IntRange(590, 610).Draw(t, "required")}
	for n := s.M + rapid.IntRange(0, 60).Draw(t, "others"); len(s.K) < n; {
		s.K = append(s.K, len(s.K)%changeKeys)
	}
	return s
}

// genSignable draws a script that signing supports.
func genSignable(t *rapid.T) Script {
	switch rapid.SampledFrom([]string{tPKH, tPKH, tPKH, tPK, tMulti}).Draw(t, "template") {
	case tPK:
		return Script{T: tPK, K: []int{genKey(t)}}
	case tMulti:
		if rapid.IntRange(0, 19).Draw(t, "many signers") == 0 {
			return genMulti(t, 36)
		}
		return genMulti(t, 5)
	}
	return Script{T: tPKH, K: []int{genKey(t)}}
}

// genAddressScript draws a script that can be given as an address.
func genAddressScript(t *rapid.T) Script {
	switch rapid.SampledFrom([]string{tPKH, tPKH, tPKH, tPK, tMulti, tSH, tRPH}).Draw(t, "template") {
	case tPK:
		return Script{T: tPK, K: []int{genKey(t)}}
	case tMulti:
		return genMulti(t, 5)
	case tSH:
		return Script{T: tSH, M: rapid.IntRange(1, 255).Draw(t, "hash")}
	case tRPH:
		return Script{T: tRPH, M: rapid.IntRange(1, 255).Draw(t, "hash")}
	}
	return Script{T: tPKH, K: []int{genKey(t)}}
}

// genChangeScript draws a script that no coin or payment uses. The number selects the keys, so that
// scripts of different numbers below 10 differ.
func genChangeScript(t *rapid.T, n int) Script {
	k := changeKeys + n%10
	switch rapid.SampledFrom([]string{tPKH, tPKH, tPKH, tPK, tMulti, tSH}).Draw(t, "change template") {
	case tPK:
		return Script{T: tPK, K: []int{k}}
	case tMulti:
		count := rapid.IntRange(1, 3).Draw(t, "signers")
		if rapid.IntRange(0, 3).Draw(t, "long") == 2 {
			count = rapid.IntRange(7, 12).Draw(t, "signers")
		}
		s := Script{T: tMulti, M: rapid.IntRange(1, count).Draw(t, "required")}
		for i := 0; i < count; i++ {
			s.K = append(s.K, changeKeys+(n+i)%10)
		}
		return s
	case tSH:
		return Script{T: tSH, M: 256 + n}
	}
	return Script{T: tPKH, K: []int{k}}
}

// genLength draws a length with the sizes where encodings change.
func genLength(t *rapid.T, max int) int {
	var edges []int
	for _, e := range []int{0, 1, 75, 76, 77, 220, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257,
		65500, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540} {
		if e <= max {
			edges = append(edges, e)
		}
	}
	if rapid.Bool().Draw(t, "edge") {
		return rapid.SampledFrom(edges).Draw(t, "length")
	}
	if max > 300 && rapid.IntRange(0, 9).Draw(t, "short") != 0 {
		max = 300
	}
	return rapid.IntRange(0, max).Draw(t, "length")
}

func genAgent(t *rapid.T) Script {
	inner := rapid.SampledFrom([]string{tPKH, tPK}).Draw(t, "agent")
	return Script{T: tAgent, M: rapid.IntRange(1, 1000000).Draw(t, "lock time"),
		S: &Script{T: inner, K: []int{genKey(t)}}}
}

// genOutScript draws any locking script for an output.
func genOutScript(t *rapid.T, maxLen int) Script {
	if rapid.IntRange(0, 59).Draw(t, "empty script") == 59 {
		return Script{T: tRaw}
	}
	switch rapid.SampledFrom([]string{"address", "address", "address", tRet, tFRet, tFill,
		tAgent}).Draw(t, "kind") {
	case tRet:
		return Script{T: tRet, M: genLength(t, maxLen)}
	case tFRet:
		return Script{T: tFRet, M: genLength(t, maxLen)}
	case tFill:
		return Script{T: tFill, M: genLength(t, maxLen)}
	case tAgent:
		return genAgent(t)
	}
	return genAddressScript(t)
}

// genCoinScript draws a locking script of a coin.
func genCoinScript(t *rapid.T, signable bool) Script {
	if signable {
		return genSignable(t)
	}
	switch rapid.SampledFrom([]string{"signable", "signable", "signable", tSH, tRPH, tAgent, tFill}).Draw(t,
		"coin") {
	case tSH:
		return Script{T: tSH, M: rapid.IntRange(1, 255).Draw(t, "hash")}
	case tRPH:
		return Script{T: tRPH, M: rapid.IntRange(1, 255).Draw(t, "hash")}
	case tAgent:
		return genAgent(t)
	case tFill:
		return Script{T: tFill, M: genLength(t, 300)}
	}
	return genSignable(t)
}

func scriptsEqual(a, b bitcoin.Script) bool { return bytes.Equal(a, b) }
