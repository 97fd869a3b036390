package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"

	"pgregory.net/rapid"
)

// CLICase is one run of the command line tool against a stand-in of the chain service.
type CLICase struct {
	Cmd     string    `json:"cmd"`
	Test    bool      `json:"test,omitempty"` // test network
	Fee     float32   `json:"fee"`
	Dust    float32   `json:"dust"`
	Key     int       `json:"key"`
	Parents []RawTx   `json:"parents,omitempty"`
	Ins     []SpendIn `json:"ins,omitempty"`
	To      Script    `json:"to"`
	Text    string    `json:"text,omitempty"` // form of the recipient: address, script, bip276
	Amount  string    `json:"amount,omitempty"`
	Count   int       `json:"count,omitempty"`
	Fault   string    `json:"fault,omitempty"`
	Status  int       `json:"status,omitempty"` // of the answers of the service
	Left    int       `json:"left,omitempty"`   // arguments left if there are too few
	Far     uint32    `json:"far,omitempty"`    // added to the indexes of the coins to consolidate
}

// The stand-in of the chain service.
var chain struct {
	once   sync.Once
	err    error
	addr   string
	cert   string
	mu     sync.Mutex
	pages  map[string]string // path to content
	fault  string
	status int
	asked  []string
}

func chainSetup() error {
	chain.once.Do(func() { chain.err = chainStart() })
	return chain.err
}

func chainStart() error {
	if os.Getenv("VERIF_CLI") == "" {
		return fmt.Errorf("VERIF_CLI is not set")
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	if err != nil {
		return err
	}
	template := &x509.Certificate{
		SerialNumber:          big.NewInt(1),
		Subject:               pkix.Name{CommonName: "api.whatsonchain.com"},
		NotBefore:             time.Now().Add(-48 * time.Hour),
		NotAfter:              time.Now().Add(48 * time.Hour),
		DNSNames:              []string{"api.whatsonchain.com"},
		IsCA:                  true,
		BasicConstraintsValid: true,
		KeyUsage:              x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage:           []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
	}
	der, err := x509.CreateCertificate(crand.Reader, template, template, &key.PublicKey, key)
	if err != nil {
		return err
	}
	f, err := ioutil.TempFile("", "verif-cert-")
	if err != nil {
		return err
	}
	chain.cert = f.Name()
	if err := pem.Encode(f, &pem.Block{Type: "CERTIFICATE", Bytes: der}); err != nil {
		return err
	}
	if err := f.Close(); err != nil {
		return err
	}
	listener, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	chain.addr = listener.Addr().String()
	server := &http.Server{
		Handler:   http.HandlerFunc(chainServe),
		TLSConfig: &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}},
		ErrorLog:  log.New(ioutil.Discard, "", 0),
	}
	go server.ServeTLS(listener, "", "")
	return nil
}

func chainClose() {
	if chain.cert != "" {
		os.Remove(chain.cert)
	}
}

func chainServe(w http.ResponseWriter, req *http.Request) {
	chain.mu.Lock()
	defer chain.mu.Unlock()
	chain.asked = append(chain.asked, req.URL.Path)
	page, ok := chain.pages[req.URL.Path]
	switch {
	case chain.fault == "status":
		http.Error(w, "too many requests", 429)
	case chain.fault == "garbage":
		fmt.Fprint(w, "<html>zz")
	case chain.fault == "cut" && ok:
		fmt.Fprint(w, page[:len(page)/2])
	case !ok:
		http.Error(w, "not found", 404)
	default:
		if chain.status != 0 {
			w.WriteHeader(chain.status)
		}
		fmt.Fprint(w, page)
	}
}

// faults that make a request impossible to meet
var cliFaults = map[string][]string{
	"create_send": {"status", "error page", "few arguments", "garbage", "cut", "unknown tx", "index", "duplicate", "other key", "bad key",
		"bad address", "negative", "bad amount", "bad outpoint"},
	"create_sends": {"status", "error page", "few arguments", "garbage", "cut", "unknown tx", "index", "duplicate", "other key", "bad key",
		"bad count", "bad outpoint"},
	"consolidate": {"status", "error page", "few arguments", "garbage", "bad key", "bad address", "no coins"},
}

func genC24(t *rapid.T) CLICase {
	c := CLICase{
		Cmd:  rapid.SampledFrom([]string{"create_send", "create_send", "create_sends", "consolidate"}).Draw(t, "command"),
		Test: rapid.Bool().Draw(t, "test network"),
		Fee:  rapid.SampledFrom([]float32{0.05, 0.05, 0.001, 0.25, 0.5, 1, 1.5, 5, 60}).Draw(t, "fee rate"),
		Dust: rapid.SampledFrom([]float32{0, 0, 0.25, 1}).Draw(t, "dust rate"),
		Key:  genKey(t),
	}
	own := Script{T: tPKH, K: []int{c.Key}}
	for n := rapid.IntRange(1, 3).Draw(t, "parents"); n > 0; n-- {
		p := genRawTx(t, 1)
		p.Lock = uint32(n) // distinct
		p.Outs = nil
		for i := rapid.IntRange(1, 4).Draw(t, "parent outputs"); i > 0; i-- {
			p.Outs = append(p.Outs, RawOut{V: rapid.Uint64Range(0, 1000).Draw(t, "value"), S: Script{T: tPKH,
				K: []int{(c.Key + i) % changeKeys}}})
		}
		c.Parents = append(c.Parents, p)
	}

	// The outputs of the key. Their values are drawn below.
	if rapid.IntRange(0, 24).Draw(t, "long parent") == 12 {
		p := &c.Parents[len(c.Parents)-1]
		p.Outs = append(p.Outs, RawOut{S: Script{T: tFill, M: rapid.SampledFrom([]int{9000, 40000, 600000}).Draw(t,
			"length")}})
	}
	want := rapid.IntRange(1, 5).Draw(t, "coins")
	if rapid.IntRange(0, 29).Draw(t, "many coins") == 0 {
		// All outputs of a large transaction
		want = rapid.SampledFrom([]int{20, 100, 251, 252, 253, 254}).Draw(t, "coins")
		if c.Cmd == "consolidate" {
			want = rapid.SampledFrom([]int{20, 251, 252, 253, 254, 600}).Draw(t, "coins")
		}
		p := &c.Parents[0]
		p.Outs = nil
		for i := 0; i < want; i++ {
			p.Outs = append(p.Outs, RawOut{S: own})
			c.Ins = append(c.Ins, SpendIn{P: 0, I: uint32(i)})
		}
	}
	if len(c.Ins) == 0 && rapid.IntRange(0, 14).Draw(t, "late coin") == 7 {
		p := &c.Parents[0]
		for len(p.Outs) < 256 {
			p.Outs = append(p.Outs, RawOut{V: uint64(len(p.Outs)), S: Script{T: tPKH, K: []int{(c.Key + 1) % changeKeys}}})
		}
		p.Outs = append(p.Outs, RawOut{S: own})
		c.Ins = append(c.Ins, SpendIn{P: 0, I: 256})
	}
	for i := range c.Parents {
		for j := range c.Parents[i].Outs {
			if j >= 250 {
				break
			}
			if c.Parents[i].Outs[j].S.T == tFill {
				continue
			}
			if len(c.Ins) < want && (rapid.Bool().Draw(t, "own") || i == len(c.Parents)-1 && len(c.Ins) == 0) {
				c.Parents[i].Outs[j].S = own
				c.Ins = append(c.Ins, SpendIn{P: i, I: uint32(j)})
				if c.Cmd != "consolidate" && rapid.IntRange(0, 5).Draw(t, "public key") == 5 {
					c.Parents[i].Outs[j].S = Script{T: tPK, K: []int{c.Key}}
				}
			}
		}
	}
	if len(c.Ins) > 1 {
		c.Ins = rapid.Permutation(c.Ins).Draw(t, "order")
	}
	m := c.model()
	c.To = genAddressScript(t)
	if rapid.IntRange(0, 7).Draw(t, "to itself") == 7 {
		c.To = own
	}
	switch c.Cmd {
	case "create_send":
		if ra, err := c.To.Address(); err == nil {
			// As for the other forms of recipients, see args
			ad, err := bitcoin.DecodeAddress(bitcoin.NewAddressFromRawAddress(ra, c.net()).String())
			if err != nil || !bitcoin.NewRawAddressFromAddress(ad).Equal(ra) {
				c.To = Script{T: tPKH, K: []int{genKey(t)}}
			}
		}
		amount := refFee(c.To.OutSize(), c.Fee) + genValue(t, 0, 100000000)
		if rapid.IntRange(0, 3).Draw(t, "small amount") == 3 {
			// Around the fee of the output
			amount = refFee(c.To.OutSize(), c.Fee) + rapid.Uint64Range(0, 4).Draw(t, "around")
			if amount >= 2 {
				amount -= 2
			}
		}
		if rapid.IntRange(0, 9).Draw(t, "large amount") == 5 {
			amount = genValue(t, 1<<31, maxMoney/4)
		}
		c.Amount = fmt.Sprint(amount)
		if !bytes.Equal(c.To.Bytes(), own.Bytes()) {
			m.Outs = []Out{{S: c.To, V: amount}}
		}
	case "create_sends":
		c.Count = rapid.IntRange(1, 6).Draw(t, "count")
		if rapid.IntRange(0, 5).Draw(t, "long chain") == 0 {
			c.Count = rapid.IntRange(7, 24).Draw(t, "count")
		}
	case "consolidate":
		c.Text = rapid.SampledFrom([]string{"address", "address", "script", "bip276"}).Draw(t, "recipient form")
		c.Far = rapid.SampledFrom([]uint32{0, 0, 0x100, 0x10000, 0x7fffff80, 0xfffffe00}).Draw(t, "large indexes")
		m.Outs = []Out{{S: c.To, V: refDust(c.To.OutSize(), c.Dust), Rem: true}}
	}
	need := m.outTotal() + refFee(m.size(), c.Fee)
	coins := make([]Coin, len(c.Ins))
	total := genSurplus(t, m.Tx, need)
	if c.Cmd == "create_sends" && rapid.Bool().Draw(t, "lasts") {
		total += rapid.Uint64Range(0, 12+2*uint64(c.Count)).Draw(t, "multiple") * refFee(200, c.Fee)
	}
	if rapid.IntRange(0, 7).Draw(t, "large values") == 0 {
		total += rapid.Uint64Range(0, maxMoney/2).Draw(t, "large value")
	}
	spread(t, coins, total)
	for i, in := range c.Ins {
		c.Parents[in.P].Outs[in.I].V = coins[i].V
	}

	if rapid.IntRange(0, 4).Draw(t, "faulty") == 4 {
		c.Fault = rapid.SampledFrom(cliFaults[c.Cmd]).Draw(t, "fault")
	}
	switch c.Fault {
	case "":
		c.Status = rapid.SampledFrom([]int{0, 0, 0, 0, 201, 299}).Draw(t, "status")
	case "error page":
		c.Status = rapid.SampledFrom([]int{300, 400, 404, 429, 500, 503}).Draw(t, "status")
	case "few arguments":
		c.Left = rapid.IntRange(0, map[string]int{"create_send": 3, "create_sends": 2,
			"consolidate": 1}[c.Cmd]).Draw(t, "arguments")
	}
	return c
}

// model returns the builder of the first transaction without outputs.
func (c CLICase) model() *feeModel {
	own := Script{T: tPKH, K: []int{c.Key}}
	m := &feeModel{Tx: Tx{Fee: c.Fee, Dust: c.Dust, Change: &own}, added: map[string]bool{}}
	for _, in := range c.Ins {
		out := c.Parents[in.P].Outs[in.I]
		m.Ins = append(m.Ins, Coin{S: out.S, V: out.V})
	}
	return m
}

// finish makes the outputs what they are after signing. It is false if there is not enough.
func (m *feeModel) finish() bool {
	est := refFee(m.size(), m.Fee)
	if m.inTotal() < m.outTotal()+est {
		return false
	}
	_, err := m.adjust(int64(est)-m.actual(), &Rec{})
	return err == nil && len(m.Outs) > 0
}

func (c CLICase) net() bitcoin.Network {
	if c.Test {
		return bitcoin.TestNet
	}
	return bitcoin.MainNet
}

// args returns the arguments of the tool and fills the service.
func (c CLICase) args() []string {
	key, err := bitcoin.KeyFromNumber(keys[c.Key].Number(), c.net())
	if err != nil {
		panic("harness: " + err.Error())
	}
	wif := key.String()
	if c.Fault == "bad key" {
		last := "1"
		if strings.HasSuffix(wif, last) {
			last = "2"
		}
		wif = wif[:len(wif)-1] + last
	}
	name := "main"
	if c.Test {
		name = "test"
	}
	pages := map[string]string{}
	var points []string
	for i, p := range c.Parents {
		if c.Fault == "unknown tx" && i == c.Ins[0].P {
			continue
		}
		pages[fmt.Sprintf("/v1/bsv/%s/tx/%s/hex", name, p.Msg().TxHash())] = hex.EncodeToString(refSerialize(p.Msg()))
	}
	type unspent struct {
		Height int    `json:"height"`
		Pos    uint32 `json:"tx_pos"`
		Hash   string `json:"tx_hash"`
		Value  uint64 `json:"value"`
	}
	list := []unspent{}
	for i, in := range c.Ins {
		p := c.Parents[in.P]
		index := in.I
		if c.Fault == "index" && i == len(c.Ins)-1 {
			index = uint32(len(p.Outs))
		}
		points = append(points, fmt.Sprintf("%s:%d", p.Msg().TxHash(), index))
		height := 700000 + i
		if i%3 == 1 {
			height = 0 // not in a block yet
		}
		list = append(list, unspent{height, in.I + c.Far, p.Msg().TxHash().String(), p.Outs[in.I].V})
	}
	switch c.Fault {
	case "duplicate":
		points = append(points, points[0])
	case "other key":
		for i, p := range c.Parents {
			for j, o := range p.Outs {
				if !bytes.Equal(o.S.Bytes(), Script{T: tPKH, K: []int{c.Key}}.Bytes()) && o.S.T == tPKH {
					points = append(points, fmt.Sprintf("%s:%d", c.Parents[i].Msg().TxHash(), j))
				}
			}
		}
	case "bad outpoint":
		points[0] = "zz" + points[0][2:]
	case "no coins":
		list = list[:0]
	}
	own := Script{T: tPKH, K: []int{c.Key}}
	scriptHash := bitcoin.Hash32(sha256.Sum256(own.Bytes()))
	js, _ := json.Marshal(list)
	pages[fmt.Sprintf("/v1/bsv/%s/script/%s/unspent", name, scriptHash)] = string(js)

	chain.mu.Lock()
	chain.pages, chain.asked, chain.fault, chain.status = pages, nil, "", c.Status
	if c.Fault == "status" || c.Fault == "garbage" || c.Fault == "cut" {
		chain.fault = c.Fault
	}
	chain.mu.Unlock()

	ra, err := c.To.Address()
	if err != nil {
		panic("harness: " + err.Error())
	}
	address := bitcoin.NewAddressFromRawAddress(ra, c.net()).String()
	form := c.Text
	if form == "script" {
		address = bitcoin.Script(c.To.Bytes()).String()
	}
	if form != "" {
		// The address and script types do not read back all they write, for example the main network
		// address of a public key. They belong to another module.
		back, err := bitcoin.DecodeToLockingScript(address, c.net())
		if err != nil || !bytes.Equal(back, c.To.Bytes()) {
			form = "bip276"
		}
	}
	if form == "bip276" {
		address = bitcoin.BIP0276Encode(c.net(), bitcoin.BIP0276_ScriptPrefix, c.To.Bytes())
	}
	if c.Fault == "bad address" {
		address = "x" + address[1:len(address)/2]
	}
	args := []string{c.Cmd}
	switch c.Cmd {
	case "create_send":
		amount := c.Amount
		switch c.Fault {
		case "negative":
			amount = "-" + amount
			if c.Amount == "0" {
				amount = "-5"
			}
		case "bad amount":
			amount += "x"
		}
		args = append(args, wif, address, amount)
		args = append(args, points...)
	case "create_sends":
		count := strconv.Itoa(c.Count)
		if c.Fault == "bad count" {
			count = "many"
		}
		args = append(args, count, wif)
		args = append(args, points...)
	case "consolidate":
		args = append(args, wif)
		args = append(args, strings.Fields(address)...)
	}
	if c.Fault == "few arguments" {
		args = args[:1+c.Left]
	}
	return args
}

// runCLI returns standard output, standard error and exit code.
func runCLI(c CLICase) (string, string, int) {
	args := c.args()
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_CLI"), args...)
	dir, err := ioutil.TempDir("", "verif-cli-")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(dir)
	network := "mainnet"
	if c.Test {
		network = "testnet"
	}
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "SSL_CERT_FILE=" + chain.cert, "SSL_CERT_DIR=" + dir,
		"VERIF_DIAL=" + chain.addr, "NETWORK=" + network,
		"FEE_RATE=" + strconv.FormatFloat(float64(c.Fee), 'g', -1, 32),
		"DUST_FEE_RATE=" + strconv.FormatFloat(float64(c.Dust), 'g', -1, 32)}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err = cmd.Run()
	if ctx.Err() != nil {
		panic("harness: the command line tool did not finish")
	}
	code := 0
	if err != nil {
		exit, ok := err.(*exec.ExitError)
		if !ok || exit.ExitCode() < 0 {
			panic("harness: command line tool: " + err.Error())
		}
		code = exit.ExitCode()
	}
	return stdout.String(), stderr.String(), code
}

// linesWith returns the rest of the lines with a prefix.
func linesWith(text, prefix string) []string {
	var result []string
	for _, line := range strings.Split(text, "\n") {
		if strings.HasPrefix(line, prefix) {
			result = append(result, strings.TrimSpace(line[len(prefix):]))
		}
	}
	return result
}

// extended is a transaction in the extended format: after the version comes a marker, and each input
// is followed by the value and script of the spent output.
func refExtended(tx *wire.MsgTx, spent []Coin) []byte {
	b := binary.LittleEndian.AppendUint32(nil, uint32(tx.Version))
	b = append(b, 0, 0, 0, 0, 0, 0xef)
	b = append(b, refVarInt(uint64(len(tx.TxIn)))...)
	for i, in := range tx.TxIn {
		b = append(b, refOutPoint(in.PreviousOutPoint)...)
		b = append(b, refVarInt(uint64(len(in.UnlockingScript)))...)
		b = append(b, in.UnlockingScript...)
		b = binary.LittleEndian.AppendUint32(b, in.Sequence)
		b = append(b, refTxOut(spent[i].V, spent[i].S.Bytes())...)
	}
	b = append(b, refVarInt(uint64(len(tx.TxOut)))...)
	for _, out := range tx.TxOut {
		b = append(b, refTxOut(out.Value, out.LockingScript)...)
	}
	return binary.LittleEndian.AppendUint32(b, tx.LockTime)
}

// message is true if the output contains a line that is none of the usual ones.
func message(stdout string) bool {
	for _, line := range strings.Split(stdout, "\n") {
		line = strings.TrimRight(line, " ")
		if line == "" || strings.HasPrefix(line, "Script Hash") || strings.HasPrefix(line, "Unspent Txs") ||
			strings.ContainsAny(line[:1], " []{}\t") {
			continue
		}
		return true
	}
	return false
}

func checkC24(c CLICase, r *Rec) error {
	if err := chainSetup(); err != nil {
		panic("harness: " + err.Error())
	}
	stdout, stderr, code := "", "", 0
	for attempt := 0; ; attempt++ {
		stdout, stderr, code = runCLI(c)
		text := strings.ToLower(stdout + stderr)
		if !strings.Contains(text, "timeout") && !strings.Contains(text, "deadline exceeded") {
			break
		}
		// A busy machine
		if attempt == 5 {
			panic("harness: the stand-in of the chain service does not answer in time")
		}
		time.Sleep(time.Second << attempt)
	}
	if strings.Contains(stderr, "goroutine ") || code == 2 {
		return fmt.Errorf("crashed with exit code %d: %s", code, stderr)
	}
	r.Class(c.Cmd)
	r.If(len(c.Ins) > 250, "many coins")
	r.If(c.Count > 8, "long chain")
	txs := linesWith(stdout, "Tx Hex :")
	exts := linesWith(stdout, "Extended Tx Hex :")
	cumulative := linesWith(stdout, "Cumulative Extended Txs Hex :")

	m := c.model()
	own := Script{T: tPKH, K: []int{c.Key}}
	points := map[wire.OutPoint]Coin{}
	for i, in := range c.Ins {
		points[wire.OutPoint{Hash: *c.Parents[in.P].Msg().TxHash(), Index: in.I + c.Far}] = m.Ins[i]
	}
	ok := true
	switch c.Cmd {
	case "create_send":
		amount, _ := strconv.ParseUint(c.Amount, 10, 64)
		if !bytes.Equal(c.To.Bytes(), own.Bytes()) {
			m.Outs = []Out{{S: c.To, V: amount}}
			ok = amount >= refFee(c.To.OutSize(), c.Fee)
			r.If(!ok, "amount too small")
		}
	case "consolidate":
		m.Outs = []Out{{S: c.To, V: refDust(c.To.OutSize(), c.Dust), Rem: true}}
	}
	faulty := c.Fault != ""
	if c.Fault == "other key" {
		faulty = false
		for _, p := range c.Parents {
			for _, o := range p.Outs {
				faulty = faulty || o.S.T == tPKH && o.S.K[0] != c.Key
			}
		}
	}
	if faulty {
		r.Class("fault " + c.Fault)
		ok = false
	}
	ok = ok && m.finish()

	if !ok {
		r.Class("refused")
		if len(txs) > 0 || len(exts) > 0 || len(cumulative) > 0 {
			return fmt.Errorf("printed a transaction for a request that cannot be met: %s", stdout)
		}
		if !message(stdout) && !strings.Contains(stderr, "fatal") {
			return fmt.Errorf("no message for a request that cannot be met: %q", stdout)
		}
		return nil
	}

	// The transactions of a chain
	count := 1
	if c.Cmd == "create_sends" {
		count = c.Count
	}
	var all []byte
	for n := 0; n < count; n++ {
		if n > 0 {
			last := m.Outs[0]
			raw, _ := hex.DecodeString(txs[n-1])
			var hash bitcoin.Hash32
			copy(hash[:], dsha(raw))
			m = &feeModel{Tx: Tx{Fee: c.Fee, Dust: c.Dust, Change: &own, Ins: []Coin{{S: last.S, V: last.V}}},
				added: map[string]bool{}}
			points = map[wire.OutPoint]Coin{{Hash: hash}: m.Ins[0]}
			if !m.finish() {
				r.Class("chain runs out")
				if len(txs) > n || len(exts) > n || len(cumulative) > 0 {
					return fmt.Errorf("%d transactions, want %d", len(txs), n)
				}
				lines := strings.Split(strings.TrimSpace(stdout), "\n")
				if len(lines) == 0 || strings.HasPrefix(lines[len(lines)-1], "Extended Tx Hex :") {
					return fmt.Errorf("no message at the end of a chain")
				}
				return nil
			}
		}
		if n >= len(txs) {
			return fmt.Errorf("%d transactions, want at least %d: %s", len(txs), n+1, stdout)
		}
		tx, spent, err := checkPrinted(txs[n], m, points)
		if err != nil {
			return fmt.Errorf("transaction %d: %s", n, err)
		}
		if c.Cmd == "consolidate" {
			continue
		}
		if n >= len(exts) {
			return fmt.Errorf("%d extended transactions, want at least %d", len(exts), n+1)
		}
		want := refExtended(tx, spent)
		if exts[n] != hex.EncodeToString(want) {
			return fmt.Errorf("extended transaction %d is %s, want %x", n, exts[n], want)
		}
		all = append(all, want...)
	}
	if len(txs) != count {
		return fmt.Errorf("%d transactions, want %d", len(txs), count)
	}
	if c.Cmd == "create_sends" {
		r.If(count > 1, "chain")
		if len(cumulative) != 1 || cumulative[0] != hex.EncodeToString(all) {
			return fmt.Errorf("cumulative extended transactions %v, want %x", cumulative, all)
		}
	}
	r.Class("printed " + c.Cmd)
	r.NonTrivial()
	return nil
}

// checkPrinted checks one printed transaction against its model and returns it with what it spends.
func checkPrinted(text string, m *feeModel, points map[wire.OutPoint]Coin) (*wire.MsgTx, []Coin, error) {
	raw, err := hex.DecodeString(text)
	if err != nil {
		return nil, nil, err
	}
	tx := &wire.MsgTx{}
	if err := tx.Deserialize(bytes.NewReader(raw)); err != nil {
		return nil, nil, fmt.Errorf("decode: %s", err)
	}
	if !bytes.Equal(refSerialize(tx), raw) {
		return nil, nil, fmt.Errorf("not the standard encoding: %s", text)
	}
	var spent []Coin
	seen := map[wire.OutPoint]bool{}
	for i, in := range tx.TxIn {
		coin, ok := points[in.PreviousOutPoint]
		if !ok || seen[in.PreviousOutPoint] {
			return nil, nil, fmt.Errorf("input %d spends %s", i, in.PreviousOutPoint)
		}
		seen[in.PreviousOutPoint] = true
		spent = append(spent, coin)
		if _, err := refVerifyInput(tx, i, coin.S, coin.V); err != nil {
			return nil, nil, fmt.Errorf("input %d: %s", i, err)
		}
	}
	if len(spent) != len(points) {
		return nil, nil, fmt.Errorf("%d inputs, want %d", len(spent), len(points))
	}
	var want, got []snapOut
	for _, o := range m.Outs {
		want = append(want, snapOut{Value: o.V, Script: string(o.S.Bytes())})
	}
	for _, o := range tx.TxOut {
		got = append(got, snapOut{Value: o.Value, Script: string(o.LockingScript)})
	}
	if fmt.Sprint(sortedOuts(want)) != fmt.Sprint(sortedOuts(got)) {
		return nil, nil, fmt.Errorf("outputs %v, want %v", got, want)
	}
	return tx, spent, nil
}

func init() {
	p := register("C24", "the tool printed the expected transactions", 700, 2450, genC24, checkC24)
	p.Setup = chainSetup
	p.Close = chainClose
}
