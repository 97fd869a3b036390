package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Prop is one property with its generator of cases and its oracle. A case is plain data that can be
// written as JSON, so a failing one can be replayed without the generator.
type Prop struct {
	ID       string
	Rule     string // when a case counts as non-trivial
	Quick    int    // cases per shard in the quick tier
	Thorough int    // cases per shard in the thorough tier
	Gen      func(t *rapid.T) interface{}
	Decode   func(b []byte) (interface{}, error)
	Check    func(c interface{}, r *Rec) error
	Setup    func() error // run once per process before any case
	Close    func()       // run at the end of a process
	Notes    []string     // assumptions reported with the evidence
}

var props = map[string]*Prop{}

func register[C any](id, rule string, quick, thorough int, gen func(t *rapid.T) C,
	check func(c C, r *Rec) error) *Prop {

	p := &Prop{
		ID:       id,
		Rule:     rule,
		Quick:    quick,
		Thorough: thorough,
		Gen:      func(t *rapid.T) interface{} { return gen(t) },
		Decode: func(b []byte) (interface{}, error) {
			var c C
			d := json.NewDecoder(bytes.NewReader(b))
			d.DisallowUnknownFields()
			if err := d.Decode(&c); err != nil {
				return nil, err
			}
			return c, nil
		},
		Check: func(c interface{}, r *Rec) error { return check(c.(C), r) },
	}
	props[id] = p
	return p
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Rec collects what one evaluation was about.
type Rec struct {
	nontrivial bool
	classes    []string
}

func (r *Rec) NonTrivial()       { r.nontrivial = true }
func (r *Rec) Class(name string) { r.classes = append(r.classes, name) }
func (r *Rec) If(ok bool, name string) {
	if ok {
		r.Class(name)
	}
}

func caseJSON(c interface{}) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic("harness: case is not JSON: " + err.Error())
	}
	return b
}

func hashBytes(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

// evaluate runs the oracle on one case. A panic is a violation. All random choices of the code under
// test are pinned to a function of the case.
func evaluate(p *Prop, c interface{}, js []byte) (rec Rec, err error) {
	rand.VerifPin(hashBytes(js))
	defer rand.VerifUnpin()
	defer func() {
		if v := recover(); v != nil {
			if text, ok := v.(string); ok && strings.HasPrefix(text, "harness: ") {
				// Not a statement about the code under test.
				fmt.Fprintln(os.Stderr, text)
				os.Exit(3)
			}
			err = fmt.Errorf("panic: %v\n%s", v, trimStack(string(debug.Stack())))
		}
	}()
	err = p.Check(c, &rec)
	return
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// tb implements rapid.TB outside of the testing package.
type tb struct {
	failed bool
	log    strings.Builder
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return "property" }
func (t *tb) Logf(format string, args ...any) {
	if t.log.Len() < 1<<16 {
		fmt.Fprintf(&t.log, format+"\n", args...)
	}
}
func (t *tb) Log(args ...any)                   { t.Logf("%s", fmt.Sprint(args...)) }
func (t *tb) Skipf(format string, args ...any)  { t.SkipNow() }
func (t *tb) Skip(args ...any)                  { t.SkipNow() }
func (t *tb) SkipNow()                          { panic(tbStop{}) }
func (t *tb) Errorf(format string, args ...any) { t.Logf(format, args...); t.failed = true }
func (t *tb) Error(args ...any)                 { t.Log(args...); t.failed = true }
func (t *tb) Fatalf(format string, args ...any) { t.Logf(format, args...); t.FailNow() }
func (t *tb) Fatal(args ...any)                 { t.Log(args...); t.FailNow() }
func (t *tb) FailNow()                          { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                             { t.failed = true }
func (t *tb) Failed() bool                      { return t.failed }
