package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	// A single case that uses this much processor time and wall time does not terminate for any
	// practical purpose. Cases take milliseconds.
	hangWall = 60 * time.Second
	hangCPU  = 40 * time.Second
)

// ShardResult is what a shard process reports to the run process.
type ShardResult struct {
	Evaluations int             `json:"evaluations"`
	NonTrivial  int             `json:"nontrivial"`
	Classes     map[string]int  `json:"classes"`
	Samples     []string        `json:"samples"`
	Truncated   bool            `json:"truncated"`
	FailCase    json.RawMessage `json:"fail_case,omitempty"`
	FailErr     string          `json:"fail_err,omitempty"`
	HarnessErr  string          `json:"harness_err,omitempty"`
	Log         string          `json:"log,omitempty"`
}

type shard struct {
	prop     *Prop
	out      string
	deadline time.Time
	trace    string

	mu       sync.Mutex
	res      ShardResult
	distinct map[uint64]struct{}
	current  []byte
	started  time.Time
	startCPU time.Duration
	failing  bool
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (s *shard) eval(c interface{}) error {
	js := caseJSON(c)
	s.mu.Lock()
	s.current = js
	s.started = time.Now()
	s.startCPU = -1
	s.mu.Unlock()
	if s.trace != "" {
		if err := ioutil.WriteFile(s.trace, js, 0644); err != nil {
			panic(err)
		}
	}

	rec, err := evaluate(s.prop, c, js)

	s.mu.Lock()
	defer s.mu.Unlock()
	s.current = nil
	if err != nil {
		s.failing = true
		s.res.FailCase = js
		s.res.FailErr = err.Error()
		return err
	}
	if s.failing {
		return nil // shrinking, not part of the counted search
	}
	s.res.Evaluations++
	for _, class := range rec.classes {
		s.res.Classes[class]++
	}
	if rec.nontrivial {
		s.res.NonTrivial++
		h := hashBytes(js)
		if _, ok := s.distinct[h]; !ok {
			s.distinct[h] = struct{}{}
			n := len(s.distinct)
			if n == 1 || n == 10 || n == 100 {
				sample := string(js)
				if len(sample) > 600 {
					sample = sample[:600] + "..."
				}
				s.res.Samples = append(s.res.Samples, sample)
			}
		}
	}
	return nil
}

func (s *shard) watch() {
	for {
		time.Sleep(time.Second)
		s.mu.Lock()
		if s.current != nil {
			if s.startCPU < 0 {
				s.startCPU = cpuTime()
			}
			if time.Since(s.started) > hangWall && cpuTime()-s.startCPU > hangCPU {
				s.res.FailCase = s.current
				s.res.FailErr = fmt.Sprintf("no result after %s and %s of processor time",
					time.Since(s.started).Round(time.Second),
					(cpuTime() - s.startCPU).Round(time.Second))
				s.write()
				os.Exit(0)
			}
		}
		s.mu.Unlock()
	}
}

func (s *shard) write() {
	b, err := json.Marshal(&s.res)
	if err != nil {
		panic(err)
	}
	hashes := make([]byte, 0, 8*len(s.distinct))
	for h := range s.distinct {
		hashes = binary.LittleEndian.AppendUint64(hashes, h)
	}
	if err := ioutil.WriteFile(s.out+".hashes", hashes, 0644); err != nil {
		panic(err)
	}
	if err := ioutil.WriteFile(s.out+".tmp", b, 0644); err != nil {
		panic(err)
	}
	if err := os.Rename(s.out+".tmp", s.out); err != nil {
		panic(err)
	}
}

// shardMain runs a part of the search of one property in its own process.
func shardMain(args []string) int {
	testing.Init()
	id := flag.String("prop", "", "property")
	out := flag.String("out", "", "result file")
	seed := flag.Uint64("seed", 1, "seed")
	n := flag.Int("n", 100, "cases")
	wall := flag.Duration("wall", 10*time.Minute, "stop searching after this time")
	regress := flag.String("regress", "", "directory with cases to evaluate first")
	trace := flag.String("trace", "", "file that receives each case before it is evaluated")
	flag.CommandLine.Parse(args)

	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 2
	}
	runtime.GOMAXPROCS(2)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	flag.Set("rapid.checks", strconv.Itoa(*n))
	flag.Set("rapid.seed", strconv.FormatUint(nonZero(*seed), 10))

	s := &shard{
		prop:     p,
		out:      *out,
		deadline: time.Now().Add(*wall),
		trace:    *trace,
		distinct: make(map[uint64]struct{}),
	}
	s.res.Classes = make(map[string]int)

	if err := selfTest(); err != nil {
		s.res.HarnessErr = "self test: " + err.Error()
		s.write()
		return 0
	}
	if p.Close != nil {
		defer p.Close()
	}
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			s.res.HarnessErr = "setup: " + err.Error()
			s.write()
			return 0
		}
	}

	go s.watch()

	if *regress != "" {
		files, _ := filepath.Glob(filepath.Join(*regress, "*.json"))
		for _, f := range files {
			c, err := loadCase(p, f)
			if err != nil {
				s.res.HarnessErr = f + ": " + err.Error()
				s.write()
				return 0
			}
			if s.eval(c) != nil {
				s.write()
				return 0
			}
			s.res.Classes["regression case"]++
		}
	}

	t := &tb{}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(tbStop); !ok {
					panic(v)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			if time.Now().After(s.deadline) && !s.failing {
				s.res.Truncated = true
				return
			}
			c := p.Gen(rt)
			if err := s.eval(c); err != nil {
				rt.Fatalf("violation")
			}
		})
	}()

	s.mu.Lock()
	defer s.mu.Unlock()
	if t.failed && s.res.FailCase == nil {
		s.res.HarnessErr = "generator failed: " + t.log.String()
	}
	s.res.Log = t.log.String()
	s.write()
	return 0
}

func nonZero(seed uint64) uint64 {
	if seed == 0 {
		return 0x9e3779b97f4a7c15
	}
	return seed
}

// Replay is the content of a replay or regression file.
type Replay struct {
	Property string          `json:"property"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func loadCase(p *Prop, file string) (interface{}, error) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	if r.Property != p.ID {
		return nil, fmt.Errorf("case of property %s", r.Property)
	}
	return p.Decode(r.Case)
}

// replayMain evaluates the case of a replay file without the generator.
func replayMain(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: replay FILE")
		return 2
	}
	b, err := ioutil.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		return 2
	}
	if p.Close != nil {
		defer p.Close()
	}
	if p.Setup != nil {
		if err := p.Setup(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	c, err := p.Decode(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	go func() {
		_, err := evaluate(p, c, caseJSON(c))
		done <- err
	}()
	start, startCPU := time.Now(), cpuTime()
	for {
		select {
		case err := <-done:
			if err != nil {
				fmt.Printf("%s\nVIOLATION property=%s replay=%s\n", err, p.ID, args[0])
				return 1
			}
			fmt.Println("held")
			return 0
		case <-time.After(time.Second):
			if time.Since(start) > hangWall && cpuTime()-startCPU > hangCPU {
				fmt.Printf("no result\nVIOLATION property=%s replay=%s\n", p.ID, args[0])
				return 1
			}
		}
	}
}

// genMain prints generated cases, to look at the distribution.
func genMain(args []string) int {
	testing.Init()
	id := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	n := flag.Int("n", 5, "cases")
	flag.CommandLine.Parse(args)
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.checks", strconv.Itoa(*n))
	flag.Set("rapid.seed", strconv.FormatUint(nonZero(*seed), 10))
	p := props[*id]
	rapid.Check(&tb{}, func(rt *rapid.T) {
		fmt.Println(string(caseJSON(p.Gen(rt))))
	})
	return 0
}
