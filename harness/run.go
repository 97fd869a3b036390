package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// KnownFinding is a committed entry that excuses one specific failing case.
type KnownFinding struct {
	Property string
	What     string
	Case     json.RawMessage
}

// loadKnown reads the "known:" lines of the known findings file.
func loadKnown(file string) ([]KnownFinding, error) {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var result []KnownFinding
	for i, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		k := KnownFinding{}
		rest := strings.TrimPrefix(line, "known: property=")
		parts := strings.SplitN(rest, " case=", 2)
		if len(parts) != 2 {
			return nil, fmt.Errorf("line %d", i+1)
		}
		k.Property = parts[0]
		d := json.NewDecoder(strings.NewReader(parts[1]))
		if err := d.Decode(&k.Case); err != nil {
			return nil, fmt.Errorf("line %d: %s", i+1, err)
		}
		k.What = strings.TrimSpace(parts[1][d.InputOffset():])
		result = append(result, k)
	}
	return result, nil
}

type Coverage struct {
	Evaluations        int            `json:"evaluations"`
	DistinctNontrivial int            `json:"distinct_nontrivial"`
	Rule               string         `json:"rule"`
	Samples            []string       `json:"samples"`
	Classes            map[string]int `json:"classes"`
	Shards             int            `json:"shards"`
	CasesPerShard      int            `json:"cases_per_shard"`
	Truncated          bool           `json:"truncated"`
	KnownFindings      int            `json:"known_findings"`
}

type Evidence struct {
	Property    string   `json:"property"`
	Tier        string   `json:"tier"`
	Seed        int64    `json:"seed"`
	Level       string   `json:"level"`
	Coverage    Coverage `json:"coverage"`
	WallS       float64  `json:"wall_s"`
	Assumptions []string `json:"assumptions"`
	Violations  int      `json:"violations"`
}

func mix64(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func sameJSON(a, b []byte) bool {
	var x, y interface{}
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// runMain runs the whole check of one property: known cases, then the search in several processes.
func runMain(args []string) int {
	fs := flag.NewFlagSet("run", flag.ContinueOnError)
	id := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Int64("seed", 1, "seed")
	root := fs.String("root", "/verif", "verification directory")
	shards := fs.Int("shards", 8, "number of processes")
	scale := fs.Float64("scale", 1, "factor for the number of cases")
	if err := fs.Parse(args); err != nil {
		return 2
	}
	start := time.Now()

	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 2
	}

	n, wall := p.Quick, 8*time.Minute
	if *tier == "thorough" {
		n, wall = p.Thorough, 11*time.Minute
	}
	n = int(float64(n) * *scale)
	if n < 1 {
		n = 1
	}

	tmp, err := ioutil.TempDir("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	known, err := loadKnown(filepath.Join(*root, "KNOWN_FINDINGS.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}

	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	// Known findings are evaluated as they are, in their own process.
	knownCount := 0
	for i, k := range known {
		if k.Property != p.ID {
			continue
		}
		f := filepath.Join(tmp, fmt.Sprintf("known%d.json", i))
		js, _ := json.Marshal(&Replay{Property: p.ID, Case: k.Case})
		if err := ioutil.WriteFile(f, js, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		err := exec.Command(self, "replay", f).Run()
		if err == nil {
			continue
		}
		if exit, ok := err.(*exec.ExitError); ok && exit.ExitCode() == 1 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
			knownCount++
			continue
		}
		fmt.Fprintln(os.Stderr, "known finding:", err)
		return 2
	}

	results := make([]*ShardResult, *shards)
	errs := make([]error, *shards)
	outs := make([]string, *shards)
	var wg sync.WaitGroup
	for i := 0; i < *shards; i++ {
		outs[i] = filepath.Join(tmp, fmt.Sprintf("shard%d", i))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			args := []string{"shard", "-prop", p.ID, "-out", outs[i], "-n", fmt.Sprint(n),
				"-seed", fmt.Sprint(nonZero(mix64(uint64(*seed) ^ mix64(uint64(i)+1)))),
				"-wall", wall.String()}
			if i == 0 {
				args = append(args, "-regress", filepath.Join(*root, "regress", p.ID))
			}
			results[i], errs[i] = runShard(self, args, outs[i])
		}(i)
	}
	wg.Wait()

	cov := Coverage{
		Rule:          p.Rule,
		Classes:       map[string]int{},
		Shards:        *shards,
		CasesPerShard: n,
		KnownFindings: knownCount,
	}
	distinct := map[uint64]struct{}{}
	var best *ShardResult
	fail := false
	for i, res := range results {
		if errs[i] != nil {
			fmt.Fprintf(os.Stderr, "shard %d: %s\n", i, errs[i])
			fail = true
			continue
		}
		if res.HarnessErr != "" {
			fmt.Fprintf(os.Stderr, "shard %d: %s\n", i, res.HarnessErr)
			fail = true
			continue
		}
		cov.Evaluations += res.Evaluations
		cov.Truncated = cov.Truncated || res.Truncated
		for k, v := range res.Classes {
			cov.Classes[k] += v
		}
		if len(cov.Samples) < 6 {
			cov.Samples = append(cov.Samples, res.Samples...)
		}
		if b, err := ioutil.ReadFile(outs[i] + ".hashes"); err == nil {
			for len(b) >= 8 {
				distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
		if res.FailCase != nil {
			listed := false
			for _, k := range known {
				if k.Property == p.ID && sameJSON(k.Case, res.FailCase) {
					listed = true
				}
			}
			if listed {
				continue
			}
			if best == nil || len(res.FailCase) < len(best.FailCase) {
				best = res
			}
		}
	}
	cov.DistinctNontrivial = len(distinct)
	if len(cov.Samples) > 6 {
		cov.Samples = cov.Samples[:6]
	}

	ev := Evidence{
		Property:    p.ID,
		Tier:        *tier,
		Seed:        *seed,
		Level:       "exploration",
		Coverage:    cov,
		WallS:       time.Since(start).Seconds(),
		Assumptions: append([]string{}, p.Notes...),
	}
	if best != nil {
		ev.Violations = 1
	}
	os.MkdirAll(filepath.Join(*root, "evidence"), 0755)
	eb, _ := json.MarshalIndent(&ev, "", "  ")
	if err := ioutil.WriteFile(filepath.Join(*root, "evidence", p.ID+".json"), append(eb, '\n'),
		0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if best != nil {
		dir := filepath.Join(*root, "replays")
		os.MkdirAll(dir, 0755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, *tier, *seed))
		rb, _ := json.MarshalIndent(&Replay{
			Property: p.ID,
			Error:    best.FailErr,
			Case:     best.FailCase,
		}, "", "  ")
		if err := ioutil.WriteFile(file, append(rb, '\n'), 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Printf("%s\n", best.FailErr)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	}
	if fail {
		return 2
	}

	fmt.Printf("property %s held: %d cases, %d distinct non-trivial, %.1f s\n", p.ID,
		cov.Evaluations, cov.DistinctNontrivial, ev.WallS)
	var names []string
	for k := range cov.Classes {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		fmt.Printf("  %7d %s\n", cov.Classes[k], k)
	}
	return 0
}

func runShard(self string, args []string, out string) (*ShardResult, error) {
	res, stderr, err := runShardOnce(self, args, out)
	if err == nil || !strings.Contains(stderr, "goroutine stack exceeds") {
		return res, err
	}

	// The process died from unbounded recursion, which can't be recovered from. Run again and note
	// each case before it is evaluated, to name the case.
	trace := out + ".trace"
	_, stderr, err2 := runShardOnce(self, append(args, "-trace", trace), out)
	b, rerr := ioutil.ReadFile(trace)
	if err2 == nil || rerr != nil || !strings.Contains(stderr, "goroutine stack exceeds") {
		return res, err
	}
	return &ShardResult{FailCase: b, FailErr: "unbounded recursion"}, nil
}

func runShardOnce(self string, args []string, out string) (*ShardResult, string, error) {
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOTRACEBACK=single",
		fmt.Sprintf("GOMAXPROCS=%d", min(2, runtime.NumCPU())))
	var stderr strings.Builder
	cmd.Stderr = &stderr
	err := cmd.Run()
	text := stderr.String()
	if err != nil {
		if len(text) > 4000 {
			text = text[:4000]
		}
		return nil, text, fmt.Errorf("%s: %s", err, text)
	}
	b, err := ioutil.ReadFile(out)
	if err != nil {
		return nil, text, err
	}
	res := &ShardResult{}
	if err := json.Unmarshal(b, res); err != nil {
		return nil, text, err
	}
	return res, text, nil
}
