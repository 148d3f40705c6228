// Package main is the runtime-monitoring harness for mewmew/typast. It is laid
// over the module tree (go build -overlay) so that it can import the module's
// internal packages, and runs one property per invocation.
//
// A supervisor process starts a worker process (itself) and turns a worker
// that dies (stack overflow, race report, fatal error) into a violation.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID string
	// Rule says in one sentence what makes an evaluation non-trivial.
	Rule string
	// Groups of cases; every group has its own case counter.
	Groups []Group
	// Assumptions printed in the evidence.
	Assumptions []string
}

// Group is a family of cases produced by one generator.
type Group struct {
	Name            string
	Quick, Thorough int
	Run             func(c *Case)
	// Serial groups run alone on one goroutine: they measure work.
	Serial bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Case is the context of one case.
type Case struct {
	*rand.Rand
	Prop  string
	Group string
	Index int
	Seed  uint64
	// Input describes the case: it is written to the replay file and is what
	// a known finding is matched against.
	Input string

	evals    int
	distinct map[uint64]bool
	cover    map[string]int
	sample   string
	replay   bool
}

// Eval counts oracle evaluations.
func (c *Case) Eval(n int) { c.evals += n }

// Distinct records a non-trivial observation.
func (c *Case) Distinct(parts ...any) {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	var x uint64
	for i := 0; i < 8; i++ {
		x = x<<8 | uint64(h[i])
	}
	c.distinct[x] = true
}

// Cover counts a named observation.
func (c *Case) Cover(name string) { c.cover[name]++ }

// CoverN counts a named observation n times.
func (c *Case) CoverN(name string, n int) {
	if n != 0 {
		c.cover[name] += n
	}
}

// Sample keeps an example for the evidence.
func (c *Case) Sample(s string) { c.sample = s }

type violation struct{ msg string }

type skipCase struct{ why string }

// Fail reports a violation of the property and ends the case.
func (c *Case) Fail(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Skip ends the case without a verdict.
func (c *Case) Skip(why string) { panic(skipCase{why}) }

type result struct {
	Key    string `json:"case"`
	Msg    string `json:"message"`
	Input  string `json:"input"`
	Known  string `json:"known,omitempty"`
	order  int
	Prop   string `json:"property"`
	Seed   uint64 `json:"seed"`
	Tier   string `json:"tier"`
	Replay string `json:"how_to_replay"`
}

type known struct {
	Property string `json:"property"`
	Input    string `json:"input"`
	What     string `json:"what"`
	Message  string `json:"message_contains"`
}

var (
	flagProp   = flag.String("prop", "", "property ID")
	flagWorker = flag.Bool("worker", false, "run as worker")
	flagTier   = flag.String("tier", "quick", "tier")
	flagSeed   = flag.Uint64("seed", 1, "seed")
	flagOnly   = flag.String("only", "", "run only the case group:index")
	flagOut    = flag.String("out", "", "result file of the worker")
	flagKnown  = flag.String("known", "", "known findings file")
	flagVerif  = flag.String("verif", "/verif", "verif directory")
	flagSlots  = flag.String("slots", "", "in-flight case file")
)

var hangLimit = 120 * time.Second

// violLimit is the number of violations after which a run ends.
var violLimit = 200

const heapLimit = 8 << 30

func main() {
	if os.Getenv("VERIF_CHILD") == "exhaust" {
		os.Exit(exhaustIDs())
	}
	if os.Getenv("VERIF_CHILD") == "cold" {
		os.Exit(coldChild())
	}
	flag.Parse()
	// For mutation runs, which only want to know whether there is a violation.
	if os.Getenv("VERIF_FIRST") != "" {
		violLimit, hangLimit = 1, 15*time.Second
	}
	p, ok := props[*flagProp]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *flagProp)
		os.Exit(2)
	}
	if *flagWorker {
		os.Exit(worker(p))
	}
	os.Exit(supervise(p))
}

func loadKnown() []known {
	var out []known
	f, err := os.Open(*flagKnown)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 16<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(line), &k) == nil && k.Property != "" {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(ks []known, r *result) string {
	for _, k := range ks {
		if k.Property == r.Prop && k.Input == r.Input && (k.Message == "" || strings.Contains(r.Msg, k.Message)) {
			return k.What
		}
	}
	return ""
}

// workerOut is what the worker writes when it completes.
type workerOut struct {
	Evals      int            `json:"evals"`
	Distinct   int            `json:"distinct"`
	Cases      int            `json:"cases"`
	Skipped    map[string]int `json:"skipped"`
	Cover      map[string]int `json:"cover"`
	Samples    []string       `json:"samples"`
	Violations []result       `json:"violations"`
}

type job struct {
	g     *Group
	index int
	order int
}

func runCase(p *Prop, g *Group, index int) (c *Case, res *result, skipped string) {
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d/%d", p.ID, g.Name, index, *flagSeed)))
	var s1, s2 uint64
	for i := 0; i < 8; i++ {
		s1 = s1<<8 | uint64(h[i])
		s2 = s2<<8 | uint64(h[8+i])
	}
	c = &Case{
		Rand: rand.New(rand.NewPCG(s1, s2)), Prop: p.ID, Group: g.Name, Index: index, Seed: *flagSeed,
		distinct: map[uint64]bool{}, cover: map[string]int{},
	}
	mk := func(msg string) *result {
		return &result{
			Key: fmt.Sprintf("%s:%d", g.Name, index), Msg: msg, Input: c.Input, Prop: p.ID, Seed: *flagSeed, Tier: *flagTier,
			Replay: fmt.Sprintf("/verif/check %s --seed %d --only %s:%d", p.ID, *flagSeed, g.Name, index),
		}
	}
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		switch e := e.(type) {
		case violation:
			res = mk(e.msg)
		case skipCase:
			skipped = e.why
		default:
			stack := string(debug.Stack())
			if strings.Contains(stack, "stdx.MathClassFromChar") {
				skipped = "math class table is a stand-in"
				return
			}
			res = mk(fmt.Sprintf("panic: %v\n%s", e, stack))
		}
	}()
	g.Run(c)
	return
}

func worker(p *Prop) int {
	debug.SetMaxStack(512 << 20)
	var jobs []job
	for i := range p.Groups {
		g := &p.Groups[i]
		n := g.Quick
		if *flagTier == "thorough" {
			n = g.Thorough
		}
		for k := 0; k < n; k++ {
			jobs = append(jobs, job{g: g, index: k, order: len(jobs)})
		}
	}
	if *flagOnly != "" {
		name, idx, _ := strings.Cut(*flagOnly, ":")
		k, _ := strconv.Atoi(idx)
		jobs = nil
		for i := range p.Groups {
			if p.Groups[i].Name == name {
				jobs = append(jobs, job{g: &p.Groups[i], index: k})
			}
		}
	}
	// Groups that measure come last and run on one goroutine.
	sort.SliceStable(jobs, func(i, j int) bool { return !jobs[i].g.Serial && jobs[j].g.Serial })
	parallel := 0
	for parallel < len(jobs) && !jobs[parallel].g.Serial {
		parallel++
	}
	nw := runtime.NumCPU()
	if *flagOnly != "" {
		nw = 1
	}
	nw = min(nw, max(1, len(jobs)))
	var slots *os.File
	if *flagSlots != "" {
		slots, _ = os.OpenFile(*flagSlots, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	}
	const slotSize = 96
	started := make([]atomic.Int64, nw)
	current := make([]atomic.Int64, nw)
	finish := make(chan struct{})
	emit := func(out workerOut) {
		b, _ := json.Marshal(out)
		os.WriteFile(*flagOut, b, 0o644)
	}
	// Watchdog: a case that never ends or eats all memory never delivers the
	// promised result.
	go func() {
		for {
			select {
			case <-finish:
				return
			case <-time.After(500 * time.Millisecond):
			}
			now := time.Now().UnixNano()
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			for w := range started {
				st := started[w].Load()
				if st == 0 {
					continue
				}
				hang := time.Duration(now-st) > hangLimit
				if hang || (ms.HeapAlloc > heapLimit && nw == 1) {
					j := jobs[current[w].Load()]
					why := fmt.Sprintf("no result after %.0f s (cases take milliseconds)", hangLimit.Seconds())
					if !hang {
						why = "memory use without bound"
					}
					emit(workerOut{Violations: []result{{
						Key: fmt.Sprintf("%s:%d", j.g.Name, j.index), Msg: why, Prop: p.ID, Seed: *flagSeed, Tier: *flagTier,
						Replay: fmt.Sprintf("/verif/check %s --seed %d --only %s:%d", p.ID, *flagSeed, j.g.Name, j.index),
					}}})
					os.Exit(0)
				}
			}
			if ms.HeapAlloc > heapLimit && nw > 1 {
				os.Exit(9) // the supervisor finds the culprit among the in-flight cases
			}
		}
	}()

	var mu sync.Mutex
	out := workerOut{Skipped: map[string]int{}, Cover: map[string]int{}}
	distinct := map[uint64]bool{}
	var viols []result
	var next atomic.Int64
	var stop atomic.Bool
	var wg sync.WaitGroup
	run := func(w, limit int) {
		for !stop.Load() {
			k := int(next.Add(1)) - 1
			if k >= limit {
				return
			}
			j := jobs[k]
			current[w].Store(int64(k))
			started[w].Store(time.Now().UnixNano())
			if slots != nil {
				b := bytes.Repeat([]byte{' '}, slotSize)
				copy(b, fmt.Sprintf("%s:%d", j.g.Name, j.index))
				b[slotSize-1] = '\n'
				slots.WriteAt(b, int64(w*slotSize))
			}
			c, res, skipped := runCase(p, j.g, j.index)
			started[w].Store(0)
			mu.Lock()
			out.Cases++
			out.Evals += c.evals
			for d := range c.distinct {
				distinct[d] = true
			}
			for n, v := range c.cover {
				out.Cover[n] += v
			}
			if skipped != "" {
				out.Skipped[skipped]++
			}
			if c.sample != "" && len(out.Samples) < 6 && j.index%7 < 2 {
				out.Samples = append(out.Samples, c.sample)
			}
			if res != nil {
				res.order = j.order
				viols = append(viols, *res)
				if len(viols) >= violLimit {
					stop.Store(true)
				}
			}
			mu.Unlock()
		}
	}
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			run(w, parallel)
		}()
	}
	wg.Wait()
	next.Store(int64(parallel))
	run(0, len(jobs))
	close(finish)
	sort.Slice(viols, func(i, j int) bool { return viols[i].order < viols[j].order })
	out.Violations = viols
	out.Distinct = len(distinct)
	emit(out)
	return 0
}

func supervise(p *Prop) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	run := func(only string, n int) (workerOut, string, error) {
		outFile := filepath.Join(tmp, fmt.Sprintf("out%d.json", n))
		args := []string{"-worker", "-prop", p.ID, "-tier", *flagTier, "-seed", fmt.Sprint(*flagSeed), "-out", outFile,
			"-slots", filepath.Join(tmp, fmt.Sprintf("slots%d", n))}
		if only != "" {
			args = append(args, "-only", only)
		}
		self, _ := os.Executable()
		cmd := exec.Command(self, args...)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		cmd.Stdout = &stderr
		err := cmd.Run()
		var out workerOut
		b, rerr := os.ReadFile(outFile)
		if rerr == nil {
			rerr = json.Unmarshal(b, &out)
		}
		if err == nil && rerr != nil {
			err = rerr
		}
		return out, stderr.String(), err
	}
	out, stderr, werr := run(*flagOnly, 0)
	if werr != nil {
		// The worker died. Find the case that kills it.
		slots, _ := os.ReadFile(filepath.Join(tmp, "slots0"))
		var keys []string
		for _, l := range strings.Split(string(slots), "\n") {
			if l = strings.Trim(l, " \x00"); l != "" {
				keys = append(keys, l)
			}
		}
		found := false
		for i, key := range keys {
			o2, s2, e2 := run(key, i+1)
			if e2 != nil {
				out = workerOut{Violations: []result{{Key: key, Msg: "process died: " + e2.Error() + "\n" + tail(s2), Prop: p.ID, Seed: *flagSeed, Tier: *flagTier}}}
				found = true
				break
			} else if len(o2.Violations) > 0 {
				out = o2
				found = true
				break
			}
		}
		if !found {
			out.Violations = append(out.Violations, result{Key: strings.Join(keys, ","), Msg: "process died: " + werr.Error() + "\n" + tail(stderr), Prop: p.ID, Seed: *flagSeed, Tier: *flagTier})
		}
	}
	ks := loadKnown()
	code := 0
	shown := map[string]bool{}
	nviol := 0
	for i := range out.Violations {
		v := &out.Violations[i]
		if what := matchKnown(ks, v); what != "" {
			if !shown[what] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
				shown[what] = true
			}
			continue
		}
		nviol++
		if code == 0 {
			dir := filepath.Join(*flagVerif, "replays")
			os.MkdirAll(dir, 0o755)
			h := sha256.Sum256([]byte(v.Key + v.Input + v.Msg))
			path := filepath.Join(dir, p.ID+"-"+hex.EncodeToString(h[:6])+".json")
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(path, b, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Printf("  case %s: %s\n", v.Key, firstLines(v.Msg, 40))
			if v.Input != "" {
				fmt.Printf("  input: %s\n", firstLines(v.Input, 20))
			}
		} else if nviol <= 5 {
			fmt.Printf("  also %s: %s\n", v.Key, firstLines(v.Msg, 4))
		}
		code = 1
	}
	if code == 0 && *flagOnly == "" && out.Evals == 0 {
		fmt.Println("the monitors observed nothing")
		return 2
	}
	if *flagOnly == "" {
		writeEvidence(p, out, nviol, time.Since(start))
	}
	fmt.Printf("%s: %d cases, %d evaluations, %d distinct, %d violations, %.1fs\n", p.ID, out.Cases, out.Evals, out.Distinct, nviol, time.Since(start).Seconds())
	if os.Getenv("VERIF_VERBOSE") != "" {
		keys := make([]string, 0)
		for k := range out.Cover {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("    %-40s %d\n", k, out.Cover[k])
		}
		fmt.Println("    skipped:", out.Skipped)
	}
	return code
}

func tail(s string) string {
	if len(s) > 6000 {
		return s[:3000] + "\n...\n" + s[len(s)-3000:]
	}
	return s
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func writeEvidence(p *Prop, out workerOut, nviol int, wall time.Duration) {
	samples := out.Samples
	if len(samples) == 0 {
		samples = []string{"(none)"}
	}
	for i, s := range samples {
		if len(s) > 400 {
			samples[i] = s[:400]
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": *flagTier, "seed": *flagSeed, "level": "exploration",
		"wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": append([]string{
			"input text is valid UTF-8",
			"math-mode cases that need the missing mathclass tables are skipped without a verdict",
		}, p.Assumptions...),
		"coverage": map[string]any{
			"evaluations": out.Evals, "distinct_nontrivial": out.Distinct, "rule": p.Rule, "samples": samples,
			"cases": out.Cases, "observed": out.Cover, "skipped": out.Skipped,
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*flagVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}
