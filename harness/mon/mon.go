package mon

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Group is a family of cases that share a workload and an oracle.
type Group struct {
	Name string
	// Number of cases per tier.
	Quick, Thorough int
	Run             func(c *C)
	// Fixed keeps the numbers as they are whatever the scale of the check.
	Fixed bool
}

// Check is everything that decides one property.
type Check struct {
	ID          string
	Rule        string
	Assumptions []string
	Groups      []Group
	// Need lists event kinds that must have been observed at least that often,
	// or the run is inconclusive.
	Need map[string]int64
	// Scale multiplies the number of cases of every group that is not fixed.
	Scale int
	// Serial runs all the cases in one process (used when the cases are
	// themselves concurrent).
	Serial bool
	// Level written to the evidence file (default exploration).
	Level string
	// Exhaustive: names of finite spaces this check enumerates completely.
	Exhaustive []string
}

// C is one case: a deterministic source of choices and the sink of everything
// the monitors observe.
type C struct {
	R     *Rng
	Tier  string
	Group string
	Index int
	Seed  uint64

	w    *worker
	desc string
}

type failure struct{ sig, msg string }

// Fail records a violation and ends the case. sig names the call site or
// history shape that fails, for the known-findings file.
func (c *C) Fail(sig, format string, args ...any) {
	panic(failure{sig, fmt.Sprintf(format, args...)})
}

// Ev counts n observed events of a kind.
func (c *C) Ev(kind string, n int) { c.w.ev(kind, int64(n)) }

// Eval counts one decision of an oracle.
func (c *C) Eval(n int) { c.w.ev("oracle_decisions", int64(n)) }

// Distinct notes a distinct non-trivial case, execution or state.
func (c *C) Distinct(format string, args ...any) {
	c.w.distinct(fmt.Sprintf(format, args...))
}

// Desc describes the case, for samples and replay files.
func (c *C) Desc(format string, args ...any) { c.desc = fmt.Sprintf(format, args...) }

func (c *C) Note(format string, args ...any) { c.desc += "; " + fmt.Sprintf(format, args...) }

func (c *C) Quick() bool { return c.Tier != "thorough" }

// NoPanic runs f and reports a panic of the code under test as a violation.
func (c *C) NoPanic(sig string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if fl, ok := r.(failure); ok {
				panic(fl)
			}
			c.Fail(sig, "panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
}

// Sub is a case within the case: its own choices and its own sink, so that
// goroutines do not order each other by reporting. Absorb takes what it saw.
func (c *C) Sub(seed uint64) *C {
	d := *c
	d.R, d.Seed, d.desc, d.w = NewRng(seed), seed, "", newWorker()
	return &d
}

func (c *C) Absorb(d *C) {
	for k, n := range d.w.events {
		c.w.ev(k, n)
	}
	c.w.mu.Lock()
	for h := range d.w.dist {
		c.w.dist[h] = struct{}{}
	}
	c.w.mu.Unlock()
}

// Try runs f and returns what it would have reported.
func (c *C) Try(f func()) (sig, msg string, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			failed = true
			if fl, ok := r.(failure); ok {
				sig, msg = fl.sig, fl.msg
				return
			}
			sig, msg = "panic", fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
	return
}

type worker struct {
	mu      sync.Mutex
	events  map[string]int64
	dist    map[uint64]struct{}
	samples []string
	viol    []Violation
	cases   int64
}

func (w *worker) ev(kind string, n int64) {
	w.mu.Lock()
	w.events[kind] += n
	w.mu.Unlock()
}

func (w *worker) distinct(k string) {
	h := Hash(k)
	w.mu.Lock()
	w.dist[h] = struct{}{}
	w.mu.Unlock()
}

type Violation struct {
	Property string `json:"property"`
	Group    string `json:"group"`
	Index    int    `json:"index"`
	Seed     int64  `json:"verif_seed"`
	Tier     string `json:"tier"`
	Sig      string `json:"sig"`
	Msg      string `json:"what"`
	Case     string `json:"case"`
}

type result struct {
	Events  map[string]int64 `json:"events"`
	Dist    []uint64         `json:"dist"`
	Samples []string         `json:"samples"`
	Viol    []Violation      `json:"viol"`
	Cases   int64            `json:"cases"`
}

const maxViolPerWorker = 20

func (w *worker) runCase(chk *Check, g *Group, idx int, seed int64, tier string) {
	cs := Hash(strconv.FormatInt(seed, 10), chk.ID, g.Name, strconv.Itoa(idx))
	c := &C{R: NewRng(cs), Tier: tier, Group: g.Name, Index: idx, Seed: cs, w: w}
	rand.Seed(int64(cs >> 1)) //nolint — the code under test draws from the global source
	defer func() {
		r := recover()
		w.mu.Lock()
		defer w.mu.Unlock()
		w.cases++
		if idx < 2 && c.desc != "" && len(c.desc) < 4000 {
			w.samples = append(w.samples, fmt.Sprintf("%s/%d: %s", g.Name, idx, c.desc))
		}
		if r == nil {
			return
		}
		v := Violation{Property: chk.ID, Group: g.Name, Index: idx, Seed: seed, Tier: tier, Case: c.desc}
		if f, ok := r.(failure); ok {
			v.Sig, v.Msg = f.sig, f.msg
		} else {
			v.Sig = "panic"
			v.Msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
		if len(w.viol) < maxViolPerWorker || v.Sig != w.viol[len(w.viol)-1].Sig {
			w.viol = append(w.viol, v)
		}
	}()
	g.Run(c)
}

type finding struct {
	Kind     string `json:"kind"` // "known" or "fixed"
	Property string `json:"property"`
	Group    string `json:"group"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
}

func loadFindings(verif string) ([]finding, error) {
	f, err := os.Open(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" {
			continue
		}
		var x finding
		if err := json.Unmarshal([]byte(line), &x); err != nil {
			return nil, err
		}
		out = append(out, x)
	}
	return out, sc.Err()
}

// caseTimeout bounds the progress of one case. Cases take milliseconds to a few
// seconds; one that runs this long is stuck in the code under test.
const caseTimeout = 240 * time.Second

// Main runs a check. Parent mode spawns one process per shard and merges what
// they observed; worker mode runs the shard's cases.
func Main(chk Check) {
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	verif := flag.String("verif", "/verif", "the /verif folder")
	shard := flag.Int("shard", -1, "worker: shard number")
	nshards := flag.Int("nshards", 0, "number of shards")
	only := flag.String("case", "", "replay one case: group/index")
	onlyGroup := flag.String("group", "", "run one group")
	flag.BoolVar(&failfast, "failfast", false, "stop a shard at its first violation that is no recorded finding (for trying changes)")
	flag.Parse()
	seed, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad VERIF_SEED:", err)
		os.Exit(2)
	}
	if *tier != "quick" && *tier != "thorough" {
		fmt.Fprintln(os.Stderr, "bad tier", *tier)
		os.Exit(2)
	}
	if *only != "" {
		os.Exit(replay(&chk, *only, seed, *tier))
	}
	if *shard >= 0 {
		work(&chk, *verif, *shard, *nshards, seed, *tier, *onlyGroup)
		return
	}
	os.Exit(parent(&chk, *verif, *nshards, seed, *tier, *onlyGroup))
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func newWorker() *worker {
	return &worker{events: map[string]int64{}, dist: map[uint64]struct{}{}}
}

func replay(chk *Check, only string, seed int64, tier string) int {
	i := strings.LastIndexByte(only, '/')
	idx, err := strconv.Atoi(only[i+1:])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w := newWorker()
	for gi := range chk.Groups {
		if chk.Groups[gi].Name == only[:i] {
			w.runCase(chk, &chk.Groups[gi], idx, seed, tier)
			for _, v := range w.viol {
				fmt.Printf("%s %s/%d\nsig: %s\ncase: %s\n%s\n", chk.ID, v.Group, v.Index, v.Sig, v.Case, v.Msg)
			}
			if len(w.viol) > 0 {
				return 1
			}
			fmt.Println("case holds;", w.events)
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such group", only)
	return 2
}

var failfast bool

// The quick tier takes a minute at most. On a machine or a change that is much
// slower it stops after quickBudget with what it has seen, and a shard that has
// something to report does so after quickViolated.
const (
	quickBudget   = 540 * time.Second
	quickViolated = 60 * time.Second
)

// caseMemory bounds the memory of a shard. Cases need megabytes.
const caseMemory = 2500 << 20

func work(chk *Check, verif string, shard, nshards int, seed int64, tier, onlyGroup string) {
	w := newWorker()
	known := map[string]bool{}
	fs, _ := loadFindings(verif)
	for _, f := range fs {
		known[f.Property+f.Group] = known[f.Property+f.Group] || f.Kind == "known"
	}
	var mu sync.Mutex
	cur, started := "", time.Now()
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			var ms runtime.MemStats
			if runtime.ReadMemStats(&ms); ms.HeapAlloc > caseMemory {
				mu.Lock()
				fmt.Fprintf(os.Stderr, "MEMORY %d bytes in case %s\n", ms.HeapAlloc, cur)
				os.Exit(71)
			}
			mu.Lock()
			late := time.Since(started) > caseTimeout
			name := cur
			mu.Unlock()
			if late {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				fmt.Fprintf(os.Stderr, "STUCK case %s\n%s\n", name, buf)
				os.Exit(70)
			}
		}
	}()
	n, news, begin := 0, 0, time.Now()
groups:
	for gi := range chk.Groups {
		g := &chk.Groups[gi]
		if onlyGroup != "" && g.Name != onlyGroup {
			continue
		}
		count := g.Quick
		if tier == "thorough" {
			count = g.Thorough
		}
		if chk.Scale > 1 && !g.Fixed && g.Quick != g.Thorough && os.Getenv("VERIF_UNSCALED") == "" {
			count *= chk.Scale
		}
		for i := 0; i < count; i++ {
			n++
			if n%nshards != shard {
				continue
			}
			mu.Lock()
			cur, started = g.Name+"/"+strconv.Itoa(i), time.Now()
			mu.Unlock()
			// tells the parent which case was running if this process dies
			fmt.Fprintf(os.Stderr, "CASE %s\n", cur)
			nv := len(w.viol)
			w.runCase(chk, g, i, seed, tier)
			if len(w.viol) > nv && !known[chk.ID+g.Name] {
				news++
			}
			// the verdict stands: a change that breaks much or makes everything
			// slow does not need all the cases
			if news > 0 && (failfast || news >= 25 || time.Since(begin) > quickViolated) {
				break groups
			}
			if tier != "thorough" && time.Since(begin) > quickBudget {
				w.events["shards_out_of_time"]++
				break groups
			}
		}
	}
	res := result{Events: w.events, Samples: w.samples, Viol: w.viol, Cases: w.cases}
	for h := range w.dist {
		res.Dist = append(res.Dist, h)
	}
	out := os.NewFile(3, "result")
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if _, err := out.Write(b); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out.Close()
}

// tail keeps the end of a stream and the last CASE line.
type tail struct {
	mu   sync.Mutex
	buf  []byte
	last string
}

func (t *tail) feed(line string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if strings.HasPrefix(line, "CASE ") {
		t.last = strings.TrimSpace(line[5:])
		return
	}
	if len(t.buf) < 1<<16 {
		t.buf = append(t.buf, line...)
	}
}

func parent(chk *Check, verif string, nshards int, seed int64, tier, onlyGroup string) int {
	start := time.Now()
	if nshards <= 0 {
		nshards = runtime.NumCPU()
		if nshards > 8 {
			nshards = 8
		}
		if nshards < 2 {
			nshards = 2
		}
	}
	if chk.Serial {
		nshards = 1
	}
	findings, err := loadFindings(verif)
	if err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		return 2
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	scratch, err := os.MkdirTemp("", "verif-"+chk.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)

	merged := result{Events: map[string]int64{}}
	dist := map[uint64]struct{}{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	broken := []string{}
	for s := 0; s < nshards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			fail := func(format string, args ...any) {
				mu.Lock()
				broken = append(broken, fmt.Sprintf("shard %d: ", s)+fmt.Sprintf(format, args...))
				mu.Unlock()
			}
			pr, pw, err := os.Pipe()
			if err != nil {
				fail("%v", err)
				return
			}
			cmd := exec.Command(self, "-tier", tier, "-verif", verif, "-shard", strconv.Itoa(s), "-nshards", strconv.Itoa(nshards), "-group", onlyGroup, "-failfast="+strconv.FormatBool(failfast))
			cmd.Env = append(os.Environ(), "VERIF_SEED="+strconv.FormatInt(seed, 10), "TMPDIR="+scratch,
				"GOMEMLIMIT=3GiB", "GORACE=halt_on_error=1 exitcode=66 history_size=3")
			if !chk.Serial {
				cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
			}
			cmd.ExtraFiles = []*os.File{pw}
			se, err := cmd.StderrPipe()
			if err != nil {
				fail("%v", err)
				return
			}
			if err := cmd.Start(); err != nil {
				pw.Close()
				fail("%v", err)
				return
			}
			pw.Close()
			var t tail
			done := make(chan struct{})
			go func() {
				br := bufio.NewReaderSize(se, 1<<16)
				for {
					l, err := br.ReadString('\n')
					if l != "" {
						t.feed(l)
					}
					if err != nil {
						close(done)
						return
					}
				}
			}()
			var buf bytes.Buffer
			buf.ReadFrom(pr)
			pr.Close()
			<-done
			werr := cmd.Wait()
			var r result
			if werr == nil {
				if err := json.Unmarshal(buf.Bytes(), &r); err != nil {
					fail("bad result: %v", err)
					return
				}
			} else {
				// the process died: a fatal error, a race report or a stuck case
				sig := "fatal"
				if ee, ok := werr.(*exec.ExitError); ok {
					switch ee.ExitCode() {
					case 66:
						sig = "data-race"
					case 70:
						sig = "stuck"
					case 71:
						sig = "memory"
					case 3, -1:
						// -1: killed by a signal (out of memory): no verdict
						fail("%v\n%s", werr, t.buf)
						return
					}
				}
				g, idx := t.last, 0
				if i := strings.LastIndexByte(g, '/'); i >= 0 {
					idx, _ = strconv.Atoi(g[i+1:])
					g = g[:i]
				}
				if g == "" {
					fail("%v\n%s", werr, t.buf)
					return
				}
				r.Viol = []Violation{{Property: chk.ID, Group: g, Index: idx, Seed: seed, Tier: tier, Sig: sig, Msg: string(t.buf)}}
			}
			mu.Lock()
			defer mu.Unlock()
			for k, v := range r.Events {
				merged.Events[k] += v
			}
			for _, h := range r.Dist {
				dist[h] = struct{}{}
			}
			merged.Samples = append(merged.Samples, r.Samples...)
			merged.Viol = append(merged.Viol, r.Viol...)
			merged.Cases += r.Cases
		}(s)
	}
	wg.Wait()

	sort.Strings(merged.Samples)
	sort.Slice(merged.Viol, func(i, j int) bool {
		a, b := merged.Viol[i], merged.Viol[j]
		if a.Group != b.Group {
			return a.Group < b.Group
		}
		return a.Index < b.Index
	})
	var unknown []Violation
	knownSeen := map[string]int{}
	for _, v := range merged.Viol {
		k := ""
		for _, f := range findings {
			if f.Kind == "known" && f.Property == chk.ID && f.Group == v.Group && f.Sig == v.Sig {
				k = f.What
			}
		}
		if k == "" {
			unknown = append(unknown, v)
		} else {
			knownSeen[k]++
		}
	}

	level := chk.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]any{
		"evaluations":         merged.Cases,
		"distinct_nontrivial": len(dist),
		"rule":                chk.Rule,
		"samples":             clip(merged.Samples, 12),
		"observed_events":     merged.Events,
		"shards":              nshards,
	}
	if len(chk.Exhaustive) > 0 {
		cov["enumerated_completely"] = chk.Exhaustive
	}
	if len(knownSeen) > 0 {
		cov["known_findings_reproduced"] = knownSeen
	}
	if chk.Assumptions == nil {
		chk.Assumptions = []string{}
	}
	ev := map[string]any{
		"property":    chk.ID,
		"tier":        tier,
		"seed":        seed,
		"level":       level,
		"coverage":    cov,
		"assumptions": chk.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(unknown),
	}
	evDir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(evDir, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, chk.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	keys := make([]string, 0, len(knownSeen))
	for k := range knownSeen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", chk.ID, k)
	}

	if len(unknown) > 0 {
		dir := filepath.Join(evDir, "replay")
		os.MkdirAll(dir, 0o755)
		for i, v := range unknown {
			if i >= 5 {
				fmt.Printf("... and %d more\n", len(unknown)-i)
				break
			}
			p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", chk.ID, strings.ReplaceAll(v.Group, "/", "_"), v.Index))
			rec := map[string]any{"violation": v,
				"replay_cmd": fmt.Sprintf("cd /verif && VERIF_SEED=%d ./check.sh %s %s -case %s/%d", v.Seed, chk.ID, v.Tier, v.Group, v.Index)}
			b, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o644)
			msg := v.Msg
			if len(msg) > 1500 {
				msg = msg[:1500] + " ..."
			}
			fmt.Printf("%s/%d [%s] %s\n  case: %s\n", v.Group, v.Index, v.Sig, msg, clipStr(v.Case, 600))
			fmt.Printf("VIOLATION property=%s replay=%s\n", chk.ID, p)
		}
		return 1
	}
	if len(broken) > 0 {
		for _, b := range broken {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE", b)
		}
		return 3
	}
	if onlyGroup == "" {
		for k, n := range chk.Need {
			if merged.Events[k] < n {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE only %d events of kind %s, want %d\n", merged.Events[k], k, n)
				return 3
			}
		}
	}
	fmt.Printf("OK property=%s tier=%s cases=%d distinct=%d events=%v wall=%.1fs\n", chk.ID, tier, merged.Cases, len(dist), merged.Events, time.Since(start).Seconds())
	return 0
}

func clip(s []string, n int) []string {
	if len(s) == 0 {
		return []string{}
	}
	if len(s) <= n {
		return s
	}
	// spread over the groups
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, s[i*len(s)/n])
	}
	return out
}

func clipStr(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}
