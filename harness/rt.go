package main

// The run time of every check: cases, counters, journal, parent/worker, evidence, verdicts.

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Section is a family of generated cases of one property. Case i is fully determined by
// (seed, property, section, i).
type Section struct {
	Name     string
	Quick    int // number of cases
	Thorough int
	Solo     bool     // all cases run in one process (shard 0)
	Probe    bool     // fixed cases whose failures may be listed as known findings
	Need     []string // events that must have been observed, else the run is inconclusive
	Fn       func(c *C)
}

type Property struct {
	ID          string
	Level       string
	Rule        string
	Race        bool
	Assumptions []string
	Sections    []Section
	Shards      int
}

var properties = map[string]*Property{}

func register(p *Property) {
	if p.Level == "" {
		p.Level = "exploration"
	}
	properties[p.ID] = p
}

// Violation is one monitor report.
type Violation struct {
	Property string `json:"property"`
	Section  string `json:"section"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Key      string `json:"key"`
	Msg      string `json:"msg"`
	Probe    bool   `json:"probe,omitempty"`
}

// C is one case.
type C struct {
	*rand.Rand
	w       *worker
	Prop    *Property
	Section *Section
	Index   int
	sig     []string
}

type stopCase struct{}

type worker struct {
	seed     int64
	tier     string
	thorough bool
	scratch  string
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []string
	viol     []Violation
	cases    int64
	verbose  bool
	cur      atomic.Value // string
	curStart atomic.Int64
	slowest  time.Duration
	slowCase string
	mu       sync.Mutex
}

// Fail reports a violation and ends the case.
func (c *C) Fail(key, format string, args ...any) {
	c.Report(key, format, args...)
	panic(stopCase{})
}

// Report reports a violation and goes on.
func (c *C) Report(key, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "...(cut)"
	}
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.w.viol = append(c.w.viol, Violation{c.Prop.ID, c.Section.Name, c.Index, c.w.seed, c.w.tier, key, msg, c.Section.Probe})
	if c.w.verbose {
		fmt.Fprintf(os.Stderr, "REPORT %s: %s\n", key, msg)
	}
}

// Count counts observed events.
func (c *C) Count(event string, n int) {
	c.w.mu.Lock()
	c.w.counts[event] += int64(n)
	c.w.mu.Unlock()
}

// Distinct records a non-trivial observation, by content.
func (c *C) Distinct(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0})
	}
	c.w.mu.Lock()
	c.w.distinct[h.Sum64()] = struct{}{}
	few := len(c.w.samples) < 2
	c.w.mu.Unlock()
	if few && strings.TrimSpace(strings.Join(parts, "")) != "" {
		c.Sample("%s", strings.Join(parts, " | "))
	}
}

// Sample keeps a few cases in writing.
func (c *C) Sample(format string, args ...any) {
	c.w.mu.Lock()
	if len(c.w.samples) < 3 || (len(c.w.samples) < 12 && c.Index%17 == 0) {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.w.samples = append(c.w.samples, c.Section.Name+"#"+strconv.Itoa(c.Index)+": "+s)
	}
	c.w.mu.Unlock()
	if c.w.verbose {
		fmt.Fprintf(os.Stderr, "SAMPLE "+format+"\n", args...)
	}
}

func (c *C) Logf(format string, args ...any) {
	if c.w.verbose {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

// Thorough tells the tier.
func (c *C) Thorough() bool { return c.w.thorough }

// Chance is true with probability num/den.
func (c *C) Chance(num, den int) bool { return c.Intn(den) < num }

// Dir makes a scratch directory for the case; the caller removes it.
func (c *C) Dir() string {
	d, err := os.MkdirTemp(c.w.scratch, "case")
	if err != nil {
		inconclusive("scratch: %v", err)
	}
	return d
}

// inconclusive ends the process without a verdict.
func inconclusive(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "INCONCLUSIVE: "+format+"\n", args...)
	os.Exit(3)
}

func caseSeed(seed int64, prop, section string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, section, idx)
	return int64(h.Sum64() &^ (1 << 63))
}

func (w *worker) runCase(p *Property, s *Section, idx int) {
	c := &C{Rand: rand.New(rand.NewSource(caseSeed(w.seed, p.ID, s.Name, idx))), w: w, Prop: p, Section: s, Index: idx}
	w.cases++
	w.cur.Store(fmt.Sprintf("%s:%d", s.Name, idx))
	begin := time.Now()
	w.curStart.Store(begin.UnixNano())
	defer func() {
		w.curStart.Store(0)
		if d := time.Since(begin); d > w.slowest {
			w.slowest, w.slowCase = d, fmt.Sprintf("%s:%d %v", s.Name, idx, d)
		}
	}()
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(stopCase); ok {
				return
			}
			c.Report("panic", "panic: %v\n%s", e, debug.Stack())
		}
	}()
	s.Fn(c)
}

type workerResult struct {
	Cases   int64            `json:"cases"`
	Counts  map[string]int64 `json:"counts"`
	Samples []string         `json:"samples"`
	Viol    []Violation      `json:"viol"`
	Slow    string           `json:"slow"`
}

const (
	hangLimit   = 90 * time.Second
	maxPerShard = 8
)

// workerMain runs the shard's cases. Its last journal line names the case under way.
func workerMain(prop, tier string, seed int64, shard, shards int, scratch, only string, verbose bool) {
	p := properties[prop]
	w := &worker{seed: seed, tier: tier, thorough: tier == "thorough", scratch: scratch, verbose: verbose,
		counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
	if !raceEnabled { // an allocation beyond reason ends the process with a report instead of the machine's memory
		limit := uint64(3500 << 20)
		if prop == "C09" {
			limit = 8 << 30
		}
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: limit, Max: limit})
		debug.SetMemoryLimit(int64(limit / 2))
	}
	begun := time.Now()
	journal, err := os.Create(filepath.Join(scratch, "journal"))
	if err != nil {
		inconclusive("journal: %v", err)
	}
	go func() { // watchdog
		for {
			time.Sleep(time.Second)
			if st := w.curStart.Load(); st != 0 && time.Since(time.Unix(0, st)) > hangLimit {
				os.WriteFile(filepath.Join(scratch, "hang"), []byte(w.cur.Load().(string)), 0o644)
				os.Exit(97)
			}
		}
	}()
	stop := func() bool { // enough is known, or an answer is due
		nv := 0
		for _, v := range w.viol {
			if !v.Probe {
				nv++
			}
		}
		return nv >= maxPerShard || nv > 0 && time.Since(begun) > 60*time.Second || !w.thorough && time.Since(begun) > 600*time.Second
	}
	onlySec, onlyIdx := "", -1
	if only != "" {
		i := strings.LastIndex(only, ":")
		onlySec = only[:i]
		onlyIdx, _ = strconv.Atoi(only[i+1:])
	}
	for si := range p.Sections {
		s := &p.Sections[si]
		n := s.Quick
		if w.thorough {
			n = s.Thorough
		}
		if only != "" {
			if s.Name == onlySec {
				w.runCase(p, s, onlyIdx)
			}
			continue
		}
		for i := 0; i < n && !stop(); i++ {
			if s.Solo && shard != si%shards || !s.Solo && (i+si)%shards != shard {
				continue
			}
			var line [64]byte
			copy(line[:], fmt.Sprintf("%s:%d\n", s.Name, i))
			journal.WriteAt(line[:], 0)
			w.runCase(p, s, i)
		}
	}
	res := workerResult{w.cases, w.counts, w.samples, w.viol, w.slowCase}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(scratch, "result.json"), b, 0o644); err != nil {
		inconclusive("result: %v", err)
	}
	f, _ := os.Create(filepath.Join(scratch, "distinct"))
	bw := bufio.NewWriter(f)
	for h := range w.distinct {
		binary.Write(bw, binary.LittleEndian, h)
	}
	bw.Flush()
	f.Close()
}

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
	Commit   string `json:"commit"`
}

func cleanEnv(extra ...string) []string {
	var env []string
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "LC_") || strings.HasPrefix(kv, "LANG") || strings.HasPrefix(kv, "GORACE=") {
			continue
		}
		env = append(env, kv)
	}
	return append(append(env, "LANG=C.UTF-8"), extra...)
}

type shardOut struct {
	res    workerResult
	ok     bool
	exit   int
	stderr string
	at     string
	hang   string
	races  []string
}

func runShard(p *Property, tier string, seed int64, shard, shards int, dir, only string) shardOut {
	os.MkdirAll(dir, 0o755)
	args := []string{"worker", "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(shard),
		"-shards", fmt.Sprint(shards), "-scratch", dir}
	if only != "" {
		args = append(args, "-only", only)
	}
	self, _ := os.Executable()
	cmd := exec.Command(self, args...)
	cmd.Env = cleanEnv("GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"), "GOTRACEBACK=all")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	cmd.WaitDelay = 10 * time.Second
	err := cmd.Run()
	out := shardOut{stderr: eb.String()}
	if err != nil {
		out.exit = -1
		if ee, ok := err.(*exec.ExitError); ok {
			out.exit = ee.ExitCode()
		}
	}
	if b, e := os.ReadFile(filepath.Join(dir, "journal")); e == nil {
		if i := bytes.IndexByte(b, '\n'); i >= 0 {
			out.at = string(b[:i])
		}
	}
	if b, e := os.ReadFile(filepath.Join(dir, "hang")); e == nil {
		out.hang = string(b)
		os.Remove(filepath.Join(dir, "hang"))
	}
	if b, e := os.ReadFile(filepath.Join(dir, "result.json")); e == nil && err == nil {
		out.ok = json.Unmarshal(b, &out.res) == nil
	}
	ms, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	for _, m := range ms {
		b, _ := os.ReadFile(m)
		for _, blk := range strings.Split(string(b), "==================") {
			if strings.Contains(blk, "WARNING: DATA RACE") {
				out.races = append(out.races, strings.TrimSpace(blk))
			}
		}
	}
	return out
}

func splitAt(at string) (string, int) {
	i := strings.LastIndex(at, ":")
	if i < 0 {
		return at, 0
	}
	n, _ := strconv.Atoi(at[i+1:])
	return at[:i], n
}

// parentMain runs all shards, decides, writes evidence. Returns the exit code.
func parentMain(prop, tier string, seed int64, verif, scratch string) int {
	start := time.Now()
	p, ok := properties[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	shards := p.Shards
	if shards == 0 {
		shards = 7
	}
	outs := make([]shardOut, shards)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			outs[i] = runShard(p, tier, seed, i, shards, filepath.Join(scratch, fmt.Sprintf("s%d", i)), "")
		}()
	}
	wg.Wait()

	var viol []Violation
	counts := map[string]int64{}
	distinct := map[uint64]struct{}{}
	samples := []string{}
	var cases int64
	incon := ""
	for i, o := range outs {
		dir := filepath.Join(scratch, fmt.Sprintf("s%d", i))
		for _, r := range o.races {
			sec, idx := splitAt(o.at)
			viol = append(viol, Violation{p.ID, sec, idx, seed, tier, "data race", r, false})
		}
		if !o.ok {
			sec, idx := splitAt(o.at)
			switch {
			case o.hang != "" && len(viol) > 0:
				// enough is known
			case o.hang != "":
				o2 := runShard(p, tier, seed, i, shards, dir+"h", o.hang)
				sec, idx = splitAt(o.hang)
				if o2.hang != "" {
					viol = append(viol, Violation{p.ID, sec, idx, seed, tier, "hang",
						fmt.Sprintf("case gave no answer within %v, twice", hangLimit), false})
				} else {
					incon = "a case ran out of time once but not again: " + o.hang
				}
			case o.exit == 3:
				incon = o.stderr
			default:
				tail := o.stderr
				if len(tail) > 5000 {
					tail = tail[:2500] + "\n...\n" + tail[len(tail)-2500:]
				}
				// a crash of the process: confirm on the single case, else report as seen if the runtime said so
				if strings.Contains(o.stderr, "fatal error:") || strings.Contains(o.stderr, "panic:") || strings.Contains(o.stderr, "SIG") {
					viol = append(viol, Violation{p.ID, sec, idx, seed, tier, "crash",
						fmt.Sprintf("process died (exit %d): %s", o.exit, tail), false})
				} else {
					incon = fmt.Sprintf("worker %d ended with exit %d at %s: %s", i, o.exit, o.at, tail)
				}
			}
			continue
		}
		cases += o.res.Cases
		if os.Getenv("VERIF_SLOW") != "" {
			fmt.Fprintln(os.Stderr, "slowest:", o.res.Slow)
		}
		for k, v := range o.res.Counts {
			counts[k] += v
		}
		if len(samples) < 20 {
			n := min(len(o.res.Samples), 5)
			samples = append(samples, o.res.Samples[:n]...)
		}
		viol = append(viol, o.res.Viol...)
		if b, e := os.ReadFile(filepath.Join(dir, "distinct")); e == nil {
			for len(b) >= 8 {
				distinct[binary.LittleEndian.Uint64(b)] = struct{}{}
				b = b[8:]
			}
		}
	}
	var kn []known
	if b, e := os.ReadFile(filepath.Join(verif, "known_findings.json")); e == nil {
		if json.Unmarshal(b, &kn) != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json is not readable")
			return 2
		}
	}
	sort.SliceStable(viol, func(i, j int) bool {
		if viol[i].Section != viol[j].Section {
			return viol[i].Section < viol[j].Section
		}
		return viol[i].Index < viol[j].Index
	})
	nviol, nknown := 0, 0
	seen := map[string]int{}
	rdir := filepath.Join(verif, "replay")
	for _, v := range viol {
		isKnown := false
		if v.Probe {
			for _, k := range kn {
				if k.Status == "open" && k.Property == v.Property && k.Key == v.Key {
					isKnown = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", v.Property, v.Key, k.What)
				}
			}
		}
		if isKnown {
			nknown++
			continue
		}
		nviol++
		sk := v.Section + "/" + v.Key
		seen[sk]++
		if seen[sk] > 3 || nviol > 20 {
			continue
		}
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d-%d.json", v.Property, strings.ReplaceAll(v.Section, "/", "_"), v.Index, nviol))
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
		msg := v.Msg
		if len(msg) > 1500 {
			msg = msg[:1500] + "..."
		}
		fmt.Printf("  [%s#%d %s] %s\n", v.Section, v.Index, v.Key, strings.ReplaceAll(msg, "\n", "\n  "))
	}
	missing := []string{}
	if nviol == 0 && incon == "" {
		for _, s := range p.Sections {
			for _, n := range s.Need {
				if counts[n] == 0 {
					missing = append(missing, n)
				}
			}
		}
	}
	events := map[string]int64{}
	for k, v := range counts {
		events[k] = v
	}
	secs := map[string]int{}
	for _, s := range p.Sections {
		if tier == "thorough" {
			secs[s.Name] = s.Thorough
		} else {
			secs[s.Name] = s.Quick
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]any{
			"evaluations":         cases,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"observed_events":     events,
			"cases_per_section":   secs,
			"known_findings_seen": nknown,
			"race_detector":       raceEnabled,
		},
		"assumptions": p.Assumptions,
		"wall_s":      float64(time.Since(start).Milliseconds()) / 1000,
		"violations":  nviol,
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial observations, %d violations, %d known findings, %.1fs\n",
		p.ID, tier, seed, cases, len(distinct), nviol, nknown, time.Since(start).Seconds())
	if nviol > 0 {
		return 1
	}
	if incon != "" {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", incon)
		return 2
	}
	if len(missing) > 0 || cases == 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: never observed:", missing)
		return 2
	}
	return 0
}
