// Package h is the exploration driver shared by all checks.
//
// A check enumerates a finite, ordered list of cases (the bounded state/behaviour space); the driver
// partitions it over single-threaded worker processes, owns every source of randomness (crypto/rand is
// replaced by a stream reseeded from the case description), turns panics, fatal runtime errors and
// non-termination of the code under test into failures, re-runs each failing case to establish that it
// is deterministic, and writes the evidence file from what the workers measured.
package h

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Info describes a check.
type Info struct {
	ID          string
	Level       string // exploration | model_checking
	Rule        string
	Bounds      string
	Assumptions []string
	// Deadline for launching new cases, seconds.
	QuickDeadline, ThoroughDeadline int
	Shards                          int // default 8
}

// Failure is one violated expectation.
type Failure struct {
	Case  string `json:"case"`
	Index int    `json:"index"`
	Sig   string `json:"sig"`
	Msg   string `json:"msg"`
	Known string `json:"known,omitempty"`
}

type partial struct {
	Cases      int            `json:"cases"`
	Evals      int64          `json:"evals"`
	States     int64          `json:"states"`
	Trans      int64          `json:"trans"`
	Traces     int64          `json:"traces"`
	Nontrivial []uint64       `json:"nontrivial"`
	Samples    []string       `json:"samples"`
	Groups     map[string]int `json:"groups"`
	Failures   []Failure      `json:"failures"`
	Truncated  bool           `json:"truncated"`
	Total      int            `json:"total"`
	Done       bool           `json:"done"`
}

// Ctx enumerates cases.
type Ctx struct {
	info     Info
	Thorough bool
	Seed     int64
	shard    int
	nshards  int
	idx      int
	skipTo   int
	only     string
	deadline time.Time
	p        partial
	nt       map[uint64]struct{}
	outDir   string
	lastSave time.Time
	nsample  map[string]bool
	known    map[string]string
}

// T is the handle of a running case.
type T struct {
	c     *Ctx
	Desc  string
	multi []Failure
}

type failPanic struct{ sig, msg string }

// Fail aborts the case with a failure whose stable signature is sig.
func (t *T) Fail(sig, format string, a ...interface{}) {
	panic(failPanic{sig, fmt.Sprintf(format, a...)})
}

// Note records a failure and carries on with the case (used where one case covers independent aspects).
func (t *T) Note(sig, format string, a ...interface{}) {
	t.multi = append(t.multi, Failure{Sig: sig, Msg: fmt.Sprintf(format, a...)})
}

// Check fails when ok is false.
func (t *T) Check(ok bool, sig, format string, a ...interface{}) {
	if !ok {
		t.Fail(sig, format, a...)
	}
}

// Eval counts evaluated inputs.
func (t *T) Eval(n int) { t.c.p.Evals += int64(n) }

// Trans counts executed operations of a history.
func (t *T) Trans(n int) { t.c.p.Trans += int64(n) }

// Trace counts complete histories compared with the reference model.
func (t *T) Trace(n int) { t.c.p.Traces += int64(n) }

// State records a distinct observed state (hash of its canonical form).
func (t *T) State(x ...interface{}) { t.c.mark(x...) }

// StateHash records a distinct observed state by its hash.
func (t *T) StateHash(v uint64) { t.c.nt[v] = struct{}{} }

func (c *Ctx) mark(x ...interface{}) {
	hh := fnv.New64a()
	fmt.Fprint(hh, x...)
	c.nt[hh.Sum64()] = struct{}{}
}

// Panics runs f and reports whether it panicked.
func Panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// detReader is the deterministic replacement of the operating system's randomness.
type detReader struct {
	mu  sync.Mutex
	key [32]byte
	ctr uint64
	buf []byte
}

func (d *detReader) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := range p {
		if len(d.buf) == 0 {
			var b [40]byte
			copy(b[:], d.key[:])
			binary.LittleEndian.PutUint64(b[32:], d.ctr)
			d.ctr++
			s := sha256.Sum256(b[:])
			d.buf = append(d.buf[:0], s[:]...)
		}
		p[i] = d.buf[0]
		d.buf = d.buf[1:]
	}
	return len(p), nil
}

var det = &detReader{}
var baseSeed int64 = 1

// Seed restarts the process-wide random source from a name.
func Seed(name string) {
	det.mu.Lock()
	det.key = sha256.Sum256([]byte(fmt.Sprintf("%d|%s", baseSeed, name)))
	det.ctr = 0
	det.buf = nil
	det.mu.Unlock()
}

type detState struct {
	key [32]byte
	ctr uint64
	buf []byte
}

// Seeded runs f under the stream named name and then restores the previous stream.
func Seeded(name string, f func()) {
	det.mu.Lock()
	s := detState{det.key, det.ctr, append([]byte{}, det.buf...)}
	det.mu.Unlock()
	Seed(name)
	defer func() {
		det.mu.Lock()
		det.key, det.ctr, det.buf = s.key, s.ctr, s.buf
		det.mu.Unlock()
	}()
	f()
}

// Case registers (and, when it belongs to this worker, runs) one case. group is a coarse label counted
// in the evidence, desc must identify the case uniquely.
func (c *Ctx) Case(group, desc string, f func(t *T)) {
	i := c.idx
	c.idx++
	if c.only != "" {
		if desc != c.only && !strings.HasPrefix(desc, c.only) {
			return
		}
	} else if i%c.nshards != c.shard || i < c.skipTo {
		return
	}
	if c.p.Truncated || time.Now().After(c.deadline) {
		c.p.Truncated = true
		return
	}
	if len(c.p.Failures) >= 25 {
		c.p.Truncated = true
		return
	}
	// VH_FAILFAST (mutation sweeps only): the first unlisted failure of any worker ends the run.
	ff := os.Getenv("VH_FAILFAST") != "" && c.outDir != ""
	if ff {
		if _, err := os.Stat(filepath.Join(c.outDir, "stop")); err == nil {
			c.p.Truncated = true
			return
		}
	}
	c.inflight(i, desc)
	fails := c.runOnce(desc, f)
	if ff {
		kn := loadKnown(os.Getenv("VH_ROOT"), c.info.ID)
		for _, x := range fails {
			if _, ok := kn[x.Sig]; !ok {
				os.WriteFile(filepath.Join(c.outDir, "stop"), nil, 0o644)
			}
		}
	}
	if len(fails) > 0 {
		// re-run: the same case must fail the same way every time
		for k := 0; k < 2; k++ {
			again := c.runOnce(desc, f)
			if len(again) == 0 || again[0].Sig != fails[0].Sig {
				for j := range fails {
					fails[j].Msg += " [not reproduced identically on re-run]"
				}
				break
			}
		}
		for _, x := range fails {
			x.Case, x.Index = desc, i
			c.p.Failures = append(c.p.Failures, x)
		}
		c.save()
	}
	c.p.Cases++
	c.p.Groups[group]++
	if !c.nsample[group] && len(c.p.Samples) < 40 {
		c.nsample[group] = true
		c.p.Samples = append(c.p.Samples, group+": "+desc)
	}
	if time.Since(c.lastSave) > 5*time.Second {
		c.save()
	}
}

func (c *Ctx) runOnce(desc string, f func(t *T)) (fails []Failure) {
	t := &T{c: c, Desc: desc}
	defer func() {
		r := recover()
		fails = t.multi
		if r == nil {
			return
		}
		if fp, ok := r.(failPanic); ok {
			fails = append(fails, Failure{Sig: fp.sig, Msg: fp.msg})
			return
		}
		st := string(debug.Stack())
		if c.only != "" {
			fmt.Fprintln(os.Stderr, st)
		}
		fails = append(fails, Failure{Sig: "panic", Msg: fmt.Sprintf("panic: %v at %s", r, trimStack(st))})
	}()
	Seed("case|" + desc)
	f(t)
	return
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/harness/h/") && !strings.Contains(l, "runtime/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 4 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

func (c *Ctx) inflight(i int, desc string) {
	if c.outDir == "" {
		return
	}
	os.WriteFile(filepath.Join(c.outDir, fmt.Sprintf("inflight.%d", c.shard)), []byte(strconv.Itoa(i)+"\n"+desc), 0o644)
}

func (c *Ctx) save() {
	c.lastSave = time.Now()
	if c.outDir == "" {
		return
	}
	c.p.Total = c.idx
	c.p.Nontrivial = c.p.Nontrivial[:0]
	for k := range c.nt {
		c.p.Nontrivial = append(c.p.Nontrivial, k)
	}
	b, _ := json.Marshal(c.p)
	name := filepath.Join(c.outDir, fmt.Sprintf("part.%d.%d", c.shard, c.skipTo))
	os.WriteFile(name+".tmp", b, 0o644)
	os.Rename(name+".tmp", name)
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main runs a check as parent or worker.
func Main(info Info, run func(c *Ctx)) {
	if info.Shards == 0 {
		info.Shards = 8
	}
	if info.QuickDeadline == 0 {
		info.QuickDeadline = 420
	}
	if info.ThoroughDeadline == 0 {
		info.ThoroughDeadline = 3000
	}
	tier := os.Getenv("VERIF_TIER")
	only := os.Getenv("VH_CASE")
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "quick", "thorough":
			tier = os.Args[i]
		case "-case":
			only = os.Args[i+1]
			i++
		}
	}
	if tier != "thorough" {
		tier = "quick"
	}
	baseSeed = int64(envInt("VERIF_SEED", 1))
	rand.Reader = det
	dl := info.QuickDeadline
	if tier == "thorough" {
		dl = info.ThoroughDeadline
	}
	dl = envInt("VH_DEADLINE", dl)

	if sh := os.Getenv("VH_SHARD"); sh != "" || only != "" {
		debug.SetMaxStack(256 << 20)
		if os.Getenv("VH_PROCS") == "" {
			runtime.GOMAXPROCS(1)
		}
		c := &Ctx{info: info, Thorough: tier == "thorough", Seed: baseSeed, nshards: info.Shards, nt: map[uint64]struct{}{}, nsample: map[string]bool{}}
		c.p.Groups = map[string]int{}
		c.shard, _ = strconv.Atoi(sh)
		c.skipTo = envInt("VH_SKIP", 0)
		c.only = only
		c.outDir = os.Getenv("VH_OUT")
		c.deadline = time.Now().Add(time.Duration(dl) * time.Second)
		run(c)
		if only != "" {
			for _, f := range c.p.Failures {
				fmt.Printf("FAIL case=%q sig=%s %s\n", f.Case, f.Sig, f.Msg)
			}
			fmt.Printf("cases=%d failures=%d evals=%d\n", c.p.Cases, len(c.p.Failures), c.p.Evals)
			if len(c.p.Failures) > 0 {
				os.Exit(1)
			}
			os.Exit(0)
		}
		c.p.Done = true
		c.save()
		os.Exit(0)
	}
	os.Exit(parent(info, tier, dl))
}

func parent(info Info, tier string, dl int) int {
	start := time.Now()
	root := os.Getenv("VH_ROOT")
	if root == "" {
		root = "/verif"
	}
	out, err := os.MkdirTemp("", "vh")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(out)
	self, _ := os.Executable()

	hang := time.Duration(envInt("VH_HANG", 200)) * time.Second
	var mu sync.Mutex
	var crash []Failure
	fatal := ""
	var wg sync.WaitGroup
	for s := 0; s < info.Shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			skip := 0
			for restart := 0; restart < 4; restart++ {
				remain := dl - int(time.Since(start).Seconds())
				if remain < 1 {
					return
				}
				inf := filepath.Join(out, fmt.Sprintf("inflight.%d", s))
				os.Remove(inf)
				logf, _ := os.Create(filepath.Join(out, fmt.Sprintf("log.%d.%d", s, restart)))
				cmd := exec.Command(self, tier)
				cmd.Env = append(os.Environ(), "VH_SHARD="+strconv.Itoa(s), "VH_OUT="+out, "VH_SKIP="+strconv.Itoa(skip), "VH_DEADLINE="+strconv.Itoa(remain))
				cmd.Stdout, cmd.Stderr = logf, logf
				if err := cmd.Start(); err != nil {
					mu.Lock()
					fatal = err.Error()
					mu.Unlock()
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				hung := false
				var werr error
			loop:
				for {
					select {
					case werr = <-done:
						break loop
					case <-time.After(2 * time.Second):
						if st, e := os.Stat(inf); e == nil && time.Since(st.ModTime()) > hang {
							hung = true
							cmd.Process.Kill()
						}
					}
				}
				logf.Close()
				if werr == nil && !hung {
					return
				}
				idx, desc := -1, ""
				if b, e := os.ReadFile(inf); e == nil {
					sp := strings.SplitN(string(b), "\n", 2)
					idx, _ = strconv.Atoi(sp[0])
					if len(sp) > 1 {
						desc = sp[1]
					}
				}
				lg, _ := os.ReadFile(logf.Name())
				l := string(lg)
				mu.Lock()
				switch {
				case hung && idx >= 0:
					crash = append(crash, Failure{Case: desc, Index: idx, Sig: "non-termination", Msg: fmt.Sprintf("case did not finish within %v", hang)})
				case cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 2 && idx >= 0 && (strings.Contains(l, "fatal error: stack overflow") || strings.Contains(l, "stack exceeds") || strings.Contains(l, "SIGSEGV") || strings.Contains(l, "fatal error: all goroutines are asleep") || strings.Contains(l, "fatal error: concurrent map") || strings.Contains(l, "panic:")):
					first := l
					if len(first) > 400 {
						first = first[:400]
					}
					crash = append(crash, Failure{Case: desc, Index: idx, Sig: "crash", Msg: strings.ReplaceAll(first, "\n", " | ")})
				default:
					if len(l) > 600 {
						l = l[:600]
					}
					fatal = fmt.Sprintf("worker %d ended abnormally: %v (case %q) %s", s, werr, desc, l)
					mu.Unlock()
					return
				}
				mu.Unlock()
				skip = idx + 1
			}
		}(s)
	}
	wg.Wait()

	// merge
	m := partial{Groups: map[string]int{}}
	nt := map[uint64]struct{}{}
	files, _ := filepath.Glob(filepath.Join(out, "part.*"))
	sort.Strings(files)
	doneShards := map[string]bool{}
	for _, f := range files {
		if strings.HasSuffix(f, ".tmp") {
			continue
		}
		b, _ := os.ReadFile(f)
		var p partial
		if json.Unmarshal(b, &p) != nil {
			continue
		}
		m.Cases += p.Cases
		m.Evals += p.Evals
		m.Trans += p.Trans
		m.Traces += p.Traces
		for _, k := range p.Nontrivial {
			nt[k] = struct{}{}
		}
		for k, v := range p.Groups {
			m.Groups[k] += v
		}
		m.Samples = append(m.Samples, p.Samples...)
		m.Failures = append(m.Failures, p.Failures...)
		m.Truncated = m.Truncated || p.Truncated
		if p.Total > m.Total {
			m.Total = p.Total
		}
		if p.Done {
			doneShards[strings.Split(filepath.Base(f), ".")[1]] = true
		}
	}
	m.Failures = append(m.Failures, crash...)
	if len(doneShards) < info.Shards {
		m.Truncated = true
	}
	sort.Slice(m.Failures, func(i, j int) bool { return m.Failures[i].Index < m.Failures[j].Index })

	known := loadKnown(root, info.ID)
	var viol []Failure
	seenKnown := map[string]bool{}
	for _, f := range m.Failures {
		if w, ok := known[f.Sig]; ok {
			if !seenKnown[f.Sig] {
				seenKnown[f.Sig] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", info.ID, w)
			}
			continue
		}
		viol = append(viol, f)
	}
	sort.Strings(m.Samples)
	seenS := map[string]bool{}
	var samples []string
	for _, s := range m.Samples {
		g := strings.SplitN(s, ":", 2)[0]
		if !seenS[g] && len(samples) < 40 {
			seenS[g] = true
			samples = append(samples, s)
		}
	}
	cov := map[string]interface{}{
		"rule":       info.Rule,
		"bounds":     info.Bounds,
		"cases":      m.Cases,
		"groups":     m.Groups,
		"samples":    samples,
		"exhaustive": !m.Truncated && fatal == "",
	}
	if info.Level == "model_checking" {
		cov["states"] = len(nt)
		cov["transitions"] = m.Trans
		cov["traces_validated_against_impl"] = m.Traces
	} else {
		cov["evaluations"] = m.Evals
		cov["distinct_nontrivial"] = len(nt)
	}
	ev := map[string]interface{}{
		"property": info.ID, "tier": tier, "seed": baseSeed, "level": info.Level, "coverage": cov,
		"assumptions": info.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if info.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(root, "evidence", info.ID+".json"), b, 0o644)

	fmt.Printf("%s %s: cases=%d evals=%d transitions=%d traces=%d distinct=%d truncated=%v wall=%.1fs\n", info.ID, tier, m.Cases, m.Evals, m.Trans, m.Traces, len(nt), m.Truncated, time.Since(start).Seconds())
	if len(viol) > 0 {
		rp := filepath.Join(root, "evidence", info.ID+".replay.txt")
		var sb strings.Builder
		fmt.Fprintf(&sb, "# replay: %s/run.sh %s %s -case '<case>'\n", root, info.ID, tier)
		for _, f := range viol {
			fmt.Fprintf(&sb, "case=%s\n sig=%s\n %s\n", f.Case, f.Sig, f.Msg)
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		n := 0
		for _, f := range viol {
			fmt.Printf("FAIL case=%q sig=%s %s\n", f.Case, f.Sig, f.Msg)
			if n++; n >= 12 {
				break
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", info.ID, rp)
		return 1
	}
	if fatal != "" {
		fmt.Println("ERROR", fatal)
		return 2
	}
	return 0
}

func loadKnown(root, id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known_findings.json"))
	if err != nil {
		return out
	}
	var v struct {
		Findings []struct{ Property, Sig, What string } `json:"findings"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println("ERROR known_findings.json:", err)
		return out
	}
	for _, f := range v.Findings {
		if f.Property == id {
			out[f.Sig] = f.What
		}
	}
	return out
}

// Rng is a small deterministic generator for filler values (never for deciding what to explore).
type Rng struct{ s uint64 }

// NewRng returns a generator seeded by name.
func NewRng(name string) *Rng {
	hh := fnv.New64a()
	fmt.Fprintf(hh, "%d|%s", baseSeed, name)
	return &Rng{hh.Sum64()}
}

// U64 returns the next value (splitmix64).
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Float returns a value in [-1,1).
func (r *Rng) Float() float64 { return float64(int64(r.U64())) / 9223372036854775808.0 }

// Hash returns a hash of its arguments.
func Hash(x ...interface{}) uint64 {
	hh := fnv.New64a()
	fmt.Fprint(hh, x...)
	return hh.Sum64()
}

var realReader = rand.Reader

// Standalone is a handle outside of a check; the randomness is that of the system.
func Standalone() *T {
	rand.Reader = realReader
	return &T{c: &Ctx{nt: map[uint64]struct{}{}}}
}
