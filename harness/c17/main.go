// C17: shallow copies can be used concurrently with their original.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"fast-ksw/verifyield"
	"verifharness/acts"
	"verifharness/c17/foot"
	"verifharness/h"
)

func kinds() []string { return append(acts.Kinds(), acts.SharedKinds()...) }

// group is an object with the others that may be used at the same time.
type obj struct {
	name string
	o    interface{}
}

// peers are the pairs of objects of a kind: the object, its copies, copies of copies, and an object built from the same parameters.
func peers(k *acts.Kind) (orig obj, others []obj) {
	orig = obj{"original", k.New()}
	for _, c := range k.Copies {
		others = append(others, obj{c.Name, c.F(orig.o)})
	}
	if len(k.Copies) > 0 {
		x := k.Copies[0].F(orig.o)
		others = append(others, obj{k.Copies[0].Name + " of a copy", k.Copies[0].F(x)})
	}
	others = append(others, obj{"independent", k.New()})
	return
}

// footprint checks that whatever two objects share is never written by an operation of any of them.
func footprint(t *h.T, name string) {
	k := acts.New(t, name)
	for _, a := range k.Acts { // lazily built tables, if any
		a.F(k.New())
	}
	orig, others := peers(k)
	all := append([]obj{orig}, others...)
	spans := make([][]byte, 0)
	_ = spans
	type pair struct {
		a, b int
		s    *foot.Snap
	}
	var ps []pair
	for i := range all {
		fi := foot.Of(all[i].o)
		for j := i + 1; j < len(all); j++ {
			ps = append(ps, pair{i, j, foot.Take(foot.Shared(fi, foot.Of(all[j].o)))})
			t.State("shared", name, i, j, ps[len(ps)-1].s.Len())
		}
	}
	params := foot.Take(foot.Of(k.Env.P))
	for i, o := range all {
		for _, a := range k.Acts {
			a.F(o.o)
			t.Trans(1)
			for _, p := range ps {
				if c := p.s.Changed(); c != nil {
					t.Fail("footprint", "%s: %q on %s writes %s, which %s and %s share", name, a.Name, o.name, strings.Join(c, ", "), all[p.a].name, all[p.b].name)
					return
				}
			}
			if c := params.Changed(); c != nil {
				t.Fail("parameters", "%s: %q on %s writes %s", name, a.Name, all[i].name, strings.Join(c, ", "))
				return
			}
		}
	}
	// what an operation attached to the objects meanwhile is not shared either
	for i := range all {
		fi := foot.Of(all[i].o)
		for j := i + 1; j < len(all); j++ {
			t.State("later", name, i, j, len(foot.Shared(fi, foot.Of(all[j].o))))
		}
	}
	runtime.KeepAlive(all)
}

// ---- controlled scheduler

type stop struct {
	site  int32
	visit int
}

type thread struct {
	wake    chan struct{}
	cnt     []int
	touched []int32
	stop    stop
	done    atomic.Bool
	err     string
	gid     string
}

type sched struct {
	cur atomic.Pointer[thread]
	ctl chan *thread
}

var nsites int

func (s *sched) hook(site int32) {
	th := s.cur.Load()
	if th == nil {
		return
	}
	if verifyield.Spawns && gid() != th.gid {
		return // a goroutine of the library itself runs on its own
	}
	if th.cnt[site] == 0 {
		th.touched = append(th.touched, site)
	}
	th.cnt[site]++
	if site == th.stop.site && th.cnt[site] == th.stop.visit {
		s.ctl <- th
		<-th.wake
	}
}

// gid is the number of the running goroutine.
func gid() string {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	return f[1]
}

// waits tells whether a goroutine waits for something another one does (a lock, a channel).
func waits(id string) bool {
	b := make([]byte, 1<<20)
	s := string(b[:runtime.Stack(b, true)])
	i := strings.Index(s, "goroutine "+id+" [")
	if i < 0 {
		return false
	}
	s = s[i+len("goroutine "+id+" ["):]
	s = s[:strings.IndexByte(s, ']')]
	for _, x := range []string{"sync.", "semacquire", "chan ", "select"} {
		if strings.HasPrefix(s, x) {
			return true
		}
	}
	return false
}

// back waits until the running thread comes back, and says no if it waits for another one instead.
func (s *sched) back(th *thread) bool {
	for d := time.Millisecond; ; d *= 2 {
		tm := time.NewTimer(d)
		select {
		case <-s.ctl:
			tm.Stop()
			return true
		case <-tm.C:
		}
		if d >= 4*time.Millisecond && waits(th.gid) {
			select {
			case <-s.ctl: // it waits for the scheduler
				return true
			case <-time.After(4 * time.Millisecond):
			}
			if waits(th.gid) {
				return false
			}
		}
	}
}

// free lets all the threads run to their end at once; the running one waits for another one.
func (s *sched) free(ths []*thread, running *thread) (stuck bool) {
	s.cur.Store(nil)
	left := 0
	for _, th := range ths {
		if th.done.Load() {
			continue
		}
		left++
		if th != running {
			th.wake <- struct{}{}
		}
	}
	tm := time.NewTimer(30 * time.Second)
	defer tm.Stop()
	for left > 0 {
		select {
		case <-s.ctl:
			left--
		case <-tm.C:
			return true
		}
	}
	return false
}

var none = stop{-1, 0}

// seg lets a thread run until it reaches a yield point, or to its end.
type seg struct {
	th int
	to stop
}

var pool [4]*thread

// run executes functions under a schedule; afterwards the remaining threads run to their end in the given order.
func (s *sched) run(fs []func(), plan []seg) (errs []string, stuck bool) {
	ths := make([]*thread, len(fs))
	for i := range fs {
		th := pool[i]
		if th == nil {
			th = &thread{wake: make(chan struct{}), cnt: make([]int, nsites)}
			pool[i] = th
		}
		for _, x := range th.touched {
			th.cnt[x] = 0
		}
		th.touched, th.stop, th.err = th.touched[:0], none, ""
		th.done.Store(false)
		ths[i] = th
		f := fs[i]
		go func() {
			th.gid = gid()
			<-th.wake
			defer func() {
				if r := recover(); r != nil {
					th.err = fmt.Sprint("panic: ", r)
				}
				th.done.Store(true)
				s.ctl <- th
			}()
			f()
		}()
	}
	verifyield.Hook = s.hook
	for _, g := range plan {
		th := ths[g.th]
		if th.done.Load() {
			continue
		}
		th.stop = g.to
		s.cur.Store(th)
		th.wake <- struct{}{}
		if !s.back(th) {
			if s.free(ths, th) {
				pool = [4]*thread{}
				return append(errs, make([]string, len(fs))...), true
			}
			break
		}
	}
	s.cur.Store(nil)
	verifyield.Hook = nil
	for i, th := range ths {
		if !th.done.Load() {
			panic(fmt.Sprint("thread left behind ", i))
		}
		errs = append(errs, th.err)
	}
	return
}

// points lists the yield points of a function: the first visits of every site, and the last one.
func points(f func(), first int) (o []stop) {
	s := &sched{ctl: make(chan *thread)}
	s.run([]func(){f}, []seg{{0, none}})
	th := pool[0]
	for _, x := range th.touched {
		n := th.cnt[x]
		for v := 1; v <= n && v <= first; v++ {
			o = append(o, stop{x, v})
		}
		if n > first {
			o = append(o, stop{x, n})
		}
	}
	return
}

type world struct {
	t    *h.T
	k    *acts.Kind
	name string
	want []uint64
	ops  uint64
	keys uint64
	n    int
}

func newWorld(t *h.T, name string) *world {
	w := &world{t: t, k: acts.New(t, name), name: name}
	w.ops, w.keys = w.k.Operands(), w.k.Keys()
	for _, a := range w.k.Acts {
		w.want = append(w.want, a.F(w.k.New()).Hash)
	}
	return w
}

var sites []string

func at(p stop) string {
	if p.site < 0 || int(p.site) >= len(sites) {
		return "its end"
	}
	return fmt.Sprintf("visit %d of %s", p.visit, sites[p.site])
}

// one runs one operation per object under a schedule.
func (w *world) one(os []obj, as []int, plan []seg) bool {
	s := &sched{ctl: make(chan *thread)}
	res := make([]acts.Res, len(os))
	fs := make([]func(), len(os))
	for i := range os {
		i := i
		fs[i] = func() { res[i] = w.k.Acts[as[i]].F(os[i].o) }
	}
	errs, stuck := s.run(fs, plan)
	w.n++
	w.t.Trace(1)
	w.t.Trans(len(plan))
	desc := func() string {
		var d []string
		for _, g := range plan {
			d = append(d, fmt.Sprintf("%s runs %q to %s", os[g.th].name, w.k.Acts[as[g.th]].Name, at(g.to)))
		}
		return strings.Join(d, "; ")
	}
	if stuck {
		w.t.Fail("schedule", "%s: the goroutines wait for each other for ever under the schedule %s", w.name, desc())
		return false
	}
	for i := range os {
		if errs[i] != "" {
			w.t.Fail("schedule", "%s: %q on %s: %s under the schedule %s", w.name, w.k.Acts[as[i]].Name, os[i].name, errs[i], desc())
			return false
		}
		if res[i].Hash != w.want[as[i]] {
			w.t.Fail("schedule", "%s: %q on %s gives another result than alone under the schedule %s", w.name, w.k.Acts[as[i]].Name, os[i].name, desc())
			return false
		}
		for j := 0; j < i; j++ {
			if res[i].Mask != 0 && res[i].Mask == res[j].Mask {
				w.t.Fail("randomness", "%s: %s and %s use the same randomness under the schedule %s", w.name, os[i].name, os[j].name, desc())
				return false
			}
		}
		// and the results stay what they were when they were returned
		if res[i].Again != nil && i == 0 {
			w.t.StateHash(h.Hash(w.name, res[i].Hash, w.n))
		}
	}
	return true
}

func (w *world) end() {
	w.t.Check(w.k.Operands() == w.ops, "operand", "%s: a shared operand is modified", w.name)
	w.t.Check(w.k.Keys() == w.keys, "keys", "%s: a shared key is modified", w.name)
}

// preempt1 explores all the schedules with one preemption of an operation on one object by an operation on another one.
func preempt1(t *h.T, name string, ai, first, every int) {
	w := newWorld(t, name)
	n := len(w.k.Acts)
	if ai >= n {
		return
	}
	orig, others := peers(w.k)
	pts := points(func() { w.k.Acts[ai].F(orig.o) }, first)
	pairs := [][]obj{}
	for _, o := range others {
		pairs = append(pairs, []obj{orig, o}, []obj{o, orig})
	}
	if len(others) > 1 {
		pairs = append(pairs, []obj{others[0], others[1]})
	}
	for pi, p := range pairs {
		for bi := 0; bi < n; bi++ {
			if bi != ai && (bi+ai+pi)%every != 0 {
				continue
			}
			for _, x := range pts {
				if !w.one(p, []int{ai, bi}, []seg{{0, x}, {1, none}, {0, none}}) {
					return
				}
			}
		}
	}
	w.end()
}

// preempt2 explores the schedules with two preemptions.
func preempt2(t *h.T, name string, ai, first, max int) {
	w := newWorld(t, name)
	n := len(w.k.Acts)
	if ai >= n {
		return
	}
	orig, others := peers(w.k)
	thin := func(p []stop) []stop {
		if len(p) <= max {
			return p
		}
		var o []stop
		for i := 0; i < max; i++ {
			o = append(o, p[i*len(p)/max])
		}
		return o
	}
	pa := thin(points(func() { w.k.Acts[ai].F(orig.o) }, first))
	for bi := ai; bi < n; bi++ {
		oth := others[(ai+bi)%len(others)]
		pb := thin(points(func() { w.k.Acts[bi].F(oth.o) }, first))
		for _, x := range pa {
			for _, y := range pb {
				if !w.one([]obj{orig, oth}, []int{ai, bi}, []seg{{0, x}, {1, y}, {0, none}, {1, none}}) {
					return
				}
			}
		}
	}
	w.end()
}

// three runs three objects, two preemptions.
func three(t *h.T, name string, ai, max int) {
	w := newWorld(t, name)
	n := len(w.k.Acts)
	if ai >= n {
		return
	}
	orig, others := peers(w.k)
	thin := func(p []stop) []stop {
		if len(p) <= max {
			return p
		}
		var o []stop
		for i := 0; i < max; i++ {
			o = append(o, p[i*len(p)/max])
		}
		return o
	}
	second := obj{"another independent", w.k.New()}
	if len(others) > 1 {
		second = others[1]
	}
	os := []obj{orig, others[0], second}
	pa := thin(points(func() { w.k.Acts[ai].F(orig.o) }, 1))
	for _, d := range []int{0, 1, n / 2} {
		bi, ci := (ai+d)%n, (ai+2*d+d/2)%n
		pb := thin(points(func() { w.k.Acts[bi].F(os[1].o) }, 1))
		for _, x := range pa {
			for _, y := range pb {
				for _, tail := range [][2]int{{0, 1}, {1, 0}} {
					if !w.one(os, []int{ai, bi, ci}, []seg{{0, x}, {1, y}, {2, none}, {tail[0], none}, {tail[1], none}}) {
						return
					}
				}
			}
		}
	}
	w.end()
}

// race runs the kind in a binary built with the race detector, without any synchronisation between the goroutines.
func race(t *h.T, name string, rounds int) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(filepath.Join(filepath.Dir(exe), "race"), "racerun", name, fmt.Sprint(rounds))
	cmd.Env = append(os.Environ(), "GORACE=exitcode=66 halt_on_error=1")
	out, err := cmd.CombinedOutput()
	var r struct {
		Runs int
		Bad  []string
	}
	if i := strings.LastIndex(string(out), "RESULT "); i >= 0 {
		json.Unmarshal(out[i+7:], &r)
	}
	if strings.Contains(string(out), "WARNING: DATA RACE") {
		t.Fail("race", "%s: data race between an object and its copies: %s", name, brief(string(out)))
		return
	}
	for _, b := range r.Bad {
		t.Fail("concurrent", "%s: %s", name, b)
	}
	if err != nil || r.Runs == 0 {
		t.Fail("crash", "%s: the concurrent run failed: %v %s", name, err, brief(string(out)))
		return
	}
	t.Eval(r.Runs)
	t.State("race", name, r.Runs)
}

func brief(s string) string {
	var o []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fast-ksw/") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Previous") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "fatal") {
			if i := strings.Index(l, " by "); i > 0 {
				l = strings.Fields(l[:i])[0] + l[i:]
				if strings.HasPrefix(l, "Previous") {
					l = "previous access"
				}
			}
			o = append(o, l)
		}
		if len(o) > 8 {
			break
		}
	}
	return strings.Join(o, " | ")
}

func raceRun(name string, rounds int) {
	t := h.Standalone()
	w := newWorld(t, name)
	orig, others := peers(w.k)
	all := append([]obj{orig}, others...)
	var mu sync.Mutex
	var bad []string
	runs := 0
	n := len(w.k.Acts)
	// one round: every operation on every object, at the same time as shifted operations on the others
	for s := 0; s < rounds; s++ {
		var wg sync.WaitGroup
		for j := range all {
			wg.Add(1)
			go func(j int) {
				defer wg.Done()
				for i := 0; i < n; i++ {
					a := (i + j*s) % n
					r := w.k.Acts[a].F(all[j].o)
					if r.Hash != w.want[a] {
						mu.Lock()
						if len(bad) < 3 {
							bad = append(bad, fmt.Sprintf("%q on %s gives another result than alone", w.k.Acts[a].Name, all[j].name))
						}
						mu.Unlock()
					}
				}
			}(j)
		}
		wg.Wait()
		runs += n * len(all)
	}
	// cold rounds: everything (parameters, rings, keys, objects) is new, so that tables which are built at the first use
	// are built by the goroutines; what is alone comes afterwards.
	for s := 0; s < rounds; s++ {
		k := acts.New(t, name)
		orig, others := peers(k)
		all := append([]obj{orig}, others...)
		res := make([][]acts.Res, len(all))
		var wg sync.WaitGroup
		for j := range all {
			wg.Add(1)
			res[j] = make([]acts.Res, n)
			go func(j int) {
				defer wg.Done()
				for i := 0; i < n; i++ {
					a := (i + s*n/rounds) % n
					res[j][a] = k.Acts[a].F(all[j].o)
				}
			}(j)
		}
		wg.Wait()
		for a := range k.Acts {
			want := k.Acts[a].F(k.New())
			for j := range all {
				if res[j][a].Hash != want.Hash && len(bad) < 3 {
					bad = append(bad, fmt.Sprintf("%q on %s (everything new) gives another result than alone", k.Acts[a].Name, all[j].name))
				}
			}
		}
		runs += n * len(all)
	}
	b, _ := json.Marshal(map[string]interface{}{"Runs": runs, "Bad": bad})
	fmt.Printf("RESULT %s\n", b)
}

func main() {
	exe, _ := os.Executable()
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(exe), "sites.txt")); err == nil {
		sites = strings.Split(string(b), "\n")
	}
	nsites = len(sites) + 1
	if len(os.Args) > 3 && os.Args[1] == "racerun" {
		n := 0
		fmt.Sscan(os.Args[3], &n)
		raceRun(os.Args[2], n)
		return
	}
	h.Main(h.Info{ID: "C17", Level: "model_checking",
		Rule:          "one operation per object runs on each goroutine; a cooperative scheduler owns the yield points which are compiled into every statement of the library, and explores every schedule with one preemption (two in the thorough tier) at the selected yield points",
		Bounds:        "28 kinds of objects (evaluators, encoders, encryptors, decryptors, key switchers, basis extenders, fast key switchers and evaluators, rings, parameters, key generators, samplers, scalers) in rings of degree 16; one operation per goroutine, 2 goroutines and 3 goroutines; 1 preemption at the first (thorough: first three) and last visit of every instrumented statement; thorough: 2 preemptions at up to 28 x 28 points; race-detector rounds on warm objects and on objects that are used for the first time",
		Assumptions:   []string{"yield points are statements: an interleaving inside of a statement is covered by the footprint comparison and the race detector run only"},
		QuickDeadline: 200, ThoroughDeadline: 800,
	}, func(c *h.Ctx) {
		for _, name := range kinds() {
			name := name
			c.Case("footprint", "footprint "+name, func(t *h.T) { footprint(t, name) })
		}
		first, every, maxActs := 1, 4, 64
		if c.Thorough {
			first, every = 3, 1
		}
		for _, name := range kinds() {
			for ai := 0; ai < maxActs; ai++ {
				name, ai := name, ai
				c.Case("preemption", fmt.Sprintf("one preemption %s/%d", name, ai), func(t *h.T) { preempt1(t, name, ai, first, every) })
			}
		}
		for _, name := range kinds() {
			name := name
			rounds := 3
			if c.Thorough {
				rounds = 20
			}
			c.Case("race", "race "+name, func(t *h.T) { race(t, name, rounds) })
		}
		for _, name := range kinds() {
			for ai := 0; ai < maxActs; ai++ {
				name, ai := name, ai
				if c.Thorough {
					c.Case("two preemptions", fmt.Sprintf("two preemptions %s/%d", name, ai), func(t *h.T) { preempt2(t, name, ai, 1, 28) })
					c.Case("three goroutines", fmt.Sprintf("three goroutines %s/%d", name, ai), func(t *h.T) { three(t, name, ai, 24) })
				} else if ai < 4 {
					c.Case("three goroutines", fmt.Sprintf("three goroutines %s/%d", name, ai), func(t *h.T) { three(t, name, ai, 4) })
				}
			}
		}
	})
}
