package eng

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// W is one worker's context inside a check.
type W struct {
	Ctx    any // scratch made by Prop.NewCtx
	labels map[string]int64
	evals  int64
	nt     bool
	Tier   string
	remote *helper
}

// Label counts a class of cases.
func (w *W) Label(s string) { w.labels[s]++ }

// NonTrivial marks the current case as non-trivial by the sub-check's rule.
func (w *W) NonTrivial() { w.nt = true }

// Evals adds to the number of executions of the code under test.
func (w *W) Evals(n int) { w.evals += int64(n) }

// Sub is one sub-check: a generator and an oracle.
type Sub struct {
	Name  string
	Rule  string // what is generated, and what makes a case non-trivial
	N     int64  // number of cases in this tier
	Enum  bool   // cases are distinct by construction (an enumeration)
	Full  bool   // the enumeration is complete
	Seq   bool   // run on one worker
	Gen   func(r *Rng, i int64) *Case
	Valid func(c *Case) bool // domain, for shrinking; nil: everything
	Check func(w *W, c *Case) error
	// NoShrink: cases cannot usefully be made smaller.
	NoShrink bool
	// Cov: cases are checked by helper processes with coverage counters.
	Cov bool
	// Session: a case may be a session of many, which may take longer.
	Session bool
}

// Prop is one property's check.
type Prop struct {
	ID          string
	Subs        func(tier string) []*Sub
	NewCtx      func() any
	Pre         func() error // self-test of the oracle
	Assumptions []string
	Race        bool
	// Remote: cases are checked by helper processes, one for each worker.
	Remote bool
	// Epilogue may add entries to the coverage object.
	Epilogue func(cov map[string]any)
	// Cleanup runs before the process ends.
	Cleanup func()
}

// ErrTool marks a failure of the check itself (not of the code under test).
var ErrTool = errors.New("tool failure")

type Replay struct {
	Property string `json:"property"`
	Sub      string `json:"sub"`
	Seed     int64  `json:"seed"`
	Index    int64  `json:"index"`
	Error    string `json:"error"`
	Shrunk   bool   `json:"shrunk"`
	Case     *Case  `json:"case"`
}

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Sub      string `json:"sub"`
	Input    string `json:"input"` // the failing case's "str" key
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

type Config struct {
	Dir      string // /verif
	Tier     string
	Seed     int64
	Workers  int
	Slots    *Slots
	Findings []Finding
	Only     string // run only sub-checks whose name contains this
	CovBin   string // the same program with coverage counters, if there is one
}

type subStat struct {
	Name        string           `json:"name"`
	Rule        string           `json:"rule"`
	Evaluations int64            `json:"cases"`
	Execs       int64            `json:"executions"`
	NonTrivial  int64            `json:"distinct_nontrivial"`
	Labels      map[string]int64 `json:"classes,omitempty"`
	Exhaustive  bool             `json:"complete_enumeration,omitempty"`
	Seconds     float64          `json:"seconds"`
	samples     []string
}

func runCheck(w *W, s *Sub, c *Case) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v\n%s", p, trimStack(st))
		}
	}()
	if w.remote != nil {
		return w.remote.check(w, s, c)
	}
	return s.Check(w, c)
}

func trimStack(st string) string {
	l := strings.Split(st, "\n")
	if len(l) > 30 {
		l = l[:30]
	}
	return strings.Join(l, "\n")
}

func newW(p *Prop, cfg *Config) *W {
	w := &W{labels: map[string]int64{}, Tier: cfg.Tier}
	if p.NewCtx != nil {
		w.Ctx = p.NewCtx()
	}
	return w
}

type failure struct {
	sub   *Sub
	index int64
	err   error
	c     *Case
}

// newWorker is newW, with a helper process where the property has them.
func newWorker(p *Prop, cfg *Config, s *Sub) *W {
	bin := os.Args[0]
	if s.Cov {
		bin = cfg.CovBin
	} else if !p.Remote {
		return newW(p, cfg)
	}
	w := &W{labels: map[string]int64{}, Tier: cfg.Tier}
	var err error
	if w.remote, err = startHelper(p, cfg, bin); err != nil {
		fmt.Fprintln(os.Stderr, "helper process:", err)
		os.Exit(exitTool)
	}
	return w
}

func (w *W) close() {
	if w.remote != nil {
		w.remote.stop()
	}
}

// Run executes a property's check and returns the process exit code.
func Run(p *Prop, cfg *Config) int {
	start := time.Now()
	if p.Cleanup != nil {
		defer p.Cleanup()
	}
	if p.Pre != nil {
		if err := p.Pre(); err != nil {
			fmt.Fprintln(os.Stderr, "self-test of the oracle failed:", err)
			return 3
		}
	}
	var stats []*subStat
	known := map[string]Finding{}
	for _, f := range cfg.Findings {
		if f.Property == p.ID && f.Status == "known" {
			known[f.Sub+"\x00"+f.Input] = f
		}
	}
	seen := map[string]bool{}
	var mu sync.Mutex
	isKnown := func(s *Sub, c *Case) bool {
		k := s.Name + "\x00" + c.Str
		if f, ok := known[k]; ok && c.Str != "" {
			mu.Lock()
			if !seen[k] {
				seen[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
			}
			mu.Unlock()
			return true
		}
		return false
	}
	var fail *failure
	for _, s := range p.Subs(cfg.Tier) {
		if cfg.Only != "" && !strings.Contains(s.Name, cfg.Only) {
			continue
		}
		if s.Cov && cfg.CovBin == "" {
			continue
		}
		st, f := runSub(p, s, cfg, isKnown)
		stats = append(stats, st)
		fmt.Printf("%s %-28s cases=%d executions=%d nontrivial=%d %.1fs %s\n", p.ID, s.Name, st.Evaluations, st.Execs, st.NonTrivial, st.Seconds, labelString(st.Labels))
		if f != nil {
			fail = f
			break
		}
	}
	code := 0
	if fail != nil {
		if errors.Is(fail.err, ErrTool) {
			fmt.Fprintln(os.Stderr, fail.err)
			return 3
		}
		w := newWorker(p, cfg, fail.sub)
		defer w.close()
		cfg.Slots.Begin(0, fail.sub.Name, fail.index) // so that a hang in here is noticed
		c, err, shrunk := Shrink(w, fail.sub, fail.c, fail.err)
		Report(cfg, &Replay{Property: p.ID, Sub: fail.sub.Name, Seed: cfg.Seed, Index: fail.index, Error: err.Error(), Shrunk: shrunk, Case: c})
		code = 1
		cfg.Slots.End(0)
	}
	if err := writeEvidence(p, cfg, stats, time.Since(start), code); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 3
	}
	return code
}

func labelString(m map[string]int64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, m[k])
	}
	return strings.Join(ks, " ")
}

// Report writes the replay file and prints the violation.
func Report(cfg *Config, r *Replay) {
	dir := filepath.Join(cfg.Dir, "replays")
	os.MkdirAll(dir, 0o755)
	name := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", r.Property, strings.ReplaceAll(r.Sub, "/", "_"), r.Seed, r.Index))
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(name, append(b, '\n'), 0o644)
	e := r.Error
	if len(e) > 3000 {
		e = e[:3000] + "..."
	}
	fmt.Printf("FAILED %s/%s case %d: %s\ncase: %s\n", r.Property, r.Sub, r.Index, e, r.Case)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, name)
}

// Shrink makes a failing case smaller, within a bounded number of trials.
func Shrink(w *W, s *Sub, c *Case, err error) (*Case, error, bool) {
	if s.NoShrink {
		return c, err, false
	}
	budget := 4000
	deadline := time.Now().Add(40 * time.Second)
	cur, cerr := c, err
	for {
		improved := false
		shrinks(cur, func(d *Case) bool {
			if budget <= 0 || time.Now().After(deadline) {
				return true
			}
			if s.Valid != nil && !s.Valid(d) {
				return false
			}
			if d.Hash() == cur.Hash() {
				return false
			}
			budget--
			if e := runCheck(w, s, d.Clone()); e != nil && !errors.Is(e, ErrTool) {
				cur, cerr, improved = d, e, true
				return true
			}
			return false
		})
		if !improved || budget <= 0 || time.Now().After(deadline) {
			return cur, cerr, true
		}
	}
}

func runSub(p *Prop, s *Sub, cfg *Config, isKnown func(*Sub, *Case) bool) (*subStat, *failure) {
	t0 := time.Now()
	st := &subStat{Name: s.Name, Rule: s.Rule, Labels: map[string]int64{}, Exhaustive: s.Full}
	workers := cfg.Workers
	if s.Seq {
		workers = 1
	}
	var next atomic.Int64
	var minFail atomic.Int64
	minFail.Store(1<<62 - 1)
	var mu sync.Mutex
	var best *failure
	block := int64(256)
	if s.N < block*int64(workers)*4 {
		block = s.N/int64(workers*8) + 1
	}
	var wg sync.WaitGroup
	var hashes [][]uint64
	sampleAt := map[int64]bool{0: true, s.N / 3: true, s.N * 2 / 3: true, s.N - 1: true}
	type smp struct {
		i int64
		s string
	}
	var samples []smp
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			w := newWorker(p, cfg, s)
			defer w.close()
			var hs []uint64
			var n, nontriv int64
			for {
				lo := next.Add(block) - block
				if lo >= s.N || lo > minFail.Load() {
					break
				}
				hi := min(lo+block, s.N)
				for i := lo; i < hi; i++ {
					if i > minFail.Load() {
						break
					}
					cfg.Slots.Begin(k, s.Name, i)
					c := s.Gen(NewRng(cfg.Seed, p.ID+"/"+s.Name, i), i)
					if c == nil {
						continue
					}
					n++
					w.nt = false
					err := runCheck(w, s, c)
					if w.nt {
						nontriv++
						if !s.Enum {
							hs = append(hs, c.Hash())
						}
					}
					if sampleAt[i] || (w.nt && i%(s.N/3+1) == 7) {
						mu.Lock()
						samples = append(samples, smp{i, c.String()})
						mu.Unlock()
					}
					at := s
					var cc *Concrete
					if errors.As(err, &cc) && s.Cov {
						// it must fail without counters, too
						plain := *s
						plain.Cov = false
						at = &plain
						pw := newWorker(p, cfg, at)
						err = runCheck(pw, at, cc.Case.Clone())
						pw.close()
						if err == nil {
							w.Label("failed only with counters")
						}
					}
					if err != nil {
						if isKnown(s, c) {
							continue
						}
						mu.Lock()
						if best == nil || i < best.index {
							// regenerate: the check may have changed the case
							best = &failure{at, i, err, s.Gen(NewRng(cfg.Seed, p.ID+"/"+s.Name, i), i)}
							if cc != nil {
								best.c = cc.Case
							}
							minFail.Store(i)
						}
						mu.Unlock()
						break
					}
				}
			}
			cfg.Slots.End(k)
			mu.Lock()
			st.Evaluations += n
			st.Execs += w.evals
			if s.Enum {
				st.NonTrivial += nontriv
			}
			hashes = append(hashes, hs)
			for l, v := range w.labels {
				st.Labels[l] += v
			}
			mu.Unlock()
		}(k)
	}
	wg.Wait()
	if !s.Enum {
		all := slices.Concat(hashes...)
		slices.Sort(all)
		st.NonTrivial = int64(len(slices.Compact(all)))
	}
	sort.Slice(samples, func(a, b int) bool { return samples[a].i < samples[b].i })
	for _, x := range samples {
		st.samples = append(st.samples, s.Name+" #"+fmt.Sprint(x.i)+": "+x.s)
	}
	if s.Enum && s.Full && best == nil && st.Evaluations != s.N {
		st.Exhaustive = false
	}
	st.Seconds = time.Since(t0).Seconds()
	return st, best
}

func writeEvidence(p *Prop, cfg *Config, stats []*subStat, wall time.Duration, code int) error {
	var ev, nt, ex int64
	var samples, rules []string
	for _, s := range stats {
		ev += s.Evaluations
		nt += s.NonTrivial
		ex += s.Execs
		k := len(s.samples)
		if k > 3 {
			k = 3
		}
		samples = append(samples, s.samples[:k]...)
		rules = append(rules, s.Name+": "+s.Rule)
	}
	if samples == nil {
		samples = []string{}
	}
	cov := map[string]any{
		"evaluations":         ev,
		"distinct_nontrivial": nt,
		"rule":                "Sub-checks, each with its own generator and rule; distinct cases are counted per sub-check (by hash, or by construction for enumerations). " + strings.Join(rules, " || "),
		"samples":             samples,
		"executions":          ex,
		"sub_checks":          stats,
		"workers":             cfg.Workers,
		"go":                  runtime.Version(),
	}
	if p.Epilogue != nil {
		p.Epilogue(cov)
	}
	v := map[string]any{
		"property":    p.ID,
		"tier":        cfg.Tier,
		"seed":        cfg.Seed,
		"level":       "exploration",
		"coverage":    cov,
		"assumptions": p.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  code,
	}
	if p.Assumptions == nil {
		v["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(cfg.Dir, "evidence")
	os.MkdirAll(dir, 0o755)
	return os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// FindSub returns the sub-check by name, of the given tier if it has one.
func FindSub(p *Prop, name, first string) *Sub {
	for _, tier := range []string{first, "thorough", "quick"} {
		for _, s := range p.Subs(tier) {
			if s.Name == name {
				return s
			}
		}
	}
	return nil
}

// RunCase checks one concrete case.
func RunCase(p *Prop, cfg *Config, s *Sub, c *Case) error {
	if p.Cleanup != nil {
		defer p.Cleanup()
	}
	return runCheck(newW(p, cfg), s, c)
}
