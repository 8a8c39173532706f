package eng

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}

const (
	exitTool   = 3
	exitRace   = 66
	hangWall   = 60 * time.Second
	hangCPU    = 60  // seconds of CPU for one case, in the confirming run
	sessionCPU = 360 // and for a session of thousands
	maxRSS     = 24 << 30
	exitHeld   = 0
	exitFailed = 1
)

// Main is the entry point of a check binary.
func Main(find func(id string) *Prop) {
	id := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	dir := flag.String("dir", "/verif", "framework directory")
	only := flag.String("only", "", "run only sub-checks with this in their name")
	workers := flag.Int("workers", 0, "parallel workers")
	replay := flag.String("replay", "", "replay one case file")
	mode := flag.String("mode", "", "internal")
	slots := flag.String("slots", "", "internal")
	one := flag.String("one", "", "internal")
	index := flag.Int64("index", 0, "internal")
	flag.Parse()
	p := find(*id)
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property:", *id)
		os.Exit(2)
	}
	if *workers == 0 {
		*workers = runtime.GOMAXPROCS(0)
	}
	cfg := &Config{Dir: *dir, Tier: *tier, Seed: *seed, Workers: *workers, Only: *only, CovBin: os.Getenv("UAXVERIF_COVBIN")}
	if b, err := os.ReadFile(filepath.Join(*dir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &cfg.Findings); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	switch *mode {
	case "child":
		s, err := OpenSlots(*slots)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitTool)
		}
		cfg.Slots = s
		os.Exit(Run(p, cfg))
	case "helper":
		os.Exit(serve(p, cfg))
	case "one":
		s := FindSub(p, *one, *tier)
		if s == nil {
			os.Exit(exitTool)
		}
		limitCPU(s)
		c := s.Gen(NewRng(*seed, p.ID+"/"+s.Name, *index), *index)
		os.Exit(verdict(RunCase(p, cfg, s, c)))
	case "case":
		r, s := loadReplay(p, *replay)
		limitCPU(s)
		os.Exit(verdict(RunCase(p, cfg, s, r.Case)))
	}
	if *replay != "" {
		r, sub := loadReplay(p, *replay)
		fmt.Println("case:", r.Case)
		res, msg := confirm(*id, cfg, sub, "-mode", "case", "-replay", *replay)
		fmt.Println(msg)
		switch res {
		case exitHeld:
			fmt.Println("held")
			os.Exit(0)
		case exitTool:
			os.Exit(2)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, *replay)
		os.Exit(1)
	}
	os.Exit(parent(p, cfg))
}

func verdict(err error) int {
	if err == nil {
		return exitHeld
	}
	fmt.Println(err)
	if errors.Is(err, ErrTool) {
		return exitTool
	}
	return exitFailed
}

func loadReplay(p *Prop, file string) (*Replay, *Sub) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitTool)
	}
	r := new(Replay)
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitTool)
	}
	s := FindSub(p, r.Sub, "quick")
	if s == nil {
		fmt.Fprintln(os.Stderr, "no such sub-check:", r.Sub)
		os.Exit(exitTool)
	}
	return r, s
}

// cpuLimit is the CPU time that one case may take, in seconds.
func cpuLimit(s *Sub) uint64 {
	if s != nil && s.Session {
		return sessionCPU
	}
	return hangCPU
}

func limitCPU(s *Sub) {
	n := cpuLimit(s)
	syscall.Setrlimit(syscall.RLIMIT_CPU, &syscall.Rlimit{Cur: n, Max: n + 1})
}

// confirm runs one case in a process of its own, under a CPU limit. It returns
// exitHeld, exitFailed (wrong result, crash, or out of CPU time) or exitTool.
func confirm(id string, cfg *Config, s *Sub, args ...string) (int, string) {
	bin := os.Args[0]
	if s != nil && s.Cov && cfg.CovBin != "" {
		bin = cfg.CovBin
	}
	cmd := exec.Command(bin, append([]string{"-prop", id, "-tier", cfg.Tier, "-seed", strconv.FormatInt(cfg.Seed, 10), "-dir", cfg.Dir}, args...)...)
	var out tail
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	err := cmd.Run()
	st := cmd.ProcessState
	if st == nil {
		return exitTool, fmt.Sprint(err)
	}
	cpu := st.UserTime() + st.SystemTime()
	switch code := st.ExitCode(); {
	case code == exitHeld:
		return exitHeld, ""
	case code == exitFailed:
		return exitFailed, out.b.String()
	case code == exitTool:
		return exitTool, out.b.String()
	case code == exitRace:
		return exitFailed, "data race\n" + out.b.String()
	case code == -1 && cpu >= time.Duration(cpuLimit(s)-2)*time.Second:
		return exitFailed, fmt.Sprintf("no result after %d s of CPU time", cpuLimit(s))
	case code == -1:
		return exitTool, "killed: " + st.String()
	case code == 2 && (strings.Contains(out.b.String(), "out of memory") || strings.Contains(out.b.String(), "cannot allocate memory")):
		return exitTool, out.b.String()
	default:
		return exitFailed, "process crashed: " + st.String() + "\n" + out.b.String()
	}
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func parent(p *Prop, cfg *Config) int {
	f, err := os.CreateTemp("", "uaxslots")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	f.Close()
	defer os.Remove(f.Name())
	slots, err := OpenSlots(f.Name())
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cmd := exec.Command(os.Args[0], "-mode", "child", "-slots", f.Name(), "-prop", p.ID, "-tier", cfg.Tier, "-seed", strconv.FormatInt(cfg.Seed, 10), "-dir", cfg.Dir, "-only", cfg.Only, "-workers", strconv.Itoa(cfg.Workers))
	var errs tail
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.MultiWriter(os.Stderr, &errs)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	patience := map[Slot]bool{}
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
	for running := true; running; {
		select {
		case <-done:
			running = false
		case <-tick.C:
			if rss(cmd.Process.Pid) > maxRSS {
				cmd.Process.Kill()
				<-done
				fmt.Fprintln(os.Stderr, "the check ran out of memory: inconclusive")
				return 2
			}
			for _, s := range slots.Active() {
				if time.Since(s.Since) < hangWall || patience[s] {
					continue
				}
				patience[s] = true
				res, msg := confirm(p.ID, cfg, FindSub(p, s.Sub, cfg.Tier), "-mode", "one", "-one", s.Sub, "-index", strconv.FormatInt(s.Index, 10))
				if res == exitFailed {
					cmd.Process.Kill()
					<-done
					reportSlot(p, cfg, s, msg)
					return 1
				}
			}
		}
	}
	code := cmd.ProcessState.ExitCode()
	switch code {
	case exitHeld, exitFailed:
		return code
	case exitTool:
		return 2
	}
	crash := "process ended: " + cmd.ProcessState.String() + "\n" + errs.b.String()
	if code == exitRace {
		if !strings.Contains(crash, "clipperhouse/uax29/v2/") {
			return 2
		}
		for _, s := range slots.Active() {
			reportSlot(p, cfg, s, crash)
			return 1
		}
		return 2
	}
	if code == -1 {
		fmt.Fprintln(os.Stderr, "the check was killed:", cmd.ProcessState)
		return 2
	}
	for _, s := range slots.Active() {
		res, msg := confirm(p.ID, cfg, FindSub(p, s.Sub, cfg.Tier), "-mode", "one", "-one", s.Sub, "-index", strconv.FormatInt(s.Index, 10))
		if res == exitFailed {
			reportSlot(p, cfg, s, msg)
			return 1
		}
	}
	fmt.Fprintln(os.Stderr, "the check crashed, and no case reproduces it")
	return 2
}

func reportSlot(p *Prop, cfg *Config, s Slot, msg string) {
	sub := FindSub(p, s.Sub, cfg.Tier)
	if sub == nil {
		return
	}
	c := sub.Gen(NewRng(cfg.Seed, p.ID+"/"+sub.Name, s.Index), s.Index)
	Report(cfg, &Replay{Property: p.ID, Sub: sub.Name, Seed: cfg.Seed, Index: s.Index, Error: msg, Case: c})
	writeEvidence(p, cfg, []*subStat{{Name: sub.Name, Rule: sub.Rule, Evaluations: 1}}, 0, 1)
}
