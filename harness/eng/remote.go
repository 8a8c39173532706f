package eng

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"syscall"
)

// A property whose measurements are of a whole process (allocations, coverage
// counters) is checked by helper processes, one for each worker.

type request struct {
	Sub  string
	Case *Case
}

type reply struct {
	Err    string           `json:",omitempty"`
	Tool   bool             `json:",omitempty"`
	NT     bool             `json:",omitempty"`
	Evals  int64            `json:",omitempty"`
	Labels map[string]int64 `json:",omitempty"`
	Case   *Case            `json:",omitempty"`
}

type helper struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	enc *json.Encoder
	dec *json.Decoder
}

func startHelper(p *Prop, cfg *Config, bin string) (*helper, error) {
	cmd := exec.Command(bin, "-mode", "helper", "-prop", p.ID, "-tier", cfg.Tier, "-seed", strconv.FormatInt(cfg.Seed, 10), "-dir", cfg.Dir)
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &helper{cmd, in, json.NewEncoder(in), json.NewDecoder(bufio.NewReaderSize(out, 1<<16))}, nil
}

func (h *helper) stop() {
	h.in.Close()
	h.cmd.Wait()
}

// check asks the helper. If the helper is gone, this process ends as well, as
// if the case had crashed it.
func (h *helper) check(w *W, s *Sub, c *Case) error {
	var r reply
	err := h.enc.Encode(request{s.Name, c})
	if err == nil {
		err = h.dec.Decode(&r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "a helper process ended:", err)
		os.Exit(2)
	}
	w.nt = w.nt || r.NT
	w.evals += r.Evals
	for l, n := range r.Labels {
		w.labels[l] += n
	}
	switch {
	case r.Err == "":
		return nil
	case r.Tool:
		return fmt.Errorf("%w: %s", ErrTool, r.Err)
	case r.Case != nil:
		return &Concrete{errors.New(r.Err), r.Case}
	}
	return errors.New(r.Err)
}

// serve is the helper's side.
func serve(p *Prop, cfg *Config) int {
	runtime.GOMAXPROCS(2)
	if p.Pre != nil {
		if err := p.Pre(); err != nil {
			return exitTool
		}
	}
	subs := map[string]*Sub{}
	for _, s := range p.Subs(cfg.Tier) {
		subs[s.Name] = s
	}
	w := newW(p, cfg)
	dec := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<16))
	enc := json.NewEncoder(os.Stdout)
	for {
		var q request
		if err := dec.Decode(&q); err != nil {
			return 0
		}
		w.nt, w.evals = false, 0
		clear(w.labels)
		var r reply
		if err := runCheck(w, subs[q.Sub], q.Case); err != nil {
			r.Err, r.Tool = err.Error(), errors.Is(err, ErrTool)
			if cc := (*Concrete)(nil); errors.As(err, &cc) {
				r.Case = cc.Case
			}
		}
		r.NT, r.Evals, r.Labels = w.nt, w.evals, w.labels
		if err := enc.Encode(&r); err != nil {
			return 0
		}
	}
}
