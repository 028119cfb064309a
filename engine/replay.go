package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type nres struct {
	Fails   []string `json:"fails"`
	Panic   string   `json:"panic"`
	Assume  bool     `json:"assume"`
	Obs     []string `json:"obs"`
	Covers  []string `json:"covers"`
	Missing []string `json:"missing"`
	NoFunc  bool     `json:"nofunc"`
	Hang    bool     `json:"-"`
	Crash   bool     `json:"-"`
}

var buildOnce sync.Map // module rel -> *built
type built struct {
	once sync.Once
	bin  string
	err  error
}

func (e *Engine) runner(m *Module) (string, error) {
	v, _ := buildOnce.LoadOrStore(m.rel, &built{})
	b := v.(*built)
	b.once.Do(func() {
		ov, err := m.overlayFile(e.work, e.hs)
		if err != nil {
			b.err = err
			return
		}
		b.bin = filepath.Join(e.work, "runner_"+filepath.Base("x"+m.rel))
		cmd := exec.Command("go", "build", "-overlay", ov, "-o", b.bin, "./verifmain")
		cmd.Dir = m.dir
		cmd.Env = goEnv(m.modfile)
		out, err := cmd.CombinedOutput()
		if err != nil {
			b.err = fmt.Errorf("building the replay program: %v\n%s", err, out)
		}
	})
	return b.bin, b.err
}

// Replayer is one native process per worker and module.
type Replayer struct {
	eng *Engine
	id  int
	ps  map[string]*rproc
	dir string
}
type rproc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *tailBuf
}

// tailBuf keeps the beginning of what the program wrote to its standard error.
type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(b []byte) (int, error) {
	t.mu.Lock()
	if len(t.b) < 2000 {
		t.b = append(t.b, b...)
	}
	t.mu.Unlock()
	return len(b), nil
}
func (t *tailBuf) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := strings.TrimSpace(string(t.b))
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func (r *Replayer) close() {
	for _, p := range r.ps {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	r.ps = nil
	if r.dir != "" {
		os.RemoveAll(r.dir)
	}
}

func (r *Replayer) run(h *Harness, in map[string]string, limit time.Duration) *nres {
	m := r.eng.mods[h.module]
	bin, err := r.eng.runner(m)
	if err != nil {
		r.eng.note(h, err.Error())
		return nil
	}
	if r.dir == "" {
		r.dir, _ = os.MkdirTemp(r.eng.work, "scratch")
	}
	if r.ps == nil {
		r.ps = map[string]*rproc{}
	}
	p := r.ps[m.rel]
	if p == nil {
		cmd := exec.Command(bin)
		cmd.Dir = r.dir
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=none")
		errs := &tailBuf{}
		cmd.Stderr = errs
		i, _ := cmd.StdinPipe()
		o, _ := cmd.StdoutPipe()
		if err := cmd.Start(); err != nil {
			r.eng.note(h, "cannot start the replay program: "+err.Error())
			return nil
		}
		p = &rproc{cmd, i, bufio.NewReaderSize(o, 1<<20), errs}
		r.ps[m.rel] = p
	}
	b, _ := json.Marshal(map[string]interface{}{"h": h.name, "in": in, "t": r.eng.tier, "dir": r.dir})
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			ch <- ans{nil, err}
			return
		}
		l, err := p.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	kill := func() {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		delete(r.ps, m.rel)
	}
	select {
	case a := <-ch:
		if a.err != nil {
			kill()
			return &nres{Crash: true, Panic: "process ended: " + p.err.String()}
		}
		var n nres
		if json.Unmarshal(a.line, &n) != nil {
			kill()
			return &nres{Crash: true, Panic: "unreadable answer"}
		}
		if n.NoFunc {
			return nil
		}
		return &n
	case <-time.After(limit):
		kill()
		return &nres{Hang: true}
	}
}
