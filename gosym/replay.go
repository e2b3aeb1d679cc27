package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type replayResp struct {
	Status  string   `json:"status"`
	Msg     string   `json:"msg,omitempty"`
	Stack   string   `json:"stack,omitempty"`
	Obs     []string `json:"obs,omitempty"`
	Missing int      `json:"missing"`
	Reached []string `json:"reached,omitempty"`
}
type replayReq struct {
	Prop     string  `json:"prop"`
	Thorough bool    `json:"thorough"`
	Inputs   []witIn `json:"inputs"`
	Repeat   int     `json:"repeat"`
}

// Replayer runs witnesses on the native build of the harness and the repository.
type Replayer struct {
	mu      sync.Mutex
	dir     string
	harness string
	bin     map[bool]string
	err     map[bool]error
	runs    int
	proc    map[bool]*rproc
}
type rproc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	eb  *bytes.Buffer
}

func newReplayer(harness, dir string) *Replayer {
	return &Replayer{harness: harness, dir: dir, bin: map[bool]string{}, err: map[bool]error{}, proc: map[bool]*rproc{}}
}

func (r *Replayer) build(race bool) (string, error) {
	if b, ok := r.bin[race]; ok {
		return b, r.err[race]
	}
	out := filepath.Join(r.dir, fmt.Sprintf("replay-%v", race))
	args := []string{"build", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./cmd/replay")
	c := exec.Command("go", args...)
	c.Dir = r.harness
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("building the native harness: %v\n%s", err, b)
	}
	r.bin[race], r.err[race] = out, err
	return out, err
}

func (r *Replayer) get(race bool) *rproc {
	if p := r.proc[race]; p != nil {
		return p
	}
	bin, err := r.build(race)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nil
	}
	c := exec.Command(bin)
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	eb := &bytes.Buffer{}
	c.Stderr = eb
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return nil
	}
	p := &rproc{c, in, bufio.NewReaderSize(out, 1<<20), eb}
	r.proc[race] = p
	return p
}

// run replays one witness. multi: a race or an iteration-order dependence, repeated (and under the race detector).
func (r *Replayer) run(prop string, thorough bool, w []witIn, multi bool) *replayResp {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.runs++
	rs := r.once(replayReq{prop, thorough, w, 1}, false)
	if multi && rs != nil && rs.Status == "ok" {
		rs = r.once(replayReq{prop, thorough, w, 400}, false)
		if rs != nil && rs.Status == "ok" && usesConcurrency[prop] {
			rs = r.once(replayReq{prop, thorough, w, 50}, true)
		}
	}
	return rs
}

var usesConcurrency = map[string]bool{"C18": true}

func (r *Replayer) once(rq replayReq, race bool) *replayResp {
	p := r.get(race)
	if p == nil {
		return nil
	}
	b, _ := json.Marshal(rq)
	p.in.Write(append(b, '\n'))
	type res struct {
		l []byte
		e error
	}
	ch := make(chan res, 1)
	go func() {
		l, e := p.out.ReadBytes('\n')
		ch <- res{l, e}
	}()
	select {
	case x := <-ch:
		if x.e == nil {
			var rs replayResp
			if json.Unmarshal(x.l, &rs) == nil {
				if rs.Status == "hang" {
					delete(r.proc, race)
				}
				return &rs
			}
			return nil
		}
	case <-time.After(90 * time.Second):
		p.cmd.Process.Kill()
		p.cmd.Wait()
		delete(r.proc, race)
		return nil
	}
	// the process died
	err := p.cmd.Wait()
	delete(r.proc, race)
	txt := p.eb.String()
	st := "crash"
	msg := fmt.Sprint(err)
	if strings.Contains(txt, "DATA RACE") {
		st, msg = "race", "data race"
	} else if i := strings.Index(txt, "fatal error:"); i >= 0 {
		msg = strings.SplitN(txt[i:], "\n", 2)[0]
	} else if strings.Contains(txt, "stack overflow") {
		msg = "stack overflow"
	} else if strings.Contains(fmt.Sprint(err), "killed") {
		return nil
	}
	if len(txt) > 4000 {
		txt = txt[:4000]
	}
	return &replayResp{Status: st, Msg: msg, Stack: txt}
}

func (r *Replayer) close() {
	for _, p := range r.proc {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "GONOSUMDB=*", "GONOSUMCHECK=1")
}
