package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Replayer runs vectors against the real build of /repo.
type Replayer struct {
	dir   string
	tmp   string
	fixed string
	mu    sync.Mutex
	bins  map[string]chan string
}

type repOut struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Logs   []string `json:"logs"`
}

func newReplayer(dir, fixed string) *Replayer {
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	r := &Replayer{dir: dir, tmp: tmp, fixed: fixed, bins: map[string]chan string{}}
	r.start("")
	return r
}

func (r *Replayer) start(variant string) chan string {
	r.mu.Lock()
	defer r.mu.Unlock()
	if c, ok := r.bins[variant]; ok {
		return c
	}
	c := make(chan string, 1)
	r.bins[variant] = c
	go func() {
		out := filepath.Join(r.tmp, "replay"+variant)
		args := []string{"build", "-mod=mod", "-tags=verif", "-o", out}
		env := append(os.Environ(), "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off")
		switch variant {
		case "race":
			args = append(args, "-race")
			env = append(env, "CGO_ENABLED=1")
		case "checkptr":
			args = append(args, "-gcflags=all=-d=checkptr")
		}
		args = append(args, "./cmd/replay")
		cmd := exec.Command("go", args...)
		cmd.Dir = r.dir
		cmd.Env = env
		if b, err := cmd.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "building the replay binary (%s): %v\n%s\n", variant, err, b)
			c <- ""
			return
		}
		c <- out
	}()
	return c
}

func (r *Replayer) bin(variant string) string {
	c := r.start(variant)
	b := <-c
	c <- b
	return b
}

func (r *Replayer) exec(variant string, vecs []*vectorRec, timeout time.Duration, repeat int) ([]repOut, string, error) {
	bin := r.bin(variant)
	if bin == "" {
		return nil, "", fmt.Errorf("no replay binary")
	}
	f, err := os.CreateTemp(r.tmp, "vec*.json")
	if err != nil {
		return nil, "", err
	}
	json.NewEncoder(f).Encode(vecs)
	f.Close()
	defer os.Remove(f.Name())
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	args := []string{"-repeat", fmt.Sprint(repeat)}
	if variant == "race" {
		args = append(args, "-parallel")
	}
	cmd := exec.CommandContext(ctx, bin, append(args, f.Name())...)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMEMLIMIT=4GiB")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var outs []repOut
	for _, line := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(line, "{") {
			var o repOut
			if json.Unmarshal([]byte(line), &o) == nil {
				outs = append(outs, o)
			}
		}
	}
	if ctx.Err() != nil {
		return outs, se.String(), fmt.Errorf("timeout")
	}
	return outs, se.String(), err
}

func (r *Replayer) batch(vecs []*vectorRec, variant string) ([]repOut, error) {
	outs, se, err := r.exec(variant, vecs, 120*time.Second, 1)
	if err != nil {
		if len(se) > 400 {
			se = se[:400]
		}
		return outs, fmt.Errorf("%v: %s", err, se)
	}
	return outs, nil
}

// confirm runs one counterexample against the real build.
func (r *Replayer) confirm(v *vectorRec) (bool, string) {
	variant := ""
	repeat := 1
	switch v.Kind {
	case "memory":
		variant = "checkptr"
	case "race":
		variant = "race"
		repeat = 20
	}
	if v.Unordered && repeat == 1 {
		repeat = 300
	}
	outs, se, err := r.exec(variant, []*vectorRec{v}, 25*time.Second, repeat)
	if err != nil {
		switch {
		case err.Error() == "timeout":
			if v.Kind == "hang" {
				return true, "the real build does not terminate within 25 s"
			}
			return false, "timeout"
		case strings.Contains(se, "DATA RACE"):
			return true, "race detector"
		case strings.Contains(se, "checkptr"):
			return true, "checkptr: " + firstLine(se)
		case strings.Contains(se, "fatal error") || strings.Contains(se, "panic:") || strings.Contains(se, "SIGSEGV"):
			return true, "crash: " + firstLine(se)
		}
		return false, err.Error() + " " + firstLine(se)
	}
	if len(outs) == 0 {
		return false, "no result"
	}
	o := outs[0]
	switch o.Status {
	case "assert", "panic", "hang":
		if o.Msg != v.Msg && v.Kind == "assert" && o.Status == "assert" {
			return true, "reproduced: " + o.Msg
		}
		return true, "reproduced: " + o.Status + " " + o.Msg
	case "ok":
		// an access beyond an object need not be visible in what the build does; the run takes the path
		if v.Kind == "memory" {
			return true, "the real build runs through the access, which has no visible effect there"
		}
	}
	return false, o.Status
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l != "" {
			if len(l) > 200 {
				l = l[:200]
			}
			return l
		}
	}
	return ""
}

func (r *Replayer) close() { os.RemoveAll(r.tmp) }
