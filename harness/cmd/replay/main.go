// Command replay runs recorded vectors natively: the harness and the real build of the package.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verifharness/h"
	"verifharness/sym"
)

type vec struct {
	Harness string      `json:"harness"`
	Inputs  []sym.Input `json:"inputs"`
	Tail    uint64      `json:"tail"`
}

type out struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Logs   []string `json:"logs"`
}

func runOne(v vec, par bool) (o out) {
	f := h.Registry[v.Harness]
	if f == nil {
		return out{Status: "unknown harness " + v.Harness}
	}
	sym.Load(v.Inputs, par, v.Tail)
	defer func() {
		o.Logs = sym.Logs()
		if r := recover(); r != nil {
			if fl, ok := r.(sym.Failure); ok {
				o.Status, o.Msg = fl.Kind, fl.Msg
				return
			}
			o.Status, o.Msg = "panic", fmt.Sprint(r)
			if os.Getenv("REPLAY_STACK") != "" {
				fmt.Fprintf(os.Stderr, "%v\n%s", r, debug.Stack())
			}
		}
	}()
	f()
	o.Status = "ok"
	return
}

func main() {
	repeat := flag.Int("repeat", 1, "runs per vector, until one fails")
	par := flag.Bool("parallel", false, "run Parallel functions concurrently")
	list := flag.Bool("list", false, "list harnesses")
	flag.Parse()
	if *list {
		for n := range h.Registry {
			fmt.Println(n)
		}
		return
	}
	b, err := os.ReadFile(flag.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var vs []vec
	if json.Unmarshal(b, &vs) != nil {
		var v vec
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		vs = []vec{v}
	}
	enc := json.NewEncoder(os.Stdout)
	for _, v := range vs {
		var o out
		for i := 0; i < *repeat; i++ {
			done := make(chan out, 1)
			go func() { done <- runOne(v, *par) }()
			select {
			case o = <-done:
			case <-time.After(10 * time.Second):
				o = out{Status: "hang", Msg: "no result within 10 s"}
				enc.Encode(o)
				os.Exit(0)
			}
			if o.Status != "ok" {
				break
			}
		}
		enc.Encode(o)
	}
}
