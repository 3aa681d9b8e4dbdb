// Command main runs harness cases natively: the replay side of the checks.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"

	"github.com/arr-ai/hash"

	"github.com/arr-ai/frozen/internal/zzverif/h"
	"github.com/arr-ai/frozen/internal/zzverif/symrt"
)

type result struct {
	Fail    string      `json:"fail,omitempty"`
	Panic   string      `json:"panic,omitempty"`
	Assumed bool        `json:"assumed,omitempty"`
	Obs     []symrt.Obs `json:"obs"`
}

func run(c symrt.Case) (r result) {
	symrt.Start(c)
	hash.ModelHook, hash.ModelK, hash.ModelS = symrt.Any, symrt.HashK, symrt.HashS
	f := h.Harnesses[c.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", c.Harness)
		os.Exit(98)
	}
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case symrt.Fail:
				r.Fail = x.Msg
			case symrt.Assumed:
				r.Assumed = true
			default:
				r.Panic = fmt.Sprint(x)
			}
		} else if symrt.Failed != "" {
			r.Fail = symrt.Failed
		}
		r.Obs = symrt.Log
	}()
	f()
	return
}

func main() {
	debug.SetMaxStack(64 << 20)
	reps := 1
	if s := os.Getenv("ZZ_REPS"); s != "" {
		reps, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("ZZ_PROCS"); s != "" {
		n, _ := strconv.Atoi(s)
		runtime.GOMAXPROCS(n)
	}
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var c symrt.Case
		if err := dec.Decode(&c); err != nil {
			break
		}
		var r result
		for i := 0; i < reps; i++ {
			r = run(c)
			if r.Fail != "" || r.Panic != "" {
				break
			}
		}
		enc.Encode(r)
	}
}
