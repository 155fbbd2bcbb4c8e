// Package replay runs harnesses natively on solver models.
package replay

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"

	"verif/harness/sym"
)

type Item struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
	Choices map[string]uint64 `json:"choices"`
}

type Result struct {
	Index   int               `json:"index"`
	Outcome string            `json:"outcome"` // ok | assume | fail | panic
	Msg     string            `json:"msg,omitempty"`
	Known   string            `json:"known,omitempty"`
	Obs     map[string]string `json:"obs,omitempty"`
	Stack   string            `json:"stack,omitempty"`
}

func run(f func()) (r Result) {
	defer func() {
		r.Obs = sym.Obs
		switch x := recover().(type) {
		case nil:
		case sym.Failure:
			r.Outcome, r.Msg, r.Known = "fail", x.Msg, x.Known
		case sym.AssumeFailed:
			r.Outcome = "assume"
		default:
			r.Outcome, r.Msg = "panic", fmt.Sprint(x)
			r.Stack = string(debug.Stack())
			if len(r.Stack) > 3000 {
				r.Stack = r.Stack[:3000]
			}
		}
	}()
	r.Outcome = "ok"
	f()
	return
}

// Main reads a JSON array of Items from the file named by the first argument and writes one JSON
// Result per line to standard output. A second argument is the number of times to repeat an item
// until it fails (for behaviour that depends on Go's random map iteration order).
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var items []Item
	if err := json.Unmarshal(b, &items); err != nil {
		panic(err)
	}
	reps := 1
	if len(os.Args) > 2 {
		fmt.Sscan(os.Args[2], &reps)
	}
	stdout := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	w := bufio.NewWriter(stdout)
	enc := json.NewEncoder(w)
	for i, it := range items {
		f := fns[it.Harness]
		if f == nil {
			continue
		}
		var r Result
		for k := 0; k < reps; k++ {
			sym.Reset(it.Model, it.Choices)
			r = run(f)
			if r.Outcome == "fail" || r.Outcome == "panic" {
				break
			}
		}
		r.Index = i
		enc.Encode(r)
		w.Flush()
	}
}
