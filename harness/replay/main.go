// replay runs one harness natively on a concrete assignment: replay IN OUT DIR
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"

	"verif/harness/h"
	"verif/harness/nd"
	"verif/harness/selftest"
)

func main() {
	args, stdout := os.Args, os.Stdout // a harness can change them
	b, err := os.ReadFile(args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var c struct {
		Harness string     `json:"harness"`
		Inputs  []nd.Input `json:"inputs"`
		Tier    string     `json:"tier"`
		Extend  uint64     `json:"extend"`
		Vary    bool       `json:"vary"`
	}
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	f := h.Registry[c.Harness]
	if f == nil {
		f = selftest.Registry[c.Harness]
	}
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", c.Harness)
		os.Exit(3)
	}
	nd.In, nd.Tier, nd.Dir = c.Inputs, c.Tier, args[3]
	nd.Extend, nd.Vary = c.Extend, c.Vary
	log.SetOutput(io.Discard)
	if len(args) < 5 {
		null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		os.Stdout = null
	}
	emit := func(o nd.Outcome) {
		b, _ := json.Marshal(o)
		os.WriteFile(args[2], b, 0o644)
		if len(args) >= 5 {
			fmt.Fprintln(stdout, string(b))
		}
	}
	defer func() {
		r := recover()
		switch e := r.(type) {
		case nil:
			emit(nd.Outcome{Result: "ok", Obs: nd.Obs})
		case nd.Ended:
			emit(e.Outcome)
		default:
			emit(nd.Outcome{Result: "panic", Msg: fmt.Sprint(r), Obs: nd.Obs, Tag: nd.Tag, Used: nd.Used})
		}
	}()
	f()
}
