// vdrive executes stimuli (one JSON object per line) on the real library and
// records what it observes as trace events for the specification.
//
//	vdrive gen  -prop C01 -seed 1 -tier quick -out stimuli.ndjson
//	vdrive exec -in stimuli.ndjson -out events.ndjson [-dpll]
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
)

// An Obj is a JSON object.
type Obj = map[string]any

// executors by stimulus kind; each fills in the observations.
var executors = map[string]func(raw json.RawMessage, ev Obj){}

// generators by property.
var generators = map[string]func(g *Gen){}

var useDPLL bool

// heedSignals makes programs started from here have the usual reaction to
// signals, even where this one was started with some of them ignored.
func heedSignals() {
	c := make(chan os.Signal, 1)
	for s := syscall.Signal(1); s < 32; s++ {
		if signal.Ignored(s) {
			signal.Notify(c, s)
		}
	}
}

func main() {
	heedSignals()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdrive gen|exec ...")
		os.Exit(2)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	in := fs.String("in", "", "stimuli")
	out := fs.String("out", "", "output")
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "tier")
	skip := fs.Int("skip", 0, "stimuli to skip")
	limit := fs.Int("timeout", 60, "seconds per stimulus")
	fs.BoolVar(&useDPLL, "dpll", false, "decide satisfiability with the second procedure")
	_ = fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "gen":
		gen, ok := generators[*prop]
		if !ok {
			fmt.Fprintln(os.Stderr, "no generator for", *prop)
			os.Exit(2)
		}
		f, err := os.Create(*out)
		check(err)
		w := bufio.NewWriterSize(f, 1<<20)
		g := newGen(*prop, *seed, *tier, w)
		gen(g)
		check(w.Flush())
		check(f.Close())
		fmt.Println(g.n)
	case "exec":
		run(*in, *out, *skip, time.Duration(*limit)*time.Second)
	default:
		os.Exit(2)
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "vdrive:", err)
		os.Exit(2)
	}
}

// run executes the stimuli one after another. An event line is written and
// flushed for each of them, so that the caller knows which one was running
// when the process ended.
func run(in, out string, skip int, limit time.Duration) {
	f, err := os.Open(in)
	check(err)
	defer f.Close()
	mode := os.O_CREATE | os.O_WRONLY | os.O_APPEND
	o, err := os.OpenFile(out, mode, 0o644)
	check(err)
	rd := bufio.NewReaderSize(f, 1<<20)
	w := bufio.NewWriterSize(o, 1<<20)
	var cur Obj
	beat := make(chan struct{}, 1)
	go func() { // watchdog
		t := time.NewTimer(limit)
		tick := time.NewTicker(200 * time.Millisecond)
		for {
			select {
			case <-beat:
				t.Reset(limit)
			case <-t.C:
				die(w, o, cur, "hang", "no answer within the time limit")
			case <-tick.C:
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					die(w, o, cur, "hang", "memory exhausted")
				}
			}
		}
	}()
	for n := 0; ; n++ {
		line, rerr := rd.ReadBytes('\n')
		if len(line) > 1 && n >= skip {
			ev := Obj{}
			check(json.Unmarshal(line, &ev))
			cur = ev
			select {
			case beat <- struct{}{}:
			default:
			}
			one(line, ev)
			b, err := json.Marshal(ev)
			check(err)
			_, _ = w.Write(b)
			_ = w.WriteByte('\n')
			check(w.Flush())
		}
		if rerr != nil {
			break
		}
	}
	check(w.Flush())
	check(o.Close())
}

func die(w *bufio.Writer, o *os.File, ev Obj, out, msg string) {
	// The map may be in use by the stuck goroutine; copy the stimulus only.
	e := Obj{"id": ev["id"], "kind": ev["kind"], "out": out, "msg": msg}
	b, _ := json.Marshal(e)
	_, _ = o.Write(append(b, '\n'))
	os.Exit(3)
}

func one(raw json.RawMessage, ev Obj) {
	kind, _ := ev["kind"].(string)
	ex, ok := executors[kind]
	if !ok {
		check(fmt.Errorf("no executor for kind %q", kind))
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if strings.HasPrefix(msg, "sat:") || strings.HasPrefix(msg, "ast:") || strings.HasPrefix(msg, "harness:") {
				check(fmt.Errorf("%s\n%s", msg, debug.Stack()))
			}
			ev["out"] = "panic"
			ev["msg"] = msg
		}
	}()
	ex(raw, ev)
}

func parse(raw json.RawMessage, v any) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic("harness: " + err.Error())
	}
}
