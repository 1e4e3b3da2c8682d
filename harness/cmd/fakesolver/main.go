// fakesolver stands in for a SAT solver. It finds its instructions next to
// the path it was started by and leaves a record of the run there.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verif/harness/layout"
	"verif/harness/sat"
)

// Script says what to do.
type Script struct {
	Solve  bool     `json:"solve"` // answer truthfully
	Seed   int64    `json:"seed"`
	Layout layout.L `json:"layout"`
	Stdout string   `json:"stdout"`
	Stderr int      `json:"stderr"`
	Code   int      `json:"code"`
	Sig    int      `json:"sig"`
	Gate   string   `json:"gate"`  // directory of the signs exchanged with the caller
	Delay  int      `json:"delay"` // how long it takes, in ms
	Max    int      `json:"max"`   // runs after which it gives up, if positive
}

// Run is the record of a run.
type Run struct {
	Texts []string `json:"texts"` // the files among the arguments
	Lits  [][]int  `json:"lits"`
	Code  int      `json:"code"`
	Late  bool     `json:"late"` // the waiting was in vain
	Bad   string   `json:"bad"`  // the formula could not be read
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "fakesolver:", err)
		os.Exit(99)
	}
}

func main() {
	raise()
	dir := filepath.Dir(os.Args[0])
	b, err := os.ReadFile(filepath.Join(dir, "script.json"))
	die(err)
	var s Script
	die(json.Unmarshal(b, &s))
	if s.Max > 0 {
		if b, err := os.ReadFile(filepath.Join(dir, "runs.ndjson")); err == nil && bytes.Count(b, []byte("\n")) >= s.Max {
			os.Exit(1)
		}
	}
	r := Run{Code: s.Code, Texts: []string{}, Lits: [][]int{}}
	if s.Gate != "" {
		sign(s.Gate, "started")
		r.Late = !await(s.Gate, "read")
	}
	for _, a := range os.Args[1:] {
		if st, err := os.Stat(a); err == nil && st.Mode().IsRegular() {
			t, err := os.ReadFile(a)
			die(err)
			r.Texts = append(r.Texts, string(t))
		}
	}
	time.Sleep(time.Duration(s.Delay) * time.Millisecond)
	out := s.Stdout
	if s.Gate != "" {
		sign(s.Gate, "have")
		r.Late = !await(s.Gate, "go") || r.Late
	}
	if s.Solve {
		out, r.Code = "", 1
		if len(r.Texts) == 1 {
			cls, nv, err := read(r.Texts[0])
			if err != nil {
				r.Bad = err.Error()
			} else {
				sol := sat.New(nv, cls)
				rnd := rand.New(rand.NewSource(s.Seed))
				bias := rnd.Intn(3)
				sol.SetPhase(func(int) bool {
					return bias == 0 && rnd.Intn(2) == 0 || bias == 1 && rnd.Intn(6) == 0 || bias == 2 && rnd.Intn(6) > 0
				})
				if sol.Solve() {
					var lits []int
					for v := 1; v <= nv; v++ {
						if sol.Value(v) {
							lits = append(lits, v)
						} else {
							lits = append(lits, -v)
						}
					}
					out, r.Lits = layout.Answer(lits, s.Layout)
					r.Code = 10
				} else {
					out, r.Code = "s UNSATISFIABLE\n", 20
				}
			}
		}
	}
	j, err := json.Marshal(r)
	die(err)
	f, err := os.OpenFile(filepath.Join(dir, "runs.ndjson"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	die(err)
	_, err = f.Write(append(j, '\n'))
	die(err)
	die(f.Close())
	if s.Stderr > 0 {
		l := []string{"some diagnostics\n", "v 1 2 3 0\n", "s UNSATISFIABLE\n", "s SATISFIABLE\n"}[s.Seed&3]
		_, _ = os.Stderr.WriteString(strings.Repeat(l, 1+s.Stderr/len(l)))
	}
	_, _ = os.Stdout.WriteString(out)
	if s.Sig > 0 {
		die(syscall.Exec("/bin/sh", []string{"sh", "-c", "kill -" + strconv.Itoa(s.Sig) + " $$; sleep 20"}, os.Environ()))
	}
	os.Exit(r.Code)
}

func sign(gate, name string) { die(os.WriteFile(filepath.Join(gate, name), nil, 0o644)) }

func await(gate, name string) bool {
	for n := 0; n < 40000; n++ {
		if _, err := os.Stat(filepath.Join(gate, name)); err == nil {
			return true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return false
}

// raise undoes a limit on the size of files meant for the caller.
func raise() {
	var l syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l) == nil {
		l.Cur = l.Max
		_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
	}
	var c syscall.Rlimit // no core files
	if syscall.Getrlimit(syscall.RLIMIT_CORE, &c) == nil {
		c.Cur = 0
		_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &c)
	}
}

// read parses a DIMACS text.
func read(t string) ([][]int, int, error) {
	var cls [][]int
	nv, nc, head := 0, 0, false
	var cur []int
	for _, l := range strings.Split(t, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || f[0] == "c" {
			continue
		}
		if f[0] == "p" {
			if len(f) != 4 || head {
				return nil, 0, fmt.Errorf("bad header")
			}
			var e1, e2 error
			nv, e1 = strconv.Atoi(f[2])
			nc, e2 = strconv.Atoi(f[3])
			if e1 != nil || e2 != nil {
				return nil, 0, fmt.Errorf("bad header")
			}
			head = true
			continue
		}
		if !head {
			return nil, 0, fmt.Errorf("no header")
		}
		for _, x := range f {
			n, err := strconv.Atoi(x)
			if err != nil || n > nv || -n > nv {
				return nil, 0, fmt.Errorf("bad literal %q", x)
			}
			if n == 0 {
				cls = append(cls, cur)
				cur = nil
				continue
			}
			cur = append(cur, n)
		}
	}
	if !head || len(cur) > 0 || len(cls) != nc {
		return nil, 0, fmt.Errorf("bad number of clauses")
	}
	return cls, nv, nil
}
