package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
	"verif/harness/sat"
)

// cnfStim is a history of formula operations over base variables 1..N.
type cnfStim struct {
	N     int        `json:"n"`
	Ops   []cnfOp    `json:"ops"`
	D     int        `json:"d"`
	Tree  []ast.Node `json:"tree"`
	Rules []string   `json:"rules"`
}

type cnfOp struct {
	Op     string  `json:"op"`
	H      int     `json:"h"`
	G      int     `json:"g"`
	Cl     [][]int `json:"cl"`
	Spare  int     `json:"spare"`  // capacity left in the list
	CSpare int     `json:"cspare"` // capacity left in each clause
	Bound  string  `json:"bound"`
	Off    int     `json:"off"`
	Q      *ast.Q  `json:"q"`
	File   string  `json:"file"`
}

const sentinel = 424242

func init() { executors["cnf"] = execCnf }

func litMax(cs []cnf.Clause) int {
	m := 0
	for _, c := range cs {
		for _, l := range c {
			m = max(m, l, -l)
		}
	}
	return m
}

func digestOf(f cnf.CNF) string {
	h := fnv.New64a()
	s, c := f.Clauses()
	fmt.Fprint(h, f.TopV())
	for _, l := range [][]cnf.Clause{s, c} {
		fmt.Fprint(h, "|", len(l))
		for _, cl := range l {
			fmt.Fprint(h, ";", []int(cl))
		}
	}
	return strconv.FormatUint(h.Sum64(), 36)
}

// memory is a clause list of the caller, seen up to its capacity.
type memory []cnf.Clause

func (m memory) digest() string {
	h := fnv.New64a()
	for _, cl := range m[:cap(m)] {
		fmt.Fprint(h, ";", len(cl), []int(cl[:cap(cl)]))
	}
	return strconv.FormatUint(h.Sum64(), 36)
}

func makeArg(o cnfOp) memory {
	a := make(memory, 0, len(o.Cl)+o.Spare)
	for _, cl := range o.Cl {
		c := make(cnf.Clause, 0, len(cl)+o.CSpare)
		c = append(c, cl...)
		for i := len(c); i < cap(c); i++ {
			c[:cap(c)][i] = sentinel
		}
		a = append(a, c)
	}
	for i := len(a); i < cap(a); i++ {
		a[:cap(a)][i] = cnf.Clause{sentinel}
	}
	return a
}

func execCnf(raw json.RawMessage, ev Obj) {
	var st cnfStim
	parse(raw, &st)
	for _, k := range []string{"ops", "tree", "d"} {
		delete(ev, k)
	}
	fs := []cnf.CNF{{}, cnf.TrueCNF, cnf.FalseCNF} // numbered from 1
	var args []memory
	steps := []Obj{}
	ev["out"] = "ok"
	defer func() { ev["steps"] = steps }()

	var scratch string
	defer func() {
		if scratch != "" {
			_ = os.RemoveAll(scratch)
		}
	}()

	note := func(o Obj) {
		d := []string{digestOf(cnf.TrueCNF), digestOf(cnf.FalseCNF)}
		for _, f := range fs[3:] {
			d = append(d, digestOf(f))
		}
		a := []string{memory(cnf.NegClauses).digest()}
		for _, m := range args {
			a = append(a, m.digest())
		}
		o["dig"], o["args"] = d, a
		steps = append(steps, o)
	}
	vars := func(f cnf.CNF) map[int]bool {
		r := map[int]bool{}
		s, c := f.Clauses()
		for _, l := range [][]cnf.Clause{s, c} {
			for _, cl := range l {
				for _, x := range cl {
					r[max(x, -x)] = true
				}
			}
		}
		return r
	}
	describe := func(f cnf.CNF, operands ...cnf.CNF) Obj {
		s, c := f.Clauses()
		known := map[int]bool{}
		for _, g := range operands {
			for v := range vars(g) {
				known[v] = true
			}
		}
		fresh := []int{}
		for v := range vars(f) {
			if !known[v] {
				fresh = append(fresh, v)
			}
		}
		sortInts(fresh)
		mean := func(lists ...[][]int) []int {
			lists = dense(st.N, lists)
			sol := sat.New(st.N, lists...)
			r := []int{}
			for a := 0; a < 1<<st.N; a++ {
				as := make([]int, st.N)
				for v := 1; v <= st.N; v++ {
					as[v-1] = v
					if a>>(v-1)&1 == 0 {
						as[v-1] = -v
					}
				}
				ok := false
				if useDPLL {
					if r, done := sat.DPLL(lists, as); done {
						ok = r
					} else {
						ok = sol.Solve(as...)
					}
				} else {
					ok = sol.Solve(as...)
				}
				if ok {
					r = append(r, a)
				}
			}
			return r
		}
		cs, ss := asInts(c), asInts(s)
		o := Obj{"tv": num(f.TopV()), "max": num(max(litMax(s), litMax(c))), "new": nums(fresh),
			"tt": f.TriviallyTrue(), "tf": f.TriviallyFalse(), "c": []int{}, "sc": []int{}}
		if st.N > 0 {
			o["c"], o["sc"] = mean(cs), mean(cs, ss)
		}
		return o
	}
	global := func() int {
		m := st.N
		for _, f := range fs[1:] {
			s, c := f.Clauses()
			m = max(m, f.TopV(), litMax(s), litMax(c))
		}
		return m
	}
	note(Obj{"op": "start"})
	for _, o := range st.Ops {
		cl := o.Cl
		if cl == nil {
			cl = [][]int{}
		}
		switch o.Op {
		case "new":
			a := makeArg(o)
			was := a.digest()
			args = append(args, a)
			f := cnf.FromClauses(a)
			fs = append(fs, f)
			note(Obj{"op": "new", "cl": cl, "f": describe(f), "arg": was})
		case "newh": // a formula of the clauses of another one
			s, _ := fs[o.G].Clauses()
			f := cnf.FromClauses(s)
			fs = append(fs, f)
			note(Obj{"op": "newh", "f": describe(f)})
		case "apps", "appc":
			a := makeArg(o)
			was := a.digest()
			args = append(args, a)
			var f cnf.CNF
			if o.Op == "apps" {
				f = fs[o.H].AppendSemantics(a...)
			} else {
				f = fs[o.H].AppendConsistency(a...)
			}
			fs = append(fs, f)
			note(Obj{"op": o.Op, "h": o.H, "cl": cl, "f": describe(f), "arg": was})
		case "appsh":
			s, c := fs[o.G].Clauses()
			var f cnf.CNF
			if o.Off%2 == 0 {
				f = fs[o.H].AppendSemantics(s...)
			} else {
				f = fs[o.H].AppendConsistency(c...)
			}
			fs = append(fs, f)
			note(Obj{"op": "appsh", "f": describe(f)})
		case "conj":
			f := fs[o.H].Conjunction(fs[o.G])
			fs = append(fs, f)
			note(Obj{"op": "conj", "h": o.H, "g": o.G, "f": describe(f)})
		case "neg":
			s, c := fs[o.H].Clauses()
			hmax := max(litMax(s), litMax(c))
			var f cnf.CNF
			b := 0
			switch o.Bound {
			case "none":
				f = fs[o.H].Negate()
			case "low":
				b = o.Off
				f = fs[o.H].Negate(b)
			default:
				b = global() + o.Off
				f = fs[o.H].Negate(b)
			}
			f2 := describe(f, fs[o.H])
			fs = append(fs, f)
			note(Obj{"op": "neg", "h": o.H, "bound": num(b), "hmax": num(hmax), "f": f2})
		case "enc":
			ctx := query.BasicQContext(ast.NewTree(st.D, st.Tree))
			f, err := ast.Build(o.Q, ast.NameStyle(0)).Encoding(ctx)
			if err != nil {
				panic("harness: the query cannot be encoded: " + err.Error())
			}
			n := st.N
			st.N = 0 // meaning is not asked for
			fs = append(fs, f)
			note(Obj{"op": "enc", "f": describe(f)})
			st.N = n
		case "many": // many different clauses
			n := st.N
			st.N = 0
			var a, b []cnf.Clause
			for i := 1; i <= o.Off; i++ {
				a = append(a, cnf.Clause{i, -(i + 1)})
			}
			for i := 1; i <= o.Spare; i++ {
				b = append(b, cnf.Clause{i + 2, i}[:1+i%2])
			}
			f := cnf.FromClauses(a).AppendConsistency(b...)
			fs = append(fs, f)
			note(Obj{"op": "enc", "f": describe(f)})
			st.N = n
		case "raw": // clauses over any variables
			n := st.N
			st.N = 0
			f := cnf.FromClauses(makeArg(o))
			fs = append(fs, f)
			note(Obj{"op": "enc", "f": describe(f)})
			st.N = n
		case "write":
			if scratch == "" {
				d, err := os.MkdirTemp(os.Getenv("VDRIVE_WORK"), "dimacs")
				check(err)
				scratch = d
			}
			note(writeOut(fs[o.H], o.File, scratch))
		default:
			panic("harness: unknown formula operation " + o.Op)
		}
	}
}

// dense renumbers the variables above n.
func dense(n int, lists [][][]int) [][][]int {
	m := map[int]int{}
	r := make([][][]int, len(lists))
	for i, l := range lists {
		for _, cl := range l {
			c := make([]int, len(cl))
			for j, x := range cl {
				v := max(x, -x)
				if v > n {
					if m[v] == 0 {
						m[v] = n + 1 + len(m)
					}
					v = m[v]
				}
				c[j] = v
				if x < 0 {
					c[j] = -v
				}
			}
			r[i] = append(r[i], c)
		}
	}
	return r
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// writeOut writes a formula to a file and to memory and reads the text back.
func writeOut(f cnf.CNF, how, dir string) Obj {
	s, c := f.Clauses()
	cls := append(append([][]int{}, asInts(s)...), asInts(c)...)
	for i := range cls {
		cls[i] = nums(cls[i])
	}
	o := Obj{"op": "write", "experr": false, "equal": true, "lines": []Obj{}, "cls": cls}
	p := filepath.Join(dir, "f.cnf")
	_ = os.Remove(p)
	switch how {
	case "longer":
		check(os.WriteFile(p, bytes.Repeat([]byte("9 9 0\n"), len(f.ToBytes())/6+20), 0o600))
	case "nodir":
		p = filepath.Join(dir, "missing", "f.cnf")
		o["experr"] = true
	case "full":
		p = "/dev/full"
		o["experr"] = true
	}
	undo := func() {}
	if strings.HasPrefix(how, "limit") { // room for a part of the text only
		n := len(f.ToBytes())
		m := n * int(how[5]-'0') / 4
		o["experr"] = m < n
		undo = limitFiles(uint64(m))
	}
	err := func() error {
		defer func() { undo() }()
		return f.ToFile(p)
	}()
	o["err"] = err != nil
	if o["experr"].(bool) || how == "nodir" || how == "full" || err != nil {
		return o
	}
	b, err := os.ReadFile(p)
	if os.IsNotExist(err) { // nothing was written
		o["equal"], o["gone"] = false, true
		return o
	}
	check(err)
	o["equal"] = bytes.Equal(b, f.ToBytes())
	o["lines"] = dimacsLines(b)
	return o
}

// dimacsLines splits a DIMACS text into lines of tokens.
func dimacsLines(b []byte) []Obj {
	ls := []Obj{}
	for _, l := range strings.Split(string(b), "\n") {
		t := strings.Fields(l)
		if len(t) == 0 {
			continue
		}
		if t[0] == "c" {
			ls = append(ls, Obj{"k": "c"})
			continue
		}
		isP := t[0] == "p"
		if isP {
			if len(t) != 4 || t[1] != "cnf" {
				ls = append(ls, Obj{"k": "bad"})
				continue
			}
			t = t[2:]
		}
		var ns []int
		ok := true
		for _, x := range t {
			n, err := strconv.Atoi(x)
			if err != nil || isP && n < 0 {
				ok = false
			}
			ns = append(ns, num(n))
		}
		switch {
		case !ok:
			ls = append(ls, Obj{"k": "bad"})
		case isP:
			ls = append(ls, Obj{"k": "p", "a": ns})
		default:
			ls = append(ls, Obj{"k": "n", "a": ns})
		}
	}
	return ls
}
