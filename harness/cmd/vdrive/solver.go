package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
	"verif/harness/layout"
)

// solverStim is a history of steps and readings of one solver object.
type solverStim struct {
	D     int          `json:"d"`
	Tree  []ast.Node   `json:"tree"`
	Style int          `json:"style"`
	Rules []string     `json:"rules"`
	Pre   int          `json:"pre"` // files in the temporary directory beforehand
	Ops   []solverStep `json:"ops"`
}

type solverStep struct {
	Op     string              `json:"op"` // "step", "values", "open"
	Ctx    int                 `json:"ctx"`
	Q      *ast.Q              `json:"q"`
	Names  []string            `json:"names"` // variables declared by q
	Vals   map[string]ast.Inst `json:"vals"`  // the values the solver answers
	Junk   int                 `json:"junk"`  // what it says about other variables
	Out    solverOut           `json:"out"`
	Fault  string              `json:"fault"`
	Third  int                 `json:"third"` // limit: how much can be written
	Stdout string              `json:"stdout"`
	Stderr int                 `json:"stderr"`
	Extra  int                 `json:"extra"` // how many more variables the formula has
	Delay  int                 `json:"delay"` // how long it takes, in ms
	Base   int                 `json:"base"`  // reserved before
	Layout layout.L            `json:"layout"`
	Vars   []string            `json:"vars"`
}

type solverOut struct {
	K    string `json:"k"` // "exit", "solve", "signal", "gone", "noexec", "dir", "garbage"
	Code int    `json:"code"`
	Sig  int    `json:"sig"`
}

func init() {
	executors["solver"] = execSolver
	signal.Ignore(syscall.SIGXFSZ)
}

// script mirrors fakesolver's instructions.
type script struct {
	Solve  bool     `json:"solve"`
	Seed   int64    `json:"seed"`
	Layout layout.L `json:"layout"`
	Stdout string   `json:"stdout"`
	Stderr int      `json:"stderr"`
	Code   int      `json:"code"`
	Sig    int      `json:"sig"`
	Gate   string   `json:"gate"`
	Max    int      `json:"max"`
	Delay  int      `json:"delay"`
}

type runRec struct {
	Texts []string `json:"texts"`
	Lits  [][]int  `json:"lits"`
	Code  int      `json:"code"`
	Late  bool     `json:"late"`
	Bad   string   `json:"bad"`
}

// fake is a solver executable with instructions of its own.
type fake struct {
	dir, path string
}

func newFake(dir string) *fake {
	check(os.MkdirAll(dir, 0o755))
	f := &fake{dir, filepath.Join(dir, "solver")}
	f.restore()
	return f
}

func (f *fake) restore() {
	_ = os.RemoveAll(f.path)
	check(os.Symlink(filepath.Join(os.Getenv("VDRIVE_BIN"), "fakesolver"), f.path))
}

func (f *fake) script(s script) {
	b, err := json.Marshal(s)
	check(err)
	check(os.WriteFile(filepath.Join(f.dir, "script.json"), b, 0o644))
}

// runs returns and forgets the records of the runs since the last call.
func (f *fake) runs() []runRec {
	p := filepath.Join(f.dir, "runs.ndjson")
	b, err := os.ReadFile(p)
	if os.IsNotExist(err) {
		return nil
	}
	check(err)
	check(os.Remove(p))
	var rs []runRec
	for _, l := range bytes.Split(b, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var r runRec
		check(json.Unmarshal(l, &r))
		rs = append(rs, r)
	}
	return rs
}

// hooked is a query whose encoding is observed or interfered with.
type hooked struct {
	q compute.Encodable
	f func(ctx query.QContext, f cnf.CNF, err error) (cnf.CNF, error)
}

func (h hooked) Encoding(ctx query.QContext) (cnf.CNF, error) {
	f, err := h.q.Encoding(ctx)
	return h.f(ctx, f, err)
}

// box is a scratch directory with a temporary and a working directory.
type box struct {
	root, tmp, cwd string
	pre            int
}

func newBox(pre int) *box {
	pattern := "box"
	if pre == 3 { // names that need care
		pattern = "box 1 0 'a$b;c%d"
	}
	r, err := os.MkdirTemp(os.Getenv("VDRIVE_WORK"), pattern)
	check(err)
	b := &box{r, filepath.Join(r, "tmp"), filepath.Join(r, "cwd"), pre}
	check(os.Mkdir(b.cwd, 0o755))
	b.fill()
	check(os.Chdir(b.cwd))
	b.env()
	return b
}

// env names the temporary directory to the code.
func (b *box) env() {
	if b.pre == 1 { // relative to the working directory
		check(os.Setenv("TMPDIR", "../tmp"))
	} else {
		check(os.Setenv("TMPDIR", b.tmp))
	}
}

// call is how a file is named to the code.
func (b *box) call(p string) string {
	if b.pre != 2 {
		return p
	}
	r, err := filepath.Rel(b.cwd, p)
	check(err)
	return r
}

func (b *box) fill() {
	check(os.MkdirAll(b.tmp, 0o755))
	names := []string{"tmp.cnf", "tmp.cnf12345", "other.txt", "tmp.cnf0"}
	for k := 0; k < b.pre && k < len(names); k++ {
		p := filepath.Join(b.tmp, names[k])
		if _, err := os.Stat(p); err != nil {
			check(os.WriteFile(p, []byte("p cnf 1 1\n1 0\n"), 0o600))
		}
	}
}

func (b *box) close() {
	check(os.Chdir("/"))
	check(os.Unsetenv("TMPDIR"))
	check(os.RemoveAll(b.root))
}

// state lists the files of the temporary and the working directory.
func (b *box) state() map[string]string {
	m := map[string]string{}
	for _, d := range []string{b.tmp, b.cwd} {
		_ = filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
			if err != nil || p == d {
				return nil
			}
			h := fnv.New64a()
			if i.Mode().IsRegular() {
				t, _ := os.ReadFile(p)
				_, _ = h.Write(t)
			}
			m[p] = fmt.Sprint(i.Mode().IsRegular(), h.Sum64())
			return nil
		})
	}
	return m
}

// changes compares two listings: what appeared, changed and went.
func changes(a, b map[string]string) []string {
	r := []string{}
	for p := range b {
		if _, ok := a[p]; !ok {
			r = append(r, "new file "+filepath.Base(p))
		} else if a[p] != b[p] {
			r = append(r, "changed file "+filepath.Base(p))
		}
	}
	for p := range a {
		if _, ok := b[p]; !ok {
			r = append(r, "file less, "+filepath.Base(p))
		}
	}
	sort.Strings(r)
	return r
}

func verdict(err error) string {
	switch {
	case err == nil:
		return "sat"
	case errors.Is(err, compute.UnsatError):
		return "unsat"
	}
	return "error"
}

var errInjected = errors.New("injected failure")

// limitFiles bounds the size of the files this process may write.
func limitFiles(n uint64) (undo func()) {
	var l syscall.Rlimit
	check(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l))
	old := l
	l.Cur = n
	check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l))
	return func() { check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }
}

// numbers are the propositional variables of the declared variables.
func numbers(ctx query.QContext, names []string, d int) map[string][][]int {
	m := map[string][][]int{}
	for _, n := range names {
		t := make([][]int, d)
		for i := range t {
			for v := 0; v < 3; v++ {
				t[i] = append(t[i], ctx.CNFVar(query.QVar(n), i, v))
			}
		}
		m[n] = t
	}
	return m
}

// valuation lists the literals of an answer in which the named variables have
// the given values.
func valuation(top int, num map[string][][]int, vals map[string]ast.Inst, junk int, seed int64) []int {
	r := rand.New(rand.NewSource(seed))
	on := map[int]int{}
	for n, t := range num {
		for i := range t {
			for v, k := range t[i] {
				on[k] = -1
				if vals[n][i] == v {
					on[k] = 1
				}
				top = max(top, k)
			}
		}
	}
	var ls []int
	for k := 1; k <= top; k++ {
		s, ok := on[k]
		if !ok {
			switch junk {
			case 0:
				s = -1
			case 1:
				s = 1
			case 2:
				s = 1 - 2*r.Intn(2)
			case 3:
				continue
			}
		}
		ls = append(ls, s*k)
	}
	return ls
}

// about keeps the literals of the named variables.
func about(num map[string][][]int, lits [][]int) [][]int {
	on := map[int]bool{}
	for _, t := range num {
		for _, ks := range t {
			for _, k := range ks {
				on[k] = true
			}
		}
	}
	r := [][]int{}
	for _, l := range lits {
		var m []int
		for _, x := range l {
			if on[max(x, -x)] {
				m = append(m, x)
			}
		}
		if len(m) > 0 {
			r = append(r, m)
		}
	}
	return r
}

func clausesOf(f cnf.CNF) [][]int {
	s, c := f.Clauses()
	cls := append(append([][]int{}, asInts(s)...), asInts(c)...)
	for i := range cls {
		if cls[i] == nil {
			cls[i] = []int{}
		}
	}
	return cls
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func execSolver(raw json.RawMessage, ev Obj) {
	var st solverStim
	parse(raw, &st)
	delete(ev, "ops")
	delete(ev, "tree")
	delete(ev, "style")
	b := newBox(st.Pre)
	defer b.close()
	fk := newFake(filepath.Join(b.root, "solver dir"))
	names := ast.NameStyle(st.Style)
	tree := ast.NewTree(st.D, st.Tree)
	steps := []Obj{}
	kept := map[int][]query.QConst{} // what was read, to look at again
	defer func() {
		for k, l := range kept {
			steps[k]["later"] = insts(l)
		}
		ev["steps"] = steps
	}()
	ev["out"] = "ok"

	sol, err := compute.BinSolver(b.call(fk.path))
	if err != nil {
		panic("harness: " + err.Error())
	}
	ctxs := map[int]query.QContext{}
	var satCtx query.QContext
	for _, o := range st.Ops {
		switch o.Op {
		case "open": // an executable that is not there
			s, err := compute.BinSolver(filepath.Join(b.root, "missing"))
			r := Obj{"op": "open", "err": err != nil}
			if err == nil {
				r["verdict"] = verdict(s.Step(ast.Build(ast.True(), names), query.BasicQContext(tree)))
			}
			steps = append(steps, r)
		case "values":
			if satCtx == nil {
				continue
			}
			vs := make([]query.QVar, len(o.Vars))
			for i, v := range o.Vars {
				vs[i] = query.QVar(v)
			}
			got, err := sol.Values(vs, satCtx)
			vars := o.Vars
			if vars == nil {
				vars = []string{}
			}
			kept[len(steps)] = got
			steps = append(steps, Obj{"op": "values", "vars": vars, "err": err != nil, "got": insts(got)})
		case "step":
			ctx, ok := ctxs[o.Ctx]
			if !ok {
				ctx = query.BasicQContext(tree)
				ctxs[o.Ctx] = ctx
				if o.Base > 0 {
					ctx.UpdateTopV(o.Base)
				}
			}
			r := stepOnce(st, o, sol, ctx, fk, b, names)
			if out := r["out"].(Obj); !r["eff"].(bool) && out["k"] == "exit" && out["code"] == 10 {
				satCtx = ctx
			}
			steps = append(steps, r)
		default:
			panic("harness: unknown solver operation " + o.Op)
		}
	}
}

func insts(cs []query.QConst) []ast.Inst {
	l := []ast.Inst{}
	for _, c := range cs {
		l = append(l, ast.FromFeats(c.Val))
	}
	return l
}

func stepOnce(st solverStim, o solverStep, sol compute.Solver, ctx query.QContext, fk *fake, b *box, names ast.Names) Obj {
	eff := false
	var lits [][]int
	num := map[string][][]int{}
	cls := [][]int{}
	encoded := false
	undo := func() {}
	sc := script{Layout: o.Layout, Seed: o.Layout.Seed, Stderr: o.Stderr, Code: o.Out.Code, Delay: o.Delay}
	switch o.Out.K {
	case "solve":
		sc.Solve = true
	case "signal":
		sc.Sig = o.Out.Sig
	}
	if o.Stdout == "unsat" {
		sc.Stdout = layout.Remarks[int(o.Layout.Seed%int64(len(layout.Remarks)))] + "\ns UNSATISFIABLE\n"
	}
	fk.script(sc)
	before := b.state()
	h := hooked{ast.Build(o.Q, names), func(ctx query.QContext, f cnf.CNF, err error) (cnf.CNF, error) {
		if err != nil {
			panic("harness: the query cannot be encoded: " + err.Error())
		}
		encoded = true
		num = numbers(ctx, o.Names, st.D)
		top := ctx.TopV()
		if o.Extra > 0 {
			top = max(top, f.TopV()) + o.Extra
			f = f.AppendConsistency(cnf.Clause{top, -top})
		}
		cls = clausesOf(f)
		if o.Stdout == "sat" {
			sc.Stdout, lits = layout.Answer(valuation(top, num, o.Vals, o.Junk, o.Layout.Seed), o.Layout)
			fk.script(sc)
		}
		switch o.Fault {
		case "enc":
			eff = true
			return cnf.CNF{}, errInjected
		case "rmdir":
			eff = true
			check(os.RemoveAll(b.tmp))
			before = b.state()
		case "limit":
			n := len(f.ToBytes()) * o.Third / 3
			eff = n < len(f.ToBytes())
			undo = limitFiles(uint64(n))
		}
		return f, nil
	}}
	switch o.Fault {
	case "tmpdir":
		eff = true
		check(os.Setenv("TMPDIR", filepath.Join(b.root, "nothing", "here")))
	case "tmpfile":
		eff = true
		check(os.Setenv("TMPDIR", filepath.Join(fk.dir, "script.json")))
	}
	nostart := true
	switch o.Out.K {
	case "gone":
		check(os.Remove(fk.path))
	case "noexec":
		check(os.Remove(fk.path))
		check(os.WriteFile(fk.path, []byte("#!/bin/sh\nexit 10\n"), 0o644))
	case "dir":
		check(os.Remove(fk.path))
		check(os.Mkdir(fk.path, 0o755))
	case "garbage":
		check(os.Remove(fk.path))
		check(os.WriteFile(fk.path, []byte{0x7f, 'E', 'L', 'F', 0, 1, 2, 3}, 0o755))
	default:
		nostart = false
	}
	err := func() error {
		defer func() { undo() }()
		return sol.Step(h, ctx)
	}()
	v := verdict(err)
	after := b.state()
	b.env()
	b.fill()
	fk.restore()
	runs := fk.runs()
	code := o.Out.Code
	recs := []Obj{}
	for _, r := range runs {
		if o.Out.K == "solve" {
			code = r.Code
			lits = r.Lits
		}
		x := Obj{"files": len(r.Texts), "lines": []Obj{}, "late": r.Late}
		if len(r.Texts) == 1 && hasStr(st.Rules, "files") {
			x["lines"] = dimacsLines([]byte(r.Texts[0]))
		}
		recs = append(recs, x)
	}
	lits = about(num, lits)
	if !hasStr(st.Rules, "files") {
		cls = [][]int{}
	}
	k := o.Out.K
	if nostart {
		k = "nostart"
	} else if k == "solve" {
		k = "exit"
	}
	return Obj{"op": "step", "out": Obj{"k": k, "code": code, "sig": o.Out.Sig}, "fault": o.Fault, "eff": eff, "encoded": encoded,
		"verdict": v, "num": num, "lits": lits, "runs": recs, "cls": cls, "left": changes(before, after)}
}
