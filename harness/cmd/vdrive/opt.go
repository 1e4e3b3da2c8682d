package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
	"verif/harness/layout"
)

// optStim is an optimisation with everything the environment does.
type optStim struct {
	D      int          `json:"d"`
	Tree   []ast.Node   `json:"tree"`
	Style  int          `json:"style"`
	Rules  []string     `json:"rules"`
	V      string       `json:"v"`
	Mode   string       `json:"mode"` // "table" or "query"
	F      []ast.Inst   `json:"F"`
	R      [][]ast.Inst `json:"R"`
	Q      *ast.Q       `json:"q"`
	O      *ast.Q       `json:"o"`
	Triv   bool         `json:"triv"` // tables as trivial formulas where possible
	Hist   []histOp     `json:"hist"`
	Chain  []ast.Inst   `json:"chain"` // the answers to give, if possible
	Picks  []int        `json:"picks"` // or which of the possible ones
	Fail   optFail      `json:"fail"`
	Unsat  string       `json:"unsat"` // "plain" or "wrapped"
	Bin    bool         `json:"bin"`
	Layout layout.L     `json:"layout"`
	Pre    int          `json:"pre"`
}

type optFail struct {
	K  string `json:"k"`
	At int    `json:"at"`
}

func init() { executors["opt"] = execOpt }

// excluding is a user-defined component: v is none of the instances.
type excluding struct {
	v    query.QVar
	not  []ast.Inst
	all  int // number of instances
	triv bool
}

func (x excluding) Encoding(ctx query.QContext) (cnf.CNF, error) {
	if x.triv && len(x.not) == 0 {
		return cnf.TrueCNF, nil
	}
	if x.triv && len(x.not) == x.all {
		return cnf.FalseCNF, nil
	}
	sv := ctx.ScopeVar(x.v)
	cs := []cnf.Clause{}
	for _, n := range x.not {
		c := cnf.Clause{}
		for i, f := range n {
			c = append(c, -ctx.CNFVar(sv, i, f))
		}
		cs = append(cs, c)
	}
	return cnf.FromClauses(cs), nil
}

// failing is an Encodable that cannot be encoded.
type failing struct{}

func (failing) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, errInjected }

func same(a, b ast.Inst) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// adversary is the solver of an optimisation: it notes what it is asked and
// answers as told, by itself or through a solver process.
type adversary struct {
	st     optStim
	calls  []Obj
	answer ast.Inst
	read   bool
	bin    compute.Solver
	fk     *fake
	box    *box
	runs   []Obj
}

// asked is the truth table of a formula over the instances of the variable.
func asked(f cnf.CNF, ctx query.QContext, v query.QVar, d int) []int {
	fo := newFormula(f)
	sv := ctx.ScopeVar(v)
	n := pow3(d)
	r := make([]int, n)
	for k := 0; k < n; k++ {
		r[k] = b2i(fo.sat(pinLits(ctx, sv, instAt(k, d))))
	}
	return r
}

func (a *adversary) Step(q compute.Encodable, ctx query.QContext) error {
	k := len(a.calls) + 1
	if k > 1500 {
		panic("an optimisation that does not end")
	}
	c := Obj{"asked": []int{}, "ans": "err", "x": ast.Inst{}}
	a.calls = append(a.calls, c)
	failNow := a.st.Fail.K == "step" && a.st.Fail.At == k
	if a.bin != nil {
		return a.binStep(q, ctx, c, failNow, k)
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		c["ans"] = "enc"
		return err
	}
	t := asked(f, ctx, query.QVar(a.st.V), a.st.D)
	c["asked"] = t
	if failNow {
		return errInjected
	}
	var fit []ast.Inst
	for j, b := range t {
		if b == 1 {
			fit = append(fit, instAt(j, a.st.D))
		}
	}
	if len(fit) == 0 {
		c["ans"] = "unsat"
		if a.st.Unsat == "wrapped" {
			return fmt.Errorf("the solver says: %w", compute.UnsatError)
		}
		return compute.UnsatError
	}
	c["ans"] = "sat"
	a.answer = nil
	if k <= len(a.st.Chain) {
		for _, x := range fit {
			if same(x, a.st.Chain[k-1]) {
				a.answer = x
			}
		}
	}
	if a.answer == nil {
		p := 0
		if len(a.st.Picks) > 0 {
			p = a.st.Picks[(k-1)%len(a.st.Picks)]
		}
		a.answer = fit[p%len(fit)]
	}
	c["x"] = a.answer
	return nil
}

func (a *adversary) binStep(q compute.Encodable, ctx query.QContext, c Obj, failNow bool, k int) error {
	sc := script{Solve: true, Seed: a.st.Layout.Seed + int64(k), Layout: a.st.Layout}
	if failNow {
		sc = script{Code: []int{0, 1, 2, 127}[k%4], Stdout: "s SATISFIABLE\nv 1 2 3 0\n"}
		if k%5 == 4 {
			sc.Sig = 9
		}
	}
	a.fk.script(sc)
	if a.st.Fail.K == "tmpat" && a.st.Fail.At == k {
		check(os.Setenv("TMPDIR", filepath.Join(a.box.root, "nothing", "here")))
	}
	var cls [][]int
	enc := false
	err := a.bin.Step(hooked{q, func(ctx query.QContext, f cnf.CNF, err error) (cnf.CNF, error) {
		enc = true
		if err != nil {
			c["ans"] = "enc"
			return f, err
		}
		c["asked"] = asked(f, ctx, query.QVar(a.st.V), a.st.D)
		cls = clausesOf(f)
		return f, nil
	}}, ctx)
	for _, r := range a.fk.runs() {
		x := Obj{"files": len(r.Texts), "lines": []Obj{}, "cls": cls}
		if len(r.Texts) == 1 && hasStr(a.st.Rules, "files") {
			x["lines"] = dimacsLines([]byte(r.Texts[0]))
		}
		if !hasStr(a.st.Rules, "files") {
			x["cls"] = []int{}
		}
		a.runs = append(a.runs, x)
		if enc && !failNow && r.Code == 10 {
			c["ans"] = "sat"
			x := make(ast.Inst, a.st.D)
			on := map[int]bool{}
			for _, l := range r.Lits {
				for _, n := range l {
					on[n] = true
				}
			}
			for i := range x {
				for v := 0; v < 3; v++ {
					if on[ctx.CNFVar(query.QVar(a.st.V), i, v)] {
						x[i] = v
					}
				}
			}
			c["x"] = x
		} else if enc && !failNow && r.Code == 20 {
			c["ans"] = "unsat"
		}
	}
	return err
}

func (a *adversary) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	k := len(a.calls)
	if a.st.Fail.At == k {
		switch a.st.Fail.K {
		case "read":
			a.read = true
			return nil, errInjected
		case "readunsat":
			a.read = true
			return nil, fmt.Errorf("no value: %w", compute.UnsatError)
		}
	}
	if a.bin != nil {
		return a.bin.Values(vars, ctx)
	}
	if len(vars) == 0 {
		return nil, nil
	}
	r := make([]query.QConst, len(vars))
	for i, v := range vars {
		if v != query.QVar(a.st.V) {
			return nil, errors.New("an unknown variable")
		}
		r[i] = query.QConst{Val: ast.Feats(a.answer)}
	}
	return r, nil
}

func execOpt(raw json.RawMessage, ev Obj) {
	var st optStim
	parse(raw, &st)
	for _, k := range []string{"hist", "picks", "chain", "layout", "style", "triv", "pre", "unsat"} {
		delete(ev, k)
	}
	names := ast.NameStyle(st.Style)
	b := newBox(st.Pre)
	defer b.close()
	a := &adversary{st: st, calls: []Obj{}, box: b, runs: []Obj{}}
	if st.Bin {
		a.fk = newFake(filepath.Join(b.root, "solver"))
		s, err := compute.BinSolver(b.call(a.fk.path))
		check(err)
		a.bin = s
	}
	n := pow3(st.D)
	rest := func(keep func(x ast.Inst) bool) []ast.Inst {
		var r []ast.Inst
		for k := 0; k < n; k++ {
			if x := instAt(k, st.D); !keep(x) {
				r = append(r, x)
			}
		}
		return r
	}
	fg := func(v query.QVar) compute.Encodable {
		if st.Fail.At == len(a.calls)+1 {
			switch st.Fail.K {
			case "fenc":
				return failing{}
			case "nilf":
				return nil
			}
		}
		if st.Mode == "query" {
			return ast.Build(st.Q, names)
		}
		return excluding{v, rest(func(x ast.Inst) bool {
			for _, y := range st.F {
				if same(x, y) {
					return true
				}
			}
			return false
		}), n, st.Triv}
	}
	og := func(v query.QVar, c query.QConst) compute.Encodable {
		if st.Fail.At == len(a.calls)+1 {
			switch st.Fail.K {
			case "oenc":
				return failing{}
			case "nilo":
				return nil
			}
		}
		u := ast.FromFeats(c.Val)
		if st.Mode == "query" {
			return ast.Build(with(st.O, "u", c), names)
		}
		return excluding{v, rest(func(x ast.Inst) bool {
			for _, p := range st.R {
				if same(x, p[0]) && same(u, p[1]) {
					return true
				}
			}
			return false
		}), n, st.Triv}
	}
	ctx := query.BasicQContext(ast.NewTree(st.D, st.Tree))
	applyHist(ctx, st.Hist, names)
	if st.Fail.K == "nilctx" {
		ctx = nil
	}
	before := b.state()
	if st.Fail.K == "tmp" {
		check(os.Setenv("TMPDIR", filepath.Join(b.root, "nothing", "here")))
	}
	out, err := compute.ComputeOptim(fg, og, query.QVar(st.V), ctx, a)
	ev["out"] = "ok"
	ev["left"] = changes(before, b.state())
	v := ast.FromFeats(out.Value.Val)
	ev["res"] = Obj{"err": err != nil, "found": out.Found, "value": v, "calls": out.Calls}
	if err != nil {
		ev["msg"] = err.Error()
	}
	ev["calls"] = a.calls
	ev["runs"] = a.runs
	ev["readfailed"] = a.read
}
