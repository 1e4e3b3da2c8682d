package main

import (
	"encoding/json"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
	"verif/harness/layout"
)

// job is an explanation to compute or a statement to evaluate.
type job struct {
	Mode  string     `json:"mode"` // "optim" or "eval"
	Kind  string     `json:"kind"`
	Order string     `json:"order"`
	C     ast.Inst   `json:"c"`
	C2    ast.Inst   `json:"c2"`
	K     bool       `json:"k"`
	Pref  []int      `json:"pref"`
	FS    []int      `json:"fs"`
	N     int        `json:"n"`
	V     string     `json:"v"`
	Style int        `json:"style"` // which of several ways to write the query
	Seeds []int64    `json:"seeds"`
	Lay   layout.L   `json:"lay"`
	Fresh bool       `json:"fresh"` // in a context of its own
	Res   *jobResult `json:"res,omitempty"`
}

type jobResult struct {
	Err   bool       `json:"err"`
	Msg   string     `json:"msg"`
	Found bool       `json:"found"`
	Value ast.Inst   `json:"value"`
	Holds bool       `json:"holds"`
	Wit   []ast.Inst `json:"wit"`
}

type explainStim struct {
	D     int        `json:"d"`
	Tree  []ast.Node `json:"tree"`
	Style int        `json:"style"`
	Jobs  []job      `json:"jobs"`
}

func init() { executors["explain"] = execExplain }

func all(qs ...*ast.Q) *ast.Q {
	r := qs[len(qs)-1]
	for i := len(qs) - 2; i >= 0; i-- {
		r = ast.And(qs[i], r)
	}
	return r
}

func allcomp(t ast.Term, k bool) *ast.Q { return &ast.Q{Op: "allcomp", T: []ast.Term{t}, LV: k} }

// classLike says that v determines the class c determines (or the other one).
func classLike(c, v ast.Term, opposite bool) *ast.Q {
	return ast.And(ast.Or(ast.Not(allcomp(c, true)), allcomp(v, !opposite)),
		ast.Or(ast.Not(allcomp(c, false)), allcomp(v, opposite)))
}

// explanation writes the query of an explanation about the variable v.
func (j *job) explanation(v ast.Term, d int) *ast.Q {
	c, c2 := ast.C("", j.C), ast.C("k", j.C2)
	var q *ast.Q
	switch j.Kind {
	case "sr":
		q = ast.And(ast.Atom("sub", v, c), classLike(c, v, false))
		if j.Style%3 == 1 { // as a choice between the classes
			q = ast.And(ast.Or(ast.And(allcomp(c, true), allcomp(v, true)), ast.Or(ast.And(allcomp(c, false), allcomp(v, false)),
				ast.Not(ast.Or(allcomp(c, true), allcomp(c, false))))), ast.Atom("sub", v, c))
		}
	case "dfs":
		q = ast.Atom("dfs", v)
	case "dfsin":
		q = ast.And(ast.Atom("sub", v, c), ast.Atom("dfs", v))
	case "class":
		q = allcomp(v, j.K)
	case "viaNodes": // no node of the other class is consistent with v
		g := ast.C("g", nil)
		q = ast.Fag("g", ast.Or(ast.Not(allcomp(g, !j.K)), ast.Not(ast.Atom("cons", v, g))))
		if j.Style%2 == 1 {
			q = ast.Fag("g", ast.Not(ast.And(ast.Atom("cons", g, v), allcomp(g, !j.K))))
		}
	case "cf":
		q = ast.And(ast.Atom("full", v), classLike(c, v, true))
		if j.Style%2 == 1 {
			q = ast.And(ast.Atom("full", v), ast.Not(classLike(c, v, false)))
		}
	case "same":
		q = ast.And(ast.Atom("full", v), classLike(c, v, false))
	case "cfkeep":
		q = all(ast.Atom("full", v), ast.Atom("sub", c2, v), classLike(c, v, true))
	case "node":
		q = ast.And(ast.Atom("isnode", v), ast.Atom("sub", v, c))
	case "undecided":
		q = all(ast.Atom("sub", v, c), ast.Not(allcomp(v, true)), ast.Not(allcomp(v, false)))
	default:
		panic("harness: kind " + j.Kind)
	}
	if j.Style%5 == 4 { // with another variable equal to v
		y := ast.V("aux")
		q = ast.With("aux", all(ast.Atom("sub", v, y), ast.Atom("sub", y, v), ast.Not(ast.Not(q))))
	}
	if j.Style%2 == 0 {
		q = ast.With(v.N, q) // as the examples do
	}
	return q
}

func (j *job) better(x, u ast.Term) *ast.Q {
	c := ast.C("c", j.C)
	switch j.Order {
	case "smaller":
		return strict("sub", x, u, nil)
	case "larger":
		return strict("sub", u, x, nil)
	case "fewer":
		return strict("lel", x, u, nil)
	case "more":
		return strict("lel", u, x, nil)
	case "prefers":
		return strict("hepr", x, u, j.Pref)
	case "avoids":
		return strict("hepr", u, x, j.Pref)
	case "fewerThenPrefers":
		return ast.Or(strict("lel", x, u, nil), all(ast.Atom("lel", x, u), ast.Atom("lel", u, x), strict("hepr", x, u, j.Pref)))
	case "nearer":
		return ast.And(ast.Atom("leh", c, x, u), ast.Not(ast.Atom("leh", c, u, x)))
	case "farther":
		return ast.And(ast.Atom("leh", c, u, x), ast.Not(ast.Atom("leh", c, x, u)))
	}
	panic("harness: order " + j.Order)
}

// statement writes the evaluation of a statement; wit lists the variables
// whose values show it.
func (j *job) statement(d int, names ast.Names) (e compute.QDTFCombinator, wit []string) {
	v, w := j.V, j.V+"2"
	x, y := ast.V(v), ast.V(w)
	c, c2 := ast.C("", j.C), ast.C("k", j.C2)
	atom := func(neg bool, q *ast.Q) compute.QDTFAtom {
		return compute.QDTFAtom{Query: ast.Build(q, names), Negated: neg}
	}
	sr := func(t ast.Term) *ast.Q { return ast.And(ast.Atom("sub", t, c), classLike(c, t, false)) }
	switch j.Kind {
	case "minimalSR":
		return compute.AndCombinator{atom(false, sr(c2)), atom(true, ast.With(v, ast.And(sr(x), strict("sub", x, c2, nil))))}, nil
	case "minimumSR":
		return compute.AndCombinator{atom(true, ast.With(v, ast.And(sr(x), strict("lel", x, c2, nil)))), atom(false, sr(c2))}, nil
	case "minimumDFS": // as in the example
		return atom(true, ast.Or(ast.Not(ast.Atom("dfs", c)), ast.With(v, ast.And(ast.Atom("dfs", x), strict("lel", x, c, nil))))), nil
	case "smallSR":
		n := make(ast.Inst, d)
		for i := j.N; i < d; i++ {
			n[i] = 1 + i%2
		}
		return atom(false, ast.With(v, ast.And(ast.Atom("lel", x, ast.C("n", n)), sr(x)))), []string{v}
	case "needed":
		var or compute.OrCombinator
		for k, f := range j.FS {
			z := v + itoa(k)
			or = append(or, atom(false, ast.With(z, ast.And(sr(ast.V(z)), has(z, f+1, 0, true)))))
		}
		if j.Style%2 == 0 {
			var and compute.AndCombinator
			for _, a := range or {
				t := a.(compute.QDTFAtom)
				t.Negated = true
				and = append(and, t)
			}
			return and, nil
		}
		return notComb{or}, nil
	case "biased":
		in := map[int]bool{}
		for _, f := range j.FS {
			in[f] = true
		}
		cl := [][]ast.Lit{}
		for i := 0; i < d; i++ {
			if in[i] {
				continue
			}
			for val := 0; val < 3; val++ {
				cl = append(cl, []ast.Lit{{T: 1, I: i + 1, Val: val, Pos: false}, {T: 2, I: i + 1, Val: val, Pos: true}})
			}
		}
		agree := &ast.Q{Op: "cls", T: []ast.Term{x, y}, Cl: cl}
		return atom(false, ast.With(v, ast.With(w, all(ast.Atom("full", x), ast.Atom("full", y), allcomp(x, true), allcomp(y, false), agree)))), []string{v, w}
	case "readme":
		return atom(false, ast.With(v, ast.And(ast.Not(ast.Atom("full", x)), allcomp(x, j.K)))), []string{v}
	case "nodesMixed":
		// for every node: if it decides the class, it is a leaf, that is, no
		// node properly extends it
		g, h := ast.C("g", nil), ast.C("h", nil)
		leaf := ast.Fag("h", ast.Not(strict("sub", g, h, nil)))
		return atom(false, ast.Fag("g", ast.Or(ast.Not(ast.Or(allcomp(g, true), allcomp(g, false))), leaf))), nil
	case "constant":
		bot := ast.C("bot", make(ast.Inst, d))
		return compute.OrCombinator{atom(false, allcomp(bot, true)), atom(false, allcomp(bot, false))}, nil
	}
	panic("harness: statement " + j.Kind)
}

// notComb is a combinator of the caller.
type notComb struct{ c compute.QDTFCombinator }

func (n notComb) Sat(ctx query.QContext, s compute.Solver) (bool, error) {
	r, err := n.c.Sat(ctx, s)
	return !r && err == nil, err
}

// seeded changes what the solver process answers from run to run.
type seeded struct {
	compute.Solver
	fk *fake
	j  *job
	n  int
	env
}

func (s *seeded) Step(q compute.Encodable, ctx query.QContext) error {
	l := s.j.Lay
	l.Seed += int64(s.n)
	sc := script{Solve: true, Seed: s.j.Seeds[s.n%len(s.j.Seeds)] + int64(s.n), Layout: l}
	s.n++
	if s.n > 200 {
		panic("an optimisation that does not end")
	}
	return s.env.step(s.fk, sc, func() error { return s.Solver.Step(q, ctx) })
}

// do does one job.
func (j *job) do(d int, ctx query.QContext, sol compute.Solver, names ast.Names) *jobResult {
	r := &jobResult{Value: ast.Inst{}, Wit: []ast.Inst{}}
	fail := func(err error) *jobResult {
		r.Err, r.Msg = true, err.Error()
		return r
	}
	if j.Mode == "optim" {
		out, err := compute.ComputeOptim(
			func(v query.QVar) compute.Encodable {
				return ast.Build(j.explanation(ast.V(string(v)), d), names)
			},
			func(v query.QVar, c query.QConst) compute.Encodable {
				return ast.Build(j.better(ast.V(string(v)), ast.C("u", ast.FromFeats(c.Val))), names)
			}, query.QVar(j.V), ctx, sol)
		if err != nil {
			return fail(err)
		}
		r.Found = out.Found
		r.Value = ast.FromFeats(out.Value.Val)
		return r
	}
	e, wit := j.statement(d, names)
	holds, err := e.Sat(ctx, sol)
	if err != nil {
		return fail(err)
	}
	r.Holds = holds
	if holds && len(wit) > 0 {
		var vs []query.QVar
		for _, w := range wit {
			vs = append(vs, query.QVar(w))
		}
		vals, err := sol.Values(vs, ctx)
		if err != nil {
			return fail(err)
		}
		for _, c := range vals {
			r.Wit = append(r.Wit, ast.FromFeats(c.Val))
		}
	}
	return r
}

func execExplain(raw json.RawMessage, ev Obj) {
	b := newBox(0)
	defer b.close()
	execExplainIn(raw, ev, newFake(filepath.Join(b.root, "solver")), plainEnv)
}

func execExplainIn(raw json.RawMessage, ev Obj, fk *fake, en env) {
	var st explainStim
	parse(raw, &st)
	delete(ev, "style")
	bin, err := compute.BinSolver(fk.path)
	check(err)
	names := ast.NameStyle(st.Style)
	model := ast.NewTree(st.D, st.Tree)
	ctx := en.ctx(query.BasicQContext(model))
	jobs := []Obj{}
	for i := range st.Jobs {
		j := &st.Jobs[i]
		use := ctx
		if j.Fresh {
			use = en.ctx(query.BasicQContext(model))
		} else if j.Mode == "eval" {
			use.Reset()
		}
		res := j.do(st.D, use, &seeded{Solver: bin, fk: fk, j: j, env: en}, names)
		jobs = append(jobs, Obj{"mode": j.Mode, "kind": j.Kind, "order": j.Order, "c": j.C, "c2": j.C2, "k": j.K,
			"pref": ints(j.Pref), "fs": ints(j.FS), "n": j.N, "res": res})
	}
	ev["jobs"] = jobs
	ev["out"] = "ok"
}

func ints(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}
