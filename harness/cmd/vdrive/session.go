package main

import (
	"encoding/json"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
	"verif/harness/layout"
)

// sessStim is a sequence of operations that share contexts and solvers.
type sessStim struct {
	Ds      []int        `json:"ds"` // the dimension of each tree
	Trees   [][]ast.Node `json:"trees"`
	Ctxs    []int        `json:"ctxs"` // which tree each context is over, from 1
	Solvers int          `json:"solvers"`
	Style   int          `json:"style"`
	Ops     []sessOp     `json:"ops"`
}

type sessOp struct {
	Op     string   `json:"op"` // "sat", "step", "optim", "values", "reset"
	C      int      `json:"c"`
	S      int      `json:"s"`
	Of     int      `json:"of"` // the operation whose query value is used again, or whose answer is read
	Fault  string   `json:"fault"`
	Comb   *comb    `json:"comb,omitempty"`
	Q      *ast.Q   `json:"q,omitempty"`
	O      *ast.Q   `json:"o,omitempty"`
	V      string   `json:"v,omitempty"`
	Vars   []string `json:"vars"`
	Layout layout.L `json:"layout"`
}

func init() { executors["session"] = execSession }

func buildComb(c *comb, names ast.Names) compute.QDTFCombinator {
	switch c.Op {
	case "and":
		var k compute.AndCombinator
		for _, e := range c.Kids {
			k = append(k, buildComb(e, names))
		}
		return k
	case "or":
		var k compute.OrCombinator
		for _, e := range c.Kids {
			k = append(k, buildComb(e, names))
		}
		return k
	}
	return compute.QDTFAtom{Query: ast.Build(c.Q, names), Negated: c.Neg}
}

func execSession(raw json.RawMessage, ev Obj) {
	var st sessStim
	parse(raw, &st)
	b := newBox(0)
	defer b.close()
	names := ast.NameStyle(st.Style)
	models := make([]query.Model, len(st.Trees))
	for i, t := range st.Trees {
		models[i] = ast.NewTree(st.Ds[i], t)
	}
	ctxs := make([]query.QContext, len(st.Ctxs))
	for i, t := range st.Ctxs {
		ctxs[i] = query.BasicQContext(models[t-1])
	}
	type object struct {
		fk   *fake
		sol  compute.Solver
		last int // the step whose answer it holds, as far as can be seen
	}
	sols := make([]*object, st.Solvers)
	for i := range sols {
		fk := newFake(filepath.Join(b.root, "solver"+itoa(i)))
		s, err := compute.BinSolver(fk.path)
		check(err)
		sols[i] = &object{fk, s, 0}
	}
	steps := map[int]compute.Encodable{}
	combs := map[int]compute.QDTFCombinator{}
	obs := []Obj{}
	defer func() { ev["obs"] = obs }()
	ev["out"] = "ok"
	for k, o := range st.Ops {
		me := k + 1
		src := me
		if o.Of > 0 {
			src = o.Of
		}
		r := Obj{}
		ctx := ctxs[o.C-1]
		var s *object
		if o.S > 0 {
			s = sols[o.S-1]
			// An optimisation here needs a dozen runs.
			sc := script{Solve: true, Seed: o.Layout.Seed, Layout: o.Layout, Max: 300}
			switch o.Fault {
			case "code":
				sc = script{Code: 1, Stdout: "s SATISFIABLE\nv 1 2 3 0\n"}
			case "signal":
				sc = script{Sig: 9, Stdout: "s SATISFIABLE\nv 1 2 3 0\n"}
			case "gone":
				check(os.Remove(s.fk.path))
			case "tmp":
				check(os.Setenv("TMPDIR", filepath.Join(b.root, "nothing", "here")))
			}
			s.fk.script(sc)
		}
		sat := false // has the solver found anything in this operation?
		switch o.Op {
		case "reset":
			ctx.Reset()
			for _, t := range sols {
				if t.last > 0 && st.Ops[t.last-1].C == o.C {
					t.last = 0
				}
			}
		case "step":
			if src == me {
				steps[me] = ast.Build(o.Q, names)
			}
			r["res"] = verdict(s.sol.Step(steps[src], ctx))
		case "sat":
			if src == me {
				combs[me] = buildComb(o.Comb, names)
			}
			res, err := combs[src].Sat(ctx, s.sol)
			r["res"] = result(res, err)
			if err != nil {
				r["msg"] = err.Error()
			}
		case "optim":
			fg := func(query.QVar) compute.Encodable { return ast.Build(o.Q, names) }
			og := func(_ query.QVar, c query.QConst) compute.Encodable {
				return ast.Build(with(o.O, "u", c), names)
			}
			out, err := compute.ComputeOptim(fg, og, query.QVar(o.V), ctx, s.sol)
			r["err"], r["found"], r["value"] = err != nil, out.Found, ast.FromFeats(out.Value.Val)
			if err != nil {
				r["msg"] = err.Error()
			}
			for _, t := range sols {
				if t.last > 0 && st.Ops[t.last-1].C == o.C {
					t.last = 0
				}
			}
		case "values":
			r["done"], r["err"], r["got"] = s.last == o.Of, false, []ast.Inst{}
			if s.last == o.Of {
				vs := make([]query.QVar, len(o.Vars))
				for i, v := range o.Vars {
					vs[i] = query.QVar(v)
				}
				got, err := s.sol.Values(vs, ctx)
				r["err"], r["got"] = err != nil, insts(got)
			}
		default:
			panic("harness: unknown session operation " + o.Op)
		}
		if s != nil {
			for _, x := range s.fk.runs() {
				sat = sat || x.Code == 10
			}
			if sat {
				s.last = 0
				if o.Op == "step" {
					s.last = me
				}
			}
			s.fk.restore()
			check(os.Setenv("TMPDIR", b.tmp))
		}
		obs = append(obs, r)
	}
}
