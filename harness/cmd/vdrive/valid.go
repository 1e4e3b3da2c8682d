package main

import (
	"encoding/json"
	"errors"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
)

// validStim is a query, perhaps malformed, and a way to use it.
type validStim struct {
	D     int        `json:"d"`
	Tree  []ast.Node `json:"tree"`
	Q     *ast.Q     `json:"q"`
	Style int        `json:"style"`
	Via   string     `json:"via"`
	Neg   bool       `json:"neg"`
	Decl  []string   `json:"decl"`
	Bin   bool       `json:"bin"`
	Shape int        `json:"shape"`
	Prior []*ast.Q   `json:"prior"` // encoded before in the same context
}

func init() { executors["valid"] = execValid }

// plainSolver decides formulas in this process.
type plainSolver struct {
	d   int
	ans map[query.QVar]ast.Inst
}

func (p *plainSolver) Step(q compute.Encodable, ctx query.QContext) error {
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	if f.TopV() < 0 {
		return errors.New("negative variable count")
	}
	fo := newFormula(f)
	p.ans = map[query.QVar]ast.Inst{}
	if !fo.sat(nil) {
		return compute.UnsatError
	}
	for k := 0; k < pow3(p.d); k++ {
		if fo.sat(pinLits(ctx, "v", instAt(k, p.d))) {
			p.ans["v"] = instAt(k, p.d)
			break
		}
	}
	return nil
}

func (p *plainSolver) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	r := make([]query.QConst, len(vars))
	for i, v := range vars {
		r[i] = query.QConst{Val: ast.Feats(p.ans[v])}
	}
	return r, nil
}

func execValid(raw json.RawMessage, ev Obj) {
	var st validStim
	parse(raw, &st)
	delete(ev, "style")
	delete(ev, "shape")
	names := ast.NameStyle(st.Style)
	ctx := query.BasicQContext(ast.NewTree(st.D, st.Tree))
	for _, v := range st.Decl {
		if v != "v" {
			ctx.AddVar(query.QVar(v))
		}
	}
	delete(ev, "prior")
	for _, q := range st.Prior {
		_, _ = ast.Build(q, names).Encoding(ctx)
	}
	real := ast.Build(st.Q, names)
	var sol compute.Solver = &plainSolver{d: st.D}
	if st.Bin {
		b := newBox(0)
		defer b.close()
		fk := newFake(filepath.Join(b.root, "solver"))
		fk.script(script{Solve: true, Seed: 1})
		s, err := compute.BinSolver(fk.path)
		check(err)
		sol = s
	}
	ev["used"], ev["claims"] = true, false
	var err error
	switch st.Via {
	case "enc":
		_, err = real.Encoding(ctx)
	case "nilctx":
		_, err = real.Encoding(nil)
	case "atom":
		var ok bool
		ok, err = compute.QDTFAtom{Query: real, Negated: st.Neg}.Sat(ctx, sol)
		ev["claims"] = ok && err != nil
	case "comb":
		var ok bool
		yes := compute.QDTFAtom{Query: ast.Build(ast.True(), names)}
		no := compute.QDTFAtom{Query: ast.Build(ast.False(), names)}
		me := compute.QDTFAtom{Query: real, Negated: st.Neg}
		var c compute.QDTFCombinator
		switch st.Shape % 6 {
		case 0:
			c = compute.AndCombinator{yes, me}
		case 1:
			c = compute.OrCombinator{no, me, yes}
		case 2:
			c = compute.AndCombinator{compute.OrCombinator{me, yes}, yes}
		case 3:
			c = compute.OrCombinator{compute.AndCombinator{me, no}, yes}
		case 4:
			c = compute.OrCombinator{me}
		case 5:
			c = compute.AndCombinator{compute.AndCombinator{}, compute.OrCombinator{no, compute.AndCombinator{yes, me}}}
		}
		ok, err = c.Sat(ctx, sol)
		ev["claims"] = ok && err != nil
	case "formula", "order":
		used := st.Via == "formula"
		var out compute.OptOutput
		out, err = compute.ComputeOptim(
			func(v query.QVar) compute.Encodable {
				if st.Via == "order" {
					return ast.Build(ast.True(), names)
				}
				return asEncodable(real)
			},
			func(v query.QVar, c query.QConst) compute.Encodable {
				if st.Via == "order" {
					used = true
					return asEncodable(real)
				}
				// strictly above c
				k := ast.C("u", ast.FromFeats(c.Val))
				return ast.Build(ast.And(ast.Atom("sub", k, ast.V("v")), ast.Not(ast.Atom("sub", ast.V("v"), k))), names)
			}, "v", ctx, guarded{sol, new(int)})
		ev["used"] = used
		ev["claims"] = out.Found && err != nil
	}
	ev["out"] = "ok"
	if errors.Is(err, errGivenUp) {
		err = nil // more calls than any strict order needs: nothing was reported
	}
	if err != nil {
		ev["out"], ev["msg"] = "err", err.Error()
	}
}

// asEncodable keeps a missing query missing.
func asEncodable(q interface {
	Encoding(query.QContext) (cnf.CNF, error)
}) compute.Encodable {
	if q == nil {
		return nil
	}
	return q
}

var errGivenUp = errors.New("given up")

// guarded ends optimisations whose order is not strict.
type guarded struct {
	compute.Solver
	n *int
}

func (s guarded) Step(q compute.Encodable, ctx query.QContext) error {
	if *s.n++; *s.n > 40 {
		return errGivenUp
	}
	return s.Solver.Step(q, ctx)
}
