package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
)

// comb is a Boolean combination of evaluations.
type comb struct {
	Op   string  `json:"op"`
	Kids []*comb `json:"kids"`
	ID   int     `json:"id"`
	Neg  bool    `json:"neg"`
	Out  string  `json:"out"`
	How  string  `json:"how"` // "", "wrapped", "custom", "customtrue"
	Q    *ast.Q  `json:"q"`
}

func (c *comb) MarshalJSON() ([]byte, error) {
	if c.Op != "leaf" {
		k := c.Kids
		if k == nil {
			k = []*comb{}
		}
		return json.Marshal(Obj{"op": c.Op, "kids": k})
	}
	m := Obj{"op": c.Op, "id": c.ID, "neg": c.Neg, "out": c.Out, "how": c.How}
	if c.Q != nil {
		m["q"] = c.Q
	}
	return json.Marshal(m)
}

type combStim struct {
	C    *comb      `json:"c"`
	D    int        `json:"d"`
	Tree []ast.Node `json:"tree"`
}

func init() {
	executors["comb"] = execComb
	executors["combq"] = execCombQ
}

// leafQ identifies a leaf; its encoding is irrelevant.
type leafQ struct{ id int }

func (leafQ) Encoding(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }

// scripted answers every leaf as told and notes the order of the questions.
type scripted struct {
	ctx   query.QContext
	leaf  map[int]*comb
	calls []int
}

func (s *scripted) Step(q compute.Encodable, ctx query.QContext) error {
	l, ok := q.(leafQ)
	if !ok {
		panic("harness: a query that is not a leaf")
	}
	s.calls = append(s.calls, l.id)
	c := s.leaf[l.id]
	switch {
	case c.Out == "sat":
		return nil
	case c.Out == "unsat" && c.How == "wrapped":
		return fmt.Errorf("while evaluating: %w", compute.UnsatError)
	case c.Out == "unsat":
		return compute.UnsatError
	}
	return errInjected
}

func (s *scripted) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return nil, errors.New("not asked for")
}

// custom is a combinator of the caller.
type custom struct {
	c *comb
	s *scripted
}

func (k custom) Sat(ctx query.QContext, solver compute.Solver) (bool, error) {
	k.s.calls = append(k.s.calls, k.c.ID)
	if k.c.Out == "err" {
		return k.c.How == "customtrue", errInjected
	}
	return k.c.Out == "sat", nil
}

func result(sat bool, err error) string {
	switch {
	case err != nil && sat:
		return "error and true"
	case err != nil:
		return "error"
	case sat:
		return "true"
	}
	return "false"
}

func execComb(raw json.RawMessage, ev Obj) {
	var st combStim
	parse(raw, &st)
	ctx := query.BasicQContext(ast.NewTree(1, []ast.Node{{Z: -1, O: -1}}))
	s := &scripted{ctx: ctx, leaf: map[int]*comb{}, calls: []int{}}
	var build func(c *comb) compute.QDTFCombinator
	build = func(c *comb) compute.QDTFCombinator {
		switch c.Op {
		case "and":
			var k compute.AndCombinator
			for _, e := range c.Kids {
				k = append(k, build(e))
			}
			return k
		case "or":
			var k compute.OrCombinator
			for _, e := range c.Kids {
				k = append(k, build(e))
			}
			return k
		}
		s.leaf[c.ID] = c
		if c.How == "custom" || c.How == "customtrue" {
			return custom{c, s}
		}
		return compute.QDTFAtom{Query: leafQ{c.ID}, Negated: c.Neg}
	}
	real := build(st.C)
	ev["out"] = "ok"
	ev["res"] = result(real.Sat(ctx, s))
	ev["calls"] = s.calls
	// a second evaluation consults the same leaves
	{
		first := s.calls
		s.calls = []int{}
		again := result(real.Sat(ctx, s))
		if again != ev["res"] || fmt.Sprint(s.calls) != fmt.Sprint(first) {
			ev["res"], ev["calls"] = "at first "+ev["res"].(string)+", then "+again, s.calls
		}
	}
}

func execCombQ(raw json.RawMessage, ev Obj) {
	var st combStim
	parse(raw, &st)
	b := newBox(0)
	defer b.close()
	fk := newFake(filepath.Join(b.root, "solver"))
	fk.script(script{Solve: true, Seed: 1})
	sol, err := compute.BinSolver(fk.path)
	check(err)
	names := ast.NameStyle(0)
	var build func(c *comb) compute.QDTFCombinator
	build = func(c *comb) compute.QDTFCombinator {
		switch c.Op {
		case "and":
			var k compute.AndCombinator
			for _, e := range c.Kids {
				k = append(k, build(e))
			}
			return k
		case "or":
			var k compute.OrCombinator
			for _, e := range c.Kids {
				k = append(k, build(e))
			}
			return k
		}
		return compute.QDTFAtom{Query: ast.Build(c.Q, names), Negated: c.Neg}
	}
	sat, err := build(st.C).Sat(query.BasicQContext(ast.NewTree(st.D, st.Tree)), sol)
	ev["out"] = "ok"
	ev["res"] = result(sat, err)
	if err != nil {
		ev["msg"] = err.Error()
	}
}
