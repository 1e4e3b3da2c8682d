package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
)

// ctxStim is a history of contexts. With twin, the operations from index From
// on are done on context 1 (after its history) and on a new context 2.
type ctxStim struct {
	D     int        `json:"d"`
	Tree  []ast.Node `json:"tree"`
	Style int        `json:"style"`
	Ops   []ctxOp    `json:"ops"`
	From  int        `json:"from"` // twin: first operation done on both; 0: no twin
	Vars  []string   `json:"vars"` // probed afterwards
	Tgts  []string   `json:"tgts"`
}

type ctxOp struct {
	Op     string   `json:"op"`
	C      int      `json:"c"`
	T      string   `json:"t"`
	V      string   `json:"v"`
	I      int      `json:"i"`
	Val    int      `json:"val"`
	N      int      `json:"n"` // bulk: how many
	W      int      `json:"w"` // and how many per index
	X      ast.Inst `json:"x"`
	Scoped bool     `json:"scoped"`
	Q      *ast.Q   `json:"q"`
}

func init() { executors["ctx"] = execCtx }

// recorder is a context that notes every operation and its result.
type recorder struct {
	query.QContext
	c     int
	steps *[]Obj
}

func (r *recorder) note(o Obj) {
	o["c"] = r.c
	*r.steps = append(*r.steps, o)
}

func (r *recorder) ScopeVar(v query.QVar) query.QVar {
	n := r.QContext.ScopeVar(v)
	r.note(Obj{"op": "scopevar", "v": string(v), "n": string(n)})
	return n
}

func (r *recorder) AddVar(v query.QVar) {
	r.QContext.AddVar(v)
	r.note(Obj{"op": "addvar", "v": string(v)})
}

func (r *recorder) ScopeConst(c query.QConst) (query.QConst, bool) {
	own := ast.FromFeats(c.Val)
	k, ok := r.QContext.ScopeConst(c)
	r.note(Obj{"op": "scopeconst", "t": c.ID, "own": own, "ok": ok, "x": ast.FromFeats(k.Val), "id": k.ID})
	return k, ok
}

func (r *recorder) AddScope(t string) {
	r.QContext.AddScope(t)
	r.note(Obj{"op": "addscope", "t": t})
}

func (r *recorder) PopScope() error {
	err := r.QContext.PopScope()
	r.note(Obj{"op": "popscope", "ok": err == nil})
	return err
}

// squeeze makes numbers that the specification's integers cannot hold
// smaller, different ones different. Those used are p * 2^31 + r with small p
// and r.
func squeeze(n int) int {
	if n < 1<<31 {
		return n
	}
	return 1<<30 + 1<<28 + (n>>31)*1000 + n&(1<<31-1)
}

// num makes numbers of propositional variables that the specification's
// integers cannot hold smaller, keeping their order. Those used are small or
// close to multiples of 2^31.
func num(n int) int {
	if n > -1<<30 && n < 1<<30 {
		return n
	}
	if n < 0 {
		return -num(-n)
	}
	p := (n + 1<<30) >> 31
	d := n - p<<31
	if p > 100 || d > 1<<21 || d < -1<<21 {
		return 1<<31 - 2 // nothing that could be right
	}
	return 1<<30 + p<<23 + d
}

// nums does so for several.
func nums(ns []int) []int {
	r := make([]int, len(ns))
	for i, n := range ns {
		r[i] = num(n)
	}
	return r
}

func (r *recorder) SetScope(i int, x []query.FeatV) error {
	err := r.QContext.SetScope(i, x)
	r.note(Obj{"op": "setscope", "i": squeeze(i), "x": ast.FromFeats(x), "ok": err == nil})
	return err
}

func (r *recorder) TopV() int {
	k := r.QContext.TopV()
	r.note(Obj{"op": "topv", "k": num(k)})
	return k
}

func (r *recorder) UpdateTopV(v int) bool {
	ok := r.QContext.UpdateTopV(v)
	r.note(Obj{"op": "updatetop", "k": num(v), "ok": ok})
	return ok
}

func (r *recorder) CNFVar(v query.QVar, i, val int) int {
	k := r.QContext.CNFVar(v, i, val)
	r.note(Obj{"op": "cnfvar", "n": string(v), "i": squeeze(i), "val": squeeze(val), "k": num(k)})
	return k
}

func (r *recorder) CNFVarExists(v query.QVar, i, val int) bool {
	ok := r.QContext.CNFVarExists(v, i, val)
	r.note(Obj{"op": "exists", "n": string(v), "i": squeeze(i), "val": squeeze(val), "ok": ok})
	return ok
}

func (r *recorder) Dim() int {
	d := r.QContext.Dim()
	r.note(Obj{"op": "dim", "k": d})
	return d
}

func (r *recorder) Reset() {
	r.QContext.Reset()
	r.note(Obj{"op": "reset"})
}

func maxOf(f cnf.CNF) int {
	m := 0
	s, c := f.Clauses()
	for _, cs := range [][]cnf.Clause{s, c} {
		for _, cl := range cs {
			for _, l := range cl {
				if l < 0 {
					l = -l
				}
				if l > m {
					m = l
				}
			}
		}
	}
	return m
}

// encode encodes a query, noting everything it does with the context.
func (r *recorder) encode(q *ast.Q, nm ast.Names) {
	r.note(Obj{"op": "encbegin"})
	ok, max, pan := false, 0, false
	var f cnf.CNF
	var err error
	func() {
		defer func() {
			if p := recover(); p != nil {
				if strings.HasPrefix(fmt.Sprint(p), "ast:") {
					panic(p)
				}
				pan = true
			}
		}()
		f, err = ast.Build(q, nm).Encoding(r)
	}()
	if err == nil && !pan {
		ok = true
		max = maxOf(f)
	}
	r.note(Obj{"op": "encend", "ok": ok, "max": num(max), "panic": pan})
}

func (r *recorder) do(o ctxOp, nm ast.Names) {
	switch o.Op {
	case "open":
		r.AddScope(o.T)
		_ = r.SetScope(o.I, ast.Feats(o.X))
	case "addscope":
		r.AddScope(o.T)
	case "setscope":
		_ = r.SetScope(o.I, ast.Feats(o.X))
	case "popscope":
		_ = r.PopScope()
	case "addvar":
		r.AddVar(query.QVar(o.V))
	case "scopevar":
		_ = r.ScopeVar(query.QVar(o.V))
	case "scopeconst":
		_, _ = r.ScopeConst(query.QConst{ID: o.T, Val: ast.Feats(o.X)})
	case "cnfvar":
		n := query.QVar(o.V)
		if o.Scoped {
			n = r.ScopeVar(n)
		}
		_ = r.CNFVar(n, o.I, o.Val)
	case "bulk": // the variables of many indices and values
		n := query.QVar(o.V)
		if o.Scoped {
			n = r.ScopeVar(n)
		}
		ks := make([]int, o.N)
		for j := range ks {
			ks[j] = r.QContext.CNFVar(n, o.I+j/o.W, j%o.W)
		}
		r.note(Obj{"op": "cnfvars", "n": string(n), "i": squeeze(o.I), "w": o.W, "ks": nums(ks)})
	case "exists":
		n := query.QVar(o.V)
		if o.Scoped {
			n = r.ScopeVar(n)
		}
		_ = r.CNFVarExists(n, o.I, o.Val)
	case "topv":
		_ = r.TopV()
	case "updatetop":
		_ = r.UpdateTopV(o.I)
	case "enc":
		r.encode(o.Q, nm)
	case "reset":
		r.Reset()
	default:
		panic("harness: unknown context operation " + o.Op)
	}
}

// probe looks at everything a context shows, then closes its scopes one by one.
func (r *recorder) probe(vars, tgts []string) {
	look := func() {
		for _, v := range vars {
			_ = r.ScopeVar(query.QVar(v))
		}
		for _, t := range tgts {
			_, _ = r.ScopeConst(query.QConst{ID: t, Val: []query.FeatV{query.ONE}})
		}
	}
	_ = r.TopV()
	look()
	for _, v := range vars {
		n := r.ScopeVar(query.QVar(v))
		for i := 0; i < 2; i++ {
			_ = r.CNFVarExists(n, i, 1)
		}
	}
	_ = r.TopV()
	for k := 0; k < 8; k++ {
		if r.PopScope() != nil {
			break
		}
		look()
	}
	_ = r.SetScope(0, nil)
	for _, v := range vars {
		_ = r.CNFVar(query.QVar(v), 0, 1)
	}
	_ = r.TopV()
}

func execCtx(raw json.RawMessage, ev Obj) {
	var st ctxStim
	parse(raw, &st)
	for _, k := range []string{"ops", "style", "vars", "tgts", "from"} {
		delete(ev, k)
	}
	nm := ast.NameStyle(st.Style)
	steps := []Obj{}
	rs := map[int]*recorder{}
	for c := 1; c <= 2; c++ {
		rs[c] = &recorder{query.BasicQContext(ast.NewTree(st.D, st.Tree)), c, &steps}
	}
	ev["out"] = "ok"
	defer func() { ev["steps"] = steps }()
	used := map[int]bool{1: true}
	for i, o := range st.Ops {
		if o.C == 0 {
			o.C = 1
		}
		if st.From > 0 && i >= st.From {
			n := len(steps)
			rs[1].do(o, nm)
			mine := append([]Obj{}, steps[n:]...)
			n = len(steps)
			rs[2].do(o, nm)
			theirs := append([]Obj{}, steps[n:]...)
			if o.Op == "enc" {
				continue
			}
			// one after the other, so that the results can be compared
			steps = steps[:n-len(mine)]
			for k := range mine {
				theirs[k]["same"] = true
				steps = append(steps, mine[k], theirs[k])
			}
			continue
		}
		used[o.C] = true
		rs[o.C].do(o, nm)
	}
	rs[1].probe(st.Vars, st.Tgts)
	if used[2] || st.From > 0 {
		rs[2].probe(st.Vars, st.Tgts)
	}
}
