// Package ast is the bridge between the formulas of the specification
// (spec/Logic.tla) and the components of the library.
package ast

import (
	"encoding/json"
	"fmt"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	fullext "github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// Inst is a partial instance with the library's feature values.
type Inst []int

// Term is a variable (K="v") or a constant (K="c").
type Term struct {
	K string
	N string
	X Inst
}

func (t Term) MarshalJSON() ([]byte, error) {
	if t.K == "v" {
		return json.Marshal(map[string]any{"k": "v", "n": t.N})
	}
	x := t.X
	if x == nil {
		x = Inst{}
	}
	return json.Marshal(map[string]any{"k": "c", "n": t.N, "x": x})
}

func (t *Term) UnmarshalJSON(b []byte) error {
	var r struct {
		K string `json:"k"`
		N string `json:"n"`
		X Inst   `json:"x"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		return err
	}
	*t = Term{r.K, r.N, r.X}
	return nil
}

// V and C build terms.
func V(n string) Term         { return Term{K: "v", N: n} }
func C(n string, x Inst) Term { return Term{K: "c", N: n, X: x} }

// Lit is a literal of a clause component: term number T (1-based) has value
// Val on feature I (1-based), or has not.
type Lit struct {
	T   int  `json:"t"`
	I   int  `json:"i"`
	Val int  `json:"val"`
	Pos bool `json:"pos"`
}

// Q is a formula.
type Q struct {
	Op   string
	T    []Term
	LV   bool
	Pref []int
	A, B *Q
	V    string   // with
	C    string   // fag
	X    Inst     // fag: value carried by the quantified constant (ignored)
	Cl   [][]Lit  // cls
	No   []string // naming functions to leave out (malformed)
}

type rawQ struct {
	Op   string   `json:"op"`
	T    []Term   `json:"t"`
	LV   bool     `json:"lv"`
	Pref []int    `json:"pref"`
	A    *Q       `json:"a"`
	B    *Q       `json:"b"`
	V    string   `json:"v"`
	C    string   `json:"c"`
	X    Inst     `json:"x"`
	Cl   [][]Lit  `json:"cl"`
	No   []string `json:"no"`
}

func (q *Q) UnmarshalJSON(b []byte) error {
	var r rawQ
	if err := json.Unmarshal(b, &r); err != nil {
		return err
	}
	*q = Q(r)
	return nil
}

func (q *Q) MarshalJSON() ([]byte, error) {
	m := map[string]any{"op": q.Op}
	switch q.Op {
	case "and", "or":
		m["a"], m["b"] = q.A, q.B
	case "not":
		m["a"] = q.A
	case "with":
		m["v"], m["a"] = q.V, q.A
	case "fag":
		m["c"], m["a"] = q.C, q.A
		if len(q.X) > 0 {
			m["x"] = q.X
		}
	case "true", "false", "nil":
	case "cls":
		m["t"] = terms(q.T)
		cl := make([][]Lit, len(q.Cl))
		for i, c := range q.Cl {
			cl[i] = c
			if c == nil {
				cl[i] = []Lit{}
			}
		}
		m["cl"] = cl
	default:
		m["t"] = terms(q.T)
		if q.Op == "hepr" {
			p := q.Pref
			if p == nil {
				p = []int{}
			}
			m["pref"] = p
		}
		if q.Op == "allcomp" {
			m["lv"] = q.LV
		}
	}
	if len(q.No) > 0 {
		m["no"] = q.No
	}
	return json.Marshal(m)
}

func terms(t []Term) []Term {
	if t == nil {
		return []Term{}
	}
	return t
}

func And(a, b *Q) *Q         { return &Q{Op: "and", A: a, B: b} }
func Or(a, b *Q) *Q          { return &Q{Op: "or", A: a, B: b} }
func Not(a *Q) *Q            { return &Q{Op: "not", A: a} }
func With(v string, a *Q) *Q { return &Q{Op: "with", V: v, A: a} }
func Fag(c string, a *Q) *Q  { return &Q{Op: "fag", C: c, A: a} }
func True() *Q               { return &Q{Op: "true"} }
func False() *Q              { return &Q{Op: "false"} }
func Atom(op string, t ...Term) *Q {
	return &Q{Op: op, T: t}
}

// Size is the number of nodes of the formula.
func (q *Q) Size() int {
	if q == nil {
		return 0
	}
	return 1 + q.A.Size() + q.B.Size()
}

// Node is a tree node, as in spec/DTree.tla.
type Node struct {
	V bool `json:"v"`
	F int  `json:"f"`
	Z int  `json:"z"`
	O int  `json:"o"`
}

// Tree implements query.Model.
type Tree struct {
	D int
	N []query.Node
}

func (t Tree) Dim() int            { return t.D }
func (t Tree) Nodes() []query.Node { return t.N }

// NewTree makes a model of the given nodes.
func NewTree(d int, ns []Node) Tree {
	t := Tree{D: d}
	for _, n := range ns {
		t.N = append(t.N, query.Node{Value: n.V, Feat: n.F, ZChild: n.Z, OChild: n.O})
	}
	return t
}

// Names are the functions that name helper variables.
type Names struct {
	Reach func(v query.QVar) query.QVar
	Count func(v query.QVar) query.QVar
	HD    func(a, b query.QVar) query.QVar
	EF    func(a, b query.QVar) query.QVar
	Rank  func(p, a, b query.QVar) query.QVar
}

// NameStyle returns one of several families of injective naming functions,
// shared by all components of a query as the documentation asks.
func NameStyle(k int) Names {
	un := func(tag string, a, b query.QVar) query.QVar {
		if b < a {
			a, b = b, a
		}
		return query.QVar(fmt.Sprintf("%s{%s|%s}", tag, a, b))
	}
	switch k % 3 {
	case 1: // suffixes
		return Names{
			Reach: func(v query.QVar) query.QVar { return v + "#reach" },
			Count: func(v query.QVar) query.QVar { return v + "#count" },
			HD:    func(a, b query.QVar) query.QVar { return un("", a, b) + "#hd" },
			EF:    func(a, b query.QVar) query.QVar { return un("", a, b) + "#ef" },
			Rank: func(p, a, b query.QVar) query.QVar {
				return query.QVar(fmt.Sprintf("%s;%s;%s#rank", a, b, p))
			},
		}
	case 2: // lengths instead of separators
		l := func(v query.QVar) string { return fmt.Sprintf("%d:%s", len(v), string(v)) }
		lu := func(tag string, a, b query.QVar) query.QVar {
			if b < a {
				a, b = b, a
			}
			return query.QVar(tag + l(a) + l(b))
		}
		return Names{
			Reach: func(v query.QVar) query.QVar { return query.QVar("R" + l(v)) },
			Count: func(v query.QVar) query.QVar { return query.QVar("C" + l(v)) },
			HD:    func(a, b query.QVar) query.QVar { return lu("H", a, b) },
			EF:    func(a, b query.QVar) query.QVar { return lu("E", a, b) },
			Rank: func(p, a, b query.QVar) query.QVar {
				return query.QVar("P" + l(p) + l(a) + l(b))
			},
		}
	}
	return Names{ // as in the documentation
		Reach: func(v query.QVar) query.QVar { return "r" + v },
		Count: func(v query.QVar) query.QVar { return "cbot" + v },
		HD:    func(a, b query.QVar) query.QVar { return un("hd", a, b) },
		EF:    func(a, b query.QVar) query.QVar { return un("ef", a, b) },
		Rank: func(p, a, b query.QVar) query.QVar {
			return query.QVar(fmt.Sprintf("fpr{%s}{%s}{%s}", p, a, b))
		},
	}
}

// Const makes the library's constant of a term.
func Const(t Term) query.QConst {
	c := query.QConst{ID: t.N}
	if t.X != nil {
		c.Val = Feats(t.X)
	}
	return c
}

// Feats converts an instance.
func Feats(x Inst) []query.FeatV {
	v := make([]query.FeatV, len(x))
	for i, f := range x {
		v[i] = query.FeatV(f)
	}
	return v
}

// FromFeats converts back.
func FromFeats(v []query.FeatV) Inst {
	x := make(Inst, len(v))
	for i, f := range v {
		x[i] = int(f)
	}
	return x
}

// trivial is a user-defined component: the predefined true or false formula.
type trivial bool

func (t trivial) Encoding(query.QContext) (cnf.CNF, error) {
	if t {
		return cnf.TrueCNF, nil
	}
	return cnf.FalseCNF, nil
}

// clauses is a user-defined component: a clause set over feature values.
type clauses struct {
	t  []Term
	cl [][]Lit
}

func (c clauses) Encoding(ctx query.QContext) (cnf.CNF, error) {
	cs := []cnf.Clause{}
	for _, cl := range c.cl {
		o := cnf.Clause{}
		for _, l := range cl {
			v := ctx.CNFVar(ctx.ScopeVar(query.QVar(c.t[l.T-1].N)), l.I-1, l.Val)
			if !l.Pos {
				v = -v
			}
			o = append(o, v)
		}
		cs = append(cs, o)
	}
	return cnf.FromClauses(cs), nil
}

// Build makes the real query of a formula.
func Build(q *Q, nm Names) logop.LogOpQ {
	if q == nil || q.Op == "nil" {
		return nil
	}
	full := nm // children use the complete functions
	for _, n := range q.No {
		switch n {
		case "reach":
			nm.Reach = nil
		case "count":
			nm.Count = nil
		case "hd":
			nm.HD = nil
		case "ef":
			nm.EF = nil
		case "rank":
			nm.Rank = nil
		}
	}
	sub := func(a *Q) logop.LogOpQ { return Build(a, full) }
	form := ""
	for _, t := range q.T {
		form += t.K
	}
	v := func(i int) query.QVar { return query.QVar(q.T[i].N) }
	c := func(i int) query.QConst { return Const(q.T[i]) }
	switch q.Op {
	case "and":
		return logop.And{Q1: sub(q.A), Q2: sub(q.B)}
	case "or":
		return logop.Or{Q1: sub(q.A), Q2: sub(q.B)}
	case "not":
		return logop.Not{Q: sub(q.A)}
	case "with":
		return logop.WithVar{I: query.QVar(q.V), Q: sub(q.A)}
	case "fag":
		k := query.QConst{ID: q.C}
		if len(q.X) > 0 {
			k.Val = Feats(q.X)
		}
		return logop.ForAllGuarded{I: k, Q: sub(q.A)}
	case "true":
		return trivial(true)
	case "false":
		return trivial(false)
	case "cls":
		return clauses{q.T, q.Cl}
	}
	switch q.Op + "/" + form {
	case "sub/cc":
		return subsumption.ConstConst{I1: c(0), I2: c(1)}
	case "sub/cv":
		return subsumption.ConstVar{I1: c(0), I2: v(1)}
	case "sub/vc":
		return subsumption.VarConst{I1: v(0), I2: c(1)}
	case "sub/vv":
		return subsumption.VarVar{I1: v(0), I2: v(1)}
	case "lel/cc":
		return lel.ConstConst{I1: c(0), I2: c(1)}
	case "lel/cv":
		return lel.ConstVar{I1: c(0), I2: v(1), CountVarGen: nm.Count}
	case "lel/vc":
		return lel.VarConst{I1: v(0), I2: c(1), CountVarGen: nm.Count}
	case "lel/vv":
		return lel.VarVar{I1: v(0), I2: v(1), CountVarGen: nm.Count}
	case "cons/cc":
		return cons.ConstConst{I1: c(0), I2: c(1)}
	case "cons/cv":
		return cons.ConstVar{I1: c(0), I2: v(1)}
	case "cons/vc":
		return cons.VarConst{I1: v(0), I2: c(1)}
	case "cons/vv":
		return cons.VarVar{I1: v(0), I2: v(1)}
	case "full/c":
		return fullext.Const{I: c(0)}
	case "full/v":
		return fullext.Var{I: v(0)}
	case "isnode/c":
		return isnode.Const{I: c(0)}
	case "isnode/v":
		return isnode.Var{I: v(0), ReachNodeVarGen: nm.Reach}
	case "allcomp/c":
		return allcomp.Const{I: c(0), LeafValue: q.LV}
	case "allcomp/v":
		return allcomp.Var{I: v(0), LeafValue: q.LV, ReachNodeVarGen: nm.Reach}
	case "dfs/c":
		return dfs.Const{I: c(0)}
	case "dfs/v":
		return dfs.Var{I: v(0)}
	case "hepr/cc":
		return hepr.ConstConst{I1: c(0), I2: c(1), Preference: q.Pref}
	case "hepr/cv":
		return hepr.ConstVar{I1: c(0), I2: v(1), Preference: q.Pref, FeaturePreferenceRankVarGen: nm.Rank}
	case "hepr/vc":
		return hepr.VarConst{I1: v(0), I2: c(1), Preference: q.Pref, FeaturePreferenceRankVarGen: nm.Rank}
	case "hepr/vv":
		return hepr.VarVar{I1: v(0), I2: v(1), Preference: q.Pref, FeaturePreferenceRankVarGen: nm.Rank}
	case "leh/ccc":
		return leh.ConstConstConst{I1: c(0), I2: c(1), I3: c(2)}
	case "leh/ccv":
		return leh.ConstConstVar{I1: c(0), I2: c(1), I3: v(2), HammingDistanceVarGen: nm.HD}
	case "leh/cvc":
		return leh.ConstVarConst{I1: c(0), I2: v(1), I3: c(2), HammingDistanceVarGen: nm.HD}
	case "leh/cvv":
		return leh.ConstVarVar{I1: c(0), I2: v(1), I3: v(2), HammingDistanceVarGen: nm.HD}
	case "leh/vcc":
		return leh.VarConstConst{I1: v(0), I2: c(1), I3: c(2), HammingDistanceVarGen: nm.HD}
	case "leh/vcv":
		return leh.VarConstVar{I1: v(0), I2: c(1), I3: v(2), HammingDistanceVarGen: nm.HD, EqualFeatureVarGen: nm.EF}
	case "leh/vvc":
		return leh.VarVarConst{I1: v(0), I2: v(1), I3: c(2), HammingDistanceVarGen: nm.HD, EqualFeatureVarGen: nm.EF}
	case "leh/vvv":
		return leh.VarVarVar{I1: v(0), I2: v(1), I3: v(2), HammingDistanceVarGen: nm.HD, EqualFeatureVarGen: nm.EF}
	}
	panic("ast: unknown form " + q.Op + "/" + form)
}
