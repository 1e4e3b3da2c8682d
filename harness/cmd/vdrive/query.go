package main

import (
	"encoding/json"
	"sort"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
	"verif/harness/sat"
)

// queryStim asks for the meaning of a query: for every assignment of the
// variables gv and the constants gc (all of them, in canonical order, or the
// listed pins) whether the encoded query is satisfiable.
type queryStim struct {
	D     int        `json:"d"`
	Tree  []ast.Node `json:"tree"`
	Q     *ast.Q     `json:"q"`
	Style int        `json:"style"`
	GV    []string   `json:"gv"`
	GC    []string   `json:"gc"`
	Bind  string     `json:"bind"` // how constants get their values: "scope" or "direct"
	Grid  bool       `json:"grid"`
	Pins  []pin      `json:"pins"`
	Hist  []histOp   `json:"hist"`  // what the context was used for before a reset
	Twice bool       `json:"twice"` // encode the same value in another context first
	Mode  string     `json:"mode"`  // "", "models" or "inner"
	Base  int        `json:"base"`  // numbers reserved beforehand
	Watch string     `json:"watch"` // inner: the variable to watch
}

type pin struct {
	VS map[string]ast.Inst `json:"vs"`
	CS map[string]ast.Inst `json:"cs"`
}

func init() {
	executors["query"] = execQuery
}

func asInts(cs []cnf.Clause) [][]int {
	r := make([][]int, len(cs))
	for i, c := range cs {
		r[i] = []int(c)
	}
	return r
}

// formula is an encoded query ready to be asked about. If its variables are
// far apart they are renumbered; lit translates.
type formula struct {
	s, c [][]int
	sol  *sat.Solver
	to   map[int]int
}

func newFormula(f cnf.CNF) *formula {
	s, c := f.Clauses()
	r := &formula{s: asInts(s), c: asInts(c)}
	if max(litMax(s), litMax(c)) > 1<<15 {
		r.to = map[int]int{}
		for _, l := range []*[][]int{&r.s, &r.c} {
			m := make([][]int, len(*l))
			for i, cl := range *l {
				for _, x := range cl {
					m[i] = append(m[i], r.lit(x))
				}
			}
			*l = m
		}
	}
	return r
}

func (f *formula) lit(x int) int {
	if f.to == nil {
		return x
	}
	v := max(x, -x)
	k, ok := f.to[v]
	if !ok {
		k = len(f.to) + 1
		f.to[v] = k
	}
	if x < 0 {
		return -k
	}
	return k
}

func (f *formula) sat(as []int) bool {
	assume := make([]int, len(as))
	for i, x := range as {
		assume[i] = f.lit(x)
	}
	if useDPLL {
		if r, ok := sat.DPLL([][][]int{f.s, f.c}, assume); ok {
			return r
		}
	}
	if f.sol == nil {
		f.sol = sat.New(0, f.s, f.c)
	}
	return f.sol.Solve(assume...)
}

// instAt is the k-th instance of dimension d in canonical order.
func instAt(k, d int) ast.Inst {
	x := make(ast.Inst, d)
	for i := range x {
		x[i] = k % 3
		k /= 3
	}
	return x
}

func pow3(n int) int {
	r := 1
	for ; n > 0; n-- {
		r *= 3
	}
	return r
}

func pinLits(ctx query.QContext, v query.QVar, x ast.Inst) []int {
	l := make([]int, len(x))
	for i, f := range x {
		l[i] = ctx.CNFVar(v, i, f)
	}
	return l
}

// with puts a constant made by the library in the place of a named one.
func with(q *ast.Q, n string, c query.QConst) *ast.Q {
	if q == nil {
		return nil
	}
	r := *q
	r.T = nil
	for _, t := range q.T {
		if t.K == "c" && t.N == n {
			t.N, t.X = c.ID, ast.FromFeats(c.Val)
		}
		r.T = append(r.T, t)
	}
	r.A, r.B = with(q.A, n, c), with(q.B, n, c)
	return &r
}

// substitute gives the named constants their values directly.
func substitute(q *ast.Q, cs map[string]ast.Inst) *ast.Q {
	if q == nil {
		return nil
	}
	r := *q
	r.T = nil
	for _, t := range q.T {
		if x, ok := cs[t.N]; ok && t.K == "c" {
			t.X = x
		}
		r.T = append(r.T, t)
	}
	r.A, r.B = substitute(q.A, cs), substitute(q.B, cs)
	return &r
}

func execQuery(raw json.RawMessage, ev Obj) { execQueryIn(raw, ev, plainEnv) }

func execQueryIn(raw json.RawMessage, ev Obj, en env) {
	var st queryStim
	parse(raw, &st)
	delete(ev, "style")
	delete(ev, "bind")
	delete(ev, "hist")
	delete(ev, "twice")
	delete(ev, "base")
	tree := en.model(st.D, st.Tree)
	names := ast.NameStyle(st.Style)

	// open encodes the query with the given constants and returns the means
	// to ask about it, or what went wrong.
	type opened struct {
		f   *formula
		ctx query.QContext
		sv  map[string]query.QVar
		out string
		msg string
	}
	open := func(cs map[string]ast.Inst) (o opened) {
		q := st.Q
		if st.Bind == "direct" {
			q = substitute(q, cs)
		}
		real := en.build(q, names, st.Bind != "direct")
		if st.Twice {
			_, _ = real.Encoding(en.ctx(query.BasicQContext(tree)))
		}
		ctx := en.ctx(query.BasicQContext(tree))
		if len(st.Hist) > 0 {
			applyHist(ctx, st.Hist, names)
			ctx.Reset()
		}
		o.ctx = ctx
		if st.Bind == "scope" {
			for k, n := range st.GC {
				ctx.AddScope(n)
				if err := ctx.SetScope(k, ast.Feats(cs[n])); err != nil {
					o.out, o.msg = "err", err.Error()
					return o
				}
			}
		}
		if st.Base > 0 {
			ctx.UpdateTopV(st.Base)
		}
		f, err := real.Encoding(ctx)
		if err != nil {
			o.out, o.msg = "err", err.Error()
			return o
		}
		o.out = "ok"
		o.f = newFormula(f)
		o.sv = map[string]query.QVar{}
		for _, v := range st.GV {
			o.sv[v] = ctx.ScopeVar(query.QVar(v))
		}
		return o
	}

	ev["out"] = "ok"
	switch st.Mode {
	case "models":
		o := open(nil)
		if o.out != "ok" {
			ev["out"], ev["msg"] = o.out, o.msg
			return
		}
		ev["models"] = models(o.f, o.ctx, st.GV, o.sv, st.D)
		return
	case "inner":
		execInner(st, tree, names, ev)
		return
	}

	var obs []int
	ask := func(o opened, vs map[string]ast.Inst) bool {
		var as []int
		for _, v := range st.GV {
			as = append(as, pinLits(o.ctx, o.sv[v], vs[v])...)
		}
		return o.f.sat(as)
	}
	if st.Grid {
		nv, nc := pow3(st.D*len(st.GV)), pow3(st.D*len(st.GC))
		one := pow3(st.D)
		for ci := 0; ci < nc; ci++ {
			cs := map[string]ast.Inst{}
			k := ci
			for _, n := range st.GC {
				cs[n] = instAt(k%one, st.D)
				k /= one
			}
			o := open(cs)
			if o.out != "ok" {
				ev["out"], ev["msg"] = o.out, o.msg
				return
			}
			for vi := 0; vi < nv; vi++ {
				vs := map[string]ast.Inst{}
				k := vi
				for _, n := range st.GV {
					vs[n] = instAt(k%one, st.D)
					k /= one
				}
				obs = append(obs, b2i(ask(o, vs)))
			}
		}
	} else {
		var o opened
		for i, p := range st.Pins {
			if i == 0 || len(st.GC) > 0 {
				o = open(p.CS)
			}
			if o.out != "ok" {
				ev["out"], ev["msg"] = o.out, o.msg
				return
			}
			obs = append(obs, b2i(ask(o, p.VS)))
		}
	}
	ev["obs"] = obs
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// models enumerates the satisfying valuations projected to the value
// variables of the given names: for each name the list, per feature, of the
// values it has.
func models(f *formula, ctx query.QContext, names []string, sv map[string]query.QVar, d int) []Obj {
	var vars []int
	for _, n := range names {
		for i := 0; i < d; i++ {
			for v := 0; v < 3; v++ {
				vars = append(vars, f.lit(ctx.CNFVar(sv[n], i, v)))
			}
		}
	}
	s := sat.New(0, f.s, f.c)
	res := []Obj{}
	for s.Solve(vars0(s, vars)...) {
		if len(res) > 20000 {
			panic("harness: too many models")
		}
		m := Obj{}
		block := []int{}
		k := 0
		for _, n := range names {
			fe := [][]int{}
			for i := 0; i < d; i++ {
				on := []int{}
				for v := 0; v < 3; v++ {
					if s.Value(vars[k]) {
						on = append(on, v)
						block = append(block, -vars[k])
					} else {
						block = append(block, vars[k])
					}
					k++
				}
				fe = append(fe, on)
			}
			m[n] = fe
		}
		res = append(res, m)
		s.Add(block)
	}
	return res
}

// vars0 makes sure that the solver knows the variables, without assumptions.
func vars0(s *sat.Solver, vars []int) []int {
	mx := 0
	for _, v := range vars {
		if v > mx {
			mx = v
		}
	}
	if mx > s.NV() {
		s.Add([]int{mx, -mx})
	}
	return nil
}

// watcher notes the internal names the watched variable gets.
type watcher struct {
	query.QContext
	v    query.QVar
	seen map[query.QVar]bool
}

func (w *watcher) ScopeVar(v query.QVar) query.QVar {
	r := w.QContext.ScopeVar(v)
	if v == w.v {
		w.seen[r] = true
	}
	return r
}

// execInner looks at the valuations of a variable declared inside quantifiers:
// the projections to each of the internal names it got.
func execInner(st queryStim, tree ast.Tree, names ast.Names, ev Obj) {
	w := &watcher{query.BasicQContext(tree), query.QVar(st.Watch), map[query.QVar]bool{}}
	if st.Base > 0 {
		w.UpdateTopV(st.Base)
	}
	f, err := ast.Build(st.Q, names).Encoding(w)
	if err != nil {
		ev["out"], ev["msg"] = "err", err.Error()
		return
	}
	fo := newFormula(f)
	var ns []string
	for n := range w.seen {
		used := false
		for i := 0; i < st.D; i++ {
			for v := 0; v < 3; v++ {
				used = used || w.CNFVarExists(n, i, v)
			}
		}
		if used {
			ns = append(ns, string(n))
		}
	}
	sort.Strings(ns)
	all := []any{}
	for _, n := range ns {
		all = append(all, models(fo, w.QContext, []string{"y"}, map[string]query.QVar{"y": query.QVar(n)}, st.D))
	}
	ev["inner"] = all
}

// histOp is one step of an earlier use of a context.
type histOp struct {
	Op  string   `json:"op"`
	N   string   `json:"n"`
	I   int      `json:"i"`
	Val int      `json:"val"`
	X   ast.Inst `json:"x"`
	Q   *ast.Q   `json:"q"`
}

func applyHist(ctx query.QContext, h []histOp, nm ast.Names) {
	for _, o := range h {
		switch o.Op {
		case "addscope":
			ctx.AddScope(o.N)
		case "setscope":
			_ = ctx.SetScope(o.I, ast.Feats(o.X))
		case "popscope":
			_ = ctx.PopScope()
		case "addvar":
			ctx.AddVar(query.QVar(o.N))
		case "cnfvar":
			_ = ctx.CNFVar(query.QVar(o.N), o.I, o.Val)
		case "updatetop":
			_ = ctx.UpdateTopV(o.I)
		case "enc":
			_, _ = ast.Build(o.Q, nm).Encoding(ctx)
		case "reset":
			ctx.Reset()
		}
	}
}
