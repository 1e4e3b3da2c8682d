package main

import (
	"strings"

	"verif/harness/ast"
)

func init() {
	generators["C08"] = func(g *Gen) {
		g.rules = []string{"scope"}
		g.contexts(g.pick(700, 8000), weights{scopes: 6, nums: 2, enc: 3})
	}
	generators["C09"] = func(g *Gen) {
		g.rules = []string{"num"}
		g.contexts(g.pick(700, 8000), weights{scopes: 2, nums: 7, enc: 3})
	}
	generators["C10c"] = genTwin
	generators["C23c"] = func(g *Gen) {
		g.rules = []string{"scope", "num"}
		g.contexts(g.pick(500, 5000), weights{scopes: 4, nums: 4, enc: 2, two: true})
	}
}

// clone copies a formula.
func clone(q *ast.Q) *ast.Q {
	if q == nil {
		return nil
	}
	r := *q
	r.T = append([]ast.Term{}, q.T...)
	r.A, r.B = clone(q.A), clone(q.B)
	return &r
}

// parts lists the subformulas.
func parts(q *ast.Q) []*ast.Q {
	if q == nil {
		return nil
	}
	return append(append([]*ast.Q{q}, parts(q.A)...), parts(q.B)...)
}

// spoil returns the formula with something wrong somewhere (usually).
func (g *Gen) spoil(q *ast.Q, d int) *ast.Q {
	r := clone(q)
	ps := parts(r)
	p := ps[g.Intn(len(ps))]
	switch g.Intn(4) {
	case 0:
		*p = ast.Q{Op: "nil"}
	case 1:
		p.No = []string{"reach", "count", "hd", "ef", "rank"}
	case 2:
		for i := range p.T {
			if p.T[i].K == "c" {
				p.T[i] = ast.C("nowhere", g.inst(d+1))
			}
		}
	case 3:
		*p = *ast.Atom("sub", ast.C("unbound", nil), ast.C("unbound", nil))
	}
	if r.Op == "nil" {
		return ast.Not(r)
	}
	return r
}

type weights struct {
	scopes, nums, enc int
	two               bool
}

type alphabet struct {
	vars, tgts []string
	idx        []int
	vals       []int // besides 0, 1 and 2
	top        int   // reservations go up to about here
}

func (a alphabet) val(g *Gen) int {
	if len(a.vals) > 0 && g.chance(0.6) {
		return a.vals[g.Intn(len(a.vals))]
	}
	return g.Intn(3)
}

// packed is an alphabet whose indices and values collide if they are put
// together with the wrong factor.
func (g *Gen) packed(a alphabet) alphabet {
	p := []int{2, 3, 4, 8, 10, 16, 20, 32, 64, 100, 128, 256, 1000, 1024, 4096, 1 << 16, 1 << 20}[g.Intn(17)]
	a.idx = []int{0, 1, 2, p, 2 * p, p + 1}
	a.vals = []int{p - 1, p, p + 1, 2 * p, 2*p + 1, p + 2}
	return a
}

// alphabets whose names are easily mistaken for each other.
var alphabets = []alphabet{
	{[]string{"x", "y", "z"}, []string{"g", "h"}, []int{0, 1, 2}, nil, 0},
	{[]string{"v", "v1", "v11"}, []string{"1", "11"}, []int{1, 11, 111}, nil, 0},
	{[]string{"a", "ac", "aca"}, []string{"c", "ca"}, []int{0, 1, 10}, nil, 0},
	{[]string{"x", "x0", "0"}, []string{"x", "0"}, []int{0, 10, 100}, nil, 0},
}

// separators that names might be put together with.
var separators = []string{"", " ", "_", "-", ".", ",", ":", ";", "/", "|", "#", "@", "+", "=", "\t", "\x00", "\x1e", "::", "->"}

func (g *Gen) alphabet() alphabet {
	a := g.alphabet0()
	if g.chance(0.12) {
		f := g.lengthen()
		l := func(ns []string) (r []string) {
			for _, n := range ns {
				r = append(r, f(n))
			}
			return
		}
		a.vars, a.tgts = l(a.vars), l(a.tgts)
	}
	return a
}

// lengthen makes long names of short ones: they begin and end alike.
func (g *Gen) lengthen() func(string) string {
	ns := []int{0, 7, 15, 16, 31, 33, 50, 64, 65, 100, 128, 130, 255, 260, 400}
	a, b := strings.Repeat("n", ns[g.Intn(len(ns))]), strings.Repeat("m", ns[g.Intn(len(ns))])
	return func(n string) string { return a + n + b }
}

func (g *Gen) alphabet0() alphabet {
	k := g.Intn(len(alphabets) + 2)
	if k < len(alphabets) {
		return alphabets[k]
	}
	s := separators[g.Intn(len(separators))]
	u := s
	if g.chance(0.4) {
		u = separators[g.Intn(len(separators))]
	}
	full := []string{"x" + s + "c" + u + "0", "x" + s + "c" + u + "0", "c" + s + "0" + u + "x", "x" + s + "0" + u + "c"}[g.Intn(4)]
	z := []string{"x" + s + "c", "x" + s + "0", "x" + s + " "}[g.Intn(3)]
	return alphabet{[]string{"x", full, z}, []string{"c", []string{"0", "c" + u + "0"}[g.Intn(2)]}, []int{0, 1, 11}, nil, 0}
}

// rename makes the variables and targets of a formula those of an alphabet.
func rename(q *ast.Q, m map[string]string) {
	for _, p := range parts(q) {
		for i := range p.T {
			if n, ok := m[p.T[i].N]; ok {
				p.T[i].N = n
			}
		}
		if n, ok := m[p.V]; ok {
			p.V = n
		}
		if n, ok := m[p.C]; ok {
			p.C = n
		}
	}
}

// ctxOps makes random operations. Only what the specification determines is
// asked about afterwards; encodings declare variables of their own.
func (g *Gen) ctxOps(n, d int, w weights, a alphabet, enc bool) []ctxOp {
	var ops []ctxOp
	v := func() string { return a.vars[g.Intn(len(a.vars))] }
	t := func() string { return a.tgts[g.Intn(len(a.tgts))] }
	for ; n > 0; n-- {
		c := 1
		if w.two {
			c = 1 + g.Intn(2)
		}
		k := g.Intn(w.scopes + w.nums + w.enc)
		switch {
		case k < w.scopes:
			switch g.Intn(9) {
			case 0, 1:
				ops = append(ops, ctxOp{Op: "open", C: c, T: t(), I: a.idx[g.Intn(len(a.idx))], X: g.inst(d)})
			case 2, 3:
				ops = append(ops, ctxOp{Op: "setscope", C: c, I: a.idx[g.Intn(len(a.idx))], X: g.inst(d)})
			case 4:
				ops = append(ops, ctxOp{Op: "popscope", C: c})
			case 5:
				ops = append(ops, ctxOp{Op: "addvar", C: c, V: v()})
			case 6:
				ops = append(ops, ctxOp{Op: "scopevar", C: c, V: v()})
			case 7:
				ops = append(ops, ctxOp{Op: "scopeconst", C: c, T: t(), X: g.inst(d)})
			case 8:
				if g.chance(0.3) {
					ops = append(ops, ctxOp{Op: "reset", C: c})
				}
			}
		case k < w.scopes+w.nums:
			switch g.Intn(5) {
			case 0, 1:
				ops = append(ops, ctxOp{Op: "cnfvar", C: c, V: v(), Scoped: g.chance(0.7), I: a.idx[g.Intn(len(a.idx))], Val: a.val(g)})
			case 2:
				ops = append(ops, ctxOp{Op: "exists", C: c, V: v(), Scoped: g.chance(0.7), I: a.idx[g.Intn(len(a.idx))], Val: a.val(g)})
			case 3:
				ops = append(ops, ctxOp{Op: "topv", C: c})
			case 4:
				ops = append(ops, ctxOp{Op: "updatetop", C: c, I: g.Intn(60) + a.top*g.Intn(2)})
			}
		case enc:
			q := clone(g.anyQuery(d))
			if g.chance(0.5) {
				q = g.spoil(q, d)
			}
			if g.chance(0.5) {
				rename(q, map[string]string{"x": a.vars[0], "y": a.vars[1], "g": a.tgts[0], "h": a.tgts[1]})
			}
			ops = append(ops, ctxOp{Op: "enc", C: c, Q: q})
		}
	}
	return ops
}

func (g *Gen) ctx(d int, tree []ast.Node, a alphabet, ops []ctxOp, from int, tag string) {
	l := []Obj{}
	for _, o := range ops {
		m := Obj{"op": o.Op, "c": max(o.C, 1)}
		if o.T != "" {
			m["t"] = o.T
		}
		if o.V != "" {
			m["v"], m["scoped"], m["val"] = o.V, o.Scoped, o.Val
		}
		m["i"] = o.I
		if o.X != nil {
			m["x"] = o.X
		}
		if o.Q != nil {
			m["q"] = o.Q
		}
		if o.N > 0 {
			m["n"], m["w"] = o.N, o.W
		}
		l = append(l, m)
	}
	g.emit(Obj{"kind": "ctx", "d": d, "tree": tree, "style": g.Intn(3), "ops": l, "from": from,
		"rules": g.rules, "vars": a.vars, "tgts": a.tgts, "tag": tag})
}

// far is an alphabet with indices that look alike when cut off.
func (g *Gen) far(a alphabet) alphabet {
	p := []int{10, 64, 128, 256, 1000, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 33}[g.Intn(12)]
	a.idx = []int{0, 1, p, p + 1, 2 * p, 2*p + 1}
	if g.chance(0.3) {
		a.vals = []int{p, p + 1, 2 * p, 2*p + 1}
	}
	return a
}

// bulk is the variables of many indices and values at once.
func (g *Gen) bulk(c int, a alphabet, most int) ctxOp {
	n := []int{33, 70, 130, 260, 520, 1030, 2050, 4100}[g.Intn(8)]
	return ctxOp{Op: "bulk", C: c, V: a.vars[g.Intn(len(a.vars))], Scoped: g.chance(0.8), N: min(n, most) + g.Intn(9),
		W: []int{1, 1, 3, 7, 1000}[g.Intn(5)], I: a.idx[g.Intn(len(a.idx))]}
}

// crowd is about many variables and many targets at a time.
func (g *Gen) crowd(w weights) {
	var vars, tgts []string
	pre := []string{"v", "x", "", "c", "name with spaces "}[g.Intn(5)]
	for i := 0; i < 10+g.Intn(60); i++ {
		vars = append(vars, pre+itoa(i))
	}
	depth := 1 + g.Intn(3)
	if g.chance(0.4) {
		depth = 6 + g.Intn(30)
		vars = vars[:10]
	}
	for i := 0; i < depth; i++ {
		tgts = append(tgts, []string{"g", "t", "v"}[g.Intn(3)]+itoa(i))
	}
	a := alphabet{vars: vars, tgts: tgts}
	c := 1
	if w.two {
		c += g.Intn(2)
	}
	var ops []ctxOp
	later := g.Perm(len(vars))
	put := func(n int) { // some are declared at every level
		for ; n > 0 && len(later) > 0; n-- {
			ops = append(ops, ctxOp{Op: "addvar", C: c, V: vars[later[0]]})
			later = later[1:]
		}
	}
	put(g.Intn(len(vars)/2 + 1))
	for i := range tgts {
		ops = append(ops, ctxOp{Op: "open", C: c, T: tgts[i], I: g.Intn(300), X: g.inst(2)})
		put(len(vars)/len(tgts)/2 + g.Intn(len(vars)/len(tgts)+1))
	}
	put(len(vars))
	look := func() {
		for _, i := range g.Perm(len(vars)) {
			if g.chance(0.7) {
				ops = append(ops, ctxOp{Op: "scopevar", C: c, V: vars[i]})
			}
			if w.nums > 3 && g.chance(0.3) {
				ops = append(ops, ctxOp{Op: "cnfvar", C: c, V: vars[i], Scoped: true, I: g.Intn(3), Val: g.Intn(3)})
			}
		}
		for _, t := range tgts {
			if g.chance(0.4) {
				ops = append(ops, ctxOp{Op: "scopeconst", C: c, T: t, X: g.inst(2)})
			}
		}
	}
	look()
	for k := 1 + g.Intn(2); k > 0; k-- {
		ops = append(ops, ctxOp{Op: "setscope", C: c, I: 300 + k, X: g.inst(2)})
		look()
	}
	for k := g.Intn(depth + 1); k > 0; k-- {
		ops = append(ops, ctxOp{Op: "popscope", C: c})
	}
	look()
	g.ctx(2, g.tree(2, 5), a, ops, 0, "many names")
}

func (g *Gen) contexts(n int, w weights) {
	for k := n / 30; k > 0; k-- {
		g.crowd(w)
	}
	for k := n / 24; k > 0; k-- {
		a := g.alphabet()
		w2 := w
		w2.enc, w2.scopes = 0, min(w.scopes, 3)
		ops := g.ctxOps(g.Intn(9), 1, w2, a, false)
		for j := 1 + g.Intn(3); j > 0; j-- {
			c := 1
			if w.two {
				c += g.Intn(2)
			}
			b := g.bulk(c, a, 4100/j)
			ops = append(ops, b)
			for i := 0; i < 4; i++ { // some of them again
				x := g.Intn(b.N)
				ops = append(ops, ctxOp{Op: []string{"cnfvar", "exists"}[g.Intn(2)], C: c, V: b.V, Scoped: b.Scoped, I: b.I + x/b.W, Val: x % b.W})
			}
			if g.chance(0.4) {
				ops = append(ops, b)
			}
			ops = append(ops, g.ctxOps(g.Intn(9), 1, w2, a, false)...)
		}
		g.ctx(1, g.tree(1, 3), a, ops, 0, "many numbers")
	}
	for ; n > 0; n-- {
		d := 1 + g.Intn(2)
		a := g.alphabet()
		if g.chance(0.15) {
			a = g.far(a)
		}
		if g.chance(0.15) {
			a.top = []int{100, 250, 32760, 65520, 1<<24 - 20, 1<<31 - 20, 1<<32 - 20}[g.Intn(7)]
		}
		tree := g.tree(d, 5)
		if n%8 == 0 { // numbers only
			a = g.packed(a)
			g.ctx(d, tree, a, g.ctxOps(12+g.Intn(40), d, weights{scopes: 1, nums: 9, two: w.two}, a, false), 0, "packed")
			continue
		}
		if g.chance(0.7) {
			w2 := w
			w2.enc = 0
			g.ctx(d, tree, a, g.ctxOps(8+g.Intn(30), d, w2, a, false), 0, "operations")
		} else {
			g.ctx(d, tree, a, g.ctxOps(4+g.Intn(10), d, w, a, true), 0, "operations and encodings")
		}
	}
}

// genTwin: a history, a reset, and then the same operations on the reset
// context and on a new one.
func genTwin(g *Gen) {
	g.rules = []string{"same"}
	for n := g.pick(500, 5000); n > 0; n-- {
		d := 1 + g.Intn(2)
		a := g.alphabet()
		tree := g.tree(d, 5)
		ops := g.ctxOps(3+g.Intn(10), d, weights{scopes: 5, nums: 2, enc: 1}, a, true)
		if n%25 == 0 {
			ops = append(ops, g.bulk(1, a, 4100))
		}
		ops = append(ops, ctxOp{Op: "reset", C: 1})
		from := len(ops)
		ops = append(ops, g.ctxOps(6+g.Intn(16), d, weights{scopes: 4, nums: 4}, a, false)...)
		if g.chance(0.4) {
			ops = append(ops, ctxOp{Op: "enc", C: 1, Q: g.anyQuery(d)})
		}
		g.ctx(d, tree, a, ops, from, "reset and new")
	}
}
