package main

import (
	"verif/harness/ast"
	"verif/harness/layout"
)

func init() {
	generators["C18"] = func(g *Gen) { g.rules = []string{"opt"}; g.opts(g.pick(700, 8000), g.pick(250, 3000), 0.15) }
	generators["C19"] = func(g *Gen) { g.rules = []string{"steps"}; g.opts(g.pick(700, 8000), g.pick(250, 3000), 0.25) }
	generators["C20"] = func(g *Gen) { g.rules = []string{"fail"}; g.opts(g.pick(900, 9000), g.pick(300, 3000), 0.85) }
	generators["C16o"] = func(g *Gen) { g.rules = []string{"files"}; g.opts(0, g.pick(250, 2500), 0.4) }
}

// order is a random strict partial order on the instances.
func (g *Gen) order(xs []ast.Inst) [][]ast.Inst {
	n := len(xs)
	p := g.Perm(n)
	r := make([][]bool, n)
	den := []float64{0.05, 0.2, 0.5, 1}[g.Intn(4)]
	layers := g.chance(0.3)
	for i := range r {
		r[i] = make([]bool, n)
	}
	w := make([]int, n)
	for i := range w {
		w[i] = g.Intn(3)
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			if layers {
				r[i][j] = w[i] < w[j]
				r[j][i] = w[j] < w[i]
			} else {
				r[p[i]][p[j]] = g.chance(den)
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				r[i][j] = r[i][j] || r[i][k] && r[k][j]
			}
		}
	}
	out := [][]ast.Inst{}
	for i := range r {
		for j := range r {
			if r[i][j] {
				out = append(out, []ast.Inst{xs[i], xs[j]})
			}
		}
	}
	return out
}

func strict(op string, a, b ast.Term, pref []int) *ast.Q {
	p := &ast.Q{Op: op, T: []ast.Term{a, b}, Pref: pref}
	q := &ast.Q{Op: op, T: []ast.Term{b, a}, Pref: pref}
	return ast.And(p, ast.Not(q))
}

// strictOrder is a strict order between the variable and the constant u; full
// tells whether it is one between full instances only.
func (g *Gen) strictOrder(d int, v string) (o *ast.Q, full bool) {
	x, u := ast.V(v), ast.C("u", nil)
	if g.chance(0.4) {
		x, u = u, x
	}
	switch g.Intn(7) {
	case 0, 1:
		return strict("sub", x, u, nil), false
	case 2:
		return strict("lel", x, u, nil), false
	case 3:
		return strict("hepr", x, u, g.pref(d)), false
	case 4: // first the level, then the preference
		p := g.pref(d)
		eq := ast.And(ast.Atom("lel", x, u), ast.Atom("lel", u, x))
		return ast.Or(strict("lel", x, u, nil), ast.And(eq, strict("hepr", x, u, p))), false
	case 5: // both
		return ast.And(strict("sub", x, u, nil), strict("hepr", x, u, g.pref(d))), false
	}
	c := ast.C("c", g.fullInst(d))
	return ast.And(ast.Atom("leh", c, x, u), ast.Not(ast.Atom("leh", c, u, x))), true
}

// under puts an order below a quantifier that says nothing: there are nodes.
func (g *Gen) under(o *ast.Q, v string) *ast.Q {
	n := []string{v, v, "best", "g", "m", "k", "opt"}[g.Intn(7)]
	switch g.Intn(3) {
	case 0:
		return ast.Fag(n, o)
	case 1:
		return ast.And(ast.Fag(n, ast.Or(ast.Atom("full", ast.C(n, nil)), o)), ast.Fag(n, ast.Or(o, ast.Not(ast.Atom("full", ast.C(n, nil))))))
	}
	return ast.Fag(n, ast.And(ast.Atom("cons", ast.C(n, nil), ast.C(n, nil)), o))
}

func (g *Gen) dirty(d int, v string) []histOp {
	var h []histOp
	names := []string{v, "y", "r" + v, "cbot" + v}
	for k := 1 + g.Intn(6); k > 0; k-- {
		switch g.Intn(7) {
		case 0:
			h = append(h, histOp{Op: "addscope", N: []string{"g", "h"}[g.Intn(2)]}, histOp{Op: "setscope", I: g.Intn(3), X: g.inst(d)})
		case 1:
			h = append(h, histOp{Op: "addvar", N: names[g.Intn(4)]})
		case 2, 3:
			h = append(h, histOp{Op: "cnfvar", N: names[g.Intn(4)], I: g.Intn(d), Val: g.Intn(3)})
		case 4:
			h = append(h, histOp{Op: "updatetop", I: g.Intn(50)})
		case 5:
			q := clone(g.anyQuery(d))
			rename(q, map[string]string{"x": v})
			h = append(h, histOp{Op: "enc", Q: q})
		case 6:
			q := clone(g.spoil(g.anyQuery(d), d))
			rename(q, map[string]string{"x": v})
			h = append(h, histOp{Op: "enc", Q: q})
		}
	}
	return h
}

// longOpt is an optimisation whose solver finds one improvement after the
// other: the parts of an instance, by which features are left out.
func (g *Gen) longOpt(d int, fail bool, kind string) {
	v := []string{"x", "v", "t"}[g.Intn(3)]
	top := g.fullInst(d)
	p := g.Perm(d)
	up := g.chance(0.5)
	x, u := ast.V(v), ast.C("u", nil)
	if !up {
		x, u = u, x
	}
	var chain []ast.Inst
	skip := 0
	if g.chance(0.3) {
		skip = g.Intn(5)
	}
	for k := skip; k < 1<<d; k++ {
		r := k // position in the order
		if !up {
			r = 1<<d - 1 - k
		}
		y := append(ast.Inst{}, top...)
		for j, i := range p { // the first preferred feature weighs most
			if r>>(d-1-j)&1 == 0 {
				y[i] = 0
			}
		}
		chain = append(chain, y)
	}
	f := optFail{K: "none"}
	if fail {
		f = optFail{K: []string{"step", "read", "fenc", "oenc"}[g.Intn(4)], At: 2 + g.Intn(len(chain)-1)}
		if kind != "" {
			f.K = kind
		}
	}
	g.emit(Obj{"kind": "opt", "d": d, "tree": g.tree(d, 5), "style": g.Intn(3), "rules": g.rules, "v": v,
		"mode": "query", "F": []ast.Inst{}, "R": [][]ast.Inst{}, "unsat": []string{"plain", "wrapped"}[g.Intn(2)],
		"picks": []int{0}, "bin": false, "layout": layout.L{Seed: g.Int63()}, "pre": 0, "chain": chain,
		"q": ast.Atom("sub", ast.V(v), ast.C("k", top)), "o": strict("hepr", x, u, p), "fail": f, "tag": "long search"})
}

// opts makes nt optimisations given by tables and nq given by formulas.
func (g *Gen) opts(nt, nq int, pfail float64) {
	vn := []string{"x", "v", "t", "x1"}
	if nt > 0 {
		ds := []int{4, 5, 6, 7, 8}
		if g.thorough() {
			ds = []int{4, 5, 6, 7, 7, 8, 8}
		}
		for _, d := range ds {
			g.longOpt(d, pfail > 0.5 && g.chance(0.7), "")
		}
		if pfail > 0.5 {
			for i := g.pick(3, 20); i > 0; i-- {
				for _, k := range []string{"step", "read", "fenc", "oenc"} {
					g.longOpt(4+g.Intn(2), true, k)
				}
			}
		}
	}
	for n := 0; n < nt+nq; n++ {
		d := 1 + g.Intn(2)
		table := n < nt
		if !table && g.chance(0.2) || table && g.chance(0.08) {
			d = 3
		}
		v := vn[g.Intn(len(vn))]
		tree := g.tree(d, 7)
		o := Obj{"kind": "opt", "d": d, "tree": tree, "style": g.Intn(3), "rules": g.rules, "v": v,
			"mode": "query", "F": []ast.Inst{}, "R": [][]ast.Inst{}, "unsat": []string{"plain", "plain", "wrapped"}[g.Intn(3)],
			"picks": []int{g.Intn(30), g.Intn(30), g.Intn(30), g.Intn(30), g.Intn(30)},
			"bin":   !table && g.chance(0.5) || table && g.chance(0.04), "layout": layout.L{Seed: g.Int63()}, "pre": g.Intn(4)}
		if g.chance(0.25) {
			o["layout"] = g.layout()
		}
		if nt == 0 {
			o["bin"] = g.chance(0.9)
		}
		if g.chance(0.3) { // the same end of the list again and again
			p := []int{0, 1 << 20}[g.Intn(2)]
			o["picks"] = []int{p, p, p}
		}
		if table {
			o["mode"] = "table"
			o["triv"] = g.chance(0.3)
			var all, f []ast.Inst
			pf := []float64{0, 0.2, 0.6, 0.95, 1}[g.Intn(5)]
			for k := 0; k < pow3(d); k++ {
				all = append(all, instAt(k, d))
				if g.chance(pf) {
					f = append(f, instAt(k, d))
				}
			}
			if f == nil {
				f = []ast.Inst{}
			}
			o["F"] = f
			on := f
			if g.chance(0.3) {
				on = all
			}
			o["R"] = g.order(on)
		} else {
			fresh := []string{"y"}
			ks := []ast.Term{ast.C("k0", g.inst(d))}
			var q *ast.Q
			for q == nil || q.Size() > 14 {
				fresh = []string{"y"}
				q = g.randScoped(d, 1+g.Intn(2), []string{v}, ks, &fresh, []string{"g", "h"}, true)
				if g.chance(0.3) {
					q = ast.And(ast.Atom("sub", ast.V(v), ast.C("k1", g.fullInst(d))), q)
				}
			}
			ord, full := g.strictOrder(d, v)
			if full {
				q = ast.And(ast.Atom("full", ast.V(v)), q)
			}
			if g.chance(0.25) {
				q = ast.With(v, q)
			}
			if g.chance(0.2) {
				ord = g.under(ord, v)
			}
			o["q"], o["o"] = q, ord
		}
		if g.chance(0.35) {
			o["hist"] = g.dirty(d, v)
		}
		fail := optFail{K: "none"}
		if g.chance(pfail) {
			ks := []string{"step", "read", "readunsat", "fenc", "oenc", "nilf", "nilo", "tmp", "nilctx", "step", "read", "fenc"}
			if o["bin"] == true {
				ks = []string{"step", "step", "tmpat", "tmp", "fenc", "oenc", "read"}
			}
			fail.K = ks[g.Intn(len(ks))]
			fail.At = 1 + []int{0, 0, 1, 1, 2, 3}[g.Intn(6)]
			if (fail.K == "oenc" || fail.K == "nilo") && fail.At == 1 {
				fail.At = 2
			}
		}
		o["fail"] = fail
		tag := o["mode"].(string)
		if o["bin"] == true {
			tag += " through a solver process"
		}
		o["tag"] = tag
		g.emit(o)
	}
}
