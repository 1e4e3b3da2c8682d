package main

import "verif/harness/ast"

func init() { generators["C17"] = genC17 }

func (g *Gen) comb(depth int, leaf func() *comb) *comb {
	if depth == 0 || g.chance(0.2) {
		return leaf()
	}
	c := &comb{Op: []string{"and", "or"}[g.Intn(2)]}
	for k := g.Intn(5); k > 0; k-- {
		c.Kids = append(c.Kids, g.comb(depth-1, leaf))
	}
	return c
}

// manyKids is a combination of many elements of which one, or a few, decide.
func (g *Gen) manyKids() *comb {
	n := []int{5, 9, 10, 16, 17, 33, 64, 65, 100, 129, 257, 300}[g.Intn(12)]
	c := &comb{Op: []string{"and", "or"}[g.Intn(2)]}
	at := g.Intn(n + 1) // n: none decides
	id := 0
	for k := 0; k < n; k++ {
		id++
		l := &comb{Op: "leaf", ID: id, Neg: g.chance(0.5)}
		l.Out = []string{"sat", "unsat"}[b2i((c.Op == "or") != l.Neg != (k == at))]
		if k == at && g.chance(0.15) {
			l.Out = "err"
		}
		if g.chance(0.1) { // as a combination of its own
			c.Kids = append(c.Kids, &comb{Op: []string{"and", "or"}[g.Intn(2)], Kids: []*comb{l}})
		} else {
			c.Kids = append(c.Kids, l)
		}
	}
	if g.chance(0.3) {
		id++
		w := &comb{Op: []string{"and", "or"}[g.Intn(2)], Kids: []*comb{c}}
		w.Kids = append(w.Kids, &comb{Op: "leaf", ID: id, Out: "sat"})
		return w
	}
	return c
}

// deepComb is a combination nested deeply.
func (g *Gen) deepComb() *comb {
	n := []int{9, 17, 33, 65, 110}[g.Intn(5)]
	id := 1
	c := &comb{Op: "leaf", ID: 1, Neg: g.chance(0.5), Out: []string{"sat", "unsat"}[g.Intn(2)]}
	for ; n > 0; n-- {
		w := &comb{Op: []string{"and", "or"}[g.Intn(2)]}
		id++
		l := &comb{Op: "leaf", ID: id, Out: []string{"sat", "unsat"}[b2i(w.Op == "or")]} // does not decide
		switch g.Intn(3) {
		case 0:
			w.Kids = []*comb{l, c}
		case 1:
			w.Kids = []*comb{c, l}
		default:
			w.Kids = []*comb{c}
		}
		c = w
	}
	return c
}

func genC17(g *Gen) {
	for n := g.pick(80, 800); n > 0; n-- {
		g.emit(Obj{"kind": "comb", "c": g.manyKids(), "tag": "many elements"})
	}
	for n := g.pick(30, 300); n > 0; n-- {
		g.emit(Obj{"kind": "comb", "c": g.deepComb(), "tag": "deeply nested"})
	}
	for n := g.pick(1500, 15000); n > 0; n-- {
		id := 0
		perr := []float64{0, 0.05, 0.3}[g.Intn(3)]
		c := g.comb(1+g.Intn(5), func() *comb {
			id++
			l := &comb{Op: "leaf", ID: id, Neg: g.chance(0.5), Out: []string{"sat", "unsat"}[g.Intn(2)]}
			if g.chance(perr) {
				l.Out = "err"
			}
			if g.chance(0.2) {
				l.How = []string{"wrapped", "custom", "customtrue"}[g.Intn(3)]
				if l.How != "wrapped" {
					l.Neg = false
				}
			}
			return l
		})
		if c.Op == "leaf" {
			c.How = ""
		}
		g.emit(Obj{"kind": "comb", "c": c, "tag": "scripted outcomes"})
	}
	for n := g.pick(250, 3000); n > 0; n-- {
		d := 1 + g.Intn(2)
		id := 0
		c := g.comb(1+g.Intn(2), func() *comb {
			id++
			q := g.anyQuery(d)
			for q.Size() > 10 {
				q = g.anyQuery(d)
			}
			q = clone(q)
			if g.chance(0.4) { // rather unsatisfiable
				q.A = ast.And(q.A, ast.And(g.randAtom(d, []string{"x"}, []ast.Term{ast.C("k1", g.inst(d))}, true, false), ast.Not(g.randAtom(d, []string{"x"}, []ast.Term{ast.C("k2", g.inst(d))}, true, false))))
			}
			rename(q, map[string]string{"x": "x" + itoa(id), "y": "y" + itoa(id)})
			return &comb{Op: "leaf", ID: id, Neg: g.chance(0.4), Q: q}
		})
		g.emit(Obj{"kind": "combq", "d": d, "tree": g.tree(d, 7), "c": c, "tag": "real queries"})
	}
}
