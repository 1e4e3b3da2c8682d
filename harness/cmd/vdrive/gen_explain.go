package main

import (
	"verif/harness/ast"
	"verif/harness/layout"
)

func init() { generators["C22"] = genC22 }

var explainKinds = []string{"sr", "sr", "sr", "dfs", "dfsin", "class", "viaNodes", "cf", "cf", "same", "cfkeep", "node", "undecided"}
var partialOrders = []string{"smaller", "larger", "fewer", "more", "prefers", "avoids", "fewerThenPrefers"}
var statements = []string{"minimalSR", "minimumSR", "minimumDFS", "smallSR", "needed", "biased", "readme", "nodesMixed", "constant"}

func (g *Gen) job(d int, tree []ast.Node) job {
	j := job{C: g.fullInst(d), C2: g.inst(d), K: g.chance(0.5), Pref: ints(g.pref(d)), FS: []int{},
		N: g.Intn(d + 1), V: []string{"x", "v", "t"}[g.Intn(3)], Style: g.Intn(30),
		Lay: layout.L{Seed: g.Int63n(1 << 40)}, Fresh: g.chance(0.3)}
	for i := 0; i < 4; i++ {
		j.Seeds = append(j.Seeds, g.Int63n(1<<40))
	}
	if g.chance(0.4) {
		s := j.Lay.Seed
		j.Lay = g.layout()
		j.Lay.Seed = s
	}
	for _, f := range g.Perm(d)[:1+g.Intn(min(d, 3))] {
		j.FS = append(j.FS, f)
	}
	if g.chance(0.6) {
		j.Mode = "optim"
		j.Kind = explainKinds[g.Intn(len(explainKinds))]
		switch j.Kind {
		case "cf", "same", "cfkeep":
			j.Order = []string{"nearer", "nearer", "farther"}[g.Intn(3)]
		default:
			j.Order = partialOrders[g.Intn(len(partialOrders))]
		}
		switch j.Kind {
		case "sr", "dfsin", "node", "undecided":
			if g.chance(0.15) {
				j.C = g.inst(d)
			}
		}
		return j
	}
	j.Mode = "eval"
	j.Kind = statements[g.Intn(len(statements))]
	switch j.Kind {
	case "minimalSR", "minimumSR":
		// a promising candidate: features of c that are enough, mostly
		x := append(ast.Inst{}, j.C...)
		for _, i := range g.Perm(d) {
			old := x[i]
			x[i] = 0
			if !sameClass(tree, x) && g.chance(0.9) {
				x[i] = old
			}
		}
		j.C2 = x
	case "minimumDFS":
		j.C = g.inst(d)
		if g.chance(0.6) { // keep the features the tree uses, mostly
			used := map[int]bool{}
			for _, n := range tree {
				if n.Z >= 0 && n.O >= 0 {
					used[n.F] = true
				}
			}
			for i := range j.C {
				j.C[i] = 0
				if used[i] && g.chance(0.9) {
					j.C[i] = 1 + g.Intn(2)
				}
			}
		}
	}
	return j
}

// sameClass tells whether the leaves reached by completions agree.
func sameClass(t []ast.Node, x ast.Inst) bool {
	pos, neg := false, false
	var rec func(u int)
	rec = func(u int) {
		n := t[u]
		if n.Z < 0 || n.O < 0 {
			pos, neg = pos || n.V, neg || !n.V
			return
		}
		if x[n.F] != 2 {
			rec(n.Z)
		}
		if x[n.F] != 1 {
			rec(n.O)
		}
	}
	rec(0)
	return !(pos && neg)
}

func genC22(g *Gen) {
	send := func(d int, tree []ast.Node, n int, tag string) {
		var js []job
		for ; n > 0; n-- {
			js = append(js, g.job(d, tree))
		}
		g.emit(Obj{"kind": "explain", "d": d, "tree": tree, "style": g.Intn(3), "jobs": js, "tag": tag})
	}
	for _, s := range allShapes(seq(2)) {
		send(2, g.nodes(s), 3, "every tree of dimension 2")
	}
	for n := g.pick(2200, 20000); n > 0; n-- {
		d := 1 + g.Intn(3)
		send(d, g.tree(d, 15), 1+g.Intn(3), "random tree")
	}
	for n := g.pick(500, 6000); n > 0; n-- {
		d := 4 + g.Intn(g.pick(1, 2))
		send(d, g.tree(d, g.pick(21, 31)), 1+g.Intn(2), "larger random tree")
	}
}
