package main

import "verif/harness/ast"

func init() { generators["C13"] = genC13 }

// genC13: formulas obtained by encoding queries, written out.
func genC13(g *Gen) {
	files := []string{"new", "longer", "new", "longer", "full", "nodir"}
	// Clauses over variables of every size.
	for i := 0; i < g.pick(120, 1200); i++ {
		var cls [][]int
		m := 1 + g.Intn(6)
		for k := g.Intn(12); k >= 0; k-- {
			cl := []int{}
			for j := g.Intn(5); j > 0; j-- {
				b := []int{0, 9, 10, 99, 127, 128, 255, 256, 999, 9999, 32767, 65535, 99999, 999999, 1 << 20, 9999999, 1 << 24, 99999999, 1 << 29}
				if m < 4 {
					b = []int{0, 1 << 31, 1<<32 - 3, 1 << 32, 1<<31 - 3}
				}
				x := 1 + b[g.Intn(len(b))] + g.Intn(3)
				if g.chance(0.5) {
					x = -x
				}
				cl = append(cl, x)
			}
			cls = append(cls, cl)
		}
		ops := []Obj{{"op": "raw", "cl": cls}, {"op": "write", "h": 3, "file": "new"},
			{"op": "neg", "h": 3, "bound": "top", "off": g.Intn(5)}, {"op": "write", "h": 4, "file": "longer"}}
		g.emit(Obj{"kind": "cnf", "n": 1, "d": 1, "tree": leafTree(), "ops": ops, "rules": []string{"dimacs"},
			"tag": "far numbers"})
	}
	// Numbers of clauses around those where something might be flushed.
	sizes := []int{100, 128, 250, 256, 500, 512, 1000, 1024, 1000, 2048, 4096, 4000, 8192, 5000, 10000}
	for i := 0; i < g.pick(30, 200); i++ {
		b := sizes[i%len(sizes)]
		s, c := b+g.Intn(3)-1, g.Intn(4)
		if g.chance(0.6) {
			c = b + []int{0, 0, -1, 1}[g.Intn(4)]
			s = g.Intn(4)
		}
		switch g.Intn(5) {
		case 0:
			s = b / 2
			c = b - s
		case 1: // a multiple of it
			if k := 1 + g.Intn(4); k*b <= 9000 {
				s, c = s*k, c*k
			}
		}
		g.emit(Obj{"kind": "cnf", "n": 1, "d": 1, "tree": leafTree(), "rules": []string{"dimacs"}, "tag": "many clauses",
			"ops": []Obj{{"op": "many", "off": s, "spare": c}, {"op": "write", "h": 3, "file": []string{"new", "longer"}[g.Intn(2)]}}})
	}
	for i := 0; i < g.pick(250, 2500); i++ {
		d := 1 + g.Intn(2)
		tree := g.tree(d, 7)
		var q *ast.Q
		for q == nil || q.Size() > 7 {
			q = g.anyQuery(d)
		}
		ops := []Obj{{"op": "enc", "q": q}}
		for k := 1 + g.Intn(2); k > 0; k-- {
			ops = append(ops, Obj{"op": "write", "h": 3, "file": files[g.Intn(len(files))]})
		}
		if g.chance(0.4) {
			ops = append(ops, Obj{"op": "neg", "h": 3, "bound": "top", "off": g.Intn(5)},
				Obj{"op": "conj", "h": 3, "g": 4}, Obj{"op": "write", "h": 5, "file": "longer"})
		}
		g.emit(Obj{"kind": "cnf", "n": 1, "d": d, "tree": tree, "ops": ops, "rules": []string{"dimacs"},
			"tag": "encoded queries"})
	}
}
