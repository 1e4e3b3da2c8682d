package main

import (
	"verif/harness/ast"
)

func init() {
	generators["C01"] = genC01
	generators["C02"] = genC02
	generators["C03"] = genC03
	generators["C04"] = genC04
	generators["C05"] = genC05
	generators["C06"] = genC06
	generators["C07"] = genC07
	generators["C10q"] = genC10
}

// exhaustAtom emits every form and polarity of an atom with all values of
// its arguments in dimension d.
func (g *Gen) exhaustAtom(k atomKind, d int, tree []ast.Node, set func(*ast.Q), binds ...string) {
	for _, f := range forms(k.arity) {
		for _, neg := range []bool{false, true} {
			q, vs, cs := atom(k, f)
			if set != nil {
				set(q)
			}
			bs := binds
			if len(cs) == 0 {
				bs = binds[:1]
			}
			for _, b := range bs {
				g.query(qopt{d: d, tree: tree, q: declare(polarity(q, neg), vs...), gv: vs, gc: cs, bind: b, grid: true, tag: "exhaustive"})
			}
		}
	}
}

// words lists the argument patterns of an arity in which some argument
// occurs twice: x, y, z are variables and k, l, m constants, numbered in the
// order of their first occurrence.
func words(n int) []string {
	var r []string
	var rec func(w string, v, c int)
	rec = func(w string, v, c int) {
		if len(w) == n {
			if v+c < n {
				r = append(r, w)
			}
			return
		}
		for i := 0; i <= v; i++ {
			rec(w+"xyz"[i:i+1], max(v, i+1), c)
		}
		for i := 0; i <= c; i++ {
			rec(w+"klm"[i:i+1], v, max(c, i+1))
		}
	}
	rec("", 0, 0)
	return r
}

// word makes the atom with the arguments of a pattern.
func word(k atomKind, w string) (q *ast.Q, vs, cs []string) {
	q = &ast.Q{Op: k.op}
	seen := map[string]bool{}
	for i := range w {
		n := w[i : i+1]
		if n >= "x" {
			q.T = append(q.T, ast.V(n))
			if !seen[n] {
				vs = append(vs, n)
			}
		} else {
			q.T = append(q.T, ast.C(n, nil))
			if !seen[n] {
				cs = append(cs, n)
			}
		}
		seen[n] = true
	}
	return q, vs, cs
}

// sameArg emits atoms some of whose arguments coincide.
func (g *Gen) sameArg(k atomKind, d int, tree []ast.Node, set func(*ast.Q)) {
	for _, w := range words(k.arity) {
		for _, neg := range []bool{false, true} {
			q, vs, cs := word(k, w)
			if set != nil {
				set(q)
			}
			g.query(qopt{d: d, tree: tree, q: declare(polarity(q, neg), vs...), gv: vs, gc: cs, grid: true, tag: "same argument"})
		}
	}
}

// randomAtoms emits an atom of each form and polarity in random dimensions.
func (g *Gen) randomAtoms(k atomKind, n, maxd, npins int, set func(*ast.Q, int), wantTree bool) {
	for ; n > 0; n-- {
		fs := forms(k.arity)
		f := fs[g.Intn(len(fs))]
		d := g.dim(maxd)
		var tree []ast.Node
		var hints []ast.Inst
		if wantTree {
			tree = g.tree(d, 60)
			if d > 8 && g.chance(0.3) {
				tree = g.spine(d)
			}
			hints = nodeInsts(d, tree)
		}
		q, vs, cs := atom(k, f)
		if ws := words(k.arity); len(ws) > 0 && g.chance(0.15) {
			q, vs, cs = word(k, ws[g.Intn(len(ws))])
		}
		set(q, d)
		bind := "scope"
		if g.chance(0.5) {
			bind = "direct"
		}
		g.query(qopt{d: d, tree: tree, q: declare(polarity(q, g.chance(0.5)), vs...), gv: vs, gc: cs, bind: bind,
			pins: g.pinsFor(d, npins, vs, cs, hints), tag: "random"})
	}
}

// wideDim is a dimension at which the features, or what is counted by them,
// stop fitting into a machine word or two.
func (g *Gen) wideDim() int {
	ds := []int{33, 41, 63, 64, 65, 66, 70, 100, 128, 129, 130}
	return ds[g.Intn(len(ds))]
}

// edges are the features of a wide dimension around such borders.
func edges(d int) []int {
	var r []int
	for _, i := range []int{0, 31, 32, 40, 62, 63, 64, 65, 127, 128, d - 1} {
		if i < d && (len(r) == 0 || r[len(r)-1] < i) {
			r = append(r, i)
		}
	}
	return r
}

// widePins makes pins whose values differ in a few features only, most of
// them at the edges. full says how often to start from a full instance.
func (g *Gen) widePins(d, n int, vars, consts []string, hints []ast.Inst, full float64) []pin {
	es := edges(d)
	ps := make([]pin, n)
	for i := range ps {
		p := pin{map[string]ast.Inst{}, map[string]ast.Inst{}}
		base := g.inst(d)
		if g.chance(full) {
			base = g.fullInst(d)
		} else if len(hints) > 0 && g.chance(0.6) {
			base = hints[g.Intn(len(hints))]
		}
		val := func() ast.Inst {
			x := append(ast.Inst{}, base...)
			for k := []int{0, 1, 1, 1, 2, 3}[g.Intn(6)]; k > 0; k-- {
				j := es[g.Intn(len(es))]
				if g.chance(0.2) {
					j = g.Intn(d)
				}
				if full == 1 && g.chance(0.95) {
					x[j] = 3 - max(1, x[j])
				} else {
					x[j] = g.Intn(3)
				}
			}
			return x
		}
		for _, c := range consts {
			p.CS[c] = val()
		}
		for _, v := range vars {
			p.VS[v] = val()
		}
		ps[i] = p
	}
	return ps
}

// wideTree decides features at the edges.
func (g *Gen) wideTree(d int) []ast.Node {
	es := edges(d)
	var fs []int
	for _, i := range g.Perm(len(es)) {
		fs = append(fs, es[i])
		if len(fs) == 5 {
			break
		}
	}
	return g.nodes(g.shape(fs, 0.1))
}

// wide emits an atom of each form and polarity in wide dimensions.
func (g *Gen) wide(k atomKind, n int, set func(*ast.Q, int)) {
	for _, f := range forms(k.arity) {
		for _, neg := range []bool{false, true} {
			for i := 0; i < n; i++ {
				d := g.wideDim()
				if i == 0 && d < 65 {
					d = []int{65, 66, 70, 100, 130}[g.Intn(5)]
				}
				if k.op == "leh" && d > 100 && f != "ccc" {
					d = 65 + g.Intn(6)
				}
				var tree []ast.Node
				var hints []ast.Inst
				if k.model {
					tree = g.wideTree(d)
					if g.chance(0.15) {
						tree = g.spine(d)
					}
					for _, x := range nodeInsts(d, tree) {
						hints = append(hints, x)
					}
				}
				q, vs, cs := atom(k, f)
				set(q, d)
				full := 0.3
				if k.op == "leh" {
					full = 1
				}
				pins := g.widePins(d, 10, vs, cs, hints, full)
				g.query(qopt{d: d, tree: tree, q: declare(polarity(q, neg), vs...), gv: vs, gc: cs,
					bind: []string{"scope", "direct"}[g.Intn(2)], pins: pins, tag: "wide"})
			}
		}
	}
}

// edgePref is a preference over features at the edges.
func (g *Gen) edgePref(d int) []int {
	if g.chance(0.3) {
		return g.pref(d)
	}
	es := edges(d)
	var p []int
	for _, i := range g.Perm(len(es))[:1+g.Intn(len(es))] {
		p = append(p, es[i])
	}
	return p
}

// guardedAtoms emits atoms whose constants are bound by guarded quantifiers.
func (g *Gen) guardedAtoms(ks []atomKind, n, maxd int, set func(*ast.Q, int)) {
	for ; n > 0; n-- {
		k := ks[g.Intn(len(ks))]
		fs := forms(k.arity)
		f := fs[g.Intn(len(fs)-1)] // at least one constant
		d := 1 + g.Intn(maxd)
		tree := g.tree(d, 25)
		q, vs, cs := atom(k, f)
		set(q, d)
		var hints []ast.Inst
		for _, x := range nodeInsts(d, tree) {
			hints = append(hints, x, g.related(x))
		}
		b := polarity(q, g.chance(0.5))
		// Some constants are bound, the others given.
		var free []string
		for i, c := range cs {
			if i == 0 || g.chance(0.5) {
				b = ast.Fag(c, b)
			} else {
				free = append(free, c)
			}
		}
		b = polarity(b, g.chance(0.4))
		g.query(qopt{d: d, tree: tree, q: declare(b, vs...), gv: vs, gc: free, bind: "direct",
			pins: g.pinsFor(d, 16, vs, free, hints), tag: "guarded"})
	}
}

func genC01(g *Gen) {
	none := func(*ast.Q, int) {}
	ks := atomKinds[:4]
	for _, k := range ks {
		for d := 1; d <= 3; d++ {
			g.exhaustAtom(k, d, nil, nil, "scope", "direct")
			g.sameArg(k, d, nil, nil)
		}
		if g.thorough() {
			g.exhaustAtom(k, 4, nil, nil, "scope", "direct")
		}
		g.randomAtoms(k, g.pick(120, 1200), 100, 14, none, false)
	}
	g.guardedAtoms(ks, g.pick(200, 2000), 7, none)
	for _, k := range ks {
		g.wide(k, g.pick(2, 12), none)
	}
}

func genC02(g *Gen) {
	ks := atomKinds[6:]
	emit := func(d int, tree []ast.Node, full bool) {
		for _, k := range ks {
			for _, f := range []string{"c", "v"} {
				for _, lv := range []bool{false, true} {
					if lv && k.op != "allcomp" {
						continue
					}
					for _, neg := range []bool{false, true} {
						if !full && g.chance(0.5) {
							continue
						}
						q, vs, cs := atom(k, f)
						q.LV = lv
						bind := "scope"
						if g.chance(0.5) {
							bind = "direct"
						}
						g.query(qopt{d: d, tree: tree, q: declare(polarity(q, neg), vs...), gv: vs, gc: cs, bind: bind, grid: true, tag: "exhaustive"})
					}
				}
			}
		}
	}
	for d := 1; d <= 2; d++ {
		for _, s := range allShapes(seq(d)) {
			emit(d, g.nodes(s), true)
		}
	}
	all := allShapes(seq(3))
	if g.thorough() {
		for _, s := range all {
			emit(3, g.nodes(s), false)
		}
	} else {
		for i := 0; i < 120; i++ {
			emit(3, g.nodes(all[g.Intn(len(all))]), false)
		}
	}
	for i := 0; i < g.pick(25, 250); i++ {
		emit(4, g.tree(4, 31), false)
	}
	set := func(q *ast.Q, d int) { q.LV = g.chance(0.5) }
	for _, k := range ks {
		g.randomAtoms(k, g.pick(120, 1200), 64, 16, set, true)
	}
	g.guardedAtoms(ks, g.pick(60, 600), 6, set)
	for _, k := range ks {
		g.wide(k, g.pick(5, 40), set)
	}
	// Trees with more nodes than fit into a machine word or two.
	for i := 0; i < g.pick(30, 300); i++ {
		d := 6 + g.Intn(4)
		tree := g.largeTree(d, 60+g.Intn(90))
		if i%5 == 0 { // or one byte
			d = 9 + g.Intn(2)
			tree = g.largeTree(d, 262+g.Intn(60))
		}
		q, vs, cs := atom(ks[g.Intn(len(ks))], []string{"c", "v", "v"}[g.Intn(3)])
		set(q, d)
		g.query(qopt{d: d, tree: tree, q: declare(polarity(q, g.chance(0.5)), vs...), gv: vs, gc: cs, bind: "direct",
			pins: g.pinsFor(d, 24, vs, cs, nodeInsts(d, tree)), tag: "many nodes"})
	}
}

func genC03(g *Gen) {
	hepr, leh := atomKinds[4], atomKinds[5]
	for d := 1; d <= 3; d++ {
		for _, p := range allPrefs(d) {
			set := func(q *ast.Q) { q.Pref = p }
			if d < 3 {
				g.exhaustAtom(hepr, d, nil, set, "scope", "direct")
				g.sameArg(hepr, d, nil, set)
			} else if g.thorough() {
				g.exhaustAtom(hepr, d, nil, set, "scope")
				g.sameArg(hepr, d, nil, set)
			} else {
				g.exhaustAtom(hepr, d, nil, set, []string{"scope", "direct"}[g.Intn(2)])
			}
		}
	}
	for d := 1; d <= 2; d++ {
		g.exhaustAtom(leh, d, nil, nil, "scope", "direct")
	}
	for d := 1; d <= 3; d++ {
		g.sameArg(leh, d, nil, nil)
	}
	if g.thorough() {
		g.exhaustAtom(leh, 3, nil, nil, "scope")
	}
	setp := func(q *ast.Q, d int) { q.Pref = g.pref(d) }
	g.randomAtoms(hepr, g.pick(300, 3000), 100, 14, setp, false)
	for i := 0; i < g.pick(500, 5000); i++ {
		fs := forms(3)
		f := fs[g.Intn(len(fs))]
		d := 3 + g.Intn(6)
		if i%16 == 0 {
			d = []int{10, 13, 16, 20}[g.Intn(4)]
		}
		q, vs, cs := atom(leh, f)
		if ws := words(3); g.chance(0.2) {
			q, vs, cs = word(leh, ws[g.Intn(len(ws))])
		}
		var ps []pin
		for k := 0; k < 14; k++ {
			p := pin{map[string]ast.Inst{}, map[string]ast.Inst{}}
			base := g.fullInst(d)
			val := func() ast.Inst {
				x := append(ast.Inst{}, base...)
				flips := g.Intn(d + 1)
				if g.chance(0.3) {
					flips = []int{0, d}[g.Intn(2)]
				}
				for _, j := range g.Perm(d)[:flips] {
					x[j] = 3 - x[j]
				}
				if g.chance(0.06) {
					x[g.Intn(d)] = 0
				}
				return x
			}
			for _, c := range cs {
				p.CS[c] = val()
			}
			for _, v := range vs {
				p.VS[v] = val()
			}
			ps = append(ps, p)
		}
		bind := []string{"scope", "direct"}[g.Intn(2)]
		g.query(qopt{d: d, q: declare(polarity(q, g.chance(0.5)), vs...), gv: vs, gc: cs, bind: bind, pins: ps, tag: "random"})
	}
	g.guardedAtoms([]atomKind{hepr, leh}, g.pick(120, 1200), 4, setp)
	g.wide(hepr, g.pick(8, 40), func(q *ast.Q, d int) { q.Pref = g.edgePref(d) })
	g.wide(leh, g.pick(1, 5), func(q *ast.Q, d int) {})
	// Comparisons against nodes that are full instances.
	for i := 0; i < g.pick(60, 600); i++ {
		d := 1 + g.Intn(3)
		tree := g.nodes(g.shape(seq(d), 0.1))
		f := []string{"cvv", "vcv", "vvc", "ccv", "cvc", "vcc"}[g.Intn(6)]
		q, vs, cs := atom(leh, f)
		b := polarity(q, g.chance(0.3))
		if len(cs) == 1 || g.chance(0.5) {
			// Only full nodes matter: full(k) implies the comparison.
			b = ast.Fag(cs[0], ast.Or(ast.Not(ast.Atom("full", ast.C(cs[0], nil))), b))
			cs = cs[1:]
		}
		var hints []ast.Inst
		for _, x := range nodeInsts(d, tree) {
			hints = append(hints, x)
		}
		g.query(qopt{d: d, tree: tree, q: declare(b, vs...), gv: vs, gc: cs, bind: "direct", pins: g.pinsFor(d, 16, vs, cs, hints), tag: "guarded"})
	}
}

func has(v string, i, val int, pos bool) *ast.Q {
	return &ast.Q{Op: "cls", T: []ast.Term{ast.V(v)}, Cl: [][]ast.Lit{{{T: 1, I: i, Val: val, Pos: pos}}}}
}

func genC04(g *Gen) {
	// Every formula of two levels over a few leaves.
	two := &ast.Q{Op: "cls", T: []ast.Term{ast.V("x")}, Cl: [][]ast.Lit{
		{{T: 1, I: 1, Val: 0, Pos: true}, {T: 1, I: 1, Val: 1, Pos: true}},
		{{T: 1, I: 1, Val: 1, Pos: true}, {T: 1, I: 1, Val: 2, Pos: true}}}}
	empty := &ast.Q{Op: "cls", T: []ast.Term{ast.V("x")}, Cl: [][]ast.Lit{{{T: 1, I: 1, Val: 2, Pos: true}}, {}}}
	leaves := []*ast.Q{has("x", 1, 0, true), two, ast.True(), ast.False(), empty}
	level := leaves
	for l := 0; l < 2; l++ {
		next := append([]*ast.Q{}, leaves...)
		for _, a := range level {
			next = append(next, ast.Not(a))
			for _, b := range level {
				if l == 1 && !g.thorough() && !g.chance(0.35) {
					continue
				}
				next = append(next, ast.And(a, b), ast.Or(a, b))
			}
		}
		level = next
	}
	for _, q := range level {
		g.query(qopt{d: 1, q: ast.With("x", q), gv: []string{"x"}, grid: true, tag: "all two-level formulas"})
	}
	// Towers of negations.
	for n := 1; n <= 12; n++ {
		for _, l := range leaves {
			q := l
			for i := 0; i < n; i++ {
				q = ast.Not(q)
			}
			g.query(qopt{d: 1, q: ast.With("x", q), gv: []string{"x"}, grid: true, tag: "towers"})
			g.query(qopt{d: 1, q: ast.With("x", ast.And(q, ast.With("y", ast.Or(q, has("y", 1, 1, true))))), gv: []string{"x", "y"}, grid: true, tag: "towers"})
		}
	}
	// Random formulas over clause components and real atoms; the declarations
	// of the variables may sit anywhere that is not below a negation.
	for i := 0; i < g.pick(700, 7000); i++ {
		d := 1 + g.Intn(3)
		if g.chance(0.25) {
			d = 4 + g.Intn(5)
		}
		tree := g.tree(d, 15)
		vars := []string{"x", "y"}
		ks := []ast.Term{ast.C("ka", g.inst(d)), ast.C("", g.inst(d))}
		var memo []*ast.Q
		leaf := func() *ast.Q {
			if len(memo) > 0 && g.chance(0.25) {
				return memo[g.Intn(len(memo))]
			}
			var q *ast.Q
			switch {
			case g.chance(0.1):
				q = ast.True()
			case g.chance(0.1):
				q = ast.False()
			case g.chance(0.45):
				q = g.randCls(d, vars)
			default:
				q = g.randAtom(d, vars, ks, true, d < 3)
			}
			memo = append(memo, q)
			return q
		}
		q := g.randBool(1+g.Intn(6), leaf)
		o := qopt{d: d, tree: tree, gv: vars, tag: "random"}
		if d == 1 || d == 2 && g.chance(0.3) {
			o.grid = true
		} else {
			var hints []ast.Inst
			for _, x := range nodeInsts(d, tree) {
				hints = append(hints, x, g.related(x))
			}
			o.pins = g.pinsFor(d, 20, vars, nil, hints)
		}
		switch g.Intn(3) {
		case 0:
			q = declare(q, "x", "y")
		case 1: // y declared below a connective
			q = ast.With("x", ast.And(g.randBool(2, func() *ast.Q { return g.randCls(d, []string{"x"}) }), ast.With("y", q)))
		default:
			q = ast.With("x", ast.Or(ast.With("y", q), g.randBool(2, func() *ast.Q { return g.randCls(d, []string{"x"}) })))
		}
		o.q = q
		g.query(o)
	}
	// One component with long or many clauses under a few connectives.
	for i := 0; i < g.pick(150, 1500); i++ {
		d := 3 + g.Intn(8)
		tree := g.tree(d, 31)
		vars := []string{"x", "y"}
		ks := []ast.Term{ast.C("ka", g.inst(d)), ast.C("kb", g.fullInst(d))}
		a := g.randAtom(d, vars, ks, true, true)
		if g.chance(0.4) {
			a = g.randCls(d, vars)
		}
		b := g.randAtom(d, vars, ks, true, true)
		var q *ast.Q
		switch g.Intn(6) {
		case 0:
			q = ast.Not(ast.Not(a))
		case 1:
			q = ast.Not(ast.Not(ast.Not(a)))
		case 2:
			q = ast.Or(a, ast.Not(b))
		case 3:
			q = ast.Not(ast.Or(a, b))
		case 4:
			q = ast.Not(ast.And(a, ast.Not(b)))
		default:
			q = ast.And(ast.Not(ast.Not(a)), ast.Or(b, b))
		}
		var hints []ast.Inst
		for _, x := range nodeInsts(d, tree) {
			hints = append(hints, x, g.related(x))
		}
		for _, t := range ks {
			hints = append(hints, t.X, g.related(t.X))
		}
		g.query(qopt{d: d, tree: tree, q: declare(q, vars...), gv: vars, pins: g.pinsFor(d, 24, vars, nil, hints), tag: "long clauses"})
	}
	// Deep ones.
	for i := 0; i < g.pick(40, 400); i++ {
		d := 2
		q := g.randCls(d, []string{"x"})
		for k := 0; k < 30+g.Intn(60); k++ {
			switch g.Intn(4) {
			case 0:
				q = ast.Not(q)
			case 1:
				q = ast.And(q, g.randCls(d, []string{"x"}))
			case 2:
				q = ast.Or(g.randCls(d, []string{"x"}), q)
			default:
				q = ast.Or(q, ast.Not(g.randCls(d, []string{"x"})))
			}
		}
		g.query(qopt{d: d, q: ast.With("x", q), gv: []string{"x"}, grid: true, tag: "deep"})
	}
}

// allForms lists one atom of every kind and form over x, y, z and constants.
func (g *Gen) allForms(d int) []*ast.Q {
	var r []*ast.Q
	vn := []string{"x", "y", "z"}
	kv := []ast.Inst{g.inst(d), g.fullInst(d), g.fullInst(d)}
	for _, k := range atomKinds {
		for _, f := range forms(k.arity) {
			q := &ast.Q{Op: k.op, Pref: g.pref(d), LV: g.chance(0.5)}
			perm := g.Perm(3)
			for i, c := range f {
				if c == 'v' {
					q.T = append(q.T, ast.V(vn[perm[i]%2])) // mostly x and y
				} else {
					x := kv[g.Intn(3)]
					if k.op == "leh" && g.chance(0.9) {
						x = kv[1+g.Intn(2)]
					}
					q.T = append(q.T, ast.C([]string{"", "ka", "kb"}[g.Intn(3)], x))
				}
			}
			r = append(r, q)
			if k.op == "allcomp" {
				o := *q
				o.LV = !q.LV
				r = append(r, &o)
			}
		}
	}
	return r
}

func hasVar(q *ast.Q) bool {
	for _, t := range q.T {
		if t.K == "v" {
			return true
		}
	}
	return false
}

func genC05(g *Gen) {
	vars := []string{"x", "y"}
	// Every pair of components with at least one variable.
	d := 2
	for rep := 0; rep < g.pick(1, 6); rep++ {
		fs := g.allForms(d)
		gs := g.allForms(d)
		for i, a := range fs {
			for j, b := range gs {
				if j < i && rep == 0 || !hasVar(a) || !hasVar(b) {
					continue
				}
				tree := g.tree(d, 7)
				var q *ast.Q
				switch g.Intn(3) {
				case 0:
					q = ast.And(polarity(a, g.chance(0.3)), polarity(b, g.chance(0.3)))
				case 1:
					q = ast.Or(ast.And(a, ast.Not(b)), ast.And(ast.Not(a), b))
				default:
					q = ast.Or(polarity(a, g.chance(0.3)), polarity(b, g.chance(0.3)))
				}
				g.query(qopt{d: d, tree: tree, q: declare(q, vars...), gv: vars, grid: true, tag: "pairs"})
			}
		}
	}
	// Pairs of one kind that differ in one parameter only.
	for i := 0; i < g.pick(500, 5000); i++ {
		d := 2 + g.Intn(2)
		if i%8 == 0 {
			d = 11 + g.Intn(4)
		}
		tree := g.tree(d, 15)
		if d > 3 {
			tree = g.tree(d, 63)
		}
		ks := []ast.Term{ast.C("ka", g.inst(d)), ast.C("kb", g.fullInst(d)), ast.C("", g.fullInst(d))}
		a := g.randAtom(d, vars, ks, true, d < 4)
		b := *a
		b.T = append([]ast.Term{}, a.T...)
		switch {
		case a.Op == "hepr" && g.chance(0.7):
			b.Pref = g.collide(a.Pref, d)
		case a.Op == "allcomp" && g.chance(0.5):
			b.LV = !a.LV
		case a.Op == "isnode":
			b.Op = "allcomp"
		case a.Op == "allcomp":
			b.Op = "isnode"
		default:
			j := g.Intn(len(b.T))
			if b.T[j].K == "c" {
				b.T[j] = ast.C(b.T[j].N, g.related(b.T[j].X))
			} else if len(b.T) > 1 {
				b.T[0], b.T[len(b.T)-1] = b.T[len(b.T)-1], b.T[0]
			}
		}
		var q *ast.Q
		switch g.Intn(4) {
		case 0:
			q = ast.And(a, &b)
		case 1:
			q = ast.And(a, ast.Not(&b))
		case 2:
			q = ast.And(ast.Not(a), &b)
		default:
			q = ast.And(ast.Not(a), ast.Not(&b))
		}
		hints := nodeInsts(d, tree)
		for _, t := range append(a.T, b.T...) {
			if t.K == "c" {
				hints = append(hints, t.X)
			}
		}
		g.query(qopt{d: d, tree: tree, q: declare(q, vars...), gv: vars, pins: g.pinsFor(d, 20, vars, nil, hints), tag: "twins"})
	}
	// Preferences whose indices read alike when written one after another.
	for i := 0; i < g.pick(80, 800); i++ {
		d := 12 + g.Intn(10)
		p := g.twoDigit(d)
		p2 := g.collide(p, d)
		for _, form := range []string{"vv", "vc", "cv"} {
			var ts []ast.Term
			for k, f := range form {
				if f == 'v' {
					ts = append(ts, ast.V(vars[k]))
				} else {
					ts = append(ts, ast.C("k", g.inst(d)))
				}
			}
			a := &ast.Q{Op: "hepr", T: ts, Pref: p}
			b := &ast.Q{Op: "hepr", T: ts, Pref: p2}
			q := ast.And(polarity(a, g.chance(0.5)), polarity(b, g.chance(0.5)))
			var ps []pin
			for k := 0; k < 12; k++ {
				x, y := g.fullInst(d), g.fullInst(d)
				for _, f := range append(append([]int{}, p...), p2...) {
					if g.chance(0.3) {
						x[f] = 0
					}
					if g.chance(0.3) {
						y[f] = 0
					}
				}
				ps = append(ps, pin{VS: map[string]ast.Inst{"x": x, "y": y}})
			}
			g.query(qopt{d: d, q: declare(q, vars...), gv: vars, pins: ps, tag: "colliding preferences"})
		}
	}
	// Larger groups.
	for i := 0; i < g.pick(400, 4000); i++ {
		d := 1 + g.Intn(3)
		tree := g.tree(d, 15)
		ks := []ast.Term{ast.C("ka", g.inst(d)), ast.C("kb", g.fullInst(d)), ast.C("", g.fullInst(d))}
		var q *ast.Q
		n := 2 + g.Intn(5)
		for k := 0; k < n; k++ {
			a := polarity(g.randAtom(d, vars, ks, true, true), g.chance(0.35))
			switch {
			case q == nil:
				q = a
			case g.chance(0.5):
				q = ast.And(q, a)
			default:
				q = ast.Or(a, q)
			}
		}
		o := qopt{d: d, tree: tree, q: declare(q, vars...), gv: vars, tag: "groups"}
		if d < 3 {
			o.grid = true
		} else {
			o.pins = g.pinsFor(d, 24, vars, nil, nodeInsts(d, tree))
		}
		g.query(o)
	}
	// Constants with the same identifier and different values.
	for i := 0; i < g.pick(150, 1500); i++ {
		d := 1 + g.Intn(3)
		tree := g.tree(d, 15)
		ks := []ast.Term{ast.C("k", g.fullInst(d)), ast.C("k", g.fullInst(d)), ast.C("k", g.inst(d))}
		k := atomKinds[[]int{0, 1, 2, 4, 4, 5, 5, 5}[g.Intn(8)]]
		f := forms(k.arity)[g.Intn(1<<k.arity-1)]
		mk := func(c ast.Term) *ast.Q {
			q, _, _ := atom(k, f)
			for j := range q.T {
				if q.T[j].K == "c" {
					q.T[j] = c
				} else {
					q.T[j] = ast.V(vars[g.Intn(2)])
				}
			}
			return q
		}
		a, b := mk(ks[0]), mk(ks[1+g.Intn(2)])
		if g.chance(0.5) {
			b.T = append([]ast.Term{}, a.T...)
			for j := range b.T {
				if b.T[j].K == "c" {
					b.T[j] = ks[1+g.Intn(2)]
				}
			}
		}
		a.Pref = g.pref(d)
		b.Pref = a.Pref
		q := ast.And(polarity(a, g.chance(0.5)), polarity(b, g.chance(0.5)))
		o := qopt{d: d, tree: tree, q: declare(q, vars...), gv: vars, tag: "same identifier"}
		if d < 3 {
			o.grid = true
		} else {
			o.pins = g.pinsFor(d, 24, vars, nil, []ast.Inst{ks[0].X, ks[1].X})
		}
		g.query(o)
	}
	// Distances to the nodes that are full instances.
	for i := 0; i < g.pick(60, 600); i++ {
		d := 1 + g.Intn(2)
		tree := g.nodes(g.shape(seq(d), 0.05))
		n := ast.C("g", nil)
		dist := func() *ast.Q {
			ts := []ast.Term{n, ast.V("x"), ast.V("y"), ast.C("k", g.fullInst(d)), n}
			p := g.Perm(5)
			return polarity(ast.Atom("leh", ts[p[0]], ts[p[1]], ts[p[2]]), g.chance(0.3))
		}
		q := ast.Fag("g", ast.Or(ast.Not(ast.Atom("full", n)), []*ast.Q{dist(), ast.And(dist(), dist()), ast.Or(dist(), dist())}[g.Intn(3)]))
		g.query(qopt{d: d, tree: tree, q: declare(q, vars...), gv: vars, grid: true, tag: "distances to nodes"})
	}
	for i := 0; i < g.pick(40, 300); i++ {
		g.farNodes()
	}
	// Components on scoped variables and constants: several quantifiers give
	// the same variable different internal names.
	for i := 0; i < g.pick(150, 1500); i++ {
		d := 2
		tree := g.tree(d, 7)
		ks := []ast.Term{ast.C("g", nil), ast.C("ka", g.inst(d)), ast.C("kb", g.fullInst(d))}
		a := g.randAtom(d, []string{"x", "y"}, ks, true, true)
		b := g.randAtom(d, []string{"x", "y"}, ks, true, true)
		c := g.randAtom(d, []string{"x"}, ks, true, true)
		q := ast.With("x", ast.Fag("g", ast.With("y", ast.And(ast.Or(a, c), ast.Or(ast.Not(b), ast.Not(c))))))
		g.query(qopt{d: d, tree: tree, q: q, gv: []string{"x"}, grid: true, tag: "scoped"})
	}
}

// farNodes compares variables with the nodes of a tree that differ late.
func (g *Gen) farNodes() {
	d := []int{17, 33, 41, 49, 50, 60, 65, 66, 70, 130}[g.Intn(10)]
	n := ast.C("g", nil)
	other := []ast.Term{ast.C("k", g.fullInst(d)), ast.V("y"), n}
	tree := g.wideTree(d)
	base := g.inst(d)
	var q *ast.Q
	vs := []string{"x"}
	if g.chance(0.5) {
		p := g.edgePref(d)
		mk := func() *ast.Q {
			ts := []ast.Term{n, ast.V("x")}
			if g.chance(0.5) {
				ts[0], ts[1] = ts[1], ts[0]
			}
			return polarity(&ast.Q{Op: "hepr", T: ts, Pref: p}, g.chance(0.5))
		}
		q = ast.Or(mk(), mk())
		if g.chance(0.3) {
			q = mk()
		}
	} else {
		if d > 70 {
			d = 70
		}
		tree = g.spine(d)
		base = g.fullInst(d)
		for _, x := range nodeInsts(d, tree) {
			if full(x) {
				base = x
			}
		}
		other[0] = ast.C("k", g.flip(base))
		mk := func() *ast.Q {
			ts := []ast.Term{n, ast.V("x"), other[[]int{0, 0, 0, 2}[g.Intn(4)]]}
			p := g.Perm(3)
			return polarity(ast.Atom("leh", ts[p[0]], ts[p[1]], ts[p[2]]), g.chance(0.3))
		}
		q = ast.Or(ast.Not(ast.Atom("full", n)), mk())
		if g.chance(0.5) {
			q = ast.Or(q, mk())
		}
	}
	hints := append(nodeInsts(d, tree), base)
	var ps []pin
	for i := 0; i < 10; i++ {
		x := base
		if g.chance(0.3) {
			x = hints[g.Intn(len(hints))]
		}
		switch g.Intn(4) {
		case 0:
			x = g.flip(x)
		case 1:
			x = g.flip(g.flip(x))
		case 2:
			x = g.near(x)
		}
		ps = append(ps, pin{VS: map[string]ast.Inst{"x": x}})
	}
	q = ast.Fag("g", q)
	g.query(qopt{d: d, tree: tree, q: declare(polarity(q, g.chance(0.2)), vs...), gv: vs, pins: ps, tag: "nodes of many features"})
}

func full(x ast.Inst) bool {
	for _, v := range x {
		if v == 0 {
			return false
		}
	}
	return true
}

// flip changes one feature (that is not left out) to its opposite, mostly a
// late one.
func (g *Gen) flip(x ast.Inst) ast.Inst {
	y := append(ast.Inst{}, x...)
	for t := 0; t < 40; t++ {
		i := g.Intn(len(x))
		if g.chance(0.5) {
			i = len(x) - 1 - g.Intn(1+len(x)/4)
		}
		if y[i] > 0 {
			y[i] = 3 - y[i]
			break
		}
	}
	return y
}

// collide makes a preference whose indices, written without separators, are
// those of p, or another preference if there is none.
func (g *Gen) collide(p []int, d int) []int {
	digits := ""
	for _, f := range p {
		digits += itoa(f)
	}
	var found [][]int
	var rec func(rest string, cur []int)
	rec = func(rest string, cur []int) {
		if rest == "" {
			found = append(found, append([]int{}, cur...))
			return
		}
		for l := 1; l <= 2 && l <= len(rest); l++ {
			if rest[0] == '0' && l > 1 {
				continue
			}
			f := 0
			for _, c := range rest[:l] {
				f = f*10 + int(c-'0')
			}
			used := f >= d
			for _, c := range cur {
				used = used || c == f
			}
			if !used {
				rec(rest[l:], append(cur, f))
			}
		}
	}
	if len(p) <= 8 {
		rec(digits, nil)
	}
	if len(found) > 1 {
		return found[g.Intn(len(found))]
	}
	return g.pref(d)
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

// twoDigit is a short preference over indices like 1, 11, 10, 0, 2, 12.
func (g *Gen) twoDigit(d int) []int {
	pool := []int{1, 11, 10, 0, 2, 12, 21, 20}
	var p []int
	for _, i := range g.Perm(len(pool)) {
		if pool[i] < d {
			p = append(p, pool[i])
		}
		if len(p) == 2+g.Intn(2) {
			break
		}
	}
	return p
}

// randScoped makes a random body with quantifiers and declarations. vars and
// consts are what may be mentioned; depth0 says that no quantifier is open.
func (g *Gen) randScoped(d, depth int, vars []string, consts []ast.Term, fresh *[]string, targets []string, decl bool) *ast.Q {
	leaf := func() *ast.Q {
		if g.chance(0.2) && len(vars) > 0 {
			return g.randCls(d, vars)
		}
		if len(vars)+len(consts) == 0 {
			return ast.True()
		}
		return polarity(g.randAtom(d, vars, consts, true, d < 3), g.chance(0.35))
	}
	if depth == 0 {
		return g.randBool(g.Intn(2), leaf)
	}
	switch g.Intn(6) {
	case 0:
		return ast.And(g.randScoped(d, depth-1, vars, consts, fresh, targets, decl), g.randBool(1, leaf))
	case 1:
		return ast.Or(g.randBool(1, leaf), g.randScoped(d, depth-1, vars, consts, fresh, targets, decl))
	case 2, 3:
		t := targets[g.Intn(len(targets))]
		cs := append([]ast.Term{ast.C(t, nil)}, consts...)
		if g.chance(0.3) {
			cs[0].X = g.inst(d) // ignored: the quantifier gives the value
		}
		q := ast.Fag(t, g.randScoped(d, depth-1, vars, cs, fresh, targets, decl))
		if g.chance(0.2) {
			q.X = g.inst(d)
		}
		return q
	case 4:
		if decl && len(*fresh) > 0 {
			v := (*fresh)[0]
			*fresh = (*fresh)[1:]
			return ast.With(v, g.randScoped(d, depth-1, append([]string{v}, vars...), consts, fresh, targets, decl))
		}
		fallthrough
	default:
		if !decl {
			return ast.Not(g.randScoped(d, depth-1, vars, consts, fresh, targets, false))
		}
		if g.chance(0.5) {
			return ast.Not(g.randScoped(d, depth-1, vars, consts, fresh, targets, false))
		}
		return g.randScoped(d, depth-1, vars, consts, fresh, targets, decl)
	}
}

func genC06(g *Gen) {
	small := func() (int, []ast.Node) {
		d := 1 + g.Intn(2)
		if g.chance(0.15) {
			d = 3
		}
		m := 7
		return d, g.tree(d, m)
	}
	// One quantifier, one outside variable, every kind of atom.
	for i := 0; i < g.pick(300, 3000); i++ {
		d := 1 + g.Intn(5)
		tree := g.tree(d, 31)
		a := g.randAtom(d, []string{"x"}, []ast.Term{ast.C("g", nil)}, true, d < 4)
		b := g.randAtom(d, []string{"x"}, []ast.Term{ast.C("g", nil), ast.C("k", g.inst(d))}, true, d < 4)
		var q *ast.Q
		switch g.Intn(4) {
		case 0:
			q = ast.Fag("g", polarity(a, g.chance(0.5)))
		case 1:
			q = ast.Fag("g", ast.Or(polarity(a, g.chance(0.5)), polarity(b, g.chance(0.5))))
		case 2:
			q = ast.Not(ast.Fag("g", polarity(a, g.chance(0.5))))
		default:
			q = ast.Fag("g", ast.Or(ast.Not(ast.Atom("full", ast.C("g", nil))), polarity(a, g.chance(0.5))))
		}
		o := qopt{d: d, tree: tree, q: ast.With("x", q), gv: []string{"x"}, tag: "one quantifier"}
		if d <= 3 {
			o.grid = true
		} else {
			var hints []ast.Inst
			for _, x := range nodeInsts(d, tree) {
				hints = append(hints, x, g.related(x))
			}
			o.pins = g.pinsFor(d, 24, []string{"x"}, nil, hints)
		}
		g.query(o)
	}
	// The quantifier visits all nodes and nothing else: for each instance c
	// of the dimension, "no node equals c" and "every node is not above c".
	for i := 0; i < g.pick(60, 600); i++ {
		d := 1 + g.Intn(3)
		tree := g.tree(d, 15)
		n := ast.C("g", nil)
		k := ast.C("k", nil)
		eq := ast.And(ast.Atom("sub", n, k), ast.Atom("sub", k, n))
		q := ast.Fag("g", ast.Not(eq))
		g.query(qopt{d: d, tree: tree, q: polarity(q, g.chance(0.5)), gc: []string{"k"}, bind: "direct", grid: true, tag: "visits exactly the nodes"})
	}
	// A variable inside may depend on the node, one outside may not: for all
	// nodes there is a y equal to the node; no x is equal to all nodes.
	for i := 0; i < g.pick(40, 400); i++ {
		d, tree := small()
		n := ast.C("g", nil)
		eqv := func(v string) *ast.Q {
			return ast.And(ast.Atom("sub", n, ast.V(v)), ast.Atom("sub", ast.V(v), n))
		}
		g.query(qopt{d: d, tree: tree, q: ast.Fag("g", ast.With("y", eqv("y"))), pins: []pin{{}}, tag: "dependence"})
		g.query(qopt{d: d, tree: tree, q: ast.With("x", ast.Fag("g", eqv("x"))), pins: []pin{{}}, tag: "dependence"})
		g.query(qopt{d: d, tree: tree, q: ast.With("x", ast.Fag("g", ast.With("y", ast.And(eqv("y"), ast.Atom("cons", ast.V("x"), ast.V("y")))))),
			gv: []string{"x"}, grid: true, tag: "dependence"})
		// Nested quantifiers with the same and with different targets.
		m := ast.C("h", nil)
		g.query(qopt{d: d, tree: tree, q: ast.Fag("g", ast.With("y", ast.And(eqv("y"), ast.Fag("g", ast.With("z", eqv("z")))))), pins: []pin{{}}, tag: "nested"})
		g.query(qopt{d: d, tree: tree, q: ast.With("x", ast.Fag("g", ast.Fag("g", ast.Or(ast.Atom("cons", n, ast.V("x")), ast.Atom("lel", ast.V("x"), n))))),
			gv: []string{"x"}, grid: true, tag: "nested"})
		g.query(qopt{d: d, tree: tree, q: ast.With("x", ast.Fag("g", ast.And(ast.Fag("g", ast.Atom("cons", n, n)), ast.Atom("sub", n, ast.V("x"))))),
			gv: []string{"x"}, grid: true, tag: "nested"})
		g.query(qopt{d: d, tree: tree, q: ast.With("x", ast.Fag("g", ast.Fag("h", ast.Or(ast.Not(ast.Atom("cons", n, m)), ast.Atom("cons", m, ast.V("x")))))),
			gv: []string{"x"}, grid: true, tag: "nested"})
	}
	for i := 0; i < g.pick(350, 3500); i++ {
		g.nest(0.15)
	}
	for i := 0; i < g.pick(40, 400); i++ {
		g.manyNodes(0)
	}
	g.veryManyNodes()
	for i := 0; i < g.pick(16, 120); i++ {
		g.allOfMany()
	}
	// Random nesting and alternation.
	for i := 0; i < g.pick(600, 6000); i++ {
		d, tree := small()
		fresh := []string{"y", "z"}
		if d > 1 {
			fresh = fresh[:1]
		}
		targets := []string{"g", "h"}
		vars, out := []string{"x"}, []string{"x"}
		if g.chance(0.3) {
			vars, out = nil, nil
		}
		ks := []ast.Term{ast.C("k", g.inst(d))}
		q := g.randScoped(d, 2+g.Intn(3), vars, ks, &fresh, targets, true)
		q = declare(q, vars...)
		if g.chance(0.6) && len(vars) == 0 {
			q = ast.Fag("g", g.randScoped(d, 1+g.Intn(2), nil, []ast.Term{ast.C("g", nil)}, &fresh, targets, true))
		}
		if q.Size() > 22 {
			continue
		}
		g.query(qopt{d: d, tree: tree, q: q, gv: out, grid: true, tag: "random"})
	}
}

// equal says that two terms are the same instance.
func equal(a, b ast.Term) *ast.Q { return ast.And(ast.Atom("sub", a, b), ast.Atom("sub", b, a)) }

// nest emits a few quantifiers within each other with variables declared at
// chosen levels, possibly declared again deeper, and compared with the
// constants of chosen levels: a variable is one instance for the quantifiers
// opened before its declaration and any number of them for later ones.
func (g *Gen) nest(again float64) {
	n := 1 + g.Intn(4)
	d := 1 + g.Intn(2)
	limit := []int{15, 9, 5, 3}[n-1]
	if n == 1 {
		d = 2 + g.Intn(4)
		limit = 2*d + 17
	}
	tree := g.tree(d, limit)
	for len(tree) == 1 && g.chance(0.9) {
		tree = g.tree(d, limit)
	}
	pool := []string{"g", "h", "f", "gg"}
	targets := make([]string, n)
	for i := range targets {
		targets[i] = pool[i]
		if i > 0 && g.chance(0.15) {
			targets[i] = targets[g.Intn(i)]
		}
	}
	// decls[l]: variables declared when l quantifiers are open.
	decls := make([][]string, n+1)
	at := map[string]int{}
	vars := []string{"y"}
	if g.chance(0.4) && d < 3 {
		vars = append(vars, "z")
	}
	for _, v := range vars {
		l := g.Intn(n + 1)
		if l == 0 && g.chance(0.6) {
			l = 1 + g.Intn(n)
		}
		at[v] = l
		decls[l] = append(decls[l], v)
		for m := l; l > 0 && m <= n; m++ {
			if g.chance(again) {
				decls[m] = append(decls[m], v)
			}
		}
	}
	// Where the comparisons sit: as deep as what they mention.
	atoms := make([][]*ast.Q, n+1)
	put := func(l int, q *ast.Q) {
		l += g.Intn(n + 1 - l)
		if g.chance(0.5) {
			l = n
		}
		atoms[l] = append(atoms[l], q)
	}
	for _, v := range vars {
		k := 1 + g.Intn(n)
		c := ast.C(targets[k-1], nil)
		var q *ast.Q
		switch g.Intn(4) {
		case 0, 1:
			q = equal(c, ast.V(v))
		case 2:
			q = ast.And(ast.Not(ast.Atom("cons", c, ast.V(v))), ast.Atom("cons", ast.V(v), ast.V(v)))
		default:
			q = ast.Or(ast.And(ast.Atom("full", c), equal(c, ast.V(v))), ast.Not(ast.Atom("full", c)))
		}
		put(max(k, at[v]), q)
	}
	if len(vars) == 2 && g.chance(0.5) {
		put(max(at["y"], at["z"]), ast.Atom("sub", ast.V("y"), ast.V("z")))
	}
	b := ast.True()
	for l := n; l >= 0; l-- {
		for i, q := range atoms[l] {
			if i == 0 && b.Op == "true" {
				b = q
			} else {
				b = ast.And(q, b)
			}
		}
		b = declare(b, decls[l]...)
		if l > 0 {
			b = ast.Fag(targets[l-1], b)
		}
	}
	o := qopt{d: d, tree: tree, q: b, pins: []pin{{}}, tag: "nest"}
	if len(decls[0]) > 0 && g.chance(0.5) {
		o.gv = decls[0]
		o.pins = g.pinsFor(d, 8, o.gv, nil, nodeInsts(d, tree))
	}
	g.query(o)
}

// manyNodes emits quantifiers over larger trees with a variable that has to
// be another one for each node.
func (g *Gen) manyNodes(want int) {
	d := 4 + g.Intn(2)
	tree := g.tree(d, 43)
	if g.chance(0.3) {
		tree = g.spine(d)
	}
	tag := "many nodes"
	if want > 0 {
		d = 7
		for 1<<d < want {
			d++
		}
		tree = g.largeTree(d, want)
		tag = "very many nodes"
	}
	n := ast.C("g", nil)
	y := ast.V("y")
	var q *ast.Q
	switch g.Intn(3) {
	case 0:
		q = ast.Fag("g", ast.With("y", equal(n, y)))
	case 1: // two quantifiers next to each other
		m := ast.C("h", nil)
		q = ast.And(ast.Fag("g", ast.With("y", equal(n, y))), ast.Fag("h", ast.With("z", equal(ast.V("z"), m))))
	default:
		q = ast.Fag("g", ast.With("y", ast.And(ast.Atom("full", y), ast.Atom("cons", n, y))))
	}
	g.query(qopt{d: d, tree: tree, q: q, pins: []pin{{}}, tag: tag})
}

func (g *Gen) veryManyNodes() {
	ws := []int{130, 262, 300}
	if g.thorough() {
		ws = []int{66, 130, 150, 258, 262, 270, 300, 520, 600, 1030}
	}
	for _, w := range ws {
		g.manyNodes(w)
	}
}

// largeTree is a tree with about the given number of nodes, if the dimension
// allows for it.
func (g *Gen) largeTree(d, want int) []ast.Node {
	tree := g.tree(d, want)
	for i := 0; i < 60 && len(tree) < want; i++ {
		if t := g.tree(d, want+want/4); len(t) > len(tree) {
			tree = t
		}
	}
	return tree
}

// allOfMany asks, for trees with more nodes than fit into a machine word or
// two, whether single nodes are visited.
func (g *Gen) allOfMany() {
	d := 6 + g.Intn(3)
	tree := g.largeTree(d, []int{60, 66, 100, 130, 140}[g.Intn(5)])
	if g.chance(0.25) {
		d = 33 + g.Intn(40)
		tree = g.spine(d)
	}
	n, k := ast.C("g", nil), ast.C("k", nil)
	q := ast.Fag("g", ast.Not(equal(n, k)))
	vs, cs := []string(nil), []string{"k"}
	switch g.Intn(3) {
	case 0: // only leaves
		q = ast.Fag("g", ast.Or(ast.Not(ast.Atom("allcomp", n)), ast.Not(ast.Atom("sub", k, n))))
		q.A.A.A.LV = g.chance(0.5)
	case 1:
		q = ast.Fag("g", ast.Not(equal(n, ast.V("x"))))
		vs, cs = []string{"x"}, nil
	}
	nodes := nodeInsts(d, tree)
	var ps []pin
	for i := 0; i < 24; i++ {
		x := nodes[g.Intn(len(nodes))]
		if i%4 == 0 {
			x = g.near(x)
		}
		if cs != nil {
			ps = append(ps, pin{CS: map[string]ast.Inst{"k": x}})
		} else {
			ps = append(ps, pin{VS: map[string]ast.Inst{"x": x}})
		}
	}
	g.query(qopt{d: d, tree: tree, q: declare(polarity(q, g.chance(0.3)), vs...), gv: vs, gc: cs, bind: "direct", pins: ps, tag: "all of many nodes"})
}

func genC07(g *Gen) {
	g.veryManyNodes()
	for i := 0; i < g.pick(250, 2500); i++ {
		g.nest(0.6)
	}
	for d := 1; d <= 4; d++ {
		for _, n := range []int{1, 2, 3} {
			if d*n > 4 {
				continue
			}
			vs := []string{"x", "y", "z"}[:n]
			g.query(qopt{d: d, q: declare(ast.True(), vs...), gv: vs, mode: "models", tag: "unconstrained"})
			// redeclared
			g.query(qopt{d: d, q: declare(declare(ast.True(), vs...), vs...), gv: vs, mode: "models", tag: "redeclared"})
			g.query(qopt{d: d, q: declare(ast.And(declare(ast.True(), vs...), declare(ast.True(), vs...)), vs...), gv: vs, mode: "models", tag: "redeclared"})
			// declared below connectives
			q := ast.True()
			for _, v := range vs {
				q = ast.And(ast.With(v, ast.True()), q)
			}
			g.query(qopt{d: d, q: q, gv: vs, mode: "models", tag: "below and"})
			q = ast.True()
			for _, v := range vs {
				q = ast.Or(q, ast.With(v, ast.True()))
			}
			g.query(qopt{d: d, q: q, gv: vs, mode: "models", tag: "below or"})
		}
	}
	// Constrained: the valuations are exactly the instances that satisfy it.
	for i := 0; i < g.pick(250, 2500); i++ {
		d := 1 + g.Intn(3)
		vs := []string{"x", "y"}
		if d == 3 {
			vs = vs[:1]
		}
		tree := g.tree(d, 15)
		ks := []ast.Term{ast.C("k", g.inst(d))}
		leaf := func() *ast.Q { return g.randAtom(d, vs, ks, true, d < 3) }
		q := g.randBool(1+g.Intn(2), leaf)
		if g.chance(0.3) {
			q = ast.With(vs[g.Intn(len(vs))], q)
		}
		if g.chance(0.3) {
			q = ast.And(q, ast.With(vs[0], leaf()))
		}
		if g.chance(0.15) {
			q = ast.Or(q, ast.Fag("g", g.randAtom(d, vs, []ast.Term{ast.C("g", nil)}, true, false)))
		}
		g.query(qopt{d: d, tree: tree, q: declare(q, vs...), gv: vs, mode: "models", tag: "constrained"})
	}
	// A negated part does not free the variable.
	for i := 0; i < g.pick(60, 600); i++ {
		d := 1 + g.Intn(2)
		tree := g.tree(d, 7)
		vs := []string{"x", "y"}
		ks := []ast.Term{ast.C("k", g.inst(d))}
		leaf := func() *ast.Q { return g.randAtom(d, vs, ks, true, true) }
		q := ast.Not(g.randBool(2, leaf))
		g.query(qopt{d: d, tree: tree, q: declare(q, vs...), gv: vs, mode: "models", tag: "negated"})
		q = ast.With("x", ast.Or(ast.With("y", leaf()), ast.Not(g.randAtom(d, []string{"x"}, ks, true, true))))
		g.query(qopt{d: d, tree: tree, q: q, gv: vs, mode: "models", tag: "below or"})
	}
	// Declarations under quantifiers: one free copy per node.
	for i := 0; i < g.pick(60, 600); i++ {
		d := 1 + g.Intn(2)
		tree := g.tree(d, 7)
		inner := ast.With("y", ast.True())
		switch g.Intn(5) {
		case 0:
			inner = ast.With("y", ast.With("y", ast.True()))
		case 1:
			inner = ast.With("y", ast.And(ast.With("y", ast.True()), ast.Atom("sub", ast.V("y"), ast.V("y"))))
		case 2: // declared again in a deeper quantifier
			inner = ast.With("y", ast.Fag("h", ast.With("y", ast.Atom("sub", ast.V("y"), ast.V("y")))))
		case 3:
			inner = ast.And(ast.Atom("cons", ast.C("g", nil), ast.C("g", nil)), ast.With("y", ast.Atom("cons", ast.V("y"), ast.V("y"))))
		}
		q := ast.Fag("g", inner)
		if g.chance(0.3) {
			q = ast.With("x", q)
		}
		copies := len(tree)
		if g.chance(0.25) && len(tree) <= 5 {
			q = ast.Fag("f", q)
			copies *= len(tree)
		}
		g.queryInner(d, tree, q, copies)
	}
	// Large dimensions: pins only.
	for i := 0; i < g.pick(40, 400); i++ {
		d := g.dim(100)
		vs := []string{"x", "y"}
		g.query(qopt{d: d, q: declare(ast.Atom("sub", ast.V("x"), ast.V("y")), "x", "y", "x"), gv: vs, pins: g.pinsFor(d, 20, vs, nil, nil), tag: "large"})
	}
}

func (g *Gen) queryInner(d int, tree []ast.Node, q *ast.Q, copies int) {
	g.emit(Obj{"kind": "query", "d": d, "tree": tree, "q": q, "style": g.Intn(3),
		"gv": []string{}, "gc": []string{}, "bind": "scope", "grid": false, "pins": []pin{},
		"mode": "inner", "watch": "y", "copies": copies, "tag": "inner"})
}

func genC10(g *Gen) {
	hist := func(d int, tree []ast.Node) []histOp {
		var h []histOp
		vs := []string{"x", "y", "z"}
		ts := []string{"g", "h", "k"}
		for n := 1 + g.Intn(8); n > 0; n-- {
			switch g.Intn(8) {
			case 0:
				h = append(h, histOp{Op: "addscope", N: ts[g.Intn(3)]}, histOp{Op: "setscope", I: g.Intn(3), X: g.inst(d)})
			case 1, 2:
				h = append(h, histOp{Op: "addvar", N: vs[g.Intn(3)]})
			case 3:
				h = append(h, histOp{Op: "popscope"})
			case 4:
				h = append(h, histOp{Op: "cnfvar", N: vs[g.Intn(3)], I: g.Intn(d), Val: g.Intn(3)})
			case 5:
				h = append(h, histOp{Op: "updatetop", I: g.Intn(200)})
			case 6: // a query, possibly one that fails
				q := g.anyQuery(d)
				if g.chance(0.4) {
					q = ast.And(q, ast.Fag("g", ast.With("y", ast.Atom("sub", ast.V("y"), ast.C("unbound", ast.Inst{})))))
				}
				h = append(h, histOp{Op: "enc", Q: q})
			case 7:
				h = append(h, histOp{Op: "reset"})
			}
		}
		return h
	}
	for i := 0; i < g.pick(500, 5000); i++ {
		d := 1 + g.Intn(2)
		tree := g.tree(d, 7)
		q := g.anyQuery(d)
		o := qopt{d: d, tree: tree, q: q, gv: []string{"x"}, grid: true, tag: "after reset"}
		if i%2 == 0 {
			o.hist = hist(d, tree)
		} else if i%4 == 1 {
			o.twice = true
			o.tag = "encoded twice"
		} else {
			// the very same query before the reset
			o.hist = []histOp{{Op: "enc", Q: q}}
			if g.chance(0.5) {
				o.hist = append([]histOp{{Op: "addscope", N: "g"}, {Op: "setscope", I: 1, X: g.inst(d)}, {Op: "addvar", N: "x"}}, o.hist...)
			}
		}
		g.query(o)
	}
}

// anyQuery is a random query with x declared outermost.
func (g *Gen) anyQuery(d int) *ast.Q {
	fresh := []string{"y"}
	ks := []ast.Term{ast.C("k0", g.inst(d))}
	for {
		q := ast.With("x", g.randScoped(d, 1+g.Intn(3), []string{"x"}, ks, &fresh, []string{"g", "h"}, true))
		if q.Size() <= 18 {
			return q
		}
		fresh = []string{"y"}
	}
}
