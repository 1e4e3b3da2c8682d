package main

import (
	"verif/harness/ast"
)

func init() { generators["C21"] = genC21 }

// wraps put a query somewhere inside another one; all of them make the
// library look at it (or are meant to).
var wraps = []func(g *Gen, q *ast.Q) *ast.Q{
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Not(q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.And(q, ast.True()) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.And(ast.True(), q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.And(ast.False(), q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.And(q, ast.False()) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Or(q, ast.True()) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Or(ast.True(), q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Or(ast.False(), q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Or(q, ast.False()) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.With("w", q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.With("x", q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Fag("g", q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Fag("g", ast.Or(ast.Atom("full", ast.C("g", nil)), q)) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.And(ast.Fag("ka", ast.True()), q) },
	func(g *Gen, q *ast.Q) *ast.Q { return ast.Or(q, ast.Fag("ka", ast.True())) },
}

// someTree is a small tree that decides something.
func (g *Gen) someTree(d int) []ast.Node {
	for {
		if t := g.tree(d, 7); len(t) > 1 {
			return t
		}
	}
}

// damage spoils one or two nodes of a tree.
func (g *Gen) damage(t []ast.Node, d int) []ast.Node {
	r := append([]ast.Node{}, t...)
	n := 1
	if g.chance(0.2) {
		n = 2
	}
	for ; n > 0; n-- {
		var in []int
		for i, x := range r {
			if x.Z >= 0 && x.O >= 0 {
				in = append(in, i)
			}
		}
		u := in[g.Intn(len(in))]
		off := []int{0, 0, 1, 5}[g.Intn(4)]
		switch g.Intn(4) {
		case 0:
			r[u].F = d + off
		case 1:
			r[u].F = -1 - off
		case 2:
			r[u].Z = len(r) + off
		case 3:
			r[u].O = len(r) + off
		}
	}
	return r
}

func (g *Gen) valid(d int, tree []ast.Node, q *ast.Q, via string, tag string) {
	o := Obj{"kind": "valid", "d": d, "tree": tree, "q": q, "style": g.Intn(3), "via": via,
		"decl": []string{"x", "y", "z"}, "tag": tag}
	if g.chance(0.1) {
		var prior []*ast.Q
		for n := 1 + g.Intn(2); n > 0; n-- {
			p := ast.Fag([]string{"ka", "kb", "kc", "g"}[g.Intn(4)], g.anyQuery(d))
			if g.chance(0.7) {
				p = g.spoil(p, d)
			}
			if p.Op != "nil" {
				prior = append(prior, p)
			}
		}
		o["prior"] = prior
	}
	switch via {
	case "atom", "comb":
		o["neg"] = g.chance(0.5)
		o["shape"] = g.Intn(6)
		o["bin"] = g.chance(0.03)
	case "formula", "order":
		o["decl"] = []string{"v", "x", "y", "z"}
		o["bin"] = g.chance(0.03)
	}
	g.emit(o)
}

// badLens are the wrong lengths of a constant in dimension d.
func badLens(d int) []int {
	r := []int{0, d + 1, 2 * d, 2*d + 3}
	if d > 1 {
		r = append(r, d-1)
	}
	return r
}

func badPrefs(d int) [][]int {
	r := [][]int{{d}, {-1}, {d + 4}, {0, 0}, {d - 1, d - 1}, {0, d}, {-1, 0}}
	if d > 1 {
		r = append(r, []int{0, 1, 0}, []int{0, 1, 1}, append(seq(d), 0), append(seq(d), d))
	}
	if d > 2 {
		r = append(r, []int{0, 1, 2, 1}, []int{2, 0, 2})
	}
	return r
}

// wideValid: preferences and constants in dimensions around those where
// implementations change from one word to several.
func (g *Gen) wideValid() {
	leaf := leafTree()
	dims := []int{31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 130, 255, 257}
	for n := g.pick(1, 6); n > 0; n-- {
		for _, d := range dims {
			for _, k := range atomKinds {
				for _, form := range forms(k.arity) {
					vars := 0
					for _, c := range form {
						if c == 'v' {
							vars++
						}
					}
					if vars > 0 && (d > 66 || !g.chance(0.1)) {
						continue
					}
					q, _, _ := atom(k, form)
					mk := func(d int) *ast.Q {
						r := clone(q)
						for i := range r.T {
							if r.T[i].K == "c" {
								r.T[i].X = g.fullInst(d)
							}
						}
						if k.op == "hepr" {
							r.Pref = g.Perm(d)[:g.Intn(d+1)]
						}
						return r
					}
					g.valid(d, leaf, mk(d), "enc", "well-formed, many features")
					if k.op == "hepr" {
						for _, p := range g.widePrefs(d) {
							r := mk(d)
							r.Pref = p
							g.valid(d, leaf, r, "enc", "preference over many features")
						}
					}
					for i := range q.T {
						if q.T[i].K != "c" {
							continue
						}
						for _, l := range []int{d - 1, d + 1, d - 32, d + 32, d + 64, d + 256, d % 64, 0} {
							if l < 0 || l == d || !g.chance(0.3) {
								continue
							}
							r := mk(d)
							r.T[i].X = g.inst(l)
							g.valid(d, leaf, r, "enc", "constant of the wrong dimension, many features")
						}
					}
				}
			}
		}
	}
}

// widePrefs are good and bad preferences over many features.
func (g *Gen) widePrefs(d int) [][]int {
	var r [][]int
	add := func(p ...int) {
		q := append([]int{}, p...)
		r = append(r, q)
	}
	for _, w := range []int{8, 16, 32, 64, 128} { // features alike modulo a word
		if d > w {
			i := g.Intn(d - w)
			add(i, i+w)
			add(i+w, i)
		}
	}
	i := g.Intn(d)
	add(i, i)
	add(d-1, d-1)
	add(d)
	add(d + 64)
	add(-1)
	add(i - 64 - d)
	p := g.Perm(d)
	add(p...)
	add(append(p, p[g.Intn(d)])...)
	p[g.Intn(d-1)] = p[d-1]
	add(p...)
	p = g.Perm(d)
	p[g.Intn(d)] = d
	add(p...)
	return r
}

// shift gives the constants lengths around d that are not all right, those
// wrong often making up for each other.
func (g *Gen) shift(q *ast.Q, d int) *ast.Q {
	r := clone(q)
	var at []int
	for i := range r.T {
		if r.T[i].K == "c" {
			at = append(at, i)
		}
	}
	if len(at) < 2 {
		return nil
	}
	p := g.Perm(len(at))
	k := 1 + g.Intn(d)
	ls := map[int]int{at[p[0]]: d - k, at[p[1]]: d + k}
	if len(at) > 2 {
		switch g.Intn(4) {
		case 0:
			ls[at[p[2]]] = d + k
			ls[at[p[1]]] = d
		case 1:
			ls[at[p[2]]] = d - k
			ls[at[p[1]]] = d + 2*k
			if g.chance(0.5) {
				ls[at[p[1]]] = d + k
			}
		}
	}
	for i, l := range ls {
		r.T[i].X = g.inst(l)
	}
	return r
}

func genC21(g *Gen) {
	vias := []string{"enc", "enc", "enc", "atom", "comb", "formula", "order"}
	send := func(d int, tree []ast.Node, q *ast.Q, tag string) {
		if q.Op != "nil" {
			g.valid(d, tree, q, "enc", tag)
		}
		for i, w := range wraps {
			if !g.thorough() && g.chance(0.6) {
				continue
			}
			via := vias[g.Intn(len(vias))]
			p := w(g, q)
			g.valid(d, tree, p, via, tag+", wrapped")
			if g.chance(0.3) {
				j := g.Intn(len(wraps))
				if g.thorough() {
					j = (i + g.Intn(3)) % len(wraps)
				}
				g.valid(d, tree, wraps[j](g, p), vias[g.Intn(len(vias))], tag+", wrapped twice")
			}
		}
	}
	fill := func(q *ast.Q, d int) *ast.Q {
		r := clone(q)
		for i := range r.T {
			if r.T[i].K == "c" {
				r.T[i].X = g.inst(d)
				if g.chance(0.5) {
					r.T[i].X = g.fullInst(d)
				}
			}
		}
		return r
	}
	dims := []int{1, 2, 3}
	if g.thorough() {
		dims = []int{1, 2, 3, 5}
	}
	for _, d := range dims {
		for _, k := range atomKinds {
			for _, form := range forms(k.arity) {
				q, _, _ := atom(k, form)
				mk := func() *ast.Q {
					r := fill(q, d)
					if k.op == "hepr" {
						r.Pref = g.pref(d)
					}
					if k.op == "allcomp" {
						r.LV = g.chance(0.5)
					}
					return r
				}
				// nothing wrong
				g.valid(d, g.someTree(d), mk(), "enc", "well-formed")
				g.valid(d, g.someTree(d), mk(), "nilctx", "no context")
				// wrong constants
				for i := range q.T {
					if q.T[i].K != "c" {
						continue
					}
					for _, n := range badLens(d) {
						r := mk()
						r.T[i].X = g.inst(n)
						send(d, g.someTree(d), r, "constant of the wrong dimension")
						if g.chance(0.3) { // every constant alike
							for j := range r.T {
								if r.T[j].K == "c" {
									r.T[j].X = g.inst(n)
								}
							}
							send(d, g.someTree(d), r, "constants of the wrong dimension")
						}
					}
					for n := 0; n < 2; n++ {
						if s := g.shift(mk(), d); s != nil {
							send(d, g.someTree(d), s, "constants of dimensions making up for each other")
						}
					}
					r := mk()
					r.T[i].X = nil
					send(d, g.someTree(d), r, "unbound constant")
					// bound once by a quantifier that is closed, or that
					// binds another name
					for _, p := range []*ast.Q{
						ast.And(ast.Fag(r.T[i].N, ast.True()), r), ast.Or(r, ast.Fag(r.T[i].N, ast.True())),
						ast.Fag(r.T[i].N+"x", r), ast.And(ast.Fag(r.T[i].N, clone(r)), r),
						ast.Fag("g", ast.And(ast.Fag(r.T[i].N, clone(r)), r)),
					} {
						g.valid(d, g.someTree(d), p, vias[g.Intn(len(vias))], "constant outside its quantifier")
					}
					// bound: well-formed after all
					g.valid(d, g.someTree(d), ast.Fag(r.T[i].N, r), "enc", "bound constant")
				}
				// missing naming functions
				for _, n := range []string{"reach", "count", "hd", "ef", "rank"} {
					r := mk()
					r.No = []string{n}
					send(d, g.someTree(d), r, "missing naming function")
				}
				if k.op == "hepr" {
					for _, p := range badPrefs(d) {
						r := mk()
						r.Pref = p
						send(d, g.someTree(d), r, "bad preference")
					}
				}
				// bad trees
				if k.model {
					send(d, []ast.Node{}, mk(), "empty model")
					for n := g.pick(12, 60); n > 0; n-- {
						send(d, g.damage(g.someTree(d), d), mk(), "bad node")
					}
				} else {
					g.valid(d, []ast.Node{}, mk(), "enc", "empty model not needed")
					g.valid(d, g.damage(g.someTree(d), d), mk(), "enc", "bad node not needed")
				}
			}
		}
		// missing operands
		none := &ast.Q{Op: "nil"}
		for n := g.pick(3, 20); n > 0; n-- {
			send(d, g.someTree(d), none, "missing operand")
			send(d, g.someTree(d), ast.And(none, clone(none)), "missing operands")
			send(d, g.someTree(d), ast.Fag("ka", none), "missing operand")
			send(d, []ast.Node{}, ast.Fag("ka", ast.True()), "empty model")
			send(d, g.damage(g.someTree(d), d), ast.Fag("ka", ast.True()), "bad node")
		}
		for _, q := range []*ast.Q{ast.Not(ast.True()), ast.And(ast.True(), ast.False()), ast.Or(ast.False(), ast.True()), ast.With("w", ast.True()), ast.Fag("g", ast.True())} {
			g.valid(d, g.someTree(d), q, "nilctx", "no context")
		}
	}
	g.wideValid()
	// one bad node among many
	for n := g.pick(70, 500); n > 0; n-- {
		d := 6 + g.Intn(4)
		tree := g.largeTree(d, []int{20, 40, 66, 100, 140, 260, 300}[g.Intn(7)])
		if g.chance(0.15) {
			d = 10 + g.Intn(60)
			tree = g.spine(d)
		}
		tag := "bad node of a large model"
		if g.chance(0.9) {
			tree = g.damage(tree, d)
		} else {
			tag = "large model"
		}
		q := ast.Fag("ka", ast.True())
		if g.chance(0.8) {
			k := atomKinds[g.Intn(len(atomKinds))]
			for !k.model {
				k = atomKinds[g.Intn(len(atomKinds))]
			}
			q, _, _ = atom(k, forms(k.arity)[g.Intn(1<<k.arity)])
			q = fill(q, d)
		}
		g.valid(d, tree, q, "enc", tag)
	}
	// anywhere in larger queries
	for n := g.pick(1500, 20000); n > 0; n-- {
		d := 1 + g.Intn(4)
		tree := g.tree(d, 9)
		q := g.anyQuery(d)
		tag := "well-formed query"
		if g.chance(0.7) {
			q = g.spoil(q, d)
			tag = "spoilt query"
		}
		if g.chance(0.1) {
			tree, tag = []ast.Node{}, "query over an empty model"
		} else if g.chance(0.15) && len(tree) > 1 {
			tree, tag = g.damage(tree, d), "query over a bad tree"
		}
		via := vias[g.Intn(len(vias))]
		if tag == "well-formed query" && via == "order" {
			via = "enc" // not an order
		}
		if q.Op == "nil" {
			q = ast.Not(q)
		}
		g.valid(d, tree, q, via, tag)
	}
}
