package main

import (
	"bufio"
	"encoding/json"
	"os"
	"strings"

	"verif/harness/ast"
)

func init() { generators["C25"] = genC25 }

// skeleton is an operation of a session without its queries.
type skeleton struct {
	Op string `json:"op"`
	C  int    `json:"c"`
	S  int    `json:"s"`
	K  string `json:"k"` // "good", "bad", "fault"
	Of int    `json:"of"`
}

// skeletons reads those made from the specification.
func skeletons() [][]skeleton {
	var r [][]skeleton
	p := os.Getenv("VDRIVE_HISTORIES")
	if p == "" {
		return nil
	}
	f, err := os.Open(p)
	check(err)
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		var h []skeleton
		check(json.Unmarshal(s.Bytes(), &h))
		r = append(r, h)
	}
	check(s.Err())
	return r
}

// wrong is a formula that can not be encoded.
func (g *Gen) wrong(d int) *ast.Q {
	switch g.Intn(4) {
	case 0:
		return &ast.Q{Op: "nil"}
	case 1:
		return ast.Atom("sub", ast.C("", g.inst(d+1)), ast.C("", g.inst(d)))
	case 2:
		return ast.Atom("cons", ast.C("", g.inst(d)), ast.C("elsewhere", nil))
	}
	return &ast.Q{Op: "hepr", T: []ast.Term{ast.C("", g.fullInst(d)), ast.C("", g.fullInst(d))}, Pref: []int{0, 0}}
}

// hurt puts a formula that can not be encoded somewhere into another one.
func (g *Gen) hurt(q *ast.Q, d int) *ast.Q {
	r := clone(q)
	ps := parts(r)
	p := ps[g.Intn(len(ps))]
	c := *p
	w := g.wrong(d)
	switch g.Intn(3) {
	case 0:
		*p = *ast.And(&c, w)
	case 1:
		*p = *ast.Or(&c, w)
	case 2:
		*p = *ast.And(w, &c)
	}
	return r
}

// sessQuery is a query over one or two variables named with a suffix.
func (g *Gen) sessQuery(d int, sfx string) (*ast.Q, []string) {
	var q *ast.Q
	for q == nil || q.Size() > 11 {
		q = g.anyQuery(d)
	}
	q = clone(q)
	vs := []string{"x"}
	if g.chance(0.15) {
		q.A = ast.And(q.A, ast.And(g.randAtom(d, []string{"x"}, []ast.Term{ast.C("", g.inst(d))}, true, false),
			ast.Not(g.randAtom(d, []string{"x"}, []ast.Term{ast.C("", g.inst(d))}, true, false))))
	}
	if g.chance(0.4) {
		a := g.randAtom(d, []string{"x", "w"}, []ast.Term{ast.C("", g.inst(d))}, true, false)
		q.A = ast.And(q.A, a)
		q = ast.With("w", q)
		vs = append(vs, "w")
	}
	m := map[string]string{}
	for _, n := range []string{"x", "y", "w", "g", "h"} {
		m[n] = n + sfx
	}
	rename(q, m)
	for i := range vs {
		vs[i] = m[vs[i]]
	}
	return q, vs
}

// hasClauses reports whether an operation uses formulas of the harness, which
// need the dimension they were made for.
func hasClauses(o Obj) bool {
	b, err := json.Marshal([]any{o["q"], o["comb"]})
	check(err)
	return strings.Contains(string(b), `"op":"cls"`)
}

func genC25(g *Gen) {
	for n := g.pick(1, 3); n > 0; n-- {
		for _, k := range []int{70, 140, 140, 270, 530} {
			g.marathon(k + g.Intn(9))
		}
	}
	for _, h := range skeletons() {
		nt := 1 + g.Intn(2)
		ds := []int{}
		trees := [][]ast.Node{}
		for len(trees) < nt {
			ds = append(ds, 1+g.Intn(2))
			if len(ds) == 2 && g.chance(0.6) {
				ds[1] = ds[0]
			}
			trees = append(trees, g.tree(ds[len(trees)], 7))
		}
		ctxs := []int{1, 1 + g.Intn(nt)}
		ops := []Obj{}
		index := make([]int, len(h)+1) // where an operation of the skeleton went
		vars := map[int][]string{}
		type use struct {
			sfx   string
			c, ep int
		}
		used := map[use]bool{} // suffixes of names a context has since its last reset
		epoch := map[int]int{}
		suffix := map[int]string{}
		again := g.chance(0.7) // do contexts use the same names?
		leaf := 0
		for k, s := range h {
			if s.Op == "end" {
				break
			}
			d := ds[ctxs[s.C-1]-1]
			o := Obj{"op": s.Op, "c": s.C, "s": s.S, "of": 0, "fault": "none", "vars": []string{}, "layout": g.layout()}
			if g.chance(0.5) {
				o["layout"] = Obj{"seed": g.Int63()}
			}
			// An optimisation starts with a reset unless it fails before that.
			if s.Op == "reset" || s.Op == "optim" && s.K == "good" {
				epoch[s.C]++
			}
			sfx := itoa(k + 1)
			if g.chance(0.3) {
				sfx = "#" + sfx
			}
			if again {
				sfx = ""
				for n := 1; used[use{sfx, s.C, epoch[s.C]}]; n++ {
					sfx = itoa(n)
				}
			}
			if s.K == "fault" {
				o["fault"] = []string{"code", "signal", "gone", "tmp"}[g.Intn(4)]
			}
			src := k + 1
			if s.Of > 0 && s.Op != "values" {
				src = s.Of
			}
			switch s.Op {
			case "values":
				if index[s.Of] == 0 {
					continue
				}
				o["of"] = index[s.Of]
				all := vars[s.Of]
				var vs []string
				for n := 1 + g.Intn(3); n > 0; n-- {
					vs = append(vs, all[g.Intn(len(all))])
				}
				if g.chance(0.4) {
					vs = all
				}
				o["vars"] = vs
			case "step", "sat":
				if src != k+1 {
					sfx = suffix[src]
					p := ops[index[src]-1]
					if ds[ctxs[p["c"].(int)-1]-1] != d && hasClauses(p) {
						continue // names features
					}
				}
				u := use{sfx, s.C, epoch[s.C]}
				if used[u] {
					continue // its names are not new
				}
				used[u] = true
				suffix[k+1] = sfx
				if src != k+1 {
					p := ops[index[src]-1]
					o["of"] = index[src]
					for _, f := range []string{"q", "comb"} {
						if p[f] != nil {
							o[f] = p[f]
						}
					}
					vars[k+1] = vars[src]
					break
				}
				if s.Op == "step" {
					q, vs := g.sessQuery(d, sfx)
					if s.K == "bad" {
						q = g.hurt(q, d)
					}
					o["q"], vars[k+1] = q, vs
					break
				}
				n := 0
				c := g.comb(g.Intn(3), func() *comb {
					n++
					leaf++
					q, _ := g.sessQuery(d, sfx+"."+itoa(n))
					if s.K == "bad" && g.chance(0.6) {
						q = g.hurt(q, d)
					}
					return &comb{Op: "leaf", ID: leaf, Neg: g.chance(0.4), Q: q}
				})
				o["comb"] = c
			case "optim":
				used[use{sfx, s.C, epoch[s.C]}] = true
				v := "x" + sfx
				fresh := []string{"y" + sfx}
				ks := []ast.Term{ast.C("", g.inst(d))}
				var q *ast.Q
				for q == nil || q.Size() > 10 {
					fresh = []string{"y" + sfx}
					q = g.randScoped(d, 1+g.Intn(2), []string{v}, ks, &fresh, []string{"g" + sfx, "h" + sfx}, true)
				}
				ord, full := g.strictOrder(d, v)
				if full {
					q = ast.And(ast.Atom("full", ast.V(v)), q)
				}
				if s.K == "bad" {
					q = g.hurt(q, d)
				}
				if g.chance(0.15) {
					ord = g.under(ord, v)
				}
				o["q"], o["o"], o["v"] = q, ord, v
			}
			ops = append(ops, o)
			index[k+1] = len(ops)
		}
		// Some evaluations are made once more, after a reset.
		for n := g.Intn(4); n > 0 && len(ops) > 0; n-- {
			j := 1 + g.Intn(len(ops))
			p := ops[j-1]
			d, c := ds[ctxs[p["c"].(int)-1]-1], 1+g.Intn(2)
			if g.chance(0.7) {
				c = p["c"].(int)
			}
			if p["op"] != "step" && p["op"] != "sat" || p["fault"] != "none" && g.chance(0.8) ||
				ds[ctxs[c-1]-1] != d && hasClauses(p) {
				continue
			}
			o := Obj{}
			for k, v := range p {
				o[k] = v
			}
			o["c"], o["s"] = c, 1+g.Intn(2)
			if o["of"] == 0 && g.chance(0.7) { // the same value, and not an equal one
				o["of"] = j
			}
			ops = append(ops, Obj{"op": "reset", "c": c, "s": 0, "of": 0, "fault": "none", "vars": []string{}, "layout": g.layout()}, o)
			if o["op"] == "step" && g.chance(0.6) {
				ops = append(ops, Obj{"op": "values", "c": c, "s": o["s"], "of": len(ops), "fault": "none",
					"vars": varsOfStep(o["q"].(*ast.Q)), "layout": g.layout()})
			}
		}
		g.emit(Obj{"kind": "session", "ds": ds, "trees": trees, "ctxs": ctxs, "solvers": 2, "style": g.Intn(3), "ops": ops,
			"tag": "session"})
	}
}

// marathon is a session of many small steps, most of them with one solver.
func (g *Gen) marathon(n int) {
	ds := []int{1, 1}
	trees := [][]ast.Node{g.tree(1, 3), g.tree(1, 3)}
	ctxs := []int{1, 1 + g.Intn(2)}
	resets := []float64{0, 0.03, 1}[g.Intn(3)]
	other := []float64{0, 0.02, 0.3}[g.Intn(3)]
	faults := []float64{0, 0, 0.05}[g.Intn(3)]
	pool := make([]*ast.Q, 12)
	for i := range pool {
		for pool[i] == nil || pool[i].Size() > 7 {
			pool[i] = g.anyQuery(1)
		}
	}
	next := []int{0, 0}
	var ops []Obj
	add := func(op string, c, s int) Obj {
		o := Obj{"op": op, "c": c, "s": s, "of": 0, "fault": "none", "vars": []string{}, "layout": Obj{"seed": g.Int63()}}
		ops = append(ops, o)
		return o
	}
	for ; n > 0; n-- {
		c, s := 1, 1
		if g.chance(other) {
			c = 2
		}
		if g.chance(other) {
			s = 2
		}
		if g.chance(resets) {
			add("reset", c, 0)
			next[c-1] = 0
		}
		next[c-1]++
		m := map[string]string{}
		for _, v := range []string{"x", "y", "w", "g", "h"} {
			m[v] = v + itoa(next[c-1])
		}
		mk := func() *ast.Q {
			q := clone(pool[g.Intn(len(pool))])
			rename(q, m)
			return q
		}
		if g.chance(0.1) {
			o := add("sat", c, s)
			q := mk()
			o["comb"] = g.comb(0, func() *comb { return &comb{Op: "leaf", ID: n, Neg: g.chance(0.4), Q: q} })
			continue
		}
		o := add("step", c, s)
		q := mk()
		o["q"] = q
		if g.chance(faults) {
			o["fault"] = []string{"code", "signal", "gone", "tmp"}[g.Intn(4)]
		}
		if g.chance(0.3) || n < 3 {
			k := len(ops)
			add("values", c, s)
			ops[k]["of"], ops[k]["vars"] = k, varsOfStep(q)
		}
	}
	g.emit(Obj{"kind": "session", "ds": ds, "trees": trees, "ctxs": ctxs, "solvers": 2, "style": g.Intn(3), "ops": ops,
		"tag": "long session"})
}

// varsOfStep are the variables a query declares outside of quantifiers.
func varsOfStep(q *ast.Q) []string {
	r := []string{}
	for ; q.Op == "with"; q = q.A {
		r = append(r, q.V)
	}
	return r
}
