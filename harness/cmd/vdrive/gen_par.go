package main

import (
	"bufio"
	"bytes"
	"encoding/json"

	"verif/harness/ast"
)

func init() {
	generators["C23e"] = genC23evals
	generators["C23f"] = genC23free
	generators["C23s"] = genC23sched
}

// made collects what a generator would emit.
func (g *Gen) made(f func()) []json.RawMessage {
	var b bytes.Buffer
	old, n := g.w, g.n
	g.w = bufio.NewWriter(&b)
	f()
	check(g.w.Flush())
	g.w, g.n = old, n
	var r []json.RawMessage
	for _, l := range bytes.Split(b.Bytes(), []byte("\n")) {
		if len(l) > 0 {
			r = append(r, append(json.RawMessage{}, l...))
		}
	}
	return r
}

// evaluation is one of those side by side: a query to encode and ask about,
// or explanations to compute.
func (g *Gen) evaluation(jobs float64, d int, tree []ast.Node) json.RawMessage {
	return g.made(func() {
		if g.chance(jobs) {
			var js []job
			for n := 1 + g.Intn(2); n > 0; n-- {
				js = append(js, g.job(d, tree))
			}
			g.emit(Obj{"kind": "explain", "d": d, "tree": tree, "style": g.Intn(3), "jobs": js})
			return
		}
		o := qopt{d: d, tree: tree, q: g.anyQuery(d), gv: []string{"x"}, grid: true}
		if d > 2 {
			o.grid = false
			o.pins = g.pinsFor(d, 8, []string{"x"}, nil, nodeInsts(d, tree))
		}
		g.query(o)
	})[0]
}

func (g *Gen) evaluations(n int, jobs float64) ([]json.RawMessage, bool) {
	d := 1 + g.Intn(3)
	tree := g.tree(d, 11)
	var r []json.RawMessage
	if g.chance(0.25) { // the same one several times
		e := g.evaluation(jobs, d, tree)
		for ; n > 0; n-- {
			r = append(r, e)
		}
		return r, true
	}
	for ; n > 0; n-- {
		if g.chance(0.5) { // another model
			if g.chance(0.4) {
				d = 1 + g.Intn(3)
			}
			tree = g.tree(d, 11)
		}
		r = append(r, g.evaluation(jobs, d, tree))
	}
	return r, g.chance(0.3)
}

// genC23evals makes evaluations that get their schedules elsewhere.
func genC23evals(g *Gen) {
	for k := g.pick(500, 4000); k > 0; k-- {
		for n := 2; n <= 3; n++ {
			es, share := g.evaluations(n, 0.75)
			g.emit(Obj{"n": n, "evals": es, "share": share})
		}
	}
}

// genC23sched makes evaluations that take turns at random points.
func genC23sched(g *Gen) {
	for k := g.pick(700, 6000); k > 0; k-- {
		es, share := g.evaluations(2+g.Intn(2), 0.15)
		g.emit(Obj{"kind": "par", "mode": "coop", "sched": []schedOp{}, "seed": g.Int63n(1 << 40), "reps": 1, "share": share,
			"pre": g.Intn(3), "evals": es, "tag": "taking turns at random"})
	}
}

// genC23free makes evaluations that run freely side by side.
func genC23free(g *Gen) {
	for k := g.pick(250, 2500); k > 0; k-- {
		es, share := g.evaluations(2+g.Intn(7), 0.2)
		g.emit(Obj{"kind": "par", "mode": "free", "sched": []schedOp{}, "seed": 0, "reps": 1 + g.Intn(4), "share": share,
			"pre": g.Intn(3), "evals": es, "tag": "at the same time"})
	}
}
