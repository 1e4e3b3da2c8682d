package main

import (
	"verif/harness/ast"
	"verif/harness/layout"
)

func init() {
	generators["C14"] = genC14
	generators["C15"] = genC15
	generators["C16"] = genC16
}

func (g *Gen) layout() layout.L {
	pick := func(s ...string) string { return s[g.Intn(len(s))] }
	return layout.L{
		Per: []int{0, 1, 2, 3, 4, 5, 7, 10, 11, 26}[g.Intn(10)], Sep: pick(" ", " ", "  ", "\t"),
		Lead: pick(" ", " ", "  ", "\t"), End: pick("", "", " ", "\t", "  "), CR: g.chance(0.2),
		Order: pick("up", "up", "down", "mix", "neg"), Comments: g.chance(0.5), Zero: pick("own", "last"),
		Blank: g.chance(0.3), NoEOL: g.chance(0.25), Late: g.chance(0.2), Pad: []int{0, 0, 0, 0, 0, 0, 0, 70000}[g.Intn(8)],
		Seed: g.Int63(),
	}
}

func (g *Gen) solver(d int, tree []ast.Node, ops []solverStep, tag string) {
	for i := range ops {
		if ops[i].Fault == "" {
			ops[i].Fault = "none"
		}
	}
	g.emit(Obj{"kind": "solver", "rules": g.rules, "d": d, "tree": tree, "style": g.Intn(3), "pre": g.Intn(5), "ops": ops, "tag": tag})
}

func (g *Gen) vals(d int, names []string) map[string]ast.Inst {
	m := map[string]ast.Inst{}
	for _, n := range names {
		m[n] = g.inst(d)
	}
	return m
}

// genC14: every exit code with every text a solver might print, every signal
// and every way not to start.
func genC14(g *Gen) {
	g.rules = []string{"verdict"}
	names := []string{"x"}
	one := func(o solverStep) {
		d := 1 + g.Intn(2)
		o.Op, o.Names, o.Q, o.Vals = "step", names, declare(ast.Atom("full", ast.V("x")), "x"), g.vals(d, names)
		if o.Fault == "limit" && g.chance(0.5) { // a formula of semantic clauses only
			o.Q = &ast.Q{Op: "cls", T: []ast.Term{ast.V("x")}}
			for k := 0; k < 12; k++ {
				o.Q.Cl = append(o.Q.Cl, []ast.Lit{{T: 1, I: 1, Val: k % 3, Pos: k%2 == 0}})
			}
		}
		o.Layout = g.layout()
		o.Junk = g.Intn(4)
		g.solver(d, leafTree(), []solverStep{o}, "single step")
	}
	texts := []string{"sat", "unsat", "none"}
	for c := 0; c < 256; c++ {
		for _, t := range texts {
			if c == 10 && t != "sat" || c == 20 && t == "sat" {
				continue
			}
			one(solverStep{Out: solverOut{K: "exit", Code: c}, Stdout: t, Stderr: []int{0, 0, 50, 100000}[g.Intn(4)]})
		}
	}
	for _, s := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 26, 27, 30, 31} {
		for _, t := range texts {
			one(solverStep{Out: solverOut{K: "signal", Sig: s}, Stdout: t})
		}
	}
	for _, k := range []string{"gone", "noexec", "dir", "garbage"} {
		one(solverStep{Out: solverOut{K: k}, Stdout: "sat"})
	}
	for _, f := range []string{"enc", "tmpdir", "tmpfile", "rmdir", "limit", "limit", "limit", "limit", "limit", "limit"} {
		for n := 0; n < 3; n++ {
			one(solverStep{Out: solverOut{K: "exit", Code: []int{10, 20, 0}[n]}, Stdout: texts[n], Fault: f, Third: n})
		}
	}
	g.solver(1, leafTree(), []solverStep{{Op: "open"}}, "missing executable")
	// Solvers that take their time.
	ds := []int{1200, 2500, 5500, 11000}
	if g.thorough() {
		ds = []int{1200, 2500, 5500, 11000, 16000, 22000}
	}
	for _, ms := range ds {
		one(solverStep{Out: solverOut{K: "exit", Code: []int{20, 0}[g.Intn(2)]}, Stdout: "none", Delay: ms})
		one(solverStep{Out: solverOut{K: "exit", Code: 10}, Stdout: "sat", Delay: ms})
	}
}

// genC15: one or a few answers in every layout, over wider instances.
func genC15(g *Gen) {
	g.rules = []string{"values"}
	for n := g.pick(500, 6000); n > 0; n-- {
		d := []int{1, 2, 3, 4, 7, 9, 10, 11, 34, 40}[g.Intn(10)]
		var ops []solverStep
		for k := 1 + g.Intn(3); k > 0; k-- {
			names := []string{"x" + itoa(k), "y" + itoa(k), "botcx" + itoa(k), itoa(k), itoa(10 + k)}[:1+g.Intn(5)]
			var q *ast.Q = ast.True()
			if g.chance(0.5) {
				q = ast.Atom("lel", ast.V(names[0]), ast.C("", g.inst(d)))
			}
			o := solverStep{Op: "step", Ctx: g.Intn(2), Q: declare(q, names...), Names: names, Vals: g.vals(d, names), Junk: g.Intn(4),
				Out: solverOut{K: "exit", Code: 10}, Stdout: "sat", Layout: g.layout()}
			if g.chance(0.2) {
				o.Out.K, o.Stdout = "solve", "none"
			}
			if n%16 == 0 && o.Stdout == "sat" { // lines longer than any buffer
				o.Extra = []int{3000, 20000, 33000, 66000, 140000}[g.Intn(5)] + g.Intn(3000)
				o.Junk = g.Intn(3)
				o.Layout.Per = []int{0, 0, 0, 12000, 100}[g.Intn(5)]
			}
			if n%24 == 1 {
				o.Base = []int{100, 250, 4090, 32760, 65530, 131000}[g.Intn(6)]
			}
			ops = append(ops, o)
			for j := g.Intn(3); j >= 0; j-- {
				var vs []string
				for i := g.Intn(5); i > 0; i-- {
					vs = append(vs, names[g.Intn(len(names))])
				}
				if g.chance(0.4) {
					vs = names
				}
				ops = append(ops, solverStep{Op: "values", Vars: vs})
			}
		}
		g.solver(d, leafTree(), ops, "layouts")
	}
}

// genC16: real queries answered truthfully.
func genC16(g *Gen) {
	g.rules = []string{"files"}
	for n := g.pick(250, 3000); n > 0; n-- {
		d := 1 + g.Intn(3)
		tree := g.tree(d, 7)
		var ops []solverStep
		for k := 0; k < 1+g.Intn(3); k++ {
			o := solverStep{Op: "step", Ctx: k, Q: g.anyQuery(d), Out: solverOut{K: "solve"}, Stdout: "none", Layout: g.layout()}
			if g.chance(0.25) {
				o.Fault, o.Third = []string{"enc", "rmdir", "limit", "tmpdir"}[g.Intn(4)], g.Intn(3)
			}
			if g.chance(0.15) {
				o.Out = solverOut{K: []string{"gone", "noexec", "garbage", "signal"}[g.Intn(4)], Sig: 9}
			}
			ops = append(ops, o)
		}
		g.solver(d, tree, ops, "real queries")
	}
}
