package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"

	"verif/harness/ast"
)

// Gen writes stimuli.
type Gen struct {
	*rand.Rand
	prop string
	tier string
	w    *bufio.Writer
	n    int

	rules []string // which rules of a specification an event is about
}

func newGen(prop string, seed int64, tier string, w *bufio.Writer) *Gen {
	return &Gen{Rand: rand.New(rand.NewSource(seed*7919 + int64(len(prop)))), prop: prop, tier: tier, w: w}
}

func (g *Gen) thorough() bool { return g.tier == "thorough" }

// pick returns a number of cases: a few times a in the quick tier and b in the
// thorough one.
func (g *Gen) pick(a, b int) int {
	if g.thorough() {
		return b
	}
	return min(b, 4*a)
}

func (g *Gen) emit(o Obj) {
	g.n++
	if _, ok := o["id"]; !ok {
		o["id"] = fmt.Sprintf("%s-%d", g.prop, g.n)
	}
	b, err := json.Marshal(o)
	check(err)
	_, err = g.w.Write(append(b, '\n'))
	check(err)
}

func (g *Gen) chance(p float64) bool { return g.Float64() < p }

// inst is a random partial instance.
func (g *Gen) inst(d int) ast.Inst {
	x := make(ast.Inst, d)
	bot := []float64{0, 0.15, 0.33, 0.6, 0.9}[g.Intn(5)]
	for i := range x {
		if g.chance(bot) {
			continue
		}
		x[i] = 1 + g.Intn(2)
	}
	return x
}

func (g *Gen) fullInst(d int) ast.Inst {
	x := make(ast.Inst, d)
	for i := range x {
		x[i] = 1 + g.Intn(2)
	}
	return x
}

// near is an instance a few changes away from x.
func (g *Gen) near(x ast.Inst) ast.Inst {
	y := append(ast.Inst{}, x...)
	for k := g.Intn(3); k > 0; k-- {
		y[g.Intn(len(y))] = g.Intn(3)
	}
	return y
}

// weaker is x with some features forgotten.
func (g *Gen) weaker(x ast.Inst) ast.Inst {
	y := append(ast.Inst{}, x...)
	for i := range y {
		if g.chance(0.3) {
			y[i] = 0
		}
	}
	return y
}

// sameCount is an instance with as many undefined features as x, give or take.
func (g *Gen) sameCount(x ast.Inst, off int) ast.Inst {
	n := off
	for _, f := range x {
		if f == 0 {
			n++
		}
	}
	y := g.fullInst(len(x))
	for _, i := range g.Perm(len(x)) {
		if n <= 0 {
			break
		}
		y[i] = 0
		n--
	}
	return y
}

// related is an instance in some interesting relation to x.
func (g *Gen) related(x ast.Inst) ast.Inst {
	switch g.Intn(6) {
	case 0:
		return g.near(x)
	case 1:
		return g.weaker(x)
	case 2:
		return g.sameCount(x, g.Intn(3)-1)
	case 3:
		y := append(ast.Inst{}, x...)
		for i := range y {
			if y[i] == 0 && g.chance(0.5) {
				y[i] = 1 + g.Intn(2)
			}
		}
		return y
	case 4:
		return append(ast.Inst{}, x...)
	}
	return g.inst(len(x))
}

// shape is a decision tree as a linked structure.
type shape struct {
	leaf bool
	v    bool
	f    int
	z, o *shape
}

func (g *Gen) shape(feats []int, stop float64) *shape {
	if len(feats) == 0 || g.chance(stop) {
		return &shape{leaf: true, v: g.chance(0.5)}
	}
	k := g.Intn(len(feats))
	rest := append(append([]int{}, feats[:k]...), feats[k+1:]...)
	return &shape{f: feats[k], v: g.chance(0.5), z: g.shape(rest, stop), o: g.shape(rest, stop)}
}

func (s *shape) size() int {
	if s.leaf {
		return 1
	}
	return 1 + s.z.size() + s.o.size()
}

// nodes lays the tree out with the root first and the other nodes in random
// order; children usually follow their parent but need not.
func (g *Gen) nodes(s *shape) []ast.Node {
	n := s.size()
	pos := make([]int, n)
	for i := range pos {
		pos[i] = i
	}
	if n > 1 && g.chance(0.7) {
		p := g.Perm(n - 1)
		for i := 1; i < n; i++ {
			pos[i] = 1 + p[i-1]
		}
	}
	ns := make([]ast.Node, n)
	// what leaves carry in place of a feature
	marks := [][]int{{0}, {0}, {-2}, {-1}, {1, 0, 2}, {1 << 20}, {-2, 0, 1, 3, 77}}[g.Intn(7)]
	next := 0
	var lay func(s *shape) int
	lay = func(s *shape) int {
		me := pos[next]
		next++
		if s.leaf {
			ns[me] = ast.Node{V: s.v, F: marks[g.Intn(len(marks))], Z: -1, O: -1}
			return me
		}
		var z, o int
		if g.chance(0.5) {
			z = lay(s.z)
			o = lay(s.o)
		} else {
			o = lay(s.o)
			z = lay(s.z)
		}
		ns[me] = ast.Node{V: s.v, F: s.f, Z: z, O: o}
		return me
	}
	lay(s)
	return ns
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// tree is a random tree with at most max nodes, grown leaf by leaf.
func (g *Gen) tree(d, max int) []ast.Node {
	if g.chance(0.04) {
		return g.nodes(&shape{leaf: true, v: g.chance(0.5)})
	}
	feats := seq(d)
	for len(feats) > 2 && g.chance(0.3) { // decide fewer features
		k := g.Intn(len(feats))
		feats = append(append([]int{}, feats[:k]...), feats[k+1:]...)
	}
	type open struct {
		s    *shape
		left []int
	}
	root := &shape{leaf: true, v: g.chance(0.5)}
	leaves := []open{{root, feats}}
	deep := g.chance(0.3) // prefer the newest leaf: long paths
	limit := max
	if g.chance(0.5) {
		limit = 1 + g.Intn(max)
	}
	for n := 1; n+2 <= limit && len(leaves) > 0; {
		k := g.Intn(len(leaves))
		if deep && g.chance(0.8) {
			k = len(leaves) - 1
		}
		l := leaves[k]
		leaves = append(leaves[:k], leaves[k+1:]...)
		if len(l.left) == 0 {
			continue
		}
		j := g.Intn(len(l.left))
		rest := append(append([]int{}, l.left[:j]...), l.left[j+1:]...)
		l.s.leaf, l.s.f = false, l.left[j]
		l.s.z = &shape{leaf: true, v: g.chance(0.5)}
		l.s.o = &shape{leaf: true, v: g.chance(0.5)}
		leaves = append(leaves, open{l.s.z, rest}, open{l.s.o, rest})
		n += 2
	}
	if g.chance(0.05) { // one class only
		v := g.chance(0.5)
		var paint func(*shape)
		paint = func(s *shape) {
			if s.leaf {
				s.v = v
				return
			}
			paint(s.z)
			paint(s.o)
		}
		paint(root)
	}
	return g.nodes(root)
}

// spine is a path-like tree deciding every feature once.
func (g *Gen) spine(d int) []ast.Node {
	p := g.Perm(d)
	s := &shape{leaf: true, v: g.chance(0.5)}
	for _, f := range p {
		l := &shape{leaf: true, v: g.chance(0.5)}
		if g.chance(0.5) {
			s = &shape{f: f, z: s, o: l}
		} else {
			s = &shape{f: f, z: l, o: s}
		}
	}
	return g.nodes(s)
}

// allShapes lists every read-once tree over the features.
func allShapes(feats []int) []*shape {
	r := []*shape{{leaf: true, v: false}, {leaf: true, v: true}}
	for k, f := range feats {
		rest := append(append([]int{}, feats[:k]...), feats[k+1:]...)
		sub := allShapes(rest)
		for _, z := range sub {
			for _, o := range sub {
				r = append(r, &shape{f: f, z: z, o: o})
			}
		}
	}
	return r
}

// leafTree is the smallest model of any dimension.
func leafTree() []ast.Node { return []ast.Node{{V: true, Z: -1, O: -1}} }

// dims returns a dimension for random cases, mostly moderate, sometimes at a
// power of two or beyond.
func (g *Gen) dim(max int) int {
	if g.chance(0.12) {
		ds := []int{16, 20, 24, 31, 32, 33, 40, 64, 65, 100}
		d := ds[g.Intn(len(ds))]
		if d <= max {
			return d
		}
	}
	m := 13
	if m > max {
		m = max
	}
	return 1 + g.Intn(m)
}

// pref is a random preference: distinct features in any order and number.
func (g *Gen) pref(d int) []int {
	p := g.Perm(d)
	switch g.Intn(4) {
	case 0:
		return p
	case 1:
		return p[:g.Intn(d+1)]
	case 2:
		return p[:min(d, 1+g.Intn(3))]
	}
	return p[:g.Intn(d)+1]
}

// allPrefs lists every sequence of distinct features.
func allPrefs(d int) [][]int {
	r := [][]int{{}}
	var rec func(cur []int)
	rec = func(cur []int) {
		for f := 0; f < d; f++ {
			used := false
			for _, c := range cur {
				used = used || c == f
			}
			if used {
				continue
			}
			n := append(append([]int{}, cur...), f)
			r = append(r, n)
			rec(n)
		}
	}
	rec(nil)
	return r
}

// query emits a query stimulus. vars are declared in front of the formula.
type qopt struct {
	d     int
	tree  []ast.Node
	q     *ast.Q
	gv    []string
	gc    []string
	bind  string
	grid  bool
	pins  []pin
	mode  string
	watch string
	hist  []histOp
	twice bool
	tag   string
}

func (g *Gen) query(o qopt) {
	if o.tree == nil { // the model must not matter
		o.tree = leafTree()
		if g.chance(0.65) {
			o.tree = g.tree(o.d, 7)
		}
	}
	if o.bind == "" {
		o.bind = "scope"
	}
	if o.pins == nil {
		o.pins = []pin{}
	}
	for i := range o.pins {
		if o.pins[i].VS == nil {
			o.pins[i].VS = map[string]ast.Inst{}
		}
		if o.pins[i].CS == nil {
			o.pins[i].CS = map[string]ast.Inst{}
		}
	}
	nz := func(s []string) []string {
		if s == nil {
			return []string{}
		}
		return s
	}
	if g.chance(0.03) {
		f := g.lengthen()
		l := func(n string) string {
			if n == "" {
				return n
			}
			return f(n)
		}
		list := func(ns []string) (r []string) {
			for _, n := range ns {
				r = append(r, l(n))
			}
			return
		}
		o.q = clone(o.q)
		for _, p := range parts(o.q) {
			for i := range p.T {
				p.T[i].N = l(p.T[i].N)
			}
			p.V, p.C = l(p.V), l(p.C)
		}
		o.gv, o.gc, o.watch = list(o.gv), list(o.gc), l(o.watch)
		ps := make([]pin, len(o.pins))
		for i, p := range o.pins {
			ps[i] = pin{map[string]ast.Inst{}, map[string]ast.Inst{}}
			for n, x := range p.VS {
				ps[i].VS[l(n)] = x
			}
			for n, x := range p.CS {
				ps[i].CS[l(n)] = x
			}
		}
		o.pins = ps
	}
	e := Obj{"kind": "query", "d": o.d, "tree": o.tree, "q": o.q, "style": g.Intn(3),
		"gv": nz(o.gv), "gc": nz(o.gc), "bind": o.bind, "grid": o.grid, "pins": o.pins,
		"mode": o.mode, "watch": o.watch}
	if o.hist != nil {
		e["hist"] = o.hist
	}
	if o.twice {
		e["twice"] = true
	}
	if g.chance(0.06) { // the context is used for something else as well
		e["base"] = []int{100, 120, 250, 1000, 4090, 32760, 65530, 1 << 20, 1<<31 - 60, 1<<32 - 60}[g.Intn(10)] + g.Intn(9)
	}
	if o.tag != "" {
		e["tag"] = o.tag
	}
	g.emit(e)
}

// declare puts declarations of the variables in front of a formula.
func declare(q *ast.Q, vars ...string) *ast.Q {
	for i := len(vars) - 1; i >= 0; i-- {
		q = ast.With(vars[i], q)
	}
	return q
}

// atomKind describes an atomic component.
type atomKind struct {
	op    string
	arity int
	model bool // needs the tree
}

var atomKinds = []atomKind{
	{"sub", 2, false}, {"lel", 2, false}, {"cons", 2, false}, {"full", 1, false},
	{"hepr", 2, false}, {"leh", 3, false},
	{"isnode", 1, true}, {"allcomp", 1, true}, {"dfs", 1, true},
}

// forms lists the constant/variable forms of an arity.
func forms(n int) []string {
	r := []string{""}
	for ; n > 0; n-- {
		var s []string
		for _, f := range r {
			s = append(s, f+"c", f+"v")
		}
		r = s
	}
	return r
}

// atom makes an atom of a kind and form over fresh names x, y, z / a, b, c.
func atom(k atomKind, form string) (q *ast.Q, vs, cs []string) {
	vn, cn := []string{"x", "y", "z"}, []string{"ka", "kb", "kc"}
	var ts []ast.Term
	for i, f := range form {
		if f == 'v' {
			ts = append(ts, ast.V(vn[i]))
			vs = append(vs, vn[i])
		} else {
			ts = append(ts, ast.C(cn[i], nil))
			cs = append(cs, cn[i])
		}
	}
	return &ast.Q{Op: k.op, T: ts}, vs, cs
}

func polarity(q *ast.Q, neg bool) *ast.Q {
	if neg {
		return ast.Not(q)
	}
	return q
}

// randAtom is a random atom over the given variables and constants. leh is
// left out unless asked for (it is expensive in high dimensions).
func (g *Gen) randAtom(d int, vars []string, consts []ast.Term, model, leh bool) *ast.Q {
	for {
		k := atomKinds[g.Intn(len(atomKinds))]
		if k.model && !model || k.op == "leh" && !leh {
			continue
		}
		q := &ast.Q{Op: k.op}
		for i := 0; i < k.arity; i++ {
			if len(vars) > 0 && (len(consts) == 0 || g.chance(0.65)) {
				q.T = append(q.T, ast.V(vars[g.Intn(len(vars))]))
			} else {
				q.T = append(q.T, consts[g.Intn(len(consts))])
			}
		}
		q.LV = g.chance(0.5)
		if k.op == "hepr" {
			q.Pref = g.pref(d)
		}
		return q
	}
}

// randCls is a random user-defined clause component.
func (g *Gen) randCls(d int, vars []string) *ast.Q {
	q := &ast.Q{Op: "cls"}
	for _, v := range vars {
		q.T = append(q.T, ast.V(v))
	}
	n := g.Intn(4)
	for ; n > 0; n-- {
		cl := []ast.Lit{}
		k := g.Intn(4)
		if g.chance(0.15) {
			k = 4 + g.Intn(6)
		}
		for ; k > 0; k-- {
			cl = append(cl, ast.Lit{T: 1 + g.Intn(len(vars)), I: 1 + g.Intn(d), Val: g.Intn(3), Pos: g.chance(0.6)})
		}
		q.Cl = append(q.Cl, cl)
	}
	return q
}

// randBool is a random combination over leaves.
func (g *Gen) randBool(depth int, leaf func() *ast.Q) *ast.Q {
	if depth == 0 || g.chance(0.12) {
		return leaf()
	}
	switch g.Intn(5) {
	case 0, 1:
		return ast.And(g.randBool(depth-1, leaf), g.randBool(depth-1, leaf))
	case 2, 3:
		return ast.Or(g.randBool(depth-1, leaf), g.randBool(depth-1, leaf))
	}
	return ast.Not(g.randBool(depth-1, leaf))
}

// pinsFor makes pins with values related to each other and to the hints.
func (g *Gen) pinsFor(d, n int, vars, consts []string, hints []ast.Inst) []pin {
	ps := make([]pin, n)
	for i := range ps {
		p := pin{map[string]ast.Inst{}, map[string]ast.Inst{}}
		var prev []ast.Inst
		if len(hints) > 0 && g.chance(0.6) {
			prev = append(prev, hints[g.Intn(len(hints))])
		}
		value := func() ast.Inst {
			var x ast.Inst
			if len(prev) > 0 && g.chance(0.85) {
				x = g.related(prev[g.Intn(len(prev))])
			} else {
				x = g.inst(d)
			}
			prev = append(prev, x)
			return x
		}
		for _, c := range consts {
			p.CS[c] = value()
		}
		for _, v := range vars {
			p.VS[v] = value()
		}
		ps[i] = p
	}
	return ps
}

// nodeInsts lists the partial instances of the nodes of a tree.
func nodeInsts(d int, ns []ast.Node) []ast.Inst {
	var r []ast.Inst
	var walk func(u int, x ast.Inst)
	walk = func(u int, x ast.Inst) {
		r = append(r, x)
		n := ns[u]
		if n.Z < 0 || n.O < 0 {
			return
		}
		z := append(ast.Inst{}, x...)
		z[n.F] = 1
		o := append(ast.Inst{}, x...)
		o[n.F] = 2
		walk(n.Z, z)
		walk(n.O, o)
	}
	walk(0, make(ast.Inst, d))
	return r
}
