// Package sat is the harness's own satisfiability solver: a small CDCL solver
// with assumptions (Solver) and an independent DPLL procedure (DPLL) that is
// used to confirm verdicts before anything is reported.
package sat

// A Solver decides clause sets over variables 1..n.
type Solver struct {
	nv      int
	clauses [][]int // literal-coded clauses, original and learnt
	watches [][]int // literal -> clause indices
	assign  []int8  // variable -> 0, 1, -1
	level   []int
	reason  []int
	phase   []int8
	act     []float64
	inc     float64
	trail   []int
	lim     []int
	qhead   int
	heap    []int
	hpos    []int
	seen    []bool
	unsat   bool
	orig    [][]int // clauses as given, for checking models
}

func idx(l int) int {
	if l > 0 {
		return 2 * l
	}
	return -2*l + 1
}

func abs(l int) int {
	if l < 0 {
		return -l
	}
	return l
}

// New returns a solver over nv variables with the given clause lists.
func New(nv int, lists ...[][]int) *Solver {
	for _, cs := range lists {
		for _, c := range cs {
			for _, l := range c {
				if abs(l) > nv {
					nv = abs(l)
				}
			}
		}
	}
	s := &Solver{nv: nv, inc: 1}
	s.watches = make([][]int, 2*nv+2)
	s.assign = make([]int8, nv+1)
	s.level = make([]int, nv+1)
	s.reason = make([]int, nv+1)
	s.phase = make([]int8, nv+1)
	s.act = make([]float64, nv+1)
	s.seen = make([]bool, nv+1)
	s.hpos = make([]int, nv+1)
	for v := 1; v <= nv; v++ {
		s.phase[v] = -1
		s.reason[v] = -1
		s.hpos[v] = -1
	}
	for v := 1; v <= nv; v++ {
		s.push(v)
	}
	for _, cs := range lists {
		for _, c := range cs {
			s.add(c)
		}
	}
	return s
}

func (s *Solver) grow(nv int) {
	for s.nv < nv {
		s.nv++
		s.watches = append(s.watches, nil, nil)
		s.assign = append(s.assign, 0)
		s.level = append(s.level, 0)
		s.reason = append(s.reason, -1)
		s.phase = append(s.phase, -1)
		s.act = append(s.act, 0)
		s.seen = append(s.seen, false)
		s.hpos = append(s.hpos, -1)
		s.push(s.nv)
	}
}

func (s *Solver) val(l int) int8 {
	if l > 0 {
		return s.assign[l]
	}
	return -s.assign[-l]
}

// Add adds a clause between calls of Solve.
func (s *Solver) Add(c []int) {
	s.backtrack(0)
	for _, l := range c {
		s.grow(abs(l))
	}
	s.add(c)
}

func (s *Solver) add(c []int) {
	s.orig = append(s.orig, c)
	if s.unsat {
		return
	}
	var d []int
	for _, l := range c {
		dup := false
		for _, m := range d {
			if m == -l {
				return // tautology
			}
			if m == l {
				dup = true
			}
		}
		if dup {
			continue
		}
		switch s.val(l) {
		case 1:
			return
		case -1:
			continue
		}
		d = append(d, l)
	}
	switch len(d) {
	case 0:
		s.unsat = true
	case 1:
		s.enqueue(d[0], -1)
		if s.propagate() >= 0 {
			s.unsat = true
		}
	default:
		s.attach(d)
	}
}

func (s *Solver) attach(d []int) int {
	ci := len(s.clauses)
	s.clauses = append(s.clauses, d)
	s.watches[idx(d[0])] = append(s.watches[idx(d[0])], ci)
	s.watches[idx(d[1])] = append(s.watches[idx(d[1])], ci)
	return ci
}

func (s *Solver) enqueue(l, reason int) {
	v := abs(l)
	if l > 0 {
		s.assign[v] = 1
	} else {
		s.assign[v] = -1
	}
	s.level[v] = len(s.lim)
	s.reason[v] = reason
	s.trail = append(s.trail, l)
}

func (s *Solver) propagate() int {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		ws := s.watches[idx(-p)]
		j := 0
		for i := 0; i < len(ws); i++ {
			ci := ws[i]
			c := s.clauses[ci]
			if c[0] == -p {
				c[0], c[1] = c[1], c[0]
			}
			if s.val(c[0]) == 1 {
				ws[j] = ci
				j++
				continue
			}
			found := false
			for k := 2; k < len(c); k++ {
				if s.val(c[k]) != -1 {
					c[1], c[k] = c[k], c[1]
					s.watches[idx(c[1])] = append(s.watches[idx(c[1])], ci)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = ci
			j++
			if s.val(c[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[idx(-p)] = ws[:j]
				s.qhead = len(s.trail)
				return ci
			}
			s.enqueue(c[0], ci)
		}
		s.watches[idx(-p)] = ws[:j]
	}
	return -1
}

func (s *Solver) backtrack(lv int) {
	if len(s.lim) <= lv {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lv]; i-- {
		v := abs(s.trail[i])
		s.phase[v] = s.assign[v]
		s.assign[v] = 0
		s.reason[v] = -1
		if s.hpos[v] < 0 {
			s.push(v)
		}
	}
	s.trail = s.trail[:s.lim[lv]]
	s.lim = s.lim[:lv]
	s.qhead = len(s.trail)
}

func (s *Solver) bump(v int) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for u := 1; u <= s.nv; u++ {
			s.act[u] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.up(s.hpos[v])
	}
}

func (s *Solver) analyze(confl int) ([]int, int) {
	learnt := []int{0}
	cnt, p := 0, 0
	i := len(s.trail) - 1
	cur := len(s.lim)
	var clear []int
	for {
		for _, q := range s.clauses[confl] {
			if q == p {
				continue
			}
			v := abs(q)
			if s.seen[v] || s.level[v] == 0 {
				continue
			}
			s.seen[v] = true
			clear = append(clear, v)
			s.bump(v)
			if s.level[v] >= cur {
				cnt++
			} else {
				learnt = append(learnt, q)
			}
		}
		for !s.seen[abs(s.trail[i])] {
			i--
		}
		p = s.trail[i]
		i--
		s.seen[abs(p)] = false
		cnt--
		if cnt == 0 {
			break
		}
		confl = s.reason[abs(p)]
	}
	learnt[0] = -p
	bt := 0
	for k := 1; k < len(learnt); k++ {
		if l := s.level[abs(learnt[k])]; l > bt {
			bt = l
			learnt[1], learnt[k] = learnt[k], learnt[1]
		}
	}
	for _, v := range clear {
		s.seen[v] = false
	}
	return learnt, bt
}

// Solve reports whether the clauses are satisfiable together with the
// assumptions. The model is available through Value until the next call.
func (s *Solver) Solve(assumptions ...int) bool {
	s.backtrack(0)
	for _, a := range assumptions {
		s.grow(abs(a))
	}
	if s.unsat {
		return false
	}
	conflicts, limit := 0, 100
	for {
		confl := s.propagate()
		if confl >= 0 {
			if len(s.lim) == 0 {
				s.unsat = true
				return false
			}
			conflicts++
			learnt, bt := s.analyze(confl)
			s.backtrack(bt)
			if len(learnt) == 1 {
				s.backtrack(0)
				if s.val(learnt[0]) == -1 {
					s.unsat = true
					return false
				}
				if s.val(learnt[0]) == 0 {
					s.enqueue(learnt[0], -1)
				}
			} else {
				ci := s.attach(learnt)
				s.enqueue(learnt[0], ci)
			}
			s.inc /= 0.95
			continue
		}
		if conflicts >= limit {
			conflicts = 0
			limit += limit / 2
			s.backtrack(0)
			continue
		}
		if n := len(s.lim); n < len(assumptions) {
			a := assumptions[n]
			switch s.val(a) {
			case -1:
				return false
			case 1:
				s.lim = append(s.lim, len(s.trail))
			default:
				s.lim = append(s.lim, len(s.trail))
				s.enqueue(a, -1)
			}
			continue
		}
		v := 0
		for len(s.heap) > 0 {
			u := s.pop()
			if s.assign[u] == 0 {
				v = u
				break
			}
		}
		if v == 0 {
			s.check(assumptions)
			return true
		}
		s.lim = append(s.lim, len(s.trail))
		if s.phase[v] > 0 {
			s.enqueue(v, -1)
		} else {
			s.enqueue(-v, -1)
		}
	}
}

// check panics if the model is wrong: a wrong answer of this solver must
// never be taken for a fault of the code under test.
func (s *Solver) check(assumptions []int) {
	for _, a := range assumptions {
		if s.val(a) != 1 {
			panic("sat: assumption not satisfied by model")
		}
	}
	for _, c := range s.orig {
		ok := false
		for _, l := range c {
			if s.val(l) == 1 {
				ok = true
				break
			}
		}
		if !ok {
			panic("sat: clause not satisfied by model")
		}
	}
}

// Value of variable v in the last model.
func (s *Solver) Value(v int) bool { return v <= s.nv && s.assign[v] == 1 }

// NV is the number of variables known to the solver.
func (s *Solver) NV() int { return s.nv }

// SetPhase fixes the preferred values of the variables, to vary the models.
func (s *Solver) SetPhase(f func(v int) bool) {
	s.backtrack(0)
	for v := 1; v <= s.nv; v++ {
		if f(v) {
			s.phase[v] = 1
		} else {
			s.phase[v] = -1
		}
	}
}

func (s *Solver) less(a, b int) bool { return s.act[a] > s.act[b] }

func (s *Solver) push(v int) {
	s.hpos[v] = len(s.heap)
	s.heap = append(s.heap, v)
	s.up(s.hpos[v])
}

func (s *Solver) up(i int) {
	v := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(v, s.heap[p]) {
			break
		}
		s.heap[i] = s.heap[p]
		s.hpos[s.heap[i]] = i
		i = p
	}
	s.heap[i] = v
	s.hpos[v] = i
}

func (s *Solver) pop() int {
	top := s.heap[0]
	s.hpos[top] = -1
	last := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	if len(s.heap) == 0 {
		return top
	}
	i := 0
	for {
		c := 2*i + 1
		if c >= len(s.heap) {
			break
		}
		if c+1 < len(s.heap) && s.less(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !s.less(s.heap[c], last) {
			break
		}
		s.heap[i] = s.heap[c]
		s.hpos[s.heap[i]] = i
		i = c
	}
	s.heap[i] = last
	s.hpos[last] = i
	return top
}

// DPLL decides the clauses with plain unit propagation and splitting. It
// shares no code with Solver and gives up (ok=false) after too many nodes.
func DPLL(lists [][][]int, assumptions []int) (sat, ok bool) {
	n := 0
	for _, cs := range lists {
		for _, c := range cs {
			for _, l := range c {
				if abs(l) > n {
					n = abs(l)
				}
			}
		}
	}
	for _, a := range assumptions {
		if abs(a) > n {
			n = abs(a)
		}
	}
	val := make([]int8, n+1)
	var all [][]int
	for _, cs := range lists {
		all = append(all, cs...)
	}
	occ := make([][]int, 2*n+2)
	for i, c := range all {
		for _, l := range c {
			occ[idx(l)] = append(occ[idx(l)], i)
		}
	}
	get := func(l int) int8 {
		if l > 0 {
			return val[l]
		}
		return -val[-l]
	}
	var trail []int
	set := func(l int) {
		if l > 0 {
			val[l] = 1
		} else {
			val[-l] = -1
		}
		trail = append(trail, l)
	}
	// unit inspects one clause: 1 satisfied, -1 falsified, 0 otherwise, and
	// the only open literal if there is exactly one.
	unit := func(c []int) (int, int) {
		open := 0
		for _, l := range c {
			switch get(l) {
			case 1:
				return 1, 0
			case 0:
				if open != 0 && open != l {
					return 0, 0
				}
				open = l
			}
		}
		if open == 0 {
			return -1, 0
		}
		return 0, open
	}
	prop := func(from int) bool {
		for h := from; h < len(trail); h++ {
			for _, ci := range occ[idx(-trail[h])] {
				st, u := unit(all[ci])
				if st < 0 {
					return false
				}
				if st == 0 && u != 0 {
					set(u)
				}
			}
		}
		return true
	}
	for _, a := range assumptions {
		if get(a) == -1 {
			return false, true
		}
		if get(a) == 0 {
			set(a)
		}
	}
	for _, c := range all {
		st, u := unit(c)
		if st < 0 {
			return false, true
		}
		if st == 0 && u != 0 {
			set(u)
		}
	}
	if !prop(0) {
		return false, true
	}
	budget := 2000000
	var rec func() bool
	rec = func() bool {
		budget--
		if budget < 0 {
			return false
		}
		v := 0
		for u := 1; u <= n; u++ {
			if val[u] == 0 {
				v = u
				break
			}
		}
		if v == 0 {
			return true
		}
		for _, l := range []int{-v, v} {
			m := len(trail)
			set(l)
			if prop(m) && rec() {
				return true
			}
			for _, t := range trail[m:] {
				val[abs(t)] = 0
			}
			trail = trail[:m]
		}
		return false
	}
	r := rec()
	return r, budget >= 0
}
