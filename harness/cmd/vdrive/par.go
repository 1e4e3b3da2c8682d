package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"

	"verif/harness/ast"
)

// env is the surroundings of an evaluation.
type env struct {
	ctx   func(query.QContext) query.QContext
	model func(d int, ns []ast.Node) ast.Tree
	build func(q *ast.Q, nm ast.Names, shared bool) logop.LogOpQ
	step  func(fk *fake, sc script, do func() error) error
}

var plainEnv = env{
	ctx:   func(c query.QContext) query.QContext { return c },
	model: ast.NewTree,
	build: func(q *ast.Q, nm ast.Names, _ bool) logop.LogOpQ { return ast.Build(q, nm) },
	step: func(fk *fake, sc script, do func() error) error {
		fk.script(sc)
		return do()
	},
}

// parStim is a number of evaluations side by side.
type parStim struct {
	Mode  string            `json:"mode"` // "coop" (by schedule) or "free"
	Sched []schedOp         `json:"sched"`
	Seed  int64             `json:"seed"`
	Reps  int               `json:"reps"`
	Share bool              `json:"share"` // the evaluations use the same query values and models
	Pre   int               `json:"pre"`
	Evals []json.RawMessage `json:"evals"`
}

type schedOp struct {
	P  int    `json:"p"`
	To string `json:"to"`
}

func init() { executors["par"] = execPar }

// yielding is a context that hands over control at every operation.
type yielding struct {
	c query.QContext
	y func(string)
}

func (w yielding) ScopeVar(v query.QVar) query.QVar { w.y("ctx"); return w.c.ScopeVar(v) }
func (w yielding) AddVar(v query.QVar)              { w.y("ctx"); w.c.AddVar(v) }
func (w yielding) ScopeConst(c query.QConst) (query.QConst, bool) {
	w.y("ctx")
	return w.c.ScopeConst(c)
}
func (w yielding) AddScope(t string)                     { w.y("ctx"); w.c.AddScope(t) }
func (w yielding) PopScope() error                       { w.y("ctx"); return w.c.PopScope() }
func (w yielding) SetScope(i int, v []query.FeatV) error { w.y("ctx"); return w.c.SetScope(i, v) }
func (w yielding) TopV() int                             { w.y("ctx"); return w.c.TopV() }
func (w yielding) UpdateTopV(v int) bool                 { w.y("ctx"); return w.c.UpdateTopV(v) }
func (w yielding) CNFVar(v query.QVar, i, val int) int   { w.y("ctx"); return w.c.CNFVar(v, i, val) }
func (w yielding) CNFVarExists(v query.QVar, i, val int) bool {
	w.y("ctx")
	return w.c.CNFVarExists(v, i, val)
}
func (w yielding) Dim() int            { w.y("ctx"); return w.c.Dim() }
func (w yielding) Nodes() []query.Node { w.y("ctx"); return w.c.Nodes() }
func (w yielding) Reset()              { w.y("ctx"); w.c.Reset() }

var ranks = map[string]int{"ctx": 0, "enc": 0, "start": 1, "read": 2, "done": 3, "end": 4}

// proc is an evaluation under the control of a schedule.
type proc struct {
	resume chan struct{}
	back   chan string
	at     string
	gates  int
}

func (p *proc) yield(tag string) {
	p.back <- tag
	<-p.resume
}

// advance lets the evaluation run up to a point.
func (p *proc) advance(to string, slice int) {
	if r := ranks[p.at]; p.at == "end" || r < 3 && r > 0 && r >= ranks[to] {
		return
	}
	for k := 0; p.at != "end"; k++ {
		p.resume <- struct{}{}
		p.at = <-p.back
		if r := ranks[p.at]; r > 0 && r >= ranks[to] || to == "enc" && k >= slice {
			return
		}
	}
}

type outcome struct {
	err error
	bad any
}

// step makes a step of a solver whose process stops at the gates.
func (p *proc) step(fk *fake, sc script, do func() error) error {
	p.gates++
	gate := filepath.Join(fk.dir, fmt.Sprint("gate", p.gates))
	check(os.MkdirAll(gate, 0o755))
	sc.Gate = gate
	fk.script(sc)
	done := make(chan outcome, 1)
	go func() {
		var r outcome
		defer func() {
			if x := recover(); x != nil {
				r.bad = x
			}
			done <- r
		}()
		r.err = do()
	}()
	over := func(r outcome) error {
		if r.bad != nil {
			panic(r.bad)
		}
		p.yield("done")
		return r.err
	}
	for _, s := range [][2]string{{"started", "read"}, {"have", "go"}} {
		for {
			if _, err := os.Stat(filepath.Join(gate, s[0])); err == nil {
				break
			}
			select {
			case r := <-done:
				return over(r)
			case <-time.After(100 * time.Microsecond):
			}
		}
		p.yield(map[string]string{"started": "start", "have": "read"}[s[0]])
		check(os.WriteFile(filepath.Join(gate, s[1]), nil, 0o644))
	}
	return over(<-done)
}

func execPar(raw json.RawMessage, ev Obj) {
	var st parStim
	parse(raw, &st)
	delete(ev, "sched")
	b := newBox(st.Pre)
	defer b.close()
	n := len(st.Evals)
	subs := make([][]Obj, n)
	fks := make([]*fake, n)
	base := plainEnv
	if st.Share { // built beforehand, only read afterwards
		built := map[string]logop.LogOpQ{}
		trees := map[string]ast.Tree{}
		key := func(v ...any) string {
			x, err := json.Marshal(v)
			check(err)
			return string(x)
		}
		for _, e := range st.Evals {
			var q queryStim
			parse(e, &q)
			if q.Q != nil {
				built[key(q.Q, q.Style)] = ast.Build(q.Q, ast.NameStyle(q.Style))
			}
			trees[key(q.D, q.Tree)] = ast.NewTree(q.D, q.Tree)
		}
		base.model = func(d int, ns []ast.Node) ast.Tree { return trees[key(d, ns)] }
		base.build = func(q *ast.Q, nm ast.Names, shared bool) logop.LogOpQ {
			if shared {
				for s := 0; s < 3; s++ {
					if x, ok := built[key(q, s)]; ok {
						return x
					}
				}
			}
			return ast.Build(q, nm)
		}
	}
	one := func(i int, en env) {
		o := Obj{}
		check(json.Unmarshal(st.Evals[i], &o))
		defer func() {
			if r := recover(); r != nil {
				msg := fmt.Sprint(r)
				if strings.HasPrefix(msg, "sat:") || strings.HasPrefix(msg, "ast:") || strings.HasPrefix(msg, "harness:") {
					check(fmt.Errorf("%s", msg))
				}
				o["out"], o["msg"] = "panic", msg
			}
			subs[i] = append(subs[i], o)
		}()
		switch o["kind"] {
		case "query":
			execQueryIn(st.Evals[i], o, en)
		case "explain":
			execExplainIn(st.Evals[i], o, fks[i], en)
		default:
			panic("harness: an evaluation of kind " + fmt.Sprint(o["kind"]))
		}
	}
	for i := range st.Evals {
		fks[i] = newFake(filepath.Join(b.root, fmt.Sprint("solver", i)))
	}
	before := b.state()
	if st.Mode == "coop" {
		r := rand.New(rand.NewSource(st.Seed))
		ps := make([]*proc, n)
		for i := range ps {
			p := &proc{resume: make(chan struct{}), back: make(chan string), at: "ctx"}
			ps[i] = p
			en := base
			en.ctx = func(c query.QContext) query.QContext { return yielding{c, p.yield} }
			en.step = p.step
			go func() {
				<-p.resume
				one(i, en)
				p.back <- "end"
			}()
		}
		for _, o := range st.Sched {
			if o.P <= n {
				ps[o.P-1].advance(o.To, r.Intn(30))
			}
		}
		for live := n; live > 0; {
			live = 0
			for _, p := range ps {
				if p.at != "end" {
					live++
				}
			}
			ps[r.Intn(n)].advance([]string{"enc", "enc", "enc", "start", "read", "done"}[r.Intn(6)], r.Intn(60))
		}
	} else {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range st.Evals {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < max(1, st.Reps); k++ {
					one(i, base)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
	ev["left"] = changes(before, b.state())
	evals := []Obj{}
	for _, l := range subs {
		seen := map[string]bool{}
		for _, o := range l {
			k, err := json.Marshal(o)
			check(err)
			if !seen[string(k)] {
				seen[string(k)] = true
				evals = append(evals, o)
			}
		}
	}
	ev["evals"] = evals
	files := map[int]bool{}
	for _, f := range fks {
		for _, r := range f.runs() {
			if r.Late {
				panic("harness: a solver process waited in vain")
			}
			files[len(r.Texts)] = true
		}
	}
	fl := []int{}
	for k := range files {
		fl = append(fl, k)
	}
	ev["files"] = fl
	ev["out"] = "ok"
}
