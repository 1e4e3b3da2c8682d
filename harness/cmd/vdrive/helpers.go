package main

import (
	"encoding/json"

	"github.com/jtcaraball/goexpdt/query"

	"verif/harness/ast"
)

type helpersStim struct {
	CS   []ast.Inst `json:"cs"`
	IDs  []string   `json:"ids"`
	Dims []struct {
		D  int   `json:"d"`
		IX []int `json:"ix"`
	} `json:"dimq"`
	Bots []int `json:"bots"`
}

func init() {
	executors["helpers"] = execHelpers
	generators["C24"] = genC24
}

func execHelpers(raw json.RawMessage, ev Obj) {
	var st helpersStim
	parse(raw, &st)
	for _, k := range []string{"ids", "dimq", "bots"} {
		delete(ev, k)
	}
	cs := make([]query.QConst, len(st.CS))
	for i, x := range st.CS {
		cs[i] = query.QConst{ID: st.IDs[i], Val: ast.Feats(x)}
	}
	one := make([]Obj, len(cs))
	text := make([]string, len(cs))
	for i, c := range cs {
		text[i] = c.AsString()
		one[i] = Obj{"full": c.IsFull(), "bots": c.BotCount(), "text": text[i]}
		if c.AsString() != text[i] {
			one[i]["text"] = "?"
		}
	}
	pair := []Obj{}
	for i, a := range cs {
		for j, b := range cs {
			pair = append(pair, Obj{"eq": b2i(a.EqualValue(b)), "text": b2i(text[i] == text[j])})
		}
	}
	dims := []Obj{}
	for _, q := range st.Dims {
		var l []query.QConst
		for _, k := range q.IX {
			l = append(l, cs[k-1])
		}
		ix := q.IX
		if ix == nil {
			ix = []int{}
		}
		dims = append(dims, Obj{"d": q.D, "ix": ix, "err": query.ValidateConstsDim(q.D, l...) != nil})
	}
	bots := []Obj{}
	for _, d := range st.Bots {
		a := query.AllBotConst(d)
		v := ast.FromFeats(a.Val)
		for i := range a.Val {
			a.Val[i] = query.ONE
		}
		b := query.AllBotConst(d)
		fresh := len(b.Val) == d && b.ID == ""
		for i := range b.Val {
			fresh = fresh && b.Val[i] == query.BOT
		}
		bots = append(bots, Obj{"d": d, "val": v, "fresh": fresh})
	}
	for i, c := range cs {
		one[i]["after"] = ast.FromFeats(c.Val)
		if c.ID != st.IDs[i] {
			one[i]["text"] = "the identifier changed"
		}
	}
	ev["out"], ev["one"], ev["pair"], ev["dims"], ev["allbot"] = "ok", one, pair, dims, bots
}

func genC24(g *Gen) {
	send := func(cs []ast.Inst, tag string) {
		ids := make([]string, len(cs))
		for i := range ids {
			ids[i] = []string{"", "c", "k" + itoa(i)}[g.Intn(3)]
		}
		var dq []Obj
		for n := 12; n > 0; n-- {
			ix := []int{}
			for m := g.Intn(5); m > 0; m-- {
				ix = append(ix, 1+g.Intn(len(cs)))
			}
			d := g.Intn(5)
			if g.chance(0.3) {
				d = len(cs[g.Intn(len(cs))])
			} else if len(ix) > 0 && g.chance(0.7) {
				d = len(cs[ix[0]-1])
				if g.chance(0.5) { // only constants of this dimension, perhaps but one
					bad := g.Intn(2 * len(ix))
					for j := range ix {
						for t := 0; t < 30 && (len(cs[ix[j]-1]) == d) == (j == bad); t++ {
							ix[j] = 1 + g.Intn(len(cs))
						}
					}
				}
			}
			dq = append(dq, Obj{"d": d, "ix": ix})
		}
		g.emit(Obj{"kind": "helpers", "cs": cs, "ids": ids, "dimq": dq,
			"bots": []int{0, 1, 2, g.Intn(9), g.Intn(200)}, "tag": tag})
	}
	var all []ast.Inst
	for d := 0; d <= 3; d++ {
		for k := 0; k < pow3(d); k++ {
			all = append(all, instAt(k, d))
		}
	}
	for n := 0; n < 4; n++ {
		send(all, "all of dimension at most 3")
	}
	for d := 4; d <= g.pick(4, 5); d++ {
		var cs []ast.Inst
		for k := 0; k < pow3(d); k++ {
			cs = append(cs, instAt(k, d))
		}
		send(cs, "all of one dimension")
	}
	for n := g.pick(150, 1500); n > 0; n-- { // lengths around one another
		d := 1 + g.Intn(6)
		if g.chance(0.2) {
			d = 60 + g.Intn(10)
		}
		var cs []ast.Inst
		for k := 0; k <= 4; k++ {
			l := d - 2 + k
			if g.chance(0.2) {
				l = 2*d + k - 2
			}
			if l >= 0 {
				cs = append(cs, g.inst(l))
			}
		}
		send(cs, "constants of lengths around one another")
	}
	for n := g.pick(500, 6000); n > 0; n-- {
		d := g.dim(100)
		x := g.inst(d)
		cs := []ast.Inst{x}
		for m := 1 + g.Intn(9); m > 0; m-- {
			y := g.related(x)
			switch g.Intn(5) {
			case 0:
				y = append(append(ast.Inst{}, x...), g.inst(1+g.Intn(2))...)
			case 1:
				y = append(ast.Inst{}, x[:g.Intn(d+1)]...)
			case 2: // one difference, anywhere
				y = append(ast.Inst{}, x...)
				i := g.Intn(d)
				y[i] = (y[i] + 1 + g.Intn(2)) % 3
			}
			cs = append(cs, y)
		}
		send(cs, "related constants")
	}
}
