// Package layout prints valuations the way solvers do.
package layout

import (
	"math/rand"
	"strconv"
	"strings"
)

// L describes how a solver lays out its answer.
type L struct {
	Per      int    `json:"per"`      // literals per line, 0 for one line
	Sep      string `json:"sep"`      // between literals
	Lead     string `json:"lead"`     // after the v
	End      string `json:"end"`      // before the line end
	CR       bool   `json:"cr"`       // lines end in CR LF
	Order    string `json:"order"`    // "up", "down", "mix", "neg" (negative ones first)
	Comments bool   `json:"comments"` // comment lines in between
	Zero     string `json:"zero"`     // "own" line or "last" line
	Blank    bool   `json:"blank"`    // empty lines in between
	NoEOL    bool   `json:"noeol"`    // no line end after the last line
	Late     bool   `json:"late"`     // status after the values
	Pad      int    `json:"pad"`      // comment bytes in front
	Seed     int64  `json:"seed"`
}

// Remarks are comment lines, which mean nothing.
var Remarks = []string{
	"c v 1 -2 3 0", "c", "c vv 99", "c some words, v 12",
	"c s UNSATISFIABLE", "c s SATISFIABLE", "c not shown UNSATISFIABLE", "c SATISFIABLE",
	"c looking for UNSATISFIABLE cores", "c UNKNOWN so far, error 0, exit 20",
}

// Answer is the text of a satisfying answer with the given literals, and the
// literals line by line as printed.
func Answer(lits []int, l L) (string, [][]int) {
	r := rand.New(rand.NewSource(l.Seed))
	ls := append([]int{}, lits...)
	switch l.Order {
	case "down":
		for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
			ls[i], ls[j] = ls[j], ls[i]
		}
	case "mix":
		r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	case "neg":
		var a, b []int
		for _, x := range ls {
			if x < 0 {
				a = append(a, x)
			} else {
				b = append(b, x)
			}
		}
		ls = append(a, b...)
	}
	eol := "\n"
	if l.CR {
		eol = "\r\n"
	}
	sep, lead := l.Sep, l.Lead
	if sep == "" {
		sep = " "
	}
	if lead == "" {
		lead = " "
	}
	var lines []string
	note := func() {
		if l.Comments && r.Intn(2) == 0 {
			lines = append(lines, Remarks[r.Intn(len(Remarks))])
		}
		if l.Blank && r.Intn(3) == 0 {
			lines = append(lines, "")
		}
	}
	if l.Pad > 0 {
		for n := l.Pad; n > 0; n -= 80 {
			lines = append(lines, "c "+strings.Repeat("-", 76))
		}
	}
	if !l.Late {
		note()
		lines = append(lines, "s SATISFIABLE")
	}
	var printed [][]int
	per := l.Per
	if per <= 0 {
		per = len(ls) + 1
	}
	for k := 0; k < len(ls) || k == 0; k += per {
		note()
		part := ls[k:min(k+per, len(ls))]
		if len(part) > 0 {
			printed = append(printed, part)
		}
		t := make([]string, len(part))
		for i, x := range part {
			t[i] = strconv.Itoa(x)
		}
		if k+per >= len(ls) && l.Zero != "own" {
			t = append(t, "0")
		}
		if len(t) > 0 {
			lines = append(lines, "v"+lead+strings.Join(t, sep)+l.End)
		}
	}
	if l.Zero == "own" {
		note()
		lines = append(lines, "v"+lead+"0"+l.End)
	}
	if l.Late {
		lines = append(lines, "s SATISFIABLE")
	}
	note()
	s := strings.Join(lines, eol)
	if !l.NoEOL {
		s += eol
	}
	return s, printed
}
