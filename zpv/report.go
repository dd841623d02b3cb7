package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

// Finding is one violated or undecided obligation.
type Finding struct {
	Rule      string   `json:"rule"`
	Kind      string   `json:"kind"`
	Pos       string   `json:"pos"`
	Func      string   `json:"func"`
	Construct string   `json:"construct"`
	Msg       string   `json:"message"`
	Stack     string   `json:"stack,omitempty"`
	Path      []string `json:"path,omitempty"`
}

// Report collects the result of one check.
type Report struct {
	prop     string
	findings []Finding
	seen     map[string]bool
	counts   map[string]int
	items    map[string][]string
	assume   []string
}

func newReport(prop string) *Report {
	return &Report{prop: prop, seen: map[string]bool{}, counts: map[string]int{}, items: map[string][]string{}}
}

func (r *Report) add(f Finding) {
	k := f.Rule + "|" + f.Kind + "|" + f.Pos + "|" + f.Construct
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.findings = append(r.findings, f)
}

func (r *Report) violation(it *Interp, kind string, at token.Pos, msg string) {
	f := Finding{Rule: it.rule, Kind: kind, Pos: it.ld.posStr(at), Msg: msg, Stack: it.stackString(at)}
	if fr := it.cur(); fr != nil {
		f.Func = fnName(fr.fn)
	}
	if t, ok := it.st.ghost["trail"].([]string); ok {
		f.Path = t
		if len(f.Path) > 40 {
			f.Path = f.Path[len(f.Path)-40:]
		}
	}
	if dumpFacts {
		for _, c := range it.st.facts {
			f.Path = append(f.Path, "FACT "+c.String())
		}
		for _, c := range it.st.ne {
			f.Path = append(f.Path, "FACT "+c.String()+" != 0")
		}
		for _, fr := range it.stack {
			for v, x := range fr.env {
				if sl, ok := x.(VSlice); ok && sl.obj != 0 && it.st.objs[sl.obj].kind == oBytes {
					f.Path = append(f.Path, fmt.Sprintf("ENV %s %s: obj%d[%s:+%s] %s", fr.fn.Name(), v.Name(), sl.obj, sl.off, sl.len, segStr(it.st.objs[sl.obj].seq)))
				}
			}
		}
	}
	r.add(f)
}

func (r *Report) note(kind, s string) {
	r.items[kind] = append(r.items[kind], s)
}

func (f Finding) String() string {
	s := fmt.Sprintf("%s: [%s/%s] %s", f.Pos, f.Rule, f.Kind, f.Msg)
	if f.Construct != "" {
		s += " (" + f.Construct + ")"
	}
	if f.Stack != "" {
		s += "\n    at " + f.Stack
	}
	if len(f.Path) > 0 {
		s += "\n    path " + strings.Join(f.Path, ", ")
	}
	return s
}

func sortedStrings(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var dumpFacts bool
