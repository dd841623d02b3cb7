package main

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// C13: what the compiler allocates on the heap. The analysis finds the paths and
// the values; whether an allocation site is on the heap is what the compiler's
// escape analysis decides when it compiles /repo's current source.

type escapeInfo struct {
	heap   map[string][]string // position of a site -> messages
	inl    map[string]bool     // position of a call that is inlined
	zero   map[string]bool     // conversions without a copy
	leak   map[string]string   // parameters that leak to the heap
	allocs int
}

var escLine = regexp.MustCompile(`^(.+?):(\d+):(\d+): (.*)$`)

// escapes compiles the packages and reads the decisions of the escape analysis.
func (c *Check) escapes(dirs ...string) (*escapeInfo, error) {
	e := &escapeInfo{heap: map[string][]string{}, inl: map[string]bool{}, zero: map[string]bool{}, leak: map[string]string{}}
	repo, err := filepath.Abs(*repoDir)
	if err != nil {
		return nil, err
	}
	args := []string{"build", "-gcflags=-m"}
	args = append(args, dirs...)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go build -gcflags=-m: %v: %.500s", err, out.String())
	}
	n := 0
	for _, l := range strings.Split(out.String(), "\n") {
		m := escLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		f := m[1]
		if !filepath.IsAbs(f) {
			f = filepath.Join(repo, f)
		}
		ln, _ := strconv.Atoi(m[2])
		col, _ := strconv.Atoi(m[3])
		pos := fmt.Sprintf("%s:%d:%d", f, ln, col)
		msg := m[4]
		n++
		switch {
		case strings.HasPrefix(msg, "inlining call to "):
			e.inl[pos] = true
		case strings.HasPrefix(msg, "zero-copy "):
			e.zero[pos] = true
		case strings.HasPrefix(msg, "moved to heap"), strings.HasSuffix(msg, "escapes to heap"), strings.Contains(msg, " escapes to heap:"):
			e.heap[pos] = append(e.heap[pos], msg)
			e.allocs++
		case strings.HasPrefix(msg, "leaking param: ") && !strings.Contains(msg, " to result "):
			e.leak[pos] = strings.TrimPrefix(msg, "leaking param: ")
		}
	}
	if n == 0 {
		return nil, fmt.Errorf("the compiler reports nothing about escapes")
	}
	return e, nil
}

func (e *escapeInfo) key(ld *Loaded, p token.Pos) string {
	x := ld.fset.Position(p)
	return fmt.Sprintf("%s:%d:%d", x.Filename, x.Line, x.Column)
}

// onHeap decides whether the site, reached by the calls on the stack, is on the
// heap. A function that is inlined is judged where it was inlined.
func (e *escapeInfo) onHeap(it *Interp, at token.Pos, kinds ...string) bool {
	pos := e.key(it.ld, at)
	own := true
	for i := len(it.stack) - 2; i >= 0; i-- {
		call, ok := it.stack[i].pc.(ssa.CallInstruction)
		if !ok {
			break
		}
		p := e.key(it.ld, call.Pos())
		if !e.inl[p] {
			break
		}
		pos, own = p, false
	}
	match := func(msgs []string) bool {
		for _, m := range msgs {
			for _, k := range kinds {
				if strings.Contains(m, k) {
					return true
				}
			}
		}
		return false
	}
	if match(e.heap[pos]) {
		return true
	}
	if !own {
		return false
	}
	// The compiler's column can be another one.
	line := pos[:strings.LastIndexByte(pos, ':')+1]
	for p, msgs := range e.heap {
		if strings.HasPrefix(p, line) && match(msgs) {
			return true
		}
	}
	return false
}

// allocates decides whether the event allocates on the heap.
func (it *Interp) allocates(e *Event) bool {
	x := it.esc
	switch e.note {
	case "new":
		return x.onHeap(it, e.at, "moved to heap", "new(", "&", "literal")
	case "make":
		if o := it.st.objs[e.obj]; o != nil {
			n := e.n
			if n.isConst() {
				return x.onHeap(it, e.at, "make(", "new(", "[]", "literal")
			}
			// The compiler has a buffer of 32 bytes for slices of other sizes.
			return x.onHeap(it, e.at, "make(") || !it.entails(cLeq(n, lc(32)))
		}
		return true
	case "make map":
		// The first 8 entries of a map that does not escape are on the stack.
		return !it.entails(cLeq(e.n, lc(8))) || x.onHeap(it, e.at, "make(", "map[", "literal")
	case "closure":
		return x.onHeap(it, e.at, "func literal", "closure", "method value")
	case "interface":
		return !e.at.IsValid() || x.onHeap(it, e.at, "escapes to heap")
	case "string([]byte)", "[]byte(string)":
		return !x.zero[x.key(it.ld, e.at)]
	}
	return true
}

// leaks requires that no function makes the message that it is given escape:
// the caller's variable would be allocated on the heap.
func (c *Check) leaks(dirs []string) {
	rule := "messages stay where they are"
	c.contracts = append(c.contracts, rule)
	for _, d := range dirs {
		pkg := c.ld.ssa[c.ld.mod+strings.TrimPrefix(d, ".")]
		if pkg == nil {
			continue
		}
		for fn := range ssautil.AllFunctions(pkg.Prog) {
			if fn.Pkg != pkg || fn.Parent() != nil || fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "zpv") {
				continue
			}
			for _, p := range fn.Params {
				if !isMessageRef(p.Type()) {
					continue
				}
				msg := c.esc.leak[c.esc.key(c.ld, p.Pos())]
				c.oblige(msg != p.Name(), rule, "escape", p.Pos(), fnName(fn)+" "+p.Name(), fmt.Sprintf("%s makes %s escape to the heap", fnName(fn), p.Name()))
			}
		}
	}
}

// isMessageRef is whether the type refers to a message: a pointer, or a struct
// with pointers to parts of a message.
func isMessageRef(t types.Type) bool {
	switch x := t.Underlying().(type) {
	case *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < x.NumFields(); i++ {
			if isMessageRef(x.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// near is a position for a conversion that has none of its own: where its result
// is used.
func near(x *ssa.MakeInterface) token.Pos {
	if x.Pos().IsValid() {
		return x.Pos()
	}
	for _, r := range *x.Referrers() {
		if r.Pos().IsValid() {
			return r.Pos()
		}
	}
	return x.X.Pos()
}
