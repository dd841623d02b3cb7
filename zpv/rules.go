package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var trustedBase = []string{
	"go/types and golang.org/x/tools/go/ssa (the program representation)",
	"the abstract domains and transfer functions in /verif/zpv",
	"the models of encoding/binary, bytes, math, errors in /verif/zpv/models.go",
	"the contracts in /verif/zpv/spec",
}

var assumptions = []string{
	"int has 64 bits; messages are shorter than 2^45 bytes; no field index is 2^29 or more",
	"no concurrent writers (the documented contract)",
	"the Go compiler and standard library behave as specified",
}

// heavyContracts are analysed in processes of their own.
var heavyContracts = []string{"Set", "Self", "Append"}

// golden lists the properties that concern the checked-in generated code.
var golden = map[string]bool{"C10": true, "C11": true, "C13": true, "C14": true, "C20": true}

const runtimePkg = "github.com/danhhz/zeropb"

var rules = map[string]func(c *Check){
	"C01": func(c *Check) { c.contracts_("Decode") },
	"C02": func(c *Check) { c.contracts_("Decode") },
	"C03": func(c *Check) { c.contracts_("Decode") },
	"C21": func(c *Check) { c.contracts_("Decode", "Get", "Absent", "Iter", "Repeated") },
	"C04": func(c *Check) { c.contracts_("Index") },
	"C05": func(c *Check) { c.contracts_("Get", "Absent") },
	"C09": func(c *Check) { c.contracts_("Any", "Get", "Absent", "Iter", "Repeated") },
	"C06": func(c *Check) { c.contracts_("Set", "Append") },
	"C07": func(c *Check) { c.contracts_("Set") },
	"C08": func(c *Check) { c.contracts_("Set", "Append") },
	"C13": func(c *Check) {
		dirs := []string{"."}
		for path, p := range c.ld.ssa {
			if strings.HasPrefix(path, c.ld.mod+"/golden/") && strings.HasSuffix(p.Pkg.Name(), "zeropb") {
				dirs = append(dirs, "."+strings.TrimPrefix(path, c.ld.mod))
			}
		}
		e, err := c.escapes(dirs...)
		if err != nil {
			c.fail("escape", "undecided", token.NoPos, "go build", err.Error())
			return
		}
		c.esc = e
		c.contracts_("Decode", "Get", "Absent", "Any", "Iter", "Repeated", "Set", "Append")
		c.genContracts(nil)
		c.task("messages stay where they are", func() { c.leaks(dirs) })
	},
	"C12": func(c *Check) { c.contracts_("SetBytes", "SetString", "Self", "Append", "AnyBytes", "Iter") },
	"C11": func(c *Check) {
		c.contracts_("Any", "Get", "Absent", "Iter", "Repeated")
		c.genContracts(func(n string) bool {
			return !strings.HasSuffix(n, "_Set") && !strings.HasSuffix(n, "_Append") && !strings.Contains(n, "_Reset")
		})
		c.task(globalsRule, c.packageState)
	},
	"C10": func(c *Check) {
		c.contracts_("Iter", "Repeated")
		c.genContracts(func(n string) bool {
			return strings.HasSuffix(n, "_Iter") || strings.HasSuffix(n, "_Next") || strings.HasSuffix(n, "_Append")
		})
	},
	"C17": func(c *Check) { c.pluginRules() },
	"C18": func(c *Check) {
		c.task("bindings", c.bindings)
		c.bindContracts(func(n string) bool { return strings.HasSuffix(n, "_Reset") })
	},
	"C19": func(c *Check) {
		c.bindContracts(func(n string) bool { return strings.HasSuffix(n, "_Get") })
		c.genRules()
	},
	"C14": func(c *Check) { c.genContracts(nil) },
	"C15": func(c *Check) { c.genRules() },
	"C16": func(c *Check) { c.genRules() },
	"C20": func(c *Check) {
		c.genContracts(func(n string) bool {
			return strings.HasSuffix(n, "_Encode") || strings.HasSuffix(n, "_Decode") || strings.Contains(n, "_Reset")
		})
	},
}

// contracts_ analyses the contract functions with the given prefixes.
func (c *Check) contracts_(prefixes ...string) {
	pkg := c.ld.ssa[c.ld.mod]
	if pkg == nil {
		c.fail("load", "undecided", 0, c.ld.mod, "package not found")
		return
	}
	var fns []*ssa.Function
	for n, m := range pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || !strings.HasPrefix(n, "zpvSpec") {
			continue
		}
		for _, p := range prefixes {
			if strings.HasPrefix(n, "zpvSpec"+p) {
				fns = append(fns, f)
				break
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Name() < fns[j].Name() })
	for _, f := range fns {
		f := f
		name := strings.TrimPrefix(f.Name(), "zpvSpec")
		c.task(name, func() { c.contract(f, nil) })
		if n := len(c.tasks); n > 0 && c.tasks[n-1].name == name {
			for _, p := range heavyContracts {
				c.tasks[n-1].heavy = c.tasks[n-1].heavy || strings.HasPrefix(name, p)
			}
		}
	}
}

func (c *Check) contract(f *ssa.Function, setup func(it *Interp)) {
	name := strings.TrimPrefix(f.Name(), "zpvSpec")
	it := c.newInterp(name)
	if setup != nil {
		setup(it)
	}
	ended := 0
	c.guard(it, func() {
		it.explore(func() {
			it.call(f, nil, nil, f.Pos())
			ended++
		})
	})
	c.contracts = append(c.contracts, name)
	if ended == 0 && it.panicked == 0 && len(c.rep.findings) == 0 {
		c.fail(name, "vacuous", f.Pos(), name, "no disjunct reaches the end of the contract")
	}
	if *verbose {
		fmt.Printf("  %s: %d obligations, %d discharged, %d disjuncts, %d complete\n", name, it.obls, it.discharged, it.paths, ended)
	}
}
