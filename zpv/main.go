package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"golang.org/x/tools/go/ssa"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	repoDir  = flag.String("repo", "/repo", "the repository to analyse")
	verifDir = flag.String("verif", "/verif", "the directory with the specifications and evidence")
	only     = flag.String("only", "", "analyse only contracts whose name contains this (debugging)")
	verbose  = flag.Bool("v", false, "print what is analysed")
	tierFlag = flag.String("tier", "", "quick or thorough (default: VERIF_TIER)")
	cpuProf  = flag.String("cpuprofile", "", "write a profile (debugging)")
	profTime = flag.Duration("proftime", time.Minute, "length of the profile")
	worker   = flag.String("worker", "", "run only this task and print the result as JSON (internal)")
	inline   = flag.Bool("inline", false, "do not use processes")
	budget   = flag.Duration("budget", 840*time.Second, "time after which the analysis gives up")
	noEv     = flag.Bool("noevidence", false, "do not write evidence")
)

// Check is the run of one property's rules.
type Check struct {
	prop   string
	ld     *Loaded
	rep    *Report
	tier   string
	canary bool // analysing a deliberately broken variant

	obls, discharged, paths int
	contracts               []string
	funcs                   map[string]int
	callSites               map[string]bool
	loops                   map[string]string
	cover                   map[string]int
	reached                 map[string]bool
	esc                     *escapeInfo
	konst                   map[*ssa.Global]bool
	tasks                   []task
}

// A task is a part of a check that can be done by a process of its own.
type task struct {
	name  string
	run   func()
	heavy bool // worth a process of its own
}

func (c *Check) task(name string, run func()) {
	if strings.Contains(name, *only) {
		c.tasks = append(c.tasks, task{name: name, run: run})
	}
}

// taskResult is what a process reports.
type taskResult struct {
	Name                    string
	Obls, Discharged, Paths int
	Contracts               []string
	Funcs                   map[string]int
	CallSites               map[string]bool
	Loops                   map[string]string
	Cover                   map[string]int
	Reached                 map[string]bool
	Findings                []Finding
	Items                   map[string][]string
	Wall                    float64
}

func (c *Check) runTasks() {
	if *worker != "" {
		for _, t := range c.tasks {
			if t.name == *worker {
				t.run()
				return
			}
		}
		c.fail("load", "undecided", 0, *worker, "no such task")
		return
	}
	par := !*inline && *cpuProf == "" && len(c.tasks) > 1 && !c.canary
	var light, heavy []task
	for _, t := range c.tasks {
		if par && t.heavy {
			heavy = append(heavy, t)
		} else {
			light = append(light, t)
		}
	}
	results := make([]*taskResult, len(heavy))
	sem := make(chan bool, runtime.NumCPU())
	ctx, cancel := context.WithTimeout(context.Background(), *budget)
	defer cancel()
	var retry sync.Mutex
	var wg sync.WaitGroup
	for i := range heavy {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			r := &taskResult{Name: heavy[i].name}
			results[i] = r
			if ctx.Err() == nil {
				var out, errb bytes.Buffer
				run := func() error {
					out.Reset()
					errb.Reset()
					cmd := exec.CommandContext(ctx, os.Args[0], "-worker", r.Name, "-tier", c.tier, "-repo", *repoDir, "-verif", *verifDir, c.prop)
					cmd.Stdout, cmd.Stderr = &out, &errb
					return cmd.Run()
				}
				err := run()
				if ee, ok := err.(*exec.ExitError); ok && ctx.Err() == nil && !ee.Exited() {
					// Something ended the process, presumably for its memory:
					// once more, with few others running.
					retry.Lock()
					time.Sleep(2 * time.Second)
					err = run()
					retry.Unlock()
				}
				if e := json.Unmarshal(out.Bytes(), r); e == nil && err == nil {
					if len(r.Findings) > 0 {
						cancel() // the others need not finish
					}
					return
				} else if ctx.Err() == nil {
					msg := errb.String()
					if len(msg) > 2000 {
						msg = msg[:2000]
					}
					r.Findings = []Finding{{Rule: r.Name, Kind: "undecided", Pos: "?", Msg: fmt.Sprintf("the analysis failed: %v %v %s", err, e, msg)}}
					cancel()
					return
				}
			}
			if ctx.Err() == context.DeadlineExceeded {
				r.Findings = []Finding{{Rule: r.Name, Kind: "undecided", Pos: "?", Construct: "budget", Msg: "not decided within the time budget"}}
			}
		}(i)
	}
	for _, t := range light {
		t.run()
	}
	if len(c.rep.findings) > 0 {
		cancel()
	}
	wg.Wait()
	for _, r := range results {
		c.obls += r.Obls
		c.discharged += r.Discharged
		c.paths += r.Paths
		c.contracts = append(c.contracts, r.Contracts...)
		for k, v := range r.Funcs {
			c.funcs[k] += v
		}
		for k, v := range r.CallSites {
			c.callSites[k] = v
		}
		for k, v := range r.Loops {
			c.loops[k] = v
		}
		for k := range r.Reached {
			c.reached[k] = true
		}
		for k, v := range r.Cover {
			c.cover[k] += v
		}
		for k, v := range r.Items {
			c.rep.items[k] = append(c.rep.items[k], v...)
		}
		for _, f := range r.Findings {
			c.rep.add(f)
		}
		if *verbose {
			fmt.Printf("  %s: %d obligations, %d discharged, %d disjuncts, %.1fs\n", r.Name, r.Obls, r.Discharged, r.Paths, r.Wall)
		}
	}
}

func (c *Check) printResult(start time.Time) {
	b, err := json.Marshal(taskResult{*worker, c.obls, c.discharged, c.paths, c.contracts, c.funcs, c.callSites, c.loops, c.cover, c.reached, c.rep.findings, c.rep.items, time.Since(start).Seconds()})
	if err != nil {
		panic(err)
	}
	os.Stdout.Write(b)
}

func main() {
	flag.BoolVar(&dumpFacts, "facts", false, "print the facts at violations")
	flag.Parse()
	if flag.NArg() != 1 {
		fmt.Fprintln(os.Stderr, "usage: zpv [flags] property")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	if *cpuProf != "" {
		choiceSites = map[string]int{}
		f, _ := os.Create(*cpuProf)
		pprof.StartCPUProfile(f)
		go func() {
			time.Sleep(*profTime)
			pprof.StopCPUProfile()
			f.Close()
			type kv struct {
				k string
				v int
			}
			var l []kv
			for k, v := range choiceSites {
				l = append(l, kv{k, v})
			}
			sort.Slice(l, func(i, j int) bool { return l[i].v > l[j].v })
			for i, x := range l {
				if i < 30 {
					fmt.Println(x.v, x.k)
				}
			}
			fmt.Println("profile done", statFM, statFMBig, statFMSlow, statWit, statA)
			os.Exit(3)
		}()
	}
	prop := flag.Arg(0)
	start := time.Now()
	tier := *tierFlag
	if tier == "" {
		tier = os.Getenv("VERIF_TIER")
	}
	if tier != "thorough" {
		tier = "quick"
	}
	c := runCheck(prop, tier, nil)
	if *worker != "" {
		c.printResult(start)
		os.Exit(0)
	}
	os.Exit(c.finish(start))
}

// runCheck loads the program and runs the rules of the property. Anything that
// goes wrong is a finding.
func runCheck(prop, tier string, overlay map[string][]byte) (c *Check) {
	c = &Check{prop: prop, tier: tier, rep: newReport(prop), funcs: map[string]int{}, callSites: map[string]bool{}, loops: map[string]string{}, cover: map[string]int{}, reached: map[string]bool{}}
	rule, ok := rules[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no rules for", prop)
		os.Exit(2)
	}
	defer func() {
		if r := recover(); r != nil {
			c.rep.add(Finding{Rule: "analysis", Kind: "undecided", Msg: fmt.Sprintf("the analysis failed: %v", r), Stack: string(debug.Stack())})
		}
	}()
	overlay = specOverlay(overlay)
	if golden[prop] {
		ov, err := goldenOverlay(*repoDir)
		if err != nil {
			c.rep.add(Finding{Rule: "load", Kind: "undecided", Msg: err.Error()})
			return c
		}
		for k, v := range ov {
			overlay[k] = v
		}
	}
	if prop == "C18" || prop == "C19" {
		ov, err := bindOverlay(*repoDir)
		if err != nil {
			c.rep.add(Finding{Rule: "load", Kind: "undecided", Msg: err.Error()})
			return c
		}
		for k, v := range ov {
			overlay[k] = v
		}
	}
	ld, err := load(*repoDir, overlay)
	if err != nil {
		c.rep.add(Finding{Rule: "load", Kind: "undecided", Msg: err.Error()})
		return c
	}
	c.ld = ld
	rule(c)
	c.runTasks()
	if *worker == "" {
		c.vacuous()
	}
	return c
}

// specOverlay adds the contracts to the analysed package.
func specOverlay(extra map[string][]byte) map[string][]byte {
	ov := map[string][]byte{}
	files, _ := filepath.Glob(filepath.Join(*verifDir, "zpv/spec/*.go.txt"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		n := strings.TrimSuffix(filepath.Base(f), ".go.txt")
		dir := *repoDir
		if i := strings.Index(n, "@"); i >= 0 { // name@dir
			dir = filepath.Join(dir, strings.ReplaceAll(n[i+1:], "+", "/"))
			n = n[:i]
		}
		ov[filepath.Join(dir, "zz_zpv_"+n+".go")] = b
	}
	for k, v := range extra {
		ov[k] = v
	}
	return ov
}

func (c *Check) finish(start time.Time) int {
	fs := c.rep.findings
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos < fs[j].Pos })
	known := loadKnown(c.prop)
	var viol []Finding
	for _, f := range fs {
		if k := known.match(f); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, k)
			continue
		}
		viol = append(viol, f)
	}
	wall := time.Since(start).Seconds()
	if !*noEv {
		c.writeEvidence(wall, viol)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d disjuncts, %d functions, %d contracts/rules, %.1fs\n",
		c.prop, c.obls, c.discharged, c.paths, len(c.funcs), len(c.contracts), wall)
	if *verbose {
		for _, k := range sortedKeysOf(c.loops) {
			fmt.Println("  loop", k, c.loops[k])
		}
	}
	if len(viol) == 0 {
		return 0
	}
	for _, f := range viol {
		fmt.Println(f)
	}
	path := filepath.Join(*verifDir, "evidence", c.prop+".replay.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s is violated or could not be established.\nrun: cd /verif && ./check.sh %s\n\n", c.prop, c.prop)
	for _, f := range viol {
		fmt.Fprintf(&b, "%s\n\n", f)
	}
	os.MkdirAll(filepath.Dir(path), 0o777)
	os.WriteFile(path, []byte(b.String()), 0o666)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
	return 1
}

func sortedKeysOf(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------------------
// Known findings.

type knownList struct{ entries []knownEntry }
type knownEntry struct{ construct, text string }

// A line "property=<id> key=<rule|kind|func> <text>" lists a finding; lines that
// begin with "fixed:" are records and suppress nothing.
func loadKnown(prop string) knownList {
	var k knownList
	b, err := os.ReadFile(filepath.Join(*verifDir, "known-findings.txt"))
	if err != nil {
		return k
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "property="+prop+" key=") {
			continue
		}
		l = l[len("property="+prop+" key="):]
		i := strings.Index(l, " ")
		if i < 0 {
			continue
		}
		k.entries = append(k.entries, knownEntry{l[:i], l[i+1:]})
	}
	return k
}

func (k knownList) match(f Finding) string {
	key := strings.ReplaceAll(f.Rule+"|"+f.Kind+"|"+f.Func+"|"+f.Construct, " ", "_")
	for _, e := range k.entries {
		if e.construct == key {
			return e.text
		}
	}
	return ""
}

// ---------------------------------------------------------------------------
// Evidence.

func (c *Check) writeEvidence(wall float64, viol []Finding) {
	level := levels[c.prop]
	if level == "" {
		level = "other"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	loops := []string{}
	for _, k := range sortedKeysOf(c.loops) {
		loops = append(loops, k+": "+c.loops[k])
	}
	cov := map[string]interface{}{
		"obligations":        c.obls,
		"discharged":         c.discharged,
		"disjuncts":          c.paths,
		"contracts":          c.contracts,
		"functions_analysed": sortedCount(c.funcs),
		"call_sites":         len(c.callSites),
		"loops":              loops,
		"rule":               ruleText[c.prop],
		"explanation":        ruleText[c.prop],
		"exhaustive":         false,
		"checker_cmd":        "cd /verif && ./check.sh " + c.prop,
		"trusted_base":       trustedBase,
	}
	for k, v := range c.cover {
		cov[k] = v
	}
	for k, v := range c.rep.items {
		sort.Strings(v)
		cov[k] = v
	}
	findings := []string{}
	for _, f := range viol {
		findings = append(findings, f.String())
	}
	cov["findings"] = findings
	ev := map[string]interface{}{
		"property": c.prop, "tier": c.tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": wall, "violations": len(viol),
		"assumptions": append(append([]string{}, assumptions...), c.rep.assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		panic(err)
	}
	dir := filepath.Join(*verifDir, "evidence")
	os.MkdirAll(dir, 0o777)
	if err := os.WriteFile(filepath.Join(dir, c.prop+".json"), b, 0o666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func sortedCount(m map[string]int) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---------------------------------------------------------------------------

// newInterp returns an interpreter for one contract.
func (c *Check) newInterp(rule string) *Interp {
	it := &Interp{
		ld: c.ld, st: newState(), rep: c.rep, rule: rule,
		funcs: c.funcs, callSites: c.callSites, loopsSeen: c.loops,
		loopCache: map[string]*loopResult{}, models: stdModels(), intr: intrinsics(c),
		termination: true, esc: c.esc,
	}
	it.initConstants(c)
	return it
}

// guard runs f and turns what could not be decided into a finding.
func (c *Check) guard(it *Interp, f func()) {
	defer func() {
		c.obls += it.obls
		c.discharged += it.discharged
		c.paths += it.paths
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				c.rep.add(Finding{Rule: it.rule, Kind: "undecided", Pos: "?", Construct: fmt.Sprint(r), Msg: fmt.Sprintf("the analysis failed: %v", r), Stack: string(debug.Stack())})
				return
			}
			fn := ""
			if fr := it.cur(); fr != nil {
				fn = fnName(fr.fn)
			}
			c.rep.add(Finding{Rule: it.rule, Kind: "undecided", Pos: c.ld.posStr(u.pos), Func: fn, Msg: "not decided: " + u.msg, Stack: u.ctx})
		}
	}()
	f()
}

func (c *Check) fail(rule, kind string, pos token.Pos, construct, msg string) {
	p := "?"
	if c.ld != nil {
		p = c.ld.posStr(pos)
	}
	c.rep.add(Finding{Rule: rule, Kind: kind, Pos: p, Construct: construct, Msg: msg})
}

// oblige records one decided obligation of a rule.
func (c *Check) oblige(ok bool, rule, kind string, pos token.Pos, construct, msg string) bool {
	c.obls++
	if ok {
		c.discharged++
		return true
	}
	c.fail(rule, kind, pos, construct, msg)
	return false
}
