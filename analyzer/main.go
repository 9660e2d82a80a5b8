// favecheck decides semantic properties of FaVe from its source.
//
//	favecheck -property C02 [-tier quick|thorough] [-v]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report collects what one property's rules looked at and what they found
type Report struct {
	ID       string
	p        *Prog
	tier     string
	viol     []*Violation
	seen     map[string]bool
	rules    map[string]string   // rule -> what it demands
	obl      map[string][]string // rule -> obligations discharged or not
	oblSeen  map[string]bool
	counts   map[string]int
	min      map[string]int
	assume   []string
	roots    []string
	verbose  bool
	explain  string
	analysed map[string]bool
}

func (r *Report) rule(name, text string) {
	r.rules[name] = text
}

// ok records an obligation that was looked at
func (r *Report) ok(rule, what string) {
	k := rule + "|" + what
	if r.oblSeen[k] {
		return
	}
	r.oblSeen[k] = true
	r.obl[rule] = append(r.obl[rule], what)
}

func (r *Report) count(name string, n int) { r.counts[name] += n }

// need: fewer instances than this and the rule no longer sees the code it was written for
func (r *Report) need(rule string, n int) { r.min[rule] = n }

func (r *Report) fail(v *Violation) {
	if v.Key == "" {
		v.Key = v.Rule + "|" + v.Func + "|" + v.What
	}
	if r.seen[v.Key] {
		return
	}
	r.seen[v.Key] = true
	r.viol = append(r.viol, v)
}

func (r *Report) failf(rule, where, fn, format string, a ...any) {
	r.fail(&Violation{Rule: rule, Where: where, Func: fn, What: fmt.Sprintf(format, a...)})
}

// anchor reports a construct that the rule needs and did not find
func (r *Report) anchor(rule, what string) {
	r.failf(rule, "?", "", "anchor not found: %s", what)
}

// take adds what a simulation found
func (r *Report) take(s *Sim) {
	for _, v := range s.viol {
		r.fail(v)
	}
	r.counts["program points (call-string expanded)"] += len(s.nodes)
	r.counts["abstract states"] += s.nStates
	r.counts["function instances"] += len(s.instList)
	if s.root != nil {
		r.roots = append(r.roots, shortFn(s.root.fn))
	}
	for _, i := range s.instList {
		r.analysed[shortFn(i.fn)] = true
	}
}

type Check struct {
	ID  string
	Run func(p *Prog, r *Report)
}

var checks = map[string]*Check{}

func register(id string, run func(p *Prog, r *Report)) { checks[id] = &Check{id, run} }

var verifDir = "/verif"

func main() {
	prop := flag.String("property", "", "property id, or 'all'")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	noEv := flag.Bool("n", false, "do not write evidence")
	flag.Parse()
	if exe, err := os.Executable(); err == nil {
		verifDir = filepath.Dir(filepath.Dir(exe))
	}
	if d := os.Getenv("FAVE_VERIF"); d != "" {
		verifDir = d
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	var ids []string
	if *prop == "all" {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		if checks[*prop] == nil {
			fmt.Println("unknown property", *prop)
			os.Exit(3)
		}
		ids = []string{*prop}
	}
	t0 := time.Now()
	p, err := load(repoDir())
	loadErr := err
	code := 0
	for _, id := range ids {
		t := t0
		if len(ids) > 1 {
			t = time.Now()
		}
		r := &Report{ID: id, p: p, tier: *tier, seen: map[string]bool{}, rules: map[string]string{}, obl: map[string][]string{}, oblSeen: map[string]bool{},
			counts: map[string]int{}, min: map[string]int{}, verbose: *verbose, analysed: map[string]bool{}}
		if loadErr != nil {
			r.rule("load", "the repository must type-check")
			r.failf("load", "?", "", "cannot load the repository: %v", loadErr)
		} else {
			r.run(checks[id])
		}
		if r.finish(time.Since(t), !*noEv) {
			code = 1
		}
	}
	os.Exit(code)
}

func (r *Report) run(c *Check) {
	defer func() {
		if e := recover(); e != nil {
			r.failf("analysis", "?", "", "the analysis could not decide: %v", e)
			if r.verbose {
				debug.PrintStack()
			}
		}
	}()
	c.Run(r.p, r)
	for rule, n := range r.min {
		if len(r.obl[rule]) < n {
			r.failf(rule, "?", "", "only %d of the at least %d places this rule decides were found", len(r.obl[rule]), n)
		}
	}
}

// known findings: lines "KNOWN property=<id> key=<rule|function|what>" in known_findings.txt
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+id+" ")
		k, desc, _ := strings.Cut(l, " ## ")
		out[strings.TrimSpace(k)] = strings.TrimSpace(desc)
	}
	return out
}

func (r *Report) finish(d time.Duration, write bool) bool {
	known := knownFindings(r.ID)
	var viol []*Violation
	sort.Slice(r.viol, func(i, j int) bool { return r.viol[i].Key < r.viol[j].Key })
	for _, v := range r.viol {
		if desc, ok := known[v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.ID, desc)
			continue
		}
		viol = append(viol, v)
	}
	nobl := 0
	var rules []map[string]any
	var names []string
	for n := range r.rules {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sort.Strings(r.obl[n])
		nobl += len(r.obl[n])
		s := r.obl[n]
		full := len(s)
		if len(s) > 60 {
			s = s[:60]
		}
		rules = append(rules, map[string]any{"rule": n, "demands": r.rules[n], "instances": full, "sites": s})
	}
	if r.verbose {
		for _, n := range names {
			fmt.Printf("rule %s: %s (%d)\n", n, r.rules[n], len(r.obl[n]))
			for _, o := range r.obl[n] {
				fmt.Println("    ", o)
			}
		}
		for k, v := range r.counts {
			fmt.Println("   ", k, v)
		}
	}
	replay := filepath.Join(verifDir, "replay", r.ID+".txt")
	if len(viol) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: %d violation(s)\n", r.ID, len(viol))
		for _, v := range viol {
			fmt.Fprintf(&sb, "\n%s: %s: [%s] %s\n  rule: %s\n", v.Where, v.Func, v.Rule, v.What, r.rules[v.Rule])
			for _, s := range v.Path {
				fmt.Fprintf(&sb, "    %s\n", s)
			}
			fmt.Fprintf(&sb, "  key: %s\n", v.Key)
		}
		fmt.Fprintf(&sb, "\nreproduce: bash %s/run.sh %s\n", verifDir, r.ID)
		os.MkdirAll(filepath.Dir(replay), 0o755)
		os.WriteFile(replay, []byte(sb.String()), 0o644)
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, replay)
	} else {
		os.Remove(replay)
	}
	if write {
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		cov := map[string]any{
			"explanation": r.explain,
			"rules":       rules,
			"obligations": nobl,
			"counts":      r.counts,
			"files":       0,
		}
		if r.p != nil {
			cov["files"] = r.p.files
			cov["packages"] = len(r.p.pkgs)
			cov["functions_in_repository"] = len(r.p.funcs)
		}
		sort.Strings(r.roots)
		cov["entry_points"] = uniq(r.roots)
		cov["functions_analysed"] = len(r.analysed)
		ev := map[string]any{"property": r.ID, "tier": r.tier, "seed": seed, "level": "other", "coverage": cov,
			"assumptions": append([]string{}, r.assume...), "wall_s": d.Seconds(), "violations": len(viol)}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", r.ID+".json"), b, 0o644); err != nil {
			fmt.Println("cannot write evidence:", err)
			os.Exit(2)
		}
	}
	if len(viol) == 0 {
		fmt.Printf("%s: holds: %d obligations of %d rules, %.2fs\n", r.ID, nobl, len(rules), d.Seconds())
	}
	return len(viol) > 0
}

func uniq(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || s[i-1] != x {
			out = append(out, x)
		}
	}
	return out
}
