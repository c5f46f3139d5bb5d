package main

// Running one property's rules: obligations, violations, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Check struct {
	id   string
	tier string
	p    *Program

	obs   map[string]map[string]bool // rule -> sites at which it was decided
	viol  []Viol
	seenV map[string]bool
	known []string

	entries []string
	funcs   map[*ssa.Function]bool
	instrs  int
	loops   map[*ssa.BasicBlock]bool
	gos     int
	summary map[string]string // rule -> text
	t0      time.Time
	its     []*Interp
}

type Viol struct {
	Rule string `json:"rule"`
	Pos  string `json:"at"`
	Msg  string `json:"what"`
}

// Rule implements a property.
type Rule struct {
	id  string
	run func(c *Check)
}

var allRules = map[string]*Rule{}

func register(id string, run func(c *Check)) { allRules[id] = &Rule{id, run} }

// ok records that rule was decided, positively, at site.
func (c *Check) ok(rule, site string) {
	m := c.obs[rule]
	if m == nil {
		m = map[string]bool{}
		c.obs[rule] = m
	}
	m[site] = true
}

func (c *Check) bad(rule, pos, format string, a ...interface{}) {
	v := Viol{rule, pos, fmt.Sprintf(format, a...)}
	c.ok(rule, pos)
	k := rule + "|" + pos + "|" + v.Msg
	if c.seenV[k] {
		return
	}
	c.seenV[k] = true
	c.viol = append(c.viol, v)
}

// that records the verdict of rule at site.
func (c *Check) that(cond bool, rule, site, format string, a ...interface{}) bool {
	if cond {
		c.ok(rule, site)
	} else {
		c.bad(rule, site, format, a...)
	}
	return cond
}

// atLeast guards against vacuity: the rule must have been decided at n sites or more.
func (c *Check) atLeast(rule string, n int, what string) {
	if got := len(c.obs[rule]); got < n {
		c.bad(rule, "-", "only %d %s analysed, at least %d exist in the code this rule was confirmed on: the anchor of the rule is gone", got, what, n)
	}
}

func (c *Check) fn(name string) *ssa.Function {
	f := c.p.Func(name)
	if f == nil {
		c.bad("anchor", name, "exported function %s does not exist any more", name)
	}
	return f
}

// interp makes an abstract interpreter whose statistics count for this check.
func (c *Check) interp() *Interp {
	it := NewInterp(c.p.prog, c.p.pkg)
	c.its = append(c.its, it)
	return it
}

// symArgs makes arbitrary arguments for fn.
func symArgs(fn *ssa.Function) []*Term {
	var args []*Term
	for _, q := range fn.Params {
		args = append(args, typed(SymNN("arg:"+q.Name(), q.Type()), q.Type()))
	}
	return args
}

// entry analyses fn from state st.
func (c *Check) entry(it *Interp, fn *ssa.Function, args []*Term, st *State) []Outcome {
	c.entries = append(c.entries, fnName(fn))
	return it.Call(fn, args, nil, st, false, nil, nil)
}

func fnName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, rootPath+".", "")
	return s
}

type Known struct {
	Property string `json:"property"`
	Kind     string `json:"kind"` // "finding" or "fixed"
	Key      string `json:"key"`  // rule|construct
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []Known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k Known
		if json.Unmarshal([]byte(l), &k) == nil {
			ks = append(ks, k)
		}
	}
	return ks
}

// runCheck decides one property and returns the exit code.
func runCheck(repo, verif, id, tier string) (code int) {
	t0 := time.Now()
	c := &Check{id: id, tier: tier, obs: map[string]map[string]bool{}, seenV: map[string]bool{}, funcs: map[*ssa.Function]bool{}, loops: map[*ssa.BasicBlock]bool{}, summary: map[string]string{}, t0: t0}
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.bad("analysis", "-", "the analyser could not complete: %v\n%s", e, debug.Stack())
			}
		}()
		r := allRules[id]
		if r == nil {
			c.bad("analysis", "-", "unknown property")
			return
		}
		p, err := loadRepo(repo)
		if err != nil {
			c.bad("load", "-", "the package could not be loaded: %v", err)
			return
		}
		c.p = p
		r.run(c)
	}()
	var undec []string
	unk := map[string]int{}
	for _, it := range c.its {
		undec = append(undec, it.undec...)
		c.instrs += it.ninstr
		for f := range it.funcs {
			c.funcs[f] = true
		}
		for b := range it.loopsSeen {
			c.loops[b] = true
		}
		for k, v := range it.unknownExt {
			unk[k] += v
		}
	}
	for _, u := range undec {
		c.bad("undecided", "-", "the analysis could not decide: %s", u)
	}
	// known findings
	known := loadKnown(filepath.Join(verif, "known-findings.txt"))
	var fresh []Viol
	for _, v := range c.viol {
		listed := false
		for _, k := range known {
			if k.Kind == "finding" && k.Property == id && k.Key == v.Rule+"|"+v.Pos {
				listed = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
			}
		}
		if !listed {
			fresh = append(fresh, v)
		}
	}
	nob := 0
	rules := map[string]int{}
	var sites []string
	for r, m := range c.obs {
		rules[r] = len(m)
		nob += len(m)
		for s := range m {
			sites = append(sites, r+" @ "+s)
		}
	}
	sort.Strings(sites)
	if nob == 0 && len(fresh) == 0 {
		fresh = append(fresh, Viol{"vacuous", "-", "no obligation was found"})
	}
	if len(sites) > 120 {
		sites = append(sites[:120], fmt.Sprintf("... %d more", len(sites)-120))
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	replay := filepath.Join(evdir, id+".violations.json")
	os.Remove(replay)
	fl := []string{}
	for f := range c.funcs {
		if f.Pkg == nil || c.p == nil || f.Pkg == c.p.pkg {
			fl = append(fl, fnName(f))
		}
	}
	sort.Strings(fl)
	sort.Strings(c.entries)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":           explain[id],
			"obligations":           nob,
			"obligations_per_rule":  rules,
			"decided_at":            sites,
			"entry_points":          uniq(c.entries),
			"goroutines":            c.gos,
			"functions":             len(c.funcs),
			"functions_analysed":    fl,
			"instructions_analysed": c.instrs,
			"loops":                 len(c.loops),
			"unmodelled_calls":      unk,
		},
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(fresh),
		"assumptions": assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0644)
	if len(fresh) > 0 {
		b, _ := json.MarshalIndent(fresh, "", " ")
		os.WriteFile(replay, append(b, '\n'), 0644)
		for i, v := range fresh {
			if i == 12 {
				fmt.Printf("... %d more\n", len(fresh)-i)
				break
			}
			fmt.Printf("%s: %s: %s\n", v.Rule, v.Pos, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replay)
		return 1
	}
	fmt.Printf("%s: %d obligations discharged over %d functions, %d instructions, %d goroutines, %d loops (%.1fs)\n", id, nob, len(c.funcs), c.instrs, c.gos, len(c.loops), time.Since(t0).Seconds())
	return 0
}

func uniq(l []string) []string {
	out := []string{}
	for i, s := range l {
		if i == 0 || s != l[i-1] {
			out = append(out, s)
		}
	}
	return out
}

var assumptions = []string{
	"A1: 64-bit ints do not overflow; A2: buffers are shorter than 1 GiB",
	"A3: unguarded variables captured by goroutines are not raced on (checked by C10 for the guarded fields)",
	"A4: the server's configuration is not changed while it serves; user callbacks do not reassign connection-scoped Context fields; registered handlers are not nil",
	"A5: the models of the standard library, of the codecs and of errorx (analyzer/models.go) describe their documented behaviour",
}
