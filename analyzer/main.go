package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	stop := startProf()
	defer stop()
	debug.SetGCPercent(600)
	debug.SetMemoryLimit(6 << 30)
	if len(os.Args) < 2 {
		fmt.Println("usage")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		p, err := loadRepo(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		f := p.Func(os.Args[3])
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
	case "run":
		p, err := loadRepo(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		debugRun(p, os.Args[3])
	case "explore":
		p, err := loadRepo(os.Args[2])
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		exploreCmd(p, os.Args[3:])
	case "check":
		rc := runCheck(os.Args[2], os.Args[3], os.Args[4], os.Args[5])
		stop()
		os.Exit(rc)
	}
}

func debugRun(p *Program, name string) {
	f := p.Func(name)
	if f == nil {
		fmt.Println("no function", name)
		return
	}
	t0 := time.Now()
	it := NewInterp(p.prog, p.pkg)
	it.panicCalls = os.Getenv("PANICS") != ""
	if os.Getenv("EV") != "" {
		it.onEvent = func(it *Interp, st *State, ev *Event) {
			if it.trial == 0 {
				fmt.Printf("  ev %-10s %-40s %v  @%s\n", ev.kind, ev.name, ev.args, ev.pos)
			}
		}
	}
	it.oblig = func(it *Interp, st *State, kind string, ok bool, in ssa.Instruction, detail string) {
		if !ok && it.trial == 0 {
			fmt.Println("  OBLIG", kind, it.pos(in), detail)
		}
	}
	st := newState()
	var args []*Term
	for _, q := range f.Params {
		args = append(args, typed(SymNN("arg:"+q.Name(), q.Type()), q.Type()))
	}
	outs := it.Call(f, args, nil, st, false, nil, nil)
	for _, o := range outs {
		fmt.Printf("OUT %c %v\n", o.kind, o.vals)
		for _, v := range o.vals {
			if v.op == OSlice {
				fmt.Println("   content", seqStr(o.st.sliceContent(v)))
			}
		}
		for k, v := range o.st.mem {
			if v.op == OSeq {
				fmt.Println("   mem", k, "=", seqStr(v.args))
			} else {
				fmt.Println("   mem", k, "=", v)
			}
		}
		fmt.Println("   facts", o.st.f.String())
	}
	for _, s := range it.spawns {
		fmt.Println("SPAWN", s.fn, s.args)
	}
	fmt.Println("undecided:", it.undec, "instrs", it.ninstr, "loops", it.nloops, "unknown", it.unknownExt, time.Since(t0))
}

func (f *Facts) String() string {
	s := ""
	for _, q := range f.ineq {
		s += q.String() + "<=0; "
	}
	for _, q := range f.neq {
		s += q.String() + "!=0; "
	}
	for q, v := range f.bools {
		s += fmt.Sprintf("%v=%v; ", q, v)
	}
	return s
}

func exploreCmd(p *Program, roots []string) {
	c := &Check{p: p, obs: map[string]map[string]bool{}, seenV: map[string]bool{}}
	e := c.explorer()
	e.it.panicCalls = os.Getenv("PANICS") != ""
	chainCalls(e.it)
	if os.Getenv("EV") != "" {
		e.hook = func(g *Gor, st *State, ev *Event) {
			if e.it.trial == 0 {
				fmt.Printf("  ev %-10s %-40s %v  @%s\n", ev.kind, ev.name, ev.args, ev.pos)
			}
		}
	}
	for _, r := range roots {
		t0 := time.Now()
		n := len(e.gos)
		if os.Getenv("NOSUB") != "" {
			f := p.Func(r)
			e.it.Call(f, symArgs(f), nil, newState(), false, nil, nil)
			dbgSpawns(e.it.spawns)
			continue
		}
		e.run(r, nil, nil)
		for _, g := range e.gos[n:] {
			fmt.Println("G", g.name, "reads", g.reads, "outs", len(g.outs), "rtpanics", len(g.rtpanics))
			for _, ev := range g.rtpanics {
				fmt.Println("    ", ev.name, ev.pos)
			}
			for _, o := range g.outs {
				fmt.Printf("    out %c\n", o.kind)
			}
		}
		fmt.Println(r, time.Since(t0))
	}
	fmt.Println("undecided", e.it.undec, "unknown", e.it.unknownExt)
}
