package main

// C26: exit jobs.

import (
	"go/types"
)

func init() {
	register("C26", ruleExit)
}

func ruleExit(c *Check) {
	f := c.fn("TcpX.BeforeExit")
	if f == nil {
		return
	}
	sig := map[int64]string{2: "SIGINT", 15: "SIGTERM"}
	args := symArgs(f)
	jobs := args[1]
	n := jobs.args[2]
	isList := func(l *Term) bool { return l != nil && jobs.args[0].isApp("arr") && sameLoad(l, jobs.args[0].args[0]) }
	for _, panics := range []bool{false, true} {
		e := c.explorer()
		it := e.it
		it.panicCalls = panics
		it.userEffect = func(st *State, fn *Term, a []*Term) []*State { return []*State{st} }
		ran := FieldP(SymNN("ghost", nil), 0, types.Typ[types.Int])
		st := newState()
		st.store(ran, types.Typ[types.Int], Int(0))
		e.keep = []*Term{ran}
		site := map[bool]string{false: "jobs return", true: "jobs panic"}[panics]
		var exits int
		e.hook = func(g *Gor, st *State, ev *Event) {
			root := g.parent == nil
			switch ev.kind {
			case "call":
				if ev.name != "os/signal.Notify" || len(ev.args) != 2 {
					return
				}
				st.tags["notify"] = ev.args[0]
				if it.trial != 0 {
					return
				}
				got := map[int64]bool{}
				all := false
				if s := ev.args[1]; s.op == OSlice {
					if s.args[2] == Int(0) {
						all = true // every signal
					}
					for _, ch := range st.sliceContent(s) {
						if ch.isApp("elem") {
							if v, ok := unIface(ch.args[0]).isInt(); ok {
								got[v] = true
							}
						}
					}
				} else if s == Nil {
					all = true
				}
				for v, name := range sig {
					c.that(all || got[v], "signal", name, "BeforeExit is not told about %s", name)
				}
				capT := st.mem[App("chancap", types.Typ[types.Int], ev.args[0])]
				c.that(capT != nil && st.f.holds(Le(Int(1), capT)) == 1, "signal", "capacity", "the signal is lost when it arrives before the goroutine waits for it")
			case "recv", "selcase":
				if ev.kind == "selcase" && ev.name != "recv" {
					return
				}
				if root && it.trial == 0 {
					c.bad("register", "TcpX.BeforeExit", "registering exit jobs waits for a channel")
				}
				if len(ev.args) > 0 && ev.args[0] == st.tags["notify"] {
					st.tags["got"] = True
				}
			case "usercall":
				old := st.load(ran, types.Typ[types.Int])
				if it.trial == 0 {
					l, i := listElem(ev.args[0])
					switch {
					case root:
						c.bad("register", "TcpX.BeforeExit", "registering runs a job")
					case st.tags["got"] == nil:
						c.bad("jobs", site, "a job runs without a signal")
					default:
						c.that(isList(l) && st.f.eqInt(i, old), "jobs", site+" order", "the jobs are not run one after the other in the order given (%s)", site)
					}
				}
				st.store(ran, types.Typ[types.Int], Add(old, Int(1)))
			case "exit":
				if it.trial != 0 {
					return
				}
				exits++
				last := st.load(ran, types.Typ[types.Int])
				c.that(st.tags["got"] != nil, "exit", site, "the process exits without a signal")
				c.that(st.f.eqInt(last, n), "exit", site+" all", "the process exits before every job has run (%s)", site)
				c.that(len(ev.args) == 1 && ev.args[0] == Int(0), "exit", site+" code", "the process does not exit with success")
			}
		}
		e.run("TcpX.BeforeExit", args, st)
		c.that(len(e.gos) > 1, "register", "goroutine", "BeforeExit starts no goroutine")
		for _, g := range e.gos {
			for _, o := range g.outs {
				if g.parent == nil {
					c.that(o.kind == 'r', "register", "TcpX.BeforeExit returns", "registering panics")
					continue
				}
				c.that(o.kind == 'x', "exit", site+" happens", "the process is kept alive: the goroutine waiting for the signal can end without exiting (%s)", site)
			}
		}
		c.that(exits > 0, "exit", site+" reached", "the process never exits (%s)", site)
	}
	c.atLeast("exit", 6, "exits")
	c.atLeast("jobs", 2, "job calls")
	c.atLeast("signal", 3, "signals")
}
