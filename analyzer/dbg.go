package main

import (
	"fmt"
	"sort"
)

func dbgSpawns(sp []Spawn) {
	prev := map[string]map[string]string{}
	for i := range sp {
		s := &sp[i]
		s.st = s.st.clone()
		s.st.locks, s.st.panics = nil, nil
		s.st.gc(append([]*Term{s.fn, s.recv}, s.args...))
		m := map[string]string{}
		for k, v := range s.st.mem {
			m["mem "+k.String()] = v.String()
		}
		for k, v := range s.st.tags {
			m["tag "+k] = v.String()
		}
		for k, v := range s.st.epoch {
			m["ep "+k.String()] = fmt.Sprint(v)
		}
		for k, v := range s.st.fepoch {
			m["fep "+k] = fmt.Sprint(v)
		}
		m["arg"] = fmt.Sprint(s.fn, s.args)
		n := spawnName(s)
		var d []string
		p := prev[n]
		for k, v := range m {
			if p == nil || p[k] != v {
				d = append(d, "  "+k+" = "+v+"   was "+p[k])
			}
		}
		for k := range p {
			if m[k] == "" {
				d = append(d, "  - "+k)
			}
		}
		sort.Strings(d)
		fmt.Println("SPAWN", n)
		for _, x := range d {
			fmt.Println(x)
		}
		fmt.Println("   facts", len(s.st.f.ineq), len(s.st.f.neq), len(s.st.f.bools))
		prev[n] = m
	}
}

func dbgDiff(l []*fstate) {
	count := map[string]map[string]int{}
	for _, f := range l {
		for k, v := range f.regs {
			n := "reg " + k.Name() + " " + k.Type().String()
			if count[n] == nil {
				count[n] = map[string]int{}
			}
			count[n][v.String()]++
		}
		for k, v := range f.st.mem {
			n := "mem " + k.String()
			if count[n] == nil {
				count[n] = map[string]int{}
			}
			count[n][v.String()]++
		}
		for k, v := range f.st.epoch {
			n := "ep " + k.String()
			if count[n] == nil {
				count[n] = map[string]int{}
			}
			count[n][fmt.Sprint(v)]++
		}
		for k, v := range f.st.fepoch {
			n := "fep " + k
			if count[n] == nil {
				count[n] = map[string]int{}
			}
			count[n][fmt.Sprint(v)]++
		}
	}
	for n, m := range count {
		t := 0
		for _, c := range m {
			t += c
		}
		if len(m) > 1 || t != len(l) {
			s := fmt.Sprint(m)
			if len(s) > 300 {
				s = s[:300]
			}
			fmt.Println("   ", n, t, len(m), s)
		}
	}
}
