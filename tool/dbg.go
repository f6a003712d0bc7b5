package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func debugMem(p *Prog, roots ...string) {
	t := time.Now()
	m := analyse(p, roots...)
	c := p.classifier(m.pta)
	fmt.Println("instances", len(m.instList), "nodes", len(m.nodes), "cells", len(m.cells), time.Since(t))
	lines := map[string]bool{}
	m.each(func(i *inst, in ssa.Instruction) {
		for _, ac := range m.accesses(i, in) {
			if ac.write && c.class(m.pta, ac.l) != clFresh {
				lines[fmt.Sprintf("%d %s | %s at %s in %s", c.class(m.pta, ac.l), ac.l, ac.what, m.where(i, in), i.fn.Name())] = true
			}
		}
	})
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println(l)
	}
	if os.Getenv("QV_WHO") != "" {
		debugWho(m, func(l loc) bool { return strings.Contains(l.String(), os.Getenv("QV_WHO")) })
	}
	for k, v := range m.problems {
		fmt.Println("PROBLEM", v, k)
	}
	fmt.Println("imm", c.imm)
	fmt.Println("shared", c.shared)
}

func debugWho(m *memAnalysis, pred func(l loc) bool) {
	for k, n := range m.nodes {
		for l := range n.pts {
			if pred(l) && k.v != nil {
				fmt.Println(k.i.chain(), "::", k.v.Name(), k.v, k.p)
			}
		}
	}
	for l, n := range m.cells {
		for x := range n.pts {
			if pred(x) {
				fmt.Println("CELL", l, "of", func() string {
					if l.o.inst != nil {
						return l.o.inst.chain()
					}
					return ""
				}())
			}
		}
	}
}
