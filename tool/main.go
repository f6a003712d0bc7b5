package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
)

type checker func(p *Prog, r *Report)

var checkers = map[string]checker{}

func main() {
	prop := flag.String("property", "", "property id, or all")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	ev := flag.String("evidence", "", "evidence directory")
	dump := flag.String("dump", "", "debug: function to dump")
	dbg := flag.String("mem", "", "debug: entry points whose writes to list")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(4 << 30) // more memory is used only if more is needed
	if *ev == "" {
		*ev = filepath.Join(*verif, "evidence")
	}
	var ids []string
	if *prop == "all" {
		for id := range checkers {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	} else {
		ids = []string{*prop}
	}
	p, err := loadProg(*repo)
	if *dump != "" && err == nil {
		for _, f := range p.funcs {
			if p.fname(f) == *dump || *dump == "all" {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if *dbg != "" && err == nil {
		debugMem(p, strings.Split(*dbg, ",")...)
		return
	}
	rc := 0
	for _, id := range ids {
		c := checkers[id]
		if c == nil {
			fmt.Fprintln(os.Stderr, "no such property", id)
			os.Exit(2)
		}
		r := newReport(id)
		if err != nil {
			r.fail("load", "package", *repo, "can't load and type-check the package: "+err.Error())
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.fail("analysis", "analyser", "-", fmt.Sprintf("the analysis couldn't decide the property: %v", e))
						if os.Getenv("QV_TRACE") != "" {
							debug.PrintStack()
						}
					}
				}()
				r.facts["files"] = len(p.files)
				r.facts["functions in package"] = len(p.funcs)
				c(p, r)
			}()
		}
		if x := r.finish(*verif, *ev, filepath.Join(*ev, "replay")); x > rc {
			rc = x
		}
	}
	os.Exit(rc)
}
