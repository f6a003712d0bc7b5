package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Report collects the obligations of one property.
type Report struct {
	prop       string
	level      string
	rule       string
	explain    string
	notCovered string
	obl        map[string]*Obl // by key
	order      []string
	counts     map[string]int
	assume     []string
	facts      map[string]any
	start      time.Time
	floors     []string
	mu         sync.Mutex
}

type Obl struct {
	Rule, Where, What string
	OK                bool
	Why               string
	Known             bool
}

func newReport(prop string) *Report {
	return &Report{prop: prop, obl: map[string]*Obl{}, counts: map[string]int{}, facts: map[string]any{}, start: time.Now(), level: "other"}
}

// check records an obligation; a key is rule + construct, never a line number. A failing instance of a key wins.
func (r *Report) check(ok bool, rule, construct, where, why string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	k := rule + " | " + construct
	o := r.obl[k]
	if o == nil {
		o = &Obl{Rule: rule, Where: where, What: construct, OK: ok, Why: why}
		r.obl[k] = o
		r.order = append(r.order, k)
	} else if o.OK && !ok {
		o.OK, o.Why, o.Where = false, why, where
	}
	r.counts[rule]++
}

func (r *Report) fail(rule, construct, where, why string) {
	r.check(false, rule, construct, where, why)
}
func (r *Report) pass(rule, construct, where, why string) { r.check(true, rule, construct, where, why) }

// floor fails the check if fewer instances of something were analysed than were confirmed by hand
func (r *Report) floor(what string, n, min int) {
	r.facts["count: "+what] = n
	if n < min {
		r.fail("instance-floor", what, "-", fmt.Sprintf("only %d found, at least %d expected: the rule has lost its subject", n, min))
	}
}

func (r *Report) finish(verif, evDir, replayDir string) int {
	known := loadKnown(filepath.Join(verif, "known-findings.txt"), r.prop)
	var bad []string
	var disch int
	sort.Strings(r.order)
	for _, k := range r.order {
		o := r.obl[k]
		if o.OK {
			disch++
			continue
		}
		if known[k] {
			o.Known = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
			continue
		}
		bad = append(bad, k)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var samples []string
	rules := map[string][2]int{}
	for _, k := range r.order {
		o := r.obl[k]
		c := rules[o.Rule]
		c[0]++
		if o.OK {
			c[1]++
		}
		rules[o.Rule] = c
	}
	seenRule := map[string]int{}
	for _, k := range r.order {
		o := r.obl[k]
		if seenRule[o.Rule] < 6 {
			seenRule[o.Rule]++
			samples = append(samples, fmt.Sprintf("%s @ %s: ok=%v %s", k, o.Where, o.OK, o.Why))
		}
	}
	rs := map[string]string{}
	for k, c := range rules {
		rs[k] = fmt.Sprintf("%d obligations, %d discharged, %d instances", c[0], c[1], r.counts[k])
	}
	cov := map[string]any{
		"explanation": r.explain,
		"rule":        r.rule,
		"obligations": len(r.order),
		"discharged":  disch,
		"by_rule":     rs,
		"analysed":    r.facts,
		"samples":     samples,
		"not_covered": r.notCovered,
	}
	ev := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": r.level, "coverage": cov,
		"assumptions": r.assume, "wall_s": time.Since(r.start).Seconds(), "violations": len(bad),
	}
	os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d discharged=%d\n", r.prop, len(r.order), disch)
		return 0
	}
	os.MkdirAll(replayDir, 0o755)
	rp := filepath.Join(replayDir, r.prop+".txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %s\n", r.prop, r.rule)
	for _, k := range bad {
		o := r.obl[k]
		fmt.Fprintf(&sb, "%s: %s: %s: %s\n", o.Where, o.Rule, o.What, o.Why)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}

// known-findings.txt has lines "known: property=C01 key=<rule | construct> -- comment" and "fixed: ..." ones
func loadKnown(path, prop string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l, ok := strings.CutPrefix(l, "known: property="+prop+" key=")
		if !ok {
			continue
		}
		if i := strings.Index(l, " -- "); i >= 0 {
			l = l[:i]
		}
		out[strings.TrimSpace(l)] = true
	}
	return out
}
