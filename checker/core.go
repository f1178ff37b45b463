package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Ctx collects the obligations and violations of one property check.
type Ctx struct {
	Prop  string
	Tier  string
	Repo  string
	Verif string
	World *World

	rules   map[string]*ruleStat
	order   []string
	Analysd map[string]int // what was analysed: counters shown in the evidence
	Notes   []string

	only map[string]bool // not nil: the rules wanted, others need not be decided
}

type ruleStat struct {
	Name       string
	Text       string
	Min        int
	Discharged int
	Violations []Viol
	Samples    []string
	seen       map[string]bool
}

// Viol is one violated obligation, keyed by rule and construct.
type Viol struct {
	Rule string
	Key  string
	Pos  string
	Msg  string
}

func (v Viol) ID() string { return v.Rule + "|" + v.Key }

// Rule declares a rule, the instance count below which it counts as vacuous.
func (c *Ctx) Rule(name, text string, min int) {
	if c.rules == nil {
		c.rules = map[string]*ruleStat{}
	}
	if _, ok := c.rules[name]; ok {
		return
	}
	c.rules[name] = &ruleStat{Name: name, Text: text, Min: min, seen: map[string]bool{}}
	c.order = append(c.order, name)
}

// OK records a discharged obligation.
func (c *Ctx) OK(rule, key string) {
	r := c.rules[rule]
	if r == nil {
		panic("undeclared rule " + rule)
	}
	r.Discharged++
	if len(r.Samples) < 6 && !r.seen["s:"+key] {
		r.seen["s:"+key] = true
		r.Samples = append(r.Samples, key)
	}
}

// Bad records a violated (or undecided) obligation.
func (c *Ctx) Bad(rule, key, pos, format string, args ...any) {
	r := c.rules[rule]
	if r == nil {
		panic("undeclared rule " + rule)
	}
	if r.seen["v:"+key] {
		return
	}
	r.seen["v:"+key] = true
	r.Violations = append(r.Violations, Viol{rule, key, pos, fmt.Sprintf(format, args...)})
}

// Check records ok or violated.
func (c *Ctx) Check(ok bool, rule, key, pos, format string, args ...any) {
	if ok {
		c.OK(rule, key)
	} else {
		c.Bad(rule, key, pos, format, args...)
	}
}

func (c *Ctx) Count(what string, n int) {
	if c.Analysd == nil {
		c.Analysd = map[string]int{}
	}
	c.Analysd[what] += n
}

// also decides rules of another property that this one rests on.
func (c *Ctx) also(id string, names ...string) error {
	if c.Analysd == nil {
		c.Analysd = map[string]int{}
	}
	sub := *c
	sub.rules, sub.order, sub.Notes = nil, nil, nil
	sub.only = map[string]bool{}
	for _, n := range names {
		sub.only[n] = true
	}
	err := properties[id].Run(&sub)
	for _, n := range sub.order {
		if sub.only[n] && c.rules[n] == nil {
			c.rules[n] = sub.rules[n]
			c.order = append(c.order, n)
		}
	}
	c.Notes = append(c.Notes, sub.Notes...)
	return err
}

type knownFinding struct {
	Prop, ID, Text string
}

func loadKnown(path, prop string) ([]knownFinding, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		// finding: property=<id> key=<rule|construct> :: <what fails>
		l = strings.TrimPrefix(l, "finding: ")
		head, text, _ := strings.Cut(l, " :: ")
		p, key, ok := strings.Cut(head, " key=")
		if !ok {
			return nil, fmt.Errorf("bad known-findings line %q", l)
		}
		p = strings.TrimPrefix(p, "property=")
		if p == prop {
			out = append(out, knownFinding{p, key, text})
		}
	}
	return out, sc.Err()
}

// Finish writes evidence, prints the verdict and returns the exit code.
func (c *Ctx) Finish(p *Property, start time.Time, fatal error) int {
	known, kerr := loadKnown(filepath.Join(c.Verif, "known_findings.txt"), c.Prop)
	if fatal == nil && kerr != nil {
		fatal = kerr
	}
	knownBy := map[string]knownFinding{}
	for _, k := range known {
		knownBy[k.ID] = k
	}
	var bad []Viol
	usedKnown := map[string]bool{}
	total, discharged := 0, 0
	type ruleEv struct {
		Rule       string   `json:"rule"`
		Text       string   `json:"text"`
		Instances  int      `json:"instances"`
		Minimum    int      `json:"minimum_instances"`
		Discharged int      `json:"discharged"`
		Known      int      `json:"known_findings"`
		Violated   int      `json:"violated"`
		Samples    []string `json:"samples"`
	}
	var rev []ruleEv
	for _, n := range c.order {
		r := c.rules[n]
		sort.Slice(r.Violations, func(i, j int) bool { return r.Violations[i].Key < r.Violations[j].Key })
		e := ruleEv{Rule: n, Text: r.Text, Minimum: r.Min, Discharged: r.Discharged, Samples: r.Samples}
		if e.Samples == nil {
			e.Samples = []string{}
		}
		for _, v := range r.Violations {
			if _, ok := knownBy[v.ID()]; ok {
				usedKnown[v.ID()] = true
				e.Known++
				continue
			}
			e.Violated++
			bad = append(bad, v)
		}
		e.Instances = r.Discharged + len(r.Violations)
		total += e.Instances
		discharged += r.Discharged
		// an obligation that could not be decided still is an anchor that was found
		if e.Instances+c.Analysd["undecided"] < r.Min {
			bad = append(bad, Viol{n, "vacuous", "-", fmt.Sprintf("rule matched only %d instances, at least %d were confirmed by hand: the analysis lost its anchors", e.Instances, r.Min)})
		}
		rev = append(rev, e)
	}
	if fatal != nil {
		bad = append(bad, Viol{"analysis", "undecided", "-", "the analysis could not complete: " + fatal.Error()})
	}
	for _, k := range known {
		if usedKnown[k.ID] {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.Prop, k.Text, k.ID)
		}
	}
	wall := time.Since(start).Seconds()
	ev := map[string]any{
		"property":   c.Prop,
		"tier":       c.Tier,
		"seed":       1,
		"level":      "other",
		"wall_s":     wall,
		"violations": len(bad),
		"coverage": map[string]any{
			"explanation":           p.Explain,
			"rules":                 rev,
			"obligations":           total,
			"discharged":            discharged,
			"known_findings_active": len(usedKnown),
			"analysed":              c.Analysd,
			"notes":                 c.Notes,
		},
	}
	evdir := filepath.Join(c.Verif, "evidence")
	_ = os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, c.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	var names []string
	for k := range c.Analysd {
		names = append(names, k)
	}
	sort.Strings(names)
	var parts []string
	for _, k := range names {
		parts = append(parts, fmt.Sprintf("%s=%d", k, c.Analysd[k]))
	}
	fmt.Printf("property %s tier %s: %d obligations, %d discharged, %d known findings, %d violations (%s) %.1fs\n",
		c.Prop, c.Tier, total, discharged, len(usedKnown), len(bad), strings.Join(parts, " "), wall)
	for _, r := range rev {
		fmt.Printf("  rule %-28s instances=%d discharged=%d known=%d violated=%d (minimum %d)\n", r.Rule, r.Instances, r.Discharged, r.Known, r.Violated, r.Minimum)
	}
	if len(bad) == 0 {
		_ = os.Remove(filepath.Join(evdir, c.Prop+".report.txt"))
		return 0
	}
	replay := filepath.Join(evdir, c.Prop+".report.txt")
	var sb strings.Builder
	for _, v := range bad {
		fmt.Fprintf(&sb, "%s: rule %s: %s: %s\n    key: %s\n", v.Pos, v.Rule, v.Key, v.Msg, v.ID())
	}
	_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	return 1
}

// relPos renders a position relative to the repository or the generated module.
func (w *World) relPos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	ps := w.Fset.Position(p)
	f := ps.Filename
	for _, pre := range []string{w.Repo + "/", w.Scratch + "/"} {
		f = strings.TrimPrefix(f, pre)
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}
