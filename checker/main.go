package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

// Property is one registered check.
type Property struct {
	ID      string
	Gen     bool // needs the generated corpus
	Explain string
	Run     func(c *Ctx) error
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification tree")
	flag.Parse()
	ids := strings.Split(*prop, ",")
	gen := false
	for _, id := range ids {
		p := properties[id]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		gen = gen || p.Gen
	}
	start := time.Now()
	var w *World
	var err error
	func() {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
			}
		}()
		w, err = LoadWorld(*repo, *verif, gen)
	}()
	code := 0
	for _, id := range ids {
		code = max(code, decide1(properties[id], *tier, *repo, *verif, w, err, start))
		start = time.Now()
	}
	w.Close()
	os.Exit(code)
}

func decide1(p *Property, tier, repo, verif string, w *World, werr error, start time.Time) (code int) {
	c := &Ctx{Prop: p.ID, Tier: tier, Repo: repo, Verif: verif, World: w, rules: map[string]*ruleStat{}, Analysd: map[string]int{}, Notes: []string{}}
	err := werr
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, debug.Stack())
		}
		code = c.Finish(p, start, err)
	}()
	if err != nil {
		return
	}
	c.Count("repo_functions", len(c.World.AllFns))
	if p.Gen {
		c.Count("generated_functions", len(c.World.GenFns))
		c.Count("generated_packages", len(c.World.Gen))
	}
	if os.Getenv("ZSV_DEBUG") != "" {
		for k, v := range c.World.GenFails {
			fmt.Println("GENFAIL", k, v)
		}
	}
	if p.Gen {
		c.checkCorpus()
	}
	err = p.Run(c)
	return
}
