package main

import (
	"fmt"
	"os"
	"strings"
)

// The property DUMP prints summaries, for debugging: ZSV_DUMP is a list of
// TYPE.METHOD, with parts of type names.
func init() {
	register(&Property{ID: "DUMP", Gen: true, Run: func(c *Ctx) error {
		for _, want := range strings.Split(os.Getenv("ZSV_DUMP"), ",") {
			i := strings.LastIndex(want, ".")
			for _, g := range c.World.genTypes() {
				if !strings.HasSuffix(g.name, want[:i]) || g.fns[want[i+1:]] == nil {
					continue
				}
				s := newSession(c.World, g, map[string][]string{})
				o, err := s.sum(want[i+1:], "v")
				fmt.Println("==", g.name, want[i+1:], err)
				if err == nil {
					printNodes(flat(o), "  ")
				}
			}
		}
		return nil
	}})
}

func printNodes(l []*node, in string) {
	for _, n := range l {
		switch n.t {
		case "op":
			fmt.Printf("%s%s %s", in, n.dir, n.kind)
			for _, a := range n.args {
				fmt.Printf(" [%s]", a)
			}
			fmt.Printf(" val=%s typ=%s\n", n.val, n.typ)
		case "if":
			fmt.Printf("%sif %s\n", in, n.cond)
			printNodes(flat(n.a), in+"  ")
			if len(flat(n.b)) > 0 {
				fmt.Printf("%selse\n", in)
				printNodes(flat(n.b), in+"  ")
			}
		case "loop":
			fmt.Printf("%sloop %s (%s)\n", in, n.cnt, n.d)
			printNodes(n.body, in+"  ")
		case "require":
			fmt.Printf("%srequire %s\n", in, n.cond)
		case "ret":
			fmt.Printf("%sret %v\n", in, n.rets)
		default:
			fmt.Printf("%s%s\n", in, n.t)
		}
	}
}
