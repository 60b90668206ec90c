package checks

import (
	"fmt"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/mon"
)

// C16, "within": operations started from inside a Walk callback, also one that ends in a panic, see
// and leave the same as operations on their own.

// walkWith writes down what a walk reports and does something at every callback. Slots are told
// apart by their order, not their address: those of expressions may be temporary.
func walkWith(a *ast.AstNode, each func(n int, stm *ast.Statement)) string {
	var b strings.Builder
	n := 0
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		name := "-"
		if root != nil {
			name = root.Name
		}
		fmt.Fprintf(&b, "%s %T %T;", name, *parent, *stm)
		if each != nil {
			each(n, stm)
		}
		n++
	})
	return b.String()
}

func walkPlain(a *ast.AstNode) string { return walkWith(a, nil) }

type deliberate struct{}

func init() {
	addGroup("C16", mon.Group{Name: "within", Quick: 5000, Deep: 200000, Run: func(c *mon.Ctx, i int) {
		cfg := cfgFor(c.R)
		cfg.Budget = min(cfg.Budget, 60)
		src, a := parsed(c, gen.New(c.R, cfg).Module())
		other := probeText(c.R)
		if len(other) > 20000 {
			other = "х = 1;"
		}
		wantOther := observe(parse(c, other))
		want := observe(a, nil)
		trace := walkPlain(a)
		before := dump(a)
		ops, limit := 0, 1+c.R.IntN(6)
		inside := func(n int, stm *ast.Statement) {
			if ops >= limit || c.R.IntN(3) == 0 {
				return
			}
			ops++
			c.Eval(1)
			switch c.R.IntN(5) {
			case 0:
				if d := want.differs(observe(a, nil)); d != "" {
					c.Fail(src, "rendered within a Walk the module gave %s", d)
				}
			case 1:
				if d := wantOther.differs(observe(parse(c, other))); d != "" {
					c.Fail(other, "parsed within the Walk of another module the text gave %s", d)
				}
			case 2:
				if t := walkPlain(a); t != trace {
					c.Fail(src, "a Walk within a Walk reported\n%s\nand the Walk alone\n%s", clip(t, 1500), clip(trace, 1500))
				}
			case 3:
				conf := randConf(c.R)
				alone, _ := parse(c, src)
				if x, y := alone.PrintStatementWithConf(*stm, conf), a.PrintStatementWithConf(*stm, conf); x != y {
					c.Fail(src, "printed within a Walk the statement gave %q, and by another object %q", y, x)
				}
			default:
				b := ast.NewAST(src)
				if err := b.Parse(); err != nil {
					c.Fail(src, "parsed within the Walk of the same text it is rejected: %v", err)
				}
				if d := want.differs(observe(b, nil)); d != "" {
					c.Fail(src, "parsed within the Walk of the same text it gave %s", d)
				}
			}
			c.Count("operations_within_a_walk", 1)
		}
		for k := 0; k < 2; k++ {
			ops = 0
			if t := walkWith(a, inside); t != trace {
				c.Fail(src, "a Walk with other operations in its callbacks reported\n%s\nand without\n%s", clip(t, 1500), clip(trace, 1500))
			}
			stop := c.R.IntN(8)
			func() {
				defer func() {
					if p := recover(); p != nil {
						if _, ok := p.(deliberate); !ok {
							panic(p)
						}
						c.Count("walks_left_by_a_panic", 1)
					}
				}()
				walkWith(a, func(n int, stm *ast.Statement) {
					if n == stop {
						panic(deliberate{})
					}
				})
			}()
			if after := dump(a); after != before {
				c.Fail(src, "the tree changed:\n%s\n%s", clip(before, 2500), clip(after, 2500))
			}
			if t := walkPlain(a); t != trace {
				c.Fail(src, "after a Walk left early the next reported\n%s\nand before\n%s", clip(t, 1500), clip(trace, 1500))
			}
			if d := want.differs(observe(a, nil)); d != "" {
				c.Fail(src, "after a Walk left early the module gave %s", d)
			}
			if d := wantOther.differs(observe(parse(c, other))); d != "" {
				c.Fail(other, "after a Walk left early another text gave %s", d)
			}
		}
		c.Seen(src)
	}})
}
