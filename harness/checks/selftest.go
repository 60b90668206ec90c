package checks

import (
	"verif/gen"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// SELF is not a property: it holds the two independent oracles (generator and reference parser)
// against each other.
func init() {
	register(&mon.Check{
		ID: "SELF", Rule: "generated modules, generator against reference parser",
		Groups: []mon.Group{{Name: "gen-vs-ref", Quick: 20000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			m := gen.New(c.R, cfgFor(c.R)).Module()
			src := gen.Full(c.R, m)
			c.Doing(src)
			c.Eval(1)
			r := ref.Parse(src)
			if !r.Accept() {
				c.Fail(src, "reference does not accept: unspec=%v %s lex=%v syn=%v@%d sem=%s", r.Unspec, r.Why, r.LexErr, r.Syntax, r.ErrTok, r.Sem)
			}
			want := tree.Fold(m.Clone())
			if !tree.Equal(want, r.Tree) {
				c.Fail(src, "%s", tree.Diff(want, r.Tree))
			}
			c.Seen(want.String())
		}}},
	})
}
