package checks

import (
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/canon"
	"verif/gen"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// ---- C04: blocks, statements, order ----

func leafStmt(n int) *tree.Node {
	v := tree.N("var", fmt.Sprintf("с%d", n))
	if n%3 == 0 {
		return tree.N("call", fmt.Sprintf("в%d", n))
	}
	return tree.N("assign", "", v, tree.N("var", "з"))
}

// shape builds a random block structure over numbered leaves; budget bounds the statements.
type shaper struct {
	r      *rand.Rand
	n      int
	budget int
}

func (s *shaper) block(depth, maxLen int) *tree.Node {
	b := tree.N("block", "")
	for k := s.r.IntN(maxLen + 1); k > 0 && s.budget > 0; k-- {
		b.Kids = append(b.Kids, s.stmt(depth, maxLen))
	}
	return b
}

func (s *shaper) cond() *tree.Node {
	s.n++
	return tree.N("var", fmt.Sprintf("у%d", s.n))
}

func (s *shaper) stmt(depth, maxLen int) *tree.Node {
	s.budget--
	s.n++
	if depth <= 0 || s.r.IntN(5) < 2 {
		return leafStmt(s.n)
	}
	d := depth - 1
	switch s.r.IntN(6) {
	case 0, 1:
		c, y := s.cond(), s.block(d, maxLen)
		el := tree.N("elifs", "")
		for k := s.r.IntN(4) - 1; k > 0; k-- {
			el.Kids = append(el.Kids, tree.N("elif", "", s.cond(), s.block(d, maxLen)))
		}
		no := tree.N("block", "")
		if s.r.IntN(2) == 0 {
			no = s.block(d, maxLen)
		}
		return tree.N("if", "", c, y, el, no)
	case 2:
		return tree.N("while", "", s.cond(), s.block(d, maxLen))
	case 3:
		v := s.cond()
		return tree.N("for", "", tree.N("bin", "=", v, s.cond()), s.cond(), s.block(d, maxLen))
	case 4:
		name := s.cond().Text
		return tree.N("foreach", name, s.cond(), s.block(d, maxLen))
	}
	return tree.N("try", "", s.block(d, maxLen), s.block(d, maxLen))
}

// wrapBlocks nests a block k levels deep in a repeating pattern of block statements.
func wrapBlocks(r *rand.Rand, inner *tree.Node, k int) *tree.Node {
	b := inner
	for i := 0; i < k; i++ {
		sib := func(n int) *tree.Node { return leafStmt(10000 + i*4 + n) }
		var st *tree.Node
		u := tree.N("var", fmt.Sprintf("у%d", i))
		switch r.IntN(6) {
		case 0:
			st = tree.N("if", "", u, b, tree.N("elifs", ""), tree.N("block", ""))
		case 1:
			st = tree.N("if", "", u, tree.N("block", "", sib(0)), tree.N("elifs", "", tree.N("elif", "", u, b)), tree.N("block", "", sib(1)))
		case 2:
			st = tree.N("if", "", u, tree.N("block", "", sib(0)), tree.N("elifs", ""), b)
		case 3:
			st = tree.N("while", "", u, b)
		case 4:
			st = tree.N("try", "", b, tree.N("block", "", sib(0)))
		default:
			st = tree.N("try", "", tree.N("block", ""), b)
		}
		b = tree.N("block", "")
		if r.IntN(2) == 0 {
			b.Kids = append(b.Kids, sib(2))
		}
		b.Kids = append(b.Kids, st)
		if r.IntN(2) == 0 {
			b.Kids = append(b.Kids, sib(3))
		}
	}
	return b
}

func inHome(r *rand.Rand, b *tree.Node) *tree.Node {
	return gen.ModuleOf([]string{"", "proc", "func"}[r.IntN(3)], b.Kids...)
}

func init() {
	groups := []mon.Group{
		{Name: "shapes", Quick: 120000, Deep: 6000000, Run: func(c *mon.Ctx, i int) {
			s := &shaper{r: c.R, budget: 2 + c.R.IntN(12)}
			b := s.block(1+c.R.IntN(4), 1+c.R.IntN(4))
			m := inHome(c.R, b)
			src, _, want := wantGen(c, m)
			c.Seen(want.String())
			c.Count("statements_compared", s.n)
			c.Sample("%q", src)
		}},
		{Name: "statements", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			// every kind of statement
			cfg := gen.Cfg{Depth: 1 + c.R.IntN(4), ExprDepth: 0, Stmts: 1 + c.R.IntN(4), Routines: 2, VarOnly: true, Budget: 10 + c.R.IntN(60), BigLists: c.R.IntN(10) == 0, Few: few(c.R)}
			m := gen.New(c.R, cfg).Module()
			_, _, want := wantGen(c, m)
			c.Seen(want.String())
			if i%64 == 0 {
				features(c, m)
			}
		}},
		{Name: "long-blocks", Quick: 700, Deep: 6000, Run: func(c *mon.Ctx, i int) {
			n := i % 350
			if i >= 350 {
				n = c.R.IntN(3000)
			}
			b := tree.N("block", "")
			for k := 0; k < n; k++ {
				b.Kids = append(b.Kids, leafStmt(k))
			}
			k := c.R.IntN(4)
			m := inHome(c.R, wrapBlocks(c.R, b, k))
			_, _, want := wantGen(c, m)
			c.Seen(fmt.Sprint(n, k, want.Size()))
			c.Count("statements_compared", n)
		}},
		{Name: "elif-chains", Quick: 300, Deep: 3000, Run: func(c *mon.Ctx, i int) {
			n := i
			if i >= 150 {
				n = c.R.IntN(1500)
			}
			el := tree.N("elifs", "")
			for k := 0; k < n; k++ {
				b := tree.N("block", "")
				for q := c.R.IntN(3); q > 0; q-- {
					b.Kids = append(b.Kids, leafStmt(k*3+q))
				}
				el.Kids = append(el.Kids, tree.N("elif", "", tree.N("var", fmt.Sprintf("у%d", k)), b))
			}
			no := tree.N("block", "")
			if c.R.IntN(2) == 0 {
				no.Kids = append(no.Kids, leafStmt(1))
			}
			m := inHome(c.R, tree.N("block", "", tree.N("if", "", tree.N("var", "у"), tree.N("block", "", leafStmt(2)), el, no), leafStmt(5)))
			_, _, want := wantGen(c, m)
			c.Seen(want.String())
		}},
		{Name: "deep", Quick: 500, Deep: 4000, Run: func(c *mon.Ctx, i int) {
			k := i
			if i >= 300 {
				k = c.R.IntN(2500)
			}
			s := &shaper{r: c.R, budget: 6}
			m := inHome(c.R, wrapBlocks(c.R, s.block(2, 3), k))
			_, _, want := wantGen(c, m)
			c.Seen(fmt.Sprint(k, want.Size()))
			c.Count("max_depth_total", k)
		}},
		{Name: "empty-corners", Quick: 20000, Deep: 400000, Run: func(c *mon.Ctx, i int) {
			// full blocks right before empty ones, empty statements everywhere
			s := &shaper{r: c.R, budget: 3 + c.R.IntN(10)}
			m := inHome(c.R, s.block(3, 2))
			st := gen.Wild(c.R)
			st.Empty, st.ElseAlt, st.NoLast = 60, 70, 50
			src, _ := gen.Render(c.R, gen.RandLayout(c.R), gen.Unparse(c.R, st, m))
			want := tree.Fold(m.Clone())
			wantTree(c, src, want)
			c.Seen(src)
		}},
	}
	groups = append(groups, treeEnum("if", "loop", "try", "nest", "foreach", "for", "label")...)
	register(&mon.Check{ID: "C04", Groups: groups,
		Rule:      "random block structures with uniquely named statements, all block lengths and ИначеЕсли chain lengths up to a bound, deep nesting, empty statements and blocks, and all short token sequences per block context; expected tree by construction or from the reference parser; non-trivial: distinct expected tree",
		MinCounts: map[string]int64{"statements_compared": 10000}})
}

// treeEnum compares the tree of every well-formed enumerated text with the reference tree.
func treeEnum(names ...string) []mon.Group {
	all := enumGroups(func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Accept() {
			wantTree(c, src, r.Tree)
			c.Count("enumerated_trees_compared", 1)
			c.Seen(src)
		}
	})
	var out []mon.Group
	for _, g := range all {
		for _, n := range names {
			if g.Name == "enum-"+n {
				out = append(out, g)
			}
		}
	}
	return out
}

// ---- C05: operators ----

// exprHomes puts an expression into every context that takes one.
var exprHomes = []func(e *tree.Node) *tree.Node{
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), e))
	},
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("", tree.N("if", "", e, tree.N("block", ""), tree.N("elifs", "", tree.N("elif", "", e, tree.N("block", ""))), tree.N("block", "")))
	},
	func(e *tree.Node) *tree.Node { return gen.ModuleOf("", tree.N("while", "", e, tree.N("block", ""))) },
	func(e *tree.Node) *tree.Node { return gen.ModuleOf("func", tree.N("return", "", e)) },
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("", tree.N("call", "ф", tree.N("var", "п"), e, e))
	},
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("proc", tree.N("assign", "", tree.N("item", "", tree.N("var", "м"), e), e))
	},
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), tree.N("ternary", "", e, e, e)))
	},
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("", tree.N("for", "", tree.N("bin", "=", tree.N("var", "сч"), e), e, tree.N("block", "")))
	},
	func(e *tree.Node) *tree.Node { return gen.ModuleOf("", tree.N("throw", "", e)) },
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), tree.N("new", "Т", e, e)))
	},
	func(e *tree.Node) *tree.Node {
		return gen.ModuleOf("", tree.N("dot", "", tree.N("call", "ф", e), tree.N("call", "г", e)))
	},
	func(e *tree.Node) *tree.Node { return gen.ModuleOf("", tree.N("call", "выполнить", e)) },
}

// constants that are likely to be special to someone.
var constants = []string{"0", "1", "2", "10", "100", "60", "24", "0.5", "1000", "3", `""`, `"а"`, `"0"`, "Истина", "Ложь", "Неопределено", "'00010101'", "'20200101'", "NULL", "п"}

func opExpr(r *rand.Rand, n *int, depth int, operand func() *tree.Node) *tree.Node {
	if depth <= 0 {
		return operand()
	}
	switch r.IntN(8) {
	case 0:
		return tree.Not(opExpr(r, n, depth-1, operand))
	case 1:
		return tree.Neg(opExpr(r, n, depth-1, operand))
	case 2:
		return operand()
	}
	return tree.N("bin", gen.BinOps[r.IntN(len(gen.BinOps))], opExpr(r, n, depth-1-r.IntN(2), operand), opExpr(r, n, depth-1-r.IntN(2), operand))
}

func init() {
	ops := gen.BinOps
	groups := []mon.Group{
		{Name: "flat", Quick: len(ops) * len(ops) * len(ops), Deep: len(ops) * len(ops) * len(ops) * len(ops), Run: func(c *mon.Ctx, i int) {
			// every sequence of operators without parentheses, every unary placement
			n := 3
			if c.Tier == "thorough" {
				n = 4
			}
			seq := make([]string, n)
			for k, v := 0, i; k < n; k, v = k+1, v/len(ops) {
				seq[k] = ops[v%len(ops)]
			}
			un := []string{"", "-", "Не ", "- -", "+"}
			total := 1
			for k := 0; k <= n; k++ {
				total *= 3
			}
			for u := 0; u < total; u++ {
				var b strings.Builder
				for k, v := 0, u; k <= n; k, v = k+1, v/3 {
					if k > 0 {
						b.WriteString(" " + seq[k-1] + " ")
					}
					w := un[v%3]
					if w != "" && c.R.IntN(12) == 0 {
						w = un[3+c.R.IntN(2)]
					}
					b.WriteString(w + []string{"а", "б()", "в.г", "1", "е"}[k])
				}
				r, ok := diff(c, "х = "+b.String()+";")
				if ok && r.Accept() {
					c.Count("operators_checked", n)
					c.Seen(b.String())
				}
			}
			c.Sample("х = а %s б() %s в.г ... with every placement of - and Не", seq[0], seq[1])
		}},
		{Name: "same", Quick: len(ops) * len(ops) * len(ops), Deep: len(ops) * len(ops) * len(ops), Run: func(c *mon.Ctx, i int) {
			// four operands of two names, with every placement of one unary operator
			var seq [3]string
			for k, v := 0, i; k < 3; k, v = k+1, v/len(ops) {
				seq[k] = ops[v%len(ops)]
			}
			un := pickS(c.R, "Не ", "Не ", "-")
			other := pickS(c.R, "б", "а1", "А", "а()", "1", "а.а")
			for u := 0; u < 128; u++ {
				var b strings.Builder
				for k := 0; k < 4; k++ {
					if k > 0 {
						b.WriteString(" " + seq[k-1] + " ")
					}
					if u>>k&1 == 1 {
						b.WriteString(un)
					}
					if k > 0 && u>>(3+k)&1 == 1 {
						b.WriteString(other)
					} else {
						b.WriteString("а")
					}
				}
				r, ok := diff(c, "х = "+b.String()+";")
				if ok && r.Accept() {
					c.Count("operators_checked", 3)
					c.Seen(b.String())
				}
			}
		}},
		{Name: "constants", Quick: len(constants) * len(constants), Deep: len(constants) * len(constants), Run: func(c *mon.Ctx, i int) {
			// literals next to each other under every one or two operators
			a, b := constants[i%len(constants)], constants[i/len(constants)]
			for _, o := range ops {
				texts := []string{a + " " + o + " " + b, "-" + a + " " + o + " " + b, "Не " + a + " " + o + " " + b, a + " " + o + " -" + b, "-(" + a + " " + o + " " + b + ")", "Не (" + a + " " + o + " " + b + ")"}
				for _, q := range ops {
					x := pickS(c.R, "п", "п", "п.с", "ф()", "(п + 1)", a, b)
					texts = append(texts, x+" "+o+" "+a+" "+q+" "+b, a+" "+o+" "+x+" "+q+" "+b, a+" "+o+" "+b+" "+q+" "+x,
						x+" "+o+" ("+a+" "+q+" "+b+")", "("+x+" "+o+" "+a+") "+q+" "+b, x+" "+o+" "+a+" "+q+" -"+b)
				}
				for _, e := range texts {
					h := "х = " + e + ";"
					if c.R.IntN(3) == 0 {
						h = strings.Replace(pickS(c.R, "Если % Тогда КонецЕсли;", "ф(%, %);", "х = м[%];", "Функция Ф() Возврат %; КонецФункции", "х = ?(%, %, %);", "Пока % Цикл КонецЦикла;", "Для сч = % По % Цикл КонецЦикла;"), "%", e, -1)
					}
					r, ok := diff(c, h)
					if ok && r.Accept() {
						c.Count("operators_checked", 2)
						c.Seen(h)
					}
				}
			}
			c.Sample("%s and %s under every pair of operators", a, b)
		}},
		{Name: "trees", Quick: 150000, Deep: 6000000, Run: func(c *mon.Ctx, i int) {
			n := 0
			names := few(c.R)
			g := gen.New(c.R, gen.Cfg{ExprDepth: 1, Budget: 40, Odd: true, Few: names})
			operand := func() *tree.Node {
				n++
				switch c.R.IntN(12) {
				case 0:
					return tree.Num(float64(c.R.IntN(100)))
				case 1:
					return tree.N("call", fmt.Sprintf("ф%d", n))
				case 2:
					return tree.N("dot", "", tree.N("var", fmt.Sprintf("о%d", n)), tree.N("var", "п"))
				case 3:
					return tree.N("item", "", tree.N("var", fmt.Sprintf("м%d", n)), tree.Num(0))
				case 4:
					return tree.N("ternary", "", tree.N("var", "у"), tree.N("var", "ф"), tree.Num(float64(n)))
				case 5:
					return g.New(0)
				case 6:
					return g.Literal()
				case 7:
					return tree.N("dot", "", tree.N("var", fmt.Sprintf("о%d", n)), tree.N("call", "м"))
				}
				if names != nil {
					return tree.N("var", g.Use())
				}
				return tree.N("var", fmt.Sprintf("п%d", n))
			}
			e := opExpr(c.R, &n, 1+c.R.IntN(6), operand)
			m := exprHomes[c.R.IntN(len(exprHomes))](e)
			src, _, want := wantGen(c, m)
			c.Count("operators_checked", n)
			c.Seen(want.String())
			c.Sample("%q", src)
		}},
		{Name: "long", Quick: 400, Deep: 5000, Run: func(c *mon.Ctx, i int) {
			// long flat expressions and towers of parentheses and unary operators
			k := 1 + c.R.IntN(400)
			var b strings.Builder
			for q := 0; q < k; q++ {
				b.WriteString(pickS(c.R, "", "", "", "-", "Не ") + fmt.Sprintf("а%d", q) + " " + ops[c.R.IntN(len(ops))] + " ")
			}
			b.WriteString("я")
			r, ok := diff(c, "х = "+b.String()+";")
			if ok && r.Accept() {
				c.Seen(b.String())
				c.Count("operators_checked", k)
			}
			n := 0
			e := tree.N("var", "а")
			for q := c.R.IntN(120); q > 0; q-- {
				n++
				switch c.R.IntN(4) {
				case 0:
					e = tree.Not(e)
				case 1:
					e = tree.Neg(e)
				case 2:
					e = tree.N("bin", ops[c.R.IntN(len(ops))], e, tree.N("var", fmt.Sprintf("п%d", n)))
				default:
					e = tree.N("bin", ops[c.R.IntN(len(ops))], tree.N("var", fmt.Sprintf("л%d", n)), e)
				}
			}
			wantGen(c, exprHomes[c.R.IntN(len(exprHomes))](e))
			c.Count("operators_checked", n)
		}},
	}
	groups = append(groups, treeEnum("expr", "exprctx", "for")...)
	register(&mon.Check{ID: "C05", Groups: groups,
		Rule:      "every operator sequence up to a length with every placement of unary operators, random operator trees spelled with minimal or redundant parentheses in every context that takes an expression, long and deep expressions, all short token sequences; expected grouping from the reference parser or by construction; non-trivial: distinct expression",
		MinCounts: map[string]int64{"operators_checked": 100000}})
}

// ---- C06: access paths and argument lists ----

func init() {
	groups := []mon.Group{
		{Name: "paths", Quick: 150000, Deep: 6000000, Run: func(c *mon.Ctx, i int) {
			g := gen.New(c.R, gen.Cfg{ExprDepth: 2 + c.R.IntN(2), Budget: 10 + c.R.IntN(60), BigLists: c.R.IntN(8) == 0, Odd: true, Few: few(c.R)})
			d := 1 + c.R.IntN(3)
			var m *tree.Node
			switch c.R.IntN(9) {
			case 0:
				m = gen.ModuleOf("", tree.N("assign", "", g.Path(d, "target"), tree.N("var", "з")))
			case 1:
				m = gen.ModuleOf("", g.Path(d, "call"))
			case 2:
				m = gen.ModuleOf("proc", tree.N("assign", "", tree.N("var", "х"), g.New(d)))
			case 3:
				m = gen.ModuleOf("", tree.N("throw", "", g.ThrowArg(d)))
			case 4:
				m = gen.ModuleOf("", g.Exec(d), g.Path(d, "call"))
			case 5:
				m = gen.ModuleOf("", tree.N("foreach", "ц", g.LoopIn(d), tree.N("block", "")))
			case 6:
				m = gen.ModuleOf("func", tree.N("return", "", tree.N("ternary", "", g.Path(d, "any"), g.Path(d, "any"), g.New(d-1))))
			default:
				m = exprHomes[c.R.IntN(len(exprHomes))](g.Path(d, "any"))
			}
			src, _, want := wantGen(c, m)
			c.Count("links_and_args_compared", want.Size())
			c.Seen(want.String())
			c.Sample("%q", src)
		}},
		{Name: "arg-patterns", Quick: 2000, Deep: 20000, Run: func(c *mon.Ctx, i int) {
			// every pattern of present and omitted arguments
			n := 1 + i%9
			pat := c.R.IntN(1 << n)
			if i < 1022 {
				n, pat = 1, i
				for p := 2; pat >= p; p *= 2 {
					pat -= p
					n++
				}
			}
			var a []*tree.Node
			for k := 0; k < n; k++ {
				if pat>>k&1 == 1 {
					a = append(a, tree.N("var", fmt.Sprintf("а%d", k)))
				} else {
					a = append(a, tree.None())
				}
			}
			if n == 1 && pat == 0 {
				a = nil
			}
			cp := func() []*tree.Node {
				var o []*tree.Node
				for _, x := range a {
					o = append(o, x.Clone())
				}
				return o
			}
			stmts := []*tree.Node{
				tree.N("call", "ф", cp()...),
				tree.N("dot", "", tree.N("call", "о", cp()...), tree.N("call", "м", cp()...)),
				tree.N("assign", "", tree.N("var", "х"), tree.N("new", "Т", cp()...)),
			}
			if len(a) > 0 && a[0].Kind != "none" {
				stmts = append(stmts, tree.N("assign", "", tree.N("var", "х"), tree.N("new", "", cp()...)))
				if len(a) > 1 {
					stmts = append(stmts, tree.N("throw", "", tree.N("tuple", "", cp()...)))
				}
			}
			_, _, want := wantGen(c, gen.ModuleOf("", stmts...))
			c.Seen(want.String())
			c.Count("links_and_args_compared", want.Size())
		}},
		{Name: "sizes", Quick: 600, Deep: 6000, Run: func(c *mon.Ctx, i int) {
			k := 1 + i%300
			if i >= 300 {
				k = 1 + c.R.IntN(2000)
			}
			var n *tree.Node
			for q := 0; q < k; q++ {
				l := tree.N("var", fmt.Sprintf("з%d", q))
				if c.R.IntN(2) == 0 {
					l = tree.N("call", fmt.Sprintf("м%d", q), tree.N("var", "а"), tree.None())
				}
				for c.R.IntN(4) == 0 {
					l = tree.N("item", "", l, tree.N("var", fmt.Sprintf("и%d", q)))
				}
				if n == nil {
					n = l
				} else {
					n = tree.N("dot", "", n, l)
				}
			}
			args := make([]*tree.Node, k)
			for q := range args {
				args[q] = tree.N("var", fmt.Sprintf("а%d", q))
				if q != 0 && c.R.IntN(5) == 0 {
					args[q] = tree.None()
				}
			}
			deep := tree.N("var", "я")
			for q := 0; q < min(k, 300); q++ {
				deep = tree.N("call", fmt.Sprintf("ф%d", q), tree.N("item", "", tree.N("var", "м"), deep))
			}
			_, _, want := wantGen(c, gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), n), tree.N("call", "ф", args...), tree.N("assign", "", tree.N("var", "х"), tree.N("new", "Т", args...)), tree.N("assign", "", tree.N("var", "х"), deep)))
			c.Count("links_and_args_compared", want.Size())
			c.Seen(fmt.Sprint(k, want.Size()))
		}},
		{Name: "ismethod", Quick: 5000, Deep: 100000, Run: func(c *mon.Ctx, i int) {
			// a chain is a method chain exactly when its last link is a call; the parameter lists are the written ones
			g := gen.New(c.R, gen.Cfg{ExprDepth: 1, Budget: 20, Few: few(c.R)})
			p := g.Path(2, "any")
			if p.Kind != "dot" {
				p = tree.N("dot", "", tree.N("var", "о"), tree.N([]string{"var", "call"}[c.R.IntN(2)], "м"))
			}
			src := gen.Full(c.R, gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), p)))
			c.Eval(1)
			a, err := parse(c, src)
			if err != nil {
				c.Fail(src, "rejected: %v", err)
			}
			asg, ok := a.Body[0].(ast.AssignmentStatement)
			if !ok {
				c.Fail(src, "not an assignment: %T", a.Body[0])
			}
			x := asg.Expr.Statements[0]
			for {
				w, ok := x.(ast.ExprStatements)
				if !ok || len(w.Statements) != 1 {
					break
				}
				x = w.Statements[0]
			}
			ch, ok := x.(ast.CallChainStatement)
			if !ok {
				c.Fail(src, "not a call chain: %T", x)
			}
			if want := p.Kids[1].Kind == "call"; ch.IsMethod() != want {
				c.Fail(src, "IsMethod() = %v, want %v", ch.IsMethod(), want)
			}
			if m, ok := ch.Unit.(ast.MethodStatement); ok {
				if !tree.Equal(tree.Fold(canon.Expr(m.Params())), tree.Fold(canon.Expr(m.Param))) {
					c.Fail(src, "Params() differs from the written arguments")
				}
			}
			c.Seen(src)
			c.Count("chains_classified", 1)
		}},
	}
	groups = append(groups, treeEnum("exprpath", "foreach", "statement")...)
	register(&mon.Check{ID: "C06", Groups: groups,
		Rule:      "random access paths of member, call and index links in every context, every pattern of present and omitted arguments up to nine, every list and chain length up to a bound, nested calls, both forms of Новый, Выполнить, ВызватьИсключение with argument lists, and all short token sequences; expected tree by construction; non-trivial: distinct expected tree",
		MinCounts: map[string]int64{"links_and_args_compared": 100000, "chains_classified": 1000}})
}

// ---- C13: parts are independent of their surroundings ----

// part is an item of a block: its meaning and its exact JSON.
type part struct {
	node *tree.Node
	raw  string
}

func partsIn(c *mon.Ctx, src string, list ast.Statements) (ps []part) {
	for _, st := range list {
		b, err := json.Marshal(st)
		if err != nil {
			c.Fail(src, "JSON of a statement: %v", err)
		}
		ps = append(ps, part{tree.Fold(canon.Stmt(st)), string(b)})
	}
	return
}

func bodyOf(c *mon.Ctx, src string) ast.Statements {
	c.Eval(1)
	a, err := parse(c, src)
	if err != nil {
		c.Fail(src, "rejected: %v", err)
	}
	return a.Body
}

func partsOf(c *mon.Ctx, src string) []part { return partsIn(c, src, bodyOf(c, src)) }

func init() {
	register(&mon.Check{ID: "C13",
		Rule:      "generated routines and statements are parsed alone and then in modules put together from them in random order and number; subtrees must be the same; non-trivial: distinct composed text with at least two parts",
		MinCounts: map[string]int64{"parts_compared": 10000, "rejected_together": 5000},
		Groups: []mon.Group{
			{Name: "routines", Quick: 25000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
				cfg := cfgFor(c.R)
				cfg.Budget = 5 + c.R.IntN(50)
				n := 2 + c.R.IntN(5)
				if c.R.IntN(50) == 0 {
					n = 40 + c.R.IntN(60)
					cfg.Budget = 8
				}
				var srcs []string
				var alone []part
				var base *tree.Node
				near := c.R.IntN(2) == 0 // parts that hardly differ
				for k := 0; k < n; k++ {
					// names repeat between the parts on purpose
					rt := gen.New(c.R, cfg).Routine()
					if near && k > 0 {
						rt = variant(c.R, base)
					}
					base = rt
					s := gen.Full(c.R, rt)
					srcs = append(srcs, s)
					p := partsOf(c, s)
					if len(p) != 1 {
						c.Fail(s, "one routine gave %d items", len(p))
					}
					alone = append(alone, p[0])
				}
				var body []string
				if c.R.IntN(2) == 0 {
					for k := 1 + c.R.IntN(3); k > 0; k-- {
						s := gen.Full(c.R, gen.ModuleOf("", gen.New(c.R, cfg).Stmt(2)))
						body = append(body, s)
						alone = append(alone, partsOf(c, s)...)
					}
				}
				glob := pickS(c.R, "", "", "Перем г1, г2 Экспорт;\n", "&НаКлиенте Перем а;")
				src := glob + strings.Join(srcs, "\n") + "\n" + strings.Join(body, "\n;")
				same(c, src, alone, partsOf(c, src))
				c.Seen(src)
				c.Sample("%q", src)
			}},
			{Name: "statements", Quick: 60000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
				cfg := cfgFor(c.R)
				cfg.Budget = 5 + c.R.IntN(30)
				n := 2 + c.R.IntN(5)
				if c.R.IntN(40) == 0 {
					n = 30 + c.R.IntN(100)
					cfg.Budget = 5
				}
				var alone []part
				var srcs []string
				var base *tree.Node
				near := c.R.IntN(2) == 0
				for k := 0; k < n; k++ {
					g := gen.New(c.R, cfg)
					st := g.Stmt(2)
					if near && k > 0 {
						st = variant(c.R, base)
					}
					base = st
					s := gen.Full(c.R, gen.ModuleOf("", st))
					p := partsOf(c, s)
					alone = append(alone, p...)
					srcs = append(srcs, s)
				}
				seq := strings.Join(srcs, pickS(c.R, "\n;", "\n ; ", "\n;\n", "\n;;\n"))
				same(c, seq, alone, partsOf(c, seq))
				// and the same statements inside every kind of block
				type home struct {
					before, after string
					get           func(st ast.Statement) ast.Statements
				}
				homes := []home{
					{"Процедура П(а, б = 1) Экспорт ", "\nКонецПроцедуры", func(st ast.Statement) ast.Statements { return st.(*ast.FunctionOrProcedure).Body }},
					{"Если у Тогда ", "\nКонецЕсли;", func(st ast.Statement) ast.Statements { return st.(*ast.IfStatement).TrueBlock }},
					{"Если у Тогда а = 1 ИначеЕсли ф Тогда ", "\nИначе б = 2 КонецЕсли;", func(st ast.Statement) ast.Statements {
						return st.(*ast.IfStatement).IfElseBlock[0].(*ast.IfStatement).TrueBlock
					}},
					{"Если у Тогда а = 1 ИначеЕсли ф Тогда б = 1 Иначе ", "\nКонецЕсли;", func(st ast.Statement) ast.Statements { return st.(*ast.IfStatement).ElseBlock }},
					{"Пока у Цикл ", "\nКонецЦикла;", func(st ast.Statement) ast.Statements { return st.(*ast.LoopStatement).Body }},
					{"Для сч = 1 По 2 Цикл ", "\nКонецЦикла;", func(st ast.Statement) ast.Statements { return st.(*ast.LoopStatement).Body }},
					{"Для Каждого эл Из м Цикл ", "\nКонецЦикла;", func(st ast.Statement) ast.Statements { return st.(*ast.LoopStatement).Body }},
					{"Попытка ", "\nИсключение КонецПопытки;", func(st ast.Statement) ast.Statements { return st.(ast.TryStatement).Body }},
					{"Попытка а = 1 Исключение ", "\nКонецПопытки;", func(st ast.Statement) ast.Statements { return st.(ast.TryStatement).Catch }},
				}
				h := homes[i%len(homes)]
				src := h.before + seq + h.after
				p := bodyOf(c, src)
				if len(p) != 1 {
					c.Fail(src, "one statement gave %d items", len(p))
				}
				same(c, src, alone, partsIn(c, src, h.get(p[0])))
				c.Seen(src)
			}},
			{Name: "rejected", Quick: 20000, Deep: 800000, Run: func(c *mon.Ctx, i int) {
				// what is wrong in a routine on its own is wrong among others
				cfg := cfgFor(c.R)
				cfg.Budget = 3 + c.R.IntN(20)
				stmt := func() string {
					if c.R.IntN(2) == 0 {
						return ""
					}
					return gen.Full(c.R, gen.ModuleOf("", gen.New(c.R, cfg).Stmt(2))) + "\n;"
				}
				word, bad := pickS(c.R, "Процедура", "Функция"), ""
				if bad = pickS(c.R, "Прервать", "Продолжить", "ВызватьИсключение", "Возврат 1"); bad == "Возврат 1" {
					word = "Процедура"
				}
				home := pickS(c.R, "%s;", "%s;", "Если у Тогда %s; КонецЕсли;", "Если у Тогда ИначеЕсли ф Тогда %s; КонецЕсли;", "Если у Тогда Иначе %s КонецЕсли;", "Попытка %s; Исключение КонецПопытки;",
					"Пока у Цикл КонецЦикла; %s;", "Попытка Исключение КонецПопытки; %s;", "Попытка %s Исключение ВызватьИсключение КонецПопытки;")
				routine := word + " " + pickS(c.R, "П", "Плохая") + "(" + pickS(c.R, "", "а", "Знач а, б = 1") + ") " + pickS(c.R, "", "Экспорт ") + stmt() + strings.Replace(home, "%s", bad, 1) + stmt() + "\nКонец" + strings.NewReplacer("Процедура", "Процедуры", "Функция", "Функции").Replace(word) + "\n"
				if !ref.Parse(routine).Reject() {
					return
				}
				c.Eval(2)
				if _, err := parse(c, routine); err == nil {
					c.Fail(routine, "accepted, though %s cannot stand there", bad)
				}
				var texts []string
				for k := c.R.IntN(4); k >= 0; k-- {
					texts = append(texts, gen.Full(c.R, gen.New(c.R, cfg).Routine()))
				}
				if c.R.IntN(2) == 0 { // routines that leave nothing out which could stay behind
					texts = append(texts, pickS(c.R, "Функция Ф() Экспорт КонецФункции", "Функция Ф() Пока у Цикл Возврат 1 КонецЦикла КонецФункции", "Процедура Ц() Попытка Исключение Пока у Цикл Прервать КонецЦикла; ВызватьИсключение КонецПопытки КонецПроцедуры",
						"Функция Ф() Попытка Возврат 1 Исключение Возврат 2 КонецПопытки КонецФункции", "Процедура Ц() КонецПроцедуры", "Функция Ф(а) Перем б; Возврат а КонецФункции"))
				}
				at := c.R.IntN(len(texts) + 1)
				texts = append(texts[:at], append([]string{routine}, texts[at:]...)...)
				src := pickS(c.R, "", "", "Перем г1, г2 Экспорт;\n", "&НаКлиенте Перем а;") + strings.Join(texts, "\n") + "\n" + stmt()
				if !ref.Parse(src).Reject() {
					return
				}
				if _, err := parse(c, src); err == nil {
					c.Fail(src, "accepted, though routine %q is rejected on its own", routine)
				}
				c.Count("rejected_together", 1)
				c.Seen(src)
			}},
		}})
}

func same(c *mon.Ctx, src string, want, got []part) {
	if len(want) != len(got) {
		c.Fail(src, "%d parts when parsed alone, %d together", len(want), len(got))
	}
	for k := range want {
		if !tree.Equal(want[k].node, got[k].node) {
			c.Fail(src, "part %d differs from the same text parsed alone at %s", k, tree.Diff(want[k].node, got[k].node))
		}
		if want[k].raw != got[k].raw {
			c.Fail(src, "the JSON of part %d is %s, that of the same text parsed alone is %s", k, clip(got[k].raw, 1500), clip(want[k].raw, 1500))
		}
	}
	c.Count("parts_compared", len(want))
}

func swapCase(r *rand.Rand, s string) string {
	all := r.IntN(2) == 0
	return strings.Map(func(c rune) rune {
		if !all && r.IntN(2) == 0 {
			return c
		}
		switch {
		case c >= 'а' && c <= 'я' || c >= 'a' && c <= 'z':
			return c - 32
		case c >= 'А' && c <= 'Я' || c >= 'A' && c <= 'Z':
			return c + 32
		case c == 'ё':
			return 'Ё'
		case c == 'Ё':
			return 'ё'
		}
		return c
	}, s)
}

// variant is a near-duplicate of a tree: letter case of names and strings, some literals.
func variant(r *rand.Rand, n *tree.Node) *tree.Node {
	n = n.Clone()
	rate := 1 + r.IntN(6)
	var walk func(n *tree.Node)
	walk = func(n *tree.Node) {
		if r.IntN(rate) == 0 {
			switch n.Kind {
			case "str":
				n.Src = ""
				switch r.IntN(5) {
				case 0:
					n.Text += pickS(r, " ", "a", "я", "1")
				case 1:
					n.Text = ""
				case 2:
					n.Text = strings.TrimSpace(n.Text)
				default:
					n.Text = swapCase(r, n.Text)
				}
			case "num":
				*n = *tree.Num(float64(r.IntN(20)) / 4)
			case "bool":
				*n = *tree.Bool(r.IntN(2) == 0)
			case "call":
				if n.Text != "выполнить" {
					n.Text = swapCase(r, n.Text)
				}
			case "var", "new", "param", "func", "proc", "foreach", "label", "goto":
				n.Text = swapCase(r, n.Text)
			}
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(n)
	return n
}
