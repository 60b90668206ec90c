package checks

import (
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/mon"
	"verif/ref"
)

// ---- C29: an object can be used again ----

func message(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// whatever uses an object between two parses; it may leave any tree in it.
func whatever(c *mon.Ctx, a *ast.AstNode, src string, accepted bool) string {
	n := c.R.IntN(10)
	if !accepted && n < 4 {
		n = 9 // what a rejected text leaves is no module to print
	}
	switch n {
	case 0:
		a.Print(randConf(c.R))
		return "Print"
	case 1:
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			a.Print(randConf(c.R))
			a.JSON()
		}
		return "several renderings"
	case 2:
		l, _ := blockStatements(a)
		for k := 0; k < len(l) && k < 5; k++ {
			a.PrintStatementWithConf(l[c.R.IntN(len(l))], randConf(c.R))
			a.PrintStatement(l[k])
		}
		return "PrintStatement"
	case 3:
		a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})
		return "Walk"
	case 4:
		a.JSON()
		return "JSON"
	case 5:
		spoil(a)
		return "edits"
	case 6:
		a.ModuleStatement.Body, a.ModuleStatement.GlobalVariables = nil, nil
		return "an emptied tree"
	case 7:
		b := ast.NewAST(gen.Full(c.R, smallModule(c.R)))
		b.Parse()
		a.ModuleStatement.Body, a.ModuleStatement.GlobalVariables = b.ModuleStatement.Body, b.ModuleStatement.GlobalVariables
		return "a tree put into it"
	case 8:
		for k := 1 + c.R.IntN(3); k > 0; k-- {
			a.ModuleStatement.Append(ast.AssignmentStatement{Var: ast.VarStatement{Name: "добавлено"}, Expr: ast.ExprStatements{Statements: ast.Statements{1.0}}}, a)
		}
		return "Append"
	}
	return "nothing"
}

// again parses one object several times.
func again(c *mon.Ctx, src string, times int) {
	c.Doing(src)
	c.Eval(1)
	fresh := ast.NewAST(src)
	ferr := fresh.Parse()
	want := observe(fresh, ferr)
	a := ast.NewAST(src)
	if a.SrsCode() != src {
		c.Fail(src, "SrsCode of a new object is %q", clip(a.SrsCode(), 500))
	}
	done := ""
	for k := 0; k < times; k++ {
		old := a.ModuleStatement // as a program may have kept it
		was := tell(&old)
		err := a.Parse()
		if message(err) != message(ferr) {
			c.Fail(src, "parse %d of one object (after %s) ends with %q, a new object with %q", k+1, done, message(err), message(ferr))
		}
		if d := want.differs(observe(a, err)); d != "" {
			c.Fail(src, "parse %d of one object (after %s) against a new object: %s", k+1, done, d)
		}
		if a.SrsCode() != src {
			c.Fail(src, "SrsCode is %q after parse %d", clip(a.SrsCode(), 500), k+1)
		}
		if d := textDiff(was, tell(&old), noSkip); d != "" {
			c.Fail(src, "parse %d (after %s) changed the tree kept from before it: %s", k+1, done, d)
		}
		if k > 0 {
			c.Count("parses_repeated", 1)
		}
		if k == times-1 {
			break
		}
		done = whatever(c, a, src, err == nil)
		c.Count("between_"+strings.ReplaceAll(done, " ", "_"), 1)
		if a.SrsCode() != src {
			c.Fail(src, "SrsCode is %q after %s", clip(a.SrsCode(), 500), done)
		}
	}
	if ferr != nil {
		c.Count("rejected_again", 1)
	} else {
		c.Count("accepted_again", 1)
	}
	// the object it was compared with is still what it was
	if d := want.differs(observe(fresh, ferr)); d != "" {
		c.Fail(src, "parsing another object again changed this one: %s", d)
	}
	c.Seen(src)
	c.Sample("%q", clip(src, 200))
}

func init() {
	groups := []mon.Group{
		{Name: "modules", Quick: 12000, Deep: 600000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 150)
			again(c, gen.Full(c.R, gen.New(c.R, cfg).Module()), 2+c.R.IntN(3))
		}},
		{Name: "rejected", Quick: 20000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			toks := gen.Unparse(c.R, gen.Wild(c.R), smallModule(c.R))
			switch i % 4 {
			case 0:
				toks = mutateTokens(c.R, toks)
			case 1:
				toks = toks[:c.R.IntN(len(toks)+1)]
			default:
				toks = plantFault(c.R, toks)
			}
			src, _ := gen.Render(c.R, gen.RandLayout(c.R), toks)
			again(c, src, 2+c.R.IntN(3))
		}},
		{Name: "any-text", Quick: 8000, Deep: 400000, Run: func(c *mon.Ctx, i int) {
			src := oddText(c.R)
			switch i % 3 {
			case 0:
				src = randomBytes(c.R)
			case 1:
				src = tokenSoup(c.R)
			}
			again(c, src, 2+c.R.IntN(2))
		}},
		{Name: "open-ends", Quick: 3000, Deep: 100000, Run: func(c *mon.Ctx, i int) {
			// texts that stop inside loops, handlers, functions and declarations
			j := &jumpy{r: c.R, budget: 3 + c.R.IntN(20), rate: 5 + c.R.IntN(20)}
			m := gen.ModuleOf([]string{"", "proc", "func"}[i%3], j.block(1+c.R.IntN(4)).Kids...)
			src := gen.Full(c.R, m)
			rs := []rune(src)
			cut := string(rs[:c.R.IntN(len(rs)+1)])
			again(c, pickS(c.R, "", "Перем а, б; ", "Перем а; Перем А; ", "Процедура П() Перем а, б; КонецПроцедуры ")+cut+pickS(c.R, "", " Прервать", "; Возврат 1;", " ВызватьИсключение; х = ", ";"), 2+c.R.IntN(3))
		}},
		{Name: "often", Quick: 200, Deep: 3000, Run: func(c *mon.Ctx, i int) {
			again(c, gen.Full(c.R, smallModule(c.R)), 5+c.R.IntN(60))
		}},
		{Name: "large", Quick: 40, Deep: 200, Run: func(c *mon.Ctx, i int) {
			again(c, largeModule(c.R, i%40), 2+c.R.IntN(2))
		}},
		{Name: "without-text", Quick: 40, Deep: 40, Run: func(c *mon.Ctx, i int) {
			src := strings.Repeat([]string{"", " ", "\n", "\t", "// ком\n", "#Область А\n", ";", "\r\n"}[i%8], i/8)
			again(c, src, 4)
		}},
	}
	groups = append(groups, enumGroupsOf(func(c *mon.Ctx, src string, r *ref.Result) {
		if c.R.IntN(4) == 0 {
			again(c, src, 2)
		}
	}, "loop", "try", "locals", "module", "label", "params")...)
	register(&mon.Check{ID: "C29", Groups: groups,
		Rule:        "objects of accepted, rejected, cut off and odd texts are parsed two to sixty times, with renderings, walks, edits, emptied, exchanged and appended-to trees between; every parse is compared with that of a new object in verdict, message, tree, JSON and printed text, the tree kept from before with what it was, and SrsCode with the text; non-trivial: distinct text",
		Assumptions: []string{"what a rejected text leaves in the object is not judged", "calls of Error and Lex, which belong to the generated parser, between parses are not made"},
		MinCounts:   map[string]int64{"parses_repeated": 20000, "accepted_again": 5000, "rejected_again": 5000}})
}
