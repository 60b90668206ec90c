package checks

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/canon"
	"verif/gen"
	"verif/lexref"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// C30: the operations of the tree itself (Not, UnaryMinus, IsMethod, Params, Fill, DefaultValue, Append,
// the text of an operator) do what they are named for, on every node that has them.

// eachNode calls f for every value an interface-typed place of a tree holds; member: right of a dot.
func eachNode(v reflect.Value, member bool, f func(x any, member bool)) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			if v.Elem().CanInterface() {
				f(v.Elem().Interface(), member)
			}
			eachNode(v.Elem(), member, f)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			eachNode(v.Elem(), member, f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ft := v.Type().Field(i)
			if !ft.IsExported() {
				continue
			}
			in := member && ft.Name == "Object"
			if ft.Name == "Unit" {
				in = true
			}
			if ft.Type == reflect.TypeOf(ast.ExprStatements{}) {
				f(v.Field(i).Interface(), false)
			}
			eachNode(v.Field(i), in, f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			eachNode(v.Index(i), false, f)
		}
	}
}

// same are two expressions after the folding of constants.
func sameExpr(a, b *tree.Node) bool { return tree.Equal(tree.Fold(a.Clone()), tree.Fold(b.Clone())) }

func checkMarks(c *mon.Ctx, src string, x any) {
	want := canon.Expr(x)
	if want.Kind == "not" || want.Kind == "neg" || want.Kind == "tuple" || want.Kind == "none" {
		return
	}
	held := reflect.ValueOf(x)
	byValue := held.Kind() != reflect.Ptr
	neg, not := c.R.IntN(3) > 0, c.R.IntN(3) > 0
	var y any = x
	wanted := want
	if neg {
		v, ok := y.(ast.IUnary)
		if !ok {
			return
		}
		y, wanted = v.UnaryMinus(), tree.Neg(wanted)
	}
	if not {
		v, ok := y.(ast.INot)
		if !ok {
			return
		}
		y, wanted = v.Not(), tree.Not(wanted)
	}
	if !neg && !not {
		return
	}
	c.Eval(1)
	if reflect.TypeOf(y) != reflect.TypeOf(x) && fmt.Sprintf("%T", y) != "*"+fmt.Sprintf("%T", x) && "*"+fmt.Sprintf("%T", y) != fmt.Sprintf("%T", x) {
		c.Count("another_type_of_node", 1)
	}
	if got := canon.Expr(y); !sameExpr(got, wanted) {
		c.Fail(src, "%T %s: UnaryMinus %v, Not %v give %s", x, want, neg, not, got)
	}
	if byValue {
		if now := canon.Expr(x); !tree.Equal(now, want) {
			c.Fail(src, "%T %s: UnaryMinus %v, Not %v change the value they are called on to %s", x, want, neg, not, now)
		}
	}
	// as text and document it is that too
	if c.R.IntN(4) == 0 {
		a := ast.NewAST("")
		a.ModuleStatement.Body = ast.Statements{ast.AssignmentStatement{Var: ast.VarStatement{Name: "х"}, Expr: ast.ExprStatements{Statements: ast.Statements{y}}}}
		b, _ := printParse(c, src, a, randConf(c.R))
		if got := canonModule(b).Kids[1].Kids[1]; !sameExpr(got, wanted) {
			c.Fail(src, "%T %s marked UnaryMinus %v, Not %v prints as %s", x, want, neg, not, got)
		}
		checkJSON(c, src, a, canonModule(a))
		c.Count("marked_and_rendered", 1)
	}
	c.Count("nodes_marked", 1)
	c.Count(strings.TrimPrefix(fmt.Sprintf("marked_%T", x), "*"), 1)
}

// parts: what IsMethod and Params tell.
func checkParts(c *mon.Ctx, src string, x any) {
	switch v := x.(type) {
	case ast.CallChainStatement:
		_, want := v.Unit.(ast.MethodStatement)
		if v.IsMethod() != want {
			c.Fail(src, "IsMethod of %s is %v", canon.Expr(v), v.IsMethod())
		}
		c.Count("chains_asked", 1)
	case ast.MethodStatement:
		if got, want := canon.Expr(v.Params()), canon.Expr(v.Param); !tree.Equal(got, want) {
			c.Fail(src, "Params of %s are %s", canon.Expr(v), got)
		}
		c.Count("calls_asked", 1)
	case ast.NewObjectStatement:
		if got, want := canon.Expr(v.Params()), canon.Expr(v.Param); !tree.Equal(got, want) {
			c.Fail(src, "Params of %s are %s", canon.Expr(v), got)
		}
		c.Count("calls_asked", 1)
	}
}

func tokenOf(text string) ast.Token {
	var t ast.Token
	t.Next(srcText(text))
	return t
}

// checkParameter builds a parameter the way the parser does.
func checkParameter(c *mon.Ctx, r *rand.Rand) {
	c.Eval(1)
	e := &editor{r: r, rate: 100, done: map[string]int{}}
	p := ast.ParamStatement{Name: "прежнее", IsValue: r.IntN(2) == 0}
	name := gen.RandCase(r, e.name())
	c.Doing(name)
	var by *ast.Token
	if r.IntN(2) == 0 {
		t := tokenOf("Знач")
		by = &t
	}
	if q := p.Fill(by, tokenOf(name+" ")); q != &p {
		p = *q
	}
	if p.Name != name || p.IsValue != (by != nil) {
		c.Fail(name, "Fill(%v, %s) gives %+v", by != nil, name, p)
	}
	want := tree.None()
	if r.IntN(4) > 0 {
		var v ast.Statement
		want = tree.N("undef", "")
		if r.IntN(3) > 0 {
			v = e.literal()
			want = canon.Expr(v)
		}
		if q := p.DefaultValue(v); q != &p {
			p = *q
		}
		if got := canon.Expr(p.Default); !tree.Equal(got, want) {
			c.Fail(name, "DefaultValue(%v) gives %s", v, got)
		}
	}
	if p.Name != name || p.IsValue != (by != nil) {
		c.Fail(name, "DefaultValue changed the parameter to %+v", p)
	}
	a := ast.NewAST("")
	a.ModuleStatement.Body = ast.Statements{&ast.FunctionOrProcedure{Type: ast.PFTypeProcedure, Name: "П", Params: []ast.ParamStatement{p}}}
	b, out := printParse(c, name, a, randConf(r))
	f, ok := b.ModuleStatement.Body[0].(*ast.FunctionOrProcedure)
	if !ok || len(f.Params) != 1 || f.Params[0].Name != name || f.Params[0].IsValue != (by != nil) || !sameExpr(canon.Expr(f.Params[0].Default), want) {
		c.Fail(name, "a parameter %+v prints as %s", p, out)
	}
	c.Count("parameters_built", 1)
	c.Seen(out)
}

// appendHistory puts parts at the end of a module and follows with a model what it must hold.
func appendHistory(c *mon.Ctx) {
	src := ""
	switch c.R.IntN(4) {
	case 0:
	case 1:
		src = goodText(c.R, 12)
	case 2:
		src = "Перем а, Б; Перем в Экспорт;"
	default:
		src = "Перем а; Процедура П() КонецПроцедуры"
	}
	donorText := goodText(c.R, 25)
	if !ref.Parse(src).Accept() || !ref.Parse(donorText).Accept() {
		return
	}
	a, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	donor, err := parse(c, donorText)
	if err != nil {
		c.Skip("rejected")
	}
	var routines, rest ast.Statements
	for _, x := range donor.ModuleStatement.Body {
		if _, ok := x.(*ast.FunctionOrProcedure); ok {
			routines = append(routines, x)
		} else if transferable(x) {
			rest = append(rest, x)
		}
	}
	e := &editor{r: c.R, rate: 100, done: map[string]int{}}
	for len(rest) < 3 {
		rest = append(rest, ast.AssignmentStatement{Var: ast.VarStatement{Name: e.name()}, Expr: ast.ExprStatements{Statements: ast.Statements{e.literal()}}})
	}
	routines = append(routines, &ast.FunctionOrProcedure{Type: ast.PFTypeFunction, Name: e.name()}, &ast.FunctionOrProcedure{Type: ast.PFTypeProcedure, Name: e.name(), Export: true})
	if c.R.IntN(3) == 0 { // the tree was taken from the object that had read it
		where := ast.NewAST("")
		where.ModuleStatement = a.ModuleStatement
		a = where
		c.Count("appended_to_a_moved_tree", 1)
	}

	body := canonModule(a).Kids[1:]
	names := map[string]string{} // folded: as written
	vars := map[string]ast.GlobalVariables{}
	for k, v := range a.ModuleStatement.GlobalVariables {
		names[lexref.Lower(k)] = k
		vars[k] = v
	}
	lastRoutine := func() bool {
		k := body[len(body)-1].Kind
		return k == "proc" || k == "func"
	}
	// variables are told apart without letter case; names of other scripts than these are left out
	pool := []string{"а", "Б", "в", "А", "б", "В", "г", "Имя", "имЯ", "x", "X", "Y1", "_", "Ёж", "ёж"}
	variable := func() ast.GlobalVariables {
		return ast.GlobalVariables{Var: ast.VarStatement{Name: pickS(c.R, pool...)}, Export: c.R.IntN(2) == 0, Directive: e.directive()}
	}
	declare := func(v ast.GlobalVariables) string {
		n := lexref.Lower(v.Var.Name)
		if _, dup := names[n]; dup || len(body) > 0 {
			return "refused"
		}
		names[n] = v.Var.Name
		vars[v.Var.Name] = v
		return "taken"
	}
	var did, givenAs []string
	var given []ast.Statements
	listText := func(l ast.Statements) string {
		var t []string
		for _, x := range l[:cap(l)] {
			if x == nil {
				t = append(t, "nil")
			} else {
				t = append(t, canon.Stmt(x).String())
			}
		}
		return strings.Join(t, "; ")
	}
	for n := 2 + c.R.IntN(9); n > 0; n-- {
		c.Eval(1)
		what, result := "", "taken"
		kind := c.R.IntN(7)
		if len(body) > 0 && kind < 3 && c.R.IntN(2) == 0 {
			kind = 3 + c.R.IntN(4)
		}
		switch kind {
		case 0, 1:
			v := variable()
			what = "Перем " + v.Var.Name
			result = declare(v)
			a.ModuleStatement.Append(v, a)
		case 2:
			var l []ast.GlobalVariables
			for k := c.R.IntN(4); k >= 0; k-- {
				v := variable()
				l = append(l, v)
				what += "Перем " + v.Var.Name + " "
				if declare(v) == "refused" {
					result = "partly refused"
				}
			}
			a.ModuleStatement.Append(l, a)
		case 3, 4:
			f := routines[c.R.IntN(len(routines))].(*ast.FunctionOrProcedure)
			what = "routine " + f.Name
			if len(body) > 0 && !lastRoutine() {
				result = "refused"
			} else {
				body = append(body, tree.Fold(canon.Stmt(f)))
			}
			a.ModuleStatement.Append(f, a)
		case 5:
			x := rest[c.R.IntN(len(rest))]
			what = "statement"
			body = append(body, tree.Fold(canon.Stmt(x)))
			a.ModuleStatement.Append(x, a)
		default:
			// a list with room behind its end, which stays the caller's
			k := c.R.IntN(len(rest) + 1)
			l := append(make(ast.Statements, 0, k+c.R.IntN(4)), rest[:k]...)
			given = append(given, l)
			givenAs = append(givenAs, listText(l))
			what = fmt.Sprint(len(l), " statements")
			for _, x := range l {
				body = append(body, tree.Fold(canon.Stmt(x)))
			}
			a.ModuleStatement.Append(l, a)
		}
		did = append(did, what+": "+result)
		c.Count("append_"+strings.ReplaceAll(result, " ", "_"), 1)
		got := canonModule(a)
		want := tree.N("module", "", append([]*tree.Node{canon.Globals(&ast.ModuleStatement{GlobalVariables: vars})}, body...)...)
		if !tree.Equal(got, want) {
			c.Fail(src, "after Append of %s the module differs at %s", strings.Join(did, ", "), tree.Diff(want, got))
		}
		if c.R.IntN(5) == 0 && len(vars) > 0 && len(body) == 0 {
			// a variable taken out can be declared again
			k := keysOf(vars)[c.R.IntN(len(vars))]
			delete(a.ModuleStatement.GlobalVariables, k)
			delete(vars, k)
			delete(names, lexref.Lower(k))
			did = append(did, "taken out: "+k)
			c.Count("variables_taken_out", 1)
		}
	}
	if len(given) > 0 { // nor may the module and a list of the caller's be one
		kept := append(ast.Statements{}, a.ModuleStatement.Body...)
		for i := range a.ModuleStatement.Body {
			a.ModuleStatement.Body[i] = ast.GoToLabelStatement{Name: "вместо"}
		}
		for i, l := range given {
			if now := listText(l); now != givenAs[i] {
				c.Fail(src, "after Append of %s and edits of the module, the list given, %s, is %s", strings.Join(did, ", "), givenAs[i], now)
			}
			c.Count("lists_given", 1)
		}
		copy(a.ModuleStatement.Body, kept)
	}
	second, out := printParse(c, src, a, randConf(c.R))
	roundTrip(c, out, second, randConf(c.R))
	checkJSON(c, src, a, canonModule(a))
	sort.Strings(did)
	c.Seen(out)
}

func init() {
	operators := map[ast.OperationType]string{ast.OpPlus: "+", ast.OpMinus: "-", ast.OpMul: "*", ast.OpDiv: "/", ast.OpEq: "=", ast.OpGt: ">", ast.OpLt: "<", ast.OpNe: "<>", ast.OpLe: "<=", ast.OpGe: ">=", ast.OpMod: "%", ast.OpOr: "или", ast.OpAnd: "и"}
	nodes := func(c *mon.Ctx, src string) {
		if !ref.Parse(src).Accept() {
			return
		}
		a, err := parse(c, src)
		if err != nil {
			c.Skip("rejected")
		}
		eachNode(reflect.ValueOf(&a.ModuleStatement).Elem(), false, func(x any, member bool) {
			checkParts(c, src, x)
			if !member { // names after a dot may be keywords
				if p, ok := x.(*ast.ExpStatement); ok { // changed in place: work on one of its own
					q := *p
					x = &q
				}
				checkMarks(c, src, x)
			}
		})
		c.Seen(src)
	}
	register(&mon.Check{ID: "C30",
		Rule:        "every node of random modules that offers Not or UnaryMinus is marked through them, and a quarter of the results printed, reparsed and decoded from JSON; IsMethod and Params are asked of every chain and call; parameters are built with Fill and DefaultValue; histories of Append are followed by a model that knows what must be taken and what refused; distinct: texts and printed modules",
		Assumptions: []string{"nodes that bear a mark already, and Не before a minus, are left out: the two marks have no order"},
		MinCounts:   map[string]int64{"nodes_marked": 50000, "marked_and_rendered": 10000, "chains_asked": 10000, "calls_asked": 10000, "parameters_built": 5000, "append_taken": 20000, "append_refused": 5000, "append_partly_refused": 500, "variables_taken_out": 500, "appended_to_a_moved_tree": 1000, "lists_given": 5000, "texts_asked_for_digits": 10000},
		Groups: []mon.Group{
			{Name: "nodes", Quick: 8000, Deep: 400000, Run: func(c *mon.Ctx, i int) { nodes(c, goodText(c.R, 80)) }},
			{Name: "expressions", Quick: 20000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
				n := 0
				g := gen.New(c.R, gen.Cfg{ExprDepth: 2, Budget: 30, Odd: true, MultiLine: true, Few: few(c.R)})
				e := opExpr(c.R, &n, 1+c.R.IntN(5), func() *tree.Node { return g.Expr(1) })
				nodes(c, gen.Full(c.R, exprHomes[c.R.IntN(len(exprHomes))](e)))
			}},
			{Name: "parameters", Quick: 20000, Deep: 1000000, Run: func(c *mon.Ctx, i int) { checkParameter(c, c.R) }},
			{Name: "append", Quick: 30000, Deep: 1500000, Run: func(c *mon.Ctx, i int) { appendHistory(c) }},
			{Name: "helpers", Quick: 2000, Deep: 100000, Run: func(c *mon.Ctx, i int) {
				for k := 0; k < 20; k++ {
					c.Eval(1)
					// not empty: of no characters nothing is said
					text, want := "", true
					for n := 1 + c.R.IntN(1<<c.R.IntN(8)); n > 0; n-- {
						text += string(rune('0' + c.R.IntN(10)))
					}
					if c.R.IntN(2) == 0 {
						odd := pickS(c.R, "а", "x", " ", ".", "-", "+", "/", ":", "٣", "２", "²", "\x00", "\xff", "\n", "_", "½", "Ⅷ")
						at := c.R.IntN(len(text) + 1)
						text, want = text[:at]+odd+text[at:], false
					}
					if got := ast.IsDigit(text); got != want {
						c.Fail(text, "IsDigit is %v", got)
					}
					a, b, cond := c.R.IntN(100), 100+c.R.IntN(100), c.R.IntN(2) == 0
					if got := ast.IF(cond, a, b); cond && got != a || !cond && got != b {
						c.Fail(text, "IF(%v, %d, %d) is %d", cond, a, b, got)
					}
					c.Seen(text)
					c.Count("texts_asked_for_digits", 1)
				}
			}},
			{Name: "operators", Quick: 1, Deep: 1, Run: func(c *mon.Ctx, i int) {
				for o, w := range operators {
					c.Eval(1)
					if lexref.Lower(o.String()) != w {
						c.Fail(w, "the operator %s is called %q", w, o.String())
					}
					c.Seen(w)
				}
			}},
		}})
}
