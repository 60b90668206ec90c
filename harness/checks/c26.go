package checks

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/canon"
	"verif/gen"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// ---- C26: edited trees render as edited ----

// editor changes a tree through its exported fields. Every change leaves a well-formed module.
type editor struct {
	r    *rand.Rand
	rate int // percent of the places that are changed
	n    int // for new names
	pool ast.Statements
	done map[string]int
}

func (e *editor) hit(what string) bool {
	if e.r.IntN(100) >= e.rate {
		return false
	}
	e.done[what]++
	return true
}

func (e *editor) name() string {
	e.n++
	return pickS(e.r, "новое", "Ёж", "x", "_", "Если_", "ОченьДлинноеИмяКотороеНиктоНеЖдалИКотороеНеПомещаетсяВСтроку", "Q", "сЧёТчИк") + fmt.Sprint(e.n)
}

func (e *editor) literal() ast.Statement {
	switch e.r.IntN(7) {
	case 0:
		return float64(e.r.IntN(100000))
	case 6: // numbers as a program writes them
		switch n := e.r.IntN(1000000); e.r.IntN(4) {
		case 0:
			return int32(n)
		case 1:
			return int64(n) << 20
		case 2:
			return float32(n%1000) + 0.5
		default:
			return n
		}
	case 1:
		return float64(e.r.IntN(1000)) + 0.25
	case 2:
		return pickS(e.r, "", "новая строка", "с \"\"кавычками\"\"", "// не комментарий", "а\n|б", "%d %s %%")
	case 3:
		return e.r.IntN(2) == 0
	case 4:
		return time.Date(2000+e.r.IntN(30), time.Month(1+e.r.IntN(12)), 1+e.r.IntN(28), e.r.IntN(24), e.r.IntN(60), e.r.IntN(60), 0, time.UTC)
	}
	return ast.UndefinedStatement{}
}

// operand is a value that can stand anywhere an operand can.
func (e *editor) operand() ast.Statement {
	switch e.r.IntN(6) {
	case 0:
		return ast.VarStatement{Name: e.name()}
	case 1:
		return ast.MethodStatement{Name: e.name(), Param: ast.ExprStatements{Statements: ast.Statements{e.literal(), ast.VarStatement{Name: e.name()}}}}
	case 2:
		return ast.CallChainStatement{Call: ast.VarStatement{Name: e.name()}, Unit: ast.VarStatement{Name: e.name()}}
	case 3:
		return ast.ItemStatement{Object: ast.VarStatement{Name: e.name()}, Item: e.literal()}
	}
	return e.literal()
}

var sameLevel = [][]ast.OperationType{{ast.OpPlus, ast.OpMinus}, {ast.OpMul, ast.OpDiv, ast.OpMod}, {ast.OpEq, ast.OpNe, ast.OpLt, ast.OpGt, ast.OpLe, ast.OpGe}}

// inner is a value for an operand of an operator: whatever it is, Print must write the parentheses it needs.
func (e *editor) inner(depth int) ast.Statement {
	if depth == 0 || e.r.IntN(3) == 0 {
		if e.r.IntN(4) == 0 {
			return e.marked(ast.VarStatement{Name: e.name()})
		}
		return e.operand()
	}
	x := ast.ExpStatement{Left: e.inner(depth - 1), Right: e.inner(depth - 1), Operation: ast.OpPlus + ast.OperationType(e.r.IntN(int(ast.OpAnd-ast.OpPlus)+1))}
	if e.r.IntN(5) == 0 {
		e.done["operand_marked"]++
		return e.marked(&x)
	}
	switch e.r.IntN(8) {
	case 0:
		return ast.ExprStatements{Statements: ast.Statements{&x}}
	case 4: // the forms a program may just as well write
		e.done["expression_by_value"]++
		return x
	case 5:
		e.done["brackets_by_pointer"]++
		return &ast.ExprStatements{Statements: ast.Statements{e.inner(depth - 1)}}
	case 1:
		return ast.TernaryStatement{Expression: &x, TrueBlock: e.inner(depth - 1), ElseBlock: e.inner(depth - 1)}
	case 2:
		return ast.MethodStatement{Name: e.name(), Param: ast.ExprStatements{Statements: ast.Statements{&x, e.inner(depth - 1)}}}
	case 3:
		return ast.NewObjectStatement{Constructor: e.name(), Param: ast.ExprStatements{Statements: ast.Statements{&x}}}
	}
	return &x
}

// marked puts Не or a minus on a value, through the methods the node types offer or on brackets around it.
func (e *editor) marked(x ast.Statement) ast.Statement {
	if _, ok := x.(*ast.ExpStatement); !ok && e.r.IntN(2) == 0 {
		x = e.operand()
	}
	not, neg := e.r.IntN(2) == 0, e.r.IntN(2) == 0
	if v, ok := x.(ast.INot); ok && not {
		x = v.Not()
	}
	if v, ok := x.(ast.IUnary); ok && neg {
		x = v.UnaryMinus()
	}
	if e.r.IntN(3) == 0 {
		b := ast.ExprStatements{Statements: ast.Statements{x}}
		if e.r.IntN(2) == 0 {
			return b.Not()
		}
		return b.UnaryMinus()
	}
	return x
}

// expr gives the changed expression. member: what stands after a dot; path: only what a path may hold.
func (e *editor) expr(x ast.Statement, path bool) ast.Statement {
	switch v := x.(type) {
	case nil:
		return nil
	case float64, string, bool, time.Time:
		if e.hit("literal") {
			if !path && e.r.IntN(4) == 0 {
				return e.inner(2)
			}
			if path || e.r.IntN(2) == 0 {
				return e.literal()
			}
			return e.operand()
		}
		return v
	case ast.VarStatement:
		if e.hit("name") {
			v.Name = e.name()
		}
		return v
	case ast.MethodStatement:
		exec := strings.EqualFold(v.Name, "выполнить")
		if !exec && e.hit("method_name") {
			v.Name = e.name()
		}
		v.Param.Statements = e.args(v.Param.Statements, !exec)
		return v
	case ast.CallChainStatement:
		v.Call = e.expr(v.Call, true)
		v.Unit = e.expr(v.Unit, true)
		return v
	case ast.ItemStatement:
		v.Object = e.expr(v.Object, true)
		v.Item = e.expr(v.Item, false)
		return v
	case ast.NewObjectStatement:
		if v.Constructor != "" && e.hit("constructor") {
			v.Constructor = e.name()
		}
		v.Param.Statements = e.args(v.Param.Statements, v.Constructor != "")
		return v
	case ast.TernaryStatement:
		v.Expression, v.TrueBlock, v.ElseBlock = e.expr(v.Expression, false), e.expr(v.TrueBlock, false), e.expr(v.ElseBlock, false)
		if e.hit("ternary") {
			v.TrueBlock, v.ElseBlock = v.ElseBlock, v.TrueBlock
		}
		return v
	case *ast.ExpStatement:
		v.Left, v.Right = e.expr(v.Left, false), e.expr(v.Right, false)
		if e.hit("operand") {
			if e.r.IntN(2) == 0 {
				v.Left = e.inner(2)
			} else {
				v.Right = e.inner(2)
			}
		}
		for _, l := range sameLevel {
			for _, o := range l {
				if v.Operation == o && e.hit("operator") {
					v.Operation = l[e.r.IntN(len(l))]
					return v
				}
			}
		}
		return v
	case ast.ExprStatements:
		out := append(ast.Statements{}, v.Statements...)
		for k := range out {
			out[k] = e.expr(out[k], false)
		}
		v.Statements = out
		return v
	}
	return x
}

func (e *editor) args(list ast.Statements, free bool) ast.Statements {
	var out ast.Statements
	empty := len(list) == 1 && list[0] == nil
	omitted := false
	for _, x := range list {
		if x == nil {
			omitted = true
		}
		out = append(out, e.expr(x, false))
	}
	if !free {
		return out
	}
	if empty {
		out, omitted = nil, false
	}
	if e.hit("argument_added") {
		out = append(out, e.inner(1))
	} else if len(out) > 0 && !omitted && e.hit("argument_removed") {
		k := e.r.IntN(len(out))
		out = append(out[:k:k], out[k+1:]...)
	} else if len(out) > 1 && e.hit("arguments_swapped") {
		k := e.r.IntN(len(out) - 1)
		if out[k] != nil && out[k+1] != nil {
			out[k], out[k+1] = out[k+1], out[k]
		}
	}
	if empty && len(out) == 0 {
		return list
	}
	return out
}

func (e *editor) fresh() ast.Statement {
	if n := len(e.pool); n > 0 && e.r.IntN(2) == 0 {
		s := e.pool[n-1]
		e.pool = e.pool[:n-1]
		e.done["from_another_module"]++
		return s
	}
	v := ast.VarStatement{Name: e.name()}
	switch e.r.IntN(5) {
	case 0:
		return ast.MethodStatement{Name: e.name(), Param: ast.ExprStatements{Statements: ast.Statements{e.operand(), e.operand()}}}
	case 1:
		return ast.AssignmentStatement{Var: v, Expr: ast.ExprStatements{Statements: ast.Statements{e.operand()}}}
	case 2:
		return &ast.IfStatement{Expression: v, TrueBlock: ast.Statements{ast.MethodStatement{Name: e.name()}}, ElseBlock: ast.Statements{ast.AssignmentStatement{Var: v, Expr: ast.ExprStatements{Statements: ast.Statements{e.literal()}}}}}
	case 3:
		return &ast.LoopStatement{WhileExpr: v, Body: ast.Statements{ast.BreakStatement{}}}
	}
	return ast.TryStatement{Body: ast.Statements{ast.MethodStatement{Name: e.name()}}, Catch: ast.Statements{ast.ThrowStatement{}}}
}

// block gives the changed block.
func (e *editor) block(list ast.Statements) ast.Statements {
	var out ast.Statements
	for _, x := range list {
		if e.hit("statement_removed") {
			continue
		}
		if e.hit("statement_added") {
			out = append(out, e.fresh())
		}
		if e.hit("statement_replaced") {
			out = append(out, e.fresh())
			continue
		}
		out = append(out, e.stmt(x))
	}
	if e.hit("statement_appended") {
		out = append(out, e.fresh())
	}
	if len(out) > 1 && e.hit("statements_swapped") {
		a, b := e.r.IntN(len(out)), e.r.IntN(len(out))
		out[a], out[b] = out[b], out[a]
	}
	return out
}

func (e *editor) stmt(x ast.Statement) ast.Statement {
	switch v := x.(type) {
	case ast.AssignmentStatement:
		v.Var = e.expr(v.Var, true)
		v.Expr = e.expr(v.Expr, false).(ast.ExprStatements)
		if len(v.Expr.Statements) == 1 && e.hit("assigned_value") {
			v.Expr = ast.ExprStatements{Statements: ast.Statements{e.inner(2)}}
		}
		return v
	case *ast.IfStatement:
		v.Expression = e.expr(v.Expression, false)
		if e.hit("condition") {
			v.Expression = e.inner(2)
		}
		v.TrueBlock, v.ElseBlock = e.block(v.TrueBlock), e.block(v.ElseBlock)
		for _, b := range v.IfElseBlock {
			if b, ok := b.(*ast.IfStatement); ok {
				b.Expression, b.TrueBlock = e.expr(b.Expression, false), e.block(b.TrueBlock)
			}
		}
		n := len(v.IfElseBlock)
		if e.hit("elseif_added") {
			v.IfElseBlock = append(v.IfElseBlock[:n:n], &ast.IfStatement{Expression: ast.VarStatement{Name: e.name()}, TrueBlock: ast.Statements{e.fresh()}})
		} else if n > 0 && e.hit("elseif_removed") {
			k := e.r.IntN(n)
			v.IfElseBlock = append(v.IfElseBlock[:k:k], v.IfElseBlock[k+1:]...)
		} else if n > 1 && e.hit("elseif_swapped") {
			v.IfElseBlock[0], v.IfElseBlock[n-1] = v.IfElseBlock[n-1], v.IfElseBlock[0]
		}
		if len(v.IfElseBlock) == 0 && e.hit("branches_swapped") {
			v.TrueBlock, v.ElseBlock = v.ElseBlock, v.TrueBlock
		}
		return v
	case *ast.LoopStatement:
		switch {
		case v.WhileExpr != nil:
			v.WhileExpr = e.expr(v.WhileExpr, false)
		case v.In != nil:
			if _, ok := v.For.(string); ok && e.hit("loop_variable") {
				v.For = e.name()
			}
			if e.hit("collection") {
				v.In = ast.VarStatement{Name: e.name()}
			}
		default:
			if h, ok := v.For.(*ast.ExpStatement); ok {
				h.Left, h.Right = e.expr(h.Left, true), e.expr(h.Right, false)
			}
			v.To = e.expr(v.To, false)
		}
		v.Body = e.block(v.Body)
		return v
	case ast.TryStatement:
		v.Body, v.Catch = e.block(v.Body), e.block(v.Catch)
		return v
	case ast.ThrowStatement:
		v.Param = e.expr(v.Param, false)
		return v
	case *ast.ReturnStatement:
		v.Param = e.expr(v.Param, false)
		if v.Param != nil && e.hit("returned_value") {
			v.Param = e.inner(2)
		}
		return v
	case ast.GoToStatement:
		if v.Label != nil && e.hit("goto") {
			v.Label = &ast.GoToLabelStatement{Name: e.name()}
		}
		return v
	case *ast.GoToLabelStatement:
		if e.hit("label") {
			v.Name = e.name()
		}
		return v
	case ast.MethodStatement, ast.CallChainStatement:
		return e.expr(v, true)
	}
	return x
}

func (e *editor) directive() string {
	return pickS(e.r, "", "&НаКлиенте", "&НаСервере", "&НаСервереБезКонтекста", "&НаКлиентеНаСервереБезКонтекста")
}

func (e *editor) routine(v *ast.FunctionOrProcedure) {
	if e.hit("routine_name") {
		v.Name = e.name()
	}
	if e.hit("directive") {
		v.Directive = e.directive()
	}
	if e.hit("export") {
		v.Export = !v.Export
	}
	for k := range v.Params {
		if e.hit("parameter_name") {
			v.Params[k].Name = e.name()
		}
		if e.hit("parameter_by_value") {
			v.Params[k].IsValue = !v.Params[k].IsValue
		}
		if e.hit("parameter_default") {
			v.Params[k].Default = nil
			if e.r.IntN(3) > 0 {
				v.Params[k].Default = e.literal()
			}
		}
	}
	n := len(v.Params)
	if e.hit("parameter_added") {
		v.Params = append(v.Params[:n:n], ast.ParamStatement{Name: e.name(), Default: e.literal()})
	} else if n > 0 && e.hit("parameter_removed") {
		v.Params = v.Params[:n-1]
	} else if n > 1 && e.hit("parameters_swapped") {
		v.Params[0], v.Params[n-1] = v.Params[n-1], v.Params[0]
	}
	if e.hit("local_added") {
		if v.ExplicitVariables == nil {
			v.ExplicitVariables = map[string]ast.VarStatement{}
		}
		s := e.name()
		v.ExplicitVariables[s] = ast.VarStatement{Name: s}
	}
	for _, k := range keysOf(v.ExplicitVariables) {
		if e.hit("local_removed") {
			delete(v.ExplicitVariables, k)
		}
	}
	v.Body = e.block(v.Body)
}

func keysOf[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	// in a fixed order, so that a case can be repeated
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func (e *editor) module(m *ast.ModuleStatement, more []*ast.FunctionOrProcedure) {
	if e.hit("variable_added") {
		if m.GlobalVariables == nil {
			m.GlobalVariables = map[string]ast.GlobalVariables{}
		}
		s := e.name()
		m.GlobalVariables[s] = ast.GlobalVariables{Directive: e.directive(), Var: ast.VarStatement{Name: s}, Export: e.r.IntN(2) == 0}
	}
	for _, k := range keysOf(m.GlobalVariables) {
		v := m.GlobalVariables[k]
		switch {
		case e.hit("variable_removed"):
			delete(m.GlobalVariables, k)
		case e.hit("variable_export"):
			v.Export = !v.Export
			m.GlobalVariables[k] = v
		case e.hit("variable_directive"):
			v.Directive = e.directive()
			m.GlobalVariables[k] = v
		case e.hit("variable_name"):
			delete(m.GlobalVariables, k)
			v.Var.Name = e.name()
			m.GlobalVariables[v.Var.Name] = v
		}
	}
	var routines, rest ast.Statements
	for _, x := range m.Body {
		if f, ok := x.(*ast.FunctionOrProcedure); ok {
			if e.hit("routine_removed") {
				continue
			}
			e.routine(f)
			routines = append(routines, f)
		} else {
			rest = append(rest, x)
		}
	}
	for _, f := range more {
		if e.hit("routine_added") {
			routines = append(routines, f)
		}
	}
	if len(routines) > 1 && e.hit("routines_swapped") {
		a, b := e.r.IntN(len(routines)), e.r.IntN(len(routines))
		routines[a], routines[b] = routines[b], routines[a]
	}
	m.Body = append(routines, e.block(rest)...)
}

// transferable statements may stand in any block of any routine or module.
func transferable(x ast.Statement) bool {
	t := canon.StmtFolded(x)
	var bad func(n *tree.Node) bool
	bad = func(n *tree.Node) bool {
		switch n.Kind {
		case "break", "continue", "throw", "return", "unknown":
			return true
		}
		for _, k := range n.Kids {
			if bad(k) {
				return true
			}
		}
		return false
	}
	return !bad(t)
}

func editedTrees(c *mon.Ctx, src, other string, rounds, rate int) {
	if !ref.Parse(src).Accept() {
		return // forms the language leaves open may print as something else
	}
	a, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	donor := ast.NewAST(other)
	e := &editor{r: c.R, rate: rate, done: map[string]int{}}
	var more []*ast.FunctionOrProcedure
	if ref.Parse(other).Accept() && donor.Parse() == nil {
		for _, x := range donor.Body {
			if f, ok := x.(*ast.FunctionOrProcedure); ok {
				more = append(more, f)
			} else if transferable(x) {
				e.pool = append(e.pool, x)
			}
		}
	}
	for n := 0; n < rounds; n++ {
		if c.R.IntN(3) > 0 { // what was rendered before must not show afterwards
			a.Print(randConf(c.R))
			a.JSON()
			st, _ := blockStatements(a)
			for k := 0; k < len(st) && k < 20; k++ {
				a.PrintStatement(st[c.R.IntN(len(st))])
			}
			a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})
			c.Count("rendered_before_the_edit", 1)
		}
		e.module(&a.ModuleStatement, more)
		more = nil
		where := a
		if c.R.IntN(3) == 0 { // the tree lives in another object, of another text
			where = ast.NewAST(pickS(c.R, "", "Процедура П() КонецПроцедуры", "мусор )", src))
			if c.R.IntN(2) == 0 {
				where.Parse()
			}
			where.ModuleStatement = a.ModuleStatement
			c.Count("moved_to_another_object", 1)
			if conf := randConf(c.R); where.Print(conf) != a.Print(conf) {
				c.Fail(src, "one tree in two objects prints as\n%s\nand\n%s", where.Print(conf), a.Print(conf))
			}
		}
		c.Eval(1)
		want := canonModule(where)
		// a program may leave out brackets that Print has to write: only the text of the second tree is a fixed point
		second, out := printParse(c, src, where, randConf(c.R))
		roundTrip(c, out, second, randConf(c.R))
		checkJSON(c, src, where, want)
		if now := canonModule(where); !tree.Equal(want, now) {
			c.Fail(src, "rendering an edited tree changed it at %s", tree.Diff(want, now))
		}
		switch c.R.IntN(6) {
		case 0:
			everyStatement(c, src, where)
		case 1:
			walkAll(c, src, where)
		case 2:
			checkOptions(c, src, where)
		}
		c.Count("edited_trees", 1)
		c.Seen(want.String())
	}
	for k, n := range e.done {
		c.Count("edit_"+k, n)
	}
}

// sharedParts: a program puts one node or one block in several places of the tree; each place shows it.
func sharedParts(c *mon.Ctx, src string) {
	if !ref.Parse(src).Accept() {
		return
	}
	a, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	if c.R.IntN(2) == 0 {
		a.Print(ast.PrintConf{})
		a.JSON()
	}
	done := 0
	double := func(list ast.Statements) ast.Statements {
		n := len(list)
		if n == 0 || c.R.IntN(3) > 0 {
			return list
		}
		k, at := c.R.IntN(n), c.R.IntN(n+1)
		_, isRoutine := list[k].(*ast.FunctionOrProcedure)
		if isRoutine {
			at = k
		} else if at < n {
			if _, ok := list[at].(*ast.FunctionOrProcedure); ok {
				return list
			}
		}
		done++
		out := append(ast.Statements{}, list[:at]...)
		out = append(out, list[k])
		return append(out, list[at:]...)
	}
	budget := 400 // what is doubled holds doubled things
	var visit func(list ast.Statements)
	visit = func(list ast.Statements) {
		for _, x := range list {
			if budget--; budget < 0 {
				return
			}
			switch v := x.(type) {
			case *ast.FunctionOrProcedure:
				visit(v.Body)
				v.Body = double(v.Body)
			case *ast.IfStatement:
				visit(v.TrueBlock)
				visit(v.ElseBlock)
				for _, e := range v.IfElseBlock {
					if e, ok := e.(*ast.IfStatement); ok {
						visit(e.TrueBlock)
						e.TrueBlock = double(e.TrueBlock)
					}
				}
				v.TrueBlock = double(v.TrueBlock)
				switch c.R.IntN(6) {
				case 0:
					v.ElseBlock, done = v.TrueBlock, done+1
				case 1:
					v.IfElseBlock, done = append(v.IfElseBlock[:len(v.IfElseBlock):len(v.IfElseBlock)], &ast.IfStatement{Expression: v.Expression, TrueBlock: v.TrueBlock}), done+1
				case 2:
					if n := len(v.IfElseBlock); n > 0 {
						v.IfElseBlock, done = append(v.IfElseBlock[:n:n], v.IfElseBlock[c.R.IntN(n)]), done+1
					}
				}
			case *ast.LoopStatement:
				visit(v.Body)
				v.Body = double(v.Body)
			case ast.TryStatement:
				visit(v.Body)
				visit(v.Catch)
			}
		}
	}
	visit(a.ModuleStatement.Body)
	a.ModuleStatement.Body = double(a.ModuleStatement.Body)
	if done == 0 {
		return
	}
	second, out := printParse(c, src, a, randConf(c.R))
	roundTrip(c, out, second, randConf(c.R))
	checkJSON(c, src, a, canonModule(a))
	order, _ := slots(a.ModuleStatement.Body)
	if len(order) > 20000 {
		return
	}
	want, got := map[*ast.Statement]int{}, map[*ast.Statement]int{}
	for _, p := range order {
		want[p]++
	}
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { got[stm]++ })
	for p, n := range want {
		if got[p] != n {
			c.Fail(src, "%T %+v stands in %d places of the edited tree and is visited %d times", *p, *p, n, got[p])
		}
	}
	c.Count("shared_parts", done)
	c.Seen(out)
}

// putNumber: a number a program puts into the tree is printed with exactly its value.
func putNumber(c *mon.Ctx) {
	bits := c.R.Uint64() >> c.R.IntN(64)
	var x ast.Statement
	var same func(text string) bool
	decimal := func(want string) func(string) bool { return func(text string) bool { return text == want } }
	sign := 1 - 2*c.R.IntN(2)
	switch c.R.IntN(5) {
	case 0:
		v := int(bits>>1) * sign
		x, same = v, decimal(strconv.Itoa(v))
	case 1:
		v := int64(bits>>1) * int64(sign)
		x, same = v, decimal(strconv.FormatInt(v, 10))
	case 2:
		v := int32(bits)
		x, same = v, decimal(strconv.Itoa(int(v)))
	case 3:
		v := math.Float32frombits(uint32(bits))
		if v != v || math.IsInf(float64(v), 0) {
			v = 1.1
		}
		x, same = v, func(text string) bool {
			w, err := strconv.ParseFloat(text, 32)
			return err == nil && float32(w) == v
		}
	default:
		v := math.Float64frombits(c.R.Uint64())
		if v != v || math.IsInf(v, 0) {
			v = 1.1
		}
		x, same = v, func(text string) bool {
			w, err := strconv.ParseFloat(text, 64)
			return err == nil && w == v
		}
	}
	src := "х = Ф(1, 2)[3] + 4;"
	a, err := parse(c, src)
	if err != nil {
		c.Fail(src, "rejected: %v", err)
	}
	hole, right := "Ы_Ы", c.R.IntN(2) == 0
	put := func(x ast.Statement) string {
		sum := a.Body[0].(ast.AssignmentStatement).Expr.Statements[0].(*ast.ExpStatement)
		item := sum.Left.(ast.ItemStatement)
		if right {
			sum.Right = x
		} else {
			item.Item = x
		}
		item.Object.(ast.MethodStatement).Param.Statements[1] = x
		sum.Left = item
		return a.Print(ast.PrintConf{})
	}
	parts := strings.Split(put(ast.VarStatement{Name: hole}), hole)
	out := put(x)
	c.Eval(1)
	c.Count("numbers_put", 1)
	if len(parts) != 3 {
		c.Fail(src, "a name put into the tree is printed %d times instead of 2: %q", len(parts)-1, parts)
	}
	rest := out
	for k, p := range parts {
		at := strings.Index(rest, p)
		if k == len(parts)-1 {
			at = strings.LastIndex(rest, p)
		}
		if at < 0 || (k == 0 && at != 0) {
			c.Fail(src, "with %T %v in the tree Print gives %q, with a name in its place %q", x, x, out, parts)
		}
		if k > 0 && !same(rest[:at]) {
			c.Fail(src, "%T %v is printed as %q", x, x, rest[:at])
		}
		rest = rest[at+len(p):]
	}
	c.Seen(fmt.Sprintf("%T %v", x, x))
}

func init() {
	groups := []mon.Group{
		{Name: "shared", Quick: 20000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			if i%3 == 0 {
				sharedParts(c, goodText(c.R, 80))
			} else {
				sharedParts(c, gen.Full(c.R, smallModule(c.R)))
			}
		}},
		{Name: "numbers", Quick: 40000, Deep: 4000000, Run: func(c *mon.Ctx, i int) { putNumber(c) }},
		{Name: "modules", Quick: 16000, Deep: 600000, Run: func(c *mon.Ctx, i int) {
			editedTrees(c, goodText(c.R, 80), goodText(c.R, 20), 1+c.R.IntN(3), pick(c.R, 1, 3, 8, 20, 50))
		}},
		{Name: "small", Quick: 30000, Deep: 1500000, Run: func(c *mon.Ctx, i int) {
			editedTrees(c, gen.Full(c.R, smallModule(c.R)), goodText(c.R, 8), 1+c.R.IntN(2), pick(c.R, 5, 15, 40, 100))
		}},
		{Name: "from nothing", Quick: 4000, Deep: 100000, Run: func(c *mon.Ctx, i int) {
			editedTrees(c, pickS(c.R, "", "х = 1;", "Процедура П() КонецПроцедуры", "Перем а;", "Функция Ф() Если а Тогда КонецЕсли КонецФункции"), goodText(c.R, 20), 4, pick(c.R, 30, 60, 100))
		}},
		{Name: "large", Quick: 60, Deep: 1500, Run: func(c *mon.Ctx, i int) {
			editedTrees(c, goodText(c.R, 1500), goodText(c.R, 100), 2, pick(c.R, 1, 5))
		}},
	}
	register(&mon.Check{ID: "C26", Groups: groups,
		Rule:        "parsed trees are changed through their exported fields (about forty kinds of edits, also with parts of another module's tree), mostly after they had been rendered; the neutral form of the edited tree is the oracle for what Print, PrintStatement, JSON and Walk then give, in the same or another AstNode; distinct: edited trees",
		Assumptions: []string{"edits keep the tree one that some source text has, but for brackets and for expression nodes held by value or by pointer: Print must write the brackets an operand needs; numbers put into the tree are finite"},
		MinCounts:   map[string]int64{"edited_trees": 30000, "rendered_before_the_edit": 10000, "moved_to_another_object": 5000, "edit_statement_added": 2000, "edit_name": 5000, "edit_routine_added": 500}})
}
