// Package canon turns the AST of the code under test into the neutral tree.
package canon

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"verif/tree"
)

// The unary marks sit in a struct embedded in some node types. Their field names are an
// implementation detail, so they are found by looking at what a parsed `Не у` and `-у` differ in.
var notField, negField = "IsNot", "IsUnaryMinus"

func init() {
	calibrate := func(src string) (string, bool) {
		defer func() { recover() }()
		a := ast.NewAST("х = " + src + ";")
		if a.Parse() != nil || len(a.Body) != 1 {
			return "", false
		}
		asg, ok := a.Body[0].(ast.AssignmentStatement)
		if !ok || len(asg.Expr.Statements) != 1 {
			return "", false
		}
		v := reflect.ValueOf(asg.Expr.Statements[0])
		name, n := "", 0
		eachFlag(v, func(f string, set bool) {
			if set {
				name, n = f, n+1
			}
		})
		return name, n == 1
	}
	// several operand shapes: one broken setter must not blind the other shapes
	find := func(op, deflt string) string {
		votes := map[string]int{}
		for _, operand := range []string{"у", "у()", "у.ы", "(у + ы)"} {
			if f, ok := calibrate(op + operand); ok {
				votes[f]++
			}
		}
		best := deflt
		for f, n := range votes {
			if n > votes[best] || (n == votes[best] && f < best && best != deflt) {
				best = f
			}
		}
		return best
	}
	notField, negField = find("Не ", notField), find("-", negField)
}

// eachFlag calls f for every bool field of v or of a struct embedded in it.
func eachFlag(v reflect.Value, f func(name string, set bool)) {
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		switch fv := v.Field(i); {
		case fv.Kind() == reflect.Bool:
			f(t.Field(i).Name, fv.Bool())
		case fv.Kind() == reflect.Struct && t.Field(i).Anonymous:
			eachFlag(fv, f)
		}
	}
}

func marks(x interface{}) (not, neg bool) {
	switch x.(type) {
	case ast.VarStatement, ast.ExprStatements, *ast.ExpStatement, ast.ExpStatement, ast.CallChainStatement, ast.MethodStatement,
		ast.ItemStatement, ast.TernaryStatement, ast.NewObjectStatement, *ast.ExprStatements:
		eachFlag(reflect.ValueOf(x), func(name string, set bool) {
			if set && name == notField {
				not = true
			}
			if set && name == negField {
				neg = true
			}
		})
	}
	return
}

// Module is the tree of a whole module.
func Module(m *ast.ModuleStatement) *tree.Node {
	res := tree.N("module", "", Globals(m))
	for _, it := range m.Body {
		res.Kids = append(res.Kids, Stmt(it))
	}
	return tree.Fold(res)
}

func Globals(m *ast.ModuleStatement) *tree.Node {
	g := tree.N("globals", "")
	keys := make([]string, 0, len(m.GlobalVariables))
	for k := range m.GlobalVariables {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		v := m.GlobalVariables[k]
		n := tree.N("gvar", v.Var.Name, tree.N("dir", strings.ToLower(v.Directive)), flag("export", v.Export))
		if k != v.Var.Name {
			n.Kids = append(n.Kids, tree.N("badkey", k))
		}
		g.Kids = append(g.Kids, n)
	}
	return g
}

func flag(kind string, b bool) *tree.Node {
	if b {
		return tree.N(kind, "true")
	}
	return tree.N(kind, "")
}

func Block(s ast.Statements) *tree.Node {
	b := tree.N("block", "")
	for _, x := range s {
		b.Kids = append(b.Kids, Stmt(x))
	}
	return b
}

func routine(v *ast.FunctionOrProcedure) *tree.Node {
	kind := "routine?"
	switch v.Type {
	case ast.PFTypeFunction:
		kind = "func"
	case ast.PFTypeProcedure:
		kind = "proc"
	}
	params := tree.N("params", "")
	for _, p := range v.Params {
		d := tree.None()
		if p.Default != nil {
			d = Expr(p.Default)
		}
		params.Kids = append(params.Kids, tree.N("param", p.Name, flag("val", p.IsValue), d))
	}
	locals := tree.N("locals", "")
	names := make([]string, 0, len(v.ExplicitVariables))
	for k := range v.ExplicitVariables {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		n := tree.N("v", k)
		if v.ExplicitVariables[k].Name != k {
			n.Kids = append(n.Kids, tree.N("badkey", v.ExplicitVariables[k].Name))
		}
		locals.Kids = append(locals.Kids, n)
	}
	return tree.N(kind, v.Name, tree.N("dir", strings.ToLower(v.Directive)), flag("export", v.Export), params, locals, Block(v.Body))
}

// StmtFolded is Stmt in normal form.
func StmtFolded(x ast.Statement) *tree.Node { return tree.Fold(Stmt(x)) }

// Stmt is the tree of one statement (or routine).
func Stmt(x ast.Statement) *tree.Node {
	switch v := x.(type) {
	case *ast.FunctionOrProcedure:
		if v == nil {
			return tree.N("nilptr", "routine")
		}
		return routine(v)
	case ast.AssignmentStatement:
		return tree.N("assign", "", Expr(v.Var), exprWrap(v.Expr))
	case *ast.IfStatement:
		elifs := tree.N("elifs", "")
		for _, e := range v.IfElseBlock {
			ei, ok := e.(*ast.IfStatement)
			if !ok {
				elifs.Kids = append(elifs.Kids, tree.N("unknown", fmt.Sprintf("%T", e)))
				continue
			}
			n := tree.N("elif", "", Expr(ei.Expression), Block(ei.TrueBlock))
			if len(ei.IfElseBlock) > 0 || len(ei.ElseBlock) > 0 {
				n.Kids = append(n.Kids, tree.N("extra", ""), Block(ei.IfElseBlock), Block(ei.ElseBlock))
			}
			elifs.Kids = append(elifs.Kids, n)
		}
		return tree.N("if", "", Expr(v.Expression), Block(v.TrueBlock), elifs, Block(v.ElseBlock))
	case *ast.LoopStatement:
		switch {
		case v.WhileExpr != nil:
			n := tree.N("while", "", Expr(v.WhileExpr), Block(v.Body))
			if v.For != nil || v.In != nil || v.To != nil {
				n.Kids = append(n.Kids, tree.N("extra", ""))
			}
			return n
		case v.In != nil:
			name, ok := v.For.(string)
			if !ok {
				name = fmt.Sprintf("?%T", v.For)
			}
			n := tree.N("foreach", name, Expr(v.In), Block(v.Body))
			if v.To != nil {
				n.Kids = append(n.Kids, tree.N("extra", ""))
			}
			return n
		default:
			return tree.N("for", "", Expr(v.For), Expr(v.To), Block(v.Body))
		}
	case ast.TryStatement:
		return tree.N("try", "", Block(v.Body), Block(v.Catch))
	case ast.ThrowStatement:
		return tree.N("throw", "", Expr(v.Param))
	case *ast.ReturnStatement:
		return tree.N("return", "", Expr(v.Param))
	case ast.BreakStatement:
		return tree.N("break", "")
	case ast.ContinueStatement:
		return tree.N("continue", "")
	case ast.GoToStatement:
		if v.Label == nil {
			return tree.N("goto", "?nil")
		}
		return tree.N("goto", v.Label.Name)
	case *ast.GoToLabelStatement:
		return tree.N("label", v.Name)
	}
	return Expr(x)
}

func exprWrap(e ast.ExprStatements) *tree.Node { return Expr(e) }

func args(list ast.Statements) []*tree.Node {
	if len(list) == 1 && list[0] == nil {
		return nil
	}
	res := make([]*tree.Node, 0, len(list))
	for _, a := range list {
		res = append(res, Expr(a))
	}
	return res
}

func marked(x interface{}, n *tree.Node) *tree.Node {
	not, neg := marks(x)
	if neg {
		n = tree.Neg(n)
	}
	if not {
		n = tree.Not(n)
	}
	return n
}

// Expr is the tree of an expression.
func Expr(x interface{}) *tree.Node { return expr(x, false) }

// expr: member is true for the part after a dot, where Выполнить is an ordinary name.
func expr(x interface{}, member bool) *tree.Node {
	switch v := x.(type) {
	case nil:
		return tree.None()
	case float64:
		return tree.Num(v)
	case float32:
		return tree.Num(float64(v))
	case int:
		return tree.Num(float64(v))
	case int64:
		return tree.Num(float64(v))
	case int32:
		return tree.Num(float64(v))
	case string:
		return tree.N("str", v)
	case bool:
		return tree.Bool(v)
	case time.Time:
		return tree.N("date", DateText(v))
	case ast.UndefinedStatement:
		return tree.N("undef", "")
	case ast.VarStatement:
		return marked(v, tree.N("var", v.Name))
	case ast.MethodStatement:
		name := v.Name
		if !member && strings.ToLower(name) == "выполнить" {
			name = "выполнить"
		}
		return marked(v, tree.N("call", name, args(v.Param.Statements)...))
	case ast.ItemStatement:
		return marked(v, tree.N("item", "", expr(v.Object, member), Expr(v.Item)))
	case ast.CallChainStatement:
		return marked(v, tree.N("dot", "", Expr(v.Call), expr(v.Unit, true)))
	case ast.NewObjectStatement:
		return marked(v, tree.N("new", v.Constructor, args(v.Param.Statements)...))
	case ast.TernaryStatement:
		return marked(v, tree.N("ternary", "", Expr(v.Expression), Expr(v.TrueBlock), Expr(v.ElseBlock)))
	case *ast.ExpStatement:
		if v == nil {
			return tree.N("nilptr", "exp")
		}
		return marked(v, tree.N("bin", opName(v.Operation), Expr(v.Left), Expr(v.Right)))
	case ast.ExpStatement:
		return marked(v, tree.N("bin", opName(v.Operation), Expr(v.Left), Expr(v.Right)))
	case ast.ExprStatements:
		t := tree.N("tuple", "")
		for _, s := range v.Statements {
			t.Kids = append(t.Kids, Expr(s))
		}
		if len(t.Kids) == 1 && t.Kids[0].Kind != "none" {
			return marked(v, t.Kids[0])
		}
		return marked(v, t)
	case *ast.ExprStatements:
		return expr(*v, member)
	case ast.GoToStatement, *ast.GoToLabelStatement, ast.AssignmentStatement, *ast.IfStatement, *ast.LoopStatement, ast.TryStatement,
		ast.ThrowStatement, *ast.ReturnStatement, ast.BreakStatement, ast.ContinueStatement, *ast.FunctionOrProcedure:
		return Stmt(v)
	}
	return tree.N("unknown", fmt.Sprintf("%T", x))
}

func opName(o ast.OperationType) string {
	switch o {
	case ast.OpPlus:
		return "+"
	case ast.OpMinus:
		return "-"
	case ast.OpMul:
		return "*"
	case ast.OpDiv:
		return "/"
	case ast.OpEq:
		return "="
	case ast.OpGt:
		return ">"
	case ast.OpLt:
		return "<"
	case ast.OpNe:
		return "<>"
	case ast.OpLe:
		return "<="
	case ast.OpGe:
		return ">="
	case ast.OpMod:
		return "%"
	case ast.OpOr:
		return "ИЛИ"
	case ast.OpAnd:
		return "И"
	}
	return fmt.Sprintf("op?%d", int(o))
}

// DateText is the neutral text of a date.
func DateText(t time.Time) string {
	if t.IsZero() {
		return "empty"
	}
	s := t.Format("20060102150405")
	if _, off := t.Zone(); off != 0 || t.Nanosecond() != 0 {
		s += t.Format(" .000000000 -07:00")
	}
	return s
}
