package checks

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// ---- C18: Walk ----

// sameStatement compares two statements by identity where they have one, else by what they hold.
func sameStatement(a, b ast.Statement) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() {
		return va.IsValid() == vb.IsValid()
	}
	if va.Type() != vb.Type() {
		return false
	}
	switch x := a.(type) {
	case ast.TryStatement:
		y := b.(ast.TryStatement)
		return sameSlice(x.Body, y.Body) && sameSlice(x.Catch, y.Catch)
	case ast.Statements:
		return sameSlice(x, b.(ast.Statements))
	}
	if va.Kind() == reflect.Ptr {
		return va.Pointer() == vb.Pointer()
	}
	return reflect.DeepEqual(a, b)
}

func sameSlice(a, b ast.Statements) bool {
	return len(a) == len(b) && (len(a) == 0 || &a[0] == &b[0])
}

type slotInfo struct {
	block  blockInfo
	k      int
	elif   bool
	before []*ast.Statement // slots that must have been visited earlier
}

// slots lists the place of every statement of every block, with the places nested inside it.
func slots(m ast.Statements) (order []*ast.Statement, info map[*ast.Statement]*slotInfo) {
	info = map[*ast.Statement]*slotInfo{}
	byOwner := map[*ast.Statement][]*ast.Statement{}
	// the place that owns a block: found by walking the blocks with a stack of owners
	var visit func(b blockInfo)
	var owned func(place *ast.Statement, root *ast.FunctionOrProcedure, s ast.Statement)
	cur := []*ast.Statement{nil}
	elif := false
	visit = func(b blockInfo) {
		elif := elif
		for k := range b.stmts {
			p := &b.stmts[k]
			order = append(order, p)
			info[p] = &slotInfo{block: b, k: k, elif: elif}
			byOwner[cur[len(cur)-1]] = append(byOwner[cur[len(cur)-1]], p)
			owned(p, b.root, b.stmts[k])
		}
	}
	owned = func(place *ast.Statement, root *ast.FunctionOrProcedure, s ast.Statement) {
		cur = append(cur, place)
		sub := func(r *ast.FunctionOrProcedure, owner ast.Statement, st ast.Statements) {
			elif = false
			visit(blockInfo{root: r, owner: owner, stmts: st})
		}
		var one func(s ast.Statement)
		one = func(s ast.Statement) {
			switch v := s.(type) {
			case *ast.FunctionOrProcedure:
				sub(v, s, v.Body)
			case *ast.IfStatement:
				sub(root, s, v.TrueBlock)
				elif = true
				visit(blockInfo{root: root, owner: s, stmts: v.IfElseBlock})
				sub(root, s, v.ElseBlock)
			case *ast.LoopStatement:
				sub(root, s, v.Body)
			case ast.TryStatement:
				sub(root, s, v.Body)
				sub(root, s, v.Catch)
			}
		}
		one(s)
		cur = cur[:len(cur)-1]
	}
	visit(blockInfo{stmts: m})
	for p, kids := range byOwner {
		if p != nil {
			info[p].before = kids
		}
	}
	return
}

// argSlots lists the place of every argument of every call in a tree, and which of them belong to calls that are statements.
func argSlots(body ast.Statements) (list []*ast.Statement, ofStatement map[*ast.Statement]bool) {
	ofStatement = map[*ast.Statement]bool{}
	call := reflect.TypeOf(ast.MethodStatement{})
	var visit func(v reflect.Value)
	visit = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !v.IsNil() {
				visit(v.Elem())
			}
		case reflect.Slice:
			for k := 0; k < v.Len(); k++ {
				visit(v.Index(k))
			}
		case reflect.Struct:
			if v.Type() == reflect.TypeOf(time.Time{}) {
				return
			}
			if v.Type() == call && v.CanInterface() {
				args := v.Interface().(ast.MethodStatement).Param.Statements
				for k := range args {
					list = append(list, &args[k])
				}
			}
			for k := 0; k < v.NumField(); k++ {
				if v.Type().Field(k).IsExported() || v.Type().Field(k).Anonymous {
					visit(v.Field(k))
				}
			}
		}
	}
	visit(reflect.ValueOf(body))
	order, _ := slots(body)
	for _, p := range order {
		if m, ok := (*p).(ast.MethodStatement); ok {
			for k := range m.Param.Statements {
				ofStatement[&m.Param.Statements[k]] = true
			}
		}
	}
	return
}

// editedArgs replaces arguments through Walk and through their places directly.
func editedArgs(c *mon.Ctx, src string) {
	a, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	b, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	la, _ := argSlots(a.ModuleStatement.Body)
	lb, _ := argSlots(b.ModuleStatement.Body)
	if len(la) == 0 || len(la) != len(lb) {
		return
	}
	c.Eval(1)
	index := map[*ast.Statement]int{}
	rate := 1 + c.R.IntN(3)
	for k, p := range la {
		if c.R.IntN(rate) == 0 {
			index[p] = k
		}
	}
	var done []int
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if _, ok := (*parent).(ast.MethodStatement); !ok {
			return
		}
		if k, ok := index[stm]; ok {
			*stm = ast.VarStatement{Name: fmt.Sprintf("арг%d", k)}
			done = append(done, k)
		}
	})
	for _, k := range done {
		*lb[k] = ast.VarStatement{Name: fmt.Sprintf("арг%d", k)}
	}
	for _, conf := range []ast.PrintConf{{Margin: 1}, {OneLine: true}} {
		if x, y := a.Print(conf), b.Print(conf); x != y {
			c.Fail(src, "replacing arguments through Walk prints\n%s\nreplacing them directly prints\n%s", x, y)
		}
	}
	x, e1 := a.JSON()
	y, e2 := b.JSON()
	if e1 != nil || e2 != nil || string(x) != string(y) {
		c.Fail(src, "replacing arguments through Walk gives JSON\n%s\nreplacing them directly gives\n%s", x, y)
	}
	c.Count("arguments_replaced", len(done))
}

// exprVisit is a visit of an expression: the statement or expression it lies in, and what is seen.
type exprVisit struct {
	root         *ast.FunctionOrProcedure
	parent, node string
}

func visitKey(s ast.Statement) string {
	if v := reflect.ValueOf(s); v.Kind() == reflect.Ptr {
		return fmt.Sprintf("%T@%p", s, s)
	}
	return fmt.Sprintf("%T %+v", s, s)
}

// exprVisits lists what must be visited of the conditions and values the blocks of body hold, inside before outside.
func exprVisits(order []*ast.Statement, info map[*ast.Statement]*slotInfo) (list []exprVisit, inside map[exprVisit][]exprVisit) {
	inside = map[exprVisit][]exprVisit{}
	var root *ast.FunctionOrProcedure
	var in func(parent, s ast.Statement) (exprVisit, bool)
	parts := func(s ast.Statement) (kids []exprVisit) {
		var of []ast.Statement
		switch v := s.(type) {
		case *ast.ExpStatement:
			of = []ast.Statement{v.Left, v.Right}
		case ast.TernaryStatement:
			of = []ast.Statement{v.Expression, v.TrueBlock, v.ElseBlock}
		case ast.MethodStatement:
			of = v.Param.Statements
		}
		for _, x := range of {
			if k, ok := in(s, x); ok {
				kids = append(kids, k)
			}
		}
		return
	}
	in = func(parent, s ast.Statement) (exprVisit, bool) {
		if s == nil {
			return exprVisit{}, false
		}
		kids := parts(s)
		v := exprVisit{root, visitKey(parent), visitKey(s)}
		list = append(list, v)
		inside[v] = kids
		return v, true
	}
	for _, p := range order {
		root = info[p].block.root
		switch v := (*p).(type) {
		case *ast.IfStatement:
			in(v, v.Expression)
		case *ast.ReturnStatement:
			in(v, v.Param)
		case ast.MethodStatement:
			parts(v)
		}
	}
	return
}

type walkFunc func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement))

// monitorWalk checks one read-only walk over the blocks of body. parent is what is passed for its own statements.
func monitorWalk(c *mon.Ctx, src string, body ast.Statements, parent ast.Statement, walk walkFunc) {
	c.Eval(1)
	c.Doing(src)
	order, info := slots(body)
	visited := map[*ast.Statement]int{}
	what := func(p *ast.Statement) string {
		return clip(fmt.Sprintf("%T %+v", *p, *p), 300)
	}
	others := 0
	args, ofStatement := argSlots(body)
	isArg := make(map[*ast.Statement]int, len(args))
	for _, p := range args {
		isArg[p] = 0
	}
	exprs, inside := exprVisits(order, info)
	seen := map[exprVisit]int{}
	walk(func(root *ast.FunctionOrProcedure, par, stm *ast.Statement) {
		if stm == nil || par == nil {
			c.Fail(src, "Walk passes a nil pointer")
		}
		in, ok := info[stm]
		if !ok {
			others++
			if *stm != nil {
				v := exprVisit{root, visitKey(*par), visitKey(*stm)}
				for _, k := range inside[v] {
					if seen[k] == 0 {
						c.Fail(src, "%s is visited before %s inside it", clip(v.node, 300), clip(k.node, 300))
					}
				}
				seen[v]++
			}
			if _, ok := (*par).(ast.MethodStatement); ok {
				n, ok := isArg[stm]
				if !ok {
					c.Fail(src, "the pointer to argument %s does not point into the tree", what(stm))
				}
				if n > 0 {
					c.Fail(src, "argument %s is visited twice", what(stm))
				}
				isArg[stm]++
				c.Count("arguments_visited", 1)
			}
			if _, isRoutine := (*stm).(*ast.FunctionOrProcedure); isRoutine {
				c.Fail(src, "a routine is visited somewhere else than in its place")
			}
			switch (*stm).(type) {
			case *ast.LoopStatement, ast.TryStatement, *ast.ReturnStatement, ast.BreakStatement, ast.ContinueStatement, ast.ThrowStatement, ast.GoToStatement, *ast.GoToLabelStatement:
				c.Fail(src, "%s is visited somewhere else than in its place", what(stm))
			}
			return
		}
		visited[stm]++
		if visited[stm] > 1 {
			c.Fail(src, "%s is visited twice", what(stm))
		}
		for _, k := range in.before {
			if visited[k] == 0 {
				c.Fail(src, "%s is visited before %s inside it", what(stm), what(k))
			}
		}
		if f, isRoutine := (*stm).(*ast.FunctionOrProcedure); isRoutine {
			if root != nil && root != f {
				c.Fail(src, "routine %s is given routine %s as its root", f.Name, root.Name)
			}
		} else if root != in.block.root {
			name := func(f *ast.FunctionOrProcedure) string {
				if f == nil {
					return "none"
				}
				return f.Name
			}
			c.Fail(src, "%s: enclosing routine is %s, given %s", what(stm), name(in.block.root), name(root))
		}
		want := in.block.owner
		if want == nil {
			want = parent
		}
		if !sameStatement(*par, want) {
			c.Fail(src, "%s lies directly in %s, given parent %s", what(stm), clip(fmt.Sprintf("%T %+v", want, want), 300), what(par))
		}
		c.Count("visits_checked", 1)
	})
	for _, p := range order {
		if visited[p] != 1 {
			c.Fail(src, "%s is visited %d times", what(p), visited[p])
		}
	}
	for p := range ofStatement {
		if isArg[p] != 1 {
			c.Fail(src, "argument %s of a call statement is visited %d times", what(p), isArg[p])
		}
	}
	wanted := map[exprVisit]int{}
	for _, v := range exprs {
		wanted[v]++
	}
	for v, n := range wanted {
		if seen[v] < n || seen[v] > n && strings.HasPrefix(v.parent, "*") {
			c.Fail(src, "%s in %s with its enclosing routine is visited %d times, of %d", clip(v.node, 300), clip(v.parent, 300), seen[v], n)
		}
		c.Count("expressions_expected", n)
	}
	c.Count("walks", 1)
	c.Count("expression_visits", others)
	if len(order) > 0 {
		c.Seen(src)
	}
}

// edited replaces statements through Walk and through the places directly; both must show the same.
func edited(c *mon.Ctx, src string) {
	a, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	b, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	oa, ia := slots(a.ModuleStatement.Body)
	ob, _ := slots(b.ModuleStatement.Body)
	if len(oa) != len(ob) || len(oa) == 0 {
		return
	}
	c.Eval(1)
	rate := 1 + c.R.IntN(4)
	plan := map[*ast.Statement]ast.Statement{}
	for k := range oa {
		if _, ok := (*oa[k]).(*ast.FunctionOrProcedure); ok || c.R.IntN(rate) > 0 {
			continue
		}
		var s ast.Statement
		switch n := c.R.IntN(4); {
		case ia[oa[k]].elif:
			s = &ast.IfStatement{Expression: ast.VarStatement{Name: fmt.Sprintf("новое%d", k)}, TrueBlock: ast.Statements{ast.MethodStatement{Name: "тело"}}}
		case n == 0:
			s = ast.MethodStatement{Name: fmt.Sprintf("новое%d", k)}
		case n == 1:
			s = ast.AssignmentStatement{Var: ast.VarStatement{Name: fmt.Sprintf("новое%d", k)}, Expr: ast.ExprStatements{Statements: ast.Statements{float64(k)}}}
		case n == 2:
			s = &ast.ReturnStatement{}
		default:
			s = &ast.LoopStatement{WhileExpr: ast.VarStatement{Name: fmt.Sprintf("у%d", k)}, Body: ast.Statements{ast.BreakStatement{}}}
		}
		plan[oa[k]] = s
	}
	confs := []ast.PrintConf{{Margin: 2}, {OneLine: true}}
	if c.R.IntN(2) == 0 { // what was rendered before the edit must not be shown after it
		for _, conf := range confs {
			a.Print(conf)
		}
		a.JSON()
		a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})
		for _, p := range oa {
			if _, ok := (*p).(*ast.FunctionOrProcedure); !ok && c.R.IntN(4) == 0 {
				a.PrintStatement(*p)
			}
		}
		c.Count("edited_after_rendering", 1)
	}
	done := 0
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if s, ok := plan[stm]; ok {
			*stm = s
			done++
		}
	})
	if done != len(plan) {
		c.Fail(src, "%d statements were to be replaced and %d were visited", len(plan), done)
	}
	// the same edits by hand, innermost first as places in replaced statements do not matter
	for k := len(oa) - 1; k >= 0; k-- {
		if s, ok := plan[oa[k]]; ok {
			*ob[k] = s
		}
	}
	for _, conf := range confs {
		if x, y := a.Print(conf), b.Print(conf); x != y {
			c.Fail(src, "replacing statements through Walk prints\n%s\nreplacing them directly prints\n%s", x, y)
		}
	}
	x, e1 := a.JSON()
	y, e2 := b.JSON()
	if e1 != nil || e2 != nil || string(x) != string(y) {
		c.Fail(src, "replacing statements through Walk gives JSON\n%s\nreplacing them directly gives\n%s", x, y)
	}
	c.Count("statements_replaced", done)
	// one more replacement, now that everything has been rendered
	oa, ia = slots(a.ModuleStatement.Body)
	ob, _ = slots(b.ModuleStatement.Body)
	if len(oa) == 0 || len(oa) != len(ob) {
		return
	}
	k := c.R.IntN(len(oa))
	if _, ok := (*oa[k]).(*ast.FunctionOrProcedure); ok || ia[oa[k]].elif {
		return
	}
	*ob[k] = ast.MethodStatement{Name: "последнее"}
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
		if stm == oa[k] {
			*stm = ast.MethodStatement{Name: "последнее"}
		}
	})
	fresh := ast.NewAST("")
	fresh.ModuleStatement = b.ModuleStatement
	for _, conf := range confs {
		if x, y := a.Print(conf), fresh.Print(conf); x != y {
			c.Fail(src, "after another replacement Print gives\n%s\nthe edited tree on a new object prints\n%s", x, y)
		}
	}
	x, e1 = a.JSON()
	y, e2 = fresh.JSON()
	if e1 != nil || e2 != nil || string(x) != string(y) {
		c.Fail(src, "after another replacement JSON gives\n%s\nthe edited tree on a new object gives\n%s", x, y)
	}
}

func walkAll(c *mon.Ctx, src string, a *ast.AstNode) {
	body := a.ModuleStatement.Body
	monitorWalk(c, src, body, body, func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) {
		a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { cb(root, parent, stm) })
	})
	// again: a walk leaves nothing behind
	if c.R.IntN(4) == 0 {
		monitorWalk(c, src, body, body, func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) {
			a.ModuleStatement.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { cb(root, parent, stm) })
		})
	}
	// the walk of one block on its own
	var blocks []blockInfo
	eachBlock(a, func(b blockInfo) {
		if len(b.stmts) > 0 && b.owner != nil {
			blocks = append(blocks, b)
		}
	})
	for n := 0; n < 2 && len(blocks) > 0; n++ {
		b := blocks[c.R.IntN(len(blocks))]
		monitorWalk(c, src, b.stmts, b.owner, func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) {
			ast.StatementWalk(b.owner, b.stmts, func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { cb(root, parent, stm) })
		})
	}
}

func init() {
	run := func(c *mon.Ctx, m *tree.Node) {
		src, a := parsed(c, m)
		walkAll(c, src, a)
		c.Sample("%q", src)
		if c.R.IntN(2) == 0 {
			edited(c, src)
		}
		if c.R.IntN(2) == 0 {
			editedArgs(c, src)
		}
	}
	groups := []mon.Group{
		{Name: "modules", Quick: 30000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 300)
			run(c, gen.New(c.R, cfg).Module())
		}},
		{Name: "blocks", Quick: 40000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			s := &shaper{r: c.R, budget: 4 + c.R.IntN(40)}
			run(c, inHome(c.R, s.block(2+c.R.IntN(4), 1+c.R.IntN(5))))
		}},
		{Name: "routines-then-body", Quick: 15000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			// several routines and a module body after them
			s := &shaper{r: c.R, budget: 4 + c.R.IntN(30)}
			g := gen.New(c.R, gen.Cfg{Routines: 4, Globals: 2, Stmts: 2, Depth: 2, ExprDepth: 1, Budget: 30, Few: few(c.R)})
			m := g.Module()
			m.Kids = append(m.Kids, s.block(3, 3).Kids...)
			run(c, m)
		}},
		{Name: "deep", Quick: 150, Deep: 2000, Run: func(c *mon.Ctx, i int) {
			s := &shaper{r: c.R, budget: 6}
			n := 1 + i*2
			if i > 100 {
				n = c.R.IntN(1500)
			}
			m := inHome(c.R, wrapBlocks(c.R, s.block(2, 3), n))
			src, a := parsed(c, m)
			body := a.ModuleStatement.Body
			monitorWalk(c, src, body, body, func(cb func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement)) {
				a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { cb(root, parent, stm) })
			})
			if n < 150 {
				edited(c, src)
			}
		}},
		{Name: "branches", Quick: 3 * 4 * 27 * 4, Deep: 3 * 4 * 27 * 4, Run: func(c *mon.Ctx, i int) {
			// every shape of Если: how much each branch holds, with and without Иначе
			blk := func(n int) *tree.Node {
				b := tree.N("block", "")
				for ; n > 0; n-- {
					b.Kids = append(b.Kids, leafStmt(c.R.IntN(50)))
				}
				return b
			}
			cond := func() *tree.Node {
				if c.R.IntN(2) == 0 {
					return tree.N("call", "ф", tree.N("var", "а"))
				}
				return tree.N("var", pickS(c.R, "у", "а"))
			}
			n := tree.N("if", "", cond(), blk(i%3), tree.N("elifs", ""))
			i /= 3
			elifs, shape := i%4, i/4%27
			for k := 0; k < elifs; k++ {
				n.Kids[2].Kids = append(n.Kids[2].Kids, tree.N("elif", "", cond(), blk(shape%3)))
				shape /= 3
			}
			n.Kids = append(n.Kids, blk(i/4/27%4))
			run(c, inHome(c.R, tree.N("block", "", n)))
		}},
		{Name: "long", Quick: 60, Deep: 600, Run: func(c *mon.Ctx, i int) {
			b := tree.N("block", "")
			s := &shaper{r: c.R, budget: 1 << 30}
			for n := c.R.IntN(1500); n > 0; n-- {
				if c.R.IntN(8) == 0 {
					b.Kids = append(b.Kids, s.stmt(1, 2))
				} else {
					b.Kids = append(b.Kids, leafStmt(n))
				}
			}
			run(c, inHome(c.R, b))
		}},
	}
	groups = append(groups, enumGroupsOf(func(c *mon.Ctx, src string, r *ref.Result) {
		if !r.Accept() {
			return
		}
		a, err := parse(c, src)
		if err != nil {
			c.Count("skipped_rejected", 1)
			return
		}
		walkAll(c, src, a)
	}, "statement", "if", "loop", "try", "foreach", "for", "label", "nest", "module")...)
	register(&mon.Check{ID: "C18", Groups: groups,
		Rule:        "a monitor with its own traversal of the exported tree knows the address of every statement slot, its owner and its routine; every callback of Walk and StatementWalk on random modules, block structures, deep and long blocks and enumerated short texts is checked against it, and random replacements through the pointer are compared with direct edits in Print and JSON; non-trivial: distinct text with at least one statement",
		Assumptions: []string{"visits of conditions, operands and other expressions that are no argument of a call are not judged", "for a routine itself either itself or none is accepted as the enclosing routine"},
		MinCounts:   map[string]int64{"expressions_expected": 20000, "visits_checked": 200000, "walks": 50000, "statements_replaced": 20000, "arguments_visited": 20000, "arguments_replaced": 5000}})
}
