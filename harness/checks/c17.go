package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/canon"
	"verif/gen"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// ---- C17: JSON ----

// jv is a JSON value that keeps the order and the repetition of keys.
type jv struct {
	kind byte // o a s n b z
	s    string
	b    bool
	keys []string
	kids []*jv
}

func (v *jv) get(k string) *jv {
	for i, x := range v.keys {
		if x == k {
			return v.kids[i]
		}
	}
	return nil
}

func decodeJSON(data []byte) (v *jv, err error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	v = decodeValue(d)
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	if rest := bytes.TrimSpace(data[d.InputOffset():]); len(rest) > 0 {
		return nil, fmt.Errorf("text after the value")
	}
	return v, nil
}

func decodeValue(d *json.Decoder) *jv {
	tok, err := d.Token()
	if err != nil {
		panic(err)
	}
	switch t := tok.(type) {
	case json.Delim:
		v := &jv{kind: 'a'}
		if t == '{' {
			v.kind = 'o'
		}
		for d.More() {
			if v.kind == 'o' {
				k, err := d.Token()
				if err != nil {
					panic(err)
				}
				key := k.(string)
				for _, x := range v.keys {
					if x == key {
						panic("key " + key + " appears twice")
					}
				}
				v.keys = append(v.keys, key)
			}
			v.kids = append(v.kids, decodeValue(d))
		}
		if _, err := d.Token(); err != nil {
			panic(err)
		}
		return v
	case string:
		return &jv{kind: 's', s: t}
	case json.Number:
		return &jv{kind: 'n', s: string(t)}
	case bool:
		return &jv{kind: 'b', b: t}
	}
	return &jv{kind: 'z'}
}

type jsonShape struct{ why string }

func bad(format string, a ...interface{}) { panic(jsonShape{fmt.Sprintf(format, a...)}) }

// fields checks that an object has all of the wanted keys and nothing but them and the optional ones.
func (v *jv) has(want, opt string) bool {
	w, o := fields(want), fields(opt)
	for _, k := range w {
		if v.get(k) == nil {
			return false
		}
	}
	n := 0
	for _, k := range o {
		if v.get(k) != nil {
			n++
		}
	}
	return len(v.keys) == len(w)+n
}

func (v *jv) text() string {
	if v == nil || v.kind != 's' {
		bad("a string is wanted")
	}
	return v.s
}

func (v *jv) flag() bool {
	if v == nil {
		return false
	}
	if v.kind != 'b' {
		bad("a boolean is wanted")
	}
	return v.b
}

func (v *jv) list() []*jv {
	if v == nil || v.kind == 'z' {
		return nil
	}
	if v.kind != 'a' {
		bad("a list is wanted")
	}
	return v.kids
}

func (v *jv) code() int {
	if v == nil || v.kind != 'n' {
		bad("a number is wanted")
	}
	n, err := strconv.Atoi(v.s)
	if err != nil {
		bad("an integer is wanted, not %s", v.s)
	}
	return n
}

func flagNode(kind string, b bool) *tree.Node {
	if b {
		return tree.N(kind, "true")
	}
	return tree.N(kind, "")
}

// jsonModule turns the JSON of a module into the neutral tree, as far as JSON tells kinds apart.
func jsonModule(v *jv) (n *tree.Node, err error) {
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(jsonShape)
			if !ok {
				panic(e)
			}
			err = fmt.Errorf("%s", s.why)
		}
	}()
	if v.kind != 'o' || !v.has("Name Body", "GlobalVariables") {
		bad("top level has keys %v", v.keys)
	}
	if v.get("Name").text() != "" {
		bad("a module has no name")
	}
	g := tree.N("globals", "")
	if gv := v.get("GlobalVariables"); gv != nil && gv.kind != 'z' {
		if gv.kind != 'o' {
			bad("GlobalVariables is no object")
		}
		for i, k := range gv.keys {
			x := gv.kids[i]
			if x.kind != 'o' || !x.has("Directive Var Export", "") || !x.get("Var").has("Name", "") {
				bad("variable %s has keys %v", k, x.keys)
			}
			n := tree.N("gvar", x.get("Var").get("Name").text(), tree.N("dir", strings.ToLower(x.get("Directive").text())), flagNode("export", x.get("Export").flag()))
			if n.Text != k {
				bad("variable %q is under the key %q", n.Text, k)
			}
			g.Kids = append(g.Kids, n)
		}
		sort.Slice(g.Kids, func(i, j int) bool { return g.Kids[i].Text < g.Kids[j].Text })
	}
	n = tree.N("module", "", g)
	for _, x := range v.get("Body").list() {
		n.Kids = append(n.Kids, jsonNode(x, false))
	}
	return tree.Fold(n), nil
}

func jsonBlock(v *jv) *tree.Node {
	b := tree.N("block", "")
	for _, x := range v.list() {
		b.Kids = append(b.Kids, jsonNode(x, false))
	}
	return b
}

func jsonArgs(v *jv) []*tree.Node {
	if v == nil || v.kind != 'o' || !v.has("Statements", "") {
		bad("arguments have keys %v", v.keys)
	}
	l := v.get("Statements").list()
	if len(l) == 1 && l[0].kind == 'z' {
		return nil
	}
	out := make([]*tree.Node, 0, len(l))
	for _, x := range l {
		out = append(out, jsonNode(x, false))
	}
	return out
}

var opCodes = map[int]string{int(ast.OpPlus): "+", int(ast.OpMinus): "-", int(ast.OpMul): "*", int(ast.OpDiv): "/", int(ast.OpEq): "=", int(ast.OpGt): ">", int(ast.OpLt): "<", int(ast.OpNe): "<>", int(ast.OpLe): "<=", int(ast.OpGe): ">=", int(ast.OpMod): "%", int(ast.OpOr): "ИЛИ", int(ast.OpAnd): "И"}

const jmarks = "UnaryMinus Not"

func jsonNode(v *jv, member bool) *tree.Node {
	mark := func(n *tree.Node) *tree.Node {
		if v.get("UnaryMinus").flag() {
			n = tree.Neg(n)
		}
		if v.get("Not").flag() {
			n = tree.Not(n)
		}
		return n
	}
	sub := func(k string) *tree.Node { return jsonNode(v.get(k), false) }
	switch v.kind {
	case 'z':
		return tree.None()
	case 's':
		return tree.N("str", v.s)
	case 'b':
		return tree.Bool(v.b)
	case 'n':
		f, err := strconv.ParseFloat(v.s, 64)
		if err != nil || math.IsInf(f, 0) {
			bad("number %s", v.s)
		}
		return tree.Num(f)
	case 'a':
		bad("a list stands where a value is wanted")
	}
	switch {
	case len(v.keys) == 0:
		return tree.N("empty", "")
	case v.has("ExplicitVariables Name Directive Body Params Type Export", ""):
		kind := "routine?"
		switch v.get("Type").code() {
		case int(ast.PFTypeFunction):
			kind = "func"
		case int(ast.PFTypeProcedure):
			kind = "proc"
		}
		params, locals := tree.N("params", ""), tree.N("locals", "")
		for _, p := range v.get("Params").list() {
			if p.kind != 'o' || !p.has("Name", "Default IsValue") {
				bad("a parameter has keys %v", p.keys)
			}
			d := tree.None()
			if x := p.get("Default"); x != nil {
				d = jsonNode(x, false)
			}
			params.Kids = append(params.Kids, tree.N("param", p.get("Name").text(), flagNode("val", p.get("IsValue").flag()), d))
		}
		if ev := v.get("ExplicitVariables"); ev.kind == 'o' {
			for i, k := range ev.keys {
				if x := ev.kids[i]; x.kind != 'o' || !x.has("Name", "") || x.get("Name").text() != k {
					bad("local variable %s is %v", k, x)
				}
				locals.Kids = append(locals.Kids, tree.N("v", k))
			}
			sort.Slice(locals.Kids, func(i, j int) bool { return locals.Kids[i].Text < locals.Kids[j].Text })
		} else if ev.kind != 'z' {
			bad("ExplicitVariables is no object")
		}
		return tree.N(kind, v.get("Name").text(), tree.N("dir", strings.ToLower(v.get("Directive").text())), flagNode("export", v.get("Export").flag()), params, locals, jsonBlock(v.get("Body")))
	case v.has("Var Expr", ""):
		return tree.N("assign", "", sub("Var"), sub("Expr"))
	case v.has("Expression TrueBlock IfElseBlock ElseBlock", ""):
		elifs := tree.N("elifs", "")
		for _, e := range v.get("IfElseBlock").list() {
			if e.kind != 'o' || !e.has("Expression TrueBlock IfElseBlock ElseBlock", "") || len(e.get("IfElseBlock").list())+len(e.get("ElseBlock").list()) > 0 {
				bad("an ИначеЕсли branch has keys %v", e.keys)
			}
			elifs.Kids = append(elifs.Kids, tree.N("elif", "", jsonNode(e.get("Expression"), false), jsonBlock(e.get("TrueBlock"))))
		}
		return tree.N("if", "", sub("Expression"), jsonBlock(v.get("TrueBlock")), elifs, jsonBlock(v.get("ElseBlock")))
	case v.has("Expression TrueBlock ElseBlock", jmarks):
		return mark(tree.N("ternary", "", sub("Expression"), sub("TrueBlock"), sub("ElseBlock")))
	case v.has("Body Catch", ""):
		return tree.N("try", "", jsonBlock(v.get("Body")), jsonBlock(v.get("Catch")))
	case v.has("WhileExpr Body", ""):
		return tree.N("while", "", sub("WhileExpr"), jsonBlock(v.get("Body")))
	case v.has("For In Body", ""):
		return tree.N("foreach", v.get("For").text(), sub("In"), jsonBlock(v.get("Body")))
	case v.has("For To Body", ""):
		return tree.N("for", "", sub("For"), sub("To"), jsonBlock(v.get("Body")))
	case v.has("Param", ""):
		return tree.N("param", "", sub("Param"))
	case v.has("Label", ""):
		if l := v.get("Label"); l.kind != 'o' || !l.has("Name", "") {
			bad("a label has keys %v", l.keys)
		}
		return tree.N("goto", v.get("Label").get("Name").text())
	case v.has("Name", jmarks):
		return mark(tree.N("name", v.get("Name").text()))
	case v.has("Name Param", jmarks):
		name := v.get("Name").text()
		if !member && strings.ToLower(name) == "выполнить" {
			name = "выполнить"
		}
		return mark(tree.N("call", name, jsonArgs(v.get("Param"))...))
	case v.has("Item Object", jmarks):
		return mark(tree.N("item", "", jsonNode(v.get("Object"), member), sub("Item")))
	case v.has("Unit Call", jmarks):
		return mark(tree.N("dot", "", sub("Call"), jsonNode(v.get("Unit"), true)))
	case v.has("Constructor Param", jmarks):
		return mark(tree.N("new", v.get("Constructor").text(), jsonArgs(v.get("Param"))...))
	case v.has("Left Right Operation", jmarks):
		op, ok := opCodes[v.get("Operation").code()]
		if !ok {
			bad("operation %d", v.get("Operation").code())
		}
		return mark(tree.N("bin", op, sub("Left"), sub("Right")))
	case v.has("Statements", jmarks):
		t := tree.N("tuple", "")
		for _, x := range v.get("Statements").list() {
			t.Kids = append(t.Kids, jsonNode(x, false))
		}
		if len(t.Kids) == 1 && t.Kids[0].Kind != "none" {
			return mark(t.Kids[0])
		}
		return mark(t)
	}
	bad("no node has the keys %v", v.keys)
	return nil
}

// merged forgets what JSON does not tell apart.
func merged(n *tree.Node) *tree.Node {
	switch n.Kind {
	case "break", "continue", "undef":
		return tree.N("empty", "")
	case "date":
		if n.Text == "empty" {
			return tree.N("str", "0001-01-01T00:00:00Z")
		}
		t, err := time.Parse("20060102150405", n.Text)
		if err != nil {
			return tree.N("str", "?"+n.Text)
		}
		return tree.N("str", t.Format(time.RFC3339))
	}
	out := &tree.Node{Kind: n.Kind, Text: n.Text}
	switch n.Kind {
	case "throw", "return":
		out.Kind = "param"
	case "var", "label":
		out.Kind = "name"
	}
	for _, k := range n.Kids {
		out.Kids = append(out.Kids, merged(k))
	}
	return out
}

func checkJSON(c *mon.Ctx, src string, a *ast.AstNode, want *tree.Node) {
	c.Eval(1)
	c.Doing(src)
	data, err := a.JSON()
	if err != nil {
		c.Fail(src, "JSON fails: %v", err)
	}
	if !json.Valid(data) || !utf8.Valid(data) {
		c.Fail(src, "JSON is not valid: %q", data)
	}
	v, err := decodeJSON(data)
	if err != nil {
		c.Fail(src, "JSON cannot be read: %v\n%s", err, data)
	}
	got, err := jsonModule(v)
	if err != nil {
		c.Fail(src, "JSON is not the JSON of a module: %v\n%s", err, data)
	}
	w := merged(want)
	if !tree.Equal(w, got) {
		c.Fail(src, "JSON says something else at %s\n%s", tree.Diff(w, got), clip(string(data), 2500))
	}
	c.Count("json_documents", 1)
	c.Count("json_nodes_compared", w.Size())
	c.Seen(src)
}

// jsonOf parses a generated module and checks its JSON.
func jsonOf(c *mon.Ctx, m *tree.Node) {
	src := gen.Full(c.R, m)
	want := tree.Fold(m.Clone())
	a, err := parse(c, src)
	if err != nil {
		c.Count("skipped_rejected", 1)
		return
	}
	checkJSON(c, src, a, want)
	c.Sample("%q", src)
}

func init() {
	groups := []mon.Group{
		{Name: "modules", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 500)
			m := gen.New(c.R, cfg).Module()
			jsonOf(c, m)
			if i%64 == 0 {
				features(c, m)
			}
		}},
		{Name: "expressions", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			n := 0
			g := gen.New(c.R, gen.Cfg{ExprDepth: 2, Budget: 40, Odd: true, MultiLine: true, Few: few(c.R)})
			e := opExpr(c.R, &n, 1+c.R.IntN(5), func() *tree.Node {
				switch c.R.IntN(4) {
				case 0:
					return g.Literal()
				case 1:
					return g.Path(1, "any")
				case 2:
					return g.Expr(1)
				}
				return tree.N("var", fmt.Sprintf("п%d", c.R.IntN(100)))
			})
			jsonOf(c, exprHomes[c.R.IntN(len(exprHomes))](e))
		}},
		{Name: "literals", Quick: 30000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			var n *tree.Node
			switch i % 3 {
			case 0:
				s := someNumber(c, c.R.IntN(64))
				if len(s) > 300 {
					s = "1"
				}
				n = numNode(s)
			case 1:
				n = tree.N("str", randomString(c))
			default:
				n = gen.New(c.R, gen.Cfg{}).Date()
			}
			jsonOf(c, literalHome(c.R.IntN(64), n))
		}},
		{Name: "declarations", Quick: 15000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Routines, cfg.Globals, cfg.Budget = 5, 6, 5+c.R.IntN(30)
			jsonOf(c, gen.New(c.R, cfg).Module())
		}},
		{Name: "sizes", Quick: 200, Deep: 2000, Run: func(c *mon.Ctx, i int) {
			n := 1 + i*3
			if i >= 150 {
				n = 1 + c.R.IntN(3000)
			}
			var m *tree.Node
			switch i % 5 {
			case 0:
				m = inHome(c.R, wrapBlocks(c.R, tree.N("block", "", leafStmt(1)), min(n, 1500)))
			case 1:
				e := tree.N("var", "а")
				for k := 0; k < min(n, 1500); k++ {
					switch c.R.IntN(3) {
					case 0:
						e = tree.N("bin", gen.BinOps[c.R.IntN(len(gen.BinOps))], e, tree.Num(float64(k)))
					case 1:
						e = tree.Not(e)
					default:
						e = tree.N("call", "ф", e, tree.N("item", "", tree.N("var", "м"), tree.Num(1)))
					}
				}
				m = exprHomes[c.R.IntN(len(exprHomes))](e)
			case 2:
				b := tree.N("block", "")
				for k := 0; k < n*4; k++ {
					b.Kids = append(b.Kids, leafStmt(k))
				}
				m = inHome(c.R, b)
			case 3:
				args := make([]*tree.Node, n+1)
				for k := range args {
					args[k] = tree.N("var", fmt.Sprintf("а%d", k))
					if k > 0 && c.R.IntN(4) == 0 {
						args[k] = tree.None()
					}
				}
				m = gen.ModuleOf("", tree.N("call", "ф", args...), tree.N("assign", "", tree.N("var", "х"), tree.N("new", "Т", args...)))
			default:
				cfg := gen.Default()
				cfg.Budget = 30000
				m = gen.New(c.R, cfg).Module()
			}
			src := gen.Full(c.R, m)
			a, err := parse(c, src)
			if err != nil {
				c.Count("skipped_rejected", 1)
				return
			}
			checkJSON(c, src, a, tree.Fold(m.Clone()))
		}},
		{Name: "routine", Quick: 8000, Deep: 200000, Run: func(c *mon.Ctx, i int) {
			// the exported tree may be marshalled in part or after an edit; here: after an edit by Walk
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 60)
			src := gen.Full(c.R, gen.New(c.R, cfg).Module())
			a, err := parse(c, src)
			if err != nil {
				c.Count("skipped_rejected", 1)
				return
			}
			eachBlock(a, func(b blockInfo) {
				if len(b.stmts) > 0 && c.R.IntN(3) == 0 {
					k := c.R.IntN(len(b.stmts))
					if _, ok := b.stmts[k].(*ast.FunctionOrProcedure); !ok {
						b.stmts[k] = ast.AssignmentStatement{Var: ast.VarStatement{Name: "новое"}, Expr: ast.ExprStatements{Statements: ast.Statements{float64(k)}}}
					}
				}
			})
			checkJSON(c, src, a, canon.Module(&a.ModuleStatement))
		}},
	}
	groups = append(groups, enumGroups(func(c *mon.Ctx, src string, r *ref.Result) {
		if !r.Accept() {
			return
		}
		a, err := parse(c, src)
		if err != nil {
			c.Count("skipped_rejected", 1)
			return
		}
		checkJSON(c, src, a, r.Tree)
	})...)
	register(&mon.Check{ID: "C17", Groups: groups,
		Rule:        "JSON of random modules, operator trees, all literal kinds, declarations, long and deep modules, edited trees and every short well-formed token sequence is read back with an order- and repetition-keeping decoder into a tree and compared with the tree of the source; non-trivial: distinct source text",
		Assumptions: []string{"JSON carries no node kinds: Прервать, Продолжить and Неопределено (all {}), Возврат and ВызватьИсключение, a label and a variable, a date and its RFC 3339 text are not told apart", "nesting below a few hundred thousand levels"},
		MinCounts:   map[string]int64{"json_documents": 100000, "json_nodes_compared": 1000000}})
}
