package checks

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"reflect"
	"strings"
	"sync/atomic"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/canon"
	"verif/gen"
	"verif/lexref"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

func randConf(r *rand.Rand) ast.PrintConf {
	return ast.PrintConf{Margin: pick(r, 0, 0, 1, 2, 3, 4, 4, 8, 13), OneLine: r.IntN(3) == 0}
}

var allConfs = func() (c []ast.PrintConf) {
	for _, m := range []int{0, 1, 2, 3, 4, 7, 16} {
		c = append(c, ast.PrintConf{Margin: m}, ast.PrintConf{Margin: m, OneLine: true})
	}
	return
}()

// parsed gives an accepted module from a generated tree; whether it is accepted and which tree it
// gets is the business of C02 and C04.
func parsed(c *mon.Ctx, m *tree.Node) (string, *ast.AstNode) {
	src := gen.Full(c.R, m)
	a, err := parse(c, src)
	if err != nil {
		c.Skip("rejected")
	}
	return src, a
}

// ---- C14: print, parse, compare ----

func roundTrip(c *mon.Ctx, src string, a *ast.AstNode, conf ast.PrintConf) {
	b, out := printParse(c, src, a, conf)
	if again := b.Print(conf); again != out {
		c.Fail(src, "printing the reparsed text (%+v) gives another text\n--- first ---\n%s\n--- second ---\n%s", conf, out, again)
	}
}

// printParse prints a tree, parses the text, compares the trees and gives the second one and the text.
func printParse(c *mon.Ctx, src string, a *ast.AstNode, conf ast.PrintConf) (*ast.AstNode, string) {
	c.Eval(1)
	c.Doing(src)
	want := canonModule(a)
	out := a.Print(conf)
	b, err := parse(c, out)
	if err != nil {
		c.Fail(src, "printed text (%+v) is rejected: %v\n--- printed ---\n%s", conf, err, out)
	}
	if got := canonModule(b); !tree.Equal(want, got) {
		c.Fail(src, "printed text (%+v) means something else at %s\n--- printed ---\n%s", conf, tree.Diff(want, got), out)
	}
	c.Count("round_trips", 1)
	c.Count("nodes_compared", want.Size())
	return b, out
}

func init() {
	groups := []mon.Group{
		{Name: "modules", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			if cfg.Budget > 500 {
				cfg.Budget = 500
			}
			m := gen.New(c.R, cfg).Module()
			src, a := parsed(c, m)
			roundTrip(c, src, a, randConf(c.R))
			c.Seen(src)
			if i%64 == 0 {
				features(c, m)
			}
		}},
		{Name: "expressions", Quick: 80000, Deep: 4000000, Run: func(c *mon.Ctx, i int) {
			n := 0
			g := gen.New(c.R, gen.Cfg{ExprDepth: 2, Budget: 40, Odd: true, MultiLine: true, Few: few(c.R)})
			e := opExpr(c.R, &n, 1+c.R.IntN(6), func() *tree.Node {
				switch c.R.IntN(4) {
				case 0:
					return g.Literal()
				case 1:
					return g.Path(1, "any")
				case 2:
					return g.Expr(1)
				}
				return tree.N("var", fmt.Sprintf("п%d", c.R.IntN(100)))
			})
			src, a := parsed(c, exprHomes[c.R.IntN(len(exprHomes))](e))
			roundTrip(c, src, a, randConf(c.R))
			c.Seen(src)
			c.Sample("%q", src)
		}},
		{Name: "two-operators", Quick: len(gen.BinOps) * len(gen.BinOps), Deep: len(gen.BinOps) * len(gen.BinOps), Run: func(c *mon.Ctx, i int) {
			// every pair of operators, both groupings, every placement of - and Не, every kind of operand
			o1, o2 := gen.BinOps[i%len(gen.BinOps)], gen.BinOps[i/len(gen.BinOps)]
			un := []func(n *tree.Node) *tree.Node{func(n *tree.Node) *tree.Node { return n }, tree.Neg, tree.Not, func(n *tree.Node) *tree.Node { return tree.Not(tree.Neg(n)) }, func(n *tree.Node) *tree.Node { return tree.Neg(tree.Not(n)) }, func(n *tree.Node) *tree.Node { return tree.Not(tree.Not(n)) }, func(n *tree.Node) *tree.Node { return tree.Neg(tree.Neg(n)) }}
			v := func(k int) *tree.Node {
				return []*tree.Node{tree.N("var", "а"), tree.N("call", "ф", tree.N("var", "б")), tree.N("dot", "", tree.N("var", "о"), tree.N("var", "п")), tree.Num(5), tree.N("item", "", tree.N("var", "м"), tree.Num(0)), tree.N("new", "Т"), tree.N("ternary", "", tree.N("var", "у"), tree.Num(1), tree.Num(2)), tree.Bool(true), tree.N("str", "с"), tree.N("undef", ""), tree.N("dot", "", tree.N("var", "о"), tree.N("call", "м"))}[k%11].Clone()
			}
			for k := 0; k < 7*7*7; k++ {
				u1, u2, u3 := un[k%7], un[k/7%7], un[k/49]
				x, y, z := v(c.R.IntN(11)), v(c.R.IntN(11)), v(c.R.IntN(11))
				var e *tree.Node
				if c.R.IntN(2) == 0 {
					e = tree.N("bin", o2, u1(tree.N("bin", o1, u2(x), y)), u3(z))
				} else {
					e = tree.N("bin", o1, u2(x), u1(tree.N("bin", o2, y, u3(z))))
				}
				src, a := parsed(c, exprHomes[c.R.IntN(len(exprHomes))](e))
				roundTrip(c, src, a, randConf(c.R))
				c.Seen(src)
			}
		}},
		{Name: "declarations", Quick: 15000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Routines, cfg.Globals, cfg.Budget = 4, 5, 5+c.R.IntN(30)
			src, a := parsed(c, gen.New(c.R, cfg).Module())
			roundTrip(c, src, a, allConfs[i%len(allConfs)])
			c.Seen(src)
		}},
		{Name: "literals", Quick: 20000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			var n *tree.Node
			switch i % 3 {
			case 0:
				s := someNumber(c, c.R.IntN(64))
				if len(s) > 300 {
					s = "1"
				}
				n = numNode(s)
			case 1:
				n = tree.N("str", randomString(c))
			default:
				n = gen.New(c.R, gen.Cfg{}).Date()
			}
			src, a := parsed(c, literalHome(c.R.IntN(64), n))
			roundTrip(c, src, a, randConf(c.R))
			c.Seen(src)
		}},
		{Name: "sizes", Quick: 300, Deep: 3000, Run: func(c *mon.Ctx, i int) {
			n := 1 + i*2
			if i >= 150 {
				n = 1 + c.R.IntN(1200)
			}
			var m *tree.Node
			switch i % 4 {
			case 0:
				m = inHome(c.R, wrapBlocks(c.R, tree.N("block", "", leafStmt(1)), min(n, 400)))
			case 1:
				e := tree.N("var", "а")
				for k := 0; k < min(n, 400); k++ {
					if c.R.IntN(2) == 0 {
						e = tree.N("bin", gen.BinOps[c.R.IntN(len(gen.BinOps))], e, tree.Num(float64(k)))
					} else {
						e = tree.N("call", "ф", e, tree.N("item", "", tree.N("var", "м"), tree.Num(1)))
					}
				}
				m = exprHomes[c.R.IntN(len(exprHomes))](e)
			case 2:
				b := tree.N("block", "")
				for k := 0; k < n; k++ {
					b.Kids = append(b.Kids, leafStmt(k))
				}
				m = inHome(c.R, b)
			default:
				args := make([]*tree.Node, n+1)
				for k := range args {
					args[k] = tree.N("var", fmt.Sprintf("а%d", k))
					if k > 0 && c.R.IntN(4) == 0 {
						args[k] = tree.None()
					}
				}
				m = gen.ModuleOf("", tree.N("call", "ф", args...), tree.N("assign", "", tree.N("var", "х"), tree.N("new", "Т", args...)))
			}
			src, a := parsed(c, m)
			roundTrip(c, src, a, randConf(c.R))
			c.Seen(src)
		}},
	}
	groups = append(groups, enumGroups(func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Accept() {
			a, err := parse(c, src)
			if err != nil {
				c.Count("skipped_rejected", 1)
				return
			}
			roundTrip(c, src, a, allConfs[(len(src)+len(r.Toks))%len(allConfs)])
			c.Seen(src)
		}
	})...)
	register(&mon.Check{ID: "C14", Groups: groups,
		Rule:        "random modules of every construct, every pair of operators with both groupings and every unary mark, all literal kinds, long and deep modules, and every short well-formed token sequence are parsed, printed under varied options, parsed again and compared, and printed again; non-trivial: distinct source text",
		Assumptions: []string{"comments and # lines are not part of the tree; margins are not negative"},
		MinCounts:   map[string]int64{"round_trips": 50000, "nodes_compared": 500000}})
}

// ---- C15: print options ----

func checkOptions(c *mon.Ctx, src string, a *ast.AstNode) {
	multi := strings.Contains(src, "\n|") || strings.Contains(src, "|")
	var first []lexref.Token
	var firstText string
	for _, conf := range allConfs {
		c.Eval(1)
		out := a.Print(conf)
		toks, _, lerr := lexref.Lex(out)
		if lerr != nil {
			c.Fail(src, "printed text (%+v) has no tokens at %d: %s\n%s", conf, lerr.Offset, lerr.Msg, out)
		}
		if first == nil {
			first, firstText = toks, out
		}
		if len(first) != len(toks) {
			c.Fail(src, "%+v prints %d tokens, %+v prints %d\n--- first ---\n%s\n--- second ---\n%s", allConfs[0], len(first), conf, len(toks), firstText, out)
		}
		for k := range toks {
			if toks[k].Kind != first[k].Kind || toks[k].Lit != first[k].Lit {
				c.Fail(src, "token %d is %q under %+v and %q under %+v\n%s", k, first[k].Lit, allConfs[0], toks[k].Lit, conf, out)
			}
		}
		c.Count("printed_tokens_compared", len(toks))
		if conf.OneLine {
			oneLine(c, src, out, toks)
		} else if !multi {
			indented(c, src, out, toks, conf.Margin)
		}
	}
	statementOptions(c, src, a)
}

// statementOptions: single statements follow the options as modules do, with the statement itself
// at depth 0; PrintStatement is four spaces per level over several lines.
func statementOptions(c *mon.Ctx, src string, a *ast.AstNode) {
	stmts, _ := blockStatements(a)
	for n := 0; n < 3 && len(stmts) > 0; n++ {
		s := stmts[c.R.IntN(len(stmts))]
		var first []lexref.Token
		var firstText string
		for k := 0; k < 4; k++ {
			c.Eval(1)
			conf := allConfs[(k*5+c.R.IntN(4))%len(allConfs)]
			out := a.PrintStatementWithConf(s, conf)
			if k == 0 {
				conf = ast.PrintConf{Margin: 4}
				out = a.PrintStatement(s)
				if w := a.PrintStatementWithConf(s, conf); w != out {
					c.Fail(src, "PrintStatement gives\n%s\nand with %+v\n%s", out, conf, w)
				}
			}
			toks, _, lerr := lexref.Lex(out)
			if lerr != nil {
				c.Fail(src, "a printed statement (%+v) has no tokens at %d: %s\n%s", conf, lerr.Offset, lerr.Msg, out)
			}
			if first == nil {
				first, firstText = toks, out
			}
			same := len(first) == len(toks)
			for k := 0; same && k < len(toks); k++ {
				same = toks[k].Kind == first[k].Kind && toks[k].Lit == first[k].Lit
			}
			if !same {
				c.Fail(src, "a statement has other tokens under %+v\n--- first ---\n%s\n--- second ---\n%s", conf, firstText, out)
			}
			if conf.OneLine {
				oneLine(c, src, out, toks)
			} else if !strings.Contains(src, "|") {
				indented(c, src, out, toks, conf.Margin)
			}
			c.Count("statement_texts", 1)
		}
	}
}

// oneLine: no line end between tokens, except around a compiler directive.
func oneLine(c *mon.Ctx, src, out string, toks []lexref.Token) {
	for k := range toks {
		end := len(out)
		dir := toks[k].Kind == lexref.Directive
		if k+1 < len(toks) {
			end = toks[k+1].Start
			dir = dir || toks[k+1].Kind == lexref.Directive
		}
		if strings.ContainsAny(out[toks[k].End:end], "\r\n") && !dir {
			c.Fail(src, "one-line mode breaks the line after token %d %q\n%s", k, toks[k].Lit, out)
		}
	}
	c.Count("one_line_texts", 1)
}

// indented: every statement and every block keyword begins a line, at margin times its depth.
func indented(c *mon.Ctx, src, out string, toks []lexref.Token, margin int) {
	depth := 0
	start := true // a statement may begin here
	at := func(k int, want int, what string) {
		bol := strings.LastIndexByte(out[:toks[k].Start], '\n') + 1
		ind := out[bol:toks[k].Start]
		if strings.Trim(ind, " ") != "" {
			c.Fail(src, "%s %q does not begin a line (margin %d)\n%s", what, toks[k].Lit, margin, out)
		}
		if len(ind) != want*margin {
			c.Fail(src, "%s %q is indented by %d, want %d*%d\n%s", what, toks[k].Lit, len(ind), want, margin, out)
		}
		c.Count("lines_checked", 1)
	}
	for k := 0; k < len(toks); k++ {
		switch t := toks[k]; t.Kind {
		case lexref.Directive:
			start = false
			continue
		case "перем":
			at(k, depth, "declaration")
			for k < len(toks) && toks[k].Kind != ";" {
				k++
			}
			start = true
			continue
		case "процедура", "функция":
			at(k, 0, "declaration")
			for d := 0; k < len(toks); k++ {
				if toks[k].Kind == "(" {
					d++
				}
				if toks[k].Kind == ")" {
					if d--; d == 0 {
						break
					}
				}
			}
			if k+1 < len(toks) && toks[k+1].Kind == "экспорт" {
				k++
			}
			depth, start = 1, true
			continue
		case "конецпроцедуры", "конецфункции":
			depth, start = 0, true
			at(k, 0, "end of a routine")
			continue
		case "иначеесли", "иначе", "исключение":
			at(k, depth-1, "block keyword")
			start = t.Kind != "иначеесли"
			if t.Kind == "иначеесли" {
				depth-- // its Тогда opens the block again
			}
			continue
		case "конецесли", "конеццикла", "конецпопытки":
			depth--
			at(k, depth, "block keyword")
			start = false
			continue
		case ";":
			start = true
			continue
		case ":":
			start = true
			continue
		case "тогда", "цикл":
			depth++
			start = true
			continue
		}
		if start {
			at(k, depth, "statement")
			start = false
			if toks[k].Kind == "попытка" {
				depth++
				start = true
			}
		}
	}
}

func init() {
	register(&mon.Check{ID: "C15",
		Rule:        "random modules, and single statements of theirs, are printed under combinations of margin and one-line mode (modules under fourteen); token sequences compared through an independent tokeniser, indentation and line starts checked by a nesting monitor over the printed tokens; non-trivial: distinct source text",
		Assumptions: []string{"line starts and indentation are judged for modules without multi-line strings; compiler directives stand on lines of their own in both modes"},
		MinCounts:   map[string]int64{"printed_tokens_compared": 500000, "lines_checked": 50000, "one_line_texts": 10000, "statement_texts": 20000},
		Groups: []mon.Group{
			{Name: "modules", Quick: 12000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
				cfg := cfgFor(c.R)
				cfg.MultiLine = i%4 == 0
				cfg.Budget = min(cfg.Budget, 300)
				src, a := parsed(c, gen.New(c.R, cfg).Module())
				checkOptions(c, src, a)
				c.Seen(src)
				c.Sample("%q", src)
			}},
			{Name: "blocks", Quick: 12000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
				j := &jumpy{r: c.R, budget: 4 + c.R.IntN(25), rate: 25}
				b := j.block(1 + c.R.IntN(5))
				m := inHome(c.R, b)
				var l legality
				l.walk(m, 0, 0, 0, 0)
				if l.open || l.why != "" {
					return
				}
				src, a := parsed(c, m)
				checkOptions(c, src, a)
				c.Seen(src)
			}},
			{Name: "deep", Quick: 60, Deep: 600, Run: func(c *mon.Ctx, i int) {
				s := &shaper{r: c.R, budget: 6}
				src, a := parsed(c, inHome(c.R, wrapBlocks(c.R, s.block(2, 3), 1+c.R.IntN(150))))
				checkOptions(c, src, a)
				c.Seen(src)
			}},
		}})
}

// ---- C16: deterministic and read-only ----

var observed atomic.Int64

type outputs struct {
	err   string
	tree  string
	json  string
	print []string
}

func observe(a *ast.AstNode, err error) outputs {
	if err != nil {
		return outputs{err: err.Error()}
	}
	o := outputs{tree: canonModule(a).String()}
	j, jerr := a.JSON()
	o.json = string(j)
	if jerr != nil {
		o.json = "error " + jerr.Error()
	}
	// in an order that is not the same every time
	confs := allConfs[2:8]
	o.print = make([]string, len(confs))
	for n, k := 0, int(observed.Add(1)); n < len(confs); n++ {
		o.print[(k+n)%len(confs)] = a.Print(confs[(k+n)%len(confs)])
	}
	return o
}

func (o outputs) hash() string {
	h := fnv.New64a()
	fmt.Fprintf(h, "%q %q %q %q", o.err, o.tree, o.json, o.print)
	return hex.EncodeToString(h.Sum(nil))
}

func (o outputs) differs(p outputs) string {
	switch {
	case o.err != p.err:
		return fmt.Sprintf("error %q, then %q", o.err, p.err)
	case o.tree != p.tree:
		return fmt.Sprintf("another tree:\n%s\n%s", clip(o.tree, 1500), clip(p.tree, 1500))
	case o.json != p.json:
		return fmt.Sprintf("other JSON:\n%s\n%s", clip(o.json, 1500), clip(p.json, 1500))
	}
	for k := range o.print {
		if o.print[k] != p.print[k] {
			return fmt.Sprintf("other printed text:\n%s\n%s", clip(o.print[k], 1500), clip(p.print[k], 1500))
		}
	}
	return ""
}

// dump writes everything reachable from a module, unexported parts too.
func dump(a *ast.AstNode) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(&a.ModuleStatement).Elem(), map[uintptr]int{})
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value, seen map[uintptr]int) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if n, ok := seen[v.Pointer()]; ok {
			fmt.Fprintf(b, "@%d", n)
			return
		}
		seen[v.Pointer()] = len(seen)
		b.WriteByte('&')
		dumpValue(b, v.Elem(), seen)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String())
		dumpValue(b, v.Elem(), seen)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); !f.IsExported() && !f.Anonymous {
				continue // private bookkeeping is no part of the tree
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpValue(b, v.Field(i), seen)
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("[nil]")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i), seen)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var keys []string
		vals := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			keys = append(keys, s)
			vals[s] = v.MapIndex(k)
		}
		sortStrings(keys)
		b.WriteString("map[")
		for _, k := range keys {
			fmt.Fprintf(b, "%q:", k)
			dumpValue(b, vals[k], seen)
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", v.Float())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}

// statements lists the statements of all blocks of a module (routines excluded).
func blockStatements(a *ast.AstNode) (out []ast.Statement, kinds []string) {
	eachBlock(a, func(b blockInfo) {
		for _, s := range b.stmts {
			if _, ok := s.(*ast.FunctionOrProcedure); !ok {
				out = append(out, s)
			}
		}
	})
	return
}

// probeText makes the text of one probe: some accepted, some rejected.
func probeText(r *rand.Rand) string {
	cfg := cfgFor(r)
	cfg.Budget = min(cfg.Budget, 150)
	toks := gen.Unparse(r, gen.Wild(r), gen.New(r, cfg).Module())
	if r.IntN(4) == 0 {
		toks = mutateTokens(r, toks)
	}
	s, _ := gen.Render(r, gen.RandLayout(r), toks)
	return s
}

// Probe runs in a process of its own: it parses a sequence of texts and reports what it saw.
func Probe(spec string) {
	if spec == "text" {
		b, err := io.ReadAll(os.Stdin)
		if err != nil {
			panic(err)
		}
		out := os.Stdout
		if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = null
		}
		a := ast.NewAST(string(b))
		fmt.Fprintln(out, observe(a, a.Parse()).hash())
		return
	}
	switch kind, rest, _ := strings.Cut(spec, ":"); kind {
	case "deep":
		deepProbe(rest)
		return
	case "biglower":
		bigLowerProbe()
		return
	case "quiet":
		quietProbe(rest)
		return
	case "first":
		firstProbe(rest)
		return
	}
	var seed uint64
	var n int
	fmt.Sscanf(spec, "%d:%d", &seed, &n)
	r := rand.New(rand.NewPCG(seed, 77))
	texts := make([]string, n)
	for k := range texts {
		texts[k] = probeText(r)
	}
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	for _, s := range texts {
		a := ast.NewAST(s)
		fmt.Fprintln(out, observe(a, a.Parse()).hash())
	}
}

// freshHash is what a process that does nothing else observes for a text.
func freshHash(c *mon.Ctx, src string) string {
	cmd := exec.Command(os.Args[0], "-probe", "text")
	cmd.Stdin = strings.NewReader(src)
	out, err := cmd.Output()
	if err != nil {
		c.Fail(src, "a fresh process failed: %v", err)
	}
	return strings.TrimSpace(string(out))
}

func init() {
	one := func(c *mon.Ctx, src string) outputs {
		c.Eval(1)
		a, err := parse(c, src)
		o := observe(a, err)
		if err != nil {
			c.Count("errors_compared", 1)
		} else {
			c.Count("modules_compared", 1)
		}
		return o
	}
	register(&mon.Check{ID: "C16",
		Rule:      "texts are parsed and rendered repeatedly in changing order with other texts, failing parses and edited trees in between, in this process and in fresh processes with other environments, and all outputs compared; every object reachable from the tree is dumped before and after random sequences of Print, PrintStatement, JSON and Walk; renderings, walks and parses are also started from inside Walk callbacks, some of which end in a panic; non-trivial: distinct text",
		MinCounts: map[string]int64{"modules_compared": 5000, "errors_compared": 1000, "operations_between_dumps": 10000, "outputs_compared_across_processes": 500, "operations_within_a_walk": 2000, "walks_left_by_a_panic": 1000},
		Groups: []mon.Group{
			{Name: "repeat", Quick: 8000, Deep: 400000, Run: func(c *mon.Ctx, i int) {
				src := probeText(c.R)
				first := one(c, src)
				for k := 0; k < 3; k++ {
					if d := first.differs(one(c, src)); d != "" {
						c.Fail(src, "the same text gave %s", d)
					}
				}
				c.Seen(src)
			}},
			{Name: "session", Quick: 1500, Deep: 60000, Run: func(c *mon.Ctx, i int) {
				// several similar texts in random order; earlier results stay as they were
				type item struct {
					src  string
					want *tree.Node
				}
				cfg := cfgFor(c.R)
				cfg.Budget = min(cfg.Budget, 60)
				m := gen.New(c.R, cfg).Module()
				var items []item
				for k := 0; k < 5; k++ {
					v := m.Clone()
					tweak(c.R, v, k)
					st := gen.Wild(c.R)
					if k%2 == 0 {
						st = gen.Plain()
					}
					src, _ := gen.Render(c.R, gen.Layout{Mode: k % 3}, gen.Unparse(c.R, st, v))
					items = append(items, item{src, tree.Fold(v)})
				}
				type kept struct {
					a   *ast.AstNode
					it  int
					out outputs
				}
				var all []kept
				for n := 0; n < 14; n++ {
					k := c.R.IntN(len(items))
					if c.R.IntN(4) == 0 { // a failing parse in between
						toks := mutateTokens(c.R, gen.Unparse(c.R, gen.Plain(), m))
						s, _ := gen.Render(c.R, gen.Layout{}, toks)
						parse(c, s)
					}
					c.Eval(1)
					a, err := parse(c, items[k].src)
					o := observe(a, err)
					if err != nil || !tree.Equal(items[k].want, canonModule(a)) {
						// not what the text means: does a process that parsed nothing else get the same?
						if h := freshHash(c, items[k].src); h != o.hash() {
							c.Fail(items[k].src, "after other texts the result is not that of a fresh process: %v %s", err, clip(o.tree, 1500))
						}
						c.Skip("tree_not_as_expected")
					}
					for _, p := range all {
						if p.it == k {
							if d := p.out.differs(o); d != "" {
								c.Fail(items[k].src, "parsed again after other texts the same text gave %s", d)
							}
						}
					}
					c.Count("modules_compared", 1)
					if c.R.IntN(3) == 0 {
						// spoil this tree; nobody else may notice
						spoil(a)
						continue
					}
					all = append(all, kept{a, k, o})
				}
				for _, p := range all {
					if d := p.out.differs(observe(p.a, nil)); d != "" {
						c.Fail(items[p.it].src, "a tree changed while other texts were parsed: %s", d)
					}
				}
				c.Seen(items[0].src)
			}},
			{Name: "read-only", Quick: 8000, Deep: 400000, Run: func(c *mon.Ctx, i int) {
				cfg := cfgFor(c.R)
				cfg.Budget = min(cfg.Budget, 80)
				src, a := parsed(c, gen.New(c.R, cfg).Module())
				before := dump(a)
				stmts, _ := blockStatements(a)
				do := func(a *ast.AstNode, k, s int, conf ast.PrintConf) (string, string) {
					st, _ := blockStatements(a)
					switch {
					case k == 0:
						return fmt.Sprintf("Print(%+v)", conf), a.Print(conf)
					case k == 1:
						j, err := a.JSON()
						return "JSON", fmt.Sprint(string(j), err)
					case k == 2 && len(st) > 0:
						return fmt.Sprintf("PrintStatement(%d)", s), a.PrintStatement(st[s])
					case k == 3 && len(st) > 0:
						return fmt.Sprintf("PrintStatementWithConf(%d, %+v)", s, conf), a.PrintStatementWithConf(st[s], conf)
					}
					var b strings.Builder
					a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
						fmt.Fprintf(&b, "%v %T %T;", root != nil, *parent, *stm)
					})
					return "Walk", b.String()
				}
				got := map[string]string{}
				few := c.R.IntN(2) == 0 // options that differ in one respect only
				for n := 4 + c.R.IntN(10); n > 0; n-- {
					c.Eval(1)
					k, s, conf := c.R.IntN(5), c.R.IntN(max(len(stmts), 1)), randConf(c.R)
					if few {
						conf = ast.PrintConf{Margin: 4 * c.R.IntN(2), OneLine: c.R.IntN(2) == 0}
						s = min(s, 1, max(len(stmts)-1, 0))
					}
					op, out := do(a, k, s, conf)
					if prev, ok := got[op]; ok {
						if prev != out {
							c.Fail(src, "%s gave another result the second time:\n%s\n%s", op, clip(prev, 1500), clip(out, 1500))
						}
					} else {
						// the same as the first and only thing done to a tree of its own
						own, err := parse(c, src)
						if err != nil {
							c.Fail(src, "rejected the second time: %v", err)
						}
						if _, alone := do(own, k, s, conf); alone != out {
							c.Fail(src, "%s after other operations gives another result than as the first operation:\n%s\n%s", op, clip(alone, 1500), clip(out, 1500))
						}
					}
					got[op] = out
					if after := dump(a); after != before {
						c.Fail(src, "%s changed the tree:\n%s\n%s", op, clip(before, 2500), clip(after, 2500))
					}
					c.Count("operations_between_dumps", 1)
				}
				c.Seen(src)
			}},
			{Name: "many-names", Quick: 300, Deep: 5000, Run: func(c *mon.Ctx, i int) {
				// maps with many keys: iteration order would show
				n := 2 + c.R.IntN(60)
				src := declText(c.R, declNames(c.R, n), true, 50) + "Процедура П() " + declText(c.R, declNames(c.R, n), false, 50) + " КонецПроцедуры"
				first := one(c, src)
				for k := 0; k < 6; k++ {
					if d := first.differs(one(c, src)); d != "" {
						c.Fail(src, "the same text gave %s", d)
					}
				}
				c.Seen(src)
			}},
			{Name: "processes", Quick: 24, Deep: 200, Run: func(c *mon.Ctx, i int) {
				const n = 60
				seed := c.R.Uint64() >> 1
				r := rand.New(rand.NewPCG(seed, 77))
				var want []string
				var texts []string
				for k := 0; k < n; k++ {
					s := probeText(r)
					texts = append(texts, s)
				}
				for _, k := range c.R.Perm(n) { // another order than the fresh process
					parse(c, texts[k])
				}
				for _, s := range texts {
					want = append(want, one(c, s).hash())
				}
				cmd := exec.Command(os.Args[0], "-probe", fmt.Sprintf("%d:%d", seed, n))
				cmd.Env = append([]string{"TZ=" + pickS(c.R, "UTC", "Asia/Tokyo", "America/New_York", "MST7"), "LANG=" + pickS(c.R, "C", "ru_RU.UTF-8", "tr_TR.UTF-8"), "HOME=/nonexistent", "GOGC=" + pickS(c.R, "20", "off"), "GOMAXPROCS=" + pickS(c.R, "1", "4")}, "PATH=/usr/bin:/bin")
				cmd.Dir = "/"
				out, err := cmd.Output()
				if err != nil {
					c.Fail("", "a fresh process failed on texts that went through here: %v", err)
				}
				got := strings.Fields(string(out))
				if len(got) != n {
					c.Fail("", "a fresh process gave %d results for %d texts", len(got), n)
				}
				for k := range got {
					if got[k] != want[k] {
						c.Fail(texts[k], "a fresh process (%v) gives another result", cmd.Env)
					}
					c.Seen(texts[k])
				}
				c.Count("outputs_compared_across_processes", n)
			}},
		}})
}

// tweak changes one name or number somewhere, keeping the shape and mostly the length.
func tweak(r *rand.Rand, m *tree.Node, k int) {
	var leaves []*tree.Node
	var walk func(n *tree.Node)
	walk = func(n *tree.Node) {
		if n.Kind == "var" || n.Kind == "call" && n.Text != "выполнить" || n.Kind == "num" {
			leaves = append(leaves, n)
		}
		for _, x := range n.Kids {
			walk(x)
		}
	}
	for _, x := range m.Kids[1:] {
		walk(x)
	}
	if len(leaves) == 0 || k == 0 {
		return
	}
	if k == 2 { // the same names in other letter cases
		recase(r, m)
		return
	}
	n := leaves[r.IntN(len(leaves))]
	if r.IntN(3) == 0 {
		n = leaves[len(leaves)-1]
	}
	if n.Kind == "num" {
		*n = *tree.Num(float64(k))
	} else {
		n.Text = fmt.Sprintf("ъ%d", k)
	}
}

// recase writes names in other letter cases.
func recase(r *rand.Rand, n *tree.Node) {
	switch n.Kind {
	case "call":
		if lexref.Lower(n.Text) == "выполнить" {
			break
		}
		fallthrough
	case "var", "new", "foreach", "param", "proc", "func", "label", "goto":
		if n.Text != "" && r.IntN(2) == 0 {
			n.Text = gen.RandCase(r, n.Text)
		}
	}
	for _, x := range n.Kids {
		recase(r, x)
	}
}

// spoil overwrites everything that can be reached from a tree.
func spoil(a *ast.AstNode) {
	eachBlock(a, func(b blockInfo) {
		for k := range b.stmts {
			switch v := b.stmts[k].(type) {
			case *ast.FunctionOrProcedure:
				v.Name = "испорчено"
				v.Params = nil
				for n := range v.ExplicitVariables {
					delete(v.ExplicitVariables, n)
				}
			case *ast.ReturnStatement:
				v.Param = nil
			case *ast.LoopStatement:
				v.WhileExpr, v.In, v.To = nil, nil, nil
			case *ast.IfStatement:
				v.Expression = ast.UndefinedStatement{}
			case ast.AssignmentStatement:
				for q := range v.Expr.Statements {
					v.Expr.Statements[q] = ast.VarStatement{Name: "испорчено"}
				}
			case ast.MethodStatement:
				for q := range v.Param.Statements {
					v.Param.Statements[q] = ast.VarStatement{Name: "испорчено"}
				}
			}
		}
	})
	eachBlock(a, func(b blockInfo) {
		for k := range b.stmts {
			if _, ok := b.stmts[k].(*ast.FunctionOrProcedure); !ok {
				b.stmts[k] = ast.VarStatement{Name: "испорчено"}
			}
		}
	})
	for n := range a.ModuleStatement.GlobalVariables {
		delete(a.ModuleStatement.GlobalVariables, n)
	}
}

// ---- C24: printed statements ----

func checkStatement(c *mon.Ctx, src string, a, other *ast.AstNode, s ast.Statement, proc bool, conf ast.PrintConf) {
	c.Eval(1)
	want := canon.StmtFolded(s)
	text := a.PrintStatementWithConf(s, conf)
	for _, x := range []*ast.AstNode{other, ast.NewAST(""), {}} {
		if t := x.PrintStatementWithConf(s, conf); t != text {
			c.Fail(src, "%s prints as %q on its own module and %q on another object", want, text, t)
		}
	}
	check := func(text string) {
		kind, end := "Функция", "КонецФункции"
		if want.Kind == "return" && want.Kids[0].Kind == "none" {
			kind, end = "Процедура", "КонецПроцедуры"
		}
		full := kind + " Ф() Попытка Исключение Пока у Цикл\n" + text + "\nКонецЦикла КонецПопытки " + end
		b, err := parse(c, full)
		if err != nil {
			c.Fail(src, "statement %s prints as %q, which is rejected: %v", want, text, err)
		}
		m := canonModule(b)
		body := m.Kids[1].Kids[4].Kids[0].Kids[1].Kids[0].Kids[1].Kids
		if len(body) != 1 || !tree.Equal(want, body[0]) {
			got := tree.N("block", "", body...)
			c.Fail(src, "statement prints as %q, which means something else: %s", text, tree.Diff(tree.N("block", "", want), got))
		}
	}
	check(text)
	plain := a.PrintStatement(s)
	for _, x := range []*ast.AstNode{other, ast.NewAST(""), {}} {
		if t := x.PrintStatement(s); t != plain {
			c.Fail(src, "PrintStatement of %s gives %q on its own module and %q on another object", want, plain, t)
		}
	}
	check(plain)
	c.Count("statements_printed", 1)
	c.Count("statement_"+want.Kind, 1)
	_ = proc
}

// neighbours: the texts of the statements of a block, one after the other, are the block.
func neighbours(c *mon.Ctx, src string, a *ast.AstNode) {
	blocks := 0
	eachBlock(a, func(b blockInfo) {
		if blocks++; blocks > 30 || len(b.stmts) < 2 || len(b.stmts) > 60 {
			return
		}
		var text strings.Builder
		var want []*tree.Node
		conf := randConf(c.R)
		kind, end := "Функция", "КонецФункции"
		value, none := false, false
		for _, s := range b.stmts {
			if _, ok := s.(*ast.FunctionOrProcedure); ok {
				continue
			}
			n := canon.StmtFolded(s)
			var returns func(n *tree.Node)
			returns = func(n *tree.Node) {
				if n.Kind == "return" {
					none = none || n.Kids[0].Kind == "none"
					value = value || n.Kids[0].Kind != "none"
				}
				for _, k := range n.Kids {
					returns(k)
				}
			}
			returns(n)
			want = append(want, n)
			if c.R.IntN(2) == 0 {
				text.WriteString(a.PrintStatement(s))
			} else {
				text.WriteString(a.PrintStatementWithConf(s, conf))
			}
			text.WriteString("\n")
		}
		if none {
			kind, end = "Процедура", "КонецПроцедуры"
		}
		if none && value || len(want) == 0 {
			return
		}
		c.Eval(1)
		full := kind + " Ф() Попытка Исключение Пока у Цикл\n" + text.String() + "КонецЦикла КонецПопытки " + end
		x, err := parse(c, full)
		if err != nil {
			c.Fail(src, "the printed statements of a block, one after the other, are rejected: %v\n%s", err, text.String())
		}
		body := canonModule(x).Kids[1].Kids[4].Kids[0].Kids[1].Kids[0].Kids[1]
		if w := tree.N("block", "", want...); !tree.Equal(w, body) {
			c.Fail(src, "the printed statements of a block, one after the other, mean something else at %s\n%s", tree.Diff(w, body), text.String())
		}
		c.Count("blocks_put_together", 1)
	})
}

// everyStatement prints the statements of a module one by one.
func everyStatement(c *mon.Ctx, src string, a *ast.AstNode) {
	other := ast.NewAST("Перем г; Процедура П() х = 1; КонецПроцедуры")
	if err := other.Parse(); err != nil {
		c.Skip("rejected")
	}
	stmts, _ := blockStatements(a)
	for k, s := range stmts {
		if k > 60 && c.R.IntN(len(stmts)) > 60 {
			continue
		}
		checkStatement(c, src, a, other, s, false, randConf(c.R))
		if c.R.IntN(4) == 0 {
			a.Print(randConf(c.R))
		}
	}
	neighbours(c, src, a)
	if t := a.PrintStatement(nil); t != "" {
		c.Fail(src, "printing nothing gives %q", t)
	}
	if t := a.PrintStatementWithConf(nil, randConf(c.R)); t != "" {
		c.Fail(src, "printing nothing gives %q", t)
	}
	c.Seen(src)
}

func init() {
	every := everyStatement
	groups := []mon.Group{
		{Name: "modules", Quick: 20000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 100)
			src, a := parsed(c, gen.New(c.R, cfg).Module())
			every(c, src, a)
			c.Sample("%q", src)
		}},
		{Name: "blocks", Quick: 15000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			j := &jumpy{r: c.R, budget: 4 + c.R.IntN(25), rate: 30}
			m := inHome(c.R, j.block(1+c.R.IntN(5)))
			var l legality
			l.walk(m, 0, 0, 0, 0)
			if l.open || l.why != "" {
				return
			}
			src, a := parsed(c, m)
			every(c, src, a)
		}},
		{Name: "expressions", Quick: 30000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			n := 0
			g := gen.New(c.R, gen.Cfg{ExprDepth: 2, Budget: 30, Odd: true, MultiLine: true, Few: few(c.R)})
			e := opExpr(c.R, &n, 1+c.R.IntN(5), func() *tree.Node {
				if c.R.IntN(2) == 0 {
					return g.Expr(1)
				}
				return g.Literal()
			})
			src, a := parsed(c, exprHomes[c.R.IntN(len(exprHomes))](e))
			every(c, src, a)
		}},
		{Name: "deep", Quick: 60, Deep: 600, Run: func(c *mon.Ctx, i int) {
			s := &shaper{r: c.R, budget: 6}
			src, a := parsed(c, inHome(c.R, wrapBlocks(c.R, s.block(2, 3), 1+c.R.IntN(80))))
			every(c, src, a)
		}},
	}
	groups = append(groups, enumGroupsOf(func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Accept() {
			a, err := parse(c, src)
			if err != nil {
				c.Count("skipped_rejected", 1)
				return
			}
			every(c, src, a)
		}
	}, "statement", "if", "loop", "try", "foreach", "for", "label", "exprpath", "exprctx")...)
	register(&mon.Check{ID: "C24", Groups: groups,
		Rule:        "every statement at every depth of random modules, block structures, operator trees and short enumerated texts is printed under varied options by several objects, parsed inside a routine, loop and handler, and compared; non-trivial: distinct module",
		Assumptions: []string{"the statement is one of a block, not a routine or an ИначеЕсли branch"},
		MinCounts:   map[string]int64{"statements_printed": 50000, "statement_try": 500, "statement_goto": 100, "statement_label": 100, "statement_throw": 500, "statement_return": 500, "statement_break": 500, "statement_foreach": 500}})
}
