// Package ref is an independent recursive-descent reference parser. It accepts the language the
// parser under test is meant to accept, and marks what that language definition leaves open as
// unspecified, so that the oracles built on it never judge such texts.
package ref

import (
	"sort"
	"strings"

	"verif/lexref"
	"verif/tree"
)

type Result struct {
	LexErr *lexref.Error // text that is no token
	Syntax bool          // a token cannot continue any module
	ErrTok int           // index of that token, len(Toks) at end of text
	Sem    string        // a context or declaration rule is broken (text is syntactically fine so far)
	Faults []Fault       // every broken rule
	Unspec bool          // uses a form the language definition leaves open
	Why    string        // first such form
	Tree   *tree.Node    // when !Syntax && LexErr == nil
	Toks   []lexref.Token
}

// Fault is one broken rule: what the message must say about it, and the tokens from the first of the offending
// statement or declaration to the one after it.
type Fault struct {
	Rule     string
	Name     string // the operator or variable, as written
	From, To int
}

// Accept: the text must parse. Reject: it must not. Both false: unspecified.
func (r *Result) Accept() bool {
	return r.LexErr == nil && !r.Syntax && r.Sem == "" && !r.Unspec
}
func (r *Result) Reject() bool {
	return !r.Unspec && (r.LexErr != nil || r.Syntax || r.Sem != "")
}

type synErr struct{}

type parser struct {
	t       []lexref.Token
	i       int
	r       *Result
	loop    int
	handler int // enclosing Исключение parts
	tryIn   int // Попытка parts opened inside an Исключение part
	fn      int // 0 module body, 1 procedure, 2 function
}

// Parse analyses a text.
func Parse(src string) *Result {
	if strings.TrimSpace(src) == "" && strings.Trim(src, " \t\r\n") != "" {
		// a text of unusual white space only: not settled
		return &Result{Unspec: true, Why: "layout"}
	}
	toks, odd, err := lexref.Lex(src)
	if err != nil {
		return &Result{LexErr: err, Toks: toks, Unspec: odd, Why: "layout"}
	}
	r := Tokens(toks)
	if odd {
		r.unspec("layout")
	}
	return r
}

// Tokens analyses a token list.
func Tokens(toks []lexref.Token) (r *Result) {
	r = &Result{Toks: toks}
	p := &parser{t: toks, r: r}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(synErr); !ok {
				panic(e)
			}
			r.Syntax, r.ErrTok, r.Tree = true, p.i, nil
		}
	}()
	r.Tree = tree.Fold(p.module())
	return r
}

func (r *Result) unspec(why string) {
	if !r.Unspec {
		r.Unspec, r.Why = true, why
	}
}
func (p *parser) unspec(why string) { p.r.unspec(why) }
func (p *parser) sem(why, name string, from int) {
	if p.r.Sem == "" {
		p.r.Sem = why
	}
	p.r.Faults = append(p.r.Faults, Fault{why, name, from, p.i})
}

// until extends the faults from number n on to the next token.
func (p *parser) until(n int) {
	for k := n; k < len(p.r.Faults); k++ {
		p.r.Faults[k].To = max(p.r.Faults[k].To, p.i)
	}
}

func (p *parser) k() lexref.Kind {
	if p.i >= len(p.t) {
		return lexref.EOF
	}
	return p.t[p.i].Kind
}
func (p *parser) peek(n int) lexref.Kind {
	if p.i+n >= len(p.t) {
		return lexref.EOF
	}
	return p.t[p.i+n].Kind
}
func (p *parser) fail()                 { panic(synErr{}) }
func (p *parser) is(k lexref.Kind) bool { return p.k() == k }
func (p *parser) accept(k lexref.Kind) bool {
	if p.is(k) {
		p.i++
		return true
	}
	return false
}
func (p *parser) need(k lexref.Kind) lexref.Token {
	if !p.is(k) {
		p.fail()
	}
	p.i++
	return p.t[p.i-1]
}

func flag(kind string, b bool) *tree.Node {
	if b {
		return tree.N(kind, "true")
	}
	return tree.N(kind, "")
}

func (p *parser) module() *tree.Node {
	m := tree.N("module", "")
	globals := tree.N("globals", "")
	m.Kids = append(m.Kids, globals)
	seen := map[string]bool{}
	routines := 0
loop:
	for {
		dir, from := "", p.i
		if p.is(lexref.Directive) {
			dir = strings.ToLower(p.t[p.i].Lit)
			p.i++
			if !p.is("перем") && !p.is("функция") && !p.is("процедура") {
				p.fail()
			}
		}
		switch p.k() {
		case "перем":
			p.i++
			names := p.idents()
			exp := p.accept("экспорт")
			if exp && p.is(",") {
				p.unspec("Экспорт before a comma")
			}
			p.need(";")
			for _, n := range names {
				if routines > 0 {
					p.sem("module variable after a routine", n, from)
				}
				p.declare(seen, n, "duplicate module variable", from)
				globals.Kids = append(globals.Kids, tree.N("gvar", n, tree.N("dir", dir), flag("export", exp)))
			}
		case "функция", "процедура":
			routines++
			m.Kids = append(m.Kids, p.routine(dir))
		default:
			break loop
		}
	}
	sort.SliceStable(globals.Kids, func(i, j int) bool { return globals.Kids[i].Text < globals.Kids[j].Text })
	for n := 0; p.peek(n) == ";"; n++ {
		switch p.peek(n + 1) {
		case lexref.Directive, "перем", "функция", "процедура":
			p.unspec("separator before a declaration")
		}
	}
	b := p.body(map[lexref.Kind]bool{lexref.EOF: true})
	m.Kids = append(m.Kids, b.Kids...)
	return m
}

// declare adds a name; names that only some notion of letter case makes equal are not judged.
func (p *parser) declare(seen map[string]bool, name, msg string, from int) {
	key := lexref.Lower(name)
	if seen[key] {
		p.sem(msg, name, from)
		return
	}
	if !russian(key) {
		for k := range seen {
			if strings.EqualFold(k, key) {
				p.unspec("letter case of unusual letters")
			}
		}
	}
	seen[key] = true
}

func russian(s string) bool {
	for _, r := range s {
		if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' && r != 'k' && r != 's' || r >= 'а' && r <= 'я' || r == 'ё') {
			return false
		}
	}
	return true
}

func (p *parser) idents() []string {
	res := []string{p.need(lexref.Ident).Lit}
	for p.accept(",") {
		res = append(res, p.need(lexref.Ident).Lit)
	}
	return res
}

func (p *parser) routine(dir string) *tree.Node {
	kind, end, fn := "func", lexref.Kind("конецфункции"), 2
	if p.is("процедура") {
		kind, end, fn = "proc", "конецпроцедуры", 1
	}
	p.i++
	name := p.need(lexref.Ident).Lit
	p.need("(")
	params := tree.N("params", "")
	if p.is(",") {
		p.unspec("leading comma in parameters")
		p.i++
		params.Kids = append(params.Kids, p.param())
	} else if p.is(lexref.Ident) || p.is("знач") {
		params.Kids = append(params.Kids, p.param())
	}
	for p.accept(",") {
		params.Kids = append(params.Kids, p.param())
	}
	p.need(")")
	export := p.accept("экспорт")
	locals := tree.N("locals", "")
	seen := map[string]bool{}
	for p.is("перем") {
		from, faults := p.i, len(p.r.Faults)
		p.i++
		for _, n := range p.idents() {
			p.declare(seen, n, "duplicate local variable", from)
			locals.Kids = append(locals.Kids, tree.N("v", n))
		}
		p.need(";")
		p.until(faults)
	}
	sort.SliceStable(locals.Kids, func(i, j int) bool { return locals.Kids[i].Text < locals.Kids[j].Text })
	for _, prm := range params.Kids {
		if seen[lexref.Lower(prm.Text)] {
			p.unspec("local variable named as a parameter")
		}
	}
	p.fn = fn
	b := p.body(map[lexref.Kind]bool{end: true})
	p.need(end)
	p.fn = 0
	return tree.N(kind, name, tree.N("dir", dir), flag("export", export), params, locals, b)
}

func (p *parser) param() *tree.Node {
	val := p.accept("знач")
	name := p.need(lexref.Ident).Lit
	def := tree.None()
	for n := 0; p.accept("="); n++ {
		if n > 0 {
			p.unspec("repeated default")
		}
		def = p.defaultValue()
	}
	return tree.N("param", name, flag("val", val), def)
}

func (p *parser) defaultValue() *tree.Node {
	switch p.k() {
	case "-", "+":
		if p.peek(1) != lexref.Number {
			p.unspec("default that is no literal")
		}
		return p.expr(precUnary)
	case lexref.Label:
		p.unspec("label as default")
		return p.primary()
	case lexref.String, lexref.Number, lexref.Date, "истина", "ложь", "неопределено":
		return p.primary()
	}
	p.fail()
	return nil
}

var stmtStart = map[lexref.Kind]bool{
	lexref.Ident: true, "выполнить": true, "(": true, "-": true, "+": true, "не": true, lexref.String: true, lexref.Number: true, lexref.Date: true,
	"истина": true, "ложь": true, "неопределено": true, lexref.Label: true, "новый": true, "перейти": true, "?": true,
	"если": true, "для": true, "пока": true, "попытка": true, "прервать": true, "продолжить": true, "вызватьисключение": true, "возврат": true,
}
var exprStart = map[lexref.Kind]bool{
	lexref.Ident: true, "выполнить": true, "(": true, "-": true, "+": true, "не": true, lexref.String: true, lexref.Number: true, lexref.Date: true,
	"истина": true, "ложь": true, "неопределено": true, lexref.Label: true, "новый": true, "перейти": true, "?": true,
}

// body parses statements up to (not including) one of the terminators.
func (p *parser) body(term map[lexref.Kind]bool) *tree.Node {
	b := tree.N("block", "")
	fresh := false // the last thing parsed is a label statement still without its colon
	add := func() {
		s := p.stmt()
		b.Kids = append(b.Kids, s)
		fresh = s.Kind == "label"
	}
	if stmtStart[p.k()] {
		add()
	}
	for {
		colon := 0
		switch p.k() {
		case ";":
			if fresh {
				p.unspec("label without colon")
			}
			fresh = false
			p.i++
		case ":":
			switch {
			case fresh:
				fresh = false
			case len(b.Kids) == 0:
				p.unspec("stray colon")
			case b.Kids[len(b.Kids)-1].Kind == "label":
				p.unspec("stray colon")
			default:
				p.sem("colon after a statement", "", p.i-1)
				colon = len(p.r.Faults)
			}
			p.i++
		default:
			if fresh {
				p.unspec("label without colon")
			}
			if !term[p.k()] {
				p.fail()
			}
			return b
		}
		if stmtStart[p.k()] {
			add()
		}
		if colon > 0 { // it may be noticed only when the next statement is complete
			p.r.Faults[colon-1].To = max(p.r.Faults[colon-1].To, p.i)
		}
	}
}

func kinds(k ...lexref.Kind) map[lexref.Kind]bool {
	m := map[lexref.Kind]bool{}
	for _, x := range k {
		m[x] = true
	}
	return m
}

var (
	ifTerm   = kinds("иначеесли", "иначе", "конецесли")
	elseTerm = kinds("конецесли")
	loopTerm = kinds("конеццикла")
	tryTerm  = kinds("исключение")
	endTry   = kinds("конецпопытки")
)

func (p *parser) stmt() *tree.Node {
	switch p.k() {
	case "если":
		p.i++
		cond := p.expr(precLow)
		p.need("тогда")
		yes := p.body(ifTerm)
		elifs := tree.N("elifs", "")
		for p.accept("иначеесли") {
			c := p.expr(precLow)
			p.need("тогда")
			elifs.Kids = append(elifs.Kids, tree.N("elif", "", c, p.body(ifTerm)))
		}
		no := tree.N("block", "")
		if p.accept("иначе") {
			no = p.body(elseTerm)
		}
		p.need("конецесли")
		return tree.N("if", "", cond, yes, elifs, no)
	case "для":
		p.i++
		if p.accept("каждого") {
			name := p.need(lexref.Ident).Lit
			p.need("из")
			in := p.loopExpr()
			p.need("цикл")
			return tree.N("foreach", name, in, p.loopBody())
		}
		bare := p.is(lexref.Ident) && p.peek(1) == "="
		head := p.expr(precLow)
		if !bare || head.Kind != "bin" || head.Text != "=" || head.Kids[0].Kind != "var" {
			p.unspec("loop header")
		}
		p.need("по")
		to := p.expr(precLow)
		p.need("цикл")
		return tree.N("for", "", head, to, p.loopBody())
	case "пока":
		p.i++
		c := p.expr(precLow)
		p.need("цикл")
		return tree.N("while", "", c, p.loopBody())
	case "попытка":
		p.i++
		if p.handler > 0 {
			p.tryIn++
		}
		b := p.body(tryTerm)
		if p.handler > 0 {
			p.tryIn--
		}
		p.need("исключение")
		p.handler++
		saved := p.tryIn
		p.tryIn = 0
		c := p.body(endTry)
		p.tryIn = saved
		p.handler--
		p.need("конецпопытки")
		return tree.N("try", "", b, c)
	case "прервать", "продолжить":
		kind := "break"
		if p.is("продолжить") {
			kind = "continue"
		}
		p.i++
		if p.loop == 0 {
			p.sem(kind+" outside a loop", p.t[p.i-1].Lit, p.i-1)
		}
		return tree.N(kind, "")
	case "вызватьисключение":
		p.i++
		if exprStart[p.k()] {
			return tree.N("throw", "", p.exprT(precLow, true))
		}
		if p.handler == 0 {
			p.sem("throw without argument outside a handler", p.t[p.i-1].Lit, p.i-1)
		} else if p.tryIn > 0 {
			p.unspec("throw without argument in a Попытка part inside a handler")
		}
		return tree.N("throw", "", tree.None())
	case "возврат":
		p.i++
		if exprStart[p.k()] {
			from := p.i - 1
			e := p.expr(precLow)
			if p.fn != 2 {
				p.sem("value returned outside a function", "", from)
			}
			return tree.N("return", "", e)
		}
		if p.fn != 1 {
			p.unspec("return without a value outside a procedure")
		}
		return tree.N("return", "", tree.None())
	case "перейти":
		p.i++
		l := p.need(lexref.Label).Lit
		n := tree.N("goto", l)
		if t := p.binary(n, precLow); t != n {
			p.unspec("goto in an expression")
			return t
		}
		return n
	case lexref.Label:
		n := tree.N("label", p.need(lexref.Label).Lit)
		if t := p.binary(n, precLow); t != n {
			p.unspec("label in an expression")
			return t
		}
		return n
	case lexref.Ident, "выполнить":
		start := p.i
		was := p.r.Unspec
		exec := p.is("выполнить")
		lhs, lastCall, execOK := p.path()
		if p.accept("=") {
			if exec || lastCall {
				p.unspec("assignment to a call")
			}
			return tree.N("assign", "", lhs, p.expr(precLow))
		}
		t := p.binary(lhs, precLow)
		if exec {
			if execOK && t == lhs && p.i > start && !was {
				return t
			}
			p.unspec("Выполнить in an expression")
			return t
		}
		if t != lhs || !lastCall {
			p.unspec("expression as a statement")
		}
		return t
	}
	p.unspec("expression as a statement")
	return p.expr(precLow)
}

func (p *parser) loopBody() *tree.Node {
	p.loop++
	b := p.body(loopTerm)
	p.loop--
	p.need("конеццикла")
	return b
}

func (p *parser) loopExpr() *tree.Node {
	switch p.k() {
	case lexref.Ident:
		n, _, _ := p.path()
		return n
	case "выполнить":
		p.unspec("Выполнить in an expression")
		n, _, _ := p.path()
		return n
	case "новый", "?":
		return p.primary()
	case "(":
		p.i++
		if !p.is("новый") {
			p.fail()
		}
		n := p.primary()
		p.need(")")
		return n
	}
	p.fail()
	return nil
}

const (
	precLow   = 1
	precOr    = 1
	precAnd   = 2
	precNot   = 3
	precCmp   = 4
	precAdd   = 5
	precMul   = 6
	precUnary = 7
)

func binPrec(k lexref.Kind) int {
	switch k {
	case "или":
		return precOr
	case "и":
		return precAnd
	case "=", "<>", "<", ">", "<=", ">=":
		return precCmp
	case "+", "-":
		return precAdd
	case "*", "/", "%":
		return precMul
	}
	return 0
}

func (p *parser) expr(min int) *tree.Node { return p.exprT(min, false) }

// exprT: tuple tells that a parenthesised list may stand here on its own.
func (p *parser) exprT(min int, tuple bool) *tree.Node {
	var left *tree.Node
	switch p.k() {
	case "-":
		p.i++
		if p.is("не") {
			p.unspec("Не under unary minus")
		}
		left = tree.Neg(p.expr(precUnary))
	case "+":
		p.i++
		if p.is("не") {
			p.unspec("Не under unary plus")
		}
		left = p.expr(precUnary)
	case "не":
		p.i++
		if min > precCmp {
			p.unspec("Не as an operand of a tighter operator")
		}
		left = tree.Not(p.expr(precCmp))
	case "(":
		p.i++
		list := p.list()
		p.need(")")
		if len(list) == 1 && list[0].Kind != "none" {
			left = list[0]
			break
		}
		left = tree.N("tuple", "", list...)
		if !tuple || len(list) == 1 || binPrec(p.k()) > 0 {
			p.unspec("expression list")
		}
	default:
		left = p.primary()
	}
	return p.binary(left, min)
}

func (p *parser) binary(left *tree.Node, min int) *tree.Node {
	for {
		pr := binPrec(p.k())
		if pr == 0 || pr < min {
			return left
		}
		op := string(p.k())
		if op == "или" || op == "и" {
			op = strings.ToUpper(op)
		}
		p.i++
		left = tree.N("bin", op, left, p.expr(pr+1))
	}
}

func (p *parser) primary() *tree.Node {
	switch p.k() {
	case lexref.String:
		return tree.N("str", p.need(lexref.String).Lit)
	case lexref.Number:
		return tree.Num(p.need(lexref.Number).Num)
	case lexref.Date:
		return DateNode(p.need(lexref.Date))
	case "истина":
		p.i++
		return tree.Bool(true)
	case "ложь":
		p.i++
		return tree.Bool(false)
	case "неопределено":
		p.i++
		return tree.N("undef", "")
	case lexref.Label:
		p.unspec("label in an expression")
		return tree.N("label", p.need(lexref.Label).Lit)
	case "перейти":
		p.unspec("goto in an expression")
		p.i++
		return tree.N("goto", p.need(lexref.Label).Lit)
	case "новый":
		p.i++
		name := ""
		if p.is(lexref.Ident) {
			name = p.need(lexref.Ident).Lit
			if !p.is("(") {
				return tree.N("new", name)
			}
		}
		a := p.args()
		if name == "" && (len(a) == 0 || a[0].Kind == "none") {
			p.unspec("Новый() without a type")
		}
		return tree.N("new", name, a...)
	case "?":
		p.i++
		p.need("(")
		a := p.expr(precLow)
		p.need(",")
		b := p.expr(precLow)
		p.need(",")
		c := p.expr(precLow)
		p.need(")")
		return tree.N("ternary", "", a, b, c)
	case lexref.Ident:
		n, _, _ := p.path()
		return n
	case "выполнить":
		p.unspec("Выполнить in an expression")
		n, _, _ := p.path()
		return n
	}
	p.fail()
	return nil
}

// DateNode is the neutral constant of a date token.
func DateNode(t lexref.Token) *tree.Node {
	if t.Date.IsZero() {
		return tree.N("date", "empty")
	}
	return tree.N("date", t.Date.Format("20060102150405"))
}

// list parses opt_expr {, opt_expr}; a missing expression is none.
func (p *parser) list() []*tree.Node {
	one := func() *tree.Node {
		if exprStart[p.k()] {
			return p.expr(precLow)
		}
		return tree.None()
	}
	res := []*tree.Node{one()}
	for p.accept(",") {
		res = append(res, one())
	}
	return res
}

func (p *parser) args() []*tree.Node {
	p.need("(")
	a := p.list()
	p.need(")")
	if len(a) == 1 && a[0].Kind == "none" {
		return nil
	}
	return a
}

// path parses an access path. lastCall: its last link is a call without index.
// execOK: it is exactly one of the two statement forms of Выполнить.
func (p *parser) path() (n *tree.Node, lastCall, execOK bool) {
	link := func() *tree.Node {
		var l *tree.Node
		lastCall = false
		if p.is("выполнить") {
			p.i++
			lastCall, execOK = true, true
			switch p.k() {
			case "(":
				p.i++
				l = tree.N("call", "выполнить", p.expr(precLow))
				p.need(")")
			case lexref.String, lexref.Ident:
				if p.is(lexref.String) {
					l = tree.N("call", "выполнить", p.primary())
				} else {
					l = tree.N("call", "выполнить", tree.N("var", p.need(lexref.Ident).Lit))
				}
				if p.is("(") {
					// Выполнить Имя(...) is plausible code: not judged
					p.unspec("Выполнить with a call")
				}
			default:
				p.fail()
			}
		} else {
			t := p.need(lexref.Ident)
			if p.is("(") {
				l = tree.N("call", t.Lit, p.args()...)
				lastCall = true
			} else {
				l = tree.N("var", t.Lit)
			}
		}
		for p.accept("[") {
			execOK, lastCall = false, false
			l = tree.N("item", "", l, p.expr(precLow))
			p.need("]")
		}
		return l
	}
	n = link()
	for p.accept(".") {
		execOK = false
		n = tree.N("dot", "", n, link())
	}
	return
}
