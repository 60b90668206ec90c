package gen

import (
	"math/rand/v2"
	"strings"

	"verif/lexref"
	"verif/tree"
)

// Tok is a token to be written: Word tokens must not touch other words.
type Tok struct {
	Text  string
	Word  bool
	Kw    bool   // letter case is free
	Kind  string // "", "str" (may be laid out over lines), "sep" (a statement separator)
	Value string // canonical value of a string
}

// Style is the freedom the unparser takes. The zero value is the plainest spelling.
type Style struct {
	Parens  int // percent of expressions put into redundant parentheses
	Plus    int // percent of operands given a unary plus
	Empty   int // percent chance of an extra empty statement at each separator
	NoLast  int // percent chance that the last separator of a block is left out
	Groups  int // percent chance that declarations are grouped / split
	ExecAlt int // percent chance for the Выполнить form without parentheses
	Case    bool
	NewAlt  int // percent chance for Новый Х() instead of Новый Х
	ElseAlt int // percent chance for an empty Иначе
	StrCut  int // percent chance that a string is written as adjacent literals
}

func Plain() Style { return Style{} }

func Wild(r *rand.Rand) Style {
	return Style{Parens: r.IntN(20), Plus: r.IntN(4), Empty: r.IntN(15), NoLast: r.IntN(100), Groups: r.IntN(100), ExecAlt: 50, Case: r.IntN(2) == 0, NewAlt: 50, ElseAlt: r.IntN(30), StrCut: r.IntN(12)}
}

type unparser struct {
	r   *rand.Rand
	s   Style
	out []Tok
}

// Unparse spells a tree (module, routine, statement or expression).
func Unparse(r *rand.Rand, s Style, n *tree.Node) []Tok {
	u := &unparser{r: r, s: s}
	switch n.Kind {
	case "module":
		u.module(n)
	case "func", "proc":
		u.routine(n)
	case "block":
		u.block(n, false)
	default:
		if isStmt(n.Kind) {
			u.stmt(n)
		} else {
			u.expr(n, 1)
		}
	}
	return u.out
}

// UnparseStmt spells one statement (a call tree is a statement too).
func UnparseStmt(r *rand.Rand, s Style, n *tree.Node) []Tok {
	u := &unparser{r: r, s: s}
	u.stmt(n)
	return u.out
}

func isStmt(k string) bool {
	switch k {
	case "assign", "if", "foreach", "for", "while", "try", "break", "continue", "throw", "return", "goto", "label":
		return true
	}
	return false
}

func (u *unparser) pct(p int) bool { return p > 0 && u.r.IntN(100) < p }

func (u *unparser) kw(s string) {
	if u.s.Case {
		s = RandCase(u.r, s)
	}
	u.out = append(u.out, Tok{Text: s, Word: true, Kw: true})
}
func (u *unparser) word(s string) { u.out = append(u.out, Tok{Text: s, Word: true}) }
func (u *unparser) op(s string)   { u.out = append(u.out, Tok{Text: s}) }
func (u *unparser) sep() {
	u.out = append(u.out, Tok{Text: ";", Kind: "sep"})
}

func (u *unparser) module(n *tree.Node) {
	g := append([]*tree.Node(nil), n.Kids[0].Kids...)
	if u.pct(u.s.Groups) {
		u.r.Shuffle(len(g), func(i, j int) { g[i], g[j] = g[j], g[i] })
	}
	for i := 0; i < len(g); {
		j := i + 1
		for j < len(g) && u.pct(u.s.Groups) && g[j].Kids[0].Text == g[i].Kids[0].Text && g[j].Kids[1].Text == g[i].Kids[1].Text {
			j++
		}
		u.directive(g[i].Kids[0].Text)
		u.kw("Перем")
		for k := i; k < j; k++ {
			if k > i {
				u.op(",")
			}
			u.word(g[k].Text)
		}
		if g[i].Kids[1].Text != "" {
			u.kw("Экспорт")
		}
		u.op(";")
		i = j
	}
	k := 1
	for ; k < len(n.Kids) && (n.Kids[k].Kind == "func" || n.Kids[k].Kind == "proc"); k++ {
		u.routine(n.Kids[k])
	}
	u.block(&tree.Node{Kind: "block", Kids: n.Kids[k:]}, k > 1 || len(n.Kids[0].Kids) > 0 || true)
}

func (u *unparser) directive(d string) {
	if d == "" {
		return
	}
	if u.s.Case {
		d = RandCase(u.r, d)
	}
	u.out = append(u.out, Tok{Text: d, Word: true, Kw: true})
}

func (u *unparser) routine(n *tree.Node) {
	u.directive(n.Kids[0].Text)
	start, end := "Процедура", "КонецПроцедуры"
	if n.Kind == "func" {
		start, end = "Функция", "КонецФункции"
	}
	u.kw(start)
	u.word(n.Text)
	u.op("(")
	for i, p := range n.Kids[2].Kids {
		if i > 0 {
			u.op(",")
		}
		if p.Kids[0].Text != "" {
			u.kw("Знач")
		}
		u.word(p.Text)
		if d := p.Kids[1]; d.Kind != "none" {
			u.op("=")
			if d.Kind == "neg" {
				u.op("-")
				d = d.Kids[0]
			} else if d.Kind == "num" && u.pct(u.s.Plus) {
				u.op("+")
			}
			u.literal(d)
		}
	}
	u.op(")")
	if n.Kids[1].Text != "" {
		u.kw("Экспорт")
	}
	l := append([]*tree.Node(nil), n.Kids[3].Kids...)
	if u.pct(u.s.Groups) {
		u.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	for i := 0; i < len(l); i++ {
		if i == 0 || u.pct(u.s.Groups) {
			if i > 0 {
				u.op(";")
			}
			u.kw("Перем")
		} else {
			u.op(",")
		}
		u.word(l[i].Text)
	}
	if len(l) > 0 {
		u.op(";")
	}
	u.block(n.Kids[4], false)
	u.kw(end)
}

func (u *unparser) block(b *tree.Node, _ bool) {
	for u.pct(u.s.Empty) {
		u.sep()
	}
	for i, s := range b.Kids {
		u.stmt(s)
		if s.Kind == "label" {
			u.op(":")
			if u.pct(u.s.Empty) {
				u.sep()
			}
			continue
		}
		if i == len(b.Kids)-1 && u.pct(u.s.NoLast) {
			continue
		}
		u.sep()
		for u.pct(u.s.Empty) {
			u.sep()
		}
	}
}

func (u *unparser) stmt(n *tree.Node) {
	switch n.Kind {
	case "assign":
		u.path(n.Kids[0])
		u.op("=")
		u.expr(n.Kids[1], 1)
	case "if":
		u.kw("Если")
		u.expr(n.Kids[0], 1)
		u.kw("Тогда")
		u.block(n.Kids[1], false)
		for _, e := range n.Kids[2].Kids {
			u.kw("ИначеЕсли")
			u.expr(e.Kids[0], 1)
			u.kw("Тогда")
			u.block(e.Kids[1], false)
		}
		if len(n.Kids[3].Kids) > 0 || u.pct(u.s.ElseAlt) {
			u.kw("Иначе")
			u.block(n.Kids[3], false)
		}
		u.kw("КонецЕсли")
	case "foreach":
		u.kw("Для")
		u.kw("Каждого")
		u.word(n.Text)
		u.kw("Из")
		switch in := n.Kids[0]; in.Kind {
		case "new":
			if u.pct(u.s.Parens) {
				u.op("(")
				u.primary(in)
				u.op(")")
			} else {
				u.primary(in)
			}
		default:
			u.primary(in)
		}
		u.kw("Цикл")
		u.block(n.Kids[1], false)
		u.kw("КонецЦикла")
	case "for":
		u.kw("Для")
		u.word(n.Kids[0].Kids[0].Text)
		u.op("=")
		u.expr(n.Kids[0].Kids[1], 5)
		u.kw("По")
		u.expr(n.Kids[1], 1)
		u.kw("Цикл")
		u.block(n.Kids[2], false)
		u.kw("КонецЦикла")
	case "while":
		u.kw("Пока")
		u.expr(n.Kids[0], 1)
		u.kw("Цикл")
		u.block(n.Kids[1], false)
		u.kw("КонецЦикла")
	case "try":
		u.kw("Попытка")
		u.block(n.Kids[0], false)
		u.kw("Исключение")
		u.block(n.Kids[1], false)
		u.kw("КонецПопытки")
	case "break":
		u.kw("Прервать")
	case "continue":
		u.kw("Продолжить")
	case "throw":
		u.kw("ВызватьИсключение")
		if t := n.Kids[0]; t.Kind == "tuple" {
			u.args(t.Kids)
		} else if t.Kind != "none" {
			u.expr(t, 1)
		}
	case "return":
		u.kw("Возврат")
		if n.Kids[0].Kind != "none" {
			u.expr(n.Kids[0], 1)
		}
	case "goto":
		u.kw("Перейти")
		u.word("~" + n.Text)
	case "label":
		u.word("~" + n.Text)
	default:
		if n.Kind == "call" && n.Text == "выполнить" {
			u.kw("Выполнить")
			if k := n.Kids[0]; (k.Kind == "str" || k.Kind == "var") && u.pct(u.s.ExecAlt) {
				u.primary(k)
			} else {
				u.op("(")
				u.expr(k, 1)
				u.op(")")
			}
			return
		}
		u.path(n)
	}
}

func prec(n *tree.Node) int {
	switch n.Kind {
	case "bin":
		switch n.Text {
		case "ИЛИ":
			return 1
		case "И":
			return 2
		case "=", "<>", "<", ">", "<=", ">=":
			return 4
		case "+", "-":
			return 5
		}
		return 6
	case "not":
		return 3
	case "neg":
		return 7
	}
	return 8
}

// expr spells n where an operator of at least precedence min may stand.
func (u *unparser) expr(n *tree.Node, min int) {
	p := prec(n)
	if p < min || u.pct(u.s.Parens) {
		u.op("(")
		u.expr(n, 1)
		u.op(")")
		return
	}
	if p >= 7 && u.pct(u.s.Plus) {
		u.op("+")
	}
	switch n.Kind {
	case "bin":
		u.expr(n.Kids[0], p)
		if n.Text == "И" || n.Text == "ИЛИ" {
			u.kw(n.Text)
		} else {
			u.op(n.Text)
		}
		u.expr(n.Kids[1], p+1)
	case "not":
		u.kw("Не")
		u.expr(n.Kids[0], 3)
	case "neg":
		u.op("-")
		u.expr(n.Kids[0], 7)
	default:
		u.primary(n)
	}
}

func (u *unparser) primary(n *tree.Node) {
	switch n.Kind {
	case "var", "call", "item", "dot":
		u.path(n)
	case "new":
		u.kw("Новый")
		if n.Text != "" {
			u.word(n.Text)
			if len(n.Kids) == 0 && !u.pct(u.s.NewAlt) {
				return
			}
		}
		u.args(n.Kids)
	case "ternary":
		u.op("?")
		u.op("(")
		u.expr(n.Kids[0], 1)
		u.op(",")
		u.expr(n.Kids[1], 1)
		u.op(",")
		u.expr(n.Kids[2], 1)
		u.op(")")
	default:
		u.literal(n)
	}
}

func (u *unparser) literal(n *tree.Node) {
	switch n.Kind {
	case "num":
		src := n.Src
		if src == "" {
			src = NumText(n.Text)
		}
		u.out = append(u.out, Tok{Text: src, Word: true})
	case "str":
		u.str(n.Text)
	case "date":
		src := n.Src
		if src == "" {
			src = n.Text
			if src == "empty" {
				src = "00000000"
			}
		}
		u.op("'" + src + "'")
	case "bool":
		if n.Text == "true" {
			u.kw("Истина")
		} else {
			u.kw("Ложь")
		}
	case "undef":
		u.kw("Неопределено")
	default:
		panic("gen: not an expression: " + n.Kind)
	}
}

func (u *unparser) str(v string) {
	if u.pct(u.s.StrCut) && v != "" {
		// cut between characters, but not inside a doubled quote or a line continuation
		rs := []rune(v)
		for try := 0; try < 5; try++ {
			at := u.r.IntN(len(rs) + 1)
			q := 0
			for k := at - 1; k >= 0 && rs[k] == '"'; k-- {
				q++
			}
			if q%2 == 1 || (at > 0 && rs[at-1] == '\n') {
				continue
			}
			u.str1(string(rs[:at]))
			u.str1(string(rs[at:]))
			return
		}
	}
	u.str1(v)
}

func (u *unparser) str1(v string) {
	u.out = append(u.out, Tok{Text: `"` + v + `"`, Kind: "str", Value: v})
}

func (u *unparser) args(a []*tree.Node) {
	u.op("(")
	for i, x := range a {
		if i > 0 {
			u.op(",")
		}
		if x.Kind != "none" {
			u.expr(x, 1)
		}
	}
	u.op(")")
}

func (u *unparser) path(n *tree.Node) {
	switch n.Kind {
	case "var":
		u.word(n.Text)
	case "call":
		u.word(n.Text)
		u.args(n.Kids)
	case "item":
		u.path(n.Kids[0])
		u.op("[")
		u.expr(n.Kids[1], 1)
		u.op("]")
	case "dot":
		u.path(n.Kids[0])
		u.op(".")
		u.path(n.Kids[1])
	default:
		panic("gen: not a path: " + n.Kind)
	}
}

// NumText spells the constant of a num node without an exponent.
func NumText(s string) string {
	return decimal(s)
}

// ---- layout ----

// Layout decides what stands between tokens.
type Layout struct {
	Mode    int // 0 one space, 1 as tight as possible, 2 newline after ; and blocks, 3 wild
	CRLF    bool
	Comment int // percent of gaps with a comment
	Region  int // percent of gaps with a # line
}

func RandLayout(r *rand.Rand) Layout {
	l := Layout{Mode: r.IntN(4), CRLF: r.IntN(5) == 0}
	if l.Mode >= 2 && r.IntN(2) == 0 {
		l.Comment = r.IntN(12)
		l.Region = r.IntN(4)
	}
	return l
}

var commentBits = []string{"", " комментарий", "/", "//", " \"строка", " 'дата", " Если Тогда", " КонецПроцедуры", ";", " # x", "|", "{([", " @$\\^", "Ё", " 字", "&НаКлиенте", " КонецЕсли;", "-----", " \t "}
var regionBits = []string{"Область Имя", "КонецОбласти", "Если Сервер Тогда", "Иначе", "КонецЕсли", "Если Не ВебКлиент Тогда", "Область \"x", "Вставка", "КонецВставки", " Область // 1", "!x", "Удаление", ""}

var LineBits = strings.Fields("Область КонецОбласти Если Тогда ИначеЕсли Иначе КонецЕсли Сервер Клиент И Или Не Имя Вставка Удаление Использовать region endregion ; ; : // # ! \" ' | . , ( ) [ ] = <> - + * / % ? 1 0.5 &НаКлиенте ~м { } @ $ \\ ё 字 Процедура КонецПроцедуры х")

// LineText is the rest of a comment or of a # line: often a usual one, else words and signs in any order.
func LineText(r *rand.Rand, usual []string) string {
	s := usual[r.IntN(len(usual))]
	if r.IntN(3) > 0 {
		return s
	}
	if r.IntN(2) == 0 {
		s = ""
	}
	for n := 1 + r.IntN(5); n > 0; n-- {
		w := LineBits[r.IntN(len(LineBits))]
		if r.IntN(8) == 0 {
			w = RandCase(r, w)
		}
		s += []string{"", "", " ", "  ", "\t"}[r.IntN(5)] + w
	}
	return s
}

// Pos is where a token was put.
type Pos struct{ Start, End int }

// Render writes tokens as text and tells where each went.
func Render(r *rand.Rand, l Layout, toks []Tok) (string, []Pos) {
	var b strings.Builder
	pos := make([]Pos, len(toks))
	nl := "\n"
	if l.CRLF {
		nl = "\r\n"
	}
	gap := func(need bool, i int) {
		switch l.Mode {
		case 0:
			if i > 0 && i < len(toks) {
				b.WriteByte(' ')
			}
		case 1:
			if need {
				b.WriteByte(' ')
			}
		case 2:
			if i > 0 && i < len(toks) && (toks[i-1].Kind == "sep" || toks[i-1].Kw && r.IntN(4) == 0) {
				b.WriteString(nl)
				for k := r.IntN(3); k > 0; k-- {
					b.WriteString([]string{"\t", "    "}[r.IntN(2)])
				}
			} else if i > 0 && i < len(toks) {
				b.WriteByte(' ')
			}
		default:
			n := r.IntN(3)
			if need && n == 0 {
				n = 1
			}
			if r.IntN(60) == 0 {
				n += r.IntN(30)
			}
			for ; n > 0; n-- {
				b.WriteString([]string{" ", "\t", nl, " ", "  ", "\r", "\n"}[r.IntN(7)])
			}
		}
		for l.Comment > 0 && r.IntN(100) < l.Comment {
			b.WriteByte(' ')
			b.WriteString("//")
			for k := r.IntN(3); k > 0; k-- {
				b.WriteString(LineText(r, commentBits))
			}
			b.WriteString(nl)
			if r.IntN(2) == 0 {
				b.WriteString("   ")
			}
		}
		for l.Region > 0 && r.IntN(100) < l.Region {
			b.WriteString(nl)
			if r.IntN(3) == 0 {
				b.WriteString(" \t")
			}
			b.WriteByte('#')
			b.WriteString(LineText(r, regionBits))
			b.WriteString(nl)
		}
	}
	for i, t := range toks {
		need := false
		if i > 0 {
			p := toks[i-1]
			need = p.Word && t.Word || p.Kind == "str" && t.Kind == "str"
		}
		if i > 0 && toks[i-1].Kind == "str" && t.Kind == "str" {
			// adjacent literals: white space only
			b.WriteString([]string{" ", "\n", nl + "\t", "  "}[r.IntN(4)])
		} else {
			gap(need, i)
		}
		pos[i].Start = b.Len()
		if t.Kind == "str" && l.Mode >= 2 && strings.Contains(t.Value, "\n|") {
			parts := strings.Split(t.Text, "\n|")
			for k, p := range parts {
				if k > 0 {
					b.WriteByte('\n')
					for m := r.IntN(3); m > 0; m-- {
						b.WriteString([]string{" ", "\t", "\n", "    "}[r.IntN(4)])
					}
					if l.Comment > 0 && r.IntN(6) == 0 {
						b.WriteString("// " + []string{"в строке", "\"", "|"}[r.IntN(3)] + "\n  ")
					}
					b.WriteByte('|')
				}
				b.WriteString(p)
			}
		} else {
			b.WriteString(t.Text)
		}
		pos[i].End = b.Len()
	}
	if l.Mode >= 2 {
		gap(false, len(toks))
		if l.Comment > 0 && r.IntN(3) == 0 {
			b.WriteString(" // конец")
		}
	}
	return b.String(), pos
}

// Text is the plain one-space spelling of tokens.
func Text(toks []Tok) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(t.Text)
	}
	return b.String()
}

// Full spells a tree in a random style and layout.
func Full(r *rand.Rand, n *tree.Node) string {
	s, _ := Render(r, RandLayout(r), Unparse(r, Wild(r), n))
	return s
}

// Lowered lower-cases keyword tokens (for comparisons).
func Lowered(t Tok) string {
	if t.Kw {
		return lexref.Lower(t.Text)
	}
	return t.Text
}
