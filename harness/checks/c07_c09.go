package checks

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/lexref"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// ---- C07: literal values ----

// literalHomes puts a literal where a literal may stand.
func literalHome(i int, e *tree.Node) *tree.Node {
	if k := i % (len(exprHomes) + 4); k < len(exprHomes) {
		return exprHomes[k](e)
	}
	p := func(name string, d *tree.Node) *tree.Node { return tree.N("param", name, tree.N("val", ""), d) }
	m := gen.ModuleOf([]string{"proc", "func"}[i%2], tree.N("assign", "", tree.N("var", "х"), tree.N("var", "п1")))
	ps := m.Kids[1].Kids[2]
	ps.Kids = append(ps.Kids, p("п1", e.Clone()), p("п2", tree.None()))
	if e.Kind == "num" {
		ps.Kids = append(ps.Kids, p("п3", tree.Neg(e.Clone())))
	}
	ps.Kids = append(ps.Kids, p("п4", e.Clone()))
	return m
}

func numNode(src string) *tree.Node {
	f, err := strconv.ParseFloat(src, 64)
	if err != nil {
		panic(err)
	}
	n := tree.Num(f)
	n.Src = src
	return n
}

func checkLiteral(c *mon.Ctx, i int, n *tree.Node) {
	_, _, _ = wantGen(c, literalHome(i, n))
	c.Count("literals_"+n.Kind, 1)
	c.Seen(n.Kind + n.Src + n.Text)
}

// someDigits makes decimal digits; what is a number of shapes that are hard to round.
func someNumber(c *mon.Ctx, i int) string {
	r := c.R
	digs := func(n int) string {
		b := make([]byte, n)
		for k := range b {
			b[k] = byte('0' + r.IntN(10))
		}
		return string(b)
	}
	switch i % 8 {
	case 0:
		return digs(1+r.IntN(25)) + "." + digs(r.IntN(25))
	case 1: // exact halves between neighbouring doubles
		f := math.Float64frombits(uint64(0x433)<<52 | r.Uint64()>>12)
		return strconv.FormatFloat(f, 'f', 0, 64) + pickS(r, ".5", ".50", ".4999999999999999999999", ".5000000000000000000000000001", "")
	case 2:
		f := math.Abs(math.Float64frombits(r.Uint64()))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1
		}
		return strconv.FormatFloat(f, 'f', -1, 64)
	case 3:
		return "0." + strings.Repeat("0", r.IntN(330)) + digs(1+r.IntN(20))
	case 4:
		return digs(1 + r.IntN(300))
	case 5:
		return strings.Repeat("0", r.IntN(30)) + digs(1+r.IntN(10)) + pickS(r, "", ".", ".0", ".00000")
	case 6:
		p := new(strings.Builder)
		fmt.Fprintf(p, "%d", uint64(1)<<r.IntN(64)+uint64(r.IntN(3)))
		return p.String()
	}
	return strconv.Itoa(r.IntN(1000)) + "." + digs(1+r.IntN(3))
}

func randomString(c *mon.Ctx) string {
	r := c.R
	n := r.IntN(30)
	if r.IntN(40) == 0 {
		n = 200 + r.IntN(3000)
	}
	var b strings.Builder
	for k := 0; k < n; k++ {
		switch r.IntN(10) {
		case 0:
			b.WriteString(`""`)
		case 1:
			b.WriteString("\n|")
		case 2, 3:
			b.WriteRune(rune(32 + r.IntN(95)))
		case 4:
			x := rune(r.IntN(0x11000))
			if x >= 0xd800 && x < 0xe000 || x == 0xfffd {
				x = 'я'
			}
			b.WriteRune(x)
		case 5:
			b.WriteString(pickS(r, "//", "/", "#", "'", "|", ";", "~", "&", "\\", "\t", "%", "  ", "'20200101'", "КонецПроцедуры", "\u2028", "\u0085", "😀"))
		default:
			b.WriteRune(rune('А' + r.IntN(64)))
		}
	}
	s := strings.ReplaceAll(b.String(), "\r", " ")
	// no raw line ends, and only doubled quotes
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\n|", "\x00"), "\n", " ")
	s = strings.ReplaceAll(s, "\x00", "\n|")
	s = strings.ReplaceAll(strings.ReplaceAll(s, `""`, "\x00"), `"`, "'")
	return strings.ReplaceAll(s, "\x00", `""`)
}

func dateNode(y, mo, d, h, mi, s, digits int, sep string) *tree.Node {
	parts := []string{fmt.Sprintf("%04d", y), fmt.Sprintf("%02d", mo), fmt.Sprintf("%02d", d)}
	if digits >= 12 {
		parts = append(parts, fmt.Sprintf("%02d", h), fmt.Sprintf("%02d", mi))
	} else {
		h, mi = 0, 0
	}
	if digits == 14 {
		parts = append(parts, fmt.Sprintf("%02d", s))
	} else {
		s = 0
	}
	t := time.Date(y, time.Month(mo), d, h, mi, s, 0, time.UTC)
	n := tree.N("date", fmt.Sprintf("%04d%02d%02d%02d%02d%02d", y, mo, d, h, mi, s))
	if t.IsZero() {
		n.Text = "empty"
	}
	n.Src = strings.Join(parts, sep)
	return n
}

func init() {
	groups := []mon.Group{
		{Name: "numbers", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			s := someNumber(c, i)
			if _, err := strconv.ParseFloat(s, 64); err != nil {
				return
			}
			checkLiteral(c, c.R.IntN(64), numNode(s))
			c.Sample("%s", s)
		}},
		{Name: "small-numbers", Quick: 220, Deep: 220, Run: func(c *mon.Ctx, i int) {
			// every number d.dd below 100 and every whole number below 12000
			for k := 0; k < 100; k++ {
				s := fmt.Sprintf("%d", i*100+k)
				if i >= 120 {
					s = fmt.Sprintf("%d.%02d", i-120, k)
				}
				wantTree(c, "х = "+s+";", tree.Fold(gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), numNode(s)))))
				c.Seen("num" + s)
				c.Count("literals_num", 1)
			}
		}},
		{Name: "strings", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			v := randomString(c)
			checkLiteral(c, c.R.IntN(64), tree.N("str", v))
			c.Sample("%q", v)
		}},
		{Name: "every-character", Quick: 0x110000 / 256, Deep: 0x110000 / 256, Run: func(c *mon.Ctx, i int) {
			// every character inside a string: alone, doubled, and all of a block together
			var all strings.Builder
			for k := 0; k < 256; k++ {
				x := rune(i*256 + k)
				if x >= 0xd800 && x < 0xe000 || x == '"' || x == '\n' || x == '\r' || x == 0xfffd {
					continue
				}
				all.WriteRune(x)
				if i < 16 || k%16 == 0 {
					v := string(x)
					wantTree(c, `х = "`+v+`" + "`+v+v+`а";`, tree.Fold(gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), tree.N("bin", "+", tree.N("str", v), tree.N("str", v+v+"а"))))))
				}
			}
			v := all.String()
			wantTree(c, `х = "`+v+`";`, tree.Fold(gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), tree.N("str", v)))))
			c.Seen("chr" + v)
			c.Count("literals_str", 1)
		}},
		{Name: "string-lengths", Quick: 400, Deep: 2000, Run: func(c *mon.Ctx, i int) {
			n := i
			if i >= 300 {
				n = 300 + c.R.IntN(70000)
			}
			unit := pickS(c.R, "а", "z", `""`, "字", "\n|", "😀", "//", "аб ")
			checkLiteral(c, c.R.IntN(64), tree.N("str", strings.Repeat(unit, n)))
			if n < 300 {
				// adjacent literals
				checkLiteral(c, i, tree.N("str", strings.Repeat("x", n)))
				src := "х = " + strings.Repeat(`"а" `, n) + `"б"` + ";"
				wantTree(c, src, tree.Fold(gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), tree.N("str", strings.Repeat("а", n)+"б")))))
			}
		}},
		{Name: "string-layout", Quick: 30000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			// raw text around quotes, continuation lines and adjacent literals, judged by the reference tokeniser
			var b strings.Builder
			b.WriteString(`х = "`)
			for k := c.R.IntN(10); k > 0; k-- {
				b.WriteString(pickS(c.R, `"`, `""`, "\n|", "\n  |", "\n\n|", "\n//к\n|", "а", " ", `" "`, "\"\n\"", "\"\t\n \"", "|", "//", "'", "\r\n|", "\n\t// \"к\"\n  |", "\n|\n|", `"""`, "+", ";"))
			}
			b.WriteString(pickS(c.R, `";`, `"`, `" ;у = "я";`, `" + "в";`))
			r, ok := diff(c, b.String())
			if ok && r.Accept() {
				c.Seen(b.String())
				c.Count("literals_str", 1)
			}
		}},
		{Name: "every-day", Quick: 3652, Deep: 9999, Run: func(c *mon.Ctx, i int) {
			// every day of a year; quick: years 1900-2100 in full and samples of all others
			years := []int{1 + i%9999}
			if c.Tier == "quick" {
				if i >= 201 {
					years = nil
					for k := 0; k < 12; k++ {
						y, mo := 1+c.R.IntN(9999), 1+c.R.IntN(12)
						last := time.Date(y, time.Month(mo)+1, 0, 0, 0, 0, 0, time.UTC).Day()
						checkLiteral(c, c.R.IntN(64), dateNode(y, mo, last-c.R.IntN(2)*c.R.IntN(last), c.R.IntN(24), c.R.IntN(60), c.R.IntN(60), 8+2*[]int{0, 2, 3}[c.R.IntN(3)], pickS(c.R, "", "", ".", "-", "/", " ", ":", "T", "_")))
					}
				} else {
					years[0] = 1900 + i
				}
			}
			for _, y := range years {
				for t := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC); t.Year() == y; t = t.AddDate(0, 0, 1) {
					n := dateNode(y, int(t.Month()), t.Day(), 0, 0, 0, 8, "")
					wantTree(c, "х = '"+n.Src+"';", tree.Fold(gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), n))))
					c.Count("literals_date", 1)
					c.Seen("date" + n.Src)
				}
			}
		}},
		{Name: "every-time", Quick: 24, Deep: 24, Run: func(c *mon.Ctx, i int) {
			for mi := 0; mi < 60; mi++ {
				n := dateNode(2021, 3, 4, i, mi, 0, 12, "")
				wantTree(c, "х = '"+n.Src+"';", tree.Fold(gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), n))))
				for s := 0; s < 60; s += 1 + c.R.IntN(5) {
					n := dateNode(2020, 2, 29, i, mi, s, 14, pickS(c.R, "", "-"))
					wantTree(c, "х = '"+n.Src+"';", tree.Fold(gen.ModuleOf("", tree.N("assign", "", tree.N("var", "х"), n))))
					c.Count("literals_date", 1)
					c.Seen("date" + n.Src)
				}
			}
		}},
		{Name: "constants", Quick: 3000, Deep: 40000, Run: func(c *mon.Ctx, i int) {
			n := []*tree.Node{tree.Bool(true), tree.Bool(false), tree.N("undef", ""), tree.N("date", "empty")}[i%4]
			if n.Kind == "date" {
				n.Src = pickS(c.R, "00000000", "000000000000", "00000000000000", "0000-00-00", "0000.00.00 00:00:00")
			}
			checkLiteral(c, i/4, n)
			c.Seen(fmt.Sprint(i))
		}},
		{Name: "mixed", Quick: 40000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			g := gen.New(c.R, gen.Cfg{ExprDepth: 3, Depth: 2, Stmts: 3, Routines: 2, Globals: 1, MultiLine: true, Odd: true, Budget: 60, Few: few(c.R)})
			_, _, want := wantGen(c, g.Module())
			c.Seen(want.String())
		}},
	}
	groups = append(groups, treeEnum("params", "statement")...)
	register(&mon.Check{ID: "C07", Groups: groups,
		Rule:      "numbers of every size and hard-to-round shape, strings of every character, quote, continuation and adjacency, every calendar day and time with all separators, constants, in every context that takes a literal including parameter defaults; expected value computed independently; non-trivial: distinct literal text",
		MinCounts: map[string]int64{"literals_num": 10000, "literals_str": 10000, "literals_date": 10000}})
}

// ---- C08: layout and letter case ----

// sameTokens: both texts hold the same tokens up to the case of keywords (guards the check itself).
func sameTokens(a, b string) bool {
	ta, oa, ea := lexref.Lex(a)
	tb, ob, eb := lexref.Lex(b)
	if ea != nil || eb != nil || oa || ob || len(ta) != len(tb) {
		return false
	}
	for i := range ta {
		x, y := ta[i], tb[i]
		if x.Kind != y.Kind || x.Lit != y.Lit && !lexref.IsKeyword(string(x.Kind)) && x.Kind != lexref.Directive {
			return false
		}
	}
	return true
}

// meaning is what a text gave: its meaning and its exact JSON with keywords that are kept in it in lower case.
type meaning struct {
	node *tree.Node
	raw  string
}

var execName = regexp.MustCompile(`(?i)"Name":"выполнить"`)

func outcome(c *mon.Ctx, src string) *meaning {
	c.Eval(1)
	a, err := parse(c, src)
	if err != nil {
		return nil
	}
	p := &meaning{node: canonModule(a)}
	for k, v := range a.GlobalVariables {
		v.Directive = strings.ToLower(v.Directive)
		a.GlobalVariables[k] = v
	}
	for _, st := range a.Body {
		if f, ok := st.(*ast.FunctionOrProcedure); ok {
			f.Directive = strings.ToLower(f.Directive)
		}
	}
	b, err := a.JSON()
	if err != nil {
		c.Fail(src, "JSON: %v", err)
	}
	p.raw = execName.ReplaceAllString(string(b), `"Name":"выполнить"`)
	return p
}

func compareOutcome(c *mon.Ctx, base *meaning, baseSrc, src string) {
	compareLax(c, base, baseSrc, src, false)
}

// compareLax: with more or fewer empty statements only the meaning is compared.
func compareLax(c *mon.Ctx, base *meaning, baseSrc, src string, lax bool) {
	got := outcome(c, src)
	switch {
	case (base == nil) != (got == nil):
		c.Fail(src, "accepted: %v; the same tokens laid out as %q: %v", got != nil, clip(baseSrc, 1500), base != nil)
	case base != nil && !tree.Equal(base.node, got.node):
		c.Fail(src, "tree differs from that of %q at %s", clip(baseSrc, 1500), tree.Diff(base.node, got.node))
	case base != nil && !lax && base.raw != got.raw:
		c.Fail(src, "JSON differs from that of %q: %s instead of %s", clip(baseSrc, 1500), clip(got.raw, 1500), clip(base.raw, 1500))
	}
	c.Count("layout_pairs_compared", 1)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// allKeywords holds every keyword and directive.
const allKeywords = `&НаКлиенте Перем г1;
&НаСервере Перем г2 Экспорт;
&НаСервереБезКонтекста Процедура П(Знач а, б = Истина, в = Ложь, г = Неопределено) Экспорт
Перем л;
Если а И б Тогда Возврат; ИначеЕсли Не а Или б Тогда Перейти ~м; Иначе ~м: Выполнить("х"); КонецЕсли;
Для Каждого э Из м Цикл Прервать; Продолжить; КонецЦикла;
Для н = 1 По 2 Цикл КонецЦикла;
Пока Истина Цикл КонецЦикла;
Попытка ф(); Исключение ВызватьИсключение; КонецПопытки;
х = Новый Массив(1);
КонецПроцедуры
&НаКлиентеНаСервереБезКонтекста Функция Ф() Возврат 1; КонецФункции
&НаКлиентеНаСервере Функция Ф2() Возврат 2; КонецФункции
х = 1;`

type span struct{ start, end int }

func keywordSpans(src string) (out []span) {
	toks, _, _ := lexref.Lex(src)
	for _, t := range toks {
		if lexref.IsKeyword(string(t.Kind)) || t.Kind == lexref.Directive {
			out = append(out, span{t.Start, t.End})
		}
	}
	return
}

func toggle(r rune) rune {
	switch {
	case unicode.IsUpper(r):
		return unicode.ToLower(r)
	case unicode.IsLower(r):
		return unicode.ToUpper(r)
	}
	return r
}

func mapSpans(src string, sp []span, f func(string) string) string {
	var b strings.Builder
	at := 0
	for _, s := range sp {
		b.WriteString(src[at:s.start])
		b.WriteString(f(src[s.start:s.end]))
		at = s.end
	}
	return b.String() + src[at:]
}

var gapFillers = []string{"\n", "\r\n", "\t", "\r", " // к\n", "//\n", "\n#Область х\n", "\n \t#КонецОбласти\r\n", " // Если \"х\n // '\n", strings.Repeat(" ", 300), strings.Repeat("\n", 1000), strings.Repeat("\t\r\n", 70), "\n//" + strings.Repeat("к", 5000) + "\n", "//\r\n", "\n\n// а\n\n#Если Сервер Тогда\n// б\n", "\n#!\n#\n", " //// к // к\n", "//КонецПроцедуры\n", "\n#Если 'х\" Тогда // к\n"}

func init() {
	groups := []mon.Group{
		{Name: "relayout", Quick: 50000, Deep: 2500000, Run: func(c *mon.Ctx, i int) {
			m := smallModule(c.R)
			st := gen.Wild(c.R)
			st.Case = false
			toks := gen.Unparse(c.R, st, m)
			bad := i%4 == 3
			if bad {
				toks = mutateTokens(c.R, toks)
			}
			baseSrc, _ := gen.Render(c.R, gen.Layout{}, toks)
			base := outcome(c, baseSrc)
			if !bad && base == nil {
				c.Fail(baseSrc, "a well-formed module was rejected")
			}
			for k := 0; k < 4; k++ {
				v := append([]gen.Tok(nil), toks...)
				for q := range v {
					if v[q].Kw && c.R.IntN(2) == 0 {
						v[q].Text = gen.RandCase(c.R, v[q].Text)
					}
				}
				src, _ := gen.Render(c.R, gen.RandLayout(c.R), v)
				if !sameTokens(baseSrc, src) {
					c.Count("not_comparable", 1)
					continue
				}
				compareOutcome(c, base, baseSrc, src)
				c.Seen(src)
				if base == nil {
					c.Count("rejected_pairs", 1)
				}
				if k == 0 {
					c.Sample("%q", src)
				}
			}
			if !bad {
				// more empty statements change nothing
				var v []gen.Tok
				for _, t := range toks {
					v = append(v, t)
					for t.Kind == "sep" && c.R.IntN(3) == 0 {
						v = append(v, t)
					}
				}
				src, _ := gen.Render(c.R, gen.RandLayout(c.R), v)
				compareLax(c, base, baseSrc, src, true)
				c.Count("empty_statement_pairs", 1)
			}
		}},
		{Name: "every-letter", Quick: len(keywordSpans(allKeywords)), Deep: len(keywordSpans(allKeywords)), Run: func(c *mon.Ctx, i int) {
			// each letter of each keyword toggled alone, from the written, the lower and the upper case text
			sp := keywordSpans(allKeywords)
			base := outcome(c, allKeywords)
			if base == nil {
				c.Fail(allKeywords, "a well-formed module was rejected")
			}
			for _, v := range []string{allKeywords, mapSpans(allKeywords, sp, strings.ToLower), mapSpans(allKeywords, sp, strings.ToUpper)} {
				compareOutcome(c, base, allKeywords, v)
				w := []rune(v[sp[i].start:sp[i].end])
				for k := range w {
					x := append([]rune(nil), w...)
					x[k] = toggle(x[k])
					src := v[:sp[i].start] + string(x) + v[sp[i].end:]
					compareOutcome(c, base, allKeywords, src)
					c.Seen(src)
					c.Count("letters_toggled", 1)
					for z := range w {
						y := append([]rune(nil), x...)
						y[z] = toggle(y[z])
						compareOutcome(c, base, allKeywords, v[:sp[i].start]+string(y)+v[sp[i].end:])
					}
				}
			}
		}},
		{Name: "every-gap", Quick: 400, Deep: 400, Run: func(c *mon.Ctx, i int) {
			toks, _, _ := lexref.Lex(allKeywords)
			base := outcome(c, allKeywords)
			if i > len(toks) {
				return
			}
			at := len(allKeywords)
			if i < len(toks) {
				at = toks[i].Start
			}
			for _, f := range gapFillers {
				src := allKeywords[:at] + f + allKeywords[at:]
				if !sameTokens(src, allKeywords) {
					c.Count("not_comparable", 1)
					continue
				}
				compareOutcome(c, base, allKeywords, src)
				c.Seen(src)
				c.Count("gaps_filled", 1)
			}
			// and taken away where the tokens do not touch as words
			if i > 0 && i < len(toks) {
				src := allKeywords[:toks[i-1].End] + allKeywords[at:]
				if sameTokens(src, allKeywords) {
					compareOutcome(c, base, allKeywords, src)
					c.Count("gaps_removed", 1)
				}
			}
		}},
		{Name: "line-contents", Quick: len(gen.LineBits) * len(gen.LineBits), Deep: len(gen.LineBits) * len(gen.LineBits) * 20, Run: func(c *mon.Ctx, i int) {
			// comments and # lines that hold any two words or signs, before every kind of token
			n := len(gen.LineBits)
			if i == 0 {
				base := outcome(c, "аб = вг + 1;")
				for _, w := range gen.Known {
					for _, at := range []string{"%sаб = вг + 1;", "аб = %sвг + 1;", "аб = вг +%s1;", "аб = вг + 1;%s"} {
						for _, f := range []string{"\n#" + w + "\n", "\n#" + w + " х\n", "//" + w + "\n"} {
							compareOutcome(c, base, "аб = вг + 1;", fmt.Sprintf(at, f))
						}
					}
				}
			}
			text := gen.LineBits[i%n] + pickS(c.R, "", "", " ", "\t") + gen.LineBits[i/n%n] + pickS(c.R, "", "", "", " ", ";", ".")
			line := "\n" + pickS(c.R, "", " ", "\t") + "#" + pickS(c.R, "", "", " ") + text + pickS(c.R, "\n", "\n", "\r\n", "\n\n", "\n  ")
			if i%2 == 1 {
				line = pickS(c.R, " ", "\n") + "//" + pickS(c.R, "", " ", "/") + text + pickS(c.R, "\n", "\r\n", "\n  ")
			}
			if c.R.IntN(4) == 0 {
				line += strings.TrimLeft(line, " \t\r\n")
			}
			mod := "Перем Пе;\n&НаКлиенте\nПроцедура Пр(аб) Экспорт Возврат; КонецПроцедуры\nабв = (где + \"с\") * 12.5;\nЕсли Не г[0].Если() Тогда КонецЕсли;\n~м: х = Новый Т('20200101');"
			base := outcome(c, mod)
			toks, _, _ := lexref.Lex(mod)
			two := gen.LineBits[i%n] + gen.LineBits[i/n%n]
			for k := 0; k < 30; k++ {
				f := []string{line, "\n#" + two + "\n", "//" + two + "\n"}[k%3]
				at := len(mod)
				if q := c.R.IntN(len(toks) + 1); q < len(toks) {
					at = toks[q].Start
				}
				src := mod[:at] + f + mod[at:]
				if !sameTokens(src, mod) {
					c.Count("not_comparable", 1)
					continue
				}
				compareOutcome(c, base, mod, src)
				c.Seen(src)
				c.Count("gaps_filled", 1)
			}
		}},
		{Name: "string-lines", Quick: 20000, Deep: 600000, Run: func(c *mon.Ctx, i int) {
			// white space and comments between the lines of a string, up to their bar
			plain, spread := `"`, `"`
			for k := c.R.IntN(6); k >= 0; k-- {
				t := pickS(c.R, "", "", "а", "а б", `""`, "//", "// не к", "#", ";", "'", "|", "х = 1;", " ", "Если")
				plain += t
				spread += t
				if k > 0 {
					plain += "\n|"
					spread += "\n"
					for c.R.IntN(3) > 0 {
						spread += pickS(c.R, " ", "\t", "\n", "  ")
					}
					for c.R.IntN(5) < 2 {
						spread += "//" + pickS(c.R, "", "/", " к", " \"", "|", " #", " Если", " \"\"") + "\n" + pickS(c.R, "", "", " ", "\t", "\n", "\r\n ")
					}
					spread += "|"
				}
			}
			plain, spread = plain+`"`, spread+`"`
			home := pickS(c.R, "х = %s;", "Ф(%s, 1);", "Процедура П(а = %s, б) КонецПроцедуры", "х = а + %s + \"я\";", "Если %s = м[%s] Тогда у = 1; КонецЕсли;", "х = %s\n \"ещё\";")
			base, src := strings.ReplaceAll(home, "%s", plain), strings.ReplaceAll(home, "%s", spread)
			if !sameTokens(src, base) {
				c.Count("not_comparable", 1)
				return
			}
			compareOutcome(c, outcome(c, base), base, src)
			c.Seen(src)
			c.Count("strings_spread", 1)
		}},
		{Name: "line-ends", Quick: 20000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			// LF and CRLF spellings of the same text
			m := smallModule(c.R)
			toks := gen.Unparse(c.R, gen.Wild(c.R), m)
			l := gen.RandLayout(c.R)
			l.CRLF = false
			l.Mode = 2
			src, _ := gen.Render(c.R, l, toks)
			if strings.Contains(src, "\n|") || strings.Contains(src, "\r") {
				return
			}
			crlf := strings.ReplaceAll(src, "\n", "\r\n")
			if sameTokens(src, crlf) {
				compareOutcome(c, outcome(c, src), src, crlf)
				c.Seen(crlf)
			}
		}},
	}
	register(&mon.Check{ID: "C08", Groups: groups,
		Rule:        "generated well-formed and corrupted token sequences are laid out many ways (white space, line ends, comments, # lines, keyword case, extra empty statements) and the parse results compared; every letter of every keyword toggled; every gap of a module with all keywords filled with each kind of filler; non-trivial: distinct laid out text whose tokens are the same by an independent tokeniser",
		Assumptions: []string{"# lines stand on lines of their own"},
		MinCounts:   map[string]int64{"layout_pairs_compared": 10000, "rejected_pairs": 1000, "letters_toggled": 500, "strings_spread": 10000, "gaps_filled": 1000, "gaps_removed": 50, "empty_statement_pairs": 1000}})
}

// ---- C09: identifiers ----

// roles are module texts with a name in one role; the tree must hold the name exactly there.
func roles(n string) *tree.Node {
	v := func(s string) *tree.Node { return tree.N("var", s) }
	m := tree.N("module", "",
		tree.N("globals", "", tree.N("gvar", n, tree.N("dir", ""), tree.N("export", ""))),
		tree.N("func", n, tree.N("dir", ""), tree.N("export", ""),
			tree.N("params", "", tree.N("param", n, tree.N("val", "true"), tree.Num(1))),
			tree.N("locals", ""),
			tree.N("block", "",
				tree.N("assign", "", v(n), tree.N("bin", "+", v(n), tree.N("call", n, v(n), tree.N("new", n, v(n))))),
				tree.N("call", n),
				tree.N("dot", "", tree.N("dot", "", tree.N("dot", "", v(n), v(n)), tree.N("item", "", v(n), v(n))), tree.N("call", n, v(n))),
				tree.N("foreach", n, v(n), tree.N("block", "", tree.N("goto", n), tree.N("label", n))),
				tree.N("for", "", tree.N("bin", "=", v(n), v(n)), v(n), tree.N("block", "")),
				tree.N("if", "", v(n), tree.N("block", ""), tree.N("elifs", "", tree.N("elif", "", tree.Not(v(n)), tree.N("block", ""))), tree.N("block", "")),
				tree.N("throw", "", v(n)),
				tree.N("call", "выполнить", v(n)),
				tree.N("return", "", tree.N("ternary", "", v(n), v(n), tree.Neg(v(n)))),
			)),
		tree.N("proc", n+"1", tree.N("dir", ""), tree.N("export", ""), tree.N("params", ""),
			tree.N("locals", "", tree.N("v", n)), tree.N("block", "")),
		tree.N("assign", "", tree.N("item", "", v(n), tree.N("new", n)), tree.N("dot", "", v("х"), v(n))),
	)
	return m
}

func checkName(c *mon.Ctx, n string) {
	if lexref.IsKeyword(n) {
		return
	}
	wantGen(c, roles(n))
	c.Count("names_checked", 1)
	c.Seen(n)
}

func lookAlikes(w string) []string {
	out := []string{w + "_", "_" + w, w + "1", w + "а", "а" + w, w + "Ё", "ё" + w, w + w, w + "z", "z" + w, w + "字"}
	rs := []rune(w)
	out = append(out, string(rs[1:]), string(rs[:len(rs)-1]))
	sw := map[rune]string{'а': "aäа́", 'е': "eёэ", 'ё': "е", 'о': "o0", 'с': "c", 'р': "p", 'у': "y", 'х': "x", 'и': "йіu", 'к': "k", 'н': "h", 'т': "t", 'п': "n", 'л': "ль"}
	for i, x := range rs {
		for _, y := range sw[x] {
			if unicode.IsLetter(y) || y >= '0' && y <= '9' {
				if i == 0 && y == '0' {
					continue
				}
				out = append(out, string(rs[:i])+string(y)+string(rs[i+1:]))
			}
		}
		out = append(out, string(rs[:i])+string(rs[i+1:]))                     // a letter missing
		out = append(out, string(rs[:i])+string(x)+string(x)+string(rs[i+1:])) // a letter twice
		out = append(out, string(rs[:i])+"_"+string(rs[i:]))
		if i > 0 {
			y := append([]rune(nil), rs...)
			y[i], y[i-1] = y[i-1], y[i]
			out = append(out, string(y))
			out = append(out, string(rs[i:]), string(rs[:i]))
		}
		// neighbours in the alphabet
		for _, d := range []rune{-1, 1, 0x20, -0x20, 0x40, 0x50} {
			y := x + d
			if unicode.IsLetter(y) && lexref.Lower(string(y)) != lexref.Lower(string(x)) {
				out = append(out, string(rs[:i])+string(y)+string(rs[i+1:]))
			}
		}
	}
	return out
}

func init() {
	nk := len(lexref.Keywords)
	groups := []mon.Group{
		{Name: "look-alikes", Quick: nk, Deep: nk, Run: func(c *mon.Ctx, i int) {
			for _, n := range lookAlikes(lexref.Keywords[i]) {
				if n == "" || n[0] >= '0' && n[0] <= '9' || lexref.IsKeyword(n) {
					continue
				}
				checkName(c, n)
				checkName(c, gen.RandCase(c.R, n))
			}
		}},
		{Name: "known", Quick: len(gen.Known), Deep: len(gen.Known) * 20, Run: func(c *mon.Ctx, i int) {
			n := gen.Known[i%len(gen.Known)]
			for _, s := range []string{n, strings.ToLower(n), strings.ToUpper(n), gen.RandCase(c.R, n), n + "1", "_" + n} {
				checkName(c, s)
			}
		}},
		{Name: "glued", Quick: nk * nk, Deep: nk * nk, Run: func(c *mon.Ctx, i int) {
			// two keywords written together are a name
			n := lexref.Keywords[i/nk] + lexref.Keywords[i%nk]
			checkName(c, gen.RandCase(c.R, n))
			if k := []rune(n); len(k) > 3 { // and any piece of it
				a := c.R.IntN(len(k) - 1)
				checkName(c, string(k[a:a+1+c.R.IntN(len(k)-a-1)]))
			}
		}},
		{Name: "every-letter", Quick: 0x110000 / 64, Deep: 0x110000 / 64, Run: func(c *mon.Ctx, i int) {
			// every letter of every script, at every place of a name
			var stmts []*tree.Node
			for k := 0; k < 64; k++ {
				x := rune(i*64 + k)
				if !unicode.IsLetter(x) {
					continue
				}
				s := string(x)
				if lexref.IsKeyword(s) {
					s += "_"
				}
				stmts = append(stmts, tree.N("assign", "", tree.N("var", s), tree.N("bin", "+", tree.N("var", "а"+s+"1"), tree.N("dot", "", tree.N("var", s+"_б"), tree.N("call", "Ъ"+s)))))
				c.Count("letters_checked", 1)
				c.Seen("letter" + s)
			}
			if len(stmts) > 0 {
				wantGen(c, gen.ModuleOf([]string{"", "proc", "func"}[i%3], stmts...))
			}
		}},
		{Name: "lengths", Quick: 400, Deep: 2000, Run: func(c *mon.Ctx, i int) {
			n := 1 + i%300
			if i >= 300 {
				n = 300 + c.R.IntN(8000)
			}
			var b strings.Builder
			for k := 0; k < n; k++ {
				b.WriteString(pickS(c.R, "а", "Я", "ё", "p", "_", "字", "Р", "п"))
			}
			checkName(c, b.String())
		}},
		{Name: "after-dot", Quick: nk * 40, Deep: nk * 2000, Run: func(c *mon.Ctx, i int) {
			// after a dot every keyword is a member; right after the member it is a keyword again
			w := gen.RandCase(c.R, lexref.Keywords[i%nk])
			w2 := gen.RandCase(c.R, lexref.Keywords[c.R.IntN(nk)])
			gap := pickS(c.R, "", "", " ", "\n", "\t", "\r\n", " // к\n", "//\n", "  \n\n  ", "\n#Область Если\n", " //а\n //б\n", strings.Repeat(" ", 64), strings.Repeat("\n", 40))
			gap2 := pickS(c.R, "", " ", "\n", " //к\n")
			forms := []string{
				"х = а%[3]s.%[1]s%[2]s;",
				"а%[3]s.%[1]s%[2]s = 1;",
				"а%[3]s.%[1]s%[2]s();",
				"а%[3]s.%[1]s%[2]s(1, б.%[1]s%[4]s);",
				"а%[3]s.%[1]s%[2]s.%[1]s%[4]s.%[1]s%[2]s[1] = а.%[1]s%[2]s[а.%[1]s%[4]s];",
				"Если а%[3]s.%[1]s%[2]s Тогда б.%[1]s%[4]s() КонецЕсли",
				"Если а.б()%[3]s.%[1]s%[2]s Или а.%[1]s%[4]s И Не б.%[1]s%[2]s Тогда КонецЕсли",
				"Пока а[1]%[3]s.%[1]s%[2]s Цикл Прервать КонецЦикла",
				"Для Каждого э Из а%[3]s.%[1]s%[2]s Цикл КонецЦикла",
				"Для н = а.%[1]s%[2]s По а.%[1]s%[4]s Цикл КонецЦикла",
				"Функция Ф() Возврат а%[3]s.%[1]s%[2]s КонецФункции",
				"Попытка а%[3]s.%[1]s%[2]s() Исключение ВызватьИсключение а.%[1]s%[4]s КонецПопытки",
				"х = Новый Т(а.%[1]s%[2]s).%[1]s%[4]s;",
				"х = ?(а.%[1]s%[2]s, б.%[1]s%[4]s(), -в.%[1]s%[2]s);",
			}
			src := fmt.Sprintf(forms[c.R.IntN(len(forms))], gap, w, gap2, w2)
			r, ok := diff(c, src)
			if ok && r.Accept() {
				c.Count("members_checked", 1)
				c.Seen(src)
				c.Sample("%q", src)
			}
		}},
		{Name: "only-after-dot", Quick: nk * 60, Deep: nk * 600, Run: func(c *mon.Ctx, i int) {
			// a keyword in the place of a name is no name, and a keyword after anything but a dot is a keyword
			w := gen.RandCase(c.R, lexref.Keywords[i%nk])
			forms := []string{"%s = 1;", "х = %s;", "%s();", "х = %s();", "Процедура %s() КонецПроцедуры", "Процедура П(%s) КонецПроцедуры", "Перем %s;",
				"Процедура П() Перем а, %s; КонецПроцедуры", "х = Новый %s;", "х = Новый %s(1);", "Для %s = 1 По 2 Цикл КонецЦикла", "Для Каждого %s Из м Цикл КонецЦикла",
				"х = а %s б;", "х = а.б %s в;", "а.%[1]s %[1]s б;", "х = а.б() %s;", "х = а[1] %s;", "х = 1 %s;", "х = 'а' %s", "х = \"а\" %s", "х = 1.0 %s 2;", "х = 1. %s 2;", "х = 1.5. %s;", "%s.а = 1;", "%s[1] = 2;", "а.б.%[1]s = %[1]s;", "\". \" %s", "// .\n%s = 1;", "х = \".\" %s;", "х = \"а.\" + %s;", "#а.\n%s;"}
			r, ok := diff(c, fmt.Sprintf(forms[i/nk%len(forms)], w))
			if ok && r.Reject() {
				c.Count("keywords_not_names", 1)
				c.Seen(fmt.Sprint(i))
			}
		}},
		{Name: "modules", Quick: 30000, Deep: 1500000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Exotic, cfg.BigLists = true, false
			cfg.Budget = 20 + c.R.IntN(60)
			_, _, want := wantGen(c, gen.New(c.R, cfg).Module())
			c.Seen(want.String())
			c.Count("names_checked", 1)
		}},
	}
	register(&mon.Check{ID: "C09", Groups: groups,
		Rule:      "names that resemble every keyword (one letter more, less, swapped, neighbouring or look-alike, two glued), every Unicode letter, lengths up to thousands, in every role; every keyword after a dot with every kind of gap, and every keyword where a name is expected; non-trivial: distinct name or text",
		MinCounts: map[string]int64{"names_checked": 10000, "letters_checked": 100000, "members_checked": 500, "keywords_not_names": 200}})
}

var _ = ref.Parse
