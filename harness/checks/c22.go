package checks

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/lexref"
	"verif/mon"
)

// ---- C22: the token stream ----

var kindCode = map[lexref.Kind]int{
	"процедура": ast.Procedure, "перем": ast.Var, "перейти": ast.GoTo, "конецпроцедуры": ast.EndProcedure, "знач": ast.ValueParam,
	"если": ast.If, "тогда": ast.Then, "иначеесли": ast.ElseIf, "иначе": ast.Else, "конецесли": ast.EndIf, "для": ast.For,
	"каждого": ast.Each, "из": ast.In, "по": ast.To, "цикл": ast.Loop, "конеццикла": ast.EndLoop, "прервать": ast.Break,
	"продолжить": ast.Continue, "попытка": ast.Try, "новый": ast.New, "исключение": ast.Catch, "пока": ast.While,
	"конецпопытки": ast.EndTry, "функция": ast.Function, "конецфункции": ast.EndFunction, "возврат": ast.Return,
	"вызватьисключение": ast.Throw, "и": ast.And, "или": ast.OR, "истина": ast.True, "ложь": ast.False, "неопределено": ast.Undefind,
	"не": ast.Not, "экспорт": ast.Export, "выполнить": ast.Execute,
	lexref.Number: ast.Number, lexref.String: ast.String, lexref.Date: ast.Date, lexref.Label: ast.GoToLabel, lexref.Directive: ast.Directive,
	"=": ast.EQUAL, "<>": ast.NeEQ, "<=": ast.LE, ">=": ast.GE,
}

// the private parts of a token that are looked at, found by what they hold after a known text
var (
	identCode   = 0
	literalPath []int
	valuePath   []int
)

func init() {
	defer func() { recover() }()
	for _, s := range lexref.Kind("<>;:().,/+-*%?[]") {
		if k := lexref.Kind(string(s)); kindCode[k] == 0 {
			kindCode[k] = int(s)
		}
	}
	var t ast.Token
	if k, err := t.Next(srcText("ключевое")); err == nil {
		identCode = k
	}
	v := reflect.ValueOf(t)
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.String && f.String() == "ключевое" {
			literalPath = []int{i}
		}
	}
	var n ast.Token
	n.Next(srcText("12.75"))
	v = reflect.ValueOf(n)
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Interface && !f.IsNil() && f.Elem().Kind() == reflect.Float64 && f.Elem().Float() == 12.75 {
			valuePath = []int{i}
		}
	}
}

func literalOf(t *ast.Token) (string, bool) {
	if literalPath == nil {
		return "", false
	}
	return reflect.ValueOf(t).Elem().FieldByIndex(literalPath).String(), true
}

func wantCode(k lexref.Kind) int {
	if k == lexref.Ident {
		return identCode
	}
	return kindCode[k]
}

// lineCol1 is the 1-based line and column of a byte offset.
func lineCol1(s string, off int) ast.Position {
	l, c := lexref.LineCol(s, off)
	return ast.Position{Line: l, Column: c + 1}
}

func posLess(a, b ast.Position) bool {
	return a.Line < b.Line || a.Line == b.Line && a.Column < b.Column
}

// checkStream compares the tokens of a text with those of the independent tokeniser.
func checkStream(c *mon.Ctx, src string, positions bool) bool {
	want, odd, lerr := lexref.Lex(src)
	if odd {
		c.Count("unspecified_skipped", 1)
		return false
	}
	// two dots in a row are in no module: what a word after them is, is not settled
	for k := 1; k < len(want); k++ {
		if want[k].Kind == "." && want[k-1].Kind == "." {
			c.Count("unspecified_skipped", 1)
			return false
		}
	}
	c.Eval(1)
	c.Doing(src)
	var t ast.Token
	for k := range want {
		w := &want[k]
		code, err := t.Next(srcText(src))
		if err != nil {
			c.Fail(src, "token %d %q (%s): error %v", k, w.Lit, w.Kind, err)
		}
		if code != wantCode(w.Kind) {
			c.Fail(src, "token %d %q: kind %d, want %d (%s)", k, w.Lit, code, wantCode(w.Kind), w.Kind)
		}
		if lit, ok := literalOf(&t); ok {
			if lit != w.Lit {
				c.Fail(src, "token %d (%s): literal %q, want %q", k, w.Kind, lit, w.Lit)
			}
			c.Count("literals_compared", 1)
		}
		if valuePath != nil {
			v := reflect.ValueOf(&t).Elem().FieldByIndex(valuePath)
			switch w.Kind {
			case lexref.Number:
				if v.IsNil() || v.Elem().Kind() != reflect.Float64 || v.Elem().Float() != w.Num {
					c.Fail(src, "token %d %q: value %v", k, w.Lit, v)
				}
			case lexref.Date:
				if tt := valueTime(v); tt != w.Date.UTC().String() {
					c.Fail(src, "token %d %q: value %s, want %v", k, w.Lit, tt, w.Date)
				}
			}
		}
		if positions {
			p := t.GetPosition()
			hi := len(src)
			if k+1 < len(want) {
				hi = want[k+1].Start
			} else if lerr != nil {
				hi = lerr.Offset
			}
			if lo, up := lineCol1(src, w.End), lineCol1(src, hi); posLess(p, lo) || posLess(up, p) {
				c.Fail(src, "after token %d %q the position is %+v, want %+v to %+v", k, w.Lit, p, lo, up)
			}
			c.Count("positions_checked", 1)
		}
		c.Count("tokens_compared", 1)
		c.Count("kind_"+kindClass(w.Kind), 1)
	}
	if lerr != nil {
		code, err := t.Next(srcText(src))
		if err == nil {
			lit, _ := literalOf(&t)
			c.Fail(src, "%v, but Next gives token %d %q", lerr, code, lit)
		}
		c.Count("illegal_texts", 1)
		return true
	}
	for k := 0; k < 3; k++ {
		code, err := t.Next(srcText(src))
		if code != ast.EOF || err != nil {
			c.Fail(src, "after the last token Next gives %d %v, not the end", code, err)
		}
	}
	c.Count("streams_complete", 1)
	return true
}

func valueTime(v reflect.Value) string {
	// the field is private: read it in place
	x := reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem().Interface()
	if t, ok := x.(time.Time); ok {
		return t.UTC().String()
	}
	return fmt.Sprintf("not a date: %v", x)
}

var tokenPool = append(append([]string{}, soup...), "а1", "_", "__х", "ИндексЕсли", "ЕслиНе", "Ифы", "name", "Ünïcode", "日本", "ё", "Ё", "ѐ", "Џ", "я", "Я", "0", "007", "1.5", "10.", "3.0001", "123456789012345678901234567890", "\"строка\"", "\"а\"\"б\"", "\"а\n\t|б\"", "\"а\" \"б\"", "\"а\"\n\"б\"", "'20240229'", "'20230229'", "'2024 02 29 10:11'", "'20240229101112'", "'0'", "~метка", "~м1", "&НаКлиенте", "&насервере", "&НаКлиентеНаСервереБезКонтекста", "&НаКлиентеНаСервере", "&НаСервереБезКонтекста", "&Перед", "<>", "<=", ">=", "< >", "=>", "><", "<<", "//", "///", "// Если\n", "#Если Сервер Тогда\n", "\n#КонецЕсли\n", "\r\n", "\t", "/", "|", ".", ".Если", ". Не", ".\n//к\nЕсли", "..")

func poolText(r *rand.Rand) string {
	var b strings.Builder
	sep := []string{"", " ", "\n", "\r\n", "\t", "  ", "//к\n", "\n#о\n"}
	mode := r.IntN(4)
	for n := 1 + r.IntN(14); n > 0; n-- {
		if r.IntN(3) == 0 {
			b.WriteString(gen.RandCase(r, lexref.Keywords[r.IntN(len(lexref.Keywords))]))
		} else {
			b.WriteString(tokenPool[r.IntN(len(tokenPool))])
		}
		switch mode {
		case 0:
			b.WriteString(" ")
		case 1:
			b.WriteString(sep[r.IntN(len(sep))])
		case 2:
			if r.IntN(3) > 0 {
				b.WriteString(" ")
			}
		}
	}
	return b.String()
}

func init() {
	alpha := []string{"\"", "'", "|", "\n", " ", "/", "#", ".", "~", "&", "<", ">", "=", ";", "-", "1", "а", "Не", "не ", "\r", "0", "_", "_1", "И", "насервере", "Ж", ",", "$", "\\", "`"}
	groups := []mon.Group{
		{Name: "modules", Quick: 40000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 150)
			src := gen.Full(c.R, gen.New(c.R, cfg).Module())
			if checkStream(c, src, len(src) < 20000) {
				c.Seen(src)
			}
		}},
		{Name: "pieces", Quick: 150000, Deep: 8000000, Run: func(c *mon.Ctx, i int) {
			src := poolText(c.R)
			if checkStream(c, src, true) {
				c.Seen(src)
			}
			c.Sample("%q", src)
		}},
		{Name: "mutated", Quick: 40000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 40)
			src := strings.ToValidUTF8(mutateBytes(c.R, gen.Full(c.R, gen.New(c.R, cfg).Module())), "")
			if checkStream(c, src, len(src) < 20000) {
				c.Seen(src)
			}
		}},
		{Name: "short", Quick: len(alpha) * len(alpha), Deep: len(alpha) * len(alpha), Run: func(c *mon.Ctx, i int) {
			p := alpha[i%len(alpha)] + alpha[i/len(alpha)]
			one := func(s string) {
				if checkStream(c, s, true) {
					c.Seen(s)
				}
			}
			one(alpha[i%len(alpha)])
			one(p)
			for _, x := range alpha {
				one(p + x)
				for _, y := range alpha {
					one(p + x + y)
					if c.Tier == "thorough" {
						for _, z := range alpha {
							one(p + x + y + z)
						}
					}
				}
			}
		}},
		{Name: "names", Quick: 30000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			w := lexref.Keywords[i%len(lexref.Keywords)]
			l := lookAlikes(w)
			n := l[c.R.IntN(len(l))]
			if c.R.IntN(2) == 0 {
				n = gen.RandCase(c.R, w)
			}
			dot := pickS(c.R, "", "", ".", ". ", ".\n", ".//к\n", "а.", "5.", ").", "..", ".;", ".1")
			src := pickS(c.R, "", "а ", "= ") + dot + n + pickS(c.R, "", " ", "(", ".б", "\n", ";Если", " Если", ".Если.Если Если")
			if checkStream(c, src, true) {
				c.Seen(src)
			}
		}},
		{Name: "runes", Quick: 400, Deep: 4400, Run: func(c *mon.Ctx, i int) {
			// every character, as the start, inside and after a name, in a string and a comment
			for k := 0; k < 256; k++ {
				r := rune(i*256 + k)
				if i >= 256 {
					r = rune(c.R.IntN(0x110000))
				}
				if r >= 0xd800 && r < 0xe000 || r > 0x10ffff || r == 0xfffd {
					continue
				}
				s := string(r)
				for _, f := range []string{s, "а" + s + "б", s + "а Если", "\"" + s + "\" а", "//" + s + "\nа", "1" + s, "~" + s} {
					if checkStream(c, f, true) {
						c.Seen(f)
					}
				}
			}
		}},
		{Name: "long", Quick: 40, Deep: 400, Run: func(c *mon.Ctx, i int) {
			n := []int{63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 100000}[i%15]
			kind := c.R.IntN(len(nestKinds))
			src := nestText(kind, n, c.R.IntN(2)) + " Если " + nestText(c.R.IntN(len(nestKinds)), c.R.IntN(5), 0)
			if checkStream(c, strings.ToValidUTF8(src, "?"), false) {
				c.Seen(src)
			}
		}},
	}
	register(&mon.Check{ID: "C22", Groups: groups,
		Rule:        "every call of Token.Next on generated modules, token pieces in every spacing, corrupted modules, every character in seven positions, keyword look-alikes after dots and every text of up to four (thorough: five) alphabet pieces is compared with an independent tokeniser: kind, literal, value, position window, then end of input three times; non-trivial: distinct text with settled lexical meaning",
		Assumptions: []string{"a # line that does not begin its line, labels without a name, dates over several lines and strings joined across comments are not judged", "the stream after an illegal text is not judged"},
		MinCounts:   map[string]int64{"tokens_compared": 500000, "positions_checked": 300000, "illegal_texts": 10000, "streams_complete": 50000}})
}
