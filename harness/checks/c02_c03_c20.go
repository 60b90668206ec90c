package checks

import (
	"fmt"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"

	"verif/gen"
	"verif/lexref"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// ---- C02: well-formed modules are accepted ----

func mustAccept(c *mon.Ctx, src string) {
	c.Eval(1)
	if _, err := parse(c, src); err != nil {
		c.Fail(src, "a well-formed module was rejected: %v", err)
	}
	c.Count("modules_accepted", 1)
}

// features names the constructs of a tree, to show what the accepted modules held.
func features(c *mon.Ctx, n *tree.Node) {
	c.Count("construct_"+n.Kind, 1)
	for _, k := range n.Kids {
		features(c, k)
	}
}

func init() {
	groups := []mon.Group{
		{Name: "modules", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			m := gen.New(c.R, cfgFor(c.R)).Module()
			src := gen.Full(c.R, m)
			mustAccept(c, src)
			if i%64 == 0 {
				features(c, m)
			}
			c.Seen(src)
			c.Sample("%q", src)
		}},
		{Name: "large", Quick: 60, Deep: 600, Run: func(c *mon.Ctx, i int) {
			src := largeModule(c.R, i)
			mustAccept(c, src)
			c.Seen(src)
		}},
	}
	groups = append(groups, enumGroups(func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Accept() {
			mustAccept(c, src)
			c.Seen(src)
		}
	})...)
	register(&mon.Check{ID: "C02", Groups: groups,
		Rule:      "random well-formed modules from a grammar-directed generator in random layouts, very large and very deep modules, and every token sequence up to a length bound per context that an independent reference parser accepts; non-trivial: the distinct text was a non-empty well-formed module",
		MinCounts: map[string]int64{"modules_accepted": 10000}})
}

// largeModule makes one long or deep well-formed module of a given shape.
func largeModule(r *rand.Rand, i int) string {
	n := []int{17, 33, 100, 257, 1000, 4000}[i/10%6]
	rep := func(s string, k int) string { return strings.Repeat(s, k) }
	switch i % 10 {
	case 0:
		return rep("Если а Тогда\n", n) + "х = 1;" + rep("\nКонецЕсли;", n)
	case 1:
		return rep("Пока а Цикл\n", n) + "Прервать;" + rep("\nКонецЦикла;", n)
	case 2:
		return rep("Попытка ф(); Исключение ", n) + "ВызватьИсключение;" + rep("\nКонецПопытки;", n)
	case 3:
		return "х = " + rep("(", n) + "1" + rep(")", n) + ";"
	case 4:
		return "х = а" + rep(".б[1](2)"[:3], n) + ";"
	case 5:
		return "ф(" + rep("1, ", n) + "2);"
	case 6:
		var b strings.Builder
		b.WriteString("Процедура П(")
		for k := 0; k < n; k++ {
			if k > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(&b, "п%d = %d", k, k)
		}
		b.WriteString(") Перем ")
		for k := 0; k < n; k++ {
			if k > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(&b, "л%d", k)
		}
		return b.String() + "; КонецПроцедуры"
	case 7:
		var b strings.Builder
		for k := 0; k < n; k++ {
			fmt.Fprintf(&b, "Перем г%d;\n", k)
		}
		for k := 0; k < n; k++ {
			fmt.Fprintf(&b, "Функция ф%d() Экспорт Возврат %d; КонецФункции\n", k, k)
		}
		return b.String()
	case 8:
		return "Если а Тогда х = 0;" + rep(" ИначеЕсли б Тогда х = 1;", n) + " Иначе х = 2; КонецЕсли"
	default:
		return "х = " + rep("а + -б * (в - 1) И Не г ИЛИ ", n) + "д;" + rep("х = х + 1;\n", n)
	}
}

// ---- corruption of modules, for C03 and C20 ----

var junkTokens = append(append(append([]string{}, lexref.Keywords...), fields(allPunct)...), "а", "1", `"с"`, "'20200102'", "~м", "&НаСервере", ";", ";", ")", "(", ",")

// mutateTokens makes one or two token-level edits.
func mutateTokens(r *rand.Rand, toks []gen.Tok) []gen.Tok {
	out := append([]gen.Tok(nil), toks...)
	edits := 1
	if r.IntN(8) == 0 {
		edits = 2
	}
	for ; edits > 0 && len(out) > 0; edits-- {
		i := r.IntN(len(out))
		junk := func() gen.Tok {
			s := junkTokens[r.IntN(len(junkTokens))]
			k := ""
			if s[0] == '"' {
				k = "str"
			}
			return gen.Tok{Text: s, Word: s[0] != '\'' && (s[0] >= 128 || s[0] == '~' || s[0] == '&' || s[0] == '1'), Kind: k, Value: "с"}
		}
		switch r.IntN(7) {
		case 0, 1: // delete
			out = append(out[:i:i], out[i+1:]...)
		case 2: // duplicate
			out = append(out[:i+1:i+1], out[i:]...)
		case 3: // swap with the next
			if i+1 < len(out) {
				out[i], out[i+1] = out[i+1], out[i]
			}
		case 4: // replace
			out[i] = junk()
		case 5: // insert
			out = append(out[:i:i], append([]gen.Tok{junk()}, out[i:]...)...)
		case 6: // cut off the rest, or the beginning
			if r.IntN(3) > 0 {
				out = out[:i]
			} else {
				out = out[i:]
			}
		}
	}
	return out
}

func smallModule(r *rand.Rand) *tree.Node {
	c := cfgFor(r)
	c.Budget = 5 + r.IntN(60)
	c.BigLists = false
	return gen.New(r, c).Module()
}

// illegal characters and broken literals
var brokenBits = []string{"@", "$", "^", "{", "}", "\\", "!", "`", "\x00", "\u00a0", "№", "«", "»", "—", "'", "\"", "''", "'дата'", "'2020'", "'20201301'", "'20200230'", "'20210229'", "'202001011'", "'2020010125'", "'202001012460'", "'20200101235960'", "'202001012360'", "'2020010112000000'", "'00010132'", "1.2.3", "1..2", "5х", "1Если", "12_3", "& НаСервере", "&", "&НаСервер", "&НаСервереБезКонтекст", "&НаКлиентеНаСерверее", "&&НаСервере", "\"текст\nбез продолжения\"", "\"а\n |б\nв\"", "\"незакрытая", "'20200101", "\ufeff", "\u200b", "…", "±", "\xff", "|", "|текст", "#", "~@"}

func init() {
	groups := []mon.Group{
		{Name: "token-edits", Quick: 150000, Deep: 8000000, Run: func(c *mon.Ctx, i int) {
			toks := mutateTokens(c.R, gen.Unparse(c.R, gen.Wild(c.R), smallModule(c.R)))
			src, _ := gen.Render(c.R, gen.RandLayout(c.R), toks)
			r := ref.Parse(src)
			if r.Reject() {
				wantReject(c, src, rejectReason(r))
				countReject(c, r)
				c.Seen(src)
				c.Sample("%q: %s", src, rejectReason(r))
			} else {
				c.Count("edit_left_module_valid_or_open", 1)
			}
		}},
		{Name: "broken-tokens", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			toks := gen.Unparse(c.R, gen.Wild(c.R), smallModule(c.R))
			bad := brokenBits[i%len(brokenBits)]
			l := gen.RandLayout(c.R)
			at := c.R.IntN(len(toks) + 1)
			if c.R.IntN(6) == 0 {
				at = []int{0, len(toks)}[c.R.IntN(2)]
			}
			mid := gen.Tok{Text: bad, Word: true}
			out := append(append(append([]gen.Tok(nil), toks[:at]...), mid), toks[at:]...)
			if c.R.IntN(3) == 0 && at < len(toks) { // in place of a token
				out = append(append(append([]gen.Tok(nil), toks[:at]...), mid), toks[at+1:]...)
			}
			src, _ := gen.Render(c.R, l, out)
			r := ref.Parse(src)
			if r.Reject() {
				wantReject(c, src, rejectReason(r))
				countReject(c, r)
				c.Seen(src)
			} else {
				c.Count("not_judged", 1)
			}
		}},
		{Name: "literals", Quick: 6000, Deep: 60000, Run: func(c *mon.Ctx, i int) {
			bad := brokenDate(c.R, i)
			for _, ctx := range []string{"х = %s;", "ф(%s, 1);", "Процедура П(а = %s) КонецПроцедуры", "Если а < %s Тогда КонецЕсли;"} {
				src := fmt.Sprintf(ctx, bad)
				r := ref.Parse(src)
				if r.Reject() {
					wantReject(c, src, rejectReason(r))
					countReject(c, r)
					c.Seen(bad)
				}
			}
		}},
		{Name: "unclosed", Quick: 20000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			// cut after a token: whatever is open stays open
			toks := gen.Unparse(c.R, gen.Wild(c.R), smallModule(c.R))
			if len(toks) == 0 {
				return
			}
			cut := c.R.IntN(len(toks))
			src, _ := gen.Render(c.R, gen.RandLayout(c.R), toks[:cut])
			if r := ref.Parse(src); r.Reject() {
				wantReject(c, src, rejectReason(r))
				countReject(c, r)
				c.Seen(src)
			}
		}},
		{Name: "far-error", Quick: 60, Deep: 400, Run: func(c *mon.Ctx, i int) {
			// the fault sits before, inside or after a lot of valid text
			big := largeModule(c.R, c.R.IntN(30))
			if !strings.HasSuffix(big, ";") && !strings.HasPrefix(big, "Перем") {
				big += ";"
			}
			bad := pickS(c.R, " )", " @", " х = ;", " КонецЕсли", " 5х = 1;", " \"а", " Перем", " Прервать;")
			src := big + bad
			if c.R.IntN(2) == 0 {
				src += " " + strings.Repeat("х = 1;\n", 500)
			}
			if r := ref.Parse(src); r.Reject() {
				wantReject(c, src, rejectReason(r))
				countReject(c, r)
				c.Seen(src)
			}
		}},
	}
	groups = append(groups, enumGroups(func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Reject() {
			wantReject(c, src, rejectReason(r))
			countReject(c, r)
			c.Seen(src)
		}
	})...)
	register(&mon.Check{ID: "C03", Groups: groups,
		Rule:        "token-level and character-level corruptions of generated modules, truncations, broken literals, faults far from their surroundings, and every token sequence up to a length bound per context; judged by an independent reference parser; non-trivial: the distinct text is outside the language by that reference",
		Assumptions: []string{"forms the language description leaves open (expression statements, stray colons, labels in expressions, ...) are not judged"},
		MinCounts:   map[string]int64{"rejections_checked": 10000, "reject_lexical": 100, "reject_syntax": 1000, "reject_unfinished": 500, "reject_rule": 50}})
}

func countReject(c *mon.Ctx, r *ref.Result) {
	switch {
	case r.LexErr != nil:
		c.Count("reject_lexical", 1)
	case r.Syntax && r.ErrTok < len(r.Toks):
		c.Count("reject_syntax", 1)
	case r.Syntax:
		c.Count("reject_unfinished", 1)
	default:
		c.Count("reject_rule", 1)
	}
}

func brokenDate(r *rand.Rand, i int) string {
	switch i % 4 {
	case 0: // digits of a wrong length
		n := 1 + r.IntN(20)
		s := strconv.Itoa(1 + r.IntN(9))
		for len(s) < n {
			s += strconv.Itoa(r.IntN(10))
		}
		return "'" + s + "'"
	case 1: // a field out of range
		f := []int{2020, 1 + r.IntN(12), 1 + r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60)}
		k := 1 + r.IntN(5)
		f[k] = []int{0, 13 + r.IntN(87), 32 + r.IntN(68), 24 + r.IntN(76), 60 + r.IntN(40), 60 + r.IntN(40)}[k]
		return fmt.Sprintf("'%04d%02d%02d%02d%02d%02d'", f[0], f[1], f[2], f[3], f[4], f[5])
	case 2: // a day the month has not
		y := 1900 + r.IntN(200)
		m := 1 + r.IntN(12)
		return fmt.Sprintf("'%04d%02d%02d'", y, m, 29+r.IntN(4))
	default:
		return pickS(r, "1.2.3", "1..", "1.5.", "12а", "1_", "0х1F", "1.5е3", "1e5", "3Если", "''", "'текст'", "' '", "'.'")
	}
}

// ---- C20: the offending token is named ----

var posRe = regexp.MustCompile(`(?s)line: (\d+), column: (\d+) \(unexpected literal: (".*")\)$`)

func wantPosition(c *mon.Ctx, src string, r *ref.Result) {
	if r.LexErr != nil || !r.Syntax || r.Unspec || len(r.Toks) == 0 {
		return
	}
	c.Eval(1)
	_, err := parse(c, src)
	if err == nil {
		c.Fail(src, "accepted although %s", rejectReason(r))
	}
	k := r.ErrTok
	if k == len(r.Toks) {
		k--
		c.Count("end_of_text", 1)
	}
	t := r.Toks[k]
	line, col := lexref.LineCol(src, t.Start)
	m := posRe.FindStringSubmatch(err.Error())
	if m == nil {
		c.Fail(src, "the message names no position: %q; want line %d, column %d, literal %q", err.Error(), line, col, t.Lit)
	}
	lit, uerr := strconv.Unquote(m[3])
	if uerr != nil {
		c.Fail(src, "unreadable literal in %q", err.Error())
	}
	if m[1] != strconv.Itoa(line) || m[2] != strconv.Itoa(col) || lit != t.Lit {
		c.Fail(src, "message %q; want line: %d, column: %d, literal %q", err.Error(), line, col, t.Lit)
	}
	c.Count("positions_checked", 1)
	if line > 1 {
		c.Count("not_on_first_line", 1)
	}
	c.Count("at_"+kindClass(t.Kind), 1)
}

func kindClass(k lexref.Kind) string {
	switch k {
	case lexref.Ident, lexref.Number, lexref.String, lexref.Date, lexref.Label, lexref.Directive:
		return string(k)
	}
	if lexref.IsKeyword(string(k)) {
		return "keyword"
	}
	return "punctuation"
}

func init() {
	groups := []mon.Group{
		{Name: "token-edits", Quick: 150000, Deep: 8000000, Run: func(c *mon.Ctx, i int) {
			toks := mutateTokens(c.R, gen.Unparse(c.R, gen.Wild(c.R), smallModule(c.R)))
			src, _ := gen.Render(c.R, gen.RandLayout(c.R), toks)
			r := ref.Parse(src)
			wantPosition(c, src, r)
			if r.Syntax && !r.Unspec {
				c.Seen(src)
				if r.ErrTok < len(r.Toks) {
					c.Sample("%q at %q", src, r.Toks[r.ErrTok].Lit)
				}
			}
		}},
		{Name: "far", Quick: 200, Deep: 3000, Run: func(c *mon.Ctx, i int) {
			big := largeModule(c.R, c.R.IntN(40))
			if !strings.HasSuffix(big, ";") && !strings.HasPrefix(big, "Перем") {
				big += ";"
			}
			bad := pickS(c.R, ")", "= 5", "х = ;", "КонецЕсли", ") х", "Иначе", "\n\n\t\"ф\n|г\" х", "х = '20200101' '20200101'", "~м ~н", "&НаСервере х")
			src := big + strings.Repeat("\n", c.R.IntN(4)) + strings.Repeat(" ", c.R.IntN(300)) + pickS(c.R, "", "// ком\n", "\n#Область х\r\n", "х = \"а\n|б\n // к\n |в\";") + bad + pickS(c.R, "", "\n", " ; х = 1;")
			r := ref.Parse(src)
			wantPosition(c, src, r)
			c.Seen(src)
		}},
	}
	groups = append(groups, enumGroups(func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Syntax {
			wantPosition(c, src, r)
			c.Seen(src)
		}
	})...)
	register(&mon.Check{ID: "C20", Groups: groups,
		Rule:        "generated modules with one or two token edits in random layouts, faults behind long texts, and every viable token prefix with every wrong next token per context; expected position from an independent viable-prefix reference parser and tokeniser; non-trivial: distinct text with a syntax error",
		Assumptions: []string{"texts with tokeniser errors or forms the language leaves open are not judged"},
		MinCounts:   map[string]int64{"positions_checked": 10000, "not_on_first_line": 1000, "end_of_text": 500, "at_string": 50, "at_date": 20, "at_label": 20, "at_number": 50}})
}
