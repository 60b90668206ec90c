package checks

import (
	"context"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/mon"
)

// ---- C01: total on any input ----

// exercise drives every entry point on one text; a panic, crash or hang is seen by the driver.
func exercise(c *mon.Ctx, src string, print bool) { exerciseN(c, src, print, true) }

func exerciseN(c *mon.Ctx, src string, print, small bool) {
	c.Eval(1)
	c.Doing(src)
	steps := tokenSteps(c, src)
	c.Count("tokens_read", steps)
	a, err := parse(c, src)
	if err != nil {
		c.Count("parse_errors", 1)
		_ = err.Error()
	} else {
		c.Count("parse_successes", 1)
	}
	if j, err := a.JSON(); err == nil {
		c.Count("json_bytes", len(j))
	}
	visited := 0
	a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { visited++ })
	c.Count("statements_walked", visited)
	if print {
		confs := []ast.PrintConf{{}, {OneLine: true}}
		if small {
			confs = append(confs, randConf(c.R), ast.PrintConf{Margin: 1 + c.R.IntN(200), OneLine: c.R.IntN(2) == 0})
		}
		for _, conf := range confs {
			c.Count("printed_bytes", len(a.Print(conf)))
		}
		stmts, _ := blockStatements(a)
		if !small {
			for n := 0; n < 3 && len(stmts) > 0; n++ {
				a.PrintStatementWithConf(stmts[c.R.IntN(len(stmts))], ast.PrintConf{Margin: n / 2, OneLine: n%2 == 0})
			}
			stmts = nil
		}
		for k, s := range stmts {
			if k > 20 && c.R.IntN(len(stmts)) > 20 {
				continue
			}
			a.PrintStatement(s)
			a.PrintStatementWithConf(s, randConf(c.R))
		}
		if small && len(a.ModuleStatement.Body) > 0 {
			a.PrintStatement(a.ModuleStatement.Body[0])
		}
		a.PrintStatement(nil)
	}
	if len(src) < 4096 {
		c.Seen(src)
	}
	c.Count("inputs", 1)
	if !utf8.ValidString(src) {
		c.Count("inputs_not_utf8", 1)
	}
}

type srcText string

func (s srcText) SrsCode() string { return string(s) }

// tokenSteps reads all tokens; more calls than bytes plus one means no progress.
func tokenSteps(c *mon.Ctx, src string) int {
	var t ast.Token
	for n := 1; ; n++ {
		k, err := t.Next(srcText(src))
		if k == ast.EOF && err == nil {
			return n
		}
		if n > len(src) {
			c.Fail(src, "reading tokens: %d calls for %d bytes and no end of input yet", n, len(src))
		}
	}
}

var byteAlphabets = []string{
	"\"'|\n /#.~&<>=();,:?[]+-*%09аЁяz_\r\t",
	"\"\n|/ \"",
	"'0123456789 '-:",
	"\x00\x80\xbf\xc0\xc1\xc3\xd0\xd1\xdf\xe0\xed\xa0\xef\xbb\xbf\xf0\x9f\xf4\x90\xff\"а\n ",
	"&~._09аА \n",
	"//#\n\r аб;",
}

var soup = append(append([]string{}, junkTokens...), "\n", "\n", "//к\n", "#Область\n", "\"\n|", "\"\"", "'", "\"", "|", "\xd0", "\xff", "\ufeff", "\u00a0", "$", "1.2.3", "5а", "''", "'2021'", "'20211331'", "'00000000'", "1e5", "~", "&", "..", "!", "\x00")

func randomBytes(r *rand.Rand) string {
	n := r.IntN(40)
	if r.IntN(5) == 0 {
		n = r.IntN(400)
	}
	b := make([]byte, 0, n)
	mode := r.IntN(len(byteAlphabets) + 1)
	for len(b) < n {
		if mode == len(byteAlphabets) {
			b = append(b, byte(r.UintN(256)))
			continue
		}
		s := byteAlphabets[mode]
		if r.IntN(30) == 0 {
			b = append(b, byte(r.UintN(256)))
		}
		if mode == 3 || r.IntN(8) == 0 {
			b = append(b, s[r.IntN(len(s))])
		} else {
			rs := []rune(s)
			b = utf8.AppendRune(b, rs[r.IntN(len(rs))])
		}
	}
	return string(b)
}

func tokenSoup(r *rand.Rand) string {
	var b strings.Builder
	for n := r.IntN(60); n > 0; n-- {
		b.WriteString(soup[r.IntN(len(soup))])
		if r.IntN(4) > 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

// mutateBytes spoils a text at byte level.
func mutateBytes(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.IntN(4); n > 0 && len(b) > 0; n-- {
		i := r.IntN(len(b))
		switch r.IntN(8) {
		case 0:
			b[i] ^= 1 << r.IntN(8)
		case 1:
			b[i] = byte(r.UintN(256))
		case 2:
			k := min(len(b), i+1+r.IntN(12))
			b = append(b[:i:i], b[k:]...)
		case 3:
			b = b[:i]
		case 4:
			k := min(len(b), i+1+r.IntN(60))
			b = append(b[:k:k], append(append([]byte{}, b[i:k]...), b[k:]...)...)
		case 5:
			b = append(b[:i:i], append([]byte(soup[r.IntN(len(soup))]), b[i:]...)...)
		case 6:
			al := byteAlphabets[r.IntN(len(byteAlphabets))]
			b = append(b[:i:i], append([]byte{al[r.IntN(len(al))]}, b[i:]...)...)
		default:
			k := r.IntN(len(b))
			lo, hi := min(i, k), max(i, k)
			b = append(append([]byte{}, b[hi:]...), b[lo:]...)
		}
	}
	return string(b)
}

// nest makes a text nested n deep in one construct; ok ones are well formed.
var nestKinds = []struct {
	name        string
	pre, up     string
	mid         string
	down, after string
}{
	{"parens", "х = ", "(", "1", ")", ";"},
	{"if", "", "Если а Тогда ", "", "КонецЕсли;", ""},
	{"else", "", "Если а Тогда Иначе ", "", "КонецЕсли;", ""},
	{"elseif", "Если а Тогда ", "ИначеЕсли б Тогда ", "х = 1;", "", "КонецЕсли;"},
	{"while", "", "Пока а Цикл ", "Прервать;", "КонецЦикла;", ""},
	{"for", "", "Для а = 1 По 2 Цикл ", "Продолжить;", "КонецЦикла;", ""},
	{"each", "", "Для Каждого а Из б Цикл ", "", "КонецЦикла;", ""},
	{"try", "", "Попытка ", "", "Исключение ВызватьИсключение КонецПопытки;", ""},
	{"catch", "", "Попытка Исключение ", "ВызватьИсключение;", "КонецПопытки;", ""},
	{"sum", "х = 1", " + б", "", "", ";"},
	{"power", "х = ", "б - (", "1", ")", ";"},
	{"minus", "х = ", "-", "б", "", ";"},
	{"minusnum", "х = ", "-", "5", "", ";"},
	{"not", "х = ", "Не ", "б", "", ";"},
	{"nottrue", "х = ", "Не ", "Истина", "", ";"},
	{"call", "х = ", "ф(", "1", ")", ";"},
	{"callstm", "", "ф(", "", ")", ";"},
	{"chain", "х = а", ".б", "", "", ";"},
	{"chaincall", "х = а", ".б()", "", "", ";"},
	{"index", "х = ", "м[", "1", "]", ";"},
	{"indices", "х = м", "[1]", "", "", ";"},
	{"ternary", "х = ", "?(а, ", "1", ", 2)", ";"},
	{"new", "х = ", "Новый Т(", "1", ")", ";"},
	{"newcall", "х = ", "Новый(", "\"Т\"", ")", ";"},
	{"statements", "", "а = 1;", "", "", ""},
	{"empty", "", ";", "", "", ""},
	{"args", "ф(1", ", 2", "", "", ");"},
	{"noargs", "ф(", ",", "", "", ");"},
	{"labels", "", "~м: Перейти ~м;", "", "", ""},
	{"routines", "", "Процедура П() Экспорт Возврат; КонецПроцедуры ", "", "", ""},
	{"throw", "", "ВызватьИсключение 1;", "", "", ""},
	{"strings", "х = ", "\"а\" ", "", "", ";"},
	{"lines", "х = \"", "\n|б", "", "", "\";"},
	{"exec", "", "Выполнить(\"а\");", "", "", ""},
	{"params", "Процедура П(а", ", Знач б = 1", "", "", ") КонецПроцедуры"},
	{"locals", "Процедура П() Перем а", ", б", "", "", "; КонецПроцедуры"},
	{"regions", "", "#Если\n", "х = 1;", "", ""},
	{"comments", "", "//\n", "х = 1;", "", ""},
	{"mixed", "", "//\n#\n", "х = 1;", "", ""},
	{"strcomments", "х = \"а\n", "//\n", "|", "", "\";"},
	{"blank", "", "\r\n\t ", "х = 1;", "", ""},
	{"name", "", "Ё", " = 1;", "", ""},
	{"number", "х = 1", "0", "", "", ";"},
	{"fraction", "х = 1.", "3", "", "", ";"},
	{"dots", "х = 1", ".", "", "", ";"},
	{"string", "х = \"", "ж", "", "", "\";"},
	{"quotes", "х = \"", "\"\"", "", "", "\";"},
	{"date", "х = '", "0", "", "", "';"},
	{"datejunk", "х = '2020", "-", "0101", "", "';"},
	{"label", "~", "м", ":", "", ""},
	{"directive", "&На", "К", "", "", ""},
	{"bad", "", "\xff", "", "", ""},
	{"badstr", "х = \"", "\xd0", "", "", "\";"},
	{"openquotes", "", "\"", "", "", ""},
	{"apostrophes", "", "'", "", "", ""},
	{"amps", "", "&", "", "", ""},
	{"tildes", "", "~", "", "", ""},
	{"ops", "х = ", "<", "", "", ""},
	{"commas", "Перем ", "а, ", "б", "", ";"},
}

func nestText(i, n int, cut int) string {
	k := nestKinds[i%len(nestKinds)]
	s := k.pre + strings.Repeat(k.up, n) + k.mid
	switch cut {
	case 0:
		s += strings.Repeat(k.down, n) + k.after
	case 1: // unfinished
	case 2: // half closed
		s += strings.Repeat(k.down, n/2)
	case 3: // closed too often
		s += strings.Repeat(k.down, n+1) + k.after
	}
	return s
}

// deepProbe runs in a process of its own: kind:n:operation.
func deepProbe(spec string) {
	f := strings.Split(spec, ":")
	var kind, n int
	fmt.Sscan(f[0], &kind)
	fmt.Sscan(f[1], &n)
	out := os.Stdout
	a := ast.NewAST(nestText(kind, n, 0))
	err := a.Parse()
	switch f[2] {
	case "parse":
		fmt.Fprintln(out, "done", err == nil)
	case "walk":
		a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {})
		fmt.Fprintln(out, "done", err == nil)
	case "JSON":
		_, jerr := a.JSON()
		fmt.Fprintln(out, "done", err == nil, jerr == nil)
	}
}

// runDeep runs one probe and reports how it ended.
func runDeep(kind, n int, op string) (ok bool, how string) {
	ctx, cancel := context.WithTimeout(context.Background(), 4*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "-probe", fmt.Sprintf("deep:%d:%d:%s", kind, n, op))
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err == nil && strings.HasPrefix(string(out), "done") {
		return true, strings.TrimSpace(string(out))
	}
	if strings.Contains(errb.String(), "stack overflow") {
		return false, "stack overflow"
	}
	return false, fmt.Sprintf("%v %s", err, clip(errb.String(), 1500))
}

func init() {
	mod := func(c *mon.Ctx) string {
		cfg := cfgFor(c.R)
		cfg.Budget = min(cfg.Budget, 200)
		return gen.Full(c.R, gen.New(c.R, cfg).Module())
	}
	var enumAlpha = []string{"\"", "'", "|", "\n", " ", "/", "#", ".", "~", "&", "<", ">", "=", "(", ")", ";", ",", ":", "?", "[", "]", "-", "1", "а", "\xd0", "\xff", "\x00", "\r", "не ", "если ", "и ", "$", "\u00a0", "%", "*", "+"}
	groups := []mon.Group{
		{Name: "short", Quick: 36 + 36*36, Deep: 36 + 36*36, Run: func(c *mon.Ctx, i int) {
			// every sequence of up to four pieces of the alphabet
			n := len(enumAlpha)
			if i < n {
				exercise(c, enumAlpha[i], true)
				return
			}
			p := enumAlpha[(i-n)%n] + enumAlpha[(i-n)/n%n]
			exercise(c, p, true)
			for _, x := range enumAlpha {
				exercise(c, p+x, true)
				exercise(c, "а="+p+x, true)
				if c.Tier == "thorough" {
					for _, y := range enumAlpha {
						exercise(c, p+x+y, true)
						exercise(c, "а="+p+x+y, true)
					}
				}
			}
		}},
		{Name: "all-bytes", Quick: 256, Deep: 256, Run: func(c *mon.Ctx, i int) {
			b := string([]byte{byte(i)})
			for _, f := range []string{"%s", "а%s", "%sа", "а = %s;", "а = \"%s\";", "а = '%s';", "а = '20200101%s';", "//%s", "//%s\nа=1", "#%s", "а.%s", "~%s:", "&%s", "&НаКлиенте%s", "1%s", "Если%s", "\"%s", "а = \"б\n%s\"", "а=1;%s", "Процедура П()%s"} {
				exercise(c, fmt.Sprintf(f, b), true)
			}
			for k := 0; k < 256; k++ {
				exercise(c, b+string([]byte{byte(k)}), false)
			}
		}},
		{Name: "bytes", Quick: 60000, Deep: 8000000, Run: func(c *mon.Ctx, i int) {
			s := randomBytes(c.R)
			exercise(c, s, true)
			c.Sample("%q", s)
		}},
		{Name: "soup", Quick: 60000, Deep: 8000000, Run: func(c *mon.Ctx, i int) {
			s := tokenSoup(c.R)
			exercise(c, s, true)
			c.Sample("%q", s)
		}},
		{Name: "mutated", Quick: 40000, Deep: 4000000, Run: func(c *mon.Ctx, i int) {
			s := mutateBytes(c.R, mod(c))
			if i%5 == 0 {
				s = s + mod(c)
			}
			exercise(c, s, true)
		}},
		{Name: "broken-tokens", Quick: 30000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 100)
			toks := gen.Unparse(c.R, gen.Wild(c.R), gen.New(c.R, cfg).Module())
			for n := 1 + c.R.IntN(4); n > 0; n-- {
				toks = mutateTokens(c.R, toks)
			}
			s, _ := gen.Render(c.R, gen.RandLayout(c.R), toks)
			exercise(c, s, true)
		}},
		{Name: "prefixes", Quick: 150, Deep: 5000, Run: func(c *mon.Ctx, i int) {
			cfg := cfgFor(c.R)
			cfg.Budget = min(cfg.Budget, 60)
			s := gen.Full(c.R, gen.New(c.R, cfg).Module())
			if len(s) > 2500 {
				s = s[:2500]
			}
			for k := 0; k <= len(s); k++ {
				exercise(c, s[:k], k%3 == 0)
			}
			for k := 0; k <= len(s); k += 7 {
				exercise(c, s[k:], false)
			}
		}},
		{Name: "declarations", Quick: 6000, Deep: 300000, Run: func(c *mon.Ctx, i int) {
			// declaration errors, after which parsing goes on
			names := []string{"а", "А", "б", "Б", "в"}
			var b strings.Builder
			for n := c.R.IntN(5); n > 0; n-- {
				b.WriteString(declText(c.R, []string{pickS(c.R, names...), pickS(c.R, names...)}, true, 50))
			}
			for n := c.R.IntN(4); n > 0; n-- {
				b.WriteString("Процедура П() ")
				for k := c.R.IntN(5); k > 0; k-- {
					b.WriteString(declText(c.R, []string{pickS(c.R, names...), pickS(c.R, names...), pickS(c.R, names...)}, false, 50))
				}
				b.WriteString(pickS(c.R, "", "х = 1;", "Прервать;", "Возврат 1;", "ВызватьИсключение;", "Перем д;") + " КонецПроцедуры ")
				if c.R.IntN(4) == 0 {
					b.WriteString("х = 1; ")
				}
				if c.R.IntN(4) == 0 {
					b.WriteString(declText(c.R, []string{pickS(c.R, names...)}, true, 50))
				}
			}
			exercise(c, b.String(), true)
		}},
		{Name: "nested", Quick: len(nestKinds) * 4 * 6, Deep: len(nestKinds) * 4 * 6, Run: func(c *mon.Ctx, i int) {
			kind, cut, size := i%len(nestKinds), i/len(nestKinds)%4, i/len(nestKinds)/4
			n := []int{1, 15, 255, 1000, 20000, 100000}[size]
			s := nestText(kind, n, cut)
			exerciseN(c, s, n <= 1000, n <= 300)
			c.Count("nested_levels", n)
		}},
		{Name: "long", Quick: len(nestKinds), Deep: len(nestKinds), Run: func(c *mon.Ctx, i int) {
			// megabytes of one thing
			exercise(c, nestText(i, 400000, c.R.IntN(2)), false)
		}},
		{Name: "huge", Quick: 5, Deep: 10, Run: func(c *mon.Ctx, i int) {
			// tens of megabytes of lines that are not code: nothing may grow with their number
			var s string
			const n = 30000000
			switch i % 5 {
			case 0:
				s = strings.Repeat("//\n", n) + "х = 1;"
			case 1:
				s = strings.Repeat("#\n", n) + "х = 1;"
			case 2:
				s = "х = 1" + strings.Repeat("\n//\n#", n/2) + "\n; у = 2;"
			case 3:
				s = "х = \"а\n" + strings.Repeat("//\n", n) + "|б\";"
			default:
				s = strings.Repeat(" \n", n) + "х = 1;"
			}
			c.Eval(1)
			a := ast.NewAST(s)
			c.Doing("(" + clip(s, 60) + "… " + fmt.Sprint(len(s)) + " bytes)")
			if err := a.Parse(); err != nil {
				c.Fail("", "a long well-formed text is rejected: %v", err)
			}
			c.Count("huge_bytes", len(s))
			c.Count("inputs", 1)
		}},
		{Name: "deepest", Quick: 7 * 3, Deep: 7 * 3, Run: func(c *mon.Ctx, i int) {
			// a million levels, each operation in a process of its own
			name := []string{"parens", "sum", "minus", "if", "index", "ternary", "while"}[i%7]
			op := []string{"parse", "walk", "JSON"}[i/7]
			for k := range nestKinds {
				if nestKinds[k].name != name {
					continue
				}
				c.Eval(1)
				ok, how := runDeep(k, 1000000, op)
				c.Count("deepest_runs", 1)
				if !ok {
					c.FailKey(fmt.Sprintf("%s/1000000x%s/%s", op, name, strings.ReplaceAll(clip(how, 60), " ", "-")), nestText(k, 3, 0),
						"a text nested a million levels deep (like the one shown) does not survive %s: %s", op, how)
				}
				c.Count("deepest_survived", 1)
			}
		}},
	}
	register(&mon.Check{ID: "C01", Groups: groups, Hang: 45 * time.Second,
		Rule:        "random bytes, token soup, byte- and token-level corruption of generated modules, every prefix of modules, declaration errors, every nesting construct to 100000 levels closed and unclosed (a million in separate processes), megabytes of every lexical element, every byte value in many places; each text goes through Token.Next, Parse, JSON, Walk, Print and PrintStatement under a watchdog for panics, fatal errors, CPU time and memory; non-trivial: distinct text shorter than 4 KiB",
		Assumptions: []string{"Print is driven to nesting depth 1000 (its time is quadratic in the depth)", "texts up to about 100 MB"},
		MinCounts:   map[string]int64{"inputs": 100000, "inputs_not_utf8": 5000, "parse_errors": 20000, "parse_successes": 5000}})
}
