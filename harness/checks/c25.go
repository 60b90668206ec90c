package checks

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"

	"verif/gen"
	"verif/lexref"
	"verif/mon"
	"verif/ref"
)

// ---- C25: broken rules are explained ----

var rulePhrase = map[string]string{
	"break outside a loop":                     "inside a loop",
	"continue outside a loop":                  "inside a loop",
	"throw without argument outside a handler": "handling an exception",
	"value returned outside a function":        "cannot return a value",
	"duplicate local variable":                 "already been defined",
	"duplicate module variable":                "already been defined",
	"module variable after a routine":          "beginning of the module",
	"colon after a statement":                  "semicolon",
}

// wantExplanation judges a text whose only faults are broken rules.
func wantExplanation(c *mon.Ctx, src string, r *ref.Result) {
	if r.LexErr != nil || r.Syntax || r.Unspec || len(r.Faults) == 0 {
		return
	}
	c.Eval(1)
	_, err := parse(c, src)
	if err == nil {
		c.Fail(src, "accepted although there is a %s", r.Sem)
	}
	msg := err.Error()
	why := ""
	for _, f := range r.Faults {
		phrase, ok := rulePhrase[f.Rule]
		if !ok {
			panic("no phrase for " + f.Rule)
		}
		if w := explains(src, msg, r, f, phrase); w == "" {
			c.Count("explained_"+strings.ReplaceAll(f.Rule, " ", "_"), 1)
			if len(r.Faults) == 1 {
				c.Count("single_faults", 1)
			}
			if f.From > 0 && strings.Contains(src[:r.Toks[f.From].Start], "\n") {
				c.Count("not_on_first_line", 1)
			}
			return
		} else if why == "" || len(w) > len(why) {
			why = w
		}
	}
	c.Fail(src, "%d broken rules, the first is a %s; the message is %q: %s", len(r.Faults), r.Sem, msg, why)
}

func explains(src, msg string, r *ref.Result, f ref.Fault, phrase string) string {
	said := msg // without the place and its literal
	if at := posRe.FindStringIndex(msg); at != nil {
		said = msg[:at[0]] + " " + msg[at[1]:]
	}
	if !strings.Contains(said, phrase) {
		return fmt.Sprintf("it does not say %q", phrase)
	}
	if f.Name != "" && f.Rule != "module variable after a routine" && !strings.Contains(said, strconv.Quote(f.Name)) {
		return fmt.Sprintf("it does not name %q", f.Name)
	}
	m := posRe.FindStringSubmatch(msg)
	if m == nil {
		return "it names no position"
	}
	lit, err := strconv.Unquote(m[3])
	if err != nil {
		return "its literal cannot be read"
	}
	for k := f.From; k <= f.To && k < len(r.Toks); k++ {
		t := r.Toks[k]
		if line, col := lexref.LineCol(src, t.Start); m[1] == strconv.Itoa(line) && m[2] == strconv.Itoa(col) && lit == t.Lit {
			return ""
		}
	}
	line, col := lexref.LineCol(src, r.Toks[f.From].Start)
	to := min(f.To, len(r.Toks)-1)
	tl, tc := lexref.LineCol(src, r.Toks[to].Start)
	return fmt.Sprintf("want line, column and literal of a token from %d:%d to %d:%d", line, col, tl, tc)
}

func explain(c *mon.Ctx, src string) {
	r := ref.Parse(src)
	wantExplanation(c, src, r)
	if len(r.Faults) > 0 && !r.Syntax && r.LexErr == nil && !r.Unspec {
		c.Seen(src)
		c.Sample("%q: %s", clip(src, 200), r.Sem)
	}
}

// plantFault puts one statement or declaration that breaks a rule into a well-formed token list.
func plantFault(r *rand.Rand, toks []gen.Tok) []gen.Tok {
	var piece []gen.Tok
	tok := func(s ...string) {
		for _, x := range s {
			piece = append(piece, gen.Tok{Text: x, Word: !strings.Contains(",=+:;", x)})
		}
	}
	switch r.IntN(6) {
	case 0:
		tok(gen.RandCase(r, "Прервать"))
	case 1:
		tok(gen.RandCase(r, "Продолжить"))
	case 2:
		tok(gen.RandCase(r, "ВызватьИсключение"))
	case 3:
		tok(gen.RandCase(r, "Возврат"))
		piece = append(piece, gen.Unparse(r, gen.Wild(r), kindTrees()[r.IntN(len(kindTrees()))])...)
	case 4:
		tok("Перем", "а"+fmt.Sprint(r.IntN(3)), ",", "б", ",", gen.RandCase(r, "а"+fmt.Sprint(r.IntN(3))))
	case 5:
		tok("а", "=", "1", ":", "б", "=", "2")
	}
	var at []int
	for k, t := range toks {
		switch strings.ToLower(t.Text) {
		case ";", "тогда", "цикл", "иначе", "попытка", "исключение", ")", "экспорт":
			at = append(at, k+1)
		}
	}
	at = append(at, 0)
	k := at[r.IntN(len(at))]
	if k > 0 && toks[k-1].Text == ";" || k == 0 {
		tokTail := append([]gen.Tok{}, piece...)
		piece = append(tokTail, gen.Tok{Text: ";", Kind: "sep"})
	} else {
		piece = append(piece, gen.Tok{Text: ";", Kind: "sep"})
	}
	out := append([]gen.Tok{}, toks[:k]...)
	out = append(out, piece...)
	return append(out, toks[k:]...)
}

func init() {
	groups := []mon.Group{
		{Name: "planted", Quick: 120000, Deep: 5000000, Run: func(c *mon.Ctx, i int) {
			toks := plantFault(c.R, gen.Unparse(c.R, gen.Wild(c.R), smallModule(c.R)))
			if c.R.IntN(4) == 0 {
				toks = plantFault(c.R, toks)
			}
			src, _ := gen.Render(c.R, gen.RandLayout(c.R), toks)
			explain(c, src)
		}},
		{Name: "jumps", Quick: 40000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			j := &jumpy{r: c.R, budget: 3 + c.R.IntN(20), rate: 5 + c.R.IntN(20)}
			m := gen.ModuleOf("")
			for n := c.R.IntN(4); n > 0; n-- {
				r := gen.ModuleOf([]string{"proc", "func"}[c.R.IntN(2)], j.block(1+c.R.IntN(4)).Kids...).Kids[1]
				r.Text = fmt.Sprintf("Р%d", n)
				m.Kids = append(m.Kids, r)
			}
			m.Kids = append(m.Kids, j.block(1+c.R.IntN(4)).Kids...)
			src, _ := gen.Render(c.R, gen.RandLayout(c.R), gen.Unparse(c.R, gen.Wild(c.R), spice(c.R, m)))
			explain(c, src)
		}},
		{Name: "nests", Quick: 1 + 8 + 64 + 512, Deep: 1 + 8 + 64 + 512, Run: func(c *mon.Ctx, i int) {
			path := nestPath(i)
			for jk := 0; jk < 4; jk++ {
				for pos := 0; pos <= len(path)*3; pos++ {
					for _, kind := range []string{"", "proc", "func"} {
						explain(c, gen.Full(c.R, gen.ModuleOf(kind, placeJump(path, pos, jk).Kids...)))
					}
				}
			}
		}},
		{Name: "declarations", Quick: 40000, Deep: 2000000, Run: func(c *mon.Ctx, i int) {
			names := declNames(c.R, 1+c.R.IntN(12))
			for n := 1 + c.R.IntN(2); n > 0; n-- {
				names = append(names, gen.RandCase(c.R, names[c.R.IntN(len(names))]))
			}
			if c.R.IntN(2) == 0 {
				c.R.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
			}
			before := ""
			if c.R.IntN(2) == 0 {
				before = goodText(c.R, 10)
				if k := strings.LastIndexAny(before, ";"); k >= 0 && c.R.IntN(2) == 0 {
					before += "\n"
				}
			}
			switch c.R.IntN(4) {
			case 0:
				explain(c, declText(c.R, names, true, c.R.IntN(100))+pickS(c.R, "", "х = 1;", "Процедура П() КонецПроцедуры", "&НаКлиенте Функция Ф() КонецФункции"))
			case 1:
				explain(c, declText(c.R, names[:1], true, 50)+"Процедура П() КонецПроцедуры\n"+declText(c.R, names[1:2], true, 50)+pickS(c.R, "", "х = 1;", "Функция Ф() КонецФункции"))
			case 2:
				explain(c, pickS(c.R, "", "Перем м;\n", "Функция Ф0()\nВозврат \"а\n|б\";\nКонецФункции\n", "// ком\r\n#Область Р\r\n")+"Процедура П()\n"+declText(c.R, names, false, c.R.IntN(100))+pickS(c.R, "", "х = 1;")+"КонецПроцедуры"+pickS(c.R, "", " Функция Ф() Перем а; КонецФункции", "\nх = 1;"))
			case 3:
				explain(c, before+"\nФункция Ф(п)"+declText(c.R, names, false, c.R.IntN(100))+"КонецФункции;")
			}
		}},
		{Name: "far", Quick: 300, Deep: 3000, Run: func(c *mon.Ctx, i int) {
			big := largeModule(c.R, c.R.IntN(40))
			if !strings.HasSuffix(big, ";") && !strings.HasPrefix(big, "Перем") {
				big += ";"
			}
			bad := pickS(c.R, "Прервать", "продолжить", "ВЫЗВАТЬИСКЛЮЧЕНИЕ", "Возврат 'а'", "Возврат \"а\n|б\"", "Возврат 1", "а = 1 : б = 2", "Пока а Цикл Прервать; КонецЦикла; Прервать", "Попытка ВызватьИсключение; Исключение КонецПопытки")
			explain(c, big+strings.Repeat("\n", c.R.IntN(4))+strings.Repeat(" ", c.R.IntN(300))+pickS(c.R, "", "// ком\n", "\n#Область х\r\n", "х = \"а\n|б\n // к\n |в\";")+bad+pickS(c.R, "", "\n", " ; х = 1;"))
		}},
	}
	groups = append(groups, enumGroupsOf(func(c *mon.Ctx, src string, r *ref.Result) {
		if len(r.Faults) > 0 {
			wantExplanation(c, src, r)
			c.Seen(src)
		}
	}, "loop", "try", "nest", "allfunc", "module", "locals", "label")...)
	register(&mon.Check{ID: "C25", Groups: groups,
		Rule:        "modules whose only faults are broken rules: one or two faulty statements planted into generated modules in random layouts, all nests of blocks with every jump, random jump-filled modules, repeated and misplaced declarations, faults behind long texts, enumerated token sequences; the message must state the rule of one of the faults, quote its operator or variable, and give the place and literal of one of its tokens (or the next), all from an independent parser; distinct: texts",
		Assumptions: []string{"with several faults in one module, explaining any one of them is enough; texts with a syntax or tokeniser error besides are not judged"},
		MinCounts:   map[string]int64{"single_faults": 20000, "not_on_first_line": 5000}})
	addGroup("C25", sizedGroup("sizes", 200000, big, func(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) { wantExplanation(c, src, r) }, "jumps", "dups"))
}
