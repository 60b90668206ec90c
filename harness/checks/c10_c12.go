package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"verif/gen"
	"verif/lexref"
	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// ---- C10: where jumps may stand ----

// legality is what the context rules say about a tree: why it is illegal ("" when legal), and
// whether it holds a form the rules leave open.
type legality struct {
	why  string
	open bool
	seen int // jumps judged
}

func (l *legality) bad(why string) {
	if l.why == "" {
		l.why = why
	}
}

func (l *legality) walk(n *tree.Node, fn, loop, handler, tryIn int) {
	switch n.Kind {
	case "func":
		l.walk(n.Kids[4], 2, 0, 0, 0)
		return
	case "proc":
		l.walk(n.Kids[4], 1, 0, 0, 0)
		return
	case "break", "continue":
		l.seen++
		if loop == 0 {
			l.bad("Прервать or Продолжить stands outside of any loop")
		}
		return
	case "return":
		l.seen++
		if n.Kids[0].Kind != "none" {
			if fn != 2 {
				l.bad("Возврат with a value stands outside of functions")
			}
		} else if fn != 1 {
			l.open = true
		}
		return
	case "throw":
		if n.Kids[0].Kind == "none" {
			l.seen++
			if handler == 0 {
				l.bad("ВызватьИсключение without an argument stands outside of any Исключение part")
			} else if tryIn > 0 {
				l.open = true
			}
		}
		return
	case "while":
		l.walk(n.Kids[1], fn, loop+1, handler, tryIn)
		return
	case "for":
		l.walk(n.Kids[2], fn, loop+1, handler, tryIn)
		return
	case "foreach":
		l.walk(n.Kids[1], fn, loop+1, handler, tryIn)
		return
	case "try":
		t := tryIn
		if handler > 0 {
			t++
		}
		l.walk(n.Kids[0], fn, loop, handler, t)
		l.walk(n.Kids[1], fn, loop, handler+1, 0)
		return
	}
	for _, k := range n.Kids {
		l.walk(k, fn, loop, handler, tryIn)
	}
}

func judgeRules(c *mon.Ctx, m *tree.Node) {
	var l legality
	l.walk(m, 0, 0, 0, 0)
	if l.open {
		c.Count("open_forms_skipped", 1)
		return
	}
	if c.R.IntN(2) == 0 {
		m = spice(c.R, m)
	}
	src := gen.Full(c.R, m)
	if l.why == "" {
		wantTree(c, src, tree.Fold(m.Clone()))
		c.Count("legal_accepted", 1)
	} else {
		wantReject(c, src, l.why)
		c.Count("illegal_rejected", 1)
	}
	c.Count("jumps_judged", l.seen)
	c.Seen(src)
	c.Sample("%q", src)
}

// ways to wrap a block: kind of block and which part of it.
var wrapKinds = 8

func wrapIn(k int, b *tree.Node, other *tree.Node) *tree.Node {
	v := tree.N("var", "у")
	blk := func() *tree.Node {
		if other == nil {
			return tree.N("block", "")
		}
		return other.Clone()
	}
	switch k {
	case 0:
		return tree.N("if", "", v, b, tree.N("elifs", ""), blk())
	case 1:
		return tree.N("if", "", v, blk(), tree.N("elifs", "", tree.N("elif", "", v, b)), tree.N("block", ""))
	case 2:
		return tree.N("if", "", v, blk(), tree.N("elifs", ""), b)
	case 3:
		return tree.N("while", "", v, b)
	case 4:
		return tree.N("for", "", tree.N("bin", "=", v, v), v, b)
	case 5:
		return tree.N("foreach", "э", v, b)
	case 6:
		return tree.N("try", "", b, blk())
	}
	return tree.N("try", "", blk(), b)
}

func jump(k int) *tree.Node {
	switch k {
	case 0:
		return tree.N("break", "")
	case 1:
		return tree.N("continue", "")
	case 2:
		return tree.N("throw", "", tree.None())
	case 3:
		return tree.N("return", "", tree.Num(1))
	}
	return tree.N("return", "", tree.None())
}

func nestPath(i int) []int {
	// all paths of length 0..4 over the wrap kinds
	n := 0
	p := 1
	for i >= p {
		i -= p
		p *= wrapKinds
		n++
	}
	var path []int
	for ; n > 0; n-- {
		path = append(path, i%wrapKinds)
		i /= wrapKinds
	}
	return path
}

// placeJump builds the nest with a jump at one position: 0 innermost; then per level, inside the
// sibling part, before the wrapper, after the wrapper.
func placeJump(path []int, pos, jk int) *tree.Node {
	b := tree.N("block", "")
	if pos == 0 {
		b.Kids = append(b.Kids, jump(jk))
	}
	for lv, k := range path {
		var other *tree.Node
		if pos == lv*3+1 {
			other = tree.N("block", "", jump(jk))
		}
		w := wrapIn(k, b, other)
		b = tree.N("block", "")
		if pos == lv*3+2 {
			b.Kids = append(b.Kids, jump(jk))
		}
		b.Kids = append(b.Kids, w)
		if pos == lv*3+3 {
			b.Kids = append(b.Kids, jump(jk))
		}
	}
	return b
}

// jumpy makes random blocks with jumps anywhere.
type jumpy struct {
	r      *rand.Rand
	budget int
	rate   int
}

func (j *jumpy) block(depth int) *tree.Node {
	b := tree.N("block", "")
	for n := j.r.IntN(4); n > 0 && j.budget > 0; n-- {
		j.budget--
		switch {
		case j.r.IntN(100) < j.rate:
			b.Kids = append(b.Kids, jump(j.r.IntN(5)))
		case depth > 0 && j.r.IntN(3) > 0:
			other := j.block(depth - 1)
			b.Kids = append(b.Kids, wrapIn(j.r.IntN(wrapKinds), j.block(depth-1), other))
		default:
			b.Kids = append(b.Kids, leafStmt(j.budget))
		}
	}
	return b
}

func init() {
	groups := []mon.Group{
		{Name: "nests", Quick: 1 + 8 + 64 + 512, Deep: 1 + 8 + 64 + 512 + 4096, Run: func(c *mon.Ctx, i int) {
			path := nestPath(i)
			for jk := 0; jk < 5; jk++ {
				for pos := 0; pos <= len(path)*3; pos++ {
					for _, kind := range []string{"", "proc", "func"} {
						b := placeJump(path, pos, jk)
						judgeRules(c, gen.ModuleOf(kind, b.Kids...))
					}
				}
			}
		}},
		{Name: "nests-deeper", Quick: 20000, Deep: 500000, Run: func(c *mon.Ctx, i int) {
			path := nestPath(585 + c.R.IntN(4096))
			for c.R.IntN(3) == 0 {
				path = append(path, nestPath(585+c.R.IntN(4096))...)
			}
			// mostly without loops, so that both verdicts are common
			for k := range path {
				if path[k] >= 3 && path[k] <= 5 && c.R.IntN(2) == 0 {
					path[k] = c.R.IntN(3)
				}
			}
			b := placeJump(path, c.R.IntN(len(path)*3+1), c.R.IntN(5))
			judgeRules(c, inHome(c.R, b))
		}},
		{Name: "random", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			j := &jumpy{r: c.R, budget: 3 + c.R.IntN(30), rate: 5 + c.R.IntN(30)}
			m := gen.ModuleOf("")
			for n := c.R.IntN(4); n > 0; n-- {
				r := gen.ModuleOf([]string{"proc", "func"}[c.R.IntN(2)], j.block(1+c.R.IntN(4)).Kids...).Kids[1]
				r.Text = fmt.Sprintf("Р%d", n)
				m.Kids = append(m.Kids, r)
			}
			m.Kids = append(m.Kids, j.block(1+c.R.IntN(4)).Kids...)
			judgeRules(c, m)
		}},
		{Name: "history", Quick: 6000, Deep: 100000, Run: func(c *mon.Ctx, i int) {
			// a long innocent past, then one jump
			past := tree.N("block", "")
			for n := c.R.IntN(40); n > 0; n-- {
				j := tree.N("block", "")
				k := c.R.IntN(wrapKinds)
				if k >= 3 && k <= 5 {
					j.Kids = append(j.Kids, jump(c.R.IntN(2)))
				}
				if k == 7 {
					j.Kids = append(j.Kids, jump(2))
				}
				past.Kids = append(past.Kids, wrapIn(k, j, nil))
			}
			m := gen.ModuleOf("")
			if c.R.IntN(2) == 0 {
				for n := 1 + c.R.IntN(3); n > 0; n-- {
					r := gen.ModuleOf([]string{"proc", "func"}[c.R.IntN(2)], past.Clone().Kids...).Kids[1]
					r.Text = fmt.Sprintf("Р%d", n)
					m.Kids = append(m.Kids, r)
				}
				past = tree.N("block", "")
			}
			b := tree.N("block", "", jump(c.R.IntN(5)))
			if c.R.IntN(2) == 0 {
				b = tree.N("block", "", wrapIn(c.R.IntN(wrapKinds), b, nil))
			}
			last := gen.ModuleOf([]string{"", "proc", "func"}[c.R.IntN(3)], append(past.Kids, b.Kids...)...)
			m.Kids = append(m.Kids, last.Kids[1:]...)
			judgeRules(c, m)
		}},
		{Name: "parade", Quick: 4 * 40, Deep: 4 * 400, Run: func(c *mon.Ctx, i int) {
			// many routines before the one that is judged, of every kind
			m := gen.ModuleOf("")
			for n := i / 4; n > 0; n-- {
				b := tree.N("block", "")
				if c.R.IntN(3) == 0 {
					k := c.R.IntN(wrapKinds)
					in := tree.N("block", "")
					if k >= 3 && k <= 5 {
						in.Kids = append(in.Kids, jump(c.R.IntN(2)))
					}
					b.Kids = append(b.Kids, wrapIn(k, in, nil))
				}
				kind := []string{"proc", "func"}[[]int{0, 1, n % 2, c.R.IntN(2)}[i%4]]
				if kind == "func" && c.R.IntN(2) == 0 {
					b.Kids = append(b.Kids, jump(3))
				}
				r := gen.ModuleOf(kind, b.Kids...).Kids[1]
				r.Text = fmt.Sprintf("Р%d", n)
				m.Kids = append(m.Kids, r)
			}
			for jk := 0; jk < 5; jk++ {
				for _, kind := range []string{"", "proc", "func"} {
					for w := -1; w < wrapKinds; w++ {
						if w >= 0 && c.R.IntN(4) > 0 {
							continue
						}
						b := tree.N("block", "", jump(jk))
						if w >= 0 {
							b = tree.N("block", "", wrapIn(w, b, nil))
						}
						whole := m.Clone()
						whole.Kids = append(whole.Kids, gen.ModuleOf(kind, b.Kids...).Kids[1:]...)
						judgeRules(c, whole)
					}
				}
			}
		}},
		{Name: "far", Quick: 600, Deep: 6000, Run: func(c *mon.Ctx, i int) {
			// the loop, function or handler is many levels or statements away
			n := i % 300
			if i >= 300 {
				n = c.R.IntN(1500)
			}
			b := tree.N("block", "")
			for k := 0; k < n%97; k++ {
				b.Kids = append(b.Kids, leafStmt(k))
			}
			b.Kids = append(b.Kids, jump(c.R.IntN(5)))
			for k := 0; k < n; k++ {
				b = tree.N("block", "", wrapIn(c.R.IntN(3), b, nil))
			}
			for k := c.R.IntN(3); k > 0; k-- {
				b = tree.N("block", "", wrapIn(c.R.IntN(wrapKinds), b, nil))
			}
			judgeRules(c, inHome(c.R, b))
		}},
	}
	groups = append(groups, enumGroupsOf(func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Accept() || r.Sem != "" && r.Reject() {
			diff(c, src)
			c.Count("enumerated", 1)
			c.Seen(src)
		}
	}, "loop", "try", "nest", "allfunc")...)
	register(&mon.Check{ID: "C10", Groups: groups,
		Rule:        "all nestings of the eight kinds of blocks to depth 3 (thorough: 4) with each jump at every position inside, beside, before and after them in module body, procedures and functions; random modules full of jumps; long histories of loops and handlers before one jump; far away contexts; all short token sequences; expected verdict from the context rules applied to the generated tree; non-trivial: distinct text with at least one jump",
		Assumptions: []string{"Возврат without a value outside procedures and ВызватьИсключение without an argument in a Попытка part nested in an Исключение part are left open"},
		MinCounts:   map[string]int64{"legal_accepted": 5000, "illegal_rejected": 5000}})
}

func enumGroupsOf(visit func(c *mon.Ctx, src string, r *ref.Result), names ...string) []mon.Group {
	var out []mon.Group
	for _, g := range enumGroups(visit) {
		for _, n := range names {
			if g.Name == "enum-"+n {
				out = append(out, g)
			}
		}
	}
	return out
}

// ---- C11: order and uniqueness of declarations ----

// declNames makes n names that stay different in lower case.
func declNames(r *rand.Rand, n int) []string {
	var out []string
	seen := map[string]bool{}
	for k := 0; len(out) < n; k++ {
		s := pickS(r, "а", "Имя", "п", "Р", "ё", "Я", "x", "Data", "_", "Счетчик", "Ъ") + fmt.Sprint(k)
		if r.IntN(4) == 0 {
			var b strings.Builder
			for q := 1 + r.IntN(20); q > 0; q-- {
				b.WriteString(pickS(r, "а", "п", "р", "я", "ё", "Б", "q", "_", "Ю"))
			}
			s = b.String()
		}
		if !seen[lexref.Lower(s)] && !lexref.IsKeyword(s) {
			seen[lexref.Lower(s)] = true
			out = append(out, s)
		}
	}
	return out
}

// declare writes Перем declarations of names, split at random. locals have no Экспорт.
func declText(r *rand.Rand, names []string, global bool, split int) string {
	var b strings.Builder
	for i := 0; i < len(names); {
		j := i + 1
		for j < len(names) && r.IntN(100) >= split {
			j++
		}
		if global && r.IntN(3) == 0 {
			b.WriteString(pickS(r, "&НаКлиенте ", "&НаСервере\n", "&НаСервереБезКонтекста "))
		}
		b.WriteString(gen.RandCase(r, "Перем") + " " + strings.Join(names[i:j], pickS(r, ", ", ",", " ,\n")))
		if global && r.IntN(3) == 0 {
			b.WriteString(" Экспорт")
		}
		b.WriteString(pickS(r, ";\n", "; ", " ;", ";//к\n"))
		i = j
	}
	return b.String()
}

func init() {
	type home struct{ before, after string }
	homes := []home{
		{"", ""}, // module variables
		{"Процедура П()\n", "\nКонецПроцедуры"},
		{"Функция Ф(арг1, Знач арг2 = 1) Экспорт ", " х = 1; Возврат х;\nКонецФункции"},
		{"Перем м1; Процедура П0() Перем а, б, в; КонецПроцедуры\n&НаСервере Процедура П() ", " Если а Тогда КонецЕсли КонецПроцедуры Функция Ф() КонецФункции х = 1;"},
	}
	register(&mon.Check{ID: "C11",
		Rule:      "declaration lists with one name repeated at any distance, in any letter case, in one or several declarations, against the same list without the repetition; all sequences of up to six module parts with the order rule as oracle; same names across routines and module variables; all short token sequences of declarations; non-trivial: distinct text",
		MinCounts: map[string]int64{"duplicates_rejected": 5000, "unique_accepted": 5000, "orders_accepted": 20, "orders_rejected": 100, "reuse_accepted": 1000},
		Groups: append([]mon.Group{
			{Name: "duplicates", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
				h := homes[i%len(homes)]
				n := 1 + c.R.IntN(8)
				if c.R.IntN(30) == 0 {
					n = 1 + c.R.IntN(400)
				}
				names := declNames(c.R, n)
				split := pick(c.R, 0, 30, 100)
				ok := h.before + declText(c.R, names, i%len(homes) == 0, split) + h.after
				c.Eval(1)
				if _, err := parse(c, ok); err != nil {
					c.Fail(ok, "different names were rejected: %v", err)
				}
				c.Count("unique_accepted", 1)
				at, pos := c.R.IntN(n), c.R.IntN(n+1)
				dup := names[at]
				switch c.R.IntN(3) {
				case 0:
					dup = gen.RandCase(c.R, dup)
				case 1:
					w := []rune(dup)
					k := c.R.IntN(len(w))
					w[k] = toggle(w[k])
					dup = string(w)
				}
				with := append(append(append([]string(nil), names[:pos]...), dup), names[pos:]...)
				src := h.before + declText(c.R, with, i%len(homes) == 0, split) + h.after
				wantReject(c, src, "a variable is declared twice: "+names[at])
				c.Count("duplicates_rejected", 1)
				c.Seen(src)
				c.Sample("%q", src)
			}},
			{Name: "case-of-each-letter", Quick: 66, Deep: 66, Run: func(c *mon.Ctx, i int) {
				// every letter: a name and the same name with the other case of that letter
				l := []rune("абвгдеёжзийклмнопрстуфхцчшщъыьэюяabcdefghijklmnopqrstuvwxyz")
				if i >= len(l) {
					return
				}
				for _, f := range []string{"%c", "а%c", "%cб", "Имя%cИмя", "z%c1"} {
					a, b := fmt.Sprintf(f, l[i]), fmt.Sprintf(f, toggle(l[i]))
					if lexref.IsKeyword(a) {
						continue
					}
					for _, h := range homes {
						for _, s := range []string{"Перем %s, %s;", "Перем %s; Перем %s;", "Перем %s, фф; Перем ии, %s;"} {
							for _, p := range [][2]string{{a, b}, {b, a}, {a, a}} {
								src := h.before + fmt.Sprintf(s, p[0], p[1]) + h.after
								wantReject(c, src, "a variable is declared twice")
								c.Count("duplicates_rejected", 1)
								c.Seen(src)
							}
						}
					}
				}
			}},
			{Name: "order", Quick: 3 + 9 + 27 + 81 + 243 + 729, Deep: 3 + 9 + 27 + 81 + 243 + 729 + 2187 + 6561, Run: func(c *mon.Ctx, i int) {
				n, p := 1, 3
				for i >= p {
					i -= p
					p *= 3
					n++
				}
				for v := 0; v < 6; v++ {
					var b strings.Builder
					ok := true
					state, q := 0, i
					for k := 0; k < n; k++ {
						part := q % 3
						q /= 3
						if part < state {
							ok = false
						}
						state = max(state, part)
						switch part {
						case 0:
							fmt.Fprintf(&b, pickS(c.R, "Перем г%d;\n", "&НаКлиенте Перем г%d Экспорт; ", "Перем г%[1]d, д%[1]d;"), k)
						case 1:
							fmt.Fprintf(&b, pickS(c.R, "Процедура П%d() КонецПроцедуры\n", "&НаСервере Функция Ф%d(а) Экспорт Перем б; Возврат 1; КонецФункции ", "Процедура П%d() Пока а Цикл Прервать; КонецЦикла КонецПроцедуры\n"), k)
						default:
							fmt.Fprintf(&b, pickS(c.R, "х = %d;\n", "ф(%d); ", "Если а%d Тогда КонецЕсли;", "~м%d:"), k)
						}
					}
					src := b.String()
					if ok {
						mustAccept(c, src)
						c.Count("orders_accepted", 1)
					} else {
						r := ref.Parse(src)
						if r.Unspec {
							continue
						}
						wantReject(c, src, "module parts stand in a wrong order")
						c.Count("orders_rejected", 1)
					}
					c.Seen(src)
				}
			}},
			{Name: "late", Quick: 5 * 6 * 3 * 12, Deep: 5 * 6 * 3 * 12, Run: func(c *mon.Ctx, i int) {
				// what came before, then a variable of every kind that is too late, or a routine that is
				vars, i := i%5, i/5
				parts, i := i%6, i/6
				after, i := i%3, i/3
				dirs := append([]string{""}, lexref.Directives...)
				late := gen.RandCase(c.R, "Перем") + " " + []string{"поздняя", "п1, п2"}[c.R.IntN(2)]
				if i%2 == 1 {
					late += " Экспорт"
				}
				if d := dirs[i/2]; d != "" {
					late = d + " " + late
				}
				late += ";\n"
				for rep := 0; rep < 8; rep++ {
					var b strings.Builder
					for k := 0; k < vars; k++ {
						fmt.Fprintf(&b, pickS(c.R, "Перем г%d;\n", "Перем г%d Экспорт;\n", "&НаКлиенте Перем г%d Экспорт; ", "&НаСервере Перем г%d;", "Перем г%[1]d, д%[1]d;", "Перем г%[1]d, д%[1]d Экспорт;"), k)
					}
					for k := 0; k < parts; k++ {
						fmt.Fprintf(&b, pickS(c.R, "Процедура П%d() КонецПроцедуры\n", "Функция Ф%d() КонецФункции\n", "&НаСервере Функция Ф%d(а) Экспорт Перем б; Возврат 1; КонецФункции ", "Процедура П%d(а = 1) Экспорт Пока а Цикл Прервать; КонецЦикла КонецПроцедуры\n", "&НаКлиенте Процедура П%d() КонецПроцедуры "), k)
					}
					stmt := parts == 0 || rep >= 6
					if stmt {
						b.WriteString(pickS(c.R, "х = 1;\n", "ф(); ", "Если а Тогда КонецЕсли;", "х = 1; у = 2;"))
					}
					text := late
					if rep == 7 && i == 0 {
						text = pickS(c.R, "Процедура Поздняя() КонецПроцедуры ", "Функция Поздняя() Экспорт КонецФункции ", "&НаКлиенте Процедура Поздняя(а) КонецПроцедуры ")
					}
					src := b.String() + text + []string{"", "Процедура Я() КонецПроцедуры", "х = 1;"}[after]
					if after == 1 && stmt {
						continue
					}
					if r := ref.Parse(src); r.Unspec {
						continue
					}
					wantReject(c, src, "a module part stands too late")
					c.Count("orders_rejected", 1)
					c.Seen(src)
				}
			}},
			{Name: "reuse", Quick: 6000, Deep: 200000, Run: func(c *mon.Ctx, i int) {
				names := declNames(c.R, 1+c.R.IntN(6))
				cased := func() []string {
					var o []string
					for _, n := range names {
						if c.R.IntN(2) == 0 {
							n = gen.RandCase(c.R, n)
						}
						o = append(o, n)
					}
					c.R.Shuffle(len(o), func(a, b int) { o[a], o[b] = o[b], o[a] })
					return o
				}
				var b strings.Builder
				b.WriteString(declText(c.R, cased(), true, 50))
				n := 2 + c.R.IntN(4)
				for k := 0; k < n; k++ {
					fmt.Fprintf(&b, "Процедура П%d() %s КонецПроцедуры\n", k, declText(c.R, cased(), false, 50))
				}
				src := b.String()
				mustAccept(c, src)
				c.Count("reuse_accepted", 1)
				c.Seen(src)
				// a repetition in one of them, or of a module variable, is still found
				bad := cased()
				bad = append(bad, gen.RandCase(c.R, bad[c.R.IntN(len(bad))]))
				if c.R.IntN(2) == 0 {
					src += "Функция Ф() " + declText(c.R, bad, false, 50) + " КонецФункции " + pickS(c.R, "", "Процедура Я() КонецПроцедуры", "х = 1;")
				} else {
					src = declText(c.R, bad[len(bad)-1:], true, 50) + src
				}
				wantReject(c, src, "a variable is declared twice")
				c.Count("duplicates_rejected", 1)
			}},
		}, enumGroupsOf(func(c *mon.Ctx, src string, r *ref.Result) {
			diff(c, src)
			c.Seen(src)
		}, "locals", "module")...)})
}

func pick(r *rand.Rand, v ...int) int { return v[r.IntN(len(v))] }

// ---- C12: declarations are recorded ----

func init() {
	dirs := append([]string{""}, lexref.Directives...)
	defaults := func(k int) *tree.Node {
		switch k % 8 {
		case 1:
			return numNode("1")
		case 2:
			return tree.Neg(numNode("2.5"))
		case 3:
			return tree.N("str", "стр")
		case 4:
			n := tree.N("date", "20200102000000")
			n.Src = "20200102"
			return n
		case 5:
			return tree.Bool(true)
		case 6:
			return tree.Bool(false)
		case 7:
			return tree.N("undef", "")
		}
		return tree.None()
	}
	fl := func(k string, b bool) *tree.Node {
		if b {
			return tree.N(k, "true")
		}
		return tree.N(k, "")
	}
	routine := func(name, kind, dir string, exp bool, params []*tree.Node, locals []string) *tree.Node {
		l := tree.N("locals", "")
		for _, x := range locals {
			l.Kids = append(l.Kids, tree.N("v", x))
		}
		sortNodes(l.Kids)
		return tree.N(kind, name, tree.N("dir", dir), fl("export", exp), tree.N("params", "", params...), l, tree.N("block", ""))
	}
	register(&mon.Check{ID: "C12",
		Rule:      "every combination of kind, directive, Экспорт, parameter patterns (Знач, each kind of default or none) and locals, alone and among other routines; module variable lists with every directive and Экспорт; long lists; random modules; expected record by construction; non-trivial: distinct expected tree",
		MinCounts: map[string]int64{"declarations_compared": 20000},
		Groups: append([]mon.Group{
			{Name: "combinations", Quick: 2 * 6 * 2 * 16 * 3, Deep: 2 * 6 * 2 * 16 * 3, Run: func(c *mon.Ctx, i int) {
				kind, i := []string{"proc", "func"}[i%2], i/2
				dir, i := dirs[i%6], i/6
				exp, i := i%2 == 1, i/2
				pat, i := i%16, i/16
				for rep := 0; rep < 8; rep++ {
					for np := 0; np <= 3; np++ {
						var ps []*tree.Node
						q := pat + rep*16
						for k := 0; k < np; k++ {
							ps = append(ps, tree.N("param", fmt.Sprintf("П%d", k), fl("val", q&1 == 1), defaults(q>>1)))
							q = q*5 + 3
						}
						r := routine("Имя", kind, dir, exp, ps, declNames(c.R, i*c.R.IntN(3)))
						m := tree.N("module", "", tree.N("globals", ""))
						if c.R.IntN(2) == 0 {
							m.Kids = append(m.Kids, gen.New(c.R, gen.Cfg{Budget: 5}).Routine())
						}
						m.Kids = append(m.Kids, r)
						if c.R.IntN(2) == 0 {
							m.Kids = append(m.Kids, routine("Имя2", pickS(c.R, "proc", "func"), dirs[c.R.IntN(6)], c.R.IntN(2) == 0, nil, nil))
						}
						_, _, want := wantGen(c, m)
						c.Seen(want.String())
						c.Count("declarations_compared", 1+np)
					}
				}
			}},
			{Name: "routines", Quick: 30000, Deep: 1500000, Run: func(c *mon.Ctx, i int) {
				n := 1 + c.R.IntN(5)
				if c.R.IntN(60) == 0 {
					n = 20 + c.R.IntN(200)
				}
				m := tree.N("module", "", tree.N("globals", ""))
				for k := 0; k < n; k++ {
					var ps []*tree.Node
					np := c.R.IntN(5)
					if c.R.IntN(60) == 0 {
						np = c.R.IntN(300)
					}
					for q := 0; q < np; q++ {
						ps = append(ps, tree.N("param", fmt.Sprintf("п%d", q), fl("val", c.R.IntN(2) == 0), defaults(c.R.IntN(16))))
					}
					nl := c.R.IntN(4)
					if c.R.IntN(60) == 0 {
						nl = c.R.IntN(300)
					}
					var ls []string
					for _, x := range declNames(c.R, nl) {
						ls = append(ls, "л"+x)
					}
					r := routine(fmt.Sprintf("Р%d", k), pickS(c.R, "proc", "func"), dirs[c.R.IntN(6)], c.R.IntN(2) == 0, ps, ls)
					for q := c.R.IntN(3); q > 0; q-- {
						r.Kids[4].Kids = append(r.Kids[4].Kids, leafStmt(q))
					}
					m.Kids = append(m.Kids, r)
					c.Count("declarations_compared", 1+np+nl)
				}
				src, _, want := wantGen(c, m)
				c.Seen(want.String())
				c.Sample("%q", src)
			}},
			{Name: "variables", Quick: 30000, Deep: 1500000, Run: func(c *mon.Ctx, i int) {
				n := c.R.IntN(7)
				if c.R.IntN(60) == 0 {
					n = c.R.IntN(400)
				}
				m := tree.N("module", "", tree.N("globals", ""))
				dir, exp := "", false
				for _, x := range declNames(c.R, n) {
					if c.R.IntN(3) == 0 {
						dir, exp = dirs[c.R.IntN(6)], c.R.IntN(2) == 0
					}
					m.Kids[0].Kids = append(m.Kids[0].Kids, tree.N("gvar", x, tree.N("dir", dir), fl("export", exp)))
				}
				// runs of equal marks stay together, so that lists in one declaration are common
				st := gen.Wild(c.R)
				st.Groups, st.Empty = 0, 0
				toks := gen.Unparse(c.R, st, m)
				if c.R.IntN(2) == 0 {
					toks = groupGlobals(c.R, m.Kids[0].Kids)
				}
				for k := c.R.IntN(3); k > 0; k-- {
					r := routine(fmt.Sprintf("Р%d", k), pickS(c.R, "proc", "func"), dirs[c.R.IntN(6)], c.R.IntN(2) == 0, nil, nil)
					m.Kids = append(m.Kids, r)
					toks = append(toks, gen.Unparse(c.R, st, r)...)
				}
				if c.R.IntN(2) == 0 {
					s := leafStmt(1)
					m.Kids = append(m.Kids, s)
					toks = append(toks, gen.UnparseStmt(c.R, st, s)...)
				}
				sortNodes(m.Kids[0].Kids)
				src, _ := gen.Render(c.R, gen.RandLayout(c.R), toks)
				want := tree.Fold(m.Clone())
				wantTree(c, src, want)
				c.Seen(want.String())
				c.Count("declarations_compared", n)
				c.Sample("%q", src)
			}},
			{Name: "modules", Quick: 20000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
				cfg := cfgFor(c.R)
				cfg.Routines, cfg.Globals, cfg.Budget, cfg.Exotic = 1+c.R.IntN(6), c.R.IntN(6), 10+c.R.IntN(30), c.R.IntN(3) == 0
				m := gen.New(c.R, cfg).Module()
				_, _, want := wantGen(c, m)
				c.Seen(want.String())
				c.Count("declarations_compared", len(m.Kids)+len(m.Kids[0].Kids))
			}},
		}, treeEnum("params", "locals", "module")...)})
}

// groupGlobals writes neighbouring module variables with the same marks in one declaration.
func groupGlobals(r *rand.Rand, g []*tree.Node) (out []gen.Tok) {
	word := func(s string) { out = append(out, gen.Tok{Text: s, Word: true}) }
	for i := 0; i < len(g); {
		j := i + 1
		for j < len(g) && g[j].Kids[0].Text == g[i].Kids[0].Text && g[j].Kids[1].Text == g[i].Kids[1].Text && r.IntN(6) > 0 {
			j++
		}
		if d := g[i].Kids[0].Text; d != "" {
			word(gen.RandCase(r, d))
		}
		word("Перем")
		for k := i; k < j; k++ {
			if k > i {
				out = append(out, gen.Tok{Text: ","})
			}
			word(g[k].Text)
		}
		if g[i].Kids[1].Text != "" {
			word("Экспорт")
		}
		out = append(out, gen.Tok{Text: ";"})
		i = j
	}
	return
}
