// Package gen makes well-formed modules: a random tree, and the tokens that spell it.
package gen

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"verif/lexref"
	"verif/tree"
)

// Cfg shapes the random trees.
type Cfg struct {
	Depth     int // nesting of block statements
	ExprDepth int
	Stmts     int // statements per block (about)
	Routines  int
	Globals   int
	Exotic    bool // identifiers from all scripts, keyword look-alikes
	MultiLine bool // strings over several lines
	Simple    bool // only plain assignments and calls as leaves
	NoLabels  bool
	NoModBody bool
	BigLists  bool     // sometimes very long lists
	Odd       bool     // allow unary operators on any literal
	VarOnly   bool     // expressions without literals
	Reuse     int      // percent of used names (and parameters, locals) that come up again, perhaps in another letter case
	Repeat    int      // percent of statements that repeat an earlier one of their block
	Few       []string // when set, most names come from these
	Budget    int      // names and such after which the generator winds down (0: 120)
}

func Default() Cfg {
	return Cfg{Depth: 3, ExprDepth: 3, Stmts: 3, Routines: 2, Globals: 2, MultiLine: true, Odd: true}
}

type G struct {
	R           *rand.Rand
	C           Cfg
	seq         int
	used        int
	seen        []string
	labels, top map[string]bool // names of labels in this routine, of routines and variables of the module
	// context
	loop, handler, tryIn int
	fn                   int // 0 module body, 1 procedure, 2 function
}

func New(r *rand.Rand, c Cfg) *G { return &G{R: r, C: c} }

// over: the size budget is used up.
func (g *G) over() bool {
	b := g.C.Budget
	if b == 0 {
		b = 120
	}
	return g.used > b
}

func (g *G) p(pct int) bool { return g.R.IntN(100) < pct }
func (g *G) pick(s ...string) string {
	return s[g.R.IntN(len(s))]
}

var stems = []string{"а", "Б", "Пер", "Тест", "x", "Y", "Объект", "Ёлка", "ё", "Данные_", "_з", "ПРИВЕТ", "Ящик", "п", "Р", "СтрокаТаблицы", "Name", "i"}
var lookalikes = []string{"Если", "Ил", "И", "Или", "НеНе", "Не", "ТогдаКак", "Иначе", "КонецЕсл", "Дляя", "Из", "По", "Цик", "Возвра", "Экспорт", "Знач", "Истина", "Нов", "ИначеЕсл", "Перем", "End", "If", "Procedure", "Function", "Выполнит", "Пока", "Попыт"}
var alphabet = []rune("абвгдежзийклмнопрстуфхцчшщъыьэюяёАБВГДЕЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯЁabcxyzABCXYZ_0123456789іїєґÄßçñλΩ字あ한אعªμ")

// Name makes an identifier unique within this generator.
func (g *G) Name() string {
	s := g.name()
	if g.C.Reuse > 0 {
		g.seen = append(g.seen, s)
	}
	return s
}

// FewNames is a handful of related names: one, the same with a tail or a head, another.
func FewNames(r *rand.Rand) []string {
	a := stems[r.IntN(len(stems))]
	if r.IntN(4) == 0 {
		a = lookalikes[r.IntN(len(lookalikes))] + "1"
	}
	l := []string{a, a + "1", stems[r.IntN(len(stems))] + "2", "_" + a, a + a, a + "_1", a + "2"}
	return l[:1+r.IntN(len(l))]
}

// Use is a name that need not be unique.
func (g *G) Use() string {
	if len(g.C.Few) > 0 && g.p(90) {
		s := g.C.Few[g.R.IntN(len(g.C.Few))]
		if g.p(12) {
			s = RandCase(g.R, s)
		}
		if !lexref.IsKeyword(s) {
			return s
		}
	}
	if g.C.Reuse > 0 && g.p(8) {
		s := Known[g.R.IntN(len(Known))]
		if g.p(20) {
			s = RandCase(g.R, s)
		}
		return s
	}
	if len(g.seen) > 0 && g.p(g.C.Reuse) {
		s := g.seen[g.R.IntN(len(g.seen))]
		if g.p(30) {
			s = RandCase(g.R, s)
		}
		if g.p(25) { // a name that extends, shortens or prefixes another
			t := g.pick(s+"1", s+"_", s+"а", "_"+s, s[:len(s)-1], s+s)
			if utf8.ValidString(t) && t != "" && !lexref.IsKeyword(t) {
				s = t
			}
		}
		return s
	}
	return g.Name()
}

// fresh is a name no other of taken has, in any letter case.
func (g *G) fresh(taken map[string]bool) string {
	for n := 0; ; n++ {
		s := g.Use()
		if n > 10 {
			s = g.name()
		}
		if l := lexref.Lower(s); !taken[l] {
			taken[l] = true
			return s
		}
	}
}

// label is a label's name, unlike any other of its routine.
func (g *G) label() string {
	if len(g.C.Few) == 0 {
		return g.Name()
	}
	if g.labels == nil {
		g.labels = map[string]bool{}
	}
	return g.fresh(g.labels)
}

// topName is the name of a routine or of a variable of the module.
func (g *G) topName() string {
	if len(g.C.Few) == 0 {
		return g.Name()
	}
	if g.top == nil {
		g.top = map[string]bool{}
	}
	return g.fresh(g.top)
}

func (g *G) name() string {
	g.seq++
	if g.C.Exotic {
		for {
			var s string
			switch g.R.IntN(4) {
			case 0:
				s = lookalikes[g.R.IntN(len(lookalikes))] + g.pick("", "_", "1", "а", "Ё") + strconv.Itoa(g.seq)
			case 1:
				s = g.pick("_", "__", "а", "Z") + lookalikes[g.R.IntN(len(lookalikes))] + strconv.Itoa(g.seq)
			default:
				var b []rune
				n := 1 + g.R.IntN(12)
				if g.p(5) {
					n = 20 + g.R.IntN(200)
				}
				for i := 0; i < n; i++ {
					b = append(b, alphabet[g.R.IntN(len(alphabet))])
				}
				s = string(b) + "_" + strconv.Itoa(g.seq)
				if s[0] >= '0' && s[0] <= '9' {
					s = "_" + s
				}
			}
			if !lexref.IsKeyword(s) {
				return s
			}
		}
	}
	s := stems[g.R.IntN(len(stems))]
	if g.p(4) { // a long one
		for n := 1 + g.R.IntN(12); n > 0; n-- {
			s += stems[g.R.IntN(len(stems))]
		}
	}
	return s + strconv.Itoa(g.seq)
}

// Member is a name after a dot: any keyword will do.
func (g *G) Member() string {
	if g.p(15) {
		return RandCase(g.R, lexref.Keywords[g.R.IntN(len(lexref.Keywords))])
	}
	return g.Use()
}

func RandCase(r *rand.Rand, s string) string {
	up := func(c rune) rune {
		switch {
		case c >= 'а' && c <= 'я', c >= 'a' && c <= 'z':
			return c - 0x20
		case c == 'ё':
			return 'Ё'
		}
		return c
	}
	low := lexref.Lower(s)
	switch r.IntN(4) {
	case 0:
		return low
	case 1:
		return strings.Map(up, low)
	case 2:
		rs := []rune(low)
		for i := range rs {
			if r.IntN(2) == 0 {
				rs[i] = up(rs[i])
			}
		}
		return string(rs)
	}
	rs := []rune(low)
	if rs[0] == '&' {
		rs[1] = up(rs[1])
	} else {
		rs[0] = up(rs[0])
	}
	return string(rs)
}

// ---- literals ----

func (g *G) Number() *tree.Node {
	var src string
	switch g.R.IntN(10) {
	case 0:
		src = g.pick("0", "00", "1", "7", "10", "0.0", "0.5", "100", "1000000", "007", "1.", "12.0", "1.50", "9", "99", "0.1", "0.9", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967296", "2147483648", "999999999999999999", "9999999999999999999", "99999999999999999999", "0.99999999999999999999")
	case 1:
		src = strconv.Itoa(g.R.IntN(1 << 30))
	case 2:
		src = strconv.FormatUint(g.R.Uint64(), 10)
	case 3, 4:
		src = strconv.Itoa(g.R.IntN(100000)) + "." + strconv.Itoa(g.R.IntN(1000000))
	case 5:
		src = "0." + strings.Repeat("0", g.R.IntN(12)) + strconv.Itoa(1+g.R.IntN(999))
	case 6:
		n := 1 + g.R.IntN(30)
		for i := 0; i < n; i++ {
			src += strconv.Itoa(g.R.IntN(10))
		}
		if g.p(50) {
			src += "." + strconv.Itoa(g.R.IntN(1000))
		}
	default:
		src = strconv.Itoa(g.R.IntN(1000))
	}
	f, err := strconv.ParseFloat(src, 64)
	if err != nil {
		panic(err)
	}
	n := tree.Num(f)
	n.Src = src
	return n
}

var strBits = []string{"текст", "abc", " ", "  ", "//не комментарий", "'", "''", ";", "|", "#Если", "&НаКлиенте", "1.5", "КонецЕсли", "Ё", "字", "😀", "\t", "\"\"", "\"\"\"\"", "\\n", "%1", "(", ")", "~", "{", "}", "@", "$", "\u00a0", "ы", "х = 1;", ".", ",", "?", "\u2028", "<>", "\\", "!", "\x01", "`", "\\u003c", "\\u0026", "&amp;", "<>&", "\ufeff", "%s", "%!d", "\\\\", "//", "0", "99999999999999999999", "Истина", "20240101", "\u2029", "\u0085", "\x7f", "\u200b", "е\u0308", "\U0001F468\u200d\U0001F469"}

// StrValue makes the value of a string literal, quotes doubled as in the source.
func (g *G) StrValue() string {
	var b strings.Builder
	n := g.R.IntN(4)
	if g.p(5) {
		n = 10 + g.R.IntN(40)
	}
	for i := 0; i < n; i++ {
		b.WriteString(strBits[g.R.IntN(len(strBits))])
		if g.C.MultiLine && g.p(12) {
			b.WriteString(g.pick("\n|", "\n|", "\n|", "  \n|", "\n|  ", "\n|//", "\n|\n|", "\n||"))
		}
		if g.p(30) {
			b.WriteString(strconv.Itoa(g.seq))
			g.seq++
		}
	}
	return b.String()
}

func (g *G) Str() *tree.Node { return tree.N("str", g.StrValue()) }

func (g *G) Date() *tree.Node {
	if g.p(12) {
		n := tree.N("date", "empty")
		n.Src = g.pick("00000000", "000000000000", "00000000000000", "0000.00.00 00:00:00")
		return n
	}
	y := 1 + g.R.IntN(9999)
	if g.p(60) {
		y = 1990 + g.R.IntN(60)
	}
	mo := 1 + g.R.IntN(12)
	d := 1 + g.R.IntN(daysIn(y, mo))
	if g.p(15) {
		d = daysIn(y, mo)
	}
	if g.p(5) {
		mo, d = 2, daysIn(y, 2)
	}
	h, mi, s := g.R.IntN(24), g.R.IntN(60), g.R.IntN(60)
	var parts []string
	switch g.R.IntN(3) {
	case 0:
		h, mi, s = 0, 0, 0
		parts = []string{fmt.Sprintf("%04d", y), fmt.Sprintf("%02d", mo), fmt.Sprintf("%02d", d)}
	case 1:
		s = 0
		parts = []string{fmt.Sprintf("%04d", y), fmt.Sprintf("%02d", mo), fmt.Sprintf("%02d", d), fmt.Sprintf("%02d", h), fmt.Sprintf("%02d", mi)}
	default:
		parts = []string{fmt.Sprintf("%04d", y), fmt.Sprintf("%02d", mo), fmt.Sprintf("%02d", d), fmt.Sprintf("%02d", h), fmt.Sprintf("%02d", mi), fmt.Sprintf("%02d", s)}
	}
	t := time.Date(y, time.Month(mo), d, h, mi, s, 0, time.UTC)
	n := tree.N("date", t.Format("20060102150405"))
	if t.IsZero() {
		n.Text = "empty"
	}
	n.Src = strings.Join(parts, g.pick("", "", "", ".", "-", " ", ":", "/", "г. ", "абв"))
	return n
}

func daysIn(y, m int) int {
	return time.Date(y, time.Month(m)+1, 0, 0, 0, 0, 0, time.UTC).Day()
}

// Literal makes any literal.
func (g *G) Literal() *tree.Node {
	switch g.R.IntN(8) {
	case 0, 1, 2:
		return g.Number()
	case 3, 4:
		return g.Str()
	case 5:
		return g.Date()
	case 6:
		return tree.Bool(g.p(50))
	}
	return tree.N("undef", "")
}

// ---- expressions ----

var BinOps = []string{"+", "-", "*", "/", "%", "=", "<>", "<", ">", "<=", ">=", "И", "ИЛИ"}

func (g *G) Expr(depth int) *tree.Node {
	g.used++
	if depth <= 0 || g.over() || g.p(20) {
		return g.leaf()
	}
	switch g.R.IntN(12) {
	case 0, 1, 2, 3, 4:
		if g.C.Repeat > 0 && g.p(g.C.Repeat) {
			e := g.Expr(depth - 1)
			return tree.N("bin", BinOps[g.R.IntN(len(BinOps))], e, g.twin(e))
		}
		return tree.N("bin", BinOps[g.R.IntN(len(BinOps))], g.Expr(depth-1), g.Expr(depth-1))
	case 5:
		return tree.Not(g.Expr(depth - 1))
	case 6:
		n := g.Expr(depth - 1)
		if !g.C.Odd && (n.Kind == "str" || n.Kind == "date" || n.Kind == "bool" || n.Kind == "undef") {
			n = g.Number()
		}
		return tree.Neg(n)
	case 7:
		return tree.N("ternary", "", g.Expr(depth-1), g.Expr(depth-1), g.Expr(depth-1))
	case 8:
		return g.New(depth - 1)
	default:
		return g.Path(depth-1, "any")
	}
}

func (g *G) leaf() *tree.Node {
	if g.C.VarOnly {
		return tree.N("var", g.Use())
	}
	if g.p(45) {
		return g.Literal()
	}
	return tree.N("var", g.Use())
}

// Args makes an argument list in normal form (a single omitted argument is no argument).
func (g *G) Args(depth int) []*tree.Node {
	n := g.R.IntN(4)
	if g.C.BigLists && g.p(3) {
		n = 20 + g.R.IntN(300)
		depth = 0
	}
	if g.over() {
		n = min(n, 1)
	}
	var a []*tree.Node
	for i := 0; i < n; i++ {
		if g.p(15) {
			a = append(a, tree.None())
		} else if i > 0 && g.C.Repeat > 0 && g.p(g.C.Repeat) {
			a = append(a, g.twin(a[g.R.IntN(i)]))
		} else {
			a = append(a, g.Expr(depth))
		}
	}
	if len(a) == 1 && a[0].Kind == "none" {
		return nil
	}
	return a
}

func (g *G) New(depth int) *tree.Node {
	if g.p(20) {
		a := append([]*tree.Node{g.Expr(depth)}, g.Args(depth)...)
		return tree.N("new", "", a...)
	}
	return tree.N("new", g.Use(), g.Args(depth)...)
}

// Path makes an access path. last: "any", "call" (ends with a call), "target" (may be assigned to).
func (g *G) Path(depth int, last string) *tree.Node {
	links := 1 + g.R.IntN(3)
	if g.p(4) {
		links = 5 + g.R.IntN(12)
		depth = min(depth, 1)
	}
	if g.C.BigLists && g.p(2) {
		links = 30 + g.R.IntN(200)
		depth = 0
	}
	if g.over() {
		links = 1
	}
	var n *tree.Node
	for i := 0; i < links; i++ {
		name := ""
		if i == 0 {
			name = g.Use()
		} else {
			name = g.Member()
		}
		isLast := i == links-1
		call := g.p(40)
		idx := 0
		if g.p(25) {
			idx = 1 + g.R.IntN(2)
		}
		if isLast {
			switch last {
			case "call":
				call, idx = true, 0
			case "target":
				if idx == 0 {
					call = false
				}
			}
		}
		var l *tree.Node
		if call {
			l = tree.N("call", name, g.Args(depth-1)...)
		} else {
			l = tree.N("var", name)
		}
		for ; idx > 0; idx-- {
			l = tree.N("item", "", l, g.Expr(depth-1))
		}
		if n == nil {
			n = l
		} else {
			n = tree.N("dot", "", n, l)
		}
	}
	return n
}

// ---- statements ----

func (g *G) Block(depth int) *tree.Node {
	b := tree.N("block", "")
	n := g.R.IntN(g.C.Stmts*2 + 1)
	if g.C.BigLists && g.p(3) {
		n = 40 + g.R.IntN(400)
		depth = 0
	}
	if g.over() {
		n = min(n, 1)
		depth = 0
	}
	for i := 0; i < n; i++ {
		if i > 0 && len(g.C.Few) > 0 && b.Kids[len(b.Kids)-1].Kind == "label" && g.p(40) { // labels in a row
			b.Kids = append(b.Kids, tree.N("label", g.label()))
			continue
		}
		if i > 0 && g.C.Repeat > 0 && g.p(g.C.Repeat) {
			if k := b.Kids[g.R.IntN(len(b.Kids))]; g.p(50) && !hasLabel(k) {
				b.Kids = append(b.Kids, g.twin(k))
				continue
			}
			if k := b.Kids[len(b.Kids)-1]; !hasLabel(k) && k.Size() < 40 {
				for m := 1 + g.R.IntN(4); m > 0; m-- {
					b.Kids = append(b.Kids, g.twin(k))
				}
				continue
			}
		}
		b.Kids = append(b.Kids, g.Stmt(depth))
	}
	return b
}

// twin is an equal part, or one that differs in a single leaf.
func (g *G) twin(n *tree.Node) *tree.Node {
	c := n.Clone()
	if g.p(50) {
		return c
	}
	var leaves []*tree.Node
	var walk func(n *tree.Node)
	walk = func(n *tree.Node) {
		switch n.Kind {
		case "var", "num", "bool":
			leaves = append(leaves, n)
		}
		for _, k := range n.Kids {
			walk(k)
		}
	}
	walk(c)
	if len(leaves) == 0 {
		return c
	}
	l := leaves[g.R.IntN(len(leaves))]
	switch l.Kind {
	case "var":
		l.Text = g.Use()
	case "num":
		*l = *g.Number()
	case "bool":
		*l = *tree.Bool(l.Text != "true")
	}
	return c
}

func hasLabel(n *tree.Node) bool {
	if n.Kind == "label" {
		return true
	}
	for _, k := range n.Kids {
		if hasLabel(k) {
			return true
		}
	}
	return false
}

func (g *G) Stmt(depth int) *tree.Node {
	ed := g.C.ExprDepth
	g.used++
	if g.over() {
		depth, ed = 0, 1
	}
	if depth > 0 && g.p(45) {
		switch g.R.IntN(6) {
		case 0, 1:
			elifs := tree.N("elifs", "")
			n := 0
			if g.p(40) {
				n = 1 + g.R.IntN(3)
			}
			if g.C.BigLists && g.p(2) {
				n = 20 + g.R.IntN(60)
			}
			cond, yes := g.Expr(ed), g.Block(depth-1)
			for i := 0; i < n; i++ {
				d := depth - 1
				if n > 10 {
					d = 0
				}
				elifs.Kids = append(elifs.Kids, tree.N("elif", "", g.Expr(ed), g.Block(d)))
			}
			no := tree.N("block", "")
			if g.p(50) {
				no = g.Block(depth - 1)
			}
			// parts that are equal to each other
			if again := func() bool { return g.C.Repeat > 0 && g.p(g.C.Repeat) }; again() {
				for _, e := range elifs.Kids {
					if again() || g.p(30) {
						e.Kids[0] = g.twin(cond)
					}
					if (again() || g.p(30)) && !hasLabel(yes) {
						e.Kids[1] = g.twin(yes)
					}
				}
				if g.p(50) && !hasLabel(yes) {
					no = g.twin(yes)
				}
			}
			return tree.N("if", "", cond, yes, elifs, no)
		case 2:
			return tree.N("foreach", g.Use(), g.LoopIn(ed), g.inLoop(depth-1))
		case 3:
			return tree.N("for", "", tree.N("bin", "=", tree.N("var", g.Use()), g.Expr(ed)), g.Expr(ed), g.inLoop(depth-1))
		case 4:
			return tree.N("while", "", g.Expr(ed), g.inLoop(depth-1))
		default:
			if g.handler > 0 {
				g.tryIn++
			}
			b := g.Block(depth - 1)
			if g.handler > 0 {
				g.tryIn--
			}
			saved := g.tryIn
			g.tryIn = 0
			g.handler++
			c := g.Block(depth - 1)
			g.handler--
			g.tryIn = saved
			if g.C.Repeat > 0 && g.p(g.C.Repeat) && !hasLabel(b) {
				c = g.twin(b)
			}
			return tree.N("try", "", b, c)
		}
	}
	if !g.C.Simple {
		switch g.R.IntN(20) {
		case 0:
			if g.loop > 0 {
				return tree.N("break", "")
			}
		case 1:
			if g.loop > 0 {
				return tree.N("continue", "")
			}
		case 2:
			if g.handler > 0 && g.tryIn == 0 && g.p(50) {
				return tree.N("throw", "", tree.None())
			}
			return tree.N("throw", "", g.ThrowArg(ed))
		case 3:
			switch g.fn {
			case 1:
				return tree.N("return", "", tree.None())
			case 2:
				return tree.N("return", "", g.Expr(ed))
			}
		case 4:
			if !g.C.NoLabels {
				return tree.N("goto", g.Use())
			}
		case 5:
			if !g.C.NoLabels {
				return tree.N("label", g.label())
			}
		case 6:
			return g.Exec(ed)
		}
	}
	if g.p(35) {
		return g.Path(ed, "call")
	}
	return tree.N("assign", "", g.Path(min(ed, 2), "target"), g.Expr(ed))
}

func (g *G) ThrowArg(ed int) *tree.Node {
	if g.p(30) {
		n := 2 + g.R.IntN(4)
		t := tree.N("tuple", "")
		for i := 0; i < n; i++ {
			if i > 0 && g.p(20) {
				t.Kids = append(t.Kids, tree.None())
			} else {
				t.Kids = append(t.Kids, g.Expr(ed-1))
			}
		}
		return t
	}
	return g.Expr(ed)
}

func (g *G) Exec(ed int) *tree.Node {
	switch g.R.IntN(3) {
	case 0:
		return tree.N("call", "выполнить", g.Str())
	case 1:
		return tree.N("call", "выполнить", tree.N("var", g.Use()))
	}
	return tree.N("call", "выполнить", g.Expr(ed))
}

func (g *G) LoopIn(ed int) *tree.Node {
	switch g.R.IntN(6) {
	case 0:
		return g.New(ed - 1)
	case 1:
		return tree.N("ternary", "", g.Expr(ed-1), g.Expr(ed-1), g.Expr(ed-1))
	}
	return g.Path(ed-1, "any")
}

func (g *G) inLoop(depth int) *tree.Node {
	g.loop++
	b := g.Block(depth)
	g.loop--
	return b
}

// ---- declarations ----

func (g *G) Directive() string {
	if g.p(50) {
		return ""
	}
	return lexref.Directives[g.R.IntN(len(lexref.Directives))]
}

func flag(kind string, b bool) *tree.Node {
	if b {
		return tree.N(kind, "true")
	}
	return tree.N(kind, "")
}

func (g *G) Param() *tree.Node { return g.param(map[string]bool{}) }

func (g *G) param(taken map[string]bool) *tree.Node {
	d := tree.None()
	if g.p(40) {
		d = g.Literal()
		if d.Kind == "num" && g.p(30) {
			d = tree.Neg(d)
		}
	}
	return tree.N("param", g.fresh(taken), flag("val", g.p(35)), d)
}

func (g *G) Routine() *tree.Node {
	kind := "proc"
	g.fn = 1
	if g.p(50) {
		kind, g.fn = "func", 2
	}
	taken := map[string]bool{}
	params := tree.N("params", "")
	n := g.R.IntN(4)
	if g.p(15) {
		n = 4 + g.R.IntN(8)
	}
	if g.C.BigLists && g.p(5) {
		n = 10 + g.R.IntN(60)
	}
	for i := 0; i < n; i++ {
		params.Kids = append(params.Kids, g.param(taken))
	}
	locals := tree.N("locals", "")
	if g.p(40) {
		n = 1 + g.R.IntN(4)
		if g.C.BigLists && g.p(5) {
			n = 20 + g.R.IntN(100)
		}
		for i := 0; i < n; i++ {
			locals.Kids = append(locals.Kids, tree.N("v", g.fresh(taken)))
		}
		sortByText(locals.Kids)
	}
	name := g.topName()
	g.labels = nil
	b := g.Block(g.C.Depth)
	g.labels = nil
	g.fn = 0
	return tree.N(kind, name, tree.N("dir", g.Directive()), flag("export", g.p(40)), params, locals, b)
}

func sortByText(k []*tree.Node) {
	sort.Slice(k, func(i, j int) bool { return k[i].Text < k[j].Text })
}

func (g *G) GlobalVar() *tree.Node {
	return tree.N("gvar", g.topName(), tree.N("dir", g.Directive()), flag("export", g.p(40)))
}

// Module makes a whole module.
func (g *G) Module() *tree.Node {
	m := tree.N("module", "")
	globals := tree.N("globals", "")
	m.Kids = append(m.Kids, globals)
	if g.C.Globals > 0 {
		for n := g.R.IntN(g.C.Globals + 1); n > 0; n-- {
			globals.Kids = append(globals.Kids, g.GlobalVar())
		}
		sortByText(globals.Kids)
	}
	if g.C.Routines > 0 {
		for n := g.R.IntN(g.C.Routines + 1); n > 0; n-- {
			m.Kids = append(m.Kids, g.Routine())
		}
	}
	if !g.C.NoModBody && (g.p(60) || len(m.Kids) == 1) {
		g.fn = 0
		m.Kids = append(m.Kids, g.Block(g.C.Depth).Kids...)
	}
	return m
}

// ModuleOf wraps statements into a module: in the module body (kind ""), or in one routine.
func ModuleOf(kind string, stmts ...*tree.Node) *tree.Node {
	m := tree.N("module", "", tree.N("globals", ""))
	if kind == "" {
		m.Kids = append(m.Kids, stmts...)
		return m
	}
	m.Kids = append(m.Kids, tree.N(kind, "Р", tree.N("dir", ""), tree.N("export", ""), tree.N("params", ""), tree.N("locals", ""), tree.N("block", "", stmts...)))
	return m
}
