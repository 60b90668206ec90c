package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"runtime"
	"runtime/coverage"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/mon"
)

// ---- C21: work grows linearly ----

// The check is built with coverage counters in the code under test: a snapshot of them before and after an
// operation says how many basic blocks it executed.

type blockCounters map[[3]uint64]uint32

func uleb(b *bytes.Reader) uint64 {
	v, err := binary.ReadUvarint(b)
	if err != nil {
		panic("coverage counters: " + err.Error())
	}
	return v
}

// readCounters parses the counter data of this process (the format of internal/coverage, Go 1.20 and later).
func readCounters() blockCounters {
	var buf bytes.Buffer
	if err := coverage.WriteCounters(&buf); err != nil {
		panic("coverage counters: " + err.Error())
	}
	d := buf.Bytes()
	if len(d) < 48 || string(d[:4]) != "\x00cwm" {
		panic("coverage counters: unknown format")
	}
	flavor := d[24]
	if flavor != 2 {
		panic(fmt.Sprintf("coverage counters: flavor %d", flavor))
	}
	entries := binary.LittleEndian.Uint64(d[32:])
	skip := 48 + int(binary.LittleEndian.Uint32(d[40:])) + int(binary.LittleEndian.Uint32(d[44:]))
	if r := skip % 4; r != 0 {
		skip += 4 - r
	}
	r := bytes.NewReader(d[skip:])
	out := blockCounters{}
	for ; entries > 0; entries-- {
		n, pkg, fn := uleb(r), uleb(r), uleb(r)
		for k := uint64(0); k < n; k++ {
			out[[3]uint64{pkg, fn, k}] = uint32(uleb(r))
		}
	}
	return out
}

func (b blockCounters) since(old blockCounters) (n int64) {
	for k, v := range b {
		n += int64(v - old[k]) // the counters wrap around
	}
	return
}

type cost struct {
	blocks int64
	alloc  int64
	cpu    time.Duration
}

func threadCPU() time.Duration {
	var u syscall.Rusage
	if err := syscall.Getrusage(1, &u); err != nil { // RUSAGE_THREAD
		panic(err)
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// measure runs f once on this thread, without garbage collection in between.
func measure(f func()) cost {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	runtime.GC()
	old := debug.SetGCPercent(-1)
	defer debug.SetGCPercent(old)
	var m0, m1 runtime.MemStats
	c0 := readCounters()
	runtime.ReadMemStats(&m0)
	t0 := threadCPU()
	f()
	t1 := threadCPU()
	runtime.ReadMemStats(&m1)
	return cost{readCounters().since(c0), int64(m1.TotalAlloc - m0.TotalAlloc), t1 - t0}
}

type workload struct {
	name string
	text func(n int) string
	wide bool // nesting depth does not grow with n: Print, JSON and Walk are measured too
}

type countingText struct {
	s string
	n int64
}

func (t *countingText) SrsCode() string { t.n++; return t.s }

const (
	growth      = 8
	blockLimit  = 14   // times more blocks for 8 times the text: 8 when linear, 64 when quadratic
	cpuLimit    = 30   // the same for CPU time, where caches and page faults play a part
	perByte     = 3000 // blocks, allocated bytes and source reads for one byte of text: far above what any content takes
	smallWanted = 40 << 10
)

// grows measures f on a text and on one eight times as long.
func grows(c *mon.Ctx, name, op string, small, big string, f func(s string) func()) cost {
	c.Eval(1)
	c.Doing(clip(big, 2000))
	a, b := measure(f(small)), measure(f(big))
	if b.blocks == 0 && op == "parse" {
		panic("no coverage counters in this build")
	}
	what := fmt.Sprintf("%s of %s", op, name)
	if b.blocks > a.blocks*blockLimit+int64(len(big))*8+20000 {
		c.Fail(clip(small, 3000), "%s: %d bytes of text take %d steps, %d bytes take %d", what, len(small), a.blocks, len(big), b.blocks)
	}
	if b.alloc > a.alloc*blockLimit+int64(len(big))*64+1<<20 {
		c.Fail(clip(small, 3000), "%s: %d bytes of text allocate %d bytes, %d bytes allocate %d", what, len(small), a.alloc, len(big), b.alloc)
	}
	if k := int64(len(big)+100) * perByte; b.blocks > k || b.alloc > 3*k {
		c.Fail(clip(small, 3000), "%s: %d bytes of text take %d steps and allocate %d bytes", what, len(big), b.blocks, b.alloc)
	}
	for try := 0; b.cpu > 300*time.Millisecond && b.cpu > cpuLimit*(a.cpu+time.Millisecond); try++ {
		need := 4
		switch {
		case b.cpu > 5*time.Second:
			need = 1
		case b.cpu > time.Second:
			need = 2
		}
		if try >= need {
			c.Fail(clip(small, 3000), "%s: %d bytes of text take %v, %d bytes take %v, in each of %d measurements", what, len(small), a.cpu, len(big), b.cpu, try+1)
		}
		a2, b2 := measure(f(small)), measure(f(big))
		a.cpu, b.cpu = max(a.cpu, a2.cpu), min(b.cpu, b2.cpu)
		c.Count("cpu_measured_again", 1)
	}
	c.Count("pairs_measured", 1)
	c.Count("op_"+op, 1)
	c.Count("blocks_counted", int(a.blocks+b.blocks))
	c.Count("bytes_of_text", len(small)+len(big))
	c.Seen(fmt.Sprint(what, len(big)))
	return b
}

func (w *workload) run(c *mon.Ctx, long bool) {
	n := 1
	for len(w.text(n)) < smallWanted {
		n = n*2 + 1
		if n > smallWanted {
			break
		}
	}
	n = max(64, n*smallWanted/max(1, len(w.text(n))))
	small, big := w.text(n), w.text(n*growth)
	if c.Tier == "thorough" {
		k := pick(c.R, 1, 4, 12)
		small, big = w.text(n*k), w.text(n*k*growth)
	}
	tokens := func(s string) func() {
		return func() {
			t := &countingText{s: s}
			var tok ast.Token
			for k := 0; k <= len(s)+1; k++ {
				if code, err := tok.Next(t); code == ast.EOF && err == nil {
					break
				}
			}
			if t.n > int64(len(s)+100)*200 {
				c.Fail(clip(s, 3000), "tokens of %s: %d bytes of text are looked at %d times", w.name, len(s), t.n)
			}
			c.Count("source_reads", int(t.n))
		}
	}
	grows(c, w.name, "tokens", small, big, tokens)
	var last error
	spent := grows(c, w.name, "parse", small, big, func(s string) func() {
		return func() {
			last = ast.NewAST(s).Parse()
			if last != nil {
				_ = last.Error()
			}
		}
	})
	if c.Tier == "quick" && long && spent.cpu < 250*time.Millisecond && spent.alloc/int64(len(big)+1) < 300 {
		// work in library functions is cheap by the byte: it takes more text to see it grow
		for _, k := range []int{4, 12} { // in steps, so that gross growth shows before it takes minutes
			s, b := w.text(n*k), w.text(n*k*growth)
			grows(c, w.name, "tokens", s, b, tokens)
			grows(c, w.name, "parse", s, b, func(s string) func() { return func() { last = ast.NewAST(s).Parse() } })
		}
		c.Count("long_texts_measured", 1)
	}
	if last != nil {
		c.Count("rejected_workloads", 1)
		return
	}
	c.Count("accepted_workloads", 1)
	if !w.wide {
		return
	}
	tree := map[string]*ast.AstNode{}
	for _, s := range []string{small, big} {
		a := ast.NewAST(s)
		if a.Parse() != nil {
			return
		}
		tree[s] = a
	}
	if d := canonModule(tree[small]).Depth(); d != canonModule(tree[big]).Depth() {
		c.Count("nests_with_the_text", 1) // repeated pieces that run into one another: the depth is not bounded
		return
	}
	ops := []struct {
		name string
		f    func(a *ast.AstNode)
	}{
		{"Print", func(a *ast.AstNode) { a.Print(ast.PrintConf{Margin: 4}) }},
		{"PrintOneLine", func(a *ast.AstNode) { a.Print(ast.PrintConf{OneLine: true}) }},
		{"JSON", func(a *ast.AstNode) { a.JSON() }},
		{"Walk", func(a *ast.AstNode) {
			k := 0
			a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) { k++ })
		}},
		{"PrintStatement", func(a *ast.AstNode) {
			for _, s := range a.ModuleStatement.Body {
				if _, ok := s.(*ast.FunctionOrProcedure); !ok {
					a.PrintStatement(s)
				}
			}
		}},
	}
	for _, o := range ops {
		grows(c, w.name, o.name, small, big, func(s string) func() { return func() { o.f(tree[s]) } })
	}
}

var wideKinds = " elseif statements empty args noargs labels routines throw strings lines exec params locals regions comments mixed strcomments blank name number fraction string quotes label commas "

// numbered repeats a piece with its number in place of #.
func numbered(pre, piece, sep, post string) func(n int) string {
	return func(n int) string {
		var b strings.Builder
		b.WriteString(pre)
		for k := 0; k < n; k++ {
			if k > 0 {
				b.WriteString(sep)
			}
			b.WriteString(strings.ReplaceAll(piece, "#", fmt.Sprint(k)))
		}
		b.WriteString(post)
		return b.String()
	}
}

var workloads = func() (out []workload) {
	for i, k := range nestKinds {
		for cut := 0; cut < 4; cut++ {
			if cut >= 2 && k.down == "" {
				continue
			}
			out = append(out, workload{fmt.Sprint(k.name, " cut ", cut), func(n int) string { return nestText(i, n, cut) }, cut == 0 && strings.Contains(wideKinds, " "+k.name+" ")})
		}
	}
	add := func(name string, wide bool, f func(n int) string) {
		out = append(out, workload{name, f, wide})
	}
	stm := func(name, piece string) { add(name, true, numbered("", piece, "\n", "")) }
	add("different locals", true, numbered("Процедура П() Перем ", "а#", ", ", "; КонецПроцедуры"))
	add("local lines", true, numbered("Процедура П() ", "Перем а#;", "\n", " КонецПроцедуры"))
	add("different parameters", true, numbered("Функция Ф(", "Знач а# = #", ", ", ") Возврат 1; КонецФункции"))
	add("different globals", true, numbered("Перем ", "г# Экспорт", ", ", ";"))
	add("global lines", true, numbered("", "&НаКлиенте Перем г#;", "\n", ""))
	add("equal globals", false, numbered("", "Перем г;", "\n", ""))
	add("equal locals", false, numbered("Процедура П() ", "Перем л;", "\n", " КонецПроцедуры"))
	add("equal parameters", false, numbered("Процедура П(", "п", ", ", ") КонецПроцедуры"))
	add("globals then body", true, func(n int) string {
		return numbered("", "Перем г#;", "\n", "")(n/2) + numbered("", "г# = г# + 1;", "\n", "")(n/2)
	})
	stm("different routines", "Процедура П#(а, б) Экспорт а = б; КонецПроцедуры")
	stm("different functions", "&НаСервере Функция Ф#() Перем л#; Возврат л#; КонецФункции")
	stm("break outside", "Прервать;")
	stm("continue outside", "Продолжить;")
	stm("return outside", "Возврат #;")
	stm("empty throw outside", "ВызватьИсключение;")
	add("break outside in routine", false, numbered("Процедура П() ", "Если а Тогда Прервать; Продолжить; КонецЕсли;", "\n", "КонецПроцедуры"))
	add("value from procedure", false, numbered("Процедура П() ", "Возврат #;", "\n", "КонецПроцедуры"))
	stm("loops", "Для а# = 1 По # Цикл Прервать; КонецЦикла;")
	stm("tries", "Попытка а(#); Исключение ВызватьИсключение; КонецПопытки;")
	stm("ifs", "Если а = # Тогда б = #; ИначеЕсли Не в Тогда Иначе г = \"#\"; КонецЕсли;")
	stm("calls", "Объект.Метод#(а, \"#\", , '20200102').Поле[#].Ф();")
	stm("expressions", "х = (а# + 1) * -б / #.5 - ?(Не в, #, \"#\") % г И д <> е Или ж >= з;")
	stm("objects", "х# = Новый Структура(\"а\", #); у = Новый(\"Т\", #);")
	stm("strings over lines", "х = \"а#\n|б \"\"в\"\"\n//к\n|г\" \"д\";")
	stm("comments and regions", "#Область о#\nх = 1; // к #\n#КонецОбласти")
	stm("labels and jumps", "~м#: Перейти ~м#;")
	stm("execute", "Выполнить(\"#\"); Возврат;")
	add("error at the end", false, numbered("", "а = #;", "\n", ") Если"))
	add("unfinished string at the end", false, numbered("", "а = #;", "\n", " б = \"ж"))
	add("bad date at the end", false, numbered("", "а = #;", "\n", " б = '20209999'"))
	add("unfinished block at the end", false, numbered("Если а Тогда ", "а = #;", "\n", ""))
	add("one long line", true, numbered("", "а = #;", " ", ""))
	add("returns", false, numbered("", "а", "\r", ""))
	add("long array", true, numbered("а = Новый Массив(", "#", ",\n", ");"))
	add("indices", false, numbered("а", "[#].п#", "", " = 1;"))
	add("wide routine in blocks", true, numbered("Процедура П() Пока а Цикл Если б Тогда ", "х[#] = ф(#, у).з;", "\n", " КонецЕсли; КонецЦикла; КонецПроцедуры"))
	add("many elseif", true, numbered("Если а Тогда ", "ИначеЕсли б = # Тогда х = #;", "\n", " Иначе КонецЕсли;"))
	add("and chain", false, numbered("х = а", "И б# > #", " ", ";"))
	add("string sum", false, numbered("х = \"\"", "+ \"строка #\" + Символы.ПС", "\n", ";"))
	add("nested calls in arguments", true, numbered("ф(", "г(#, д(\"#\"))", ",", ");"))
	add("keywords as members", true, numbered("", "а.Если = а.Цикл#.Не;", "\n", ""))
	add("illegal characters", false, numbered("", "$#", " ", ""))
	add("cyrillic text in comments", true, numbered("", "// комментарий с длинным текстом номер # и ещё\nа = 1;", "\n", ""))
	return
}()

// wideHomes are the places a block can stand in.
var wideHomes = [][2]string{
	{"Процедура П()\n", "\nКонецПроцедуры"}, {"Функция Ф() Экспорт\n", "\nВозврат 1; КонецФункции"},
	{"Если а Тогда\n", "\nКонецЕсли;"}, {"Если а Тогда ИначеЕсли б Тогда\n", "\nИначе КонецЕсли;"}, {"Если а Тогда Иначе\n", "\nКонецЕсли;"},
	{"Пока а Цикл\n", "\nКонецЦикла;"}, {"Для Каждого а Из б Цикл\n", "\nКонецЦикла;"},
	{"Попытка\n", "\nИсключение КонецПопытки;"}, {"Попытка Исключение\n", "\nКонецПопытки;"},
}

var wideContents = []string{
	"Если а = # Тогда КонецЕсли;", "Пока а Цикл б = #; КонецЦикла;\nх = #;", "Попытка а(#); Исключение КонецПопытки;", "а# = б.в(#)[#];", "Перейти ~м#; ~м#: Ф();",
	"Если а Тогда КонецЕсли; Для а = 1 По # Цикл Прервать; КонецЦикла; Попытка Исключение ВызватьИсключение; КонецПопытки; Ф(\"#\"); х = Новый А(#, , \"\"); Возврат;",
}

func init() {
	inHome := func(i int) workload {
		h, t := wideHomes[i%len(wideHomes)], wideContents[i/len(wideHomes)%len(wideContents)]
		return workload{fmt.Sprintf("%q in %q", t, h[0]), numbered(h[0], t, "\n", h[1]), true}
	}
	mixture := func(c *mon.Ctx) workload {
		i, j := c.R.IntN(len(nestKinds)), c.R.IntN(len(nestKinds))
		switch c.R.IntN(3) {
		case 0: // one after the other
			ci, cj := c.R.IntN(2), c.R.IntN(2)
			return workload{fmt.Sprintf("%s then %s", nestKinds[i].name, nestKinds[j].name), func(n int) string { return nestText(i, n/2|1, ci) + nestText(j, n/2|1, cj) }, false}
		case 1: // small pieces by turns
			k := 1 + c.R.IntN(4)
			p := nestText(i, k, 0) + " " + nestText(j, k, 0) + "\n"
			return workload{fmt.Sprintf("%s and %s by turns", nestKinds[i].name, nestKinds[j].name), func(n int) string { return strings.Repeat(p, n) }, true}
		}
		// one inside the other
		a, b := nestKinds[i], nestKinds[j]
		return workload{fmt.Sprintf("%s in %s", b.name, a.name), func(n int) string {
			return a.pre + strings.Repeat(a.up, n/2|1) + b.pre + strings.Repeat(b.up, n/2|1) + b.mid + strings.Repeat(b.down, n/2|1) + b.after + strings.Repeat(a.down, n/2|1) + a.after
		}, false}
	}
	repeated := func(r *rand.Rand) workload {
		cfg := cfgFor(r)
		cfg.Budget = min(cfg.Budget, 60)
		cfg.Routines, cfg.Globals = 0, 0
		p := gen.Full(r, gen.New(r, cfg).Module()) + "\n;"
		if r.IntN(6) == 0 {
			p = mutateBytes(r, p)
		}
		var h [2]string
		if r.IntN(2) == 0 {
			h = wideHomes[r.IntN(len(wideHomes))]
		}
		return workload{fmt.Sprintf("repeated %q in %q", clip(p, 300), h[0]), func(n int) string { return h[0] + strings.Repeat(p, n) + h[1] }, true}
	}
	groups := []mon.Group{
		{Name: "contents", Quick: len(workloads), Deep: 4 * len(workloads), Run: func(c *mon.Ctx, i int) {
			w := workloads[i%len(workloads)]
			w.run(c, true)
			c.Sample("%s: %q", w.name, clip(w.text(3), 200))
		}},
		{Name: "homes", Quick: len(wideHomes) * len(wideContents), Deep: 10 * len(wideHomes) * len(wideContents), Run: func(c *mon.Ctx, i int) {
			w := inHome(i)
			w.run(c, false)
		}},
		{Name: "mixtures", Quick: 120, Deep: 1500, Run: func(c *mon.Ctx, i int) {
			w := mixture(c)
			w.run(c, false)
		}},
		{Name: "modules", Quick: 140, Deep: 1500, Run: func(c *mon.Ctx, i int) {
			w := repeated(c.R)
			w.run(c, false)
		}},
	}
	register(&mon.Check{ID: "C21", Groups: groups, Procs: 2, Hang: 150 * time.Second,
		Rule:        "the code under test is built with basic-block counters; tokens, Parse and (where the depth is bounded) Print, JSON, Walk and PrintStatement are measured on a text and on one eight times as long (40 KB and 330 KB, cheap contents 0.5 MB and 4 MB too): executed blocks and allocated bytes may grow at most 14-fold, CPU time of the thread at most 30-fold in repeated measurements, source reads at most 200 per byte; distinct: pairs of operation and content",
		Assumptions: []string{"growth is judged between about 40 KB and 4 MB of text", "work inside library functions shows in allocated bytes and CPU time only"},
		MinCounts:   map[string]int64{"pairs_measured": 700, "blocks_counted": 100000000, "op_JSON": 100, "op_Print": 100, "source_reads": 1000000}})
}
