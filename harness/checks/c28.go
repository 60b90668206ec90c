package checks

import (
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/LazarenkoA/1c-language-parser/ast"
	fast_tolower "github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"

	"verif/canon"
	"verif/gen"
	"verif/lexref"
	"verif/mon"
)

// ---- C28: nothing is left behind ----

// capture stands in for the standard streams while a case runs, both as files of package os and as descriptors.
type capture struct {
	file       *os.File
	out, err   *os.File
	fd1, fd2   int
	redirected bool
}

var capOnce = sync.OnceValue(func() *os.File {
	f, err := os.CreateTemp("", "verif-streams-*")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	return f
})

func startCapture() *capture {
	k := &capture{file: capOnce(), out: os.Stdout, err: os.Stderr}
	k.file.Truncate(0)
	k.file.Seek(0, 0)
	k.fd1, _ = syscall.Dup(1)
	k.fd2, _ = syscall.Dup(2)
	fd := int(k.file.Fd())
	syscall.Dup2(fd, 1)
	syscall.Dup2(fd, 2)
	os.Stdout, os.Stderr = k.file, k.file
	k.redirected = true
	return k
}

func (k *capture) stop() string {
	if !k.redirected {
		return ""
	}
	k.redirected = false
	os.Stdout, os.Stderr = k.out, k.err
	syscall.Dup2(k.fd1, 1)
	syscall.Dup2(k.fd2, 2)
	syscall.Close(k.fd1)
	syscall.Close(k.fd2)
	k.file.Seek(0, 0)
	b, _ := io.ReadAll(k.file)
	return string(b)
}

// everything uses the library on one text in every way a caller would.
func everything(src string, r *rand.Rand) (accepted bool) {
	a := ast.NewAST(src)
	if err := a.Parse(); err != nil {
		_ = err.Error()
	} else {
		accepted = true
	}
	a.JSON()
	a.Print(ast.PrintConf{Margin: r.IntN(9), OneLine: r.IntN(2) == 0})
	a.Print(ast.PrintConf{Margin: 4})
	for k, s := range a.ModuleStatement.Body {
		if k > 3 {
			break
		}
		a.PrintStatement(s)
		a.PrintStatementWithConf(s, ast.PrintConf{OneLine: true})
	}
	n := 0
	a.ModuleStatement.Walk(func(_ *ast.FunctionOrProcedure, _, stm *ast.Statement) {
		if n++; n < 20 {
			a.PrintStatement(*stm)
		}
	})
	tokens(src)
	return
}

func tokens(src string) {
	var t ast.Token
	for k := 0; k <= len(src); k++ {
		code, err := t.Next(srcText(src))
		if err != nil || code == ast.EOF {
			break
		}
		if k%16 == 0 && len(src) < 5000 {
			t.GetPosition()
		}
	}
}

// surroundings is what the rest of the process can see of a library at work.
func surroundings() string {
	var b strings.Builder
	wd, _ := os.Getwd()
	env := os.Environ()
	sort.Strings(env)
	gc := debug.SetGCPercent(100)
	debug.SetGCPercent(gc)
	mem := debug.SetMemoryLimit(-1)
	stack := debug.SetMaxStack(1 << 30)
	debug.SetMaxStack(stack)
	threads := debug.SetMaxThreads(10000)
	debug.SetMaxThreads(threads)
	fault := debug.SetPanicOnFault(false)
	debug.SetPanicOnFault(fault)
	fmt.Fprint(&b, "dir ", wd, "\nenv ", env, "\nprocs ", runtime.GOMAXPROCS(0), "\ngc ", gc, " ", mem, "\nstack ", stack, "\nthreads ", threads, "\nfault ", fault, "\nlog ", log.Flags(), log.Prefix(), log.Writer() == io.Writer(os.Stderr),
		"\nlocal ", time.Local.String(), "\nargs ", os.Args, "\n")
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range fds {
		to, err := os.Readlink("/proc/self/fd/" + d.Name())
		if err != nil || strings.HasPrefix(to, "/proc/") {
			continue // the listing itself
		}
		b.WriteString("fd " + d.Name() + " " + to + "\n")
	}
	return b.String()
}

func goroutines() int {
	n := runtime.NumGoroutine()
	for k := 0; k < 40; k++ {
		runtime.Gosched()
		m := runtime.NumGoroutine()
		if m <= 2 {
			return m
		}
		n = min(n, m)
		time.Sleep(time.Duration(k) * time.Millisecond)
	}
	return n
}

func liveHeap() uint64 {
	var m runtime.MemStats
	for k := 0; k < 3; k++ { // pools are emptied by two collections
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// oddTexts have in them whatever a diagnostic might be printed about.
func oddText(r *rand.Rand) string {
	s := gen.Full(r, smallModule(r))
	if r.IntN(2) == 0 {
		s = mutateBytes(r, s)
	}
	if r.IntN(3) == 0 {
		s = poolText(r)
	}
	for n := r.IntN(4); n > 0; n-- {
		rs := []rune(s)
		at := r.IntN(len(rs) + 1)
		x := []string{"\ufffd", "\u0000", "\ufeff", "\U0010ffff", "\"\ufffd\"", "//\ufffd\n", "'2024\ufffd0101'", "а\ufffd", "\n#\ufffd\n", "&\ufffd", "~\ufffd", "1\ufffd", "'20241301'", "1.2.3", "\"", "1" + strings.Repeat("0", 400), "%s%d%!", "\x1b[31m"}[r.IntN(18)]
		s = string(rs[:at]) + x + string(rs[at:])
	}
	return strings.ToValidUTF8(s, "?")
}

type chore struct {
	name string
	n    int // operations per round
	op   func(r *rand.Rand, k int)
}

func unique(k int) string { return fmt.Sprintf("Имя%d", k) }

// chores are what a long-lived process may do over and over; every operation is on something new.
var chores = []chore{
	{"modules", 250, func(r *rand.Rand, k int) {
		everything(gen.Full(r, gen.New(r, gen.Cfg{Depth: 3, ExprDepth: 3, Stmts: 3, Routines: 2, Globals: 2, MultiLine: true, Odd: true, Budget: 60}).Module()), r)
	}},
	{"errors", 700, func(r *rand.Rand, k int) { everything(oddText(r), r) }},
	{"names", 3000, func(r *rand.Rand, k int) {
		n := unique(k)
		everything("Перем "+n+"г; Функция "+n+"(П"+n+") Перем "+n+"л; "+n+"м("+n+"а."+n+"в["+n+"и]); ~"+n+"м: КонецФункции "+n+" = Новый "+n+"т(-"+n+"у, Не "+n+"н); Перейти ~"+n+"м;", r)
	}},
	{"literals", 3000, func(r *rand.Rand, k int) {
		everything(fmt.Sprintf("х = %d + %d.%d; у = \"с%d\n|в%d\"; з = '%04d0101%02d%02d%02d'; Ф(\"%d\");", k, k, k, k, k, 1+k%9999, k%24, k/24%60, k/1440%60, k), r)
	}},
	{"comments", 3000, func(r *rand.Rand, k int) {
		everything(fmt.Sprintf("// к%d\n#Область О%d\nх = 1; // у%d\n#КонецОбласти // %d", k, k, k, k), r)
	}},
	{"failures", 4000, func(r *rand.Rand, k int) {
		n := unique(k)
		bad := []string{"%[1]s = ;", "Прервать%[1]s; Прервать;", "Перем %[1]s, %[1]s;", "Процедура %[1]s() Возврат 1; КонецПроцедуры", "ВызватьИсключение; %[1]s();", "х = \"%[1]s", "х = '%[1]s';", "Если %[1]s Тогда", "Попытка %[1]s(); Исключение Цикл", "Пока %[1]s Цикл Прервать", "&%[1]s", "%[1]s $", "Функция %[1]s() Пока а Цикл Попытка"}
		everything(fmt.Sprintf(bad[k%len(bad)], n), r)
	}},
	{"tokens", 6000, func(r *rand.Rand, k int) {
		n := unique(k)
		tokens(n + " = \"" + n + "\" + " + fmt.Sprint(k) + ".5 + '2024' ~" + n + " &НаКлиенте." + n)
		tokens(n + "." + gen.RandCase(r, lexref.Keywords[k%len(lexref.Keywords)]) + n[:len(n)-1] + " " + gen.RandCase(r, lexref.Keywords[k/7%len(lexref.Keywords)]))
	}},
	{"cases", 3000, func(r *rand.Rand, k int) {
		// keywords and directives in ever other letter case
		w := func(s string) string { return gen.RandCase(r, s) }
		everything(w("&НаКлиентеНаСервереБезКонтекста")+" "+w("Процедура")+" П("+w("Знач")+" а) "+w("Экспорт")+" "+w("Если")+" "+w("Не")+" а "+w("Тогда")+" "+w("ВызватьИсключение")+" а; "+w("КонецЕсли")+" "+w("КонецПроцедуры"), r)
	}},
	{"lower", 20000, func(r *rand.Rand, k int) {
		_ = fast_tolower.FastToLower(unique(k) + "ЁЖ" + string(rune(0x400+k%0x4000)))
	}},
	{"big", 6, func(r *rand.Rand, k int) {
		n := unique(k)
		everything(strings.Repeat("Если "+n+" Тогда х = \"с"+n+"\" + а."+n+"(1, 2); КонецЕсли;\n", 1000)+pickS(r, "", "х = ;"), r)
	}},
	{"long", 8, func(r *rand.Rand, k int) {
		x := strings.Repeat(pickS(r, "а", "Б", "ы1"), 60000+k%1000)
		tokens(x)
		everything(pickS(r, x+" = 1;", "х = \""+x+"\";", "~"+x+": х = 1;", "// "+x+"\nх = 1;", "х = а."+x+";"), r)
	}},
	{"deep", 12, func(r *rand.Rand, k int) {
		n := 200 + k%50
		everything(strings.Repeat("Пока а Цикл ", n)+"Прервать; "+strings.Repeat("КонецЦикла; ", n-k%2), r)
		everything("х = "+strings.Repeat("(", n)+"а"+strings.Repeat(")", n-k%2)+";", r)
	}},
	{"edits", 1500, func(r *rand.Rand, k int) {
		a := ast.NewAST("Процедура П() х = " + unique(k) + "; ф(); КонецПроцедуры")
		if a.Parse() == nil && len(a.ModuleStatement.Body) == 1 {
			if p, ok := a.ModuleStatement.Body[0].(*ast.FunctionOrProcedure); ok {
				for i := range p.Body {
					if n, ok := p.Body[i].(ast.INot); ok {
						p.Body = append(p.Body, n.Not())
					}
				}
				p.Name += unique(k + 1)
				p.Params = append(p.Params, ast.ParamStatement{Name: unique(k + 2), Default: float64(k)})
				a.ModuleStatement.Append(ast.AssignmentStatement{Var: ast.VarStatement{Name: unique(k)}}, a)
			}
		}
		a.Print(ast.PrintConf{Margin: k % 5})
		a.JSON()
	}},
	{"concurrent", 250, func(r *rand.Rand, k int) {
		var wg sync.WaitGroup
		for q := 0; q < 4; q++ {
			src := gen.Full(r, smallModule(r))
			r2 := rand.New(rand.NewPCG(uint64(k), uint64(q)))
			wg.Add(1)
			go func() { defer wg.Done(); everything(src, r2) }()
		}
		wg.Wait()
	}},
}

// heapSlack is how much a process may hold on to, however much it did.
const heapSlack = 384 << 10

func init() {
	quiet := func(c *mon.Ctx, src string, do func()) {
		c.Eval(1)
		c.Doing(src)
		capOnce()
		before := surroundings()
		g := goroutines()
		k := startCapture()
		func() {
			defer func() {
				if p := recover(); p != nil {
					k.stop()
					panic(p)
				}
			}()
			do()
		}()
		said := k.stop()
		if said != "" {
			c.Fail(src, "the library wrote %q on a standard stream", said[:min(len(said), 200)])
		}
		if after := surroundings(); after != before {
			c.Fail(src, "the surroundings changed: %s", firstDiff(before, after))
		}
		if n := goroutines(); n > g {
			c.Fail(src, "%d goroutines more than before", n-g)
		}
		c.Count("quiet_operations", 1)
	}
	groups := []mon.Group{
		{Name: "streams", Quick: 30000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			var src string
			switch i % 4 {
			case 0:
				cfg := cfgFor(c.R)
				cfg.Budget = min(cfg.Budget, 200)
				src = gen.Full(c.R, gen.New(c.R, cfg).Module())
			case 1:
				src = oddText(c.R)
			case 2:
				src = strings.ToValidUTF8(mutateBytes(c.R, gen.Full(c.R, smallModule(c.R))), "")
			default:
				src = poolText(c.R)
			}
			if !utf8.ValidString(src) {
				return
			}
			quiet(c, src, func() {
				if everything(src, c.R) {
					c.Count("accepted", 1)
				} else {
					c.Count("rejected", 1)
				}
			})
			c.Seen(src)
			c.Sample("%q", src)
		}},
		{Name: "characters", Quick: 300, Deep: 4352, Run: func(c *mon.Ctx, i int) {
			// every character in a name, a string, a comment, a date, after a label sign and alone
			for k := 0; k < 256; k++ {
				r := rune(i*256 + k)
				if i >= 256 && c.Tier != "thorough" {
					r = rune(c.R.IntN(0x110000))
				}
				if r >= 0xd800 && r < 0xe000 || r > 0x10ffff {
					continue
				}
				s := string(r)
				src := pickS(c.R, "х = \"а"+s+"б\"; // к"+s+"\n#о"+s+"\nу = 1;", "а"+s+"б = 1;", "х = '2024"+s+"0101';", s, "х = 1; ~"+s+"м: "+s, "х = а."+s+"б;")
				if k%16 == 0 {
					quiet(c, src, func() { everything(src, c.R) })
				} else {
					// the streams only
					c.Eval(1)
					cp := startCapture()
					everything(src, c.R)
					if said := cp.stop(); said != "" {
						c.Fail(src, "the library wrote %q on a standard stream", said[:min(len(said), 200)])
					}
				}
				c.Count("characters_checked", 1)
			}
			c.Seen(fmt.Sprint("chars", i))
		}},
		{Name: "large", Quick: 48, Deep: 600, Run: func(c *mon.Ctx, i int) {
			// texts large enough for special treatment: many statements, routines, lines, names, long literals, nests
			size := []int{100 << 10, 400 << 10, 1100 << 10, 2500 << 10}[i/12%4] + c.R.IntN(1000)
			fill := func(unit string) string { return strings.Repeat(unit, size/len(unit)) }
			numbered := func(unit string) string {
				var b strings.Builder
				for k := 0; b.Len() < size; k++ {
					fmt.Fprintf(&b, unit, k)
				}
				return b.String()
			}
			n := 20 + size/4000
			src := []func() string{
				func() string { return fill("х = 1;\n") },
				func() string { return numbered("Имя%[1]d = ф%[1]d(%[1]d, \"с%[1]d\");\n") },
				func() string { return numbered("Процедура П%d(а, Знач б = 1) Экспорт ф(а); КонецПроцедуры\n") },
				func() string { return "х = \"" + fill("стр\n|") + "\";" },
				func() string { return fill("// примечание\n") + "х = 1;" },
				func() string { return numbered("Перем Г%d;\n") },
				func() string { return fill("х = 1;\n") + "х = ;" },
				func() string { return fill("х = 1;\n") + "х = \"" },
				func() string { return strings.Repeat("Если а Тогда ", n) + strings.Repeat("КонецЕсли; ", n) },
				func() string { return "х = " + strings.Repeat("(", n) + "а" + strings.Repeat(")", n) + ";" },
				func() string { return "х = " + strings.Repeat("ф(", n) + strings.Repeat(")", n) + ";" },
				func() string { return "ф(" + fill("а, ") + "а);" },
			}[i%12]()
			if i/48%2 == 1 {
				src = mutateBytes(c.R, src)
				if !utf8.ValidString(src) {
					return
				}
			}
			quiet(c, src, func() {
				if everything(src, c.R) {
					c.Count("accepted", 1)
				} else {
					c.Count("rejected", 1)
				}
			})
			c.Count("large_texts", 1)
			c.Seen(src)
		}},
		{Name: "memory", Quick: 3 * len(chores), Deep: 40 * len(chores), Run: func(c *mon.Ctx, i int) {
			w := chores[i%len(chores)]
			c.Doing("workload " + w.name)
			c.Eval(1)
			defer debug.SetGCPercent(debug.SetGCPercent([]int{70, 100, 150}[i/len(chores)%3]))
			n := w.n
			base := 1000000 * (1 + i)
			at := surroundings()
			g := goroutines()
			for k := 0; k < n/4+1; k++ { // warm up
				w.op(c.R, base+k)
			}
			base += n
			before := liveHeap()
			for k := 0; k < 4*n; k++ {
				w.op(c.R, base+k)
			}
			after := liveHeap()
			if after > before+heapSlack {
				// once more: what only settled in has stopped growing
				for k := 0; k < 4*n; k++ {
					w.op(c.R, base+4*n+k)
				}
				if again := liveHeap(); again > after+heapSlack/2 {
					c.Fail("workload "+w.name, "after %d operations (%s) whose objects are gone %d bytes are held, after %d more %d, at first %d", 4*n, w.name, after, 4*n, again, before)
				}
			}
			if m := goroutines(); m > g {
				c.Fail("workload "+w.name, "%d goroutines more than before %d operations (%s)", m-g, 4*n, w.name)
			}
			if now := surroundings(); now != at {
				c.Fail("workload "+w.name, "the surroundings changed: %s", firstDiff(at, now))
			}
			c.Count("operations_then_measured", 4*n)
			c.Count("heap_comparisons", 1)
			c.Seen(fmt.Sprint(w.name, i))
			c.Sample("%d operations of %q: %d bytes live before, %d after", 4*n, w.name, before, after)
		}},
		{Name: "kept", Quick: 200, Deep: 4000, Run: func(c *mon.Ctx, i int) {
			// a module that is kept does not keep others, and what is kept of it stays as large as it was
			c.Eval(1)
			src := gen.Full(c.R, smallModule(c.R))
			c.Doing(src)
			a := ast.NewAST(src)
			if a.Parse() != nil {
				return
			}
			first := canon.Module(&a.ModuleStatement).String()
			use := func(n int) {
				for k := 0; k < n; k++ {
					a.Print(ast.PrintConf{Margin: k % 7, OneLine: k%2 == 0})
					a.JSON()
					a.ModuleStatement.Walk(func(_ *ast.FunctionOrProcedure, _, s *ast.Statement) {
						if k%8 == 0 {
							a.PrintStatementWithConf(*s, ast.PrintConf{Margin: k})
						}
					})
				}
			}
			use(5)
			before := liveHeap()
			rounds := 40 + 40000/(len(src)+100)
			use(rounds)
			after := liveHeap()
			if after > before+heapSlack {
				use(rounds)
				if again := liveHeap(); again > after+heapSlack/2 {
					c.Fail(src, "a module that is rendered again and again grows: %d, %d, %d bytes live", before, after, again)
				}
			}
			if canon.Module(&a.ModuleStatement).String() != first {
				c.Fail(src, "a module changed by being rendered")
			}
			runtime.KeepAlive(a)
			c.Count("renderings_then_measured", 2*rounds)
			c.Count("heap_comparisons", 1)
			c.Seen(src)
		}},
		{Name: "files", Quick: 24, Deep: 200, Run: func(c *mon.Ctx, i int) {
			// a process of its own in an empty directory, with closed standard streams now and then
			c.Eval(1)
			dir, err := os.MkdirTemp("", "verif-c28-*")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			exe, _ := filepath.Abs(os.Args[0])
			cmd := exec.Command(exe, "-probe", fmt.Sprintf("quiet:%d", c.R.Uint64()))
			cmd.Dir = dir
			cmd.Env = append(os.Environ(), "HOME="+dir, "TMPDIR="+dir, "XDG_CACHE_HOME="+dir)
			var out, errOut strings.Builder
			cmd.Stdout, cmd.Stderr = &out, &errOut
			if i%3 == 1 {
				cmd.Env = []string{}
			}
			if err := cmd.Run(); err != nil {
				c.Fail("", "a process that only parses and renders ended with %v: %s", err, errOut.String()[:min(errOut.Len(), 300)])
			}
			if out.Len()+errOut.Len() > 0 {
				c.Fail("", "a process that only parses and renders printed %q %q", out.String(), errOut.String())
			}
			if l, _ := os.ReadDir(dir); len(l) > 0 {
				c.Fail("", "a process that only parses and renders left the file %s", l[0].Name())
			}
			c.Count("processes_watched", 1)
			c.Seen(fmt.Sprint("files", i))
		}},
	}
	register(&mon.Check{ID: "C28", Groups: groups, Procs: 2,
		Rule:        "the whole interface is used on generated, corrupted and odd valid UTF-8 texts of up to 2.5 MB and on every character, with both standard streams captured as files and as descriptors and goroutines, open descriptors, environment, working directory and runtime settings compared before and after; live heap is measured after collection before and after thousands of operations on ever new texts of fourteen kinds, and while one kept module is rendered over and over; processes of their own run in an empty directory; non-trivial: distinct text or workload",
		Assumptions: []string{"texts that are not valid UTF-8 may be reported on standard output", fmt.Sprintf("a fixed amount of memory up to %d bytes may stay in use", heapSlack)},
		MinCounts:   map[string]int64{"quiet_operations": 10000, "heap_comparisons": 100, "operations_then_measured": 100000, "characters_checked": 30000, "processes_watched": 10, "large_texts": 20}})
}

// firstDiff is the first line two texts differ in.
func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for k := 0; k < len(x) && k < len(y); k++ {
		if x[k] != y[k] {
			return fmt.Sprintf("%q, then %q", x[k][:min(len(x[k]), 120)], y[k][:min(len(y[k]), 120)])
		}
	}
	return fmt.Sprintf("%d lines, then %d", len(x), len(y))
}

// quietProbe only uses the library.
func quietProbe(spec string) {
	var seed uint64
	fmt.Sscan(spec, &seed)
	r := rand.New(rand.NewPCG(seed, 28))
	for k := 0; k < 60; k++ {
		src := oddText(r)
		if k%2 == 0 {
			src = gen.Full(r, gen.New(r, cfgFor(r)).Module())
		}
		everything(src, r)
	}
	for k := 0; k < 100; k++ {
		for _, w := range chores {
			if w.n >= 1000 {
				w.op(r, k)
			}
		}
	}
}
