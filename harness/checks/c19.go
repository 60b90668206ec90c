package checks

import (
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"
	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"

	"verif/gen"
	"verif/mon"
	"verif/ref"
)

// ---- C19: concurrency ----

// op is one operation of a goroutine. It must not synchronise with the others: a lock or an atomic counter
// in here would order the accesses the race detector is to judge.
type op struct {
	name string
	run  func(r *rand.Rand) string
	want func() string // what the operation gives alone; called when the goroutines are done
}

type opRecord struct {
	begin, end time.Duration
	got        string
	panicked   string
}

// concurrently runs one list of operations per goroutine and judges what they gave.
func concurrently(c *mon.Ctx, src string, work [][]op) {
	c.Doing(src)
	before := raceErrors()
	recs := make([][]opRecord, len(work))
	start := make(chan struct{})
	var ready, wg sync.WaitGroup
	begin := time.Now()
	for g := range work {
		recs[g] = make([]opRecord, len(work[g]))
		ready.Add(1)
		wg.Add(1)
		r := rand.New(rand.NewPCG(c.R.Uint64(), uint64(g)))
		go func(g int) {
			defer wg.Done()
			ready.Done()
			<-start
			for k := range work[g] {
				switch r.IntN(4) {
				case 0:
					runtime.Gosched()
				case 1:
					for n := r.IntN(2000); n > 0; n-- {
						_ = n
					}
				case 2:
					if r.IntN(10) == 0 {
						time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
					}
				}
				func() {
					rec := &recs[g][k]
					defer func() {
						if e := recover(); e != nil {
							rec.panicked = fmt.Sprint(e)
						}
						rec.end = time.Since(begin)
					}()
					rec.begin = time.Since(begin)
					rec.got = work[g][k].run(r)
				}()
			}
		}(g)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	if n := raceErrors(); n > before {
		c.Fail(src, "the race detector reported %d data races (see the report on stderr)", n-before)
	}
	type event struct {
		at time.Duration
		id string
	}
	var events []event
	for g := range work {
		for k := range work[g] {
			o, rec := &work[g][k], &recs[g][k]
			c.Eval(1)
			if rec.panicked != "" {
				c.Fail(src, "goroutine %d: %s panicked: %s", g, o.name, rec.panicked)
			}
			if want := o.want(); rec.got != want {
				c.Fail(src, "goroutine %d: %s gives another result than alone:\n%s\n%s", g, o.name, clip(rec.got, 1500), clip(want, 1500))
			}
			c.Count("op_"+o.name, 1)
			events = append(events, event{rec.begin, fmt.Sprintf("b%d.%d", g, k)}, event{rec.end, fmt.Sprintf("e%d.%d", g, k)})
		}
	}
	sort.SliceStable(events, func(i, j int) bool { return events[i].at < events[j].at })
	var order strings.Builder
	open, overlaps := 0, 0
	for _, e := range events {
		order.WriteString(e.id)
		if e.id[0] == 'b' {
			overlaps += open
			open++
		} else {
			open--
		}
	}
	c.Count("overlapping_operation_pairs", overlaps)
	c.Count("goroutines", len(work))
	c.Seen(order.String() + src) // one schedule: the order of all begins and ends
	if raceBuild {
		c.Count("cases_under_race_detector", 1)
	}
}

func once(f func() string) func() string {
	var v string
	done := false
	return func() string {
		if !done {
			v, done = f(), true
		}
		return v
	}
}

// opParse parses and renders a text of its own.
func opParse(src string) op {
	run := func() string {
		a := ast.NewAST(src)
		return observe(a, a.Parse()).hash()
	}
	return op{"parse", func(*rand.Rand) string { return run() }, once(run)}
}

// opTokens reads tokens, letting others run at any moment the source is looked at.
func opTokens(src string) op {
	read := func(s ast.Iast) string {
		var b strings.Builder
		var t ast.Token
		for n := 0; n <= len(src); n++ {
			k, err := t.Next(s)
			lit, _ := literalOf(&t)
			fmt.Fprintf(&b, "%d %q %v %v\n", k, lit, err, n%50 == 0 && t.GetPosition().Line > 0)
			if k == ast.EOF {
				break
			}
		}
		return b.String()
	}
	return op{"tokens", func(r *rand.Rand) string { return read(&yieldText{src, r}) }, once(func() string { return read(srcText(src)) })}
}

type yieldText struct {
	s string
	r *rand.Rand
}

func (y *yieldText) SrsCode() string {
	if y.r.IntN(64) == 0 {
		runtime.Gosched()
	}
	return y.s
}

func opLower(s string) op {
	return op{"lower", func(*rand.Rand) string { return fast_tolower.FastToLower(s) }, once(func() string { return lowerOracle(s) })}
}

// shared is one tree that several goroutines read.
type shared struct {
	src  string
	a    *ast.AstNode
	lone *ast.AstNode // the same text parsed apart, for the expected results
	n    int          // statements
}

func newShared(c *mon.Ctx, src string) *shared {
	s := &shared{src: src}
	s.a, s.lone = ast.NewAST(src), ast.NewAST(src)
	if s.a.Parse() != nil || s.lone.Parse() != nil {
		c.Skip("rejected_text")
	}
	st, _ := blockStatements(s.a)
	s.n = len(st)
	return s
}

// opRead is one read-only operation on a shared tree. Nothing has rendered the tree before.
func (s *shared) opRead(r *rand.Rand) op {
	var f func(a *ast.AstNode, y *rand.Rand) string
	name := ""
	conf := randConf(r)
	switch k := r.IntN(8); {
	case k < 2:
		name = "Print"
		f = func(a *ast.AstNode, y *rand.Rand) string { return a.Print(conf) }
	case k < 4:
		name = "JSON"
		f = func(a *ast.AstNode, y *rand.Rand) string {
			j, err := a.JSON()
			return fmt.Sprint(string(j), err)
		}
	case k == 4 && s.n > 0:
		name = "PrintStatement"
		n := r.IntN(s.n)
		withConf := r.IntN(2) == 0
		f = func(a *ast.AstNode, y *rand.Rand) string {
			st, _ := blockStatements(a)
			if withConf {
				return a.PrintStatementWithConf(st[n], conf)
			}
			return a.PrintStatement(st[n])
		}
	case k == 5:
		name = "tree"
		f = func(a *ast.AstNode, y *rand.Rand) string { return canonModule(a).String() }
	default:
		name = "Walk"
		f = func(a *ast.AstNode, y *rand.Rand) string {
			var b strings.Builder
			a.Walk(func(root *ast.FunctionOrProcedure, parent, stm *ast.Statement) {
				if y != nil && y.IntN(30) == 0 {
					runtime.Gosched()
				}
				if root != nil {
					b.WriteString(root.Name)
				}
				if parent != nil && *parent != nil {
					fmt.Fprintf(&b, " %T", *parent)
				}
				fmt.Fprintf(&b, " %T;", *stm)
			})
			return b.String()
		}
	}
	return op{name, func(y *rand.Rand) string { return f(s.a, y) }, func() string { return f(s.lone, nil) }}
}

func raceText(r *rand.Rand) string {
	cfg := cfgFor(r)
	cfg.Budget = min(cfg.Budget, 60)
	toks := gen.Unparse(r, gen.Wild(r), gen.New(r, cfg).Module())
	switch r.IntN(6) {
	case 0:
		toks = mutateTokens(r, toks)
	case 1:
		return mutateBytes(r, gen.Full(r, gen.New(r, cfg).Module()))
	case 2:
		return tokenSoup(r)
	}
	s, _ := gen.Render(r, gen.RandLayout(r), toks)
	return s
}

func goodText(r *rand.Rand, budget int) string {
	cfg := cfgFor(r)
	cfg.Budget = min(cfg.Budget, budget)
	return gen.Full(r, gen.New(r, cfg).Module())
}

// firstProbe runs in a process of its own, whose very first use of the code is concurrent.
func firstProbe(spec string) {
	var seed uint64
	var n int
	fmt.Sscanf(spec, "%d:%d", &seed, &n)
	r := rand.New(rand.NewPCG(seed, 99))
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	texts := make([]string, n)
	for k := range texts {
		texts[k] = raceText(r)
		if r.IntN(3) == 0 {
			texts[k] = texts[0]
		}
	}
	got := make([]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for k := range texts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			a := ast.NewAST(texts[k])
			got[k] = observe(a, a.Parse()).hash()
		}()
	}
	close(start)
	wg.Wait()
	for k := range texts {
		a := ast.NewAST(texts[k])
		if want := observe(a, a.Parse()).hash(); got[k] != want {
			fmt.Fprintf(out, "DIFFERS %q: %s, alone %s\n", texts[k], got[k], want)
		}
	}
	if n := raceErrors(); n > 0 {
		fmt.Fprintf(out, "RACES %d\n", n)
	}
	fmt.Fprintln(out, "done", len(texts))
}

// Texts that leave a parse inside something for long, and short ones whose outcome depends on what the
// parse is inside of. State that two parses share shows when one looks while the other is there.
var holders = []string{
	"Пока А Цикл %s КонецЦикла;",
	"Для А = 1 По 2 Цикл Для Каждого Б Из В Цикл %s КонецЦикла; КонецЦикла;",
	"Процедура П() %s КонецПроцедуры",
	"Функция П() %s КонецФункции",
	"Попытка А(); Исключение %s КонецПопытки;",
	"Если А Тогда %s ИначеЕсли Б Тогда Б(); Иначе В(); КонецЕсли;",
	"#Область А\n%s\n#КонецОбласти",
	"А = Б(%s);",
}

var holderBodies = []string{"А = 1;", "Если А Тогда Б(); КонецЕсли;", "А.Б(В)[1].Г = Новый Массив(1, \"а\n|б\");", "Возврат;", "Перейти ~М; ~М:", "а(?(Б, В, Г), , '20240101');"}

var probes = []string{
	"Прервать;", "Продолжить;", "Пока А Цикл КонецЦикла; Прервать;", "Пока А Цикл Прервать; КонецЦикла;",
	"Процедура П() Прервать; КонецПроцедуры", "Процедура П() Возврат 1; КонецПроцедуры", "Функция П() Возврат 1; КонецФункции",
	"Функция П() Возврат; КонецФункции", "Возврат 1;", "Возврат;", "ВызватьИсключение;", "Попытка А(); Исключение ВызватьИсключение; КонецПопытки;",
	"Попытка ВызватьИсключение; Исключение КонецПопытки;", "Перем А; Процедура П() Перем Б; КонецПроцедуры", "Процедура П() А = 1; Перем Б; КонецПроцедуры",
	"А = ; Б = 1;", "А = 1; ) Б = 2;", "А = \"б", "А = 'а';", "#Область А\n А = 1;\n#КонецОбласти\nБ = 2;", "Пока А Цикл", "КонецЦикла;", "Ф(А Б);", "", "Процедура П(Знач А = 1, Б) Экспорт КонецПроцедуры",
}

// pressure repeats a few operations hundreds of times in every goroutine, without pauses between them.
func pressure(c *mon.Ctx, i int) {
	type job struct {
		name string
		src  string // of a probe
		run  func() string
		want string
		n    int
		bad  string
	}
	parse := func(src string) func() string {
		return func() string {
			a := ast.NewAST(src)
			err := a.Parse()
			if err != nil {
				return "error " + err.Error()
			}
			j, err := a.JSON()
			return fmt.Sprint(string(j), err)
		}
	}
	work := make([][]*job, 8)
	switch i % 3 {
	case 0, 1: // half of them hold, half of them probe
		h := holders[c.R.IntN(len(holders))]
		body := strings.Repeat(holderBodies[c.R.IntN(len(holderBodies))]+"\n", 60)
		if strings.HasPrefix(h, "А = Б(") {
			body = strings.Repeat("1, ", 300) + "1"
		}
		holder := fmt.Sprintf(h, body)
		for g := range work {
			if g%2 == 0 {
				work[g] = append(work[g], &job{name: "holder", run: parse(holder), n: 60})
				continue
			}
			for k := 0; k < 8; k++ {
				src := probes[c.R.IntN(len(probes))]
				work[g] = append(work[g], &job{name: "probe", src: src, run: parse(src), n: 80})
			}
		}
		c.Doing(holder)
	case 2: // every goroutine renders a tree of its own, all of one shape and of other names
		texts := []string{
			"Процедура П@(А@, Знач Б@ = 1) Экспорт Ф@(А@, \"@\", Новый Массив(@), В@.Г(@)[@]); Если Не А@ Тогда Б@ = '20240101'; ИначеЕсли @ Тогда Иначе Пока А@ Цикл Прервать; КонецЦикла; КонецЕсли; КонецПроцедуры",
			"Перем М@, Н@ Экспорт; Функция Ф@(" + strings.Repeat("А@, ", 40) + "Б@) Возврат ?(А@, Б@, -@); КонецФункции Ф@(" + strings.Repeat("А@, ", 80) + "Б@);",
		}
		conf := randConf(c.R)
		for g := range work {
			a := ast.NewAST(strings.ReplaceAll(texts[c.R.IntN(2)], "@", fmt.Sprint(g+1)))
			if a.Parse() != nil {
				c.Skip("rejected_text")
			}
			st, _ := blockStatements(a)
			work[g] = append(work[g],
				&job{name: "Print", run: func() string { return a.Print(conf) }, n: 150},
				&job{name: "JSON", run: func() string { j, err := a.JSON(); return fmt.Sprint(string(j), err) }, n: 150},
				&job{name: "PrintStatement", run: func() string {
					var b strings.Builder
					for _, s := range st {
						b.WriteString(a.PrintStatementWithConf(s, conf))
						b.WriteString(a.PrintStatement(s))
					}
					return b.String()
				}, n: 60})
			c.Doing(texts[0])
		}
	}
	for g := range work {
		for _, j := range work[g] {
			j.want = j.run() // nothing else runs yet; but earlier parses were in this process, so the verdict is checked
			if j.name != "probe" {
				continue
			}
			if r := ref.Parse(j.src); r.Accept() && strings.HasPrefix(j.want, "error") || r.Reject() && !strings.HasPrefix(j.want, "error") {
				c.Fail(j.src, "after other parses in the process, some of which failed or ran concurrently: %s", clip(j.want, 1500))
			}
		}
	}
	before := raceErrors()
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range work {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for round := 0; round < 150; round++ {
				for _, j := range work[g] {
					if round < j.n && j.bad == "" {
						func() {
							defer func() {
								if e := recover(); e != nil {
									j.bad = fmt.Sprint("panic: ", e)
								}
							}()
							if got := j.run(); got != j.want {
								j.bad = "it gave " + got
							}
						}()
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g := range work {
		for _, j := range work[g] {
			c.Eval(j.n)
			c.Count("operations_under_pressure", j.n)
			if j.bad != "" {
				c.Fail(j.want, "goroutine %d: %s, repeated while others run: %s\nalone: %s", g, j.name, clip(j.bad, 1500), clip(j.want, 1500))
			}
		}
	}
	if n := raceErrors(); n > before {
		c.Fail("", "the race detector reported %d data races (see the report on stderr)", n-before)
	}
	c.Seen(fmt.Sprint("pressure", i, c.R.Uint64()))
}

func init() {
	groups := []mon.Group{
		{Name: "fresh", Quick: 24, Deep: 1000, Run: func(c *mon.Ctx, i int) {
			n := 2 + c.R.IntN(14)
			spec := fmt.Sprintf("%d:%d", c.R.Uint64()>>1, n)
			cmd := exec.Command(os.Args[0], "-probe", "first:"+spec)
			var errb strings.Builder
			cmd.Stderr = &errb
			out, err := cmd.Output()
			c.Eval(n)
			if s := string(out); err != nil || !strings.HasPrefix(s, "done") {
				c.Fail(s, "a process that begins with %d concurrent parses: %v\n%s\n%s", n, err, clip(s, 1500), clip(errb.String(), 6000))
			}
			c.Count("fresh_processes", 1)
			c.Seen("fresh" + spec)
		}},
		{Name: "parse", Quick: 900, Deep: 40000, Run: func(c *mon.Ctx, i int) {
			n := pick(c.R, 2, 2, 3, 4, 8, 16)
			common := raceText(c.R)
			if i%3 == 0 {
				common = goodText(c.R, 60)
			}
			work := make([][]op, n)
			for g := range work {
				for k := 1 + c.R.IntN(4); k > 0; k-- {
					src := common
					if c.R.IntN(2) == 0 {
						src = raceText(c.R)
					}
					switch c.R.IntN(6) {
					case 0:
						work[g] = append(work[g], opTokens(src))
					case 1:
						work[g] = append(work[g], opLower(src))
					default:
						work[g] = append(work[g], opParse(src))
					}
				}
			}
			concurrently(c, common, work)
			c.Sample("%d goroutines, text %q", n, clip(common, 120))
		}},
		{Name: "shared", Quick: 900, Deep: 40000, Run: func(c *mon.Ctx, i int) {
			s := newShared(c, goodText(c.R, pick(c.R, 10, 60, 150)))
			n := pick(c.R, 2, 2, 3, 4, 8, 16)
			work := make([][]op, n)
			for g := range work {
				for k := 1 + c.R.IntN(4); k > 0; k-- {
					work[g] = append(work[g], s.opRead(c.R))
				}
			}
			concurrently(c, s.src, work)
		}},
		{Name: "together", Quick: 400, Deep: 20000, Run: func(c *mon.Ctx, i int) {
			// several shared trees, and parses of the same and other texts at the same time
			var trees []*shared
			for k := 1 + c.R.IntN(3); k > 0; k-- {
				trees = append(trees, newShared(c, goodText(c.R, 60)))
			}
			work := make([][]op, pick(c.R, 3, 6, 12))
			for g := range work {
				for k := 1 + c.R.IntN(5); k > 0; k-- {
					s := trees[c.R.IntN(len(trees))]
					switch c.R.IntN(8) {
					case 0:
						work[g] = append(work[g], opParse(raceText(c.R)))
					case 1:
						work[g] = append(work[g], opParse(s.src))
					case 2:
						work[g] = append(work[g], opTokens(s.src))
					case 3:
						work[g] = append(work[g], opLower(s.src))
					default:
						work[g] = append(work[g], s.opRead(c.R))
					}
				}
			}
			concurrently(c, trees[0].src, work)
		}},
		{Name: "every", Quick: 60, Deep: 2000, Run: func(c *mon.Ctx, i int) {
			// every generated shape once: each statement printed by one goroutine while others render the whole
			cfg := cfgFor(c.R)
			cfg.Budget, cfg.Exotic, cfg.Routines, cfg.Globals = 200, true, 4, 3
			s := newShared(c, gen.Full(c.R, gen.New(c.R, cfg).Module()))
			work := make([][]op, 6)
			for g := range work {
				for k := 0; k < 12; k++ {
					work[g] = append(work[g], s.opRead(c.R))
				}
			}
			concurrently(c, s.src, work)
		}},
		{Name: "crowd", Quick: 20, Deep: 600, Run: func(c *mon.Ctx, i int) {
			// many goroutines at once, small equal or different texts
			work := make([][]op, 200)
			src := goodText(c.R, 8)
			for g := range work {
				if i%2 == 0 {
					src = goodText(c.R, 8)
				}
				work[g] = []op{opParse(src), opLower(src)}
			}
			concurrently(c, src, work)
		}},
	}
	groups = append(groups, mon.Group{Name: "pressure", Quick: 36, Deep: 1500, Run: pressure})
	groups = append(groups, mon.Group{Name: "constructs", Quick: len(nestKinds), Deep: 20 * len(nestKinds), Run: func(c *mon.Ctx, i int) {
		src := nestText(i, 1+c.R.IntN(40), 0)
		work := make([][]op, 4)
		for g := range work {
			work[g] = []op{opParse(src), opTokens(src), opLower(src)}
		}
		concurrently(c, src, work)
	}})
	register(&mon.Check{ID: "C19", Groups: groups, Workers: 4, Procs: 4,
		Env: []string{"GORACE=halt_on_error=0 exitcode=66 history_size=5"},
		Scan: func(stderr string) string {
			if k := strings.Index(stderr, "WARNING: DATA RACE"); k >= 0 {
				return stderr[k:]
			}
			if k := strings.Index(stderr, "fatal error: concurrent map"); k >= 0 {
				return stderr[k:]
			}
			return ""
		},
		Rule:        "the code and the monitor are built with the race detector; goroutines released together parse equal and different, accepted and rejected texts, read tokens, lower strings, and render a tree nobody has rendered before; every result is compared with that of the operation alone, and any race report is a violation; distinct: orders of the begins and ends of all operations",
		Assumptions: []string{"schedules are those the Go scheduler produced with injected yields, spins and sleeps; the race detector judges by happens-before, so it needs the two accesses but not the bad timing"},
		MinCounts:   map[string]int64{"cases_under_race_detector": 1000, "overlapping_operation_pairs": 3000, "fresh_processes": 20, "op_Print": 300, "op_JSON": 300, "op_Walk": 300, "op_PrintStatement": 100, "operations_under_pressure": 50000}})
}
