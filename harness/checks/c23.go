package checks

import (
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/LazarenkoA/1c-language-parser/ast/fast_tolower"

	"verif/mon"
	"verif/san"
)

// ---- C23: FastToLower ----

// lowerOracle lowers A-Z, А-Я and Ё and nothing else.
func lowerOracle(s string) string {
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		switch {
		case b[i] >= 'A' && b[i] <= 'Z':
			b[i] += 'a' - 'A'
		case b[i] == 0xd0 && i+1 < len(b):
			switch n := b[i+1]; {
			case n == 0x81: // Ё U+0401 -> ё U+0451
				b[i], b[i+1] = 0xd1, 0x91
				i++
			case n >= 0x90 && n <= 0x9f: // А-П U+0410-041F -> а-п U+0430-043F
				b[i+1] = n + 0x20
				i++
			case n >= 0xa0 && n <= 0xaf: // Р-Я U+0420-042F -> р-я U+0440-044F
				b[i], b[i+1] = 0xd1, n-0x20
				i++
			}
		}
	}
	return string(b)
}

// arena gives strings that end where the memory ends: reading one byte more is a fault.
type arena struct {
	mem  []byte
	size int
}

func newArena(pages int) *arena {
	p := syscall.Getpagesize()
	m, err := syscall.Mmap(-1, 0, (pages+2)*p, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[:p], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[(pages+1)*p:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	return &arena{m[p : (pages+1)*p], pages * p}
}

// place puts s at the end (or the beginning) of the arena, read-only when locked.
func (a *arena) place(s string, atEnd, lock bool) string {
	if err := syscall.Mprotect(a.mem, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
		panic(err)
	}
	off := 0
	if atEnd {
		off = len(a.mem) - len(s)
	}
	copy(a.mem[off:], s)
	if lock {
		if err := syscall.Mprotect(a.mem, syscall.PROT_READ); err != nil {
			panic(err)
		}
	}
	if len(s) == 0 {
		return unsafe.String(unsafe.SliceData(a.mem), 0)
	}
	return unsafe.String(&a.mem[off], len(s))
}

var theArena *arena

// lower checks one call on a private copy of s, and with guard pages around the argument.
func lower(c *mon.Ctx, s string, guard bool) {
	c.Eval(1)
	c.Doing(s)
	want := lowerOracle(s)
	buf := []byte("АZ" + s + "ЯA") // neighbours that a stray write or read would show
	arg := unsafe.String(&buf[3], len(s))
	got := fast_tolower.FastToLower(arg)
	if got != want {
		c.Fail(s, "FastToLower(%s) = %s, want %s", clip(fmt.Sprintf("%q", s), 1000), clip(fmt.Sprintf("%q", got), 1000), clip(fmt.Sprintf("%q", want), 1000))
	}
	if string(buf) != "АZ"+s+"ЯA" {
		c.Fail(s, "FastToLower changed its argument or what lies around it: %s", clip(fmt.Sprintf("%q", buf), 1000))
	}
	// the result is a string of its own: changing the argument afterwards must not show in it
	for k := range buf {
		buf[k] = '#'
	}
	if s != want && got != want {
		c.Fail(s, "the result of FastToLower shares memory with its argument")
	}
	c.Count("bytes_lowered", len(s))
	if guard && len(s) <= 8192 {
		if theArena == nil {
			theArena = newArena(2)
		}
		for k := 0; k < 2; k++ {
			p := theArena.place(s, k == 0, true)
			if got := fast_tolower.FastToLower(p); got != want {
				c.Fail(s, "FastToLower of a string at the edge of memory = %q, want %q", got, want)
			}
		}
		c.Count("calls_between_guard_pages", 2)
	}
	if s != want {
		c.Count("strings_with_capitals", 1)
	}
	if san.On {
		c.Count("calls_under_asan", 1)
	}
}

// leak calls FastToLower over and over: memory that is still in use afterwards, every time, leaks.
func leak(c *mon.Ctx, texts []string) {
	const rounds = 64
	for try := 0; ; try++ {
		before := san.Allocated()
		for n := 0; n < rounds; n++ {
			for _, s := range texts {
				fast_tolower.FastToLower(s)
			}
		}
		grown := san.Allocated() - before
		c.Count("leak_measurements", 1)
		if grown < rounds {
			return
		}
		if try == 4 {
			c.Fail(strings.Join(texts, "\n"), "%d calls of FastToLower leave %d bytes of C memory in use, in each of five measurements", rounds*len(texts), grown)
		}
	}
}

var lowerPool = []string{"A", "Z", "a", "z", "@", "[", "`", "{", "А", "П", "Р", "Я", "а", "п", "р", "я", "Ё", "ё", "Ѐ", "Ђ", "Џ", "ѐ", "џ", "Ѡ", "À", "Þ", "ß", "Ā", "İ", "Ω", "К", "Å", "Ԁ", "ﬀ", "日", "𝐀", "😀", "\xd0", "\xd1", "\xd0\xd0", "\xd0A", "\x90", "\xaf", "\x81", "\xc0", "\xc1\x81", "\xdf\xbf", "\xe0\xd0\x90", "\xe0\x90", "\xf0\x9d", "\xed\xa0\x80", "\xff", "\xfe", "\xef\xbb\xbf", "\x00", "\x7f", "\x80", " ", "_", "1", "\n"}

func lowerText(r *rand.Rand, n int) string {
	var b strings.Builder
	mode := r.IntN(6)
	for k := 0; k < n; k++ {
		switch {
		case mode == 0:
			b.WriteByte(byte(r.UintN(256)))
		case mode == 1:
			b.WriteRune(rune(0x400 + r.IntN(0x60)))
		case mode == 2:
			b.WriteByte(byte(r.UintN(128)))
		case mode == 3:
			b.WriteByte([]byte{0xd0, 0xd1, 0x90, 0x9f, 0xa0, 0xaf, 0x81, 0xe0, 0xf0, 'A'}[r.IntN(10)])
		default:
			b.WriteString(lowerPool[r.IntN(len(lowerPool))])
		}
	}
	return b.String()
}

// edges are lengths around which buffers and blocks begin and end.
func edges(r *rand.Rand) int {
	p := 1 << r.IntN(14)
	return max(0, p+r.IntN(5)-2)
}

func init() {
	groups := []mon.Group{
		{Name: "runes", Quick: 0x110000 / 256, Deep: 0x110000 / 256, Run: func(c *mon.Ctx, i int) {
			for k := 0; k < 256; k++ {
				s := string(rune(i*256 + k))
				guard := i < 16
				lower(c, s, guard)
				lower(c, "А"+s+"Я", guard)
				if i < 16 || c.R.IntN(16) == 0 {
					lower(c, s+s, guard)
					lower(c, s[:len(s)-1], guard)
					lower(c, s[:len(s)-1]+"Ё", guard)
					lower(c, s[1:], guard)
				}
			}
			c.Count("code_points", 256)
			c.Seen(fmt.Sprint("runes", i))
		}},
		{Name: "pairs", Quick: 256, Deep: 256, Run: func(c *mon.Ctx, i int) {
			for k := 0; k < 256; k++ {
				s := string([]byte{byte(i), byte(k)})
				lower(c, s, k%4 == 0)
				lower(c, "\xd0"+s, false)
				lower(c, s+"\x90", false)
				lower(c, "AЯ"+s+"ЯA", false)
				if c.Tier == "thorough" {
					for x := 0; x < 256; x++ {
						lower(c, s+string([]byte{byte(x)}), false)
					}
				}
			}
			c.Count("byte_pairs", 256)
			c.Seen(fmt.Sprint("pairs", i))
		}},
		{Name: "pool", Quick: len(lowerPool), Deep: len(lowerPool), Run: func(c *mon.Ctx, i int) {
			for _, y := range lowerPool {
				lower(c, lowerPool[i]+y, true)
				for _, z := range lowerPool {
					lower(c, lowerPool[i]+y+z, true)
				}
			}
			c.Seen(fmt.Sprint("pool", i))
		}},
		{Name: "lengths", Quick: 700, Deep: 5000, Run: func(c *mon.Ctx, i int) {
			// one interesting piece at every offset around the edges of every length
			for _, p := range []string{"Ё", "Я", "Z", "\xd0", "\xd0\x90", "\xe0\xd0"} {
				for _, fill := range []string{"x", "а", "Q", "\xff", "\x00"} {
					f := strings.Repeat(fill, i/len(fill)+1)[:i]
					lower(c, f+p, true)
					lower(c, p+f, true)
					k := c.R.IntN(i + 1)
					lower(c, f[:k]+p+f[k:], true)
				}
			}
			c.Seen(fmt.Sprint("lengths", i))
		}},
		{Name: "random", Quick: 60000, Deep: 3000000, Run: func(c *mon.Ctx, i int) {
			n := c.R.IntN(40)
			if i%8 == 0 {
				n = edges(c.R)
			}
			s := lowerText(c.R, n)
			lower(c, s, i%2 == 0)
			c.Seen(s)
			c.Sample("%q", clip(s, 80))
		}},
		{Name: "huge", Quick: 12, Deep: 60, Run: func(c *mon.Ctx, i int) {
			p := []string{"Ё", "Q", "а", "Я1", "\xd0", "日Ж"}[i%6]
			n := []int{1 << 16, 1 << 20, 1<<24 + 1}[i%3]
			if c.Tier == "thorough" && i%6 == 5 {
				n = 1 << 28
			}
			s := strings.Repeat(p, n/len(p)) + strings.Repeat("\xd0", i%2)
			lower(c, s, false)
			c.Seen(fmt.Sprint("huge", i))
		}},
		{Name: "over 2 GiB", Quick: 0, Deep: 1, Run: func(c *mon.Ctx, i int) {
			out, err := exec.Command(os.Args[0], "-probe", "biglower:").CombinedOutput()
			c.Eval(1)
			if err != nil || string(out) != "done\n" {
				c.Fail("", "a string of more than 2 GiB: %v %s", err, clip(string(out), 3000))
			}
			c.Seen("big")
		}},
		{Name: "leaks", Quick: 1500, Deep: 30000, Run: func(c *mon.Ctx, i int) {
			var texts []string
			for k := 1 + c.R.IntN(4); k > 0; k-- {
				n := pick(c.R, 0, 1, 2, 5, 30, 300)
				if i%4 == 1 {
					n = edges(c.R) // memory taken otherwise for long texts
				}
				texts = append(texts, lowerText(c.R, n))
			}
			if i < len(lowerPool) {
				texts = []string{lowerPool[i]}
			}
			leak(c, texts)
			c.Seen(strings.Join(texts, "\n"))
		}},
		{Name: "many", Quick: 150, Deep: 8000, Run: func(c *mon.Ctx, i int) {
			// concurrent callers: the same and other strings, each result compared
			n := pick(c.R, 2, 4, 8, 32)
			common := lowerText(c.R, edges(c.R)/2)
			src := make([][]string, n)
			got := make([][]string, n)
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := range src {
				for k := 0; k < 40; k++ {
					s := common
					if c.R.IntN(2) == 0 {
						s = lowerText(c.R, c.R.IntN(200))
					}
					src[g] = append(src[g], s)
				}
				got[g] = make([]string, len(src[g]))
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for k, s := range src[g] {
						got[g][k] = fast_tolower.FastToLower(s)
					}
				}()
			}
			close(start)
			wg.Wait()
			for g := range src {
				for k, s := range src[g] {
					c.Eval(1)
					if want := lowerOracle(s); got[g][k] != want {
						c.Fail(s, "with %d callers at once FastToLower(%s) = %s, want %s", n, clip(fmt.Sprintf("%q", s), 1000), clip(fmt.Sprintf("%q", got[g][k]), 1000), clip(fmt.Sprintf("%q", want), 1000))
					}
				}
			}
			c.Count("concurrent_calls", n*40)
			c.Seen(common)
		}},
	}
	register(&mon.Check{ID: "C23", Groups: groups, Procs: 4,
		Env: []string{"ASAN_OPTIONS=detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=196:max_free_fill_size=1048576:free_fill_byte=208:strict_string_checks=1:detect_stack_use_after_return=1"},
		Scan: func(stderr string) string {
			if k := strings.Index(stderr, "AddressSanitizer"); k >= 0 {
				return stderr[max(0, k-80):]
			}
			return ""
		},
		Rule:        "FastToLower is built with the address sanitizer and compared with an independent lowering on every code point, every byte pair, every triple of critical pieces, every length to 700 and around powers of two, with arguments inside larger buffers and between unreadable pages in read-only memory; C memory in use is measured before and after repeated calls; concurrent callers are compared call by call; distinct: texts",
		Assumptions: []string{"a string of more than 2 GiB is tried in the thorough tier only", "C code is judged by gcc's address sanitizer: memory that was never written is caught by filling new memory with a fixed byte, not by a shadow"},
		MinCounts:   map[string]int64{"calls_under_asan": 500000, "code_points": 0x110000, "leak_measurements": 1500, "concurrent_calls": 10000, "calls_between_guard_pages": 200000}})
}

// bigLowerProbe runs in a process of its own.
func bigLowerProbe() {
	s := strings.Repeat("x", 1<<31) + "ЯA"
	got := fast_tolower.FastToLower(s)
	if len(got) == len(s) && got[1<<31:] == "яa" && got[:1<<20] == s[:1<<20] {
		fmt.Println("done")
	} else {
		fmt.Println("wrong result", len(got))
	}
}
