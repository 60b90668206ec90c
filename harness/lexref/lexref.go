// Package lexref is an independent tokeniser for the language, written from its definition.
package lexref

import (
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"
)

type Kind string

// Keyword kinds are the lower-case keywords themselves; punctuation kinds are their text.
const (
	EOF       Kind = "EOF"
	Ident     Kind = "ident"
	Number    Kind = "number"
	String    Kind = "string"
	Date      Kind = "date"
	Label     Kind = "label"
	Directive Kind = "directive"
)

var Keywords = []string{"процедура", "перем", "перейти", "конецпроцедуры", "знач", "если", "тогда", "иначеесли", "иначе", "конецесли", "для", "каждого", "из", "по", "цикл", "конеццикла", "прервать", "продолжить", "попытка", "новый", "исключение", "пока", "конецпопытки", "функция", "конецфункции", "возврат", "вызватьисключение", "и", "или", "истина", "ложь", "неопределено", "не", "экспорт", "выполнить"}

var Directives = []string{"&наклиенте", "&насервере", "&насерверебезконтекста", "&наклиентенасерверебезконтекста", "&наклиентенасервере"}

var kw = map[string]bool{}
var dir = map[string]bool{}

func init() {
	for _, k := range Keywords {
		kw[k] = true
	}
	for _, d := range Directives {
		dir[d] = true
	}
}

func IsKeyword(s string) bool { return kw[Lower(s)] }

// Lower lowers ASCII and Russian letters only.
func Lower(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'A' && r <= 'Z', r >= 'А' && r <= 'Я':
			return r + 0x20
		case r == 'Ё':
			return 'ё'
		}
		return r
	}, s)
}

type Token struct {
	Kind       Kind
	Lit        string // literal as reported in diagnostics
	Start, End int    // byte offsets of the source text of the token
	Num        float64
	Date       time.Time
	Odd        bool // legal for the tokeniser but outside the defined language (empty label, ...)
}

type Error struct {
	Offset int
	Msg    string
}

func (e *Error) Error() string { return fmt.Sprintf("%s at %d", e.Msg, e.Offset) }

// Lex tokenises text. odd reports layout that the language definition does not settle
// (a # line that does not start a line, a # line or a comment in unusual places in a string).
func Lex(s string) (toks []Token, odd bool, err *Error) {
	l := &lexer{s: s}
	for {
		t, e := l.next()
		if e != nil {
			return toks, l.odd, e
		}
		if t.Odd {
			l.odd = true
		}
		if t.Kind == EOF {
			return toks, l.odd, nil
		}
		toks = append(toks, t)
	}
}

type lexer struct {
	s      string
	i      int
	odd    bool
	dot    bool
	lastWS bool
}

func (l *lexer) cur() rune {
	if l.i >= len(l.s) {
		return -1
	}
	c := l.s[l.i]
	if c < utf8.RuneSelf {
		return rune(c)
	}
	r, _ := utf8.DecodeRuneInString(l.s[l.i:])
	return r
}

func space(r rune) bool  { return r == ' ' || r == '\t' || r == '\r' || r == '\n' }
func letter(r rune) bool { return r == '_' || (r >= 0 && unicode.IsLetter(r)) }
func digit(r rune) bool  { return r >= '0' && r <= '9' }

func (l *lexer) skipLine() {
	if k := strings.IndexByte(l.s[l.i:], '\n'); k < 0 {
		l.i = len(l.s)
	} else {
		l.i += k
	}
}

// blanks skips white space, comments and # lines.
func (l *lexer) blanks() {
	for l.i < len(l.s) {
		switch {
		case space(rune(l.s[l.i])):
			l.i++
		case strings.HasPrefix(l.s[l.i:], "//"):
			l.skipLine()
		case l.s[l.i] == '#':
			bol := strings.LastIndexByte(l.s[:l.i], '\n') + 1
			if strings.Trim(l.s[bol:l.i], " \t\r") != "" {
				l.odd = true
			}
			l.skipLine()
		default:
			return
		}
	}
}

func (l *lexer) next() (Token, *Error) {
	l.blanks()
	start := l.i
	afterDot := l.dot
	l.dot = false
	fail := func(msg string) (Token, *Error) { return Token{}, &Error{start, msg} }
	r := l.cur()
	switch {
	case r == -1:
		return Token{Kind: EOF, Start: start, End: start}, nil
	case letter(r):
		w := l.word()
		k := Ident
		if low := Lower(w); kw[low] && !afterDot {
			k = Kind(low)
		}
		return Token{Kind: k, Lit: w, Start: start, End: l.i}, nil
	case digit(r):
		for digit(l.cur()) || l.cur() == '.' {
			l.i++
		}
		lit := l.s[start:l.i]
		if letter(l.cur()) {
			return fail("identifier follows number")
		}
		if strings.Count(lit, ".") > 1 {
			return fail("number with several points")
		}
		f, err := strconv.ParseFloat(lit, 64)
		if err != nil {
			return fail("number out of range")
		}
		return Token{Kind: Number, Lit: lit, Num: f, Start: start, End: l.i}, nil
	case r == '\'':
		l.i++
		k := strings.IndexByte(l.s[l.i:], '\'')
		if k < 0 {
			return fail("unterminated date")
		}
		body := l.s[l.i : l.i+k]
		l.i += k + 1
		if strings.Contains(body, "\n") {
			l.odd = true // a date over several lines: not settled by the language definition
		}
		lit := strings.Map(func(r rune) rune {
			if digit(r) {
				return r
			}
			return -1
		}, body)
		if lit == "" {
			return fail("date without digits")
		}
		t := Token{Kind: Date, Lit: lit, Start: start, End: l.i}
		if strings.Trim(lit, "0") == "" {
			if n := len(lit); n != 8 && n != 12 && n != 14 {
				l.odd = true
			}
			return t, nil
		}
		d, ok := parseDate(lit)
		if !ok {
			return fail("no such date")
		}
		t.Date = d
		return t, nil
	case r == '"':
		return l.str()
	case r == '&':
		l.i++
		w := l.word()
		if dir[Lower("&"+w)] {
			return Token{Kind: Directive, Lit: "&" + w, Start: start, End: l.i}, nil
		}
		return fail("unknown directive")
	case r == '~':
		l.i++
		w := l.word()
		odd := w == "" || digit(rune(w[0]))
		return Token{Kind: Label, Lit: w, Start: start, End: l.i, Odd: odd}, nil
	}
	for _, op := range []string{"<>", "<=", ">=", "<", ">", "=", ".", "/", ";", "(", ")", ",", "-", "+", "*", "?", "[", "]", ":", "%"} {
		if strings.HasPrefix(l.s[l.i:], op) {
			l.i += len(op)
			l.dot = op == "."
			return Token{Kind: Kind(op), Lit: op, Start: start, End: l.i}, nil
		}
	}
	return fail("illegal character")
}

func (l *lexer) word() string {
	st := l.i
	for {
		r := l.cur()
		if !letter(r) && !digit(r) {
			return l.s[st:l.i]
		}
		if r == utf8.RuneError {
			l.i++
		} else {
			l.i += utf8.RuneLen(r)
		}
	}
}

// str reads a string: doubled quotes stay doubled, a line that starts with | continues it,
// comment lines between continuation lines are dropped, adjacent strings are one.
func (l *lexer) str() (Token, *Error) {
	start := l.i
	var b strings.Builder
	fail := func(msg string) (Token, *Error) { return Token{}, &Error{start, msg} }
	l.i++
	end := l.i
	for {
		if l.i >= len(l.s) {
			return fail("unterminated string")
		}
		switch c := l.s[l.i]; c {
		case '"':
			if strings.HasPrefix(l.s[l.i:], `""`) {
				b.WriteString(`""`)
				l.i += 2
				continue
			}
			l.i++
			end = l.i
			for l.i < len(l.s) && space(rune(l.s[l.i])) {
				l.i++
			}
			if l.i < len(l.s) && l.s[l.i] == '"' {
				l.i++
				continue
			}
			save := l.i
			l.blanks()
			if l.i != save && l.i < len(l.s) && l.s[l.i] == '"' {
				l.odd = true // strings separated by a comment
			}
			l.i = end
			return Token{Kind: String, Lit: b.String(), Start: start, End: end}, nil
		case '\n':
			l.i++
			for {
				for l.i < len(l.s) && space(rune(l.s[l.i])) {
					l.i++
				}
				if !strings.HasPrefix(l.s[l.i:], "//") {
					break
				}
				l.skipLine()
			}
			if strings.HasPrefix(l.s[l.i:], "#") {
				l.odd = true
				return fail("# line in a string")
			}
			if l.i >= len(l.s) || l.s[l.i] != '|' {
				return fail("string not continued")
			}
			b.WriteString("\n|")
			l.i++
		default:
			r, n := utf8.DecodeRuneInString(l.s[l.i:])
			if r == utf8.RuneError && n == 1 {
				l.odd = true
			}
			b.WriteString(l.s[l.i : l.i+n])
			l.i += n
		}
	}
}

func parseDate(d string) (time.Time, bool) {
	at := func(i, n int) int {
		v := 0
		for _, c := range d[i : i+n] {
			v = v*10 + int(c-'0')
		}
		return v
	}
	y, mo, da, h, mi, s := 0, 0, 0, 0, 0, 0
	switch len(d) {
	case 14:
		s = at(12, 2)
		fallthrough
	case 12:
		h, mi = at(8, 2), at(10, 2)
		fallthrough
	case 8:
		y, mo, da = at(0, 4), at(4, 2), at(6, 2)
	default:
		return time.Time{}, false
	}
	days := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
		days[1] = 29
	}
	if mo < 1 || mo > 12 || da < 1 || da > days[mo-1] || h > 23 || mi > 59 || s > 59 {
		return time.Time{}, false
	}
	return time.Date(y, time.Month(mo), da, h, mi, s, 0, time.UTC), true
}

// LineCol is the 1-based line and the 0-based column in characters of a byte offset.
func LineCol(s string, off int) (line, col int) {
	line = 1 + strings.Count(s[:off], "\n")
	bol := strings.LastIndexByte(s[:off], '\n') + 1
	return line, len([]rune(s[bol:off]))
}
