package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/gen"
	"verif/mon"
	"verif/tree"
)

// ---- C27: an edit stays where it is made ----

// place is one thing of a tree that a program can change through exported fields.
type place struct {
	path string
	v    reflect.Value
	what string // value, text, flag, number, entry, append
	up   int    // the enclosing place
	key  reflect.Value
}

// scan tells a tree as path -> content and lists its places.
type scan struct {
	text   map[string]string
	places []place
	up     int
	only   bool // the text only
}

var timeType = reflect.TypeOf(time.Time{})

func look(m *ast.ModuleStatement) *scan {
	s := &scan{text: map[string]string{}, up: -1}
	s.walk(reflect.ValueOf(m).Elem(), "")
	return s
}

func tell(m *ast.ModuleStatement) map[string]string {
	s := &scan{text: map[string]string{}, up: -1, only: true}
	s.walk(reflect.ValueOf(m).Elem(), "")
	return s.text
}

func (s *scan) place(path string, v reflect.Value, what string) int {
	if s.only {
		return -1
	}
	s.places = append(s.places, place{path: path, v: v, what: what, up: s.up})
	return len(s.places) - 1
}

func (s *scan) under(i int, f func()) {
	old := s.up
	if i >= 0 {
		s.up = i
	}
	f()
	s.up = old
}

func (s *scan) walk(v reflect.Value, path string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			s.text[path] = "nil"
			return
		}
		s.walk(v.Elem(), path+"*")
	case reflect.Interface:
		i := -1
		if v.CanSet() {
			i = s.place(path, v, "value")
		}
		if v.IsNil() {
			s.text[path] = "nil"
			return
		}
		s.text[path] = v.Elem().Type().String()
		s.under(i, func() { s.walk(v.Elem(), path+"!") })
	case reflect.Struct:
		if v.Type() == timeType {
			s.text[path] = v.Interface().(time.Time).String()
			return
		}
		for k := 0; k < v.NumField(); k++ {
			if f := v.Type().Field(k); f.IsExported() || f.Anonymous {
				s.walk(v.Field(k), path+"."+f.Name)
			}
		}
	case reflect.Slice:
		s.text[path+"#"] = strconv.Itoa(v.Len())
		s.place(path, v, "append")
		for k := 0; k < v.Len(); k++ {
			s.walk(v.Index(k), path+"["+strconv.Itoa(k)+"]")
		}
	case reflect.Map:
		s.text[path+"#"] = strconv.Itoa(v.Len())
		if !v.IsNil() {
			s.place(path, v, "new entry")
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(a, b int) bool { return keys[a].String() < keys[b].String() })
		for _, k := range keys {
			p := path + "{" + k.String() + "}"
			if i := s.place(p, v, "entry"); i >= 0 {
				s.places[i].key = k
			}
			s.walk(v.MapIndex(k), p)
		}
	case reflect.String:
		s.text[path] = strconv.Quote(v.String())
		if v.CanSet() {
			s.place(path, v, "text")
		}
	case reflect.Bool:
		s.text[path] = strconv.FormatBool(v.Bool())
		if v.CanSet() {
			s.place(path, v, "flag")
		}
	default:
		s.text[path] = fmt.Sprint(v.Interface())
		if v.CanSet() && v.CanInt() {
			s.place(path, v, "number")
		}
	}
}

// hides tells whether the edit of p makes the text under path uncertain.
func (p *place) hides(path string) bool {
	if !strings.HasPrefix(path, p.path) {
		return false
	}
	rest := path[len(p.path):]
	switch p.what {
	case "append":
		return rest == "#" || strings.HasPrefix(rest, "["+strconv.Itoa(p.v.Len())+"]")
	case "new entry":
		return rest == "#" || strings.HasPrefix(rest, "{§")
	}
	return true
}

// madeEdit is one edit with the means to see whether it is still there.
type madeEdit struct {
	p     place
	there func() string // "" when it is
}

func makeEdit(r *rand.Rand, p place, n int) *madeEdit {
	sign := fmt.Sprintf("§%d", n)
	mark := func(t reflect.Type) reflect.Value { // a recognisable value of the type
		x := reflect.New(t).Elem()
		switch {
		case t.Kind() == reflect.Interface:
			x.Set(reflect.ValueOf(ast.VarStatement{Name: sign}))
		case t.Kind() == reflect.String:
			x.SetString(sign)
		case t.Kind() == reflect.Struct && t.NumField() > 0:
			for k := 0; k < t.NumField(); k++ {
				if f := x.Field(k); f.Kind() == reflect.String && f.CanSet() {
					f.SetString(sign)
				}
			}
		}
		return x
	}
	e := &madeEdit{p: p}
	same := func(get func() interface{}, want interface{}) {
		e.there = func() string {
			if got := get(); !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("it holds %+v instead of %+v", got, want)
			}
			return ""
		}
	}
	v := p.v
	switch p.what {
	case "value", "text":
		x := mark(v.Type())
		v.Set(x)
		same(func() interface{} { return v.Interface() }, x.Interface())
	case "flag":
		x := !v.Bool()
		v.SetBool(x)
		same(func() interface{} { return v.Bool() }, x)
	case "number":
		x := v.Int()%7 + 1
		v.SetInt(x)
		same(func() interface{} { return v.Int() }, x)
	case "entry":
		if r.IntN(3) == 0 {
			v.SetMapIndex(p.key, reflect.Value{})
			same(func() interface{} { return v.MapIndex(p.key).IsValid() }, false)
		} else {
			x := mark(v.Type().Elem())
			v.SetMapIndex(p.key, x)
			same(func() interface{} {
				if y := v.MapIndex(p.key); y.IsValid() {
					return y.Interface()
				}
				return "nothing"
			}, x.Interface())
		}
	case "new entry":
		k, x := mark(v.Type().Key()), mark(v.Type().Elem())
		v.SetMapIndex(k, x)
		same(func() interface{} {
			if y := v.MapIndex(k); y.IsValid() {
				return y.Interface()
			}
			return "nothing"
		}, x.Interface())
	case "append":
		old := v.Len()
		x := mark(v.Type().Elem())
		grown := reflect.Append(v, x)
		if v.CanSet() && r.IntN(4) > 0 {
			v.Set(grown)
		}
		want := make([]interface{}, 0, 1)
		want = append(want, x.Interface())
		same(func() interface{} { return grown.Slice(old, old+1).Index(0).Interface() }, want[0])
		e.p.v = reflect.MakeSlice(v.Type(), old, old) // hides() needs the old length
	}
	return e
}

func textDiff(was, is map[string]string, skip func(path string) bool) string {
	found := ""
	note := func(path, a, b string) {
		if d := fmt.Sprintf("%s was %s, is %s", path, a, b); !skip(path) && (found == "" || len(d) < len(found)) {
			found = d
		}
	}
	for k, a := range was {
		b, ok := is[k]
		if !ok {
			b = "gone"
		}
		if a != b {
			note(k, a, b)
		}
	}
	for k, b := range is {
		if _, ok := was[k]; !ok {
			note(k, "not there", b)
		}
	}
	return found
}

// held is a parsed module with what is known of it.
type held struct {
	src    string
	a      *ast.AstNode
	text   map[string]string
	out    string
	outIs  string // a copy of out's bytes
	doc    []byte
	docIs  []byte
	edited bool
}

func hold(c *mon.Ctx, src string) *held {
	a, err := parse(c, src)
	if err != nil {
		c.Fail(src, "a well-formed module was rejected: %v", err)
	}
	h := &held{src: src, a: a, text: tell(&a.ModuleStatement)}
	return h
}

func (h *held) render(c *mon.Ctx) {
	if !h.edited { // what the edits leave is no module any more
		h.out = h.a.Print(randConf(c.R))
	}
	h.outIs = strings.Clone(h.out)
	h.doc, _ = h.a.JSON()
	h.docIs = bytes.Clone(h.doc)
}

func noSkip(string) bool { return false }

func (h *held) unchanged(c *mon.Ctx, what, src string) {
	if d := textDiff(h.text, tell(&h.a.ModuleStatement), noSkip); d != "" {
		c.Fail(src, "%s changed another module (parsed from %q): %s", what, clip(h.src, 300), d)
	}
	if h.out != h.outIs || !bytes.Equal(h.doc, h.docIs) {
		c.Fail(src, "%s changed text rendered before it", what)
	}
	c.Count("other_modules_compared", 1)
}

// editsStay changes places of one of several modules and looks at all of them.
func editsStay(c *mon.Ctx, texts []string, rounds int) {
	c.Eval(1)
	var all []*held
	for _, s := range texts {
		all = append(all, hold(c, s))
		if c.R.IntN(2) == 0 {
			all[len(all)-1].render(c)
		}
	}
	first := map[string]map[string]string{}
	for _, h := range all {
		if d := textDiff(h.text, tell(&h.a.ModuleStatement), noSkip); d != "" {
			c.Fail(h.src, "parsing the other modules changed this one: %s", d)
		}
		if f, ok := first[h.src]; !ok {
			first[h.src] = h.text
		} else if d := textDiff(f, h.text, noSkip); d != "" {
			c.Fail(h.src, "two parses of one text differ: %s", d)
		}
	}
	n := 0
	for ; rounds > 0; rounds-- {
		h := all[c.R.IntN(len(all))]
		if c.R.IntN(3) == 0 {
			h.render(c)
		}
		s := look(&h.a.ModuleStatement)
		if len(s.places) == 0 {
			continue
		}
		taken, above := make([]bool, len(s.places)), make([]bool, len(s.places))
		order := c.R.Perm(len(s.places))
		most := 1
		switch c.R.IntN(3) {
		case 0:
			most = 1 + c.R.IntN(len(order))
		case 1:
			most = len(order)
		}
		onlyKind := ""
		if c.R.IntN(2) == 0 {
			onlyKind = s.places[order[0]].what
		}
		var es []*madeEdit
		for _, k := range order {
			if len(es) >= most {
				break
			}
			p := s.places[k]
			if onlyKind != "" && p.what != onlyKind {
				continue
			}
			free := !above[k]
			for u := p.up; u >= 0; u = s.places[u].up {
				free = free && !taken[u]
			}
			if !free {
				continue
			}
			if p.what != "append" && p.what != "new entry" {
				taken[k] = true
			}
			for u := p.up; u >= 0 && !above[u]; u = s.places[u].up {
				above[u] = true
			}
			n++
			es = append(es, makeEdit(c.R, p, n))
			c.Count("edit_"+strings.ReplaceAll(p.what, " ", "_"), 1)
		}
		what := fmt.Sprintf("%d edits", len(es))
		if len(es) == 1 {
			what = fmt.Sprintf("the edit (%s) of %s", es[0].p.what, es[0].p.path)
		}
		now := tell(&h.a.ModuleStatement)
		stems := map[string][]*madeEdit{}
		for _, e := range es {
			if d := e.there(); d != "" {
				c.Fail(h.src, "after %s the edit (%s) of %s is lost: %s", what, e.p.what, e.p.path, d)
			}
			stems[e.p.path] = append(stems[e.p.path], e)
		}
		sizes := map[string]bool{} // maps with changed entries
		for _, e := range es {
			if e.p.what == "entry" {
				sizes[e.p.path[:strings.LastIndexByte(e.p.path, '{')]+"#"] = true
			}
		}
		hidden := func(path string) bool {
			if sizes[path] {
				return true
			}
			for k := 0; k <= len(path); k++ {
				for _, e := range stems[path[:k]] {
					if e.p.hides(path) {
						return true
					}
				}
			}
			return false
		}
		if d := textDiff(s.text, now, hidden); d != "" {
			c.Fail(h.src, "%s changed another place: %s", what, d)
		}
		h.text, h.edited = now, true
		c.Count("places_compared", len(now))
		for _, o := range all {
			if o != h {
				o.unchanged(c, what, h.src)
			}
		}
		if h.out != h.outIs || !bytes.Equal(h.doc, h.docIs) {
			c.Fail(h.src, "%s changed text rendered before it", what)
		}
		if h.doc != nil && c.R.IntN(2) == 0 { // the document is the caller's
			for k := range h.doc {
				h.doc[k] = '#'
			}
			h.docIs = bytes.Clone(h.doc)
			for _, o := range all {
				o.unchanged(c, "writing into the JSON document", h.src)
			}
			if doc, err := h.a.JSON(); err == nil && bytes.Contains(doc, []byte("####")) && !strings.Contains(h.src, "####") {
				c.Fail(h.src, "writing into one JSON document shows in the next")
			}
			c.Count("documents_overwritten", 1)
		}
		again := hold(c, h.src)
		if d := textDiff(first[h.src], again.text, noSkip); d != "" {
			c.Fail(h.src, "after %s the same text is parsed differently: %s", what, d)
		}
		if c.R.IntN(2) == 0 {
			all[c.R.IntN(len(all))] = again
		}
		if c.R.IntN(20) == 0 {
			runtime.GC()
		}
		c.Count("rounds", 1)
	}
	c.Seen(strings.Join(texts, "\x00"))
}

// relatives are texts that have much in common.
func relatives(r *rand.Rand, m *tree.Node) []string {
	out := []string{gen.Full(r, m)}
	for n := 1 + r.IntN(3); n > 0; n-- {
		switch r.IntN(5) {
		case 0: // the same text
			out = append(out, out[0])
		case 1: // the same module spelled otherwise
			out = append(out, gen.Full(r, m))
		case 2: // with a part more
			out = append(out, out[0]+"\n;"+pickS(r, "х = 1;", "Ф();", "Если а Тогда КонецЕсли"))
		case 3:
			out = append(out, gen.Full(r, smallModule(r)))
		default: // the empty ones
			out = append(out, pickS(r, "", "Процедура П() КонецПроцедуры", "Процедура П() КонецПроцедуры Функция Ф() КонецФункции", "Ф(); Ф(); Г.Ф(); х = Новый А; х = Новый Б();",
				"Если а Тогда Иначе КонецЕсли; Пока а Цикл КонецЦикла; Попытка Исключение КонецПопытки", "Перем а; Перем б;", "х = 1; у = 1; х = \"\"; у = \"\"; х = Неопределено; у = Неопределено; Перейти ~м; ~м: ; Перейти ~м;"))
		}
	}
	return out
}

func init() {
	groups := []mon.Group{
		{Name: "small", Quick: 14000, Deep: 1000000, Run: func(c *mon.Ctx, i int) {
			editsStay(c, relatives(c.R, smallModule(c.R)), 1+c.R.IntN(6))
		}},
		{Name: "modules", Quick: 2000, Deep: 200000, Run: func(c *mon.Ctx, i int) {
			editsStay(c, relatives(c.R, gen.New(c.R, cfgFor(c.R)).Module()), 1+c.R.IntN(4))
		}},
		{Name: "many", Quick: 80, Deep: 5000, Run: func(c *mon.Ctx, i int) {
			var texts []string
			for n := 30 + c.R.IntN(200); n > 0; n-- {
				if len(texts) > 0 && c.R.IntN(3) == 0 {
					texts = append(texts, texts[c.R.IntN(len(texts))])
				} else {
					texts = append(texts, gen.Full(c.R, smallModule(c.R)))
				}
			}
			editsStay(c, texts, 10)
		}},
		{Name: "large", Quick: 40, Deep: 1000, Run: func(c *mon.Ctx, i int) {
			big := goodText(c.R, 1500)
			editsStay(c, []string{big, big, goodText(c.R, 300)}, 4)
		}},
	}
	register(&mon.Check{ID: "C27", Groups: groups,
		Rule:        "several modules are parsed (the same text twice, related texts, empty parts), then one place or many places of one of them are changed through exported fields (elements, fields behind pointers, map entries, appended list elements, also kept outside the tree); every other place of that tree, every other module held, texts and documents rendered before, and new parses of the same text are compared with what they were; distinct: text lists",
		Assumptions: []string{"places are those reflection reaches through exported fields without copying a struct"},
		MinCounts:   map[string]int64{"rounds": 20000, "edit_append": 20000, "edit_value": 20000, "edit_text": 5000, "edit_new_entry": 2000, "documents_overwritten": 2000, "other_modules_compared": 50000}})
}
