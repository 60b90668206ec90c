package checks

import (
	"strings"

	"verif/mon"
	"verif/ref"
)

// theme is a token alphabet together with the text around the enumerated tokens.
type theme struct {
	name     string
	before   string
	after    string
	alphabet []string
	quick    int // longest sequence
	deep     int
}

func fields(s string) []string { return strings.Fields(s) }

var allPunct = "; : ( ) , . = <> < > <= >= + - * / % ? [ ]"

// themes between them hold every token of the language in every context where it may or may not stand.
var themes = []theme{
	{"module", "", "", fields("Процедура КонецПроцедуры Функция КонецФункции Перем Экспорт Знач &НаСервере а б ( ) , ; = 1 -"), 6, 8},
	{"params", "Процедура П (", ") КонецПроцедуры", fields("Знач а б , = 1 'Д' \"с\" Истина Ложь Неопределено - + ( ) Не Новый Экспорт"), 5, 6},
	{"locals", "Функция Ф()", "КонецФункции", fields("Перем Экспорт а б А , ; = Возврат 1 ( )"), 6, 8},
	{"statement", "", "", fields("а б 1 = ; ( ) . [ ] , ~м : Перейти Возврат Выполнить \"с\" Новый ? Не -"), 5, 6},
	{"all", "", "", append(fields("процедура перем перейти конецпроцедуры знач если тогда иначеесли иначе конецесли для каждого из по цикл конеццикла прервать продолжить попытка новый исключение пока конецпопытки функция конецфункции возврат вызватьисключение и или истина ложь неопределено не экспорт выполнить а 1 \"с\" '20200101' ~м &НаСервере"), fields(allPunct)...), 3, 4},
	{"allfunc", "Функция Ф() ", " КонецФункции", append(fields("процедура перем перейти конецпроцедуры знач если тогда иначеесли иначе конецесли для каждого из по цикл конеццикла прервать продолжить попытка новый исключение пока конецпопытки функция конецфункции возврат вызватьисключение и или истина ложь неопределено не экспорт выполнить а 1 \"с\" '20200101' ~м &НаСервере"), fields(allPunct)...), 3, 4},
	{"if", "Если а Тогда", "", fields("Если Тогда ИначеЕсли Иначе КонецЕсли а = ; б() КонецЦикла"), 8, 10},
	{"loop", "Пока а Цикл", "", fields("Пока Для Каждого Из По Цикл КонецЦикла а = ; Прервать Продолжить Новый ( )"), 7, 8},
	{"try", "Попытка", "", fields("Попытка Исключение КонецПопытки ВызватьИсключение а() ; \"с\" ( ) , Если Тогда КонецЕсли"), 7, 8},
	{"nest", "Функция Ф()", "КонецФункции", fields("Если Тогда Иначе КонецЕсли Пока Цикл КонецЦикла Попытка Исключение КонецПопытки а ;"), 7, 9},
	{"expr", "х =", "", fields("а 1 ( ) + * = И ИЛИ Не - < ;"), 6, 7},
	{"exprpath", "х = ", "", fields("а б ( ) , . [ ] ? Новый 1 ; Если"), 6, 7},
	{"exprctx", "Если", "", fields("а ( ) + <> И Не - Тогда 1 КонецЕсли ; = ИЛИ"), 6, 7},
	{"foreach", "Для Каждого а Из", "", fields("б ( ) . Новый ? , Цикл КонецЦикла [ ] 1 ;"), 6, 8},
	{"for", "Для", "", fields("а = 1 По Цикл КонецЦикла + ; Каждого Из ( ) И"), 7, 8},
	{"label", "", "", fields("~м ~н : ; а() Перейти Если Тогда КонецЕсли ="), 6, 7},
}

func fixSpell(s string) string {
	switch s {
	case "'Д'":
		return "'20200102'"
	case "б()":
		return "б ( )"
	case "а()":
		return "а ( )"
	}
	return s
}

// enumGroups makes a case group per theme; each case enumerates the sequences that start with one
// pair of tokens. visit gets every text that is viable so far and every one-token wrong extension.
func enumGroups(visit func(c *mon.Ctx, src string, r *ref.Result)) []mon.Group {
	var gs []mon.Group
	for _, th := range themes {
		th := th
		n := len(th.alphabet)
		gs = append(gs, mon.Group{Name: "enum-" + th.name, Quick: n*n + n, Deep: n*n + n, Run: func(c *mon.Ctx, i int) {
			depth := th.quick
			if c.Tier == "thorough" {
				depth = th.deep
			}
			if i >= n*n {
				judge(c, th, []string{th.alphabet[i-n*n]}, visit)
				return
			}
			first := []string{th.alphabet[i/n]}
			if !judge0(c, th, first) {
				return
			}
			walk(c, th, append(first, th.alphabet[i%n]), depth, visit)
		}})
	}
	return gs
}

func text(th theme, seq []string) string {
	var b strings.Builder
	b.WriteString(th.before)
	for _, s := range seq {
		b.WriteByte(' ')
		b.WriteString(fixSpell(s))
	}
	return b.String()
}

// judge0 tells whether a sequence can be extended, without visiting it.
func judge0(c *mon.Ctx, th theme, seq []string) bool {
	r := ref.Parse(text(th, seq))
	return !(r.Unspec || r.LexErr != nil || r.Syntax && r.ErrTok < len(r.Toks))
}

func judge(c *mon.Ctx, th theme, seq []string, visit func(c *mon.Ctx, src string, r *ref.Result)) bool {
	src := text(th, seq)
	r := ref.Parse(src)
	if r.Unspec {
		c.Count("unspecified_skipped", 1)
		return false
	}
	c.Doing(src)
	visit(c, src, r)
	if r.LexErr != nil || r.Syntax && r.ErrTok < len(r.Toks) {
		return false
	}
	if th.after != "" {
		full := src + " " + th.after
		if r2 := ref.Parse(full); !r2.Unspec {
			c.Doing(full)
			visit(c, full, r2)
		}
	}
	return true
}

func walk(c *mon.Ctx, th theme, seq []string, depth int, visit func(c *mon.Ctx, src string, r *ref.Result)) {
	if !judge(c, th, seq, visit) || len(seq) >= depth {
		return
	}
	seq = append(seq, "")
	for _, a := range th.alphabet {
		seq[len(seq)-1] = a
		walk(c, th, seq, depth, visit)
	}
}
