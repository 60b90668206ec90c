package checks

import (
	"fmt"
	"strings"

	"verif/mon"
	"verif/ref"
)

// Sizes at which counters, buffers, tables and guards tend to change their behaviour.
var allSizes = func() []int {
	var s []int
	for n := 0; n <= 70; n++ {
		s = append(s, n)
	}
	s = append(s, 99, 100, 101, 199, 200, 201, 499, 500, 501, 999, 1000, 1001, 1999, 2000, 2001, 4999, 5000, 5001, 9999, 10000, 10001)
	for k := 7; k <= 16; k++ {
		s = append(s, 1<<k-2, 1<<k-1, 1<<k, 1<<k+1)
	}
	return append(s, 50000, 50001, 100000, 100001)
}()

// sizesTo is allSizes up to a bound.
func sizesTo(max int) []int {
	var s []int
	for _, n := range allSizes {
		if n <= max {
			s = append(s, n)
		}
	}
	return s
}

// shape is a family of texts, one per size n. The reference parser says what each is.
type shape struct {
	name string
	tags string // kinds of matter: block expr path args decl rules lit name layout pos
	max  int    // largest useful size (0: no bound)
	text func(n int) string
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

// list is f(0), f(1), ... f(n-1) joined.
func list(n int, sep string, f func(k int) string) string {
	var b strings.Builder
	for k := 0; k < n; k++ {
		if k > 0 {
			b.WriteString(sep)
		}
		b.WriteString(f(k))
	}
	return b.String()
}

func each(format string) func(k int) string {
	return func(k int) string { return strings.ReplaceAll(format, "#", fmt.Sprint(k)) }
}

// nest is open x n, inner, close x n; # in open and close becomes the level.
func nest(open, inner, close string) func(n int) string {
	return func(n int) string {
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteString(each(open)(k))
		}
		b.WriteString(inner)
		for k := n - 1; k >= 0; k-- {
			b.WriteString(each(close)(k))
		}
		return b.String()
	}
}

// seq is n parts one after the other between before and after.
func seq(before, part, sep, after string) func(n int) string {
	return func(n int) string { return before + list(n, sep, each(part)) + after }
}

const (
	oWhile, cWhile = "Пока у# Цикл ", " КонецЦикла;"
	oFor, cFor     = "Для с# = 1 По п# Цикл ", " КонецЦикла;"
	oEach, cEach   = "Для Каждого э# Из м# Цикл ", " КонецЦикла;"
	oIf, cIf       = "Если у# Тогда ", " КонецЕсли;"
	oElse          = "Если у# Тогда т# = 1; Иначе "
	oElif          = "Если у# Тогда т# = 1; ИначеЕсли в# Тогда "
	cElifElse      = " Иначе р# = 2; КонецЕсли;"
	oTry, cTryEnd  = "Попытка ", " Исключение и#(); КонецПопытки;"
	oCatch, cCatch = "Попытка п#(); Исключение ", " КонецПопытки;"
)

var shapes = func() []shape {
	var s []shape
	add := func(tags, name string, max int, f func(n int) string) {
		s = append(s, shape{name, tags, max, f})
	}
	wrap := func(before string, f func(int) string, after string) func(int) string {
		return func(n int) string { return before + f(n) + after }
	}
	// nesting of blocks, with what only the right depth or kind allows inside and around
	type bl struct{ name, open, close string }
	blocks := []bl{{"while", oWhile, cWhile}, {"for", oFor, cFor}, {"foreach", oEach, cEach}, {"if", oIf, cIf}, {"else", oElse, cIf}, {"elif", oElif, cElifElse}, {"try", oTry, cTryEnd}, {"catch", oCatch, cCatch}}
	for _, b := range blocks {
		add("block", "nest-"+b.name, 0, nest(b.open, "л = 1;", b.close))
		add("block", "nest-empty-"+b.name, 5000, nest(b.open, "", b.close))
		add("jumps block", "break-in-"+b.name, 0, nest(b.open, "Прервать;", b.close))
		add("jumps block", "continue-in-loop-"+b.name, 0, wrap("Пока у Цикл ", nest(b.open, "Продолжить;", b.close), " КонецЦикла;"))
		add("jumps block", "break-after-"+b.name, 0, wrap("Пока у Цикл ", nest(b.open, "л = 1;", b.close), " Прервать; КонецЦикла;"))
		add("jumps block", "break-after-all-"+b.name, 0, wrap("Пока у Цикл ", nest(b.open, "Прервать;", b.close), " КонецЦикла; Прервать;"))
		add("jumps block", "raise-in-"+b.name, 0, nest(b.open, "ВызватьИсключение;", b.close))
		add("jumps block", "raise-in-catch-"+b.name, 0, wrap("Попытка Исключение ", nest(b.open, "ВызватьИсключение;", b.close), " КонецПопытки;"))
		add("jumps block", "raise-after-"+b.name, 0, wrap("Попытка Исключение ", nest(b.open, "", b.close), " ВызватьИсключение; КонецПопытки;"))
		add("jumps block", "raise-after-all-"+b.name, 0, wrap("Попытка Исключение ", nest(b.open, "", b.close), " КонецПопытки; ВызватьИсключение;"))
		add("jumps block", "return-in-func-"+b.name, 0, wrap("Функция Ф() ", nest(b.open, "Возврат 1;", b.close), " КонецФункции"))
		add("jumps block", "return-in-proc-"+b.name, 0, wrap("Процедура П() ", nest(b.open, "Возврат;", b.close), " КонецПроцедуры"))
		add("jumps block", "value-in-proc-"+b.name, 0, wrap("Процедура П() ", nest(b.open, "Возврат 1;", b.close), " КонецПроцедуры"))
		// after every level more follows, still in the loop
		add("jumps block", "breaks-outwards-"+b.name, 5000, wrap("Пока у Цикл ", nest(b.open, "", b.close+" Если я# Тогда Прервать; КонецЕсли;"), " КонецЦикла;"))
		// n in a row, then what only the surroundings allow
		add("jumps block", "row-"+b.name, 20000, wrap("Пока у Цикл ", seq("", b.open+"л# = 1;"+b.close, "\n", ""), " Прервать; КонецЦикла; х = 1;"))
		add("jumps block", "row-then-break-"+b.name, 20000, wrap("", seq("", b.open+"л# = 1;"+b.close, "\n", ""), " Прервать;"))
		add("block pos", "unclosed-"+b.name, 0, func(n int) string { return rep(each(b.open)(1), n+1) + "л = 1;" + rep(each(b.close)(1), n) })
		add("block pos", "overclosed-"+b.name, 0, func(n int) string { return rep(each(b.open)(1), n) + "л = 1;" + rep(each(b.close)(1), n+1) })
	}
	add("block", "nest-mixed", 0, func(n int) string {
		var b strings.Builder
		for k := 0; k < n; k++ {
			b.WriteString(each(blocks[k*5%8].open)(k))
		}
		b.WriteString("л();")
		for k := n - 1; k >= 0; k-- {
			b.WriteString(each(blocks[k*5%8].close)(k))
		}
		return b.String()
	})
	add("jumps block", "many-routines-with-loops", 5000, seq("", "Процедура п#() Пока а Цикл Прервать; КонецЦикла; Попытка а(); Исключение ВызватьИсключение; КонецПопытки; Возврат; КонецПроцедуры Функция ф#() Возврат #; КонецФункции", "\n", ""))
	add("jumps block", "many-routines-then-break", 5000, seq("", "Процедура п#() Пока а Цикл Прервать; КонецЦикла; КонецПроцедуры", "\n", "\nПрервать;"))
	add("jumps block", "breaks", 20000, seq("Пока а Цикл ", "Прервать", ";", "; КонецЦикла;"))
	add("jumps block", "raises", 20000, seq("Попытка Исключение ", "ВызватьИсключение", ";", "; КонецПопытки"))
	add("jumps block", "returns", 20000, seq("Функция Ф() ", "Возврат #", ";", "; КонецФункции"))
	add("jumps block", "tries-then-raise", 20000, seq("Попытка Исключение ", "Пока у Цикл КонецЦикла", ";", "; ВызватьИсключение; КонецПопытки"))
	// statements in a row
	for _, st := range []struct{ name, text string }{{"assign", "а# = #"}, {"call", "ф#()"}, {"chain", "а.б#.в()"}, {"label", "~м#: а# = 1"}, {"goto", "Перейти ~м#"}, {"raise", "ВызватьИсключение \"т#\""}, {"exec", "Выполнить(\"#\")"}, {"empty", ""}, {"bare-label", "~м#:"}, {"new", "а# = Новый Т#"}} {
		add("block", "row-"+st.name, 0, seq("", st.text, ";", ";"))
		add("block", "row-in-proc-"+st.name, 20000, seq("Процедура П() ", st.text, ";\n", " КонецПроцедуры"))
		add("block", "row-in-if-"+st.name, 20000, seq("Если а Тогда ", st.text, ";\n", " Иначе б(); КонецЕсли; в()"))
	}
	add("block", "elifs", 0, seq("Если а Тогда б();", "ИначеЕсли в# Тогда г#();", " ", " Иначе д() КонецЕсли"))
	add("block", "elifs-empty", 20000, seq("Если а Тогда ", "ИначеЕсли в# Тогда", " ", " КонецЕсли"))
	add("block", "else-elif-nest", 5000, nest("Если а# Тогда ИначеЕсли б# Тогда в#(); Иначе ", "г()", "; КонецЕсли"))
	// expressions
	for _, op := range fields("+ - * / % = <> < > <= >= И ИЛИ") {
		add("expr", "chain"+op, 0, func(n int) string { return "х = а" + list(n, "", each(" "+op+" б#")) + ";" })
		add("expr", "right"+op, 20000, func(n int) string { return "х = " + rep("(а "+op+" ", n) + "б" + rep(")", n) + ";" })
		add("expr", "left"+op, 20000, func(n int) string { return "х = " + rep("(", n) + "б" + rep(" "+op+" а)", n) + ";" })
	}
	add("expr", "parens", 0, nest("(", "а", ")"+""))
	s[len(s)-1].text = wrap("х = ", s[len(s)-1].text, ";")
	add("expr", "parens-if", 20000, wrap("Если ", nest("(", "а = 1", ")"), " Тогда КонецЕсли"))
	add("expr pos", "parens-open", 0, func(n int) string { return "х = " + rep("(", n+1) + "а" + rep(")", n) + ";" })
	add("expr pos", "parens-close", 0, func(n int) string { return "х = " + rep("(", n) + "а" + rep(")", n+1) + ";" })
	add("expr", "minus", 0, func(n int) string { return "х = " + rep("-", n) + "а;" })
	add("expr", "minus-number", 0, func(n int) string { return "х = " + rep("- ", n) + "5;" })
	add("expr", "minus-paren", 20000, func(n int) string { return "х = " + rep("-(", n) + "а" + rep(")", n) + ";" })
	add("expr", "not", 0, func(n int) string { return "х = " + rep("Не ", n) + "а;" })
	add("expr", "not-minus", 20000, func(n int) string { return "х = " + rep("Не -(", n) + "а" + rep(")", n) + ";" })
	add("expr", "mixed-ops", 0, seq("х = ", "а# + -б# * (в# - 1) И Не г# ИЛИ д# = е#", " ИЛИ ", ";"))
	add("expr", "ternary-true", 20000, wrap("х = ", nest("?(у#, ", "л", ", н#)"), ";"))
	add("expr", "ternary-false", 20000, wrap("х = ", nest("?(у#, д#, ", "л", ")"), ";"))
	add("expr", "ternary-cond", 20000, wrap("х = ", nest("?(", "л", ", д#, н#)"), ";"))
	add("expr", "conditions", 5000, seq("", "Если а# И Не б# ИЛИ в# Тогда КонецЕсли", ";", ""))
	// access paths and arguments
	add("path", "members", 0, func(n int) string { return "х = а" + list(n, "", each(".п#")) + ";" })
	add("path", "members-target", 0, func(n int) string { return "а" + list(n, "", each(".п#")) + " = 1;" })
	add("path", "methods", 0, func(n int) string { return "а" + list(n, "", each(".м#(#)")) + ".к();" })
	add("path", "methods-expr", 0, func(n int) string { return "х = а()" + list(n, "", each(".м#(#,)")) + ";" })
	add("path", "indices", 0, func(n int) string { return "х = а" + list(n, "", each("[и#]")) + ";" })
	add("path", "indices-target", 20000, func(n int) string { return "а" + list(n, "", each("[и#]")) + " = 1;" })
	add("path", "mixed-links", 20000, func(n int) string { return "х = а" + list(n, "", each(".м#(#)[и#].п#")) + ";" })
	add("path", "nested-calls", 20000, wrap("х = ", nest("ф#(", "1", ")"), ";"))
	add("path", "nested-calls-second", 20000, wrap("", nest("ф#(, ", "1", ", а#)"), ";"))
	add("path", "nested-indices", 20000, wrap("х = ", nest("м#[", "1", "]"), ";"))
	add("path", "nested-new", 20000, wrap("х = ", nest("Новый Т#(", "1", ")"), ";"))
	add("path", "nested-new-form2", 20000, wrap("х = ", nest("Новый(\"Т#\", ", "1", ")"), ";"))
	add("path", "nested-method-args", 20000, wrap("х = ", nest("о#.м(", "1", ")"), ";"))
	add("args", "args", 0, seq("ф(", "а#", ", ", ");"))
	add("args", "args-num", 20000, seq("х = ф(", "#", ",", ");"))
	add("args", "args-blank", 0, func(n int) string { return "ф(" + rep(",", n) + ");" })
	add("args", "args-blank-last", 20000, func(n int) string { return "ф(" + rep(",", n) + "а);" })
	add("args", "args-first", 20000, func(n int) string { return "о.м(а" + rep(",", n) + ");" })
	add("args", "args-new", 20000, seq("х = Новый Т(", "а#", ", ", ");"))
	add("args", "args-new2", 20000, seq("х = Новый(\"Т\", ", "а#", ", ", ");"))
	add("args", "args-method", 20000, seq("о.м(", "а# + 1", ", ", ").к(1);"))
	add("args", "args-raise", 20000, seq("ВызватьИсключение(\"т\", ", "а#", ", ", ");"))
	add("args pos", "args-comma", 20000, seq("ф(", "а#", ", ", " б);"))
	// declarations
	add("decl", "params", 0, seq("Процедура П(", "п#", ", ", ") КонецПроцедуры"))
	add("decl", "params-default", 20000, seq("Функция Ф(", "Знач п# = #", ", ", ") Экспорт КонецФункции"))
	add("decl", "params-string", 20000, seq("Функция Ф(", "п# = \"с#\"", ", ", ") КонецФункции"))
	add("decl", "params-used", 20000, func(n int) string {
		return "Функция Ф(" + list(n, ", ", each("п#")) + ") Возврат " + list(n+1, " + ", each("п#")) + "; КонецФункции"
	})
	add("decl", "locals", 0, seq("Процедура П() Перем я, ", "л#", ", ", "; КонецПроцедуры"))
	s[len(s)-1].text = func(n int) string {
		return "Процедура П() Перем я" + list(n, "", each(", л#")) + "; КонецПроцедуры"
	}
	add("decl", "local-statements", 20000, seq("Процедура П() ", "Перем л#;", " ", " КонецПроцедуры"))
	add("decl", "globals", 0, func(n int) string { return "Перем я" + list(n, "", each(", г#")) + ";" })
	add("decl", "global-statements", 20000, seq("", "Перем г# Экспорт;", "\n", ""))
	add("decl", "global-directives", 20000, seq("", "&НаСервере Перем г#;", "\n", ""))
	add("decl", "routines", 20000, seq("", "Процедура п#() Экспорт КонецПроцедуры", "\n", ""))
	add("decl", "routines-mixed", 5000, seq("Перем а;\n", "&НаКлиенте Процедура п#(а, Знач б = -#) Экспорт Перем л#; л# = #; КонецПроцедуры\nФункция ф#() Возврат #; КонецФункции", "\n", "\nх = 1;"))
	add("decl", "globals-and-routines", 5000, func(n int) string {
		return list(n, "\n", each("Перем г#;")) + "\n" + list(n, "\n", each("Функция ф#(а) Перем г#; Возврат г#; КонецФункции")) + "\n" + list(n, "\n", each("г# = ф#(#);"))
	})
	// declaration rules at a distance
	for _, at := range []string{"first", "middle", "last"} {
		pick := func(n int) int {
			switch at {
			case "first":
				return 0
			case "middle":
				return n / 2
			}
			return n - 1
		}
		one := func(n int) int { return max(n, 1) }
		add("dups decl", "dup-global-"+at, 0, func(n int) string {
			n = one(n)
			return "Перем " + list(n, ", ", each("г#")) + fmt.Sprintf(", Г%d;", pick(n))
		})
		add("dups decl", "dup-global-statement-"+at, 20000, func(n int) string {
			n = one(n)
			return list(n, "\n", each("Перем г#;")) + fmt.Sprintf("Перем г%d;", pick(n))
		})
		add("dups decl", "dup-param-"+at, 20000, func(n int) string {
			n = one(n)
			return "Процедура П(" + list(n, ", ", each("п#")) + fmt.Sprintf(", Знач П%d) КонецПроцедуры", pick(n))
		})
		add("dups decl", "dup-local-"+at, 20000, func(n int) string {
			n = one(n)
			return "Процедура П() Перем " + list(n, ", ", each("п#")) + fmt.Sprintf("; Перем П%d; КонецПроцедуры", pick(n))
		})
		add("dups decl", "dup-local-param-"+at, 20000, func(n int) string {
			n = one(n)
			return "Процедура П(" + list(n, ", ", each("п#")) + fmt.Sprintf(") Перем П%d; КонецПроцедуры", pick(n))
		})
		add("dups decl", "same-names-elsewhere-"+at, 5000, func(n int) string {
			n = one(n)
			return list(n, "\n", each("Процедура а#(п#) Перем л#; КонецПроцедуры")) + fmt.Sprintf("\nПроцедура б(п%d) Перем л%d; КонецПроцедуры", pick(n), pick(n))
		})
	}
	add("dups decl", "global-after-routines", 20000, seq("", "Процедура п#() КонецПроцедуры", "\n", "\nПерем г;"))
	add("dups decl", "global-after-statements", 20000, seq("", "а# = 1", ";", "; Перем г;"))
	add("dups decl", "routine-after-statements", 20000, seq("", "а# = 1", ";", "; Процедура П() КонецПроцедуры"))
	add("dups decl", "local-after-statements", 20000, seq("Процедура П() ", "а# = 1", ";", "; Перем л; КонецПроцедуры"))
	// literals and names
	for _, ch := range []string{"а", "x", "Ё", "€", "😀", " ", "\"\"", "|", "//", "\n|", "\n\t|ю", "\r\n|", "\t", "\\", "%"} {
		add("lit", fmt.Sprintf("string-of-%q", ch), 0, func(n int) string { return "х = \"" + rep(ch, n) + "\"; у = \"з\";" })
	}
	add("lit", "string-lines-comments", 20000, func(n int) string { return "х = \"а" + rep("\n // к\n |б", n) + "\";" })
	add("lit pos", "string-open", 0, func(n int) string { return "х = 1; у = \"" + rep("а", n) })
	add("lit", "digits", 2000, func(n int) string { return "х = 1" + rep("7", n) + ";" })
	add("lit", "zeros", 2000, func(n int) string { return "х = " + rep("0", n) + "1;" })
	add("lit", "fraction", 2000, func(n int) string { return "х = 1.5" + rep("3", n) + ";" })
	add("lit", "fraction-zeros", 2000, func(n int) string { return "х = 0.5" + rep("0", n) + ";" })
	add("lit", "small", 2000, func(n int) string { return "х = 0." + rep("0", n) + "1;" })
	add("lit", "numbers", 20000, seq("ф(", "#.25", ",", ")"))
	add("lit", "dates", 20000, seq("ф(", "'20200229'", ",", ")"))
	add("lit pos", "date-digits", 300, func(n int) string { return "х = '" + rep("0", n) + "';" })
	add("lit pos", "date-digits-1", 300, func(n int) string { return "х = '2" + rep("1", n) + "';" })
	for _, ch := range []string{"а", "x", "Ё", "_", "1", "ы", "И"} {
		add("name", "name-of-"+ch, 0, func(n int) string { return "н" + rep(ch, n) + " = э" + rep(ch, n) + ".м" + rep(ch, n) + "(1);" })
		add("name", "names-decl-"+ch, 20000, func(n int) string {
			w := rep(ch, n)
			return "Перем г" + w + ";\nФункция ф" + w + "(п" + w + ") Перем л" + w + "; ~м" + w + ": Перейти ~м" + w + "; Возврат Новый т" + w + "; КонецФункции"
		})
	}
	for _, kw := range fields("Если КонецЕсли Новый Процедура И Не Истина Возврат Исключение") {
		add("name", "keyword-name-"+kw, 5000, func(n int) string { return kw + rep("й", n+1) + " = а." + kw + "." + kw + rep("1", n) + ";" })
	}
	// layout
	for _, l := range []string{" ", "\t", "\n", "\r\n", "\r", "//\n", "// к\n", "//\r\n", "#Область А\n#КонецОбласти\n", "\n#Область А\n", " \n\t"} {
		add("layout", fmt.Sprintf("gap-%q", l), 0, func(n int) string {
			return "\nх =\n" + rep(l, n) + "\nа\n" + rep(l, n) + "\n;\nб(\"в\", '20200101'\n" + rep(l, n) + "\n)"
		})
		add("layout pos", fmt.Sprintf("gap-error-%q", l), 0, func(n int) string { return "х = 1;\n" + rep(l, n) + "\n  у = = 2;" })
	}
	add("layout", "long-comment", 0, func(n int) string { return "х = 1; //" + rep("к", n) + "\nу = 2; // " + rep("\"", n) + "\n" })
	add("layout", "comment-end", 0, func(n int) string { return "х = 1; //" + rep("ё", n) })
	add("layout", "long-region", 0, func(n int) string { return "#Область " + rep("к", n) + "\nу = 2;\n#КонецОбласти" })
	// positions
	add("pos", "column", 0, func(n int) string { return rep(" ", n) + "х = = 1;" })
	add("pos", "column-name", 0, func(n int) string { return "н" + rep("ю", n) + " = = 1;" })
	add("pos", "column-string", 0, func(n int) string { return "х = \"" + rep("ю", n) + "\" = = 1;" })
	add("pos", "column-wide", 0, func(n int) string { return "х = \"" + rep("😀", n) + "\" = = 1;" })
	add("pos", "line", 0, func(n int) string { return rep("\n", n) + "х = = 1;" })
	add("pos", "line-crlf", 0, func(n int) string { return rep("\r\n", n) + " х = = 1;" })
	add("pos", "line-string", 0, func(n int) string { return "х = \"" + rep("\n|", n) + "\" \"\";" })
	add("pos", "line-comments", 0, func(n int) string { return rep("// ю\n", n) + "х = 1 1;" })
	add("pos", "end", 0, func(n int) string { return "х = " + rep("1 + ", n) })
	add("pos", "long-literal", 0, func(n int) string { return "х = 1 н" + rep("ю", n) })
	add("pos", "long-string-literal", 0, func(n int) string { return "х = 1 \"" + rep("ю", n) + "\"" })
	add("pos", "statements", 20000, seq("", "а# = #;", "\n", "\n ) "))
	return s
}()

// sizedGroup holds one case per shape and size; want picks shapes by tag ("" is all).
// A quick run bounds the sizes by bytes; judge gets every text with what the reference says.
func sizedGroup(name string, maxN, maxBytes int, judge func(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result), tags ...string) mon.Group {
	type item struct {
		sh *shape
		n  int
	}
	var items []item
	for k := range shapes {
		sh := &shapes[k]
		ok := len(tags) == 0
		for _, t := range tags {
			for _, h := range fields(sh.tags) {
				ok = ok || h == t
			}
		}
		if !ok {
			continue
		}
		for _, n := range allSizes {
			if n > maxN || sh.max > 0 && n > sh.max {
				continue
			}
			items = append(items, item{sh, n})
		}
	}
	return mon.Group{Name: name, Quick: len(items), Deep: len(items), Run: func(c *mon.Ctx, i int) {
		it := items[(i*7919)%len(items)] // spread the large ones
		if len(items)%7919 == 0 {
			it = items[i]
		}
		src := it.sh.text(it.n)
		limit := maxBytes
		if c.Tier == "thorough" {
			limit = 1 << 30
		}
		if len(src) > limit {
			c.Count("sizes_left_to_thorough", 1)
			return
		}
		r := ref.Parse(src)
		if r.Unspec {
			c.Count("unspecified_skipped", 1)
			return
		}
		judge(c, it.sh, it.n, src, r)
		c.Count("sized_texts", 1)
		c.Seen(it.sh.name + fmt.Sprint(it.n))
	}}
}

func sizedTree(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) {
	if r.Accept() {
		wantTree(c, src, r.Tree)
	}
}

func sizedBoth(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) {
	if r.Accept() {
		wantTree(c, src, r.Tree)
	} else {
		wantReject(c, src, rejectReason(r))
	}
}

func sizedAccept(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) {
	if r.Accept() {
		mustAccept(c, src)
	}
}

func sizedReject(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) {
	if r.Reject() {
		wantReject(c, src, rejectReason(r))
		countReject(c, r)
	}
}

func sizedPosition(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) {
	wantPosition(c, src, r)
}

// addGroup is for checks registered in other files of this package.
func addGroup(id string, g mon.Group) { extra[id] = append(extra[id], g) }

var extra = map[string][]mon.Group{}

const big = 300000

func init() {
	addGroup("C02", sizedGroup("sizes", 200000, big, sizedAccept))
	addGroup("C03", sizedGroup("sizes", 200000, big, sizedReject))
	addGroup("C04", sizedGroup("sizes", 200000, big, sizedTree, "block"))
	addGroup("C05", sizedGroup("sizes", 200000, big, sizedTree, "expr"))
	addGroup("C06", sizedGroup("all-sizes", 200000, big, sizedTree, "path", "args"))
	addGroup("C07", sizedGroup("sizes", 200000, big, sizedTree, "lit"))
	addGroup("C08", sizedGroup("sizes", 200000, big, sizedTree, "layout"))
	addGroup("C09", sizedGroup("sizes", 200000, big, sizedTree, "name"))
	addGroup("C10", sizedGroup("sizes", 200000, big, sizedBoth, "jumps"))
	addGroup("C11", sizedGroup("sizes", 200000, big, sizedBoth, "dups"))
	addGroup("C12", sizedGroup("sizes", 200000, big, sizedTree, "decl"))
	addGroup("C20", sizedGroup("sizes", 200000, big, sizedPosition))
}
