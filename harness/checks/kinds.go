package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"

	"github.com/LazarenkoA/1c-language-parser/ast"

	"verif/mon"
	"verif/ref"
	"verif/tree"
)

// exprKinds: one spelling of every kind of expression, and of the sizes and contents at which a kind may be special.
var exprKinds = []string{
	"0", "1", "5", "10", "007", "1.5", "0.1", "0.0", "9999.99", "1234567890", "99999999999999999999", "2147483648",
	`""`, `"а"`, `"1"`, `" "`, `"Истина"`, `"//"`, `"с ""кав"" "`, "\"два\n\t|ряда\"", `"` + rep("длинный текст ", 30) + `"`, `"` + rep("ж", 20) + `"`, `"а" "б"`, `"%1 %2"`,
	"'00000000'", "'20200102'", "'20200102030405'", "'00010101'", "'2020-01-02 03:04'",
	"Истина", "Ложь", "Неопределено",
	"а", "Б", "Null", "_я", "ДлинноеИмяПеременнойДляПроверки" + rep("Имени", 10), "Ифф",
	"ф()", "ф(1)", "ф(,)", "ф(а, \"б\")", "ф(, , 3)", "Тип(\"Строка\")",
	"а.б", "а.б()", "а.Если", "а.Новый()", "а[0]", "а[\"к\"]", "а[-1]", "а.б[1].в(2)", "а().б", "ф(1)[2]", "а[б][в]", "а.б.в.г.д",
	"Новый Т", "Новый Т()", "Новый Т(1)", "Новый(\"Т\")", "Новый(а, 1)",
	"-а", "-5", "-0", "-1.5", "+5", "+а", "Не а", "Не Истина", "Не -а", "-(-а)", "- -а", "Не Не а", "-ф()", "-а.б", "-а[1]", "Не ф()", "Не а.б()", "-?(а, 1, 2)", "Не ?(а, б, в)", "-Новый Т",
	"(а)", "((а))", "(1)", "(\"с\")", "(ф())", "(а + б)", "-(а + б)", "Не (а = б)", "(Не а)", "(-а)", "(?(а, б, в))",
	"а + б", "1 + 2", `"а" + "б"`, `"` + rep("длинный текст ", 20) + `" + "` + rep("ещё ", 40) + `"`, "а = б", "а <> Неопределено", "а И б", "а ИЛИ б", "Не а И Не б", "а < б", "а >= 0", "а + б * в", "(а + б) * в", "а - б - в", "а - (б - в)", "а = б = в", "а % 2 = 0", "-а * -б", "а / 2",
	"?(а, б, в)", "?(а = 1, \"б\", ?(в, 1, 2))", "?(Не а, -б, (в))",
}

var exprSlots1 = []string{
	"х = $1;", "х = $1", "ф($1);", "ф(1, $1);", "ф($1,);", "ф(,$1);", "х.м($1);", "х[$1] = 1;", "х = у[$1];", "х[$1].п = 1;", "х[$1].м();", "х = Новый Т($1);", "х = Новый($1);", "х = Новый(\"Т\", $1);", "х = ($1);", "х = -($1);", "х = Не ($1);",
	"х = ?($1, 1, 2);", "х = ?(а, $1, 2);", "х = ?(а, 1, $1);",
	"Если $1 Тогда КонецЕсли;", "Если а Тогда ИначеЕсли $1 Тогда КонецЕсли", "Если $1 Тогда х = 1; Иначе х = 2; КонецЕсли;",
	"Пока $1 Цикл КонецЦикла;", "Для с = $1 По 2 Цикл КонецЦикла;", "Для с = 1 По $1 Цикл КонецЦикла;", "Для Каждого э Из $1 Цикл КонецЦикла;",
	"ВызватьИсключение $1;", "ВызватьИсключение($1);", "ВызватьИсключение($1, а);", "ВызватьИсключение(а, $1);", "ВызватьИсключение(а, , $1);", "Попытка Исключение ВызватьИсключение $1; КонецПопытки;",
	"Выполнить $1;", "Выполнить($1);", "х.Выполнить($1);",
	"Функция Ф() Возврат $1; КонецФункции", "Функция Ф() Возврат($1); КонецФункции", "Функция Ф() Пока у Цикл Возврат $1 КонецЦикла КонецФункции", "Процедура П() Возврат $1; КонецПроцедуры", "Процедура П() Если у Тогда Возврат $1; КонецЕсли; КонецПроцедуры", "Процедура П() Попытка а(); Исключение Возврат $1; КонецПопытки; КонецПроцедуры", "Возврат $1;", "Функция Ф() КонецФункции Процедура П() Возврат $1 КонецПроцедуры",
	"Процедура П(п = $1) КонецПроцедуры", "Функция Ф(а, Знач п = $1, б = 1) Экспорт КонецФункции", "Процедура П() Перем л; л = $1; КонецПроцедуры",
	"$1;", "$1 = 1;", "$1.п = 1;", "х = $1.п;", "х = $1[1];", "х = а.($1);", "х = $1 $1;", "Перем $1;", "Процедура $1() КонецПроцедуры", "Процедура П($1) КонецПроцедуры", "~$1: х = 1;", "Перейти $1;", "Для $1 = 1 По 2 Цикл КонецЦикла;", "Для Каждого $1 Из а Цикл КонецЦикла;",
	"ф(а($1), б[$1], Новый В($1));", "Если а Тогда Пока $1 Цикл х = $1; КонецЦикла; КонецЕсли;",
}

var exprSlots2 = func() []string {
	s := []string{"ф($1, $2);", "ф($1, , $2);", "х.м($1).к($2);", "х = у[$1][$2];", "х[$1] = $2;", "х[$1].п = $2;", "х[$1](2);", "х = Новый Т($1, $2);", "х = Новый(\"Т\", $1, $2);", "х = Новый($1, $2);",
		"х = $1; у = $2;", "х = $1;\nФ($2);", "х = ?($1, $2, 0);", "х = ?(0, $1, $2);", "х = ?($1, 0, $2);",
		"Если $1 Тогда ИначеЕсли $2 Тогда КонецЕсли;", "Если $1 Тогда х = $2; КонецЕсли;", "Пока $1 Цикл у = $2; КонецЦикла;", "Для с = $1 По $2 Цикл КонецЦикла;", "ВызватьИсключение($1, $2);",
		"Процедура П(п = $1, Знач к = $2) КонецПроцедуры", "Функция Ф(п = $1) Возврат $2; КонецФункции", "Функция Ф() Если а Тогда Возврат $1; КонецЕсли; Возврат $2; КонецФункции", "х = $1.м($2);", "х = Не $1 И Не $2;", "х = а + $1 * $2;", "х = ($1) - ($2);", "х = -$1 + -$2;", "х = ($1 = $2);"}
	for _, o := range fields("+ - * / % = <> < > <= >= И ИЛИ") {
		s = append(s, "х = $1 "+o+" $2;")
	}
	return s
}()

// stmtKinds: every kind of statement, alone and in the forms that may be special; "" is the empty statement.
var stmtKinds = []string{
	"", "а = 1", "а = б", "А.б = в", "а[0] = 1", "а = Не б", "а = -1", "а = \"текст\"", "а = \"два\n|ряда\"", "а = '20200101'", "а = Истина", "а = Неопределено", "а = б = в", "а = Новый Т", "а = Новый(\"Т\")", "а = ?(б, 1, 2)", "а = ф(,)",
	"ф()", "ф(1, , 3)", "а.ф()", "а.б.ф(1)", "а().б()", "а[1].ф()",
	"Если а Тогда КонецЕсли", "Если а Тогда б = 1; КонецЕсли", "Если а Тогда б() Иначе КонецЕсли", "Если а Тогда Иначе б() КонецЕсли", "Если а Тогда б(); ИначеЕсли в Тогда г(); Иначе д(); КонецЕсли", "Если а Тогда ИначеЕсли б Тогда ИначеЕсли в Тогда КонецЕсли", "Если а Тогда Если б Тогда в() КонецЕсли КонецЕсли",
	"Пока а Цикл КонецЦикла", "Пока а Цикл Прервать КонецЦикла", "Пока а Цикл Продолжить; б() КонецЦикла",
	"Для а = 1 По 2 Цикл КонецЦикла", "Для а = 1 По 2 Цикл б(а); Прервать; КонецЦикла", "Для Каждого а Из б Цикл КонецЦикла", "Для Каждого а Из б() Цикл в(а) КонецЦикла",
	"Попытка Исключение КонецПопытки", "Попытка а() Исключение КонецПопытки", "Попытка Исключение б() КонецПопытки", "Попытка а(); Исключение ВызватьИсключение; КонецПопытки",
	"Прервать", "Продолжить", "Возврат", "Возврат 1", "Возврат а + б", "Возврат Неопределено", "Возврат \"с\"", "Возврат '20200101'", "Возврат Ложь", "Возврат Не а", "Возврат (1)", "Возврат()",
	"ВызватьИсключение", "ВызватьИсключение \"т\"", "ВызватьИсключение(\"т\", а)", "ВызватьИсключение Новый О",
	"Выполнить(\"к\")", "Выполнить \"к\"", "Выполнить(а)", "Выполнить а",
	"Перейти ~м", "~м:", "~м: а = 1", "~н: ~о: ф()",
	"Перем л", "Перем л, М", "Перем г Экспорт",
}

// blockHomes: every place a block stands.
var blockHomes = []string{
	"$", "Если у Тогда $ КонецЕсли;", "Если у Тогда $ Иначе ц(); КонецЕсли;", "Если у Тогда ц() ИначеЕсли к Тогда $ КонецЕсли;", "Если у Тогда ц() ИначеЕсли к Тогда $ ИначеЕсли е Тогда н(); Иначе о() КонецЕсли;", "Если у Тогда ц() Иначе $ КонецЕсли;", "Если у Тогда ИначеЕсли к Тогда к() Иначе $ КонецЕсли;",
	"Пока у Цикл $ КонецЦикла;", "Для с = 1 По 2 Цикл $ КонецЦикла;", "Для Каждого с Из ц Цикл $ КонецЦикла;", "Попытка $ Исключение КонецПопытки;", "Попытка $ Исключение ц(); КонецПопытки;", "Попытка Исключение $ КонецПопытки;", "Попытка ц() Исключение $ КонецПопытки;",
	"Процедура П() $ КонецПроцедуры", "Функция Ф() $ КонецФункции", "Процедура П() $ КонецПроцедуры ц();", "Перем г; Функция Ф(п) Перем к; $ КонецФункции Процедура П() КонецПроцедуры", "Функция Ф() Пока у Цикл Попытка Исключение $ КонецПопытки КонецЦикла КонецФункции", "Процедура П() Попытка Пока у Цикл $ КонецЦикла Исключение КонецПопытки КонецПроцедуры",
	"Функция Ф() Для с = 1 По 2 Цикл Если у Тогда $ Иначе Прервать КонецЕсли; Возврат 1; КонецЦикла; КонецФункции",
	// the same more than once
	"Если у Тогда $ Иначе $ КонецЕсли;", "Если у Тогда $ ИначеЕсли у Тогда $ КонецЕсли;", "Если у Тогда $ ИначеЕсли к Тогда $ ИначеЕсли у Тогда $ Иначе $ КонецЕсли;", "Попытка $ Исключение $ КонецПопытки;", "Пока у Цикл $ КонецЦикла; $", "Пока у Цикл $ КонецЦикла; Пока у Цикл $ КонецЦикла;",
	"Процедура П() $ КонецПроцедуры Процедура К() $ КонецПроцедуры", "Функция П() $ КонецФункции Функция К() $ КонецФункции $",
}

// blockPairs: two blocks with something in common.
var blockPairs = []string{
	"Если у Тогда $1 Иначе $2 КонецЕсли;", "Если у Тогда $1 ИначеЕсли к Тогда $2 КонецЕсли;", "Если у Тогда $1 ИначеЕсли у Тогда $2 Иначе $1 КонецЕсли;", "Если у Тогда ИначеЕсли к Тогда $1 ИначеЕсли у Тогда $2 КонецЕсли;", "Если у Тогда ц() ИначеЕсли к Тогда $1 Иначе $2 КонецЕсли;",
	"Попытка $1 Исключение $2 КонецПопытки;", "Попытка Попытка $1 Исключение $2 КонецПопытки Исключение $2 КонецПопытки", "Попытка Исключение Попытка $1 Исключение $2 КонецПопытки; $1 КонецПопытки",
	"Пока у Цикл $1 КонецЦикла; Пока у Цикл $2 КонецЦикла;", "Для с = 1 По 2 Цикл $1 КонецЦикла; $2", "Пока у Цикл Для Каждого с Из у Цикл $1 КонецЦикла; $2 КонецЦикла;", "Если у Тогда Если к Тогда $1 КонецЕсли; $2 КонецЕсли",
	"Процедура П() $1 КонецПроцедуры Функция Ф() $2 КонецФункции", "Функция Ф() $1 КонецФункции $2", "Функция Ф() Если у Тогда $1 Иначе $2 КонецЕсли КонецФункции Процедура П() Пока у Цикл $2 КонецЦикла КонецПроцедуры",
}

// twins: statements that differ in one small thing.
var twins = []string{"а = 1", "а = 2", "а = 10", "а = -1", "а = \"1\"", "б = 1", "А = 1", "а.б = 1", "а[0] = 1", "а[1] = 1", "ф(1)", "ф(2)", "ф()", "ф(1, )", "Ф(1)", "ф(\"1\")", "а.ф(1)", "а.ф()", "Если а Тогда б() КонецЕсли", "Если а Тогда в() КонецЕсли", "Если б Тогда б() КонецЕсли", "Если а Тогда Иначе б() КонецЕсли", "Возврат 1", "Возврат 2", "Возврат", "Прервать", "Продолжить", "ВызватьИсключение", "ВызватьИсключение 1", "Перейти ~м", "Перейти ~н"}

type judgeFunc func(c *mon.Ctx, src string, r *ref.Result)

func fill(t, a, b string) string {
	return strings.ReplaceAll(strings.ReplaceAll(t, "$1", a), "$2", b)
}

func judgeText(c *mon.Ctx, src string, j judgeFunc) {
	r := ref.Parse(src)
	if r.Unspec {
		c.Count("unspecified_skipped", 1)
		return
	}
	j(c, src, r)
	c.Count("combinations", 1)
}

// kindGroups: every kind of expression in every place, every pair of kinds in every two places,
// every pair of statements in every block. A quick run takes one of every `thin` pairs.
func kindGroups(thin int, j judgeFunc) []mon.Group {
	n1, n2, n3 := len(exprSlots1), len(exprSlots2), len(blockHomes)
	take := func(c *mon.Ctx, k int) bool { return c.Tier == "thorough" || k%thin == 0 }
	return []mon.Group{
		{Name: "every-kind", Quick: n1, Deep: n1, Run: func(c *mon.Ctx, i int) {
			for _, e := range exprKinds {
				judgeText(c, fill(exprSlots1[i], e, ""), j)
			}
			c.Seen(exprSlots1[i])
		}},
		{Name: "pairs-of-kinds", Quick: n2 * len(exprKinds), Deep: n2 * len(exprKinds), Run: func(c *mon.Ctx, i int) {
			s, a := exprSlots2[i%n2], exprKinds[i/n2]
			for k, b := range exprKinds {
				if take(c, i/n2+k+i%n2) || a == b {
					judgeText(c, fill(s, a, b), j)
				}
			}
			c.Seen(s + a)
		}},
		{Name: "pairs-of-statements", Quick: n3 * len(stmtKinds), Deep: n3 * len(stmtKinds), Run: func(c *mon.Ctx, i int) {
			h, a := blockHomes[i%n3], stmtKinds[i/n3]
			for k, b := range stmtKinds {
				if !take(c, i/n3+k+i%n3) && a != b {
					continue
				}
				sep := ";"
				if strings.HasSuffix(a, ":") {
					sep = ""
				}
				end := []string{"", ";", " ;;"}[(i+k)%3]
				judgeText(c, strings.ReplaceAll(h, "$", a+sep+"\n"+b+end), j)
				if k%7 == i%7 {
					x := stmtKinds[(i*31+k*17)%len(stmtKinds)]
					judgeText(c, strings.ReplaceAll(h, "$", a+sep+" "+x+sep+" "+b+end), j)
					judgeText(c, strings.ReplaceAll(h, "$", a+" "+b+end), j)
				}
			}
			c.Seen(h + a)
		}},
		{Name: "pairs-of-blocks", Quick: len(blockPairs) * len(stmtKinds), Deep: len(blockPairs) * len(stmtKinds), Run: func(c *mon.Ctx, i int) {
			h, a := blockPairs[i%len(blockPairs)], stmtKinds[i/len(blockPairs)]
			ends := []string{"", ";", "; ", ";\n"}
			for k, b := range stmtKinds {
				if take(c, i/len(blockPairs)+k+i) || a == b {
					judgeText(c, fill(h, a+ends[(i+k)%4], b+ends[k%4]), j)
				}
			}
			if i < len(blockPairs)*len(twins) {
				a = twins[i/len(blockPairs)]
				for k, b := range twins {
					judgeText(c, fill(h, a+ends[(i+k)%4], b+ends[k%4]), j)
					judgeText(c, fill(h, "х = 5; "+a, a+"; "+b), j)
				}
			}
			c.Seen(h + a)
		}},
	}
}

// accepted makes a judge of accepted objects.
func accepted(f func(c *mon.Ctx, src string, a *ast.AstNode, r *ref.Result)) judgeFunc {
	return func(c *mon.Ctx, src string, r *ref.Result) {
		if !r.Accept() {
			return
		}
		a, err := parse(c, src)
		if err != nil {
			c.Count("skipped_rejected", 1)
			return
		}
		f(c, src, a, r)
	}
}

func bothWays(c *mon.Ctx, src string, r *ref.Result) {
	if r.Accept() {
		wantTree(c, src, r.Tree)
	} else {
		wantReject(c, src, rejectReason(r))
	}
}

// neighbourhood: every text one edit away from a few texts that hold every construct.
var editBases = []string{
	"Перем а, б Экспорт;\n&НаСервере\nПерем в;", "&НаКлиенте\nПроцедура П(а, Знач б = -1, в = \"с\") Экспорт\n\tПерем г, д;\n\tг = 1;\nКонецПроцедуры",
	"Функция Ф()\n\tВозврат а.б[1](2);\nКонецФункции\nх = Ф();", "Если а И Не б Тогда\n\tв = 1;\nИначеЕсли г Тогда\n\tд();\nИначе\n\tе = 2;\nКонецЕсли;",
	"Пока а < 5 Цикл Прервать; Продолжить; КонецЦикла;", "Для с = 1 По 10 Цикл\nф(с);\nКонецЦикла;", "Для Каждого э Из м.Список() Цикл КонецЦикла;",
	"Попытка ф(); Исключение ВызватьИсключение; КонецПопытки;", "ВызватьИсключение(\"т\", а, , б);", "х = ?(а = 1, -б, \"в\" + г);", "х = Новый Т(1, , 2); у = Новый(\"Т\");",
	"Выполнить(\"к\"); Выполнить а;", "~м: х = 1; Перейти ~м;", "х = '20200229' + '2020-01-01 10:11:12';", "х = \"а\"\"б\n  |в\n // к\n |г\" \"д\";", "х = 1.50 // к \"\n#Область О\n + 2;\n#КонецОбласти\n",
	"а.Если.б[\"к\"].в(,1,) = а.Новый();", "х = а <> б ИЛИ в <= г И д >= е;", "х = ((а + б) * -(в - 1)) % 2;", "Процедура П() Возврат; КонецПроцедуры Функция Ф() Возврат 1; КонецФункции ;;х = Истина;",
}

var editBits = []string{"", " ", "\n", "\"", "'", "|", "/", "//", "#", ".", ",", ";", ":", "(", ")", "[", "]", "=", "<", ">", "+", "-", "*", "%", "?", "~", "&", "0", "7", "а", "Z", "_", "ё", "@", "\\", "{", "\t", "\r", "\x00", "€", "😀", "\u00a0", "\ufeff"}

func neighbourhood(j judgeFunc) mon.Group {
	var cuts []struct{ base, at int }
	for b, s := range editBases {
		for at := range s { // byte offsets of characters
			cuts = append(cuts, struct{ base, at int }{b, at})
		}
		cuts = append(cuts, struct{ base, at int }{b, len(s)})
	}
	return mon.Group{Name: "one-edit", Quick: len(cuts), Deep: len(cuts), Run: func(c *mon.Ctx, i int) {
		s, at := editBases[cuts[i].base], cuts[i].at
		_, w := decode(s[at:])
		judgeText(c, s[:at], j) // cut off
		judgeText(c, s[at:], j)
		for _, b := range editBits {
			judgeText(c, s[:at]+b+s[at:], j)
			if w > 0 {
				judgeText(c, s[:at]+b+s[at+w:], j)
			}
			judgeText(c, s[:at]+b, j)
		}
		if _, w2 := decode(s[at+w:]); w > 0 && w2 > 0 {
			judgeText(c, s[:at]+s[at+w:at+w+w2]+s[at:at+w]+s[at+w+w2:], j)
		}
		c.Seen(fmt.Sprint("cut", i))
	}}
}

func decode(s string) (rune, int) {
	for i, r := range s {
		if i == 0 {
			n := len(string(r))
			if r == 0xfffd && (len(s) < 3 || s[:3] != "\ufffd") {
				n = 1
			}
			return r, n
		}
	}
	return 0, 0
}

func init() {
	acceptJ := func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Accept() {
			mustAccept(c, src)
		}
	}
	rejectJ := func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Reject() {
			wantReject(c, src, rejectReason(r))
			countReject(c, r)
		}
	}
	treeJ := func(c *mon.Ctx, src string, r *ref.Result) {
		if r.Accept() {
			wantTree(c, src, r.Tree)
		}
	}
	ruleJ := func(c *mon.Ctx, src string, r *ref.Result) {
		if len(r.Faults) > 0 {
			wantExplanation(c, src, r)
		}
	}
	posJ := func(c *mon.Ctx, src string, r *ref.Result) { wantPosition(c, src, r) }
	roundJ := accepted(func(c *mon.Ctx, src string, a *ast.AstNode, r *ref.Result) { roundTrip(c, src, a, randConf(c.R)) })
	optJ := accepted(func(c *mon.Ctx, src string, a *ast.AstNode, r *ref.Result) { checkOptions(c, src, a) })
	jsonJ := accepted(func(c *mon.Ctx, src string, a *ast.AstNode, r *ref.Result) { checkJSON(c, src, a, r.Tree) })
	walkJ := accepted(func(c *mon.Ctx, src string, a *ast.AstNode, r *ref.Result) { walkAll(c, src, a) })
	stmtJ := accepted(func(c *mon.Ctx, src string, a *ast.AstNode, r *ref.Result) { everyStatement(c, src, a) })
	tokJ := func(c *mon.Ctx, src string, r *ref.Result) { checkStream(c, src, true) }
	use := func(id string, thin int, j judgeFunc, which ...int) {
		g := kindGroups(thin, j)
		for _, k := range which {
			addGroup(id, g[k])
		}
	}
	use("C02", 1, acceptJ, 0, 1, 2, 3)
	use("C03", 1, rejectJ, 0, 1, 2, 3)
	use("C04", 1, treeJ, 0, 2, 3)
	use("C05", 1, treeJ, 0, 1)
	use("C06", 1, treeJ, 0, 1)
	use("C07", 3, treeJ, 0, 1)
	use("C10", 1, bothWays, 0, 2, 3)
	use("C25", 1, ruleJ, 0, 2, 3)
	addGroup("C10", nestedHomes(1, bothWays))
	addGroup("C25", nestedHomes(1, ruleJ))
	addGroup("C03", colons(rejectJ))
	addGroup("C25", colons(ruleJ))
	use("C12", 3, treeJ, 0, 1)
	use("C14", 2, roundJ, 0, 1, 2, 3)
	use("C15", 5, optJ, 0, 1, 2, 3)
	use("C17", 2, jsonJ, 0, 1, 2, 3)
	use("C18", 2, walkJ, 0, 2, 3)
	use("C20", 1, posJ, 0, 1, 2)
	use("C22", 5, tokJ, 0, 1)
	use("C24", 5, stmtJ, 0, 1, 2, 3)
	addGroup("C02", neighbourhood(acceptJ))
	addGroup("C03", neighbourhood(rejectJ))
	addGroup("C04", neighbourhood(treeJ))
	addGroup("C20", neighbourhood(posJ))
	addGroup("C22", neighbourhood(tokJ))
	// sizes for what is rendered
	small := func(j judgeFunc) func(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) {
		return func(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) { j(c, src, r) }
	}
	flat := accepted(func(c *mon.Ctx, src string, a *ast.AstNode, r *ref.Result) {
		conf := randConf(c.R)
		if len(src) > 3000 {
			conf.Margin = 0
		}
		roundTrip(c, src, a, conf)
	})
	addGroup("C14", sizedGroup("all-sizes", 1026, 60000, small(flat)))
	addGroup("C15", sizedGroup("all-sizes", 70, 60000, small(optJ)))
	addGroup("C17", sizedGroup("all-sizes", 1026, 60000, small(jsonJ)))
	addGroup("C18", sizedGroup("all-sizes", 5001, 100000, small(walkJ), "block", "decl"))
	addGroup("C22", sizedGroup("all-sizes", 200000, 300000, func(c *mon.Ctx, sh *shape, n int, src string, r *ref.Result) {
		checkStream(c, src, len(src) < 20000)
	}, "lit", "name", "layout", "pos", "args"))
	addGroup("C24", sizedGroup("all-sizes", 40, 20000, small(stmtJ)))
	// every character in a string: first, last, alone, doubled, after a line break
	addGroup("C07", mon.Group{Name: "string-characters", Quick: 0x110000 / 256, Deep: 0x110000 / 256, Run: func(c *mon.Ctx, i int) {
		for k := 0; k < 256; k += 16 {
			var b strings.Builder
			for m := 0; m < 16; m++ {
				cp := i*256 + k + m
				if cp == '"' || cp == '\n' || cp == '\r' || cp >= 0xd800 && cp < 0xe000 {
					continue
				}
				s := string(rune(cp))
				for _, f := range []string{"$", "$а", "а$", "а$б", "$$", "а\n|$б", "а\n|б$", "\"\"$", "$\"\""} {
					b.WriteString("х = \"" + strings.ReplaceAll(f, "$", s) + "\";\n")
				}
			}
			src := b.String()
			if r := ref.Parse(src); r.Accept() {
				wantTree(c, src, r.Tree)
				c.Count("characters", 16)
			}
		}
		c.Seen(fmt.Sprint(i))
	}})
}

// kindTrees: the trees of the kinds of expressions that stand anywhere an expression can.
var kindTrees = sync.OnceValue(func() []*tree.Node {
	var out []*tree.Node
	for _, e := range exprKinds {
		r := ref.Parse("х = " + e + ";")
		if !r.Accept() || len(r.Tree.Kids) != 2 || r.Tree.Kids[1].Kind != "assign" {
			continue
		}
		out = append(out, r.Tree.Kids[1].Kids[1])
	}
	return out
})

// spice gives the same statements other values and conditions.
func spice(r *rand.Rand, n *tree.Node) *tree.Node {
	n = n.Clone()
	var visit func(n *tree.Node)
	visit = func(n *tree.Node) {
		switch n.Kind {
		case "return", "throw", "if", "elif", "while":
			if n.Kids[0].Kind != "none" && r.IntN(2) == 0 {
				n.Kids[0] = kindTrees()[r.IntN(len(kindTrees()))].Clone()
			}
		}
		for _, k := range n.Kids {
			visit(k)
		}
	}
	visit(n)
	return n
}

// nestedHomes: every jump and every returned value in every two nested blocks.
func nestedHomes(thin int, j judgeFunc) mon.Group {
	var jumps []string
	for _, s := range stmtKinds {
		for _, w := range []string{"Прервать", "Продолжить", "Возврат", "ВызватьИсключение"} {
			if strings.HasPrefix(s, w) {
				jumps = append(jumps, s)
			}
		}
	}
	n := len(blockHomes)
	return mon.Group{Name: "jumps-in-nested-homes", Quick: n * n, Deep: n * n, Run: func(c *mon.Ctx, i int) {
		outer, inner := blockHomes[i%n], blockHomes[i/n]
		for k, s := range jumps {
			if c.Tier == "thorough" || k%thin == i%thin {
				judgeText(c, strings.ReplaceAll(outer, "$", strings.ReplaceAll(inner, "$", s+";")), j)
			}
		}
		for k, e := range exprKinds {
			if c.Tier == "thorough" || k%(8*thin) == i%(8*thin) {
				judgeText(c, strings.ReplaceAll(outer, "$", strings.ReplaceAll(inner, "$", "Возврат "+e)), j)
			}
		}
		c.Seen(outer + inner)
	}}
}

// colons: a colon between any two statements of any block.
func colons(j judgeFunc) mon.Group {
	n := len(blockHomes)
	return mon.Group{Name: "colons", Quick: n * len(stmtKinds), Deep: n * len(stmtKinds), Run: func(c *mon.Ctx, i int) {
		h, a := blockHomes[i%n], stmtKinds[i/n]
		for k, b := range stmtKinds {
			if c.Tier == "thorough" || k%4 == i%4 || a == b {
				judgeText(c, strings.ReplaceAll(h, "$", []string{"", "х = 1; ", "; "}[k%3]+a+" : "+b+[]string{"", ";", "\n;"}[(i+k)%3]), j)
			}
		}
		c.Seen(h + a)
	}}
}
