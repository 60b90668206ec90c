package checks

import (
	"fmt"
	"strings"

	"verif/mon"
	"verif/ref"
)

// afterNumber: texts in which the word directly after a number is valid when the two stand apart.
var afterNumber = []struct{ before, word, after string }{
	{"Если а = ", "Тогда", " КонецЕсли"},
	{"Если а = 1 Тогда ИначеЕсли а = ", "Тогда", " КонецЕсли"},
	{"Если а Тогда х = ", "КонецЕсли", ""},
	{"Если а Тогда х = ", "Иначе", " КонецЕсли"},
	{"Если а Тогда х = ", "ИначеЕсли", " б Тогда КонецЕсли"},
	{"Пока а > ", "Цикл", " КонецЦикла"},
	{"Пока а Цикл х = ", "КонецЦикла", ""},
	{"Для с = ", "По", " 5 Цикл КонецЦикла"},
	{"Для с = 1 По ", "Цикл", " КонецЦикла"},
	{"х = ", "И", " 1 = 1"},
	{"х = ", "ИЛИ", " б"},
	{"х = ф(", "И", " а)"},
	{"Попытка х = ", "Исключение", " КонецПопытки"},
	{"Попытка Исключение х = ", "КонецПопытки", ""},
	{"Процедура П() х = ", "КонецПроцедуры", ""},
	{"Функция Ф() Возврат ", "КонецФункции", ""},
	{"Процедура П(а = ", "Экспорт", ") КонецПроцедуры"},
	{"х = ", "", ""}, {"х = ", "а", ""}, {"х = ", "а", " = 1"}, {"ф(", "б", ")"},
}

var wordCases = []func(string) string{
	strings.ToLower, strings.ToUpper, func(s string) string { return s },
	func(s string) string { // the first letter only, in capitals
		r := []rune(strings.ToLower(s))
		if len(r) > 0 {
			r[0] = []rune(strings.ToUpper(string(r[:1])))[0]
		}
		return string(r)
	},
	func(s string) string {
		r := []rune(strings.ToUpper(s))
		if len(r) > 0 {
			r[0] = []rune(strings.ToLower(string(r[:1])))[0]
		}
		return string(r)
	},
}

func init() {
	nums := []string{"1", "0", "12", "1.5", "0.0", "007", "9999999999999999999999", "3."}
	letters := []rune("абвгдеёжзийклмнопрстуфхцчшщъыьэюяАБВГДЕЁЖЗИЙКЛМНОПРСТУФХЦЧШЩЪЫЬЭЮЯabcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_ѣҐґІіЇїßéÉ")
	addGroup("C03", mon.Group{Name: "number-then-word", Quick: len(nums) * len(afterNumber), Deep: len(nums) * len(afterNumber), Run: func(c *mon.Ctx, i int) {
		n, a := nums[i%len(nums)], afterNumber[i/len(nums)]
		try := func(src string) {
			if r := ref.Parse(src); r.Reject() {
				wantReject(c, src, rejectReason(r))
				countReject(c, r)
				c.Seen(src)
			}
		}
		for _, f := range wordCases {
			try(a.before + n + f(a.word) + a.after)
			try(a.before + n + f(a.word) + f(a.word) + a.after)
			try(a.before + n + f(a.word) + "1" + a.after)
		}
		for _, l := range letters {
			try(a.before + n + string(l) + a.after)
			try(a.before + n + string(l) + a.word + a.after)
			try(a.before + n + string(l) + " " + a.word + a.after)
			try(a.before + n + a.word + string(l) + a.after)
		}
		try(a.before + n + "." + n + "." + n + " " + a.word + a.after)
		try(a.before + n + "." + a.word + a.after)
	}})
	// every sequence of digits and dots
	addGroup("C03", mon.Group{Name: "number-shapes", Quick: 81, Deep: 81, Run: func(c *mon.Ctx, i int) {
		const pieces = "01.9"
		try := func(num string) {
			for _, ctx := range []string{"х = %s;", "х = (1 + %s) * 2;", "Процедура П(а = %s) КонецПроцедуры", "ф(1, %s)", "м[%s] = -%[1]s"} {
				src := fmt.Sprintf(ctx, num)
				if r := ref.Parse(src); r.Reject() {
					wantReject(c, src, rejectReason(r))
					countReject(c, r)
					c.Seen(src)
				}
			}
		}
		var grow func(s string, n int)
		grow = func(s string, n int) {
			try(s)
			for k := 0; n > 0 && k < 3; k++ {
				grow(s+pieces[k:k+1], n-1)
			}
		}
		head, k := "", i
		for n := 0; n < 4; n++ {
			head += pieces[k%3 : k%3+1]
			k /= 3
		}
		for n := 1; n < 4; n++ {
			try(head[:n])
		}
		grow(head, deepen(c, 3, 5))
		for n := 5; n < 40; n++ { // long ones with one or two dots too many anywhere
			d := strings.Repeat("7", n)
			for dots := 2 + i%3; dots > 0; dots-- {
				at := 1 + c.R.IntN(len(d))
				d = d[:at] + "." + d[at:]
			}
			try(d)
		}
	}})
	// every pair of date fields with values in, at and over their bounds
	fieldValues := []int{0, 1, 2, 4, 6, 9, 10, 11, 12, 13, 20, 22, 23, 24, 25, 28, 29, 30, 31, 32, 48, 58, 59, 60, 61, 90, 99}
	addGroup("C03", mon.Group{Name: "date-fields", Quick: 27 * 27, Deep: 27 * 27, Run: func(c *mon.Ctx, i int) {
		for a := 0; a < 5; a++ {
			for b := a + 1; b < 5; b++ {
				for _, rest := range [][]int{{0, 0, 0, 0, 0}, {1, 1, 0, 0, 0}, {2, 28, 23, 59, 59}, {11, 30, 10, 20, 30}} {
					f := append([]int{}, rest...)
					f[a], f[b] = fieldValues[i/27], fieldValues[i%27]
					year := pick(c.R, 2020, 1900, 2000, 1, 9999, 0, 2023)
					for n := max(2, b+1); n <= 5; n++ {
						if n == 3 {
							continue
						}
						s := fmt.Sprintf("%04d", year)
						for _, x := range f[:n] {
							s += fmt.Sprintf("%02d", x)
						}
						src := "х = '" + s + "';"
						if r := ref.Parse(src); r.Reject() {
							wantReject(c, src, rejectReason(r))
							countReject(c, r)
							c.Seen(src)
						}
					}
				}
			}
		}
	}})
	// every length of dates with every pattern of zero parts
	addGroup("C03", mon.Group{Name: "date-patterns", Quick: 40 * 64, Deep: 40 * 64, Run: func(c *mon.Ctx, i int) {
		n, mask := i/64, i%64
		parts := []string{"2020", "11", "10", "09", "08", "07"}
		other := []string{"9999", "13", "32", "24", "60", "60"}
		for v := 0; v < 3; v++ {
			var b strings.Builder
			for k, p := range parts {
				if mask>>k&1 == 0 {
					if v == 2 && k > 0 {
						p = other[k]
					} else {
						p = rep("0", len(p))
					}
				}
				b.WriteString(p)
			}
			s := b.String()
			for len(s) < n {
				s += []string{"0", "1", "5"}[v]
			}
			s = s[:n]
			for _, ctx := range []string{"х = '%s';", "Процедура П(а = '%s') КонецПроцедуры", "ф(1, '%s')", "Если '%s' < а Тогда КонецЕсли"} {
				src := fmt.Sprintf(ctx, s)
				if r := ref.Parse(src); r.Reject() {
					wantReject(c, src, rejectReason(r))
					countReject(c, r)
					c.Seen(src)
				}
			}
		}
	}})
	// a character that starts no token, at every kind of place, for every code point of the basic plane
	places := []string{"%s", "х = 1%s;", "х = 1 %s;", "х%s = 1;", "%sх = 1;", "х = \"а\"%s", "ф(%s)", "х = а.%s", "~%s", "&%s", "х = '%s'", "Если а %s Тогда КонецЕсли", "х = а %s б;"}
	addGroup("C03", mon.Group{Name: "characters", Quick: 0x10000 / 64, Deep: 0x110000 / 64, Run: func(c *mon.Ctx, i int) {
		for k := 0; k < 64; k++ {
			cp := i*64 + k
			if cp >= 0xd800 && cp < 0xe000 {
				continue
			}
			p := 0
			if c.Tier != "thorough" && cp > 0x600 {
				p = len(places) - 3
			}
			for q := range places[p:] {
				src := fmt.Sprintf(places[p:][q], string(rune(cp)))
				if r := ref.Parse(src); r.Reject() {
					wantReject(c, src, rejectReason(r))
					countReject(c, r)
				}
			}
		}
		c.Seen(fmt.Sprint(i))
	}})
}

// deepen picks a bound for the tier.
func deepen(c *mon.Ctx, quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

func init() {
	// every character before the offending token: in a string, in its last line, in a date, in a name
	places := []string{"х = \"$\" )", "х = \"а$б$\" + \"$$\" )", "х = \"а\n|$\" )", "х = 'а$2020-01-01$' )", "х = а$ )", "ф(\"$\",, \"к\n | $\" ]", "//$\nх = )", "#$\n х = )", "х = \"$\" \"$\" )", "х = \"\n//$\n|\" )"}
	addGroup("C20", mon.Group{Name: "every-character", Quick: 0x110000 / 256, Deep: 0x110000 / 256, Run: func(c *mon.Ctx, i int) {
		for k := 0; k < 256; k++ {
			cp := i*256 + k
			if cp >= 0xd800 && cp < 0xe000 {
				continue
			}
			// all of the first planes' commonly used parts, a sample of the rest
			if c.Tier != "thorough" && cp >= 0x3000 && !(cp >= 0xfe00 && cp < 0x10000) && !(cp >= 0x1f300 && cp < 0x1f700) && k%16 != i%16 {
				continue
			}
			for n, p := range places {
				if c.Tier != "thorough" && cp >= 0x600 && (n+cp)%3 > 0 {
					continue
				}
				judgeText(c, strings.ReplaceAll(p, "$", string(rune(cp))), func(c *mon.Ctx, src string, r *ref.Result) { wantPosition(c, src, r) })
			}
		}
		c.Seen(fmt.Sprint("char", i))
	}})
	addGroup("C22", mon.Group{Name: "every-character", Quick: 0x110000 / 256, Deep: 0x110000 / 256, Run: func(c *mon.Ctx, i int) {
		for k := 0; k < 256; k++ {
			cp := i*256 + k
			if cp >= 0xd800 && cp < 0xe000 {
				continue
			}
			if c.Tier != "thorough" && cp >= 0x3000 && !(cp >= 0xfe00 && cp < 0x10000) && !(cp >= 0x1f300 && cp < 0x1f700) && k%16 != i%16 {
				continue
			}
			s := string(rune(cp))
			for n, p := range places {
				if c.Tier != "thorough" && cp >= 0x600 && (n+cp)%3 > 0 {
					continue
				}
				checkStream(c, strings.ReplaceAll(p, "$", s), true)
			}
			for _, p := range []string{"а $ б", "а$1", "1$", "а.$", "&$", "~$ а", "&НаСервере$", "Если$", "<$=", "\"а\"$"} {
				checkStream(c, strings.ReplaceAll(p, "$", s), true)
			}
		}
		c.Seen(fmt.Sprint("char", i))
	}})
}
