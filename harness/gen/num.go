package gen

import "strconv"

func decimal(s string) string {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}
