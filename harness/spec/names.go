package spec

import (
	"strings"
	"unicode"

	"github.com/iancoleman/strcase"
)

// Namify is the reference naming function of the default scheme: the ASCII
// letters and digits in order, letters that follow a separator (something else
// than a letter or a digit) in upper case, leading digits dropped, first letter
// in upper case.
func Namify(s string) string {
	out := ""
	up := true
	for _, c := range s {
		isLetter := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
		isDigit := c >= '0' && c <= '9'
		if isLetter && (up || out == "") {
			out += strings.ToUpper(string(c))
		} else if isLetter || isDigit && out != "" {
			out += string(c)
		}
		up = !unicode.IsLetter(c) && !unicode.IsDigit(c)
	}
	return out
}

// GoName names according to the scheme of the options.
func (o Options) GoName(s string) string {
	if o.Naming == "camel" {
		return Namify(strcase.ToCamel(s))
	}
	return Namify(s)
}

// Key converts a JSON key according to the options.
func (o Options) Key(s string) string {
	switch o.Convert {
	case "snake":
		return strcase.ToSnake(s)
	case "kebab":
		return strcase.ToKebab(s)
	case "camel":
		return strcase.ToCamel(s)
	}
	return s
}
