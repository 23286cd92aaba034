package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// An independent scanner for the Cypher lexical grammar (openCypher 9): names, quoted names, strings, numbers,
// parameters and punctuation. It shares no code with the DSL.

type tok struct {
	t   string // id, bid, str, int, float, param, p (punctuation), eof
	v   string // decoded
	pos int
	end int
}

type synErr struct {
	msg string
}

func (e synErr) Error() string { return e.msg }

func lex(s string) (toks []tok, err error) {
	i := 0
	fail := func(f string, a ...interface{}) ([]tok, error) {
		return nil, synErr{fmt.Sprintf("at %d: ", i) + fmt.Sprintf(f, a...)}
	}
	quoted := func() (string, bool) { // at backtick
		var b strings.Builder
		j := i + 1
		for {
			if j >= len(s) {
				return "", false
			}
			if s[j] == '`' {
				if j+1 < len(s) && s[j+1] == '`' {
					b.WriteByte('`')
					j += 2
					continue
				}
				i = j + 1
				return b.String(), true
			}
			b.WriteByte(s[j])
			j++
		}
	}
	plain := func(digitFirst bool) string {
		j := i
		for j < len(s) {
			r, w := utf8.DecodeRuneInString(s[j:])
			if r == utf8.RuneError && w <= 1 {
				break
			}
			if r == '_' || unicode.IsLetter(r) || (unicode.IsDigit(r) && (j > i || digitFirst)) {
				j += w
				continue
			}
			break
		}
		v := s[i:j]
		i = j
		return v
	}
	for i < len(s) {
		start := i
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
			continue
		case c == '`':
			v, ok := quoted()
			if !ok {
				return fail("unterminated quoted name")
			}
			if v == "" {
				return fail("empty quoted name")
			}
			toks = append(toks, tok{"bid", v, start, i})
		case c == '\'' || c == '"':
			var b strings.Builder
			j := i + 1
			for {
				if j >= len(s) {
					return fail("unterminated string")
				}
				if s[j] == c {
					break
				}
				if s[j] == '\\' {
					if j+1 >= len(s) {
						return fail("unterminated escape")
					}
					switch s[j+1] {
					case '\\', '\'', '"', '`':
						b.WriteByte(s[j+1])
					case 'n', 'N':
						b.WriteByte('\n')
					case 'r', 'R':
						b.WriteByte('\r')
					case 't', 'T':
						b.WriteByte('\t')
					case 'b', 'B':
						b.WriteByte('\b')
					case 'f', 'F':
						b.WriteByte('\f')
					case 'u', 'U':
						w := 4
						if s[j+1] == 'U' {
							w = 8
						}
						if j+2+w > len(s) {
							return fail("bad unicode escape")
						}
						n, e := strconv.ParseUint(s[j+2:j+2+w], 16, 32)
						if e != nil {
							return fail("bad unicode escape")
						}
						b.WriteRune(rune(n))
						j += w
					default:
						return fail("bad escape \\%c", s[j+1])
					}
					j += 2
					continue
				}
				b.WriteByte(s[j])
				j++
			}
			i = j + 1
			toks = append(toks, tok{"str", b.String(), start, i})
		case c == '$':
			i++
			if i < len(s) && s[i] == '`' {
				v, ok := quoted()
				if !ok || v == "" {
					return fail("bad quoted parameter")
				}
				toks = append(toks, tok{"param", v, start, i})
				break
			}
			v := plain(true)
			first, _ := utf8.DecodeRuneInString(v)
			if v == "" || unicode.IsDigit(first) && strings.Trim(v, "0123456789") != "" {
				return fail("bad parameter")
			}
			toks = append(toks, tok{"param", v, start, i})
		case c >= '0' && c <= '9':
			j := i
			dig := func() {
				for j < len(s) && s[j] >= '0' && s[j] <= '9' {
					j++
				}
			}
			dig()
			kind := "int"
			if j+1 < len(s) && s[j] == '.' && s[j+1] >= '0' && s[j+1] <= '9' {
				kind = "float"
				j++
				dig()
			}
			if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
				k := j
				j++
				if j < len(s) && (s[j] == '-' || s[j] == '+') {
					if s[j] == '+' {
						return fail("plus sign in exponent")
					}
					j++
				}
				m := j
				dig()
				if j == m {
					j = k
				} else {
					kind = "float"
				}
			}
			if j < len(s) {
				r, _ := utf8.DecodeRuneInString(s[j:])
				if r == '_' || unicode.IsLetter(r) {
					return fail("name starts right after a number")
				}
			}
			v := s[i:j]
			if kind == "int" && len(v) > 1 && v[0] == '0' {
				return fail("octal number")
			}
			i = j
			toks = append(toks, tok{kind, v, start, i})
		default:
			if v := plain(false); v != "" {
				toks = append(toks, tok{"id", v, start, i})
				break
			}
			two := ""
			if i+1 < len(s) {
				two = s[i : i+2]
			}
			switch two {
			case "..", "<>", "<=", ">=", "=~", "+=":
				i += 2
				toks = append(toks, tok{"p", two, start, i})
				continue
			case "//", "/*":
				return fail("comment")
			}
			if !strings.ContainsRune("()[]{}.,:;|=<>+-*/%^", rune(c)) {
				return fail("unexpected character %q", c)
			}
			i++
			toks = append(toks, tok{"p", string(c), start, i})
		}
	}
	toks = append(toks, tok{"eof", "", len(s), len(s)})
	return toks, nil
}

func canonFloat(s string) string {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "bad:" + s
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}
