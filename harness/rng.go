package main

import (
	"math"
	"strconv"
	"strings"
	"unicode"
)

// rng is splitmix64: the same seed gives the same case on every run and every machine.
type rng struct{ s uint64 }

func newRng(seed, index uint64, salt string) *rng {
	h := uint64(1469598103934665603)
	for i := 0; i < len(salt); i++ {
		h = (h ^ uint64(salt[i])) * 1099511628211
	}
	r := &rng{h ^ (seed * 0x9E3779B97F4A7C15) ^ (index * 0xD1B54A32D192ED03)}
	r.u64()
	return r
}

func (r *rng) u64() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

func (r *rng) n(k int) int { return int(r.u64() % uint64(k)) }

// in returns a number in [lo, hi].
func (r *rng) in(lo, hi int) int { return lo + r.n(hi-lo+1) }

// some is a number of things: usually lo to hi, rarely more.
func (r *rng) some(lo, hi int) int {
	switch x := r.n(100); {
	case x < 1:
		if r.n(50) == 0 {
			return r.in(hi+15, hi+150)
		}
		return r.in(hi+1, hi+14)
	case x < 6:
		return r.in(hi+1, hi+3)
	}
	return r.in(lo, hi)
}

// permille is true k times out of a thousand.
func (r *rng) permille(k int) bool { return r.n(1000) < k }

// clauses is the length of a walk: usually lo to hi, rarely far longer.
func (r *rng) clauses(lo, hi int) int {
	if r.permille(15) {
		if r.n(20) == 0 {
			return r.in(hi+21, hi+100)
		}
		return r.in(hi+1, hi+20)
	}
	return r.in(lo, hi)
}

// p is true k times out of a hundred.
func (r *rng) p(k int) bool { return r.n(100) < k }

func (r *rng) pick(s []string) string { return s[r.n(len(s))] }

// weird name bodies: everything a quoted name may contain. A number is appended to keep them apart and off the
// reserved words.
var weird = []string{
	"a b", "a`b", "``", "`", "my name", "x'y", "x\"y", "a\\b", "a{b}", "a)b", "(a", "a:b", "a.b", "a-b", "1x", "9", "$p",
	"é", "ß", "名前", "имя", "a\tb", "a\nb", "a//b", "a/*b*/", "a;b", "a|b", "*", "ab*", "a$b", "😀", " ", "  a ", "_",
	"`) DETACH DELETE n //", "'", "\"", "\\", "\\`", "a\u00a0b", "\u0301", "x\u200by", "]->()", "0", "-1", "@", "#", "%", "!",
	"a\u0660", "\u0660", "n\u2160", "a\u203fb", "ª", "ǅ", "\x01", "a`", "`a", "a``b", "`a`",
}

var plainNames = []string{"n", "m", "person", "x", "y", "foo", "barBaz", "_u", "Z", "été", "q_1", "имя", "名", "i", "Movie", "ACTED_IN", "rel", "p"}

// word gives a name body; roughly one in nasty per hundred is unusual.
func (g *G) word() string {
	if g.r.p(g.p.hostile) {
		return g.hostile()
	}
	if g.r.p(g.p.nasty) {
		if g.r.p(25) {
			var b strings.Builder
			for k := g.r.in(1, 6); k > 0; k-- {
				b.WriteString(g.r.pick(weird))
			}
			return b.String()
		}
		return g.r.pick(weird)
	}
	return g.r.pick(plainNames)
}

// name gives a name, usually one that was not used before in this case.
func (g *G) name() string {
	if len(g.used) > 0 && g.r.p(5) {
		g.hit("name.repeated")
		return g.used[g.r.n(len(g.used))]
	}
	v := g.key()
	if len(g.used) < 40 {
		g.used = append(g.used, v)
	}
	return v
}

// key gives a name that was not used before in this case.
func (g *G) key() string {
	for {
		v := g.anyKey()
		if !g.keys[v] {
			if g.keys == nil {
				g.keys = map[string]bool{}
			}
			g.keys[v] = true
			return v
		}
	}
}

func (g *G) anyKey() string {
	g.uid++
	if g.p.tick != nil {
		g.p.tick()
	}
	if len(g.used) > 0 && g.r.p(4) {
		// a name much like another one
		g.hit("name.similar")
		return g.similar(g.used[g.r.n(len(g.used))])
	}
	w, id := g.word(), strconv.Itoa(g.uid)
	if !g.r.p(g.p.nasty) {
		return w + id
	}
	switch g.r.n(8) {
	case 0, 1:
		return w + id
	case 2, 3:
		return id + w
	case 4:
		// the number anywhere in it, so that the name can begin and end with anything
		rs := []rune(w)
		k := g.r.in(0, len(rs))
		return string(rs[:k]) + id + string(rs[k:])
	case 5:
		if g.r.p(10) {
			// a long name
			if g.r.p(50) {
				// which differs late from others
				return strings.Repeat("Abcdefgh", g.r.in(1, 40)) + id + w
			}
			return id + strings.Repeat(w, g.r.in(10, 300)) + w
		}
		return w + id + w
	}
	around := g.r.pick(wrappers)
	at := strings.IndexByte(around, 0)
	if g.r.p(30) {
		w = ""
	} else if g.r.p(60) {
		w = g.r.pick(plainNames)
	}
	return around[:at] + w + id + around[at+1:]
}

// similar gives a name that differs a little from the given one.
func (g *G) similar(v string) string {
	rs := []rune(v)
	k := g.r.n(len(rs))
	switch g.r.n(6) {
	case 0, 1:
		// in the case of letters
		for range rs {
			if u := unicode.ToUpper(rs[k]); u != rs[k] {
				rs[k] = u
				break
			} else if l := unicode.ToLower(rs[k]); l != rs[k] {
				rs[k] = l
				break
			}
			k = (k + 1) % len(rs)
		}
		return string(rs)
	case 2:
		// a part of it
		if last := rs[len(rs)-1]; len(rs) > 1 && last >= '0' && last <= '9' && (unicode.IsLetter(rs[0]) || rs[0] == '_') {
			return string(rs[:len(rs)-1])
		}
	case 3:
		return v + "_"
	case 4:
		return v + " "
	}
	return v + strconv.Itoa(g.uid%10)
}

// wrappers look like quoting, grouping or another syntax around a name.
var wrappers = []string{
	"`\x00`", "``\x00``", "`\x00", "\x00`", "'\x00'", "\"\x00\"", "[\x00]", "{\x00}", "(\x00)", "$\x00", "$`\x00`", ":\x00", ":`\x00`", "@\x00", " \x00 ",
	"\x00 ", "\t\x00", "\x00.x", "x.\x00", "x.`\x00`", "`x`.\x00", "`x`.`\x00`", "\x00()", "\x00(*)", "-\x00", "\x00*", "*\x00", ".\x00", "\x00.", "\x00..",
	"<\x00>", "/*\x00*/", "//\x00", "\x00 AS x", "DISTINCT \x00", "NOT \x00", "\\`\x00\\`", "`\x00` ", " `\x00`", "_\x00_", "\x00:\x60B\x60", "\x00|", "|\x00", "\x00=1", "\x00²", "\x00½", "x\x00Ⅳ",
}

var weirdStrings = []string{
	"", "a", "it's", "\"q\"", "\\", "\\\\", "\\'", "'", "''", "' OR 1=1 //", "\\n", "a\nb", "\r\n", "\t", "`", "${x}", "$p", "{}", "é",
	"名前", "😀", "\u0000", "\u2028", "\\u0041", "\\u0027", "//x", "/* */", "%s", "%", "\b", "\f", "ends with \\", "\\\\'", "RETURN 1", " ",
	"   ", "a'b'c", "\\\"", "'\\", "'; MATCH (n) DETACH DELETE n; //", "\ufeff", "\u0085", "\x7f",
}

func (g *G) str() string {
	if g.r.p(12) {
		// texts that look quoted, escaped or like another syntax already
		s := g.r.pick(weirdStrings)
		around := g.r.pick(wrappers)
		at := strings.IndexByte(around, 0)
		if g.r.p(10) {
			k := 400
			if g.r.n(100) == 0 {
				k = 40000
			}
			s = strings.Repeat(s, g.r.in(10, k))
		}
		return around[:at] + s + around[at+1:]
	}
	if g.r.p(60) {
		return g.r.pick(weirdStrings)
	}
	var b strings.Builder
	for k := g.r.in(0, 12); k > 0; k-- {
		switch g.r.n(7) {
		case 0:
			b.WriteString(g.r.pick(weirdStrings))
		case 1:
			b.WriteByte('\\')
		case 2:
			b.WriteByte('\'')
		case 3:
			b.WriteRune(rune(g.r.in(0x20, 0x7e)))
		case 4:
			b.WriteRune(rune(g.r.in(0xa0, 0x2fff)))
		case 5:
			b.WriteRune(rune(g.r.in(0x1f300, 0x1f5ff)))
		default:
			b.WriteByte(byte(g.r.in(0, 0x1f)))
		}
	}
	return b.String()
}

func (g *G) integer() int {
	switch g.r.n(8) {
	case 0:
		return []int{0, 1, -1, 2, 10, 100, 1000000, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -(1<<53 + 1), math.MaxInt64 - 1}[g.r.n(15)]
	case 1:
		return int(g.r.u64())
	case 2:
		return -g.r.n(1000)
	case 3:
		return int(g.r.u64() >> uint(g.r.n(64)))
	}
	return g.r.n(1000)
}

func (g *G) float() float64 {
	switch g.r.n(6) {
	case 0:
		return []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e-7, 1e20, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, -0.5, 3.141592653589793, 1e100, 123456789012345678, 5e-324, 100000, 1e6, 1e5}[g.r.n(19)]
	case 1:
		for {
			f := math.Float64frombits(g.r.u64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 2:
		return float64(g.r.n(100000)) / 1000
	case 3:
		return -float64(g.r.n(1000)) / 8
	}
	return float64(g.r.n(1000)) / 10
}
