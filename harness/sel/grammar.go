package sel

import (
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/vs"
)

// gram reads selectors as the grammar of Selectors has them, with the library's additions. It does not decide on namespaces,
// comments, NUL, what ends too soon within brackets, forgiving lists, and what later levels of Selectors added.
type gram struct {
	s      string
	i      int
	open   int
	unsure bool
	pe     bool // a pseudo-element is among what was read
}

// doubt gives up.
func (g *gram) doubt() bool {
	g.unsure = true
	return false
}

func (g *gram) at(c byte) bool { return g.i < len(g.s) && g.s[g.i] == c }

func (g *gram) in(set string) bool { return g.i < len(g.s) && vs.In(g.s[g.i], set) }

func (g *gram) ws() bool {
	n := g.i
	for g.in(" \t\n\r\f") {
		g.i++
	}
	return g.i > n
}

// escape tells whether an escape begins here.
func (g *gram) escape() bool {
	if !g.at('\\') {
		return false
	}
	if g.i+1 == len(g.s) {
		return g.doubt()
	}
	return !vs.In(g.s[g.i+1], "\n\r\f")
}

func (g *gram) start() bool { return g.i < len(g.s) && isStart(g.s[g.i]) || g.escape() }

func (g *gram) ident() (string, bool) {
	from := g.i
	if g.at('-') {
		g.i++
		if g.at('-') {
			for g.at('-') {
				g.i++
			}
			if !g.start() {
				return "", g.doubt()
			}
		}
	}
	if !g.start() {
		return "", false
	}
	g.name()
	name, ok, _ := decodeName(g.s[from:g.i])
	return name, ok || g.doubt()
}

// name skips a name, which may be empty.
func (g *gram) name() {
	for {
		if g.i < len(g.s) && isName(g.s[g.i]) {
			g.i++
		} else if g.escape() {
			_, g.i = decodeEscape(g.s, g.i+1)
		} else {
			return
		}
	}
}

func (g *gram) str() bool {
	q := g.s[g.i]
	g.i++
	for g.i < len(g.s) {
		switch {
		case g.s[g.i] == q:
			g.i++
			return true
		case g.s[g.i] == '\\':
			if g.i++; g.i == len(g.s) {
				return g.doubt()
			}
			if !g.in("\n\r\f") {
				_, g.i = decodeEscape(g.s, g.i)
			} else {
				if g.at('\r') && g.i+1 < len(g.s) && g.s[g.i+1] == '\n' {
					g.i++
				}
				g.i++
			}
		case vs.In(g.s[g.i], "\n\r\f"):
			return false
		default:
			g.i++
		}
	}
	return g.doubt()
}

func (g *gram) value() bool {
	if g.in("\"'") {
		return g.str()
	}
	_, ok := g.ident()
	return ok
}

func (g *gram) attr() bool {
	g.i++
	g.open++
	g.ws()
	if g.in("|*") {
		return g.doubt()
	}
	if _, ok := g.ident(); !ok {
		return false
	}
	if g.at('|') && !(g.i+1 < len(g.s) && g.s[g.i+1] == '=') {
		return g.doubt()
	}
	g.ws()
	if !g.at(']') {
		if g.at('#') {
			return g.doubt()
		}
		if g.in("~|^$*!") {
			g.i++
		}
		if !g.at('=') {
			return false
		}
		g.i++
		g.ws()
		if !g.value() {
			return false
		}
		g.ws()
		if g.in("sS\\") {
			return g.doubt()
		}
		if g.in("iI") {
			g.i++
			g.ws()
		}
		if !g.at(']') {
			return false
		}
	}
	g.i++
	g.open--
	return true
}

const elements = " after backdrop before cue first-letter first-line grammar-error marker placeholder selection spelling-error "
const functions = " not has haschild is where lang contains containsown matches matchesown nth-child nth-last-child nth-of-type nth-last-of-type "

func (g *gram) pseudo() bool {
	g.i++
	double := g.at(':')
	if double {
		g.i++
	}
	n, ok := g.ident()
	if !ok {
		return false
	}
	n = fold(n)
	for _, m := range names {
		if !vs.Eq(n, m) {
			continue
		}
		is := " " + m + " "
		if strings.Contains(elements, is) {
			g.pe = true
			return !(m == "cue" && g.at('(')) || g.doubt()
		}
		if double {
			if m[0] == '-' || strings.HasPrefix(m, "focus-") {
				return g.doubt()
			}
			return false
		}
		if !strings.Contains(functions, is) {
			return !(m == "host" && g.at('(')) || g.doubt()
		}
		if !g.at('(') {
			return false
		}
		g.i++
		g.open++
		if !g.argument(m) {
			return false
		}
		g.ws()
		if !g.at(')') {
			return false
		}
		g.i++
		g.open--
		return true
	}
	return false
}

// argument reads what is in the parentheses of a functional pseudo-class.
func (g *gram) argument(m string) bool {
	switch m {
	case "not", "has", "haschild", "is", "where":
		pe := g.pe
		ok := g.list()
		if !pe && g.pe || !ok && m != "not" {
			return g.doubt()
		}
		return ok
	case "lang":
		g.ws()
		if g.in("\"'*") {
			return g.doubt()
		}
		if _, ok := g.ident(); !ok {
			return false
		}
		g.ws()
		return !g.at(',') || g.doubt()
	case "contains", "containsown":
		g.ws()
		return g.value()
	case "matches", "matchesown":
		for g.i < len(g.s) && vs.And('a' <= g.s[g.i], g.s[g.i] <= 'z') {
			g.i++
		}
		return g.at(')') || g.doubt()
	}
	end := g.i
	for end < len(g.s) && g.s[end] != ')' {
		if vs.In(g.s[end], "\\/fF") {
			return g.doubt()
		}
		end++
	}
	if end == len(g.s) {
		return g.doubt()
	}
	_, _, ok, known := anb(g.s[g.i:end])
	g.i = end
	return known && ok || !known && g.doubt()
}

func (g *gram) compound() bool {
	none := true
	switch {
	case g.at('|'):
		return g.doubt()
	case g.at('*'):
		g.i++
		none = false
		if g.at('|') {
			g.i++
			if !g.at('*') {
				return g.doubt()
			}
			g.i++
		}
	case !g.in("#.[:"):
		if _, ok := g.ident(); !ok {
			return false
		}
		none = false
	}
	if g.at('|') {
		return g.doubt()
	}
	for g.in("#.[:") {
		c := g.s[g.i]
		if g.pe { // nothing follows a pseudo-element but what a later level allows
			if c == ':' && !(g.i+1 < len(g.s) && g.s[g.i+1] == ':') {
				return g.doubt()
			}
			return false
		}
		ok := false
		switch c {
		case '#':
			g.i++
			from := g.i
			_, ok = g.ident()
			if !ok {
				g.i = from
				if g.name(); g.i > from {
					return g.doubt()
				}
			}
		case '.':
			g.i++
			_, ok = g.ident()
		case '[':
			ok = g.attr()
		case ':':
			ok = g.pseudo()
		}
		if !ok {
			return false
		}
		none = false
	}
	return !none
}

func (g *gram) complex() bool {
	if !g.compound() {
		return false
	}
	for {
		had := g.ws()
		if g.i == len(g.s) || g.in(",)") {
			return true
		}
		if g.at('|') {
			return g.doubt()
		}
		if g.in("+>~") {
			g.i++
			g.ws()
		} else if !had {
			return false
		}
		if g.pe {
			return g.doubt()
		}
		if !g.compound() {
			return false
		}
	}
}

func (g *gram) list() bool {
	pe := g.pe
	some := false
	for {
		g.pe = pe
		g.ws()
		if !g.complex() {
			return false
		}
		some = some || g.pe
		if !g.at(',') {
			g.pe = some
			return true
		}
		g.i++
	}
}

// grammatical tells whether the text is a list of selectors, if that is known, and whether with a pseudo-element.
func grammatical(s string) (ok, pe, known bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == 0 || s[i] == '/' && i+1 < len(s) && s[i+1] == '*' {
			return false, false, false
		}
	}
	g := &gram{s: s}
	ok = g.list()
	if g.unsure || g.open > 0 && g.i >= len(s) {
		return false, false, false
	}
	return ok && g.i == len(s), g.pe, true
}

// accepted states that the texts accepted are those that the grammar of selectors gives.
func accepted(s string) {
	ok, pe, known := grammatical(s)
	if !known {
		return
	}
	_, err := cascadia.ParseGroupWithPseudoElements(s)
	vs.Observe("err", err != nil)
	if !ok {
		vs.Reach("wrong")
		vs.Assert(err != nil, "what is not a selector is accepted")
		return
	}
	vs.Reach("right")
	vs.Assert(err == nil, "a selector is rejected")
	_, err = cascadia.ParseGroup(s)
	vs.Assert((err != nil) == pe, "the parser without pseudo-elements is wrong about them")
}

// S01_grammar: any three (thorough: four) significant characters in each of 40 places of a selector: exactly the texts that the
// grammar gives are accepted.
func S01_grammar() {
	k := vs.Choose(len(around) / 2)
	accepted(around[2*k] + vs.StrIn(vs.Choose(pick(3, 4)+1), selChars) + around[2*k+1])
}

// S01_grammarbytes: the same for every string of up to four (thorough: five) bytes.
func S01_grammarbytes() { accepted(vs.Bytes(vs.Choose(pick(4, 5) + 1))) }

// S01_grammarnames: the same for every known pseudo-class and pseudo-element, twice or with others, in 17 kinds of text.
func S01_grammarnames() {
	n := names[vs.Choose(len(names))]
	end := ends[vs.Choose(len(ends))]
	s := []string{":", "::"}[vs.Choose(2)] + n + end
	switch vs.Choose(4) {
	case 1:
		s = "a.b" + s + ".c"
	case 2:
		s += []string{"::after", ":first-line", ":hover", "::selection b", " > c", ", d:before"}[vs.Choose(6)]
	case 3:
		s = ":not(" + s + ")" + "::marker"
	}
	accepted(s)
}

// S01_grammarlarge: the same for long selectors as in longText.
func S01_grammarlarge() { accepted(longText()) }
