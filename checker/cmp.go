package main

import (
	"regexp"
	"strings"
)

// Comparison of abstract values with what the specification expects, under
// the facts of one outcome.  Differences are decided by rewriting, by
// enumeration of single octets over their value sets and by splitting on the
// conditions that occur in the terms.

type cmpr struct {
	failed bool // a difference was confirmed
	budget int
}

func newCmpr() *cmpr { return &cmpr{budget: 200000} }

func (c *cmpr) eq(f *Facts, a, b *Term) bool {
	c.failed = false
	cmpUnsure = false
	if c.eqD(f, a, b, 0) {
		return true
	}
	cmpUnsure = a.kind == KStr && b.kind == KStr && c.sampledEqual(f, a, b)
	return false
}

// cmpUnsure: the terms compared last could not be shown to be equal, but they
// have the same value for every valuation of their octets that was tried, so
// the difference may be one of form only.
var cmpUnsure bool

func (c *cmpr) sampledEqual(f *Facts, a, b *Term) bool {
	a, b = f.simplify(a), f.simplify(b)
	seen := map[*Term]bool{}
	var atoms []*Term
	for _, t := range []*Term{a, b} {
		l, _ := byteAtoms(t)
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				atoms = append(atoms, x)
			}
		}
	}
	if len(atoms) == 0 || len(atoms) > 300 || c.budget < 0 {
		return false
	}
	n := 0
	try := func(val func(i int) int) bool {
		m := map[*Term]*Term{}
		for i, x := range atoms {
			set := f.setOf(x)
			v := val(i)
			for k := 0; k < 256 && !set.has(v); k++ {
				v = (v + 1) & 255
			}
			m[x] = Int(int64(v))
		}
		x, y := substM(a, m, map[*Term]*Term{}, false), substM(b, m, map[*Term]*Term{}, false)
		n++
		if x == y {
			return true
		}
		d := newCmpr()
		d.budget = 2000
		return d.eqD(f, x, y, 0)
	}
	for _, v := range []int{0, 1, 0x0f, 0x10, 0x20, 0x41, 0x7f, 0x80, 0x9f, 0xf0, 0xff} {
		v := v
		if !try(func(int) int { return v }) || !try(func(i int) int { return (v + 37*i) & 255 }) {
			return false
		}
	}
	for _, w := range []int{0, 1, len(atoms) - 1} {
		for v := 0; v < 256; v++ {
			if !try(func(i int) int {
				if i == w {
					return v
				}
				return 0x5a
			}) {
				return false
			}
		}
	}
	return n > 0
}

func catParts(t *Term) []*Term {
	if t.op == OApp && t.name == "cat" && t.kind == KStr {
		return t.args
	}
	if t.op == OConst && t.kind == KStr && t.s == "" {
		return nil
	}
	return []*Term{t}
}

func isApp(t *Term, name string) bool { return t.op == OApp && t.name == name }

// findGate: a condition on which the value depends (not below an iteration).
func findGate(t *Term, d int) *Term {
	if d > 8 {
		return nil
	}
	switch t.op {
	case OApp:
		if t.name == "gate" {
			return t.args[0]
		}
		if t.name == "star" {
			for _, a := range t.args[:2] {
				if g := findGate(a, d+1); g != nil {
					return g
				}
			}
			return nil
		}
		for _, a := range t.args {
			if g := findGate(a, d+1); g != nil {
				return g
			}
		}
	case OLin:
		for _, m := range t.lm {
			if g := findGate(m.a, d+1); g != nil {
				return g
			}
		}
	case OByte:
		return findGate(t.args[0], d+1)
	}
	return nil
}

func byteAtoms(t *Term) ([]*Term, bool) {
	var out []*Term
	all := true
	for _, a := range freeAtoms(t) {
		if isByteAtom(a) {
			out = append(out, a)
		} else {
			all = false
		}
	}
	return out, all
}

// split compares under both polarities of a condition.
func (c *cmpr) split(f *Facts, cond *Term, k func(*Facts) bool) bool {
	for _, l := range []*Term{cond, mkNot(cond)} {
		g := f.assume(l)
		if g == nil || k(g) {
			continue
		}
		if c.failed {
			return false
		}
		// a difference counts only if the case is possible: the
		// disjunctions among the facts are taken apart
		n, bad := 12, false
		g.leaves(&n, func(h *Facts) {
			if !bad && (h == g || !k(h)) {
				bad = true
			}
		})
		if bad {
			c.failed = true
			return false
		}
	}
	return true
}

func (c *cmpr) eqD(f *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	c.budget--
	if c.budget < 0 || d > 40 || a.kind != b.kind {
		return false
	}
	a, b = f.simplify(a), f.simplify(b)
	if a == b {
		return true
	}
	if a.op == OConst && b.op == OConst {
		return false
	}
	switch a.kind {
	case KBool:
		return c.condEq(f, a, b, d)
	case KInt:
		if f.decide(mkEQ0(Sub(a, b))) == dTrue {
			return true
		}
	}
	// octet enumeration
	if !a.star && !b.star {
		fa, ok1 := byteAtoms(a)
		fb, ok2 := byteAtoms(b)
		if ok1 && ok2 {
			seen := map[*Term]bool{}
			for _, x := range append(append([]*Term(nil), fa...), fb...) {
				seen[x] = true
			}
			if len(seen) == 1 {
				var at *Term
				for x := range seen {
					at = x
				}
				s := f.setOf(at)
				for v := 0; v < 256; v++ {
					if !s.has(v) {
						continue
					}
					x, y := subst1(a, at, Int(int64(v))), subst1(b, at, Int(int64(v)))
					if x != y {
						g := f.assume(mkInSet(at, setOfInts(v)))
						if g == nil {
							continue
						}
						if x.op == OConst && y.op == OConst || !c.eqD(g, x, y, d+1) {
							return false
						}
					}
				}
				return true
			}
		}
	}
	for _, t := range []*Term{a, b} {
		if g := findGate(t, 0); g != nil {
			return c.split(f, g, func(h *Facts) bool { return c.eqD(h, a, b, d+1) })
		}
	}
	switch a.kind {
	case KStr:
		return c.eqStr(f, catParts(a), catParts(b), d)
	case KInt:
		return c.eqInt(f, a, b, d)
	}
	return c.eqApp(f, a, b, d)
}

func (c *cmpr) eqApp(f *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	if a.op == OByte && b.op == OByte {
		return a.buf == b.buf && c.eqD(f, a.args[0], b.args[0], d+1)
	}
	if a.op != OApp || b.op != OApp || a.name != b.name || len(a.args) != len(b.args) || a.kind != b.kind || a.name == "star" || a.name == "optset" {
		return false
	}
	for i := range a.args {
		if !c.eqD(f, a.args[i], b.args[i], d+1) {
			return false
		}
	}
	return true
}

func (c *cmpr) eqInt(f *Facts, a, b *Term, d int) bool {
	x := Sub(a, b)
	cst, ms := linOf(x)
	if cst != 0 || len(ms)%2 != 0 {
		return c.eqApp(f, a, b, d)
	}
	used := make([]bool, len(ms))
	for i := range ms {
		if used[i] {
			continue
		}
		ok := false
		for j := i + 1; j < len(ms); j++ {
			if !used[j] && ms[i].k == -ms[j].k && c.eqApp(f, ms[i].a, ms[j].a, d) {
				used[j], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// condEq: both conditions hold in the same cases.
func (c *cmpr) condEq(f *Facts, a, b *Term, d int) bool {
	if a == b {
		return true
	}
	a, b = f.simplify(a), f.simplify(b)
	if a == b {
		return true
	}
	if c.eqApp(f, a, b, d) {
		return true
	}
	if g := f.assume(a); g != nil && g.decide(b) != dTrue {
		// b may still follow case by case
		if h := g.assume(mkNot(b)); h != nil {
			return false
		}
	}
	if g := f.assume(b); g != nil && g.decide(a) != dTrue {
		if h := g.assume(mkNot(a)); h != nil {
			return false
		}
	}
	return true
}

func (c *cmpr) eqStr(f *Facts, a, b []*Term, d int) bool {
	for {
		c.budget--
		if c.budget < 0 || d > 60 {
			return false
		}
		if len(a) == 0 && len(b) == 0 {
			return true
		}
		if len(a) == 0 || len(b) == 0 {
			r := a
			if len(a) == 0 {
				r = b
			}
			// every remaining part must be empty
			for _, p := range r {
				if isApp(p, "star") {
					if f.decide(mkGE0(Sub(Sub(p.args[1], p.args[0]), Int(1)))) == dFalse {
						continue
					}
				}
				if isApp(p, "gate") {
					if !c.eqD(f, p, Str(""), d+1) {
						return false
					}
					continue
				}
				if isApp(p, "bufstr") && f.decide(mkEQ0(p.args[2])) == dTrue {
					continue
				}
				return false
			}
			return true
		}
		x, y := a[0], b[0]
		if x == y {
			a, b = a[1:], b[1:]
			continue
		}
		if x.op == OConst && y.op == OConst {
			n := len(x.s)
			if len(y.s) < n {
				n = len(y.s)
			}
			if x.s[:n] != y.s[:n] {
				return false
			}
			a, b = dropPrefix(a, n), dropPrefix(b, n)
			continue
		}
		for _, p := range []*Term{x, y} {
			if isApp(p, "gate") {
				aa, bb := a, b
				return c.split(f, p.args[0], func(g *Facts) bool {
					return c.eqStr(g, simpParts(g, aa), simpParts(g, bb), d+1)
				})
			}
		}
		sx, sy := isApp(x, "star"), isApp(y, "star")
		if sx && sy {
			if c.eqStar(f, x, y, d) {
				a, b = a[1:], b[1:]
				continue
			}
		}
		if sx || sy {
			p := x
			if !sx {
				p = y
			}
			n := Sub(p.args[1], p.args[0])
			ge1 := mkGE0(AddC(n, -1))
			switch f.decide(ge1) {
			case dUnknown:
				aa, bb := a, b
				return c.split(f, ge1, func(g *Facts) bool {
					return c.eqStr(g, simpParts(g, aa), simpParts(g, bb), d+1)
				})
			case dFalse:
				if sx {
					a = a[1:]
				} else {
					b = b[1:]
				}
				continue
			}
			// at least one iteration: take the first out
			d++
			head := f.simplify(starAt(p.args[2], p.args[0]))
			rest := mkStar(Int(0), AddC(n, -1), starAt(p.args[2], Add(iotaSym, AddC(p.args[0], 1))))
			np := append(append([]*Term(nil), catParts(head)...), catParts(rest)...)
			if sx {
				a = append(np, a[1:]...)
			} else {
				b = append(np, b[1:]...)
			}
			continue
		}
		if x.op != OConst && y.op != OConst && c.eqApp(f, x, y, d) {
			a, b = a[1:], b[1:]
			continue
		}
		// enumerate the octet of one head
		for _, p := range []*Term{x, y} {
			if p.op == OConst || p.star {
				continue
			}
			at, all := byteAtoms(p)
			if all && len(at) == 1 && d < 30 {
				s := f.setOf(at[0])
				if s.count() > 1 {
					for v := 0; v < 256; v++ {
						if !s.has(v) {
							continue
						}
						g := f.assume(mkInSet(at[0], setOfInts(v)))
						if g == nil {
							continue
						}
						if !c.eqStr(g, simpParts(g, a), simpParts(g, b), d+10) {
							return false
						}
					}
					return true
				}
			}
		}
		return false
	}
}

func simpParts(f *Facts, p []*Term) []*Term { return catParts(f.simplify(mkCat(p...))) }

func dropPrefix(p []*Term, n int) []*Term {
	if len(p[0].s) == n {
		return p[1:]
	}
	return append([]*Term{Str(p[0].s[n:])}, p[1:]...)
}

func (c *cmpr) eqStar(f *Facts, x, y *Term, d int) bool {
	if !c.eqD(f, x.args[0], y.args[0], d+1) || !c.eqD(f, x.args[1], y.args[1], d+1) {
		return false
	}
	k := Sym(KInt, "k", 0, maxBuf)
	g := f.assume(mkGE0(Sub(k, x.args[0])))
	if g != nil {
		g = g.assume(mkGE0(Sub(AddC(x.args[1], -1), k)))
	}
	if g == nil {
		return true
	}
	return c.eqD(g, starAt(x.args[2], k), starAt(y.args[2], k), d+1)
}

// unknownLib: the term contains the result of a library function the analysis
// does not know.
func unknownLib(t *Term, depth int) bool {
	if depth > 12 {
		return false
	}
	if depth == 0 && (isApp(t, "ge0") && t.args[0].op == OSym || loopBound[t]) {
		return false // the bound of a widened counter
	}
	if (t.op == OApp || t.op == OSym) && (strings.HasPrefix(t.name, "call ") && !(knownByName[t.name] && !composed(t.args)) || t.op == OSym && unknownSym(t.name)) {
		return true
	}
	for _, a := range t.args {
		if unknownLib(a, depth+1) {
			return true
		}
	}
	for _, m := range t.lm {
		if unknownLib(m.a, depth+1) {
			return true
		}
	}
	return false
}

// composed: the text was put together by the program, octet by octet; what
// remains of it after a function like strings.TrimRight is not known.
func composed(ts []*Term) bool {
	for _, t := range ts {
		if isApp(t, "star") || isApp(t, "fmtint") || composed(t.args) {
			return true
		}
	}
	return false
}

// loopBound: what the analysis assumes of the values a loop changes, because
// every pass of the loop keeps it.
var loopBound = map[*Term]bool{}

// unknownSym: a value the analysis made up because it has no model of the
// operation that computes it.
func unknownSym(name string) bool {
	i := strings.LastIndexByte(name, '#')
	return i >= 0 && madeUp[name[:i]] || strings.Contains(name, "(w#")
}

var madeUp = map[string]bool{}

func init() {
	for _, n := range []string{"w", "?", "A", "bytes written", "array", "str", "sprintf", "fprint", "buffer", "conv", "binop", "unop", "neg", "xor", "element", "index", "slice", "rangeval", "extract", "unmodelled", "map", "mapok", "mapval", "runes", "append", "cmp", "erreq", "erris", "more", "idx", "output", "joined", "makelen", "assert", "list", "readers", "arg", "makelen", "copied", "join str"} {
		madeUp[n] = true
	}
}

// knownByName: functions the analysis has no model of, but which are known not
// to give their argument back.
var knownByName = map[string]bool{}

func init() {
	for _, n := range []string{"Trim", "TrimLeft", "TrimRight", "TrimSuffix", "TrimFunc", "TrimSpace", "Title", "ToTitle", "Replace", "ReplaceAll", "Map"} {
		knownByName["call strings."+n] = true
		knownByName["call bytes."+n] = true
	}
	for _, n := range []string{"context.Background", "context.TODO"} {
		knownByName["call "+n] = true
	}
}

var madeUpRe = regexp.MustCompile(`\bw#[0-9]|\bcall [^ ]`)

// madeUpText: a description that mentions a value the analysis made up.
func madeUpText(s string) bool {
	if madeUpRe.MatchString(s) {
		return true
	}
	for i := strings.IndexByte(s, '#'); i > 0; {
		j := i
		for j > 0 && (s[j-1] >= 'a' && s[j-1] <= 'z' || s[j-1] >= 'A' && s[j-1] <= 'Z' || s[j-1] == '?') {
			j--
		}
		if madeUp[s[j:i]] {
			return true
		}
		k := strings.IndexByte(s[i+1:], '#')
		if k < 0 {
			break
		}
		i += 1 + k
	}
	return false
}
