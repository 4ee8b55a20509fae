package main

import (
	"sort"
	"strings"
)

// Facts is the relational part of an abstract state: value sets of bytes,
// intervals, linear inequalities and boolean literals.  It is persistent:
// assume returns a new node that shares its ancestors.

type interval struct{ lo, hi int64 }

type Facts struct {
	parent *Facts
	lit    *Term // literal added at this node
	depth  int

	sets  map[*Term]byteSet
	rng   map[*Term]interval
	lin   []*Term // each >= 0
	bools map[*Term]bool
	ors   []*Term // negated conjunctions kept for unit propagation
	opts  optSet
	bot   bool
	memo  map[*Term]int8
	open  bool // under construction: no memo
}

func newFacts() *Facts {
	return &Facts{sets: map[*Term]byteSet{}, rng: map[*Term]interval{}, bools: map[*Term]bool{}, opts: allOpts()}
}

func (f *Facts) clone() *Facts {
	n := &Facts{parent: f, depth: f.depth + 1, opts: f.opts, bot: f.bot}
	n.sets = make(map[*Term]byteSet, len(f.sets)+1)
	for k, v := range f.sets {
		n.sets[k] = v
	}
	n.rng = make(map[*Term]interval, len(f.rng)+1)
	for k, v := range f.rng {
		n.rng[k] = v
	}
	n.lin = f.lin[:len(f.lin):len(f.lin)]
	n.ors = f.ors[:len(f.ors):len(f.ors)]
	n.bools = make(map[*Term]bool, len(f.bools)+1)
	for k, v := range f.bools {
		n.bools[k] = v
	}
	return n
}

func (f *Facts) setOf(a *Term) byteSet {
	if s, ok := f.sets[a]; ok {
		return s
	}
	s := fullSet()
	if a.lo > 0 || a.hi < 255 {
		s = byteSet{}
		for i := a.lo; i <= a.hi; i++ {
			s.add(int(i))
		}
	}
	return s
}

// litsSince lists the literals assumed after ancestor anc.
func (f *Facts) litsSince(anc *Facts) ([]*Term, bool) {
	var out []*Term
	for x := f; x != anc; x = x.parent {
		if x == nil {
			return nil, false
		}
		if x.lit != nil {
			out = append(out, x.lit)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out, true
}

const (
	dUnknown = 0
	dTrue    = 1
	dFalse   = -1
)

func (f *Facts) decide(c *Term) int { return f.decideD(c, 0) }

func (f *Facts) decideD(c *Term, depth int) int {
	if c.op == OConst {
		if c.b {
			return dTrue
		}
		return dFalse
	}
	if f.open || depth > 0 {
		return f.decideU(c, depth)
	}
	if r, ok := f.memo[c]; ok {
		return int(r)
	}
	r := f.decideU(c, depth)
	if f.memo == nil {
		f.memo = map[*Term]int8{}
	}
	f.memo[c] = int8(r)
	return r
}

func (f *Facts) decideU(c *Term, depth int) int {
	if v, ok := f.bools[c]; ok {
		if v {
			return dTrue
		}
		return dFalse
	}
	if c.op == OApp {
		switch c.name {
		case "not":
			return -f.decideD(c.args[0], depth)
		case "and&":
			all := true
			for _, a := range c.args {
				switch f.decideD(a, depth) {
				case dFalse:
					return dFalse
				case dUnknown:
					all = false
				}
			}
			if all {
				return dTrue
			}
		case "optset":
			s := c.data.(optSet)
			i := s.and(f.opts)
			if i.empty() {
				return dFalse
			}
			if i == f.opts {
				return dTrue
			}
			return dUnknown
		case "gate":
			switch f.decideD(c.args[0], depth) {
			case dTrue:
				return f.decideD(c.args[1], depth)
			case dFalse:
				return f.decideD(c.args[2], depth)
			}
			a, b := f.decideD(c.args[1], depth), f.decideD(c.args[2], depth)
			if a == b {
				return a
			}
		}
	}
	if atom, ts, known, ok := truthTable(c); ok {
		s := f.setOf(atom)
		if s.and(known) == s {
			i := s.and(ts)
			if i.empty() {
				return dFalse
			}
			if i == s {
				return dTrue
			}
			return dUnknown
		}
	}
	if c.op == OApp {
		switch c.name {
		case "ge0":
			if f.entailGE(c.args[0], 4) {
				return dTrue
			}
			if f.entailGE(AddC(MulC(c.args[0], -1), -1), 4) {
				return dFalse
			}
		case "eq0":
			x := c.args[0]
			nx := MulC(x, -1)
			if f.entailGE(AddC(x, -1), 4) || f.entailGE(AddC(nx, -1), 4) {
				return dFalse
			}
			if f.entailGE(x, 4) && f.entailGE(nx, 4) {
				return dTrue
			}
		case "streq":
			// different lengths or distinguishable constants
			a, b := f.simplify(c.args[0]), f.simplify(c.args[1])
			if a != c.args[0] || b != c.args[1] {
				n := mkStrEq(a, b)
				if n != c {
					return f.decideD(n, depth+1)
				}
			}
			if f.decideD(mkEQ0(Sub(mkStrLen(a), mkStrLen(b))), depth+1) == dFalse && depth < 3 {
				return dFalse
			}
			if b.op == OConst && !isApp(a, "bufstr") {
				// equal to another constant
				for k, v := range f.bools {
					if v && k.op == OApp && k.name == "streq" && k.args[0] == a && k.args[1] != b && k.args[1].op == OConst {
						return dFalse
					}
				}
			}
		}
		// conditions over terms that simplify under the facts
		if depth < 2 && c.name != "not" && c.name != "and&" && c.name != "gate" {
			memo := map[*Term]*Term{c: c}
			na := make([]*Term, len(c.args))
			ch := false
			for i, a := range c.args {
				na[i] = f.simp(a, memo)
				ch = ch || na[i] != a
			}
			if ch {
				if s := rebuild(c, na); s != c {
					return f.decideD(s, depth+1)
				}
			}
		}
	}
	return dUnknown
}

// linear forms for the entailment search (not interned)
type lform struct {
	c int64
	m []mono // sorted by atom id
}

func lformOf(t *Term) lform {
	c, m := linOf(t)
	return lform{c, m}
}

// lsub computes x - y; ok=false on overflow.
func lsub(x, y lform) (lform, bool) {
	c, ok := addOv(x.c, -y.c)
	if !ok || y.c == ninf {
		return lform{}, false
	}
	out := make([]mono, 0, len(x.m)+len(y.m))
	i, j := 0, 0
	for i < len(x.m) || j < len(y.m) {
		switch {
		case j >= len(y.m) || i < len(x.m) && x.m[i].a.id < y.m[j].a.id:
			out = append(out, x.m[i])
			i++
		case i >= len(x.m) || x.m[i].a.id > y.m[j].a.id:
			out = append(out, mono{y.m[j].a, -y.m[j].k})
			j++
		default:
			k, ok := addOv(x.m[i].k, -y.m[j].k)
			if !ok {
				return lform{}, false
			}
			if k != 0 {
				out = append(out, mono{x.m[i].a, k})
			}
			i++
			j++
		}
	}
	return lform{c, out}, true
}

func (f *Facts) lowBound(x lform) int64 {
	lo := x.c
	for _, m := range x.m {
		al, ah := atomRange(m.a, f)
		if m.k < 0 {
			al = ah
		}
		lo = satAdd(lo, satMul(al, m.k))
		if lo == ninf {
			return lo
		}
	}
	return lo
}

// entailGE: do the facts entail x >= 0 ?
func (f *Facts) entailGE(x *Term, depth int) bool {
	return f.entailL(lformOf(x), depth)
}

func (f *Facts) entailL(x lform, depth int) bool {
	if f.lowBound(x) >= 0 {
		return true
	}
	if depth == 0 || len(x.m) == 0 {
		return false
	}
	// x = y + z with y a fact: choose facts sharing a monomial of x that
	// pulls the lower bound down.
	for _, y := range f.lin {
		yl := lformOf(y)
		useful := false
		i, j := 0, 0
		for i < len(x.m) && j < len(yl.m) {
			a, b := x.m[i], yl.m[j]
			if a.a == b.a {
				if (a.k > 0) == (b.k > 0) {
					l, h := atomRange(a.a, f)
					if l != h {
						useful = true
						break
					}
				}
				i++
				j++
			} else if a.a.id < b.a.id {
				i++
			} else {
				j++
			}
		}
		if !useful {
			continue
		}
		z, ok := lsub(x, yl)
		if !ok || len(z.m) > len(x.m)+1 {
			continue
		}
		if f.entailL(z, depth-1) {
			return true
		}
	}
	return false
}

// assume adds a literal; nil if infeasible.
func (f *Facts) assume(c *Term) *Facts {
	tick()
	switch f.decide(c) {
	case dTrue:
		return f
	case dFalse:
		return nil
	}
	n := f.clone()
	n.lit = c
	n.open = true
	if !n.add(c, true) {
		return nil
	}
	// unit propagation over disjunctions
	for round := 0; round < 4; round++ {
		ch := false
		n.open, n.memo = false, nil
		for _, o := range n.ors {
			// o: and& that must be false
			var rest []*Term
			sat := false
			for _, a := range o.args {
				switch n.decide(a) {
				case dFalse:
					sat = true
				case dUnknown:
					rest = append(rest, a)
				}
			}
			if sat {
				continue
			}
			if len(rest) == 0 {
				return nil
			}
			if len(rest) == 1 {
				n.open = true
				if !n.add(rest[0], false) {
					return nil
				}
				n.open, n.memo = false, nil
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	n.open, n.memo = false, nil
	// octets that got a value may be part of the position of other octets
	m := map[*Term]*Term{}
	fresh := false
	for a, s := range n.sets {
		if a.op == OByte && s.count() == 1 {
			m[a] = Int(int64(s.min()))
			if old, ok := f.sets[a]; !ok || old.count() != 1 {
				fresh = true
			}
		}
	}
	if len(m) > 0 && !n.reindex(c, m, fresh) {
		return nil
	}
	return n
}

// reindex: the octets in m have one value; what is known of octets at a
// position that depends on them holds for the octets at the resulting
// position (all facts, or the new one only).
func (n *Facts) reindex(c *Term, m map[*Term]*Term, all bool) bool {
	memo := map[*Term]*Term{}
	at := func(t *Term) *Term { return substM(t, m, memo, true) }
	type pair struct {
		t   *Term
		pos bool
	}
	var todo []pair
	if nestedIn(m, c, 0) {
		todo = append(todo, pair{at(c), true})
	}
	if all {
		for k, s := range n.sets {
			if m[k] == nil && nestedIn(m, k, 0) {
				todo = append(todo, pair{mkInSet(at(k), s), true})
			} else if m[k] != nil && nestedIn(m, k.args[0], -1) {
				todo = append(todo, pair{mkEQ0(Sub(ByteAt(k.buf, at(k.args[0])), m[k])), true})
			}
		}
		for _, x := range n.lin {
			if nestedIn(m, x, 0) {
				todo = append(todo, pair{mkGE0(at(x)), true})
			}
		}
		for b, pos := range n.bools {
			if nestedIn(m, b, 0) {
				todo = append(todo, pair{at(b), pos})
			}
		}
	}
	if len(todo) == 0 {
		return true
	}
	n.open, n.memo = true, nil
	defer func() { n.open, n.memo = false, nil }()
	sort.Slice(todo, func(i, j int) bool { return todo[i].t.id < todo[j].t.id })
	for _, t := range todo {
		if !n.add(t.t, t.pos) {
			return false
		}
	}
	return true
}

// nestedIn: an octet of m occurs in the position of an octet in t (d < 0: t
// is such a position).
func nestedIn(m map[*Term]*Term, t *Term, d int) bool {
	if d > 6 {
		return false
	}
	if d < 0 {
		return termHas(m, t, 0)
	}
	switch t.op {
	case OByte:
		return termHas(m, t.args[0], 0)
	case OLin:
		for _, x := range t.lm {
			if nestedIn(m, x.a, d+1) {
				return true
			}
		}
	case OApp:
		for _, x := range t.args {
			if nestedIn(m, x, d+1) {
				return true
			}
		}
	}
	return false
}

func termHas(m map[*Term]*Term, t *Term, d int) bool {
	if m[t] != nil {
		return true
	}
	if d > 8 {
		return false
	}
	for _, x := range t.args {
		if termHas(m, x, d+1) {
			return true
		}
	}
	for _, x := range t.lm {
		if termHas(m, x.a, d+1) {
			return true
		}
	}
	return false
}

func (n *Facts) add(c *Term, pos bool) bool {
	if c.op == OConst {
		return c.b == pos
	}
	if c.op == OApp && c.name == "not" {
		return n.add(c.args[0], !pos)
	}
	if c.op == OApp && c.name == "and&" {
		if pos {
			for _, a := range c.args {
				if !n.add(a, true) {
					return false
				}
			}
			n.bools[c] = true
			return true
		}
		n.bools[c] = false
		n.ors = append(n.ors[:len(n.ors):len(n.ors)], c)
		return true
	}
	if c.op == OApp && c.name == "optset" {
		s := c.data.(optSet)
		if !pos {
			s = s.not()
		}
		n.opts = n.opts.and(s)
		return !n.opts.empty()
	}
	if atom, ts, known, ok := truthTable(c); ok {
		s := n.setOf(atom)
		if s.and(known) == s {
			if !pos {
				ts = ts.not()
			}
			s = s.and(ts)
			if s.empty() {
				return false
			}
			n.sets[atom] = s
			return n.propagate(atom)
		}
	}
	if c.op == OApp {
		switch c.name {
		case "ge0":
			x := c.args[0]
			if !pos {
				x = AddC(MulC(x, -1), -1)
			}
			return n.addLin(x)
		case "eq0":
			if pos {
				n.bools[c] = true
				return n.addLin(c.args[0]) && n.addLin(MulC(c.args[0], -1))
			}
			n.bools[c] = false
			// x != 0 with x >= 0 (or <= 0) known: strict
			if n.entailGE(c.args[0], 3) {
				return n.addLin(AddC(c.args[0], -1))
			}
			if n.entailGE(MulC(c.args[0], -1), 3) {
				return n.addLin(AddC(MulC(c.args[0], -1), -1))
			}
			return true
		case "gate":
			switch {
			case n.decide(c.args[1]) == dFalse && pos, n.decide(c.args[1]) == dTrue && !pos:
				n.bools[c] = pos
				return n.add(c.args[0], false) && n.add(c.args[2], pos)
			case n.decide(c.args[2]) == dFalse && pos, n.decide(c.args[2]) == dTrue && !pos:
				n.bools[c] = pos
				return n.add(c.args[0], true) && n.add(c.args[1], pos)
			}
		case "streq":
			if pos {
				n.bools[c] = true
				if a, b := c.args[0], c.args[1]; a.op == OApp && a.name == "bufstr" && b.op == OConst && len(b.s) <= 32 {
					if !n.add(octetsEq(a, b.s), true) {
						return false
					}
				}
				return n.addLin(Sub(mkStrLen(c.args[0]), mkStrLen(c.args[1]))) && n.addLin(Sub(mkStrLen(c.args[1]), mkStrLen(c.args[0])))
			}
		}
	}
	if v, ok := n.bools[c]; ok {
		return v == pos
	}
	n.bools[c] = pos
	return true
}

func (n *Facts) addLin(x *Term) bool {
	_, hi := linRange(x, n)
	if hi < 0 {
		return false
	}
	if x.op == OConst {
		return x.i >= 0
	}
	for _, y := range n.lin {
		if y == x {
			return true
		}
	}
	n.lin = append(n.lin[:len(n.lin):len(n.lin)], x)
	if !n.tighten(x) {
		return false
	}
	return true
}

// tighten derives bounds of the atoms of x from x >= 0.
func (n *Facts) tighten(x *Term) bool {
	c, m := linOf(x)
	for _, a := range m {
		// a.k * a >= -(c + others) ; others at most
		rest := c
		for _, b := range m {
			if b.a == a.a {
				continue
			}
			l, h := atomRange(b.a, n)
			if b.k > 0 {
				rest = satAdd(rest, satMul(h, b.k))
			} else {
				rest = satAdd(rest, satMul(l, b.k))
			}
		}
		if rest == inf || rest == ninf {
			continue
		}
		lo, hi := atomRange(a.a, n)
		if a.k > 0 {
			b := ceilDiv(-rest, a.k)
			if b > lo {
				lo = b
			} else {
				continue
			}
		} else {
			b := floorDiv(rest, -a.k)
			if b < hi {
				hi = b
			} else {
				continue
			}
		}
		if lo > hi {
			return false
		}
		if isByteAtom(a.a) {
			var s byteSet
			for i := lo; i <= hi; i++ {
				s.add(int(i))
			}
			ns := n.setOf(a.a).and(s)
			if ns.empty() {
				return false
			}
			n.sets[a.a] = ns
		} else {
			for k := 0; k < 8; k++ {
				if v, ok := n.bools[mkEQ0(AddC(a.a, -lo))]; ok && !v {
					lo++
				} else if v, ok := n.bools[mkEQ0(AddC(a.a, -hi))]; ok && !v {
					hi--
				} else {
					break
				}
			}
			if lo > hi {
				return false
			}
			n.rng[a.a] = interval{lo, hi}
			// operators over one byte: push the bound down
			if fa := freeAtoms(a.a); len(fa) == 1 && isByteAtom(fa[0]) {
				if vt, ok := valueTable(a.a); ok {
					ns := n.setOf(fa[0])
					for i := 0; i < 256; i++ {
						if ns.has(i) && vt.ok.has(i) && (vt.v[i] < lo || vt.v[i] > hi) {
							ns[i>>6] &^= 1 << (uint(i) & 63)
						}
					}
					if ns.empty() {
						return false
					}
					n.sets[fa[0]] = ns
				}
			}
		}
	}
	return true
}

// propagate re-tightens the linear facts mentioning atom.
func (n *Facts) propagate(atom *Term) bool {
	for _, y := range n.lin {
		_, m := linOf(y)
		for _, b := range m {
			if b.a == atom {
				if !n.tighten(y) {
					return false
				}
				_, hi := linRange(y, n)
				if hi < 0 {
					return false
				}
				break
			}
		}
	}
	return true
}

// simplify rewrites a term with what the facts decide (gates, single values).
func (f *Facts) simplify(t *Term) *Term {
	return f.simp(t, map[*Term]*Term{})
}

func (f *Facts) simp(t *Term, memo map[*Term]*Term) *Term {
	if t.op == OConst {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = t
	r := t
	switch t.op {
	case OByte:
		if s, ok := f.sets[t]; ok && s.count() == 1 {
			r = Int(int64(s.min()))
		} else {
			o := f.simp(t.args[0], memo)
			if o != t.args[0] {
				r = ByteAt(t.buf, o)
				if s, ok := f.sets[r]; ok && s.count() == 1 {
					r = Int(int64(s.min()))
				}
			}
		}
	case OSym:
		if t.kind == KInt {
			lo, hi := atomRange(t, f)
			if lo == hi && lo != ninf {
				r = Int(lo)
			}
		} else if t.kind == KBool {
			if v, ok := f.bools[t]; ok {
				r = Bool(v)
			}
		}
	case OLin:
		r = Int(t.lc)
		for _, m := range t.lm {
			r = addK(r, f.simp(m.a, memo), m.k)
		}
	case OApp:
		if t.kind == KBool && t.name != "not" && t.name != "and&" {
			switch f.decideD(t, 2) {
			case dTrue:
				r = Bool(true)
			case dFalse:
				r = Bool(false)
			}
			if r != t {
				break
			}
		}
		if t.name == "gate" {
			c := f.simp(t.args[0], memo)
			if c.op != OConst {
				switch f.decide(c) {
				case dTrue:
					c = Bool(true)
				case dFalse:
					c = Bool(false)
				}
			}
			if c.op == OConst {
				if c.b {
					r = f.simp(t.args[1], memo)
				} else {
					r = f.simp(t.args[2], memo)
				}
				break
			}
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f.simp(a, memo)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			r = rebuild(t, na)
		}
		if r.kind == KInt && r.op == OApp {
			lo, hi := atomRange(r, f)
			if lo == hi && lo != ninf && lo != inf {
				r = Int(lo)
			}
		}
	}
	memo[t] = r
	return r
}

func (f *Facts) String() string {
	l, _ := f.litsSince(nil)
	var p []string
	for _, t := range l {
		p = append(p, t.String())
	}
	return strings.Join(p, " && ")
}

// ---------- option sets: conditions over the nine dump options ----------

const nOpts = 9

type optSet [8]uint64 // 512 valuations; bit i of the index = option i+1

func allOpts() optSet {
	var s optSet
	for i := range s {
		s[i] = ^uint64(0)
	}
	return s
}
func (s optSet) and(o optSet) optSet {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s optSet) or(o optSet) optSet {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}
func (s optSet) not() optSet {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}
func (s optSet) empty() bool { return s == optSet{} }
func (s optSet) has(i int) bool {
	return s[i>>6]&(1<<(uint(i)&63)) != 0
}
func (s optSet) first() int {
	for i := 0; i < 512; i++ {
		if s.has(i) {
			return i
		}
	}
	return -1
}

var optNames = [...]string{"armor", "cert", "debug", "gdump", "int", "literal", "marker", "private", "utc"}

func optValStr(i int) string {
	var p []string
	for k, n := range optNames {
		if i&(1<<uint(k)) != 0 {
			p = append(p, n)
		}
	}
	if len(p) == 0 {
		return "no option"
	}
	return strings.Join(p, "+")
}

func optBit(code int) *Term { // code 1..9
	var s optSet
	for i := 0; i < 512; i++ {
		if i&(1<<uint(code-1)) != 0 {
			s[i>>6] |= 1 << (uint(i) & 63)
		}
	}
	return mkOptSet(s)
}

func mkOptSet(s optSet) *Term {
	if s.empty() {
		return Bool(false)
	}
	if s == allOpts() {
		return Bool(true)
	}
	var sb strings.Builder
	sb.WriteString("O")
	for _, w := range s {
		for k := 0; k < 8; k++ {
			sb.WriteByte(byte(w >> uint(8*k)))
		}
	}
	return intern(sb.String(), func() *Term {
		return &Term{op: OApp, kind: KBool, name: "optset", data: s}
	})
}

// leaves enumerates the cases of the disjunctions kept in f; after *n cases
// the remaining disjunctions are left as they are.
func (f *Facts) leaves(n *int, fn func(*Facts)) {
	if *n <= 0 {
		fn(f)
		return
	}
	for _, o := range f.ors {
		var pick *Term
		sat := false
		for _, a := range o.args {
			switch f.decide(a) {
			case dFalse:
				sat = true
			case dUnknown:
				if pick == nil {
					pick = a
				}
			}
		}
		if sat || pick == nil {
			continue
		}
		g, h := f.assume(mkNot(pick)), f.assume(pick)
		if g == nil || h == nil {
			if g == nil {
				g = h
			}
			if g != nil {
				g.leaves(n, fn)
			}
			return
		}
		*n--
		g.leaves(n, fn)
		h.leaves(n, fn)
		return
	}
	fn(f)
}
