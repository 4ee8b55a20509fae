package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Terms are the leaves of the abstract domain: hash-consed expressions over
// the symbolic input (bytes of input buffers, lengths, option values and
// results of library calls).  Integers are kept in linear normal form.

type Kind uint8

const (
	KInt Kind = iota
	KBool
	KStr
	KFloat
	KOther
)

type Op uint8

const (
	OConst Op = iota
	OLin
	OApp
	OSym
	OByte
)

type mono struct {
	a *Term
	k int64
}

type Term struct {
	op   Op
	kind Kind
	name string
	i    int64
	s    string
	b    bool
	f    float64
	lc   int64
	lm   []mono
	args []*Term
	lo   int64
	hi   int64
	id   int
	buf  int
	// cached free atoms (atoms of integer kind that are leaves for enumeration)
	fv     []*Term
	fvDone bool
	star   bool // contains an iterated string
	data   interface{}
}

const (
	inf  = math.MaxInt64
	ninf = math.MinInt64
)

var (
	internTab = map[string]*Term{}
	nextID    int
	symCount  int
)

func intern(key string, mk func() *Term) *Term {
	if t, ok := internTab[key]; ok {
		return t
	}
	t := mk()
	nextID++
	t.id = nextID
	internTab[key] = t
	return t
}

func Int(n int64) *Term {
	return intern("i"+strconv.FormatInt(n, 10), func() *Term {
		return &Term{op: OConst, kind: KInt, i: n, lo: n, hi: n}
	})
}
func Str(s string) *Term {
	return intern("s"+s, func() *Term { return &Term{op: OConst, kind: KStr, s: s} })
}
func Bool(b bool) *Term {
	k := "bF"
	if b {
		k = "bT"
	}
	return intern(k, func() *Term { return &Term{op: OConst, kind: KBool, b: b} })
}
func Float(f float64) *Term {
	return intern("f"+strconv.FormatFloat(f, 'g', -1, 64), func() *Term { return &Term{op: OConst, kind: KFloat, f: f} })
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isInt(n int64) bool {
	return t.op == OConst && t.kind == KInt && t.i == n
}

// Sym makes a fresh symbol.
func Sym(kind Kind, name string, lo, hi int64) *Term {
	symCount++
	n := fmt.Sprintf("%s#%d", name, symCount)
	return NamedSym(kind, n, lo, hi)
}

func NamedSym(kind Kind, name string, lo, hi int64) *Term {
	return intern("y"+strconv.Itoa(int(kind))+name, func() *Term { return &Term{op: OSym, kind: kind, name: name, lo: lo, hi: hi} })
}

// Byte is the byte of input buffer buf at offset off.
func ByteAt(buf int, off *Term) *Term {
	return intern(fmt.Sprintf("B%d@%d", buf, off.id), func() *Term {
		return &Term{op: OByte, kind: KInt, buf: buf, args: []*Term{off}, lo: 0, hi: 255}
	})
}

func rawApp(kind Kind, name string, lo, hi int64, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("A")
	sb.WriteByte(byte('0' + kind))
	sb.WriteString(name)
	if kind == KInt {
		fmt.Fprintf(&sb, "[%d:%d]", lo, hi)
	}
	for _, a := range args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *Term {
		st := name == "star"
		for _, a := range args {
			st = st || a.star
		}
		return &Term{op: OApp, kind: kind, name: name, args: append([]*Term(nil), args...), lo: lo, hi: hi, star: st}
	})
}

// ---------- linear arithmetic ----------

func addOv(a, b int64) (int64, bool) {
	c := a + b
	if (a > 0 && b > 0 && c < 0) || (a < 0 && b < 0 && c >= 0) {
		return 0, false
	}
	return c, true
}
func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	c := a * b
	if c/b != a || (a == -1 && b == ninf) || (b == -1 && a == ninf) {
		return 0, false
	}
	return c, true
}

func linOf(t *Term) (int64, []mono) {
	switch t.op {
	case OConst:
		return t.i, nil
	case OLin:
		return t.lc, t.lm
	}
	return 0, []mono{{t, 1}}
}

func mkLin(c int64, m []mono) *Term {
	n := m[:0:0]
	for _, x := range m {
		if x.k != 0 {
			n = append(n, x)
		}
	}
	if len(n) == 0 {
		return Int(c)
	}
	sort.Slice(n, func(i, j int) bool { return n[i].a.id < n[j].a.id })
	if c == 0 && len(n) == 1 && n[0].k == 1 {
		return n[0].a
	}
	var sb strings.Builder
	sb.WriteString("L")
	sb.WriteString(strconv.FormatInt(c, 10))
	var tmp [24]byte
	for _, x := range n {
		sb.WriteByte('+')
		sb.Write(strconv.AppendInt(tmp[:0], x.k, 10))
		sb.WriteByte('*')
		sb.Write(strconv.AppendInt(tmp[:0], int64(x.a.id), 10))
	}
	return intern(sb.String(), func() *Term {
		st := false
		for _, x := range n {
			st = st || x.a.star
		}
		return &Term{op: OLin, kind: KInt, lc: c, lm: n, lo: ninf, hi: inf, star: st}
	})
}

func addK(a *Term, b *Term, k int64) *Term {
	c1, m1 := linOf(a)
	c2, m2 := linOf(b)
	kc, ok1 := mulOv(c2, k)
	c, ok2 := addOv(c1, kc)
	if !ok1 || !ok2 {
		return rawApp(KInt, "addk", ninf, inf, a, b, Int(k))
	}
	m := append([]mono(nil), m1...)
	for _, x := range m2 {
		found := false
		xk, ok := mulOv(x.k, k)
		if !ok {
			return rawApp(KInt, "addk", ninf, inf, a, b, Int(k))
		}
		for i := range m {
			if m[i].a == x.a {
				nk, ok := addOv(m[i].k, xk)
				if !ok {
					return rawApp(KInt, "addk", ninf, inf, a, b, Int(k))
				}
				m[i].k = nk
				found = true
				break
			}
		}
		if !found {
			m = append(m, mono{x.a, xk})
		}
	}
	return mkLin(c, m)
}
func Add(a, b *Term) *Term { return addK(a, b, 1) }
func Sub(a, b *Term) *Term { return addK(a, b, -1) }
func AddC(a *Term, c int64) *Term {
	return addK(a, Int(c), 1)
}
func MulC(a *Term, k int64) *Term { return addK(Int(0), a, k) }

// ---------- boolean terms ----------

func mkNot(t *Term) *Term {
	if t.op == OConst {
		return Bool(!t.b)
	}
	if t.op == OApp && t.name == "not" {
		return t.args[0]
	}
	if t.op == OApp && t.name == "optset" {
		return mkOptSet(t.data.(optSet).not())
	}
	if t.op == OApp && t.name == "inset" {
		return mkInSet(t.args[0], parseSet(t.args[1].s).not())
	}
	if t.op == OApp && t.name == "ge0" {
		// !(x>=0)  <=> -x-1>=0
		return mkGE0(AddC(MulC(t.args[0], -1), -1))
	}
	return rawApp(KBool, "not", 0, 0, t)
}
func mkGE0(x *Term) *Term {
	if x.op == OConst {
		return Bool(x.i >= 0)
	}
	lo, hi := linRange(x, nil)
	if lo >= 0 {
		return Bool(true)
	}
	if hi < 0 {
		return Bool(false)
	}
	// normalise by gcd for single monomials
	c, m := linOf(x)
	if len(m) == 1 && m[0].k != 1 && m[0].k != -1 {
		k := m[0].k
		if k > 0 { // k*a + c >= 0  <=> a >= ceil(-c/k)
			return mkGE0(AddC(m[0].a, -ceilDiv(-c, k)))
		}
		return mkGE0(AddC(MulC(m[0].a, -1), floorDiv(c, -k)))
	}
	return rawApp(KBool, "ge0", 0, 0, x)
}
func mkEQ0(x *Term) *Term {
	if x.op == OConst {
		return Bool(x.i == 0)
	}
	lo, hi := linRange(x, nil)
	if lo > 0 || hi < 0 {
		return Bool(false)
	}
	c, m := linOf(x)
	if len(m) > 0 && m[0].k < 0 {
		x = MulC(x, -1)
		c, m = linOf(x)
	}
	if len(m) == 1 && m[0].k != 1 {
		if c%m[0].k != 0 {
			return Bool(false)
		}
		return mkEQ0(AddC(m[0].a, c/m[0].k))
	}
	if c == 0 && len(m) == 1 && m[0].k == 1 && isApp(m[0].a, "strindex") {
		return mkHasPrefix(m[0].a.args[0], m[0].a.args[1])
	}
	return rawApp(KBool, "eq0", 0, 0, x)
}

// mkHasPrefix: a text starts with another.
func mkHasPrefix(a, b *Term) *Term {
	if b.op == OConst && b.s == "" {
		return Bool(true)
	}
	if a.op == OConst && b.op == OConst {
		return Bool(strings.HasPrefix(a.s, b.s))
	}
	if isApp(a, "cat") && a.args[0].op == OConst && b.op == OConst {
		if p := a.args[0].s; len(p) >= len(b.s) {
			return Bool(strings.HasPrefix(p, b.s))
		} else if !strings.HasPrefix(b.s, p) {
			return Bool(false)
		}
	}
	if a.op == OConst && isApp(b, "bufstr") && b.args[2].op == OConst {
		n := b.args[2].i
		if n > int64(len(a.s)) {
			return Bool(false)
		}
		if n <= 32 {
			return octetsEq(b, a.s[:n])
		}
	}
	if isApp(a, "bufstr") && b.op == OConst && len(b.s) <= 32 {
		n := int64(len(b.s))
		return mkAnd(mkGE0(AddC(a.args[2], -n)), octetsEq(a, b.s))
	}
	return rawApp(KBool, "hasprefix", 0, 0, a, b)
}

func mkAnd(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.op == OConst {
			if !t.b {
				return Bool(false)
			}
			continue
		}
		if t.op == OApp && t.name == "and&" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	// combine option conditions
	var o2 []*Term
	os, any := allOpts(), false
	for _, t := range out {
		if t.op == OApp && t.name == "optset" {
			os, any = os.and(t.data.(optSet)), true
		} else {
			o2 = append(o2, t)
		}
	}
	if any {
		c := mkOptSet(os)
		if c.op == OConst && !c.b {
			return c
		}
		if c.op != OConst {
			o2 = append(o2, c)
		}
		out = o2
	}
	for _, t := range out {
		if seen[mkNot(t)] {
			return Bool(false)
		}
	}
	// conditions over one byte are combined into a set of its values
	if len(out) > 1 {
		type grp struct {
			s byteSet
			n int
		}
		gs := map[*Term]*grp{}
		ga := make([]*Term, len(out))
		for i, t := range out {
			if a, ts, known, ok := truthTable(t); ok && known == fullSet() {
				ga[i] = a
				g := gs[a]
				if g == nil {
					g = &grp{s: fullSet()}
					gs[a] = g
				}
				g.s = g.s.and(ts)
				g.n++
			}
		}
		var o2 []*Term
		done := map[*Term]bool{}
		for i, t := range out {
			if ga[i] == nil || gs[ga[i]].n == 1 {
				o2 = append(o2, t)
				continue
			}
			a := ga[i]
			if done[a] {
				continue
			}
			done[a] = true
			s := gs[a].s
			if a.lo > 0 || a.hi < 255 {
				s = s.and(newFacts().setOf(a))
			}
			if s.empty() {
				return Bool(false)
			}
			o2 = append(o2, mkInSet(a, s))
		}
		out = o2
	}
	// of linear conditions over the same terms the strongest is kept
	if len(out) > 1 {
		best := map[*Term]int64{}
		for _, t := range out {
			if t.op == OApp && t.name == "ge0" {
				c, _ := linOf(t.args[0])
				k := AddC(t.args[0], -c)
				if o, ok := best[k]; !ok || c < o {
					best[k] = c
				}
			}
		}
		if len(best) > 0 {
			o2 := out[:0:0]
			for _, t := range out {
				if t.op == OApp && t.name == "ge0" {
					c, _ := linOf(t.args[0])
					k := AddC(t.args[0], -c)
					if best[k] != c {
						continue
					}
					if d, ok := best[MulC(k, -1)]; ok && c+d < 0 {
						return Bool(false)
					}
				}
				o2 = append(o2, t)
			}
			out = o2
		}
	}
	if len(out) == 0 {
		return Bool(true)
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return rawApp(KBool, "and&", 0, 0, out...)
}
func isOpt(t *Term) bool { return t.op == OApp && t.name == "optset" }
func mkOr(ts ...*Term) *Term {
	n := make([]*Term, len(ts))
	for i, t := range ts {
		n[i] = mkNot(t)
	}
	return mkNot(mkAnd(n...))
}
func mkInSet(a *Term, set byteSet) *Term {
	if a.op == OConst {
		return Bool(a.i >= 0 && a.i < 256 && set.has(int(a.i)))
	}
	return rawApp(KBool, "inset", 0, 0, a, Str(set.key()))
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// ---------- byte sets ----------

type byteSet [4]uint64

func fullSet() byteSet           { return byteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }
func (s byteSet) has(i int) bool { return s[i>>6]&(1<<(uint(i)&63)) != 0 }
func (s *byteSet) add(i int)     { s[i>>6] |= 1 << (uint(i) & 63) }
func (s byteSet) and(o byteSet) byteSet {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s byteSet) or(o byteSet) byteSet {
	for i := range s {
		s[i] |= o[i]
	}
	return s
}
func (s byteSet) not() byteSet {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}
func (s byteSet) count() int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}
func (s byteSet) empty() bool { return s.count() == 0 }
func (s byteSet) min() int {
	for i, w := range s {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return -1
}
func (s byteSet) max() int {
	for i := 3; i >= 0; i-- {
		if s[i] != 0 {
			return i*64 + 63 - bits.LeadingZeros64(s[i])
		}
	}
	return -1
}
func (s byteSet) key() string { return fmt.Sprintf("%x.%x.%x.%x", s[3], s[2], s[1], s[0]) }
func parseSet(k string) byteSet {
	var s byteSet
	fmt.Sscanf(k, "%x.%x.%x.%x", &s[3], &s[2], &s[1], &s[0])
	return s
}
func (s byteSet) String() string {
	var out []string
	for i := 0; i < 256; i++ {
		if !s.has(i) {
			continue
		}
		j := i
		for j < 255 && s.has(j+1) {
			j++
		}
		if j > i {
			out = append(out, fmt.Sprintf("%d-%d", i, j))
		} else {
			out = append(out, strconv.Itoa(i))
		}
		i = j
	}
	return "{" + strings.Join(out, ",") + "}"
}

// isByteAtom: an integer atom whose intrinsic range is within 0..255; its
// feasible values are tracked as an explicit set.
func isByteAtom(t *Term) bool {
	return t.kind == KInt && (t.op == OByte || t.op == OSym) && t.lo >= 0 && t.hi <= 255
}

// freeAtoms returns the enumeration leaves of t (bytes and symbols).
func freeAtoms(t *Term) []*Term {
	if t.fvDone {
		return t.fv
	}
	set := map[*Term]bool{}
	switch t.op {
	case OConst:
	case OSym:
		set[t] = true
	case OByte:
		set[t] = true // offset is part of the identity of the byte
	case OLin:
		for _, m := range t.lm {
			for _, a := range freeAtoms(m.a) {
				set[a] = true
			}
		}
	case OApp:
		for _, x := range t.args {
			for _, a := range freeAtoms(x) {
				set[a] = true
			}
		}
		if t.data != nil {
			if d, ok := t.data.(interface{ free() []*Term }); ok {
				for _, a := range d.free() {
					set[a] = true
				}
			}
		}
	}
	var out []*Term
	for a := range set {
		out = append(out, a)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if t.op == OApp && (t.name == "star" || t.name == "loopvar") {
		return out // contents may still grow
	}
	t.fv = out
	t.fvDone = !hasStar(t)
	return out
}

func hasStar(t *Term) bool { return t.star }

// linRange computes the interval of an integer term; f may be nil.
func linRange(t *Term, f *Facts) (int64, int64) {
	switch t.op {
	case OConst:
		return t.i, t.i
	case OLin:
		lo, hi := t.lc, t.lc
		for _, m := range t.lm {
			al, ah := atomRange(m.a, f)
			if m.k < 0 {
				al, ah = ah, al
			}
			lo = satAdd(lo, satMul(al, m.k))
			hi = satAdd(hi, satMul(ah, m.k))
		}
		return lo, hi
	}
	return atomRange(t, f)
}
func satAdd(a, b int64) int64 {
	if a == inf || b == inf {
		if a == ninf || b == ninf {
			return 0
		}
		return inf
	}
	if a == ninf || b == ninf {
		return ninf
	}
	c, ok := addOv(a, b)
	if !ok {
		if a > 0 {
			return inf
		}
		return ninf
	}
	return c
}
func satMul(a, k int64) int64 {
	if a == inf || a == ninf {
		if k == 0 {
			return 0
		}
		if (a == inf) == (k > 0) {
			return inf
		}
		return ninf
	}
	c, ok := mulOv(a, k)
	if !ok {
		if (a > 0) == (k > 0) {
			return inf
		}
		return ninf
	}
	return c
}
func atomRange(a *Term, f *Facts) (int64, int64) {
	lo, hi := a.lo, a.hi
	if a.op == OConst {
		return a.i, a.i
	}
	if f != nil {
		if isByteAtom(a) {
			if s, ok := f.sets[a]; ok {
				return int64(s.min()), int64(s.max())
			}
		} else if r, ok := f.rng[a]; ok {
			if r.lo > lo {
				lo = r.lo
			}
			if r.hi < hi {
				hi = r.hi
			}
		}
		// derived ranges for operators over bounded arguments
		if a.op == OApp {
			switch a.name {
			case "div":
				if a.args[1].op == OConst && a.args[1].i > 0 {
					l, h := linRange(a.args[0], f)
					if l >= 0 {
						lo = max64(lo, l/a.args[1].i)
						if h != inf {
							hi = min64(hi, h/a.args[1].i)
						}
					}
				}
			}
			// any operator over one byte atom: enumerate
			fa := freeAtoms(a)
			if len(fa) == 1 && isByteAtom(fa[0]) {
				if vals, ok := valueTable(a); ok {
					s := f.setOf(fa[0])
					l, h, any := int64(0), int64(0), false
					for i := 0; i < 256; i++ {
						if !s.has(i) {
							continue
						}
						if !vals.ok.has(i) {
							any = false
							break
						}
						v := vals.v[i]
						if !any || v < l {
							l = v
						}
						if !any || v > h {
							h = v
						}
						any = true
					}
					if any {
						lo, hi = max64(lo, l), min64(hi, h)
					}
				}
			}
		}
	}
	return lo, hi
}
func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

type vtab struct {
	v  [256]int64
	ok byteSet
}

var valTab = map[*Term]*vtab{}

// valueTable evaluates an integer term over its single byte atom (ok: the
// values of the byte for which the term folds to a constant).
func valueTable(t *Term) (*vtab, bool) {
	if v, ok := valTab[t]; ok {
		return v, v != nil
	}
	fa := freeAtoms(t)
	if len(fa) != 1 || !isByteAtom(fa[0]) || hasStar(t) {
		return nil, false
	}
	out := &vtab{}
	any := false
	for i := 0; i < 256; i++ {
		c := subst1(t, fa[0], Int(int64(i)))
		if c.op == OConst && c.kind == KInt {
			out.v[i] = c.i
			out.ok.add(i)
			any = true
		}
	}
	if !any {
		out = nil
	}
	valTab[t] = out
	return out, out != nil
}

type btab struct{ t, known byteSet }

var boolTab = map[*Term]*btab{}

// truthTable evaluates a boolean term over its single byte atom: the values
// for which it is true, and the values for which it is known.
func truthTable(t *Term) (atom *Term, trueSet, known byteSet, ok bool) {
	if v, ok := boolTab[t]; ok {
		if v == nil {
			return nil, byteSet{}, byteSet{}, false
		}
		return freeAtoms(t)[0], v.t, v.known, true
	}
	fa := freeAtoms(t)
	if len(fa) != 1 || !isByteAtom(fa[0]) || hasStar(t) {
		return nil, byteSet{}, byteSet{}, false
	}
	tb := &btab{}
	for i := 0; i < 256; i++ {
		c := subst1(t, fa[0], Int(int64(i)))
		if c.op == OConst && c.kind == KBool {
			tb.known.add(i)
			if c.b {
				tb.t.add(i)
			}
		}
	}
	if tb.known.empty() {
		tb = nil
	}
	boolTab[t] = tb
	if tb == nil {
		return nil, byteSet{}, byteSet{}, false
	}
	return fa[0], tb.t, tb.known, true
}

// ---------- substitution ----------

func subst1(t, from, to *Term) *Term {
	return substM(t, map[*Term]*Term{from: to}, map[*Term]*Term{}, false)
}

// substM substitutes atoms; deep also rewrites offsets inside byte atoms.
func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term, deep bool) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	switch t.op {
	case OConst:
	case OSym:
		if b, ok := lenSym[t]; ok && deep {
			if nb := substBuf(b, m, memo); nb != b {
				r = buffers[nb].ln
			}
		}
	case OByte:
		if deep {
			no := substM(t.args[0], m, memo, deep)
			nb := substBuf(t.buf, m, memo)
			if no != t.args[0] || nb != t.buf {
				r = ByteAt(nb, no)
				if r2, ok := m[r]; ok {
					r = r2
				}
			}
		}
	case OLin:
		r = Int(t.lc)
		for _, x := range t.lm {
			r = addK(r, substM(x.a, m, memo, deep), x.k)
		}
	case OApp:
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = substM(a, m, memo, deep)
			if na[i] != a {
				ch = true
			}
		}
		if t.name == "bufstr" && deep {
			if nb := substBuf(int(t.args[0].i), m, memo); nb != int(t.args[0].i) {
				na[0] = Int(int64(nb))
				ch = true
			}
		}
		if ch {
			r = rebuild(t, na)
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.name {
	case "not":
		return mkNot(a[0])
	case "ge0":
		return mkGE0(a[0])
	case "eq0":
		return mkEQ0(a[0])
	case "and&":
		return mkAnd(a...)
	case "inset":
		return mkInSet(a[0], parseSet(a[1].s))
	case "div":
		return mkDiv(a[0], a[1])
	case "mod":
		return mkMod(a[0], a[1])
	case "band", "bor", "bxor", "bandnot":
		return mkBit(t.name, a[0], a[1])
	case "shl":
		return mkShl(a[0], a[1])
	case "shr":
		return mkShr(a[0], a[1])
	case "mul":
		return mkMul(a[0], a[1])
	case "addk":
		return addK(a[0], a[1], a[2].i)
	case "wrap":
		return mkWrap(a[0], a[1].i, a[2].i)
	case "cat":
		return mkCat(a...)
	case "dec":
		return mkDec(a[0])
	case "fmtint":
		return mkFmtInt(a[0].s, a[1])
	case "gate":
		return mkGate(a[0], a[1], a[2])
	case "hasprefix":
		return mkHasPrefix(a[0], a[1])
	case "streq":
		return mkStrEq(a[0], a[1])
	case "strlen":
		return mkStrLen(a[0])
	case "chr":
		return mkChr(a[0])
	case "bytestr":
		return mkRawByte(a[0])
	case "byteof":
		return mkByteOf(a[0], a[1])
	case "bufstr":
		return mkBufStr(int(a[0].i), a[1], a[2])
	case "star":
		return mkStar(a[0], a[1], a[2])
	case "fdiv":
		return mkFBin("fdiv", a[0], a[1])
	case "fmul":
		return mkFBin("fmul", a[0], a[1])
	case "tofloat":
		return mkToFloat(a[0])
	case "fmtv":
		return mkFmtV(a[0].s, a[1])
	case "mapget", "mapok":
		return mkMapTerm(t.name, t.kind, a[0], a[1])
	case "stringer":
		return a[0]
	}
	if p, ok := purePkgFold[t.name]; ok {
		return p(a)
	}
	n := rawApp(t.kind, t.name, t.lo, t.hi, a...)
	return n
}

var purePkgFold = map[string]func(a []*Term) *Term{}

// ---------- integer operators ----------

func mkDiv(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.i != 0 {
		return Int(a.i / b.i)
	}
	if b.isInt(1) {
		return a
	}
	if b.op == OConst && b.i > 0 {
		// exact multiples
		c, m := linOf(a)
		all := c%b.i == 0
		for _, x := range m {
			if x.k%b.i != 0 {
				all = false
			}
		}
		if all {
			r := Int(c / b.i)
			for _, x := range m {
				r = addK(r, x.a, x.k/b.i)
			}
			return r
		}
	}
	lo, hi := linRange(a, nil)
	if lo >= 0 && b.op == OConst && b.i > 0 {
		if hi < b.i {
			return Int(0)
		}
		l, h := lo/b.i, hi
		if hi != inf {
			h = hi / b.i
		}
		return rawApp(KInt, "div", l, h, a, b)
	}
	return rawApp(KInt, "div", ninf, inf, a, b)
}
// divSplit: a = q*n + r with the coefficients of r in [0,n) and r >= 0
// (r nil: not applicable).
func divSplit(a *Term, n int64) (q, r *Term) {
	c, m := linOf(a)
	qc := floorDiv(c, n)
	q, r = Int(qc), Int(c-qc*n)
	for _, x := range m {
		if l, _ := atomRange(x.a, nil); l < 0 {
			return nil, nil
		}
		k := floorDiv(x.k, n)
		q = addK(q, x.a, k)
		r = addK(r, x.a, x.k-k*n)
	}
	return q, r
}
func mkMod(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.i != 0 {
		return Int(a.i % b.i)
	}
	lo, hi := linRange(a, nil)
	if b.op == OConst && b.i > 0 && lo >= 0 {
		if hi < b.i {
			return a
		}
		if q, r := divSplit(a, b.i); r != nil && !q.isInt(0) {
			return mkMod(r, b)
		}
		return rawApp(KInt, "mod", 0, b.i-1, a, b)
	}
	return rawApp(KInt, "mod", ninf, inf, a, b)
}
func mkMul(a, b *Term) *Term {
	if b.op == OConst && b.kind == KInt {
		return MulC(a, b.i)
	}
	if a.op == OConst && a.kind == KInt {
		return MulC(b, a.i)
	}
	return rawApp(KInt, "mul", ninf, inf, a, b)
}
func mkBit(name string, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		switch name {
		case "band":
			return Int(a.i & b.i)
		case "bor":
			return Int(a.i | b.i)
		case "bxor":
			return Int(a.i ^ b.i)
		case "bandnot":
			return Int(a.i &^ b.i)
		}
	}
	if a.op == OConst && name != "bandnot" {
		a, b = b, a
	}
	lo, hi := linRange(a, nil)
	switch name {
	case "band":
		if b.op == OConst && b.i >= 0 {
			if b.i == 0 {
				return Int(0)
			}
			// mask of low bits covering the range of a
			if lo >= 0 && hi != inf && b.i&(b.i+1) == 0 && hi <= b.i {
				return a
			}
			h := b.i
			if lo >= 0 && hi < h {
				h = hi
			}
			if b.i&(b.i+1) == 0 && lo >= 0 {
				return mkMod(a, Int(b.i+1))
			}
			return rawApp(KInt, "band", 0, h, a, b)
		}
		if lo >= 0 {
			return rawApp(KInt, "band", 0, hi, a, b)
		}
	case "bor", "bxor":
		if b.isInt(0) {
			return a
		}
		// disjoint bit ranges: addition
		if disjointBits(a, b) {
			return Add(a, b)
		}
		l2, h2 := linRange(b, nil)
		if lo >= 0 && l2 >= 0 && hi != inf && h2 != inf {
			m := int64(1)
			for m <= hi || m <= h2 {
				if m > 1<<61 {
					return rawApp(KInt, name, 0, inf, a, b)
				}
				m <<= 1
			}
			return rawApp(KInt, name, 0, m-1, a, b)
		}
	case "bandnot":
		if lo >= 0 {
			return rawApp(KInt, name, 0, hi, a, b)
		}
	}
	return rawApp(KInt, name, ninf, inf, a, b)
}

// bitMask over-approximates the set of bits a nonnegative term may have.
func bitMask(t *Term) (uint64, bool) {
	c, m := linOf(t)
	if c < 0 {
		return 0, false
	}
	mask := uint64(c)
	for _, x := range m {
		l, h := linRange(x.a, nil)
		if l < 0 || h == inf || x.k <= 0 {
			return 0, false
		}
		hb := uint64(1)
		for hb <= uint64(h) {
			hb <<= 1
			if hb == 0 {
				return 0, false
			}
		}
		am := hb - 1
		// k must be a power of two
		if x.k&(x.k-1) != 0 {
			return 0, false
		}
		am *= uint64(x.k)
		if mask&am != 0 {
			return 0, false
		}
		mask |= am
	}
	return mask, true
}
func disjointBits(a, b *Term) bool {
	ma, ok1 := bitMask(a)
	mb, ok2 := bitMask(b)
	return ok1 && ok2 && ma&mb == 0
}
func mkShl(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		if b.i >= 63 {
			if a.i == 0 {
				return Int(0)
			}
			return rawApp(KInt, "shl", 0, inf, a, b)
		}
		if b.i >= 0 {
			if v, ok := mulOv(a.i, 1<<uint(b.i)); ok {
				return Int(v)
			}
		}
	}
	if b.op == OConst && b.i >= 0 && b.i < 62 {
		return MulC(a, 1<<uint(b.i))
	}
	lo, _ := linRange(a, nil)
	if lo >= 0 {
		return rawApp(KInt, "shl", 0, inf, a, b)
	}
	return rawApp(KInt, "shl", ninf, inf, a, b)
}
func mkShr(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		if b.i >= 63 {
			if a.i < 0 {
				return Int(-1)
			}
			return Int(0)
		}
		return Int(a.i >> uint(b.i))
	}
	lo, hi := linRange(a, nil)
	if b.op == OConst && b.i >= 0 && b.i < 62 && lo >= 0 {
		return mkDiv(a, Int(1<<uint(b.i)))
	}
	if lo >= 0 {
		return rawApp(KInt, "shr", 0, hi, a, b)
	}
	return rawApp(KInt, "shr", ninf, inf, a, b)
}

// mkWrap reduces a mathematical integer into [lo,hi] modulo hi-lo+1.
func mkWrap(a *Term, lo, hi int64) *Term {
	l, h := linRange(a, nil)
	if l >= lo && h <= hi {
		return a
	}
	if a.op == OConst && hi-lo+1 > 0 {
		w := hi - lo + 1
		v := (a.i - lo) % w
		if v < 0 {
			v += w
		}
		return Int(v + lo)
	}
	return rawApp(KInt, "wrap", lo, hi, a, Int(lo), Int(hi))
}

// ---------- string operators ----------

// hexPair: the digits of the upper and the lower half of an octet.
func hexPair(a, b *Term) (string, *Term) {
	dig := func(t *Term) (string, *Term) {
		if t.op != OApp || t.name != "bytestr" {
			return "", nil
		}
		t = t.args[0]
		if t.op != OApp || t.name != "byteof" || t.args[0].op != OConst {
			return "", nil
		}
		switch t.args[0].s {
		case "0123456789abcdef":
			return "%02x", t.args[1]
		case "0123456789ABCDEF":
			return "%02X", t.args[1]
		}
		return "", nil
	}
	va, x := dig(a)
	vb, y := dig(b)
	if x == nil || y == nil || va != vb || !isApp(x, "div") || !isApp(y, "mod") || !x.args[1].isInt(16) || !y.args[1].isInt(16) || x.args[0] != y.args[0] {
		return "", nil
	}
	if x.args[0].lo < 0 || x.args[0].hi > 255 {
		return "", nil
	}
	return va, x.args[0]
}

func mkCat(args ...*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.op == OConst && t.kind == KStr {
			if t.s == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == OConst {
				out[n-1] = Str(out[n-1].s + t.s)
				return
			}
			out = append(out, t)
			return
		}
		if t.op == OApp && t.name == "cat" {
			for _, a := range t.args {
				push(a)
			}
			return
		}
		if n := len(out); n > 0 && t.op == OApp && t.name == "bytestr" {
			// two hexadecimal digits, looked up one by one
			if v, x := hexPair(out[n-1], t); x != nil {
				out[n-1] = mkFmtInt(v, x)
				return
			}
		}
		out = append(out, t)
	}
	for _, a := range args {
		push(a)
	}
	if len(out) == 0 {
		return Str("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawApp(KStr, "cat", 0, 0, out...)
}
func mkDec(a *Term) *Term {
	if a.op == OConst && a.kind == KInt {
		return Str(strconv.FormatInt(a.i, 10))
	}
	return rawApp(KStr, "dec", 0, 0, a)
}
func mkFmtInt(verb string, a *Term) *Term {
	if verb == "%d" || verb == "%v" {
		return mkDec(a)
	}
	if a.op == OConst && a.kind == KInt {
		if verb == "%U" || verb == "%c" || verb == "%q" {
			return Str(fmt.Sprintf(verb, rune(a.i)))
		}
		return Str(fmt.Sprintf(verb, a.i))
	}
	if n := len(verb); n > 2 && verb[1] == '#' && (verb[2] == '0' || n == 3) {
		// the prefix comes on top of the zero padded width
		if lo, _ := linRange(a, nil); lo >= 0 {
			switch verb[n-1] {
			case 'x':
				return mkCat(Str("0x"), mkFmtInt("%"+verb[2:], a))
			case 'X':
				return mkCat(Str("0X"), mkFmtInt("%"+verb[2:], a))
			}
		}
	}
	return rawApp(KStr, "fmtint", 0, 0, Str(verb), a)
}
func mkFmtV(verb string, a *Term) *Term {
	if a.op == OConst {
		switch a.kind {
		case KInt:
			return Str(fmt.Sprintf(verb, a.i))
		case KStr:
			return Str(fmt.Sprintf(verb, a.s))
		case KBool:
			return Str(fmt.Sprintf(verb, a.b))
		case KFloat:
			return Str(fmt.Sprintf(verb, a.f))
		}
	}
	return rawApp(KStr, "fmtv", 0, 0, Str(verb), a)
}
func mkGate(c, a, b *Term) *Term {
	if c.op == OConst {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == OApp && c.name == "not" {
		return mkGate(c.args[0], b, a)
	}
	if a.kind == KBool {
		if a.op == OConst && b.op == OConst {
			if a.b {
				return c
			}
			return mkNot(c)
		}
		if a.op == OConst { // c ? true : b  = c || b ; c ? false : b = !c && b
			if a.b {
				return mkOr(c, b)
			}
			return mkAnd(mkNot(c), b)
		}
		if b.op == OConst {
			if b.b {
				return mkOr(mkNot(c), a)
			}
			return mkAnd(c, a)
		}
		if isOpt(c) && isOpt(a) && isOpt(b) {
			cs := c.data.(optSet)
			return mkOptSet(cs.and(a.data.(optSet)).or(cs.not().and(b.data.(optSet))))
		}
	}
	if a.op == OApp && a.name == "gate" && a.args[0] == c {
		return mkGate(c, a.args[1], b)
	}
	if b.op == OApp && b.name == "gate" && b.args[0] == c {
		return mkGate(c, a, b.args[2])
	}
	lo, hi := int64(0), int64(0)
	if a.kind == KInt {
		l1, h1 := linRange(a, nil)
		l2, h2 := linRange(b, nil)
		lo, hi = min64(l1, l2), max64(h1, h2)
	}
	return rawApp(a.kind, "gate", lo, hi, c, a, b)
}
func mkStrEq(a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	if a.op == OConst && b.op == OConst {
		return Bool(a.s == b.s)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && b.s == "" {
		return mkEQ0(mkStrLen(a))
	}
	if a.op == OApp && a.name == "bufstr" && b.op == OConst && a.args[2].op == OConst {
		// octet by octet
		if a.args[2].i != int64(len(b.s)) {
			return Bool(false)
		}
		if len(b.s) <= 32 {
			return octetsEq(a, b.s)
		}
	}
	if isApp(a, "substr") && b.op == OConst && isConstI(a.args[1], 0) && isConstI(a.args[2], int64(len(b.s))) {
		return mkHasPrefix(a.args[0], b)
	}
	return rawApp(KBool, "streq", 0, 0, a, b)
}

func isConstI(t *Term, n int64) bool { return t.op == OConst && t.kind == KInt && t.i == n }

func octetsEq(a *Term, s string) *Term {
	r := Bool(true)
	for i := 0; i < len(s); i++ {
		r = mkAnd(r, mkEQ0(AddC(ByteAt(int(a.args[0].i), AddC(a.args[1], int64(i))), -int64(s[i]))))
	}
	return r
}
func mkStrLen(a *Term) *Term {
	if a.op == OConst {
		return Int(int64(len(a.s)))
	}
	if a.op == OApp && a.name == "cat" {
		r := Int(0)
		for _, x := range a.args {
			r = Add(r, mkStrLen(x))
		}
		return r
	}
	if a.op == OApp && a.name == "gate" {
		return mkGate(a.args[0], mkStrLen(a.args[1]), mkStrLen(a.args[2]))
	}
	lo := int64(0)
	if a.op == OApp {
		switch a.name {
		case "dec", "fmtint", "fmtv", "chr":
			lo = 1
		case "bytestr":
			return Int(1)
		case "zeros":
			return a.args[0]
		case "bufstr":
			return a.args[2]
		}
	}
	if n, ok := minLen[a]; ok && n > lo {
		lo = n
	}
	return rawApp(KInt, "strlen", lo, 1<<40, a)
}

// minLen: library results with a known minimal length.
var minLen = map[*Term]int64{}

func mkChr(a *Term) *Term {
	if a.op == OConst {
		return Str(string(rune(a.i)))
	}
	return rawApp(KStr, "chr", 0, 0, a)
}
func mkBufStr(buf int, off, ln *Term) *Term {
	if ln.isInt(0) {
		return Str("")
	}
	return rawApp(KStr, "bufstr", 0, 0, Int(int64(buf)), off, ln)
}
func mkRawByte(a *Term) *Term {
	if a.op == OConst {
		return Str(string([]byte{byte(a.i)}))
	}
	return rawApp(KStr, "bytestr", 0, 0, a)
}

// iota is the bound index of string repetitions.
var iotaSym = NamedSym(KInt, "ι", 0, maxBuf)

// mkStar is the concatenation of body[ι] for lo <= ι < hi.
func mkStar(lo, hi, body *Term) *Term {
	d := Sub(hi, lo)
	if d.op == OConst && d.i <= 0 {
		return Str("")
	}
	if body.op == OConst && body.s == "" {
		return body
	}
	if d.op == OConst && d.i <= 32 {
		var p []*Term
		for i := int64(0); i < d.i; i++ {
			p = append(p, starAt(body, AddC(lo, i)))
		}
		return mkCat(p...)
	}
	// conditions on the index itself: peel the first iterations
	if lo.op == OConst && lo.i < 3 {
		if dependsOnFirst(body, lo.i) {
			return mkGate(mkGE0(AddC(d, -1)), mkCat(starAt(body, lo), mkStar(AddC(lo, 1), hi, restrictIota(body, lo.i+1))), Str(""))
		}
	}
	if lo.op == OConst && lo.i != 0 {
		return mkStar(Int(0), d, starAt(body, Add(iotaSym, lo)))
	}
	return rawApp(KStr, "star", 0, 0, lo, hi, body)
}
func starAt(body, at *Term) *Term {
	return substM(body, map[*Term]*Term{iotaSym: at}, map[*Term]*Term{}, true)
}

// dependsOnFirst: does the body test ι against lo ?
func dependsOnFirst(t *Term, lo int64) bool {
	switch t.op {
	case OApp:
		if (t.name == "ge0" || t.name == "eq0") && t.kind == KBool {
			c, m := linOf(t.args[0])
			if len(m) == 1 && m[0].a == iotaSym {
				if t.name == "eq0" {
					return -c*m[0].k == lo
				}
				if m[0].k == 1 {
					return -c == lo+1
				}
				return c == lo
			}
		}
		for _, a := range t.args {
			if a.kind != KInt || a.op == OApp {
				if dependsOnFirst(a, lo) {
					return true
				}
			}
		}
	}
	return false
}

// restrictIota simplifies the tests of ι that ι >= lo decides.
func restrictIota(t *Term, lo int64) *Term {
	f := newFacts()
	g := f.assume(mkGE0(AddC(iotaSym, -lo)))
	if g == nil {
		return t
	}
	return g.simplify(t)
}
// inRanges: a lies in one of the ranges.
func inRanges(a *Term, rs ...int64) *Term {
	var out []*Term
	for i := 0; i < len(rs); i += 2 {
		out = append(out, mkAnd(mkGE0(AddC(a, -rs[i])), mkGE0(AddC(MulC(a, -1), rs[i+1]))))
	}
	return mkOr(out...)
}
func mkIsCtl(a *Term) *Term { return inRanges(a, 0, 0x1f, 0x7f, 0x9f) }
func mkIsSpace(a *Term) *Term {
	return inRanges(a, 9, 13, 32, 32, 0x85, 0x85, 0xa0, 0xa0, 0x1680, 0x1680, 0x2000, 0x200a, 0x2028, 0x2029, 0x202f, 0x202f, 0x205f, 0x205f, 0x3000, 0x3000)
}
func mkFBin(name string, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		switch name {
		case "fdiv":
			return Float(a.f / b.f)
		case "fmul":
			return Float(a.f * b.f)
		case "fadd":
			return Float(a.f + b.f)
		case "fsub":
			return Float(a.f - b.f)
		}
	}
	return rawApp(KFloat, name, 0, 0, a, b)
}
func mkToFloat(a *Term) *Term {
	if a.op == OConst {
		return Float(float64(a.i))
	}
	return rawApp(KFloat, "tofloat", 0, 0, a)
}

// mapTable is the constant content of a map, referenced from terms.
type mapTable struct {
	keys map[int64]*Term // constant int keys
	skey map[string]*Term
	zero *Term
}

var mapTables = map[string]*mapTable{}

func mkMapTerm(op string, kind Kind, tab, key *Term) *Term {
	mt := mapTables[tab.s]
	if key.op == OConst && mt != nil {
		var v *Term
		var ok bool
		if key.kind == KStr {
			v, ok = mt.skey[key.s]
		} else {
			v, ok = mt.keys[key.i]
		}
		if op == "mapok" {
			return Bool(ok)
		}
		if ok && v != nil {
			return v
		}
		return mt.zero
	}
	if op == "mapok" {
		return rawApp(KBool, op, 0, 0, tab, key)
	}
	lo, hi := int64(ninf), int64(inf)
	if kind == KInt && mt != nil {
		first := true
		upd := func(v *Term) {
			if v == nil || v.op != OConst {
				lo, hi = ninf, inf
				first = false
				return
			}
			if first {
				lo, hi = v.i, v.i
				first = false
				return
			}
			lo, hi = min64(lo, v.i), max64(hi, v.i)
		}
		for _, v := range mt.keys {
			upd(v)
		}
		upd(mt.zero)
	}
	return rawApp(kind, op, lo, hi, tab, key)
}

// ---------- printing ----------

func (t *Term) String() string { return t.show(0) }
func (t *Term) show(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case OConst:
		switch t.kind {
		case KInt:
			return strconv.FormatInt(t.i, 10)
		case KStr:
			return strconv.Quote(t.s)
		case KBool:
			return strconv.FormatBool(t.b)
		case KFloat:
			return strconv.FormatFloat(t.f, 'g', -1, 64)
		}
		return "const"
	case OSym:
		return t.name
	case OByte:
		return fmt.Sprintf("%s[%s]", bufName(t.buf), t.args[0].show(d+1))
	case OLin:
		var p []string
		for _, m := range t.lm {
			switch m.k {
			case 1:
				p = append(p, m.a.show(d+1))
			case -1:
				p = append(p, "-"+m.a.show(d+1))
			default:
				p = append(p, fmt.Sprintf("%d*%s", m.k, m.a.show(d+1)))
			}
		}
		if t.lc != 0 {
			p = append(p, strconv.FormatInt(t.lc, 10))
		}
		return strings.ReplaceAll(strings.Join(p, "+"), "+-", "-")
	case OApp:
		switch t.name {
		case "ge0":
			return "(" + t.args[0].show(d+1) + " >= 0)"
		case "eq0":
			return "(" + t.args[0].show(d+1) + " == 0)"
		case "not":
			return "!" + t.args[0].show(d+1)
		case "optset":
			os := t.data.(optSet)
			for k := 1; k <= nOpts; k++ {
				b := optBit(k)
				if b == t {
					return "opt." + optNames[k-1]
				}
				if mkNot(b) == t {
					return "!opt." + optNames[k-1]
				}
			}
			return "opt[e.g. " + optValStr(os.first()) + "]"
		case "inset":
			return "(" + t.args[0].show(d+1) + " in " + parseSet(t.args[1].s).String() + ")"
		case "cat":
			var p []string
			for _, a := range t.args {
				p = append(p, a.show(d+1))
			}
			return strings.Join(p, "++")
		case "gate":
			return "if(" + t.args[0].show(d+1) + "; " + t.args[1].show(d+1) + "; " + t.args[2].show(d+1) + ")"
		case "star":
			return "star(" + t.args[0].show(d+1) + ".." + t.args[1].show(d+1) + ": " + t.args[2].show(d+1) + ")"
		}
		var p []string
		for _, a := range t.args {
			p = append(p, a.show(d+1))
		}
		return t.name + "(" + strings.Join(p, ", ") + ")"
	}
	return "?"
}
