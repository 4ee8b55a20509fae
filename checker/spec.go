package main

import (
	"fmt"
	"strings"
)

// The specification: what the dump of each packet and subpacket type shows,
// written independently of the program as functions over the symbolic octets
// of the body (OpenPGP wire formats RFC 4880, RFC 6637, draft-rfc4880bis).
// A specification function is evaluated under the facts of one outcome of the
// analysed program; a condition the facts do not decide splits the outcome.

type specFail struct{ why string }

type sKidKind uint8

const (
	kNode sKidKind = iota
	kOpt
	kStar
	kEmbed
)

type sKid struct {
	kind  sKidKind
	n     *sNode
	cond  *Term
	count *Term
	gen   func(s *spec, k *Term) []sKid
	t     *Term
	props []string
}

// sNode: an expected item of the dump.
type sNode struct {
	name, value, note, dump *Term
	alt                     *Term // value of a recorded finding
	known                   string
	pName, pVal, pNote      []string
	pDump, pHere            []string
	kids                    []sKid
	valueFn                 func(t *Term) bool // instead of value: any value for which it holds
}

type spec struct {
	in     *Interp
	f      *Facts
	script []bool
	pos    int
	err    bool // the program reports an error in this outcome
	r      *rootRun
	// session state after the packet
	sigAfter, keyAfter *after
	modeAfter          string
	expand             *Term // what a compressed data packet contains
	hideSplit          int
}

// after: expected session time: nil, unchanged or the time of 4 octets.
type after struct {
	kind string // "nil" "same" "octets" "any"
	buf  int
	off  *Term
}

type specBranch struct{ c *Term }

// is decides a condition; if the facts leave it open the outcome is split.
func (s *spec) is(c *Term) bool {
	if c.op == OConst {
		return c.b
	}
	switch s.f.decide(c) {
	case dTrue:
		return true
	case dFalse:
		return false
	}
	if s.pos < len(s.script) {
		v := s.script[s.pos]
		s.pos++
		if !v {
			c = mkNot(c)
		}
		g := s.f.assume(c)
		if g == nil {
			panic(specDead{})
		}
		s.f = g
		return v
	}
	g := s.f.assume(c)
	if g == nil {
		if h := s.f.assume(mkNot(c)); h != nil {
			s.f = h
		}
		return false
	}
	h := s.f.assume(mkNot(c))
	if h == nil {
		s.f = g
		return true
	}
	panic(specBranch{c})
}

type specDead struct{}

func (s *spec) need(c *Term, why string) {
	if !s.is(c) {
		panic(specFail{why})
	}
}

type specRes struct {
	f    *Facts
	kids []sKid
	s    *spec
	fail string
}

// run evaluates fn under f, splitting where needed.
func (s *spec) run(f *Facts, fn func(s *spec) []sKid) []specRes {
	var out []specRes
	work := [][]bool{nil}
	for len(work) > 0 && len(out) < 4000 {
		sc := work[len(work)-1]
		work = work[:len(work)-1]
		x := &spec{in: s.in, f: f, script: sc, err: s.err, r: s.r}
		kids, st, why := x.try(fn)
		switch st {
		case 0:
			out = append(out, specRes{f: x.f, kids: kids, s: x})
		case 1:
			out = append(out, specRes{f: x.f, s: x, fail: why})
		case 2:
			work = append(work, append(append([]bool(nil), sc...), false), append(append([]bool(nil), sc...), true))
		}
	}
	return out
}

func (s *spec) try(fn func(s *spec) []sKid) (kids []sKid, st int, why string) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case specFail:
				st, why = 1, x.why
			case specBranch:
				st = 2
			case specDead:
				st = 3
			default:
				panic(e)
			}
		}
	}()
	return fn(s), 0, ""
}

// ---------- reading fields ----------

type rd struct {
	buf int
	off *Term
	end *Term
}

func rdOf(b *BufV) *rd { return &rd{b.buf, b.off, Add(b.off, b.ln)} }

func (r *rd) rest() *Term { return Sub(r.end, r.off) }

func (s *spec) u8(r *rd, what string) *Term {
	s.need(mkGE0(AddC(r.rest(), -1)), what)
	b := ByteAt(r.buf, r.off)
	r.off = AddC(r.off, 1)
	return b
}

// take reads n octets (n is not negative).
func (s *spec) take(r *rd, n *Term, what string) *rd {
	s.need(mkGE0(Sub(r.rest(), n)), what)
	x := &rd{r.buf, r.off, Add(r.off, n)}
	r.off = x.end
	return x
}

func (s *spec) be(r *rd, n int64, what string) *Term {
	x := s.take(r, Int(n), what)
	return beAt(x.buf, x.off, int(n))
}

func beAt(buf int, off *Term, n int) *Term {
	t := Int(0)
	for i := 0; i < n; i++ {
		t = Add(MulC(t, 256), ByteAt(buf, AddC(off, int64(i))))
	}
	return t
}

// hexOf: hexadecimal dump of octets.
func hexOf(x *rd) *Term {
	n := x.rest()
	return mkGate(mkGE0(AddC(n, -1)),
		mkCat(mkFmtInt("%02x", ByteAt(x.buf, x.off)), mkStar(Int(0), AddC(n, -1), mkCat(Str(" "), mkFmtInt("%02x", ByteAt(x.buf, Add(iotaSym, AddC(x.off, 1))))))),
		Str(""))
}

var noStr = Str("")

func gateOpt(opts []int, t *Term) *Term {
	if len(opts) == 0 {
		return t
	}
	var cs []*Term
	for _, o := range opts {
		cs = append(cs, optBit(o))
	}
	return mkGate(mkOr(cs...), t, noStr)
}

var (
	always  = []int{}
	onDebug = []int{optDebug}
)

// withDebug: an option that debug implies.
func withDebug(o int) []int { return []int{o, optDebug} }

func bytesNote(n *Term) *Term { return mkCat(mkDec(n), Str(" bytes")) }

// node builds an expected item.
func node(name string) *sNode {
	return &sNode{name: Str(name), value: noStr, note: noStr, dump: noStr, pName: []string{"C06"}, pVal: []string{"C06"}, pNote: []string{"C06"}, pDump: []string{"C04"}}
}

func (n *sNode) kid(ks ...sKid) *sNode { n.kids = append(n.kids, ks...); return n }

func (n *sNode) val(t *Term, props ...string) *sNode {
	n.value = t
	n.pVal = append([]string{"C06"}, props...)
	return n
}

func (n *sNode) nt(t *Term, props ...string) *sNode {
	n.note = t
	n.pNote = append([]string{"C06"}, props...)
	return n
}

func (n *sNode) size(t *Term) *sNode { return n.nt(bytesNote(t), "C21") }

func (n *sNode) dmp(opts []int, x *rd) *sNode {
	n.dump = gateOpt(opts, hexOf(x))
	return n
}

func one(n *sNode) sKid { return sKid{kind: kNode, n: n} }

func opt(c *Term, n *sNode) sKid { return sKid{kind: kOpt, cond: c, n: n} }

// raw: an item that shows octets only.
func raw(name string, x *rd, opts []int) *sNode {
	return node(name).size(x.rest()).dmp(opts, x)
}

func octetRd(x *rd) *rd { return x }

// byteRd: the one-octet region just read.
func (r *rd) last(n int64) *rd { return &rd{r.buf, AddC(r.off, -n), r.off} }

// ---------- comparison of an outcome ----------

type comparer struct {
	in     *Interp
	r      *rootRun
	rep    *reporter
	c      *cmpr
	sp     *spec
	outc   int
	splits int
	lossy  bool
	// the direct children of the root: nothing of them matched so far
	rootPath string
	rootN    int
	first    bool
}

// optDep: the term depends on a display option other than UTC.
func optDep(t *Term) bool {
	if depOpts == nil {
		depOpts = map[*Term]bool{}
		for _, o := range []int{optArmor, optCert, optDebug, optGDump, optInteger, optLiteral, optMarker, optPrivate} {
			depOpts[optBit(o)] = true
		}
	}
	return mentions(t, depOpts)
}

var depOpts map[*Term]bool

func (k *comparer) mismatch(f *Facts, props []string, kind, path, detail string, prog *Term) {
	fd := finding{Props: append([]string(nil), props...), Kind: kind, Root: k.r.name, Fn: k.in.parserName(k.r), Pos: k.in.parserPos(k.r), Detail: path + ": " + detail}
	dep := prog != nil && optDep(prog)
	if lits, ok := f.litsSince(k.r.entry); ok {
		var ls []string
		for _, l := range lits {
			ls = append(ls, l.String())
			if unknownLib(l, 0) {
				fd.Und = true
			}
			dep = dep || prog == nil && optDep(l)
		}
		fd.Path = "when " + clip(strings.Join(ls, " && "), 6000)
	}
	if prog != nil && unknownLib(prog, 0) || k.c.budget < 0 || prog != nil && cmpUnsure {
		fd.Und = true
	}
	if dep && kind != "wrong dump" && !hasProp(props, "C04") {
		fd.Props = append(fd.Props, "C04")
	}
	if k.first && (kind == "missing item" || kind == "extra item" || kind == "wrong name") && !hasProp(props, "C07") {
		// the body is not parsed by the parser of its type
		fd.Props = append(fd.Props, "C07")
	}
	if k.r.sub < 0 && k.r.tag == 8 && !hasProp(props, "C12") && kind != "wrong dump" {
		fd.Props = append(fd.Props, "C12")
	}
	for _, p := range k.r.props {
		if !hasProp(fd.Props, p) {
			fd.Props = append(fd.Props, p)
		}
	}
	k.rep.add(fd)
}

func (in *Interp) parserFn(r *rootRun) string {
	if r.tag >= 0 && r.tag < 64 && strings.HasPrefix(r.name, "packet") {
		if t := in.con.tagTypes[r.tag]; t != nil {
			return typKey(t)
		}
	}
	return ""
}

func (in *Interp) parserName(r *rootRun) string {
	if r.parser != nil {
		return in.fnName(r.parser)
	}
	return in.parserFn(r)
}

func (in *Interp) parserPos(r *rootRun) string {
	if r.parser != nil {
		return in.p.pos(r.parser.Pos())
	}
	return ""
}

func (in *Interp) compareRun(r *rootRun, rep *reporter) {
	comparing = true
	fn := specFor(in, r)
	if fn == nil {
		rep.stat("roots without specification", 1)
		return
	}
	for i, o := range r.outs {
		tv, ok := o.v.(TupleV)
		if !ok || len(tv) != 2 {
			rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: r.name, Detail: "the parser does not return an item and an error", Und: true})
			continue
		}
		k := &comparer{in: in, r: r, rep: rep, c: newCmpr(), outc: i}
		ev := force(o.st, tv[1])
		isErr := !isNilV(ev)
		if ov, ok := ev.(*OpaqueV); ok && !ov.nonnil {
			rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: r.name, Detail: "whether the parser fails is not known", Und: true})
			continue
		}
		k.sp = &spec{in: in, err: isErr, r: r}
		res := k.sp.run(o.st.facts, fn)
		rep.stat("specification cases", len(res))
		for _, x := range res {
			x := x
			check := func(f *Facts, rp *reporter) {
				k.rep = rp
				if isErr {
					if x.fail == "" {
						k.mismatch(f, []string{"C02"}, "rejects complete data", "error outcome", "the parser reports an error ("+showVal(ev)+") where every required field is present", nil)
					}
					rp.stat("rejections matched", 1)
					return
				}
				if x.fail != "" {
					k.mismatch(f, []string{"C02"}, "accepts incomplete data", "success outcome", "the parser succeeds although "+x.fail, nil)
					return
				}
				k.sp = x.s
				y := x
				y.f = f
				if r.list != nil {
					k.asSegs(f, o.st, r.list(in, o.st, tv[0]), func(g *Facts, segs []Seg) { k.cmpList(g, o.st, segs, x.kids, "", 0) })
				} else {
					k.cmpList(f, o.st, []Seg{{kind: SegSingle, v: tv[0]}}, x.kids, "", 0)
				}
				if !r.plain {
					k.cmpAfter(y, o.st)
				}
				rp.stat("dumps matched", 1)
			}
			tmp := newReporter()
			check(x.f, tmp)
			if tmp.quiet() {
				rep.merge(tmp)
				continue
			}
			// case by case over the disjunctions of the path condition
			k.c = newCmpr()
			k.splits = 0
			n := 64
			x.f.leaves(&n, func(g *Facts) { check(g, rep) })
			rep.stat("outcomes split", 1)
		}
	}
}

// resolveV resolves gates under f; a gate the facts leave open is returned.
func resolveV(f *Facts, v Value) Value {
	for {
		g, ok := v.(*GateV)
		if !ok {
			return v
		}
		switch f.decide(g.c) {
		case dTrue:
			v = g.a
		case dFalse:
			v = g.b
		default:
			return g
		}
	}
}

func (k *comparer) splitOn(f *Facts, c *Term, fn func(*Facts)) {
	k.splits++
	if k.splits > 20000 {
		k.rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: k.r.name, Detail: "too many cases in the comparison", Und: true})
		return
	}
	if g := f.assume(c); g != nil {
		fn(g)
	}
	if g := f.assume(mkNot(c)); g != nil {
		fn(g)
	}
}

func (k *comparer) asSegs(f *Facts, st *State, v Value, fn func(f *Facts, segs []Seg)) {
	v = resolveV(f, v)
	switch x := v.(type) {
	case *GateV:
		k.splitOn(f, x.c, func(g *Facts) { k.asSegs(g, st, x, fn) })
	case *ListV:
		fn(f, x.segs)
	case *SliceV:
		k.asSegs(f, st, st.get(x.obj), fn)
	case NilV:
		fn(f, nil)
	default:
		k.rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: k.r.name, Detail: "the sub items are not known: " + clip(showVal(v), 200), Und: true})
	}
}

func (k *comparer) cmpList(f *Facts, st *State, segs []Seg, kids []sKid, path string, depth int) {
	for {
		if depth > 400 {
			return
		}
		depth++
		k.first = path == k.rootPath && len(kids) == k.rootN
		// optional and iterated segments of the program
		if len(segs) > 0 {
			s := segs[0]
			switch s.kind {
			case SegOpt:
				switch f.decide(s.cond) {
				case dFalse:
					segs = segs[1:]
					continue
				case dUnknown:
					if len(kids) > 0 && kids[0].kind == kOpt && k.c.condEq(f, s.cond, kids[0].cond, 0) {
						if g := f.assume(s.cond); g != nil {
							k.cmpItem(g, segState(s, st), s.v, kids[0], path)
						}
						segs, kids = segs[1:], kids[1:]
						continue
					}
					sg, kd := segs, kids
					k.splitOn(f, s.cond, func(g *Facts) { k.cmpList(g, st, sg, kd, path, depth) })
					return
				}
			case SegStar:
				if len(kids) > 0 && kids[0].kind == kStar && k.c.eq(f, s.star.hi, kids[0].count) {
					k.cmpStar(f, st, s.star, kids[0], path)
					segs, kids = segs[1:], kids[1:]
					continue
				}
				if len(kids) > 0 && kids[0].kind == kStar && f.decide(mkGE0(Sub(kids[0].count, s.star.hi))) == dTrue {
					segs, kids = k.takeStar(f, st, segs, kids, path)
					continue
				}
				hi := f.simplify(s.star.hi)
				ge1 := mkGE0(AddC(hi, -1))
				switch f.decide(ge1) {
				case dFalse:
					segs = segs[1:]
					continue
				case dUnknown:
					sg, kd := segs, kids
					k.splitOn(f, ge1, func(g *Facts) { k.cmpList(g, st, sg, kd, path, depth) })
					return
				}
			case SegAcc:
				k.rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: k.r.name, Detail: path + ": accumulated items are not known", Und: true})
				return
			}
		}
		// optional and iterated items of the specification
		if len(kids) > 0 {
			switch kids[0].kind {
			case kOpt:
				switch f.decide(kids[0].cond) {
				case dFalse:
					kids = kids[1:]
					continue
				case dUnknown:
					sg, kd := segs, kids
					k.splitOn(f, kids[0].cond, func(g *Facts) { k.cmpList(g, st, sg, kd, path, depth) })
					return
				}
			case kStar:
				n := f.simplify(kids[0].count)
				ge1 := mkGE0(AddC(n, -1))
				switch f.decide(ge1) {
				case dFalse:
					kids = kids[1:]
					continue
				case dUnknown:
					sg, kd := segs, kids
					k.splitOn(f, ge1, func(g *Facts) { k.cmpList(g, st, sg, kd, path, depth) })
					return
				}
				if len(segs) > 0 && segs[0].kind == SegStar {
					enough := mkGE0(Sub(kids[0].count, segs[0].star.hi))
					switch f.decide(enough) {
					case dUnknown:
						sg, kd := segs, kids
						k.splitOn(f, enough, func(g *Facts) { k.cmpList(g, st, sg, kd, path, depth) })
						return
					case dTrue:
						segs, kids = k.takeStar(f, st, segs, kids, path)
						continue
					}
					k.mismatch(f, kidProps(kids[0], "C06"), "number of items", path, fmt.Sprintf("the dump has %s items, expected %s", f.simplify(segs[0].star.hi), n), nil)
					return
				}
				// take the first iteration out
				kd := kids[0]
				sg, rest := segs, kids[1:]
				for _, x := range k.sp.run(f, func(s *spec) []sKid { return kd.gen(s, Int(0)) }) {
					if x.fail != "" {
						k.mismatch(x.f, []string{"C02"}, "accepts incomplete data", path, "the parser succeeds although "+x.fail, nil)
						continue
					}
					nk := append(append([]sKid(nil), x.kids...), sKid{kind: kStar, count: AddC(kd.count, -1), props: kd.props, gen: func(s *spec, j *Term) []sKid { return kd.gen(s, AddC(j, 1)) }})
					k.cmpList(x.f, st, sg, append(nk, rest...), path, depth)
				}
				return
			}
		}
		if len(segs) > 0 && segs[0].kind == SegStar {
			hi := f.simplify(segs[0].star.hi)
			if hi.op != OConst || hi.i > 16 {
				k.mismatch(f, []string{"C06"}, "number of items", path, fmt.Sprintf("the dump repeats items %s times, which is not expected", hi), nil)
				return
			}
			// a constant number of iterations: expand
			si := segs[0].star
			rest := segs[1:]
			k.expandStar(f, st, si, 0, hi.i, func(f *Facts, done []Seg) {
				k.cmpList(f, st, append(append([]Seg(nil), done...), rest...), kids, path, depth)
			}, nil)
			return
		}
		if len(segs) == 0 && len(kids) == 0 {
			return
		}
		if len(segs) == 0 {
			kd := kids[0]
			k.mismatch(f, kidProps(kd, "C06"), "missing item", path, "the dump lacks "+kidName(f, kd), nil)
			return
		}
		if len(kids) == 0 {
			nm := "?"
			var props []string
			if s := k.itemStruct(f, segState(segs[0], st), segs[0].v); s != nil {
				nm = showVal(s.fields[0])
				if t, ok := s.fields[0].(*Term); ok && f.simplify(t) == Str("Unknown data") {
					props = append(props, "C05")
				}
			}
			k.mismatch(f, append(props, "C06"), "extra item", path, "the dump has an item that is not expected: "+nm, nil)
			return
		}
		k.cmpItem(f, segState(segs[0], st), segs[0].v, kids[0], path)
		segs, kids = segs[1:], kids[1:]
	}
}

// takeStar: the iterations of the program are the first ones expected.
func (k *comparer) takeStar(f *Facts, st *State, segs []Seg, kids []sKid, path string) ([]Seg, []sKid) {
	hi, kd := segs[0].star.hi, kids[0]
	k.cmpStar(f, st, segs[0].star, kd, path)
	rest := sKid{kind: kStar, count: Sub(kd.count, hi), props: kd.props, gen: func(s *spec, j *Term) []sKid { return kd.gen(s, Add(j, hi)) }}
	return segs[1:], append([]sKid{rest}, kids[1:]...)
}

func segState(s Seg, st *State) *State {
	if s.snap != nil {
		return s.snap
	}
	return st
}

func kidProps(kd sKid, def ...string) []string {
	ps := append([]string(nil), def...)
	if kd.n != nil {
		ps = append(ps, kd.n.pHere...)
	}
	return append(ps, kd.props...)
}

func kidName(f *Facts, kd sKid) string {
	switch {
	case kd.n != nil:
		return "the item " + f.simplify(kd.n.name).String()
	case kd.t != nil:
		return kd.t.String()
	}
	return "an iterated item"
}

// expandStar lists the combinations of alternatives of n iterations.
func (k *comparer) expandStar(f *Facts, st *State, si *StarInfo, i, n int64, fn func(f *Facts, segs []Seg), done []Seg) {
	if i == n {
		fn(f, done)
		return
	}
	for _, a := range si.alts {
		m := map[*Term]*Term{si.kv: Int(i)}
		g := f.assume(substM(a.cond, m, map[*Term]*Term{}, true))
		if g == nil {
			continue
		}
		lits, ok := a.st.facts.litsSince(k.r.entry)
		if ok {
			for _, l := range lits {
				if g == nil {
					break
				}
				g = g.assume(substM(l, m, map[*Term]*Term{}, true))
			}
		}
		if g == nil {
			continue
		}
		nd := append([]Seg(nil), done...)
		for _, s := range a.segs {
			s2 := s
			as := a.st
			if s.snap != nil {
				as = s.snap
			}
			s2.snap = as
			s2.v = &substV{v: s.v, m: m}
			if s.cond != nil {
				s2.cond = substM(s.cond, m, map[*Term]*Term{}, true)
			}
			nd = append(nd, s2)
		}
		k.expandStar(g, st, si, i+1, n, fn, nd)
	}
}

// substV: a value of an iteration with its index replaced.
type substV struct {
	v Value
	m map[*Term]*Term
}

func (k *comparer) cmpStar(f *Facts, st *State, si *StarInfo, kd sKid, path string) {
	base := f.assume(mkGE0(si.kv))
	if base != nil {
		base = base.assume(mkGE0(Sub(AddC(si.hi, -1), si.kv)))
	}
	if base == nil {
		return
	}
	for _, a := range si.alts {
		g := base.assume(a.cond)
		if g == nil {
			continue
		}
		if lits, ok := a.st.facts.litsSince(k.r.entry); ok {
			for _, l := range lits {
				if g == nil {
					break
				}
				g = g.assume(l)
			}
		}
		if g == nil {
			continue
		}
		for _, x := range k.sp.run(g, func(s *spec) []sKid { return kd.gen(s, si.kv) }) {
			if x.fail != "" {
				k.mismatch(x.f, append([]string{"C02"}, kd.props...), "accepts incomplete data", path+"[*]", "the parser succeeds although "+x.fail, nil)
				continue
			}
			k.cmpList(x.f, a.st, a.segs, x.kids, path+"[*]", 0)
		}
	}
}

func (k *comparer) itemStruct(f *Facts, st *State, v Value) *StructV {
	var m map[*Term]*Term
	if s, ok := v.(*substV); ok {
		v, m = s.v, s.m
	}
	v = resolveV(f, v)
	p, ok := v.(*PtrV)
	if !ok {
		return nil
	}
	s, ok := mustLoad(st, p).(*StructV)
	if !ok || len(s.fields) != 5 {
		return nil
	}
	if m != nil {
		c := &StructV{fields: append([]Value(nil), s.fields...)}
		for i, x := range c.fields {
			if t, ok := x.(*Term); ok {
				c.fields[i] = substM(t, m, map[*Term]*Term{}, true)
			}
		}
		return c
	}
	return s
}

func (k *comparer) cmpItem(f *Facts, st *State, v Value, kd sKid, path string) {
	var m map[*Term]*Term
	if s, ok := v.(*substV); ok {
		v, m = s.v, s.m
	}
	v = resolveV(f, v)
	if g, ok := v.(*GateV); ok {
		k.splitOn(f, g.c, func(h *Facts) { k.cmpItem(h, st, g, kd, path) })
		return
	}
	if kd.kind == kEmbed {
		k.rep.stat("items compared", 1)
		if o, ok := v.(*OpaqueV); ok {
			t := o.t
			if m != nil {
				t = substM(t, m, map[*Term]*Term{}, true)
			}
			if t == kd.t || k.c.eq(f, t, kd.t) {
				return
			}
			k.mismatch(f, kidProps(kd, "C06"), "wrong item", path, "the dump shows "+clip(f.simplify(t).String(), 300)+", expected "+clip(f.simplify(kd.t).String(), 300), t)
			return
		}
		k.mismatch(f, kidProps(kd, "C06"), "wrong item", path, "the dump shows "+clip(showVal(v), 200)+", expected "+clip(f.simplify(kd.t).String(), 300), nil)
		return
	}
	n := kd.n
	p, ok := v.(*PtrV)
	if !ok {
		if o, ok := v.(*OpaqueV); ok {
			k.mismatch(f, kidProps(kd, "C06"), "wrong item", path, "the dump shows "+clip(f.simplify(o.t).String(), 300)+", expected "+kidName(f, kd), nil)
			return
		}
		k.mismatch(f, kidProps(kd, "C06"), "missing item", path, "the dump has "+clip(showVal(v), 200)+" instead of "+kidName(f, kd), nil)
		return
	}
	s, ok := mustLoad(st, p).(*StructV)
	if !ok || len(s.fields) != 5 {
		k.rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: k.r.name, Detail: path + ": an item is not known", Und: true})
		return
	}
	s = k.itemStruct(f, st, &substV{v: v, m: m})
	np := path + "/" + strings.Trim(clip(f.simplify(n.name).String(), 60), "\"")
	get := func(i int) *Term {
		t, ok := s.fields[i].(*Term)
		if !ok {
			x := resolveV(f, s.fields[i])
			t, ok = x.(*Term)
			if !ok {
				if _, isNil := x.(NilV); isNil {
					return noStr
				}
				return rawApp(KStr, "call unknown", 0, 0)
			}
		}
		return t
	}
	k.rep.stat("items compared", 1)
	cmp := func(what string, i int, want *Term, props []string) bool {
		t := get(i)
		if k.c.eq(f, t, want) {
			return true
		}
		k.mismatch(f, props, "wrong "+what, np, fmt.Sprintf("the %s is %s, expected %s", what, clip(f.simplify(t).String(), 400), clip(f.simplify(want).String(), 400)), t)
		return false
	}
	if !cmp("name", 0, n.name, n.pName) {
		// another item: its contents would only repeat the difference
		if t := f.simplify(get(0)); t == Str("Unknown data") || f.simplify(n.name) == Str("Unknown data") {
			k.mismatch(f, []string{"C05"}, "leftover octets", np, "the dump has "+t.String()+" instead of "+kidName(f, kd), t)
		}
		if len(n.pHere) > 0 {
			k.mismatch(f, n.pHere, "wrong item", np, "the dump has "+f.simplify(get(0)).String()+" instead of "+kidName(f, kd), nil)
		}
		return
	}
	if n.valueFn != nil {
		cmpUnsure = false
		if t := f.simplify(get(1)); !n.valueFn(t) {
			k.mismatch(f, n.pVal, "wrong value", np, "the value is "+clip(t.String(), 300), t)
		}
	} else if n.alt != nil && !k.c.eq(f, get(1), n.value) && k.c.eq(f, get(1), n.alt) {
		k.rep.add(finding{Props: []string{"C08"}, Kind: "known", Root: k.r.name, Known: n.known, Detail: np + ": " + clip(f.simplify(get(1)).String(), 300)})
	} else {
		cmp("value", 1, n.value, n.pVal)
	}
	cmp("note", 3, n.note, n.pNote)
	if d := get(2); !k.c.eq(f, d, n.dump) {
		props := append([]string(nil), n.pDump...)
		if g := f.assume(optBit(optDebug)); g == nil || !k.c.eq(g, d, n.dump) {
			props = append(props, "C06")
		}
		k.mismatch(f, props, "wrong dump", np, fmt.Sprintf("the octets shown are %s, expected %s", clip(f.simplify(d).String(), 300), clip(f.simplify(n.dump).String(), 300)), d)
	}
	k.asSegs(f, st, s.fields[4], func(g *Facts, segs []Seg) {
		if m != nil {
			var ns []Seg
			for _, x := range segs {
				if x.kind == SegStar {
					k.rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: k.r.name, Detail: np + ": nested iteration", Und: true})
					return
				}
				x.v = &substV{v: x.v, m: m}
				if x.cond != nil {
					x.cond = substM(x.cond, m, map[*Term]*Term{}, true)
				}
				ns = append(ns, x)
			}
			segs = ns
		}
		if path == "" {
			k.rootPath, k.rootN = np, len(n.kids)
		}
		k.cmpList(g, st, segs, n.kids, np, 0)
	})
}

// cmpAfter compares the session state left behind.
func (k *comparer) cmpAfter(x specRes, st *State) {
	ci := k.r.cxt
	chk := func(name string, want *after, idx int, t0 *Term) {
		v, ok := st.load(&PtrV{obj: ci.ptr.obj, path: fmt.Sprintf("%s.%d", ci.ptr.path, idx)})
		if !ok {
			return
		}
		if want == nil {
			want = &after{kind: "same"}
		}
		k.cmpTime(x.f, st, name, v, want, t0, 0)
	}
	chk("signature creation time", x.s.sigAfter, ci.sigT, ci.sig0)
	chk("key creation time", x.s.keyAfter, ci.keyT, ci.key0)
	v, ok := st.load(&PtrV{obj: ci.ptr.obj, path: fmt.Sprintf("%s.%d", ci.ptr.path, ci.mode)})
	if t, isT := v.(*Term); ok && isT {
		var want *Term
		switch x.s.modeAfter {
		case "":
			want = ci.mode0
		default:
			want = k.in.modeConst(x.s.modeAfter)
		}
		if want != nil && !k.c.eq(x.f, t, want) {
			k.mismatch(x.f, []string{"C11"}, "session-key mode", "after the packet", fmt.Sprintf("the session-key mode is %s, expected %s", x.f.simplify(t), want), t)
		}
	}
}

func (k *comparer) cmpTime(f *Facts, st *State, name string, v Value, want *after, t0 *Term, d int) {
	if want.kind == "any" || d > 20 {
		return
	}
	v = resolveV(f, v)
	if g, ok := v.(*GateV); ok {
		k.splitOn(f, g.c, func(h *Facts) { k.cmpTime(h, st, name, g, want, t0, d+1) })
		return
	}
	isnil := rawApp(KBool, "isnil", 0, 0, t0)
	got := "?"
	switch x := v.(type) {
	case NilV:
		got = "none"
		if want.kind == "nil" || want.kind == "same" && f.decide(isnil) == dTrue {
			return
		}
	case *PtrV:
		if t := timeTerm[x.obj]; t != nil {
			got = t.String()
			if want.kind == "same" && t == t0 {
				return
			}
			break
		}
		// a time read from octets: compare what it prints
		s := k.in.timeString(st, x)
		got = "time " + clip(fmt.Sprint(s), 200)
		if want.kind == "octets" && s != nil {
			exp := timeStr(beAt(want.buf, want.off, 4))
			if k.c.eq(f, s, exp) {
				return
			}
		}
		if s == nil {
			k.rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: k.r.name, Detail: "the " + name + " kept for later packets is not known", Und: true})
			return
		}
	default:
		k.rep.add(finding{Props: []string{"*"}, Kind: "undecided", Root: k.r.name, Detail: "the " + name + " kept for later packets is not known: " + clip(showVal(v), 100), Und: true})
		return
	}
	k.mismatch(f, []string{"C10"}, "session time", "after the packet", fmt.Sprintf("the %s kept for later packets is %s, expected %s", name, got, want.kind), nil)
}
