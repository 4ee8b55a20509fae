package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The octet reader, by its public operations: from every position of every
// buffer each operation gives exactly the octets at the position, moves by
// exactly what it gave, and fails without moving.

type readerCase struct {
	cond *Term
	err  bool
	off  *Term // position afterwards
	vals []*Term
}

type readerOp struct {
	name  string
	args  func(st *State) []Value
	cases []readerCase
	// what the caller's slice holds afterwards
	dst func(c int) *Term
}

func readerJob(in *Interp, rep *reporter) {
	in.root = "octet reader"
	newFn := in.p.fn("parse/reader", "New")
	seek := in.p.method("parse/reader", "Reader", "Seek", true)
	rest := in.p.method("parse/reader", "Reader", "Rest", true)
	if newFn == nil || seek == nil || rest == nil {
		rep.res.Err = "parse/reader.New, Seek or Rest is missing"
		return
	}
	body := bodyBuf()
	ln := body.ln
	off := NamedSym(KInt, "position", 0, maxBuf)
	base := newState()
	base.assume(mkGE0(Sub(ln, off)))
	var starts []CallOut
	for _, o := range in.callRoot(newFn, []Value{body}, base) {
		rd := o.v
		for _, s := range in.callRoot(seek, []Value{rd, off, Int(0)}, o.st) {
			tv, ok := s.v.(TupleV)
			if !ok || len(tv) != 2 {
				rep.res.Err = "Seek does not return a position and an error"
				return
			}
			if !isNilV(s.st.resolve(tv[1])) {
				rep.add(finding{Props: []string{"C20"}, Kind: "position refused", Fn: "Seek", Root: in.root, Detail: "a position within the buffer is refused", Pos: in.p.pos(seek.Pos())})
				continue
			}
			starts = append(starts, CallOut{s.st, rd})
		}
	}
	n := NamedSym(KInt, "size", -1<<40, 1<<40)
	left := Sub(ln, off)
	str := func(o, l *Term) *Term { return mkBufStr(body.buf, o, l) }
	has := func(k *Term) *Term { return mkGE0(Sub(left, k)) }
	none := mkEQ0(left)
	hexOf := func(o *Term) *Term { return hexText(str(o, Sub(ln, o)), " ", "%02x") }
	ops := []readerOp{
		{name: "ReadBytes", args: func(*State) []Value { return []Value{n} }, cases: []readerCase{
			{cond: mkEQ0(n), off: off, vals: []*Term{Str("")}},
			{cond: mkAnd(mkGE0(AddC(n, -1)), has(n)), off: Add(off, n), vals: []*Term{str(off, n)}},
			{cond: mkAnd(mkGE0(AddC(n, -1)), mkNot(has(n))), err: true, off: off},
			{cond: mkNot(mkGE0(n)), err: true, off: off},
		}},
		{name: "ReadByte", cases: []readerCase{
			{cond: none, err: true, off: off},
			{cond: mkNot(none), off: AddC(off, 1), vals: []*Term{ByteAt(body.buf, off)}},
		}},
		{name: "Read2EOF", cases: []readerCase{
			{cond: none, err: true, off: off},
			{cond: mkNot(none), off: ln, vals: []*Term{str(off, left)}},
		}},
		{name: "Rest", cases: []readerCase{{cond: Bool(true), off: off, vals: []*Term{left}}}},
		{name: "Len", cases: []readerCase{{cond: Bool(true), off: off, vals: []*Term{ln}}}},
		{name: "Size", cases: []readerCase{{cond: Bool(true), off: off, vals: []*Term{ln}}}},
		{name: "GetBody", cases: []readerCase{{cond: Bool(true), off: off, vals: []*Term{str(Int(0), ln)}}}},
	}
	for w, o := range []*Term{Int(0), off, ln} {
		w, o := w, Add(o, n)
		in0 := mkAnd(mkGE0(o), mkGE0(Sub(ln, o)))
		ops = append(ops, readerOp{name: "Seek", args: func(*State) []Value { return []Value{n, Int(int64(w))} }, cases: []readerCase{
			{cond: in0, off: o, vals: []*Term{o}},
			{cond: mkNot(in0), err: true, off: off},
		}})
	}
	ops = append(ops, readerOp{name: "Seek", args: func(st *State) []Value {
		w := NamedSym(KInt, "whence", -1<<31, 1<<31)
		for i := int64(0); i <= 2; i++ {
			st.assume(mkNot(mkEQ0(AddC(w, -i))))
		}
		return []Value{n, w}
	}, cases: []readerCase{{cond: Bool(true), err: true, off: off}}})
	at := NamedSym(KInt, "from", 0, maxBuf)
	if hexOf(at) != nil {
		ops = append(ops, readerOp{name: "DumpString", args: func(*State) []Value { return []Value{at} }, cases: []readerCase{
			{cond: mkGE0(Sub(at, ln)), off: off, vals: []*Term{Str("")}},
			{cond: mkNot(mkGE0(Sub(at, ln))), off: off, vals: []*Term{hexOf(at)}},
		}})
	}
	// into slices of the caller
	for _, l := range []int64{0, 1, 3, 16} {
		l := l
		dst := func(st *State) Value {
			return &BSliceV{obj: st.alloc(&BytesV{t: Str(strings.Repeat("\x00", int(l)))})}
		}
		zero := Str(strings.Repeat("\x00", int(l)))
		L := Int(l)
		rc := []readerCase{{cond: has(L), off: AddC(off, l), vals: []*Term{L}}}
		if l > 0 {
			rc = append(rc, readerCase{cond: mkNot(has(L)), err: true, off: off})
		}
		ops = append(ops, readerOp{name: "Read", args: func(st *State) []Value { return []Value{dst(st)} }, cases: rc,
			dst: func(c int) *Term {
				if c == 0 {
					return str(off, L)
				}
				return zero
			}})
	}
	for _, l := range []int64{1, 8} {
		l := l
		L := Int(l)
		fits := mkAnd(mkGE0(n), mkGE0(Sub(Sub(ln, n), L)))
		ops = append(ops, readerOp{name: "ReadAt", args: func(st *State) []Value {
			return []Value{&BSliceV{obj: st.alloc(&BytesV{t: Str(strings.Repeat("\x00", int(l)))})}, n}
		}, cases: []readerCase{
			{cond: fits, off: Add(n, L), vals: []*Term{L}},
			{cond: mkNot(fits), err: true},
		}, dst: func(c int) *Term {
			if c == 0 {
				return str(n, L)
			}
			return Str(strings.Repeat("\x00", int(l)))
		}})
	}
	for _, op := range ops {
		fn := in.p.method("parse/reader", "Reader", op.name, true)
		if fn == nil {
			continue
		}
		rep.stat("operations", 1)
		for _, s := range starts {
			st := s.st.clone()
			var args []Value
			if op.args != nil {
				args = op.args(st)
			}
			entry := st.facts
			rep.stat("roots", 1)
			for _, o := range in.callRoot(fn, append([]Value{s.v}, args...), st) {
				readerOutcome(in, rep, fn, rest, &op, s.v, args, o, entry)
			}
		}
	}
}

func readerOutcome(in *Interp, rep *reporter, fn, rest *ssa.Function, op *readerOp, rd Value, args []Value, o CallOut, entry *Facts) {
	vals := []Value{o.v}
	if tv, ok := o.v.(TupleV); ok {
		vals = tv
	}
	res := fn.Signature.Results()
	hasErr := res.Len() > 0 && res.At(res.Len()-1).Type().String() == "error"
	isErr := hasErr && !isNilV(o.st.resolve(vals[len(vals)-1]))
	for ci, c := range op.cases {
		f := o.st.facts
		conj := []*Term{c.cond}
		if isApp(c.cond, "and") || isApp(c.cond, "and&") {
			conj = c.cond.args
		}
		for i := 0; f != nil && i < 2*len(conj); i++ {
			f = f.assume(f.simplify(conj[i%len(conj)]))
		}
		if f == nil {
			continue
		}
		rep.stat("cases", 1)
		st := o.st.clone()
		st.facts = f
		bad := func(kind, detail string, und bool) {
			var ls []string
			lits, _ := f.litsSince(entry)
			if !linFeasible(append(append([]*Term{c.cond}, lits...), mkGE0(Sub(bodyBuf().ln, NamedSym(KInt, "position", 0, maxBuf))))) {
				return
			}
			for _, l := range lits {
				und = und || unknownLib(l, 0)
				ls = append(ls, l.String())
			}
			rep.add(finding{Props: []string{"C20"}, Kind: kind, Pos: in.p.pos(fn.Pos()), Fn: "(*Reader)." + op.name, Root: in.root, Detail: detail, Path: clip(strings.Join(ls, " & "), 400), Und: und})
		}
		if isErr != c.err {
			bad("wrong failure", map[bool]string{true: "fails although the octets are there", false: "succeeds although the octets or the position are not there"}[isErr], false)
			continue
		}
		for i, w := range c.vals {
			if i >= len(vals) {
				break
			}
			g := f.simplify(in.toTerm(st, vals[i]))
			if isNilV(st.resolve(vals[i])) {
				g = Str("")
			}
			if !newCmpr().eq(f, g, w) {
				bad("wrong octets", clip(g.String(), 200)+" instead of "+clip(w.String(), 200), cmpUnsure || unknownLib(g, 0))
			}
		}
		if op.dst != nil {
			g := f.simplify(in.strOf(st, args[0]))
			if !newCmpr().eq(f, g, op.dst(ci)) {
				bad("wrong octets", "the caller's slice is "+clip(g.String(), 200)+" instead of "+clip(op.dst(ci).String(), 200), cmpUnsure || unknownLib(g, 0))
			}
		}
		for _, r := range in.callRoot(rest, []Value{rd}, st.clone()) {
			t, ok := r.st.resolve(r.v).(*Term)
			if !ok || c.off == nil {
				continue
			}
			want := Sub(bodyBuf().ln, c.off)
			if !newCmpr().eq(r.st.facts, r.st.facts.simplify(t), want) {
				bad("wrong position", fmt.Sprintf("%s octets are left instead of %s", clip(t.String(), 120), want), unknownLib(t, 0))
			}
		}
	}
}

// linFeasible: the linear literals have a common solution in rational numbers
// (Fourier-Motzkin elimination).
func linFeasible(lits []*Term) bool {
	type row struct {
		c int64
		m map[*Term]int64
	}
	var rows []row
	vars := map[*Term]bool{}
	add := func(t *Term, k, d int64) {
		c, m := linOf(t)
		r := row{k*c + d, map[*Term]int64{}}
		for _, x := range m {
			r.m[x.a] += k * x.k
			vars[x.a] = true
		}
		rows = append(rows, r)
	}
	var lit func(l *Term)
	lit = func(l *Term) {
		switch {
		case isApp(l, "and") || isApp(l, "and&"):
			for _, a := range l.args {
				lit(a)
			}
		case isApp(l, "ge0"):
			add(l.args[0], 1, 0)
		case isApp(l, "eq0"):
			add(l.args[0], 1, 0)
			add(l.args[0], -1, 0)
		case isApp(l, "not") && isApp(l.args[0], "ge0"):
			add(l.args[0].args[0], -1, -1)
		}
	}
	for _, l := range lits {
		lit(l)
	}
	for v := range vars {
		if v.lo > -1<<50 {
			add(v, 1, -v.lo)
		}
		if v.hi < 1<<50 {
			add(v, -1, v.hi)
		}
	}
	for v := range vars {
		var pos, neg, rest []row
		for _, r := range rows {
			switch k := r.m[v]; {
			case k > 0:
				pos = append(pos, r)
			case k < 0:
				neg = append(neg, r)
			default:
				rest = append(rest, r)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := -n.m[v], p.m[v]
				r := row{a*p.c + b*n.c, map[*Term]int64{}}
				for x, k := range p.m {
					r.m[x] += a * k
				}
				for x, k := range n.m {
					r.m[x] += b * k
				}
				for x, k := range r.m {
					if k == 0 {
						delete(r.m, x)
					}
				}
				rest = append(rest, r)
			}
		}
		rows = rest
		if len(rows) > 4000 {
			return true
		}
	}
	for _, r := range rows {
		if len(r.m) == 0 && r.c < 0 {
			return false
		}
	}
	return true
}

func init() { otherJobs["octets"] = readerJob }
