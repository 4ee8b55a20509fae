package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Where the packets of an input come from: the lines of ASCII armor picked out
// of a text, the decoded armor, or the input itself.

var armorProps = []string{"C16"}

const (
	armorBegin  = "-----BEGIN PGP"
	armorSigned = "-----BEGIN PGP SIGNED"
	armorEnd    = "-----END PGP"
)

type armorChecker struct {
	in  *Interp
	rep *reporter
}

func (k *armorChecker) finding(kind, detail string, entry *Facts, st *State, fn string, und bool) {
	var ls []string
	lits, _ := st.facts.litsSince(entry)
	for _, l := range lits {
		und = und || unknownLib(l, 0)
		ls = append(ls, l.String())
	}
	k.rep.add(finding{Props: armorProps, Kind: kind, Fn: fn, Root: k.in.root, Detail: detail, Path: clip(strings.Join(ls, " & "), 500), Und: und})
}

// lineAtoms: the constants a line is compared with on the path, by line; ok is
// false if the path depends on a line in another way.
func lineAtoms(t *Term, at map[*Term]map[string]bool, ok *bool) {
	if isApp(t, "hasprefix") && isApp(t.args[0], "line") && t.args[1].op == OConst {
		m := at[t.args[0]]
		if m == nil {
			m = map[string]bool{}
			at[t.args[0]] = m
		}
		m[t.args[1].s] = true
		return
	}
	if isApp(t, "hasprefix") && isApp(t.args[0], "trimspace") && isApp(t.args[0].args[0], "line") && t.args[1].op == OConst && strings.TrimSpace(t.args[1].s) == t.args[1].s {
		return // follows from the class where it has a prefix of that kind
	}
	if isApp(t, "strlen") && isApp(t.args[0], "line") {
		return
	}
	if isApp(t, "line") {
		*ok = false
		return
	}
	for _, a := range t.args {
		lineAtoms(a, at, ok)
	}
	for _, m := range t.lm {
		lineAtoms(m.a, at, ok)
	}
}

func eachApp(t *Term, name string, f func(*Term)) {
	if isApp(t, name) {
		f(t)
		return
	}
	for _, a := range t.args {
		eachApp(a, name, f)
	}
	for _, m := range t.lm {
		eachApp(m.a, name, f)
	}
}

// classes of lines: by the longest of the constants that is a prefix.
func lineClasses(cs map[string]bool) []string {
	out := []string{""}
	for c := range cs {
		if c != "" {
			out = append(out, c)
		}
	}
	sort.Strings(out)
	return out
}

// pick: what the lines of given classes yield: which lines are part of the
// armor, and whether it is complete.
func armorPick(cls []string) (from, to int, ok bool) {
	from, to = -1, -1
	for i, c := range cls {
		if from < 0 && strings.HasPrefix(c, armorBegin) && !strings.HasPrefix(c, armorSigned) {
			from = i
		}
		if from >= 0 && strings.HasPrefix(c, armorEnd) {
			return from, i, true
		}
	}
	return from, to, false
}

func (k *armorChecker) lines(n int) {
	in := k.in
	fn := in.p.fn("armtext", "Get")
	if fn == nil {
		k.rep.res.Err = "armtext.Get is missing"
		return
	}
	in.root = fmt.Sprintf("armor in a text of %d lines", n)
	in.noMerge = true
	defer func() { in.noMerge = false }()
	scan := models["(*bufio.Scanner).Scan"]
	defer overrideModels(map[string]modelFn{
		"(*bufio.Scanner).Scan": func(ctx *callCtx) []CallOut {
			p, ok := ctx.arg(0).(*PtrV)
			if !ok {
				return scan(ctx)
			}
			s, ok := mustLoad(ctx.st, p).(*StructV)
			if !ok {
				return scan(ctx)
			}
			i := s.fields[1].(*Term)
			ctx.st.store(p, &StructV{fields: []Value{s.fields[0], AddC(i, 1)}})
			return ctx.one(Bool(i.op == OConst && i.i < int64(n)))
		},
	})()
	st := newState()
	rd := inputReader(in)
	src := in.readerTerm(st, rd)
	line := func(i int) *Term { return rawApp(KStr, "line", 0, 0, src, Int(int64(i))) }
	entry := st.facts
	// the lines by their kinds
	base := []string{"", armorBegin, armorSigned, armorEnd}
	var starts []*State
	var split func(i int, st *State)
	split = func(i int, st *State) {
		if i == n {
			starts = append(starts, st)
			return
		}
		for _, c := range base {
			s := st.clone()
			for _, d := range base[1:] {
				lit := mkHasPrefix(line(i), Str(d))
				if !strings.HasPrefix(c, d) {
					lit = mkNot(lit)
				}
				if !s.assume(lit) {
					s = nil
					break
				}
			}
			if s != nil && s.assume(mkGE0(AddC(mkStrLen(line(i)), -int64(len(c))))) {
				split(i+1, s)
			}
		}
	}
	split(0, st)
	var outs []CallOut
	for _, s := range starts {
		outs = append(outs, in.callRoot(fn, []Value{rd}, s)...)
	}
	for _, o := range outs {
		k.rep.stat("outcomes", 1)
		tv, isT := o.v.(TupleV)
		if !isT || len(tv) != 2 {
			k.finding("undecided", "the result is not a text and an error", entry, o.st, "armtext.Get", true)
			continue
		}
		lits, _ := o.st.facts.litsSince(entry)
		at := map[*Term]map[string]bool{}
		known := true
		broken, limits := false, false
		for _, l := range lits {
			if strings.HasPrefix(l.String(), "!ok Scanner.Err") {
				broken = true
				continue
			}
			lineAtoms(l, at, &known)
		}
		limit, scanner := Int(64*1024), false
		for _, e := range o.st.eventList() {
			scanner = scanner || e.kind == "scanner"
			if e.kind == "scanbuffer" && len(e.args) > 0 {
				limit = termOf(e.args[0])
			}
			if e.kind == "scansplit" {
				limits = true
			}
		}
		if scanner && limit.op == OConst && limit.i < 1<<30 && !limits {
			k.finding("long lines refused", fmt.Sprintf("a line of more than %d octets in the text around the armor makes it unreadable", limit.i), entry, o.st, "armtext.Get", false)
		}
		if limits || scanner && limit.op != OConst {
			known = false
		}
		isErr := !isNilV(o.st.resolve(tv[1]))
		var cls func(i int, f *Facts, sofar []string)
		cls = func(i int, f *Facts, sofar []string) {
			if i == n {
				k.rep.stat("line classes", 1)
				from, to, ok := armorPick(sofar)
				what := fmt.Sprintf("lines starting %q", sofar)
				s2 := o.st.clone()
				s2.facts = f
				switch {
				case !ok && !isErr:
					k.finding("armor invented", "a text without a complete armor is accepted: "+what, entry, s2, "armtext.Get", !known)
				case ok && isErr && !broken:
					k.finding("armor rejected", "a complete armor is not found: "+what, entry, s2, "armtext.Get", !known)
				case ok && !isErr:
					var ps []*Term
					for j := from; j <= to; j++ {
						ps = append(ps, line(j), Str("\n"))
					}
					want := mkCat(ps...)
					rt := in.readerTerm(o.st, tv[0])
					if !isApp(rt, "bytesReader") {
						k.finding("undecided", "the text is "+clip(rt.String(), 200), entry, s2, "armtext.Get", true)
						return
					}
					got := f.simplify(rt.args[0])
					// the last line need not end
					if newCmpr().eq(f, got, want) || newCmpr().eq(f, mkCat(got, Str("\n")), want) {
						return
					}
					k.finding("wrong armor", clip(got.String(), 400)+" instead of "+clip(want.String(), 400)+": "+what, entry, s2, "armtext.Get", !known || unknownLib(got, 0))
				}
				return
			}
			cs := map[string]bool{armorBegin: true, armorSigned: true, armorEnd: true}
			for c := range at[line(i)] {
				cs[c] = true
			}
			for _, c := range lineClasses(cs) {
				g := f
				for d := range cs {
					lit := rawApp(KBool, "hasprefix", 0, 0, line(i), Str(d))
					if !strings.HasPrefix(c, d) {
						lit = mkNot(lit)
					}
					if g = g.assume(lit); g == nil {
						break
					}
				}
				if g != nil {
					g = g.assume(mkGE0(AddC(mkStrLen(line(i)), -int64(len(c)))))
				}
				for _, l := range lits {
					// what a line starts with is left of it without white space
					eachApp(l, "hasprefix", func(t *Term) {
						if g != nil && isApp(t.args[0], "trimspace") && t.args[0].args[0] == line(i) && t.args[1].op == OConst && strings.HasPrefix(c, t.args[1].s) && strings.TrimSpace(t.args[1].s) == t.args[1].s {
							g = g.assume(t)
						}
					})
				}
				if g != nil {
					cls(i+1, g, append(append([]string(nil), sofar...), c))
				}
			}
		}
		cls(0, o.st.facts, nil)
	}
}

// ---------- the parser for an input ----------

type tee struct{ r, w Value }

type sourceChecker struct {
	armorChecker
	base  *Term // the input
	all   *Term // its content, for an input in memory
	tees  map[*Term]tee
	calls int
}

var wholeInput = NamedSym(KOther, "the whole input", 0, 0)

// whole: the reader yields the whole input.
func (k *sourceChecker) whole(st *State, t *Term) bool {
	used := func(t *Term) bool {
		for e := st.events; e != nil; e = e.prev {
			if e.kind == "copy" && len(e.args) > 1 && e.args[1] == Value(t) {
				return true
			}
		}
		return false
	}
	isAll := func(s *Term) bool {
		return k.all != nil && s == k.all || s == rawApp(KStr, "stream.all", 0, 0, k.base)
	}
	if te, ok := k.tees[t]; ok {
		return !used(t) && k.whole(st, k.in.readerTerm(st, te.r))
	}
	switch {
	case t == k.base:
		return !used(t)
	case isApp(t, "bytesReader"):
		return isAll(t.args[0]) && !used(t)
	case isApp(t, "io.MultiReader") && len(t.args) == 2 && isApp(t.args[0], "bytesReader"):
		a, b := t.args[0], t.args[1]
		return a.args[0] == rawApp(KStr, "consumed", 0, 0, b) && !used(a) && (b == k.base || isApp(b, "bytesReader") && isAll(b.args[0]))
	}
	return false
}

func (k *sourceChecker) consume(st *State, pos string, v Value, t *Term) {
	st.event("copy", pos, Str("armor"), t)
	if te, ok := k.tees[t]; ok {
		rt := k.in.readerTerm(st, te.r)
		k.consume(st, pos, te.r, rt)
		w := st.resolve(te.w)
		if iv, ok := w.(*IfaceV); ok {
			w = st.resolve(iv.val)
		}
		if p, ok := w.(*PtrV); ok {
			if b, ok := mustLoad(st, p).(*BytesV); ok {
				st.store(p, &BytesV{t: mkCat(b.t, rawApp(KStr, "consumed", 0, 0, rt))})
			}
		}
	}
}

func (k *sourceChecker) use(ctx *callCtx, v Value) *Term {
	t := k.in.readerTerm(ctx.st, v)
	r := t
	if k.whole(ctx.st, t) {
		r = wholeInput
	}
	k.consume(ctx.st, k.in.p.pos(ctx.pos), v, t)
	return r
}

func (k *sourceChecker) run(name string, entryFn string, arg func(st *State) Value) {
	in := k.in
	in.root = name
	fn := in.p.fn("parse", entryFn)
	if fn == nil {
		k.rep.res.Err = "parse." + entryFn + " is missing"
		return
	}
	st, ci, err := in.newContext(newState())
	if err != nil {
		k.rep.res.Err = err.Error()
		return
	}
	k.tees, k.calls = map[*Term]tee{}, 0
	in.noMerge = true
	defer func() { in.noMerge = false }()
	newReader := func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "bytesReader", 0, 0, ctx.str(0), Sym(KOther, "reader of", 0, 0)), nonnil: true})
	}
	defer overrideModels(map[string]modelFn{
		"bytes.NewReader":   newReader,
		"strings.NewReader": newReader,
		"io.TeeReader": func(ctx *callCtx) []CallOut {
			t := rawApp(KOther, "tee", 0, 0, in.readerTerm(ctx.st, ctx.arg(0)), Sym(KOther, "tee of", 0, 0))
			k.tees[t] = tee{ctx.arg(0), ctx.arg(1)}
			return ctx.one(&OpaqueV{typ: ctx.res(0), t: t, nonnil: true})
		},
		"golang.org/x/crypto/openpgp/armor.Decode": func(ctx *callCtx) []CallOut {
			t := k.use(ctx, ctx.arg(0))
			if isApp(t, "bytesReader") {
				t = t.args[0]
			}
			bt := derefType(ctx.res(0))
			return k.cond(ctx, rawApp(KBool, "armor.decodes", 0, 0, t), func(st *State) Value {
				s, _ := in.zero(bt).(*StructV)
				i := fieldIndex(bt, "Body")
				if s == nil || i < 0 {
					return TupleV{in.havocNamed2(ctx.res(0)), NilV{}}
				}
				s = &StructV{fields: append([]Value(nil), s.fields...)}
				s.fields[i] = &OpaqueV{typ: bt.Underlying().(*types.Struct).Field(i).Type(), t: rawApp(KOther, "armor.body", 0, 0, t), nonnil: true}
				return TupleV{&PtrV{obj: st.alloc(s)}, NilV{}}
			}, func(*State) Value { return TupleV{NilV{}, in.libErr2("armor.Decode", "io.EOF")} })
		},
	})()
	save := in.hooks
	in.hooks = map[string]hookFn{}
	for n, h := range save {
		in.hooks[n] = h
	}
	defer func() { in.hooks = save }()
	in.hooks["armtext.Get"] = func(in *Interp, ctx *callCtx) ([]CallOut, bool) {
		if ctx.sig() == nil || ctx.sig().Results().Len() != 2 || len(ctx.args) != 1 {
			return nil, false
		}
		k.calls++
		t := k.use(ctx, ctx.arg(0))
		rt := ctx.res(0)
		return k.cond(ctx, rawApp(KBool, "armor.found", 0, 0, t), func(st *State) Value {
			b := &BytesV{t: rawApp(KStr, "armor.text", 0, 0, t)}
			var v Value = b
			switch {
			case types.Identical(rt.Underlying(), types.Typ[types.String]):
				v = b.t
			case ptrToNamed(rt, "bytes.Buffer"):
				v = &PtrV{obj: st.alloc(b)}
			case types.IsInterface(rt), ptrToNamed(rt, "bytes.Reader"), ptrToNamed(rt, "strings.Reader"):
				v = &OpaqueV{typ: rt, t: rawApp(KOther, "bytesReader", 0, 0, b.t, Sym(KOther, "reader of", 0, 0)), nonnil: true}
			}
			return TupleV{v, NilV{}}
		}, func(*State) Value { return TupleV{NilV{}, in.libErr2("armtext.Get", "io.EOF")} }), true
	}
	in.hooks["parse/tags.NewPackets"] = func(in *Interp, ctx *callCtx) ([]CallOut, bool) {
		var rd, cx Value = NilV{}, NilV{}
		for i := 0; ctx.sig() != nil && i < ctx.sig().Params().Len() && i < len(ctx.args); i++ {
			t := ctx.sig().Params().At(i).Type()
			if ptrToNamed(t, modPath+"/parse/context.Context") {
				cx = ctx.st.resolve(ctx.args[i])
			} else if types.IsInterface(t) {
				rd = ctx.args[i]
			}
		}
		var t *Term
		if isNilV(ctx.st.resolve(rd)) {
			t = NamedSym(KOther, "nil", 0, 0)
		} else {
			t = k.use(ctx, rd)
		}
		same := Bool(false)
		if p, ok := cx.(*PtrV); ok {
			same = Bool(*p == *ci.ptr)
		}
		ctx.st.event("packets", in.p.pos(ctx.pos), t, same)
		if ctx.sig() == nil || ctx.sig().Results().Len() != 2 {
			return nil, false
		}
		return ctx.one(TupleV{&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "packets of", 0, 0, t), nonnil: true}, NilV{}}), true
	}
	entry := st.facts
	var args []Value
	for i := 0; i < fn.Signature.Params().Len(); i++ {
		if ptrToNamed(fn.Signature.Params().At(i).Type(), modPath+"/parse/context.Context") {
			args = append(args, ci.ptr)
		} else {
			args = append(args, arg(st))
		}
	}
	outs := in.callRoot(fn, args, st)
	for _, o := range outs {
		k.rep.stat("outcomes", 1)
		k.outcome(o, entry, entryFn)
	}
	if k.calls == 0 && k.base != nil {
		k.rep.add(finding{Props: armorProps, Kind: "undecided", Fn: "parse." + entryFn, Root: in.root, Detail: "armor is not looked for by armtext.Get", Und: true})
		for i := range k.rep.res.Findings {
			if k.rep.res.Findings[i].Root == in.root {
				k.rep.res.Findings[i].Und = true
			}
		}
	}
}

func (k *sourceChecker) cond(ctx *callCtx, c *Term, yes, no func(st *State) Value) []CallOut {
	a, b := ctx.st.clone(), ctx.st
	var o []CallOut
	if a.assume(c) {
		o = append(o, CallOut{a, yes(a)})
	}
	if b.assume(mkNot(c)) {
		o = append(o, CallOut{b, no(b)})
	}
	return o
}

func (k *sourceChecker) outcome(o CallOut, entry *Facts, fn string) {
	fn = "parse." + fn
	tv, ok := o.v.(TupleV)
	if !ok || len(tv) != 2 {
		k.finding("undecided", "the result is not a parser and an error", entry, o.st, fn, true)
		return
	}
	isErr := !isNilV(o.st.resolve(tv[1]))
	var ev *Event
	readFail := false
	for _, e := range o.st.eventList() {
		if e.kind == "packets" {
			ev = e
		}
	}
	lits, _ := o.st.facts.litsSince(entry)
	for _, l := range lits {
		if strings.Contains(l.String(), "stream.ok") && strings.HasPrefix(l.String(), "!") {
			readFail = true
		}
	}
	if k.base == nil {
		if !isErr {
			k.finding("missing input accepted", "a parser is made without an input", entry, o.st, fn, false)
		}
		return
	}
	// only the armor decides what happens
	for _, l := range lits {
		if mentions(l, map[*Term]bool{k.base: true}) && !strings.Contains(l.String(), "armor.") && !strings.Contains(l.String(), "stream.ok") {
			if !unknownLib(l, 0) {
				k.finding("undecided", "depends on "+clip(l.String(), 200), entry, o.st, fn, true)
			}
			return
		}
	}
	opt := optBit(optArmor)
	found := rawApp(KBool, "armor.found", 0, 0, wholeInput)
	text := rawApp(KStr, "armor.text", 0, 0, wholeInput)
	dec := rawApp(KBool, "armor.decodes", 0, 0, text)
	body := rawApp(KOther, "armor.body", 0, 0, text)
	var split func(f *Facts, cs []*Term)
	split = func(f *Facts, cs []*Term) {
		if len(cs) > 0 {
			for _, c := range []*Term{cs[0], mkNot(cs[0])} {
				if g := f.assume(c); g != nil {
					split(g, cs[1:])
				}
			}
			return
		}
		s2 := o.st.clone()
		s2.facts = f
		k.rep.stat("cases", 1)
		armored := f.decide(found) == dTrue && f.decide(dec) == dTrue
		only := f.decide(opt) == dTrue
		if !armored && only {
			if !isErr {
				k.finding("input without armor accepted", "a parser is made although armor is required and there is none", entry, s2, fn, false)
			}
			return
		}
		if isErr {
			if !readFail {
				k.finding("input rejected", "no parser is made for an input", entry, s2, fn, false)
			}
			return
		}
		if ev == nil {
			k.finding("undecided", "no packets are read", entry, s2, fn, true)
			return
		}
		want := wholeInput
		if armored {
			want = body
		}
		got := f.simplify(termOf(ev.args[0]))
		if got != want {
			k.finding("wrong source of packets", clip(got.String(), 300)+" instead of "+want.String(), entry, s2, fn, unknownLib(got, 0) || strings.Contains(got.String(), "call "))
		}
		if termOf(ev.args[1]) != Bool(true) {
			k.finding("wrong options", "the packets are not read with the options given", entry, s2, fn, false)
		}
	}
	split(o.st.facts, []*Term{opt, found, dec})
}

func armorJob(in *Interp, rep *reporter) {
	k := &armorChecker{in, rep}
	for n := 0; n <= 4; n++ {
		k.lines(n)
	}
	s := &sourceChecker{armorChecker: *k}
	rd := inputReader(in)
	s.base = in.readerTerm(newState(), rd)
	s.run("parser for a reader", "New", func(*State) Value { return rd })
	data := bodyBuf()
	s.all = mkBufStr(data.buf, data.off, data.ln)
	if in.p.fn("parse", "NewBytes") != nil {
		s.run("parser for octets", "NewBytes", func(*State) Value { return data })
	}
	s.base, s.all = nil, nil
	s.run("parser for no reader", "New", func(*State) Value { return NilV{} })
}

func init() { otherJobs["armor"] = armorJob }
