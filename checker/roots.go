package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Analysis roots: entry points analysed for every input.

type Env struct {
	p  *Program
	in *Interp
}

func (in *Interp) initPackages() error {
	in.initing = true
	st := newState()
	for _, sp := range in.p.order {
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		in.root = "init " + sp.Pkg.Path()
		outs := in.call(fn, nil, nil, st, nil, 0, token.NoPos)
		if len(outs) != 1 {
			return fmt.Errorf("initialisation of %s has %d outcomes", sp.Pkg.Path(), len(outs))
		}
		st = outs[0].st
	}
	for k, v := range st.heap {
		baseHeap[k] = v
	}
	in.initing = false
	return nil
}

func (in *Interp) callRoot(fn *ssa.Function, args []Value, st *State) []CallOut {
	return in.outsOf(in.call(fn, args, nil, st, nil, 0, fn.Pos()))
}

// callAny calls a function by name through the hooks and models.
func (in *Interp) callMethod(recv Value, name string, args []Value, st *State) []CallOut {
	v := force(st, recv)
	iv, ok := v.(*IfaceV)
	if !ok {
		return nil
	}
	fn := in.findMethod(iv.typ, nil, name)
	if fn == nil {
		return nil
	}
	return in.callRoot(fn, append([]Value{iv.val}, args...), st)
}

func fieldIndex(t types.Type, name string) int {
	s, ok := derefType(t).Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

type cxtInfo struct {
	ptr              *PtrV
	mode, sigT, keyT int
	mode0            *Term
	sig0, key0       *Term
	sigV, keyV       Value
	modeInit         *Term
}

func (in *Interp) namedType(pkg, name string) types.Type {
	sp := in.p.pkgs[modPath+"/"+pkg]
	if sp == nil {
		sp = in.p.all[pkg]
	}
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

var optConsts = [...]string{"ARMOR", "CERT", "DEBUG", "GDUMP", "INTEGER", "LITERAL", "MARKER", "PRIVATE", "UTC"}

const (
	optArmor   = 1
	optCert    = 2
	optDebug   = 3
	optGDump   = 4
	optInteger = 5
	optLiteral = 6
	optMarker  = 7
	optPrivate = 8
	optUTC     = 9
)

func (in *Interp) constInt(pkg, name string) *Term {
	sp := in.p.pkgs[modPath+"/"+pkg]
	if sp == nil {
		return nil
	}
	if c, ok := sp.Members[name].(*ssa.NamedConst); ok {
		if n, ok := constant.Int64Val(constant.ToInt(c.Value.Value)); ok {
			return Int(n)
		}
	}
	return nil
}

// newContext builds a context with every combination of options and an
// arbitrary history.
func (in *Interp) newContext(st *State) (*State, *cxtInfo, error) {
	newFn := in.p.fn("parse/context", "New")
	setFn := in.p.fn("parse/context", "Set")
	if newFn == nil || setFn == nil {
		return nil, nil, fmt.Errorf("parse/context.New or Set is missing")
	}
	opts := &ListV{}
	for code := 1; code <= nOpts; code++ {
		cv := in.constInt("parse/context", optConsts[code-1])
		if cv == nil {
			return nil, nil, fmt.Errorf("the option %s is missing", optConsts[code-1])
		}
		outs := in.callRoot(setFn, []Value{cv, optBit(code)}, st)
		if len(outs) != 1 {
			return nil, nil, fmt.Errorf("context.Set has %d outcomes", len(outs))
		}
		st = outs[0].st
		opts.segs = append(opts.segs, Seg{v: outs[0].v})
	}
	outs := in.callRoot(newFn, []Value{opts}, st)
	if len(outs) != 1 {
		return nil, nil, fmt.Errorf("context.New has %d outcomes", len(outs))
	}
	st = outs[0].st
	p, ok := outs[0].v.(*PtrV)
	if !ok {
		return nil, nil, fmt.Errorf("context.New does not return an object")
	}
	ct := in.namedType("parse/context", "Context")
	ci := &cxtInfo{ptr: p, mode: fieldIndex(ct, "SymAlgMode"), sigT: fieldIndex(ct, "SigCreationTime"), keyT: fieldIndex(ct, "KeyCreationTime")}
	if ci.mode < 0 || ci.sigT < 0 || ci.keyT < 0 {
		return nil, nil, fmt.Errorf("the context has lost its session fields")
	}
	if v, ok := st.load(&PtrV{obj: p.obj, path: fmt.Sprintf(".%d", ci.mode)}); ok {
		ci.modeInit, _ = v.(*Term)
	}
	ci.mode0 = NamedSym(KInt, "mode0", 0, 2)
	ci.sig0 = NamedSym(KOther, "sigtime0", 0, 0)
	ci.key0 = NamedSym(KOther, "keytime0", 0, 0)
	ci.sigV, ci.keyV = in.timeValue(ci.sig0), in.timeValue(ci.key0)
	st.store(&PtrV{obj: p.obj, path: fmt.Sprintf(".%d", ci.mode)}, ci.mode0)
	st.store(&PtrV{obj: p.obj, path: fmt.Sprintf(".%d", ci.sigT)}, ci.sigV)
	st.store(&PtrV{obj: p.obj, path: fmt.Sprintf(".%d", ci.keyT)}, ci.keyV)
	return st, ci, nil
}

type rootRun struct {
	name   string
	tag    int
	sub    int // subpacket type, or -1
	parser *ssa.Function
	body   *BufV
	cxt    *cxtInfo
	outs   []CallOut
	entry  *Facts
	st0    *State
	// for roots that are not the parser of one packet type
	spec  func(s *spec) []sKid
	list  func(in *Interp, st *State, v Value) Value // the list of items of a result
	plain bool                                       // session state afterwards not compared
	props []string
}

var theBody *BufV

// fix: the body has the length given, if one is given.
func (in *Interp) fix(st *State, b *BufV) bool {
	return in.fixLen < 0 || st.assume(mkEQ0(AddC(b.ln, -int64(in.fixLen))))
}

func bodyBuf() *BufV {
	if theBody == nil {
		theBody = newBuffer("body")
	}
	return theBody
}

// partition: a class of bodies analysed separately (trace partitioning); the
// classes of one packet type cover all bodies.
type partition struct {
	name  string
	conds func(b *BufV) []*Term
}

func setOfInts(ns ...int) byteSet {
	var s byteSet
	for _, n := range ns {
		s.add(n)
	}
	return s
}

func setRange(lo, hi int) byteSet {
	var s byteSet
	for i := lo; i <= hi; i++ {
		s.add(i)
	}
	return s
}

var pubClasses = []struct {
	name string
	set  byteSet
}{
	{"RSA", setOfInts(1, 2, 3)},
	{"Elgamal", setOfInts(16, 20)},
	{"DSA", setOfInts(17)},
	{"ECDH", setOfInts(18)},
	{"ECDSA", setOfInts(19)},
	{"EdDSA", setOfInts(22)},
	{"other algorithm", setOfInts(1, 2, 3, 16, 17, 18, 19, 20, 22).not()},
}

// versionParts splits the bodies by the version octet and the octet naming the
// public-key algorithm (at[v], absent: not split further).
func versionParts(vers []int, at map[int]int) []*partition {
	var out []*partition
	out = append(out, &partition{"empty", func(b *BufV) []*Term { return []*Term{mkEQ0(b.ln)} }})
	rest := setOfInts(vers...).not()
	out = append(out, &partition{"other version", func(b *BufV) []*Term {
		return []*Term{mkGE0(AddC(b.ln, -1)), mkInSet(ByteAt(b.buf, Int(0)), rest)}
	}})
	for _, v := range vers {
		v := v
		o, ok := at[v]
		vc := func(b *BufV) []*Term {
			return []*Term{mkGE0(AddC(b.ln, -1)), mkInSet(ByteAt(b.buf, Int(0)), setOfInts(v))}
		}
		if !ok {
			out = append(out, &partition{fmt.Sprintf("version %d", v), vc})
			continue
		}
		out = append(out, &partition{fmt.Sprintf("version %d, cut before the algorithm", v), func(b *BufV) []*Term {
			return append(vc(b), mkGE0(Sub(Int(int64(o)), b.ln)))
		}})
		for _, pc := range pubClasses {
			pc := pc
			out = append(out, &partition{fmt.Sprintf("version %d, %s", v, pc.name), func(b *BufV) []*Term {
				return append(vc(b), mkGE0(AddC(b.ln, int64(-o-1))), mkInSet(ByteAt(b.buf, Int(int64(o))), pc.set))
			}})
		}
	}
	return out
}

// tagParts: the classes of bodies of a packet type.
func tagParts(tag int) []*partition {
	switch tag {
	case 1:
		return versionParts([]int{2, 3}, map[int]int{2: 9, 3: 9})
	case 2:
		return versionParts([]int{3, 4, 5}, map[int]int{3: 15, 4: 2, 5: 2})
	case 5, 7:
		return versionParts([]int{3, 4, 5}, map[int]int{3: 7, 4: 5, 5: 5})
	}
	return []*partition{nil}
}

// rootTag analyses the parser of one packet type on every body.
func (in *Interp) rootTag(tag int, part *partition) (*rootRun, error) {
	in.root = fmt.Sprintf("packet tag %d", tag)
	if part != nil {
		in.root += " (" + part.name + ")"
	}
	st, ci, err := in.newContext(newState())
	if err != nil {
		return nil, err
	}
	fn := in.p.fn("parse/tags", "NewTag")
	if fn == nil {
		return nil, fmt.Errorf("parse/tags.NewTag is missing")
	}
	b := bodyBuf()
	if !in.fix(st, b) {
		return nil, fmt.Errorf("%s is empty", in.root)
	}
	if part != nil {
		for _, c := range part.conds(b) {
			if !st.assume(c) {
				return nil, fmt.Errorf("%s is empty", in.root)
			}
		}
	}
	r := &rootRun{name: in.root, tag: tag, sub: -1, body: b, cxt: ci, entry: st.facts, st0: st.clone()}
	outs := in.callRoot(fn, in.newTagArgs(st, fn.Signature, tag, b, ci.ptr), st)
	for _, o := range outs {
		if iv, ok := force(o.st, o.v).(*IfaceV); ok {
			r.parser = in.findMethod(iv.typ, nil, "Parse")
		}
		rs := in.callMethod(o.v, "Parse", nil, o.st)
		r.outs = append(r.outs, rs...)
	}
	return r, nil
}

// rootSub analyses the parser of one subpacket type on every body.
func (in *Interp) rootSub(tag, sub int) (*rootRun, error) {
	in.root = fmt.Sprintf("subpacket %d of tag %d", sub, tag)
	st, ci, err := in.newContext(newState())
	if err != nil {
		return nil, err
	}
	fn := in.p.fn("parse/tags", "NewSubs")
	if fn == nil {
		return nil, fmt.Errorf("parse/tags.NewSubs is missing")
	}
	b := bodyBuf()
	if !in.fix(st, b) {
		return nil, fmt.Errorf("%s is empty", in.root)
	}
	r := &rootRun{name: in.root, tag: tag, sub: sub, body: b, cxt: ci, entry: st.facts, st0: st.clone()}
	outs := in.callRoot(fn, in.newSubArgs(st, fn.Signature, tag, sub, b, ci.ptr), st)
	for _, o := range outs {
		if iv, ok := force(o.st, o.v).(*IfaceV); ok {
			r.parser = in.findMethod(iv.typ, nil, "Parse")
		}
		rs := in.callMethod(o.v, "Parse", nil, o.st)
		r.outs = append(r.outs, rs...)
	}
	return r, nil
}

// ---------- printing ----------

func (in *Interp) showItem(st *State, v Value, ind string, sb *strings.Builder, seen int) {
	v = st.resolve(v)
	switch x := v.(type) {
	case *GateV:
		fmt.Fprintf(sb, "%s?[%s]\n", ind, x.c)
		in.showItem(st, x.a, ind+"  T ", sb, seen)
		in.showItem(st, x.b, ind+"  F ", sb, seen)
	case NilV:
		fmt.Fprintf(sb, "%snil\n", ind)
	case *PtrV:
		s, ok := mustLoad(st, x).(*StructV)
		if !ok || len(s.fields) != 5 {
			fmt.Fprintf(sb, "%sobj%d\n", ind, x.obj)
			return
		}
		fmt.Fprintf(sb, "%s%v", ind, s.fields[0])
		if t, ok := s.fields[1].(*Term); !ok || t != Str("") {
			fmt.Fprintf(sb, " = %v", s.fields[1])
		}
		if t, ok := s.fields[3].(*Term); !ok || t != Str("") {
			fmt.Fprintf(sb, " NOTE %v", s.fields[3])
		}
		if t, ok := s.fields[2].(*Term); !ok || t != Str("") {
			fmt.Fprintf(sb, " DUMP %v", s.fields[2])
		}
		sb.WriteString("\n")
		in.showList(st, s.fields[4], ind+"  ", sb, seen)
	default:
		fmt.Fprintf(sb, "%s%s\n", ind, showVal(v))
	}
}

func showVal(v Value) string {
	switch x := v.(type) {
	case *OpaqueV:
		return "<" + x.t.String() + ">"
	case *Term:
		return x.String()
	case *ErrV:
		return "error(" + x.name + ")"
	case NilV:
		return "nil"
	}
	return fmt.Sprintf("%T %s", v, clip(vkey(v), 100))
}

func (in *Interp) showList(st *State, v Value, ind string, sb *strings.Builder, seen int) {
	v = st.resolve(v)
	switch x := v.(type) {
	case *ListV:
		for _, s := range x.segs {
			switch s.kind {
			case SegSingle:
				in.showItem(st, s.v, ind, sb, seen)
			case SegOpt:
				fmt.Fprintf(sb, "%sOPT [%s]\n", ind, s.cond)
				in.showItem(st, s.v, ind+"  ", sb, seen)
			case SegStar:
				fmt.Fprintf(sb, "%sSTAR hi=%s\n", ind, s.star.hi)
				for _, a := range s.star.alts {
					fmt.Fprintf(sb, "%s  ALT [%s]\n", ind, a.cond)
					for _, y := range a.segs {
						in.showList(a.st, &ListV{segs: []Seg{y}}, ind+"    ", sb, seen)
					}
				}
			default:
				fmt.Fprintf(sb, "%sACC\n", ind)
			}
		}
	case NilV:
	default:
		fmt.Fprintf(sb, "%s%s\n", ind, showVal(v))
	}
}

func (in *Interp) showRun(r *rootRun) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "== %s: %d outcomes\n", r.name, len(r.outs))
	for i, o := range r.outs {
		lits, _ := o.st.facts.litsSince(r.entry)
		var ls []string
		for _, l := range lits {
			ls = append(ls, l.String())
		}
		fmt.Fprintf(&sb, "-- %d when %s\n", i, clip(strings.Join(ls, " & "), 1500))
		tv, ok := o.v.(TupleV)
		if ok && len(tv) == 2 {
			fmt.Fprintf(&sb, "   err=%s\n", showVal(tv[1]))
			if isNilV(tv[1]) {
				in.showItem(o.st, tv[0], "   ", &sb, 0)
			}
		} else {
			fmt.Fprintf(&sb, "   %s\n", showVal(o.v))
		}
	}
	return sb.String()
}

func (in *Interp) showSide() string {
	var sb strings.Builder
	var ks []string
	for k, o := range in.obl {
		if o.failed > 0 {
			ks = append(ks, fmt.Sprintf("OBLIGATION %s at %s in %s failed %d/%d: %s [%s] root %s", o.kind, o.pos, o.fn, o.failed, o.n, o.detail, o.stack, o.root))
		}
		_ = k
	}
	for _, o := range in.und {
		ks = append(ks, fmt.Sprintf("UNDECIDED %s at %s in %s root %s [%s]", o.detail, o.pos, o.fn, o.root, o.stack))
	}
	for _, o := range in.writes {
		ks = append(ks, fmt.Sprintf("WRITE %s %s at %s in %s", o.kind, o.detail, o.pos, o.fn))
	}
	for _, o := range in.loopSeen {
		if !o.bounded {
			ks = append(ks, fmt.Sprintf("LOOP unbounded at %s in %s: %s", o.pos, o.fn, o.why))
		}
	}
	for k, v := range in.extUnknown {
		ks = append(ks, "EXT unknown "+k+" at "+v)
	}
	sort.Strings(ks)
	for _, k := range ks {
		sb.WriteString(k + "\n")
	}
	return sb.String()
}
