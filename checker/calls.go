package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callCtx is one call being evaluated.
type callCtx struct {
	in      *Interp
	fr      *Frame
	st      *State
	cc      *ssa.CallCommon
	fnv     Value
	args    []Value // for invoke: args[0] is the receiver
	pos     token.Pos
	isDefer bool
	name    string
}

func (in *Interp) mkCall(c *Config, cc *ssa.CallCommon, pos token.Pos) *callCtx {
	ctx := &callCtx{in: in, fr: c.fr, st: c.st, cc: cc, pos: pos}
	if cc.IsInvoke() {
		ctx.args = append(ctx.args, in.val(c, cc.Value))
	} else {
		ctx.fnv = in.val(c, cc.Value)
	}
	for _, a := range cc.Args {
		ctx.args = append(ctx.args, in.val(c, a))
	}
	return ctx
}

// dispatchSplit evaluates a deferred call, splitting where needed.
func (in *Interp) dispatchSplit(ctx *callCtx) []CallOut {
	var res []CallOut
	work := []*State{ctx.st}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		c2 := *ctx
		c2.st = s.clone()
		outs, sp := func() (o []CallOut, sp *splitReq) {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case splitReq:
						sp = &x
						return
					case abortPath:
						return
					}
					panic(r)
				}
			}()
			return in.dispatch(&c2), nil
		}()
		if sp != nil {
			a, b := s.clone(), s.clone()
			if b.assume(mkNot(sp.c)) {
				work = append(work, b)
			}
			if a.assume(sp.c) {
				work = append(work, a)
			}
			continue
		}
		res = append(res, outs...)
	}
	return res
}

func (in *Interp) dispatch(ctx *callCtx) []CallOut {
	if ctx.cc != nil && ctx.cc.IsInvoke() {
		return in.invoke(ctx)
	}
	fv := force(ctx.st, ctx.fnv)
	switch f := fv.(type) {
	case *FuncV:
		return in.callFn(ctx, f.fn, f.binds)
	case *ModelFuncV:
		if strings.HasPrefix(f.name, "builtin.") {
			return in.builtin(ctx, f.name[8:])
		}
		return in.callModelFunc(ctx, f)
	case NilV:
		in.oblige("nil function call", ctx.fr, ctx.pos, false, ctx.st, func() string { return "call of a nil function" })
		return nil
	case *OpaqueV:
		if !f.nonnil {
			ok := ctx.st.decide(nilTerm(f)) == dFalse
			in.oblige("nil function call", ctx.fr, ctx.pos, ok, ctx.st, func() string { return "call of " + f.t.String() + ", which may be nil" })
		}
		ctx.name = "dynamic " + f.t.String()
		if unknownLib(f.t, 1) {
			in.undecided(ctx.fr, ctx.pos, "call of an unknown function value")
		}
		return in.havocCall(ctx, ctx.name)
	}
	in.undecided(ctx.fr, ctx.pos, fmt.Sprintf("call of a function value of unknown shape (%T)", fv))
	return in.havocCall(ctx, "unknown")
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

func (in *Interp) isRepoFn(fn *ssa.Function) bool {
	return len(fn.Blocks) > 0 && isRepoPath(fnPkgPath(fn))
}

const maxDepth = 60

func onStack(s *stackNode, fn *ssa.Function) int {
	n := 0
	for x := s; x != nil; x = x.up {
		if x.fn == fn {
			n++
		}
	}
	return n
}

func (in *Interp) callFn(ctx *callCtx, fn *ssa.Function, binds []Value) []CallOut {
	name := in.fnName(fn)
	ctx.name = name
	if h := in.hooks[name]; h != nil {
		if outs, ok := h(in, ctx); ok {
			return outs
		}
	}
	if in.isRepoFn(fn) || in.wrapperOfRepo(fn) {
		if outs, ok := in.nestedParse(ctx, fn); ok {
			return outs
		}
		if in.recSummary(fn, ctx) {
			in.undecided(ctx.fr, ctx.pos, "recursion of "+name)
			return in.havocCall(ctx, "rec "+name)
		}
		if ctx.fr.depth >= maxDepth {
			in.undecided(ctx.fr, ctx.pos, "call depth bound reached at "+name)
			return nil
		}
		return in.outsOf(in.call(fn, ctx.args, binds, ctx.st, ctx.fr.stack, ctx.fr.depth+1, ctx.pos))
	}
	if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" {
		return []CallOut{{ctx.st, TupleV{}}}
	}
	return in.external(ctx, name)
}

func (in *Interp) wrapperOfRepo(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 || fn.Synthetic == "" {
		return false
	}
	if n := fn.Name(); strings.HasSuffix(n, "$thunk") || strings.HasSuffix(n, "$bound") {
		return true // a method expression or value: calls the method
	}
	if fn.Signature.Recv() == nil {
		return false
	}
	p := namedPath(derefType(fn.Signature.Recv().Type()))
	return isRepoPath(p) || strings.HasPrefix(p, modPath)
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// recSummary: recursive calls are summarised by an uninterpreted result.
func (in *Interp) recSummary(fn *ssa.Function, ctx *callCtx) bool {
	n := onStack(ctx.fr.stack, fn)
	if n == 0 {
		return false
	}
	if in.recAll {
		return false
	}
	if in.recOK != nil && in.recOK[in.fnName(fn)] {
		return false
	}
	if n >= 1 && in.recursive(fn) {
		k := in.fnName(fn)
		in.recSeen[k] = in.p.pos(ctx.pos)
		return true
	}
	return n > 4
}

// recursive: fn calls itself directly in its own body or a closure of it.
func (in *Interp) recursive(fn *ssa.Function) bool { return true }

func (in *Interp) outsOf(os []Outcome) []CallOut {
	var r []CallOut
	for _, o := range os {
		switch len(o.rets) {
		case 0:
			r = append(r, CallOut{o.st, TupleV{}})
		case 1:
			r = append(r, CallOut{o.st, o.rets[0]})
		default:
			r = append(r, CallOut{o.st, TupleV(o.rets)})
		}
	}
	return r
}

func (in *Interp) invoke(ctx *callCtx) []CallOut {
	recv := force(ctx.st, ctx.args[0])
	ctx.args = append([]Value(nil), ctx.args...)
	ctx.args[0] = recv
	it := ctx.cc.Value.Type()
	m := ctx.cc.Method
	switch x := recv.(type) {
	case NilV:
		in.oblige("nil dereference", ctx.fr, ctx.pos, false, ctx.st, func() string { return "method " + m.Name() + " called on a nil interface" })
		return nil
	case *IfaceV:
		in.oblige("nil dereference", ctx.fr, ctx.pos, true, nil, nil)
		ctx.args[0] = x.val
		fn := in.findMethod(x.typ, m.Pkg(), m.Name())
		if fn == nil {
			in.undecided(ctx.fr, ctx.pos, "method "+m.Name()+" not found")
			return nil
		}
		return in.callFn(ctx, fn, nil)
	case *ErrV:
		if m.Name() == "Error" {
			return []CallOut{{ctx.st, NamedSym(KStr, fmt.Sprintf("errmsg%d", x.id), 0, 0)}}
		}
	case *OpaqueV:
		if unknownLib(x.t, 1) {
			in.undecided(ctx.fr, ctx.pos, "method "+m.Name()+" called on an unknown value")
		}
		if contractObj(x) != "" && m.Name() == "Parse" && ctx.sig().Results().Len() == 2 {
			in.oblige("nil dereference", ctx.fr, ctx.pos, true, nil, nil)
			return in.contractParse(ctx, x, ctx.sig())
		}
		if !x.nonnil {
			ok := ctx.st.decide(nilTerm(x)) == dFalse
			in.oblige("nil dereference", ctx.fr, ctx.pos, ok, ctx.st, func() string {
				return "method " + m.Name() + " called on " + x.t.String() + ", which may be nil"
			})
			if !ok && !ctx.st.assume(mkNot(nilTerm(x))) {
				return nil
			}
		} else {
			in.oblige("nil dereference", ctx.fr, ctx.pos, true, nil, nil)
		}
	}
	name := strings.ReplaceAll("invoke "+types.TypeString(it, nil)+"."+m.Name(), modPath+"/", "")
	ctx.name = name
	if h := in.hooks[name]; h != nil {
		if outs, ok := h(in, ctx); ok {
			return outs
		}
	}
	return in.external(ctx, name)
}

func (ctx *callCtx) sig() *types.Signature {
	if ctx.cc == nil {
		return nil
	}
	return ctx.cc.Signature()
}

// toTerm gives a term standing for v.
func (in *Interp) toTerm(st *State, v Value) *Term {
	v = st.resolve(v)
	switch x := v.(type) {
	case *Term:
		return x
	case NilV:
		return NamedSym(KOther, "nil", 0, 0)
	case *BufV, *BytesV, *BSliceV, *RunesV:
		return in.strOf(st, v)
	case *OpaqueV:
		return x.t
	case *PtrV:
		return NamedSym(KOther, fmt.Sprintf("&obj%d%s", x.obj, x.path), 0, 0)
	case *ErrV:
		return NamedSym(KOther, fmt.Sprintf("err%d", x.id), 0, 0)
	case *IfaceV:
		return in.toTerm(st, x.val)
	case *FuncV:
		return NamedSym(KOther, "func "+in.fnName(x.fn), 0, 0)
	case *StructV:
		var a []*Term
		for _, f := range x.fields {
			a = append(a, in.toTerm(st, f))
		}
		return rawApp(KOther, "struct", 0, 0, a...)
	case *ListV:
		var a []*Term
		for _, s := range x.segs {
			if s.kind != SegSingle {
				return Sym(KOther, "list", 0, 0)
			}
			a = append(a, in.toTerm(st, s.v))
		}
		return rawApp(KOther, "list", 0, 0, a...)
	case *SliceV:
		return in.toTerm(st, st.get(x.obj))
	case *GateV:
		return rawApp(KOther, "gate", 0, 0, x.c, in.toTerm(st, x.a), in.toTerm(st, x.b))
	}
	return NamedSym(KOther, vkey(v), 0, 0)
}

func (in *Interp) argTerms(ctx *callCtx) []*Term {
	var a []*Term
	for _, v := range ctx.args {
		a = append(a, in.toTerm(ctx.st, v))
	}
	return a
}

// havocCall: an arbitrary result, a function of the arguments.
func (in *Interp) havocCall(ctx *callCtx, name string) []CallOut {
	sig := ctx.sig()
	if sig == nil || sig.Results().Len() == 0 {
		return []CallOut{{ctx.st, TupleV{}}}
	}
	t := rawApp(KOther, "call "+name, 0, 0, in.argTerms(ctx)...)
	return in.havocResult(ctx, name, t)
}

var errType = types.Universe.Lookup("error").Type()

// havocResult builds the results from term t; an error result forks.
func (in *Interp) havocResult(ctx *callCtx, name string, t *Term) []CallOut {
	res := ctx.sig().Results()
	n := res.Len()
	if n == 0 {
		return []CallOut{{ctx.st, TupleV{}}}
	}
	hasErr := types.Identical(res.At(n-1).Type(), errType)
	mk := func(ok bool) Value {
		var tv TupleV
		for i := 0; i < n; i++ {
			if i == n-1 && hasErr {
				if ok {
					tv = append(tv, NilV{})
				} else {
					tv = append(tv, in.libErr(name))
				}
				continue
			}
			if !ok {
				tv = append(tv, in.zero(res.At(i).Type()))
				continue
			}
			rt := t
			if n > 1 && !(n == 2 && hasErr) {
				rt = rawApp(KOther, fmt.Sprintf("res%d", i), 0, 0, t)
			}
			tv = append(tv, in.havocNamed(res.At(i).Type(), rt, hasErr))
		}
		if n == 1 {
			return tv[0]
		}
		return tv
	}
	if !hasErr {
		return []CallOut{{ctx.st, mk(true)}}
	}
	cond := Sym(KBool, "ok "+name, 0, 0)
	st2 := ctx.st.clone()
	ctx.st.assume(cond)
	st2.assume(mkNot(cond))
	if in.sysEvents {
		st2.event("fail", in.p.pos(ctx.pos), Str(name))
	}
	return []CallOut{{ctx.st, mk(true)}, {st2, mk(false)}}
}

// libErr: some error of a library call; its chain is not known.
func (in *Interp) libErr(name string) *ErrV {
	return in.newErr("error of "+name, NamedSym(KOther, "open "+name, 0, 0))
}

// ---------- builtins ----------

func (in *Interp) builtin(ctx *callCtx, name string) []CallOut {
	one := func(v Value) []CallOut { return []CallOut{{ctx.st, v}} }
	st := ctx.st
	switch name {
	case "len":
		n := in.lenOf(st, ctx.args[0])
		if n == nil {
			in.undecided(ctx.fr, ctx.pos, "length of a value of unknown shape")
			n = Sym(KInt, "len", 0, maxBuf)
		}
		return one(n)
	case "cap":
		n := in.lenOf(st, ctx.args[0])
		s := Sym(KInt, "cap", 0, maxBuf)
		if n != nil {
			st.assume(mkGE0(Sub(s, n)))
		}
		return one(s)
	case "append":
		return one(in.doAppend(ctx))
	case "copy":
		dst, src := force(st, ctx.args[0]), force(st, ctx.args[1])
		a, b := in.lenOf(st, dst), in.lenOf(st, src)
		if a == nil || b == nil {
			return one(Sym(KInt, "copied", 0, maxBuf))
		}
		in.writeBytes(ctx, dst, src)
		switch st.decide(mkGE0(Sub(a, b))) {
		case dTrue:
			return one(b)
		case dFalse:
			return one(a)
		}
		n := Sym(KInt, "copied", 0, maxBuf)
		st.assume(mkGE0(Sub(a, n)))
		st.assume(mkGE0(Sub(b, n)))
		return one(n)
	case "recover":
		if st.pending {
			st.pending = false
			return one(&OpaqueV{typ: types.NewInterfaceType(nil, nil), t: NamedSym(KOther, "panic value", 0, 0), nonnil: true})
		}
		return one(NilV{})
	case "delete":
		m := force(st, ctx.args[0])
		if p, ok := m.(*PtrV); ok {
			if mv, ok := st.get(p.obj).(*MapV); ok {
				if ks, ok := mapKeyOf(force(st, ctx.args[1])); ok {
					n := &MapV{kv: map[string]mapEnt{}, typ: mv.typ, sym: mv.sym}
					for a, b := range mv.kv {
						if a != ks {
							n.kv[a] = b
						}
					}
					n.keys = sortedKeys(n.kv)
					st.heap[p.obj] = n
					if _, isBase := baseHeap[p.obj]; isBase && !in.initing {
						in.recordWrite("global write", "package-level map", ctx.fr, ctx.pos)
					}
					return one(TupleV{})
				}
			}
		}
		in.undecided(ctx.fr, ctx.pos, "delete from a map of unknown shape")
		return one(TupleV{})
	case "print", "println":
		st.event("print", in.p.pos(ctx.pos))
		return one(TupleV{})
	case "min", "max":
		t, ok := force(st, ctx.args[0]).(*Term)
		for _, a := range ctx.args[1:] {
			u, ok2 := force(st, a).(*Term)
			if !ok || !ok2 || t.kind != KInt {
				return in.havocCall(ctx, name)
			}
			c := mkGE0(Sub(t, u))
			switch st.decide(c) {
			case dUnknown:
				panic(splitReq{c})
			case dTrue:
				if name == "min" {
					t = u
				}
			case dFalse:
				if name == "max" {
					t = u
				}
			}
		}
		return one(t)
	case "ssa:wrapnilchk":
		v := force(st, ctx.args[0])
		if isNilV(v) {
			in.oblige("nil dereference", ctx.fr, ctx.pos, false, st, func() string { return "value method on a nil pointer" })
			return nil
		}
		return one(v)
	case "close":
		return one(TupleV{})
	}
	in.undecided(ctx.fr, ctx.pos, "builtin "+name)
	return in.havocCall(ctx, name)
}

func (in *Interp) recordWrite(kind, detail string, fr *Frame, pos token.Pos) {
	if in.mute > 0 {
		return
	}
	k := kind + " " + detail + "@" + in.p.pos(pos)
	if in.writes[k] == nil {
		in.writes[k] = &Oblig{kind: kind, pos: in.p.pos(pos), fn: in.fnName(fr.fn), detail: detail, stack: stackStr(in, fr.stack), root: in.root}
	}
}

// writeBytes: the bytes of dst are overwritten from src.
func (in *Interp) writeBytes(ctx *callCtx, dst, src Value) {
	switch d := dst.(type) {
	case *BufV:
		in.recordWrite("input write", bufName(d.buf), ctx.fr, ctx.pos)
		ctx.st.event("input-write", in.p.pos(ctx.pos), Str(bufName(d.buf)))
	case *BSliceV:
		o := ctx.st.get(d.obj)
		if b, ok := o.(*BytesV); ok {
			s := in.strOf(ctx.st, src)
			ld, ls := mkStrLen(b.t), mkStrLen(s)
			if ctx.st.decide(mkEQ0(Sub(ld, ls))) == dTrue {
				ctx.st.heap[d.obj] = &BytesV{t: s}
				return
			}
			ctx.st.heap[d.obj] = &BytesV{t: rawApp(KStr, "overwrite", 0, 0, b.t, s)}
		}
	case *SliceV:
		in.undecided(ctx.fr, ctx.pos, "copy into a list")
	}
}

func (in *Interp) doAppend(ctx *callCtx) Value {
	st := ctx.st
	a := force(st, ctx.args[0])
	b := force(st, ctx.args[1])
	elemT := types.Type(nil)
	if s := ctx.sig(); s != nil && s.Params().Len() > 0 {
		if sl, ok := s.Params().At(0).Type().Underlying().(*types.Slice); ok {
			elemT = sl.Elem()
		}
	}
	if elemT != nil && isByteType(elemT) {
		if x, ok := a.(*BufV); ok {
			atEnd := st.decide(mkEQ0(Sub(Add(x.off, x.ln), buffers[x.buf].ln))) == dTrue
			n := in.lenOf(st, b)
			if !atEnd && (n == nil || st.decide(mkEQ0(n)) != dTrue) {
				in.recordWrite("input write", bufName(x.buf)+" (append to a part of the input)", ctx.fr, ctx.pos)
				st.event("input-write", in.p.pos(ctx.pos), Str(bufName(x.buf)))
			}
		}
		if isNilV(b) {
			return a
		}
		if l := in.lenOf(st, b); l != nil && l.isInt(0) {
			return a
		}
		t := mkCat(in.strOf(st, a), in.strOf(st, b))
		return &BytesV{t: t}
	}
	if elemT != nil && isRuneType(elemT) {
		t := in.runesOf(st, a)
		u := in.runesOf(st, b)
		if t != nil && u != nil {
			return &RunesV{t: mkCat(t, u)}
		}
		return &OpaqueV{typ: ctx.sig().Params().At(0).Type(), t: Sym(KOther, "runes", 0, 0), nonnil: true}
	}
	la, ok1 := in.listOf(st, a)
	lb, ok2 := in.listOf(st, b)
	if ok1 && ok2 {
		return &ListV{segs: append(append([]Seg(nil), la...), lb...)}
	}
	in.undecided(ctx.fr, ctx.pos, fmt.Sprintf("append of %T to %T", b, a))
	return &OpaqueV{typ: ctx.sig().Params().At(0).Type(), t: Sym(KOther, "append", 0, 0), nonnil: true}
}

func (in *Interp) runesOf(st *State, v Value) *Term {
	switch x := v.(type) {
	case NilV:
		return Str("")
	case *RunesV:
		return x.t
	case *ListV:
		t := Str("")
		for _, s := range x.segs {
			r, ok := s.v.(*Term)
			if s.kind != SegSingle || !ok {
				return nil
			}
			t = mkCat(t, mkChr(r))
		}
		return t
	}
	return nil
}

func (in *Interp) listOf(st *State, v Value) ([]Seg, bool) {
	switch x := v.(type) {
	case NilV:
		return nil, true
	case *ListV:
		return x.segs, true
	case *SliceV:
		if l, ok := st.get(x.obj).(*ListV); ok {
			return l.segs, true
		}
	case *OpaqueV:
		// an unknown list as a block
		if x.typ == nil {
			return nil, false
		}
		kv := NamedSym(KInt, "κ", 0, maxBuf)
		el := in.havocNamed(x.typ.Underlying().(*types.Slice).Elem(), rawApp(KOther, "elem", 0, 0, x.t, kv), false)
		star := opaqueStars[x.t]
		if star == nil {
			star = &StarInfo{kv: kv, hi: rawApp(KInt, "len", 0, maxBuf, x.t), alts: []Alt{{cond: Bool(true), segs: []Seg{{v: el}}, st: st}}}
			opaqueStars[x.t] = star
		}
		return []Seg{{kind: SegStar, star: star}}, true
	}
	return nil, false
}

var opaqueStars = map[*Term]*StarInfo{}

// findMethod is LookupMethod without the panic.
func (in *Interp) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := in.p.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return in.p.prog.MethodValue(sel)
}
