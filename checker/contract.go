package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assume/guarantee contracts: every packet type and every subpacket type is
// analysed as a root of its own (for every body, context and options), so
// where a parser of an arbitrary packet is called it is replaced by what the
// roots establish: it returns an item or an error and may change the session
// fields of the context only.

type contracts struct {
	tagTypes [64]types.Type // concrete parser type per packet tag
	subTypes map[int]map[int]types.Type
	cxt      *PtrV
	opaque8  bool // compressed data packets are not looked into
}

func contractObj(o *OpaqueV) string {
	if o.t.op == OApp && (o.t.name == "contract.tag" || o.t.name == "contract.sub") {
		return o.t.name
	}
	return ""
}

func (in *Interp) isContractTag(o *OpaqueV) bool { return contractObj(o) != "" }

// notOfType: no parser the object stands for has (or implements) type t.
func (in *Interp) notOfType(o *OpaqueV, t types.Type) bool {
	has := func(x types.Type) bool {
		if x == nil {
			return false
		}
		if it, ok := t.Underlying().(*types.Interface); ok {
			return types.Implements(x, it)
		}
		return types.Identical(x, t)
	}
	if contractObj(o) == "contract.sub" {
		return false
	}
	for i, x := range in.con.tagTypes {
		if i != 8 && has(x) {
			return false
		}
	}
	return true
}

func ptrToNamed(t types.Type, path string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && namedPath(p.Elem()) == path
}

const pktPath = "golang.org/x/crypto/openpgp/packet."

// setupContracts finds the parser types and installs the hooks.
func (in *Interp) setupContracts() error {
	in.con = &contracts{}
	fn := in.p.fn("parse/tags", "NewTag")
	if fn == nil {
		return fmt.Errorf("parse/tags.NewTag is missing")
	}
	if in.p.fn("parse/tags", "NewSubs") == nil {
		return fmt.Errorf("parse/tags.NewSubs is missing")
	}
	for tag := 0; tag < 64; tag++ {
		st, ci, err := in.newContext(newState())
		if err != nil {
			return err
		}
		outs := in.callRoot(fn, in.newTagArgs(st, fn.Signature, tag, bodyBuf(), ci.ptr), st)
		if len(outs) != 1 {
			return fmt.Errorf("NewTag(%d) has %d outcomes", tag, len(outs))
		}
		if iv, ok := force(outs[0].st, outs[0].v).(*IfaceV); ok {
			in.con.tagTypes[tag] = iv.typ
		}
	}
	in.hooks["parse/tags.NewTag"] = hookNewTag
	in.hooks["parse/tags.NewSubs"] = hookNewSubs
	return nil
}

// newTagArgs places the arguments by their types.
func (in *Interp) newTagArgs(st *State, sig *types.Signature, tag int, body Value, cxt *PtrV) []Value {
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case ptrToNamed(t, pktPath+"OpaquePacket"):
			args = append(args, &PtrV{obj: st.alloc(&StructV{fields: []Value{Int(int64(tag)), NilV{}, body}})})
		case ptrToNamed(t, modPath+"/parse/context.Context"):
			args = append(args, cxt)
		default:
			args = append(args, in.zero(t))
		}
	}
	return args
}

func (in *Interp) newSubArgs(st *State, sig *types.Signature, tag, sub int, body Value, cxt *PtrV) []Value {
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case ptrToNamed(t, pktPath+"OpaqueSubpacket"):
			args = append(args, &PtrV{obj: st.alloc(&StructV{fields: []Value{Int(int64(sub)), body}})})
		case ptrToNamed(t, modPath+"/parse/context.Context"):
			args = append(args, cxt)
		default:
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				args = append(args, Int(int64(tag)))
			} else {
				args = append(args, in.zero(t))
			}
		}
	}
	return args
}

func hookNewTag(in *Interp, ctx *callCtx) ([]CallOut, bool) {
	if in.hookOff > 0 {
		return nil, false
	}
	var op, cx *PtrV
	sig := ctx.sig()
	for i := 0; i < sig.Params().Len() && i < len(ctx.args); i++ {
		t := sig.Params().At(i).Type()
		p, _ := force(ctx.st, ctx.args[i]).(*PtrV)
		if ptrToNamed(t, pktPath+"OpaquePacket") {
			op = p
		} else if ptrToNamed(t, modPath+"/parse/context.Context") {
			cx = p
		}
	}
	if op == nil || cx == nil {
		return nil, false
	}
	s, ok := mustLoad(ctx.st, op).(*StructV)
	if !ok || len(s.fields) != 3 {
		return nil, false
	}
	tag, ok := s.fields[0].(*Term)
	if !ok || tag.op == OConst {
		return nil, false
	}
	is8 := mkEQ0(AddC(tag, -8))
	if in.con.opaque8 {
		is8 = Bool(false)
	}
	switch ctx.st.decide(is8) {
	case dUnknown:
		panic(splitReq{is8})
	case dTrue:
		ctx.st.store(&PtrV{obj: op.obj, path: op.path + ".0"}, Int(8))
		return nil, false
	}
	in.con.cxt = cx
	o := &OpaqueV{typ: sig.Results().At(0).Type(), t: rawApp(KOther, "contract.tag", 0, 0, tag, in.toTerm(ctx.st, s.fields[2])), nonnil: true}
	return ctx.one(o), true
}

func hookNewSubs(in *Interp, ctx *callCtx) ([]CallOut, bool) {
	if in.hookOff > 0 {
		return nil, false
	}
	var op, cx *PtrV
	var tag *Term
	sig := ctx.sig()
	for i := 0; i < sig.Params().Len() && i < len(ctx.args); i++ {
		t := sig.Params().At(i).Type()
		v := force(ctx.st, ctx.args[i])
		switch {
		case ptrToNamed(t, pktPath+"OpaqueSubpacket"):
			if o, ok := v.(*OpaqueV); ok {
				if !o.nonnil && ctx.st.decide(nilTerm(o)) != dFalse {
					return nil, false
				}
				v = in.materialise(ctx.st, o, derefType(t))
			}
			op, _ = v.(*PtrV)
		case ptrToNamed(t, modPath+"/parse/context.Context"):
			cx, _ = v.(*PtrV)
		default:
			if x, ok := v.(*Term); ok && x.kind == KInt {
				tag = x
			}
		}
	}
	if op == nil || cx == nil || tag == nil || tag.op != OConst || tag.i != 2 && tag.i != 17 {
		return nil, false
	}
	s, ok := mustLoad(ctx.st, op).(*StructV)
	if !ok || len(s.fields) != 2 {
		return nil, false
	}
	sub, ok := s.fields[0].(*Term)
	if !ok || sub.op == OConst {
		return nil, false
	}
	in.con.cxt = cx
	o := &OpaqueV{typ: sig.Results().At(0).Type(), t: rawApp(KOther, "contract.sub", 0, 0, tag, sub, in.toTerm(ctx.st, s.fields[1])), nonnil: true}
	return ctx.one(o), true
}

// contractParse: Parse of a packet or subpacket known by its contract only.
func (in *Interp) contractParse(ctx *callCtx, o *OpaqueV, sig *types.Signature) []CallOut {
	if cx := in.con.cxt; cx != nil {
		ct := in.namedType("parse/context", "Context")
		for _, f := range []string{"SymAlgMode", "SigCreationTime", "KeyCreationTime"} {
			i := fieldIndex(ct, f)
			if i < 0 || f == "SymAlgMode" && (contractObj(o) == "contract.sub" || o.t.args[0].isInt(2)) {
				continue
			}
			p := &PtrV{obj: cx.obj, path: fmt.Sprintf("%s.%d", cx.path, i)}
			old, ok := ctx.st.load(p)
			if f == "SigCreationTime" && strings.HasPrefix(in.root, "packet tag 2") && !strings.HasPrefix(in.root, "packet tag 20") {
				in.earlierTime(ctx, old)
			}
			if !ok {
				continue
			}
			if t, ok := old.(*Term); ok {
				ctx.st.store(p, rawApp(KInt, "mode.after", 0, 2, o.t, t))
			} else {
				ctx.st.store(p, in.timeValue(rawApp(KOther, f+".after", 0, 0, o.t, in.toTerm(ctx.st, old))))
			}
		}
	}
	item := in.havocNamed(sig.Results().At(0).Type(), rawApp(KOther, "item", 0, 0, o.t), true)
	ok := rawApp(KBool, "parse.ok", 0, 0, o.t)
	s2 := ctx.st.clone()
	var outs []CallOut
	if ctx.st.assume(ok) {
		outs = append(outs, CallOut{ctx.st, TupleV{item, NilV{}}})
	}
	if s2.assume(mkNot(ok)) {
		outs = append(outs, CallOut{s2, TupleV{&OpaqueV{typ: sig.Results().At(0).Type(), t: rawApp(KOther, "item.partial", 0, 0, o.t), nonnil: true}, in.libErr("parse")}})
	}
	return outs
}

// nestedParse: Parse called on the parser of one packet type from within
// another parser (an embedded packet).
func (in *Interp) nestedParse(ctx *callCtx, fn *ssa.Function) ([]CallOut, bool) {
	// the parsers of other packet types used by the parser of a packet type
	// are part of that parser, not embedded packets
	if in.con == nil || in.hookOff > 0 || strings.HasPrefix(in.root, "packet tag") || fn.Name() != "Parse" || fn.Signature.Recv() == nil || len(ctx.args) != 1 || fn.Signature.Results().Len() != 2 {
		return nil, false
	}
	tag := -1
	for i, t := range in.con.tagTypes {
		if t != nil && types.Identical(t, fn.Signature.Recv().Type()) {
			if tag >= 0 {
				return nil, false
			}
			tag = i
		}
	}
	if tag < 0 || tag == 8 {
		return nil, false
	}
	var cx *PtrV
	var body *BufV
	ok, sameTag := true, false
	seen := map[int]bool{}
	var walk func(v Value, t types.Type)
	walk = func(v Value, t types.Type) {
		v = ctx.st.resolve(v)
		if ptrToNamed(t, modPath+"/parse/context.Context") {
			cx, _ = v.(*PtrV)
			return
		}
		switch x := v.(type) {
		case *PtrV:
			if seen[x.obj] || x.path != "" {
				return
			}
			seen[x.obj] = true
			walk(ctx.st.get(x.obj), derefType(t))
		case *StructV:
			st, isS := t.Underlying().(*types.Struct)
			if !isS || st.NumFields() != len(x.fields) {
				ok = false
				return
			}
			for i, f := range x.fields {
				walk(f, st.Field(i).Type())
			}
		case *BufV:
			if body != nil && in.toTerm(ctx.st, body) != in.toTerm(ctx.st, x) {
				ok = false
			}
			body = x
		case *Term:
			ok = ok && x.op == OConst
			sameTag = sameTag || x.isInt(int64(tag))
		case *IfaceV:
			walk(x.val, x.typ)
		case NilV:
		default:
			ok = false
		}
	}
	walk(ctx.args[0], fn.Signature.Recv().Type())
	if !ok {
		in.undecided(nil, fn.Pos(), "an embedded packet is parsed by a parser in an unknown state")
	}
	if !ok || cx == nil || body == nil || !sameTag {
		return nil, false
	}
	in.con.cxt = cx
	o := &OpaqueV{typ: fn.Signature.Recv().Type(), t: rawApp(KOther, "contract.tag", 0, 0, Int(int64(tag)), in.toTerm(ctx.st, body)), nonnil: true}
	return in.contractParse(ctx, o, fn.Signature), true
}

// Times of the session: nil, or a time the program read from 4 octets.  They
// are built by the program's own constructor.
var timeTerm = map[int]*Term{}
var timeObj = map[*Term]*PtrV{}
var timeObjOf func(*Term) Value

func (in *Interp) timeValue(t *Term) Value {
	return &GateV{c: rawApp(KBool, "isnil", 0, 0, t), a: NilV{}, b: in.timePtr(t)}
}

func (in *Interp) timePtr(t *Term) Value {
	timeObjOf = in.timePtr
	if p := timeObj[t]; p != nil {
		return p
	}
	b := bufferFor(rawApp(KOther, "octets", 0, 0, t))
	st := newState()
	rn, dn := in.p.fn("parse/reader", "New"), in.p.fn("parse/values", "NewDateTime")
	var res Value
	if rn != nil && dn != nil {
		saved := in.mute
		in.mute++
		r := in.callRoot(rn, []Value{&BufV{buf: b.buf, off: Int(0), ln: Int(4)}}, st)
		if len(r) == 1 {
			d := in.callRoot(dn, []Value{r[0].v, optBit(optUTC)}, r[0].st)
			if len(d) == 1 {
				if tv, ok := d[0].v.(TupleV); ok && len(tv) == 2 && isNilV(tv[1]) {
					if p, ok := tv[0].(*PtrV); ok {
						baseHeap[p.obj] = d[0].st.get(p.obj)
						res = p
					}
				}
			}
		}
		in.mute = saved
	}
	p, ok := res.(*PtrV)
	if !ok {
		in.undecided(nil, 0, "values.NewDateTime does not build a time from 4 octets")
		objSeq++
		p = &PtrV{obj: objSeq}
	}
	timeTerm[p.obj] = t
	timeObj[t] = p
	return p
}

// earlierTime: the subpackets of a signature must not see the creation time of
// an earlier one.
func (in *Interp) earlierTime(ctx *callCtx, old Value) {
	v := ctx.st.resolve(old)
	if g, ok := v.(*GateV); ok {
		if isNilV(g.a) {
			v = g.b
		} else {
			v = g.a
		}
	}
	if p, ok := v.(*PtrV); ok && timeTerm[p.obj] == NamedSym(KOther, "sigtime0", 0, 0) && in.mute == 0 {
		in.notes = append(in.notes, finding{Props: []string{"C10"}, Kind: "earlier creation time", Pos: in.p.pos(ctx.pos), Fn: in.fnName(ctx.fr.fn), Detail: "the subpackets of a signature are parsed with the creation time of an earlier signature", Root: in.root})
	}
}
