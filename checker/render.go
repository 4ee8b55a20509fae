package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

// Rendering: the text and the JSON made of a dump. The rendering functions are
// interpreted on item trees whose fields are arbitrary strings (empty or not),
// with an arbitrary indent, and their output is compared with the specified
// one. The shapes of the trees are enumerated.

type rNode struct {
	null bool
	mask int // 1 value, 2 note, 4 dump
	kids []*rNode
	// set by build
	name, value, note, dump *Term
}

func rn(mask int, kids ...*rNode) *rNode { return &rNode{mask: mask, kids: kids} }

type rTree struct {
	name string
	top  []*rNode
}

func renderShapes() []rTree {
	var out []rTree
	add := func(name string, top ...*rNode) { out = append(out, rTree{name, top}) }
	add("no packets")
	for m := 0; m < 8; m++ {
		add(fmt.Sprintf("one packet, fields %d", m), rn(m))
		for k := 0; k < 8; k++ {
			add(fmt.Sprintf("packet with two items, fields %d %d", m, k), rn(m, rn(k), rn(k)))
		}
		add(fmt.Sprintf("three packets with nested items, fields %d", m),
			rn(m, rn(m+1, rn(m+2), rn(m+3)), rn(m+4)), rn(m+5), rn(m+6, rn(m+7)))
		add(fmt.Sprintf("deep tree, fields %d", m), rn(m, rn(m, rn(m, rn(m, rn(m)), rn(m)), rn(m)), rn(m)))
	}
	add("missing items", rn(7, &rNode{null: true}, rn(7)), &rNode{null: true}, rn(7))
	deep := rn(7)
	for i := 0; i < 24; i++ {
		deep = rn(7, deep)
	}
	add("chain of 25", deep)
	var wide, top []*rNode
	for i := 0; i < 70; i++ {
		wide = append(wide, rn(i))
		top = append(top, rn(i))
	}
	add("70 items", rn(7, wide...))
	add("70 packets", top...)
	return out
}

type renderer struct {
	in         *Interp
	rep        *reporter
	item, info types.Type
	nsym       int
}

func (k *renderer) str(st *State, name string, on bool) *Term {
	if !on {
		return Str("")
	}
	k.nsym++
	t := NamedSym(KStr, fmt.Sprintf("%s%d", name, k.nsym), 0, 0)
	st.assume(mkGE0(AddC(mkStrLen(t), -1)))
	return t
}

func (k *renderer) build(st *State, n *rNode) Value {
	if n.null {
		return NilV{}
	}
	k.nsym++
	n.name = NamedSym(KStr, fmt.Sprintf("name%d", k.nsym), 0, 0)
	n.value = k.str(st, "value", n.mask&1 != 0)
	n.note = k.str(st, "note", n.mask&2 != 0)
	n.dump = k.str(st, "dump", n.mask&4 != 0)
	s, ok := k.in.zero(k.item).(*StructV)
	if !ok {
		return nil
	}
	s = &StructV{fields: append([]Value(nil), s.fields...)}
	s.fields[fieldIndex(k.item, "Name")] = n.name
	s.fields[fieldIndex(k.item, "Value")] = n.value
	s.fields[fieldIndex(k.item, "Note")] = n.note
	s.fields[fieldIndex(k.item, "Dump")] = n.dump
	s.fields[fieldIndex(k.item, "Items")] = k.list(st, n.kids)
	return &PtrV{obj: st.alloc(s)}
}

func (k *renderer) list(st *State, ns []*rNode) Value {
	if len(ns) == 0 {
		return NilV{}
	}
	l := &ListV{}
	for _, n := range ns {
		l.segs = append(l.segs, Seg{v: k.build(st, n)})
	}
	return l
}

func (k *renderer) infoOf(st *State, t rTree) Value {
	s, ok := k.in.zero(k.info).(*StructV)
	if !ok {
		return nil
	}
	s = &StructV{fields: append([]Value(nil), s.fields...)}
	s.fields[fieldIndex(k.info, "Packets")] = k.list(st, t.top)
	return &PtrV{obj: st.alloc(s)}
}

// text: the specified text of an item.
func (n *rNode) text(indent *Term, lvl int) *Term {
	if n.null {
		return Str("")
	}
	parts := []*Term{mkRepeat(indent, Int(int64(lvl))), n.name}
	if n.mask&1 != 0 {
		parts = append(parts, Str(": "), n.value)
	}
	if n.mask&2 != 0 {
		parts = append(parts, Str(" ("), n.note, Str(")"))
	}
	parts = append(parts, Str("\n"))
	if n.mask&4 != 0 {
		parts = append(parts, mkRepeat(indent, Int(int64(lvl+1))), n.dump, Str("\n"))
	}
	for _, c := range n.kids {
		parts = append(parts, c.text(indent, lvl+1))
	}
	return mkCat(parts...)
}

// treeTerm: the tree a JSON encoder sees.
func (n *rNode) tree() *Term {
	if n.null {
		return NamedSym(KOther, "nil", 0, 0)
	}
	var ks []*Term
	for _, c := range n.kids {
		ks = append(ks, c.tree())
	}
	return rawApp(KOther, "item", 0, 0, n.name, n.value, n.dump, n.note, rawApp(KOther, "list", 0, 0, ks...))
}

// treeOf: the tree behind a value at the time of the call.
func (k *renderer) treeOf(st *State, v Value, d int) *Term {
	v = st.resolve(v)
	if d > 60 {
		return Sym(KOther, "list", 0, 0)
	}
	switch x := v.(type) {
	case *IfaceV:
		return k.treeOf(st, x.val, d)
	case NilV:
		return NamedSym(KOther, "nil", 0, 0)
	case *PtrV:
		return k.treeOf(st, mustLoad(st, x), d+1)
	case *StructV:
		get := func(t types.Type, n string) Value {
			if i := fieldIndex(t, n); i >= 0 && i < len(x.fields) {
				return x.fields[i]
			}
			return NilV{}
		}
		lst := func(v Value) *Term {
			segs, ok := k.in.listOf(st, st.resolve(v))
			if !ok {
				return Sym(KOther, "list", 0, 0)
			}
			var ks []*Term
			for _, s := range segs {
				if s.kind != SegSingle {
					return Sym(KOther, "list", 0, 0)
				}
				ks = append(ks, k.treeOf(st, s.v, d+1))
			}
			return rawApp(KOther, "list", 0, 0, ks...)
		}
		nf := k.item.Underlying().(*types.Struct).NumFields()
		if len(x.fields) == nf {
			var a []*Term
			for _, n := range []string{"Name", "Value", "Dump", "Note"} {
				a = append(a, k.in.toTerm(st, get(k.item, n)))
			}
			return rawApp(KOther, "item", 0, 0, append(a, lst(get(k.item, "Items")))...)
		}
		return lst(get(k.info, "Packets"))
	case *OpaqueV:
		return x.t
	}
	return Sym(KOther, "list", 0, 0)
}

func (t rTree) term() *Term {
	var ks []*Term
	for _, n := range t.top {
		ks = append(ks, n.tree())
	}
	return rawApp(KOther, "list", 0, 0, ks...)
}

var renderProps = []string{"C17", "C18", "C06"}

func (k *renderer) finding(kind, detail string, entry *Facts, o CallOut, fn string, und bool) {
	var ls []string
	lits, _ := o.st.facts.litsSince(entry)
	for _, l := range lits {
		und = und || unknownLib(l, 0)
		ls = append(ls, l.String())
	}
	k.rep.add(finding{Props: renderProps, Kind: kind, Fn: fn, Root: k.in.root, Detail: detail, Path: clip(strings.Join(ls, " & "), 400), Und: und})
}

// strResult: the text behind a result that is a string, a buffer or a reader.
func (k *renderer) strResult(st *State, v Value) *Term {
	v = st.resolve(v)
	switch x := v.(type) {
	case *Term:
		return x
	case *IfaceV:
		return k.strResult(st, x.val)
	case *PtrV:
		if b, ok := mustLoad(st, x).(*BytesV); ok {
			return b.t
		}
	case *OpaqueV:
		if isApp(x.t, "bytesReader") {
			return x.t.args[0]
		}
	}
	return nil
}

func (k *renderer) same(o CallOut, got, want *Term, entry *Facts, fn, kind string) {
	k.rep.stat("renderings compared", 1)
	if got == nil {
		k.finding(kind, "the rendering is not a text", entry, o, fn, true)
		return
	}
	if newCmpr().eq(o.st.facts, got, want) {
		return
	}
	k.finding(kind, clip(got.String(), 700)+" instead of "+clip(want.String(), 700), entry, o, fn, unknownLib(got, 0))
}

func (k *renderer) unchanged(o CallOut, v Value, want *Term, entry *Facts, fn string) {
	if got := k.treeOf(o.st, v, 0); got != want && !unknownLib(got, 0) {
		k.finding("dump modified", "rendering changes the dump: "+clip(got.String(), 400), entry, o, fn, false)
	}
}

func renderJob(in *Interp, rep *reporter) {
	k := &renderer{in: in, rep: rep, item: in.namedType("parse/result", "Item"), info: in.namedType("parse/result", "Info")}
	if k.item == nil || k.info == nil {
		rep.res.Err = "the types of the dump are missing"
		return
	}
	for _, n := range []string{"Name", "Value", "Dump", "Note", "Items"} {
		if fieldIndex(k.item, n) < 0 {
			rep.res.Err = "the item has lost its field " + n
			return
		}
	}
	if fieldIndex(k.info, "Packets") < 0 {
		rep.res.Err = "the dump has lost its packets"
		return
	}
	in.recAll = true
	defer func() { in.recAll = false }()
	enc := func(ctx *callCtx) []CallOut {
		v := k.treeOf(ctx.st, ctx.arg(0), 0)
		t := rawApp(KStr, "json.compact", 0, 0, v)
		if strings.HasSuffix(ctx.name, "Indent") {
			t = rawApp(KStr, "json.indented", 0, 0, v, ctx.str(1), ctx.str(2))
		}
		return ctx.fork("json.Marshal", TupleV{&BytesV{t: t}, NilV{}}, TupleV{NilV{}, ctx.in.libErr("json.Marshal")})
	}
	const J = "encoding/json."
	defer overrideModels(map[string]modelFn{
		J + "Marshal":       enc,
		J + "MarshalIndent": enc,
		J + "Indent": func(ctx *callCtx) []CallOut {
			src := ctx.str(1)
			t := rawApp(KStr, "call json.Indent", 0, 0, src)
			if isApp(src, "json.compact") {
				t = rawApp(KStr, "json.indented", 0, 0, src.args[0], ctx.str(2), ctx.str(3))
			}
			var o []CallOut
			for _, c := range ctx.in.writeTo(ctx, ctx.st, ctx.arg(0), t) {
				o = append(o, CallOut{c.st, NilV{}})
			}
			return o
		},
		J + "NewEncoder": func(ctx *callCtx) []CallOut {
			return ctx.one(&PtrV{obj: ctx.st.alloc(&StructV{fields: []Value{ctx.arg(0), NilV{}, NilV{}}})})
		},
		"(*" + J + "Encoder).SetIndent": func(ctx *callCtx) []CallOut {
			if p, ok := ctx.arg(0).(*PtrV); ok {
				ctx.st.store(&PtrV{obj: p.obj, path: ".1"}, ctx.str(1))
				ctx.st.store(&PtrV{obj: p.obj, path: ".2"}, ctx.str(2))
			}
			return ctx.one(TupleV{})
		},
		"(*" + J + "Encoder).Encode": func(ctx *callCtx) []CallOut {
			p, ok := ctx.arg(0).(*PtrV)
			if !ok {
				return ctx.in.havocCall(ctx, ctx.name)
			}
			s := mustLoad(ctx.st, p).(*StructV)
			t := rawApp(KStr, "json.compact", 0, 0, k.treeOf(ctx.st, ctx.arg(1), 0))
			if !isNilV(s.fields[2]) {
				t = rawApp(KStr, "json.indented", 0, 0, t.args[0], ctx.in.toTerm(ctx.st, s.fields[1]), ctx.in.toTerm(ctx.st, s.fields[2]))
			}
			var o []CallOut
			f := ctx.st.clone()
			c := Sym(KBool, "ok json.Marshal", 0, 0)
			if f.assume(mkNot(c)) {
				o = append(o, CallOut{f, ctx.in.libErr("json.Encode")})
			}
			if ctx.st.assume(c) {
				for _, w := range ctx.in.writeTo(ctx, ctx.st, s.fields[0], mkCat(t, Str("\n"))) {
					o = append(o, CallOut{w.st, NilV{}})
				}
			}
			return o
		},
	})()

	indent := NamedSym(KStr, "indent", 0, 0)
	spaces := NamedSym(KInt, "indent", -1<<31, 1<<31)
	for _, t := range renderShapes() {
		in.root = "rendering of " + t.name
		st := newState()
		v := k.infoOf(st, t)
		entry := st.facts
		tree := t.term()
		rep.stat("trees", 1)
		want := func(ind *Term) *Term {
			var ps []*Term
			for _, n := range t.top {
				ps = append(ps, n.text(ind, 0))
			}
			return mkCat(ps...)
		}
		for _, o := range in.callOn("parse/result", "Info", "ToString", v, []Value{indent}, st.clone()) {
			k.same(o, k.strResult(o.st, o.v), want(indent), entry, "(*Info).ToString", "wrong text")
			k.unchanged(o, v, tree, entry, "(*Info).ToString")
		}
		for _, o := range in.callOn("parse/result", "Info", "String", v, nil, st.clone()) {
			k.same(o, k.strResult(o.st, o.v), want(Str("\t")), entry, "(*Info).String", "wrong text")
		}
		if len(t.top) == 1 && !t.top[0].null {
			if l, ok := mustLoad(st, v.(*PtrV)).(*StructV).fields[fieldIndex(k.info, "Packets")].(*ListV); ok {
				for _, o := range in.callOn("parse/result", "Item", "String", l.segs[0].v, nil, st.clone()) {
					k.same(o, k.strResult(o.st, o.v), want(Str("\t")), entry, "(*Item).String", "wrong text")
				}
			}
		}
		if in.p.method("parse/result", "Info", "JSON", true) == nil {
			rep.res.Err = "the JSON renderer is missing"
			return
		}
		in.noMerge = true
		outs := in.callOn("parse/result", "Info", "JSON", v, []Value{spaces}, st.clone())
		in.noMerge = false
		for _, o := range outs {
			k.json(o, tree, spaces, entry)
			k.unchanged(o, v, tree, entry, "(*Info).JSON")
		}
	}
	// no dump
	in.root = "rendering of nothing"
	st := newState()
	for _, o := range in.callOn("parse/result", "Info", "ToString", NilV{}, []Value{indent}, st.clone()) {
		k.same(o, k.strResult(o.st, o.v), Str(""), st.facts, "(*Info).ToString", "wrong text")
	}
	k.tags()
}

func (k *renderer) json(o CallOut, tree, spaces *Term, entry *Facts) {
	const fn = "(*Info).JSON"
	k.rep.stat("renderings compared", 1)
	tv, ok := o.v.(TupleV)
	if !ok || len(tv) != 2 {
		k.finding("wrong JSON", "the result is not a text and an error", entry, o, fn, true)
		return
	}
	failed := false
	lits, _ := o.st.facts.litsSince(entry)
	for _, l := range lits {
		if strings.Contains(l.String(), "json.Marshal") && strings.HasPrefix(l.String(), "!") {
			failed = true
		}
	}
	if !isNilV(o.st.resolve(tv[1])) {
		if !failed {
			k.finding("wrong JSON", "an error although the encoder has none", entry, o, fn, false)
		}
		return
	}
	if failed {
		k.finding("wrong JSON", "no error although the encoder fails", entry, o, fn, false)
		return
	}
	got := k.strResult(o.st, tv[0])
	if got == nil {
		k.finding("wrong JSON", "the rendering is not a text", entry, o, fn, true)
		return
	}
	for _, c := range []*Term{mkGE0(AddC(spaces, -1)), mkNot(mkGE0(AddC(spaces, -1)))} {
		f := o.st.facts.assume(c)
		if f == nil {
			continue
		}
		want := rawApp(KStr, "json.compact", 0, 0, tree)
		if f.decide(mkGE0(AddC(spaces, -1))) == dTrue {
			want = rawApp(KStr, "json.indented", 0, 0, tree, Str(""), mkRepeat(Str(" "), spaces))
		}
		g := f.simplify(got)
		if !newCmpr().eq(f, g, want) {
			k.finding("wrong JSON", clip(g.String(), 600)+" instead of "+clip(want.String(), 600), entry, o, fn, cmpUnsure || unknownLib(g, 0) || !isApp(g, "json.compact") && !isApp(g, "json.indented") && g.op != OConst)
		}
	}
}

// tags: what encoding/json makes of the fields.
func (k *renderer) tags() {
	want := map[string][][2]string{
		"Info": {{"Packets", "Packet,omitempty"}},
		"Item": {{"Name", "name"}, {"Value", "value,omitempty"}, {"Dump", "dump,omitempty"}, {"Note", "note,omitempty"}, {"Items", "Item,omitempty"}},
	}
	for _, tn := range []string{"Info", "Item"} {
		t := k.info
		if tn == "Item" {
			t = k.item
		}
		nt, ok := t.(*types.Named)
		if !ok {
			continue
		}
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			o, _, _ := types.LookupFieldOrMethod(types.NewPointer(nt), true, nt.Obj().Pkg(), m)
			if o != nil {
				k.rep.add(finding{Props: renderProps, Kind: "undecided", Pos: k.in.p.pos(o.Pos()), Fn: tn, Detail: "the JSON of the type is made by " + m, Und: true})
				return
			}
		}
		s := nt.Underlying().(*types.Struct)
		var got [][2]string
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			if !f.Exported() || tag == "-" {
				continue
			}
			if tag == "" || strings.HasPrefix(tag, ",") {
				tag = f.Name() + tag
			}
			got = append(got, [2]string{f.Name(), tag})
		}
		k.rep.stat("encoded fields", len(got))
		if fmt.Sprint(got) != fmt.Sprint(want[tn]) {
			k.rep.add(finding{Props: renderProps, Kind: "wrong JSON", Pos: k.in.p.pos(nt.Obj().Pos()), Fn: tn, Detail: fmt.Sprintf("fields %v instead of %v", got, want[tn])})
		}
	}
}

// overrideModels replaces library models until the returned function is called.
func overrideModels(m map[string]modelFn) func() {
	save := map[string]modelFn{}
	for n, f := range m {
		save[n] = models[n]
		models[n] = f
	}
	return func() {
		for n, f := range save {
			if f == nil {
				delete(models, n)
			} else {
				models[n] = f
			}
		}
	}
}

// mkRepeat: a text repeated.
func mkRepeat(s, n *Term) *Term {
	if n.op == OConst && n.i >= 0 {
		if s.op == OConst && n.i*int64(len(s.s)) < 1<<16 {
			return Str(strings.Repeat(s.s, int(n.i)))
		}
		if n.i <= 64 {
			var p []*Term
			for i := int64(0); i < n.i; i++ {
				p = append(p, s)
			}
			return mkCat(p...)
		}
	}
	return rawApp(KStr, "repeat", 0, 0, s, n)
}

func init() { otherJobs["render"] = renderJob }
