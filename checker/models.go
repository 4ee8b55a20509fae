package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// Models of the functions outside the repository.  Each states what the
// analysis assumes about a library function.

type modelFn func(ctx *callCtx) []CallOut

var models map[string]modelFn

func (ctx *callCtx) one(v Value) []CallOut { return []CallOut{{ctx.st, v}} }

func (ctx *callCtx) arg(i int) Value {
	if i >= len(ctx.args) {
		return NilV{}
	}
	return force(ctx.st, ctx.args[i])
}

func (ctx *callCtx) str(i int) *Term { return ctx.in.strOf(ctx.st, ctx.arg(i)) }

func (ctx *callCtx) int(i int) *Term {
	if t, ok := ctx.arg(i).(*Term); ok && t.kind == KInt {
		return t
	}
	return Sym(KInt, "arg", ninf, inf)
}

// fork gives one outcome per named result; cond symbols name the choice.
func (ctx *callCtx) fork(name string, ok Value, errV ...Value) []CallOut {
	cond := Sym(KBool, "ok "+name, 0, 0)
	base := ctx.st
	s0 := base.clone()
	var outs []CallOut
	if s0.assume(cond) {
		outs = append(outs, CallOut{s0, ok})
	}
	rest := base.clone()
	if !rest.assume(mkNot(cond)) {
		return outs
	}
	for i, e := range errV {
		if i == len(errV)-1 {
			if ctx.in.sysEvents {
				rest.event("fail", ctx.in.p.pos(ctx.pos), Str(name))
			}
			outs = append(outs, CallOut{rest, e})
			break
		}
		c2 := Sym(KBool, fmt.Sprintf("err%d %s", i, name), 0, 0)
		s1 := rest.clone()
		s1.assume(c2)
		if ctx.in.sysEvents {
			s1.event("fail", ctx.in.p.pos(ctx.pos), Str(name))
		}
		outs = append(outs, CallOut{s1, e})
		rest = rest.clone()
		rest.assume(mkNot(c2))
	}
	return outs
}

func (in *Interp) external(ctx *callCtx, name string) []CallOut {
	in.extSeen[name]++
	if m := models[name]; m != nil {
		return m(ctx)
	}
	if outs, ok := in.externalGeneric(ctx, name); ok {
		return outs
	}
	ctx.st.event("ext", in.p.pos(ctx.pos), append([]Value{Str(name)}, ctx.args...)...)
	if !pureExternal(name) {
		in.extUnknown[name] = in.p.pos(ctx.pos)
	}
	// an unknown callee may write to the byte slices it is given
	if !pureExternal(name) {
		for _, a := range ctx.args {
			if b, ok := ctx.st.resolve(a).(*BufV); ok {
				in.recordWrite("input passed", bufName(b.buf)+" to "+name, ctx.fr, ctx.pos)
			}
		}
	}
	in.clobber(ctx, name)
	return in.havocCall(ctx, name)
}

// clobber: an unknown library function may write to what it is given a pointer
// to or a slice of.
func (in *Interp) clobber(ctx *callCtx, name string) {
	if strings.HasPrefix(name, "github.com/spiegel-im-spiegel/errs.") || strings.HasPrefix(name, "fmt.") {
		return
	}
	for _, a := range ctx.args {
		v := ctx.st.resolve(a)
		if iv, ok := v.(*IfaceV); ok {
			v = ctx.st.resolve(iv.val)
		}
		switch x := v.(type) {
		case *PtrV:
			switch c := mustLoad(ctx.st, x).(type) {
			case *BytesV:
				ctx.st.store(x, &BytesV{t: Sym(KStr, "buffer", 0, 0)})
			case *Term:
				ctx.st.store(x, Sym(c.kind, "unmodelled", c.lo, c.hi))
			}
		case *BSliceV:
			if !pureExternal(name) {
				ctx.st.store(&PtrV{obj: x.obj}, &BytesV{t: Sym(KStr, "buffer", 0, 0)})
			}
		case *SliceV, *ListV:
			if segs, ok := in.listOf(ctx.st, v); ok && len(segs) > 1 || ok && len(segs) == 1 && segs[0].kind != SegSingle {
				if strings.HasPrefix(name, "sort.") || strings.HasPrefix(name, "slices.") {
					in.undecided(ctx.fr, ctx.pos, "a list is rearranged by "+name)
				}
			}
		}
	}
}

var purePkgs = []string{"strings.", "strconv.", "unicode.", "unicode/utf8.", "unicode/utf16.", "math.", "math/bits.", "bytes.", "(encoding/binary.", "encoding/hex.", "encoding/base64.", "(*encoding/base64.", "errors.", "fmt.Sprint", "fmt.Errorf", "sort.", "path.", "path/filepath.", "time.Unix", "(time.", "(*time.", "net/url.", "(*net/url.", "(net/url.", "html.", "github.com/spiegel-im-spiegel/errs.", "(go/", "hash/", "crypto/sha", "crypto/md5", "(*strings.", "(*bytes.", "context.", "io.EOF", "reflect.DeepEqual", "regexp.", "(*regexp.", "slices.", "maps.", "mime.", "text/template.", "runtime."}

func pureExternal(name string) bool {
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func mergeIDs(a []int, b ...[]int) []int {
	seen := map[int]bool{}
	var out []int
	add := func(l []int) {
		for _, x := range l {
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
	}
	add(a)
	for _, l := range b {
		add(l)
	}
	return out
}

// errOpts collects causes given by functional options.
func (in *Interp) errOpts(ctx *callCtx, v Value) (causes []*ErrV, open *Term) {
	segs, _ := in.listOf(ctx.st, force(ctx.st, v))
	for _, s := range segs {
		if s.kind != SegSingle {
			open = NamedSym(KOther, "open opts", 0, 0)
			continue
		}
		mf, ok := ctx.st.resolve(s.v).(*ModelFuncV)
		if !ok {
			open = NamedSym(KOther, "open opts", 0, 0)
			continue
		}
		if mf.name == "errs.WithCause" {
			c := force(ctx.st, mf.data)
			if e, ok := c.(*ErrV); ok {
				causes = append(causes, e)
			} else if !isNilV(c) {
				open = NamedSym(KOther, "open cause", 0, 0)
			}
		}
	}
	return
}

func (in *Interp) errsIs(ctx *callCtx) []CallOut {
	a, b := ctx.arg(0), ctx.arg(1)
	if isNilV(a) {
		return ctx.one(Bool(isNilV(b)))
	}
	ea, ok1 := a.(*ErrV)
	eb, ok2 := b.(*ErrV)
	if ok1 && ok2 {
		if len(eb.self) > 0 {
			return ctx.one(Sym(KBool, "erris", 0, 0))
		}
		if c := ea.isID(eb.id); c.op != OConst || c.b {
			return ctx.one(c)
		}
		if ea.open == nil || in.errRepo[eb.id] || strings.Contains(ea.open.name, "!"+eb.name+"!") {
			return ctx.one(Bool(false))
		}
		return ctx.one(rawApp(KBool, "erris", 0, 0, NamedSym(KOther, fmt.Sprintf("err%d", ea.id), 0, 0), Str(eb.name)))
	}
	if ok1 && isNilV(b) {
		return ctx.one(Bool(false))
	}
	return ctx.one(Sym(KBool, "erris", 0, 0))
}

func (in *Interp) callModelFunc(ctx *callCtx, f *ModelFuncV) []CallOut {
	in.undecided(ctx.fr, ctx.pos, "call of "+f.name)
	return in.havocCall(ctx, f.name)
}

type fmtPart struct {
	lit  string
	verb string // full verb e.g. %02x
	arg  int
}

// parseFormat splits a format; ok=false for forms the model does not know.
func parseFormat(f string) ([]fmtPart, bool) {
	var out []fmtPart
	argn := 0
	i := 0
	lit := ""
	for i < len(f) {
		if f[i] != '%' {
			lit += string(f[i])
			i++
			continue
		}
		j := i + 1
		flags := ""
		for j < len(f) && strings.IndexByte("+-# 0", f[j]) >= 0 {
			flags += string(f[j])
			j++
		}
		for j < len(f) && (f[j] >= '0' && f[j] <= '9' || f[j] == '.') {
			flags += string(f[j])
			j++
		}
		if j < len(f) && f[j] == '*' {
			return nil, false
		}
		if j < len(f) && f[j] == '[' {
			k := strings.IndexByte(f[j:], ']')
			if k < 0 {
				return nil, false
			}
			n, err := strconv.Atoi(f[j+1 : j+k])
			if err != nil {
				return nil, false
			}
			argn = n - 1
			j += k + 1
		}
		if j >= len(f) {
			return nil, false
		}
		if f[j] == '%' {
			lit += "%"
			i = j + 1
			continue
		}
		if lit != "" {
			out = append(out, fmtPart{lit: lit})
			lit = ""
		}
		out = append(out, fmtPart{verb: "%" + flags + string(f[j]), arg: argn})
		argn++
		i = j + 1
	}
	if lit != "" {
		out = append(out, fmtPart{lit: lit})
	}
	return out, true
}

type strState struct {
	st *State
	t  *Term
}

// plainFormat: one of several constant texts without verbs.
func plainFormat(t *Term) bool {
	switch {
	case t.op == OConst:
		return !strings.Contains(t.s, "%")
	case isApp(t, "if") || isApp(t, "gate"):
		return plainFormat(t.args[1]) && plainFormat(t.args[2])
	case isApp(t, "cat"):
		for _, a := range t.args {
			if !plainFormat(a) {
				return false
			}
		}
		return true
	}
	return isApp(t, "dec")
}

// sprintf evaluates a formatting call over all argument outcomes.
func (in *Interp) sprintf(ctx *callCtx, fi int) []strState {
	ft := ctx.str(fi)
	av := ctx.arg(fi + 1)
	segs, ok := in.listOf(ctx.st, av)
	if ok && ft.op != OConst && len(segs) == 0 {
		if plainFormat(ft) {
			return []strState{{ctx.st, ft}}
		}
		// data used as a format
		return []strState{{ctx.st, rawApp(KStr, "formatted", 0, 0, ft)}}
	}
	if !ok || ft.op != OConst {
		return []strState{{ctx.st, rawApp(KStr, "call sprintf", 0, 0, ft, in.toTerm(ctx.st, av))}}
	}
	for _, s := range segs {
		if s.kind != SegSingle {
			return []strState{{ctx.st, Sym(KStr, "sprintf", 0, 0)}}
		}
	}
	parts, ok := parseFormat(ft.s)
	if !ok {
		return []strState{{ctx.st, rawApp(KStr, "call sprintf", 0, 0, ft, in.toTerm(ctx.st, av))}}
	}
	cur := []strState{{ctx.st, Str("")}}
	used := map[int]bool{}
	for _, p := range parts {
		if p.verb == "" {
			for i := range cur {
				cur[i].t = mkCat(cur[i].t, Str(p.lit))
			}
			continue
		}
		used[p.arg] = true
		var nxt []strState
		for _, c := range cur {
			if p.arg < 0 || p.arg >= len(segs) {
				nxt = append(nxt, strState{c.st, mkCat(c.t, Str("%!"+p.verb[len(p.verb)-1:]+"(MISSING)"))})
				continue
			}
			for _, r := range in.fmtArg(ctx, c.st, p.verb, segs[p.arg].v) {
				nxt = append(nxt, strState{r.st, mkCat(c.t, r.t)})
			}
		}
		cur = nxt
	}
	for i := range segs {
		if !used[i] {
			for k := range cur {
				cur[k].t = mkCat(cur[k].t, Str("%!(EXTRA)"))
			}
			break
		}
	}
	return cur
}

// fmtArg formats one argument.
func (in *Interp) fmtArg(ctx *callCtx, st *State, verb string, v Value) []strState {
	v = force(st, v)
	one := func(t *Term) []strState { return []strState{{st, t}} }
	vb := verb[len(verb)-1]
	switch x := v.(type) {
	case NilV:
		return one(Str("<nil>"))
	case *ErrV:
		return one(mkFmtV("%s", NamedSym(KStr, fmt.Sprintf("errmsg%d", x.id), 0, 0)))
	case *IfaceV:
		if vb != 'd' && vb != 'x' && vb != 'X' && vb != 'T' && vb != 'c' && vb != 'U' && vb != 'p' && !strings.Contains(verb, "#") || vb == 'x' && false {
			for _, mn := range []string{"Error", "String"} {
				fn := in.findMethod(x.typ, nil, mn)
				if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
					continue
				}
				c2 := *ctx
				c2.st = st
				c2.args = []Value{x.val}
				c2.cc = nil
				var outs []CallOut
				if in.isRepoFn(fn) || in.wrapperOfRepo(fn) {
					outs = in.callFn(&c2, fn, nil)
				} else {
					outs = []CallOut{{st, rawApp(KStr, "call "+in.fnName(fn), 0, 0, in.toTerm(st, x.val))}}
				}
				var res []strState
				for _, o := range outs {
					t, _ := o.st.resolve(o.v).(*Term)
					if t == nil {
						t = in.strOf(o.st, o.v)
					}
					if verb != "%s" && verb != "%v" && verb != "%+v" {
						t = mkFmtV("%"+verb[1:len(verb)-1]+"s", t)
					}
					res = append(res, strState{o.st, t})
				}
				return res
			}
		}
		return one(in.fmtPlain(st, verb, x.typ, x.val))
	}
	return one(in.fmtPlain(st, verb, nil, v))
}

func (in *Interp) fmtPlain(st *State, verb string, typ types.Type, v Value) *Term {
	v = force(st, v)
	vb := verb[len(verb)-1]
	switch x := v.(type) {
	case *Term:
		switch x.kind {
		case KInt:
			if verb == "%v" || verb == "%d" || verb == "%+v" {
				return mkDec(x)
			}
			if vb == 's' {
				return rawApp(KStr, "badverb", 0, 0, x)
			}
			return mkFmtInt(verb, x)
		case KStr:
			if verb == "%s" || verb == "%v" || verb == "%+v" {
				return x
			}
			return mkFmtV(verb, x)
		}
		return mkFmtV(verb, x)
	case *BufV, *BytesV, *BSliceV:
		s := in.strOf(st, v)
		if verb == "%s" {
			return s
		}
		switch verb {
		case "%x":
			return hexText(s, "", "%02x")
		case "%X":
			return hexText(s, "", "%02X")
		case "% x":
			return hexText(s, " ", "%02x")
		case "% X":
			return hexText(s, " ", "%02X")
		}
		if vb == 'v' || vb == 'd' || vb == 'q' || vb == 's' {
			return mkFmtV(verb+"[]", s)
		}
		return rawApp(KStr, "call fmt "+verb, 0, 0, s)
	}
	return rawApp(KStr, "fmtv", 0, 0, Str(verb), in.toTerm(st, v))
}

// mkTimeAdd: t shifted by d nanoseconds.
func mkTimeAdd(t, d *Term) *Term {
	if isApp(t, "time.In") {
		return mkTimeIn(mkTimeAdd(t.args[0], d), t.args[1])
	}
	const sec = 1000000000
	if isApp(t, "time.Unix") {
		c, m := linOf(d)
		whole := c%sec == 0
		s := Int(c / sec)
		for _, x := range m {
			whole = whole && x.k%sec == 0
			s = addK(s, x.a, x.k/sec)
		}
		if whole {
			return rawApp(KOther, "time.Unix", 0, 0, Add(t.args[0], s), t.args[1])
		}
	}
	return rawApp(KOther, "time.Add", 0, 0, t, d)
}

// hexText: the octets of s, each formatted with verb, sep in between.
func hexText(s *Term, sep, verb string) *Term {
	if s.op == OConst {
		var p []*Term
		for i := 0; i < len(s.s); i++ {
			if i > 0 {
				p = append(p, Str(sep))
			}
			p = append(p, mkFmtInt(verb, Int(int64(s.s[i]))))
		}
		return mkCat(p...)
	}
	if isApp(s, "bytestr") {
		return mkFmtInt(verb, s.args[0])
	}
	if isApp(s, "bufstr") {
		buf, off, n := int(s.args[0].i), s.args[1], s.args[2]
		if sep == "" {
			return mkStar(Int(0), n, mkFmtInt(verb, ByteAt(buf, Add(iotaSym, off))))
		}
		return mkGate(mkGE0(AddC(n, -1)),
			mkCat(mkFmtInt(verb, ByteAt(buf, off)), mkStar(Int(0), AddC(n, -1), mkCat(Str(sep), mkFmtInt(verb, ByteAt(buf, Add(iotaSym, AddC(off, 1))))))),
			Str(""))
	}
	if isApp(s, "gate") {
		return mkGate(s.args[0], hexText(s.args[1], sep, verb), hexText(s.args[2], sep, verb))
	}
	if isApp(s, "cat") {
		var p []*Term
		single := true
		for i, a := range s.args {
			if i > 0 {
				p = append(p, Str(sep))
			}
			single = single && (a.op == OConst || isApp(a, "bytestr"))
			p = append(p, hexText(a, sep, verb))
		}
		if single || sep == "" {
			return mkCat(p...)
		}
	}
	return rawApp(KStr, "call hex "+sep+verb, 0, 0, s)
}

func mapStr(f func(string) string, name string) modelFn {
	return func(ctx *callCtx) []CallOut {
		t := ctx.str(0)
		if t.op == OConst {
			return ctx.one(Str(f(t.s)))
		}
		return ctx.one(rawApp(KStr, name, 0, 0, t))
	}
}

func pred2(f func(a, b string) bool, name string) modelFn {
	return func(ctx *callCtx) []CallOut {
		a, b := ctx.str(0), ctx.str(1)
		if a.op == OConst && b.op == OConst {
			return ctx.one(Bool(f(a.s, b.s)))
		}
		return ctx.one(rawApp(KBool, name, 0, 0, a, b))
	}
}

func hasPrefixModel(ctx *callCtx) []CallOut {
	return ctx.one(mkHasPrefix(ctx.str(0), ctx.str(1)))
}

func binUint(n int, big bool) modelFn {
	return func(ctx *callCtx) []CallOut {
		b := ctx.arg(len(ctx.args) - 1)
		in := ctx.in
		ln := in.lenOf(ctx.st, b)
		if ln == nil {
			return in.havocCall(ctx, "binary")
		}
		cond := mkGE0(AddC(ln, -int64(n)))
		ok := ctx.st.decide(cond) == dTrue
		in.oblige("index out of range", ctx.fr, ctx.pos, ok, ctx.st, func() string {
			return fmt.Sprintf("%d-byte integer decoded from a slice of length %s", n, ln)
		})
		if !ok && !ctx.st.assume(cond) {
			return nil
		}
		s := in.strOf(ctx.st, b)
		r := Int(0)
		for i := 0; i < n; i++ {
			k := i
			if !big {
				k = n - 1 - i
			}
			r = Add(MulC(r, 256), in.byteOf(s, Int(int64(k))))
		}
		return ctx.one(r)
	}
}

// bufObj is the byte buffer object behind *bytes.Buffer / *strings.Builder.
func (ctx *callCtx) bufObj() (*PtrV, *Term) {
	p, ok := ctx.arg(0).(*PtrV)
	if !ok {
		if o, isO := ctx.arg(0).(*OpaqueV); isO {
			p = ctx.in.materialise(ctx.st, o, nil)
		} else {
			if isNilV(ctx.arg(0)) {
				ctx.in.oblige("nil dereference", ctx.fr, ctx.pos, false, ctx.st, func() string { return "method of a nil buffer" })
			}
			return nil, nil
		}
	}
	v, _ := ctx.st.load(p)
	if b, ok := v.(*BytesV); ok {
		return p, b.t
	}
	return p, nil
}

func bufWrite(conv func(ctx *callCtx) *Term, rets int) modelFn {
	return func(ctx *callCtx) []CallOut {
		p, t := ctx.bufObj()
		if p == nil {
			return nil
		}
		if t == nil {
			t = Sym(KStr, "buffer", 0, 0)
		}
		add := conv(ctx)
		ctx.st.store(p, &BytesV{t: mkCat(t, add)})
		switch rets {
		case 0:
			return ctx.one(TupleV{})
		case 1:
			return ctx.one(NilV{})
		}
		return ctx.one(TupleV{mkStrLen(add), NilV{}})
	}
}

func opaque(ctx *callCtx, name string, typ types.Type) *OpaqueV {
	return &OpaqueV{typ: typ, t: rawApp(KOther, name, 0, 0, ctx.in.argTerms(ctx)...), nonnil: true}
}

func (ctx *callCtx) res(i int) types.Type {
	s := ctx.sig()
	if s == nil || i >= s.Results().Len() {
		return types.Typ[types.Invalid]
	}
	return s.Results().At(i).Type()
}

func (in *Interp) globalErr(pkg, name string) Value {
	if sp := in.p.all[pkg]; sp != nil {
		if g := sp.Var(name); g != nil {
			return baseHeap[in.globalObj(g)]
		}
	}
	return in.newErr(pkg+"."+name, nil)
}

func init() {
	models = map[string]modelFn{}
	M := models
	E := "github.com/spiegel-im-spiegel/errs."
	wrap := func(ctx *callCtx) []CallOut {
		e := ctx.arg(0)
		if isNilV(e) {
			return ctx.one(NilV{})
		}
		causes, open := ctx.in.errOpts(ctx, ctx.arg(1))
		n := ctx.in.newErr("wrapped", nil)
		n.chain(causes...)
		if x, ok := e.(*ErrV); ok {
			n.chain(x)
			n.name = x.name
			n.msg = x.msg
		} else {
			n.open = NamedSym(KOther, "open wrap", 0, 0)
		}
		if open != nil {
			n.open = open
		}
		return ctx.one(n)
	}
	M[E+"Wrap"] = wrap
	M[E+"New"] = func(ctx *callCtx) []CallOut {
		causes, open := ctx.in.errOpts(ctx, ctx.arg(1))
		t := ctx.str(0)
		n := ctx.in.newErr(t.String(), open)
		ctx.in.errRepo[n.id] = ctx.in.initing
		n.chain(causes...)
		n.msg = t
		return ctx.one(n)
	}
	M[E+"Is"] = func(ctx *callCtx) []CallOut { return ctx.in.errsIs(ctx) }
	M["errors.Is"] = M[E+"Is"]
	M[E+"Unwrap"] = func(ctx *callCtx) []CallOut { return ctx.in.havocCall(ctx, "errs.Unwrap") }
	M[E+"WithCause"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&ModelFuncV{name: "errs.WithCause", data: ctx.arg(0)})
	}
	M[E+"WithContext"] = func(ctx *callCtx) []CallOut { return ctx.one(&ModelFuncV{name: "errs.WithContext"}) }
	M["errors.New"] = func(ctx *callCtx) []CallOut {
		n := ctx.in.newErr(ctx.str(0).String(), nil)
		ctx.in.errRepo[n.id] = ctx.in.initing
		n.msg = ctx.str(0)
		return ctx.one(n)
	}
	M["fmt.Errorf"] = func(ctx *callCtx) []CallOut {
		n := ctx.in.newErr(ctx.str(0).String(), nil)
		ctx.in.errRepo[n.id] = ctx.in.initing
		f := ctx.str(0)
		if f.op != OConst || strings.Contains(f.s, "%w") {
			segs, _ := ctx.in.listOf(ctx.st, ctx.arg(1))
			for _, s := range segs {
				if e, ok := ctx.st.resolve(s.v).(*ErrV); ok {
					n.chain(e)
				}
			}
		}
		return ctx.one(n)
	}
	M["fmt.Sprintf"] = func(ctx *callCtx) []CallOut {
		var o []CallOut
		for _, s := range ctx.in.sprintf(ctx, 0) {
			o = append(o, CallOut{s.st, s.t})
		}
		return o
	}
	sprint := func(ctx *callCtx) []CallOut {
		segs, ok := ctx.in.listOf(ctx.st, ctx.arg(0))
		if ok && len(segs) == 1 && segs[0].kind == SegSingle {
			var o []CallOut
			for _, s := range ctx.in.fmtArg(ctx, ctx.st, "%v", segs[0].v) {
				o = append(o, CallOut{s.st, s.t})
			}
			return o
		}
		if ok {
			// a space goes between two operands that are both no strings
			cur := []strState{{ctx.st, Str("")}}
			wasStr := true
			for i, sg := range segs {
				if sg.kind != SegSingle {
					return ctx.in.havocCall(ctx, "fmt.Sprint")
				}
				isStr := false
				if iv, ok := ctx.st.resolve(sg.v).(*IfaceV); ok {
					if b, ok := iv.typ.Underlying().(*types.Basic); ok {
						isStr = b.Info()&types.IsString != 0
					}
				} else {
					return ctx.in.havocCall(ctx, "fmt.Sprint")
				}
				var nxt []strState
				for _, c := range cur {
					if i > 0 && !isStr && !wasStr {
						c.t = mkCat(c.t, Str(" "))
					}
					for _, r := range ctx.in.fmtArg(ctx, c.st, "%v", sg.v) {
						nxt = append(nxt, strState{r.st, mkCat(c.t, r.t)})
					}
				}
				cur, wasStr = nxt, isStr
			}
			var o []CallOut
			for _, c := range cur {
				o = append(o, CallOut{c.st, c.t})
			}
			return o
		}
		return ctx.in.havocCall(ctx, "fmt.Sprint")
	}
	M["fmt.Sprint"] = sprint
	fprintf := func(ctx *callCtx) []CallOut {
		var o []CallOut
		w := ctx.arg(0)
		for _, s := range ctx.in.sprintf(ctx, 1) {
			o = append(o, ctx.in.writeTo(ctx, s.st, w, s.t)...)
		}
		return o
	}
	M["fmt.Fprintf"] = fprintf
	fprint := func(nl string) modelFn {
		return func(ctx *callCtx) []CallOut {
			w := ctx.arg(0)
			segs, ok := ctx.in.listOf(ctx.st, ctx.arg(1))
			cur := []strState{{ctx.st, Str("")}}
			if !ok {
				cur[0].t = Sym(KStr, "fprint", 0, 0)
			}
			for i, sg := range segs {
				var nxt []strState
				for _, c := range cur {
					if sg.kind != SegSingle {
						nxt = append(nxt, strState{c.st, Sym(KStr, "fprint", 0, 0)})
						continue
					}
					for _, r := range ctx.in.fmtArg(ctx, c.st, "%v", sg.v) {
						t := mkCat(c.t, r.t)
						if i > 0 && nl != "" {
							t = mkCat(c.t, Str(" "), r.t)
						}
						nxt = append(nxt, strState{r.st, t})
					}
				}
				cur = nxt
			}
			var o []CallOut
			for _, s := range cur {
				o = append(o, ctx.in.writeTo(ctx, s.st, w, mkCat(s.t, Str(nl)))...)
			}
			return o
		}
	}
	M["fmt.Fprintln"] = fprint("\n")
	M["fmt.Fprint"] = fprint("")
	stdout := func(nl string) modelFn {
		return func(ctx *callCtx) []CallOut {
			ctx.st.event("stdout", ctx.in.p.pos(ctx.pos), ctx.args...)
			return ctx.one(TupleV{Sym(KInt, "n", 0, maxBuf), NilV{}})
		}
	}
	M["fmt.Println"] = stdout("\n")
	M["fmt.Printf"] = stdout("")
	M["fmt.Print"] = stdout("")
	M["io.WriteString"] = func(ctx *callCtx) []CallOut {
		return ctx.in.writeTo(ctx, ctx.st, ctx.arg(0), ctx.str(1))
	}
	// strconv
	M["strconv.Itoa"] = func(ctx *callCtx) []CallOut { return ctx.one(mkDec(ctx.int(0))) }
	fmtBase := func(ctx *callCtx) []CallOut {
		b := ctx.int(1)
		if b.isInt(10) {
			return ctx.one(mkDec(ctx.int(0)))
		}
		if b.isInt(16) {
			return ctx.one(mkFmtInt("%x", ctx.int(0)))
		}
		return ctx.in.havocCall(ctx, "strconv.Format")
	}
	M["strconv.FormatInt"] = fmtBase
	M["strconv.FormatUint"] = fmtBase
	M["strconv.FormatBool"] = func(ctx *callCtx) []CallOut {
		t, ok := ctx.arg(0).(*Term)
		if !ok {
			return ctx.in.havocCall(ctx, "strconv.FormatBool")
		}
		return ctx.one(mkGate(t, Str("true"), Str("false")))
	}
	// binary
	for _, n := range []int{2, 4, 8} {
		M[fmt.Sprintf("(encoding/binary.bigEndian).Uint%d", n*8)] = binUint(n, true)
		M[fmt.Sprintf("(encoding/binary.littleEndian).Uint%d", n*8)] = binUint(n, false)
	}
	// bytes / strings
	M["bytes.Equal"] = func(ctx *callCtx) []CallOut {
		return ctx.one(bytesEq(ctx.in, ctx.str(0), ctx.str(1)))
	}
	strIndex := func(ctx *callCtx) []CallOut {
		a, b := ctx.str(0), ctx.str(1)
		if a.op == OConst && b.op == OConst {
			return ctx.one(Int(int64(strings.Index(a.s, b.s))))
		}
		return ctx.one(rawApp(KInt, "strindex", -1, maxBuf, a, b))
	}
	M["strings.Index"] = strIndex
	M["bytes.Index"] = strIndex
	M["bytes.HasPrefix"] = hasPrefixModel
	M["strings.HasPrefix"] = hasPrefixModel
	M["strings.HasSuffix"] = pred2(strings.HasSuffix, "hassuffix")
	M["strings.Contains"] = pred2(strings.Contains, "contains")
	M["strings.EqualFold"] = pred2(strings.EqualFold, "equalfold")
	M["strings.ToLower"] = mapStr(strings.ToLower, "tolower")
	M["strings.ToUpper"] = mapStr(strings.ToUpper, "toupper")
	M["strings.TrimSpace"] = mapStr(strings.TrimSpace, "trimspace")
	M["strings.TrimPrefix"] = func(ctx *callCtx) []CallOut {
		a, b := ctx.str(0), ctx.str(1)
		if a.op == OConst && b.op == OConst {
			return ctx.one(Str(strings.TrimPrefix(a.s, b.s)))
		}
		return ctx.one(rawApp(KStr, "trimprefix", 0, 0, a, b))
	}
	M["encoding/hex.EncodeToString"] = func(ctx *callCtx) []CallOut {
		return ctx.one(hexText(ctx.in.strOf(ctx.st, ctx.arg(0)), "", "%02x"))
	}
	M["strings.Repeat"] = func(ctx *callCtx) []CallOut {
		s, n := ctx.str(0), ctx.int(1)
		ok := ctx.st.decide(mkGE0(n)) == dTrue
		ctx.in.oblige("negative repeat count", ctx.fr, ctx.pos, ok, ctx.st, func() string { return "count " + n.String() })
		if !ok && !ctx.st.assume(mkGE0(n)) {
			return nil
		}
		return ctx.one(mkRepeat(s, n))
	}
	M["strings.Join"] = func(ctx *callCtx) []CallOut {
		segs, ok := ctx.in.listOf(ctx.st, ctx.arg(0))
		sep := ctx.str(1)
		if ok {
			t := Str("")
			first := true
			for _, s := range segs {
				if s.kind != SegSingle {
					if s.kind == SegStar && len(segs) == 1 {
						if r := ctx.in.joinStar(s.star, sep); r != nil {
							return ctx.one(r)
						}
					}
					return ctx.one(Sym(KStr, "join str", 0, 0))
				}
				if !first {
					t = mkCat(t, sep)
				}
				first = false
				t = mkCat(t, ctx.in.strOf(ctx.st, s.v))
			}
			return ctx.one(t)
		}
		return ctx.in.havocCall(ctx, "strings.Join")
	}
	for _, T := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		M[T+".WriteString"] = bufWrite(func(ctx *callCtx) *Term { return ctx.str(1) }, 2)
		M[T+".Write"] = bufWrite(func(ctx *callCtx) *Term { return ctx.str(1) }, 2)
		M[T+".WriteByte"] = bufWrite(func(ctx *callCtx) *Term { return mkRawByte(ctx.int(1)) }, 1)
		M[T+".WriteRune"] = bufWrite(func(ctx *callCtx) *Term { return mkChr(ctx.int(1)) }, 2)
		str := func(ctx *callCtx) []CallOut {
			if isNilV(ctx.arg(0)) {
				return ctx.one(Str("<nil>"))
			}
			p, t := ctx.bufObj()
			if p == nil {
				return nil
			}
			if t == nil {
				t = Sym(KStr, "buffer", 0, 0)
			}
			return ctx.one(t)
		}
		M[T+".String"] = str
		M[T+".Len"] = func(ctx *callCtx) []CallOut {
			p, t := ctx.bufObj()
			if p == nil {
				return nil
			}
			if t == nil {
				return ctx.one(Sym(KInt, "len", 0, maxBuf))
			}
			return ctx.one(mkStrLen(t))
		}
		M[T+".Grow"] = func(ctx *callCtx) []CallOut { return ctx.one(TupleV{}) }
		M[T+".Reset"] = func(ctx *callCtx) []CallOut {
			p, _ := ctx.bufObj()
			if p == nil {
				return nil
			}
			ctx.st.store(p, &BytesV{t: Str("")})
			return ctx.one(TupleV{})
		}
	}
	M["(*bytes.Buffer).Bytes"] = func(ctx *callCtx) []CallOut {
		p, t := ctx.bufObj()
		if p == nil {
			return nil
		}
		if t == nil {
			t = Sym(KStr, "buffer", 0, 0)
		}
		return ctx.one(&BytesV{t: t})
	}
	M["bytes.NewBufferString"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&PtrV{obj: ctx.st.alloc(&BytesV{t: ctx.str(0)})})
	}
	M["bytes.NewBuffer"] = M["bytes.NewBufferString"]
	for _, n := range []string{"bytes.NewReader", "strings.NewReader"} {
		n := n
		M[n] = func(ctx *callCtx) []CallOut {
			return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "bytesReader", 0, 0, ctx.str(0)), nonnil: true})
		}
	}
	// unicode
	M["unicode.IsControl"] = func(ctx *callCtx) []CallOut { return ctx.one(mkIsCtl(ctx.int(0))) }
	M["unicode.IsSpace"] = func(ctx *callCtx) []CallOut { return ctx.one(mkIsSpace(ctx.int(0))) }
	M["unicode/utf8.Valid"] = func(ctx *callCtx) []CallOut { return ctx.one(rawApp(KBool, "utf8valid", 0, 0, ctx.str(0))) }
	M["unicode/utf8.ValidString"] = M["unicode/utf8.Valid"]
	// time
	M["time.Unix"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "time.Unix", 0, 0, ctx.int(0), ctx.int(1)), nonnil: true})
	}
	M["(time.Time).In"] = func(ctx *callCtx) []CallOut {
		loc := ctx.arg(1)
		if isNilV(loc) {
			ctx.in.oblige("nil location", ctx.fr, ctx.pos, false, ctx.st, func() string { return "time.Time.In(nil) panics" })
			return nil
		}
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: mkTimeIn(ctx.in.toTerm(ctx.st, ctx.arg(0)), ctx.in.toTerm(ctx.st, loc)), nonnil: true})
	}
	setLoc := func(g string) modelFn {
		return func(ctx *callCtx) []CallOut {
			return ctx.one(&OpaqueV{typ: ctx.res(0), t: mkTimeIn(ctx.in.toTerm(ctx.st, ctx.arg(0)), NamedSym(KOther, "global time."+g, 0, 0)), nonnil: true})
		}
	}
	M["(time.Time).UTC"] = setLoc("UTC")
	M["(time.Time).Local"] = setLoc("Local")
	M["(time.Time).Format"] = func(ctx *callCtx) []CallOut {
		return ctx.one(rawApp(KStr, "time.Format", 0, 0, ctx.in.toTerm(ctx.st, ctx.arg(0)), ctx.str(1)))
	}
	M["(time.Time).Unix"] = func(ctx *callCtx) []CallOut {
		t := ctx.in.toTerm(ctx.st, ctx.arg(0))
		for t.op == OApp && t.name == "time.In" {
			t = t.args[0]
		}
		if t.op == OApp && t.name == "time.Unix" {
			return ctx.one(t.args[0])
		}
		return ctx.one(rawApp(KInt, "time.unixof", ninf, inf, t))
	}
	M["(time.Time).Add"] = func(ctx *callCtx) []CallOut {
		t := ctx.in.toTerm(ctx.st, ctx.arg(0))
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: mkTimeAdd(t, ctx.int(1)), nonnil: true})
	}
	// io
	M["io.NopCloser"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: ctx.in.readerTerm(ctx.st, ctx.arg(0)), nonnil: true})
	}
	M["io.TeeReader"] = func(ctx *callCtx) []CallOut { return ctx.one(opaque(ctx, "io.TeeReader", ctx.res(0))) }
	M["io.LimitReader"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "io.LimitReader", 0, 0, ctx.in.readerTerm(ctx.st, ctx.arg(0)), ctx.int(1)), nonnil: true})
	}
	M["bufio.NewReader"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: ctx.in.readerTerm(ctx.st, ctx.arg(0)), nonnil: true})
	}
	M["bufio.NewReaderSize"] = M["bufio.NewReader"]
	M["io/ioutil.NopCloser"] = M["io.NopCloser"]
	M["io.MultiReader"] = func(ctx *callCtx) []CallOut {
		segs, ok := ctx.in.listOf(ctx.st, ctx.arg(0))
		if !ok {
			return ctx.one(opaque(ctx, "io.MultiReader", ctx.res(0)))
		}
		var a []*Term
		for _, s := range segs {
			if s.kind != SegSingle {
				a = append(a, Sym(KOther, "readers", 0, 0))
				continue
			}
			a = append(a, ctx.in.readerTerm(ctx.st, s.v))
		}
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "io.MultiReader", 0, 0, a...), nonnil: true})
	}
	copyN := func(ctx *callCtx) []CallOut {
		in := ctx.in
		name := ctx.name
		w, r := ctx.arg(0), ctx.arg(1)
		lim := NamedSym(KInt, "unlimited", inf, inf)
		if strings.HasSuffix(name, "CopyN") {
			lim = ctx.int(2)
		}
		src := ctx.useReader(r)
		if in.sysEvents && name == "io.Copy" && !isBufferV(ctx.st, w) {
			t := streamAll(src)
			ctx.st.event("write", in.p.pos(ctx.pos), in.toTerm(ctx.st, w), t)
			return ctx.try("write to "+in.toTerm(ctx.st, w).String(), func(*State) Value { return TupleV{mkStrLen(t), NilV{}} },
				func(*State) Value { return TupleV{Sym(KInt, "written", 0, maxBuf), in.libErr2(name, "io.EOF")} })
		}
		ctx.st.event("copy", in.p.pos(ctx.pos), Str(name), src, lim)
		stream := src
		if strings.HasSuffix(name, "CopyN") {
			stream = rawApp(KOther, "io.LimitReader", 0, 0, src, lim)
		}
		put := func(st *State, data *Term) {
			v := w
			if iv, ok := v.(*IfaceV); ok {
				v = iv.val
			}
			if p, ok := v.(*PtrV); ok {
				if b, ok := mustLoad(st, p).(*BytesV); ok {
					st.store(p, &BytesV{t: mkCat(b.t, data)})
				}
			}
		}
		eof := Value(NilV{})
		if strings.HasSuffix(name, "CopyN") {
			eof = in.globalErr("io", "EOF")
		}
		return ctx.stream(stream, func(st *State, data *Term, n *Term, kind int) Value {
			put(st, data)
			switch kind {
			case streamFull:
				return TupleV{lim, NilV{}}
			case streamEnd:
				return TupleV{n, eof}
			}
			return TupleV{n, in.libErr2(name, "io.EOF")}
		})
	}
	M["io.CopyN"] = copyN
	M["io.Copy"] = copyN
	readAll := func(ctx *callCtx) []CallOut {
		in := ctx.in
		src := ctx.useReader(ctx.arg(0))
		ctx.st.event("copy", in.p.pos(ctx.pos), Str(ctx.name), src, NamedSym(KInt, "unlimited", inf, inf))
		return ctx.stream(src, func(st *State, data *Term, n *Term, kind int) Value {
			if kind == streamBroken {
				if in.sysEvents {
					st.event("fail", in.p.pos(ctx.pos), Str(ctx.name))
				}
				return TupleV{&BytesV{t: data}, in.libErr2(ctx.name, "io.EOF")}
			}
			return TupleV{&BytesV{t: data}, NilV{}}
		})
	}
	M["io.ReadAll"] = readAll
	M["io/ioutil.ReadAll"] = readAll
	// bytes.Reader and buffers as writers
	M["(*bytes.Reader).WriteTo"] = func(ctx *callCtx) []CallOut {
		n := Sym(KInt, "written", 0, maxBuf)
		ctx.st.event("write", ctx.in.p.pos(ctx.pos), ctx.in.toTerm(ctx.st, ctx.arg(1)), ctx.in.toTerm(ctx.st, ctx.arg(0)))
		return ctx.fork(ctx.name, TupleV{n, NilV{}}, TupleV{n, ctx.in.libErr(ctx.name)})
	}
	// bufio.Scanner
	M["bufio.NewScanner"] = func(ctx *callCtx) []CallOut {
		src := ctx.in.readerTerm(ctx.st, ctx.arg(0))
		o := ctx.st.alloc(&StructV{fields: []Value{src, Int(0)}})
		ctx.st.event("scanner", ctx.in.p.pos(ctx.pos))
		return ctx.one(&PtrV{obj: o})
	}
	M["(*bufio.Scanner).Buffer"] = func(ctx *callCtx) []CallOut {
		ctx.st.event("scanbuffer", ctx.in.p.pos(ctx.pos), ctx.int(2))
		return ctx.one(TupleV{})
	}
	M["(*bufio.Scanner).Split"] = func(ctx *callCtx) []CallOut {
		ctx.st.event("scansplit", ctx.in.p.pos(ctx.pos))
		return ctx.one(TupleV{})
	}
	M["(*bufio.Scanner).Scan"] = func(ctx *callCtx) []CallOut {
		p, ok := ctx.arg(0).(*PtrV)
		if !ok {
			return ctx.in.havocCall(ctx, "Scan")
		}
		s, ok := mustLoad(ctx.st, p).(*StructV)
		if !ok {
			return ctx.in.havocCall(ctx, "Scan")
		}
		k := s.fields[1].(*Term)
		n := scanLines(s.fields[0].(*Term))
		ctx.st.cons++
		ctx.st.store(p, &StructV{fields: []Value{s.fields[0], AddC(k, 1)}})
		// the input has n lines; the n+1st call returns false
		return ctx.one(mkGE0(AddC(Sub(n, k), -1)))
	}
	text := func(ctx *callCtx) *Term {
		p, ok := ctx.arg(0).(*PtrV)
		if ok {
			if s, ok := mustLoad(ctx.st, p).(*StructV); ok {
				return rawApp(KStr, "line", 0, 0, s.fields[0].(*Term), AddC(s.fields[1].(*Term), -1))
			}
		}
		return Sym(KStr, "line", 0, 0)
	}
	M["(*bufio.Scanner).Text"] = func(ctx *callCtx) []CallOut { return ctx.one(text(ctx)) }
	M["(*bufio.Scanner).Bytes"] = func(ctx *callCtx) []CallOut { return ctx.one(&BytesV{t: text(ctx)}) }
	M["(*bufio.Scanner).Err"] = func(ctx *callCtx) []CallOut {
		return ctx.fork("Scanner.Err", NilV{}, ctx.in.globalErr("bufio", "ErrTooLong"), ctx.in.libErr2("Scanner.Err", "bufio.ErrTooLong"))
	}
	// openpgp
	P := "golang.org/x/crypto/openpgp/packet."
	M[P+"NewOpaqueReader"] = func(ctx *callCtx) []CallOut {
		src := ctx.in.readerTerm(ctx.st, ctx.arg(0))
		o := ctx.st.alloc(&StructV{fields: []Value{src, Int(0)}})
		return ctx.one(&PtrV{obj: o})
	}
	M["(*golang.org/x/crypto/openpgp/packet.OpaqueReader).Next"] = func(ctx *callCtx) []CallOut {
		in := ctx.in
		p, ok := ctx.arg(0).(*PtrV)
		if !ok {
			if o, isO := ctx.arg(0).(*OpaqueV); isO && o.nonnil {
				ctx.st.cons++
				return in.havocCall(ctx, "OpaqueReader.Next")
			}
			in.undecided(ctx.fr, ctx.pos, "packet reader of unknown shape")
			return nil
		}
		s, ok := mustLoad(ctx.st, p).(*StructV)
		if !ok {
			in.undecided(ctx.fr, ctx.pos, "packet reader of unknown shape")
			return nil
		}
		src, isT := s.fields[0].(*Term)
		k, isK := s.fields[1].(*Term)
		if !isT || !isK {
			src, k = NamedSym(KOther, "unknown reader", 0, 0), Sym(KInt, "count", 0, maxBuf)
		}
		ctx.st.cons++
		ctx.st.store(p, &StructV{fields: append([]Value{src, AddC(k, 1)}, s.fields[2:]...)})
		n := rawApp(KInt, "npackets", 0, maxBuf, src)
		if isEmptyReader(src) {
			n = Int(0)
		}
		more := mkGE0(AddC(Sub(n, k), -1))
		tag := rawApp(KInt, "pkt.tag", 0, 63, src, k)
		body := bufferFor(rawApp(KOther, "pkt.body", 0, 0, src, k))
		mk := func(st *State) Value {
			return &PtrV{obj: st.alloc(&StructV{fields: []Value{tag, NilV{}, body}})}
		}
		base := ctx.st
		var outs []CallOut
		s1 := base.clone()
		if s1.assume(more) {
			outs = append(outs, CallOut{s1, TupleV{mk(s1), NilV{}}})
		}
		s2 := base.clone()
		if s2.assume(mkNot(more)) {
			clean := rawApp(KBool, "cleanEOF", 0, 0, src)
			if isEmptyReader(src) {
				clean = Bool(true)
			}
			s3 := s2.clone()
			if s3.assume(clean) {
				outs = append(outs, CallOut{s3, TupleV{NilV{}, in.globalErr("io", "EOF")}})
			}
			if s2.assume(mkNot(clean)) {
				outs = append(outs, CallOut{s2, TupleV{NilV{}, in.libErr2("OpaqueReader.Next", "io.EOF")}})
			}
		}
		return outs
	}
	M[P+"OpaqueSubpackets"] = func(ctx *callCtx) []CallOut {
		in := ctx.in
		src := ctx.str(0)
		l := &OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "OpaqueSubpackets", 0, 0, src), nonnil: true}
		c := rawApp(KBool, "subpackets.ok", 0, 0, src)
		s1, s2 := ctx.st.clone(), ctx.st
		var outs []CallOut
		if s1.assume(c) {
			outs = append(outs, CallOut{s1, TupleV{l, NilV{}}})
		}
		if s2.assume(mkNot(c)) {
			outs = append(outs, CallOut{s2, TupleV{NilV{}, in.libErr("OpaqueSubpackets")}})
		}
		return outs
	}
	M["golang.org/x/crypto/openpgp/armor.Decode"] = func(ctx *callCtx) []CallOut {
		in := ctx.in
		src := in.readerTerm(ctx.st, ctx.arg(0))
		ctx.st.event("armor.Decode", in.p.pos(ctx.pos), src)
		o := &OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "armor.Block", 0, 0, src), nonnil: true}
		return ctx.fork("armor.Decode", TupleV{o, NilV{}}, TupleV{NilV{}, in.globalErr("io", "EOF")}, TupleV{NilV{}, in.libErr2("armor.Decode", "io.EOF")})
	}
	// decompressors
	for _, n := range []string{"compress/flate.NewReader", "compress/bzip2.NewReader"} {
		n := n
		M[n] = func(ctx *callCtx) []CallOut {
			v := &OpaqueV{typ: ctx.res(0), t: rawApp(KOther, n, 0, 0, ctx.in.readerTerm(ctx.st, ctx.arg(0))), nonnil: true}
			return ctx.one(v)
		}
	}
	M["compress/zlib.NewReader"] = func(ctx *callCtx) []CallOut {
		v := &OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "compress/zlib.NewReader", 0, 0, ctx.in.readerTerm(ctx.st, ctx.arg(0))), nonnil: true}
		ok := rawApp(KBool, "zlib.ok", 0, 0, ctx.in.readerTerm(ctx.st, ctx.arg(0)))
		s1, s2 := ctx.st.clone(), ctx.st
		var outs []CallOut
		if s1.assume(ok) {
			outs = append(outs, CallOut{s1, TupleV{v, NilV{}}})
		}
		if s2.assume(mkNot(ok)) {
			outs = append(outs, CallOut{s2, TupleV{NilV{}, ctx.in.newErr("error of zlib.NewReader", nil)}})
		}
		return outs
	}
	closeM := func(ctx *callCtx) []CallOut {
		if ctx.in.sysEvents {
			ctx.st.event("close", ctx.in.p.pos(ctx.pos), ctx.in.toTerm(ctx.st, ctx.arg(0)))
		}
		if ctx.sig() != nil && ctx.sig().Results().Len() == 0 {
			return ctx.one(TupleV{})
		}
		return ctx.one(&OpaqueV{typ: errType, t: Sym(KOther, "closeerr", 0, 0)})
	}
	for _, n := range []string{"invoke io.ReadCloser.Close", "invoke io.Closer.Close", "(*os.File).Close", "invoke github.com/spiegel-im-spiegel/fetch.Response.Close"} {
		M[n] = closeM
	}
	M["os.Open"] = func(ctx *callCtx) []CallOut {
		v := &OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "os.Open", 0, 0, ctx.str(0)), nonnil: true}
		ctx.st.event("open", ctx.in.p.pos(ctx.pos), ctx.str(0))
		return ctx.try("os.Open", func(st *State) Value {
			st.event("acquire", ctx.in.p.pos(ctx.pos), v.t)
			return TupleV{v, NilV{}}
		}, func(*State) Value { return TupleV{NilV{}, ctx.in.libErr("os.Open")} })
	}
}

func init() { cliModels(models) }

func mkTimeIn(t, loc *Term) *Term {
	if t.op == OApp && t.name == "time.In" {
		t = t.args[0]
	}
	if loc.op == OSym && loc.name == "global time.Local" && t.op == OApp && t.name == "time.Unix" {
		return t
	}
	return rawApp(KOther, "time.In", 0, 0, t, loc)
}

// readerTerm is the source a reader reads; buffers stand for their content.
func (in *Interp) readerTerm(st *State, v Value) *Term {
	v = st.resolve(v)
	if iv, ok := v.(*IfaceV); ok {
		v = st.resolve(iv.val)
	}
	if p, ok := v.(*PtrV); ok {
		if b, ok := mustLoad(st, p).(*BytesV); ok {
			return rawApp(KOther, "bytesReader", 0, 0, b.t)
		}
	}
	return in.toTerm(st, v)
}

// useReader is the source of a reader read to its end; the second use of a
// reader sees what is left.
func (ctx *callCtx) useReader(v Value) *Term {
	src := ctx.in.readerTerm(ctx.st, v)
	n := int64(0)
	for e := ctx.st.events; e != nil; e = e.prev {
		if e.kind == "copy" && len(e.args) > 1 && e.args[1] == Value(src) {
			n++
		}
	}
	if n > 0 {
		ctx.st.event("copy", "", Str("again"), src)
		return rawApp(KOther, "rest", 0, 0, src, Int(n))
	}
	return src
}

const (
	streamFull = iota
	streamEnd
	streamBroken
)

func streamSize(src *Term) *Term {
	if src.op == OApp && src.name == "bytesReader" {
		return mkStrLen(src.args[0])
	}
	return rawApp(KInt, "stream.size", 0, maxBuf, src)
}

func streamOK(src *Term) *Term {
	if src.op == OApp && src.name == "bytesReader" {
		return Bool(true)
	}
	return rawApp(KBool, "stream.ok", 0, 0, src)
}

func streamAll(src *Term) *Term {
	if src.op == OApp && src.name == "bytesReader" {
		return src.args[0]
	}
	return rawApp(KStr, "stream.all", 0, 0, src)
}

// stream reads a source to its end, to a limit or to a failure.
func (ctx *callCtx) stream(src *Term, f func(st *State, data, n *Term, kind int) Value) []CallOut {
	var outs []CallOut
	if src.op == OApp && src.name == "io.LimitReader" {
		in, lim := src.args[0], src.args[1]
		full := mkGE0(Sub(streamSize(in), lim))
		s1 := ctx.st.clone()
		if s1.assume(full) {
			outs = append(outs, CallOut{s1, f(s1, rawApp(KStr, "stream.prefix", 0, 0, in, lim), lim, streamFull)})
		}
		if !ctx.st.assume(mkNot(full)) {
			return outs
		}
		src = in
	}
	s2 := ctx.st.clone()
	if s2.assume(streamOK(src)) {
		outs = append(outs, CallOut{s2, f(s2, streamAll(src), streamSize(src), streamEnd)})
	}
	if ctx.st.assume(mkNot(streamOK(src))) {
		outs = append(outs, CallOut{ctx.st, f(ctx.st, rawApp(KStr, "stream.part", 0, 0, src), streamSize(src), streamBroken)})
	}
	return outs
}

func isEmptyReader(src *Term) bool {
	return src.op == OApp && len(src.args) == 1 && src.args[0].op == OConst && src.args[0].kind == KStr && src.args[0].s == "" && strings.Contains(src.name, "eader")
}

func mustLoad(st *State, p *PtrV) Value {
	v, _ := st.load(p)
	return v
}

func scanLines(src *Term) *Term { return rawApp(KInt, "nlines", 0, maxBuf, src) }

// libErr2: an error whose chain does not contain the named sentinel.
func (in *Interp) libErr2(name string, not string) *ErrV {
	return in.newErr("error of "+name+" (not "+not+")", NamedSym(KOther, "open "+name+" !"+not+"!", 0, 0))
}

func (in *Interp) effect(kind, what string, ctx *callCtx) {
	ctx.st.event("effect", in.p.pos(ctx.pos), Str(kind), Str(what))
}

// bytesEq: equality of byte strings, bytewise when the lengths are known.
func bytesEq(in *Interp, a, b *Term) *Term {
	if a == b {
		return Bool(true)
	}
	la, lb := mkStrLen(a), mkStrLen(b)
	if la.op == OConst && lb.op == OConst {
		if la.i != lb.i {
			return Bool(false)
		}
		if la.i <= 32 {
			r := Bool(true)
			for i := int64(0); i < la.i; i++ {
				r = mkAnd(r, mkEQ0(Sub(in.byteOf(a, Int(i)), in.byteOf(b, Int(i)))))
			}
			return r
		}
	}
	return mkStrEq(a, b)
}

// writeTo: text t is written to writer w; returns (n, error).
func (in *Interp) writeTo(ctx *callCtx, st *State, w Value, t *Term) []CallOut {
	v := st.resolve(w)
	if iv, ok := v.(*IfaceV); ok {
		v = iv.val
	}
	if p, ok := v.(*PtrV); ok {
		if b, ok := mustLoad(st, p).(*BytesV); ok {
			st.store(p, &BytesV{t: mkCat(b.t, t)})
			return []CallOut{{st, TupleV{mkStrLen(t), NilV{}}}}
		}
	}
	st.event("write", in.p.pos(ctx.pos), in.toTerm(st, w), t)
	c2 := *ctx
	c2.st = st
	return c2.fork("write", TupleV{mkStrLen(t), NilV{}}, TupleV{Int(0), in.libErr("write")})
}

// isBufferV: w is a buffer in memory.
func isBufferV(st *State, w Value) bool {
	v := st.resolve(w)
	if iv, ok := v.(*IfaceV); ok {
		v = iv.val
	}
	if p, ok := v.(*PtrV); ok {
		_, ok := mustLoad(st, p).(*BytesV)
		return ok
	}
	return false
}

// joinStar: strings.Join over a repetition of one string.
func (in *Interp) joinStar(s *StarInfo, sep *Term) *Term {
	if len(s.alts) != 1 || len(s.alts[0].segs) != 1 || s.alts[0].segs[0].kind != SegSingle {
		return nil
	}
	t, ok := s.alts[0].segs[0].v.(*Term)
	if !ok || t.kind != KStr {
		return nil
	}
	body := substM(t, map[*Term]*Term{s.kv: iotaSym}, map[*Term]*Term{}, true)
	withSep := mkCat(mkGate(mkEQ0(iotaSym), Str(""), sep), body)
	return mkStar(Int(0), s.hi, withSep)
}

// externalGeneric: families handled uniformly.
func (in *Interp) externalGeneric(ctx *callCtx, name string) ([]CallOut, bool) {
	if strings.HasPrefix(name, "runtime.") {
		return in.havocCall(ctx, name), true
	}
	return nil, false
}
