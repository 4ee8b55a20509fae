package main

import (
	"fmt"
	"go/types"
	"net/url"
	"sort"
	"strings"
)

// Models of the command line, network and serialisation libraries.

const (
	libCobra = "github.com/spf13/cobra"
	libPflag = "github.com/spf13/pflag"
	libFetch = "github.com/spiegel-im-spiegel/fetch"
	libGocli = "github.com/spiegel-im-spiegel/gocli"
)

// try forks into success and failure; the failing branch is recorded.
func (ctx *callCtx) try(what string, ok func(st *State) Value, bad func(st *State) Value) []CallOut {
	cond := Sym(KBool, "ok "+what, 0, 0)
	s1, s2 := ctx.st.clone(), ctx.st
	var outs []CallOut
	if s1.assume(cond) {
		outs = append(outs, CallOut{s1, ok(s1)})
	}
	if s2.assume(mkNot(cond)) {
		s2.event("fail", ctx.in.p.pos(ctx.pos), Str(what))
		outs = append(outs, CallOut{s2, bad(s2)})
	}
	return outs
}

func derefStruct(st *State, v Value) *StructV {
	if p, ok := st.resolve(v).(*PtrV); ok {
		s, _ := mustLoad(st, p).(*StructV)
		return s
	}
	return nil
}

// urlTerm: the address a *url.URL stands for.
func (in *Interp) urlTerm(st *State, v Value) *Term {
	v = st.resolve(v)
	p, ok := v.(*PtrV)
	if !ok {
		return in.toTerm(st, v)
	}
	s, ok := mustLoad(st, p).(*StructV)
	ut := in.p.all["net/url"].Type("URL").Type()
	str := ut.Underlying().(*types.Struct)
	if !ok || len(s.fields) != str.NumFields() {
		return in.toTerm(st, v)
	}
	var a []*Term
	var base *Term
	for i, f := range s.fields {
		n := str.Field(i).Name()
		f = st.resolve(f)
		t := in.toTerm(st, f)
		if t.op == OApp && t.name == "url.field" {
			base = t.args[0]
			if t.args[1] == Str(n) {
				continue
			}
		} else if isNilV(f) || t == Str("") || t == Bool(false) {
			if base == nil {
				continue
			}
		}
		a = append(a, rawApp(KOther, "url."+n, 0, 0, t))
	}
	if base != nil {
		if len(a) == 0 {
			return base
		}
		return rawApp(KOther, "url.with", 0, 0, append([]*Term{base}, a...)...)
	}
	return rawApp(KOther, "url", 0, 0, a...)
}

func (in *Interp) newURL(st *State, t *Term) Value {
	ut := in.p.all["net/url"].Type("URL").Type()
	str := ut.Underlying().(*types.Struct)
	s := &StructV{}
	for i := 0; i < str.NumFields(); i++ {
		f := str.Field(i)
		ft := rawApp(kindOf(f.Type()), "url.field", 0, 0, t, Str(f.Name()))
		var v Value = ft
		if ft.kind == KOther {
			v = &OpaqueV{typ: f.Type(), t: ft}
		}
		s.fields = append(s.fields, v)
	}
	return &PtrV{obj: st.alloc(s)}
}

func kindOf(t types.Type) Kind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			return KStr
		case b.Info()&types.IsBoolean != 0:
			return KBool
		case b.Info()&types.IsInteger != 0:
			return KInt
		}
	}
	return KOther
}

// flagKind: kind of the value of a flag function, and its argument positions.
func flagFunc(m string) (kind string, isVar, isP bool, ok bool) {
	for _, k := range []string{"Bool", "Int64", "Uint", "Int", "String"} {
		if strings.HasPrefix(m, k) {
			r := m[len(k):]
			if strings.HasPrefix(r, "Var") {
				isVar = true
				r = r[3:]
			}
			if r == "P" {
				isP = true
				r = ""
			}
			return k, isVar, isP, r == ""
		}
	}
	return
}

func flagSym(kind, name string) *Term {
	switch kind {
	case "Bool":
		return NamedSym(KBool, "flag."+name, 0, 0)
	case "String":
		return NamedSym(KStr, "flag."+name, 0, 0)
	}
	return NamedSym(KInt, "flag."+name, -1<<62, 1<<62)
}

type flagReg struct {
	cmd        *Term
	persistent bool
	kind       string
	name       string
	short      string
	def        *Term
	bind       Value
	pos        string
}

func flagRegs(st *State) []flagReg {
	var out []flagReg
	for _, e := range st.eventList() {
		if e.kind != "flag" {
			continue
		}
		set := e.args[0].(*Term)
		r := flagReg{kind: e.args[1].(*Term).s, name: e.args[2].(*Term).s, short: e.args[3].(*Term).s, bind: e.args[5], pos: e.pos}
		r.def, _ = e.args[4].(*Term)
		if set.op == OApp && len(set.args) == 1 {
			r.cmd = set.args[0]
			r.persistent = set.name == "pflags"
		}
		out = append(out, r)
	}
	return out
}

// parents of a command, nearest first.
func cmdParents(st *State, c *Term) []*Term {
	var out []*Term
	cur := c
	for i := 0; i < 8; i++ {
		var up *Term
		for _, e := range st.eventList() {
			if e.kind == "addcmd" && e.args[1] == Value(cur) {
				up = e.args[0].(*Term)
			}
		}
		if up == nil {
			break
		}
		out = append(out, up)
		cur = up
	}
	return out
}

// lookupFlag finds the registration visible from flag set "flags(cmd)".
func lookupFlag(st *State, set *Term, name string) *flagReg {
	if set.op != OApp || len(set.args) != 1 {
		return nil
	}
	c := set.args[0]
	regs := flagRegs(st)
	for i := range regs {
		r := &regs[i]
		if r.name == name && r.cmd == c && (set.name == "flags" || r.persistent) {
			return r
		}
	}
	if set.name == "pflags" {
		return nil
	}
	for _, up := range cmdParents(st, c) {
		for i := range regs {
			if regs[i].name == name && regs[i].cmd == up && regs[i].persistent {
				return &regs[i]
			}
		}
	}
	return nil
}

func cliModels(M map[string]modelFn) {
	// ---- cobra and pflag
	C := "(*" + libCobra + ".Command)."
	cmdSet := func(n string) modelFn {
		return func(ctx *callCtx) []CallOut {
			return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, n, 0, 0, ctx.in.toTerm(ctx.st, ctx.arg(0))), nonnil: true})
		}
	}
	M[C+"Flags"] = cmdSet("flags")
	M[C+"LocalFlags"] = cmdSet("flags")
	M[C+"PersistentFlags"] = cmdSet("pflags")
	M[C+"Root"] = func(ctx *callCtx) []CallOut {
		ps := cmdParents(ctx.st, ctx.in.toTerm(ctx.st, ctx.arg(0)))
		if len(ps) == 0 {
			return ctx.one(ctx.arg(0))
		}
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: ps[len(ps)-1], nonnil: true})
	}
	nop := func(ctx *callCtx) []CallOut {
		if s := ctx.sig(); s != nil && s.Results().Len() == 1 {
			return ctx.one(&OpaqueV{typ: ctx.res(0), t: Sym(KOther, "ignored", 0, 0)})
		}
		return ctx.one(TupleV{})
	}
	for _, n := range []string{"MarkFlagFilename", "MarkPersistentFlagFilename", "SetArgs", "SetIn", "SetOut", "SetErr", "SetOutput", "MarkFlagRequired", "SetVersionTemplate", "SetHelpTemplate", "SetUsageTemplate"} {
		n := n
		M[C+n] = func(ctx *callCtx) []CallOut {
			ctx.st.event("cmd."+n, ctx.in.p.pos(ctx.pos), ctx.in.toTerm(ctx.st, ctx.arg(0)), ctx.in.toTerm(ctx.st, ctx.arg(1)))
			return nop(ctx)
		}
	}
	stackDepth := NamedSym(KInt, "depth of the stack", 0, 1<<30)
	M["runtime.Caller"] = func(ctx *callCtx) []CallOut {
		return ctx.one(TupleV{Sym(KInt, "pc", 0, maxBuf), Sym(KStr, "source", 0, 0), Sym(KInt, "line", 0, 1<<30), mkGE0(AddC(Sub(stackDepth, ctx.int(0)), -1))})
	}
	M["(*runtime.Func).Name"] = func(ctx *callCtx) []CallOut { return ctx.one(Sym(KStr, "function", 0, 0)) }
	M["runtime/debug.Stack"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&BytesV{t: Sym(KStr, "stack", 0, 0)})
	}
	M["runtime/debug.PrintStack"] = func(ctx *callCtx) []CallOut {
		ctx.st.event("write", ctx.in.p.pos(ctx.pos), stderrTerm, Sym(KStr, "stack", 0, 0))
		return ctx.one(TupleV{})
	}
	M[C+"AddCommand"] = func(ctx *callCtx) []CallOut {
		up := ctx.in.toTerm(ctx.st, ctx.arg(0))
		segs, ok := ctx.in.listOf(ctx.st, ctx.arg(1))
		if !ok {
			ctx.in.undecided(ctx.fr, ctx.pos, "commands added are not known")
		}
		for _, s := range segs {
			if s.kind != SegSingle {
				ctx.in.undecided(ctx.fr, ctx.pos, "commands added are not known")
				continue
			}
			ctx.st.event("addcmd", ctx.in.p.pos(ctx.pos), up, ctx.in.toTerm(ctx.st, s.v), s.v)
		}
		return ctx.one(TupleV{})
	}
	for _, g := range []string{"GenBashCompletion", "GenZshCompletion", "GenFishCompletion", "GenPowerShellCompletion", "GenPowerShellCompletionWithDesc", "GenBashCompletionV2", "GenZshCompletionNoDesc"} {
		g := g
		M[C+g] = func(ctx *callCtx) []CallOut {
			w := ctx.in.toTerm(ctx.st, ctx.arg(1))
			script := rawApp(KStr, g, 0, 0, ctx.in.toTerm(ctx.st, ctx.arg(0)))
			ctx.st.event("write", ctx.in.p.pos(ctx.pos), w, script)
			return ctx.try(g, func(*State) Value { return NilV{} }, func(*State) Value { return ctx.in.libErr(g) })
		}
	}
	F := "(*" + libPflag + ".FlagSet)."
	for _, k := range []string{"Bool", "Int", "String", "Int64", "Uint"} {
		for _, v := range []string{"", "Var"} {
			for _, p := range []string{"", "P"} {
				m := k + v + p
				M[F+m] = func(ctx *callCtx) []CallOut {
					kind, isVar, isP, _ := flagFunc(m)
					i := 1
					var bind Value
					if isVar {
						bind = ctx.arg(i)
						i++
					}
					name := ctx.str(i)
					i++
					short := Str("")
					if isP {
						short = ctx.str(i)
						i++
					}
					def := ctx.arg(i)
					if name.op != OConst || short.op != OConst {
						ctx.in.undecided(ctx.fr, ctx.pos, "name of a flag is not a constant")
						return ctx.in.havocCall(ctx, m)
					}
					if bind == nil {
						bind = &PtrV{obj: ctx.st.alloc(def)}
					} else if p, ok := bind.(*PtrV); ok {
						ctx.st.store(p, def)
					}
					ctx.st.event("flag", ctx.in.p.pos(ctx.pos), ctx.in.toTerm(ctx.st, ctx.arg(0)), Str(kind), name, short, def, bind)
					if isVar {
						return ctx.one(TupleV{})
					}
					return ctx.one(bind)
				}
			}
		}
		k := k
		M[F+"Get"+k] = func(ctx *callCtx) []CallOut {
			name := ctx.str(1)
			zero := ctx.in.zero(ctx.res(0))
			if name.op != OConst {
				ctx.in.undecided(ctx.fr, ctx.pos, "name of a flag is not a constant")
				return ctx.in.havocCall(ctx, "Get"+k)
			}
			r := lookupFlag(ctx.st, ctx.in.toTerm(ctx.st, ctx.arg(0)), name.s)
			if r == nil || r.kind != k {
				ctx.st.event("fail", ctx.in.p.pos(ctx.pos), Str("flag "+name.s+" is not defined as "+k))
				return ctx.one(TupleV{zero, ctx.in.libErr("Get" + k)})
			}
			if p, ok := r.bind.(*PtrV); ok {
				return ctx.one(TupleV{mustLoad(ctx.st, p), NilV{}})
			}
			return ctx.one(TupleV{flagSym(k, name.s), NilV{}})
		}
	}
	M[F+"Changed"] = func(ctx *callCtx) []CallOut {
		return ctx.one(rawApp(KBool, "flag.changed", 0, 0, ctx.str(1)))
	}
	M[C+"Execute"] = cobraExecute
	M[C+"ExecuteContext"] = cobraExecute
	// ---- gocli
	R := libGocli + "/rwi."
	for _, n := range []string{"WithReader", "WithWriter", "WithErrorWriter"} {
		n := n
		M[R+n] = func(ctx *callCtx) []CallOut {
			return ctx.one(&ModelFuncV{name: "rwi." + n, data: ctx.arg(0)})
		}
	}
	M[R+"New"] = func(ctx *callCtx) []CallOut {
		s := &StructV{fields: []Value{
			&OpaqueV{typ: nil, t: rawApp(KOther, "bytesReader", 0, 0, Str("")), nonnil: true},
			&OpaqueV{typ: nil, t: NamedSym(KOther, "io.Discard", 0, 0), nonnil: true},
			&OpaqueV{typ: nil, t: NamedSym(KOther, "io.Discard", 0, 0), nonnil: true}}}
		segs, ok := ctx.in.listOf(ctx.st, ctx.arg(0))
		if !ok {
			return ctx.in.havocCall(ctx, "rwi.New")
		}
		for _, sg := range segs {
			mf, ok := ctx.st.resolve(sg.v).(*ModelFuncV)
			if !ok || sg.kind != SegSingle {
				ctx.in.undecided(ctx.fr, ctx.pos, "option of rwi.New")
				continue
			}
			v := ctx.st.resolve(mf.data)
			if isNilV(v) {
				continue
			}
			switch mf.name {
			case "rwi.WithReader":
				s.fields[0] = v
			case "rwi.WithWriter":
				s.fields[1] = v
			case "rwi.WithErrorWriter":
				s.fields[2] = v
			}
		}
		return ctx.one(&PtrV{obj: ctx.st.alloc(s)})
	}
	rwiField := func(ctx *callCtx, i int) Value {
		if s := derefStruct(ctx.st, ctx.arg(0)); s != nil && len(s.fields) == 3 {
			return s.fields[i]
		}
		return &OpaqueV{t: rawApp(KOther, "rwi.field", 0, 0, ctx.in.toTerm(ctx.st, ctx.arg(0)), Int(int64(i))), nonnil: true}
	}
	W := "(*" + libGocli + "/rwi.RWI)."
	for i, n := range []string{"Reader", "Writer", "ErrorWriter"} {
		i := i
		M[W+n] = func(ctx *callCtx) []CallOut { return ctx.one(rwiField(ctx, i)) }
	}
	out := func(field int, text func(ctx *callCtx) *Term) modelFn {
		return func(ctx *callCtx) []CallOut {
			w := ctx.in.toTerm(ctx.st, rwiField(ctx, field))
			ctx.st.event("write", ctx.in.p.pos(ctx.pos), w, text(ctx))
			return ctx.try("write to "+w.String(), func(*State) Value { return NilV{} }, func(*State) Value { return ctx.in.libErr("write") })
		}
	}
	from := func(ctx *callCtx) *Term { return streamAll(ctx.in.readerTerm(ctx.st, ctx.arg(1))) }
	data := func(ctx *callCtx) *Term { return ctx.str(1) }
	vals := func(nl string) func(ctx *callCtx) *Term {
		return func(ctx *callCtx) *Term {
			segs, ok := ctx.in.listOf(ctx.st, ctx.arg(1))
			if !ok {
				return Sym(KStr, "output", 0, 0)
			}
			t := Str("")
			for i, s := range segs {
				if i > 0 && nl != "" {
					t = mkCat(t, Str(" "))
				}
				if s.kind != SegSingle {
					return Sym(KStr, "output", 0, 0)
				}
				rs := ctx.in.fmtArg(ctx, ctx.st, "%v", s.v)
				if len(rs) != 1 {
					return Sym(KStr, "output", 0, 0)
				}
				t = mkCat(t, rs[0].t)
			}
			return mkCat(t, Str(nl))
		}
	}
	M[W+"WriteFrom"] = out(1, from)
	M[W+"WriteErrFrom"] = out(2, from)
	M[W+"OutputBytes"] = out(1, data)
	M[W+"OutputErrBytes"] = out(2, data)
	M[W+"Output"] = out(1, vals(""))
	M[W+"Outputln"] = out(1, vals("\n"))
	M[W+"OutputErr"] = out(2, vals(""))
	M[W+"OutputErrln"] = out(2, vals("\n"))
	exit := func(ctx *callCtx) []CallOut {
		ctx.st.event("exit", ctx.in.p.pos(ctx.pos), ctx.arg(0))
		return ctx.one(TupleV{})
	}
	M["("+libGocli+"/exitcode.ExitCode).Exit"] = exit
	M["os.Exit"] = exit
	M[libGocli+"/signal.Context"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "signal.Context", 0, 0, ctx.in.argTerms(ctx)...), nonnil: true})
	}
	// ---- clipboard
	M["github.com/atotto/clipboard.ReadAll"] = func(ctx *callCtx) []CallOut {
		ctx.st.event("clipboard", ctx.in.p.pos(ctx.pos))
		return ctx.try("clipboard", func(*State) Value {
			return TupleV{NamedSym(KStr, "clipboard text", 0, 0), NilV{}}
		}, func(*State) Value { return TupleV{Str(""), ctx.in.libErr("clipboard.ReadAll")} })
	}
	// ---- network
	M[libFetch+".New"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "fetch.New", 0, 0, ctx.in.argTerms(ctx)...), nonnil: true})
	}
	for _, n := range []string{"WithContext", "WithRequestHeaderSet", "WithRequestHeaderAdd"} {
		n := n
		M[libFetch+"."+n] = func(ctx *callCtx) []CallOut {
			return ctx.one(&ModelFuncV{name: "fetch." + n, data: rawApp(KOther, "fetch."+n, 0, 0, ctx.in.argTerms(ctx)...)})
		}
	}
	parseURL := func(name string) modelFn {
		return func(ctx *callCtx) []CallOut {
			t := rawApp(KOther, name, 0, 0, ctx.str(0))
			return ctx.try(name, func(st *State) Value {
				return TupleV{ctx.in.newURL(st, t), NilV{}}
			}, func(*State) Value { return TupleV{NilV{}, ctx.in.libErr(name)} })
		}
	}
	M[libFetch+".URL"] = parseURL("url.Parse")
	M["net/url.Parse"] = parseURL("url.Parse")
	M["net/url.ParseRequestURI"] = parseURL("url.ParseRequestURI")
	send := func(method string) modelFn {
		return func(ctx *callCtx) []CallOut {
			u := ctx.in.urlTerm(ctx.st, ctx.arg(1))
			if isNilV(ctx.arg(1)) {
				ctx.in.oblige("nil dereference", ctx.fr, ctx.pos, false, ctx.st, func() string { return "request with a nil URL" })
				return nil
			}
			var opts []*Term
			segs, _ := ctx.in.listOf(ctx.st, ctx.arg(len(ctx.args)-1))
			for _, s := range segs {
				if mf, ok := ctx.st.resolve(s.v).(*ModelFuncV); ok {
					if t, ok := mf.data.(*Term); ok {
						opts = append(opts, t)
					}
				}
			}
			n := int64(0)
			for e := ctx.st.events; e != nil; e = e.prev {
				if e.kind == "request" {
					n++
				}
			}
			resp := rawApp(KOther, "response", 0, 0, u, Int(n))
			ctx.st.event("request", ctx.in.p.pos(ctx.pos), Str(method), u, rawApp(KOther, "opts", 0, 0, opts...), resp)
			return ctx.try("request", func(st *State) Value {
				st.event("acquire", ctx.in.p.pos(ctx.pos), resp)
				return TupleV{&OpaqueV{typ: ctx.res(0), t: resp, nonnil: true}, NilV{}}
			}, func(*State) Value { return TupleV{NilV{}, ctx.in.libErr("request")} })
		}
	}
	M["invoke "+libFetch+".Client.Get"] = send("GET")
	M["invoke "+libFetch+".Client.Post"] = send("POST")
	M["invoke "+libFetch+".Response.Body"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "response.body", 0, 0, ctx.in.toTerm(ctx.st, ctx.arg(0))), nonnil: true})
	}
	M["invoke "+libFetch+".Response.DumpBodyAndClose"] = func(ctx *callCtx) []CallOut {
		r := ctx.in.toTerm(ctx.st, ctx.arg(0))
		ctx.st.event("close", ctx.in.p.pos(ctx.pos), r)
		return ctx.try("read response", func(*State) Value {
			return TupleV{&BytesV{t: streamAll(rawApp(KOther, "response.body", 0, 0, r))}, NilV{}}
		}, func(*State) Value { return TupleV{NilV{}, ctx.in.libErr("DumpBodyAndClose")} })
	}
	// ---- url values
	M["(*net/url.URL).Query"] = func(ctx *callCtx) []CallOut {
		u := ctx.in.urlTerm(ctx.st, ctx.arg(0))
		o := ctx.st.alloc(&MapV{kv: map[string]mapEnt{}, typ: mapType(ctx.res(0)), sym: rawApp(KOther, "url.query", 0, 0, u)})
		return ctx.one(&PtrV{obj: o})
	}
	set := func(add bool) modelFn {
		return func(ctx *callCtx) []CallOut {
			p, ok := ctx.arg(0).(*PtrV)
			if ok {
				if mv, ok := ctx.st.get(p.obj).(*MapV); ok {
					if ks, ok := mapKeyOf(ctx.str(1)); ok {
						n := &MapV{kv: map[string]mapEnt{}, typ: mv.typ, sym: mv.sym}
						for a, b := range mv.kv {
							n.kv[a] = b
						}
						if _, have := n.kv[ks]; add && (have || mv.sym != nil) {
							ctx.in.undecided(ctx.fr, ctx.pos, "several values of one query parameter")
							return ctx.one(TupleV{})
						}
						n.kv[ks] = mapEnt{k: ctx.str(1), v: &ListV{segs: []Seg{{v: ctx.str(2)}}}}
						n.keys = sortedKeys(n.kv)
						ctx.st.heap[p.obj] = n
						return ctx.one(TupleV{})
					}
				}
			}
			ctx.in.undecided(ctx.fr, ctx.pos, "query of unknown shape")
			return ctx.one(TupleV{})
		}
	}
	M["(net/url.Values).Set"] = set(false)
	M["(net/url.Values).Add"] = set(true)
	M["(net/url.Values).Get"] = func(ctx *callCtx) []CallOut {
		if p, ok := ctx.arg(0).(*PtrV); ok {
			if mv, ok := ctx.st.get(p.obj).(*MapV); ok {
				if ks, ok := mapKeyOf(ctx.str(1)); ok {
					e, have := mv.kv[ks]
					if !have && mv.sym == nil {
						return ctx.one(Str(""))
					}
					if segs, ok := ctx.in.listOf(ctx.st, ctx.st.resolve(e.v)); have && ok && len(segs) > 0 && segs[0].kind == SegSingle {
						return ctx.one(ctx.in.strOf(ctx.st, segs[0].v))
					}
				}
			}
		}
		return ctx.in.havocCall(ctx, "(net/url.Values).Get")
	}
	M["(net/url.Values).Encode"] = func(ctx *callCtx) []CallOut {
		p, ok := ctx.arg(0).(*PtrV)
		if !ok {
			return ctx.in.havocCall(ctx, "Encode")
		}
		mv, ok := ctx.st.get(p.obj).(*MapV)
		if !ok {
			return ctx.in.havocCall(ctx, "Encode")
		}
		var a []*Term
		if mv.sym != nil {
			a = append(a, mv.sym)
		}
		var ks []string
		ents := map[string]*Term{}
		for _, e := range mv.kv {
			kt, ok := e.k.(*Term)
			if !ok || kt.op != OConst {
				return ctx.in.havocCall(ctx, "Encode")
			}
			segs, ok := ctx.in.listOf(ctx.st, ctx.st.resolve(e.v))
			if !ok {
				return ctx.in.havocCall(ctx, "Encode")
			}
			var vs []*Term
			vs = append(vs, kt)
			for _, s := range segs {
				vs = append(vs, ctx.in.strOf(ctx.st, s.v))
			}
			ks = append(ks, kt.s)
			ents[kt.s] = rawApp(KOther, "param", 0, 0, vs...)
		}
		sort.Strings(ks)
		for _, k := range ks {
			a = append(a, ents[k])
		}
		return ctx.one(mkQuery(a...))
	}
	M["net/url.QueryEscape"] = func(ctx *callCtx) []CallOut { return ctx.one(queryEscape(ctx.str(0))) }
	fileWrite := func(ctx *callCtx) []CallOut { return ctx.in.writeTo(ctx, ctx.st, ctx.arg(0), ctx.str(1)) }
	M["(*os.File).Write"] = fileWrite
	M["(*os.File).WriteString"] = fileWrite
	M["invoke io.Writer.Write"] = fileWrite
	M["net/url.PathEscape"] = mapStrT("path.escape")
	M["(*net/url.URL).String"] = func(ctx *callCtx) []CallOut {
		return ctx.one(rawApp(KStr, "url.String", 0, 0, ctx.in.urlTerm(ctx.st, ctx.arg(0))))
	}
	// ---- JSON
	M["encoding/json.NewDecoder"] = func(ctx *callCtx) []CallOut {
		return ctx.one(&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "json.Decoder", 0, 0, ctx.in.readerTerm(ctx.st, ctx.arg(0))), nonnil: true})
	}
	decode := func(ctx *callCtx, src *Term, dst Value) []CallOut {
		if iv, ok := dst.(*IfaceV); ok {
			dst = ctx.st.resolve(iv.val)
		}
		p, ok := dst.(*PtrV)
		if !ok {
			ctx.in.undecided(ctx.fr, ctx.pos, "JSON decoded into a value of unknown shape")
			return ctx.in.havocCall(ctx, "json.Decode")
		}
		var typ types.Type
		if iv, ok := ctx.arg(1).(*IfaceV); ok {
			typ = derefType(iv.typ)
		}
		return ctx.try("json", func(st *State) Value {
			if typ != nil {
				st.store(p, ctx.in.havocNamed(typ, rawApp(KOther, "json", 0, 0, src, Str(types.TypeString(typ, nil))), false))
			}
			return NilV{}
		}, func(*State) Value { return ctx.in.libErr("json.Decode") })
	}
	M["(*encoding/json.Decoder).Decode"] = func(ctx *callCtx) []CallOut {
		t := ctx.in.toTerm(ctx.st, ctx.arg(0))
		if t.op == OApp && t.name == "json.Decoder" {
			t = t.args[0]
		}
		return decode(ctx, streamAll(t), ctx.arg(1))
	}
	M["encoding/json.Unmarshal"] = func(ctx *callCtx) []CallOut { return decode(ctx, ctx.str(0), ctx.arg(1)) }
	marshal := func(ctx *callCtx) []CallOut {
		v := ctx.in.toTerm(ctx.st, ctx.arg(0))
		t := rawApp(KStr, "json.Marshal", 0, 0, v, Str(""), Str(""))
		if strings.HasSuffix(ctx.name, "Indent") {
			t = rawApp(KStr, "json.Marshal", 0, 0, v, ctx.str(1), ctx.str(2))
		}
		return ctx.try("json.Marshal", func(*State) Value { return TupleV{&BytesV{t: t}, NilV{}} },
			func(*State) Value { return TupleV{NilV{}, ctx.in.libErr("json.Marshal")} })
	}
	M["encoding/json.Marshal"] = marshal
	M["encoding/json.MarshalIndent"] = marshal
}

func mapType(t types.Type) *types.Map {
	m, _ := t.Underlying().(*types.Map)
	return m
}

func mapStrT(name string) modelFn {
	return func(ctx *callCtx) []CallOut { return ctx.one(rawApp(KStr, name, 0, 0, ctx.str(0))) }
}

// cobraExecute: one of the commands runs with arbitrary flags and arguments,
// or the command line is rejected.
func cobraExecute(ctx *callCtx) []CallOut {
	in := ctx.in
	root, ok := ctx.arg(0).(*PtrV)
	ct := in.p.all[libCobra].Type("Command").Type()
	if !ok {
		in.undecided(ctx.fr, ctx.pos, "command of unknown shape")
		return in.havocCall(ctx, "Execute")
	}
	var outs []CallOut
	// rejected by the command line parser
	s0 := ctx.st.clone()
	s0.event("fail", in.p.pos(ctx.pos), Str("command line"))
	s0.event("command", "", Str("(rejected)"))
	outs = append(outs, CallOut{s0, in.libErr("command line")})
	s1 := ctx.st.clone()
	s1.event("fail", in.p.pos(ctx.pos), Str("a panic"))
	s1.event("command", "", Str("(rejected)"))
	s1.panicking = true
	outs = append(outs, CallOut{s1, NilV{}})
	cmds := []*PtrV{root}
	for _, e := range ctx.st.eventList() {
		if e.kind == "addcmd" {
			if p, ok := ctx.st.resolve(e.args[2]).(*PtrV); ok {
				cmds = append(cmds, p)
			} else {
				in.undecided(ctx.fr, ctx.pos, "sub-command of unknown shape")
			}
		}
	}
	field := func(st *State, p *PtrV, name string) Value {
		s, ok := mustLoad(st, p).(*StructV)
		i := fieldIndex(ct, name)
		if !ok || i < 0 || i >= len(s.fields) {
			return nil
		}
		return st.resolve(s.fields[i])
	}
	// cobra reports an error to the writer for errors
	say := func(o CallOut) CallOut {
		if !isNilV(o.v) {
			if v, ok := field(o.st, root, "SilenceErrors").(*Term); ok && v == Bool(true) {
				return o
			}
			w := stderrTerm
			rt := in.toTerm(ctx.st, root)
			for _, e := range ctx.st.eventList() {
				if (e.kind == "cmd.SetErr" || e.kind == "cmd.SetOutput") && termOf(e.args[0]) == rt {
					w = termOf(e.args[1])
				}
			}
			o.st.event("write", in.p.pos(ctx.pos), w, Str("Error"))
		}
		return o
	}
	outs[0] = say(outs[0])
	for _, c := range cmds {
		st := ctx.st.clone()
		use := ""
		if t, ok := field(st, c, "Use").(*Term); ok && t.op == OConst {
			use = strings.SplitN(t.s, " ", 2)[0]
		}
		var al []*Term
		if segs, ok := in.listOf(st, field(st, c, "Aliases")); ok {
			for _, s := range segs {
				if t, ok := s.v.(*Term); ok {
					al = append(al, t)
				}
			}
		}
		st.event("command", in.p.pos(ctx.pos), Str(use), rawApp(KOther, "aliases", 0, 0, al...))
		cterm := in.toTerm(st, c)
		for _, r := range flagRegs(st) {
			vis := r.cmd == cterm
			for _, up := range cmdParents(st, cterm) {
				vis = vis || r.cmd == up && r.persistent
			}
			if !vis {
				continue
			}
			if p, ok := r.bind.(*PtrV); ok {
				st.store(p, flagSym(r.kind, r.name))
			}
		}
		for _, n := range []string{"Args", "PreRun", "PreRunE", "PersistentPreRun", "PersistentPreRunE", "PostRun", "PostRunE", "PersistentPostRun", "PersistentPostRunE"} {
			if v := field(st, c, n); v != nil && !isNilV(v) {
				in.undecided(ctx.fr, ctx.pos, fmt.Sprintf("command %s has %s", use, n))
			}
		}
		args := &OpaqueV{typ: types.NewSlice(types.Typ[types.String]), t: NamedSym(KOther, "args", 0, 0), nonnil: true}
		c2 := *ctx
		c2.cc = nil
		c2.st = st
		c2.args = []Value{c, args}
		if f := field(st, c, "RunE"); f != nil && !isNilV(f) {
			c2.fnv = f
			for _, o := range in.dispatchSplit(&c2) {
				outs = append(outs, say(o))
			}
			continue
		}
		if f := field(st, c, "Run"); f != nil && !isNilV(f) {
			c2.fnv = f
			for _, o := range in.dispatchSplit(&c2) {
				outs = append(outs, CallOut{o.st, NilV{}})
			}
			continue
		}
		st.event("help", in.p.pos(ctx.pos))
		outs = append(outs, CallOut{st, NilV{}})
	}
	return outs
}

func queryEscape(t *Term) *Term {
	if t.op == OConst {
		return Str(url.QueryEscape(t.s))
	}
	return rawApp(KStr, "query.escape", 0, 0, t)
}

// mkQuery: the encoded form of parameters in the order of their names, after
// those of the query of a base address if there is one.
func mkQuery(a ...*Term) *Term {
	r := Str("")
	for i, p := range a {
		if p.op != OApp || p.name != "param" || len(p.args) != 2 {
			return rawApp(KStr, "query.encode", 0, 0, a...)
		}
		sep := "&"
		if i == 0 {
			sep = ""
		}
		r = mkCat(r, Str(sep), queryEscape(p.args[0]), Str("="), queryEscape(p.args[1]))
	}
	return r
}
