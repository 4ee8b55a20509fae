package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
)

// The command line program, from main: every command with every combination
// of flags and arguments, every failure of a library call, the parser and the
// renderer as specified elsewhere.

func (in *Interp) cliRun() ([]CallOut, error) {
	in.root = "main"
	fn := in.p.pkgs[modPath].Func("main")
	if fn == nil {
		return nil, fmt.Errorf("main.main is missing")
	}
	save := in.hooks
	in.hooks = map[string]func(in *Interp, c *callCtx) ([]CallOut, bool){}
	defer func() { in.hooks = save; in.sysEvents = false }()
	in.sysEvents = true
	for n, h := range cliHooks {
		in.hooks[n] = h
	}
	st := newState()
	// a process has a name
	st.assume(mkGE0(AddC(rawApp(KInt, "len", 0, maxBuf, NamedSym(KOther, "global os.Args", 0, 0)), -1)))
	in.cliEntry = st.facts
	in.noMerge = true
	defer func() { in.noMerge = false }()
	return in.callRoot(fn, nil, st), nil
}

type hookFn = func(in *Interp, c *callCtx) ([]CallOut, bool)

var cliHooks = map[string]hookFn{
	"parse.New": func(in *Interp, ctx *callCtx) ([]CallOut, bool) {
		src := in.readerTerm(ctx.st, ctx.arg(1))
		a := []*Term{src}
		get := in.p.method("parse/context", "Context", "Get", true)
		for code := 1; code <= nOpts; code++ {
			t := Sym(KBool, "option", 0, 0)
			if get != nil {
				outs := in.callRoot(get, []Value{ctx.args[0], in.constInt("parse/context", optConsts[code-1])}, ctx.st.clone())
				if len(outs) == 1 {
					if x, ok := outs[0].st.resolve(outs[0].v).(*Term); ok {
						t = x
					}
				}
			}
			a = append(a, t)
		}
		pt := rawApp(KOther, "parser", 0, 0, a...)
		ctx.st.event("parse.New", in.p.pos(ctx.pos), pt)
		return ctx.try("parse.New", func(*State) Value {
			return TupleV{&OpaqueV{typ: ctx.res(0), t: pt, nonnil: true}, NilV{}}
		}, func(*State) Value { return TupleV{NilV{}, in.libErr("parse.New")} }), true
	},
	"(*parse.Parser).Parse": func(in *Interp, ctx *callCtx) ([]CallOut, bool) {
		pt := in.toTerm(ctx.st, ctx.arg(0))
		res := func(n string) *OpaqueV {
			return &OpaqueV{typ: ctx.res(0), t: rawApp(KOther, n, 0, 0, pt), nonnil: true}
		}
		ctx.st.event("parse.Parse", in.p.pos(ctx.pos), pt)
		return ctx.try("Parse", func(*State) Value { return TupleV{res("dump"), NilV{}} },
			func(*State) Value { return TupleV{res("part of dump"), in.libErr("Parse")} }), true
	},
	"(*parse/result.Info).ToString": func(in *Interp, ctx *callCtx) ([]CallOut, bool) {
		return ctx.one(&PtrV{obj: ctx.st.alloc(&BytesV{t: rawApp(KStr, "text", 0, 0, in.toTerm(ctx.st, ctx.arg(0)), ctx.str(1))})}), true
	},
	"(*parse/result.Info).JSON": func(in *Interp, ctx *callCtx) ([]CallOut, bool) {
		t := rawApp(KStr, "json", 0, 0, in.toTerm(ctx.st, ctx.arg(0)), ctx.int(1))
		return ctx.try("JSON", func(*State) Value {
			return TupleV{&OpaqueV{typ: ctx.res(0), t: rawApp(KOther, "bytesReader", 0, 0, t), nonnil: true}, NilV{}}
		}, func(*State) Value { return TupleV{NilV{}, in.libErr("JSON")} }), true
	},
}

func (in *Interp) showOuts(outs []CallOut) string {
	var sb strings.Builder
	for i, o := range outs {
		var ls []string
		lits, _ := o.st.facts.litsSince(in.cliEntry)
		for _, l := range lits {
			ls = append(ls, l.String())
		}
		fmt.Fprintf(&sb, "-- %d when %s\n   = %s\n", i, strings.Join(ls, " & "), showVal(o.v))
		for _, e := range o.st.eventList() {
			if e.kind == "flag" || e.kind == "addcmd" || strings.HasPrefix(e.kind, "cmd.") {
				continue
			}
			var as []string
			for _, a := range e.args {
				as = append(as, showVal(a))
			}
			fmt.Fprintf(&sb, "     %s %s @%s\n", e.kind, strings.Join(as, ", "), e.pos)
		}
	}
	return sb.String()
}

func dumpCLI(in *Interp) {
	outs, err := in.cliRun()
	fmt.Fprintln(os.Stdout, in.showOuts(outs), err)
	fmt.Println(in.showSide())
}

// ---------- rules ----------

type cliOut struct {
	cmd      string
	fails    []*Event
	events   []*Event
	writes   []*cliWrite
	requests []*Event
	acquires []*Event
	closes   map[*Term]bool
	opens    []*Event
	clip     bool
	exits    []*Event
	parsers  []*Event
	aliases  *Term
	split    bool // the rules told cases apart which the program did not
	f        *Facts
}

type cliWrite struct {
	w, text *Term
	failed  bool
	pos     string
}

func termOf(v Value) *Term {
	t, _ := v.(*Term)
	if t == nil {
		return NamedSym(KOther, "?", 0, 0)
	}
	return t
}

func readOut(o CallOut) *cliOut {
	c := &cliOut{closes: map[*Term]bool{}, f: o.st.facts, events: o.st.eventList()}
	var last *cliWrite
	for _, e := range c.events {
		switch e.kind {
		case "command":
			c.cmd = termOf(e.args[0]).s
			if len(e.args) > 1 {
				c.aliases = termOf(e.args[1])
			}
		case "fail":
			n := termOf(e.args[0])
			if last != nil && (strings.HasPrefix(n.s, "write") || strings.HasPrefix(n.s, "Gen")) {
				last.failed = true
			}
			c.fails = append(c.fails, e)
		case "write":
			last = &cliWrite{w: termOf(e.args[0]), text: termOf(e.args[1]), pos: e.pos}
			c.writes = append(c.writes, last)
		case "request":
			c.requests = append(c.requests, e)
		case "acquire":
			c.acquires = append(c.acquires, e)
		case "close":
			c.closes[termOf(e.args[0])] = true
		case "open":
			c.opens = append(c.opens, e)
		case "clipboard":
			c.clip = true
		case "exit":
			c.exits = append(c.exits, e)
		case "parse.New":
			c.parsers = append(c.parsers, e)
		case "stdout":
			c.writes = append(c.writes, &cliWrite{w: stdoutTerm, text: Sym(KStr, "printed", 0, 0), pos: e.pos})
		}
	}
	return c
}

var stdoutTerm = NamedSym(KOther, "global os.Stdout", 0, 0)
var stderrTerm = NamedSym(KOther, "global os.Stderr", 0, 0)

type cliChecker struct {
	in  *Interp
	rep *reporter
}

// opaqueTerm: t depends on a function the analysis knows nothing about.
func opaqueTerm(t *Term) bool { return unknownLib(t, 1) }

// bad reports a violation. It is not decided when one of the terms judged is
// opaque, or when the case was told apart only by the rules and the path has an
// opaque condition, which may be the same one in another form.
func (k *cliChecker) bad(c *cliOut, prop, kind, pos, detail string, judged ...*Term) {
	var ls []string
	und := false
	lits, _ := c.f.litsSince(k.in.cliEntry)
	for _, l := range lits {
		ls = append(ls, clip(l.String(), 120))
		und = und || c.split && opaqueTerm(l)
	}
	for _, t := range judged {
		und = und || opaqueTerm(t)
	}
	k.rep.add(finding{Und: und, Props: strings.Split(prop, ","), Kind: kind, Pos: pos, Root: "command " + c.cmd, Detail: detail, Path: clip(strings.Join(ls, " & "), 500)})
}

// cases evaluates f for both truth values of the conditions the path leaves open.
func (c *cliOut) cases(conds []*Term, f func(c *cliOut, v []bool)) {
	var rec func(i int, c *cliOut, v []bool)
	rec = func(i int, c *cliOut, v []bool) {
		if i == len(conds) {
			f(c, append([]bool(nil), v...))
			return
		}
		switch c.f.decide(conds[i]) {
		case dTrue:
			rec(i+1, c, append(v, true))
		case dFalse:
			rec(i+1, c, append(v, false))
		default:
			for _, b := range []bool{true, false} {
				t := conds[i]
				if !b {
					t = mkNot(t)
				}
				if nf := c.f.assume(t); nf != nil {
					c2 := *c
					c2.f = nf
					c2.split = true
					rec(i+1, &c2, append(v, b))
				}
			}
		}
	}
	rec(0, c, nil)
}

var (
	argsTerm = NamedSym(KOther, "args", 0, 0)
	arg0     *Term
)

func flagB(n string) *Term { return flagSym("Bool", n) }
func flagS(n string) *Term { return flagSym("String", n) }
func flagI(n string) *Term { return flagSym("Int", n) }

func nonEmpty(t *Term) *Term { return mkGE0(AddC(mkStrLen(t), -1)) }

func oneArg() *Term {
	return mkEQ0(AddC(rawApp(KInt, "len", 0, maxBuf, argsTerm), -1))
}

// argument: the i-th command line argument as the analysis names it.
func argument(in *Interp, i int64) *Term {
	v := in.havocNamed(types.Typ[types.String], rawApp(KOther, "elem", 0, 0, argsTerm, Int(i)), false)
	if t, ok := v.(*Term); ok {
		return t
	}
	return nil
}

func optionBits(armor *Term) []*Term {
	b := []*Term{armor}
	for _, n := range []string{"cert", "debug", "", "int", "literal", "marker", "private", "utc"} {
		if n == "" {
			b = append(b, nil)
			continue
		}
		b = append(b, flagB(n))
	}
	return b
}

// check: the rules of one way through the program.
func (k *cliChecker) check(c *cliOut) {
	k.rep.stat("paths", 1)
	// exit status
	if len(c.exits) != 1 {
		k.bad(c, "C03", "exit status", "", fmt.Sprintf("the program ends with %d exit calls", len(c.exits)))
		return
	}
	switch c.cmd {
	case "(rejected)":
		k.outcome(c, true, nil, nil)
		return
	case "gpgpdump":
		file := nonEmpty(flagS("file"))
		c.cases([]*Term{flagB("version"), flagB("clipboard"), file}, func(c *cliOut, v []bool) {
			switch {
			case v[0]:
				k.noNet(c)
				k.outcome(c, false, nil, []string{"gpgpdump"})
			case v[1] && v[2]:
				k.noNet(c)
				k.outcome(c, true, nil, nil)
			case v[1]:
				k.dumped(c, rawApp(KOther, "bytesReader", 0, 0, NamedSym(KStr, "clipboard text", 0, 0)), Bool(true))
			case v[2]:
				k.dumped(c, rawApp(KOther, "os.Open", 0, 0, flagS("file")), flagB("armor"))
			default:
				k.dumped(c, NamedSym(KOther, "global os.Stdin", 0, 0), flagB("armor"))
			}
		})
	case "fetch", "hkp", "github":
		conds := []*Term{oneArg()}
		if c.cmd == "hkp" {
			conds = append(conds, nonEmpty(flagS("keyserver")))
		}
		c.cases(conds, func(c *cliOut, v []bool) {
			for _, b := range v {
				if !b {
					k.noNet(c)
					k.outcome(c, true, nil, nil)
					return
				}
			}
			a := argument(k.in, 0)
			switch c.cmd {
			case "fetch":
				u := rawApp(KOther, "url.Parse", 0, 0, a)
				k.request(c, u)
				k.fetched(c, rawApp(KOther, "response.body", 0, 0, rawApp(KOther, "response", 0, 0, u, Int(0))), flagB("armor"))
			case "hkp":
				c.cases([]*Term{flagB("secure")}, func(c *cliOut, v []bool) {
					sch := "http"
					if v[0] {
						sch = "https"
					}
					u := rawApp(KOther, "url", 0, 0,
						rawApp(KOther, "url.Scheme", 0, 0, Str(sch)),
						rawApp(KOther, "url.Host", 0, 0, mkCat(flagS("keyserver"), Str(":"), mkDec(flagI("port")))),
						rawApp(KOther, "url.Path", 0, 0, Str("/pks/lookup")),
						rawApp(KOther, "url.RawQuery", 0, 0, mkQuery(rawApp(KOther, "param", 0, 0, Str("op"), Str("get")), rawApp(KOther, "param", 0, 0, Str("search"), a))))
					r := k.request(c, u)
					if r == nil {
						r = rawApp(KOther, "response", 0, 0, u, Int(0))
					}
					k.fetched(c, rawApp(KOther, "response.body", 0, 0, r), Bool(true))
				})
			case "github":
				c.cases([]*Term{nonEmpty(flagS("keyid"))}, func(c *cliOut, v []bool) { k.github(c, a, v[0]) })
			}
		})
	case "version":
		k.noNet(c)
		k.outcome(c, false, nil, []string{"gpgpdump"})
	case "completion":
		k.noNet(c)
		n := rawApp(KInt, "len", 0, maxBuf, argsTerm)
		c.cases([]*Term{mkEQ0(n), mkEQ0(AddC(n, -1))}, func(c *cliOut, v []bool) {
			switch {
			case v[0]:
				k.script(c, "GenBashCompletion")
			case v[1]:
				a := argument(k.in, 0)
				low := rawApp(KStr, "tolower", 0, 0, a)
				byLow := k.findInFacts(c, func(t *Term) bool { return t == low }) != nil
				var cs []*Term
				for _, s := range shells {
					if byLow {
						cs = append(cs, mkStrEq(low, Str(s[0])))
					} else {
						cs = append(cs, rawApp(KBool, "equalfold", 0, 0, a, Str(s[0])))
					}
				}
				c.cases(cs, func(c *cliOut, v []bool) {
					n, at := 0, 0
					for i, b := range v {
						if b {
							n++
							at = i
						}
					}
					switch n {
					case 0:
						k.outcome(c, true, nil, nil)
					case 1:
						k.script(c, shells[at][1])
					}
				})
			default:
				k.outcome(c, true, nil, nil)
			}
		})
	}
	// resources
	for _, e := range c.acquires {
		t := termOf(e.args[0])
		if !c.closes[t] && !c.closes[rawApp(KOther, "response.body", 0, 0, t)] {
			k.bad(c, "C15", "resource not closed", e.pos, clip(t.String(), 200)+" is not closed on every way out", t)
		}
	}
}

var shells = [][2]string{{"bash", "GenBashCompletion"}, {"zsh", "GenZshCompletion"}, {"fish", "GenFishCompletion"}, {"powershell", "GenPowerShellCompletion"}}

func (k *cliChecker) noNet(c *cliOut) {
	for _, e := range c.requests {
		k.bad(c, "C13", "network request", e.pos, "a request is sent although the command line asks for none: "+clip(showVal(e.args[1]), 200))
	}
	for _, e := range c.opens {
		k.bad(c, "C13", "file opened", e.pos, "a file is opened although the command line asks for none: "+clip(showVal(e.args[0]), 200))
	}
}

func (k *cliChecker) script(c *cliOut, gen string) {
	want := ""
	for _, w := range c.writes {
		if w.w == stdoutTerm && w.text.op == OApp && w.text.name == gen {
			want = gen
		}
	}
	if want == "" && len(c.fails) == 0 {
		k.bad(c, "C18", "completion", "", "no "+gen+" script is written to the standard output")
		return
	}
	k.outcome(c, false, func(w *cliWrite) bool { return w.text.op == OApp && w.text.name == gen }, nil)
}

// outcome: exit status and output. reject: the command line must be refused.
// ok: what is written to the standard output. errText: what the error output
// contains.
func (k *cliChecker) outcome(c *cliOut, reject bool, ok func(w *cliWrite) bool, errText []string) {
	var fails []*Event
	for _, e := range c.fails {
		fails = append(fails, e)
	}
	failed := reject || len(fails) > 0
	code := termOf(c.exits[0].args[0])
	debug := c.f.decide(flagB("debug")) == dTrue
	why := "the command line has to be refused"
	if len(fails) > 0 {
		why = "failure of " + termOf(fails[0].args[0]).s + " at " + fails[0].pos
	}
	if failed {
		if !debug && (code.op != OConst || code.i == 0) {
			k.bad(c, "C03", "failure reported as success", c.exits[0].pos, why+", but the exit status is "+code.String(), code)
		}
		for _, w := range c.writes {
			if w.w != stdoutTerm || w.failed {
				continue
			}
			if debug && !mentionsName(w.text, "dump") && !mentionsName(w.text, "part of dump") {
				continue
			}
			k.bad(c, "C03", "output in spite of failure", w.pos, why+", but "+clip(w.text.String(), 200)+" is written to the standard output", w.w)
		}
		if !debug && !told(c) && !(len(fails) == 1 && strings.HasPrefix(termOf(fails[0].args[0]).s, "write to")) {
			k.bad(c, "C03", "silent failure", c.exits[0].pos, why+", but nothing is written to the error output", c.outputs()...)
		}
		k.rep.stat("failing paths", 1)
		return
	}
	k.rep.stat("succeeding paths", 1)
	if code != Int(0) {
		k.bad(c, "C03,C18", "success reported as failure", c.exits[0].pos, "no step failed, but the exit status is "+code.String(), code)
		return
	}
	n := 0
	for _, w := range c.writes {
		if w.w == stdoutTerm {
			n++
			if ok == nil {
				k.bad(c, "C18", "unexpected output", w.pos, clip(w.text.String(), 200)+" is written to the standard output", w.w)
			} else if !ok(w) {
				k.bad(c, "C18", "wrong output", w.pos, clip(c.f.simplify(w.text).String(), 300)+" is written to the standard output", w.text)
			}
		}
	}
	if ok != nil && n != 1 {
		k.bad(c, "C18,C03", "missing output", c.exits[0].pos, fmt.Sprintf("the result is written %d times to the standard output", n), c.outputs()...)
	}
	if errText != nil {
		s := ""
		for _, w := range c.writes {
			if w.w == stderrTerm {
				s += w.text.String()
			}
		}
		for _, x := range errText {
			if !strings.Contains(s, x) {
				k.bad(c, "C18", "missing output", "", "the error output does not contain "+x, c.outputs()...)
			}
		}
	}
}

func (c *cliOut) outputs() (l []*Term) {
	for _, w := range c.writes {
		l = append(l, w.w, w.text)
	}
	return
}

func (c *cliOut) lits(k *cliChecker) []*Term {
	l, _ := c.f.litsSince(k.in.cliEntry)
	return l
}

func told(c *cliOut) bool {
	for _, w := range c.writes {
		if w.w == stderrTerm {
			return true
		}
	}
	return false
}

func mentionsName(t *Term, name string) bool {
	if t.op == OApp && t.name == name {
		return true
	}
	for _, a := range t.args {
		if mentionsName(a, name) {
			return true
		}
	}
	return false
}

// dumped: the packets read from src are dumped with the options asked for.
func (k *cliChecker) dumped(c *cliOut, src *Term, armor *Term) {
	for _, e := range c.opens {
		if termOf(e.args[0]) != flagS("file") || src.name != "os.Open" {
			k.bad(c, "C13", "file opened", e.pos, "a file is opened that the command line does not name: "+clip(showVal(e.args[0]), 200), termOf(e.args[0]))
		}
	}
	if c.cmd == "gpgpdump" {
		for _, e := range c.requests {
			k.bad(c, "C13", "network request", e.pos, "a request is sent although the command line asks for none")
		}
		if c.clip && src.name != "bytesReader" {
			k.bad(c, "C13", "clipboard", "", "the clipboard is read although the command line does not ask for it")
		}
	}
	bits := optionBits(armor)
	for _, e := range c.parsers {
		p := termOf(e.args[0])
		if p.op != OApp || len(p.args) != nOpts+1 {
			continue
		}
		if p.args[0] != src && p.args[0] != rawApp(KOther, "bytesReader", 0, 0, streamAll(src)) {
			k.bad(c, "C18", "wrong input", e.pos, "the input parsed is "+clip(p.args[0].String(), 200)+" instead of "+clip(src.String(), 200), p.args[0])
		}
		for i, b := range bits {
			if b == nil {
				continue
			}
			if got := c.f.simplify(p.args[i+1]); got != c.f.simplify(b) {
				k.bad(c, "C18", "option not passed on", e.pos, fmt.Sprintf("the option %s is %s instead of %s", strings.ToLower(optConsts[i]), got, b), got)
			}
		}
	}
	c.cases([]*Term{flagB("json"), mkGE0(AddC(flagI("indent"), -1))}, func(c *cliOut, v []bool) {
		k.outcome(c, false, func(w *cliWrite) bool {
			t := c.f.simplify(w.text)
			if t.op != OApp || len(t.args) != 2 || t.args[0].op != OApp || t.args[0].name != "dump" {
				return false
			}
			if v[0] {
				n := t.args[1]
				return t.name == "json" && (n == c.f.simplify(flagI("indent")) || !v[1] && n.op == OConst && n.i <= 0)
			}
			if t.name != "text" {
				return false
			}
			if v[1] {
				return t.args[1] == c.f.simplify(rawApp(KStr, "repeat", 0, 0, Str(" "), flagI("indent")))
			}
			return t.args[1] == Str("\t")
		}, nil)
	})
}

// request: exactly the request for u is sent.
func (k *cliChecker) request(c *cliOut, u *Term) *Term {
	var resp *Term
	for _, e := range c.requests {
		m, got := termOf(e.args[0]), c.f.simplify(termOf(e.args[1]))
		if m != Str("GET") || got != c.f.simplify(u) {
			k.bad(c, "C14", "wrong request", e.pos, m.s+" "+clip(got.String(), 300)+" instead of "+clip(u.String(), 300), m, got)
		}
		if !mentionsName(termOf(e.args[2]), "signal.Context") {
			k.bad(c, "C14", "request not cancellable", e.pos, "the request is sent without the context of the interrupt signal", termOf(e.args[2]))
		}
		resp = termOf(e.args[3])
	}
	if len(c.requests) > 1 {
		k.bad(c, "C14", "wrong request", c.requests[1].pos, fmt.Sprintf("%d requests are sent instead of one", len(c.requests)))
	}
	if len(c.requests) == 0 && len(c.fails) == 0 {
		k.bad(c, "C14", "no request", "", "no request is sent")
	}
	k.rep.stat("requests", len(c.requests))
	return resp
}

func (k *cliChecker) fetched(c *cliOut, body *Term, armor *Term) {
	c.cases([]*Term{flagB("raw")}, func(c *cliOut, v []bool) {
		if !v[0] {
			k.dumped(c, body, armor)
			return
		}
		for _, e := range c.parsers {
			k.bad(c, "C18", "raw data parsed", e.pos, "the input is read by the parser although the raw data are asked for")
		}
		want := c.f.simplify(streamAll(body))
		k.outcome(c, false, func(w *cliWrite) bool { return c.f.simplify(w.text) == want }, nil)
	})
}

// github: key of a user, by its profile or by key id.
func (k *cliChecker) github(c *cliOut, user *Term, byID bool) {
	if !byID {
		u := rawApp(KOther, "url.Parse", 0, 0, mkCat(Str("https://github.com/"), user, Str(".gpg")))
		r := k.request(c, u)
		if r == nil {
			r = rawApp(KOther, "response", 0, 0, u, Int(0))
		}
		k.fetched(c, rawApp(KOther, "bytesReader", 0, 0, streamAll(rawApp(KOther, "response.body", 0, 0, r))), Bool(true))
		return
	}
	base := rawApp(KOther, "url.Parse", 0, 0, mkCat(Str("https://api.github.com/users/"), user, Str("/gpg_keys")))
	var page *Term
	for n, e := range c.requests {
		got := termOf(e.args[1])
		page = pageOf(got, base)
		if termOf(e.args[0]) != Str("GET") || page == nil {
			k.bad(c, "C14", "wrong request", e.pos, clip(got.String(), 400)+" is not the address of the keys of the user", got)
			return
		}
		if !isPage(page, n) {
			k.bad(c, "C14", "wrong request", e.pos, "page "+page.String()+" is requested in the iteration before which as many pages were read", page)
		}
		if !mentionsName(termOf(e.args[2]), "signal.Context") {
			k.bad(c, "C14", "request not cancellable", e.pos, "the request is sent without the context of the interrupt signal", termOf(e.args[2]))
		}
	}
	k.rep.stat("requests", len(c.requests))
	if len(c.requests) == 0 || len(c.fails) > 0 {
		k.outcome(c, len(c.fails) == 0, nil, nil)
		if len(c.requests) == 0 && len(c.fails) == 0 {
			k.bad(c, "C14", "no request", "", "no request is sent")
		}
		return
	}
	kt := "[]*" + modPath + "/github.OpenPGPKey"
	isKeys := func(t *Term) bool {
		if t.op != OApp || t.name != "json" || len(t.args) != 2 || t.args[1] != Str(kt) {
			return false
		}
		r := unwrap(t.args[0], "stream.all", "response.body")
		if r == nil || r.op != OApp || r.name != "response" {
			return false
		}
		p := pageOf(r.args[0], base)
		return p != nil && r.args[1].op == OConst && isPage(p, int(r.args[1].i))
	}
	var keys *Term // those of the last request
	k.findInFacts(c, func(t *Term) bool {
		if isKeys(t) && unwrap(t.args[0], "stream.all", "response.body").args[1].isInt(int64(len(c.requests)-1)) {
			keys = t
		}
		return false
	})
	id := rawApp(KStr, "trimprefix", 0, 0, rawApp(KStr, "tolower", 0, 0, flagS("keyid")), Str("0x"))
	// what was chosen
	var data *Term
	for _, w := range c.writes {
		if w.w == stdoutTerm {
			data = rawKeyOf(w.text)
		}
	}
	for _, e := range c.parsers {
		if d := rawKeyOf(termOf(e.args[0])); d != nil {
			data = d
		}
	}
	if data == nil {
		// not found: this must be the last page
		matched := k.findInFacts(c, func(t *Term) bool {
			return t.op == OApp && t.name == "equalfold" && (t.args[0] == id || t.args[1] == id) && c.f.decide(t) == dTrue
		})
		last := false
		if keys != nil {
			last = c.f.decide(mkGE0(Sub(Int(99), rawApp(KInt, "len", 0, maxBuf, keys)))) == dTrue
		}
		if !last && matched == nil {
			k.bad(c, "C14", "search given up", c.exits[0].pos, "the search ends although the page may be full and there may be further pages", c.lits(k)...)
		}
		k.outcome(c, true, nil, nil)
		return
	}
	el := data
	for el != nil && !(el.op == OApp && el.name == "elem") {
		if len(el.args) == 0 {
			el = nil
			break
		}
		el = el.args[0]
	}
	if el == nil || !isKeys(el.args[0]) {
		k.bad(c, "C14", "wrong key", "", clip(data.String(), 200)+" is not one of the keys received", data)
		return
	}
	kid := termOf(k.in.havocNamed(types.Typ[types.String], rawApp(KOther, "fld.KeyID", 0, 0, rawApp(KOther, "deref", 0, 0, el)), false))
	if c.f.decide(rawApp(KBool, "equalfold", 0, 0, kid, id)) != dTrue && c.f.decide(rawApp(KBool, "equalfold", 0, 0, id, kid)) != dTrue {
		k.bad(c, "C14", "wrong key", "", "the key shown is not known to have the key id asked for", c.lits(k)...)
	}
	k.fetched(c, rawApp(KOther, "bytesReader", 0, 0, data), Bool(true))
}

// unwrap: the argument inside applications of the named one-place functions.
func unwrap(t *Term, names ...string) *Term {
	for _, n := range names {
		if t.op != OApp || t.name != n || len(t.args) != 1 {
			return nil
		}
		t = t.args[0]
	}
	return t
}

// findInFacts: a term of the path condition for which ok holds.
func (k *cliChecker) findInFacts(c *cliOut, ok func(t *Term) bool) *Term {
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if ok(t) {
			return t
		}
		for _, a := range t.args {
			if r := rec(a); r != nil {
				return r
			}
		}
		for _, m := range t.lm {
			if r := rec(m.a); r != nil {
				return r
			}
		}
		return nil
	}
	lits, _ := c.f.litsSince(k.in.cliEntry)
	for _, l := range lits {
		if r := rec(l); r != nil {
			return r
		}
	}
	return nil
}

func rawKeyOf(t *Term) *Term {
	if t.op == OApp && t.kind == KStr && mentionsName(t, "fld.RawKey") && t.name == "val" {
		return t
	}
	for _, a := range t.args {
		if r := rawKeyOf(a); r != nil {
			return r
		}
	}
	return nil
}

// pageOf: the page asked for, nil if u is not base with page and per_page.
func pageOf(u, base *Term) *Term {
	if u.op != OApp || u.name != "url.with" || len(u.args) != 2 || u.args[0] != base || u.args[1].name != "url.RawQuery" {
		return nil
	}
	q := u.args[1].args[0]
	if q.name != "query.encode" || len(q.args) != 3 || q.args[0] != rawApp(KOther, "url.query", 0, 0, base) {
		return nil
	}
	p, pp := q.args[1], q.args[2]
	if p.name != "param" || len(p.args) != 2 || p.args[0] != Str("page") || pp != rawApp(KOther, "param", 0, 0, Str("per_page"), Str("100")) {
		return nil
	}
	d := p.args[1]
	if d.op == OConst {
		if n, err := strconv.Atoi(d.s); err == nil && d.s == strconv.Itoa(n) {
			return Int(int64(n))
		}
		return nil
	}
	if d.op == OApp && len(d.args) == 1 {
		return d.args[0]
	}
	return nil
}

// isPage: t is the number of the page that the n-th request (from 0) on a path
// asks for, where a path shows one iteration for all those of a loop.
func isPage(t *Term, n int) bool {
	if t.isInt(int64(n) + 1) {
		return true
	}
	s := t.String()
	return (strings.HasPrefix(s, "κ") || strings.HasPrefix(s, "iters")) && strings.HasSuffix(s, fmt.Sprintf("+%d", n+1)) && !strings.Contains(s, "*")
}

type flagSpec struct {
	cmd, kind, name, short string
	persistent             bool
	def                    *Term
}

var flagTable = []flagSpec{
	{"gpgpdump", "Bool", "version", "v", false, Bool(false)},
	{"gpgpdump", "String", "file", "f", false, Str("")},
	{"gpgpdump", "Bool", "clipboard", "", false, Bool(false)},
	{"gpgpdump", "Bool", "json", "j", true, Bool(false)},
	{"gpgpdump", "Int", "indent", "", true, Int(0)},
	{"gpgpdump", "Bool", "armor", "a", true, Bool(false)},
	{"gpgpdump", "Bool", "cert", "c", true, Bool(false)},
	{"gpgpdump", "Bool", "debug", "", true, Bool(false)},
	{"gpgpdump", "Bool", "int", "i", true, Bool(false)},
	{"gpgpdump", "Bool", "literal", "l", true, Bool(false)},
	{"gpgpdump", "Bool", "marker", "m", true, Bool(false)},
	{"gpgpdump", "Bool", "private", "p", true, Bool(false)},
	{"gpgpdump", "Bool", "utc", "u", true, Bool(false)},
	{"hkp", "String", "keyserver", "", false, Str("keys.gnupg.net")},
	{"hkp", "Int", "port", "", false, Int(11371)},
	{"hkp", "Bool", "secure", "", false, Bool(false)},
	{"hkp", "Bool", "raw", "", false, Bool(false)},
	{"github", "String", "keyid", "", false, Str("")},
	{"github", "Bool", "raw", "", false, Bool(false)},
	{"fetch", "Bool", "raw", "", false, Bool(false)},
}

// checkFlags: the documented flags of the commands.
func (k *cliChecker) checkFlags(in *Interp, o CallOut) {
	st := o.st
	name := map[*Term]string{}
	ct := in.p.all[libCobra].Type("Command").Type()
	nameOf := func(v Value) {
		if p, ok := st.resolve(v).(*PtrV); ok {
			if s, ok := mustLoad(st, p).(*StructV); ok {
				if t, ok := st.resolve(s.fields[fieldIndex(ct, "Use")]).(*Term); ok && t.op == OConst {
					name[in.toTerm(st, p)] = strings.SplitN(t.s, " ", 2)[0]
				}
			}
		}
	}
	for _, e := range st.eventList() {
		if e.kind == "addcmd" {
			nameOf(e.args[2])
			if _, ok := name[termOf(e.args[0])]; !ok {
				name[termOf(e.args[0])] = "gpgpdump"
			}
		}
	}
	c := readOut(o)
	regs := flagRegs(st)
	for _, fs := range flagTable {
		k.rep.stat("flags", 1)
		found := false
		for _, r := range regs {
			if r.name != fs.name || name[r.cmd] != fs.cmd {
				continue
			}
			found = true
			if r.kind != fs.kind || r.short != fs.short || r.def != fs.def || r.persistent != fs.persistent {
				k.bad(c, "C18", "flag", r.pos, fmt.Sprintf("flag --%s of %s is %s -%s default %v persistent %v, documented is %s -%s default %v persistent %v", fs.name, fs.cmd, r.kind, r.short, r.def, r.persistent, fs.kind, fs.short, fs.def, fs.persistent))
			}
		}
		if !found {
			k.bad(c, "C18", "flag", "", "the flag --"+fs.name+" of "+fs.cmd+" is missing")
		}
	}
	for i, a := range regs {
		for _, b := range regs[:i] {
			if a.cmd != b.cmd && !(a.persistent || b.persistent) {
				continue
			}
			if a.short != "" && a.short == b.short {
				k.bad(c, "C01", "panic at start", a.pos, "shorthand -"+a.short+" is defined twice")
			}
			if a.cmd == b.cmd && a.name == b.name {
				k.bad(c, "C01", "panic at start", a.pos, "flag --"+a.name+" is defined twice")
			}
		}
	}
}

var cmdTable = map[string]string{"gpgpdump": "", "hkp": "h", "github": "gh g", "fetch": "fch f", "completion": "compl cmp", "version": "ver v"}

func cliJob(in *Interp, rep *reporter) {
	outs, err := in.cliRun()
	if err != nil {
		rep.res.Err = err.Error()
		return
	}
	k := &cliChecker{in, rep}
	rep.stat("roots", 1)
	seen := map[string]bool{}
	flagsDone := false
	for _, o := range outs {
		c := readOut(o)
		if !flagsDone {
			k.checkFlags(in, o)
			flagsDone = true
		}
		if !seen[c.cmd] && c.cmd != "(rejected)" {
			want, known := cmdTable[c.cmd]
			if known && c.aliases != nil {
				have := map[string]bool{}
				for _, a := range c.aliases.args {
					have[a.s] = true
				}
				for _, a := range strings.Fields(want) {
					if !have[a] {
						k.bad(c, "C18", "alias", "", "command "+c.cmd+" has lost its alias "+a)
					}
				}
			}
		}
		seen[c.cmd] = true
		k.check(c)
	}
	for n := range cmdTable {
		if !seen[n] {
			rep.add(finding{Props: []string{"C18"}, Kind: "command", Detail: "the command " + n + " is missing"})
		}
	}
	rep.stat("commands", len(seen))
	// paging depends on what a server answers; flags are package variables
	for _, r := range in.loopSeen {
		r.bounded = r.bounded || r.fn == "github.GetKey"
	}
	for n, w := range in.writes {
		if strings.HasPrefix(w.kind, "global") && strings.HasPrefix(w.fn, "facade.") {
			delete(in.writes, n)
		}
	}
}

func init() { otherJobs["cli"] = cliJob }
