package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RunesV is a []rune built by the program, kept as the string it denotes.
type RunesV struct{ t *Term }

type fnInfo struct {
	num   map[ssa.Value]int
	n     int
	loops map[*ssa.BasicBlock]*Loop
}

type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	id     int
}

type deferRec struct {
	call *ssa.CallCommon
	fnv  Value
	args []Value
	pos  token.Pos
}

type Frame struct {
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	defers []deferRec
	depth  int
	stack  *stackNode
	loopIn []*Loop // loops being iterated
}

type stackNode struct {
	fn   *ssa.Function
	up   *stackNode
	site token.Pos
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = append([]Value(nil), f.env...)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.loopIn = f.loopIn[:len(f.loopIn):len(f.loopIn)]
	return &n
}

type Config struct {
	fr   *Frame
	st   *State
	blk  *ssa.BasicBlock
	pred *ssa.BasicBlock
	pc   int
}

type Outcome struct {
	st   *State
	rets []Value
}

type CallOut struct {
	st *State
	v  Value
}

// Oblig is a proof obligation at a program construct.
type Oblig struct {
	kind   string
	pos    string
	fn     string
	n      int // times evaluated
	failed int
	sure   bool // the failure does not depend on values the analysis made up
	detail string
	stack  string
	root   string
}

type Interp struct {
	fixLen     int       // the length of the body if it is fixed, or -1
	notes      []finding // findings met during the analysis
	p          *Program
	infos      map[*ssa.Function]*fnInfo
	globals    map[*ssa.Global]int
	gname      map[int]string
	obl        map[string]*Oblig
	und        map[string]*Oblig // undecided constructs
	absorb     int
	fnSeen     map[*ssa.Function]int
	extSeen    map[string]int
	loopSeen   map[string]*LoopRec
	root       string
	steps      int
	budget     int
	initing    bool
	noMerge    bool
	contract   bool
	mapRev     bool
	depthMax   int
	errSeq     int
	errNames   map[int]string
	errRepo    map[int]bool // sentinels of the repository: never part of a library error
	sysEvents  bool
	cliEntry   *Facts
	writes     map[string]*Oblig // writes to global state / input buffers
	mapRanges  map[string]string
	hooks      map[string]func(in *Interp, c *callCtx) ([]CallOut, bool)
	readObs    map[string]int
	recSeen    map[string]string
	recOK      map[string]bool
	recAll     bool
	extUnknown map[string]string
	mute       int
	hookOff    int
	con        *contracts
	ifDecs     map[*ssa.If]*ifDec
	oblStack   []*oblSnap
}

type LoopRec struct {
	pos     string
	fn      string
	kind    string
	bounded bool
	why     string
	root    string
}

type splitReq struct{ c *Term }
type abortPath struct{ why string }

var mergeDebug = os.Getenv("VERIF_MERGEDEBUG") != ""

func newInterp(p *Program) *Interp {
	return &Interp{p: p, infos: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]int{}, gname: map[int]string{},
		obl: map[string]*Oblig{}, und: map[string]*Oblig{}, fnSeen: map[*ssa.Function]int{}, extSeen: map[string]int{},
		fixLen: -1, loopSeen: map[string]*LoopRec{}, budget: 40000000, contract: true, errNames: map[int]string{}, errRepo: map[int]bool{}, writes: map[string]*Oblig{}, mapRanges: map[string]string{}, readObs: map[string]int{}, recSeen: map[string]string{}, extUnknown: map[string]string{}, hooks: map[string]func(in *Interp, c *callCtx) ([]CallOut, bool){}}
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if i, ok := in.infos[fn]; ok {
		return i
	}
	i := &fnInfo{num: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		i.num[v] = i.n
		i.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if v, ok := x.(ssa.Value); ok {
				add(v)
			}
		}
	}
	i.loops = findLoops(fn)
	in.infos[fn] = i
	return i
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	out := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				l := out[s]
				if l == nil {
					l = &Loop{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: s.Index}
					out[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return out
}

func (in *Interp) fnName(fn *ssa.Function) string {
	s := fn.String()
	return strings.ReplaceAll(s, modPath+"/", "")
}

func stackStr(in *Interp, s *stackNode) string {
	var p []string
	for x := s; x != nil && len(p) < 8; x = x.up {
		p = append(p, in.fnName(x.fn))
	}
	for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
		p[i], p[j] = p[j], p[i]
	}
	return strings.Join(p, " -> ")
}

// oblige records a proof obligation; ok tells whether it is discharged.
func (in *Interp) oblige(kind string, fr *Frame, pos token.Pos, ok bool, st *State, detail func() string) {
	if in.mute > 0 {
		return
	}
	key := kind + "@" + in.p.pos(pos) + "@" + in.fnName(fr.fn)
	o := in.obl[key]
	if o == nil {
		o = &Oblig{kind: kind, pos: in.p.pos(pos), fn: in.fnName(fr.fn)}
		in.obl[key] = o
	}
	o.n++
	if !ok {
		if o.failed == 0 || !o.sure {
			d := detail()
			sure := !madeUpText(d)
			if st != nil && sure {
				ls, _ := st.facts.litsSince(nil)
				for _, l := range ls {
					sure = sure && !unknownLib(l, 0)
				}
			}
			if o.failed > 0 && !sure {
				o.failed++
				return
			}
			o.detail, o.sure = d, sure
			o.stack = stackStr(in, fr.stack)
			o.root = in.root
			if st != nil {
				o.detail += " on the path where " + clip(st.facts.String(), 600)
			}
		}
		o.failed++
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (in *Interp) undecided(fr *Frame, pos token.Pos, what string) {
	if in.mute > 0 {
		return
	}
	fn, stk := "?", ""
	if fr != nil {
		fn = in.fnName(fr.fn)
		stk = stackStr(in, fr.stack)
	}
	key := what + "@" + in.p.pos(pos) + "@" + fn
	o := in.und[key]
	if o == nil {
		o = &Oblig{kind: "undecided", pos: in.p.pos(pos), fn: fn, detail: what, stack: stk, root: in.root}
		in.und[key] = o
	}
	o.n++
}

// ---------- running functions ----------

// call runs fn on args in st and returns its outcomes.
func (in *Interp) call(fn *ssa.Function, args []Value, binds []Value, st *State, up *stackNode, depth int, site token.Pos) []Outcome {
	in.fnSeen[fn]++
	info := in.info(fn)
	fr := &Frame{fn: fn, info: info, env: make([]Value, info.n), depth: depth, stack: &stackNode{fn: fn, up: up, site: site}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[info.num[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.env[info.num[p]] = binds[i]
		}
	}
	entry := st.facts
	mark := objSeq
	evs := st.events
	saveDecs := in.ifDecs
	in.ifDecs = nil
	outs := in.run(&Config{fr: fr, st: st, blk: fn.Blocks[0]}, nil)
	in.ifDecs = saveDecs
	for i := range outs {
		if !in.initing {
			in.collect(outs[i].st, outs[i].rets, mark, evs)
		}
	}
	if len(outs) > 1 && !in.noMerge {
		n0 := len(outs)
		t0 := time.Now()
		outs = in.mergeOutcomes(outs, entry, mark, evs)
		if mergeDebug && n0 > 3 {
			fmt.Fprintf(os.Stderr, "%s%s: %d -> %d (%v)\n", strings.Repeat(" ", depth), in.fnName(fn), n0, len(outs), time.Since(t0))
		}
	}
	return outs
}

type loopRun struct {
	loop  *Loop
	backs []*Config
	exits []*Config
	rets  []Outcome
}

// run explores the paths from cfg; lr != nil: within one iteration of a loop.
func (in *Interp) run(cfg *Config, lr *loopRun) []Outcome {
	var rets []Outcome
	work := []*Config{cfg}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		outs, r := in.runBlock(c, lr)
		rets = append(rets, r...)
		work = append(work, outs...)
		if in.steps > in.budget {
			in.undecided(c.fr, c.fr.fn.Pos(), "analysis budget exceeded")
			return rets
		}
	}
	return rets
}

// enter moves c to block b coming from c.blk, handling loop heads.
func (in *Interp) enter(c *Config, b *ssa.BasicBlock, lr *loopRun) ([]*Config, []Outcome) {
	from := c.blk
	if lr != nil {
		if b == lr.loop.head {
			c.pred, c.blk, c.pc = from, b, 0
			lr.backs = append(lr.backs, c)
			return nil, nil
		}
		if !lr.loop.blocks[b] {
			c.pred, c.blk, c.pc = from, b, 0
			lr.exits = append(lr.exits, c)
			return nil, nil
		}
	}
	c.pred, c.blk, c.pc = from, b, 0
	if l := c.fr.info.loops[b]; l != nil {
		exits, rets := in.runLoop(c, l)
		var out []*Config
		for _, e := range exits {
			// the exit target itself may be a loop head or outside lr
			tgt := e.blk
			e.blk = e.pred
			o, r := in.enter(e, tgt, lr)
			out = append(out, o...)
			rets = append(rets, r...)
		}
		return out, rets
	}
	return []*Config{c}, nil
}

func (in *Interp) runBlock(c *Config, lr *loopRun) (next []*Config, rets []Outcome) {
	// phis
	if c.pc == 0 {
		in.doPhis(c)
	}
	instrs := c.blk.Instrs
	for c.pc < len(instrs) {
		in.steps++
		ins := instrs[c.pc]
		switch x := ins.(type) {
		case *ssa.Phi:
			c.pc++
			continue
		case *ssa.If:
			cv, split := in.tryEval(c, func() Value { return in.boolVal(c, x.Cond) })
			if split != nil {
				return in.doSplit(c, split.c), rets
			}
			ct := cv.(*Term)
			if in.ifDecs != nil && lr != nil {
				e0, e1 := !lr.loop.blocks[c.blk.Succs[0]], !lr.loop.blocks[c.blk.Succs[1]]
				if e0 || e1 {
					dd := in.ifDecs[x]
					if dd == nil {
						dd = &ifDec{}
						in.ifDecs[x] = dd
					}
					if ct.op != OConst {
						dd.open = true
					} else if ct.b && e0 || !ct.b && e1 {
						dd.exit = true
					} else {
						dd.stay = true
					}
				}
			}
			d := c.st.decide(ct)
			if d == dUnknown {
				if n := in.ifConvert(c, ct, lr); n != nil {
					return []*Config{n}, rets
				}
			}
			if d != dFalse {
				n := c
				if d == dUnknown {
					n = &Config{fr: c.fr.clone(), st: c.st.clone(), blk: c.blk, pred: c.pred}
					if !n.st.assume(ct) {
						n = nil
					}
				}
				if n != nil {
					o, r := in.enter(n, c.blk.Succs[0], lr)
					next = append(next, o...)
					rets = append(rets, r...)
				}
			}
			if d != dTrue {
				n := &Config{fr: c.fr, st: c.st, blk: instrs[len(instrs)-1].Block(), pred: c.pred}
				if d == dUnknown && !n.st.assume(mkNot(ct)) {
					n = nil
				}
				if n != nil {
					o, r := in.enter(n, ins.Block().Succs[1], lr)
					next = append(next, o...)
					rets = append(rets, r...)
				}
			}
			return
		case *ssa.Jump:
			o, r := in.enter(c, c.blk.Succs[0], lr)
			return o, append(rets, r...)
		case *ssa.Return:
			var rv []Value
			_, split := in.tryEval(c, func() Value {
				rv = nil
				for _, r := range x.Results {
					rv = append(rv, in.val(c, r))
				}
				return nil
			})
			if split != nil {
				return in.doSplit(c, split.c), rets
			}
			rets = append(rets, Outcome{st: c.st, rets: rv})
			return
		case *ssa.Panic:
			in.oblige("explicit panic", c.fr, x.Pos(), false, c.st, func() string { return "panic is reachable" })
			return
		case *ssa.RunDefers:
			outs := in.runDefers(c)
			c.pc++
			if len(outs) == 1 {
				c.st = outs[0]
				continue
			}
			for _, s := range outs {
				n := &Config{fr: c.fr.clone(), st: s, blk: c.blk, pred: c.pred, pc: c.pc}
				o, r := in.runBlock(n, lr)
				next = append(next, o...)
				rets = append(rets, r...)
			}
			return
		}
		outs, split, dead := in.step(c, ins)
		if split != nil {
			return in.doSplit(c, split.c), rets
		}
		if dead {
			return
		}
		c.pc++
		if outs == nil {
			continue
		}
		v, isVal := ins.(ssa.Value)
		if len(outs) == 1 && !outs[0].st.panicking {
			c.st = outs[0].st
			if isVal {
				c.fr.env[c.fr.info.num[v]] = outs[0].v
			}
			continue
		}
		for _, o := range outs {
			n := &Config{fr: c.fr.clone(), st: o.st, blk: c.blk, pred: c.pred, pc: c.pc}
			if o.st.panicking {
				rets = append(rets, in.unwind(n)...)
				continue
			}
			if isVal {
				n.fr.env[n.fr.info.num[v]] = o.v
			}
			ns, r := in.runBlock(n, lr)
			next = append(next, ns...)
			rets = append(rets, r...)
		}
		return
	}
	return
}

func (in *Interp) doPhis(c *Config) {
	if c.pred == nil {
		return
	}
	idx := -1
	for i, p := range c.blk.Preds {
		if p == c.pred {
			idx = i
			break
		}
	}
	if idx < 0 {
		return
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, ins := range c.blk.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, in.val(c, ph.Edges[idx]))
	}
	for i, ph := range phis {
		c.fr.env[c.fr.info.num[ph]] = vals[i]
	}
}

func (in *Interp) doSplit(c *Config, cond *Term) []*Config {
	var out []*Config
	a := &Config{fr: c.fr.clone(), st: c.st.clone(), blk: c.blk, pred: nil, pc: c.pc}
	if c.pc == 0 {
		a.pred = nil // phis already evaluated
	}
	if a.st.assume(cond) {
		out = append(out, a)
	}
	b := &Config{fr: c.fr, st: c.st, blk: c.blk, pred: nil, pc: c.pc}
	if b.st.assume(mkNot(cond)) {
		out = append(out, b)
	}
	return out
}

func (in *Interp) tryEval(c *Config, f func() Value) (v Value, sp *splitReq) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(splitReq); ok {
				sp = &s
				return
			}
			panic(r)
		}
	}()
	return f(), nil
}

// unwind leaves a function by a panic.
func (in *Interp) unwind(c *Config) []Outcome {
	c.st.panicking, c.st.pending = false, true
	var outs []Outcome
	fr := c.fr
	for _, s := range in.runDefers(c) {
		if s.pending {
			s.pending, s.panicking = false, true
			outs = append(outs, Outcome{st: s})
			continue
		}
		if fr.fn.Recover == nil {
			o := Outcome{st: s}
			for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
				o.rets = append(o.rets, in.zero(fr.fn.Signature.Results().At(i).Type()))
			}
			outs = append(outs, o)
			continue
		}
		_, r := in.runBlock(&Config{fr: fr.clone(), st: s, blk: fr.fn.Recover}, nil)
		outs = append(outs, r...)
	}
	return outs
}

func (in *Interp) runDefers(c *Config) []*State {
	states := []*State{c.st}
	for i := len(c.fr.defers) - 1; i >= 0; i-- {
		d := c.fr.defers[i]
		var nxt []*State
		for _, s := range states {
			ctx := &callCtx{in: in, fr: c.fr, st: s, cc: d.call, args: d.args, fnv: d.fnv, pos: d.pos, isDefer: true}
			for _, o := range in.dispatchSplit(ctx) {
				nxt = append(nxt, o.st)
			}
		}
		states = nxt
	}
	c.fr.defers = nil
	return states
}

// ---------- evaluation ----------

func (in *Interp) val(c *Config, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return &PtrV{obj: in.globalObj(x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		return &ModelFuncV{name: "builtin." + x.Name()}
	}
	n, ok := c.fr.info.num[v]
	if !ok {
		return nil
	}
	r := c.fr.env[n]
	if g, ok := r.(*GateV); ok {
		return c.st.resolve(g)
	}
	return r
}

// strict evaluates v, splitting on undecided gates.
func (in *Interp) strict(c *Config, v ssa.Value) Value {
	return force(c.st, in.val(c, v))
}

func force(st *State, v Value) Value {
	v = st.resolve(v)
	if g, ok := v.(*GateV); ok {
		panic(splitReq{g.c})
	}
	return v
}

func (in *Interp) boolVal(c *Config, v ssa.Value) *Term {
	x := in.val(c, v)
	if g, ok := x.(*GateV); ok {
		panic(splitReq{g.c})
	}
	if t, ok := x.(*Term); ok && t.kind == KBool {
		return t
	}
	return Sym(KBool, "?", 0, 0)
}

func (in *Interp) globalObj(g *ssa.Global) int {
	if o, ok := in.globals[g]; ok {
		return o
	}
	objSeq++
	o := objSeq
	in.globals[g] = o
	in.gname[o] = g.String()
	elem := g.Type().(*types.Pointer).Elem()
	if g.Pkg != nil && isRepoPath(g.Pkg.Pkg.Path()) {
		baseHeap[o] = in.zero(elem)
	} else {
		baseHeap[o] = in.extGlobal(g, elem)
	}
	return o
}

func (in *Interp) extGlobal(g *ssa.Global, t types.Type) Value {
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		return in.newErr(g.String(), nil)
	}
	tt := NamedSym(KOther, "global "+g.String(), 0, 0)
	return in.havocNamed(t, tt, true)
}

func (in *Interp) newErr(name string, open *Term) *ErrV {
	in.errSeq++
	in.errNames[in.errSeq] = name
	return &ErrV{id: in.errSeq, name: name, ids: []int{in.errSeq}, open: open}
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return in.zero(c.Type())
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case b.Info()&types.IsString != 0:
			return Str(constant.StringVal(c.Value))
		case b.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return Int(i)
			}
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return NamedSym(KInt, fmt.Sprintf("const %d", u), math.MaxInt64, math.MaxInt64)
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return Float(f)
		}
	}
	return &OpaqueV{typ: c.Type(), t: NamedSym(KOther, "const "+c.Value.ExactString(), 0, 0), nonnil: true}
}

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func namedPath(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Path() + "." + n.Obj().Name()
	}
	return ""
}

func (in *Interp) zero(t types.Type) Value {
	switch namedPath(t) {
	case "bytes.Buffer", "strings.Builder":
		return &BytesV{t: Str("")}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(false)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsFloat != 0:
			return Float(0)
		}
		return NilV{}
	case *types.Struct:
		s := &StructV{fields: make([]Value, u.NumFields())}
		for i := range s.fields {
			s.fields[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByteType(u.Elem()) {
			if u.Len() <= 1<<16 {
				return &BytesV{t: Str(strings.Repeat("\x00", int(u.Len())))}
			}
			return &BytesV{t: Sym(KStr, "array", 0, 0)}
		}
		l := &ListV{}
		for i := int64(0); i < u.Len() && i < 4096; i++ {
			l.segs = append(l.segs, Seg{v: in.zero(u.Elem())})
		}
		return l
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, in.zero(u.At(i).Type()))
		}
		return tv
	}
	return NilV{}
}

func intRange(t types.Type) (int64, int64, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -1 << 15, 1<<15 - 1, true
	case types.Int32, types.UntypedRune:
		return -1 << 31, 1<<31 - 1, true
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 1<<16 - 1, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf, true
	}
	return ninf, inf, true
}

// havocNamed: an arbitrary value of type t with provenance tt.
func (in *Interp) havocNamed(t types.Type, tt *Term, nonnil bool) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return rawApp(KBool, "val", 0, 0, tt)
		case u.Info()&types.IsString != 0:
			return rawApp(KStr, "val", 0, 0, tt)
		case u.Info()&types.IsInteger != 0:
			lo, hi, _ := intRange(t)
			return rawApp(KInt, "val", lo, hi, tt)
		case u.Info()&types.IsFloat != 0:
			return rawApp(KFloat, "val", 0, 0, tt)
		}
	case *types.Struct:
		if namedPath(t) == "bytes.Buffer" {
			return &BytesV{t: rawApp(KStr, "val", 0, 0, tt)}
		}
		s := &StructV{fields: make([]Value, u.NumFields())}
		for i := range s.fields {
			s.fields[i] = in.havocNamed(u.Field(i).Type(), rawApp(KOther, "fld."+u.Field(i).Name(), 0, 0, tt), false)
		}
		return s
	case *types.Slice:
		if isByteType(u.Elem()) && nonnil {
			return bufferFor(tt)
		}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, in.havocNamed(u.At(i).Type(), rawApp(KOther, fmt.Sprintf("res%d", i), 0, 0, tt), nonnil))
		}
		return tv
	}
	return &OpaqueV{typ: t, t: tt, nonnil: nonnil}
}

// deref resolves a value used as a pointer; nil obligations are recorded.
func (in *Interp) deref(c *Config, v Value, elem types.Type, pos token.Pos, what string) *PtrV {
	v = force(c.st, v)
	switch x := v.(type) {
	case *PtrV:
		in.oblige("nil dereference", c.fr, pos, true, nil, nil)
		return x
	case NilV:
		in.oblige("nil dereference", c.fr, pos, false, c.st, func() string { return what + " of a nil pointer" })
		return nil
	case *OpaqueV:
		if !x.nonnil {
			isnil := nilTerm(x)
			switch c.st.decide(isnil) {
			case dTrue:
				in.oblige("nil dereference", c.fr, pos, false, c.st, func() string { return what + " of a nil pointer" })
				return nil
			case dUnknown:
				in.oblige("nil dereference", c.fr, pos, false, c.st, func() string { return what + " of " + x.t.String() + ", which may be nil" })
				if !c.st.assume(mkNot(isnil)) {
					return nil
				}
			default:
				in.oblige("nil dereference", c.fr, pos, true, nil, nil)
			}
		} else {
			in.oblige("nil dereference", c.fr, pos, true, nil, nil)
		}
		return in.materialise(c.st, x, elem)
	}
	in.undecided(c.fr, pos, fmt.Sprintf("%s through a value of unknown shape (%T)", what, v))
	return nil
}

func nilTerm(x *OpaqueV) *Term { return rawApp(KBool, "isnil", 0, 0, x.t) }

func (in *Interp) materialise(st *State, x *OpaqueV, elem types.Type) *PtrV {
	if o, ok := st.opq[x.t]; ok {
		return &PtrV{obj: o}
	}
	if elem == nil {
		if p, ok := x.typ.Underlying().(*types.Pointer); ok {
			elem = p.Elem()
		}
	}
	o := st.alloc(in.havocNamed(elem, rawApp(KOther, "deref", 0, 0, x.t), false))
	st.opq[x.t] = o
	return &PtrV{obj: o}
}

// step executes one non-control instruction.
func (in *Interp) step(c *Config, ins ssa.Instruction) (outs []CallOut, sp *splitReq, dead bool) {
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case splitReq:
				sp = &s
				return
			case abortPath:
				dead = true
				return
			}
			panic(r)
		}
	}()
	set := func(v Value) {
		c.fr.env[c.fr.info.num[ins.(ssa.Value)]] = v
	}
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		elem := x.Type().(*types.Pointer).Elem()
		set(&PtrV{obj: c.st.alloc(in.zero(elem))})
	case *ssa.FieldAddr:
		elem := x.X.Type().Underlying().(*types.Pointer).Elem()
		p := in.deref(c, in.val(c, x.X), elem, x.Pos(), "field access")
		if p == nil {
			return nil, nil, true
		}
		set(&PtrV{obj: p.obj, path: fmt.Sprintf("%s.%d", p.path, x.Field)})
	case *ssa.Field:
		v := in.strict(c, x.X)
		switch s := v.(type) {
		case *StructV:
			set(s.fields[x.Field])
		case *OpaqueV:
			st := x.X.Type().Underlying().(*types.Struct)
			set(in.havocNamed(x.Type(), rawApp(KOther, "fld."+st.Field(x.Field).Name(), 0, 0, s.t), false))
		default:
			in.undecided(c.fr, x.Pos(), fmt.Sprintf("field of a value of unknown shape (%T)", v))
			return nil, nil, true
		}
	case *ssa.UnOp:
		return in.unop(c, x, set)
	case *ssa.BinOp:
		set(in.binop(c, x))
	case *ssa.Store:
		p := in.deref(c, in.val(c, x.Addr), nil, x.Pos(), "store")
		if p == nil {
			return nil, nil, true
		}
		in.storeTo(c, p, in.val(c, x.Val), x.Pos())
	case *ssa.MapUpdate:
		in.mapUpdate(c, x)
	case *ssa.IndexAddr:
		v := in.indexAddr(c, x)
		if v == nil {
			return nil, nil, true
		}
		set(v)
	case *ssa.Index:
		v := in.index(c, x)
		if v == nil {
			return nil, nil, true
		}
		set(v)
	case *ssa.Slice:
		v := in.slice(c, x)
		if v == nil {
			return nil, nil, true
		}
		set(v)
	case *ssa.Lookup:
		v := in.lookup(c, x)
		if v == nil {
			return nil, nil, true
		}
		set(v)
	case *ssa.MakeInterface:
		v := in.val(c, x.X)
		set(in.makeIface(c.st, x.X.Type(), v))
	case *ssa.ChangeInterface:
		set(in.val(c, x.X))
	case *ssa.ChangeType:
		set(in.val(c, x.X))
	case *ssa.Convert:
		set(in.convert(c.fr, c.st, in.val(c, x.X), x.X.Type(), x.Type(), x.Pos()))
	case *ssa.MakeClosure:
		f := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, in.val(c, b))
		}
		set(f)
	case *ssa.MakeMap:
		m := &MapV{kv: map[string]mapEnt{}, typ: x.Type().Underlying().(*types.Map)}
		set(&PtrV{obj: c.st.alloc(m)})
	case *ssa.MakeSlice:
		ln, _ := in.strict(c, x.Len).(*Term)
		if ln == nil {
			ln = Sym(KInt, "makelen", 0, maxBuf)
		}
		okLen := c.st.decide(mkGE0(ln)) == dTrue && c.st.decide(mkGE0(Sub(Int(maxBuf), ln))) == dTrue
		in.oblige("make length", c.fr, x.Pos(), okLen, c.st, func() string { return "length " + ln.String() + " may be negative or too large" })
		if !okLen && !c.st.assume(mkGE0(ln)) {
			return nil, nil, true
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		if isByteType(el) {
			var t *Term
			if ln.op == OConst && ln.i <= 1<<16 {
				t = Str(strings.Repeat("\x00", int(ln.i)))
			} else {
				t = rawApp(KStr, "zeros", 0, 0, ln)
			}
			set(&BSliceV{obj: c.st.alloc(&BytesV{t: t})})
		} else if ln.op == OConst && ln.i <= 4096 {
			if ln.i == 0 {
				if isRuneType(el) {
					set(&RunesV{t: Str("")})
				} else {
					set(&ListV{})
				}
				break
			}
			l := &ListV{}
			for i := int64(0); i < ln.i; i++ {
				l.segs = append(l.segs, Seg{v: in.zero(el)})
			}
			set(&SliceV{obj: c.st.alloc(l)})
		} else {
			set(&OpaqueV{typ: x.Type(), t: rawApp(KOther, "make", 0, 0, ln, Sym(KOther, "mk", 0, 0)), nonnil: true})
		}
	case *ssa.Extract:
		v := in.strict(c, x.Tuple)
		if tv, ok := v.(TupleV); ok && x.Index < len(tv) {
			set(c.st.resolve(tv[x.Index]))
		} else {
			set(in.havocNamed(x.Type(), Sym(KOther, "extract", 0, 0), false))
		}
	case *ssa.TypeAssert:
		return in.typeAssert(c, x, set)
	case *ssa.Range:
		set(in.rangeIter(c, x))
	case *ssa.Next:
		return in.next(c, x)
	case *ssa.Call:
		ctx := in.mkCall(c, &x.Call, x.Pos())
		outs = in.dispatch(ctx)
		if len(outs) == 0 {
			return nil, nil, true
		}
		return outs, nil, false
	case *ssa.Defer:
		ctx := in.mkCall(c, &x.Call, x.Pos())
		c.fr.defers = append(c.fr.defers[:len(c.fr.defers):len(c.fr.defers)], deferRec{call: &x.Call, fnv: ctx.fnv, args: ctx.args, pos: x.Pos()})
	case *ssa.Go:
		c.st.event("go", in.p.pos(x.Pos()))
		in.undecided(c.fr, x.Pos(), "goroutine started")
	default:
		in.undecided(c.fr, ins.Pos(), fmt.Sprintf("instruction %T not modelled", ins))
		if _, ok := ins.(ssa.Value); ok {
			set(in.havocNamed(ins.(ssa.Value).Type(), Sym(KOther, "unmodelled", 0, 0), false))
		}
	}
	return nil, nil, false
}

func (in *Interp) storeTo(c *Config, p *PtrV, v Value, pos token.Pos) {
	if n, ok := in.gname[p.obj]; ok && !in.initing {
		k := "global " + n + "@" + in.p.pos(pos)
		if in.writes[k] == nil {
			in.writes[k] = &Oblig{kind: "global write", pos: in.p.pos(pos), fn: in.fnName(c.fr.fn), detail: n, stack: stackStr(in, c.fr.stack), root: in.root}
		}
		c.st.event("gwrite", in.p.pos(pos), Str(n), v)
	}
	switch e := c.st.get(p.obj).(type) {
	case *InBufElem:
		c.st.event("input-write", in.p.pos(pos), Str(bufName(e.buf)))
		k := "input " + in.p.pos(pos)
		in.writes[k] = &Oblig{kind: "input write", pos: in.p.pos(pos), fn: in.fnName(c.fr.fn), detail: bufName(e.buf), stack: stackStr(in, c.fr.stack), root: in.root}
		return
	case *tempElem:
		in.undecided(c.fr, pos, "store to an element of a list by index")
		return
	}
	if !c.st.store(p, v) {
		// element of a byte array, or unknown shape
		obj := c.st.get(p.obj)
		if b, ok := obj.(*BytesV); ok {
			idx := pathIdx(p.path)
			if t, ok := v.(*Term); ok && len(idx) == 1 {
				if n := putByte(b.t, int64(idx[0]), t); n != nil {
					c.st.heap[p.obj] = &BytesV{t: n}
					return
				}
			}
			c.st.heap[p.obj] = &BytesV{t: Sym(KStr, "bytes written", 0, 0)}
			return
		}
		in.undecided(c.fr, pos, "store to a location of unknown shape")
	}
}

// putByte: the string with the octet at i replaced (nil if it is not known
// which part that is).
func putByte(t *Term, i int64, b *Term) *Term {
	if i < 0 {
		return nil
	}
	var parts []*Term
	for k, a := range catParts(t) {
		l := mkStrLen(a)
		if l.op != OConst {
			return nil
		}
		if i >= l.i {
			i -= l.i
			parts = append(parts, a)
			continue
		}
		switch {
		case a.op == OConst:
			parts = append(parts, Str(a.s[:i]), mkRawByte(b), Str(a.s[i+1:]))
		case isApp(a, "bufstr"):
			n := int(a.args[0].i)
			parts = append(parts, mkBufStr(n, a.args[1], Int(i)), mkRawByte(b), mkBufStr(n, AddC(a.args[1], i+1), Int(l.i-i-1)))
		case l.i == 1:
			parts = append(parts, mkRawByte(b))
		default:
			return nil
		}
		return mkCat(append(parts, catParts(t)[k+1:]...)...)
	}
	return nil
}

// InBufElem: content of the temporary object standing for one input byte.
type InBufElem struct {
	buf int
	v   *Term
}
type tempElem struct{ v Value }

func (in *Interp) unop(c *Config, x *ssa.UnOp, set func(Value)) ([]CallOut, *splitReq, bool) {
	switch x.Op {
	case token.MUL:
		pv := force(c.st, in.val(c, x.X))
		p := in.deref(c, pv, x.Type(), x.Pos(), "load")
		if p == nil {
			return nil, nil, true
		}
		if e, ok := c.st.get(p.obj).(*InBufElem); ok {
			set(e.v)
			return nil, nil, false
		}
		if e, ok := c.st.get(p.obj).(*tempElem); ok {
			v, ok := loadFrom(c.st, e.v, pathIdx(p.path))
			if !ok {
				in.undecided(c.fr, x.Pos(), "load of unknown shape")
				return nil, nil, true
			}
			set(v)
			return nil, nil, false
		}
		if b, ok := c.st.get(p.obj).(*BytesV); ok && p.path != "" {
			idx := pathIdx(p.path)
			set(in.byteOf(b.t, Int(int64(idx[0]))))
			return nil, nil, false
		}
		v, ok := c.st.load(p)
		if !ok {
			in.undecided(c.fr, x.Pos(), "load of unknown shape")
			return nil, nil, true
		}
		set(v)
	case token.NOT:
		t := in.boolVal(c, x.X)
		set(mkNot(t))
	case token.SUB:
		v := in.strict(c, x.X)
		if t, ok := v.(*Term); ok && t.kind == KInt {
			set(in.fit(c.fr, c.st, MulC(t, -1), x.Type(), x.Pos()))
		} else {
			set(in.havocNamed(x.Type(), Sym(KOther, "neg", 0, 0), false))
		}
	case token.XOR:
		v := in.strict(c, x.X)
		t, _ := v.(*Term)
		lo, hi, _ := intRange(x.Type())
		if t != nil && lo == 0 && hi != inf {
			set(Sub(Int(hi), t))
		} else if t != nil && lo == ninf {
			set(AddC(MulC(t, -1), -1))
		} else {
			set(in.havocNamed(x.Type(), Sym(KOther, "xor", 0, 0), false))
		}
	default:
		in.undecided(c.fr, x.Pos(), "operator "+x.Op.String())
		set(in.havocNamed(x.Type(), Sym(KOther, "unop", 0, 0), false))
	}
	return nil, nil, false
}

func loadFrom(st *State, v Value, idx []int) (Value, bool) {
	for _, i := range idx {
		v = st.resolve(v)
		switch x := v.(type) {
		case *StructV:
			v = x.fields[i]
		case *ListV:
			if i >= len(x.segs) || x.segs[i].kind != SegSingle {
				return nil, false
			}
			v = x.segs[i].v
		default:
			return nil, false
		}
	}
	return st.resolve(v), true
}

// fit keeps a mathematical result if it fits its type, else wraps it.
func (in *Interp) fit(fr *Frame, st *State, t *Term, typ types.Type, pos token.Pos) *Term {
	lo, hi, ok := intRange(typ)
	if !ok {
		return t
	}
	l, h := linRange(t, st.facts)
	if (l >= lo && l != ninf || lo == ninf && l != ninf) && (h <= hi && h != inf) {
		return t
	}
	if t.op == OConst && t.i >= lo && t.i <= hi {
		return t
	}
	okLo, okHi := l > ninf && l >= lo, h < inf && h <= hi
	if !okLo {
		okLo = lo != ninf && st.facts.entailGE(Sub(t, Int(lo)), 3) || lo == ninf && st.facts.entailGE(AddC(t, maxBuf*8), 3)
	}
	if !okHi {
		b := hi
		if b == inf {
			b = 1 << 62
		}
		okHi = st.facts.entailGE(Sub(Int(b), t), 3)
	}
	if okLo && okHi {
		return t
	}
	if _, m := linOf(t); len(m) == 1 && m[0].k == 1 && t.op != OLin {
		// an atom whose own range is that of the type
		if t.lo >= lo && t.hi <= hi {
			return t
		}
	}
	key := "wrap@" + in.p.pos(pos)
	if in.readObs != nil {
		in.readObs[key]++
	}
	return mkWrap(t, lo, hi)
}

func (in *Interp) binop(c *Config, x *ssa.BinOp) Value {
	a, b := in.val(c, x.X), in.val(c, x.Y)
	return in.binopV(c.fr, c.st, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Type(), x.Pos())
}

func (in *Interp) binopV(fr *Frame, st *State, op token.Token, a, b Value, ta, tb, tr types.Type, pos token.Pos) Value {
	a, b = st.resolve(a), st.resolve(b)
	at, ok1 := a.(*Term)
	bt, ok2 := b.(*Term)
	if op == token.EQL || op == token.NEQ {
		r := in.eqValues(st, a, b)
		if r == nil {
			in.undecided(fr, pos, fmt.Sprintf("comparison of %T and %T", a, b))
			r = Sym(KBool, "cmp", 0, 0)
		}
		if op == token.NEQ {
			return mkNot(r)
		}
		return r
	}
	if !ok1 {
		a = force(st, a)
		at, ok1 = a.(*Term)
	}
	if !ok2 {
		b = force(st, b)
		bt, ok2 = b.(*Term)
	}
	if !ok1 || !ok2 {
		return in.havocNamed(tr, Sym(KOther, "binop", 0, 0), false)
	}
	switch at.kind {
	case KInt:
		switch op {
		case token.LSS:
			return mkGE0(AddC(Sub(bt, at), -1))
		case token.LEQ:
			return mkGE0(Sub(bt, at))
		case token.GTR:
			return mkGE0(AddC(Sub(at, bt), -1))
		case token.GEQ:
			return mkGE0(Sub(at, bt))
		case token.ADD:
			return in.fit(fr, st, Add(at, bt), tr, pos)
		case token.SUB:
			return in.fit(fr, st, Sub(at, bt), tr, pos)
		case token.MUL:
			return in.fit(fr, st, mkMul(at, bt), tr, pos)
		case token.QUO, token.REM:
			nz := st.decide(mkNot(mkEQ0(bt))) == dTrue
			in.oblige("division by zero", fr, pos, nz, st, func() string { return "divisor " + bt.String() + " may be zero" })
			if !nz && !st.assume(mkNot(mkEQ0(bt))) {
				panic(abortPath{"division by zero"})
			}
			if op == token.QUO {
				return in.fit(fr, st, mkDiv(at, bt), tr, pos)
			}
			return in.fit(fr, st, mkMod(at, bt), tr, pos)
		case token.AND:
			return mkBit("band", at, bt)
		case token.OR:
			return in.fit(fr, st, mkBit("bor", at, bt), tr, pos)
		case token.XOR:
			return in.fit(fr, st, mkBit("bxor", at, bt), tr, pos)
		case token.AND_NOT:
			return mkBit("bandnot", at, bt)
		case token.SHL:
			if lo, _, _ := intRange(tb); lo < 0 {
				ok := st.decide(mkGE0(bt)) == dTrue
				in.oblige("negative shift", fr, pos, ok, st, func() string { return "shift count " + bt.String() })
			}
			_, hi, _ := intRange(tr)
			r := mkShl(at, bt)
			if r.op == OApp && r.name == "shl" {
				// unsigned width is part of the meaning
				r = rawApp(KInt, "shl", r.lo, r.hi, at, bt)
			}
			if hi == inf {
				l, h := linRange(r, st.facts)
				if l >= 0 && h != inf || r.op == OConst {
					return r
				}
				return r
			}
			return in.fit(fr, st, r, tr, pos)
		case token.SHR:
			return mkShr(at, bt)
		}
	case KStr:
		switch op {
		case token.ADD:
			return mkCat(at, bt)
		}
		if at.op == OConst && bt.op == OConst {
			switch op {
			case token.LSS:
				return Bool(at.s < bt.s)
			case token.LEQ:
				return Bool(at.s <= bt.s)
			case token.GTR:
				return Bool(at.s > bt.s)
			case token.GEQ:
				return Bool(at.s >= bt.s)
			}
		}
		return rawApp(KBool, "str"+op.String(), 0, 0, at, bt)
	case KFloat:
		switch op {
		case token.ADD:
			return mkFBin("fadd", at, bt)
		case token.SUB:
			return mkFBin("fsub", at, bt)
		case token.MUL:
			return mkFBin("fmul", at, bt)
		case token.QUO:
			return mkFBin("fdiv", at, bt)
		}
		return rawApp(KBool, "float"+op.String(), 0, 0, at, bt)
	case KBool:
		switch op {
		case token.AND, token.LAND:
			return mkAnd(at, bt)
		case token.OR, token.LOR:
			return mkOr(at, bt)
		}
	}
	return in.havocNamed(tr, Sym(KOther, "binop", 0, 0), false)
}

// eqValues gives the condition under which two values are equal (nil: unknown).
func (in *Interp) eqValues(st *State, a, b Value) *Term {
	a, b = st.resolve(a), st.resolve(b)
	if g, ok := a.(*GateV); ok {
		x, y := in.eqValues(st, g.a, b), in.eqValues(st, g.b, b)
		if x == nil || y == nil {
			return nil
		}
		return mkGate(g.c, x, y)
	}
	if g, ok := b.(*GateV); ok {
		return in.eqValues(st, g, a)
	}
	if at, ok := a.(*Term); ok {
		bt, ok := b.(*Term)
		if !ok || at.kind != bt.kind {
			return nil
		}
		switch at.kind {
		case KInt:
			return mkEQ0(Sub(at, bt))
		case KStr:
			return mkStrEq(at, bt)
		case KBool:
			if at == bt {
				return Bool(true)
			}
			return mkGate(at, bt, mkNot(bt))
		}
		if at == bt {
			return Bool(true)
		}
		return rawApp(KBool, "eq", 0, 0, at, bt)
	}
	if isNilV(b) {
		a, b = b, a
	}
	if isNilV(a) {
		switch y := b.(type) {
		case NilV:
			return Bool(true)
		case *OpaqueV:
			if y.nonnil {
				return Bool(false)
			}
			return nilTerm(y)
		case *BufV:
			if y.nl != nil {
				return y.nl
			}
			// a buffer slice of unknown origin may be nil only when empty
			return mkAnd(mkEQ0(y.ln), rawApp(KBool, "isnil", 0, 0, mkBufStr(y.buf, y.off, AddC(y.ln, 0)), y.ln))
		case nil:
			return nil
		}
		return Bool(false)
	}
	switch x := a.(type) {
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			return Bool(x.obj == y.obj && x.path == y.path)
		}
		if _, ok := b.(*OpaqueV); ok {
			return Bool(false)
		}
	case *ErrV:
		if y, ok := b.(*ErrV); ok {
			if x.id == y.id {
				return Bool(true)
			}
			if len(y.self) == 0 {
				if s := x.isSelf(y.id); s.op != OConst || s.b {
					return s
				}
			} else if len(x.self) == 0 {
				if s := y.isSelf(x.id); s.op != OConst || s.b {
					return s
				}
			} else {
				return Sym(KBool, "erreq", 0, 0)
			}
			if x.open == nil && y.open == nil {
				return Bool(false)
			}
			return rawApp(KBool, "erreq", 0, 0, Int(int64(x.id)), Int(int64(y.id)))
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if !types.Identical(x.typ, y.typ) {
				return Bool(false)
			}
			return in.eqValues(st, x.val, y.val)
		}
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok {
			if x.t == y.t {
				return Bool(true)
			}
			return rawApp(KBool, "eq", 0, 0, x.t, y.t)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.fields) == len(y.fields) {
			r := Bool(true)
			for i := range x.fields {
				e := in.eqValues(st, x.fields[i], y.fields[i])
				if e == nil {
					return nil
				}
				r = mkAnd(r, e)
			}
			return r
		}
	}
	return nil
}

func (in *Interp) makeIface(st *State, t types.Type, v Value) Value {
	v = st.resolve(v)
	if e, ok := v.(*ErrV); ok {
		return e
	}
	if g, ok := v.(*GateV); ok {
		return &GateV{c: g.c, a: in.makeIface(st, t, g.a), b: in.makeIface(st, t, g.b)}
	}
	return &IfaceV{typ: t, val: v}
}

func (in *Interp) typeAssert(c *Config, x *ssa.TypeAssert, set func(Value)) ([]CallOut, *splitReq, bool) {
	v := in.strict(c, x.X)
	ok := dUnknown
	var rv Value
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	switch y := v.(type) {
	case NilV:
		ok = dFalse
	case *IfaceV:
		if toIface {
			if types.Implements(y.typ, x.AssertedType.Underlying().(*types.Interface)) {
				ok, rv = dTrue, y
			} else {
				ok = dFalse
			}
		} else if types.Identical(y.typ, x.AssertedType) {
			ok, rv = dTrue, y.val
		} else {
			ok = dFalse
		}
	case *ErrV:
		if toIface && types.Identical(x.AssertedType, types.Universe.Lookup("error").Type()) {
			ok, rv = dTrue, y
		}
	case *OpaqueV:
		if in.isContractTag(y) && in.notOfType(y, x.AssertedType) {
			ok = dFalse
		}
	}
	if ok == dUnknown {
		tt := Sym(KOther, "assert", 0, 0)
		if o, isO := v.(*OpaqueV); isO {
			tt = rawApp(KOther, "assert "+typKey(x.AssertedType), 0, 0, o.t)
		}
		rv = in.havocNamed(x.AssertedType, tt, true)
		if !x.CommaOk {
			in.oblige("type assertion", c.fr, x.Pos(), false, c.st, func() string { return "type assertion to " + typKey(x.AssertedType) + " may fail" })
			set(rv)
			return nil, nil, false
		}
		cond := rawApp(KBool, "typeis "+typKey(x.AssertedType), 0, 0, tt)
		st2 := c.st.clone()
		var outs []CallOut
		if c.st.assume(cond) {
			outs = append(outs, CallOut{c.st, TupleV{rv, Bool(true)}})
		}
		if st2.assume(mkNot(cond)) {
			outs = append(outs, CallOut{st2, TupleV{in.zero(x.AssertedType), Bool(false)}})
		}
		return outs, nil, len(outs) == 0
	}
	if x.CommaOk {
		if ok == dTrue {
			set(TupleV{rv, Bool(true)})
		} else {
			set(TupleV{in.zero(x.AssertedType), Bool(false)})
		}
		return nil, nil, false
	}
	in.oblige("type assertion", c.fr, x.Pos(), ok == dTrue, c.st, func() string { return "type assertion to " + typKey(x.AssertedType) + " fails" })
	if ok == dFalse {
		return nil, nil, true
	}
	set(rv)
	return nil, nil, false
}

// ---------- slices, indexing ----------

func (in *Interp) byteOf(t, i *Term) *Term { return mkByteOf(t, i) }

func mkByteOf(t, i *Term) *Term {
	if t.op == OConst && i.op == OConst && i.i >= 0 && i.i < int64(len(t.s)) {
		return Int(int64(t.s[i.i]))
	}
	if t.op == OApp && t.name == "bufstr" {
		return ByteAt(int(t.args[0].i), Add(t.args[1], i))
	}
	if t.op == OApp && t.name == "bytestr" && i.isInt(0) {
		return t.args[0]
	}
	if t.op == OApp && t.name == "cat" && i.op == OConst {
		k := i.i
		for _, a := range t.args {
			l := mkStrLen(a)
			if l.op != OConst {
				break
			}
			if k < l.i {
				return mkByteOf(a, Int(k))
			}
			k -= l.i
		}
	}
	return rawApp(KInt, "byteof", 0, 255, t, i)
}

// lenOf gives the length of a slice/string/map value.
func (in *Interp) lenOf(st *State, v Value) *Term {
	v = st.resolve(v)
	switch x := v.(type) {
	case *Term:
		return mkStrLen(x)
	case NilV:
		return Int(0)
	case *BufV:
		return x.ln
	case *BytesV:
		return mkStrLen(x.t)
	case *RunesV:
		if x.t.op == OConst {
			return Int(int64(len([]rune(x.t.s))))
		}
		return rawApp(KInt, "runecount", 0, maxBuf, x.t)
	case *BSliceV:
		if b, ok := st.get(x.obj).(*BytesV); ok {
			return mkStrLen(b.t)
		}
	case *SliceV:
		return in.lenOf(st, st.get(x.obj))
	case *ListV:
		n := Int(0)
		for _, s := range x.segs {
			switch s.kind {
			case SegSingle:
				n = AddC(n, 1)
			case SegOpt:
				n = Add(n, rawApp(KInt, "ind", 0, 1, s.cond))
			case SegStar:
				if len(s.star.alts) == 1 && len(s.star.alts[0].segs) == 1 && s.star.alts[0].segs[0].kind == SegSingle {
					n = Add(n, s.star.hi)
				} else {
					n = Add(n, rawApp(KInt, "starlen", 0, maxBuf, s.star.hi, Int(int64(s.star.kv.id))))
				}
			case SegAcc:
				n = Add(n, NamedSym(KInt, fmt.Sprintf("acclen%d", s.acc), 0, maxBuf))
			}
		}
		return n
	case *PtrV:
		if m, ok := st.get(x.obj).(*MapV); ok {
			if m.sym != nil {
				return rawApp(KInt, "maplen", 0, maxBuf, m.sym)
			}
			return Int(int64(len(m.keys)))
		}
		if l, ok := st.get(x.obj).(*ListV); ok {
			return in.lenOf(st, l)
		}
	case *OpaqueV:
		return rawApp(KInt, "len", 0, maxBuf, x.t)
	case *GateV:
		panic(splitReq{x.c})
	}
	return nil
}

func (in *Interp) checkIndex(c *Config, i, n *Term, pos token.Pos) bool {
	cond := mkAnd(mkGE0(i), mkGE0(AddC(Sub(n, i), -1)))
	ok := c.st.decide(cond) == dTrue
	in.oblige("index out of range", c.fr, pos, ok, c.st, func() string { return "index " + i.String() + " against length " + n.String() })
	if !ok {
		return c.st.assume(cond)
	}
	return true
}

func (in *Interp) indexAddr(c *Config, x *ssa.IndexAddr) Value {
	base := in.strict(c, x.X)
	iv, _ := in.strict(c, x.Index).(*Term)
	if iv == nil {
		iv = Sym(KInt, "idx", ninf, inf)
	}
	var elemT types.Type
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		arr := u.Elem().Underlying().(*types.Array)
		elemT = arr.Elem()
		p := in.deref(c, base, u.Elem(), x.Pos(), "index")
		if p == nil {
			return nil
		}
		if !in.checkIndex(c, iv, Int(arr.Len()), x.Pos()) {
			return nil
		}
		if iv.op == OConst {
			return &PtrV{obj: p.obj, path: fmt.Sprintf("%s.%d", p.path, iv.i)}
		}
		v, ok := c.st.load(p)
		if ok {
			return in.symIndex(c, v, iv, elemT)
		}
		in.undecided(c.fr, x.Pos(), "array of unknown shape")
		return nil
	case *types.Slice:
		elemT = u.Elem()
	}
	n := in.lenOf(c.st, base)
	if n == nil {
		in.undecided(c.fr, x.Pos(), fmt.Sprintf("index into a value of unknown shape (%T)", base))
		return nil
	}
	if !in.checkIndex(c, iv, n, x.Pos()) {
		return nil
	}
	switch y := base.(type) {
	case *BufV:
		return &PtrV{obj: c.st.alloc(&InBufElem{buf: y.buf, v: ByteAt(y.buf, Add(y.off, iv))})}
	case *BytesV:
		return &PtrV{obj: c.st.alloc(&tempElem{v: in.byteOf(y.t, iv)})}
	case *BSliceV:
		if iv.op == OConst {
			return &PtrV{obj: y.obj, path: fmt.Sprintf(".%d", iv.i)}
		}
		return &PtrV{obj: c.st.alloc(&tempElem{v: in.byteOf(c.st.get(y.obj).(*BytesV).t, iv)})}
	case *SliceV:
		if iv.op == OConst {
			return &PtrV{obj: y.obj, path: fmt.Sprintf(".%d", iv.i)}
		}
		return in.symIndex(c, c.st.get(y.obj), iv, elemT)
	case *RunesV:
		return &PtrV{obj: c.st.alloc(&tempElem{v: rawApp(KInt, "runeat", 0, 0x10ffff, y.t, iv)})}
	case *ListV:
		return in.symIndex(c, y, iv, elemT)
	case *OpaqueV:
		t := rawApp(KOther, "elem", 0, 0, y.t, iv)
		return &PtrV{obj: c.st.alloc(&tempElem{v: in.opaqueElem(c.st, y, t, elemT)})}
	}
	in.undecided(c.fr, x.Pos(), fmt.Sprintf("index into %T", base))
	return nil
}

// opaqueElem: the element of an opaque list; what library calls guarantee
// about their elements is stated here.
func (in *Interp) opaqueElem(st *State, o *OpaqueV, t *Term, elemT types.Type) Value {
	nonnil := false
	if strings.HasPrefix(o.t.name, "OpaqueSubpackets") {
		nonnil = true
	}
	return in.havocNamed(elemT, t, nonnil)
}

func (in *Interp) symIndex(c *Config, v Value, iv *Term, elemT types.Type) Value {
	l, ok := v.(*ListV)
	if ok {
		if iv.op == OConst {
			// walk segments
			k := iv.i
			for _, s := range l.segs {
				if s.kind != SegSingle {
					break
				}
				if k == 0 {
					return &PtrV{obj: c.st.alloc(&tempElem{v: s.v})}
				}
				k--
			}
		}
		// a pure repetition indexed below its bound
		if len(l.segs) == 1 && l.segs[0].kind == SegStar {
			s := l.segs[0].star
			if len(s.alts) == 1 && len(s.alts[0].segs) == 1 {
				if t, ok := s.alts[0].segs[0].v.(*Term); ok {
					return &PtrV{obj: c.st.alloc(&tempElem{v: substM(t, map[*Term]*Term{s.kv: iv}, map[*Term]*Term{}, true)})}
				}
			}
		}
		// constant table indexed by a byte
		all := true
		for _, s := range l.segs {
			if s.kind != SegSingle {
				all = false
			}
		}
		if all && len(l.segs) > 0 {
			if t0, ok := l.segs[0].v.(*Term); ok {
				mt := &mapTable{keys: map[int64]*Term{}, zero: zeroTerm(t0.kind)}
				good := true
				for i, s := range l.segs {
					t, ok := s.v.(*Term)
					if !ok {
						good = false
						break
					}
					mt.keys[int64(i)] = t
				}
				if good {
					name := internTable(mt)
					return &PtrV{obj: c.st.alloc(&tempElem{v: mkMapTerm("mapget", t0.kind, Str(name), iv)})}
				}
			}
			// choose by splitting on the index
			panic(splitReq{mkEQ0(Sub(iv, Int(in.pickIndex(c, iv, len(l.segs)))))})
		}
	}
	return &PtrV{obj: c.st.alloc(&tempElem{v: in.havocNamed(elemT, Sym(KOther, "element", 0, 0), false)})}
}

func (in *Interp) pickIndex(c *Config, iv *Term, n int) int64 {
	lo, _ := linRange(iv, c.st.facts)
	if lo < 0 {
		lo = 0
	}
	return lo
}

func zeroTerm(k Kind) *Term {
	switch k {
	case KStr:
		return Str("")
	case KBool:
		return Bool(false)
	case KFloat:
		return Float(0)
	}
	return Int(0)
}

func internTable(mt *mapTable) string {
	var ks []int64
	for k := range mt.keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var sb strings.Builder
	fmt.Fprintf(&sb, "T%d", mt.zero.id)
	for _, k := range ks {
		fmt.Fprintf(&sb, ";%d=%d", k, mt.keys[k].id)
	}
	var ss []string
	for k := range mt.skey {
		ss = append(ss, k)
	}
	sort.Strings(ss)
	for _, k := range ss {
		fmt.Fprintf(&sb, ";%q=%d", k, mt.skey[k].id)
	}
	n := sb.String()
	if mapTables[n] == nil {
		mapTables[n] = mt
	}
	return n
}

func (in *Interp) index(c *Config, x *ssa.Index) Value {
	base := in.strict(c, x.X)
	iv, _ := in.strict(c, x.Index).(*Term)
	switch y := base.(type) {
	case *Term: // string
		n := mkStrLen(y)
		if !in.checkIndex(c, iv, n, x.Pos()) {
			return nil
		}
		return in.byteOf(y, iv)
	case *BytesV:
		if !in.checkIndex(c, iv, mkStrLen(y.t), x.Pos()) {
			return nil
		}
		return in.byteOf(y.t, iv)
	case *ListV:
		if iv.op == OConst && iv.i >= 0 && int(iv.i) < len(y.segs) {
			return y.segs[iv.i].v
		}
	}
	return in.havocNamed(x.Type(), Sym(KOther, "index", 0, 0), false)
}

func (in *Interp) slice(c *Config, x *ssa.Slice) Value {
	base := in.strict(c, x.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t, _ := in.strict(c, v).(*Term)
		return t
	}
	lo, hi := get(x.Low), get(x.High)
	if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
		pv := in.deref(c, base, p.Elem(), x.Pos(), "slice")
		if pv == nil {
			return nil
		}
		arr := p.Elem().Underlying().(*types.Array)
		v, ok := c.st.load(pv)
		if !ok {
			in.undecided(c.fr, x.Pos(), "slice of an array of unknown shape")
			return nil
		}
		full := (lo == nil || lo.isInt(0)) && (hi == nil || hi.isInt(arr.Len()))
		if b, ok := v.(*BytesV); ok {
			if full && pv.path == "" && b.t.op == OConst {
				// composite literal or scratch array
				return &BSliceV{obj: pv.obj}
			}
			if full {
				return &BytesV{t: b.t}
			}
			base = &BytesV{t: b.t}
		} else if l, ok := v.(*ListV); ok {
			if full {
				if isRuneType(arr.Elem()) {
					t := Str("")
					for _, s := range l.segs {
						rt, ok := s.v.(*Term)
						if !ok {
							return &OpaqueV{typ: x.Type(), t: Sym(KOther, "runes", 0, 0), nonnil: true}
						}
						t = mkCat(t, mkChr(rt))
					}
					return &RunesV{t: t}
				}
				return l
			}
			base = l
		}
	}
	n := in.lenOf(c.st, base)
	if n == nil {
		in.undecided(c.fr, x.Pos(), fmt.Sprintf("slice of a value of unknown shape (%T)", base))
		return nil
	}
	if lo == nil {
		lo = Int(0)
	}
	capN := n
	if hi == nil {
		hi = n
	}
	cond := mkAnd(mkGE0(lo), mkGE0(Sub(hi, lo)), mkGE0(Sub(capN, hi)))
	ok := c.st.decide(cond) == dTrue
	in.oblige("slice bounds", c.fr, x.Pos(), ok, c.st, func() string {
		return "slice [" + lo.String() + ":" + hi.String() + "] of length " + n.String()
	})
	if !ok && !c.st.assume(cond) {
		return nil
	}
	if lo.isInt(0) && hi == n {
		return base
	}
	switch y := base.(type) {
	case *BufV:
		return &BufV{buf: y.buf, off: Add(y.off, lo), ln: Sub(hi, lo), nl: y.nl}
	case *Term:
		return in.substr(y, lo, hi)
	case *BytesV:
		return &BytesV{t: in.substr(y.t, lo, hi)}
	case *BSliceV:
		return &BytesV{t: in.substr(c.st.get(y.obj).(*BytesV).t, lo, hi)}
	case *ListV:
		if lo.op == OConst && hi.op == OConst && allSingle(y) {
			return &ListV{segs: append([]Seg(nil), y.segs[lo.i:hi.i]...)}
		}
		if lo.op == OConst && hi == n {
			k := 0
			for k < len(y.segs) && int64(k) < lo.i && y.segs[k].kind == SegSingle {
				k++
			}
			if int64(k) == lo.i {
				return &ListV{segs: append([]Seg(nil), y.segs[k:]...)}
			}
		}
	case NilV:
		return y
	case *OpaqueV:
		return &OpaqueV{typ: x.Type(), t: rawApp(KOther, "slice", 0, 0, y.t, lo, hi), nonnil: y.nonnil}
	}
	return in.havocNamed(x.Type(), Sym(KOther, "slice", 0, 0), true)
}

func allSingle(l *ListV) bool {
	for _, s := range l.segs {
		if s.kind != SegSingle {
			return false
		}
	}
	return true
}

func (in *Interp) substr(t, lo, hi *Term) *Term {
	if t.op == OConst && lo.op == OConst && hi.op == OConst && lo.i >= 0 && hi.i <= int64(len(t.s)) && lo.i <= hi.i {
		return Str(t.s[lo.i:hi.i])
	}
	if t.op == OApp && t.name == "bufstr" {
		return mkBufStr(int(t.args[0].i), Add(t.args[1], lo), Sub(hi, lo))
	}
	if t.op == OApp && t.name == "cat" && lo.op == OConst {
		// drop constant prefix
		a := t.args
		k := lo.i
		for len(a) > 0 && a[0].op == OConst && k >= int64(len(a[0].s)) {
			k -= int64(len(a[0].s))
			a = a[1:]
		}
		if k == 0 && hi == mkStrLen(t) {
			return mkCat(a...)
		}
	}
	if d := Sub(hi, lo); d.isInt(0) {
		return Str("")
	}
	return rawApp(KStr, "substr", 0, 0, t, lo, hi)
}

// ---------- maps ----------

func mapKeyOf(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OConst {
			switch x.kind {
			case KInt:
				return fmt.Sprintf("i%020d", x.i+1<<40), true
			case KStr:
				return "s" + x.s, true
			case KBool:
				return fmt.Sprintf("b%v", x.b), true
			}
		}
	}
	return "", false
}

func (in *Interp) mapUpdate(c *Config, x *ssa.MapUpdate) {
	m := in.strict(c, x.Map)
	k := in.strict(c, x.Key)
	v := in.val(c, x.Value)
	in.mapSet(c.fr, c.st, m, k, v, x.Pos())
}

func (in *Interp) mapSet(fr *Frame, st *State, m, k, v Value, pos token.Pos) {
	switch y := m.(type) {
	case NilV:
		in.oblige("nil map write", fr, pos, false, st, func() string { return "write to a nil map" })
		panic(abortPath{"nil map"})
	case *PtrV:
		in.oblige("nil map write", fr, pos, true, nil, nil)
		mv, ok := st.get(y.obj).(*MapV)
		if !ok {
			in.undecided(fr, pos, "map of unknown shape")
			return
		}
		if _, isBase := baseHeap[y.obj]; isBase && !in.initing {
			st.event("gmapwrite", in.p.pos(pos))
			in.writes["map "+in.p.pos(pos)] = &Oblig{kind: "global write", pos: in.p.pos(pos), fn: in.fnName(fr.fn), detail: "package-level map", stack: stackStr(in, fr.stack), root: in.root}
		}
		ks, ok := mapKeyOf(k)
		n := &MapV{kv: map[string]mapEnt{}, typ: mv.typ, sym: mv.sym}
		for a, b := range mv.kv {
			n.kv[a] = b
		}
		if !ok {
			n.sym = Sym(KOther, "map", 0, 0)
		} else {
			n.kv[ks] = mapEnt{k, v}
		}
		n.keys = sortedKeys(n.kv)
		st.heap[y.obj] = n
	case *OpaqueV:
		if !y.nonnil {
			ok := st.decide(nilTerm(y)) == dFalse
			in.oblige("nil map write", fr, pos, ok, st, func() string { return "write to a map that may be nil" })
		}
	default:
		in.undecided(fr, pos, fmt.Sprintf("map write to %T", m))
	}
}

func (in *Interp) lookup(c *Config, x *ssa.Lookup) Value {
	m := in.strict(c, x.X)
	k := in.strict(c, x.Index)
	if t, ok := m.(*Term); ok { // string index
		iv := k.(*Term)
		if !in.checkIndex(c, iv, mkStrLen(t), x.Pos()) {
			return nil
		}
		return in.byteOf(t, iv)
	}
	elem := x.X.Type().Underlying().(*types.Map).Elem()
	v, ok := in.mapGet(c.fr, c.st, m, k, elem, x.Pos())
	if x.CommaOk {
		return TupleV{v, ok}
	}
	return v
}

func (in *Interp) mapGet(fr *Frame, st *State, m, k Value, elem types.Type, pos token.Pos) (Value, *Term) {
	switch y := m.(type) {
	case NilV:
		return in.zero(elem), Bool(false)
	case *PtrV:
		mv, ok := st.get(y.obj).(*MapV)
		if !ok {
			in.undecided(fr, pos, "map of unknown shape")
			return in.havocNamed(elem, Sym(KOther, "map", 0, 0), false), Sym(KBool, "mapok", 0, 0)
		}
		if ks, ok := mapKeyOf(k); ok {
			if e, ok := mv.kv[ks]; ok {
				return e.v, Bool(true)
			}
			if mv.sym != nil {
				t := rawApp(KOther, "mapval "+ks, 0, 0, mv.sym)
				return in.havocNamed(elem, t, false), rawApp(KBool, "maphas "+ks, 0, 0, mv.sym)
			}
			return in.zero(elem), Bool(false)
		}
		kt, isT := k.(*Term)
		if isT && mv.sym == nil && kt.kind == KBool {
			var v [2]Value
			var ok [2]*Term
			for i := range v {
				ks, _ := mapKeyOf(Bool(i == 1))
				if e, has := mv.kv[ks]; has {
					v[i], ok[i] = e.v, Bool(true)
				} else {
					v[i], ok[i] = in.zero(elem), Bool(false)
				}
			}
			t0, is0 := v[0].(*Term)
			t1, is1 := v[1].(*Term)
			if is0 && is1 {
				return mkGate(kt, t1, t0), mkGate(kt, ok[1], ok[0])
			}
			return &GateV{c: kt, a: v[1], b: v[0]}, mkGate(kt, ok[1], ok[0])
		}
		if isT && mv.sym == nil {
			// scalar tables stay symbolic
			z := in.zero(elem)
			if zt, ok := z.(*Term); ok {
				mt := &mapTable{keys: map[int64]*Term{}, skey: map[string]*Term{}, zero: zt}
				good := true
				for _, e := range mv.kv {
					ek, ok1 := e.k.(*Term)
					ev, ok2 := e.v.(*Term)
					if !ok1 || !ok2 || ek.op != OConst {
						good = false
						break
					}
					if ek.kind == KStr {
						mt.skey[ek.s] = ev
					} else {
						mt.keys[ek.i] = ev
					}
				}
				if good {
					n := Str(internTable(mt))
					return mkMapTerm("mapget", zt.kind, n, kt), mkMapTerm("mapok", KBool, n, kt)
				}
			}
			// function tables: split on the keys
			for _, ks := range mv.keys {
				e := mv.kv[ks]
				eq := in.eqValues(st, kt, e.k)
				switch st.decide(eq) {
				case dTrue:
					return e.v, Bool(true)
				case dUnknown:
					panic(splitReq{eq})
				}
			}
			return in.zero(elem), Bool(false)
		}
	case *OpaqueV:
		t := Sym(KOther, "mapval", 0, 0)
		if kt, ok := k.(*Term); ok {
			t = rawApp(KOther, "mapval", 0, 0, y.t, kt)
		}
		return in.havocNamed(elem, t, false), rawApp(KBool, "maphas", 0, 0, t)
	}
	return in.havocNamed(elem, Sym(KOther, "map", 0, 0), false), Sym(KBool, "mapok", 0, 0)
}

// ---------- range ----------

// iterator objects: StructV{kind/idx, source}
type iterSrc struct {
	kind string // "map", "string"
	m    *MapV
	str  *Term
	typ  types.Type
}

func (in *Interp) rangeIter(c *Config, x *ssa.Range) Value {
	v := in.strict(c, x.X)
	switch y := v.(type) {
	case *Term:
		o := c.st.alloc(&StructV{fields: []Value{Int(0), &iterSrc{kind: "string", str: y}}})
		return &IterV{obj: o}
	case *PtrV:
		if m, ok := c.st.get(y.obj).(*MapV); ok && m.sym == nil {
			in.mapRanges[in.p.pos(x.Pos())] = in.fnName(c.fr.fn)
			o := c.st.alloc(&StructV{fields: []Value{Int(0), &iterSrc{kind: "map", m: m, typ: x.X.Type()}}})
			return &IterV{obj: o}
		}
	case NilV:
		o := c.st.alloc(&StructV{fields: []Value{Int(0), &iterSrc{kind: "map", m: &MapV{}, typ: x.X.Type()}}})
		return &IterV{obj: o}
	}
	in.mapRanges[in.p.pos(x.Pos())] = in.fnName(c.fr.fn)
	o := c.st.alloc(&StructV{fields: []Value{Int(0), &iterSrc{kind: "opaque", typ: x.X.Type()}}})
	return &IterV{obj: o}
}

func (in *Interp) next(c *Config, x *ssa.Next) ([]CallOut, *splitReq, bool) {
	it := in.strict(c, x.Iter).(*IterV)
	sv := c.st.get(it.obj).(*StructV)
	idx := sv.fields[0].(*Term)
	src := sv.fields[1].(*iterSrc)
	tup := x.Type().(*types.Tuple)
	adv := func(st *State) {
		st.heap[it.obj] = &StructV{fields: []Value{AddC(idx, 1), src}}
	}
	switch src.kind {
	case "map":
		if idx.op == OConst {
			k := int(idx.i)
			if k >= len(src.m.keys) {
				return []CallOut{{c.st, TupleV{Bool(false), in.zero2(tup.At(1).Type()), in.zero2(tup.At(2).Type())}}}, nil, false
			}
			if in.mapRev {
				k = len(src.m.keys) - 1 - k
			}
			e := src.m.kv[src.m.keys[k]]
			adv(c.st)
			return []CallOut{{c.st, TupleV{Bool(true), e.k, e.v}}}, nil, false
		}
	case "string":
		s := src.str
		if s.op == OConst {
			rs := []rune(s.s)
			if idx.op == OConst {
				if int(idx.i) >= len(rs) {
					return []CallOut{{c.st, TupleV{Bool(false), Int(0), Int(0)}}}, nil, false
				}
				off := len(string(rs[:idx.i]))
				r := rs[idx.i]
				adv(c.st)
				return []CallOut{{c.st, TupleV{Bool(true), Int(int64(off)), Int(int64(r))}}}, nil, false
			}
		}
		n := rawApp(KInt, "runecount", 0, maxBuf, s)
		cond := mkGE0(AddC(Sub(n, idx), -1))
		r := rawApp(KInt, "runeat", 0, 0x10ffff, s, idx)
		adv(c.st)
		return []CallOut{{c.st, TupleV{cond, rawApp(KInt, "runeoff", 0, maxBuf, s, idx), r}}}, nil, false
	}
	cond := Sym(KBool, "more", 0, 0)
	adv(c.st)
	return []CallOut{{c.st, TupleV{cond, in.havocNamed2(tup.At(1).Type()), in.havocNamed2(tup.At(2).Type())}}}, nil, false
}

func (in *Interp) zero2(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return in.zero(t)
}
func (in *Interp) havocNamed2(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return in.havocNamed(t, Sym(KOther, "rangeval", 0, 0), false)
}

// ---------- conversions ----------

func (in *Interp) strOf(st *State, v Value) *Term {
	v = st.resolve(v)
	switch x := v.(type) {
	case *Term:
		if x.kind == KStr {
			return x
		}
	case NilV:
		return Str("")
	case *BufV:
		return mkBufStr(x.buf, x.off, x.ln)
	case *BytesV:
		return x.t
	case *RunesV:
		return x.t
	case *BSliceV:
		if b, ok := st.get(x.obj).(*BytesV); ok {
			return b.t
		}
	case *OpaqueV:
		return rawApp(KStr, "str", 0, 0, x.t)
	case *GateV:
		return mkGate(x.c, in.strOf(st, x.a), in.strOf(st, x.b))
	case *ListV:
		if allSingle(x) {
			t := Str("")
			for _, s := range x.segs {
				b, ok := s.v.(*Term)
				if !ok {
					return Sym(KStr, "str", 0, 0)
				}
				t = mkCat(t, mkRawByte(b))
			}
			return t
		}
	}
	return Sym(KStr, "str", 0, 0)
}

func (in *Interp) convert(fr *Frame, st *State, v Value, from, to types.Type, pos token.Pos) Value {
	v = force(st, v)
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
				return mkChr(v.(*Term))
			}
			return in.strOf(st, v)
		case tb.Info()&types.IsInteger != 0:
			t, ok := v.(*Term)
			if ok && t.kind == KInt {
				return in.fit(fr, st, t, to, pos)
			}
			return in.havocNamed(to, Sym(KOther, "conv", 0, 0), false)
		case tb.Info()&types.IsFloat != 0:
			t, ok := v.(*Term)
			if ok && t.kind == KInt {
				return mkToFloat(t)
			}
			if ok && t.kind == KFloat {
				return t
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if isByteType(ts.Elem()) {
			if t, ok := v.(*Term); ok && t.kind == KStr {
				return &BytesV{t: t}
			}
			return v
		}
		if isRuneType(ts.Elem()) {
			if t, ok := v.(*Term); ok && t.kind == KStr {
				return &RunesV{t: t}
			}
			return v
		}
	}
	return v
}
