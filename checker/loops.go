package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops: bounded ones whose exit test is constant are expanded; all others are
// summarised by widening the cells they change (inductive integers,
// accumulators, unknown values) until the summary is a fixpoint.

type cellMode struct {
	kind string // "ind", "acc", "list", "buf", "havoc"
	c    int64
	c2   int64
	sym  *Term // havoc/accumulator symbol
	acc  int
	v    Value // havocked value
	cand []*Term
}

type leaf struct {
	key  string
	phi  int // -1 for heap
	obj  int
	path string
}

type ifDec struct{ stay, exit, open bool }

var loopDebug = os.Getenv("VERIF_LOOPDEBUG") != ""

func (in *Interp) runLoop(c *Config, l *Loop) (exits []*Config, rets []Outcome) {
	return in.runLoopN(c, l, 0)
}

func cloneCfg(c *Config) *Config {
	return &Config{fr: c.fr.clone(), st: c.st.clone(), blk: c.blk, pred: c.pred, pc: c.pc}
}

// iterate runs one iteration from a header configuration (phis pending).
func (in *Interp) iterate(c *Config, l *Loop, decs map[*ssa.If]*ifDec) *loopRun {
	lr := &loopRun{loop: l}
	save := in.ifDecs
	in.ifDecs = decs
	lr.rets = in.run(c, lr)
	in.ifDecs = save
	return lr
}

func (in *Interp) loopPos(l *Loop) token.Pos {
	var best token.Pos
	for b := range l.blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p.IsValid() && (best == 0 || p < best) {
				best = p
			}
		}
	}
	return best
}

func (in *Interp) runLoopN(c *Config, l *Loop, peels int) (exits []*Config, rets []Outcome) {
	// (A) expansion
	const maxUnroll = 600
	unrollOK := true
	{
		cur := []*Config{cloneCfg(c)}
		var ex []*Config
		var rt []Outcome
		in.muteObl()
		mark := in.snapshotSide()
		for n := 0; len(cur) > 0 && n <= maxUnroll; n++ {
			var nxt []*Config
			for _, x := range cur {
				decs := map[*ssa.If]*ifDec{}
				lr := in.iterate(x, l, decs)
				uniform := false
				for _, d := range decs {
					if !d.open && d.stay != d.exit {
						uniform = true
					}
				}
				if !uniform && (in.fixLen < 0 || n > 24) {
					unrollOK = false
					break
				}
				ex = append(ex, lr.exits...)
				rt = append(rt, lr.rets...)
				nxt = append(nxt, lr.backs...)
			}
			if !unrollOK {
				break
			}
			cur = nxt
			if len(cur) > 64 || n == maxUnroll || n >= 12 && len(ex)+len(rt) >= n && (in.fixLen < 0 || n > 24) {
				unrollOK = false
				break
			}
		}
		in.unmuteObl(unrollOK)
		in.restoreSide(mark, unrollOK)
		if unrollOK {
			in.recLoop(c, l, "expanded", true, "the exit test is decided by constants")
			return ex, rt
		}
	}
	// (B) summary
	return in.summarise(c, l, peels, in.absorb > 0)
}

// absorbBacks: a back edge after which the loop is left at once belongs to the
// iteration that ends there (loops that test what the end of the body read).
func (in *Interp) absorbBacks(lr *loopRun) {
	if len(lr.backs) < 2 {
		return
	}
	var keep []*Config
	for _, b := range lr.backs {
		n := in.iterate(cloneCfg(b), lr.loop, nil)
		if len(n.backs) == 0 {
			lr.exits = append(lr.exits, n.exits...)
			lr.rets = append(lr.rets, n.rets...)
			continue
		}
		keep = append(keep, b)
	}
	lr.backs = keep
}

// The expansion attempt records obligations only if it is kept.
func (in *Interp) muteObl()                        { in.oblStack = append(in.oblStack, in.cloneObl()) }
func (in *Interp) snapshotSide() int               { return 0 }
func (in *Interp) restoreSide(mark int, keep bool) {}

type oblSnap struct {
	obl, und, writes map[string]*Oblig
	loops            map[string]*LoopRec
}

func cpObl(m map[string]*Oblig) map[string]*Oblig {
	n := make(map[string]*Oblig, len(m))
	for k, v := range m {
		c := *v
		n[k] = &c
	}
	return n
}

func (in *Interp) cloneObl() *oblSnap {
	if in.mute > 0 {
		return nil
	}
	s := &oblSnap{obl: in.obl, und: in.und, writes: in.writes, loops: in.loopSeen}
	in.obl, in.und, in.writes = map[string]*Oblig{}, map[string]*Oblig{}, map[string]*Oblig{}
	in.loopSeen = map[string]*LoopRec{}
	return s
}

func (in *Interp) unmuteObl(keep bool) {
	s := in.oblStack[len(in.oblStack)-1]
	in.oblStack = in.oblStack[:len(in.oblStack)-1]
	if s == nil {
		return
	}
	o, u, w, lo := in.obl, in.und, in.writes, in.loopSeen
	in.obl, in.und, in.writes, in.loopSeen = s.obl, s.und, s.writes, s.loops
	if !keep {
		return
	}
	for k, v := range o {
		if x := in.obl[k]; x != nil {
			if x.failed == 0 && v.failed > 0 {
				x.detail, x.stack, x.root = v.detail, v.stack, v.root
			}
			x.n += v.n
			x.failed += v.failed
		} else {
			in.obl[k] = v
		}
	}
	for k, v := range u {
		if x := in.und[k]; x != nil {
			x.n += v.n
		} else {
			in.und[k] = v
		}
	}
	for k, v := range w {
		if in.writes[k] == nil {
			in.writes[k] = v
		}
	}
	for k, v := range lo {
		in.mergeLoopRec(k, v)
	}
}

func (in *Interp) mergeLoopRec(k string, v *LoopRec) {
	if x := in.loopSeen[k]; x == nil || x.bounded && !v.bounded || x.kind == "undecided" && !v.bounded {
		in.loopSeen[k] = v
	}
}

func (in *Interp) recLoop(c *Config, l *Loop, kind string, bounded bool, why string) {
	if in.mute > 0 {
		return
	}
	pos := in.p.pos(in.loopPos(l))
	k := in.fnName(c.fr.fn) + "@" + pos
	in.mergeLoopRec(k, &LoopRec{pos: pos, fn: in.fnName(c.fr.fn), kind: kind, bounded: bounded, why: why, root: in.root})
}

func flatten(st *State, v Value, path string, f func(path string, v Value)) {
	v = st.resolve(v)
	if s, ok := v.(*StructV); ok {
		for i, x := range s.fields {
			flatten(st, x, fmt.Sprintf("%s.%d", path, i), f)
		}
		return
	}
	if l, ok := v.(*ListV); ok && allSingle(l) && len(l.segs) > 0 {
		scalar := true
		for _, s := range l.segs {
			switch s.v.(type) {
			case *Term:
			default:
				scalar = false
			}
		}
		_ = scalar
	}
	f(path, v)
}

// dependsOn: does a value mention one of the symbols?
func dependsOn(v Value, syms map[*Term]bool) bool {
	found := false
	walkTerms(v, func(t *Term) {
		if !found && mentions(t, syms) {
			found = true
		}
	})
	return found
}

func walkTerms(v Value, f func(t *Term)) {
	switch x := v.(type) {
	case *Term:
		f(x)
	case *StructV:
		for _, y := range x.fields {
			walkTerms(y, f)
		}
	case TupleV:
		for _, y := range x {
			walkTerms(y, f)
		}
	case *BufV:
		f(x.off)
		f(x.ln)
		if t := bufTerm[x.buf]; t != nil {
			f(t)
		}
	case *BytesV:
		f(x.t)
	case *RunesV:
		f(x.t)
	case *ListV:
		for _, s := range x.segs {
			if s.cond != nil {
				f(s.cond)
			}
			if s.v != nil {
				walkTerms(s.v, f)
			}
			if s.star != nil {
				f(s.star.hi)
			}
		}
	case *IfaceV:
		walkTerms(x.val, f)
	case *FuncV:
		for _, y := range x.binds {
			walkTerms(y, f)
		}
	case *GateV:
		f(x.c)
		walkTerms(x.a, f)
		walkTerms(x.b, f)
	case *OpaqueV:
		f(x.t)
	case *MapV:
		for _, e := range x.kv {
			walkTerms(e.v, f)
		}
	case *ModelFuncV:
		walkTerms(x.data, f)
	case *InBufElem:
		f(x.v)
	case *tempElem:
		walkTerms(x.v, f)
	}
}

func mentions(t *Term, syms map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if syms[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		switch t.op {
		case OLin:
			_, m := linOf(t)
			for _, x := range m {
				if rec(x.a) {
					return true
				}
			}
		case OSym:
			if b, ok := lenSym[t]; ok && bufTerm[b] != nil {
				return rec(bufTerm[b])
			}
		case OByte:
			if b := bufTerm[t.buf]; b != nil && rec(b) {
				return true
			}
			for _, a := range t.args {
				if rec(a) {
					return true
				}
			}
		case OApp:
			if t.name == "bufstr" {
				if b := bufTerm[int(t.args[0].i)]; b != nil && rec(b) {
					return true
				}
			}
			for _, a := range t.args {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

type summary struct {
	in     *Interp
	l      *Loop
	entry  *Config
	kappa  *Term
	modes  map[string]*cellMode
	leaves map[string]*leaf
	inv    []*Term
	phis   []*ssa.Phi
	init   []Value // phi values on entry
	eIdx   int
	mark   int
	fresh  int
	absorb bool
}

func (in *Interp) summarise(c *Config, l *Loop, peels int, absorb bool) (exits []*Config, rets []Outcome) {
	if absorb {
		e, r, _ := in.summarise1(c, l, peels, true)
		return e, r
	}
	in.muteObl()
	exits, rets, hurt := in.summarise1(c, l, peels, false)
	if !hurt {
		in.unmuteObl(true)
		return
	}
	// something unknown at the head decides what is done: look at the loop
	// from behind
	in.muteObl()
	in.absorb++
	e2, r2, hurt2 := in.summarise1(c, l, 0, true)
	in.absorb--
	in.unmuteObl(!hurt2)
	if hurt2 {
		in.unmuteObl(true)
		return
	}
	second := in.cloneObl()
	in.unmuteObl(false)
	if second != nil {
		in.oblStack = append(in.oblStack, in.cloneObl())
		in.obl, in.und, in.writes, in.loopSeen = second.obl, second.und, second.writes, second.loops
		in.unmuteObl(true)
	}
	return e2, r2
}

func (in *Interp) summarise1(c *Config, l *Loop, peels int, absorb bool) (exits []*Config, rets []Outcome, hurt bool) {
	s := &summary{in: in, l: l, entry: c, absorb: absorb, modes: map[string]*cellMode{}, leaves: map[string]*leaf{}, mark: objSeq}
	s.kappa = Sym(KInt, "κ", 0, maxBuf)
	idx := -1
	for i, p := range c.blk.Preds {
		if p == c.pred {
			idx = i
		}
	}
	for _, ins := range c.blk.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		s.phis = append(s.phis, ph)
		if idx >= 0 {
			s.init = append(s.init, c.st.resolve(in.val(c, ph.Edges[idx])))
		} else {
			s.init = append(s.init, c.fr.env[c.fr.info.num[ph]])
		}
	}
	var lr *loopRun
	var h *Config
	stable := false
	for it := 0; it < 14; it++ {
		h = s.header()
		h0 := cloneCfg(h)
		in.mute++
		lr = in.iterate(h, l, nil)
		if absorb {
			in.absorbBacks(lr)
		}
		in.mute--
		changed, peel := s.update(h0, lr)
		if loopDebug {
			fmt.Fprintf(os.Stderr, "loop %s %s it=%d backs=%d exits=%d rets=%d changed=%v peel=%v modes=%s\n", in.fnName(c.fr.fn), in.p.pos(in.loopPos(l)), it, len(lr.backs), len(lr.exits), len(lr.rets), changed, peel, s.modeStr())
		}
		if peel {
			if peels < 3 {
				lr := in.iterate(cloneCfg(c), l, nil)
				if absorb {
					in.absorbBacks(lr)
				}
				exits = append(exits, lr.exits...)
				rets = append(rets, lr.rets...)
				for _, b := range lr.backs {
					e, r := in.runLoopN(b, l, peels+1)
					exits = append(exits, e...)
					rets = append(rets, r...)
				}
				return exits, rets, false
			}
			changed = true
		}
		if !changed {
			stable = true
			s.findInv(h0, lr)
			break
		}
	}
	if !stable {
		in.undecided(c.fr, in.loopPos(l), "loop summary did not converge")
		return nil, nil, true
	}
	// final run with the invariants, obligations recorded
	h = s.header()
	hs := cloneCfg(h)
	s.fresh = symCount
	lr = in.iterate(h, l, nil)
	if absorb {
		in.absorbBacks(lr)
	}
	hurt = s.hurt(lr)
	s.bound(hs, lr)
	sub := s.finish(hs, lr)
	for _, e := range lr.exits {
		if x := sub.config(e); x != nil {
			exits = append(exits, x)
		}
	}
	for _, r := range lr.rets {
		if x := sub.outcome(r); x != nil {
			rets = append(rets, *x)
		}
	}
	return exits, rets, hurt
}

// hurt: unknown values at the head of the loop decide what happens.
func (s *summary) hurt(lr *loopRun) bool {
	ws := map[*Term]bool{}
	for _, m := range s.modes {
		if m.kind == "havoc" && m.sym != nil && m.sym.kind == KOther && len(m.sym.name) > 1 && m.sym.name[:2] == "w#" {
			ws[m.sym] = true
		}
	}
	if len(ws) == 0 {
		return false
	}
	bad := func(st *State) bool {
		lits, ok := st.facts.litsSince(s.entry.st.facts)
		if !ok {
			return false
		}
		for _, l := range lits {
			if mentions(l, ws) {
				return true
			}
		}
		return false
	}
	for _, e := range lr.exits {
		if bad(e.st) {
			return true
		}
	}
	for _, b := range lr.backs {
		if bad(b.st) {
			return true
		}
	}
	for _, r := range lr.rets {
		if bad(r.st) {
			return true
		}
	}
	return false
}

func (s *summary) modeStr() string {
	var ks []string
	for k, m := range s.modes {
		ks = append(ks, fmt.Sprintf("%s:%s(%d)", k, m.kind, m.c))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// header builds the abstract state at the loop head.
func (s *summary) header() *Config {
	c := cloneCfg(s.entry)
	in := s.in
	for i, ph := range s.phis {
		v := s.init[i]
		if m := s.modes[fmt.Sprintf("phi:%d", i)]; m != nil {
			v = s.absValue(m, v)
		}
		c.fr.env[c.fr.info.num[ph]] = v
	}
	c.pred = nil // phis are set
	var ks []string
	for k := range s.modes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		lf := s.leaves[k]
		if lf == nil || lf.phi >= 0 {
			continue
		}
		m := s.modes[k]
		p := &PtrV{obj: lf.obj, path: lf.path}
		v0, _ := s.entry.st.load(p)
		if !c.st.store(p, s.absValue(m, v0)) {
			in.undecided(c.fr, in.loopPos(s.l), "loop cell of unknown shape")
		}
	}
	for _, k := range ks {
		for _, x := range s.modes[k].cand {
			loopBound[x] = true
			c.st.assume(x)
		}
	}
	for _, x := range s.inv {
		loopBound[x] = true
		c.st.assume(x)
	}
	return c
}

func asStr(v Value) (*Term, func(*Term) Value, bool) {
	switch x := v.(type) {
	case *Term:
		if x.kind == KStr {
			return x, func(t *Term) Value { return t }, true
		}
	case *BytesV:
		return x.t, func(t *Term) Value { return &BytesV{t} }, true
	case *RunesV:
		return x.t, func(t *Term) Value { return &RunesV{t} }, true
	}
	return nil, nil, false
}

func (s *summary) absValue(m *cellMode, v0 Value) Value {
	switch m.kind {
	case "ind":
		return Add(v0.(*Term), MulC(s.kappa, m.c))
	case "buf":
		b := v0.(*BufV)
		return &BufV{buf: b.buf, off: Add(b.off, MulC(s.kappa, m.c)), ln: Add(b.ln, MulC(s.kappa, m.c2))}
	case "acc":
		if m.v != nil { // nil on entry: shape of the back value
			_, mk, _ := asStr(m.v)
			return mk(m.sym)
		}
		t, mk, _ := asStr(v0)
		return mk(mkCat(t, m.sym))
	case "list":
		var segs []Seg
		if l, ok := v0.(*ListV); ok {
			segs = append(segs, l.segs...)
		}
		return &ListV{segs: append(segs, Seg{kind: SegAcc, acc: m.acc})}
	case "havoc", "fn":
		return m.v
	}
	return v0
}

// update compares the values on the back edges with the header state.
func (s *summary) update(h *Config, lr *loopRun) (changed, peel bool) {
	in := s.in
	if len(lr.backs) == 0 {
		return false, false
	}
	own := map[*Term]bool{s.kappa: true}
	for _, m := range s.modes {
		if m.sym != nil {
			own[m.sym] = true
		}
	}
	type obs struct {
		lf    *leaf
		h     Value
		v0    Value
		backs []Value
		sts   []*State
		typ   types.Type
	}
	cells := map[string]*obs{}
	for i, ph := range s.phis {
		k := fmt.Sprintf("phi:%d", i)
		o := &obs{lf: &leaf{key: k, phi: i}, h: h.fr.env[h.fr.info.num[ph]], v0: s.init[i], typ: ph.Type()}
		for _, b := range lr.backs {
			idx := -1
			for j, p := range b.blk.Preds {
				if p == b.pred {
					idx = j
				}
			}
			o.backs = append(o.backs, b.st.resolve(in.val(b, ph.Edges[idx])))
			o.sts = append(o.sts, b.st)
		}
		cells[k] = o
	}
	// heap cells of objects that exist at the head
	objs := map[int]bool{}
	for _, b := range lr.backs {
		for id, v := range b.st.heap {
			if hv, ok := h.st.heap[id]; ok {
				if hv != nil && !sameVal(hv, v) {
					objs[id] = true
				}
			} else if bv, ok := baseHeap[id]; ok {
				if !sameVal(bv, v) {
					objs[id] = true
				}
			}
		}
	}
	var ids []int
	for id := range objs {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		hv := h.st.get(id)
		flatten(h.st, hv, "", func(path string, v Value) {
			k := fmt.Sprintf("obj:%d%s", id, path)
			v0, _ := s.entry.st.load(&PtrV{obj: id, path: path})
			o := &obs{lf: &leaf{key: k, phi: -1, obj: id, path: path}, h: v, v0: v0}
			for _, b := range lr.backs {
				bv, ok := b.st.load(&PtrV{obj: id, path: path})
				if !ok {
					bv = nil
				}
				o.backs = append(o.backs, bv)
				o.sts = append(o.sts, b.st)
			}
			cells[k] = o
		})
	}
	var ks []string
	for k := range cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var deferred []string
	pass := 0
again:
	for _, k := range ks {
		o := cells[k]
		m := s.modes[k]
		if m == nil {
			same := true
			for _, b := range o.backs {
				if b == nil || !sameVal(b, o.h) {
					same = false
				}
			}
			if same {
				continue
			}
			if m := s.timeCell(o.lf); m != nil {
				changed = true
				s.leaves[k], s.modes[k] = o.lf, m
				continue
			}
			nm, pl := s.classify(o.v0, o.h, o.backs, o.sts, own, o.typ, "")
			if s.absorb && (pl || nm.kind == "havoc") && pass == 0 {
				// it may be a function of what is found now
				deferred = append(deferred, k)
				continue
			}
			changed = true
			s.leaves[k] = o.lf
			if pl {
				peel = true
				nm = s.havocMode(o.v0, o.backs, o.typ)
			}
			s.modes[k] = nm
			continue
		}
		if !s.consistent(m, o.h, o.backs, o.sts) {
			changed = true
			if m.kind == "havoc" {
				// candidates dropped by consistent()
				continue
			}
			nm, pl := s.classify(o.v0, o.h, o.backs, o.sts, own, o.typ, m.kind)
			if pl {
				peel = true
			}
			s.modes[k] = nm
		}
	}
	if len(deferred) > 0 && !changed && pass == 0 {
		ks, pass = deferred, 1
		goto again
	}
	return
}

func intDelta(h, b Value, st *State) (int64, bool) {
	x, ok1 := h.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 || x.kind != KInt || y.kind != KInt {
		return 0, false
	}
	d := Sub(y, x)
	if d.op == OConst {
		return d.i, true
	}
	d = Sub(st.facts.simplify(y), st.facts.simplify(x))
	if d.op == OConst {
		return d.i, true
	}
	lo, hi := linRange(d, st.facts)
	if lo == hi && lo != ninf && lo != inf {
		return lo, true
	}
	return 0, false
}

// strPrefix: b = cat(h, rest)
func strPrefix(h, b *Term) (*Term, bool) {
	if h == b {
		return Str(""), true
	}
	parts := func(t *Term) []*Term {
		if t.op == OApp && t.name == "cat" {
			return t.args
		}
		if t.op == OConst && t.s == "" {
			return nil
		}
		return []*Term{t}
	}
	hp, bp := parts(h), parts(b)
	if len(hp) == 0 {
		return b, true
	}
	if len(bp) < len(hp) {
		return nil, false
	}
	for i := range hp {
		if hp[i] == bp[i] {
			continue
		}
		if i == len(hp)-1 && hp[i].op == OConst && bp[i].op == OConst && strings.HasPrefix(bp[i].s, hp[i].s) {
			rest := append([]*Term{Str(bp[i].s[len(hp[i].s):])}, bp[i+1:]...)
			return mkCat(rest...), true
		}
		return nil, false
	}
	return mkCat(bp[len(hp):]...), true
}

func listSuffix(h, b Value) ([]Seg, bool) {
	var hs, bs []Seg
	if l, ok := h.(*ListV); ok {
		hs = l.segs
	} else if !isNilV(h) {
		return nil, false
	}
	if l, ok := b.(*ListV); ok {
		bs = l.segs
	} else if !isNilV(b) {
		return nil, false
	}
	if len(bs) < len(hs) {
		return nil, false
	}
	for i := range hs {
		if segKey(hs[i]) != segKey(bs[i]) {
			return nil, false
		}
	}
	return bs[len(hs):], true
}

func (s *summary) classify(v0, h Value, backs []Value, sts []*State, own map[*Term]bool, typ types.Type, failed string) (*cellMode, bool) {
	// integer with a constant step
	if failed == "" {
		if _, ok := h.(*Term); ok {
			c, ok := intDelta(h, backs[0], sts[0])
			for i := range backs {
				d, ok2 := intDelta(h, backs[i], sts[i])
				if !ok2 || d != c {
					ok = false
				}
			}
			if ok {
				return &cellMode{kind: "ind", c: c}, false
			}
		}
		if hb, ok := h.(*BufV); ok {
			good := true
			var c1, c2 int64
			for i := range backs {
				b, ok := backs[i].(*BufV)
				if !ok || b.buf != hb.buf {
					good = false
					break
				}
				d1, ok1 := intDelta(hb.off, b.off, sts[i])
				d2, ok2 := intDelta(hb.ln, b.ln, sts[i])
				if !ok1 || !ok2 || i > 0 && (d1 != c1 || d2 != c2) {
					good = false
					break
				}
				c1, c2 = d1, d2
			}
			if good {
				return &cellMode{kind: "buf", c: c1, c2: c2}, false
			}
		}
		// string accumulators
		if ht, _, ok := asStr(h); ok {
			good := true
			for _, b := range backs {
				bt, _, ok := asStr(b)
				if !ok {
					good = false
					break
				}
				if _, ok := strPrefix(ht, bt); !ok {
					good = false
				}
			}
			if good {
				return &cellMode{kind: "acc", sym: Sym(KStr, "A", 0, 0)}, false
			}
		}
		if isNilV(h) {
			if _, _, ok := asStr(backs[0]); ok {
				if _, isT := backs[0].(*Term); !isT {
					return &cellMode{kind: "acc", sym: Sym(KStr, "A", 0, 0), v: backs[0]}, false
				}
			}
		}
		good := true
		isList := false
		for _, b := range append([]Value{h}, backs...) {
			if _, ok := b.(*ListV); ok {
				isList = true
			}
			if _, ok := listSuffix(h, b); !ok {
				good = false
			}
		}
		if good && isList {
			objSeq++
			return &cellMode{kind: "list", acc: objSeq}, false
		}
	}
	// what the previous iteration left
	if s.absorb && failed == "" {
		if m := s.fnMode(v0, backs); m != nil {
			return m, false
		}
	}
	// the same value on every back edge
	if failed != "havoc" {
		same := true
		for _, b := range backs {
			if b == nil || !sameVal(b, backs[0]) || dependsOn(b, own) {
				same = false
			}
			if p, ok := b.(*PtrV); ok && p.obj > s.mark {
				same = false
			}
		}
		if _, isT := backs[0].(*Term); isT && same && !sameVal(backs[0], v0) {
			return s.havocMode(v0, backs, typ), true
		}
	}
	return s.havocMode(v0, backs, typ), false
}

// fnMode: the value at the head is what the iteration before computes.
func (s *summary) fnMode(v0 Value, backs []Value) *cellMode {
	if v0 == nil {
		return nil
	}
	switch backs[0].(type) {
	case *OpaqueV, *Term:
	default:
		return nil
	}
	for _, b := range backs {
		if b == nil || !sameVal(b, backs[0]) {
			return nil
		}
	}
	own := map[*Term]bool{}
	for _, m := range s.modes {
		if m != nil && m.sym != nil {
			own[m.sym] = true
		}
	}
	if dependsOn(backs[0], own) || !dependsOn(backs[0], map[*Term]bool{s.kappa: true}) {
		return nil
	}
	v := s.shift(backs[0], AddC(s.kappa, -1))
	if !sameVal(s.shift(v, Int(0)), v0) {
		return nil
	}
	return &cellMode{kind: "fn", v: v}
}

func (s *summary) shift(v Value, to *Term) Value {
	x := &subster{m: map[*Term]*Term{s.kappa: to}, memo: map[*Term]*Term{}, lists: map[int]*StarInfo{}}
	return x.v(v)
}

func (s *summary) havocMode(v0 Value, backs []Value, typ types.Type) *cellMode {
	sym := Sym(KOther, "w", 0, 0)
	m := &cellMode{kind: "havoc"}
	all := append([]Value{v0}, backs...)
	for _, v := range all {
		switch x := v.(type) {
		case *Term:
			switch x.kind {
			case KInt:
				lo, hi := int64(ninf), int64(inf)
				if typ != nil {
					if a, b, ok := intRange(typ); ok {
						lo, hi = a, b
					}
				}
				t := Sym(KInt, "w", lo, hi)
				m.sym, m.v = t, t
				if v0t, ok := v0.(*Term); ok {
					m.cand = append(m.cand, mkGE0(t), mkGE0(Sub(t, v0t)), mkGE0(Sub(v0t, t)))
					for i := range buffers {
						m.cand = append(m.cand, mkGE0(Sub(buffers[i].ln, t)))
					}
					m.cand = filterHolds(m.cand, t, v0t, s.entry.st.facts)
				}
				return m
			case KOther:
			default:
				t := Sym(x.kind, "w", 0, 0)
				m.sym, m.v = t, t
				return m
			}
		case *BytesV:
			m.sym = Sym(KStr, "w", 0, 0)
			m.v = &BytesV{m.sym}
			return m
		case *RunesV:
			m.sym = Sym(KStr, "w", 0, 0)
			m.v = &RunesV{m.sym}
			return m
		case *MapV:
			m.sym = sym
			m.v = &MapV{kv: map[string]mapEnt{}, typ: x.typ, sym: sym}
			return m
		case *OpaqueV:
			if typ == nil {
				typ = x.typ
			}
		}
	}
	nonnil := true
	for _, v := range all {
		switch x := v.(type) {
		case NilV:
			nonnil = false
		case *OpaqueV:
			if !x.nonnil {
				nonnil = false
			}
		}
	}
	m.sym = sym
	if typ != nil {
		m.v = s.in.havocNamed(typ, sym, nonnil)
	} else {
		m.v = &OpaqueV{t: sym, nonnil: nonnil}
	}
	return m
}

// timeCell: the times of the session are arbitrary at the head of a loop that
// changes them.
func (s *summary) timeCell(lf *leaf) *cellMode {
	if lf.phi >= 0 || s.in.con == nil || s.in.con.cxt == nil || lf.obj != s.in.con.cxt.obj {
		return nil
	}
	ct := s.in.namedType("parse/context", "Context")
	if ct == nil {
		return nil
	}
	for _, f := range []string{"SigCreationTime", "KeyCreationTime"} {
		if i := fieldIndex(ct, f); i >= 0 && lf.path == fmt.Sprintf("%s.%d", s.in.con.cxt.path, i) {
			sym := Sym(KOther, "time", 0, 0)
			return &cellMode{kind: "havoc", sym: sym, v: s.in.timeValue(sym)}
		}
	}
	return nil
}

func filterHolds(cs []*Term, from, to *Term, f *Facts) []*Term {
	var out []*Term
	for _, c := range cs {
		if f.decide(subst1(c, from, to)) == dTrue {
			out = append(out, c)
		}
	}
	return out
}

// consistent: do the back values fit the mode?
func (s *summary) consistent(m *cellMode, h Value, backs []Value, sts []*State) bool {
	for i, b := range backs {
		switch m.kind {
		case "ind":
			d, ok := intDelta(h, b, sts[i])
			if !ok || d != m.c {
				return false
			}
		case "buf":
			hb := h.(*BufV)
			bb, ok := b.(*BufV)
			if !ok || hb.buf != bb.buf {
				return false
			}
			d1, ok1 := intDelta(hb.off, bb.off, sts[i])
			d2, ok2 := intDelta(hb.ln, bb.ln, sts[i])
			if !ok1 || !ok2 || d1 != m.c || d2 != m.c2 {
				return false
			}
		case "acc":
			ht, _, _ := asStr(h)
			bt, _, ok := asStr(b)
			if !ok {
				return false
			}
			d, ok := strPrefix(ht, bt)
			if !ok || mentions(d, map[*Term]bool{m.sym: true}) {
				return false
			}
		case "list":
			if _, ok := listSuffix(h, b); !ok {
				return false
			}
		case "fn":
			if b == nil || !sameVal(b, s.shift(m.v, AddC(s.kappa, 1))) {
				return false
			}
		case "havoc":
			bt, ok := b.(*Term)
			if ok && len(m.cand) > 0 {
				keep := m.cand[:0:0]
				for _, c := range m.cand {
					if sts[i].facts.decide(subst1(c, m.sym, bt)) == dTrue {
						keep = append(keep, c)
					}
				}
				if len(keep) != len(m.cand) {
					m.cand = keep
					return false
				}
			}
		}
	}
	return true
}

// commonLits: literals of the iteration that hold on every back edge.
func (s *summary) commonLits(h *Config, lr *loopRun) []*Term {
	var out []*Term
	if len(lr.backs) == 0 {
		return nil
	}
	seen := map[*Term]bool{}
	for _, b := range lr.backs {
		lits, ok := b.st.facts.litsSince(h.st.facts)
		if !ok {
			lits, ok = b.st.facts.litsSince(s.entry.st.facts)
			if !ok {
				continue
			}
		}
		for _, x := range lits {
			for _, l := range conj(x) {
				if seen[l] {
					continue
				}
				seen[l] = true
				all := true
				for _, o := range lr.backs {
					if o.st.facts.decide(l) != dTrue {
						all = false
						break
					}
				}
				if all {
					out = append(out, l)
				}
			}
		}
	}
	return out
}

func conj(t *Term) []*Term {
	if t.op == OApp && t.name == "and" {
		var r []*Term
		for _, a := range t.args {
			r = append(r, conj(a)...)
		}
		return r
	}
	return []*Term{t}
}

// findInv: linear literals of all back edges, shifted to the head.
func (s *summary) findInv(h *Config, lr *loopRun) {
	for _, l := range s.commonLits(h, lr) {
		if l.op != OApp || l.name != "ge0" {
			continue
		}
		if !mentions(l, map[*Term]bool{s.kappa: true}) {
			continue
		}
		// only loop invariant atoms besides κ
		_, ms := linOf(l.args[0])
		good := true
		for _, m := range ms {
			if m.a == s.kappa {
				continue
			}
			if mentions(m.a, map[*Term]bool{s.kappa: true}) || s.ownSym(m.a) {
				good = false
			}
		}
		if !good {
			continue
		}
		inv := subst1(l, s.kappa, AddC(s.kappa, -1))
		base := subst1(l, s.kappa, Int(-1))
		if s.entry.st.facts.decide(base) == dTrue {
			s.inv = append(s.inv, inv)
		}
	}
}

func (s *summary) ownSym(t *Term) bool {
	own := map[*Term]bool{}
	for _, m := range s.modes {
		if m.sym != nil {
			own[m.sym] = true
		}
	}
	return mentions(t, own)
}

// bound looks for a reason why the loop ends.
func (s *summary) bound(h *Config, lr *loopRun) {
	in := s.in
	if in.mute > 0 {
		return
	}
	if len(lr.backs) == 0 {
		in.recLoop(s.entry, s.l, "summarised", true, "the body never returns to the head")
		return
	}
	for _, l := range s.commonLits(h, lr) {
		if l.op != OApp || l.name != "ge0" {
			continue
		}
		_, ms := linOf(l.args[0])
		neg, good := false, true
		for _, m := range ms {
			if m.a == s.kappa {
				neg = m.k < 0
				continue
			}
			if mentions(m.a, map[*Term]bool{s.kappa: true}) || s.ownSym(m.a) {
				good = false
			}
		}
		if neg && good {
			in.recLoop(s.entry, s.l, "summarised", true, "every iteration needs "+l.String()+", with κ counting iterations")
			return
		}
	}
	for _, l := range s.commonLits(h, lr) {
		// κ counts up to a limit and is compared for being different
		if l.op != OApp || l.name != "not" || !isApp(l.args[0], "eq0") {
			continue
		}
		d := l.args[0].args[0]
		_, ms := linOf(d)
		k, good := int64(0), true
		for _, m := range ms {
			if m.a == s.kappa {
				k = m.k
			} else if mentions(m.a, map[*Term]bool{s.kappa: true}) || s.ownSym(m.a) {
				good = false
			}
		}
		if k == 1 {
			d, k = MulC(d, -1), -1
		}
		if good && k == -1 && s.entry.st.facts.decide(mkGE0(subst1(d, s.kappa, Int(0)))) == dTrue {
			in.recLoop(s.entry, s.l, "summarised", true, "the loop ends when κ, counting iterations, makes "+d.String()+" zero")
			return
		}
	}
	// every back path consumes external input
	all := true
	for _, b := range lr.backs {
		if b.st.cons <= h.st.cons {
			all = false
		}
	}
	if all {
		in.recLoop(s.entry, s.l, "summarised", true, "every iteration reads from the input")
		return
	}
	// a strictly monotone cell with an invariant bound
	for k, m := range s.modes {
		if m.kind != "havoc" || m.sym == nil || m.sym.kind != KInt {
			continue
		}
		lf := s.leaves[k]
		up, down := true, true
		for _, b := range lr.backs {
			var bv Value
			if lf.phi >= 0 {
				for j, p := range b.blk.Preds {
					if p == b.pred {
						bv = b.st.resolve(in.val(b, s.phis[lf.phi].Edges[j]))
					}
				}
			} else {
				bv, _ = b.st.load(&PtrV{obj: lf.obj, path: lf.path})
			}
			bt, ok := bv.(*Term)
			if !ok {
				up, down = false, false
				break
			}
			if b.st.facts.decide(mkGE0(AddC(Sub(bt, m.sym), -1))) != dTrue {
				up = false
			}
			if b.st.facts.decide(mkGE0(AddC(Sub(m.sym, bt), -1))) != dTrue {
				down = false
			}
		}
		hasUp, hasLo := false, false
		for _, c := range m.cand {
			if c.op == OApp && c.name == "ge0" {
				_, ms := linOf(c.args[0])
				for _, x := range ms {
					if x.a == m.sym && x.k < 0 {
						hasUp = true
					}
					if x.a == m.sym && x.k > 0 {
						hasLo = true
					}
				}
			}
		}
		if up && hasUp || down && hasLo {
			in.recLoop(s.entry, s.l, "summarised", true, "a bounded cell is strictly monotone")
			return
		}
	}
	for _, b := range lr.backs {
		if why := s.forever(h, b); why != "" {
			in.recLoop(s.entry, s.l, "summarised", false, why)
			return
		}
	}
	in.recLoop(s.entry, s.l, "undecided", false, "no bound on the number of iterations was found")
}

// backTerm: what a cell holds when the loop returns to its head.
func (s *summary) backTerm(b *Config, k string) *Term {
	in, lf := s.in, s.leaves[k]
	var bv Value
	if lf.phi >= 0 {
		for j, p := range b.blk.Preds {
			if p == b.pred {
				bv = b.st.resolve(in.val(b, s.phis[lf.phi].Edges[j]))
			}
		}
	} else {
		bv, _ = b.st.load(&PtrV{obj: lf.obj, path: lf.path})
	}
	switch x := bv.(type) {
	case *Term:
		return x
	case *BytesV:
		return x.t
	case *RunesV:
		return x.t
	}
	return nil
}

// forever: the conditions of the way through the body hold again after it, so
// that it is taken again and again. Reading from the input ends some time.
func (s *summary) forever(h, b *Config) string {
	if b.st.cons > h.st.cons {
		return ""
	}
	lits, ok := b.st.facts.litsSince(h.st.facts)
	if !ok {
		return ""
	}
	m := map[*Term]*Term{s.kappa: AddC(s.kappa, 1)}
	for k, md := range s.modes {
		if md.kind != "havoc" || md.sym == nil {
			continue
		}
		if t := s.backTerm(b, k); t != nil && t.kind == md.sym.kind {
			m[md.sym] = t
		} else {
			m[md.sym] = nil
		}
	}
	var all []*Term
	for _, l := range lits {
		for _, c := range conj(l) {
			if !s.settled(c, m, 0) {
				return ""
			}
			all = append(all, c)
		}
	}
	for k, v := range m {
		if v == nil {
			delete(m, k)
		}
	}
	try := func(f *Facts) bool {
		if f == nil {
			return false
		}
		for _, l := range all {
			if f.decide(substM(l, m, map[*Term]*Term{}, true)) != dTrue {
				return false
			}
		}
		return true
	}
	if try(b.st.facts) {
		return "the loop does not end: its conditions hold again after a pass through its body"
	}
	// a counter that is too small for its limit
	for _, l := range all {
		if !isApp(l, "ge0") {
			continue
		}
		_, ms := linOf(l.args[0])
		for _, x := range ms {
			if v := m[x.a]; v != nil && x.k == -1 && x.a.kind == KInt && x.a.hi < 1<<40 {
				lim := Add(l.args[0], x.a)
				if try(b.st.facts.assume(mkGE0(AddC(lim, -x.a.hi-1)))) {
					return "the loop does not end: its counter is at most " + fmt.Sprint(x.a.hi) + " and then starts again"
				}
			}
		}
	}
	return ""
}

// settled: the condition has the same value whenever the cells have the same
// values.
func (s *summary) settled(t *Term, m map[*Term]*Term, depth int) bool {
	if v, ok := m[t]; ok {
		return v != nil
	}
	if t.op == OSym {
		if i := strings.LastIndexByte(t.name, '#'); i >= 0 {
			n, err := strconv.Atoi(t.name[i+1:])
			return err == nil && n <= s.fresh
		}
		return true
	}
	if t.op == OApp && strings.HasPrefix(t.name, "call ") {
		return false
	}
	for _, a := range t.args {
		if !s.settled(a, m, depth+1) {
			return false
		}
	}
	for _, x := range t.lm {
		if !s.settled(x.a, m, depth+1) {
			return false
		}
	}
	return true
}

// ---------- leaving the loop ----------

type loopSub struct {
	s     *summary
	delta map[*Term]*Term // accumulator symbol -> body over ι
	lists map[int][]Alt
	h     *Config
}

func (s *summary) finish(h *Config, lr *loopRun) *loopSub {
	in := s.in
	sub := &loopSub{s: s, delta: map[*Term]*Term{}, lists: map[int][]Alt{}, h: h}
	common := map[*Term]bool{}
	for _, l := range s.commonLits(h, lr) {
		common[l] = true
	}
	condOf := func(b *Config) *Term {
		if len(lr.backs) == 1 {
			return Bool(true)
		}
		lits, ok := b.st.facts.litsSince(h.st.facts)
		if !ok {
			return Sym(KBool, "?", 0, 0)
		}
		r := Bool(true)
		for _, x := range lits {
			for _, l := range conj(x) {
				if common[l] {
					continue
				}
				r = mkAnd(r, l)
			}
		}
		return r
	}
	for k, m := range s.modes {
		if m.kind != "acc" && m.kind != "list" {
			continue
		}
		lf := s.leaves[k]
		var hv Value
		if lf.phi >= 0 {
			hv = h.fr.env[h.fr.info.num[s.phis[lf.phi]]]
		} else {
			hv, _ = h.st.load(&PtrV{obj: lf.obj, path: lf.path})
		}
		body := Str("")
		bad := false
		for i := len(lr.backs) - 1; i >= 0; i-- {
			b := lr.backs[i]
			var bv Value
			if lf.phi >= 0 {
				for j, p := range b.blk.Preds {
					if p == b.pred {
						bv = b.st.resolve(in.val(b, s.phis[lf.phi].Edges[j]))
					}
				}
			} else {
				bv, _ = b.st.load(&PtrV{obj: lf.obj, path: lf.path})
			}
			if m.kind == "acc" {
				ht, _, _ := asStr(hv)
				bt, _, ok := asStr(bv)
				if !ok {
					bad = true
					break
				}
				d, ok := strPrefix(ht, bt)
				if !ok {
					bad = true
					break
				}
				if i == len(lr.backs)-1 {
					body = d
				} else {
					body = mkGate(condOf(b), d, body)
				}
			} else {
				segs, ok := listSuffix(hv, bv)
				if !ok {
					bad = true
					break
				}
				sub.lists[m.acc] = append([]Alt{{cond: condOf(b), segs: segs, st: b.st}}, sub.lists[m.acc]...)
			}
		}
		if bad {
			in.undecided(s.entry.fr, in.loopPos(s.l), "accumulator of unknown shape")
			continue
		}
		if m.kind == "acc" {
			own := map[*Term]bool{}
			for _, x := range s.modes {
				if x.sym != nil {
					own[x.sym] = true
				}
			}
			if mentions(body, own) || hasStar(body) && mentions(body, map[*Term]bool{s.kappa: true}) {
				if mentions(body, map[*Term]bool{m.sym: true}) || hasStar(body) {
					in.undecided(s.entry.fr, in.loopPos(s.l), "accumulated text depends on itself")
				}
			}
			sub.delta[m.sym] = substM(body, map[*Term]*Term{s.kappa: iotaSym}, map[*Term]*Term{}, true)
		}
	}
	return sub
}

// kappaAt finds the value of κ the facts force.
func (sub *loopSub) kappaAt(f *Facts) *Term {
	s := sub.s
	lits, ok := f.litsSince(s.entry.st.facts)
	if !ok {
		return nil
	}
	try := func(e *Term) bool {
		return !mentions(e, map[*Term]bool{s.kappa: true}) && !s.ownSym(e) && f.decide(mkEQ0(Sub(s.kappa, e))) == dTrue
	}
	if try(Int(0)) {
		return Int(0)
	}
	for i := len(lits) - 1; i >= 0; i-- {
		for _, l := range conj(lits[i]) {
			if l.op == OApp && l.name == "not" {
				l = l.args[0]
			}
			if l.op != OApp || (l.name != "ge0" && l.name != "eq0") {
				continue
			}
			c, ms := linOf(l.args[0])
			for _, m := range ms {
				if m.a == s.kappa && (m.k == 1 || m.k == -1) {
					// k*κ + rest = 0 -> κ = -rest/k
					rest := Sub(l.args[0], MulC(s.kappa, m.k))
					e := MulC(rest, -m.k)
					for _, d := range []int64{0, 1, -1} {
						if try(AddC(e, d)) {
							return AddC(e, d)
						}
					}
				}
			}
			_ = c
		}
	}
	return nil
}

type subster struct {
	m     map[*Term]*Term
	memo  map[*Term]*Term
	lists map[int]*StarInfo
	vm    map[Value]Value
}

func (x *subster) t(t *Term) *Term { return substM(t, x.m, x.memo, true) }

func (x *subster) v(v Value) Value {
	switch y := v.(type) {
	case nil:
		return nil
	case *Term:
		return x.t(y)
	case *StructV:
		var n *StructV
		for i, f := range y.fields {
			g := x.v(f)
			if n == nil && g != f {
				n = &StructV{fields: append([]Value(nil), y.fields...)}
			}
			if n != nil {
				n.fields[i] = g
			}
		}
		if n != nil {
			return n
		}
		return y
	case TupleV:
		n := make(TupleV, len(y))
		for i := range y {
			n[i] = x.v(y[i])
		}
		return n
	case *BufV:
		o, l := x.t(y.off), x.t(y.ln)
		nb := substBuf(y.buf, x.m, x.memo)
		nl := y.nl
		if nl != nil {
			nl = x.t(nl)
		}
		if o != y.off || l != y.ln || nb != y.buf || nl != y.nl {
			return &BufV{nb, o, l, nl}
		}
		return y
	case *PtrV:
		if t := timeTerm[y.obj]; t != nil && y.path == "" {
			if n := x.t(t); n != t && timeObjOf != nil {
				return timeObjOf(n)
			}
		}
		return y
	case *ErrV:
		if len(y.cond) == 0 && len(y.self) == 0 {
			return y
		}
		n := *y
		n.cond, n.self = map[int]*Term{}, map[int]*Term{}
		for i, c := range y.cond {
			n.cond[i] = x.t(c)
		}
		for i, c := range y.self {
			n.self[i] = x.t(c)
		}
		return &n
	case *BytesV:
		if t := x.t(y.t); t != y.t {
			return &BytesV{t}
		}
		return y
	case *RunesV:
		if t := x.t(y.t); t != y.t {
			return &RunesV{t}
		}
		return y
	case *ListV:
		n := &ListV{}
		ch := false
		for _, s := range y.segs {
			switch s.kind {
			case SegAcc:
				if st := x.lists[s.acc]; st != nil {
					n.segs = append(n.segs, Seg{kind: SegStar, star: st})
					ch = true
					continue
				}
			case SegSingle, SegOpt:
				v := x.v(s.v)
				c := s.cond
				if c != nil {
					c = x.t(c)
				}
				if v != s.v || c != s.cond {
					ch = true
					s.v, s.cond = v, c
				}
			case SegStar:
				if hi := x.t(s.star.hi); hi != s.star.hi {
					ns := *s.star
					ns.hi = hi
					s.star = &ns
					ch = true
				}
			}
			n.segs = append(n.segs, s)
		}
		if ch {
			return n
		}
		return y
	case *IfaceV:
		if v := x.v(y.val); v != y.val {
			return &IfaceV{y.typ, v}
		}
		return y
	case *FuncV:
		ch := false
		n := &FuncV{fn: y.fn}
		for _, b := range y.binds {
			v := x.v(b)
			if v != b {
				ch = true
			}
			n.binds = append(n.binds, v)
		}
		if ch {
			return n
		}
		return y
	case *ModelFuncV:
		if y.data == nil {
			return y
		}
		if v := x.v(y.data); v != y.data {
			return &ModelFuncV{y.name, v}
		}
		return y
	case *GateV:
		return &GateV{x.t(y.c), x.v(y.a), x.v(y.b)}
	case *OpaqueV:
		if t := x.t(y.t); t != y.t {
			return &OpaqueV{y.typ, t, y.nonnil}
		}
		return y
	case *MapV:
		n := &MapV{kv: map[string]mapEnt{}, keys: y.keys, typ: y.typ, sym: y.sym}
		ch := false
		for k, e := range y.kv {
			v := x.v(e.v)
			if v != e.v {
				ch = true
			}
			n.kv[k] = mapEnt{e.k, v}
		}
		if ch {
			return n
		}
		return y
	case *InBufElem:
		if t := x.t(y.v); t != y.v {
			return &InBufElem{y.buf, t}
		}
		return y
	case *tempElem:
		if v := x.v(y.v); v != y.v {
			return &tempElem{v}
		}
		return y
	}
	return v
}

func (sub *loopSub) prepare(st *State) (*subster, *State) {
	s := sub.s
	kf := sub.kappaAt(st.facts)
	x := &subster{m: map[*Term]*Term{}, memo: map[*Term]*Term{}, lists: map[int]*StarInfo{}}
	end := s.kappa
	if kf != nil {
		x.m[s.kappa] = kf
		end = kf
	} else {
		// κ stays as the number of complete iterations
		nk := Sym(KInt, "iters", 0, maxBuf)
		x.m[s.kappa] = nk
		end = nk
	}
	for a, body := range sub.delta {
		x.m[a] = mkStar(Int(0), end, body)
	}
	for acc, alts := range sub.lists {
		hi := end
		if z := hi; z.isInt(0) {
			x.lists[acc] = &StarInfo{kv: s.kappa, hi: Int(0), alts: alts}
			continue
		}
		x.lists[acc] = &StarInfo{kv: s.kappa, hi: hi, alts: alts}
	}
	// facts
	lits, ok := st.facts.litsSince(s.entry.st.facts)
	f := s.entry.st.facts
	if ok {
		for _, l := range lits {
			n := x.t(l)
			if f.decide(n) == dTrue {
				continue
			}
			g := f.assume(n)
			if g == nil {
				return nil, nil
			}
			f = g
		}
	}
	ns := &State{heap: make(map[int]Value, len(st.heap)), facts: f, events: st.events, nev: st.nev, cons: st.cons, opq: map[*Term]int{}}
	for k, v := range st.heap {
		ns.heap[k] = dropEmptyStars(x.v(v))
	}
	for t, o := range st.opq {
		ns.opq[x.t(t)] = o
	}
	return x, ns
}

func dropEmptyStars(v Value) Value {
	l, ok := v.(*ListV)
	if !ok {
		if s, ok := v.(*StructV); ok {
			for i, f := range s.fields {
				if g := dropEmptyStars(f); g != f {
					n := &StructV{fields: append([]Value(nil), s.fields...)}
					n.fields[i] = g
					return dropEmptyStars(n)
				}
			}
		}
		return v
	}
	for i, s := range l.segs {
		if s.kind == SegStar && s.star.hi.isInt(0) {
			n := &ListV{segs: append(append([]Seg(nil), l.segs[:i]...), l.segs[i+1:]...)}
			return dropEmptyStars(n)
		}
	}
	return v
}

func (sub *loopSub) config(c *Config) *Config {
	x, ns := sub.prepare(c.st)
	if ns == nil {
		return nil
	}
	fr := c.fr.clone()
	for i, v := range fr.env {
		if v != nil {
			fr.env[i] = dropEmptyStars(x.v(v))
		}
	}
	for i := range fr.defers {
		d := fr.defers[i]
		var a []Value
		for _, v := range d.args {
			a = append(a, x.v(v))
		}
		d.args = a
		d.fnv = x.v(d.fnv)
		fr.defers = append(append([]deferRec(nil), fr.defers[:i]...), append([]deferRec{d}, fr.defers[i+1:]...)...)
	}
	return &Config{fr: fr, st: ns, blk: c.blk, pred: c.pred, pc: c.pc}
}

func (sub *loopSub) outcome(o Outcome) *Outcome {
	x, ns := sub.prepare(o.st)
	if ns == nil {
		return nil
	}
	r := &Outcome{st: ns}
	for _, v := range o.rets {
		r.rets = append(r.rets, dropEmptyStars(x.v(v)))
	}
	return r
}
