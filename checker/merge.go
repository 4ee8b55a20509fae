package main

import (
	"go/types"
	"sort"
)

// Joins at function returns: outcomes of the same shape are joined into one,
// with the values they differ in guarded by the separating condition.

type group struct {
	st   *State
	rets []Value
	n    int
}

func (in *Interp) mergeOutcomes(outs []Outcome, entry *Facts, mark int, evs *Event) []Outcome {
	var gs []*group
	for _, o := range outs {
		done := false
		if len(outs) <= 400 {
			for _, g := range gs {
				if st, rets, ok := in.tryMerge(g.st, g.rets, o.st, o.rets, entry, mark); ok {
					g.st, g.rets = st, rets
					g.n++
					done = true
					break
				}
			}
		}
		if !done {
			gs = append(gs, &group{st: o.st, rets: o.rets, n: 1})
		}
	}
	// a second pass: joined groups may have become joinable
	for changed := true; changed && len(gs) > 1; {
		changed = false
	outer:
		for i := 0; i < len(gs); i++ {
			for j := i + 1; j < len(gs); j++ {
				if gs[i].n+gs[j].n <= 2 {
					continue
				}
				if st, rets, ok := in.tryMerge(gs[i].st, gs[i].rets, gs[j].st, gs[j].rets, entry, mark); ok {
					gs[i].st, gs[i].rets, gs[i].n = st, rets, gs[i].n+gs[j].n
					gs = append(gs[:j], gs[j+1:]...)
					changed = true
					break outer
				}
			}
		}
	}
	var r []Outcome
	for _, g := range gs {
		r = append(r, Outcome{st: g.st, rets: g.rets})
	}
	return r
}

type unifier struct {
	in   *Interp
	a, b *State
	c    *Term // true: b, false: a
	m    *State
	mark int
	ab   map[[2]int]int
	fa   map[int]int
	fb   map[int]int
	err  bool // both are error outcomes: only the error itself matters
	n    int
}

// separating condition: true on b's paths, false on a's.  Without a literal
// that separates them a fresh boolean names the choice (a prophecy variable).
func sepCond(a, b *Facts, la, lb []*Term) *Term {
	for _, l := range lb {
		if a.decide(l) == dFalse {
			return l
		}
	}
	for _, l := range la {
		if b.decide(l) == dFalse {
			return mkNot(l)
		}
	}
	var atoms []*Term
	for t := range b.sets {
		if _, ok := a.sets[t]; ok {
			atoms = append(atoms, t)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	for _, t := range atoms {
		if a.setOf(t).and(b.setOf(t)).empty() {
			return mkInSet(t, b.setOf(t))
		}
	}
	if a.opts.and(b.opts).empty() {
		return mkOptSet(b.opts)
	}
	return Sym(KBool, "join", 0, 0)
}

// exactJoin: the join loses nothing (both sides agree on everything but c).
func exactJoin(a, b *Facts, la, lb []*Term, c *Term) bool {
	nc := mkNot(c)
	for _, l := range la {
		if l != nc && b.decide(l) != dTrue {
			return false
		}
	}
	for _, l := range lb {
		if l != c && a.decide(l) != dTrue {
			return false
		}
	}
	return true
}

// joinFacts: what both sides know, and the disjunction of the rest.
func joinFacts(a, b *Facts, entry *Facts, la, lb []*Term, c *Term) *Facts {
	f := entry
	add := func(l *Term) {
		if f.decide(l) == dTrue {
			return
		}
		if g := f.assume(l); g != nil {
			f = g
		}
	}
	for _, l := range la {
		if b.decide(l) == dTrue {
			add(l)
		}
	}
	for _, l := range lb {
		if a.decide(l) == dTrue {
			add(l)
		}
	}
	var atoms []*Term
	for t := range a.sets {
		if _, ok := b.sets[t]; ok {
			atoms = append(atoms, t)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	for _, t := range atoms {
		u := a.setOf(t).or(b.setOf(t))
		if u != f.setOf(t) && u.count() < 256 {
			add(mkInSet(t, u))
		}
	}
	if u := a.opts.or(b.opts); u != f.opts && u != allOpts() {
		add(mkOptSet(u))
	}
	// intervals
	var rs []*Term
	for t := range a.rng {
		if _, ok := b.rng[t]; ok {
			rs = append(rs, t)
		}
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
	for _, t := range rs {
		x, y := a.rng[t], b.rng[t]
		lo, hi := min64(x.lo, y.lo), max64(x.hi, y.hi)
		if lo != ninf {
			add(mkGE0(AddC(t, -lo)))
		}
		if hi != inf {
			add(mkGE0(Sub(Int(hi), t)))
		}
	}
	ra, rb := []*Term{mkNot(c)}, []*Term{c}
	for _, l := range la {
		if f.decide(l) != dTrue {
			ra = append(ra, l)
		}
	}
	for _, l := range lb {
		if f.decide(l) != dTrue {
			rb = append(rb, l)
		}
	}
	if len(ra) > 24 || len(rb) > 24 {
		return f
	}
	switch {
	case len(ra) == 1 && len(rb) == 1:
	case len(ra) == 1:
		add(mkOr(ra[0], mkAnd(rb[1:]...)))
	case len(rb) == 1:
		add(mkOr(rb[0], mkAnd(ra[1:]...)))
	default:
		add(mkOr(mkAnd(ra...), mkAnd(rb...)))
	}
	return f
}

func (in *Interp) tryMerge(sa *State, ra []Value, sb *State, rb []Value, entry *Facts, mark int) (*State, []Value, bool) {
	if len(ra) != len(rb) || sa.events != sb.events {
		return nil, nil, false
	}
	// cheap shape test first
	for i := range ra {
		if !shapeOK(ra[i], rb[i]) {
			return nil, nil, false
		}
	}
	errMode := false
	for i := range ra {
		if _, ok := ra[i].(*ErrV); ok {
			errMode = true
		}
	}
	la, ok := sa.facts.litsSince(entry)
	if !ok {
		return nil, nil, false
	}
	lb, ok := sb.facts.litsSince(entry)
	if !ok {
		return nil, nil, false
	}
	c := sepCond(sa.facts, sb.facts, la, lb)
	if errMode && !exactJoin(sa.facts, sb.facts, la, lb, c) {
		return nil, nil, false
	}
	u := &unifier{in: in, a: sa, b: sb, c: c, mark: mark, ab: map[[2]int]int{}, fa: map[int]int{}, fb: map[int]int{}}
	u.m = sa.clone()
	if sb.cons < u.m.cons {
		u.m.cons = sb.cons
	}
	u.err = errMode
	u.m.facts = sa.facts
	for k, v := range sb.heap {
		if _, ok := u.m.heap[k]; !ok {
			u.m.heap[k] = v
		}
	}
	var rets []Value
	for i := range ra {
		v, ok := u.unify(ra[i], rb[i])
		if !ok {
			return nil, nil, false
		}
		rets = append(rets, v)
	}
	// objects both states hold
	var ids []int
	for k := range sa.heap {
		ids = append(ids, k)
	}
	for k := range sb.heap {
		if _, ok := sa.heap[k]; !ok {
			if _, base := baseHeap[k]; base {
				ids = append(ids, k)
			}
		}
	}
	sort.Ints(ids)
	for _, k := range ids {
		va, vb := sa.get(k), sb.get(k)
		if va == nil || vb == nil {
			continue
		}
		if _, hasB := sb.heap[k]; !hasB && k > mark {
			if _, base := baseHeap[k]; !base {
				continue
			}
		}
		if sameVal(va, vb) {
			u.m.heap[k] = va
			continue
		}
		v, ok := u.unify(va, vb)
		if !ok {
			if !errMode {
				return nil, nil, false
			}
			v = nil
		}
		u.m.heap[k] = v
	}
	for t, o := range sb.opq {
		if p, ok := u.m.opq[t]; ok {
			if p != o {
				return nil, nil, false
			}
		} else {
			u.m.opq[t] = o
		}
	}
	u.m.facts = joinFacts(sa.facts, sb.facts, entry, la, lb, c)
	return u.m, rets, true
}

func sameVal(a, b Value) bool {
	if ta, ok := a.(*Term); ok {
		tb, ok := b.(*Term)
		return ok && ta == tb
	}
	defer func() { recover() }()
	if a == b {
		return true
	}
	return vkey(a) == vkey(b)
}

func shapeOK(a, b Value) bool {
	_, ea := a.(*ErrV)
	_, eb := b.(*ErrV)
	if ea != eb {
		return false
	}
	return true
}

func (u *unifier) unify(a, b Value) (Value, bool) {
	u.n++
	if u.n > 20000 {
		return nil, false
	}
	a, b = u.a.resolve(a), u.b.resolve(b)
	if a == nil || b == nil {
		return nil, true // undefined on one side: dead
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.kind != y.kind {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if u.a.facts.simplify(y) == x {
			return y, true
		}
		if u.b.facts.simplify(x) == y {
			return x, true
		}
		switch x.kind {
		case KStr, KBool, KFloat:
			return mkGate(u.c, y, x), true
		case KInt:
			if d := Sub(x, y); u.a.facts.decide(mkEQ0(d)) == dTrue {
				return y, true
			} else if u.b.facts.decide(mkEQ0(d)) == dTrue {
				return x, true
			}
			if t := foldGate(u.c, y, x); t != nil {
				return t, true
			}
			if u.err {
				return u.joinInt(x, y), true
			}
			return nil, false
		}
		return nil, false
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok && x.t == y.t {
			return a, true
		}
		switch b.(type) {
		case *OpaqueV, NilV, *PtrV:
			return &GateV{u.c, b, a}, true
		}
		return nil, false
	case NilV:
		switch y := b.(type) {
		case *OpaqueV:
			return &GateV{u.c, b, a}, true
		case *BufV:
			if u.a.facts.decide(mkEQ0(y.ln)) == dTrue {
				nl := y.nl
				if nl == nil {
					nl = Bool(false)
				}
				return &BufV{y.buf, y.off, y.ln, mkGate(u.c, nl, Bool(true))}, true
			}
			return nil, false
		case NilV:
			return a, true
		case *PtrV:
			return &GateV{u.c, b, a}, true
		}
		return nil, false
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			switch b.(type) {
			case *OpaqueV, NilV:
				return &GateV{u.c, b, a}, true
			}
			return nil, false
		}
		if x.obj == y.obj {
			if x.path == y.path {
				return x, true
			}
			return nil, false
		}
		if x.path != "" || y.path != "" {
			return nil, false
		}
		if x.obj <= u.mark || y.obj <= u.mark {
			return nil, false
		}
		if m, ok := u.ab[[2]int{x.obj, y.obj}]; ok {
			return &PtrV{obj: m}, true
		}
		if u.fa[x.obj] != 0 || u.fb[y.obj] != 0 {
			return nil, false
		}
		// an object present in both states is one object, not two
		if _, ok := u.b.heap[x.obj]; ok {
			return nil, false
		}
		if _, ok := u.a.heap[y.obj]; ok {
			return nil, false
		}
		objSeq++
		m := objSeq
		u.ab[[2]int{x.obj, y.obj}] = m
		u.fa[x.obj], u.fb[y.obj] = m, m
		v, ok := u.unify(u.a.get(x.obj), u.b.get(y.obj))
		if !ok {
			return nil, false
		}
		u.m.heap[m] = v
		return &PtrV{obj: m}, true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return nil, false
		}
		n := &StructV{fields: make([]Value, len(x.fields))}
		same := true
		for i := range x.fields {
			v, ok := u.unify(x.fields[i], y.fields[i])
			if !ok {
				if !u.err {
					return nil, false
				}
				v = nil
			}
			n.fields[i] = v
			same = same && v == x.fields[i]
		}
		return n, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		var n TupleV
		for i := range x {
			v, ok := u.unify(x[i], y[i])
			if !ok {
				return nil, false
			}
			n = append(n, v)
		}
		return n, true
	case *ListV:
		if isNilV(b) && len(x.segs) == 0 {
			return x, true
		}
		y, ok := b.(*ListV)
		if !ok {
			return nil, false
		}
		return u.unifyList(x, y)
	case *IfaceV:
		y, ok := b.(*IfaceV)
		if !ok || !types.Identical(x.typ, y.typ) {
			return nil, false
		}
		v, ok := u.unify(x.val, y.val)
		if !ok {
			return nil, false
		}
		return &IfaceV{x.typ, v}, true
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return nil, false
		}
		n := &FuncV{fn: x.fn}
		for i := range x.binds {
			v, ok := u.unify(x.binds[i], y.binds[i])
			if !ok {
				return nil, false
			}
			n.binds = append(n.binds, v)
		}
		return n, true
	case *BytesV:
		y, ok := b.(*BytesV)
		if !ok {
			return nil, false
		}
		if x.t == y.t {
			return x, true
		}
		return &BytesV{mkGate(u.c, y.t, x.t)}, true
	case *RunesV:
		y, ok := b.(*RunesV)
		if !ok {
			return nil, false
		}
		if x.t == y.t {
			return x, true
		}
		return &RunesV{mkGate(u.c, y.t, x.t)}, true
	case *ErrV:
		if y, ok := b.(*ErrV); ok {
			return u.in.joinErr(u.c, x, y), true
		}
		return nil, false
	case *BufV:
		switch y := b.(type) {
		case *BufV:
			if x.buf != y.buf {
				return nil, false
			}
			if x.off == y.off && x.ln == y.ln && x.nl == y.nl {
				return x, true
			}
			if o, ok := u.unify(x.off, y.off); ok {
				if l, ok := u.unify(x.ln, y.ln); ok {
					nx, ny := x.nl, y.nl
					if nx == nil {
						nx = Bool(false)
					}
					if ny == nil {
						ny = Bool(false)
					}
					r := &BufV{x.buf, o.(*Term), l.(*Term), nil}
					if g := mkGate(u.c, ny, nx); g.op != OConst || g.b {
						r.nl = g
					}
					return r, true
				}
			}
		case NilV:
			if u.b.facts.decide(mkEQ0(x.ln)) == dTrue {
				nl := x.nl
				if nl == nil {
					nl = Bool(false)
				}
				return &BufV{x.buf, x.off, x.ln, mkGate(u.c, Bool(true), nl)}, true
			}
		}
		return nil, false
	case *GateV:
		if vkey(a) == vkey(b) {
			return a, true
		}
		if y, ok := b.(*GateV); ok && x.c == y.c {
			p, ok1 := u.unify(x.a, y.a)
			q, ok2 := u.unify(x.b, y.b)
			if ok1 && ok2 {
				return &GateV{x.c, p, q}, true
			}
		}
		return nil, false
	case *MapV:
		y, ok := b.(*MapV)
		if !ok || x.sym != y.sym || len(x.keys) != len(y.keys) {
			return nil, false
		}
		n := &MapV{kv: map[string]mapEnt{}, typ: x.typ, keys: x.keys, sym: x.sym}
		for i, k := range x.keys {
			if y.keys[i] != k {
				return nil, false
			}
			v, ok := u.unify(x.kv[k].v, y.kv[k].v)
			if !ok {
				return nil, false
			}
			n.kv[k] = mapEnt{x.kv[k].k, v}
		}
		return n, true
	}
	if sameVal(a, b) {
		return a, true
	}
	return nil, false
}

func (u *unifier) unifyList(x, y *ListV) (Value, bool) {
	n := &ListV{}
	k := 0
	for k < len(x.segs) && k < len(y.segs) {
		s, t := x.segs[k], y.segs[k]
		if s.kind != t.kind {
			break
		}
		if segKey(s) == segKey(t) {
			n.segs = append(n.segs, s)
			k++
			continue
		}
		if s.kind == SegSingle {
			v, ok := u.unify(s.v, t.v)
			if !ok {
				return nil, false
			}
			n.segs = append(n.segs, Seg{v: v})
			k++
			continue
		}
		if s.kind == SegOpt && s.cond == t.cond {
			v, ok := u.unify(s.v, t.v)
			if !ok {
				return nil, false
			}
			n.segs = append(n.segs, Seg{kind: SegOpt, cond: s.cond, v: v, snap: nil})
			k++
			continue
		}
		return nil, false
	}
	ex, ey := x.segs[k:], y.segs[k:]
	if len(ex)+len(ey) > 2 || len(ex) > 0 && len(ey) > 0 {
		return nil, false
	}
	for _, s := range ex {
		o, ok := optSeg(s, mkNot(u.c))
		if !ok {
			return nil, false
		}
		n.segs = append(n.segs, o)
	}
	for _, s := range ey {
		o, ok := optSeg(s, u.c)
		if !ok {
			return nil, false
		}
		n.segs = append(n.segs, o)
	}
	return n, true
}

func optSeg(s Seg, c *Term) (Seg, bool) {
	switch s.kind {
	case SegSingle:
		return Seg{kind: SegOpt, cond: c, v: s.v}, true
	case SegOpt:
		return Seg{kind: SegOpt, cond: mkAnd(c, s.cond), v: s.v}, true
	}
	return s, false
}

// joinInt: an integer of which only the interval is kept.
func (u *unifier) joinInt(x, y *Term) *Term {
	xl, xh := linRange(x, u.a.facts)
	yl, yh := linRange(y, u.b.facts)
	return Sym(KInt, "joined", min64(xl, yl), max64(xh, yh))
}

// refs calls f for every object a value refers to.
func refs(v Value, f func(int)) {
	switch x := v.(type) {
	case *PtrV:
		f(x.obj)
	case *BSliceV:
		f(x.obj)
	case *SliceV:
		f(x.obj)
	case *IterV:
		f(x.obj)
	case *StructV:
		for _, y := range x.fields {
			refs(y, f)
		}
	case TupleV:
		for _, y := range x {
			refs(y, f)
		}
	case *ListV:
		for _, s := range x.segs {
			refSeg(s, f)
		}
	case *MapV:
		for _, e := range x.kv {
			refs(e.k, f)
			refs(e.v, f)
		}
	case *IfaceV:
		refs(x.val, f)
	case *FuncV:
		for _, y := range x.binds {
			refs(y, f)
		}
	case *ModelFuncV:
		refs(x.data, f)
	case *GateV:
		refs(x.a, f)
		refs(x.b, f)
	case *tempElem:
		refs(x.v, f)
	case *iterSrc:
		if x.m != nil {
			refs(x.m, f)
		}
	}
}

func refSeg(s Seg, f func(int)) {
	if s.v != nil {
		refs(s.v, f)
	}
	if s.star != nil {
		for _, a := range s.star.alts {
			for _, t := range a.segs {
				refSeg(t, f)
			}
		}
	}
}

// collect drops the objects allocated after mark that nothing refers to any more.
func (in *Interp) collect(st *State, rets []Value, mark int, evs *Event) {
	seen := map[int]bool{}
	var todo []int
	f := func(o int) {
		if o > mark && !seen[o] {
			seen[o] = true
			todo = append(todo, o)
		}
	}
	any := false
	for k, v := range st.heap {
		if k <= mark || in.gname[k] != "" {
			refs(v, f)
		} else {
			any = true
		}
	}
	if !any {
		return
	}
	for _, r := range rets {
		refs(r, f)
	}
	for e := st.events; e != nil && e != evs; e = e.prev {
		for _, a := range e.args {
			refs(a, f)
		}
	}
	for _, o := range st.opq {
		f(o)
	}
	for len(todo) > 0 {
		o := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		refs(st.get(o), f)
	}
	for k := range st.heap {
		if k > mark && !seen[k] {
			if _, base := baseHeap[k]; !base && in.gname[k] == "" {
				delete(st.heap, k)
			}
		}
	}
}
