package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func newPointer(t types.Type) types.Type { return types.NewPointer(t) }

// Abstract values.
type Value interface{}

type NilV struct{}

type PtrV struct {
	obj  int
	path string // "" or ".i.j"
}

type StructV struct {
	fields []Value
}

// BufV is a slice of an input buffer (bytes the program must not modify).
type BufV struct {
	buf int
	off *Term
	ln  *Term
	nl  *Term // condition under which the slice is nil (nil: never)
}

// BytesV is an immutable view of bytes built by the program; as object content
// it is the content of a mutable byte array/buffer.
type BytesV struct{ t *Term }

// BSliceV is a byte slice over a program-allocated object holding BytesV.
type BSliceV struct {
	obj int
}

// ListV: slices (by value), arrays (as object content).
type ListV struct {
	segs []Seg
}

// SliceV: a slice over an object whose content is a ListV (make + index writes).
type SliceV struct{ obj int }

type SegKind uint8

const (
	SegSingle SegKind = iota
	SegOpt
	SegStar
	SegAcc
)

type Seg struct {
	kind SegKind
	v    Value
	cond *Term
	star *StarInfo
	acc  int
	snap *State // heap in which an optional element lives (nil: current)
}

type Alt struct {
	cond *Term
	segs []Seg
	st   *State
}

// StarInfo: for kv in [0,hi): one of the alternatives.
type StarInfo struct {
	kv   *Term
	hi   *Term
	alts []Alt
}

type MapV struct {
	keys []string // canonical order
	kv   map[string]mapEnt
	typ  *types.Map
	tab  string // name of the interned constant table ("" until needed)
	sym  *Term  // non nil: unknown additional content
}
type mapEnt struct{ k, v Value }

type IfaceV struct {
	typ types.Type
	val Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
}

// ModelFuncV is a function value implemented by the checker.
type ModelFuncV struct {
	name string
	data Value
}

type GateV struct {
	c    *Term
	a, b Value
}

type OpaqueV struct {
	typ    types.Type
	t      *Term
	nonnil bool
}

type ErrV struct {
	id   int
	name string
	ids  []int         // identities in its chain (including its own)
	cond map[int]*Term // identities in the chain only under a condition
	self map[int]*Term // joined errors: which error it is, under which condition
	open *Term         // non-nil: chain may contain more (unknown error)
	msg  *Term
}

// isID: the condition under which identity id is in the chain.
func (e *ErrV) isID(id int) *Term {
	for _, i := range e.ids {
		if i == id {
			if c, ok := e.cond[id]; ok {
				return c
			}
			return Bool(true)
		}
	}
	return Bool(false)
}

// isSelf: the condition under which the error is the error id itself.
func (e *ErrV) isSelf(id int) *Term {
	if e.id == id {
		return Bool(true)
	}
	if c, ok := e.self[id]; ok {
		return c
	}
	return Bool(false)
}

// chain adds the chains of causes to e.
func (e *ErrV) chain(causes ...*ErrV) {
	for _, x := range causes {
		for _, i := range x.ids {
			c := mkOr(e.isID(i), x.isID(i))
			e.ids = mergeIDs(e.ids, []int{i})
			if c.op == OConst {
				delete(e.cond, i)
			} else {
				if e.cond == nil {
					e.cond = map[int]*Term{}
				}
				e.cond[i] = c
			}
		}
		if x.open != nil {
			e.open = x.open
		}
	}
}

// joinErr joins two errors: b where c holds, a elsewhere.
func (in *Interp) joinErr(c *Term, a, b *ErrV) *ErrV {
	if a.id == b.id {
		return a
	}
	e := in.newErr(a.name, a.open)
	if b.name != a.name {
		e.name = a.name + "|" + b.name
		if len(e.name) > 80 {
			e.name = "error"
		}
	}
	if a.open == nil {
		e.open = b.open
	} else if b.open != nil && a.open != b.open {
		e.open = Sym(KOther, "open join", 0, 0)
		if f := strings.Split(a.open.name, "!"); len(f) == 3 && strings.Contains(b.open.name, "!"+f[1]+"!") {
			e.open = Sym(KOther, "open join !"+f[1]+"!", 0, 0)
		}
	}
	e.ids = []int{e.id}
	e.cond = map[int]*Term{}
	e.self = map[int]*Term{}
	for _, i := range mergeIDs(a.ids, b.ids) {
		g := mkGate(c, b.isID(i), a.isID(i))
		e.ids = append(e.ids, i)
		if g.op != OConst {
			e.cond[i] = g
		}
	}
	for _, x := range []*ErrV{a, b} {
		for i := range x.self {
			e.self[i] = mkGate(c, b.isSelf(i), a.isSelf(i))
		}
		e.self[x.id] = mkGate(c, b.isSelf(x.id), a.isSelf(x.id))
	}
	if a.msg != nil && b.msg != nil {
		e.msg = mkGate(c, b.msg, a.msg)
	}
	return e
}

type TupleV []Value

type IterV struct{ obj int } // iterator object

func isNilV(v Value) bool {
	_, ok := v.(NilV)
	return ok
}

// vkey is a canonical key for equality of values.
func vkey(v Value) string {
	switch x := v.(type) {
	case nil:
		return "<undef>"
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case NilV:
		return "nil"
	case *PtrV:
		return fmt.Sprintf("p%d%s", x.obj, x.path)
	case *StructV:
		var p []string
		for _, f := range x.fields {
			p = append(p, vkey(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case *BufV:
		if x.nl != nil {
			return fmt.Sprintf("buf%d[%d:%d]?%d", x.buf, x.off.id, x.ln.id, x.nl.id)
		}
		return fmt.Sprintf("buf%d[%d:%d]", x.buf, x.off.id, x.ln.id)
	case *BytesV:
		return fmt.Sprintf("bytes%d", x.t.id)
	case *BSliceV:
		return fmt.Sprintf("bs%d", x.obj)
	case *SliceV:
		return fmt.Sprintf("sl%d", x.obj)
	case *ListV:
		var p []string
		for _, s := range x.segs {
			p = append(p, segKey(s))
		}
		return "[" + strings.Join(p, ",") + "]"
	case *MapV:
		var p []string
		for _, k := range x.keys {
			p = append(p, k+":"+vkey(x.kv[k].v))
		}
		s := "map{" + strings.Join(p, ",") + "}"
		if x.sym != nil {
			s += fmt.Sprint(x.sym.id)
		}
		return s
	case *IfaceV:
		return "i(" + typKey(x.typ) + "," + vkey(x.val) + ")"
	case *FuncV:
		var p []string
		for _, b := range x.binds {
			p = append(p, vkey(b))
		}
		return "f(" + x.fn.String() + ";" + strings.Join(p, ",") + ")"
	case *ModelFuncV:
		return "mf(" + x.name + ";" + vkey(x.data) + ")"
	case *GateV:
		return fmt.Sprintf("g(%d,%s,%s)", x.c.id, vkey(x.a), vkey(x.b))
	case *OpaqueV:
		return fmt.Sprintf("o%d", x.t.id)
	case *ErrV:
		return fmt.Sprintf("e%d", x.id)
	case TupleV:
		var p []string
		for _, f := range x {
			p = append(p, vkey(f))
		}
		return "(" + strings.Join(p, ",") + ")"
	case *IterV:
		return fmt.Sprintf("it%d", x.obj)
	case *RunesV:
		return fmt.Sprintf("runes%d", x.t.id)
	case *InBufElem:
		return fmt.Sprintf("ibe%d.%d", x.buf, x.v.id)
	case *tempElem:
		return "te" + vkey(x.v)
	case *iterSrc:
		return fmt.Sprintf("is%p", x)
	}
	return fmt.Sprintf("%T", v)
}

func segKey(s Seg) string {
	switch s.kind {
	case SegSingle:
		return vkey(s.v)
	case SegOpt:
		return fmt.Sprintf("?%d:%s", s.cond.id, vkey(s.v))
	case SegStar:
		return fmt.Sprintf("*%p:%d", s.star, s.star.hi.id)
	case SegAcc:
		return fmt.Sprintf("acc%d", s.acc)
	}
	return "?"
}

func typKey(t types.Type) string {
	if t == nil {
		return "nil"
	}
	return types.TypeString(t, nil)
}

// State: heap overlay + facts + events.
type State struct {
	heap   map[int]Value
	facts  *Facts
	events *Event
	nev    int
	cons   int           // calls that consume external input
	opq    map[*Term]int // materialised opaque pointers
	// a panic on its way to the callers; one that deferred calls can recover
	panicking, pending bool
}

type Event struct {
	prev *Event
	kind string
	args []Value
	pos  string
	n    int
	loop bool
}

var baseHeap = map[int]Value{} // globals after package initialisation
var objSeq = 0

func newState() *State {
	return &State{heap: map[int]Value{}, facts: newFacts(), opq: map[*Term]int{}}
}

func (s *State) clone() *State {
	n := &State{facts: s.facts, events: s.events, nev: s.nev, cons: s.cons, panicking: s.panicking, pending: s.pending}
	n.heap = make(map[int]Value, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.opq = make(map[*Term]int, len(s.opq))
	for k, v := range s.opq {
		n.opq[k] = v
	}
	return n
}

func (s *State) get(obj int) Value {
	if v, ok := s.heap[obj]; ok {
		return v
	}
	return baseHeap[obj]
}

func (s *State) alloc(v Value) int {
	objSeq++
	s.heap[objSeq] = v
	return objSeq
}

func (s *State) event(kind, pos string, args ...Value) {
	n := 1
	if s.events != nil {
		n = s.events.n + 1
	}
	s.events = &Event{prev: s.events, kind: kind, args: args, pos: pos, n: n}
}

func (s *State) eventList() []*Event {
	var out []*Event
	for e := s.events; e != nil; e = e.prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (s *State) assume(c *Term) bool {
	f := s.facts.assume(c)
	if f == nil {
		return false
	}
	s.facts = f
	return true
}

func (s *State) decide(c *Term) int { return s.facts.decide(c) }

// resolve picks the branch of a gate the facts decide.
func (s *State) resolve(v Value) Value {
	for {
		g, ok := v.(*GateV)
		if !ok {
			return v
		}
		switch s.facts.decide(g.c) {
		case dTrue:
			v = g.a
		case dFalse:
			v = g.b
		default:
			return v
		}
	}
}

func pathIdx(p string) []int {
	var out []int
	n := -1
	for i := 0; i < len(p); i++ {
		if p[i] == '.' {
			if n >= 0 {
				out = append(out, n)
			}
			n = 0
		} else {
			n = n*10 + int(p[i]-'0')
		}
	}
	if n >= 0 {
		out = append(out, n)
	}
	return out
}

// load reads through a pointer path; ok=false when the shape is unknown.
func (s *State) load(p *PtrV) (Value, bool) {
	v := s.get(p.obj)
	for _, i := range pathIdx(p.path) {
		v = s.resolve(v)
		switch x := v.(type) {
		case *StructV:
			if i >= len(x.fields) {
				return nil, false
			}
			v = x.fields[i]
		case *ListV:
			if i >= len(x.segs) || x.segs[i].kind != SegSingle {
				return nil, false
			}
			v = x.segs[i].v
		default:
			return nil, false
		}
	}
	return s.resolve(v), v != nil
}

func (s *State) store(p *PtrV, nv Value) bool {
	idx := pathIdx(p.path)
	cur := s.get(p.obj)
	r, ok := setPath(s, cur, idx, nv)
	if !ok {
		return false
	}
	s.heap[p.obj] = r
	return true
}

func setPath(s *State, v Value, idx []int, nv Value) (Value, bool) {
	if len(idx) == 0 {
		return nv, true
	}
	v = s.resolve(v)
	switch x := v.(type) {
	case *StructV:
		if idx[0] >= len(x.fields) {
			return nil, false
		}
		c, ok := setPath(s, x.fields[idx[0]], idx[1:], nv)
		if !ok {
			return nil, false
		}
		n := &StructV{fields: append([]Value(nil), x.fields...)}
		n.fields[idx[0]] = c
		return n, true
	case *ListV:
		if idx[0] >= len(x.segs) || x.segs[idx[0]].kind != SegSingle {
			return nil, false
		}
		c, ok := setPath(s, x.segs[idx[0]].v, idx[1:], nv)
		if !ok {
			return nil, false
		}
		n := &ListV{segs: append([]Seg(nil), x.segs...)}
		n.segs[idx[0]] = Seg{kind: SegSingle, v: c}
		return n, true
	}
	return nil, false
}

// ---------- input buffers ----------

type Buffer struct {
	name string
	ln   *Term
}

var buffers []Buffer

const maxBuf = int64(1) << 46 // assumption: no buffer is longer than 2^46 bytes

func newBuffer(name string) *BufV {
	id := len(buffers)
	ln := Sym(KInt, "len("+name+")", 0, maxBuf)
	buffers = append(buffers, Buffer{name: name, ln: ln})
	lenSym[ln] = id
	return &BufV{buf: id, off: Int(0), ln: ln}
}

// lenSym: the length symbols of buffers.
var lenSym = map[*Term]int{}

// substBuf is the buffer after a substitution in the value it holds.
func substBuf(buf int, m, memo map[*Term]*Term) int {
	t := bufTerm[buf]
	if t == nil {
		return buf
	}
	n := substM(t, m, memo, true)
	if n == t {
		return buf
	}
	return bufferFor(n).buf
}

var bufByTerm = map[*Term]*BufV{}
var bufTerm = map[int]*Term{}

// bufferFor gives the (unique) buffer of the bytes of an opaque value.
func bufferFor(t *Term) *BufV {
	if b, ok := bufByTerm[t]; ok {
		return b
	}
	b := newBuffer(t.String())
	bufByTerm[t] = b
	bufTerm[b.buf] = t
	return b
}

func bufName(i int) string {
	if i < len(buffers) {
		return buffers[i].name
	}
	return fmt.Sprintf("buf%d", i)
}

func sortedKeys(m map[string]mapEnt) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}
