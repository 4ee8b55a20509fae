package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Every function that ranges over a map, on its own: with the same arguments
// it gives the same result whichever way the map is traversed.

func mapsJob(in *Interp, rep *reporter) {
	for _, fn := range in.p.repoFunctions() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				r, ok := i.(*ssa.Range)
				if !ok {
					continue
				}
				if _, ok := r.X.Type().Underlying().(*types.Map); ok {
					in.mapOrder(fn, rep)
				}
			}
		}
	}
	in.resetSide()
}

func (in *Interp) mapOrder(fn *ssa.Function, rep *reporter) {
	in.root = "function " + in.fnName(fn)
	pos := in.p.pos(fn.Pos())
	skip := func(why string) {
		rep.add(finding{Props: []string{"C09"}, Kind: "undecided", Und: true, Pos: pos, Fn: in.fnName(fn), Root: in.root, Detail: "order of a map: " + why})
	}
	in.resetSide()
	st := newState()
	var args []Value
	var bufs []*BufV
	if fn.Parent() != nil {
		skip("a function literal is not called on its own")
		return
	}
	for i, p := range fn.Params {
		name := fmt.Sprintf("argument %d of %s", i+1, in.fnName(fn))
		switch u := p.Type().Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsInteger != 0:
				lo, hi, _ := intRange(p.Type())
				args = append(args, NamedSym(KInt, name, lo, hi))
			case u.Info()&types.IsString != 0:
				b := newBuffer(name)
				bufs = append(bufs, b)
				args = append(args, mkBufStr(b.buf, Int(0), b.ln))
			case u.Info()&types.IsBoolean != 0:
				args = append(args, NamedSym(KBool, name, 0, 0))
			}
		case *types.Slice:
			if isByteType(u.Elem()) {
				b := newBuffer(name)
				bufs = append(bufs, b)
				args = append(args, b)
			}
		}
		if len(args) != i+1 {
			skip("a parameter of type " + p.Type().String() + " is not handled")
			return
		}
	}
	// nothing is joined: every path has its own result
	nm := in.noMerge
	in.noMerge = true
	base := st.facts
	a := in.callRoot(fn, args, st.clone())
	in.mapRev = true
	b := in.callRoot(fn, args, st.clone())
	in.mapRev = false
	in.noMerge = nm
	rep.stat("functions with ranges over maps", 1)
	for _, x := range a {
		for _, y := range b {
			l1, ok1 := x.st.facts.litsSince(base)
			l2, ok2 := y.st.facts.litsSince(base)
			if !ok1 || !ok2 {
				skip("the conditions of a path are not known")
				return
			}
			rep.stat("pairs of paths compared", 1)
			f := assumeAll(x.st.facts, l2)
			if f == nil {
				continue
			}
			u, ok1 := force(x.st, x.v).(*Term)
			v, ok2 := force(y.st, y.v).(*Term)
			if !ok1 || !ok2 {
				skip("the result is not a plain value")
				return
			}
			if newCmpr().eq(f, u, v) {
				continue
			}
			// arguments of a few lengths, octet by octet
			sure := len(bufs) == 0 && f.simplify(u).op == OConst && f.simplify(v).op == OConst
			for n := int64(0); n <= 16 && !sure && len(bufs) > 0; n++ {
				g := base
				for _, b := range bufs {
					if g != nil {
						g = g.assume(mkEQ0(AddC(b.ln, -n)))
					}
				}
				g = assumeAll(assumeAll(g, l1), l2)
				if g != nil {
					u, v := g.simplify(u), g.simplify(v)
					if u.op == OConst && v.op == OConst && u != v {
						f, sure = g, true
					}
				}
			}
			rep.add(finding{Props: []string{"C09"}, Kind: "order of a map", Und: !sure || len(in.und) > 0, Pos: pos, Fn: in.fnName(fn), Root: in.root,
				Detail: fmt.Sprintf("depends on the order in which a map is traversed: the result is %s or %s for the same arguments", clip(f.simplify(u).String(), 200), clip(f.simplify(v).String(), 200)), Path: clip(f.String(), 600)})
			if sure {
				return
			}
		}
	}
}

func assumeAll(f *Facts, ls []*Term) *Facts {
	for _, l := range ls {
		if f == nil {
			return nil
		}
		f = f.assume(f.simplify(l))
	}
	return f
}

func init() { otherJobs["maps"] = mapsJob }
