package main

import "golang.org/x/tools/go/ssa"

// Conditional assignments whose two values are one arithmetic expression (the
// quotient rounded up) are not worth two paths.

// foldGate: one expression for "if c then x else y", nil without one.
func foldGate(c, x, y *Term) *Term {
	if x == y {
		return x
	}
	if x.kind != KInt || y.kind != KInt {
		return nil
	}
	d := Sub(x, y)
	if d.isInt(-1) {
		c, x, y, d = mkNot(c), y, x, Int(1)
	}
	if !d.isInt(1) {
		return nil
	}
	_, ms := linOf(y)
	for _, m := range ms {
		if m.k != 1 || !isApp(m.a, "div") || m.a.args[1].op != OConst {
			continue
		}
		r, n := m.a.args[0], m.a.args[1]
		if lo, _ := linRange(r, nil); lo < 0 || n.i <= 0 {
			continue
		}
		nz := mkNot(mkEQ0(mkMod(r, n)))
		if nz != c {
			at, ts, kn, ok := truthTable(c)
			at2, ts2, kn2, ok2 := truthTable(nz)
			if !ok || !ok2 || at != at2 || ts != ts2 || kn != kn2 || kn != fullSet() {
				continue
			}
		}
		return Add(Sub(y, m.a), mkDiv(AddC(r, n.i-1), n))
	}
	return nil
}

// ifConvert handles a conditional that only chooses between two such values
// (nil: not of that form).
func (in *Interp) ifConvert(c *Config, ct *Term, lr *loopRun) *Config {
	s0, s1 := c.blk.Succs[0], c.blk.Succs[1]
	arm := func(b *ssa.BasicBlock) bool {
		if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 4 {
			return false
		}
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Jump, *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	var join *ssa.BasicBlock
	var a0, a1 bool
	switch {
	case s0 == s1:
		return nil
	case arm(s0) && s0.Succs[0] == s1:
		join, a0 = s1, true
	case arm(s1) && s1.Succs[0] == s0:
		join, a1 = s0, true
	case arm(s0) && arm(s1) && s0.Succs[0] == s1.Succs[0]:
		join, a0, a1 = s0.Succs[0], true, true
	default:
		return nil
	}
	if _, ok := join.Instrs[0].(*ssa.Phi); !ok || c.fr.info.loops[join] != nil || len(join.Preds) != 2 {
		return nil
	}
	if lr != nil && (!lr.loop.blocks[join] || join == lr.loop.head) {
		return nil
	}
	side := func(b *ssa.BasicBlock, use bool) *Config {
		n := &Config{fr: c.fr.clone(), st: c.st, blk: c.blk, pred: c.pred}
		if !use {
			n.pred = c.blk
			return n
		}
		n.blk, n.pred = b, c.blk
		for i, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Jump); ok {
				break
			}
			n.pc = i
			outs, split, dead := in.step(n, ins)
			if outs != nil || split != nil || dead {
				return nil
			}
		}
		n.pred = b
		return n
	}
	n0 := side(s0, a0)
	if n0 == nil {
		return nil
	}
	n1 := side(s1, a1)
	if n1 == nil {
		return nil
	}
	edge := func(p *ssa.BasicBlock) int {
		for i, q := range join.Preds {
			if q == p {
				return i
			}
		}
		return -1
	}
	i0, i1 := edge(n0.pred), edge(n1.pred)
	if i0 < 0 || i1 < 0 {
		return nil
	}
	res := &Config{fr: c.fr.clone(), st: c.st, blk: join, pred: n0.pred}
	for i, ins := range join.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			res.pc = i
			break
		}
		var v0, v1 Value
		if _, sp := in.tryEval(n0, func() Value { v0 = in.val(n0, ph.Edges[i0]); return nil }); sp != nil {
			return nil
		}
		if _, sp := in.tryEval(n1, func() Value { v1 = in.val(n1, ph.Edges[i1]); return nil }); sp != nil {
			return nil
		}
		if sameVal(v0, v1) {
			res.fr.env[res.fr.info.num[ph]] = v0
			continue
		}
		t0, ok0 := v0.(*Term)
		t1, ok1 := v1.(*Term)
		if !ok0 || !ok1 {
			return nil
		}
		t := foldGate(ct, t0, t1)
		if t == nil {
			return nil
		}
		res.fr.env[res.fr.info.num[ph]] = t
	}
	return res
}
