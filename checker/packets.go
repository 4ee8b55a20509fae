package main

import (
	"fmt"
	"go/types"
	"strings"
)

// The sequence of packets: what the iteration over the packets of an input
// yields, and what is done with the contents of a compressed data packet.

func inputReader(in *Interp) *OpaqueV {
	var t types.Type = types.NewInterfaceType(nil, nil)
	if p := in.p.all["io"]; p != nil {
		t = p.Type("Reader").Type()
	}
	return &OpaqueV{typ: t, t: NamedSym(KOther, "input", 0, 0), nonnil: true}
}

// callOn calls a method of a named type of the repository.
func (in *Interp) callOn(pkg, typ, name string, recv Value, args []Value, st *State) []CallOut {
	fn := in.p.method(pkg, typ, name, true)
	if fn == nil {
		in.undecided(nil, 0, "method "+typ+"."+name+" is missing")
		return nil
	}
	return in.callRoot(fn, append([]Value{recv}, args...), st)
}

// placeArgs: arguments by type.
func (in *Interp) placeArgs(sig *types.Signature, cxt Value, rd Value) []Value {
	var args []Value
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		switch {
		case ptrToNamed(t, modPath+"/parse/context.Context"):
			args = append(args, cxt)
		case types.IsInterface(t):
			args = append(args, rd)
		default:
			args = append(args, in.zero(t))
		}
	}
	return args
}

// rootPacket: reading and parsing the next packet of an input.
func (in *Interp) rootPacket(rep *reporter) (*rootRun, error) {
	in.root = "next packet of the input"
	st, ci, err := in.newContext(newState())
	if err != nil {
		return nil, err
	}
	fn := in.p.fn("parse/tags", "NewPackets")
	if fn == nil {
		return nil, fmt.Errorf("parse/tags.NewPackets is missing")
	}
	rd := inputReader(in)
	src := in.readerTerm(st, rd)
	r := &rootRun{name: in.root, tag: -1, sub: -1, body: bodyBuf(), cxt: ci, entry: st.facts, st0: st.clone(), plain: true, props: []string{"C12", "C23"}}
	r.parser = in.p.method("parse/tags", "Packets", "Parse", true)
	n := rawApp(KInt, "npackets", 0, maxBuf, src)
	more := mkGE0(AddC(n, -1))
	for _, o := range in.callRoot(fn, in.placeArgs(fn.Signature, ci.ptr, rd), st) {
		tv, ok := o.v.(TupleV)
		if !ok || len(tv) != 2 {
			return nil, fmt.Errorf("NewPackets does not return a packet reader and an error")
		}
		if !isNilV(tv[1]) {
			rep.add(finding{Props: []string{"C23"}, Kind: "input refused", Pos: in.p.pos(fn.Pos()), Root: in.root, Detail: "no packets are read from an input"})
			continue
		}
		pk := tv[0]
		for _, o := range in.callOn("parse/tags", "Packets", "Next", pk, nil, o.st) {
			isErr := !isNilV(o.v)
			switch o.st.decide(more) {
			case dTrue:
				if isErr {
					rep.add(finding{Props: []string{"C23"}, Kind: "packet lost", Root: in.root, Detail: "reading a complete packet fails"})
					continue
				}
			case dFalse:
				if !isErr {
					rep.add(finding{Props: []string{"C23"}, Kind: "packet invented", Root: in.root, Detail: "a packet is read after the end of the input"})
				}
				continue
			}
			r.outs = append(r.outs, in.callOn("parse/tags", "Packets", "Parse", pk, nil, o.st)...)
		}
	}
	r.spec = func(s *spec) []sKid {
		tag := rawApp(KInt, "pkt.tag", 0, 63, src, Int(0))
		body := rawApp(KOther, "pkt.body", 0, 0, src, Int(0))
		b := bufferFor(body)
		if s.is(mkEQ0(AddC(tag, -8))) {
			nd := s.tagSpec(8, rdOf(b))
			if s.expand != nil {
				nd.kid(s.packetsOf(s.expand, false))
			}
			return []sKid{one(nd)}
		}
		con := rawApp(KOther, "contract.tag", 0, 0, tag, mkBufStr(b.buf, b.off, b.ln))
		s.need(rawApp(KBool, "parse.ok", 0, 0, con), "the packet is malformed")
		return []sKid{{kind: kEmbed, t: rawApp(KOther, "item", 0, 0, con)}}
	}
	return r, nil
}

// rootParser: the whole input through a parser for it.
func (in *Interp) rootParser(rep *reporter) (*rootRun, error) {
	in.root = "packets of the input"
	st, ci, err := in.newContext(newState())
	if err != nil {
		return nil, err
	}
	fn := in.p.fn("parse", "New")
	np := in.p.fn("parse/tags", "NewPackets")
	if fn == nil || np == nil {
		return nil, fmt.Errorf("parse.New or tags.NewPackets is missing")
	}
	r := &rootRun{name: in.root, tag: -1, sub: -1, body: bodyBuf(), cxt: ci, entry: st.facts, st0: st.clone(), plain: true, props: []string{"C23"}}
	r.parser = in.p.method("parse", "Parser", "Parse", true)
	// the source of the packets
	var src *Term
	rd := inputReader(in)
	in.con.opaque8 = true
	in.hooks["parse/tags.NewPackets"] = func(in *Interp, ctx *callCtx) ([]CallOut, bool) {
		src = in.readerTerm(ctx.st, rd)
		ctx.args = in.placeArgs(ctx.sig(), ci.ptr, rd)
		return nil, false
	}
	defer func() {
		in.con.opaque8 = false
		delete(in.hooks, "parse/tags.NewPackets")
	}()
	for _, o := range in.callRoot(fn, in.placeArgs(fn.Signature, ci.ptr, rd), st) {
		tv, ok := o.v.(TupleV)
		if !ok || len(tv) != 2 || !isNilV(tv[1]) {
			continue
		}
		r.entry, r.st0 = o.st.facts, o.st.clone()
		r.outs = append(r.outs, in.callOn("parse", "Parser", "Parse", tv[0], nil, o.st)...)
		break
	}
	if src == nil || len(r.outs) == 0 {
		return nil, fmt.Errorf("no parser is made for an input")
	}
	r.spec = func(s *spec) []sKid {
		return []sKid{s.packetsOf(src, true)}
	}
	it := in.namedType("parse/result", "Info")
	r.list = func(in *Interp, st *State, v Value) Value {
		p, ok := st.resolve(v).(*PtrV)
		if !ok {
			return nil
		}
		s, ok := mustLoad(st, p).(*StructV)
		i := fieldIndex(it, "Packets")
		if !ok || i < 0 {
			return nil
		}
		return s.fields[i]
	}
	return r, nil
}

func packetsJob(which string) func(in *Interp, rep *reporter) {
	return func(in *Interp, rep *reporter) {
		var r *rootRun
		var err error
		if which == "packet" {
			r, err = in.rootPacket(rep)
		} else {
			r, err = in.rootParser(rep)
		}
		if err != nil {
			rep.res.Err = err.Error()
			return
		}
		rep.stat("roots", 1)
		rep.stat("outcomes", len(r.outs))
		in.compareRun(r, rep)
	}
}

func init() {
	otherJobs["packet"] = packetsJob("packet")
	otherJobs["packets"] = packetsJob("packets")
}

func (in *Interp) dumpRoot(r *rootRun) string {
	var sb strings.Builder
	for i, o := range r.outs {
		fmt.Fprintf(&sb, "-- %d\n", i)
		lits, _ := o.st.facts.litsSince(r.entry)
		for _, l := range lits {
			fmt.Fprintf(&sb, "   when %s\n", clip(l.String(), 300))
		}
		if tv, ok := o.v.(TupleV); ok {
			v := tv[0]
			if r.list != nil {
				v = r.list(in, o.st, tv[0])
			}
			fmt.Fprintf(&sb, "   err %s\n", showVal(tv[1]))
			in.showItem(o.st, v, "   ", &sb, 0)
		}
	}
	return sb.String()
}
