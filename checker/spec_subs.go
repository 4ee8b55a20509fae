package main

import "fmt"

// Specification of the subpacket types.

var subNames = map[int]string{0: "Reserved", 1: "Image Attribute", 2: "Signature Creation Time", 3: "Signature Expiration Time", 4: "Exportable Certification", 5: "Trust Signature", 6: "Regular Expression", 7: "Revocable", 8: "Reserved", 9: "Key Expiration Time", 10: "Placeholder for backward compatibility", 11: "Preferred Symmetric Algorithms", 12: "Revocation Key", 13: "Reserved", 14: "Reserved", 15: "Reserved", 16: "Issuer", 17: "Reserved", 18: "Reserved", 19: "Reserved", 20: "Notation Data", 21: "Preferred Hash Algorithms", 22: "Preferred Compression Algorithms", 23: "Key Server Preferences", 24: "Preferred Key Server", 25: "Primary User ID", 26: "Policy URI", 27: "Key Flags", 28: "Signer's User ID", 29: "Reason for Revocation", 30: "Features", 31: "Signature Target", 32: "Embedded Signature", 33: "Issuer Fingerprint", 34: "Preferred AEAD Algorithms", 35: "Intended Recipient Fingerprint", 36: "Reserved", 37: "Attested Certifications", 38: "Key Block"}

func subTitle(sub int) string {
	id := sub & 0x7f
	nm, ok := subNames[id]
	if !ok {
		nm = "Unknown"
	}
	if id >= 100 && id <= 110 {
		nm = "Private or experimental"
	}
	if sub&0x80 != 0 {
		nm += " <critical>"
	}
	return fmt.Sprintf("%s (sub %d)", nm, id)
}

// flag: an item that is there if a bit is set.
func flagItem(bits *Term, text *Term) sKid {
	n := node("Flag").val(text)
	n.pHere = []string{"C07"}
	return opt(mkNot(mkEQ0(bits)), n)
}

func unkFlag(i *Term, bits *Term) sKid {
	return flagItem(bits, mkCat(Str("Unknown flag"), mkDec(i), Str("("), mkFmtInt("%#02x", bits), Str(")")))
}

func band(b *Term, m int64) *Term { return mkBit("band", b, Int(m)) }

// moreFlags: the octets that remain, none of whose bits is defined.
func moreFlags(r *rd, first int64) sKid {
	x := *r
	return sKid{kind: kStar, count: x.rest(), gen: func(s *spec, k *Term) []sKid {
		return []sKid{unkFlag(AddC(k, first), ByteAt(x.buf, Add(x.off, k)))}
	}}
}

func algList(r *rd, t *algTab) sKid {
	x := *r
	return sKid{kind: kStar, count: x.rest(), gen: func(s *spec, k *Term) []sKid {
		return []sKid{one(tabItem(t, ByteAt(x.buf, Add(x.off, k)), nil, onDebug))}
	}}
}

func (s *spec) expiry(name *Term, r *rd, t0 *Term) *sNode {
	x := s.take(r, Int(4), "the expiration time is cut off")
	v := beAt(x.buf, x.off, 4)
	n := node("").dmp(onDebug, x)
	n.name = name
	n.pName = []string{"C07"}
	n.val(mkCat(mkFmtV("%v", mkFBin("fdiv", mkToFloat(v), mkToFloat(Int(86400)))), Str(" days after")), "C10")
	b := bufferFor(rawApp(KOther, "octets", 0, 0, t0))
	c := beAt(b.buf, Int(0), 4)
	n.nt(mkGate(mkAnd(mkNot(rawApp(KBool, "isnil", 0, 0, t0)), mkGE0(AddC(c, -1))), timeStr(Add(v, c)), noStr), "C10")
	return n
}

// subSpec: the expected dump of a subpacket.
func (s *spec) subSpec(tag, sub int, b *rd) *sNode {
	root := raw(subTitle(sub), b, onDebug)
	root.pName = []string{"C07"}
	root.pHere = []string{"C07"}
	r := &rd{b.buf, b.off, b.end}
	whole := &rd{b.buf, b.off, b.end}
	id := sub & 0x7f
	if tag == 17 {
		if id != 1 {
			return root
		}
		l := s.take(r, Int(2), "the length of the image header is cut off")
		hl := Add(ByteAt(l.buf, l.off), MulC(ByteAt(l.buf, AddC(l.off, 1)), 256))
		s.need(mkGE0(Sub(whole.rest(), hl)), "the image header is longer than the subpacket")
		v := s.u8(r, "the version of the image header is missing")
		vn := node("Version").val(mkDec(v))
		vn.nt(mkGate(mkInSet(v, setOfInts(1)), noStr, mkGate(mkInSet(v, setRange(100, 110)), Str("private or experimental use"), Str("Unknown"))), "C07")
		root.kid(one(vn))
		if s.is(mkInSet(v, setRange(100, 110))) {
			e := s.u8(r, "the encoding of the image is missing")
			root.kid(one(node("Encoding").val(mkGate(mkInSet(e, setOfInts(1)), Str("JPEG"), Str("Unknown")), "C07").nt(mkCat(Str("(enc "), mkDec(e), Str(")")))))
		}
		root.kid(one(node("Image data").size(Sub(whole.rest(), hl))))
		return root
	}
	two := func(zero, other string) {
		f := s.u8(r, "the octet is missing")
		root.val(mkGate(mkEQ0(f), Str(zero), Str(other)), "C07")
	}
	txt := func() *sNode {
		n := text(root.name, whole, onDebug)
		n.pName, n.pHere = root.pName, root.pHere
		return n
	}
	fpr := func() {
		v := s.u8(r, "the version is missing")
		n := node("Version").val(mkDec(v))
		n.nt(lookup(map[int]string{4: "need 20 octets length", 5: "need 32 octets length"}, v, "Unknown"), "C07")
		root.kid(one(n), one(raw("Fingerprint", r, always)))
	}
	switch id {
	case 2:
		n, x := s.timeItem("", r)
		n.name, n.pName, n.pHere = root.name, root.pName, root.pHere
		s.sigAfter = &after{kind: "octets", buf: x.buf, off: x.off}
		return n
	case 3:
		return s.expiry(root.name, r, s.r.cxt.sig0)
	case 9:
		return s.expiry(root.name, r, s.r.cxt.key0)
	case 4:
		two("Not exportable", "Exportable")
		root.dmp(always, r)
	case 5:
		a := s.u8(r, "the level is missing")
		c := s.u8(r, "the trust amount is missing")
		root.kid(one(node("Level").val(mkDec(a))), one(node("Trust amount").val(mkDec(c))))
	case 6, 24, 26, 28:
		return txt()
	case 7:
		two("Not revocable", "Revocablee")
	case 11:
		root.kid(algList(r, tabSym))
	case 21:
		root.kid(algList(r, tabHash))
	case 22:
		root.kid(algList(r, tabComp))
	case 34:
		root.kid(algList(r, tabAead))
	case 12:
		c := s.u8(r, "the class is missing")
		n := node("Class").val(mkGate(mkEQ0(band(c, 0x80)), Str("Unknown"), mkGate(mkEQ0(band(c, 0x40)), Str("Normal"), Str("Sensitive"))), "C07")
		n.dump = mkFmtInt("%02x", c)
		a, _ := s.algItem(tabPub, r)
		root.kid(one(n), one(a), one(raw("Fingerprint", r, always)))
	case 16:
		x := s.take(r, Int(8), "the key ID is cut off")
		n := node("").val(rawHex16(x))
		n.name, n.pName, n.pHere = root.name, root.pName, root.pHere
		return n
	case 20:
		f := s.take(r, Int(4), "the flags are cut off")
		at := func(i int64) *Term { return ByteAt(f.buf, AddC(f.off, i)) }
		root.kid(flagItem(band(at(0), 0x80), Str("Human-readable")), unkFlag(Int(1), band(at(0), 0x7f)), unkFlag(Int(2), at(1)), unkFlag(Int(3), at(2)), unkFlag(Int(4), at(3)))
		nl := s.be(r, 2, "the length of the name is cut off")
		vl := s.be(r, 2, "the length of the value is cut off")
		nx := s.take(r, nl, "the name is cut off")
		vx := s.take(r, vl, "the value is cut off")
		root.kid(one(text(Str("Name"), nx, onDebug)))
		if s.is(mkEQ0(band(at(0), 0x80))) {
			root.kid(one(node("Value").dmp(always, vx)))
		} else {
			root.kid(one(text(Str("Value"), vx, onDebug)))
		}
	case 23:
		f := s.u8(r, "the flags are missing")
		root.kid(flagItem(band(f, 0x80), Str("No-modify")), unkFlag(Int(1), band(f, 0x7f)), moreFlags(r, 2))
	case 25:
		two("Not primary", "Primary")
	case 27:
		f := s.u8(r, "the flags are missing")
		root.kid(
			flagItem(band(f, 1), Str("This key may be used to certify other keys.")),
			flagItem(band(f, 2), Str("This key may be used to sign data.")),
			flagItem(band(f, 4), Str("This key may be used to encrypt communications.")),
			flagItem(band(f, 8), Str("This key may be used to encrypt storage.")),
			flagItem(band(f, 16), Str("The private component of this key may have been split by a secret-sharing mechanism.")),
			flagItem(band(f, 32), Str("This key may be used for authentication.")),
			unkFlag(Int(1), band(f, 64)),
			flagItem(band(f, 128), Str("The private component of this key may be in the possession of more than one person.")))
		if s.is(mkGE0(AddC(r.rest(), -1))) {
			g := s.u8(r, "")
			root.kid(
				flagItem(band(g, 4), Str("This key may be used as an additional decryption subkey (ADSK).")),
				flagItem(band(g, 8), Str("This key may be used for timestamping.")),
				unkFlag(Int(2), band(g, 0xf3)),
				moreFlags(r, 3))
		}
	case 29:
		c := s.u8(r, "the reason code is missing")
		nm := lookup(map[int]string{0: "No reason specified (key revocations or cert revocations)", 1: "Key is superseded (key revocations)", 2: "Key material has been compromised (key revocations)", 3: "Key is retired and no longer used (key revocations)", 32: "User ID resultrmation is no longer valid (cert revocations)"}, c, "Unknown reason")
		root.val(mkCat(mkGate(mkInSet(c, setRange(100, 110)), Str("(Private Use)"), nm), Str(" ("), mkDec(c), Str(")")), "C07")
		x := *r
		root.kid(opt(mkGE0(AddC(r.rest(), -1)), text(Str("Additional resultrmation"), &x, onDebug)))
	case 30:
		f := s.u8(r, "the flags are missing")
		root.kid(
			flagItem(band(f, 1), Str("Modification Detection (packets 18 and 19)")),
			flagItem(band(f, 2), Str("AEAD Encrypted Data Packet (packet 20) and version 5 Symmetric-Key Encrypted Session Key Packets (packet 3)")),
			flagItem(band(f, 4), Str("Version 5 Public-Key Packet format and corresponding new fingerprint format")),
			unkFlag(Int(1), band(f, 0xf8)),
			moreFlags(r, 2))
	case 31:
		a, _ := s.algItem(tabPub, r)
		h, _ := s.algItem(tabHash, r)
		root.kid(one(a), one(h), one(raw("Hash", r, always)))
	case 32:
		con := rawApp(KOther, "contract.tag", 0, 0, Int(2), mkBufStr(whole.buf, whole.off, whole.rest()))
		s.need(rawApp(KBool, "parse.ok", 0, 0, con), "the embedded signature is malformed")
		root.kid(sKid{kind: kEmbed, t: rawApp(KOther, "item", 0, 0, con)})
		// guaranteed by the signature packet
		s.sigAfter, s.keyAfter = &after{kind: "any"}, &after{kind: "any"}
	case 33, 35:
		fpr()
	case 37:
		root.kid(one(raw("certification digests", whole, withDebug(optCert))))
	case 38:
		t := s.u8(r, "the type is missing")
		root.kid(one(node("Type").val(mkDec(t))))
		kd := raw("Key data", &rd{r.buf, r.off, r.end}, onDebug)
		if s.is(mkEQ0(t)) {
			s.innerPackets(kd, r)
		}
		root.kid(one(kd))
	}
	return root
}

// innerPackets: packets embedded in a body.
func (s *spec) innerPackets(n *sNode, r *rd) {
	if s.is(mkEQ0(r.rest())) {
		return
	}
	n.kid(s.packetsOf(rawApp(KOther, "bytesReader", 0, 0, mkBufStr(r.buf, r.off, r.rest())), false))
}

// packetsOf: the packets of a source, each as the specification of its type.
func (s *spec) packetsOf(src *Term, whole bool) sKid {
	count := rawApp(KInt, "npackets", 0, maxBuf, src)
	gen := func(s *spec, k *Term) []sKid {
		tag := rawApp(KInt, "pkt.tag", 0, 63, src, k)
		body := rawApp(KOther, "pkt.body", 0, 0, src, k)
		if !whole && s.is(mkEQ0(AddC(tag, -8))) {
			b := bufferFor(body)
			return []sKid{one(s.tagSpec(8, rdOf(b)))}
		}
		bb := bufferFor(body)
		con := rawApp(KOther, "contract.tag", 0, 0, tag, mkBufStr(bb.buf, bb.off, bb.ln))
		s.need(rawApp(KBool, "parse.ok", 0, 0, con), "an embedded packet is malformed")
		return []sKid{{kind: kEmbed, t: rawApp(KOther, "item", 0, 0, con)}}
	}
	s.witness(count, gen)
	s.need(rawApp(KBool, "cleanEOF", 0, 0, src), "the embedded packets are malformed")
	return sKid{kind: kStar, count: count, gen: gen}
}
