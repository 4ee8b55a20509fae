package main

import "fmt"

// Specification of the packet types.

type algTab struct {
	name, abbr string
	priv       bool
	tab        map[int]string
}

var tabPub = &algTab{"Public-key Algorithm", "pub", true, map[int]string{1: "RSA (Encrypt or Sign)", 2: "RSA Encrypt-Only", 3: "RSA Sign-Only", 16: "Elgamal (Encrypt-Only)", 17: "DSA (Digital Signature Algorithm)", 18: "ECDH public key algorithm", 19: "ECDSA public key algorithm", 20: "Reserved (formerly Elgamal Encrypt or Sign)", 21: "Reserved for Diffie-Hellman", 22: "EdDSA"}}
var tabHash = &algTab{"Hash Algorithm", "hash", true, map[int]string{0: "Unknown", 1: "MD5", 2: "SHA-1", 3: "RIPE-MD/160", 4: "Reserved", 5: "Reserved", 6: "Reserved", 7: "Reserved", 8: "SHA2-256", 9: "SHA2-384", 10: "SHA2-512", 11: "SHA2-224", 12: "SHA3-256", 13: "Reserved", 14: "SHA3-512"}}
var tabSym = &algTab{"Symmetric Algorithm", "sym", true, map[int]string{0: "Plaintext or unencrypted data", 1: "IDEA", 2: "TripleDES (168 bit key derived from 192)", 3: "CAST5 (128 bit key, as per)", 4: "Blowfish (128 bit key, 16 rounds)", 5: "Reserved", 6: "Reserved", 7: "AES with 128-bit key", 8: "AES with 192-bit key", 9: "AES with 256-bit key", 10: "Twofish with 256-bit key", 11: "Camellia with 128-bit key", 12: "Camellia with 192-bit key", 13: "Camellia with 256-bit key"}}
var tabComp = &algTab{"Compression Algorithm", "comp", false, map[int]string{0: "Uncompressed", 1: "ZIP <RFC1951>", 2: "ZLIB <RFC1950>", 3: "BZip2"}}
var tabAead = &algTab{"AEAD Algorithm", "aead", true, map[int]string{1: "EAX mode", 2: "OCB mode <RFC7253>"}}
var tabS2k = &algTab{"String-to-Key (S2K) Algorithm", "s2k", true, map[int]string{0: "Simple S2K", 1: "Salted S2K", 2: "Reserved", 3: "Iterated and Salted S2K"}}
var tabSig = map[int]string{0x00: "Signature of a binary document", 0x01: "Signature of a canonical text document", 0x02: "Standalone signature", 0x10: "Generic certification of a User ID and Public-Key packet", 0x11: "Persona certification of a User ID and Public-Key packet", 0x12: "Casual certification of a User ID and Public-Key packet", 0x13: "Positive certification of a User ID and Public-Key packet", 0x16: "Attested Key Signature", 0x18: "Subkey Binding Signature", 0x19: "Primary Key Binding Signature", 0x1f: "Signature directly on a key", 0x20: "Key revocation signature", 0x28: "Subkey revocation signature", 0x30: "Certification revocation signature", 0x40: "Timestamp signature", 0x50: "Third-Party Confirmation signature"}

var tagNames = map[int]string{0: "Reserved", 1: "Public-Key Encrypted Session Key Packet", 2: "Signature Packet", 3: "Symmetric-Key Encrypted Session Key Packet", 4: "One-Pass Signature Packet", 5: "Secret-Key Packet", 6: "Public-Key Packet", 7: "Secret-Subkey Packet", 8: "Compressed Data Packet", 9: "Symmetrically Encrypted Data Packet", 10: "Marker Packet (Obsolete Literal Packet)", 11: "Literal Data Packet", 12: "Trust Packet", 13: "User ID Packet", 14: "Public-Subkey Packet", 17: "User Attribute Packet", 18: "Sym. Encrypted Integrity Protected Data Packet", 19: "Modification Detection Code Packet", 20: "AEAD Encrypted Data Packet", 60: "Private or Experimental Values", 61: "Private or Experimental Values", 62: "Private or Experimental Values", 63: "Private or Experimental Values"}

// lookup: the entry of a table for an octet.
func lookup(tab map[int]string, b *Term, def string) *Term {
	mt := &mapTable{keys: map[int64]*Term{}, zero: noStr}
	for k, v := range tab {
		mt.keys[int64(k)] = Str(v)
	}
	tn := Str(internTable(mt))
	return mkGate(mkMapTerm("mapok", KBool, tn, b), mkMapTerm("mapget", KStr, tn, b), Str(def))
}

func lookupInt(tab map[int]int64, b *Term, def int64) *Term {
	mt := &mapTable{keys: map[int64]*Term{}, zero: Int(def)}
	for k, v := range tab {
		mt.keys[int64(k)] = Int(v)
	}
	return mkMapTerm("mapget", KInt, Str(internTable(mt)), b)
}

// tabItem: an item that names the algorithm of an octet.
func tabItem(t *algTab, b *Term, x *rd, opts []int) *sNode {
	nm := lookup(t.tab, b, "Unknown")
	if t.priv {
		nm = mkGate(mkInSet(b, setRange(100, 110)), Str("Private/Experimental algorithm"), nm)
	}
	n := node(t.name).val(mkCat(nm, Str(" ("+t.abbr+" "), mkDec(b), Str(")")), "C07")
	n.dump = gateOpt(opts, mkFmtInt("%02x", b))
	return n
}

func sigItem(b *Term) *sNode {
	n := node("Signiture Type").val(mkCat(lookup(tabSig, b, "Unknown"), Str(" ("), mkFmtInt("%#02x", b), Str(")")), "C07")
	n.dump = gateOpt(onDebug, mkFmtInt("%02x", b))
	return n
}

func (s *spec) algItem(t *algTab, r *rd) (*sNode, *Term) {
	b := s.u8(r, "the octet of the "+t.name+" is missing")
	return tabItem(t, b, r.last(1), onDebug), b
}

func verItem(v *Term, cur, draft int64) *sNode {
	n := node("Version").val(mkDec(v), "C07")
	nt := Str("unknown")
	if draft > 0 {
		nt = mkGate(mkEQ0(AddC(v, -draft)), Str("draft"), nt)
	}
	nt = mkGate(mkEQ0(AddC(v, -cur)), Str("current"), nt)
	nt = mkGate(mkGE0(Sub(Int(cur-1), v)), Str("old"), nt)
	n.nt(nt, "C07")
	n.dump = gateOpt(onDebug, mkFmtInt("%02x", v))
	return n
}

func timeStr(x *Term) *Term {
	u := rawApp(KOther, "time.Unix", 0, 0, x, Int(0))
	f := func(t *Term) *Term {
		return rawApp(KStr, "time.Format", 0, 0, t, Str("2006-01-02T15:04:05Z07:00"))
	}
	return mkGate(optBit(optUTC), f(mkTimeIn(u, NamedSym(KOther, "global time.UTC", 0, 0))), f(u))
}

func (s *spec) timeItem(name string, r *rd) (*sNode, *rd) {
	x := s.take(r, Int(4), "the "+name+" is cut off")
	n := node(name).val(timeStr(beAt(x.buf, x.off, 4)), "C10").dmp(onDebug, x)
	return n, x
}

func (s *spec) keyID(r *rd, what string) *sNode {
	x := s.take(r, Int(8), what)
	return node("Key ID").val(rawHex16(x))
}

// rawHex16: %#016x of 8 octets.
func rawHex16(x *rd) *Term { return mkFmtInt("%#016x", beAt(x.buf, x.off, 8)) }

// mpi: 2-octet bit count and the octets of the integer.
func (s *spec) mpi(r *rd, name string) (*sNode, *rd) {
	bits := s.be(r, 2, "the length of "+name+" is cut off")
	x := s.take(r, mkDiv(AddC(bits, 7), Int(8)), "the body of "+name+" is cut off")
	return node(name).nt(mkCat(mkDec(bits), Str(" bits")), "C21").dmp(withDebug(optInteger), x), x
}

func (s *spec) mpis(r *rd, names ...string) []sKid {
	var out []sKid
	for _, n := range names {
		x, _ := s.mpi(r, n)
		out = append(out, one(x))
	}
	return out
}

var curves = []struct{ oid, name string }{
	{"\x2a\x86\x48\xce\x3d\x03\x01\x07", "nistp256 (256bits key size)"},
	{"\x2b\x81\x04\x00\x0a", "secp256k1 (256bits key size)"},
	{"\x2b\x81\x04\x00\x22", "nistp384 (384bits key size)"},
	{"\x2b\x81\x04\x00\x23", "nistp521 (521bits key size)"},
	{"\x2b\x24\x03\x03\x02\x08\x01\x01\x07", "brainpoolP256r1 (256bits key size)"},
	{"\x2b\x24\x03\x03\x02\x08\x01\x01\x0b", "brainpoolP384r1 (384bits key size)"},
	{"\x2b\x24\x03\x03\x02\x08\x01\x01\x0d", "brainpoolP512r1 (512bits key size)"},
	{"\x2b\x06\x01\x04\x01\xda\x47\x0f\x01", "ed25519 (256bits key size)"},
	{"\x2b\x06\x01\x04\x01\x97\x55\x01\x05\x01", "cv25519 (256bits key size)"},
}

func (s *spec) oid(r *rd) *sNode {
	l := s.u8(r, "the length of the curve OID is missing")
	x := s.take(r, l, "the curve OID is cut off")
	v := Str("Unknown")
	bs := mkBufStr(x.buf, x.off, x.rest())
	for i := len(curves) - 1; i >= 0; i-- {
		v = mkGate(mkStrEq(bs, Str(curves[i].oid)), Str(curves[i].name), v)
	}
	return node("ECC Curve OID").val(v, "C07").dmp(always, x)
}

// point: an EC point; its name tells the format.
func (s *spec) point(r *rd, alg string) *sNode {
	n, x := s.mpi(r, "EC point")
	b := ByteAt(x.buf, x.off)
	flag := lookup(map[int]string{4: "uncompressed format", 0x40: "Native point format of the curve follows", 0x41: "Only X coordinate follows", 0x42: "Only Y coordinate follows"}, b, "Unknown")
	n.name = mkCat(Str(alg+" EC point ("), mkGate(mkGE0(AddC(x.rest(), -1)), flag, Str("Unknown")), Str(")"))
	n.pName = []string{"C06", "C07"}
	return n
}

// ecParm: one-octet length and octets; a missing length octet is tolerated.
func (s *spec) ecParm(r *rd, name string) (*sNode, *rd) {
	if !s.is(mkGE0(AddC(r.rest(), -1))) {
		return node(name).size(Int(0)), &rd{r.buf, r.off, r.off}
	}
	l := s.u8(r, "")
	x := s.take(r, l, name+" is cut off")
	return node(name).size(l).dmp(withDebug(optInteger), x), x
}

func (s *spec) inSet(b *Term, vals ...int) bool {
	return s.is(mkInSet(b, setOfInts(vals...)))
}

func rawMPI(name *Term, r *rd, opts []int) sKid {
	n := node("").size(r.rest()).dmp(opts, &rd{r.buf, r.off, r.end})
	n.name = name
	return one(n)
}

const mpiOf = "Multi-precision integers of "

func unknownPub(b *Term) *Term {
	return mkCat(Str(mpiOf+"Unknown (pub "), mkDec(b), Str(")"))
}

// pubMaterial: the public key material.
func (s *spec) pubMaterial(alg *Term, r *rd) []sKid {
	switch {
	case s.inSet(alg, 1, 2, 3):
		return s.mpis(r, "RSA public modulus n", "RSA public encryption exponent e")
	case s.inSet(alg, 17):
		return s.mpis(r, "DSA p", "DSA q (q is a prime divisor of p-1)", "DSA g", "DSA y (= g^x mod p where x is secret)")
	case s.inSet(alg, 16, 20):
		return s.mpis(r, "ElGamal prime p", "ElGamal group generator g", "ElGamal public key value y (= g^x mod p where x is secret)")
	case s.inSet(alg, 18):
		out := []sKid{one(s.oid(r)), one(s.point(r, "ECDH"))}
		n, x := s.ecParm(r, "KDF parameters")
		if s.is(mkGE0(AddC(x.rest(), -3))) && s.is(mkEQ0(AddC(ByteAt(x.buf, x.off), -1))) {
			n.kid(one(tabItem(tabHash, ByteAt(x.buf, AddC(x.off, 1)), nil, onDebug)), one(tabItem(tabSym, ByteAt(x.buf, AddC(x.off, 2)), nil, onDebug)))
		} else {
			n.val(Str("Unknown"), "C07")
		}
		return append(out, one(n))
	case s.inSet(alg, 19):
		return []sKid{one(s.oid(r)), one(s.point(r, "ECDSA"))}
	case s.inSet(alg, 22):
		return []sKid{one(s.oid(r)), one(s.point(r, "EdDSA"))}
	}
	return []sKid{rawMPI(unknownPub(alg), r, onDebug)}
}

func (s *spec) sigMaterial(alg *Term, r *rd) []sKid {
	switch {
	case s.inSet(alg, 1, 2, 3):
		return s.mpis(r, "RSA signature value m^d mod n")
	case s.inSet(alg, 17):
		return s.mpis(r, "DSA value r", "DSA value s")
	case s.inSet(alg, 16, 20):
		return s.mpis(r, "ElGamal a = g^k mod p", "ElGamal b = (h - a*x)/k mod p - 1")
	case s.inSet(alg, 18):
		return []sKid{rawMPI(Str(mpiOf+"ECDH"), r, onDebug)}
	case s.inSet(alg, 19):
		return s.mpis(r, "ECDSA value r", "ECDSA value s")
	case s.inSet(alg, 22):
		return s.mpis(r, "EC point r", "EdDSA value s in the little endian representation")
	}
	return []sKid{rawMPI(unknownPub(alg), r, onDebug)}
}

func (s *spec) sesMaterial(alg *Term, r *rd) []sKid {
	const m = "m = sym alg(1 byte) + checksum(2 bytes) + PKCS#1 block encoding EME-PKCS1-v1_5"
	switch {
	case s.inSet(alg, 1, 2, 3):
		return s.mpis(r, "RSA m^e mod n; "+m)
	case s.inSet(alg, 16, 20):
		return s.mpis(r, "ElGamal g^k mod p", "ElGamal m * y^k mod p; "+m)
	case s.inSet(alg, 18):
		p := one(s.point(r, "ECDH"))
		n, _ := s.ecParm(r, "symmetric key (encoded)")
		return []sKid{p, one(n)}
	case s.inSet(alg, 17):
		return []sKid{rawMPI(Str(mpiOf+"DSA"), r, onDebug)}
	case s.inSet(alg, 19):
		return []sKid{rawMPI(Str(mpiOf+"ECDSA"), r, onDebug)}
	case s.inSet(alg, 22):
		return []sKid{rawMPI(Str(mpiOf+"EdDSA"), r, onDebug)}
	}
	return []sKid{rawMPI(unknownPub(alg), r, onDebug)}
}

func (s *spec) secPlain(alg *Term, r *rd) []sKid {
	switch {
	case s.inSet(alg, 1, 2, 3):
		return s.mpis(r, "RSA secret exponent d", "RSA secret prime value p", "RSA secret prime value q (p < q)", "RSA u, the multiplicative inverse of p, mod q")
	case s.inSet(alg, 17):
		return s.mpis(r, "DSA secret exponent x")
	case s.inSet(alg, 16, 20):
		return s.mpis(r, "ElGamal secret exponent x")
	case s.inSet(alg, 18):
		return s.mpis(r, "ECDH secret key")
	case s.inSet(alg, 19):
		return s.mpis(r, "ECDSA secret key")
	case s.inSet(alg, 22):
		return s.mpis(r, "EdDSA secret key")
	}
	l := AddC(r.rest(), -2)
	s.need(mkGE0(l), "the key material is shorter than its checksum")
	x := s.take(r, l, "the key material is cut off")
	n := node("").size(l).dmp(onDebug, x)
	n.name = mkCat(Str(mpiOf+"unknown secret key (pub "), mkDec(alg), Str(")"))
	return []sKid{one(n)}
}

func (s *spec) secEnc(alg *Term, r *rd) []sKid {
	var nm *Term
	switch {
	case s.inSet(alg, 1, 2, 3):
		nm = Str("RSA encrypted key (d, p, q, u)")
	case s.inSet(alg, 17):
		nm = Str("DSA encrypted key")
	case s.inSet(alg, 16, 20):
		nm = Str("Elgamal encrypted key")
	case s.inSet(alg, 18):
		nm = Str("ECDH encrypted key")
	case s.inSet(alg, 19):
		nm = Str("ECDSA encrypted key")
	case s.inSet(alg, 22):
		nm = Str("EdDSA encrypted key")
	default:
		nm = mkCat(Str(mpiOf+"unknown encrypted key (pub "), mkDec(alg), Str(")"))
	}
	k := rawMPI(nm, r, onDebug)
	r.off = r.end
	return []sKid{k}
}

// s2k: string-to-key specifier; the result tells whether an IV follows.
func (s *spec) s2k(r *rd) (*sNode, bool) {
	n, id := s.algItem(tabS2k, r)
	switch {
	case s.inSet(id, 0, 1, 3):
		h, _ := s.algItem(tabHash, r)
		n.kid(one(h))
		if !s.inSet(id, 0) {
			x := s.take(r, Int(8), "the salt is cut off")
			n.kid(one(node("Salt").dmp(always, x)))
		}
		if s.inSet(id, 3) {
			c := s.u8(r, "the count octet is missing")
			cnt := node("Count").val(mkDec(mkShl(AddC(mkBit("band", c, Int(15)), 16), AddC(mkShr(c, Int(4)), 6))))
			cnt.dump = mkFmtInt("%02x", c)
			n.kid(one(cnt))
		}
	case s.inSet(id, 101):
		if !s.is(mkGE0(AddC(r.rest(), -4))) {
			return n, true
		}
		if !s.is(mkStrEq(mkBufStr(r.buf, r.off, Int(3)), Str("GNU"))) {
			return n, true
		}
		s.take(r, Int(3), "")
		e := s.u8(r, "the extension number is missing")
		g := node("GNU-divert-to-card").val(mkCat(Str("Extension Number "), mkDec(AddC(e, 1000))))
		if s.inSet(e, 2) {
			l := s.u8(r, "the length of the serial number is missing")
			x := s.take(r, l, "the serial number is cut off")
			g.kid(one(node("Serial Number").dmp(always, x)))
		}
		n.kid(one(g))
		return n, false
	}
	return n, true
}

// left: octets that remain after the known fields.
func left(r *rd) sKid {
	n := raw("Unknown data", &rd{r.buf, r.off, r.end}, onDebug)
	n.pHere = []string{"C05"}
	n.pNote = append(n.pNote, "C05")
	n.pDump = append(n.pDump, "C05")
	return opt(mkGE0(AddC(r.rest(), -1)), n)
}

func text(name *Term, x *rd, opts []int) *sNode {
	n := node("")
	n.name = name
	bs := mkBufStr(x.buf, x.off, x.rest())
	ru := rawApp(KInt, "runeat", 0, 0x10ffff, bs, iotaSym)
	chars := mkStar(Int(0), rawApp(KInt, "runecount", 0, maxBuf, bs), mkGate(mkIsCtl(ru), mkCat(Str("("), mkFmtInt("%U", ru), Str(")")), mkChr(ru)))
	valid := rawApp(KBool, "utf8valid", 0, 0, bs)
	z := mkEQ0(x.rest())
	n.val(mkGate(z, noStr, mkGate(valid, chars, noStr)), "C08")
	n.nt(mkGate(z, Str("0 byte"), mkGate(valid, noStr, Str("invalid text string"))), "C08")
	n.dump = mkGate(z, noStr, mkGate(valid, gateOpt(opts, hexOf(x)), hexOf(x)))
	return n
}

// tagRoot: the item of a packet.
func (s *spec) tagRoot(tag int, b *rd) *sNode {
	nm, ok := tagNames[tag]
	if !ok {
		nm = "Unknown"
	}
	o := onDebug
	if tag >= 60 {
		o = withDebug(optPrivate)
	}
	n := raw(fmt.Sprintf("%s (tag %d)", nm, tag), b, o)
	n.pName = []string{"C07"}
	n.pHere = []string{"C07"}
	return n
}

func (s *spec) pubKey(ver *Term, r *rd) ([]sKid, *Term) {
	s.keyAfter = &after{kind: "nil"}
	var out []sKid
	v3, v4, v5 := s.inSet(ver, 3), s.inSet(ver, 4), s.inSet(ver, 5)
	if !v3 && !v4 && !v5 {
		return nil, Int(0)
	}
	t, x := s.timeItem("Public key creation time", r)
	s.keyAfter = &after{kind: "octets", buf: x.buf, off: x.off}
	out = append(out, one(t))
	if v3 {
		d := s.take(r, Int(2), "the valid days are cut off")
		out = append(out, one(node("Valid days").val(mkDec(beAt(d.buf, d.off, 2))).nt(Str("0 is forever")).dmp(nil, &rd{d.buf, d.off, d.off})))
	}
	n, alg := s.algItem(tabPub, r)
	out = append(out, one(n))
	if !v5 {
		return append(out, s.pubMaterial(alg, r)...), alg
	}
	sz := s.be(r, 4, "the size of the key material is cut off")
	in := s.take(r, sz, "the key material is cut off")
	out = append(out, s.pubMaterial(alg, in)...)
	return append(out, left(in)), alg
}

func (s *spec) secKey(ver, alg *Term, r *rd) *sNode {
	sec := node("Secret-Key")
	usage := s.u8(r, "the s2k usage octet is missing")
	v5 := s.inSet(ver, 5)
	r1 := r
	if v5 {
		l := s.u8(r, "the length of the optional fields is missing")
		r1 = s.take(r, l, "the optional fields are cut off")
		if s.is(mkEQ0(l)) {
			r1 = nil
		}
	}
	if r1 != nil && !s.inSet(usage, 0) {
		full := s.inSet(usage, 253, 254, 255)
		aead := s.inSet(usage, 253)
		sym := usage
		if full {
			n, b := s.algItem(tabSym, r1)
			sec.kid(one(n))
			sym = b
		} else {
			sec.kid(one(tabItem(tabSym, usage, nil, onDebug)))
		}
		ivLen := symIVLen(sym)
		if aead {
			n, b := s.algItem(tabAead, r1)
			sec.kid(one(n))
			ivLen = aeadIVLen(b)
		}
		hasIV := true
		if full {
			n, iv := s.s2k(r1)
			sec.kid(one(n))
			hasIV = iv
		}
		if hasIV {
			x := s.take(r1, ivLen, "the IV is cut off")
			nm := "IV"
			if aead {
				nm = "nonce for the AEAD"
			}
			sec.kid(one(node(nm).dmp(always, x)))
		}
	}
	if r1 != nil && v5 {
		sec.kid(left(r1))
	}
	r2 := r
	if v5 {
		l := s.be(r, 4, "the length of the key material is cut off")
		r2 = s.take(r, l, "the key material is cut off")
		if s.is(mkEQ0(l)) {
			r2 = nil
		}
	}
	if r2 == nil {
		return sec
	}
	switch {
	case s.inSet(usage, 0):
		sec.nt(Str("s2k usage 0; plain secret-key material"))
		sec.kid(s.secPlain(alg, r2)...)
		x := s.take(r, Int(2), "the checksum is cut off")
		sec.kid(one(node("2-octet checksum").dmp(always, x)))
	default:
		switch {
		case s.inSet(usage, 253):
			sec.nt(Str("s2k usage 253; encrypted secret-key material and AEAD authentication tag"))
		case s.inSet(usage, 254):
			sec.nt(Str("s2k usage 254; encrypted secret-key material and 20-octet SHA-1 hash"))
		default:
			sec.nt(mkCat(Str("s2k usage "), mkDec(usage), Str("; encrypted secret-key material and 2-octet checksum")))
		}
		sec.kid(s.secEnc(alg, r2)...)
	}
	if v5 {
		sec.kid(left(r2))
	}
	return sec
}

func symIVLen(b *Term) *Term {
	m := map[int]int64{}
	for i := 0; i <= 6; i++ {
		m[i] = 8
	}
	for i := 7; i <= 13; i++ {
		m[i] = 16
	}
	return lookupInt(m, b, 0)
}

func aeadIVLen(b *Term) *Term { return lookupInt(map[int]int64{1: 16, 2: 15}, b, 0) }

// subArea: the subpackets of an area.
func (s *spec) subArea(name string, x *rd, tag int64) *sNode {
	n := raw(name, x, onDebug)
	src := mkBufStr(x.buf, x.off, x.rest())
	s.need(rawApp(KBool, "subpackets.ok", 0, 0, src), "the subpackets are malformed")
	list := rawApp(KOther, "OpaqueSubpackets", 0, 0, src)
	count := rawApp(KInt, "len", 0, maxBuf, list)
	gen := func(s *spec, k *Term) []sKid {
		el := rawApp(KOther, "deref", 0, 0, rawApp(KOther, "elem", 0, 0, list, k))
		con := rawApp(KOther, "contract.sub", 0, 0, Int(tag), rawApp(KInt, "val", 0, 255, rawApp(KOther, "fld.SubType", 0, 0, el)), rawApp(KOther, "fld.Contents", 0, 0, el))
		s.need(rawApp(KBool, "parse.ok", 0, 0, con), "a subpacket is malformed")
		return []sKid{{kind: kEmbed, t: rawApp(KOther, "item", 0, 0, con)}}
	}
	s.witness(count, gen)
	return n.kid(sKid{kind: kStar, count: count, gen: gen})
}

// witness: in an error outcome one of the elements may be the cause.
func (s *spec) witness(count *Term, gen func(s *spec, k *Term) []sKid) {
	if !s.err {
		return
	}
	for _, w := range s.itersOf() {
		if s.f.decide(mkGE0(AddC(Sub(count, w), -1))) == dTrue {
			gen(s, w)
		}
	}
}

func (s *spec) itersOf() []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	lits, _ := s.f.litsSince(s.r.entry)
	for _, l := range lits {
		collectIters(l, seen, &out, 0)
	}
	return out
}

func collectIters(t *Term, seen map[*Term]bool, out *[]*Term, d int) {
	if d > 10 || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OSym && len(t.name) > 6 && t.name[:6] == "iters#" {
		*out = append(*out, t)
	}
	if t.op == OApp && len(t.args) == 2 && (t.name == "pkt.tag" || t.name == "pkt.body" || t.name == "elem") {
		if k := t.args[1]; k.op != OSym {
			dup := false
			for _, o := range *out {
				dup = dup || o == k
			}
			if !dup {
				*out = append(*out, k)
			}
		}
	}
	for _, a := range t.args {
		collectIters(a, seen, out, d+1)
	}
	for _, m := range t.lm {
		collectIters(m.a, seen, out, d+1)
	}
}

// streams
func (s *spec) compressed(r *rd, alg *Term, n *sNode) {
	src := rawApp(KOther, "bytesReader", 0, 0, mkBufStr(r.buf, r.off, r.rest()))
	var st *Term
	switch {
	case s.inSet(alg, 0):
		s.expand = src
		return
	case s.inSet(alg, 1):
		st = rawApp(KOther, "compress/flate.NewReader", 0, 0, src)
	case s.inSet(alg, 2):
		s.need(rawApp(KBool, "zlib.ok", 0, 0, src), "the zlib header is malformed")
		st = rawApp(KOther, "compress/zlib.NewReader", 0, 0, src)
	case s.inSet(alg, 3):
		st = rawApp(KOther, "compress/bzip2.NewReader", 0, 0, src)
	default:
		return
	}
	if s.is(mkGE0(AddC(rawApp(KInt, "stream.size", 0, maxBuf, st), -(1 << 30)))) {
		n.valueFn = func(t *Term) bool { return t != noStr }
		n.pVal = []string{"C12"}
		return
	}
	s.need(rawApp(KBool, "stream.ok", 0, 0, st), "the compressed data are malformed")
	s.expand = rawApp(KOther, "bytesReader", 0, 0, streamAll(st))
}

// tagSpec: the expected dump of a packet.
func (s *spec) tagSpec(tag int, b *rd) *sNode {
	root := s.tagRoot(tag, b)
	r := &rd{b.buf, b.off, b.end}
	whole := &rd{b.buf, b.off, b.end}
	switch tag {
	case 1:
		s.modeAfter = "pub"
		v := s.u8(r, "the version is missing")
		root.kid(one(verItem(v, 3, 0)), one(s.keyID(r, "the key ID is cut off")))
		n, alg := s.algItem(tabPub, r)
		root.kid(one(n))
		root.kid(s.sesMaterial(alg, r)...)
		root.kid(left(r))
	case 2:
		v := s.u8(r, "the version is missing")
		root.kid(one(verItem(v, 4, 5)))
		switch {
		case s.inSet(v, 3):
			sz := s.u8(r, "the length of the hashed material is missing")
			hm := node("Hashed material").size(sz)
			if s.is(mkEQ0(AddC(sz, -5))) {
				sg := s.u8(r, "the signature type is missing")
				t, _ := s.timeItem("Signature creation time", r)
				hm.kid(one(sigItem(sg)), one(t))
			} else {
				x := s.take(r, sz, "the hashed material is cut off")
				hm.val(Str("Unknown")).dmp(onDebug, x)
			}
			root.kid(one(hm), one(s.keyID(r, "the key ID is cut off")))
			n, alg := s.algItem(tabPub, r)
			h, _ := s.algItem(tabHash, r)
			root.kid(one(n), one(h))
			x := s.take(r, Int(2), "the left 2 octets of the hash are cut off")
			root.kid(one(node("Hash left 2 bytes").dmp(always, x)))
			root.kid(s.sigMaterial(alg, r)...)
		case s.inSet(v, 4, 5):
			root.kid(one(sigItem(s.u8(r, "the signature type is missing"))))
			n, alg := s.algItem(tabPub, r)
			h, _ := s.algItem(tabHash, r)
			root.kid(one(n), one(h))
			for _, nm := range []string{"Hashed Subpacket", "Unhashed Subpacket"} {
				l := s.be(r, 2, "the length of the subpackets is cut off")
				if s.is(mkGE0(AddC(l, -1))) {
					x := s.take(r, l, "the subpackets are cut off")
					root.kid(one(s.subArea(nm, x, 2)))
					s.keyAfter = &after{kind: "any"}
				}
			}
			x := s.take(r, Int(2), "the left 2 octets of the hash are cut off")
			root.kid(one(node("Hash left 2 bytes").dmp(always, x)))
			root.kid(s.sigMaterial(alg, r)...)
		}
		root.kid(left(r))
	case 3:
		s.modeAfter = "sym"
		v := s.u8(r, "the version is missing")
		root.kid(one(verItem(v, 4, 5)))
		if s.inSet(v, 4) {
			n, _ := s.algItem(tabSym, r)
			k, _ := s.s2k(r)
			root.kid(one(n), one(k))
		}
		root.kid(left(r))
	case 4:
		v := s.u8(r, "the version is missing")
		root.kid(one(verItem(v, 3, 0)), one(sigItem(s.u8(r, "the signature type is missing"))))
		h, _ := s.algItem(tabHash, r)
		n, _ := s.algItem(tabPub, r)
		root.kid(one(h), one(n), one(s.keyID(r, "the key ID is cut off")))
		f := s.u8(r, "the flag octet is missing")
		root.kid(one(node("Encrypted session key").val(mkGate(mkEQ0(f), Str("another one pass signature"), Str("other than one pass signature"))).nt(mkCat(Str("flag "), mkFmtInt("%#02x", f)))))
		root.kid(left(r))
	case 5, 7:
		v := s.u8(r, "the version is missing")
		pub := node("Public-Key")
		ks, alg := s.pubKey(v, r)
		pub.kid(ks...)
		root.kid(one(verItem(v, 4, 5)), one(pub), one(s.secKey(v, alg, r)), left(r))
	case 6, 14:
		v := s.u8(r, "the version is missing")
		root.kid(one(verItem(v, 4, 5)))
		ks, _ := s.pubKey(v, r)
		root.kid(ks...)
		root.kid(left(r))
	case 8:
		n, alg := s.algItem(tabComp, r)
		root.kid(one(n))
		if s.is(mkGE0(AddC(r.rest(), -1))) {
			d := raw("Compressed data", r, onDebug)
			d.pHere = []string{"C12"}
			s.compressed(r, alg, d)
			root.kid(one(d))
		}
	case 9:
		m := s.mode()
		v := map[string]string{"sym": "sym alg is specified in sym-key encrypted session key", "pub": "sym alg is specified in pub-key encrypted session key", "none": "sym alg is IDEA, simple string-to-key"}[m]
		n := raw("Encrypted data", whole, onDebug).val(Str(v))
		n.pVal = []string{"C11"}
		root.kid(one(n))
		s.modeAfter = "none"
	case 10:
		root.kid(one(raw("Literal data", whole, withDebug(optMarker))))
	case 11:
		f := s.u8(r, "the format octet is missing")
		esc := mkCat(Str("("), mkFmtInt("%U", f), Str(")"))
		n := node("Literal data format").val(mkGate(mkOr(mkGE0(Sub(Int(0x1f), f)), mkInSet(f, setRange(0x7f, 0x9f))), esc, mkChr(f)), "C08")
		n.alt = mkGate(mkGE0(Sub(Int(0x1f), f)), esc, mkChr(f))
		n.known = "literal-format-c1"
		n.nt(lookup(map[int]string{'b': "binary", 't': "text", 'u': "UTF-8 text", '1': "local", 'l': "local"}, f, "unknown"), "C07")
		l := s.u8(r, "the length of the file name is missing")
		x := s.take(r, l, "the file name is cut off")
		root.kid(one(n), one(text(Str("File name"), x, withDebug(optLiteral))))
		t, tx := s.timeItem("Creation time", r)
		t.value = mkGate(mkEQ0(beAt(tx.buf, tx.off, 4)), Str("null"), t.value)
		root.kid(one(t), one(raw("Literal data", r, withDebug(optLiteral))))
	case 12:
		root.kid(one(raw("Trust", whole, always)))
	case 13:
		root.kid(one(text(Str("User ID"), whole, onDebug)))
	case 17:
		root.kid(one(s.subArea("Subpacket", whole, 17)))
		s.sigAfter, s.keyAfter = &after{kind: "any"}, &after{kind: "any"}
	case 18:
		m := s.mode()
		v := map[string]string{"sym": "plain text + MDC SHA1(20 bytes); sym alg is specified in sym-key encrypted session key", "pub": "plain text + MDC SHA1(20 bytes); sym alg is specified in pub-key encrypted session key", "none": ""}[m]
		n := raw("Encrypted data", whole, onDebug)
		if v != "" {
			n.nt(Str(v))
		}
		n.pNote = []string{"C11"}
		root.kid(one(n))
		s.modeAfter = "none"
	case 19:
		n := raw("MDC", whole, onDebug)
		n.nt(Str("SHA-1 (20 bytes)"))
		root.kid(one(n))
	case 20:
		v := s.u8(r, "the version is missing")
		root.kid(one(verItem(v, 1, 0)))
		n, _ := s.algItem(tabSym, r)
		a, ab := s.algItem(tabAead, r)
		c := s.u8(r, "the chunk size octet is missing")
		ck := node("Chunk size")
		ck.value = Str("Unknown")
		if s.is(mkGE0(Sub(Int(56), c))) {
			ck.value = mkDec(mkShl(Int(1), AddC(c, 6)))
		}
		ck.dump = mkFmtInt("%02x", c)
		x := s.take(r, aeadIVLen(ab), "the IV is cut off")
		root.kid(one(n), one(a), one(ck), one(node("IV").dmp(always, x)))
		root.kid(opt(mkGE0(AddC(r.rest(), -1)), raw("Encrypted data and authentication tag", r, onDebug)))
		s.modeAfter = "none"
	}
	return root
}

func specFor(in *Interp, r *rootRun) func(s *spec) []sKid {
	if r.spec != nil {
		return r.spec
	}
	if r.sub >= 0 {
		return func(s *spec) []sKid { return []sKid{one(s.subSpec(r.tag, r.sub, rdOf(r.body)))} }
	}
	return func(s *spec) []sKid { return []sKid{one(s.tagSpec(r.tag, rdOf(r.body)))} }
}

// ---------- session-key mode ----------

var modeNames = map[string]*Term{}

// modeConst: the constant that stands for a mode in the program: the value a
// successful public-key or symmetric-key session key packet leaves behind and
// the value of a new context.
func (in *Interp) modeConst(name string) *Term {
	in.loadModes()
	return modeNames[name]
}

func (in *Interp) loadModes() {
	if len(modeNames) > 0 {
		return
	}
	saved, root := in.mute, in.root
	in.mute++
	defer func() { in.mute, in.root = saved, root }()
	take := func(tag int, pt *partition, name string) {
		r, err := in.rootTag(tag, pt)
		if err != nil {
			return
		}
		for _, o := range r.outs {
			tv, ok := o.v.(TupleV)
			if !ok || len(tv) != 2 || !isNilV(tv[1]) {
				continue
			}
			v, ok := o.st.load(&PtrV{obj: r.cxt.ptr.obj, path: fmt.Sprintf("%s.%d", r.cxt.ptr.path, r.cxt.mode)})
			if t, isT := v.(*Term); ok && isT && t.op == OConst {
				modeNames[name] = t
				return
			}
		}
	}
	_, ci, err := in.newContext(newState())
	if err == nil && ci.modeInit != nil {
		modeNames["none"] = ci.modeInit
	}
	take(1, tagParts(1)[len(tagParts(1))-1], "pub")
	take(3, nil, "sym")
	if modeNames["none"] == nil {
		modeNames["none"] = Int(-1)
	}
}

// mode: the session-key mode at the start of the packet.
func (s *spec) mode() string {
	s.in.loadModes()
	m0 := s.r.cxt.mode0
	for _, n := range []string{"sym", "pub", "none"} {
		if c := modeNames[n]; c != nil && s.is(mkEQ0(Sub(m0, c))) {
			return n
		}
	}
	panic(specDead{})
}

// timeString: what a session time prints.
func (in *Interp) timeString(st *State, p *PtrV) *Term {
	t := in.namedType("parse/values", "DateTime")
	if t == nil {
		return nil
	}
	fn := in.findMethod(newPointer(t), nil, "RFC3339")
	if fn == nil {
		return nil
	}
	saved := in.mute
	in.mute++
	defer func() { in.mute = saved }()
	outs := in.callRoot(fn, []Value{p}, st.clone())
	if len(outs) != 1 {
		return nil
	}
	s, _ := outs[0].v.(*Term)
	return s
}
