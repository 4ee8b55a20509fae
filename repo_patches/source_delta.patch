From 364fffa47457e15ef4c1830e96b01f5a161ec699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:28 +0000
Subject: [PATCH 01/25] fix: reject negative and overflowing sizes in
 Reader.ReadBytes instead of panicking

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index f0bd4c6..8de4395 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -112,7 +112,7 @@ func (r *Reader) ReadBytes(size int64) ([]byte, error) {
 	if r.offset >= rl {
 		return nil, errs.Wrap(io.EOF, errs.WithContext("size", size))
 	}
-	if r.offset+size > rl {
+	if size < 0 || size > rl-r.offset {
 		return nil, errs.Wrap(io.ErrUnexpectedEOF, errs.WithContext("size", size))
 	}
 	b := r.buffer[r.offset : r.offset+size]
-- 
2.43.0


From 38330224932e105d3c361936a4bec63f38364879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:30 +0000
Subject: [PATCH 02/25] fix: check the read error before decoding the key
 material length of a V5 secret key

---
 parse/tags/seckey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 1884833..4dad0f6 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -175,10 +175,10 @@ func (p *seckeyInfo) getField1() (*reader.Reader, error) {
 func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 	if p.pubVer.Number() == 5 {
 		l, err := p.reader.ReadBytes(4)
-		ll := binary.BigEndian.Uint32(l)
 		if err != nil {
 			return nil, errs.New("illegal length of key materia", errs.WithCause(err))
 		}
+		ll := binary.BigEndian.Uint32(l)
 		if ll == 0 {
 			return nil, nil
 		}
-- 
2.43.0


From 7e2c8ebc88138b1584cd528f4c6019088eedc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:32 +0000
Subject: [PATCH 03/25] fix: report a truncated V3 signature packet

---
 parse/tags/tag02.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 8bf520d..83d3492 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -46,8 +46,8 @@ func (t *tag02) Parse() (*result.Item, error) {
 		}
 	case version.IsOld():
 		if version.Number() == 3 {
-			_, err2 := t.parseV3(rootInfo)
-			if err2 != nil {
+			_, err := t.parseV3(rootInfo)
+			if err != nil {
 				return rootInfo, errs.Wrap(err)
 			}
 		}
-- 
2.43.0


From 9d0993834aced4795e5f21a2a6b79bfe75fc3ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:33 +0000
Subject: [PATCH 04/25] fix: report a truncated IV in AEAD encrypted data
 packet

---
 parse/tags/tag20.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index ba9bb51..2379344 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -59,7 +59,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	//A starting initialization vector of size specified by the AEAD algorithm.
 	iv, err := t.iv(aeadid)
 	if err != nil {
-		return rootInfo, nil
+		return rootInfo, errs.Wrap(err)
 	}
 	rootInfo.Add(iv)
 
-- 
2.43.0


From 0ed183582ccd5dfdc3ac5450a52cf487e9e897a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:35 +0000
Subject: [PATCH 05/25] fix: Reader.Read2EOF moves the offset to the end of the
 buffer, not beyond it

---
 parse/reader/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/reader/reader.go b/parse/reader/reader.go
index 8de4395..a125f14 100644
--- a/parse/reader/reader.go
+++ b/parse/reader/reader.go
@@ -127,7 +127,7 @@ func (r *Reader) Read2EOF() ([]byte, error) {
 		return nil, errs.Wrap(io.EOF)
 	}
 	b := r.buffer[r.offset:]
-	r.offset += rl
+	r.offset = rl
 	return b, nil
 }
 
-- 
2.43.0


From 001e08b972b249429830abe8389c8215e0b81523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:37 +0000
Subject: [PATCH 06/25] fix: binary input is not cut off at the point where the
 armor search gave up

---
 parse/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/parser.go b/parse/parser.go
index 6af8a24..be7b3a2 100644
--- a/parse/parser.go
+++ b/parse/parser.go
@@ -34,7 +34,7 @@ func New(cxt *context.Context, reader io.Reader) (*Parser, error) {
 		buf := &bytes.Buffer{}
 		r, err = newReaderArmor(io.TeeReader(reader, buf))
 		if err != nil {
-			r, err = buf, nil
+			r, err = io.MultiReader(buf, reader), nil
 		}
 	}
 	if err != nil {
-- 
2.43.0


From b2409aae60b45833d48c7a7c1bd4a0cf41733b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:39 +0000
Subject: [PATCH 07/25] fix: ignore null elements in the key list from GitHub
 API

---
 github/github.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/github/github.go b/github/github.go
index 1f31e9e..4b3720b 100644
--- a/github/github.go
+++ b/github/github.go
@@ -46,7 +46,7 @@ func GetKey(ctx context.Context, cli fetch.Client, username string, keyID string
 			return nil, errs.Wrap(err, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 		}
 		for _, k := range keys {
-			if strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
+			if k != nil && strings.EqualFold(k.KeyID, strings.TrimPrefix(strings.ToLower(keyID), "0x")) {
 				if k.RawKey == nil {
 					return nil, errs.Wrap(ecode.ErrNoKey, errs.WithContext("username", username), errs.WithContext("keyID", keyID))
 				}
-- 
2.43.0


From 22f71989e551790d550e737c5a1419b2553251f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:40 +0000
Subject: [PATCH 08/25] fix: report an invalid GitHub user name instead of
 requesting a nil URL

---
 github/github.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/github/github.go b/github/github.go
index 4b3720b..5dee494 100644
--- a/github/github.go
+++ b/github/github.go
@@ -19,7 +19,11 @@ var maxKeysStr = strconv.Itoa(maxKeys)
 
 //Get returns OpenPGP ASCII armor text from GitHub user profile
 func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error) {
-	resp, err := cli.Get(makeURL(username), fetch.WithContext(ctx))
+	u, err := makeURL(username)
+	if err != nil {
+		return nil, errs.Wrap(ecode.ErrInvalidRequest, errs.WithCause(err), errs.WithContext("username", username))
+	}
+	resp, err := cli.Get(u, fetch.WithContext(ctx))
 	if err != nil {
 		return nil, errs.Wrap(err, errs.WithContext("username", username))
 	}
@@ -30,9 +34,9 @@ func Get(ctx context.Context, cli fetch.Client, username string) ([]byte, error)
 	return b, nil
 }
 
-func makeURL(username string) *url.URL {
-	u, _ := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
-	return u
+func makeURL(username string) (*url.URL, error) {
+	u, err := fetch.URL(fmt.Sprintf("https://github.com/%s.gpg", username))
+	return u, errs.Wrap(err, errs.WithContext("username", username))
 }
 
 //GetKey returns JSON text for GitHub OpenPGP API
-- 
2.43.0


From 25b2b24e51053d858f238ead3822b1d876029221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:42 +0000
Subject: [PATCH 09/25] fix: nil hkp.Server returns no URL instead of panicking

---
 hkp/hkp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hkp/hkp.go b/hkp/hkp.go
index d51767a..52f5a6f 100644
--- a/hkp/hkp.go
+++ b/hkp/hkp.go
@@ -75,7 +75,7 @@ func (s *Server) String() string {
 //URL returns url.URL instance
 func (s *Server) URL() *url.URL {
 	if s == nil {
-		s = nil
+		return nil
 	}
 	return &url.URL{Scheme: s.prt.String(), Host: fmt.Sprintf("%s:%d", s.host, s.port)}
 }
@@ -86,6 +86,9 @@ func (s *Server) Fetch(ctx context.Context, cli fetch.Client, userID string) (io
 		"op":     {"get"},
 	}
 	u := s.URL()
+	if u == nil {
+		return nil, errs.Wrap(ecode.ErrNullPointer)
+	}
 	u.Path = "/pks/lookup"
 	u.RawQuery = values.Encode()
 
-- 
2.43.0


From 7583c0e8bbb82bb0535f05351ff612bb253441af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:44 +0000
Subject: [PATCH 10/25] fix: report truncated packets in Key Block sub-packet

---
 parse/tags/sub38.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 9c8d71e..32d004f 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -1,6 +1,7 @@
 package tags
 
 import (
+	"bytes"
 	"io"
 	"strconv"
 
@@ -47,7 +48,15 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
-	sp, err := NewPackets(s.cxt, s.reader)
+	var body []byte
+	if s.reader.Rest() > 0 {
+		b, err := s.reader.Read2EOF()
+		if err != nil {
+			return errs.Wrap(err)
+		}
+		body = b
+	}
+	sp, err := NewPackets(s.cxt, bytes.NewReader(body))
 	if err != nil {
 		return errs.Wrap(err)
 	}
-- 
2.43.0


From 6731d0355dcac99185b2ddfb020eedbb7cbbf776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:46 +0000
Subject: [PATCH 11/25] fix: image header length in Image Attribute sub-packet
 is little-endian and bounded by the sub-packet

---
 parse/tags/sub01.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parse/tags/sub01.go b/parse/tags/sub01.go
index aae8d73..e21ef2f 100644
--- a/parse/tags/sub01.go
+++ b/parse/tags/sub01.go
@@ -29,7 +29,10 @@ func (s *sub01) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.Wrap(err)
 	}
-	length := binary.BigEndian.Uint16(l)
+	length := binary.LittleEndian.Uint16(l) //little-endian number (RFC 4880 section 5.12.1)
+	if int(length) > s.reader.Len() {
+		return rootInfo, errs.New(fmt.Sprintf("illegal length of image header (length: %d bytes)", length))
+	}
 	ver, err := s.reader.ReadByte()
 	if err != nil {
 		return rootInfo, errs.New("illegal version", errs.WithCause(err))
-- 
2.43.0


From 72326e8fbaae4f776ff662f40e22796b266d2df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:48 +0000
Subject: [PATCH 12/25] fix: expiration date does not wrap around at 32 bits

---
 parse/values/datetime.go | 6 +++---
 parse/values/expire.go   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/values/datetime.go b/parse/values/datetime.go
index c363c63..1a51b0b 100644
--- a/parse/values/datetime.go
+++ b/parse/values/datetime.go
@@ -57,10 +57,10 @@ func (dt *DateTime) RFC3339() string {
 	if dt == nil {
 		return ""
 	}
-	return unixtime2RFC3339(dt.UnixTime(), dt.utcFlag)
+	return unixtime2RFC3339(int64(dt.UnixTime()), dt.utcFlag)
 }
-func unixtime2RFC3339(ut uint32, utcFlag bool) string {
-	t := time.Unix(int64(ut), 0)
+func unixtime2RFC3339(ut int64, utcFlag bool) string {
+	t := time.Unix(ut, 0)
 	if utcFlag {
 		t = t.In(time.UTC)
 	}
diff --git a/parse/values/expire.go b/parse/values/expire.go
index d6cf645..b5e90d3 100644
--- a/parse/values/expire.go
+++ b/parse/values/expire.go
@@ -33,7 +33,7 @@ func (e *Expire) ToItem(name string, dumpFlag bool) *result.Item {
 	start := e.start.UnixTime()
 	var endDay string
 	if start > 0 {
-		endDay = unixtime2RFC3339(start+exp, e.start.utcFlag)
+		endDay = unixtime2RFC3339(int64(start)+int64(exp), e.start.utcFlag)
 	}
 	return result.NewItem(
 		result.Name(name),
-- 
2.43.0


From fdbb3152a2a2acad22a88cdc221a2f6590478c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:50 +0000
Subject: [PATCH 13/25] fix: do not output a control character as literal data
 format

---
 parse/values/literal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse/values/literal.go b/parse/values/literal.go
index 46ba928..c0963c0 100644
--- a/parse/values/literal.go
+++ b/parse/values/literal.go
@@ -31,6 +31,9 @@ func (l LiteralFormat) ToItem() *result.Item {
 }
 
 func (l LiteralFormat) String() string {
+	if l < 0x20 { //control character
+		return fmt.Sprintf("(%U)", rune(l))
+	}
 	return string(l)
 }
 
-- 
2.43.0


From ef5e43e60fe8924b23aaf6ee73b986e0e2aa49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:53 +0000
Subject: [PATCH 14/25] fix: chunk size of AEAD encrypted data packet does not
 wrap around

---
 parse/tags/tag20.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index 2379344..b21747e 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -50,10 +50,13 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal chunk size", errs.WithCause(err))
 	}
-	chunkSize := uint64(1) << (c + 6)
+	chunkSize := values.Unknown
+	if c <= 56 {
+		chunkSize = strconv.FormatUint(uint64(1)<<(uint(c)+6), 10)
+	}
 	rootInfo.Add(result.NewItem(
 		result.Name("Chunk size"),
-		result.Value(strconv.FormatUint(chunkSize, 10)),
+		result.Value(chunkSize),
 		result.DumpStr(values.DumpByteString(byte(c), true)),
 	))
 	//A starting initialization vector of size specified by the AEAD algorithm.
-- 
2.43.0


From d5d611f7ca2efd79e9698cbc0d4344ca8d68bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:55 +0000
Subject: [PATCH 15/25] fix: AEAD encrypted data packet consumes the session
 key mode

---
 parse/tags/tag20.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/tags/tag20.go b/parse/tags/tag20.go
index b21747e..e69cc65 100644
--- a/parse/tags/tag20.go
+++ b/parse/tags/tag20.go
@@ -69,6 +69,7 @@ func (t *tag20) Parse() (*result.Item, error) {
 	if t.reader.Rest() > 0 {
 		rootInfo.Add(values.RawData(t.reader, "Encrypted data and authentication tag", t.cxt.Debug()))
 	}
+	t.cxt.ResetAlg()
 	return rootInfo, nil
 }
 
-- 
2.43.0


From 4707005d3c8bcaab59526140d60f18f0a1f3d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:57 +0000
Subject: [PATCH 16/25] fix: signature expiration date is not computed from
 another signature's creation time

---
 parse/tags/tag02.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse/tags/tag02.go b/parse/tags/tag02.go
index 83d3492..bc9c5eb 100644
--- a/parse/tags/tag02.go
+++ b/parse/tags/tag02.go
@@ -25,6 +25,10 @@ func newTag02(cxt *context.Context, tag values.TagID, body []byte) Tags {
 // Parse parsing tag02 instance
 func (t *tag02) Parse() (*result.Item, error) {
 	rootInfo := t.ToItem()
+	//creation time is valid in this signature only
+	sigTime := t.cxt.SigCreationTime
+	t.cxt.SigCreationTime = nil
+	defer func() { t.cxt.SigCreationTime = sigTime }()
 	// [00] One-octet version number.
 	v, err := t.reader.ReadByte()
 	if err != nil {
-- 
2.43.0


From 2518f23d0ed8ab8f908e4430decc4c5bee15475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:58 +0000
Subject: [PATCH 17/25] fix: key expiration date is not computed from another
 key's creation time

---
 parse/tags/pubkey.go | 1 +
 parse/tags/sub38.go  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index bfd6f65..f1892a1 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -28,6 +28,7 @@ func newPubkey(cxt *context.Context, reader *reader.Reader, pubVer *values.Versi
 
 //Parse Public-key packet
 func (p *pubkeyInfo) Parse(parent *result.Item) error {
+	p.cxt.KeyCreationTime = nil //forget the previous key
 	switch true {
 	case p.pubVer.IsDraft():
 		return p.parseV5(parent)
diff --git a/parse/tags/sub38.go b/parse/tags/sub38.go
index 32d004f..af6c5f1 100644
--- a/parse/tags/sub38.go
+++ b/parse/tags/sub38.go
@@ -48,6 +48,8 @@ func (s *sub38) Parse() (*result.Item, error) {
 }
 
 func (s *sub38) parseKeyData(rootInfo *result.Item) error {
+	cxt := *s.cxt
+	defer func() { *s.cxt = cxt }() //embedded packets have no effect on the outer ones
 	var body []byte
 	if s.reader.Rest() > 0 {
 		b, err := s.reader.Read2EOF()
-- 
2.43.0


From d771606894403650ae5a935a0f2de992a22cf844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:00 +0000
Subject: [PATCH 18/25] fix: read the IV of a V5 secret key from its optional
 fields

---
 parse/tags/seckey.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 4dad0f6..9ad88be 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -81,7 +81,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -192,9 +192,9 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(symid values.SymID, isAEAD bool) (*result.Item, error) {
+func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
 	sz64 := int64(symid.IVLen())
-	iv, err := p.reader.ReadBytes(sz64)
+	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
 	}
-- 
2.43.0


From c46be115b0631f104b78cce8c349c29c71093777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:03 +0000
Subject: [PATCH 19/25] fix: s2k usage 1-252 is itself the symmetric algorithm
 of a secret key

---
 parse/tags/seckey.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index 9ad88be..abf7d23 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -38,7 +38,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 	} else if rOpt != nil {
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a one-octet symmetric encryption algorithm.
 		var symid values.SymID
-		if usage != 0 { //encrypted secret-key
+		switch usage {
+		case 0:
+		case 253, 254, 255: //encrypted secret-key
 			alg, err := rOpt.ReadByte()
 			if err != nil {
 				return errs.New(
@@ -49,6 +51,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 			}
 			symid = values.SymID(alg)
 			parent.Add(symid.ToItem(p.cxt.Debug()))
+		default: //any other value is a symmetric-key encryption algorithm identifier
+			symid = values.SymID(usage)
+			parent.Add(symid.ToItem(p.cxt.Debug()))
 		}
 		//[Optional] If string-to-key usage octet was 253, a one-octet AEAD algorithm.
 		if usage == 253 {
-- 
2.43.0


From a8fa750d8889795f88f044cfad60f33d7fd643bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:05 +0000
Subject: [PATCH 20/25] fix: report the rest of V5 public key material

---
 parse/tags/pubkey.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parse/tags/pubkey.go b/parse/tags/pubkey.go
index f1892a1..bf998d0 100644
--- a/parse/tags/pubkey.go
+++ b/parse/tags/pubkey.go
@@ -125,7 +125,14 @@ func (p *pubkeyInfo) parseV5(parent *result.Item) error {
 		return errs.New(fmt.Sprintf("illegal key material data (size: %d bytes)", sz64), errs.WithCause(err))
 	}
 	// [10] series of multiprecision integers comprising the key material.
-	return pubkey.New(p.cxt, p.pubID, reader.New(b)).ParsePub(parent) //TODO: new logic for key material
+	r := reader.New(b)
+	if err := pubkey.New(p.cxt, p.pubID, r).ParsePub(parent); err != nil { //TODO: new logic for key material
+		return err
+	}
+	if r.Rest() > 0 {
+		parent.Add(values.RawData(r, "Unknown data", p.cxt.Debug()))
+	}
+	return nil
 }
 
 //PubID returns pubID
-- 
2.43.0


From c627b428218f3e71b693b901450150528d14c555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:07 +0000
Subject: [PATCH 21/25] fix: number of the third and later key flags octets

---
 parse/tags/sub27.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/tags/sub27.go b/parse/tags/sub27.go
index 93ccf0e..c6473c1 100644
--- a/parse/tags/sub27.go
+++ b/parse/tags/sub27.go
@@ -52,7 +52,7 @@ func (s *sub27) Parse() (*result.Item, error) {
 	if s.reader.Rest() > 0 {
 		flags, _ := s.reader.Read2EOF()
 		for i, flag := range flags {
-			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+2, flag)))
+			rootInfo.Add(values.Flag2Item(flag, fmt.Sprintf("Unknown flag%d(%#02x)", i+3, flag)))
 		}
 	}
 	return rootInfo, nil
-- 
2.43.0


From 82eb94fd8874d76aec56455cb7565d1bf1d60225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:36 +0000
Subject: [PATCH 22/25] fix: IV of OCB mode is 15 octets

---
 parse/values/aeadid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/values/aeadid.go b/parse/values/aeadid.go
index 7e60d20..f4a77be 100644
--- a/parse/values/aeadid.go
+++ b/parse/values/aeadid.go
@@ -13,7 +13,7 @@ var aeadIDNames = Msgs{
 
 var aeadIDIVLen = map[int]int{
 	1: 16, //EAX mode
-	2: 16, //OCB mode
+	2: 15, //OCB mode
 }
 
 var aeadIDTagLen = map[int]int{
-- 
2.43.0


From 9a46ac628ea8a0c052fe709b15f2eea36b24b488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:44 +0000
Subject: [PATCH 23/25] fix: size of the nonce of AEAD-protected secret key is
 specified by the AEAD algorithm

---
 parse/tags/seckey.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parse/tags/seckey.go b/parse/tags/seckey.go
index abf7d23..6f04734 100644
--- a/parse/tags/seckey.go
+++ b/parse/tags/seckey.go
@@ -56,6 +56,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 			parent.Add(symid.ToItem(p.cxt.Debug()))
 		}
 		//[Optional] If string-to-key usage octet was 253, a one-octet AEAD algorithm.
+		ivLen := symid.IVLen()
 		if usage == 253 {
 			alg, err := rOpt.ReadByte()
 			if err != nil {
@@ -65,7 +66,9 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 					errs.WithCause(err),
 				)
 			}
-			parent.Add(values.AEADID(alg).ToItem(p.cxt.Debug()))
+			aeadid := values.AEADID(alg)
+			parent.Add(aeadid.ToItem(p.cxt.Debug()))
+			ivLen = aeadid.IVLen() //size of nonce is specified by the AEAD algorithm
 		}
 		//[Optional] If string-to-key usage octet was 255, 254, or 253, a string-to-key specifier.
 		hasIV := false
@@ -86,7 +89,7 @@ func (p *seckeyInfo) Parse(parent *result.Item) error {
 		}
 		//[Optional] If secret data is encrypted (string-to-key usage octet not zero), an Initial Vector (IV) of the same length as the cipher's block size.
 		if usage != 0 && hasIV {
-			iv, err := p.iv(rOpt, values.SymID(symid), usage == 253)
+			iv, err := p.iv(rOpt, int64(ivLen), usage == 253)
 			if err != nil {
 				return err
 			}
@@ -197,8 +200,7 @@ func (p *seckeyInfo) getField2() (*reader.Reader, error) {
 }
 
 //iv returns context.Item for Initialization Vector
-func (p *seckeyInfo) iv(r *reader.Reader, symid values.SymID, isAEAD bool) (*result.Item, error) {
-	sz64 := int64(symid.IVLen())
+func (p *seckeyInfo) iv(r *reader.Reader, sz64 int64, isAEAD bool) (*result.Item, error) {
 	iv, err := r.ReadBytes(sz64)
 	if err != nil {
 		return nil, errs.New(fmt.Sprintf("illegal s2k iv (length: %d bytes)", sz64), errs.WithCause(err))
-- 
2.43.0


From 92550140ed998f322e8099b40e6570f5919fe0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:15 +0000
Subject: [PATCH 24/25] fix: ASCII armor is found in text with lines longer
 than 64 KB

---
 armtext/armtext.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/armtext/armtext.go b/armtext/armtext.go
index 957941a..d5e40fe 100644
--- a/armtext/armtext.go
+++ b/armtext/armtext.go
@@ -22,6 +22,7 @@ func Get(r io.Reader) (*bytes.Buffer, error) {
 	armorFlag := false
 	armorEndFlag := false
 	scn := bufio.NewScanner(r)
+	scn.Buffer(nil, int(^uint(0)>>1)) //text around the armor may have lines of any length
 	for scn.Scan() {
 		str := scn.Text()
 		if !armorFlag {
-- 
2.43.0


From 4e7785565fa332f97f646034c0955563af071fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:44 +0000
Subject: [PATCH 25/25] fix: expiration date is shown for every signature of a
 key

The creation time was dropped after the first expiration subpacket, so that a
second self-signature of the same key (a second user ID, say) was shown without
the date on which the key expires.
---
 parse/tags/sub03.go | 1 -
 parse/tags/sub09.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/parse/tags/sub03.go b/parse/tags/sub03.go
index 2b3aaae..8ddb970 100644
--- a/parse/tags/sub03.go
+++ b/parse/tags/sub03.go
@@ -25,7 +25,6 @@ func (s *sub03) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal Expiration Timee", errs.WithCause(err))
 	}
-	s.cxt.SigCreationTime = nil
 	return exp.ToItem(rootInfo.Name, s.cxt.Debug()), nil
 }
 
diff --git a/parse/tags/sub09.go b/parse/tags/sub09.go
index b670752..bfcd3ed 100644
--- a/parse/tags/sub09.go
+++ b/parse/tags/sub09.go
@@ -25,7 +25,6 @@ func (s *sub09) Parse() (*result.Item, error) {
 	if err != nil {
 		return rootInfo, errs.New("illegal Key Expiration Time", errs.WithCause(err))
 	}
-	s.cxt.KeyCreationTime = nil
 	return exp.ToItem(rootInfo.Name, s.cxt.Debug()), nil
 }
 
-- 
2.43.0

