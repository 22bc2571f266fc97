From f17fc479b3030b6f187b08fdb8303aea7a7e9ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:12 +0000
Subject: [PATCH 01/48] fix: encode varints over the full 32-bit range

WriteVaruint and WriteVarint used a 4 byte buffer and panicked with an index
out of range for values that need 5 bytes (>= 2^28). Values that do not fit
the 32-bit EOSIO types are now refused with an error.
---
 pkg/abi/encode.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index d8b420e..1d07d9c 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -217,13 +217,19 @@ func (enc *Encoder) WriteInt64(v int64) error {
 }
 
 func (enc *Encoder) WriteVaruint(v uint) error {
-	var b [4]byte
+	if uint64(v) > math.MaxUint32 {
+		return errors.New("eosio encoder: varuint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutUvarint(b[:], uint64(v))
 	return enc.WriteBytes(b[:l])
 }
 
 func (enc *Encoder) WriteVarint(v int) error {
-	var b [4]byte
+	if int64(v) > math.MaxInt32 || int64(v) < math.MinInt32 {
+		return errors.New("eosio encoder: varint32 out of range")
+	}
+	var b [binary.MaxVarintLen32]byte
 	l := binary.PutVarint(b[:], int64(v))
 	return enc.WriteBytes(b[:l])
 }
-- 
2.43.0


From ee66b91b37d7698e3127df50a80ba40553245acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:38 +0000
Subject: [PATCH 02/48] fix: refuse varints that do not fit 32 bits when
 decoding

A 64-bit varint used as a length or variant index turned negative when
converted to int, which panicked (makeslice, index out of range) or silently
decoded a list as empty.
---
 pkg/abi/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 4419fd5..a033004 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -418,6 +418,9 @@ func (dec *Decoder) ReadVaruint() (uint, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxUint32 {
+		return 0, errors.New("abi: varuint32 out of range")
+	}
 	return uint(v), nil
 }
 
@@ -426,6 +429,9 @@ func (dec *Decoder) ReadVarint() (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v > math.MaxInt32 || v < math.MinInt32 {
+		return 0, errors.New("abi: varint32 out of range")
+	}
 	return int(v), nil
 }
 
-- 
2.43.0


From ed2923023875e99468539d41ab523ec209b20f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 03/48] fix: don't allocate for lengths the data does not back
 up

A few bytes claiming a huge length made decoders allocate gigabytes or panic
(makeslice: len out of range). Buffers and lists now grow as data arrives.
---
 pkg/abi/decode.go        | 46 ++++++++++++++++++++++++++++++++++------
 pkg/chain/abi.go         |  3 ++-
 pkg/chain/transaction.go |  9 +++++---
 3 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index a033004..9323e16 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -255,9 +255,14 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			if pv.Len() != int(l) {
-				pv.Set(reflect.MakeSlice(pv.Type(), int(l), int(l)))
+				n := minInt(int(l), preallocCount(pv.Type().Elem()))
+				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
 			for i := 0; i < int(l); i++ {
+				if i == pv.Len() {
+					n := minInt(int(l)-i, i)
+					pv.Set(reflect.AppendSlice(pv, reflect.MakeSlice(pv.Type(), n, n)))
+				}
 				pv := pv.Index(i)
 				if pv.Kind() == reflect.Ptr {
 					if pv.IsNil() {
@@ -307,6 +312,28 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	return err
 }
 
+// Maximum number of bytes to allocate up front for a length that was read from
+// the stream, larger ones grow as the data arrives.
+const maxPrealloc = 64 * 1024
+
+func preallocCount(t reflect.Type) int {
+	n := maxPrealloc
+	if size := int(t.Size()); size > 0 {
+		n /= size
+	}
+	if n < 1 {
+		n = 1
+	}
+	return n
+}
+
+func minInt(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 // reading methods
 
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
@@ -316,12 +343,19 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	if n == 0 {
 		return 0, []byte{}, nil
 	}
-	b = make([]byte, n)
-	an, err = io.ReadFull(dec.r, b)
-	if err != nil {
-		return an, b, err
+	// the count comes from untrusted data, don't allocate more than is actually there
+	b = make([]byte, minInt(n, maxPrealloc))
+	for {
+		rn, err := io.ReadFull(dec.r, b[an:])
+		an += rn
+		if err == io.EOF && an > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil || an == n {
+			return an, b, err
+		}
+		b = append(b, make([]byte, minInt(n-an, an))...)
 	}
-	return an, b, nil
 }
 
 func (dec *Decoder) ReadByte() (byte, error) {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index c925d18..ded56c3 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -413,8 +413,9 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			va := make([]interface{}, l)
+			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
+				va = append(va, nil)
 				err = a.decodeInner(dec, t, &va[i])
 				if err != nil {
 					return err // can't recover from this
diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index dffb1df..ff9f9a2 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -152,8 +152,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.ContextFreeActions = make([]Action, len)
+	tx.ContextFreeActions = []Action{}
 	for i := 0; i < int(len); i++ {
+		tx.ContextFreeActions = append(tx.ContextFreeActions, Action{})
 		err = tx.ContextFreeActions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
@@ -163,8 +164,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.Actions = make([]Action, len)
+	tx.Actions = []Action{}
 	for i := 0; i < int(len); i++ {
+		tx.Actions = append(tx.Actions, Action{})
 		err = tx.Actions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
@@ -174,8 +176,9 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
-	tx.Extensions = make([]TransactionExtension, len)
+	tx.Extensions = []TransactionExtension{}
 	for i := 0; i < int(len); i++ {
+		tx.Extensions = append(tx.Extensions, TransactionExtension{})
 		err = tx.Extensions[i].UnmarshalABI(d)
 		if err != nil {
 			return err
-- 
2.43.0


From f2cdfd5e98e4c07e17e48a2e51bb113e0c04c0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 04/48] fix: return write errors from optional presence bytes

The generic encoder ignored the result of writing the presence byte, so a
failed write could be reported as success.
---
 pkg/abi/encode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 1d07d9c..353d372 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -113,7 +113,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 			tag := v.Type().Field(i).Tag.Get("eosio")
 			if tag == "optional" {
 				exists := !v.Field(i).IsZero()
-				enc.WriteBool(exists)
+				if err := enc.WriteBool(exists); err != nil {
+					return err
+				}
 				if !exists {
 					continue
 				}
-- 
2.43.0


From 9a3ba82f767827a65221fcb72ed6d14553d15e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 05/48] fix: return write errors from ABI optional presence
 bytes

encodeType returned nil when writing the presence byte failed.
---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index ded56c3..778d37b 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -154,7 +154,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	if t.isOptional {
 		err = enc.WriteBool(exists)
 		if !exists || err != nil {
-			return nil
+			return err
 		}
 	} else if !exists {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
-- 
2.43.0


From fccca028b022680f2d3c46728a96f6d615a42d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 06/48] fix: check every read and write error in actions

Errors on the account, name and actor fields were dropped, so a transient
I/O failure produced a corrupted action without an error.
---
 pkg/chain/action.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 58bdd0c..4182c1a 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -51,14 +51,20 @@ func (a Action) Digest() Checksum256 {
 // abi.Marshaler conformance
 
 func (pl PermissionLevel) MarshalABI(e *abi.Encoder) error {
-	pl.Actor.MarshalABI(e)
+	if err := pl.Actor.MarshalABI(e); err != nil {
+		return err
+	}
 	return pl.Permission.MarshalABI(e)
 }
 
 func (a Action) MarshalABI(e *abi.Encoder) error {
 	var err error
-	a.Account.MarshalABI(e)
-	a.Name.MarshalABI(e)
+	if err = a.Account.MarshalABI(e); err != nil {
+		return err
+	}
+	if err = a.Name.MarshalABI(e); err != nil {
+		return err
+	}
 	l := uint(len(a.Authorization))
 	err = e.WriteVaruint(l)
 	if err != nil {
@@ -76,13 +82,19 @@ func (a Action) MarshalABI(e *abi.Encoder) error {
 // abi.Unmarshaler conformance
 
 func (pl *PermissionLevel) UnmarshalABI(d *abi.Decoder) error {
-	pl.Actor.UnmarshalABI(d)
+	if err := pl.Actor.UnmarshalABI(d); err != nil {
+		return err
+	}
 	return pl.Permission.UnmarshalABI(d)
 }
 
 func (a *Action) UnmarshalABI(d *abi.Decoder) error {
-	a.Account.UnmarshalABI(d)
-	a.Name.UnmarshalABI(d)
+	if err := a.Account.UnmarshalABI(d); err != nil {
+		return err
+	}
+	if err := a.Name.UnmarshalABI(d); err != nil {
+		return err
+	}
 	l, err := d.ReadVaruint()
 	if err != nil {
 		return err
-- 
2.43.0


From e20576d7fbea23e0b691a54fee45c5764ba6e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 07/48] fix: replace authorizations when decoding into a used
 action

Decoding appended to the previous authorizations, giving an action
permissions it does not have. An action without authorizations now also
marshals to an empty JSON list instead of null.
---
 pkg/chain/action.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 4182c1a..84d39f8 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -99,6 +99,7 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 	if err != nil {
 		return err
 	}
+	a.Authorization = []PermissionLevel{}
 	for i := 0; i < int(l); i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
-- 
2.43.0


From c9373cbc90d4e7b28cf4df6711fe92bd9930820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 08/48] fix: encode ABI bytes with their length

The ABI encoder wrote bytes without the length prefix, which corrupts the
fields that follow, and refused the Bytes values that the ABI decoder returns.
---
 pkg/chain/abi.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 778d37b..89a8659 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -317,8 +317,11 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			}
 		case "bytes":
 			var vv []byte
+			var vv2 Bytes
 			if vv, ok = v.([]byte); ok {
-				err = enc.WriteBytes(vv)
+				err = Bytes(vv).MarshalABI(enc)
+			} else if vv2, ok = v.(Bytes); ok {
+				err = vv2.MarshalABI(enc)
 			}
 		// chain builtins
 		case "asset":
-- 
2.43.0


From 9f3716665378d357d7cf681d703e16fd6e3e4a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 09/48] fix: resolve empty and one character ABI type names

Looking for the modifier suffixes indexed before the start of short names
and panicked, for example for a struct called "a".
---
 pkg/chain/abi.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 89a8659..4743a3f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 )
@@ -591,17 +592,17 @@ func (r *resolver) resolve(name string) *resolvedType {
 	}
 	var isOptional bool
 	baseName := name
-	if name[len(name)-1] == '?' {
+	if strings.HasSuffix(baseName, "?") {
 		isOptional = true
-		baseName = name[:len(name)-1]
+		baseName = baseName[:len(baseName)-1]
 	}
 	var isExtension bool
-	if baseName[len(baseName)-1] == '$' {
+	if strings.HasSuffix(baseName, "$") {
 		isExtension = true
 		baseName = baseName[:len(baseName)-1]
 	}
 	var isArray bool
-	if baseName[len(baseName)-2] == '[' && baseName[len(baseName)-1] == ']' {
+	if strings.HasSuffix(baseName, "[]") {
 		isArray = true
 		baseName = baseName[:len(baseName)-2]
 	}
-- 
2.43.0


From d78c4180e4e5ebc0092f743a9e6f763de8f2184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 10/48] fix: accept optional binary extensions in ABIs

The extension marker is the outermost modifier ("type?$") but was only
recognised inside the optional one, making such types unknown.
---
 pkg/chain/abi.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 4743a3f..40db7c8 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -590,17 +590,17 @@ func (r *resolver) resolve(name string) *resolvedType {
 	if r.types[name] != nil {
 		return r.types[name]
 	}
-	var isOptional bool
-	baseName := name
-	if strings.HasSuffix(baseName, "?") {
-		isOptional = true
-		baseName = baseName[:len(baseName)-1]
-	}
 	var isExtension bool
+	baseName := name
 	if strings.HasSuffix(baseName, "$") {
 		isExtension = true
 		baseName = baseName[:len(baseName)-1]
 	}
+	var isOptional bool
+	if strings.HasSuffix(baseName, "?") {
+		isOptional = true
+		baseName = baseName[:len(baseName)-1]
+	}
 	var isArray bool
 	if strings.HasSuffix(baseName, "[]") {
 		isArray = true
-- 
2.43.0


From 3e68aba5f981daabf75bbb4c89e738cc62ff058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:29 +0000
Subject: [PATCH 11/48] fix: support structs without fields in ABIs

An empty field list was taken for "not a struct", so actions without
arguments could not be encoded or decoded.
---
 pkg/chain/abi.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 40db7c8..d7bad94 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -673,10 +673,11 @@ func (rt *resolvedType) allFields() []*struct {
 	if rt.fields == nil {
 		return nil
 	}
-	var rv []*struct {
+	// not nil for structs without fields, nil means not a struct
+	rv := []*struct {
 		name string
 		typ  *resolvedType
-	}
+	}{}
 	var seen map[string]bool = make(map[string]bool)
 	var cur *resolvedType = rt
 	for {
-- 
2.43.0


From e78d7d10bf582550c925767817653459736967ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:14 +0000
Subject: [PATCH 12/48] fix: only treat a binary extension as absent if nothing
 of it was read

Data truncated inside an extension was accepted as if the extension was not
there, and an absent optional extension was an error. Absent extensions now
always decode to nil.
---
 pkg/abi/decode.go | 10 +++++++++-
 pkg/chain/abi.go  | 14 +++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 9323e16..2938736 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -15,6 +15,7 @@ type DecodeFunc func(dec *Decoder, v interface{}) (done bool, err error)
 type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
+	n  int64
 }
 
 type Unmarshaler interface {
@@ -232,13 +233,14 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 					}
 				}
 
+				start := dec.n
 				if tag == "variant" {
 					err = dec.DecodeVariant(vi)
 				} else {
 					err = dec.Decode(vi)
 				}
 
-				if tag == "extension" && err == io.EOF {
+				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
 					continue
@@ -334,6 +336,11 @@ func minInt(a, b int) int {
 	return b
 }
 
+// Number of bytes read so far.
+func (dec *Decoder) Offset() int64 {
+	return dec.n
+}
+
 // reading methods
 
 func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
@@ -348,6 +355,7 @@ func (dec *Decoder) ReadBytes(n int) (an int, b []byte, err error) {
 	for {
 		rn, err := io.ReadFull(dec.r, b[an:])
 		an += rn
+		dec.n += int64(rn)
 		if err == io.EOF && an > 0 {
 			err = io.ErrUnexpectedEOF
 		}
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index d7bad94..3ce3b1f 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -405,6 +405,17 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 }
 
 func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+	start := dec.Offset()
+	err := a.decodeModifiers(dec, t, v)
+	// an extension is only absent if the data ends where it would begin
+	if err == io.EOF && t.isExtension && dec.Offset() == start {
+		*v = nil
+		return nil
+	}
+	return err
+}
+
+func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -430,9 +441,6 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	} else {
 		err = a.decodeInner(dec, t, v)
 	}
-	if err == io.EOF && t.isExtension {
-		return nil
-	}
 	return err
 }
 
-- 
2.43.0


From 9dd39bcfc21e0329419e01e9e7d47dbf37272bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:14 +0000
Subject: [PATCH 13/48] fix: encode absent binary extensions

Values decoded without their trailing extensions could not be encoded again,
nil was refused for extension fields.
---
 pkg/chain/abi.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 3ce3b1f..5da28fa 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -157,6 +157,8 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !exists || err != nil {
 			return err
 		}
+	} else if !exists && t.isExtension {
+		return nil
 	} else if !exists {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
 	}
@@ -190,8 +192,17 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		if !ok {
 			return fmt.Errorf("expected map, found %v", reflect.TypeOf(v))
 		}
+		var absent string
 		for _, f := range fields {
-			if err = a.encodeType(enc, f.typ, vs[f.name]); err != nil {
+			fv := vs[f.name]
+			if fv == nil && f.typ.isExtension && (!f.typ.isOptional || absent != "") {
+				absent = f.name
+				continue
+			}
+			if absent != "" {
+				return fmt.Errorf("found %v after absent extension %v", f.name, absent)
+			}
+			if err = a.encodeType(enc, f.typ, fv); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From aa159d21084ed23fd713218300bb384ae7e843ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:14 +0000
Subject: [PATCH 14/48] fix: encode nil for ABI aliases of optional types

A nil for an alias that resolves to an optional type was refused, although
decoding returns nil for it.
---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 5da28fa..6141a4a 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -159,7 +159,7 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 	} else if !exists && t.isExtension {
 		return nil
-	} else if !exists {
+	} else if !exists && (t.ref == nil || t.isArray) {
 		return fmt.Errorf("found nil for non optional %v", t.baseName)
 	}
 	if t.isArray {
-- 
2.43.0


From 34bb702c4e055cc09ca03e5d7691cb53a866cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:14 +0000
Subject: [PATCH 15/48] fix: decode the eosio::name ABI type

It could be encoded but not decoded.
---
 pkg/chain/abi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 6141a4a..8887ef9 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -563,7 +563,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 			var rv ExtendedAsset
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-		case "name":
+		case "name", "eosio::name":
 			var rv Name
 			err = rv.UnmarshalABI(dec)
 			*v = rv
-- 
2.43.0


From 738da86a328ec2c5dd76517d37fd226376115667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:47 +0000
Subject: [PATCH 16/48] fix: limit nesting when decoding

Recursive types let a stream, and self-referential aliases or structs in an
ABI, nest without bound. That overflows the stack, which can't be recovered
from.
---
 pkg/abi/decode.go | 11 +++++++++++
 pkg/chain/abi.go  | 45 +++++++++++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 2938736..170c786 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -16,6 +16,8 @@ type Decoder struct {
 	r  io.Reader
 	fn DecodeFunc
 	n  int64
+
+	depth int
 }
 
 type Unmarshaler interface {
@@ -144,6 +146,12 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 func (dec *Decoder) DecodeValue(v reflect.Value) error {
 	var err error
 
+	dec.depth++
+	defer func() { dec.depth-- }()
+	if dec.depth > maxDepth {
+		return errors.New("abi: value is nested too deeply")
+	}
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
@@ -318,6 +326,9 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 // the stream, larger ones grow as the data arrives.
 const maxPrealloc = 64 * 1024
 
+// Limit for nested values, recursive types can be nested as deep as the data says.
+const maxDepth = 10000
+
 func preallocCount(t reflect.Type) int {
 	n := maxPrealloc
 	if size := int(t.Size()); size > 0 {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 8887ef9..9242470 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -138,7 +138,7 @@ func (a Abi) Decode(r io.Reader, name string) (interface{}, error) {
 	t := res.resolve(name)
 	dec := NewDecoder(r)
 	var rv interface{}
-	err := a.decodeType(dec, t, &rv)
+	err := a.decodeType(dec, t, &rv, 0)
 	return rv, err
 }
 
@@ -146,11 +146,17 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 	res := resolver{&a, make(map[string]*resolvedType)}
 	t := res.resolve(name)
 	enc := NewEncoder(w)
-	return a.encodeType(enc, t, v)
+	return a.encodeType(enc, t, v, 0)
 }
 
-func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+// Limit for nested types, both the ABI and the data can be self-referential.
+const maxAbiDepth = 10000
+
+func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
+	if depth > maxAbiDepth {
+		return fmt.Errorf("type %v is nested too deeply", t.name)
+	}
 	exists := v != nil
 	if t.isOptional {
 		err = enc.WriteBool(exists)
@@ -172,21 +178,21 @@ func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			return err
 		}
 		for _, e := range va {
-			err = a.encodeInner(enc, t, e)
+			err = a.encodeInner(enc, t, e, depth)
 			if err != nil {
 				return err
 			}
 		}
 	} else {
-		err = a.encodeInner(enc, t, v)
+		err = a.encodeInner(enc, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error {
+func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
 	if ref := t.ref; ref != nil {
-		return a.encodeType(enc, ref, v)
+		return a.encodeType(enc, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs, ok := v.(map[string]interface{})
 		if !ok {
@@ -202,7 +208,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 			if absent != "" {
 				return fmt.Errorf("found %v after absent extension %v", f.name, absent)
 			}
-			if err = a.encodeType(enc, f.typ, fv); err != nil {
+			if err = a.encodeType(enc, f.typ, fv, depth+1); err != nil {
 				return err
 			}
 		}
@@ -233,7 +239,7 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 		}
 		err = enc.WriteVaruint(uint(ti))
 		if err == nil {
-			err = a.encodeType(enc, tv, va[1])
+			err = a.encodeType(enc, tv, va[1], depth+1)
 		}
 	} else {
 		var ok bool
@@ -415,9 +421,12 @@ func (a Abi) encodeInner(enc *abi.Encoder, t *resolvedType, v interface{}) error
 	return err
 }
 
-func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
+	if depth > maxAbiDepth {
+		return fmt.Errorf("type %v is nested too deeply", t.name)
+	}
 	start := dec.Offset()
-	err := a.decodeModifiers(dec, t, v)
+	err := a.decodeModifiers(dec, t, v, depth)
 	// an extension is only absent if the data ends where it would begin
 	if err == io.EOF && t.isExtension && dec.Offset() == start {
 		*v = nil
@@ -426,7 +435,7 @@ func (a Abi) decodeType(dec *abi.Decoder, t *resolvedType, v *interface{}) error
 	return err
 }
 
-func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 	if t.isOptional {
 		var exists bool
@@ -442,7 +451,7 @@ func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{})
 			va := []interface{}{}
 			for i := 0; i < int(l); i++ {
 				va = append(va, nil)
-				err = a.decodeInner(dec, t, &va[i])
+				err = a.decodeInner(dec, t, &va[i], depth)
 				if err != nil {
 					return err // can't recover from this
 				}
@@ -450,21 +459,21 @@ func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{})
 			*v = va
 		}
 	} else {
-		err = a.decodeInner(dec, t, v)
+		err = a.decodeInner(dec, t, v, depth)
 	}
 	return err
 }
 
-func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) error {
+func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, depth int) error {
 	var err error
 
 	if ref := t.ref; ref != nil {
-		return a.decodeType(dec, ref, v)
+		return a.decodeType(dec, ref, v, depth+1)
 	} else if fields := t.allFields(); fields != nil {
 		vs := make(map[string]interface{})
 		for _, field := range fields {
 			var fv interface{}
-			err := a.decodeType(dec, field.typ, &fv)
+			err := a.decodeType(dec, field.typ, &fv, depth+1)
 			if err != nil {
 				return err
 			}
@@ -484,7 +493,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}) erro
 		tv := (*variant)[idx]
 		var vv []interface{} = make([]interface{}, 2)
 		vv[0] = tv.name
-		err = a.decodeType(dec, tv, &vv[1])
+		err = a.decodeType(dec, tv, &vv[1], depth+1)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From e56bd3864000980705ec61193e1c66e37e2a4627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:47 +0000
Subject: [PATCH 17/48] fix: limit elements that take up no space when decoding

A list of empty structs has no data backing up its length, so a few bytes
could ask for four billion elements.
---
 pkg/abi/decode.go | 11 +++++++++++
 pkg/chain/abi.go  |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 170c786..3e9985c 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -194,7 +194,11 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 			if pv.IsNil() || pv.Len() != 0 {
 				pv.Set(reflect.MakeMap(pv.Type()))
 			}
+			start := dec.n
 			for i := 0; i < int(l); i++ {
+				if i == maxEmptyElements && dec.n == start {
+					return errors.New("abi: too many elements without data")
+				}
 				// read key
 				key := reflect.New(keyType).Elem()
 				err = dec.Decode(key.Addr().Interface())
@@ -268,7 +272,11 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				n := minInt(int(l), preallocCount(pv.Type().Elem()))
 				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
+			start := dec.n
 			for i := 0; i < int(l); i++ {
+				if i == maxEmptyElements && dec.n == start {
+					return errors.New("abi: too many elements without data")
+				}
 				if i == pv.Len() {
 					n := minInt(int(l)-i, i)
 					pv.Set(reflect.AppendSlice(pv, reflect.MakeSlice(pv.Type(), n, n)))
@@ -329,6 +337,9 @@ const maxPrealloc = 64 * 1024
 // Limit for nested values, recursive types can be nested as deep as the data says.
 const maxDepth = 10000
 
+// Limit for elements that take up no space in the stream, nothing else bounds their number.
+const maxEmptyElements = 1024
+
 func preallocCount(t reflect.Type) int {
 	n := maxPrealloc
 	if size := int(t.Size()); size > 0 {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 9242470..cd2e2e8 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -152,6 +152,9 @@ func (a Abi) Encode(w io.Writer, name string, v interface{}) error {
 // Limit for nested types, both the ABI and the data can be self-referential.
 const maxAbiDepth = 10000
 
+// Limit for array elements that take up no space in the data, nothing else bounds their number.
+const maxAbiEmptyElements = 1024
+
 func (a Abi) encodeType(enc *abi.Encoder, t *resolvedType, v interface{}, depth int) error {
 	var err error
 	if depth > maxAbiDepth {
@@ -449,7 +452,11 @@ func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{},
 		l, err = dec.ReadVaruint()
 		if err == nil {
 			va := []interface{}{}
+			start := dec.Offset()
 			for i := 0; i < int(l); i++ {
+				if i == maxAbiEmptyElements && dec.Offset() == start {
+					return fmt.Errorf("too many elements without data in %v", t.name)
+				}
 				va = append(va, nil)
 				err = a.decodeInner(dec, t, &va[i], depth)
 				if err != nil {
-- 
2.43.0


From a416951a25aadb5c15e4dd2cc531dc7c378dab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 18/48] fix: report malformed hex when parsing bytes

UnmarshalText swallowed the error and left the value empty.
---
 pkg/chain/bytes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/bytes.go b/pkg/chain/bytes.go
index 7427f71..69dbc36 100644
--- a/pkg/chain/bytes.go
+++ b/pkg/chain/bytes.go
@@ -54,5 +54,5 @@ func (b *Bytes) UnmarshalText(text []byte) error {
 	if err == nil {
 		*b = data
 	}
-	return nil
+	return err
 }
-- 
2.43.0


From 6f24fc604201475ef762eb80fd56bc536d6ce585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 19/48] fix: check the length when parsing checksums

Short text panicked with a slice out of range and long text was truncated.
---
 pkg/chain/checksum.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/chain/checksum.go b/pkg/chain/checksum.go
index 06ea317..39b923b 100644
--- a/pkg/chain/checksum.go
+++ b/pkg/chain/checksum.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/hex"
+	"errors"
 
 	"github.com/greymass/go-eosio/pkg/abi"
 	"github.com/greymass/go-eosio/pkg/ripemd160"
@@ -119,6 +120,9 @@ func (c512 Checksum512) MarshalText() (text []byte, err error) {
 func (c160 *Checksum160) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 20 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
 		copy((*c160)[:], data[:20])
 	}
@@ -128,6 +132,9 @@ func (c160 *Checksum160) UnmarshalText(text []byte) error {
 func (c256 *Checksum256) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 32 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
 		copy((*c256)[:], data[:32])
 	}
@@ -137,6 +144,9 @@ func (c256 *Checksum256) UnmarshalText(text []byte) error {
 func (c512 *Checksum512) UnmarshalText(text []byte) error {
 	data := make([]byte, hex.DecodedLen(len(text)))
 	_, err := hex.Decode(data, text)
+	if err == nil && len(data) != 64 {
+		err = errors.New("invalid checksum length")
+	}
 	if err == nil {
 		copy((*c512)[:], data[:64])
 	}
-- 
2.43.0


From 9f50664dd084be2bd98c29aacec08767f8366d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 20/48] fix: check the length when parsing float128

Short text left part of the old value in place and long text was truncated.
---
 pkg/chain/numbers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index 4edba44..ae0bf2d 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -220,6 +220,9 @@ func (i128 *Int128) UnmarshalText(text []byte) error {
 
 func (f128 *Float128) UnmarshalText(text []byte) error {
 	b, err := hex.DecodeString(string(text))
+	if err == nil && len(b) != 16 {
+		err = errors.New("invalid float128 length")
+	}
 	if err == nil {
 		copy(f128.Data[:], b)
 	}
-- 
2.43.0


From 367a3b7e22c3e547f5fa9f0fa13e17eb717f0bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 21/48] fix: don't write into the caller's buffer when parsing
 a blob

Appending the padding to the text overwrote what follows it in the same
buffer, for example the closing quote in the JSON document being parsed.
---
 pkg/chain/blob.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/chain/blob.go b/pkg/chain/blob.go
index a382d73..4f12438 100644
--- a/pkg/chain/blob.go
+++ b/pkg/chain/blob.go
@@ -50,14 +50,15 @@ func (b Blob) MarshalText() (text []byte, err error) {
 // encoding.TextUnmarshaler conformance
 
 func (b *Blob) UnmarshalText(text []byte) error {
-	// fix up the base64 encoding padding
-	switch len(text) % 4 {
+	// fix up the base64 encoding padding, on a copy since the text belongs to the caller
+	s := string(text)
+	switch len(s) % 4 {
 	case 2:
-		text = append(text, "=="...)
+		s += "=="
 	case 3:
-		text = append(text, "="...)
+		s += "="
 	}
 	var err error
-	*b, err = base64.StdEncoding.DecodeString(string(text))
+	*b, err = base64.StdEncoding.DecodeString(s)
 	return err
 }
-- 
2.43.0


From 46e1c72809038265178fde94179fe2c0ed189e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 22/48] fix: format every asset that can be decoded

The smallest amount was printed with two signs, amounts with more than 18
decimals wrong, and ones with 64 or more divided by zero.
---
 pkg/chain/asset.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/chain/asset.go b/pkg/chain/asset.go
index 5592188..679fea0 100644
--- a/pkg/chain/asset.go
+++ b/pkg/chain/asset.go
@@ -2,7 +2,6 @@ package chain
 
 import (
 	"errors"
-	"fmt"
 	"strconv"
 	"strings"
 
@@ -82,21 +81,20 @@ func A(s string) *Asset {
 // String representation of asset, e.g. "1.0000 EOS"
 func (a *Asset) String() string {
 	s := ""
+	v := uint64(a.Value)
 	if a.Value < 0 {
 		s = "-"
-	}
-	v := int(a.Value)
-	if v < 0 {
 		v = -v
 	}
-	s += fmt.Sprint(v / a.Symbol.Precision())
-	if a.Symbol.Decimals() > 0 {
-		f := v % a.Symbol.Precision()
-		fs := strconv.Itoa(f)
-		for len(fs) < a.Symbol.Decimals() {
-			fs = "0" + fs
-		}
-		s += "." + fs
+	// units with at least one digit left of the decimal point
+	u := strconv.FormatUint(v, 10)
+	d := a.Symbol.Decimals()
+	if len(u) <= d {
+		u = strings.Repeat("0", d-len(u)+1) + u
+	}
+	s += u[:len(u)-d]
+	if d > 0 {
+		s += "." + u[len(u)-d:]
 	}
 	return s + " " + a.Symbol.Name()
 }
-- 
2.43.0


From e0fecbb338d0bf846e6b36372493cc89a96a6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 23/48] fix: use the EOSIO checksum for legacy public keys

Legacy keys have a ripemd160 checksum like the new ones, just without a
suffix. With the bitcoin style checksum no legacy key of an actual chain could
be parsed or written. Text too short for one panicked with a slice out of
range.
---
 pkg/chain/public_key.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 2b4335a..79a835d 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -45,7 +45,10 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		}, err
 	}
 	// legacy format
-	d, err := base58.CheckDecode(s[len(s)-50:])
+	if len(s) < 50 {
+		return nil, errors.New("invalid public key string")
+	}
+	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
 	return &PublicKey{
 		Type: K1,
 		Data: d,
@@ -61,7 +64,7 @@ func (pk *PublicKey) LegacyString(prefix string) string {
 	if pk.Type != K1 {
 		panic("only K1 keys can be converted to legacy format")
 	}
-	return prefix + base58.CheckEncode(pk.Data)
+	return prefix + base58.CheckEncodeEosio(pk.Data, "")
 }
 
 // abi.Marshaler conformance
-- 
2.43.0


From 7c0c7af4940c75b642693327302ddeab99fea5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 24/48] fix: use the EOSIO text prefix for secp256r1 keys and
 signatures

EOSIO writes them as PUB_R1_ and SIG_R1_, which were refused when parsing,
and the PUB_P1_ and SIG_P1_ written instead are not understood elsewhere. The
type is also part of the checksum.
---
 pkg/chain/key_type.go   | 2 +-
 pkg/chain/public_key.go | 2 +-
 pkg/chain/signature.go  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/chain/key_type.go b/pkg/chain/key_type.go
index b89c5c3..57cd46e 100644
--- a/pkg/chain/key_type.go
+++ b/pkg/chain/key_type.go
@@ -13,7 +13,7 @@ func (t KeyType) String() string {
 	case K1:
 		return "K1"
 	case P1:
-		return "P1"
+		return "R1"
 	case WA:
 		return "WA"
 	default:
diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index 79a835d..c7539fc 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -31,7 +31,7 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		switch s[4:6] {
 		case "K1":
 			t = K1
-		case "P1":
+		case "R1":
 			t = P1
 		case "WA":
 			t = WA
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6e661fe..6126b58 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -29,7 +29,7 @@ func NewSignatureString(s string) (*Signature, error) {
 	switch s[4:6] {
 	case "K1":
 		t = K1
-	case "P1":
+	case "R1":
 		t = P1
 	case "WA":
 		t = WA
-- 
2.43.0


From 2a4b5f053d23ef1639e7c25cea57bbeaaf8cec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 25/48] fix: marshal signature values as text

Only pointers had MarshalText, so a signature in a map or interface, such as
the ones ABI decoding returns, became a JSON object.
---
 pkg/chain/signature.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 6126b58..5aa5012 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -107,7 +107,7 @@ func (s *Signature) UnmarshalABI(d *abi.Decoder) error {
 
 // encoding.TextMarshaler conformance
 
-func (s *Signature) MarshalText() (text []byte, err error) {
+func (s Signature) MarshalText() (text []byte, err error) {
 	return []byte(s.String()), nil
 }
 
-- 
2.43.0


From b3a23c84f9264bd31fafc3c55fa737f5dc688083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:21 +0000
Subject: [PATCH 26/48] fix: don't panic on non-ascii text when decoding base58

Ranging over the string yields runes, which index past the 256 byte table.
---
 pkg/base58/base58.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/base58/base58.go b/pkg/base58/base58.go
index eb6c070..5dc462a 100644
--- a/pkg/base58/base58.go
+++ b/pkg/base58/base58.go
@@ -48,7 +48,7 @@ func Decode(b string) []byte {
 		}
 
 		total := uint64(0)
-		for _, v := range t[:n] {
+		for _, v := range []byte(t[:n]) {
 			tmp := b58[v]
 			if tmp == 255 {
 				return []byte("")
-- 
2.43.0


From a48436ded41adee001b23b04e6e1349915e723e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:07 +0000
Subject: [PATCH 27/48] fix: check the signed range of int128

-2^127 was converted to the wrong value and integers from 2^127 up to
2^128-1 were accepted and wrapped to negative ones.
---
 pkg/chain/numbers.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/chain/numbers.go b/pkg/chain/numbers.go
index ae0bf2d..06aa706 100644
--- a/pkg/chain/numbers.go
+++ b/pkg/chain/numbers.go
@@ -46,8 +46,8 @@ func NewUint128(i *big.Int) Uint128 {
 // Create new Int128 from big.Int, panics if big.Int is too large.
 func NewInt128(i *big.Int) Int128 {
 	var b []byte
-	if i.BitLen() > 128 {
-		panic("int128 only supports bitlen <= 128")
+	if !fitsInt128(i) {
+		panic("int128 only supports values from -2^127 to 2^127-1")
 	}
 	switch i.Sign() {
 	case 0:
@@ -58,11 +58,7 @@ func NewInt128(i *big.Int) Int128 {
 			b = append([]byte{0}, b...)
 		}
 	case -1:
-		length := uint(i.BitLen()/8+1) * 8
-		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), length)).Bytes()
-		for len(b) < 16 {
-			b = append([]byte{0xff}, b...)
-		}
+		b = new(big.Int).Add(i, new(big.Int).Lsh(big.NewInt(1), 128)).Bytes()
 	}
 	return Int128{
 		binary.BigEndian.Uint64(b[8:]),
@@ -80,12 +76,20 @@ func NewUint128FromString(s string) (Uint128, error) {
 
 func NewInt128FromString(s string) (Int128, error) {
 	i, ok := (&big.Int{}).SetString(s, 10)
-	if !ok || i.BitLen() > 128 {
+	if !ok || !fitsInt128(i) {
 		return Int128{}, errors.New("invalid signed integer")
 	}
 	return NewInt128(i), nil
 }
 
+// Whether the integer is in the range of a two's complement 128-bit number.
+func fitsInt128(i *big.Int) bool {
+	if i.Sign() < 0 {
+		i = new(big.Int).Not(i)
+	}
+	return i.BitLen() < 128
+}
+
 func (u128 Uint128) Bytes(o binary.ByteOrder) []byte {
 	var b [16]byte
 	if o == binary.BigEndian {
-- 
2.43.0


From 2afc30576f9806e4888cd1215acfc03062dd976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:14 +0000
Subject: [PATCH 28/48] fix: refuse nil pointers to types with a marshaler

Encoding nil, or a nil pointer to a type that implements Marshaler,
panicked instead of returning an error like other nil pointers do.
---
 pkg/abi/encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 353d372..1a6d0b6 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -77,6 +77,11 @@ func (enc *Encoder) Encode(v interface{}) error {
 }
 
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
+	// refuse nil before it reaches a marshaler, most can't handle it
+	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
+		return errors.New("eosio encoder: encountered unexpected nil pointer")
+	}
+
 	// check if value conforms to Marshaler
 	if v.CanInterface() {
 		if m, ok := v.Interface().(Marshaler); ok {
-- 
2.43.0


From 85214b6cba277597ac317c4bcfde9adbaaf5923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:16 +0000
Subject: [PATCH 29/48] fix: decode empty lists as empty instead of nil

A nil slice is null in JSON and absent when it's encoded as an optional,
so decoding an empty list changed its JSON and binary representation.
---
 pkg/abi/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 3e9985c..b028449 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -268,7 +268,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			if pv.Len() != int(l) {
+			if pv.IsNil() || pv.Len() != int(l) {
 				n := minInt(int(l), preallocCount(pv.Type().Elem()))
 				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
-- 
2.43.0


From 79db0739c44546201bcc528fbac2e1be54d23972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:18 +0000
Subject: [PATCH 30/48] fix: encode map entries in key order

Entries were written in go's random iteration order so encoding the same
value twice could give different data.
---
 pkg/abi/encode.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 1a6d0b6..2d0c99d 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"math"
 	"reflect"
+	"sort"
 )
 
 // Fast-path decoding function can be implemented to handle additional types without reflection.
@@ -136,7 +137,9 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 		if err != nil {
 			return err
 		}
-		for _, key := range v.MapKeys() {
+		keys := v.MapKeys()
+		sort.SliceStable(keys, func(i, j int) bool { return lessKey(keys[i], keys[j]) })
+		for _, key := range keys {
 			if err := enc.Encode(key.Interface()); err != nil {
 				return err
 			}
@@ -161,6 +164,41 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	return nil
 }
 
+// Order of map keys, go randomizes it but equal values should encode to the same data.
+func lessKey(a, b reflect.Value) bool {
+	switch a.Kind() {
+	case reflect.Bool:
+		return !a.Bool() && b.Bool()
+	case reflect.String:
+		return a.String() < b.String()
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return a.Int() < b.Int()
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return a.Uint() < b.Uint()
+	case reflect.Float32, reflect.Float64:
+		return a.Float() < b.Float()
+	case reflect.Array:
+		for i := 0; i < a.Len(); i++ {
+			if lessKey(a.Index(i), b.Index(i)) {
+				return true
+			}
+			if lessKey(b.Index(i), a.Index(i)) {
+				return false
+			}
+		}
+	case reflect.Struct:
+		for i := 0; i < a.NumField(); i++ {
+			if lessKey(a.Field(i), b.Field(i)) {
+				return true
+			}
+			if lessKey(b.Field(i), a.Field(i)) {
+				return false
+			}
+		}
+	}
+	return false
+}
+
 // writing methods
 
 func (enc *Encoder) WriteBytes(b []byte) error {
-- 
2.43.0


From c55d99cb59b94e4355f5f751df738a7b414d2148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:20 +0000
Subject: [PATCH 31/48] fix: encode variant fields

The variant tag was only honored when decoding, encoding the same struct
failed or left out the alternative's index.
---
 pkg/abi/encode.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/pkg/abi/encode.go b/pkg/abi/encode.go
index 2d0c99d..100e66c 100644
--- a/pkg/abi/encode.go
+++ b/pkg/abi/encode.go
@@ -3,6 +3,7 @@ package abi
 import (
 	"encoding/binary"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 	"reflect"
@@ -77,6 +78,37 @@ func (enc *Encoder) Encode(v interface{}) error {
 	return err
 }
 
+// Encode variant, which must be a struct with all pointer fields where exactly one isn't nil.
+func (enc *Encoder) EncodeVariant(v interface{}) error {
+	val := reflect.ValueOf(v)
+	if val.Kind() == reflect.Ptr {
+		val = val.Elem()
+	}
+	if val.Kind() != reflect.Struct {
+		return fmt.Errorf("eosio encoder: invalid variant: expected struct, got %s", val.Kind())
+	}
+	idx := -1
+	for i := 0; i < val.NumField(); i++ {
+		if val.Field(i).Kind() != reflect.Ptr {
+			return fmt.Errorf("eosio encoder: invalid variant: expected field pointer, got %s", val.Field(i).Kind())
+		}
+		if val.Field(i).IsNil() {
+			continue
+		}
+		if idx != -1 {
+			return errors.New("eosio encoder: invalid variant: more than one alternative is set")
+		}
+		idx = i
+	}
+	if idx == -1 || idx > math.MaxUint8 {
+		return errors.New("eosio encoder: invalid variant: no alternative is set")
+	}
+	if err := enc.WriteByte(byte(idx)); err != nil {
+		return err
+	}
+	return enc.Encode(val.Field(idx).Elem().Interface())
+}
+
 func (enc *Encoder) EncodeValue(v reflect.Value) error {
 	// refuse nil before it reaches a marshaler, most can't handle it
 	if !v.IsValid() || (v.Kind() == reflect.Ptr && v.IsNil()) {
@@ -126,7 +158,12 @@ func (enc *Encoder) EncodeValue(v reflect.Value) error {
 					continue
 				}
 			}
-			err := enc.Encode(v.Field(i).Interface())
+			var err error
+			if _, ok := v.Field(i).Interface().(Marshaler); tag == "variant" && !ok {
+				err = enc.EncodeVariant(v.Field(i).Interface())
+			} else {
+				err = enc.Encode(v.Field(i).Interface())
+			}
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 730cd4a9400f3a33640f4bc6582d03c9384ee032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:34 +0000
Subject: [PATCH 32/48] fix: refuse times that do not fit 32 bits when parsing

Text for an instant before the epoch or after the last representable one
was accepted and wrapped around to an unrelated time.
---
 pkg/chain/time.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/chain/time.go b/pkg/chain/time.go
index 4a012a1..6e20f1f 100644
--- a/pkg/chain/time.go
+++ b/pkg/chain/time.go
@@ -1,6 +1,8 @@
 package chain
 
 import (
+	"errors"
+	"math"
 	"time"
 
 	"github.com/greymass/go-eosio/pkg/abi"
@@ -19,6 +21,8 @@ const (
 
 const blockTimestampEpochMilli = 946684800000
 
+var errTimeRange = errors.New("time is out of range")
+
 func NewTimePoint(t time.Time) TimePoint {
 	return TimePoint(t.UnixMicro())
 }
@@ -51,6 +55,9 @@ func NewTimePointSecFromString(s string) (TimePointSec, error) {
 	if err != nil {
 		return 0, err
 	}
+	if u := t.Unix(); u < 0 || u > math.MaxUint32 {
+		return 0, errTimeRange
+	}
 	return NewTimePointSec(t), nil
 }
 
@@ -62,6 +69,11 @@ func NewBlockTimestampFromString(s string) (BlockTimestamp, error) {
 	if err != nil {
 		return 0, err
 	}
+	// same rounding as NewBlockTimestamp
+	ms := t.Round(time.Millisecond*500).UnixMilli() - blockTimestampEpochMilli
+	if ms < 0 || ms/500 > math.MaxUint32 {
+		return 0, errTimeRange
+	}
 	return NewBlockTimestamp(t), nil
 }
 
-- 
2.43.0


From e44ad364071d09f1b036c85912937ee77e98ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:02 +0000
Subject: [PATCH 33/48] fix: check the length of keys and signatures when
 parsing text

Any checksummed payload was accepted for any type, also with something
other than an underscore after the type. Encoding such a key or signature
produces data that can't be decoded again.
---
 pkg/chain/public_key.go | 30 ++++++++++++++++++++++--------
 pkg/chain/signature.go  | 18 ++++++++++++------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/pkg/chain/public_key.go b/pkg/chain/public_key.go
index c7539fc..282bb10 100644
--- a/pkg/chain/public_key.go
+++ b/pkg/chain/public_key.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -26,6 +27,9 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 		return nil, errors.New("invalid public key string")
 	}
 	if s[0:4] == "PUB_" {
+		if s[6] != '_' {
+			return nil, errors.New("invalid public key string")
+		}
 		// new format
 		var t KeyType
 		switch s[4:6] {
@@ -39,20 +43,30 @@ func NewPublicKeyFromString(s string) (*PublicKey, error) {
 			return nil, fmt.Errorf("unknown key type: %s", s[4:6])
 		}
 		d, err := base58.CheckDecodeEosio(s[7:], t.String())
-		return &PublicKey{
-			Type: t,
-			Data: d,
-		}, err
+		if err != nil {
+			return nil, err
+		}
+		return newCheckedPublicKey(t, d)
 	}
 	// legacy format
 	if len(s) < 50 {
 		return nil, errors.New("invalid public key string")
 	}
 	d, err := base58.CheckDecodeEosio(s[len(s)-50:], "")
-	return &PublicKey{
-		Type: K1,
-		Data: d,
-	}, err
+	if err != nil {
+		return nil, err
+	}
+	return newCheckedPublicKey(K1, d)
+}
+
+// the checksum doesn't say anything about the length, make sure it's what the binary format of the type holds
+func newCheckedPublicKey(t KeyType, d []byte) (*PublicKey, error) {
+	var pk PublicKey
+	r := bytes.NewReader(append([]byte{byte(t)}, d...))
+	if err := pk.UnmarshalABI(NewDecoder(r)); err != nil || !bytes.Equal(pk.Data, d) {
+		return nil, errors.New("invalid public key data")
+	}
+	return &pk, nil
 }
 
 func (pk *PublicKey) String() string {
diff --git a/pkg/chain/signature.go b/pkg/chain/signature.go
index 5aa5012..8a8c867 100644
--- a/pkg/chain/signature.go
+++ b/pkg/chain/signature.go
@@ -1,6 +1,7 @@
 package chain
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -22,7 +23,7 @@ func NewSignature(t KeyType, d []byte) *Signature {
 }
 
 func NewSignatureString(s string) (*Signature, error) {
-	if len(s) < 7 || s[:4] != "SIG_" {
+	if len(s) < 7 || s[:4] != "SIG_" || s[6] != '_' {
 		return nil, errors.New("invalid signature string")
 	}
 	var t KeyType
@@ -37,11 +38,16 @@ func NewSignatureString(s string) (*Signature, error) {
 		return nil, fmt.Errorf("unknown signature type: %s", s[4:6])
 	}
 	d, err := base58.CheckDecodeEosio(s[7:], t.String())
-	return &Signature{
-		Type: t,
-		Data: d,
-	}, err
-
+	if err != nil {
+		return nil, err
+	}
+	// the checksum doesn't say anything about the length, make sure it's what the binary format of the type holds
+	var sig Signature
+	r := bytes.NewReader(append([]byte{byte(t)}, d...))
+	if err := sig.UnmarshalABI(NewDecoder(r)); err != nil || !bytes.Equal(sig.Data, d) {
+		return nil, errors.New("invalid signature data")
+	}
+	return &sig, nil
 }
 
 func (pk *Signature) String() string {
-- 
2.43.0


From 112fe1fa3a2d7f8ae4978a86d161e0a8f145de88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:10 +0000
Subject: [PATCH 34/48] fix: don't declare an unused length in generated code

The code generated for structs with fixed arrays did not compile.
---
 pkg/codegen/codegen.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index e4c52b5..3ee9f3e 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -266,7 +266,6 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = render(writeSliceTemplate, f)
 		}
 		if f.IsArray {
-			ctx.UsesLength = true
 			f.Code = indent(f.Code)
 			f.Code = render(writeArrayTemplate, f)
 		}
-- 
2.43.0


From 8fb363775623834ef5b64d5200b7948ead09c9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:12 +0000
Subject: [PATCH 35/48] fix: clear absent optionals in generated code

An optional that was absent in the data kept its earlier value when
decoding into a used struct, the generic decoder clears it.
---
 pkg/codegen/codegen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 3ee9f3e..c6bea83 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -141,6 +141,8 @@ var readOptionalTemplate = template.Must(template.New("").Parse(`
 	}
 	if exists {
 		{{- .Code }}
+	} else {
+		v.{{ .Name }} = nil
 	}`,
 ))
 
-- 
2.43.0


From 339608367fd10598c50b083e8029a657d6417408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:13 +0000
Subject: [PATCH 36/48] fix: allocate pointers in generated code

Decoding into a nil pointer to a type with an unmarshaler panicked, and
the code for several pointers, or pointers to lists, did not compile.
---
 pkg/codegen/codegen.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index c6bea83..36c1943 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -52,19 +52,13 @@ var writeTemplate = template.Must(template.New("").Parse(`
 ))
 
 var readTemplate = template.Must(template.New("").Parse(`
-	{{ if .IsPtr -}}
-	var tmp {{ .Type }}
-	{{ end -}}
-	if {{ if .IsPtr }}tmp{{ else -}}
+	if {{ if .IsPtr }}(*{{ end -}}
 		v.{{ .Name }}
+		{{- if .IsPtr }}){{ end -}}
 		{{- if or .IsSlice .IsArray }}[i]{{ end -}}
-	{{- end -}}
 	, err = d.Read{{ .Method }}(); err != nil {
 		return err
-	}
-	{{- if .IsPtr }}
-	v.{{ .Name }}{{ if or .IsSlice .IsArray }}[i]{{ end }} = &tmp
-	{{- end }}`,
+	}`,
 ))
 
 var writeOtherTemplate = template.Must(template.New("").Parse(`
@@ -101,12 +95,19 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	v.{{ .Name }} = make([]{{ .Type }}, length)
+	{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = make([]{{ .Type }}, length)
 	for i := 0; i < int(length); i++ {
 		{{- .Code }}
 	}`,
 ))
 
+var readPtrTemplate = template.Must(template.New("").Parse(`
+	v.{{ .Name }} = new(
+		{{- if .IsSlice }}[]{{ else if .IsArray }}[{{ .ArrayLen }}]{{ end -}}
+		{{ .Type }})
+	{{- .Code }}`,
+))
+
 var writeArrayTemplate = template.Must(template.New("").Parse(`
 	for i := 0; i < {{ .ArrayLen }}; i++ {
 		{{- .Code }}
@@ -300,6 +301,9 @@ func GenUnmarshalFn(structType interface{}) string {
 			f.Code = indent(f.Code)
 			f.Code = render(readArrayTemplate, f)
 		}
+		if f.IsPtr {
+			f.Code = render(readPtrTemplate, f)
+		}
 		if f.IsOptional {
 			ctx.UsesExists = true
 			f.Code = indent(f.Code)
-- 
2.43.0


From 5628453b3e808a154ea380f088d564a33d72cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:15 +0000
Subject: [PATCH 37/48] fix: don't qualify types of the same package in
 generated code

The code for lists of such types did not compile.
---
 pkg/codegen/codegen.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 36c1943..da959f5 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -217,6 +217,19 @@ func GenUnmarshalFn(structType interface{}) string {
 			}
 			f.IsOptional = true
 		}
+
+		// types are not qualified in their own package
+		ft := t.Field(i).Type
+		if f.IsPtr {
+			ft = ft.Elem()
+		}
+		if f.IsSlice || f.IsArray {
+			ft = ft.Elem()
+		}
+		if ft.Name() != "" && ft.PkgPath() == t.PkgPath() {
+			f.Type = ft.Name()
+		}
+
 		ctx.Fields = append(ctx.Fields, &f)
 	}
 
-- 
2.43.0


From dc6bfe8df789fd75adc408a0f0c4b6e725009709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 38/48] fix: don't allocate for claimed lengths in generated
 code

A few bytes claiming a long list made the generated decoder allocate
gigabytes, grow the list as its elements arrive instead.
---
 pkg/codegen/codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index da959f5..3363aca 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -95,8 +95,9 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 	if length, err = d.ReadVaruint(); err != nil {
 		return err
 	}
-	{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = make([]{{ .Type }}, length)
+	{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = []{{ .Type }}{}
 	for i := 0; i < int(length); i++ {
+		{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = append({{ if .IsPtr }}*{{ end }}v.{{ .Name }}, *new({{ .Type }}))
 		{{- .Code }}
 	}`,
 ))
-- 
2.43.0


From b80cc25411f8ab31dc25aaeaaf3aa8a1f3a9ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:18 +0000
Subject: [PATCH 39/48] fix: generate code for lists of byte strings

They were written without their lengths and the code to read them did not
compile.
---
 pkg/codegen/codegen.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 3363aca..722a369 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -61,6 +61,23 @@ var readTemplate = template.Must(template.New("").Parse(`
 	}`,
 ))
 
+var writeBytesTemplate = template.Must(template.New("").Parse(`
+	if err = e.WriteVaruint(uint(len({{ if .IsPtr }}(*{{ end }}v.{{ .Name }}{{ if .IsPtr }}){{ end }}[i]))); err != nil {
+		return err
+	}
+	if err = e.WriteBytes({{ if .IsPtr }}(*{{ end }}v.{{ .Name }}{{ if .IsPtr }}){{ end }}[i]); err != nil {
+		return err
+	}`,
+))
+
+var readBytesTemplate = template.Must(template.New("").Parse(`
+	if length, err := d.ReadVaruint(); err != nil {
+		return err
+	} else if _, {{ if .IsPtr }}(*{{ end }}v.{{ .Name }}{{ if .IsPtr }}){{ end }}[i], err = d.ReadBytes(int(length)); err != nil {
+		return err
+	}`,
+))
+
 var writeOtherTemplate = template.Must(template.New("").Parse(`
 	if err = {{ if and .IsPtr (or .IsSlice .IsArray) }}(*{{ end -}}
 		v.{{ .Name -}}
@@ -275,6 +292,8 @@ func GenUnmarshalFn(structType interface{}) string {
 		tpl := writeTemplate
 		if f.Method == "" {
 			tpl = writeOtherTemplate
+		} else if f.Method == "Bytes" {
+			tpl = writeBytesTemplate
 		}
 		f.Code = render(tpl, f)
 		if f.IsSlice {
@@ -304,6 +323,8 @@ func GenUnmarshalFn(structType interface{}) string {
 		tpl := readTemplate
 		if f.Method == "" {
 			tpl = readOtherTemplate
+		} else if f.Method == "Bytes" {
+			tpl = readBytesTemplate
 		}
 		f.Code = render(tpl, f)
 		if f.IsSlice {
-- 
2.43.0


From c7ab8adc4038b87bb9362b508bbea14e3ceba74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:52 +0000
Subject: [PATCH 40/48] fix: resolve aliases of base structs

A struct whose base was given by an alias could not be encoded or decoded.
---
 pkg/chain/abi.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index cd2e2e8..69b6d30 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -736,6 +736,11 @@ func (rt *resolvedType) allFields() []*struct {
 		}
 		seen[cur.name] = true
 		cur = cur.base
+		// the base can be given by an alias
+		for cur != nil && cur.ref != nil && !seen[cur.name] {
+			seen[cur.name] = true
+			cur = cur.ref
+		}
 		if cur == nil {
 			break
 		}
-- 
2.43.0


From ed338c983d651124c5b118f61963e7d28e1d0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:57 +0000
Subject: [PATCH 41/48] fix: decode pointers to pointers

Pointers to booleans, strings and most integers could not be decoded when
reached through another pointer, for example as the values of a map.
---
 pkg/abi/decode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index b028449..1ce42d4 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -152,6 +152,14 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		return errors.New("abi: value is nested too deeply")
 	}
 
+	// pointers to pointers, decode what the inner one points to like any other value
+	if v.Kind() == reflect.Ptr {
+		if v.IsNil() {
+			v.Set(reflect.New(v.Type().Elem()))
+		}
+		return dec.Decode(v.Interface())
+	}
+
 	u, pv := indirect(v, false)
 	if u != nil {
 		return u.UnmarshalABI(dec)
-- 
2.43.0


From 999c47532e009459347771477ea69c2ecc843651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:32 +0000
Subject: [PATCH 42/48] fix: limit elements without data anywhere in a list

Only lists without any data were limited. With types that can be absent at the
end of the data, an extension for example, the first element could use up the
data and the rest of the claimed count was then allocated.
---
 pkg/abi/decode.go | 4 ++--
 pkg/chain/abi.go  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 1ce42d4..5b0b024 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -204,7 +204,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 			}
 			start := dec.n
 			for i := 0; i < int(l); i++ {
-				if i == maxEmptyElements && dec.n == start {
+				if int64(i)-(dec.n-start) >= maxEmptyElements {
 					return errors.New("abi: too many elements without data")
 				}
 				// read key
@@ -282,7 +282,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 			}
 			start := dec.n
 			for i := 0; i < int(l); i++ {
-				if i == maxEmptyElements && dec.n == start {
+				if int64(i)-(dec.n-start) >= maxEmptyElements {
 					return errors.New("abi: too many elements without data")
 				}
 				if i == pv.Len() {
diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index 69b6d30..d56ba42 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -454,7 +454,7 @@ func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{},
 			va := []interface{}{}
 			start := dec.Offset()
 			for i := 0; i < int(l); i++ {
-				if i == maxAbiEmptyElements && dec.Offset() == start {
+				if int64(i)-(dec.Offset()-start) >= maxAbiEmptyElements {
 					return fmt.Errorf("too many elements without data in %v", t.name)
 				}
 				va = append(va, nil)
-- 
2.43.0


From 0febc342d4d41cb728cad2c2eae4357787508222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:39 +0000
Subject: [PATCH 43/48] fix: decode structs whose last extension is absent

The end of the data was accepted as an absent extension but then returned as
the error of the whole struct if no other field followed.
---
 pkg/abi/decode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 5b0b024..14c8f20 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -263,6 +263,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				if tag == "extension" && err == io.EOF && dec.n == start {
 					// TODO: make sure extensions are only last field in a top-level struct
 					pv.Set(reflect.Zero(pv.Type()))
+					err = nil
 					continue
 				}
 
-- 
2.43.0


From 6e4e040ee4002ce007442d5c1d485aba7c6d5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:23 +0000
Subject: [PATCH 44/48] fix: decode variant fields with a custom format using
 that format

The index byte was read before UnmarshalABI was called, although MarshalABI
is what writes it, so such fields did not decode from their own encoding.
UnmarshalABI can now also use DecodeVariant like MarshalABI can use
EncodeVariant.
---
 pkg/abi/decode.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index 14c8f20..f8be5c1 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -109,7 +109,8 @@ func (dec *Decoder) DecodeVariant(v interface{}) error {
 	}
 	u, ptrValue := indirect(reflect.ValueOf(v), false)
 	if u != nil {
-		return u.UnmarshalABI(dec)
+		// decode the variant itself, this can be how it implements its custom format
+		ptrValue = reflect.ValueOf(u).Elem()
 	}
 	// make sure the pointer is a pointer to a struct
 	if ptrValue.Kind() != reflect.Struct {
@@ -254,7 +255,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				}
 
 				start := dec.n
-				if tag == "variant" {
+				if _, ok := vi.(Unmarshaler); tag == "variant" && !ok {
 					err = dec.DecodeVariant(vi)
 				} else {
 					err = dec.Decode(vi)
-- 
2.43.0


From 62e7fb2ff877fc9d956f976ea20da51b16fe2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:56 +0000
Subject: [PATCH 45/48] fix: counts of 2^31 and more on 32-bit platforms

A list with such a count made the decoder panic (negative length), a map was taken as empty.
---
 pkg/abi/decode.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pkg/abi/decode.go b/pkg/abi/decode.go
index f8be5c1..e3abe7d 100644
--- a/pkg/abi/decode.go
+++ b/pkg/abi/decode.go
@@ -204,7 +204,7 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 				pv.Set(reflect.MakeMap(pv.Type()))
 			}
 			start := dec.n
-			for i := 0; i < int(l); i++ {
+			for i := 0; uint(i) < l; i++ {
 				if int64(i)-(dec.n-start) >= maxEmptyElements {
 					return errors.New("abi: too many elements without data")
 				}
@@ -278,17 +278,17 @@ func (dec *Decoder) DecodeValue(v reflect.Value) error {
 		var l uint
 		l, err = dec.ReadVaruint()
 		if err == nil {
-			if pv.IsNil() || pv.Len() != int(l) {
-				n := minInt(int(l), preallocCount(pv.Type().Elem()))
+			if pv.IsNil() || uint(pv.Len()) != l {
+				n := minCount(l, preallocCount(pv.Type().Elem()))
 				pv.Set(reflect.MakeSlice(pv.Type(), n, n))
 			}
 			start := dec.n
-			for i := 0; i < int(l); i++ {
+			for i := 0; uint(i) < l; i++ {
 				if int64(i)-(dec.n-start) >= maxEmptyElements {
 					return errors.New("abi: too many elements without data")
 				}
 				if i == pv.Len() {
-					n := minInt(int(l)-i, i)
+					n := minCount(l-uint(i), i)
 					pv.Set(reflect.AppendSlice(pv, reflect.MakeSlice(pv.Type(), n, n)))
 				}
 				pv := pv.Index(i)
@@ -361,6 +361,14 @@ func preallocCount(t reflect.Type) int {
 	return n
 }
 
+// The lesser of the two, the count may be more than an int can hold.
+func minCount(count uint, n int) int {
+	if count < uint(n) {
+		return int(count)
+	}
+	return n
+}
+
 func minInt(a, b int) int {
 	if a < b {
 		return a
-- 
2.43.0


From 6be947a26e57160c8458589fdc3ef464ea6af4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:56 +0000
Subject: [PATCH 46/48] fix: ABI array counts and variant indexes of 2^31 and
 more on 32-bit platforms

The array was taken as empty, the index passed the range check and panicked.
---
 pkg/chain/abi.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/chain/abi.go b/pkg/chain/abi.go
index d56ba42..1dc1510 100644
--- a/pkg/chain/abi.go
+++ b/pkg/chain/abi.go
@@ -453,7 +453,7 @@ func (a Abi) decodeModifiers(dec *abi.Decoder, t *resolvedType, v *interface{},
 		if err == nil {
 			va := []interface{}{}
 			start := dec.Offset()
-			for i := 0; i < int(l); i++ {
+			for i := 0; uint(i) < l; i++ {
 				if int64(i)-(dec.Offset()-start) >= maxAbiEmptyElements {
 					return fmt.Errorf("too many elements without data in %v", t.name)
 				}
@@ -494,7 +494,7 @@ func (a Abi) decodeInner(dec *abi.Decoder, t *resolvedType, v *interface{}, dept
 		if err != nil {
 			return err
 		}
-		if int(idx) >= len(*variant) {
+		if idx >= uint(len(*variant)) {
 			return fmt.Errorf("invalid variant index %d, expected max %d", idx, len(*variant))
 		}
 		tv := (*variant)[idx]
-- 
2.43.0


From 3c7be44acdc67e4d468d44d93fef7a16636ad4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:56 +0000
Subject: [PATCH 47/48] fix: action and transaction list counts of 2^31 and
 more on 32-bit platforms

The lists were taken as empty and what follows misread.
---
 pkg/chain/action.go      | 2 +-
 pkg/chain/transaction.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/chain/action.go b/pkg/chain/action.go
index 84d39f8..4b7cb37 100644
--- a/pkg/chain/action.go
+++ b/pkg/chain/action.go
@@ -100,7 +100,7 @@ func (a *Action) UnmarshalABI(d *abi.Decoder) error {
 		return err
 	}
 	a.Authorization = []PermissionLevel{}
-	for i := 0; i < int(l); i++ {
+	for i := uint(0); i < l; i++ {
 		var pl PermissionLevel
 		err = pl.UnmarshalABI(d)
 		if err != nil {
diff --git a/pkg/chain/transaction.go b/pkg/chain/transaction.go
index ff9f9a2..15869de 100644
--- a/pkg/chain/transaction.go
+++ b/pkg/chain/transaction.go
@@ -153,7 +153,7 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 		return err
 	}
 	tx.ContextFreeActions = []Action{}
-	for i := 0; i < int(len); i++ {
+	for i := uint(0); i < len; i++ {
 		tx.ContextFreeActions = append(tx.ContextFreeActions, Action{})
 		err = tx.ContextFreeActions[i].UnmarshalABI(d)
 		if err != nil {
@@ -165,7 +165,7 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 		return err
 	}
 	tx.Actions = []Action{}
-	for i := 0; i < int(len); i++ {
+	for i := uint(0); i < len; i++ {
 		tx.Actions = append(tx.Actions, Action{})
 		err = tx.Actions[i].UnmarshalABI(d)
 		if err != nil {
@@ -177,7 +177,7 @@ func (tx *Transaction) UnmarshalABI(d *abi.Decoder) error {
 		return err
 	}
 	tx.Extensions = []TransactionExtension{}
-	for i := 0; i < int(len); i++ {
+	for i := uint(0); i < len; i++ {
 		tx.Extensions = append(tx.Extensions, TransactionExtension{})
 		err = tx.Extensions[i].UnmarshalABI(d)
 		if err != nil {
-- 
2.43.0


From 594551211bdff594f14a2243e30a19c15ea0bfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:56 +0000
Subject: [PATCH 48/48] fix: generated decoders and counts of 2^31 and more on
 32-bit platforms

The list was taken as empty.
---
 pkg/codegen/codegen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/codegen/codegen.go b/pkg/codegen/codegen.go
index 722a369..a8a4eb1 100644
--- a/pkg/codegen/codegen.go
+++ b/pkg/codegen/codegen.go
@@ -113,7 +113,7 @@ var readSliceTemplate = template.Must(template.New("").Parse(`
 		return err
 	}
 	{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = []{{ .Type }}{}
-	for i := 0; i < int(length); i++ {
+	for i := 0; uint(i) < length; i++ {
 		{{ if .IsPtr }}*{{ end }}v.{{ .Name }} = append({{ if .IsPtr }}*{{ end }}v.{{ .Name }}, *new({{ .Type }}))
 		{{- .Code }}
 	}`,
-- 
2.43.0

