From 824e782484f8ebd9b9e7c60cdc065360aaf51da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 01/13] fix: flush the underlying writer of a reset compact
 writer

Reset dropped the reference to the underlying writer, so that Flush no
longer reached a Flusher.
---
 encoding/thriftcompact/thriftcompact.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index fc079ff..226eca1 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -534,6 +534,7 @@ func (x *writer) Reset(uw io.Writer) {
 	x.Writer.Reset(uw)
 	*x = writer{
 		Writer:       x.Writer,
+		uw:           uw,
 		lastFieldIDs: x.lastFieldIDs[:0],
 	}
 }
-- 
2.43.0


From 599c6a80ecff620398a905ef42ad39a1bc9d9d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 02/13] fix: read varints without waiting for data after them

Peeking for ten bytes blocks on a stream that stays open after a short
varint, and swallows errors of the stream.
---
 encoding/thriftwire/varint.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/thriftwire/varint.go b/encoding/thriftwire/varint.go
index 99163bb..265fca4 100644
--- a/encoding/thriftwire/varint.go
+++ b/encoding/thriftwire/varint.go
@@ -7,7 +7,7 @@ import (
 
 // ReadUvarint is like [binary.ReadUvarint] but optimized for [bufio.Reader].
 func ReadUvarint(b *bufio.Reader) (uint64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Uvarint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
@@ -18,7 +18,7 @@ func ReadUvarint(b *bufio.Reader) (uint64, error) {
 
 // ReadVarint is like [binary.ReadVarint] but optimized for [bufio.Reader].
 func ReadVarint(b *bufio.Reader) (int64, error) {
-	if buf, _ := b.Peek(binary.MaxVarintLen64); len(buf) > 0 {
+	if buf, _ := b.Peek(min(b.Buffered(), binary.MaxVarintLen64)); len(buf) > 0 {
 		if x, n := binary.Varint(buf); n > 0 {
 			_, err := b.Discard(n)
 			return x, err
-- 
2.43.0


From e1b1e3f65c3a99a09fd4dfa385e779431b69ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 03/13] fix: write negative compact sequence ids as 32-bit
 varints

They were sign extended to 64 bits, which other implementations reject.
---
 encoding/thriftcompact/thriftcompact.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 226eca1..9312392 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -312,7 +312,7 @@ func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
 	if err != nil {
 		return err
 	}
-	err = x.writeUvarint(uint64(h.ID))
+	err = x.writeUvarint(uint64(uint32(h.ID)))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From d6c617cd8780df722b5f8833df2f442768dfcdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 04/13] fix: allow empty compact sets and lists without an
 element type

SetHeader and ListHeader document that the element type may be Stop if the
container is empty, and readers return such headers.
---
 encoding/thriftcompact/thriftcompact.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 9312392..dbc4afc 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -429,9 +429,13 @@ const MaxSetHeaderSize = 1 + binary.MaxVarintLen64
 
 // AppendSetHeader appends h to buf and returns the extended buffer.
 func AppendSetHeader(buf []byte, h thriftwire.SetHeader) ([]byte, error) {
-	e, err := typeCompact(h.Element)
-	if err != nil {
-		return buf, err
+	var e compactType
+	if h.Element != thriftwire.Stop || h.Size > 0 {
+		var err error
+		e, err = typeCompact(h.Element)
+		if err != nil {
+			return buf, err
+		}
 	}
 	if h.Size >= 0 && h.Size < 15 {
 		return append(buf, byte(h.Size<<4)|byte(e)), nil
-- 
2.43.0


From 9066816ff94d8a76448969704acf42ff8f758d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 05/13] fix: do not redirect the bufio.Reader or bufio.Writer
 of the caller

A bufio.Reader or bufio.Writer passed to NewReader or NewWriter is used
directly. Reset then reset that object: unflushed data was dropped and the
object read from or wrote to the new stream.
---
 encoding/thriftbinary/thriftbinary.go   | 20 ++++++++++++++++++--
 encoding/thriftcompact/thriftcompact.go |  8 ++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 8af57f4..1c59d4b 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -60,11 +60,12 @@ var (
 
 type reader struct {
 	*bufio.Reader
+	r      io.Reader
 	strict bool
 }
 
 func newReader(r io.Reader, strict bool) *reader {
-	return &reader{Reader: bufio.NewReader(r), strict: strict}
+	return &reader{Reader: bufio.NewReader(r), r: r, strict: strict}
 }
 
 func (x *reader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
@@ -235,6 +236,16 @@ func (x *reader) SkipUUID() error {
 	return err
 }
 
+func (x *reader) Reset(r io.Reader) {
+	if x.r == io.Reader(x.Reader) {
+		// The caller passed its own bufio.Reader, leave it alone.
+		x.Reader = bufio.NewReader(r)
+	} else {
+		x.Reader.Reset(r)
+	}
+	x.r = r
+}
+
 func (x *reader) readMessageType() (thriftwire.MessageType, error) {
 	v, err := x.ReadByte()
 	return thriftwire.MessageType(v), err
@@ -400,7 +411,12 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(w io.Writer) {
-	x.Writer.Reset(w)
+	if x.w == io.Writer(x.Writer) {
+		// The caller passed its own bufio.Writer, leave it alone.
+		x.Writer = bufio.NewWriter(w)
+	} else {
+		x.Writer.Reset(w)
+	}
 	x.w = w
 }
 
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index dbc4afc..ded0d17 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -287,7 +287,6 @@ func (x *reader) readSize() (int, error) {
 }
 
 func (x *reader) Reset(r io.Reader) {
-	x.Reader.Reset(r)
 	*x = reader{
 		Reader:       bufio.NewReader(r),
 		lastFieldIDs: x.lastFieldIDs[:0],
@@ -535,7 +534,12 @@ func (x *writer) Flush() error {
 }
 
 func (x *writer) Reset(uw io.Writer) {
-	x.Writer.Reset(uw)
+	if x.uw == io.Writer(x.Writer) {
+		// The caller passed its own bufio.Writer, leave it alone.
+		x.Writer = bufio.NewWriter(uw)
+	} else {
+		x.Writer.Reset(uw)
+	}
 	*x = writer{
 		Writer:       x.Writer,
 		uw:           uw,
-- 
2.43.0


From 3c4b280f8eed2861819b4767a385214b74d74845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 06/13] fix: reject structs with duplicate field IDs

Both fields were written, and only one of them was read back.
---
 thrift/fields.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/thrift/fields.go b/thrift/fields.go
index e67ecec..e6827ba 100644
--- a/thrift/fields.go
+++ b/thrift/fields.go
@@ -33,6 +33,7 @@ type structField struct {
 
 func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 	var allFields []structField
+	nameByID := make(map[int16]string)
 
 	var hasAnyThriftTag bool   // whether any Go struct field has a `thrift` tag
 	var hasAnyThriftField bool // whether any Thrift serializable fields exist in current struct
@@ -73,6 +74,12 @@ func makeStructFields(t reflect.Type) (structFields, *SemanticError) {
 			f.isZero = func(va addressableValue) bool { return va.Addr().Interface().(isZeroer).IsZero() }
 		}
 
+		if prev, ok := nameByID[f.id]; ok {
+			err := fmt.Errorf("Go struct fields %s and %s have the same field ID %d", prev, sf.Name, f.id)
+			return structFields{}, &SemanticError{GoType: t, Err: err}
+		}
+		nameByID[f.id] = sf.Name
+
 		f.fncs = lookupArshaler(sf.Type)
 		allFields = append(allFields, f)
 	}
-- 
2.43.0


From b0f5cb7f2ebeb8216eeea096f2fc75ac489e811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 07/13] fix: report failures to skip unknown fields as semantic
 errors

All other failures of the reader are reported as SemanticError.
---
 thrift/arshal_default.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index dc6854b..efee71b 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -345,7 +345,8 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			f, ok := fields.byID[h.ID]
 			if !ok {
 				if err := thriftwire.Skip(r, h.Type); err != nil {
-					return err
+					err := &wireError{action: "Skip", err: err}
+					return &SemanticError{action: "unmarshal", ThriftType: h.Type, GoType: t, Err: err}
 				}
 			} else {
 				v := addressableValue{va.Field(f.index[0])} // addressable if struct value is addressable
-- 
2.43.0


From 2bd0b737c13288563661487fe603f146c8a751b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 08/13] fix: support self-referential slice, map and pointer
 types

Looking up the functions of such a type recursed until the stack
overflowed.
---
 thrift/arshal_default.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index efee71b..b383581 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -398,10 +398,18 @@ func (va addressableValue) indirect(mayAlloc bool) addressableValue {
 
 func makeMapArshaler(t reflect.Type) *arshaler {
 	var fncs arshaler
-	keyFncs := lookupArshaler(t.Key())
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		keyFncs *arshaler
+		valFncs *arshaler
+	)
+	init := func() { // lazy, t may refer to itself
+		keyFncs = lookupArshaler(t.Key())
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = thriftwire.Map
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
@@ -440,6 +448,7 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		once.Do(init)
 		h, err := r.ReadMapBegin()
 		if err != nil {
 			err := &wireError{action: "ReadMapBegin", err: err}
@@ -491,9 +500,16 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 	readEnd func(thriftwire.Reader) error,
 ) *arshaler {
 	var fncs arshaler
-	valFncs := lookupArshaler(t.Elem())
+	var (
+		once    sync.Once
+		valFncs *arshaler
+	)
+	init := func() { // lazy, t may refer to itself
+		valFncs = lookupArshaler(t.Elem())
+	}
 	fncs.wireType = wireType
 	fncs.marshal = func(w thriftwire.Writer, va addressableValue, mo marshalOptions) error {
+		once.Do(init)
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
@@ -523,6 +539,7 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		once.Do(init)
 		h, err := readBegin(r)
 		if err != nil {
 			err := &wireError{action: readBeginAction, err: err}
@@ -596,6 +613,14 @@ func makeListArshaler(t reflect.Type) *arshaler {
 }
 
 func makePointerArshaler(t reflect.Type) *arshaler {
+	// A type such as "type P *P" never ends in a value.
+	seen := make(map[reflect.Type]bool)
+	for e := t; e.Kind() == reflect.Pointer; e = e.Elem() {
+		if seen[e] {
+			return makeInvalidArshaler(t)
+		}
+		seen[e] = true
+	}
 	var fncs arshaler
 	valFncs := lookupArshaler(t.Elem())
 	fncs.wireType = valFncs.wireType
-- 
2.43.0


From 05b1bf38879ff8ca9a3d941a19684639ffd2353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 09/13] fix: limit the nesting depth of values

Deeply nested data in Skip and Unmarshal, and cyclic or endless values in
Marshal, overflowed the stack, which cannot be recovered from.
---
 encoding/thriftwire/skip.go | 24 +++++++++++++++++++-----
 thrift/arshal.go            | 14 ++++++++++++--
 thrift/arshal_default.go    | 18 ++++++++++++++++++
 3 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/encoding/thriftwire/skip.go b/encoding/thriftwire/skip.go
index 17a2639..fbb0201 100644
--- a/encoding/thriftwire/skip.go
+++ b/encoding/thriftwire/skip.go
@@ -1,7 +1,21 @@
 package thriftwire
 
+import "errors"
+
+// maxSkipDepth is the maximum nesting depth of values that can be skipped.
+const maxSkipDepth = 10000
+
+var errSkipDepth = errors.New("thriftwire: exceeded max nesting depth")
+
 // Skip skips over the next value.
 func Skip(r Reader, t Type) (err error) {
+	return skip(r, t, 0)
+}
+
+func skip(r Reader, t Type, depth int) (err error) {
+	if depth > maxSkipDepth {
+		return errSkipDepth
+	}
 	switch t {
 	default:
 		return InvalidTypeError(t)
@@ -31,7 +45,7 @@ func Skip(r Reader, t Type) (err error) {
 			if h.Type == Stop {
 				break
 			}
-			if err := Skip(r, h.Type); err != nil {
+			if err := skip(r, h.Type, depth+1); err != nil {
 				return err
 			}
 			if err := r.ReadFieldEnd(); err != nil {
@@ -45,10 +59,10 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Key); err != nil {
+			if err := skip(r, h.Key, depth+1); err != nil {
 				return err
 			}
-			if err := Skip(r, h.Value); err != nil {
+			if err := skip(r, h.Value, depth+1); err != nil {
 				return err
 			}
 		}
@@ -59,7 +73,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth+1); err != nil {
 				return err
 			}
 		}
@@ -70,7 +84,7 @@ func Skip(r Reader, t Type) (err error) {
 			return err
 		}
 		for i := 0; i < h.Size; i++ {
-			if err := Skip(r, h.Element); err != nil {
+			if err := skip(r, h.Element, depth+1); err != nil {
 				return err
 			}
 		}
diff --git a/thrift/arshal.go b/thrift/arshal.go
index 42e7700..080540a 100644
--- a/thrift/arshal.go
+++ b/thrift/arshal.go
@@ -8,7 +8,15 @@ import (
 	"github.com/itstarsun/go-thrift/encoding/thriftwire"
 )
 
-type marshalOptions struct{}
+// maxDepth is the maximum nesting depth of values.
+// It bounds the stack needed for cyclic Go values and hostile Thrift data.
+const maxDepth = 10000
+
+var errMaxDepth = errors.New("exceeded max nesting depth")
+
+type marshalOptions struct {
+	depth int // number of enclosing structs, maps, sets and lists
+}
 
 // Marshal serializes a Go value into a [thriftwire.Writer].
 func Marshal(out thriftwire.Writer, in any) error {
@@ -37,7 +45,9 @@ func (mo marshalOptions) Marshal(out thriftwire.Writer, in any) error {
 	return fncs.marshal(out, va, mo)
 }
 
-type unmarshalOptions struct{}
+type unmarshalOptions struct {
+	depth int // number of enclosing structs, maps, sets and lists
+}
 
 // Unmarshal deserializes a Go value from a [thriftwire.Reader].
 func Unmarshal(in thriftwire.Reader, out any) error {
diff --git a/thrift/arshal_default.go b/thrift/arshal_default.go
index b383581..9ff8fb6 100644
--- a/thrift/arshal_default.go
+++ b/thrift/arshal_default.go
@@ -273,6 +273,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 			err.action = "marshal"
 			return &err
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Struct, GoType: t, Err: errMaxDepth}
+		}
 		err := w.WriteStructBegin(thriftwire.StructHeader{
 			Name: t.Name(),
 		})
@@ -328,6 +331,9 @@ func makeStructArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Struct {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
+		}
 		_, err := r.ReadStructBegin()
 		if err != nil {
 			err := &wireError{action: "ReadStructBegin", err: err}
@@ -413,6 +419,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if keyFncs.wireType == thriftwire.Stop || valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: thriftwire.Map, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := w.WriteMapBegin(thriftwire.MapHeader{
 			Key:   keyFncs.wireType,
@@ -448,6 +457,9 @@ func makeMapArshaler(t reflect.Type) *arshaler {
 		if wt != thriftwire.Map {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
+		}
 		once.Do(init)
 		h, err := r.ReadMapBegin()
 		if err != nil {
@@ -513,6 +525,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if valFncs.wireType == thriftwire.Stop {
 			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t}
 		}
+		if mo.depth++; mo.depth > maxDepth {
+			return &SemanticError{action: "marshal", ThriftType: wireType, GoType: t, Err: errMaxDepth}
+		}
 		n := va.Len()
 		err := writeBegin(w, H{
 			Element: valFncs.wireType,
@@ -539,6 +554,9 @@ func makeSetListArshaler[H thriftwire.SetHeader | thriftwire.ListHeader](
 		if wt != wireType {
 			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t}
 		}
+		if uo.depth++; uo.depth > maxDepth {
+			return &SemanticError{action: "unmarshal", ThriftType: wt, GoType: t, Err: errMaxDepth}
+		}
 		once.Do(init)
 		h, err := readBegin(r)
 		if err != nil {
-- 
2.43.0


From 850f73d8ca1efaf3cc64d289ea47a58b5ec12b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 10/13] fix: limit the nesting depth of types and values in the
 parser

Deeply nested input overflowed the stack, which cannot be recovered from.
---
 tools/thriftfile/parser.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/tools/thriftfile/parser.go b/tools/thriftfile/parser.go
index 47ad980..7c778ec 100644
--- a/tools/thriftfile/parser.go
+++ b/tools/thriftfile/parser.go
@@ -75,9 +75,13 @@ func (p errors_) Error() string {
 	return fmt.Sprintf("%s (and %d more errors)", p[0], len(p)-1)
 }
 
+// maxDepth is the maximum nesting depth of types and values.
+const maxDepth = 10000
+
 type parser struct {
 	scanner
-	errs errors_
+	errs  errors_
+	depth int // number of enclosing types and values
 }
 
 func (p *parser) init(fset *gotoken.FileSet, filename string, src []byte) {
@@ -229,6 +233,7 @@ type badDef struct{}
 
 func (p *parser) def() (d Def) {
 	pos := p.pos
+	p.depth = 0
 	defer func() {
 		if r := recover(); r != nil {
 			if _, ok := r.(badDef); !ok {
@@ -400,7 +405,17 @@ func (p *parser) methods() *MethodList {
 	return &x
 }
 
+// nest enters a type or value. The caller must decrement p.depth.
+func (p *parser) nest() {
+	if p.depth++; p.depth > maxDepth {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(badDef{})
+	}
+}
+
 func (p *parser) type_() Type {
+	p.nest()
+	defer func() { p.depth-- }()
 	switch p.tok {
 	case _MAP:
 		return p.map_()
@@ -456,6 +471,8 @@ func (p *parser) list_() *List {
 }
 
 func (p *parser) value() Value {
+	p.nest()
+	defer func() { p.depth-- }()
 	switch p.tok {
 	case _IDENT:
 		return p.ident()
-- 
2.43.0


From aa563b3e9b993911fc787b27d3ea597f1a81712f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 11/13] fix: copy byte strings in and out of the in-memory
 recorder

WriteBytes kept the slice of the caller, and ReadBytes returned it instead
of extending the given buffer.
---
 internal/thriftmemo/memogen.go | 5 +++++
 internal/thriftmemo/zmemo.go   | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/thriftmemo/memogen.go b/internal/thriftmemo/memogen.go
index 0c27b2f..50aad1c 100644
--- a/internal/thriftmemo/memogen.go
+++ b/internal/thriftmemo/memogen.go
@@ -99,6 +99,9 @@ func (g *generator) generateReader() {
 			g.generateAdvance(m)
 			if step == "UUID" {
 				g.printf("m.memo().read(%q, i0)\n", step)
+			} else if step == "Bytes" {
+				g.printf("m.memo().read(%q, &o0)\n", step)
+				g.printf("o0 = append(i0, o0...)\n")
 			} else {
 				g.printf("m.memo().read(%q", step)
 				for i := 0; i < m.Type.NumOut()-1; i++ {
@@ -140,6 +143,8 @@ func (g *generator) generateWriter() {
 				g.printf("m.memo().write(%q)\n", step)
 			} else if step == "UUID" {
 				g.printf("m.memo().write(%q, *i0)\n", step)
+			} else if step == "Bytes" {
+				g.printf("m.memo().write(%q, append([]byte(nil), i0...))\n", step)
 			} else {
 				g.printf("m.memo().write(%q", step)
 				for i, j := 0, m.Type.NumIn(); i < j; i++ {
diff --git a/internal/thriftmemo/zmemo.go b/internal/thriftmemo/zmemo.go
index d044ed3..08f06b9 100644
--- a/internal/thriftmemo/zmemo.go
+++ b/internal/thriftmemo/zmemo.go
@@ -29,6 +29,7 @@ func (m *memoReader) ReadBytes(i0 []byte) (o0 []byte, o1 error) {
 		return
 	}
 	m.memo().read("Bytes", &o0)
+	o0 = append(i0, o0...)
 	return
 }
 
@@ -226,7 +227,7 @@ func (m *memoWriter) WriteBytes(i0 []byte) (o0 error) {
 	if o0 = m.advance(); o0 != nil {
 		return
 	}
-	m.memo().write("Bytes", i0)
+	m.memo().write("Bytes", append([]byte(nil), i0...))
 	return
 }
 
-- 
2.43.0


From c15eb912f6f5ff12cd61eeb1303f5f7a87083f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:00 +0000
Subject: [PATCH 12/13] fix: reject sizes that are negative or too large

---
 encoding/thriftbinary/thriftbinary.go   | 12 +++++++++---
 encoding/thriftcompact/thriftcompact.go | 17 +++++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 1c59d4b..76b757d 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -69,7 +69,7 @@ func newReader(r io.Reader, strict bool) *reader {
 }
 
 func (x *reader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
-	n, err := x.readSize()
+	n, err := x.ReadI32()
 	if err != nil {
 		return h, err
 	}
@@ -88,7 +88,7 @@ func (x *reader) ReadMessageBegin() (h thriftwire.MessageHeader, err error) {
 	} else if x.strict {
 		return h, fmt.Errorf("thriftbinary: missing version")
 	}
-	h.Name, err = thriftwire.ReadString(x.Reader, n)
+	h.Name, err = thriftwire.ReadString(x.Reader, int(n))
 	if err != nil {
 		return h, err
 	}
@@ -258,7 +258,13 @@ func (x *reader) readType() (thriftwire.Type, error) {
 
 func (x *reader) readSize() (int, error) {
 	v, err := x.ReadI32()
-	return int(v), err
+	if err != nil {
+		return 0, err
+	}
+	if v < 0 {
+		return 0, fmt.Errorf("thriftbinary: negative size %d", v)
+	}
+	return int(v), nil
 }
 
 type writer struct {
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index ded0d17..636014e 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -136,7 +136,17 @@ func (x *reader) ReadFieldEnd() error {
 
 func readSize(b *bufio.Reader) (int, error) {
 	v, err := binary.ReadUvarint(b)
-	return int(v), err
+	if err != nil {
+		return 0, err
+	}
+	return checkSize(v)
+}
+
+func checkSize(v uint64) (int, error) {
+	if v > math.MaxInt32 {
+		return 0, fmt.Errorf("thriftcompact: size %d out of range", v)
+	}
+	return int(v), nil
 }
 
 // ReadMapHeader reads a map header from b.
@@ -283,7 +293,10 @@ func (x *reader) readUvarint() (uint64, error) {
 
 func (x *reader) readSize() (int, error) {
 	v, err := x.readUvarint()
-	return int(v), err
+	if err != nil {
+		return 0, err
+	}
+	return checkSize(v)
 }
 
 func (x *reader) Reset(r io.Reader) {
-- 
2.43.0


From 8bdf2c6bc1b72d4ba2d2fc93bbbe186b276251db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:51 +0000
Subject: [PATCH 13/13] fix: refuse to write sizes and message types that do
 not fit

The writers wrote the low 32 bits of a size (binary) or a size no reader
accepts (compact), and compact message types of more than three bits
changed the envelope.
---
 encoding/thriftbinary/thriftbinary.go   |  3 +++
 encoding/thriftcompact/thriftcompact.go | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/encoding/thriftbinary/thriftbinary.go b/encoding/thriftbinary/thriftbinary.go
index 76b757d..0175060 100644
--- a/encoding/thriftbinary/thriftbinary.go
+++ b/encoding/thriftbinary/thriftbinary.go
@@ -435,5 +435,8 @@ func (x *writer) writeType(t thriftwire.Type) error {
 }
 
 func (x *writer) writeSize(v int) error {
+	if v < 0 || v > math.MaxInt32 {
+		return fmt.Errorf("thriftbinary: size %d out of range", v)
+	}
 	return x.WriteI32(int32(v))
 }
diff --git a/encoding/thriftcompact/thriftcompact.go b/encoding/thriftcompact/thriftcompact.go
index 636014e..9be525b 100644
--- a/encoding/thriftcompact/thriftcompact.go
+++ b/encoding/thriftcompact/thriftcompact.go
@@ -316,6 +316,9 @@ type writer struct {
 }
 
 func (x *writer) WriteMessageBegin(h thriftwire.MessageHeader) (err error) {
+	if h.Type > 7 { // three bits
+		return thriftwire.InvalidMessageTypeError(h.Type)
+	}
 	err = x.WriteByte(protocolID)
 	if err != nil {
 		return err
@@ -415,6 +418,9 @@ func AppendMapHeader(buf []byte, h thriftwire.MapHeader) ([]byte, error) {
 	if h.Size <= 0 {
 		return append(buf, 0), nil
 	}
+	if err := checkWriteSize(h.Size); err != nil {
+		return buf, err
+	}
 	k, err := typeCompact(h.Key)
 	if err != nil {
 		return buf, err
@@ -441,6 +447,9 @@ const MaxSetHeaderSize = 1 + binary.MaxVarintLen64
 
 // AppendSetHeader appends h to buf and returns the extended buffer.
 func AppendSetHeader(buf []byte, h thriftwire.SetHeader) ([]byte, error) {
+	if err := checkWriteSize(h.Size); err != nil {
+		return buf, err
+	}
 	var e compactType
 	if h.Element != thriftwire.Stop || h.Size > 0 {
 		var err error
@@ -588,9 +597,19 @@ func (x *writer) writeUvarint(v uint64) error {
 }
 
 func (x *writer) writeSize(v int) error {
+	if err := checkWriteSize(v); err != nil {
+		return err
+	}
 	return x.writeUvarint(uint64(v))
 }
 
+func checkWriteSize(v int) error {
+	if v < 0 || v > math.MaxInt32 {
+		return fmt.Errorf("thriftcompact: size %d out of range", v)
+	}
+	return nil
+}
+
 func appendI16(buf []byte, v int16) []byte {
 	return binary.AppendVarint(buf, int64(v))
 }
-- 
2.43.0

