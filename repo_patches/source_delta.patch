From 98da2afc72a6feb6b78f34d1c422d68575c265dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 01/19] fix: clear an optional value when decoding finds it
 absent

Decoding into a value that already held an optional entry left the old
entry in place when the input said there is none.
---
 out.go         |  2 ++
 rfc1057/xdr.go |  2 ++
 rfc1813/xdr.go | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/out.go b/out.go
index 5931268..dd77335 100644
--- a/out.go
+++ b/out.go
@@ -157,6 +157,8 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("} else if xs.Error() == nil {\n")
+	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 	return res
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3ed725a..0fc84ef 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -116,6 +116,8 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&v.P) = nil
 		}
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 9e7a294..7789ff1 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -950,6 +950,8 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -967,6 +969,8 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1014,6 +1018,8 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -1031,6 +1037,8 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1298,6 +1306,8 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Ml_next)) = nil
 		}
 	}
 }
@@ -1315,6 +1325,8 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Mount3)
 			(*Mount3)(*(&v.P)).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&v.P) = nil
 		}
 	}
 }
@@ -1333,6 +1345,8 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Gr_next)) = nil
 		}
 	}
 }
@@ -1351,6 +1365,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Ex_groups)) = nil
 		}
 	}
 	if xs.Encoding() {
@@ -1366,6 +1382,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&((v).Ex_next)) = nil
 		}
 	}
 }
@@ -1383,6 +1401,8 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Exports3)
 			(*Exports3)(*(&v.P)).Xdr(xs)
+		} else if xs.Error() == nil {
+			*(&v.P) = nil
 		}
 	}
 }
-- 
2.43.0


From 15d241b3c0442c0c78c60349d03b13d7489ec645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:06 +0000
Subject: [PATCH 02/19] fix: grow decoded arrays as their elements arrive

Decoding a variable-length array allocated as many elements as the
length word claims (up to 2^32) before reading any of them, so a few
bytes of input could take all memory.
---
 out.go         | 5 +++--
 rfc1057/xdr.go | 7 +++++--
 rfc1813/xdr.go | 7 +++++--
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/out.go b/out.go
index dd77335..2c91653 100644
--- a/out.go
+++ b/out.go
@@ -78,8 +78,9 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	if t.sz != "" {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
-	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz); i++ {\n")
+	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
+	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {\n")
+	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 0fc84ef..92b05c2 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -87,9 +87,12 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-				*&((v).Gids) = make([]uint32, __arraysz)
+				*&((v).Gids) = make([]uint32, 0)
 			}
-			for i := uint64(0); i < uint64(__arraysz); i++ {
+			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+				if xs.Decoding() {
+					*&((v).Gids) = append(*&((v).Gids), *new(uint32))
+				}
 				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[i])))
 
 			}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 7789ff1..6b82483 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1274,9 +1274,12 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
 		if xs.Decoding() {
-			*&((v).Auth_flavors) = make([]uint32, __arraysz)
+			*&((v).Auth_flavors) = make([]uint32, 0)
 		}
-		for i := uint64(0); i < uint64(__arraysz); i++ {
+		for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+			if xs.Decoding() {
+				*&((v).Auth_flavors) = append(*&((v).Auth_flavors), *new(uint32))
+			}
 			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[i])))
 
 		}
-- 
2.43.0


From 038ce11fb38b87d8d44e084a9c075adb07cfd990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:52 +0000
Subject: [PATCH 03/19] fix: index fixed arrays through their pointer

The code emitted for a fixed-length array of anything but opaque,
&(*(v)[i]), indexes before dereferencing and does not compile.
---
 out.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/out.go b/out.go
index 2c91653..a957d53 100644
--- a/out.go
+++ b/out.go
@@ -55,7 +55,7 @@ func (t declTypeArray) goType() string {
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
 	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&(*(%s)[i])", valPtr)))
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
-- 
2.43.0


From a76f1bdd1c12b18a8f0f5a910b06dbcbd10ebf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 04/19] fix: give nested array loops their own index

In arrays of anonymous structs or unions that hold arrays, the inner
loop's i hid the outer loop's, which the inner element's address uses, so
the wrong elements were encoded and decoded.
---
 out.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/out.go b/out.go
index a957d53..5d7d73b 100644
--- a/out.go
+++ b/out.go
@@ -43,6 +43,16 @@ func (t declTypeTypespec) goXdr(valPtr string) string {
 	return t.t.goXdr(valPtr)
 }
 
+// loopVar names the index of a loop over the elements of valPtr, apart from
+// those of the loops around it, which valPtr refers to.
+func loopVar(valPtr string) string {
+	n := strings.Count(valPtr, ")[i")
+	if n == 0 {
+		return "i"
+	}
+	return fmt.Sprintf("i%d", n)
+}
+
 type declTypeArray struct {
 	t  typespec
 	sz string
@@ -54,8 +64,9 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := 0; %s < %s; %s++ {\n", idx, idx, t.sz, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
@@ -79,9 +90,10 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {\n")
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\n", idx, idx, idx)
 	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
-- 
2.43.0


From 8f988ca17a27a32eda4894a75a6e4c5834570f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:09 +0000
Subject: [PATCH 05/19] fix: compare array sizes in one type

With -const-type, a named array size is a typed constant, which the
emitted loop over a fixed array (int) and, for a type other than uint32,
the limit check of a variable array (uint32) did not compile with.
---
 out.go         | 4 ++--
 rfc1057/xdr.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index 5d7d73b..17291fe 100644
--- a/out.go
+++ b/out.go
@@ -65,7 +65,7 @@ func (t declTypeArray) goType() string {
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
 	idx := loopVar(valPtr)
-	res += fmt.Sprintf("for %s := 0; %s < %s; %s++ {\n", idx, idx, t.sz, idx)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(%s); %s++ {\n", idx, idx, t.sz, idx)
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
@@ -87,7 +87,7 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
 	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
 	if t.sz != "" {
-		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
+		res += fmt.Sprintf("if uint64(__arraysz) > uint64(%s) { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
 	idx := loopVar(valPtr)
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 92b05c2..142f865 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -83,7 +83,7 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 		xs.EncodingSetSize(&__arraysz, len(*&((v).Gids)))
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
-		if __arraysz > 16 {
+		if uint64(__arraysz) > uint64(16) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-- 
2.43.0


From 582dda4bef882ba07786165c9af1cc5976259940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:10 +0000
Subject: [PATCH 06/19] fix: ignore the semicolons Go's scanner inserts at line
 ends

A line break after an identifier, a number or a closing bracket was
taken for a semicolon, so specifications that break a line there (or put
a comment there) were rejected or missed a required semicolon.
---
 scan.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scan.go b/scan.go
index 23ab8ca..f725680 100644
--- a/scan.go
+++ b/scan.go
@@ -16,6 +16,10 @@ const eof = 0
 
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
+	for tok == token.SEMICOLON && lit == "\n" {
+		// inserted by the Go scanner at the end of a line
+		pos, tok, lit = l.s.Scan()
+	}
 	if tok == token.EOF {
 		return eof
 	}
-- 
2.43.0


From fc88bb128850dd563920140b45d782df60d7f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:43 +0000
Subject: [PATCH 07/19] fix: format both outputs before writing either

With -t, types that could not be formatted were noticed only after the
other output file had been replaced.
---
 main.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 8ad23cf..dd70b9d 100644
--- a/main.go
+++ b/main.go
@@ -76,15 +76,17 @@ func main() {
 
 	xdrParse(&l)
 	outf.Close()
-	refmt(outTmp, *outputFile)
+	buf := refmt(outTmp)
 
 	if *typesFile != "" {
 		toutf.Close()
-		refmt(toutTmp, *typesFile)
+		writeOut(*typesFile, refmt(toutTmp))
 	}
+
+	writeOut(*outputFile, buf)
 }
 
-func refmt(infile string, outfile string) {
+func refmt(infile string) []byte {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
 		panic(err)
@@ -95,7 +97,11 @@ func refmt(infile string, outfile string) {
 		panic(err)
 	}
 
-	err = ioutil.WriteFile(outfile, buf, 0666)
+	return buf
+}
+
+func writeOut(outfile string, buf []byte) {
+	err := ioutil.WriteFile(outfile, buf, 0666)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From f35b0da722a3cf7c8e89a4037284b57185a5f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:44 +0000
Subject: [PATCH 08/19] fix: stop when the temporary output cannot be written

Write errors (a full disk, say) were ignored, and whatever text had made
it to the temporary file replaced the output if it could be formatted.
---
 main.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index dd70b9d..1d5b030 100644
--- a/main.go
+++ b/main.go
@@ -21,6 +21,20 @@ var constTypeFlag = flag.String("const-type", "", "Optional type for const defin
 var out io.Writer
 var tout io.Writer
 
+// mustWriter stops the run when a write fails, so that no output is made from
+// part of the text.
+type mustWriter struct {
+	w io.Writer
+}
+
+func (m mustWriter) Write(p []byte) (int, error) {
+	n, err := m.w.Write(p)
+	if err != nil {
+		panic(err)
+	}
+	return n, nil
+}
+
 func main() {
 	flag.Parse()
 
@@ -52,7 +66,7 @@ func main() {
 	}
 
 	defer os.Remove(outTmp)
-	out = outf
+	out = mustWriter{outf}
 
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
@@ -67,11 +81,11 @@ func main() {
 		}
 
 		defer os.Remove(toutTmp)
-		tout = toutf
+		tout = mustWriter{toutf}
 
 		fmt.Fprintf(tout, "package %s\n", *outputPackage)
 	} else {
-		tout = outf
+		tout = out
 	}
 
 	xdrParse(&l)
-- 
2.43.0


From bfd469c84e9fead3ad07300d65ba3a2b1cb2eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 09/19] fix: send no result with a GARBAGE_ARGS reply

When a procedure returned both a result and an error, the result was
appended to the GARBAGE_ARGS reply, whose body is void.
---
 rfc1057/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index cbb5ee9..789c9e1 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -148,6 +148,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 
 		resdata, err = h(rd)
 		if err != nil {
+			resdata = nil
 			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
 			goto reply
 		}
-- 
2.43.0


From 9c6af50922c4634cd0bc56741ead840c8c71b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 10/19] fix: report the supported versions in mismatch replies

RPC_MISMATCH and PROG_MISMATCH replies always carried the range 0-0
instead of RPC version 2 and the registered versions of the program.
---
 rfc1057/server.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index 789c9e1..72bcfc1 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -60,6 +60,21 @@ func (s *Server) Register(prog, vers, proc uint32, handler ProcHandler) {
 	s.handlers[prog][vers][proc] = handler
 }
 
+// versionRange returns the lowest and the highest registered version.
+func versionRange(vermap map[uint32]map[uint32]ProcHandler) (low, high uint32) {
+	first := true
+	for v := range vermap {
+		if first || v < low {
+			low = v
+		}
+		if first || v > high {
+			high = v
+		}
+		first = false
+	}
+	return
+}
+
 func (s *Server) RegisterMany(regs []xdr.ProcRegistration) {
 	for _, r := range regs {
 		s.Register(r.Prog, r.Vers, r.Proc, r.Handler)
@@ -126,6 +141,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 	if req.Body.Cbody.Rpcvers != 2 {
 		res.Body.Rbody.Stat = MSG_DENIED
 		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH
+		res.Body.Rbody.Rreply.Mismatch_info.Low = 2
+		res.Body.Rbody.Rreply.Mismatch_info.High = 2
 	} else {
 		res.Body.Rbody.Stat = MSG_ACCEPTED
 		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
@@ -137,6 +154,9 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		procmap, verok := vermap[req.Body.Cbody.Vers]
 		if !verok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
+			low, high := versionRange(vermap)
+			res.Body.Rbody.Areply.Reply_data.Mismatch_info.Low = low
+			res.Body.Rbody.Areply.Reply_data.Mismatch_info.High = high
 			goto reply
 		}
 
-- 
2.43.0


From 55ecc41053dbf5076a9eb257e3e57c60653257f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:31 +0000
Subject: [PATCH 11/19] fix: refuse messages that do not fit one record
 fragment

The length of a message of 2 GB or more spilled into the last-fragment
bit of its record header.
---
 rfc1057/client.go | 4 ++++
 rfc1057/server.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index ce797f3..7a19422 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -51,6 +51,10 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf) > maxRecord {
+		return fmt.Errorf("request too large: %d bytes", len(wbuf))
+	}
+
 	var hdr [4]byte
 	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
 	_, err = c.rw.Write(append(hdr[:], wbuf...))
diff --git a/rfc1057/server.go b/rfc1057/server.go
index 72bcfc1..7a4246f 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -29,6 +29,9 @@ func putReqBuf(s []byte) {
 	reqBufPool.Put(s)
 }
 
+// maxRecord is the largest fragment length that a record header can hold.
+const maxRecord = 1<<31 - 1
+
 type ProcHandler func(args *xdr.XdrState) (res xdr.Xdrable, err error)
 
 type Server struct {
@@ -196,6 +199,9 @@ reply:
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf)-4 > maxRecord {
+		return fmt.Errorf("reply too large: %d bytes", len(wbuf)-4)
+	}
 	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
 
 	_, err = sc.rw.Write(wbuf)
-- 
2.43.0


From f3ef3cf6bc4771954d5b69f0dc30446c7cf4cf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:57 +0000
Subject: [PATCH 12/19] fix: give primitive procedure arguments and results an
 Xdrable type

---
 out.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/out.go b/out.go
index 17291fe..d73844f 100644
--- a/out.go
+++ b/out.go
@@ -187,6 +187,16 @@ type typespecOpt struct {
 	t      typespec
 }
 
+// wireType names the Xdrable type that a procedure's argument or result has on
+// the wire, and whether it is the type the handler uses.
+func (t typespecOpt) wireType() (name string, same bool) {
+	switch t.t.(type) {
+	case typeInt, typeHyper, typeBool:
+		return "xdr." + i(t.t.goType()), false
+	}
+	return t.t.goType(), true
+}
+
 func (t typespecOpt) maybeGoType() string {
 	if t.isVoid {
 		return ""
@@ -415,26 +425,33 @@ func emitProg(d progDef) {
 			fmt.Fprintf(out, "func (w *%s_%s_handler_wrapper) %s(args *xdr.XdrState) (res xdr.Xdrable, err error) {\n",
 				i(d.name), i(v.name), i(c.name))
 			if !c.arg.isVoid {
-				fmt.Fprintf(out, "var in %s\n", c.arg.t.goType())
+				in, _ := c.arg.wireType()
+				fmt.Fprintf(out, "var in %s\n", in)
 				fmt.Fprintf(out, "in.Xdr(args)\n")
 				fmt.Fprintf(out, "err = args.Error()\n")
 				fmt.Fprintf(out, "if err != nil { return }\n")
 			}
 
-			if !c.res.isVoid {
-				fmt.Fprintf(out, "var out %s\n", c.res.t.goType())
-			} else {
-				fmt.Fprintf(out, "var out xdr.Void\n")
+			in := ""
+			if !c.arg.isVoid {
+				in = "in"
+				if _, same := c.arg.wireType(); !same {
+					in = fmt.Sprintf("%s(in)", c.arg.t.goType())
+				}
 			}
 
-			if !c.res.isVoid {
-				fmt.Fprintf(out, "out = ")
-			}
-			fmt.Fprintf(out, "w.h.%s(", i(c.name))
-			if !c.arg.isVoid {
-				fmt.Fprintf(out, "in")
+			call := fmt.Sprintf("w.h.%s(%s)", i(c.name), in)
+			if c.res.isVoid {
+				fmt.Fprintf(out, "var out xdr.Void\n")
+				fmt.Fprintf(out, "%s\n", call)
+			} else {
+				res, same := c.res.wireType()
+				if !same {
+					call = fmt.Sprintf("%s(%s)", res, call)
+				}
+				fmt.Fprintf(out, "var out %s\n", res)
+				fmt.Fprintf(out, "out = %s\n", call)
 			}
-			fmt.Fprintf(out, ")\n")
 
 			fmt.Fprintf(out, "return &out, nil")
 			fmt.Fprintf(out, "}\n")
-- 
2.43.0


From 9548b6e6b35b4bf819604ecea92e7e9510e6f86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:58 +0000
Subject: [PATCH 13/19] fix: use one spelling for constants and enumerators
 that start in lower case

---
 out.go | 4 ++--
 xdr.y  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index d73844f..fc459aa 100644
--- a/out.go
+++ b/out.go
@@ -338,7 +338,7 @@ func (t typeUnion) goXdr(valPtr string) string {
 	res += fmt.Sprintf("switch %s {\n", switchName)
 	for _, c := range t.cases.cases {
 		for idx, cval := range c.cases {
-			res += fmt.Sprintf("case %s:\n", i(cval))
+			res += fmt.Sprintf("case %s:\n", cval)
 			if idx != len(c.cases)-1 {
 				res += "fallthrough\n"
 			}
@@ -474,7 +474,7 @@ func emitProg(d progDef) {
 }
 
 func emitConst(ident string, val string) {
-	fmt.Fprintf(tout, "const %s %s = %s\n", ident, *constTypeFlag, val)
+	fmt.Fprintf(tout, "const %s %s = %s\n", i(ident), *constTypeFlag, val)
 }
 
 func emitTypedef(val decl) {
diff --git a/xdr.y b/xdr.y
index 3afbbbf..860b250 100644
--- a/xdr.y
+++ b/xdr.y
@@ -105,7 +105,7 @@ varlen: '<' '>'
 val: CONST
   { $$ = $1 }
 | IDENT
-  { $$ = $1 }
+  { $$ = i($1) }
 
 typespec: maybeunsig KWINT
   { $$ = typeInt{$1} }
-- 
2.43.0


From f346cf8fb679883097f6eb7b92f8455124c262a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:59 +0000
Subject: [PATCH 14/19] fix: emit the number of a procedure in several versions
 once

---
 out.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index fc459aa..229fa22 100644
--- a/out.go
+++ b/out.go
@@ -402,13 +402,26 @@ type progDef struct {
 	id   string
 }
 
+// progConsts has the program, version and procedure numbers emitted so far.
+var progConsts = map[string]string{}
+
+// emitProgConst emits a number once, although several versions of a program
+// may use the same name for it.
+func emitProgConst(ident string, val string) {
+	if old, ok := progConsts[ident]; ok && old == val {
+		return
+	}
+	progConsts[ident] = val
+	fmt.Fprintf(tout, "const %s uint32 = %s\n", ident, val)
+}
+
 func emitProg(d progDef) {
-	fmt.Fprintf(tout, "const %s uint32 = %s\n", i(d.name), d.id)
+	emitProgConst(i(d.name), d.id)
 	for _, v := range d.vers {
-		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(v.name), v.id)
+		emitProgConst(i(v.name), v.id)
 
 		for _, c := range v.calls {
-			fmt.Fprintf(tout, "const %s uint32 = %s\n", i(c.name), c.id)
+			emitProgConst(i(c.name), c.id)
 		}
 
 		fmt.Fprintf(out, "type %s_%s_handler interface {\n", i(d.name), i(v.name))
-- 
2.43.0


From 0496d9a8bc1a93c8626ea3c34a85523e91a30293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 15/19] fix: let a specification of constants compile

---
 main.go        | 3 +++
 rfc1057/xdr.go | 2 ++
 rfc1813/xdr.go | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/main.go b/main.go
index 1d5b030..8a4b754 100644
--- a/main.go
+++ b/main.go
@@ -89,6 +89,9 @@ func main() {
 	}
 
 	xdrParse(&l)
+
+	// The import must be used even if the specification is all constants.
+	fmt.Fprintf(out, "var _ xdr.Void\n")
 	outf.Close()
 	buf := refmt(outTmp)
 
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 142f865..6b32718 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -252,3 +252,5 @@ func PMAP_PROG_PMAP_VERS_regs(h PMAP_PROG_PMAP_VERS_handler) []xdr.ProcRegistrat
 		},
 	}
 }
+
+var _ xdr.Void
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 6b82483..6200e27 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1409,3 +1409,5 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		}
 	}
 }
+
+var _ xdr.Void
-- 
2.43.0


From bcf7136c92acb6e96b3b9c234a5318ed0be9ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:30 +0000
Subject: [PATCH 16/19] fix: convert case labels and enumerators to the type
 they are used in

---
 out.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 229fa22..aade27c 100644
--- a/out.go
+++ b/out.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"go/token"
 	"strings"
 )
 
@@ -325,20 +326,42 @@ func (t typeUnion) goType() string {
 	return res
 }
 
+// enumOf maps the enumerators emitted so far to the type they have.
+var enumOf = map[string]string{}
+
+// caseLabel writes a label in the type of the discriminant, from which that of
+// a constant or enumerator may differ.
+func caseLabel(switchType string, cval string) string {
+	if cval == "true" || cval == "false" || enumOf[cval] == switchType {
+		return cval
+	}
+	return convert(switchType, cval)
+}
+
+// convert gives a named value another type; numbers take any type.
+func convert(goType string, val string) string {
+	if !token.IsIdentifier(val) {
+		return val
+	}
+	return fmt.Sprintf("%s(%s)", goType, val)
+}
+
 func (t typeUnion) goXdr(valPtr string) string {
 	var res string
 	var switchName string
+	var switchType string
 	switch v := t.switchDecl.(type) {
 	case declVoid:
 		panic("void union switch")
 	case declName:
 		switchName = fmt.Sprintf("(%s).%s", valPtr, i(v.n))
+		switchType = v.t.goType()
 		res += v.t.goXdr(fmt.Sprintf("&(%s)", switchName))
 	}
 	res += fmt.Sprintf("switch %s {\n", switchName)
 	for _, c := range t.cases.cases {
 		for idx, cval := range c.cases {
-			res += fmt.Sprintf("case %s:\n", cval)
+			res += fmt.Sprintf("case %s:\n", caseLabel(switchType, cval))
 			if idx != len(c.cases)-1 {
 				res += "fallthrough\n"
 			}
@@ -525,7 +548,8 @@ func emitEnum(ident string, val []enumItem) {
 	fmt.Fprintf(out, "}\n")
 
 	for _, v := range val {
-		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), v.val)
+		enumOf[i(v.name)] = i(ident)
+		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), convert(i(ident), v.val))
 	}
 }
 
-- 
2.43.0


From 8e5ed7950b48e505b7d2af95a115921f34ccf27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:09 +0000
Subject: [PATCH 17/19] fix: refuse a specification with a comment that does
 not end

---
 main.go | 2 +-
 scan.go | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 8a4b754..349dd02 100644
--- a/main.go
+++ b/main.go
@@ -57,7 +57,7 @@ func main() {
 	f := fset.AddFile(*inputFile, -1, len(src))
 
 	var l lexer
-	l.s.Init(f, src, nil, 0)
+	l.s.Init(f, src, scanError, 0)
 
 	outTmp := *outputFile + ".tmp"
 	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
diff --git a/scan.go b/scan.go
index f725680..5a49b58 100644
--- a/scan.go
+++ b/scan.go
@@ -14,6 +14,15 @@ type lexer struct {
 
 const eof = 0
 
+// scanError stops the run at a comment that does not end, since the scanner
+// takes the rest of the file for it. Other errors need no handling here: they
+// are harmless in a comment, and elsewhere give tokens that are not accepted.
+func scanError(pos token.Position, msg string) {
+	if msg == "comment not terminated" {
+		panic(fmt.Sprintf("%v: %s", pos, msg))
+	}
+}
+
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
 	for tok == token.SEMICOLON && lit == "\n" {
-- 
2.43.0


From f0ffb9a913d0ecd2733faa2086941e370d12ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:59 +0000
Subject: [PATCH 18/19] fix: accept negative constants

---
 scan.go |  3 +++
 xdr.y   | 12 +++++++++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/scan.go b/scan.go
index 5a49b58..2c3cf43 100644
--- a/scan.go
+++ b/scan.go
@@ -152,6 +152,9 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 	case token.MUL:
 		return '*'
 
+	case token.SUB:
+		return '-'
+
 	case token.INT:
 		lval.str = lit
 		return CONST
diff --git a/xdr.y b/xdr.y
index 860b250..d7f6a13 100644
--- a/xdr.y
+++ b/xdr.y
@@ -55,10 +55,11 @@ package main
 %token ','
 %token ':'
 %token '*'
+%token '-'
 
 %type <decl> decl
 %type <typespec> typespec enumtypespec structtypespec uniontypespec
-%type <str> val varlen
+%type <str> val varlen constant
 %type <bool> maybeunsig
 %type <enumItem> enumitem
 %type <enumItems> enumbody enumitems
@@ -102,11 +103,16 @@ varlen: '<' '>'
 | '<' val '>'
   { $$ = $2 }
 
-val: CONST
+val: constant
   { $$ = $1 }
 | IDENT
   { $$ = i($1) }
 
+constant: CONST
+  { $$ = $1 }
+| '-' CONST
+  { $$ = "-" + $2 }
+
 typespec: maybeunsig KWINT
   { $$ = typeInt{$1} }
 | maybeunsig KWHYPER
@@ -175,7 +181,7 @@ caselist: KWCASE val ':'
 | caselist KWCASE val ':'
   { $$ = append($1, $3) }
 
-constdef: KWCONST IDENT '=' CONST ';'
+constdef: KWCONST IDENT '=' constant ';'
   { emitConst($2, $4) }
 
 typedef: KWTYPEDEF decl ';'
-- 
2.43.0


From 36aa924a4553793e97a0fe38157a92da8e256987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:59 +0000
Subject: [PATCH 19/19] fix: accept keywords of Go only as identifiers

---
 scan.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scan.go b/scan.go
index 2c3cf43..e2c4f1a 100644
--- a/scan.go
+++ b/scan.go
@@ -160,6 +160,11 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 		return CONST
 
 	default:
+		if tok.IsKeyword() {
+			// a keyword of Go only
+			lval.str = lit
+			return IDENT
+		}
 		fmt.Printf("NOT HANDLED: pos=%v, tok=%v, lit=%v\n", pos, tok, lit)
 		panic("token not handled")
 	}
-- 
2.43.0

