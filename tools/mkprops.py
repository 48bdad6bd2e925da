#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the text stays reviewable).
import json,os
P=[]
def p(id,title,st,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Scalars use the RFC 4506 wire form and decode back exactly",
  "Encoding a bool, 32-bit or 64-bit integer appends exactly its 4- or 8-byte big-endian RFC 4506 form (bool as 0 or 1) after whatever was written before, leaving those earlier bytes unchanged. Decoding consumes exactly those 4 or 8 bytes and yields the same value for every bit pattern (for bool, zero is false and anything else is true); with fewer bytes left it reports an error and leaves the destination unchanged.",
  ["inputs"],"every value of every scalar type, every prior writer content and every input buffer (any length), at any position",
  "The tests encode one string and one byte slice; no scalar, sign, boundary or short-input case is asserted and the fuzz seeds only exercise three messages.",
  ["xdr/lib.go","xdr/types.go","xdr/helper.go"],
  [("scalar codecs","xdr/lib.go XdrBool/XdrS32/XdrU32/XdrS64/XdrU64"),("read/write cursor","xdr/lib.go xdrRW"),("wrapper types","xdr/types.go")],
  ["encoded bytes","decoded value","remaining input","error"])
p("C02","Opaque data and strings: length, content, zero padding and size limit",
  "Encoding variable-length opaque data or a string of length n appends the 4-byte big-endian n, the n bytes and (4 - n mod 4) mod 4 zero bytes; fixed-length opaque data is the same without the length. If n exceeds the declared limit (or 32 bits) encoding fails, and decoding rejects any length word above the limit; a length exactly at the limit is accepted in both directions. Decoding returns exactly those n bytes, consumes the padding too, and fails if either is incomplete.",
  ["inputs"],"every length (far beyond 4 GiB on the encode side), every content, every limit including none, every input buffer",
  "Tests use one 5-byte string, one 3-byte slice and two truncations; limits, boundary lengths, all padding residues and huge lengths are never asserted.",
  ["xdr/lib.go"],
  [("length prefix, limit and padding","xdr/lib.go XdrVarArray/XdrString/XdrArray"),("slicing of the input","xdr/lib.go xdrR"),("element counts","xdr/lib.go EncodingSetSize")],
  ["encoded bytes","decoded content","remaining input","error"])
p("C03","Every generated message round-trips",
  "For every message type generated from the SUNRPC and NFSv3/MOUNT specifications and every value whose fields respect the declared limits, encoding succeeds and decoding the bytes yields an equal value (fields of unselected union arms aside). Decoding consumes exactly the encoded bytes, so data that follows the message in the same buffer is still read correctly.",
  ["inputs"],"every value of every generated type within the stated list/array bounds, with arbitrary bytes following",
  "The fuzz targets cover two of about 140 types, and without -fuzz run only three seeds each; nothing checks position after decoding.",
  ["rfc1057/xdr.go","rfc1813/xdr.go","rfc1057/types.go","rfc1813/types.go","xdr/lib.go","xdr/helper.go"],
  [("generated Xdr methods (one body for both directions)","rfc1057/xdr.go, rfc1813/xdr.go"),("EncodeBuf/DecodeBuf","xdr/helper.go")],
  ["EncodeBuf output","DecodeBuf result","following data"])
p("C04","Generated messages have the published SUNRPC, NFSv3 and MOUNT wire layout",
  "The bytes produced for any value of any generated type are exactly those that RFC 1057 and RFC 1813 (with the RFC 4506 rules) prescribe: same fields, order, widths, limits, union arms and default arms. The program, version, procedure, status and flag constants have the published numbers.",
  ["inputs"],"every value of every generated type (limits exceeded included: then an error), within the stated list/array bounds",
  "No test compares encoded bytes of a generated type with anything but its own decoder, so a layout change made symmetrically in one shared method body is invisible.",
  ["rfc1057/xdr.go","rfc1057/types.go","rfc1057/prot.x","rfc1813/xdr.go","rfc1813/types.go","rfc1813/prot.x"],
  [("generated codecs","rfc1057/xdr.go, rfc1813/xdr.go"),("constants","rfc1057/types.go, rfc1813/types.go")],
  ["EncodeBuf output","exported constants"])
p("C05","Decoding arbitrary bytes is total and truncation is always detected",
  "Decoding any byte string as any generated type never panics: it succeeds or reports an error. If it succeeds, the value re-encodes without error to exactly as many bytes as were consumed and decodes again to the same value. If any part of the message is missing from the end of the input, an error is reported.",
  ["inputs"],"every input byte string of every length, for every generated type, within the stated list/array bounds",
  "Three fixed seeds per package run by default; malformed lengths, discriminants and cut points at every field are not reached.",
  ["xdr/lib.go","rfc1057/xdr.go","rfc1813/xdr.go"],
  [("short-input checks","xdr/lib.go xdrRW/xdrR"),("length checks before slicing or allocation","xdr/lib.go XdrVarArray/XdrString, generated array loops")],
  ["panic","error","decoded value"])
p("C06","A codec error is sticky",
  "Once an encoder or decoder has reported an error, no later operation on it clears the error, appends output, consumes input or changes a destination value. In particular a message whose early field failed is always reported as failed, whatever follows it.",
  ["inputs","histories"],"every sequence of codec operations (scalars, opaque, string, fixed opaque, arrays, nested messages, in both directions) after any first error, with arbitrary operands",
  "Tests perform a single operation per codec state, so nothing runs after a failure.",
  ["xdr/lib.go","rfc1057/xdr.go","rfc1813/xdr.go"],
  [("error latch","xdr/lib.go XdrState.err and the early returns")],
  ["Error()","WriteBuf()","destination values"],
  [("XdrState.err","non-nil after the first failure","xdr/lib.go")])
p("C07","Codecs do not disturb their inputs or alias growth space",
  "Encoding never changes the value being encoded, and decoding never changes the input bytes. A decoded byte slice has no spare capacity into the input: appending to it never changes the input or any other decoded field.",
  ["inputs"],"every value and every input buffer for the library codecs and for messages with several variable-length fields",
  "Tests compare only the decoded value itself; they never look at the input buffer afterwards nor append to a decoded slice.",
  ["xdr/lib.go","rfc1057/xdr.go","rfc1813/xdr.go"],
  [("three-index slicing","xdr/lib.go xdrR"),("copying reads","xdr/lib.go xdrRW")],
  ["input buffer","other decoded fields","source value"])
p("C08","Decoding memory is bounded by the input size",
  "Decoding any byte string as any generated type allocates at most a fixed multiple of the input length plus a constant, whatever element counts and lengths the input claims.",
  ["inputs"],"every input byte string and every claimed length or count word, for every generated type",
  "The seeds contain no hostile counts; the README tells users to limit memory with ulimit while fuzzing, so the tests cannot assert a bound.",
  ["xdr/lib.go","out.go","rfc1057/xdr.go","rfc1813/xdr.go"],
  [("length checked against the remaining input before slicing","xdr/lib.go xdrR"),("array allocation during decode","out.go declTypeVarArray.goXdr and generated copies")],
  ["bytes allocated"])
p("C09","Decoding into a used value gives the same result as into a fresh one",
  "A successful decode determines every selected part of the destination from the input alone: whatever the destination held before (old lists, optional entries, longer arrays, strings), the result equals decoding into a zero value, unselected union arms aside.",
  ["inputs","histories"],"every input and every prior destination content, for every generated type, within the stated list/array bounds",
  "All tests decode into fresh zero values.",
  ["out.go","rfc1057/xdr.go","rfc1813/xdr.go","xdr/lib.go"],
  [("optional-data decoding","out.go declTypePtr.goXdr and generated copies"),("array decoding","out.go declTypeVarArray.goXdr")],
  ["decoded value"])
p("C10","The server answers every well-formed call with the right reply header",
  "For every decodable call (whose procedure's result, if any, can be encoded in one record) the server writes exactly one reply record, in one write: a correct last-fragment length header, the caller's transaction id, a reply marker and, when the RPC version is not 2, a denial RPC_MISMATCH with range 2-2. Otherwise it is accepted with program-unavailable, version-mismatch (with the lowest and highest registered version of that program), procedure-unavailable, garbage-arguments or success according to what is registered, and only success carries result bytes.",
  ["inputs","configurations"],"every transaction id, version, program, procedure number, credential and verifier, and every registration table within the stated bound",
  "No test starts a server.",
  ["rfc1057/server.go","rfc1057/xdr.go"],
  [("status selection and reply framing","rfc1057/server.go handleReqErr"),("registration table","rfc1057/server.go Register/RegisterMany")],
  ["bytes written to the connection"])
p("C11","A call runs exactly its registered procedure, with its own arguments",
  "A successful call invokes exactly one procedure, exactly once: the one most recently registered for its program, version and procedure number, with the argument value the caller encoded, and the reply carries exactly that procedure's result. The registration helpers generated for the portmapper, NFSv3 and MOUNT programs bind every published procedure number to the handler method of that name.",
  ["inputs","configurations"],"every procedure of the three programs, every argument and result value within the stated bounds, and every registration sequence within the stated bound",
  "No test registers or calls a procedure; handlers of several procedures share signatures, so a mix-up compiles.",
  ["rfc1057/server.go","rfc1057/xdr.go","rfc1813/xdr.go","out.go"],
  [("registration and lookup","rfc1057/server.go Register/RegisterMany/handleReqErr"),("generated wrappers and tables","rfc1057/xdr.go, rfc1813/xdr.go *_handler_wrapper, *_regs")],
  ["handler invocations","reply result bytes"])
p("C12","Malformed requests never reach a procedure, crash the server or stall it",
  "Whatever bytes a request record contains, the server does not panic, and writes at most one reply. A record that is not a decodable call gets no reply and invokes nothing; a call whose arguments do not decode is answered garbage-arguments without invoking the procedure; in all these cases the following record on the connection is served normally.",
  ["inputs"],"every record content of every length (each field may be cut, over-long or hold any discriminant), for procedures with fixed and variable-size arguments",
  "No test feeds the server anything.",
  ["rfc1057/server.go","rfc1057/xdr.go","rfc1813/xdr.go","xdr/lib.go"],
  [("header decode check","rfc1057/server.go handleReqErr"),("argument decode check","generated *_handler_wrapper methods")],
  ["panic","bytes written","handler invocations"])
p("C13","Concurrent requests on a server do not interfere",
  "However requests in flight on one or several connections are interleaved, each procedure sees its own caller's arguments unchanged until its reply has been written, and each reply is a single write carrying that request's own transaction id and result. Request buffers are reused only after the request they hold has been answered.",
  ["schedules","inputs"],"every interleaving, within the stated bound on requests and preemption points, of receiving, decoding, handling and replying, and every buffer-pool behaviour",
  "There is no server test, and buffer reuse shows only in rare interleavings.",
  ["rfc1057/server.go","xdr/lib.go"],
  [("buffer pool lifetime","rfc1057/server.go getReqBuf/putReqBuf/handleReq"),("one Write per reply","rfc1057/server.go handleReqErr")],
  ["arguments seen by handlers","bytes per Write call"],
  [("reqBufPool","request buffers free for reuse","rfc1057/server.go")])
p("C14","A client call succeeds only on its own successful reply",
  "A call returns no error exactly when the peer's record is a single last fragment that decodes as an accepted, successful reply with this call's transaction id followed by a decodable result; the result is then exactly what those bytes say. Any other bytes make it return an error, and no reply makes it panic.",
  ["inputs"],"every byte sequence a peer can send (headers, lengths, transaction ids, all status combinations, truncations), for fixed and variable-size results",
  "No test runs a client.",
  ["rfc1057/client.go","rfc1057/xdr.go","xdr/lib.go"],
  [("reply validation","rfc1057/client.go Call")],
  ["returned error","result value"])
p("C15","Client requests are well-formed records; I/O failures are reported",
  "Each call first sends exactly one record, in one write: last-fragment length header, a transaction id different from those of the previous calls, call marker, RPC version 2, the client's program and version, the requested procedure, credential, verifier and encoded arguments. If arguments or credentials cannot be encoded nothing is sent and an error is returned; if the write fails or the connection ends or fails at any point before the full reply arrived, an error is returned.",
  ["inputs","fault_sequences","histories"],"every procedure, credential, verifier and argument, sequences of calls, every split of the reply into reads, and a fault at every I/O step",
  "No test runs a client or injects an I/O fault.",
  ["rfc1057/client.go"],
  [("request construction","rfc1057/client.go Call"),("error returns after Write/ReadFull","rfc1057/client.go Call")],
  ["bytes written","returned error"])
p("C16","A remote call equals a local call",
  "When a client is connected to a server that has the procedure registered, a call hands the procedure an argument equal to the caller's and returns to the caller a result equal to the procedure's. Unregistered procedures, versions or programs and undecodable arguments give the caller an error, never a made-up result.",
  ["inputs","histories"],"every argument and result value within the stated bounds, sequences of calls on one connection, representative procedures of each program",
  "No test connects the two sides.",
  ["rfc1057/client.go","rfc1057/server.go","rfc1057/xdr.go","rfc1813/xdr.go","xdr/lib.go"],
  [("client and server framing and codecs","rfc1057/client.go Call, rfc1057/server.go Run/handleReqErr")],
  ["handler argument","client result and error"])
p("C17","The server reads its connection record by record",
  "From any byte stream, however it is split into reads, the server extracts the records delimited by the length headers in order of arrival, and handles each complete record exactly once with exactly its bytes. A header without the last-fragment bit, a read error or end of stream (also in the middle of a header or record) ends the connection with an error and no further record is handled.",
  ["inputs","fault_sequences"],"every stream of up to the stated number of records, every record length including zero, every split into reads, a fault or end of stream at every point",
  "No test feeds a server a stream.",
  ["rfc1057/server.go"],
  [("record loop","rfc1057/server.go Run"),("full reads","rfc1057/server.go io.ReadFull calls")],
  ["records handled","Run's return value"])
p("C18","Generated code implements its specification",
  "For every accepted specification, the Go code the generator emits encodes and decodes each declared type exactly as RFC 4506 prescribes for that declaration: typedefs, structs, nested structs, unions with shared, void and default arms, enums, optional data, fixed and variable arrays, opaque data and strings with constant or named limits. Emitted constants and procedure registrations match the specification.",
  ["programs","inputs"],"every program of the stated corpus (all declaration forms and their pairwise nesting, and the shipped specifications), and for each every value and every input",
  "The generator has no tests at all; CI only regenerates two specifications that use a subset of the language.",
  ["out.go","xdr.y","scan.go","main.go"],
  [("emitters","out.go goXdr/goType/emit*"),("grammar","xdr.y"),("lexer","scan.go")],
  ["emitted code's behaviour"])
p("C19","A failed generator run leaves existing outputs alone",
  "If the generator stops before it has complete, well-formed output (unreadable input, bad specification, failed create, unformattable code), previously generated output files are untouched. An output file is only ever written from the complete text of its own run, a run that reports success has written all of its outputs completely, and whenever a run ends by itself the temporary files it created are removed. Files that it did not create, other than its outputs, are never changed or removed.",
  ["fault_sequences","inputs"],"every outcome of every file operation, parse and format step, with and without a separate types file",
  "No test runs the generator, let alone with failing file operations.",
  ["main.go"],
  [("temporary files and deferred removal","main.go main"),("format before overwrite","main.go refmt")],
  ["files created, written and removed"])
p("C20","The layout of a specification does not matter",
  "Spaces, tabs, line breaks and comments between the tokens of a specification do not change what the generator emits for it.",
  ["inputs"],"every choice of separator (space, tab, newline, CRLF, line and block comment) at every token boundary of the sample specifications",
  "The generator has no tests; the shipped specifications happen to use one layout.",
  ["scan.go","xdr.y"],
  [("token stream","scan.go lexer.Lex over go/scanner")],
  ["emitted text"])
p("C21","Text outside the specification language is refused",
  "A text that is not a sequence of definitions of the XDR and RPC language (RFC 4506, RFC 5531) makes the generator fail and leave no output: a missing, surplus, misplaced or exchanged token, a character that belongs to no token, a text that stops early, a comment that does not end. Texts of the language with supported types are accepted.",
  ["inputs"],"every single-token edit (delete, insert, replace, exchange, cut) of the sample specifications at every position, every stray byte and unterminated comment at every token boundary, every plain type for every other",
  "No test runs the generator; CI runs it on two well-formed texts.",
  ["xdr.y","scan.go","main.go"],
  [("syntax errors stop the run","scan.go lexer.Error, Lex default case"),("grammar","xdr.y")],
  ["whether the run fails","output file"])
p("C22","The generator's output is a function of its input",
  "The same specification and options give the same output text, whatever the output files held before and in whatever order the generator walks its maps, so that regenerating the shipped code is reproducible.",
  ["inputs","schedules"],"every previous content of the output files up to 64 KiB and every iteration order of small maps (first or last entry first for large ones) on the sample specifications",
  "No test runs the generator twice, and Go varies map order at random.",
  ["out.go","main.go","xdr.y"],
  [("emitters and their tables","out.go emitProgConst, enumOf"),("truncating write","main.go writeOut")],
  ["emitted text"])
p("C23","Codecs, clients and servers used at the same time do not interfere",
  "When several goroutines each use an encoder, decoder, client or server of their own (clients and servers each on their own connection), every encoded byte, decoded value, error, request and reply is what it would be if they ran one after another, however their steps interleave.",
  ["schedules","inputs"],"every interleaving, within the stated bound on preemptions, of two codecs on values of the same type (library primitives and every shipped type), of two clients and of two servers",
  "The tests use one codec at a time; shared scratch state shows only in rare interleavings.",
  ["xdr/lib.go","out.go","rfc1057/client.go","rfc1057/server.go","rfc1813"],
  [("state kept in the codec","xdr/lib.go XdrState"),("transaction ids and headers per client","rfc1057/client.go Client"),("tables per server","rfc1057/server.go Server"),("locals of emitted methods","out.go goXdr")],
  ["encoded bytes","decoded values","requests","replies"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
