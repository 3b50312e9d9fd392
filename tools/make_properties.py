import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    for k,v in kw.items(): a[k]=[t.strip() for t in v.split(";")]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Response documents survive marshalling and parsing unchanged",
"For every OFX version and every valid response built from the supported message types (accounts, bank, card and investment statements, security lists, profiles), marshalling it yields one well-formed document of that version which contains exactly the data of the response, each value under the element the OFX specification assigns to it. Parsing that document succeeds without error and gives back a response that is equal to the original: same version, same messages in the same order, same amounts, instants, texts, enumerated values, booleans and optional parts, with nothing added, dropped, reordered or altered.",
["inputs","programs"],"All responses within the bound: every message type, every optional part present/absent, every leaf varied over its value alphabet, every list length up to the bound, every kind of list member and every ordered pair of kinds, in all eleven versions.",
"The tests marshal a handful of fixed responses for one version each; a field that is only wrong for one value, one combination of optional parts or one position in a list is not sampled.",
["response.go","bank.go","creditcard.go","invstmt.go","signup.go","seclist.go","profile.go","types.go","constants.go","common.go"],
[("Response.Marshal","response.go"),("encodeMessageSet","request.go"),("InvTranList/PositionList/OOList/SecurityList/MessageSetList MarshalXML and UnmarshalXML","invstmt.go, seclist.go, profile.go"),("struct tags of all message types","*.go")],
observe_at="bytes returned by Response.Marshal; value returned by ParseResponse")

p("C02","Parsing a response keeps every supported element with its exact value",
"Whenever a well-formed OFX response document uses elements of the supported message types, parsing it yields each element's value (text without surrounding white space, number, instant, boolean, enumerated value) in the corresponding field, list members appear in document order with their own kind, and absent optional elements are reported as absent. No element is lost, duplicated, assigned to another field or another list member, or carried over from a sibling, whatever combination of optional elements, list lengths and kinds of list members occurs.",
["inputs"],"All response documents generated from an independently written OFX element grammar within the bound (single and paired deviations from minimal and maximal documents, all list member kinds and ordered pairs, list lengths up to the bound), as SGML with and without end tags and as XML.",
"Tests parse a few hand-written documents; most optional elements (401(k) data, most list member kinds, most enumerated values) never occur in them.",
["response.go","bank.go","creditcard.go","invstmt.go","signup.go","seclist.go","profile.go","signon.go","common.go","types.go","leaf_elements.go"],
[("DecodeResponse","response.go"),("decodeMessageSet and its table of transaction types","response.go"),("UnmarshalXML of the polymorphic lists","invstmt.go, seclist.go, profile.go"),("struct tags","*.go")],
observe_at="value returned by ParseResponse")

p("C03","Equivalent encodings of one response parse to the same data",
"For SGML documents it makes no difference to the parsed data whether the end tags of simple (leaf) elements are present or omitted, in any combination, nor which line endings, indentation or blank space stand between elements or around values. The same data written as a version 1 SGML document or as a version 2 XML document, with literal characters, entities, character references or CDATA sections, parses to the same messages.",
["inputs"],"Every subset of omitted leaf end tags for small documents and every choice up to two deviations from the all-present/all-omitted forms for large ones, every white space style, every character encoding style, and every version, for documents of every message type.",
"Tests hold a few samples in one fixed style each; omission of an individual end tag next to particular neighbours is an exponential space they do not enter.",
["response.go","leaf_elements.go","util.go","types.go"],
[("DecodeResponse","response.go"),("ofxLeafElements","leaf_elements.go"),("nextNonWhitespaceToken","util.go"),("UnmarshalXML of scalar types","types.go")],
observe_at="value returned by ParseResponse")

p("C04","Stream fragmentation never matters and truncated streams never succeed",
"The outcome of parsing a response depends only on the bytes of the stream and not on how the reader delivers them: short reads, one byte at a time, empty reads, or data returned together with the end-of-file indication. If the stream ends or fails before the document is complete, parsing reports an error and no response, at whichever byte this happens.",
["inputs","fault_sequences"],"For documents of both syntaxes, shorter and longer than the internal buffers: every single and double split position, every fixed chunk size, every truncation point and every error injection point.",
"All tests read from files or in-memory readers that return everything at once and never fail.",
["response.go","util.go"],
[("guessVersion","response.go"),("DecodeResponse/readSGMLHeaders/readXMLHeaders","response.go"),("nextNonWhitespaceToken","util.go")],
observe_at="value and error returned by ParseResponse and DecodeResponse")

p("C05","Arbitrary input is never a crash, a hang or an unnoticed failure",
"Parsing any byte stream returns: it neither panics nor runs forever. It yields either a decoding error without a response, or a response that is fully decoded; and it reports success if and only if that response is valid.",
["inputs"],"All sequences of markup tokens up to the depth bound, in each parsing context, and all single byte edits (deletion, replacement, insertion over a byte alphabet), element deletions, duplications and swaps of documents of every message type.",
"Tests contain well-formed documents almost exclusively; malformed input is unbounded.",
["response.go","invstmt.go","seclist.go","profile.go","types.go","util.go"],
[("DecodeResponse, ParseResponse","response.go"),("hand-written UnmarshalXML token loops","invstmt.go, seclist.go, profile.go")],
observe_at="return of ParseResponse/DecodeResponse")

p("C06","Header grammar and version detection are exact",
"A document is recognized as SGML or XML from its header, and its reported version is the one the header states. Headers are accepted exactly if they are of the right kind for that version (SGML up to 1.6, XML from 2.0), state the fixed header values OFX demands (header version, data type, security none or TYPE1 for SGML and none for XML, no compression, mandatory fields present, no unknown XML attributes), with optional blank space and missing line breaks tolerated in SGML; otherwise parsing fails.",
["inputs","configurations"],"All combinations of up to two deviations per header field (value alphabet), field order, spacing and line-break style, for all versions and unknown versions in both syntaxes.",
"Tests hold a small number of fixed headers.",
["response.go","constants.go"],
[("readSGMLHeaders","response.go"),("readXMLHeaders","response.go"),("guessVersion","response.go"),("ofxVersion.FromString","constants.go")],
observe_at="Response.Version and error of DecodeResponse")

p("C07","Validity verdicts follow the documented rules of each message part",
"A message is reported valid exactly if it fulfils the rules documented for it: identifiers of legal length, mandatory fields filled, enumerated values known, mutually exclusive fields (name or payee, bank or card destination, currency or original currency) not both given, corrections named together with a proper action, paired balance fields given together, severity matching the status code, and features (pending transactions, images) only in versions that have them. This holds for every version, wherever in a list the offending part is, and regardless of the other, valid content.",
["inputs","configurations"],"All combinations of up to two rule-relevant field deviations (three in depth runs) from a valid message, in each list position, for all versions, compared with an independently written predicate.",
"Tests check a few violating examples per type in one version.",
["bank.go","common.go","types.go","signon.go","creditcard.go","signup.go","invstmt.go","seclist.go","profile.go"],
[("Valid methods of Transaction, PendingTransaction, TransactionList, Balance, Payee, BankAcct, CCAcct, Currency, Status, StatementResponse, SignonResponse, UID","bank.go, common.go, types.go, signon.go")],
observe_at="result of the Valid methods and of ParseResponse")

p("C08","Validation reports every problem and still returns the parsed data",
"If a decoded response has invalid parts, parsing returns the complete response along with an error, and this error names the problem of every invalid part (signon and each message of every message set) and of no valid one. If all parts are valid there is no error.",
["inputs"],"All assignments of valid/invalid to the signon and up to four messages spread over all pairs of message sets.",
"Tests cover one document with one validation failure.",
["response.go"],[("Response.Valid","response.go"),("errInvalid","response.go"),("ParseResponse","response.go")],
observe_at="response and error returned by ParseResponse")

p("C09","Requests are serialized completely, in specification order and style",
"For every valid request the marshalled document starts with the header of its version and contains the signon followed by exactly the supplied messages, grouped by message set in specification order, with every supplied field under its element in specification order, defaults filled in, and unset optional fields left out. Below version 2.0 the simple elements of OFX 1.x carry no end tags and from 2.0 on the document is well-formed XML; indentation and carriage returns appear exactly if requested and never change the content.",
["inputs","configurations"],"All request types and pairs of request types, every optional field present/absent (single and paired deviations), leaf value alphabets, all eleven versions, with/without indentation and carriage returns.",
"Tests compare a few fixed requests for fixed versions with expected text.",
["request.go","common.go","signon.go","bank.go","creditcard.go","invstmt.go","signup.go","seclist.go","profile.go","types.go","leaf_elements.go"],
[("Request.Marshal","request.go"),("encodeMessageSet","request.go"),("writeHeader","common.go"),("ofxLeafElements","leaf_elements.go")],
observe_at="bytes returned by Request.Marshal")

p("C10","Text content can never change the structure of a document",
"Whatever characters a text field of a request or response holds (markup characters, quotes, entities, line breaks, control or non-ASCII characters), the marshalled document has the same element structure as with harmless text, and reading it back gives that text again apart from surrounding white space. No value can introduce, close or hide an element, header line or message.",
["inputs"],"Every string up to length three over an alphabet of markup-significant characters, and every hostile string of a list, in each text field of every message type, for SGML and XML output.",
"Tests use alphanumeric text almost exclusively.",
["request.go","response.go","types.go","leaf_elements.go"],
[("encoder use in Marshal","request.go, response.go"),("String/UID handling","types.go")],
observe_at="marshalled bytes tokenized independently; value returned by ParseResponse")

p("C11","Messages only ever travel in their own message set",
"Marshalling a request or response that contains a message filed under a different message set, or a response message in a request and vice versa, fails with an error and yields no document. Correctly filed messages are always accepted, and parsing files each message under the message set it was read from.",
["inputs","configurations"],"Every message type in every slot of requests and responses, alone and before/after a correctly filed message, for all versions.",
"Tests contain only a couple of misfiled messages.",
["request.go","response.go","common.go"],[("encodeMessageSet","request.go"),("Type methods","*.go"),("messageSlices table","response.go")],
observe_at="error of Marshal; slots of the parsed Response")

p("C12","Invalid requests are refused before anything is sent",
"A request whose signon or any message breaks the documented rules (lengths of user ID, password, application ID and version, language; exactly one of password and user key; transaction ID; account identification; version-dependent options; a version that exists) is never serialized and never transmitted: the caller gets an error instead. Requests obeying the rules, up to the limit lengths, are never refused.",
["inputs","configurations"],"All pairs of rule-relevant deviations (lengths at, below and above each limit; all versions) of a valid request for each message position, via Marshal and via each client with a recording transport.",
"Tests check some lengths of some fields once, never the absence of transmission.",
["signon.go","bank.go","request.go","client.go","types.go","vanguard_client.go","discovercard_client.go"],
[("SignonRequest.Valid","signon.go"),("StatementRequest.Valid","bank.go"),("Request.Marshal","request.go"),("clientRequestNoParse","client.go")],
observe_at="error of Marshal/Request; requests seen by the server")

p("C13","Amounts are exact decimal numbers",
"Every decimal number (sign, digits, optional point or comma and decimals, surrounding white space) is read as exactly that number, whatever its magnitude or precision, and text which is no number is an error. Every amount with up to one hundred decimals is written in plain decimal notation without superfluous zeros such that it reads back as the same number; equality compares numeric value.",
["inputs"],"All strings up to the length bound over a numeric alphabet, all sign/integer/fraction shape combinations up to 120 digits; compared with an independent decimal model.",
"Tests cover about twenty numbers.",
["types.go"],[("Amount.UnmarshalXML/String/MarshalXML/Equal","types.go")],observe_at="parsed value, printed text")

p("C14","Dates denote exact instants in every zone notation",
"Every OFX date (day, hour, minute, second or millisecond precision; no zone or an offset in hours with optional quarter-hour decimals, sign and zone name) is read as exactly the instant it denotes, GMT being the default; text that is no date (wrong characters, impossible calendar days or times) is an error. Every date with millisecond precision and any zone is written in OFX notation such that reading it back gives the same instant.",
["inputs"],"All date precisions x boundary calendar values x all offsets from -24h to +24h in steps of one minute (writing) and hundredths (reading) x names; all single character edits of dates; compared with an independent calendar model.",
"Tests cover about thirty dates and a handful of zones; none with offsets between -1h and 0.",
["types.go"],[("Date.UnmarshalXML/String/MarshalXML/Equal, NewDate, NewDateGMT","types.go")],observe_at="parsed instant, printed text")

p("C15","Enumerated values map one-to-one to their OFX names and nothing else",
"For every enumerated type, each defined value has exactly the name OFX gives it: printing, parsing, constructing, marshalling and unmarshalling all agree on this mapping, surrounding white space being ignored. Every other text is rejected with an error, undefined values are invalid, and they are never written as a value.",
["inputs"],"All values of all enumerated types, all out-of-range numbers up to a bound, and for each type the names of all other types, case variants, prefixes, extensions, and single edits of each name.",
"Generated tests iterate each list once, derived from the same generator as the code.",
["constants.go","generate_constants.py"],[("generated enum types","constants.go")],observe_at="results of New*, FromString, String, Valid, XML (un)marshalling")

p("C16","Status codes carry their specified severity and meaning",
"A status is valid exactly if its code is one of the codes OFX defines and its severity is the one OFX defines for this code. Meaning and conditions of each defined code can be looked up, and looking up any other code is an error.",
["inputs"],"All codes from -100 to 100000 plus extremes x all severities and near-miss texts, compared with an independent copy of the specification table.",
"Tests look up a few codes.",
["common.go"],[("Status.Valid/CodeMeaning/CodeConditions","common.go"),("statusMeanings","common.go")],observe_at="results of the Status methods")

p("C17","Simple values are read exactly or refused",
"Integers within 64 bits, booleans Y and N, texts, unique identifiers and currency codes are read as exactly what is written, ignoring surrounding white space, and are written back identically; any other integer, boolean or currency text is an error and never a silent default. Identifier checks accept exactly 1 to 36 characters, and the recommended format exactly 36 characters with hyphens in the four canonical places.",
["inputs"],"All strings up to the length bound over per-type alphabets, numeric boundaries, all three-letter codes for currencies, all lengths up to 80, all placements of hyphens around the canonical ones.",
"Tests cover a few values of each type.",
["types.go"],[("Int, Boolean, String, UID, CurrSymbol UnmarshalXML/MarshalXML/Valid/Equal","types.go")],observe_at="values and errors of decoding single elements")

p("C18","Credentials are only ever sent over HTTPS",
"No client transmits a request to a URL that is not an https URL, whether passed by the caller or reached through any chain of redirects; such attempts end in an error. This holds for raw requests, unparsed requests and parsed requests of every client kind.",
["inputs","histories","configurations"],"All URL schemes and malformed prefixes x all client kinds x all request methods; all redirect chains up to length three over {https, http} x status codes 301, 302, 303, 307, 308, with and without a caller-supplied redirect policy.",
"Tests contact no server at all.",
["basic_client.go","vanguard_client.go","discovercard_client.go","client.go"],
[("RawRequest https prefix checks","basic_client.go, vanguard_client.go, discovercard_client.go"),("redirect policy","basic_client.go")],
observe_at="requests seen by plain-text and TLS listeners")

p("C19","Each request is one faithful HTTP exchange",
"Performing a request sends exactly one POST to the request's URL whose body is exactly the marshalled request and whose headers announce the OFX content type, accept it, and carry the configured user agent; caller-configured HTTP clients are used, raw requests send exactly the given bytes. The caller gets the parsed response of a 200 answer; any other status, a transport failure or an unparsable or invalid body is an error, and the response body is closed in every case in which the caller does not receive it.",
["inputs","fault_sequences","configurations"],"All combinations of client configuration and server answer (every status class, body kind, truncation point, read error, transport error) up to two deviations.",
"Tests contact no server.",
["basic_client.go","client.go"],[("BasicClient.RawRequest","basic_client.go"),("clientRequest, clientRequestNoParse","client.go")],
observe_at="recorded HTTP requests; results; Close calls on bodies")

p("C20","Vanguard requests are retried exactly once, with the cookies received",
"The Vanguard client repeats a request exactly once, namely if the server answered successfully with a body declared empty and set cookies; the repetition is the same POST with the same content and headers plus exactly those cookies, and its outcome is what the caller gets. In all other cases, in particular for answers with content, without cookies or with an error status, there is exactly one request and its outcome is reported; the legacy cipher suites the institution needs remain usable.",
["histories","fault_sequences","configurations"],"All sequences of two server answers over {status, declared body, cookies (0..3, duplicated, quoted)} x client configurations, all single cipher suites.",
"Tests contact no server.",
["vanguard_client.go"],[("VanguardClient.RequestNoParse","vanguard_client.go"),("rawRequestCookiesInsecureCiphers","vanguard_client.go"),("vanguardHttpClient","vanguard_client.go")],
observe_at="requests seen by a local TLS server; result")

p("C21","Discover requests have exactly the byte layout the server demands",
"The Discover client writes exactly: a POST request line with the URL's path and query (or / if it has none), then the headers content type, host, content length and keep-alive in this order and no others, then exactly the request's bytes, over TLS to the URL's host and port (443 by default). The answer is returned or parsed if its status is 200 and an error otherwise; every kind of source for the request's bytes and every body size works.",
["inputs","configurations"],"All URL shapes (path, query, port, escapes) x body sources x body sizes across buffer boundaries x answer statuses.",
"Tests contact no server.",
["discovercard_client.go"],[("discoverCardHTTPPost","discovercard_client.go"),("DiscoverCardClient.RawRequest","discovercard_client.go")],
observe_at="raw bytes seen by a local TLS server; result")

p("C22","Client selection and settings precedence are deterministic",
"The special clients are chosen exactly for their institutions' URLs (ignoring slashes at the ends) and the given client is returned for every other URL; special clients keep all settings of the given client. Before sending, a client overwrites version, application ID, application version, formatting and time of the request with its own settings or their documented defaults (203, OFXGO, 0001, indented, no carriage returns), in place, leaving all other fields alone.",
["inputs","configurations","histories"],"All client configurations (each field unset/set/invalid) x all prior request contents x all client kinds; URL variants by single edit, slash padding, case and prefix/suffix.",
"Tests check the defaults once.",
["client.go","basic_client.go","request.go"],[("GetClient","client.go"),("BasicClient getters","basic_client.go"),("SetClientFields","request.go")],
observe_at="dynamic type of the client; request fields and marshalled bytes after the call")

p("C23","Concurrent use of the library never mixes or corrupts results",
"Any number of parses, marshals and client requests on separate requests, responses and messages can run concurrently, even through one shared client: each gives the same result as when run alone, under every interleaving, and without data races.",
["schedules"],"All interleavings with up to two preemptions of two or three operations at every point where the library calls back into code of the caller (reads, message methods, transports), and a separate free-running race-detector pass over the same operation pairs.",
"Tests are sequential.",
["request.go","response.go","leaf_elements.go","client.go","basic_client.go","constants.go"],
[("shared package-level tables","leaf_elements.go, response.go, common.go"),("clients shared between goroutines","client.go")],
observe_at="results of each operation compared with its sequential result; race reports")

p("C24","Results depend on arguments only, never on what was done before",
"Validating, marshalling, parsing and sending leave no trace besides the documented in-place updates: repeating an operation gives the same result, objects can be reused for further requests, and no sequence of earlier operations, failed ones included, changes the result of a later one. Responses already returned never change.",
["histories"],"All operation sequences up to the depth bound over marshal/validate/parse/send/modify operations on shared requests, responses and clients (valid and failing ones), each step compared with the same operation on fresh objects.",
"Tests use each object once.",
["request.go","response.go","signon.go","profile.go","basic_client.go"],
[("Valid methods with defaults","signon.go, profile.go"),("SetClientFields","request.go"),("package-level state","leaf_elements.go, response.go")],
observe_at="results and object contents after each step")

p("C25","Command line flags yield exactly the request they describe",
"Each command of the command line client builds the request its flags describe: server, credentials, institution, application and version settings, formatting, account identification, all with documented defaults. A dry run prints exactly this request and contacts no server; without it exactly this request is sent, once, to the given URL; missing mandatory flags, unknown values and unknown commands end with a message and a nonzero exit status without contacting any server.",
["inputs","configurations"],"All commands x all single and paired deviations of flags from a base setting, dry run and real run against a local server.",
"The command line client has no tests.",
["cmd/ofx/command.go","cmd/ofx/util.go","cmd/ofx/main.go","cmd/ofx/bankdownload.go","cmd/ofx/ccdownload.go","cmd/ofx/invdownload.go","cmd/ofx/profiledownload.go","cmd/ofx/get_accounts.go","cmd/ofx/banktransactions.go","cmd/ofx/cctransactions.go","cmd/ofx/invtransactions.go"],
[("defineServerFlags, checkServerFlags","cmd/ofx/command.go"),("newRequest, printRequest","cmd/ofx/util.go"),("commands","cmd/ofx/*.go")],
observe_at="stdout, exit status, requests seen by a local TLS server")

p("C26","Account and transaction listings are complete, correct and never crash",
"For every valid server answer the listing commands print each account or transaction exactly once, in order, with its own identification, amount, currency (the transaction's own if given, otherwise the statement's), type and name, and the balance; optional parts missing from the answer never crash them. A signon failure, an error answer or an unparsable answer is reported with a message and a nonzero exit status.",
["inputs","fault_sequences"],"All single and paired deviations (optional parts, kinds of accounts and transactions, names, currencies, list lengths) of valid answers, and all error answers, for the four listing commands.",
"The command line client has no tests.",
["cmd/ofx/get_accounts.go","cmd/ofx/banktransactions.go","cmd/ofx/cctransactions.go","cmd/ofx/invtransactions.go"],
[("getAccounts, bankTransactions, ccTransactions, invTransactions, printTransaction, printInv*","cmd/ofx/*.go")],
observe_at="stdout and exit status of the command")

p("C27","Downloads store exactly the bytes the server sent",
"After a download command succeeds, the named file holds exactly the body of the server's answer, whatever its content or length, replacing previous content. If the request fails, the answer has an error status or breaks off, or the file cannot be written, the command says so and exits with a nonzero status, and an error answer never replaces the file.",
["inputs","fault_sequences"],"All four download commands x body kinds and sizes across buffer boundaries x transfer encodings x break-off points x statuses x file states (absent, longer, shorter, directory, missing directory).",
"The command line client has no tests.",
["cmd/ofx/bankdownload.go","cmd/ofx/ccdownload.go","cmd/ofx/invdownload.go","cmd/ofx/profiledownload.go"],
[("download, ccDownload, invDownload, downloadProfile","cmd/ofx/*.go")],
observe_at="file content, stdout and exit status")

p("C28","Settings detection reports settings the server really accepts",
"Settings detection tries its combinations of application, application version, OFX version and formatting in a fixed order of preference, each with the given credentials and then anonymously, and stops at the first the server accepts. It reports exactly the combination that was accepted, and reports none if none was.",
["configurations","histories"],"All servers accepting exactly one setting (each application/version, each OFX version, each formatting, each credential kind) and servers accepting two or none, over the full settings grid.",
"The command line client has no tests.",
["cmd/ofx/detect_settings.go"],[("detectSettings, tryProfile","cmd/ofx/detect_settings.go")],
observe_at="stdout and exit status; requests seen by a local TLS server")

p("C29","Generated transaction IDs are well-formed and keep all their randomness",
"Every generated identifier is valid and has the recommended 36-character form of five groups of lowercase hexadecimal digits. It carries 128 bits of the system's cryptographic random source: different random bits always give different identifiers, and no identifier repeats or depends on earlier ones.",
["inputs","histories","schedules"],"All single-bit and two-byte changes of the random bytes, all byte values in each position, several delivery patterns of the random source, sequences of calls.",
"Tests call the generator once.",
["types.go"],[("RandomUID","types.go")],observe_at="returned identifier with an enumerated random source")

p("C30","Unsupported content is skipped or refused, never misread",
"Unknown elements and aggregates (such as vendor extensions) inside a supported aggregate are skipped without any effect on the data around them, wherever they stand. Unknown message sets, unsupported transaction kinds in a message set, unknown members of typed lists, and documents lacking the outer element or the signon are refused with an error.",
["inputs"],"Insertion of unknown leaf and aggregate elements (also ones containing known element names) at every position between elements of documents of every message type, in SGML and XML, single and paired.",
"Tests contain one vendor element in one place.",
["response.go","invstmt.go","seclist.go","profile.go"],
[("decodeMessageSet","response.go"),("DecodeResponse","response.go"),("list UnmarshalXML default cases","invstmt.go, seclist.go")],
observe_at="value and error returned by ParseResponse")
p("C31","Generic views of messages and list members agree with their data",
"Every message tells the transaction element it is written as and the message set it belongs to, and every member of a list of investment transactions, positions, open orders or securities tells its own kind and hands out exactly the part its kind shares with the others: the transaction, position or security data it holds, complete and unchanged, whatever its kind, place and content, whether it was parsed or built by the caller.",
["inputs"],"All kinds of members and messages, minimal and maximal, with single deviations of every element, related values, repeated members, long lists and texts; parsed from documents of both syntaxes and built directly.",
"Tests never call most of the accessors, which are written out by hand for each of the 41 kinds of list members.",
["invstmt.go","seclist.go","bank.go","creditcard.go","profile.go","signup.go","signon.go"],
[("TransactionType, InvTransaction, PositionType, InvPosition, OrderType","invstmt.go"),("SecurityType, SecurityInfo","seclist.go"),("Name, Type of all messages","*.go")],
observe_at="values returned by the accessors")

p("C32","Responses are written exactly if they are valid",
"Marshalling a response succeeds exactly if the response is valid: whatever part of whatever message is invalid, wherever it stands, and for versions which do not exist, an error and no document is returned, not even a part of one. A valid response is written whether it was built by the caller or parsed from a document in any encoding, and the written document gives the same data again. Neither validating nor marshalling changes the response.",
["inputs"],"All responses with up to two defects at any element of every message type, every message position, every version number, and all responses parsed from documents with single deviations in every aggregate in five encodings.",
"Tests marshal valid responses only.",
["response.go","request.go","bank.go","creditcard.go","invstmt.go","signup.go","seclist.go","profile.go","signon.go","common.go"],
[("Response.Marshal","response.go"),("encodeMessageSet","request.go"),("writeHeader","common.go"),("Valid of all messages","*.go")],
observe_at="document and error returned by Response.Marshal")
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
