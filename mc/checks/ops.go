package checks

import (
	"bytes"
	"crypto/sha256"
	"crypto/tls"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"

	"verif/mc/model"
)

// Operations on the library whose results are known and depend on nothing but
// their own objects: the alphabet of the concurrency and history explorations.

type opEnv struct {
	basic, quiet, van, dis, def, jar, second ofxgo.Client
	addr, other, plain                       string // TLS echo servers, a plain server
	transport                                *echoTransport
	note                                     func(interface{}) // told of results the caller owns
	ids                                      sync.Map          // every random ID drawn
}

// op is an operation. prep builds its objects; the function it returns performs
// the operation, and the one that returns tells the result.
type op struct {
	name string
	net  bool
	// the objects may be used again
	reuse bool
	prep  func(e *opEnv, id string) func() func() string
}

var (
	maskDt  = regexp.MustCompile(`<DTCLIENT>[^<\r\n]*`)
	userRe  = regexp.MustCompile(`<USERID>([^<\r\n]*)`)
	opUID   = regexp.MustCompile("^[0-9A-Fa-f]{8}(-[0-9A-Fa-f]{4}){3}-[0-9A-Fa-f]{12}$")
	echoRef = map[bool]string{}
)

// echoDoc answers a request with a response that names the user, the user agent
// and a hash of the request.
func echoDoc(body []byte, agent string) string {
	user := "none"
	if m := userRe.FindSubmatch(body); m != nil {
		user = string(m[1])
	}
	h := sha256.Sum256(maskDt.ReplaceAll(body, []byte("<DTCLIENT>")))
	sgml := len(body) > 0 && bytes.Contains(body, []byte("OFXHEADER:100"))
	t := echoRef[sgml]
	t = strings.Replace(t, "ECHOUSER", user, 1)
	t = strings.Replace(t, "ECHOAGENT", agent, 1)
	return strings.Replace(t, "ECHOHASH", hex.EncodeToString(h[:16]), 1)
}

func initEcho() {
	for _, sgml := range []bool{false, true} {
		d := newDoc(map[bool]int{false: 211, true: 102}[sgml], minimal(model.MsgByTag("STMTTRNRS")))
		setLeafText(d.Signon.Find("FI"), []*model.Elem{}, "ORG", "ECHOUSER")
		setLeafText(d.Signon.Find("FI"), []*model.Elem{}, "FID", "ECHOAGENT")
		setLeafText(d.Msgs[0], nil, "TRNUID", "ECHOHASH")
		echoRef[sgml] = d.Write(&model.Style{XML: !sgml, NL: "\n"})
	}
}

// echoTransport is an in-memory server.
type echoTransport struct{ host string }

type pointBody struct {
	r      io.Reader
	chunk  int
	closed bool
}

func (b *pointBody) Read(p []byte) (int, error) {
	schedPoint("response body")
	if b.closed {
		return 0, fmt.Errorf("read after close")
	}
	if len(p) > b.chunk {
		p = p[:b.chunk]
	}
	return b.r.Read(p)
}

func (b *pointBody) Close() error { b.closed = true; return nil }

func (t *echoTransport) RoundTrip(q *http.Request) (*http.Response, error) {
	schedPoint("sending")
	var b []byte
	if q.Body != nil {
		b, _ = io.ReadAll(q.Body)
		q.Body.Close()
	}
	schedPoint("sent")
	status, hdr, body := echoAnswer(q.URL.Path, b, q.Header, t.host)
	if status < 0 {
		return nil, fmt.Errorf("the connection breaks")
	}
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d %s", status, http.StatusText(status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: hdr, Body: &pointBody{r: strings.NewReader(body), chunk: 300}, ContentLength: int64(len(body)), Request: q}, nil
}

// echoAnswer is what the servers answer, by path.
func echoAnswer(path string, body []byte, h http.Header, host string) (int, http.Header, string) {
	out := http.Header{}
	switch {
	case path == "/ok":
		return 200, out, echoDoc(body, h.Get("User-Agent")+h.Get("Cookie"))
	case path == "/cookie":
		// the first request only gets a cookie which names the user
		want := "sess=" + hex.EncodeToString([]byte(user(body)))
		switch got := strings.Join(h.Values("Cookie"), ";"); got {
		case "":
			out.Set("Set-Cookie", want)
			return 200, out, ""
		case want:
			return 200, out, echoDoc(body, h.Get("User-Agent"))
		default:
			return 400, out, "wrong cookie " + got
		}
	case path == "/500":
		return 500, out, "failed for " + user(body)
	case path == "/junk":
		return 200, out, "junk for " + user(body)
	case path == "/half":
		d := echoDoc(body, "")
		return 200, out, d[:len(d)*3/4]
	case path == "/redir":
		out.Set("Location", "https://"+host+"/ok")
		return 307, out, ""
	case path == "/get":
		out.Set("Location", "https://"+host+"/ok")
		return 302, out, ""
	case path == "/plain":
		out.Set("Location", "http://"+host+"/ok")
		return 302, out, ""
	case path == "/loop":
		out.Set("Location", "https://"+host+"/loop")
		return 302, out, ""
	}
	return -1, nil, ""
}

func user(body []byte) string {
	if m := userRe.FindSubmatch(body); m != nil {
		return string(m[1])
	}
	return "none"
}

// newEcho starts a TLS server that answers like the transport. It handles
// connections concurrently.
func (c *Ctx) newEcho(cert tls.Certificate) string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("model: " + err.Error())
	}
	addr := l.Addr().String()
	s := &http.Server{ErrorLog: log.New(io.Discard, "", 0), Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		status, hdr, body := echoAnswer(q.URL.Path, b, q.Header, addr)
		if status < 0 {
			panic(http.ErrAbortHandler)
		}
		for k, v := range hdr {
			w.Header()[k] = v
		}
		w.Header()["Date"] = nil
		w.Header().Set("Content-Length", fmt.Sprint(len(body)))
		w.WriteHeader(status)
		io.WriteString(w, body)
	})}
	s.SetKeepAlivesEnabled(false)
	go s.Serve(tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{cert}, SessionTicketsDisabled: true}))
	c.Defer(func() { s.Close() })
	return addr
}

// newOpEnv makes clients of every kind.
func newOpEnv(addr, other, plain string) *opEnv {
	e := &opEnv{addr: addr, other: other, plain: plain}
	e.transport = &echoTransport{host: "h.example"}
	mk := func() *ofxgo.BasicClient {
		bc := &ofxgo.BasicClient{AppID: "QWIN", AppVer: "2400", UserAgent: "agent", NoIndent: true, HTTPClient: &http.Client{Transport: e.transport}}
		setVersion(reflect.ValueOf(bc).Elem().FieldByName("SpecVersion"), 203)
		return bc
	}
	bc := mk()
	e.basic = bc
	e.van = ofxgo.NewVanguardClient(bc)
	e.dis = ofxgo.NewDiscoverCardClient(bc)
	q := mk()
	setVersion(reflect.ValueOf(q).Elem().FieldByName("SpecVersion"), 103)
	q.NoIndent, q.CarriageReturn, q.UserAgent, q.AppID, q.AppVer = false, true, "", "", ""
	e.quiet = q
	e.def = &ofxgo.BasicClient{}
	e.second = &ofxgo.BasicClient{HTTPClient: &http.Client{Transport: e.transport, CheckRedirect: func(q *http.Request, via []*http.Request) error {
		schedPoint("checkredirect")
		if len(via) > 3 {
			return http.ErrUseLastResponse
		}
		return nil
	}}, AppID: "OWN", UserAgent: "second"}
	return e
}

func opRequest(id string, version int, tags ...string) *ofxgo.Request {
	var ms []*model.Node
	for _, t := range tags {
		ms = append(ms, minimal(model.MsgByTag(t)))
	}
	d := newReqDoc(version, ms...)
	setLeafText(d.Signon, model.SignonRq.Kids, "USERID", id)
	return d.BuildRequest()
}

var maskAddr = regexp.MustCompile(`127\.0\.0\.1:\d+(->127\.0\.0\.1:\d+)?`)

func errText(err error) string {
	return maskAddr.ReplaceAllString(fmt.Sprint(err), "ADDR")
}

func respText(r *ofxgo.Response, err error) string {
	o := "error " + errText(err)
	if r != nil {
		o += "\n" + strings.Join(model.CanonResponse(r), "\n")
	}
	return o
}

// pointReader is a source read in pieces.
type pointReader struct {
	s     string
	chunk int
	fail  error
}

func (r *pointReader) Read(p []byte) (int, error) {
	schedPoint("reading")
	if len(r.s) == 0 {
		if r.fail != nil {
			return 0, r.fail
		}
		return 0, io.EOF
	}
	n := r.chunk
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.s)
	r.s = r.s[n:]
	return n, nil
}

// pointMsg is a message of the caller's own: it wraps one of the library's.
type pointMsg struct {
	ofxgo.Message
}

func (m *pointMsg) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	schedPoint("marshaling")
	err := e.Encode(m.Message)
	schedPoint("marshaled")
	return err
}

// Name is asked for while the request or response is marshaled.
func (m *pointMsg) Name() string {
	schedPoint("naming")
	return m.Message.Name()
}

func wrapAll(r interface{}) {
	v := reflect.ValueOf(r).Elem()
	for _, s := range model.Slots {
		f := v.FieldByName(s.Field)
		for i := 0; i < f.Len(); i++ {
			f.Index(i).Set(reflect.ValueOf(&pointMsg{f.Index(i).Interface().(ofxgo.Message)}))
		}
	}
}

func docOp(name string, chunk int, mk func(id string) string) op {
	return op{name: name, prep: func(e *opEnv, id string) func() func() string {
		src := &pointReader{s: mk(id), chunk: chunk}
		if n := len(src.s)/6 + 1; n > chunk {
			src.chunk = n
		}
		return func() func() string {
			r, err := ofxgo.ParseResponse(src)
			e.owned(r)
			return func() string { return respText(r, err) }
		}
	}}
}

func respDoc(id string, version int, tags ...string) *model.Doc {
	var ms []*model.Node
	for _, t := range tags {
		ms = append(ms, minimal(model.MsgByTag(t)))
	}
	d := newDoc(version, ms...)
	setLeafText(d.Signon.Find("FI"), nil, "ORG", id)
	return d
}

func (e *opEnv) owned(v interface{}) {
	if e.note != nil {
		e.note(v)
	}
}

// bufText tells the result of marshaling, now and whenever it is asked.
func bufText(b *bytes.Buffer, err error) string {
	o := "error " + errText(err)
	if b != nil {
		o += "\n" + maskDt.ReplaceAllString(b.String(), "<DTCLIENT>")
	}
	return o
}

func clientOp(name, kind, entry, path string, version int, tags ...string) op {
	reuse := entry != "raw"
	isNet := kind == "van" || kind == "dis" || kind == "def"
	return op{name: name, net: isNet, reuse: reuse, prep: func(e *opEnv, id string) func() func() string {
		cl := map[string]ofxgo.Client{"basic": e.basic, "quiet": e.quiet, "van": e.van, "dis": e.dis, "def": e.def, "second": e.second}[kind]
		host := "h.example"
		if isNet {
			host = e.addr
		}
		URL := "https://" + host + path
		if strings.HasPrefix(path, "http:") {
			URL = path
		}
		r := opRequest(id, version, tags...)
		if entry == "invalid" {
			r.Signon.UserPass = ""
		}
		r.URL = URL
		raw := &pointReader{s: "<USERID>" + id + "<raw bytes>", chunk: 9}
		return func() func() string {
			var resp *http.Response
			var parsed *ofxgo.Response
			var err error
			switch entry {
			case "parsed", "invalid":
				parsed, err = cl.Request(r)
				e.owned(parsed)
				return func() string { return respText(parsed, err) }
			case "noparse":
				resp, err = cl.RequestNoParse(r)
			case "raw":
				resp, err = cl.RawRequest(URL, raw)
			}
			var body []byte
			var rerr error
			read := false
			return func() string {
				o := "error " + errText(err)
				if resp != nil {
					if !read {
						read = true
						body, rerr = io.ReadAll(resp.Body)
						resp.Body.Close()
					}
					o += fmt.Sprintf("\nstatus %d\n%s\n%v", resp.StatusCode, body, errText(rerr))
				}
				return o
			}
		}
	}}
}

func marshalRespOp(name string, version int, mut func(*ofxgo.Response), tags ...string) op {
	return op{name: name, reuse: true, prep: func(e *opEnv, id string) func() func() string {
		r := respDoc(id, version, tags...).BuildResponse()
		wrapAll(r)
		if mut != nil {
			mut(r)
		}
		return func() func() string {
			b, err := r.Marshal()
			e.owned(b)
			return func() string { return bufText(b, err) }
		}
	}}
}

func marshalReqOp(name, client string, version int, mut func(*ofxgo.Request), tags ...string) op {
	return op{name: name, reuse: true, prep: func(e *opEnv, id string) func() func() string {
		r := opRequest(id, version, tags...)
		wrapAll(r)
		if mut != nil {
			mut(r)
		}
		cl := map[string]ofxgo.Client{"basic": e.basic, "quiet": e.quiet, "second": e.second}[client]
		return func() func() string {
			if cl != nil {
				r.SetClientFields(cl)
			}
			schedPoint("before marshaling")
			b, err := r.Marshal()
			e.owned(b)
			return func() string { return bufText(b, err) }
		}
	}}
}

func allOps() []op {
	if len(echoRef) == 0 {
		initEcho()
	}
	sgml := func(v int, tags ...string) func(id string) string {
		return func(id string) string {
			return respDoc(id, v, tags...).Write(&model.Style{NL: "\n"})
		}
	}
	xmlDoc := func(v int, tags ...string) func(id string) string {
		return func(id string) string { return respDoc(id, v, tags...).Write(&model.Style{XML: true}) }
	}
	edit := func(f func(id string) string, old, new string) func(id string) string {
		return func(id string) string {
			t := f(id)
			u := strings.Replace(t, old, new, 1)
			if t == u {
				panic("model: no " + old + " in " + t)
			}
			return u
		}
	}
	cut := func(f func(id string) string, num, den int) func(id string) string {
		return func(id string) string { t := f(id); return t[:len(t)*num/den] }
	}
	dateRe := regexp.MustCompile(`<DTSERVER>[^<\n]*`)
	ops := []op{
		docOp("parse sgml bank", 100, sgml(102, "STMTTRNRS")),
		docOp("parse xml card and bank", 100, xmlDoc(220, "CCSTMTTRNRS", "STMTTRNRS")),
		docOp("parse sgml investments", 100, sgml(103, "INVSTMTTRNRS", "SECLISTTRNRS")),
		docOp("parse xml accounts and profile", 100, xmlDoc(203, "ACCTINFOTRNRS", "PROFTRNRS")),
		docOp("parse truncated", 100, cut(xmlDoc(203, "STMTTRNRS"), 2, 3)),
		docOp("parse truncated sgml", 100, cut(sgml(102, "INVSTMTTRNRS"), 3, 4)),
		docOp("parse header only", 10, cut(sgml(102, "STMTTRNRS"), 1, 20)),
		docOp("parse bad header", 10, edit(sgml(102, "STMTTRNRS"), "102", "999")),
		docOp("parse bad element", 100, edit(xmlDoc(211, "CCSTMTTRNRS"), "<CCSTMTTRNRS>", "<NONSENSERS></NONSENSERS><CCSTMTTRNRS>")),
		docOp("parse bad date", 100, func(id string) string {
			return dateRe.ReplaceAllString(xmlDoc(211, "CCSTMTTRNRS")(id), "<DTSERVER>20019999")
		}),
		docOp("parse incomplete", 100, func(id string) string {
			d := respDoc(id, 203, "STMTTRNRS")
			d.Msgs[0].Remove("TRNUID")
			return d.Write(&model.Style{XML: true})
		}),
		docOp("parse no signon", 100, func(id string) string {
			return edit(xmlDoc(203, "STMTTRNRS"), "<SIGNONMSGSRSV1>", "<X></X><SIGNONMSGSRSV1>")(id)
		}),
		docOp("parse nothing", 10, func(string) string { return "" }),
		marshalRespOp("marshal response", 211, nil, "STMTTRNRS", "CCSTMTTRNRS"),
		marshalRespOp("marshal sgml response", 102, nil, "INVSTMTTRNRS"),
		marshalRespOp("marshal invalid response", 211, func(r *ofxgo.Response) { r.Bank = append(r.Bank, r.Bank[0], &ofxgo.CCStatementResponse{}) }, "STMTTRNRS"),
		marshalRespOp("marshal response without signon", 211, func(r *ofxgo.Response) { r.Signon = ofxgo.SignonResponse{} }, "STMTTRNRS"),
		marshalReqOp("marshal request", "", 102, nil, "STMTTRNRQ", "PROFTRNRQ"),
		marshalReqOp("marshal request for client", "basic", 203, nil, "CCSTMTTRNRQ", "ACCTINFOTRNRQ"),
		marshalReqOp("marshal request for quiet client", "quiet", 203, nil, "INVSTMTTRNRQ", "SECLISTTRNRQ"),
		marshalReqOp("marshal invalid request", "basic", 203, func(r *ofxgo.Request) { r.Signon.UserID = "" }, "STMTTRNRQ"),
		marshalReqOp("marshal misfiled request", "", 203, func(r *ofxgo.Request) { r.CreditCard = r.Bank }, "STMTTRNRQ"),
		marshalReqOp("marshal request of unknown version", "", 203, func(r *ofxgo.Request) { r.Version = 0 }, "STMTTRNRQ"),
		clientOp("request", "basic", "parsed", "/ok", 203, "STMTTRNRQ"),
		clientOp("raw request", "basic", "raw", "/ok", 203),
		clientOp("unparsed request", "basic", "noparse", "/ok", 203, "CCSTMTTRNRQ"),
		clientOp("refused request", "basic", "parsed", "/500", 203, "STMTTRNRQ"),
		clientOp("unparsed refused request", "basic", "noparse", "/500", 203, "STMTTRNRQ"),
		clientOp("request answered by junk", "basic", "parsed", "/junk", 203, "STMTTRNRQ"),
		clientOp("request answered by half", "basic", "parsed", "/half", 203, "STMTTRNRQ"),
		clientOp("broken request", "basic", "parsed", "/broken", 203, "STMTTRNRQ"),
		clientOp("invalid request", "basic", "invalid", "/ok", 203, "STMTTRNRQ"),
		clientOp("redirected request", "basic", "parsed", "/redir", 203, "STMTTRNRQ"),
		clientOp("request redirected to http", "basic", "parsed", "/plain", 203, "STMTTRNRQ"),
		clientOp("request to http", "basic", "parsed", "http://h.example/ok", 203, "STMTTRNRQ"),
		clientOp("sgml request", "quiet", "parsed", "/ok", 203, "STMTTRNRQ", "ACCTINFOTRNRQ"),
		clientOp("sgml raw request", "quiet", "raw", "/ok", 203),
		clientOp("own client request", "second", "parsed", "/ok", 103, "PROFTRNRQ"),
		clientOp("own client endless redirect", "second", "parsed", "/loop", 103, "PROFTRNRQ"),
		{name: "random ids", prep: func(e *opEnv, id string) func() func() string {
			return func() func() string {
				var ids []string
				var errs []error
				for i := 0; i < 4; i++ {
					u, err := ofxgo.RandomUID()
					if err != nil {
						errs = append(errs, err)
						continue
					}
					ids = append(ids, string(*u))
					schedPoint("next id")
				}
				told := ""
				return func() string {
					if told != "" {
						return told
					}
					told = fmt.Sprint(errs)
					for _, s := range ids {
						_, seen := e.ids.LoadOrStore(s, true)
						told += fmt.Sprintf(" %v %v", opUID.MatchString(s), seen)
					}
					return told
				}
			}
		}},
		{name: "values", prep: func(e *opEnv, id string) func() func() string {
			return func() func() string { o := valuesOnce(); return func() string { return o } }
		}},
		{name: "pick clients", prep: func(e *opEnv, id string) func() func() string {
			var own []*ofxgo.BasicClient
			for i := 0; i < 4; i++ {
				own = append(own, &ofxgo.BasicClient{AppID: id})
			}
			return func() func() string {
				o := ""
				for i, u := range []string{"https://ofx.discovercard.com", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet/", "https://example.com/ofx", "https://ofx.discovercard.com/"} {
					cl := ofxgo.GetClient(u, own[i])
					o += fmt.Sprintf("%T %s %s\n", cl, cl.ID(), cl.Version())
					schedPoint("next client")
				}
				return func() string { return o }
			}
		}},
		clientOp("vanguard request", "van", "parsed", "/cookie", 203, "STMTTRNRQ"),
		clientOp("vanguard unparsed request", "van", "noparse", "/ok", 203, "STMTTRNRQ"),
		clientOp("vanguard refused request", "van", "noparse", "/500", 203, "STMTTRNRQ"),
		clientOp("vanguard redirect to http", "van", "parsed", "/plain", 203, "STMTTRNRQ"),
		clientOp("discover request", "dis", "parsed", "/ok", 203, "CCSTMTTRNRQ"),
		clientOp("discover raw request", "dis", "raw", "/ok", 203),
		clientOp("discover refused request", "dis", "parsed", "/500", 203, "CCSTMTTRNRQ"),
		clientOp("default client request", "def", "parsed", "/ok", 203, "CCSTMTTRNRQ"),
		clientOp("default client redirected", "def", "noparse", "/get", 203, "CCSTMTTRNRQ"),
		clientOp("default client redirected to http", "def", "parsed", "/plain", 203, "CCSTMTTRNRQ"),
	}
	return ops
}

// valuesOnce converts values of every simple type.
func valuesOnce() string {
	var b strings.Builder
	say := func(s fmt.Stringer, err error) { fmt.Fprintf(&b, "%v %v\n", s, err) }
	for _, t := range []string{"12.34", "-1,5", "x", "1e3", ".5"} {
		var a ofxgo.Amount
		err := xml.Unmarshal(leafXML(t), &a)
		say(&a, err)
	}
	schedPoint("dates")
	for _, t := range []string{"20200229", "20201231235959.123[-5:EST]", "20201231235959", "bad", "20200101120000[+5.30:IST]", "20010203040506[0:GMT]"} {
		var d ofxgo.Date
		err := xml.Unmarshal(leafXML(t), &d)
		say(d, err)
		if err == nil {
			m, err := xml.Marshal(d)
			fmt.Fprintf(&b, "%s %v\n", m, err)
		}
	}
	schedPoint("words")
	at, err := ofxgo.NewAcctType("SAVINGS")
	say(at, err)
	tt, err := ofxgo.NewTrnType("nonsense")
	say(tt, err)
	cs, err := ofxgo.NewCurrSymbol("EUR")
	fmt.Fprintf(&b, "%v %v\n", cs, err)
	_, err = ofxgo.NewCurrSymbol("???")
	fmt.Fprintf(&b, "%v\n", err)
	schedPoint("statuses")
	for _, n := range []ofxgo.Int{0, 2000, 15500, 31337} {
		s := ofxgo.Status{Code: n, Severity: "INFO"}
		m, err := s.CodeMeaning()
		q, err2 := s.CodeConditions()
		ok, err3 := s.Valid()
		fmt.Fprintf(&b, "%q %v %q %v %v %v\n", m, err, q, err2, ok, err3)
	}
	schedPoint("dates")
	d := ofxgo.NewDateGMT(2017, 5, 12, 12, 13, 14, 0)
	e := ofxgo.NewDate(2017, 5, 12, 8, 13, 14, 0, time.FixedZone("EDT", -4*3600))
	fmt.Fprintf(&b, "%v %v %v\n", d, e, d.Equal(*e))
	return b.String()
}

// layoutOp marshals a request for a client of its own.
func layoutOp(v int, st reqStyle) op {
	return op{name: fmt.Sprintf("marshal (%d) in layout %+v", v, st), reuse: true, prep: func(e *opEnv, id string) func() func() string {
		r := opRequest(id, v, "STMTTRNRQ")
		return func() func() string {
			r.SetClientFields(basicClient(v, st))
			b, err := r.Marshal()
			e.owned(b)
			return func() string { return bufText(b, err) }
		}
	}}
}

// formatOps parses and marshals documents of every kind, with every kind of
// defect.
func formatOps() []op {
	var ops []op
	style := func(v int) *model.Style {
		if v >= 200 {
			return &model.Style{XML: true}
		}
		return &model.Style{NL: "\n", EndTags: v == 160}
	}
	doc := func(name string, v int, max bool, f func(d *model.Doc), tags ...string) {
		ops = append(ops, docOp(fmt.Sprintf("parse %s (%d, %v)", name, v, tags), 1000, func(id string) string {
			var ms []*model.Node
			for _, t := range tags {
				g := &model.Gen{C: model.NoChoice{}, Max: max}
				ms = append(ms, g.Msg(model.MsgByTag(t)))
			}
			d := newDoc(v, ms...)
			setLeafText(d.Signon.Find("FI"), nil, "ORG", id)
			if f != nil {
				f(d)
			}
			return d.Write(style(v))
		}))
	}
	text := func(name string, v int, f func(string) string, tags ...string) {
		ops = append(ops, docOp(fmt.Sprintf("parse %s (%d, %v)", name, v, tags), 1000, func(id string) string {
			return f(respDoc(id, v, tags...).Write(style(v)))
		}))
	}
	for _, v := range []int{102, 160, 203, 220} {
		for _, m := range model.Responses {
			doc("minimal", v, false, nil, m.Tag)
		}
	}
	for _, v := range []int{103, 203} {
		for i, m := range model.Responses {
			m := m
			if v == 203 {
				doc("maximal", v, true, nil, m.Tag)
			}
			other := model.Responses[(i+3)%len(model.Responses)]
			if other.Set == m.Set {
				other = model.Responses[(i+4)%len(model.Responses)]
			}
			set := func(m *model.Msg) string { return m.Set + "V1>" }
			text("misfiled", v, func(s string) string { return strings.ReplaceAll(s, set(m), set(other)) }, m.Tag)
			text("unknown set", v, func(s string) string { return strings.ReplaceAll(s, set(m), "NEWMSGSRSV1>") }, m.Tag)
			text("unknown message", v, func(s string) string {
				return strings.Replace(s, "<"+m.Tag+">", "<NEWTRNRS></NEWTRNRS><"+m.Tag+">", 1)
			}, m.Tag)
			text("unknown element", v, func(s string) string {
				return strings.Replace(s, "<"+m.Tag+">", "<"+m.Tag+"><NEW.THING><X></X></NEW.THING>", 1)
			}, m.Tag)
			text("cut message", v, func(s string) string { return s[:strings.LastIndex(s, "</"+m.Tag+">")] }, m.Tag)
			text("cut end", v, func(s string) string { return s[:len(s)-8] }, m.Tag)
			if m.Tag != "SECLIST" {
				doc("invalid", v, false, func(d *model.Doc) { d.Msgs[0].Remove("TRNUID") }, m.Tag)
				doc("bad code", v, false, func(d *model.Doc) {
					k := d.Msgs[0].Path("STATUS/CODE")
					k.Text = "4x"
				}, m.Tag)
				doc("failed", v, false, func(d *model.Doc) {
					setStatus(d.Msgs[0], [2]string{"2000", "ERROR"})
				}, m.Tag)
			}
		}
		doc("everything", v, false, nil, "ACCTINFOTRNRS", "STMTTRNRS", "STMTTRNRS", "CCSTMTTRNRS", "INVSTMTTRNRS", "SECLISTTRNRS", "SECLIST", "PROFTRNRS")
		doc("nothing", v, false, nil)
		doc("bad signon", v, false, func(d *model.Doc) { d.Signon.Remove("LANGUAGE") })
		doc("failed signon", v, false, func(d *model.Doc) { setStatus(d.Signon, [2]string{"15500", "ERROR"}) })
		text("no end of signon", v, func(s string) string { return strings.Replace(s, "</SONRS>", "", 1) }, "STMTTRNRS")
		text("no root", v, func(s string) string { return strings.Replace(s, "<OFX>", "<XFO>", 1) }, "STMTTRNRS")
		text("unknown version", v, func(s string) string { return strings.Replace(s, fmt.Sprint(v), "999", 1) }, "STMTTRNRS")
		text("bad security", v, func(s string) string { return strings.Replace(s, "NONE", "SOME", 1) }, "STMTTRNRS")
		text("one byte", v, func(s string) string { return s[:1] })
		text("half header", v, func(s string) string { return s[:60] })
	}
	for _, v := range []int{102, 160, 203, 220} {
		for _, m := range model.Responses {
			ops = append(ops, marshalRespOp(fmt.Sprintf("marshal %s (%d)", m.Tag, v), v, nil, m.Tag))
		}
		for _, m := range model.Requests {
			ops = append(ops, marshalReqOp(fmt.Sprintf("marshal %s (%d)", m.Tag, v), "", v, nil, m.Tag))
		}
		ops = append(ops, marshalReqOp(fmt.Sprintf("marshal misfiled (%d)", v), "", v, func(r *ofxgo.Request) { r.CreditCard, r.Bank = r.Bank, nil }, "STMTTRNRQ"),
			marshalReqOp(fmt.Sprintf("marshal invalid (%d)", v), "", v, func(r *ofxgo.Request) { r.Signon.UserID = "" }, "STMTTRNRQ"),
			marshalReqOp(fmt.Sprintf("marshal for basic (%d)", v), "basic", v, nil, "STMTTRNRQ"),
			marshalReqOp(fmt.Sprintf("marshal for quiet (%d)", v), "quiet", v, nil, "STMTTRNRQ"))
		// the same version laid out in every way
		for _, st := range reqStyles[1:] {
			ops = append(ops, layoutOp(v, st))
		}
	}
	return ops
}
