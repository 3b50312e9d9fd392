package checks

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/cookiejar"
	"net/url"
	"os"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C18", "exhaustive enumeration of URLs and redirect chains for every client kind and entry point, with servers and transports that count what reaches them", "", c18)
	register("C19", "exhaustive enumeration of settings, request sources and server answers, with a recording transport and recording TLS servers", "", c19)
	register("C20", "exhaustive enumeration of pairs of answers of a scripted TLS server", "", c20)
	register("C21", "exhaustive enumeration of URLs, sources, sizes and answers with a recording TLS server", "", c21)
	register("C22", "exhaustive enumeration of URLs near the special ones and of client and request settings", "", c22)
}

var entries = []string{"raw", "noparse", "parsed"}

// callResult is what came of calling a client.
type callResult struct {
	resp   *http.Response
	parsed *ofxgo.Response
	err    error
}

// call performs a request by one of the three ways.
func call(cl ofxgo.Client, entry, URL string, r *ofxgo.Request, raw io.Reader) (o callResult) {
	switch entry {
	case "raw":
		o.resp, o.err = cl.RawRequest(URL, raw)
	case "noparse":
		r.URL = URL
		o.resp, o.err = cl.RequestNoParse(r)
	case "parsed":
		r.URL = URL
		o.parsed, o.err = cl.Request(r)
	}
	return
}

func simpleRequest() *ofxgo.Request {
	return newReqDoc(203, minimal(model.MsgByTag("STMTTRNRQ"))).BuildRequest()
}

// settings makes a client with settings of one kind or another, and a request:
// what is asserted of calls holds whatever the format and the identity.
func (c *Ctx) settings(x *explore.X) (*ofxgo.BasicClient, *ofxgo.Request) {
	return settingsOf(x.Choose("settings", c.Pick(3, 5)))
}

func settingsOf(k int) (*ofxgo.BasicClient, *ofxgo.Request) {
	bc := &ofxgo.BasicClient{}
	tags := []string{"STMTTRNRQ"}
	v := 203
	switch k {
	case 1:
		bc.NoIndent, v = true, 103
		tags = []string{"PROFTRNRQ", "ACCTINFOTRNRQ"}
	case 2:
		bc.CarriageReturn, bc.UserAgent, bc.AppID, bc.AppVer, v = true, "ua/2", "QWIN", "2700", 220
		tags = []string{"CCSTMTTRNRQ", "INVSTMTTRNRQ", "SECLISTTRNRQ"}
	case 3:
		bc.NoIndent, bc.CarriageReturn, bc.UserAgent, v = true, true, "InetClntApp/3.0", 102
		tags = []string{"INVSTMTTRNRQ"}
	case 4:
		bc.AppID, v = "A", 160
		tags = []string{"STMTTRNRQ", "STMTTRNRQ", "CCSTMTTRNRQ"}
	}
	if k > 0 {
		setVersion(reflect.ValueOf(bc).Elem().FieldByName("SpecVersion"), v)
	}
	var ms []*model.Node
	for _, t := range tags {
		ms = append(ms, minimal(model.MsgByTag(t)))
	}
	return bc, newReqDoc(203, ms...).BuildRequest()
}

func goodDoc() string {
	return newDoc(203, minimal(model.MsgByTag("STMTTRNRS"))).Write(&model.Style{XML: true})
}

// memHop is one answer of an in-memory transport.
type memTransport struct {
	urls   []string
	bodies []string
	answer func(i int, q *http.Request) (*http.Response, error)
}

func (t *memTransport) RoundTrip(q *http.Request) (*http.Response, error) {
	var b []byte
	if q.Body != nil {
		b, _ = io.ReadAll(q.Body)
		q.Body.Close()
	}
	t.urls = append(t.urls, q.URL.String())
	t.bodies = append(t.bodies, string(b))
	return t.answer(len(t.urls)-1, q)
}

func memReply(q *http.Request, status int, hdr map[string]string, body string) *http.Response {
	h := http.Header{}
	for k, v := range hdr {
		h.Set(k, v)
	}
	return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d Status", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: io.NopCloser(strings.NewReader(body)), ContentLength: int64(len(body)), Request: q}
}

func c18(c *Ctx) {
	c.Assume = append(c.Assume, "the caller's own http.Transport and CheckRedirect run as given; an https URL in capitals may be refused")
	p := c.newPKI()
	envs := c.newEnvs(p, 16)
	at := func(x *explore.X) *netEnv { return envs[x.Worker()%len(envs)] }
	// URLs passed by the caller
	mkURLs := func(plain, tlsAddr string) []string {
		u := []string{
			"http://" + plain + "/", "http://" + plain, "HTTP://" + plain + "/", "Http://" + plain + "/", "http:/" + plain, "http:" + plain + "/", "//" + plain + "/", "/" + plain + "/", plain + "/", "", " ", "/", "http://",
			" http://" + plain + "/", "\thttp://" + plain + "/", "http://" + plain + "/?https://x", "http://" + plain + "/#https://" + tlsAddr + "/", "http://https://" + tlsAddr + "/", "http://" + plain + "/https://" + tlsAddr + "/",
			"http://user:pass@" + plain + "/", "http://https@" + plain + "/", "ftp://" + plain + "/", "file:///etc/passwd", "ws://" + plain + "/", "wss://" + plain + "/", "data:text/plain,x", "mailto:x@y", "javascript:x",
			"httpss://" + plain + "/", "https1://" + plain + "/", "shttp://" + plain + "/", "xhttps://" + plain + "/", "https+http://" + plain + "/", "https.http://" + plain + "/", "http+https://" + plain + "/",
			"https:/" + plain, "https:" + plain, "https//" + plain, "https", "https:", "https:/", "https://", "ttps://" + plain + "/", "httpS//" + plain, " https://" + plain + "/", "\nhttps://" + plain + "/", "\"https://" + plain + "/", "http\u017f://" + plain + "/", "\uff48ttps://" + plain + "/",
			"http:https://" + plain + "/", "http:\\\\" + plain + "/", "http://" + plain + "\\@https://x/", "http://localhost:" + plain[strings.LastIndex(plain, ":")+1:] + "/",
			"http://" + plain + "/ofx.discovercard.com", "http://ofx.discovercard.com@" + plain + "/", "http://" + plain + "/us/OfxDirectConnectServlet",
		}
		return u
	}
	// is a URL one of the https scheme, by the book?
	isHTTPS := func(u string) bool {
		q, err := url.Parse(u)
		return err == nil && q.Scheme == "https"
	}
	doc := goodDoc()
	c.Space(&explore.Space{Name: "urls", Body: func(x *explore.X) {
		e := at(x)
		n := len(mkURLs("h:1", "h:2"))
		var extra []string
		for _, s := range Lit.Strings {
			if strings.Contains(s, ":") || strings.Contains(s, "/") {
				extra = append(extra, s)
			}
		}
		i := x.Choose("url", n+2*len(extra))
		var u string
		if i < n {
			u = mkURLs(e.plain.addr(), e.a.addr())[i]
		} else if i < n+len(extra) {
			u = extra[i-n] + e.plain.addr() + "/"
		} else {
			u = "http://" + e.plain.addr() + "/" + extra[i-n-len(extra)]
		}
		kind := clientKinds[x.Choose("client", 3)]
		entry := entries[x.Choose("entry", 3)]
		mem := x.Choose("transport", 2) == 1
		mt := &memTransport{answer: func(i int, q *http.Request) (*http.Response, error) { return memReply(q, 200, nil, doc), nil }}
		bc, rq := c.settings(x)
		if mem {
			if kind != "basic" {
				x.Skip()
			}
			bc.HTTPClient = &http.Client{Transport: mt}
		}
		e.plain.script(func(int, *recorded) reply { return reply{Status: 200, Body: doc} })
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: doc} })
		raw := &countReader{r: strings.NewReader("secret")}
		o := call(makeClient(kind, bc), entry, u, rq, raw)
		if o.resp != nil && o.resp.Body != nil {
			o.resp.Body.Close()
		}
		log, conns := e.plain.sync()
		_, conns2 := e.a.sync()
		if conns > 0 && !strings.HasPrefix(u, "https://") || len(log) > 0 {
			x.Fail("sent", "%s client, %s: a request to %q reaches the server (%d connections, %d requests)", kind, entry, u, conns, len(log))
		}
		if !isHTTPS(u) {
			if o.err == nil {
				x.Fail("no error", "%s client, %s: URL %q is no https URL, but there is no error", kind, entry, u)
			}
			if len(mt.urls) > 0 || conns2 > 0 {
				x.Fail("sent", "%s client, %s: something is transmitted for URL %q", kind, entry, u)
			}
		} else {
			for _, m := range mt.urls {
				if !strings.HasPrefix(m, "https:") {
					x.Fail("sent", "%s client, %s: %s is contacted for URL %q", kind, entry, m, u)
				}
			}
		}
		x.State(u, kind, entry, fmt.Sprint(mem, o.err != nil))
		x.Sample(fmt.Sprintf("%s %s %q: %v", kind, entry, u, o.err))
	}})
	// chains of redirects
	statuses := []int{302, 307, 301, 303, 308}
	targets := func(e *netEnv) []string {
		return []string{
			"https://" + e.a.addr() + "/r", "https://" + e.b.addr() + "/r", "http://" + e.plain.addr() + "/r", "HTTP://" + e.plain.addr() + "/r", "/rel", "//" + e.b.addr() + "/r", "ftp://" + e.plain.addr() + "/", "http://" + e.a.addr() + "/r", "?q", "http:/" + e.plain.addr(),
			"http://user:p@" + e.plain.addr() + "/", "http://" + e.plain.addr() + "/https://x",
		}
	}
	chain := func(x *explore.X, depth int, kind, entry string, mem bool, checkRedirect int) {
		e := at(x)
		ts := targets(e)
		mt := &memTransport{}
		type hop struct {
			to     string
			status int
		}
		var hops []hop
		n := x.Choose("hops", depth+1)
		for i := 0; i < n; i++ {
			k := len(ts)
			if !mem && !c.Thorough() {
				k = 6
			}
			hops = append(hops, hop{ts[x.Choose("target", k)], statuses[x.Choose("status", c.Pick(3, 5))]})
		}
		bc, rq := settingsOf(0)
		if n < 3 {
			bc, rq = c.settings(x)
		}
		cookies := 0
		emptyAt := 0
		if kind == "vanguard" && entry != "raw" {
			cookies = x.Choose("cookies", 4)
			if cookies > 0 && n > 0 {
				emptyAt = x.Choose("empty at", 2)
			}
		}
		give := func(i int) reply {
			if cookies > 0 && i >= emptyAt {
				if i == emptyAt {
					return reply{Status: 200, Fields: []string{"Set-Cookie: a=b", "Set-Cookie: c=d; Secure", "Set-Cookie: e=f; Path=/"}[:cookies], How: "length"}
				}
				i--
			}
			if i < len(hops) {
				return reply{Status: hops[i].status, Fields: []string{"Location: " + hops[i].to}, How: "length"}
			}
			return reply{Status: 200, Body: doc}
		}
		count := 0
		mt.answer = func(i int, q *http.Request) (*http.Response, error) {
			g := give(i)
			h := map[string]string{}
			for _, f := range g.Fields {
				k, v, _ := strings.Cut(f, ": ")
				h[k] = v
			}
			return memReply(q, g.Status, h, g.Body), nil
		}
		next := func(int, *recorded) reply { count++; return give(count - 1) }
		e.a.script(next)
		e.b.script(next)
		e.plain.script(next)
		if mem {
			bc.HTTPClient = &http.Client{Transport: mt}
		} else if kind == "basic" && checkRedirect > 0 {
			bc.HTTPClient = &http.Client{}
		}
		switch checkRedirect {
		case 1:
			bc.HTTPClient.CheckRedirect = func(*http.Request, []*http.Request) error { return nil }
		case 2:
			bc.HTTPClient.CheckRedirect = func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }
		}
		o := call(makeClient(kind, bc), entry, "https://"+e.a.addr()+"/start", rq, strings.NewReader("secret"))
		if o.resp != nil && o.resp.Body != nil {
			o.resp.Body.Close()
		}
		_, conns := e.plain.sync()
		e.a.sync()
		e.b.sync()
		desc := fmt.Sprintf("%s client, %s, redirects %v", kind, entry, hops)
		if conns > 0 {
			x.Fail("sent", "%s: %d connections to the http server", desc, conns)
		}
		for _, u := range mt.urls {
			if !strings.HasPrefix(u, "https://") {
				x.Fail("sent", "%s: request to %s", desc, u)
			}
		}
		bad := false
		for i, h := range hops {
			q, err := url.Parse(h.to)
			if err != nil || q.Scheme != "https" && q.Scheme != "" {
				bad = true
				_ = i
				break
			}
		}
		if bad && o.err == nil {
			x.Fail("no error", "%s: no error (%v)", desc, o.parsed)
		}
		if kind == "discover" && n > 0 && o.err == nil {
			x.Fail("no error", "%s: no error", desc)
		}
		x.State(desc, fmt.Sprint(o.err != nil, mem, checkRedirect))
		x.Sample(fmt.Sprintf("%s: %v", desc, o.err))
	}
	c.Space(&explore.Space{Name: "redirects/transport", Body: func(x *explore.X) {
		chain(x, c.Pick(2, 3), "basic", entries[x.Choose("entry", 3)], true, x.Choose("checkredirect", 3))
	}})
	c.Space(&explore.Space{Name: "redirects/basic", Body: func(x *explore.X) {
		chain(x, c.Pick(2, 3), "basic", entries[x.Choose("entry", 3)], false, x.Choose("checkredirect", 3))
	}})
	c.Space(&explore.Space{Name: "redirects/vanguard", Body: func(x *explore.X) {
		chain(x, c.Pick(2, 2), "vanguard", entries[x.Choose("entry", 3)], false, 0)
	}})
	c.Space(&explore.Space{Name: "redirects/discover", Body: func(x *explore.X) {
		chain(x, 1, "discover", entries[x.Choose("entry", 3)], false, 0)
	}})
	// long chains: the http target comes late
	c.Space(&explore.Space{Name: "redirects/late", Body: func(x *explore.X) {
		ns := append([]int{3, 5, 8, 9, 10, 11, 15, 20}, litSizes(40)...)
		n := ns[x.Choose("hops", len(ns))]
		st := statuses[x.Choose("status", 5)]
		entry := entries[x.Choose("entry", 3)]
		own := x.Choose("checkredirect", 2) == 1
		mt := &memTransport{}
		mt.answer = func(i int, q *http.Request) (*http.Response, error) {
			to := fmt.Sprintf("https://h%d.example/", i)
			if i == n-1 {
				to = "http://plain.example/"
			}
			if i > 60 {
				return memReply(q, 200, nil, doc), nil
			}
			return memReply(q, st, map[string]string{"Location": to}, ""), nil
		}
		bc, rq := c.settings(x)
		bc.HTTPClient = &http.Client{Transport: mt}
		if own {
			bc.HTTPClient.CheckRedirect = func(*http.Request, []*http.Request) error { return nil }
		}
		o := call(bc, entry, "https://start.example/", rq, strings.NewReader("secret"))
		for _, u := range mt.urls {
			if !strings.HasPrefix(u, "https://") {
				x.Fail("sent", "after %d redirects: request to %s", len(mt.urls)-1, u)
			}
		}
		if o.err == nil {
			x.Fail("no error", "%d redirects, then http: no error", n)
		}
		x.State(fmt.Sprint(n, st, entry, own, len(mt.urls)))
	}})
}

// countReader notes whether it was read.
type countReader struct {
	r io.Reader
	n int
}

func (c *countReader) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	c.n += n
	return n, err
}

// trackBody is a response body that notes reads and closes.
type trackBody struct {
	r      io.Reader
	closed int
	late   bool // read after close
}

func (b *trackBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.late = true
		return 0, errors.New("read after close")
	}
	return b.r.Read(p)
}

func (b *trackBody) Close() error { b.closed++; return nil }

// failAfter fails instead of reaching the end.
type failAfter struct {
	r   io.Reader
	err error
}

func (f *failAfter) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

// oneByte reads byte by byte.
type oneByte struct{ r io.Reader }

func (o *oneByte) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return o.r.Read(p[:1])
}

// withEOF returns the end together with the last bytes.
type withEOF struct{ b []byte }

func (w *withEOF) Read(p []byte) (int, error) {
	n := copy(p, w.b)
	w.b = w.b[n:]
	if len(w.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// stutter returns empty reads in between.
type stutter struct {
	b []byte
	k int
}

func (s *stutter) Read(p []byte) (int, error) {
	s.k++
	if s.k%2 == 1 && s.k < 40 {
		return 0, nil
	}
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := copy(p, s.b)
	if n > 7 {
		n = 7
	}
	s.b = s.b[n:]
	return n, nil
}

// halfRead reads the first seven bytes, which are not to be sent.
func halfRead(r io.Reader) io.Reader {
	if _, err := io.ReadFull(r, make([]byte, 7)); err != nil {
		panic("model: source: " + err.Error())
	}
	return r
}

var sourceKinds = []string{"bytes.Buffer", "bytes.Reader", "strings.Reader", "one byte", "with EOF", "stutter", "half-read buffer", "half-read bytes.Reader", "half-read strings.Reader", "half-read file", "half-read section", "half-read bufio", "limited", "joined"}

func source(kind string, content string) io.Reader {
	switch kind {
	case "bytes.Buffer":
		return bytes.NewBufferString(content)
	case "bytes.Reader":
		return bytes.NewReader([]byte(content))
	case "strings.Reader":
		return strings.NewReader(content)
	case "one byte":
		return &oneByte{strings.NewReader(content)}
	case "with EOF":
		return &withEOF{[]byte(content)}
	case "stutter":
		return &stutter{b: []byte(content)}
	case "half-read buffer":
		b := bytes.NewBufferString("skipped" + content)
		b.Next(7)
		return b
	case "half-read bytes.Reader":
		return halfRead(bytes.NewReader([]byte("skipped" + content)))
	case "half-read strings.Reader":
		return halfRead(strings.NewReader("skipped" + content))
	case "half-read file":
		f, err := os.CreateTemp("", "mcsource")
		must(err)
		must(os.Remove(f.Name()))
		_, err = f.WriteString("skipped" + content)
		must(err)
		_, err = f.Seek(0, io.SeekStart)
		must(err)
		return halfRead(f)
	case "half-read section":
		return halfRead(io.NewSectionReader(strings.NewReader("outside"+"skipped"+content+"outside"), 7, int64(7+len(content))))
	case "half-read bufio":
		return halfRead(bufio.NewReader(strings.NewReader("skipped" + content)))
	case "limited":
		return io.LimitReader(strings.NewReader(content+"outside"), int64(len(content)))
	case "joined":
		return io.MultiReader(strings.NewReader(content[:len(content)/2]), strings.NewReader(content[len(content)/2:]))
	}
	panic("model: source " + kind)
}

// bodies lists bodies of answers: text and the response they denote (nil if
// they must be refused).
type bodyCase struct {
	name string
	text string
	doc  *model.Doc
}

func bodyCases() []bodyCase {
	var out []bodyCase
	add := func(name string, d *model.Doc, st *model.Style) {
		text := d.Write(st)
		out = append(out, bodyCase{name, text, d})
	}
	for _, m := range model.Responses {
		add(m.Tag, newDoc(211, minimal(m)), &model.Style{XML: true})
		add(m.Tag+" sgml", newDoc(102, minimal(m)), &model.Style{Sep: "\r\n"})
	}
	add("signon only", newDoc(220), &model.Style{XML: true})
	e := newDoc(220)
	e.Signon = (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(false)
	add("signon", e, &model.Style{XML: true})
	inv := newDoc(203, minimal(model.MsgByTag("STMTTRNRS")))
	inv.Signon.Remove("LANGUAGE")
	out = append(out, bodyCase{"invalid signon", inv.Write(&model.Style{XML: true}), nil})
	inv = newDoc(203, minimal(model.MsgByTag("STMTTRNRS")))
	inv.Msgs[0].Remove("TRNUID")
	out = append(out, bodyCase{"invalid message", inv.Write(&model.Style{XML: true}), nil})
	good := goodDoc()
	out = append(out, bodyCase{"empty", "", nil}, bodyCase{"html", "<html><body>Error</body></html>", nil}, bodyCase{"text", "internal error", nil}, bodyCase{"half", good[:len(good)/2], nil}, bodyCase{"header only", good[:strings.Index(good, "<OFX>")], nil}, bodyCase{"no end", strings.TrimSuffix(strings.TrimSpace(good), "</OFX>"), nil}, bodyCase{"blank", " \r\n ", nil})
	return out
}

// expectations of a POST as received.
func checkPost(x *explore.X, desc, method, body, want string, hdr http.Header, userAgent string, accept bool) {
	if method != "POST" {
		x.Fail("method", "%s: method %s", desc, method)
	}
	if body != want {
		x.Fail("body", "%s: sent body\n%q\ninstead of\n%q", desc, clipN(body, 2000), clipN(want, 2000))
	}
	if ct := hdr["Content-Type"]; len(ct) != 1 || ct[0] != "application/x-ofx" {
		x.Fail("headers", "%s: Content-Type %q", desc, ct)
	}
	if accept {
		if a := strings.Join(hdr["Accept"], ","); !strings.Contains(a, "application/x-ofx") {
			x.Fail("headers", "%s: Accept %q", desc, a)
		}
	} else if a := hdr["Accept"]; len(a) > 0 && !strings.Contains(strings.Join(a, ","), "application/x-ofx") && !strings.Contains(strings.Join(a, ","), "*/*") {
		x.Fail("headers", "%s: Accept %q", desc, a)
	}
	ua := hdr["User-Agent"]
	if userAgent != "" && (len(ua) != 1 || ua[0] != userAgent) {
		x.Fail("headers", "%s: User-Agent %q, configured %q", desc, ua, userAgent)
	}
	if userAgent == "" && len(ua) > 0 && !strings.HasPrefix(ua[0], "Go-http-client/") {
		x.Fail("headers", "%s: User-Agent %q although none is configured", desc, ua)
	}
	for _, h := range []string{"Cookie", "Referer", "Content-Encoding", "Expect", "Range"} {
		if v := hdr[h]; len(v) > 0 {
			x.Fail("headers", "%s: unexpected header %s: %q", desc, h, v)
		}
	}
}

var userAgents = []string{"", "ua", "InetClntApp/3.0", "a b;(c) \"d\"", "PocketMoney/5"}

// judgeOutcome verifies what the caller gets for a status and a body.
func judgeOutcome(x *explore.X, desc, entry string, o callResult, status int, bc bodyCase, transportErr bool, body *trackBody, broken bool) {
	if transportErr {
		if o.err == nil || o.resp != nil || o.parsed != nil {
			x.Fail("outcome", "%s: transport failure, but response %v, %v and error %v", desc, o.resp != nil, o.parsed != nil, o.err)
		}
		return
	}
	switch entry {
	case "parsed":
		ok := status == 200 && bc.doc != nil && !broken
		if ok {
			if o.err != nil || o.parsed == nil {
				x.Fail("outcome", "%s: a valid answer gives error %v", desc, o.err)
			}
			if diff := model.Diff(bc.doc.Canon(), model.CanonResponse(o.parsed)); diff != "" {
				x.Fail("outcome", "%s: the response differs from the answer: %s", desc, diff)
			}
		} else if o.err == nil || o.parsed != nil {
			x.Fail("outcome", "%s: a bad answer gives response %v and error %v", desc, o.parsed != nil, o.err)
		}
		if body != nil && body.closed == 0 {
			x.Fail("leak", "%s: the response body is not closed (error %v)", desc, o.err)
		}
	default:
		if status == 200 {
			if o.err != nil || o.resp == nil {
				x.Fail("outcome", "%s: a 200 answer gives error %v", desc, o.err)
			}
			if body != nil && body.closed > 0 {
				x.Fail("closed", "%s: the body is closed before the caller gets it", desc)
			}
			got, err := io.ReadAll(o.resp.Body)
			o.resp.Body.Close()
			if broken {
				if err == nil {
					x.Fail("outcome", "%s: a broken body reads without error", desc)
				}
			} else if err != nil || string(got) != bc.text {
				x.Fail("outcome", "%s: the body reads as %q, error %v, instead of %q", desc, clipN(string(got), 500), err, clipN(bc.text, 500))
			}
			return
		}
		if o.err == nil {
			x.Fail("outcome", "%s: status %d gives no error", desc, status)
		}
		if o.resp == nil && body != nil && body.closed == 0 {
			x.Fail("leak", "%s: the response body is neither returned nor closed", desc)
		}
		if o.resp != nil {
			if o.resp.StatusCode != status {
				x.Fail("outcome", "%s: status %d instead of %d", desc, o.resp.StatusCode, status)
			}
			o.resp.Body.Close()
		}
	}
}

// slow explores servers which take their time, all at once.
func (c *Ctx) slow(p *pki, kinds []string, good bodyCase) {
	var servers []*server
	for i := 0; i < 6*len(kinds); i++ {
		s, err := c.newServer("127.0.0.1:0", &tls.Config{Certificates: []tls.Certificate{p.ecdsaCert}})
		if err != nil {
			panic("model: " + err.Error())
		}
		servers = append(servers, s)
	}
	c.Space(&explore.Space{Name: "slow", Serial: true, Body: func(x *explore.X) {
		type trial struct {
			kind, entry, desc string
			o                 callResult
			body              []byte
			rerr              error
		}
		var ts []*trial
		var wg sync.WaitGroup
		for _, kind := range kinds {
			for _, entry := range entries {
				for where := 0; where < 2; where++ {
					long := time.Duration(c.Pick(31, 50)) * time.Second
					rp := reply{Status: 200, Body: good.text, How: "length", Delay: long}
					if where == 1 {
						rp.Delay, rp.Pause = 0, long
					}
					t := &trial{kind: kind, entry: entry, desc: fmt.Sprintf("%s client, %s: a server waiting %s before and %s within its answer", kind, entry, rp.Delay, rp.Pause)}
					s := servers[len(ts)]
					ts = append(ts, t)
					s.script(func(int, *recorded) reply { return rp })
					wg.Add(1)
					go func() {
						defer wg.Done()
						bc, rq := settingsOf(0)
						t.o = call(makeClient(t.kind, bc), t.entry, "https://"+s.addr()+"/x", rq, strings.NewReader("raw"))
						if t.o.resp != nil && t.o.resp.Body != nil {
							t.body, t.rerr = io.ReadAll(t.o.resp.Body)
						}
					}()
				}
			}
		}
		wg.Wait()
		for i, t := range ts {
			if t.o.resp != nil && t.o.resp.Body != nil {
				t.o.resp.Body = io.NopCloser(&failAfter{bytes.NewReader(t.body), ifErr(t.rerr)})
			}
			log, conns := servers[i].sync()
			if conns != 1 || len(log) != 1 {
				x.Fail("count", "%s: %d connections, %d requests, error %v", t.desc, conns, len(log), t.o.err)
			}
			judgeOutcome(x, t.desc, t.entry, t.o, 200, bodyCase{text: good.text, doc: good.doc}, false, nil, false)
			x.State(t.desc)
		}
	}})
}

func c19(c *Ctx) {
	c.Assume = append(c.Assume, "the Vanguard client announces acceptance by HTTP's default (no Accept header); a response returned together with an error is the caller's to close; redirects are judged by C18")
	p := c.newPKI()
	envs := c.newEnvs(p, 16)
	at := func(x *explore.X) *netEnv { return envs[x.Worker()%len(envs)] }
	cases := bodyCases()
	good := cases[2]
	urls := []string{"https://h/", "https://h", "https://h/p?q=1&r=%20", "https://u:p@h:99/p;x/#f", "https://[::1]:8/", "https://h//a/../b", "https://h/?", "https://H.Example/%7E"}
	answered := func(body *trackBody, status int, text string) func(int, *http.Request) (*http.Response, error) {
		return func(i int, q *http.Request) (*http.Response, error) {
			return &http.Response{StatusCode: status, Status: fmt.Sprintf("%d Text", status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: body, ContentLength: -1, Request: q}, nil
		}
	}
	// what is sent
	c.Space(&explore.Space{Name: "sent", Body: func(x *explore.X) {
		var got *http.Request
		var gotBody []byte
		calls := 0
		body := &trackBody{r: strings.NewReader(good.text)}
		ft := roundTripFunc(func(q *http.Request) (*http.Response, error) {
			calls++
			got = q
			if q.Body != nil {
				gotBody, _ = io.ReadAll(q.Body)
				q.Body.Close()
			}
			return answered(body, 200, good.text)(0, q)
		})
		vs := []int{0, 102, 160, 211, 220}
		v := vs[x.Choose("version", len(vs))]
		bc := &ofxgo.BasicClient{NoIndent: x.Choose("noindent", 2) == 1, CarriageReturn: x.Choose("cr", 2) == 1, UserAgent: userAgents[x.Choose("agent", len(userAgents))], HTTPClient: &http.Client{Transport: ft}}
		if v > 0 {
			setVersion(reflect.ValueOf(bc).Elem().FieldByName("SpecVersion"), v)
		}
		entry := entries[x.Choose("entry", 3)]
		u := urls[x.Choose("url", len(urls))]
		m := model.Requests[x.Choose("message", len(model.Requests))]
		r := newReqDoc(203, minimal(m)).BuildRequest()
		raw := "raw \x00\xff<bytes>" + m.Tag
		o := call(bc, entry, u, r, source(sourceKinds[x.Choose("source", map[string]int{"raw": len(sourceKinds)}[entry]+1)%len(sourceKinds)], raw))
		desc := fmt.Sprintf("%s to %s", entry, u)
		if calls != 1 {
			x.Fail("count", "%s: %d requests, error %v", desc, calls, o.err)
		}
		want := raw
		if entry != "raw" {
			b, err := r.Marshal()
			if err != nil {
				x.Fail("outcome", "%s: request marshals no more: %v", desc, err)
			}
			want = b.String()
		}
		checkPost(x, desc, got.Method, string(gotBody), want, got.Header, bc.UserAgent, true)
		pu, _ := url.Parse(u)
		if got.URL.String() != pu.String() || got.Host != pu.Host {
			x.Fail("url", "%s: sent to %s, host %s", desc, got.URL, got.Host)
		}
		if got.ContentLength > 0 && got.ContentLength != int64(len(want)) {
			x.Fail("length", "%s: content length %d of %d bytes", desc, got.ContentLength, len(want))
		}
		judgeOutcome(x, desc, entry, o, 200, good, false, body, false)
		x.State(desc, want)
		x.Sample(desc)
	}})
	// statuses and bodies
	c.Space(&explore.Space{Name: "answers", Body: func(x *explore.X) {
		var statuses []int
		for s := 100; s < 600; s++ {
			statuses = append(statuses, s)
		}
		statuses = append(statuses, 0, 999, 20, 2000, -200)
		i := x.Choose("status", len(statuses))
		status := statuses[i]
		k := x.Choose("body", len(cases))
		if status != 200 && status != 500 && status != 204 && k > 2 && k < len(cases)-3 && !c.Thorough() {
			x.Skip()
		}
		entry := entries[x.Choose("entry", 3)]
		body := &trackBody{r: strings.NewReader(cases[k].text)}
		if x.Choose("reader", 2) == 1 {
			body.r = &oneByte{body.r}
		}
		mt := &memTransport{}
		mt.answer = func(i int, q *http.Request) (*http.Response, error) {
			return answered(body, status, "")(i, q)
		}
		bc, rq := c.settings(x)
		bc.HTTPClient = &http.Client{Transport: mt}
		o := call(bc, entry, "https://h/", rq, strings.NewReader("raw"))
		desc := fmt.Sprintf("%s, status %d, body %s", entry, status, cases[k].name)
		if len(mt.urls) != 1 {
			x.Fail("count", "%s: %d requests", desc, len(mt.urls))
		}
		judgeOutcome(x, desc, entry, o, status, cases[k], false, body, false)
		x.State(desc, fmt.Sprint(o.err != nil))
		x.Sample(fmt.Sprintf("%s: %v", desc, o.err))
	}})
	// transport failures and streams that break off
	boom := errors.New("connection reset")
	c.Space(&explore.Space{Name: "failures", Body: func(x *explore.X) {
		entry := entries[x.Choose("entry", 3)]
		k := x.Choose("body", 4)
		text := cases[k].text
		end := strings.LastIndex(text, "</OFX>")
		kind := x.Choose("kind", 3)
		cut := 0
		if kind > 0 {
			step := 1
			if !c.Thorough() {
				step = 7
			}
			cut = x.Choose("cut", end/step) * step
		}
		e := []error{boom, io.ErrUnexpectedEOF, errors.New("EOF")}[x.Choose("error", 3)]
		body := &trackBody{r: &failAfter{strings.NewReader(text[:cut]), e}}
		mt := &memTransport{}
		mt.answer = func(i int, q *http.Request) (*http.Response, error) {
			if kind == 0 {
				return nil, e
			}
			r := memReply(q, []int{200, 500}[kind-1], nil, "")
			r.Body = body
			r.ContentLength = int64(len(text))
			return r, nil
		}
		bc, rq := c.settings(x)
		bc.HTTPClient = &http.Client{Transport: mt}
		o := call(bc, entry, "https://h/", rq, strings.NewReader("raw"))
		desc := fmt.Sprintf("%s, kind %d, cut at %d of %d", entry, kind, cut, len(text))
		if len(mt.urls) != 1 {
			x.Fail("count", "%s: %d requests", desc, len(mt.urls))
		}
		if kind == 0 {
			judgeOutcome(x, desc, entry, o, 200, cases[k], true, nil, false)
		} else {
			judgeOutcome(x, desc, entry, o, []int{200, 500}[kind-1], cases[k], false, body, true)
		}
		x.State(desc)
	}})
	// a failing source of raw bytes
	c.Space(&explore.Space{Name: "sources", Body: func(x *explore.X) {
		content := strings.Repeat("0123456789", []int{0, 1, 100, 10000}[x.Choose("size", 4)])
		k := x.Choose("source", len(sourceKinds)+1)
		mt := &memTransport{}
		body := &trackBody{r: strings.NewReader("answer")}
		var sendErr error
		bc := &ofxgo.BasicClient{HTTPClient: &http.Client{Transport: roundTripFunc(func(q *http.Request) (*http.Response, error) {
			var b []byte
			if q.Body != nil {
				b, sendErr = io.ReadAll(q.Body)
				q.Body.Close()
				if sendErr != nil {
					return nil, sendErr
				}
			}
			mt.bodies = append(mt.bodies, string(b))
			return answered(body, 200, "")(0, q)
		})}}
		var src io.Reader
		if k < len(sourceKinds) {
			src = source(sourceKinds[k], content)
		} else {
			src = &failAfter{strings.NewReader(content), boom}
		}
		o := call(bc, "raw", "https://h/", nil, src)
		if k == len(sourceKinds) {
			if o.err == nil {
				x.Fail("outcome", "a failing source gives no error")
			}
			return
		}
		if len(mt.bodies) != 1 || mt.bodies[0] != content {
			x.Fail("body", "source %s of %d bytes: sent %d requests, %q", sourceKinds[k], len(content), len(mt.bodies), clipN(fmt.Sprint(mt.bodies), 300))
		}
		judgeOutcome(x, "raw", "raw", o, 200, bodyCase{text: "answer"}, false, body, false)
		x.State(fmt.Sprint(k, len(content)))
	}})
	// the caller's HTTP client is used as it is
	c.Space(&explore.Space{Name: "caller's client", Body: func(x *explore.X) {
		entry := entries[x.Choose("entry", 3)]
		switch x.Choose("what", 4) {
		case 0: // cookie jar
			jar, _ := cookiejar.New(nil)
			n := 0
			var cookies []string
			hc := &http.Client{Jar: jar, Transport: roundTripFunc(func(q *http.Request) (*http.Response, error) {
				n++
				cookies = append(cookies, q.Header.Get("Cookie"))
				return memReply(q, 200, map[string]string{"Set-Cookie": "k=v"}, good.text), nil
			})}
			bc := &ofxgo.BasicClient{HTTPClient: hc}
			for i := 0; i < 2; i++ {
				o := call(bc, entry, "https://h/", simpleRequest(), strings.NewReader("raw"))
				if o.err != nil {
					x.Fail("outcome", "cookie jar: %v", o.err)
				}
				if o.resp != nil {
					o.resp.Body.Close()
				}
			}
			if n != 2 || cookies[0] != "" || cookies[1] != "k=v" {
				x.Fail("caller's client", "cookie jar: %d requests with cookies %q", n, cookies)
			}
			if hc.Jar != http.CookieJar(jar) || hc.CheckRedirect != nil {
				x.Fail("caller's client", "the HTTP client was changed")
			}
		case 1: // timeout
			hc := &http.Client{Timeout: time.Millisecond, Transport: roundTripFunc(func(q *http.Request) (*http.Response, error) {
				select {
				case <-q.Context().Done():
					return nil, q.Context().Err()
				case <-time.After(3 * time.Second):
					return memReply(q, 200, nil, good.text), nil
				}
			})}
			o := call(&ofxgo.BasicClient{HTTPClient: hc}, entry, "https://h/", simpleRequest(), strings.NewReader("raw"))
			if o.err == nil || o.resp != nil || o.parsed != nil {
				x.Fail("caller's client", "the timeout is not heeded")
			}
		case 2: // redirect policy
			n, asked := 0, 0
			deny := errors.New("denied")
			hc := &http.Client{CheckRedirect: func(*http.Request, []*http.Request) error { asked++; return deny }, Transport: roundTripFunc(func(q *http.Request) (*http.Response, error) {
				n++
				return memReply(q, 302, map[string]string{"Location": "https://other/"}, ""), nil
			})}
			o := call(&ofxgo.BasicClient{HTTPClient: hc}, entry, "https://h/", simpleRequest(), strings.NewReader("raw"))
			if n != 1 || asked != 1 || !errors.Is(o.err, deny) {
				x.Fail("caller's client", "redirect policy: asked %d times, %d requests, error %v", asked, n, o.err)
			}
		case 3: // the same client again and again
			n := 0
			hc := &http.Client{Transport: roundTripFunc(func(q *http.Request) (*http.Response, error) {
				n++
				return memReply(q, 200, nil, good.text), nil
			})}
			bc := &ofxgo.BasicClient{HTTPClient: hc}
			for i := 0; i < 5; i++ {
				o := call(bc, entry, "https://h/", simpleRequest(), strings.NewReader("raw"))
				judgeOutcome(x, "again", entry, o, 200, good, false, nil, false)
			}
			if n != 5 || bc.HTTPClient != hc {
				x.Fail("count", "%d requests instead of 5", n)
			}
		}
		x.State(entry)
	}})
	// the caller's HTTP client over the wire: all that is set in it is heeded,
	// with and without a transport of its own
	c.Space(&explore.Space{Name: "caller's client on the wire", Body: func(x *explore.X) {
		e := at(x)
		kind := "basic" // the others use their own
		entry := entries[x.Choose("entry", 3)]
		hc := &http.Client{}
		used := 0
		own := x.Choose("transport", 2) == 1
		if own {
			hc.Transport = roundTripFunc(func(q *http.Request) (*http.Response, error) {
				used++
				return http.DefaultTransport.RoundTrip(q)
			})
		}
		u := "https://" + e.a.addr() + "/p"
		pu, _ := url.Parse(u)
		jar := x.Choose("jar", 2) == 1
		if jar {
			j, _ := cookiejar.New(nil)
			j.SetCookies(pu, []*http.Cookie{{Name: "session", Value: "s1", Path: "/"}})
			hc.Jar = j
		}
		slow := x.Choose("timeout", 3)
		if slow > 0 {
			hc.Timeout = []time.Duration{0, time.Minute, 60 * time.Millisecond}[slow]
		}
		deny := errors.New("denied")
		asked := 0
		redirect := x.Choose("redirect", 3)
		if redirect > 0 {
			hc.CheckRedirect = func(*http.Request, []*http.Request) error {
				asked++
				if redirect == 2 {
					return http.ErrUseLastResponse
				}
				return deny
			}
		}
		snap := *hc
		rp := reply{Status: 200, How: "length", Body: good.text, Fields: []string{"Set-Cookie: more=m1; Path=/"}}
		if redirect > 0 {
			rp.Status, rp.Body = 302, ""
			rp.Fields = append(rp.Fields, "Location: https://"+e.a.addr()+"/elsewhere")
		}
		if slow == 2 {
			rp.Delay = 400 * time.Millisecond
		}
		e.a.script(func(int, *recorded) reply { return rp })
		bc := &ofxgo.BasicClient{HTTPClient: hc}
		o := call(makeClient(kind, bc), entry, u, simpleRequest(), strings.NewReader("raw"))
		if o.resp != nil {
			io.Copy(io.Discard, o.resp.Body)
			o.resp.Body.Close()
		}
		log, _ := e.a.sync()
		desc := fmt.Sprintf("%s client, %s, own transport %v, jar %v, timeout %v, redirect policy %d", kind, entry, own, jar, hc.Timeout, redirect)
		x.State(desc)
		if len(log) != 1 || own && used != 1 {
			x.Fail("count", "%s: %d requests, own transport used %d times", desc, len(log), used)
		}
		if bc.HTTPClient != hc || hc.Jar != snap.Jar || hc.Timeout != snap.Timeout || (hc.Transport == nil) != (snap.Transport == nil) || (hc.CheckRedirect == nil) != (snap.CheckRedirect == nil) {
			x.Fail("caller's client", "%s: the HTTP client was changed", desc)
		}
		cookies := ""
		for _, f := range log[0].Fields {
			if n, v, _ := strings.Cut(f, ":"); strings.EqualFold(n, "Cookie") {
				cookies += strings.TrimSpace(v)
			}
		}
		if strings.Contains(cookies, "session=s1") != jar || !jar && cookies != "" {
			x.Fail("caller's client", "%s: cookies %q sent", desc, cookies)
		}
		if slow == 2 {
			if o.err == nil || o.resp != nil || o.parsed != nil {
				x.Fail("caller's client", "%s: the timeout is not heeded", desc)
			}
			return
		}
		if jar {
			got := fmt.Sprint(hc.Jar.Cookies(pu))
			if !strings.Contains(got, "more=m1") {
				x.Fail("caller's client", "%s: cookies %s in the jar", desc, got)
			}
		}
		switch {
		case redirect == 0 && o.err != nil:
			x.Fail("outcome", "%s: %v", desc, o.err)
		case redirect == 1 && (asked != 1 || !errors.Is(o.err, deny)):
			x.Fail("caller's client", "%s: redirect policy asked %d times, error %v", desc, asked, o.err)
		case redirect == 2 && (asked != 1 || o.parsed != nil):
			x.Fail("caller's client", "%s: redirect policy asked %d times, error %v", desc, asked, o.err)
		}
	}})
	// what else the answer's head says does not matter
	heads := []string{"Content-Type: application/x-ofx", "Content-Type: text/html", "Content-Type: application/xml; charset=utf-8", "Content-Type: ", "Content-Type: application/octet-stream", "Content-Language: en", "Retry-After: 0", "Warning: 199 - \"x\"", "WWW-Authenticate: Basic realm=\"x\"", "X-Ofx: 1", "Cache-Control: no-cache", "Location: /elsewhere", "Date: x", "Content-Disposition: attachment; filename=a.ofx", "Server: x", "Set-Cookie: a=b; Max-Age=0"}
	c.Space(&explore.Space{Name: "heads", Body: func(x *explore.X) {
		e := at(x)
		statuses := []int{200, 201, 202, 203, 206, 299, 300, 304, 305, 400, 401, 402, 403, 404, 405, 408, 409, 410, 412, 415, 422, 429, 500, 501, 502, 503, 504, 505, 507, 599}
		status := statuses[x.Choose("status", len(statuses))]
		head := heads[x.Choose("head", len(heads))]
		entry := entries[x.Choose("entry", 3)]
		rp := reply{Status: status, Body: good.text, How: "length", Fields: []string{head}}
		k := bodyCase{text: good.text, doc: good.doc}
		if status == 304 {
			rp.Body, rp.How, k = "", "none", bodyCase{}
		}
		e.a.script(func(int, *recorded) reply { return rp })
		bc, rq := settingsOf(0)
		kind := clientKinds[x.Choose("client", 3)]
		o := call(makeClient(kind, bc), entry, "https://"+e.a.addr()+"/x", rq, strings.NewReader("raw"))
		desc := fmt.Sprintf("%s client, %s: %d, %s", kind, entry, status, head)
		var got []byte
		var rerr error
		if o.resp != nil && o.resp.Body != nil {
			got, rerr = io.ReadAll(o.resp.Body)
			o.resp.Body = io.NopCloser(&failAfter{bytes.NewReader(got), ifErr(rerr)})
		}
		log, conns := e.a.sync()
		if conns != 1 || len(log) != 1 {
			x.Fail("count", "%s: %d connections, %d requests", desc, conns, len(log))
		}
		judgeOutcome(x, desc, entry, o, status, k, false, nil, false)
		x.State(desc, fmt.Sprint(o.err != nil))
	}})
	c.slow(p, clientKinds, good)
	// over the wire, every kind of client
	wire := []reply{
		{Status: 200, How: "length"}, {Status: 200, How: "chunked"}, {Status: 200, How: "close"}, {Status: 200, How: "http10"}, {Status: 200, How: "gzip"}, {Status: 200, How: "short"}, {Status: 200, How: "badchunk"}, {How: "drop"}, {How: "garbage", Body: "HELLO\r\n\r\n"}, {How: "garbage", Body: "HTTP/1.1 200 OK\r\nContent-Le"},
		{Status: 400}, {Status: 401}, {Status: 403}, {Status: 404}, {Status: 500}, {Status: 503, How: "chunked"}, {Status: 201}, {Status: 202}, {Status: 204, How: "none"}, {Status: 206}, {Status: 299}, {Status: 304, How: "none"}, {Status: 600}, {Status: 302}, {Status: 303},
	}
	c.Space(&explore.Space{Name: "wire", Body: func(x *explore.X) {
		e := at(x)
		kind := clientKinds[x.Choose("client", 3)]
		entry := entries[x.Choose("entry", 3)]
		rp := wire[x.Choose("answer", len(wire))]
		ks := []int{0, 1, len(cases) - 7, len(cases) - 4, len(cases) - 9}
		k := cases[ks[x.Choose("body", len(ks))]]
		if rp.Body == "" && rp.How != "none" && rp.How != "drop" {
			rp.Body = k.text
		}
		if rp.How == "none" {
			k = bodyCase{name: "none"}
		}
		ua := userAgents[x.Choose("agent", 2)]
		style := x.Choose("style", c.Pick(3, 5))
		bc, r := settingsOf(style)
		bc.UserAgent = ua
		e.a.script(func(int, *recorded) reply { return rp })
		raw := strings.Repeat("raw bytes\x00\xff", 500)
		o := call(makeClient(kind, bc), entry, "https://"+e.a.addr()+"/p?q=1", r, source("bytes.Buffer", raw))
		var body []byte
		var rerr error
		if o.resp != nil && o.resp.Body != nil {
			body, rerr = io.ReadAll(o.resp.Body)
			o.resp.Body.Close()
			o.resp.Body = io.NopCloser(&failAfter{bytes.NewReader(body), ifErr(rerr)})
		}
		log, conns := e.a.sync()
		desc := fmt.Sprintf("%s client, %s, answer %d %s, body %s", kind, entry, rp.Status, rp.How, k.name)
		if conns != 1 || len(log) != 1 {
			x.Fail("count", "%s: %d connections, %d requests, error %v", desc, conns, len(log), o.err)
		}
		rec := log[0]
		if rec.Err != nil || rec.Line != "POST /p?q=1 HTTP/1.1" {
			x.Fail("request", "%s: request line %q, %v", desc, rec.Line, rec.Err)
		}
		want := raw
		if entry != "raw" {
			b, err := r.Marshal()
			if err != nil {
				x.Fail("outcome", "%s: request marshals no more: %v", desc, err)
			}
			want = b.String()
		}
		if kind != "discover" {
			hdr := http.Header{}
			for _, f := range rec.Fields {
				n, v, _ := strings.Cut(f, ":")
				hdr.Add(n, strings.TrimSpace(v))
			}
			checkPost(x, desc, "POST", string(rec.Body), want, hdr, ua, kind == "basic")
			if h := hdr.Get("Host"); h != e.a.addr() {
				x.Fail("headers", "%s: Host %q", desc, h)
			}
			if l := hdr["Content-Length"]; len(l) != 1 || l[0] != fmt.Sprint(len(want)) {
				x.Fail("headers", "%s: Content-Length %q of %d bytes", desc, l, len(want))
			}
		} else if string(rec.Body) != want {
			x.Fail("body", "%s: sent body\n%q\ninstead of\n%q", desc, clipN(string(rec.Body), 2000), clipN(want, 2000))
		}
		broken := rp.How == "short" || rp.How == "badchunk"
		if kind == "discover" && (rp.How == "drop" || rp.How == "garbage") || kind != "discover" && (rp.How == "drop" || rp.How == "garbage") {
			judgeOutcome(x, desc, entry, o, 200, k, true, nil, false)
		} else if broken && entry == "parsed" {
			// a document that is complete before the stream breaks off is not judged
			if k.doc == nil {
				judgeOutcome(x, desc, entry, o, rp.Status, k, false, nil, true)
			}
		} else {
			judgeOutcome(x, desc, entry, o, rp.Status, k, false, nil, broken)
		}
		x.State(desc, ua, fmt.Sprint(o.err != nil, style))
		x.Sample(desc)
	}})
	// big answers and big requests
	bigs := []int{100 << 10, 1<<20 + 1, 5 << 20, 17 << 20}
	if c.Thorough() {
		bigs = append(bigs, 35<<20, 70<<20)
	}
	for _, n := range litSizes(64 << 20) {
		if n > 4000 {
			bigs = append(bigs, n-1, n+1)
		}
	}
	c.Space(&explore.Space{Name: "big", Workers: 4, Body: func(x *explore.X) {
		e := at(x)
		kind := clientKinds[x.Choose("client", 3)]
		entry := entries[x.Choose("entry", 3)]
		n := bigs[x.Choose("size", len(bigs))]
		how := []string{"length", "chunked", "close", "http10", "gzip"}[x.Choose("how", 5)]
		bc, r := settingsOf(n % 3)
		raw := "raw"
		doc := huge(1, n, true)
		k := bodyCase{text: doc.Write(&model.Style{XML: true}), doc: doc}
		if entry == "raw" && x.Choose("direction", 2) == 1 {
			raw, k = patterned(n), good
		}
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: k.text, How: how} })
		o := call(makeClient(kind, bc), entry, "https://"+e.a.addr()+"/", r, source("bytes.Buffer", raw))
		if o.resp != nil && o.resp.Body != nil {
			body, rerr := io.ReadAll(o.resp.Body)
			o.resp.Body.Close()
			o.resp.Body = io.NopCloser(&failAfter{bytes.NewReader(body), ifErr(rerr)})
		}
		log, conns := e.a.sync()
		desc := fmt.Sprintf("%s client, %s, %d bytes sent, %d bytes of answer (%s)", kind, entry, len(raw), len(k.text), how)
		if conns != 1 || len(log) != 1 {
			x.Fail("count", "%s: %d connections, %d requests, error %v", desc, conns, len(log), o.err)
		}
		if entry == "raw" && string(log[0].Body) != raw {
			x.Fail("body", "%s: the server got %d bytes", desc, len(log[0].Body))
		}
		judgeOutcome(x, desc, entry, o, 200, k, false, nil, false)
		x.State(desc)
	}})
	// no server at all
	c.Space(&explore.Space{Name: "no server", Body: func(x *explore.X) {
		kind := clientKinds[x.Choose("client", 3)]
		entry := entries[x.Choose("entry", 3)]
		u := []string{"https://127.0.0.1:1/", "https://127.0.0.1:99999/", "https://127.0.0.1:x/", "https://%zz/", "https://127.0.0.1:1/%zz", "https://[::1/"}[x.Choose("url", 6)]
		bc, rq := c.settings(x)
		o := call(makeClient(kind, bc), entry, u, rq, strings.NewReader("raw"))
		judgeOutcome(x, kind+" "+entry+" "+u, entry, o, 0, bodyCase{}, true, nil, false)
		x.State(kind, entry, u)
	}})
	// a server with an untrusted certificate or speaking no TLS
	c.Space(&explore.Space{Name: "no TLS", Body: func(x *explore.X) {
		e := at(x)
		kind := clientKinds[x.Choose("client", 3)]
		entry := entries[x.Choose("entry", 3)]
		u := "https://" + e.plain.addr() + "/"
		if x.Choose("name", 2) == 1 {
			// the certificate does not cover this address
			u = "https://127.0.0.2:" + e.a.port() + "/"
		}
		e.plain.script(func(int, *recorded) reply { return reply{Status: 200, Body: good.text} })
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: good.text} })
		bc, rq := c.settings(x)
		o := call(makeClient(kind, bc), entry, u, rq, strings.NewReader("raw"))
		log, _ := e.plain.sync()
		if len(log) > 0 && log[0].Err == nil {
			x.Fail("sent", "%s %s: request without TLS", kind, entry)
		}
		judgeOutcome(x, kind+" "+entry+" "+u, entry, o, 0, bodyCase{}, true, nil, false)
		x.State(kind, entry, u[:16])
	}})
}

func ifErr(err error) error {
	if err == nil {
		return io.EOF
	}
	return err
}

type roundTripFunc func(*http.Request) (*http.Response, error)

func (f roundTripFunc) RoundTrip(q *http.Request) (*http.Response, error) { return f(q) }

func c20(c *Ctx) {
	c.Assume = append(c.Assume, "answers of undeclared length (chunked, or up to the end of the connection) that set cookies are not judged by the number of requests")
	p := c.newPKI()
	envs := c.newEnvs(p, 16)
	at := func(x *explore.X) *netEnv { return envs[x.Worker()%len(envs)] }
	good := goodDoc()
	type ans struct {
		status int
		body   string
		how    string
	}
	answers := []ans{
		{200, "", "length"}, {200, good, "length"}, {200, "x", "length"}, {200, good, "chunked"}, {200, "", "chunked"}, {200, "", "close"}, {200, good, "close"}, {200, good, "http10"}, {200, "", "http10"}, {200, good, "gzip"}, {200, "", "gzip"},
		{500, "", "length"}, {500, "error", "length"}, {401, "", "length"}, {403, "x", "length"}, {404, "", "length"}, {204, "", "none"}, {201, "", "length"}, {202, good, "length"}, {503, "", "length"}, {400, "", "length"}, {0, "", "drop"}, {200, good[:100], "short"},
	}
	cookieSets := [][]string{
		nil, {"a=1"}, {"a=1", "b=2"}, {"JSESSIONID=0000abc:xyz; Path=/; Secure; HttpOnly"}, {"a=; Expires=Thu, 01 Jan 1970 00:00:00 GMT; Max-Age=0"}, {"b=2; Domain=example.com", "a=1; SameSite=Lax", "c=3"}, {"q=\"quoted\""}, {"bad"}, {"a=1", "a=2"}, {"=x"},
		{"long=" + strings.Repeat("v", 3000)}, {"x=a/b+c=d=="}, {"a=1", "", "bad cookie", "b=2"},
	}
	sent := func(cs []string) string {
		// what a browser would send back: name=value of each well-formed cookie
		var out []string
		h := http.Header{}
		for _, s := range cs {
			h.Add("Set-Cookie", s)
		}
		for _, k := range (&http.Response{Header: h}).Cookies() {
			r := &http.Request{Header: http.Header{}}
			r.AddCookie(k)
			out = append(out, r.Header.Get("Cookie"))
		}
		return strings.Join(out, "; ")
	}
	body := func(x *explore.X, first ans, cookies []string, second ans, cookies2 []string, entry string, opt int) {
		e := at(x)
		set := func(a ans, cs []string) reply {
			r := reply{Status: a.status, Body: a.body, How: a.how}
			for _, s := range cs {
				r.Fields = append(r.Fields, "Set-Cookie: "+s)
			}
			return r
		}
		e.a.script(func(i int, _ *recorded) reply {
			if i == 0 {
				return set(first, cookies)
			}
			if i > 4 {
				return reply{Status: 500}
			}
			return set(second, cookies2)
		})
		bc, r := settingsOf(opt >> 1)
		bc.UserAgent = []string{"", "ua/1"}[opt&1]
		o := call(ofxgo.NewVanguardClient(bc), entry, "https://"+e.a.addr()+"/us/OfxDirectConnectServlet?x=1", r, source("bytes.Buffer", "raw"))
		var got []byte
		var rerr error
		if o.resp != nil && o.resp.Body != nil {
			got, rerr = io.ReadAll(o.resp.Body)
			o.resp.Body.Close()
			o.resp.Body = io.NopCloser(&failAfter{bytes.NewReader(got), ifErr(rerr)})
		}
		log, conns := e.a.sync()
		desc := fmt.Sprintf("%s: first %d %s (%d bytes) cookies %q, second %d %s (%d bytes) cookies %q", entry, first.status, first.how, len(first.body), cookies, second.status, second.how, len(second.body), cookies2)
		cookie := sent(cookies)
		want := 1
		declared := first.how == "length" && first.body == ""
		if entry != "raw" && first.status == 200 && declared && cookie != "" {
			want = 2
		}
		unclear := entry != "raw" && first.status == 200 && cookie != "" && (first.how == "chunked" || first.how == "close" || first.how == "http10" || first.how == "gzip")
		if unclear {
			if len(log) != 1 && len(log) != 2 {
				x.Fail("count", "%s: %d requests", desc, len(log))
			}
			want = len(log)
		}
		if len(log) != want || conns != want {
			x.Fail("count", "%s: %d requests on %d connections, expected %d (error %v)", desc, len(log), conns, want, o.err)
		}
		body := "raw"
		if entry != "raw" {
			b, err := r.Marshal()
			if err != nil {
				x.Fail("outcome", "%s: %v", desc, err)
			}
			body = b.String()
		}
		for i, rec := range log {
			if rec.Err != nil || rec.Line != "POST /us/OfxDirectConnectServlet?x=1 HTTP/1.1" || string(rec.Body) != body {
				x.Fail("request", "%s: request %d is %q with %d of %d bytes, %v", desc, i+1, rec.Line, len(rec.Body), len(body), rec.Err)
			}
			ck := strings.Join(rec.get("Cookie"), "; ")
			wantCk := ""
			if i == 1 {
				wantCk = cookie
			}
			if ck != wantCk {
				x.Fail("cookies", "%s: request %d carries cookies %q, expected %q", desc, i+1, ck, wantCk)
			}
			if ct := rec.get("Content-Type"); len(ct) != 1 || ct[0] != "application/x-ofx" {
				x.Fail("headers", "%s: request %d has content type %q", desc, i+1, ct)
			}
			if i == 1 {
				a, b := strip(log[0].Fields), strip(rec.Fields)
				if !reflect.DeepEqual(a, b) {
					x.Fail("headers", "%s: headers %q of the repetition differ from %q", desc, b, a)
				}
			}
			if ua := strings.Join(rec.get("User-Agent"), ","); bc.UserAgent != "" && ua != bc.UserAgent {
				x.Fail("headers", "%s: request %d has user agent %q", desc, i+1, ua)
			}
		}
		final := first
		if want == 2 {
			final = second
		}
		k := bodyCase{text: final.body}
		if final.body == good {
			k.doc = newDoc(203, minimal(model.MsgByTag("STMTTRNRS")))
		}
		judgeOutcome(x, desc, entry, o, final.status, k, final.how == "drop", nil, final.how == "short")
		x.State(desc, fmt.Sprint(o.err != nil, opt))
		x.Sample(desc)
	}
	c.Space(&explore.Space{Name: "first", Body: func(x *explore.X) {
		a := answers[x.Choose("answer", len(answers))]
		cs := cookieSets[x.Choose("cookies", len(cookieSets))]
		body(x, a, cs, ans{200, good, "length"}, nil, entries[x.Choose("entry", 3)], x.Choose("options", c.Pick(6, 10)))
	}})
	// the first request is redirected before it is answered
	c.Space(&explore.Space{Name: "redirected", Body: func(x *explore.X) {
		e := at(x)
		status := []int{307, 308}[x.Choose("status", 2)]
		hops := 1 + x.Choose("hops", 2)
		other := x.Choose("server", 2) == 1
		entry := entries[1+x.Choose("entry", 2)]
		cs := cookieSets[x.Choose("cookies", 4)]
		bc, r := settingsOf(x.Choose("options", 5))
		base := ""
		to := e.a
		if other {
			base = "https://" + e.b.addr()
			to = e.b
		}
		var seen []string
		var bodies []string
		var sentCookies []string
		next := func(name string) func(int, *recorded) reply {
			return func(_ int, rec *recorded) reply {
				k := len(seen)
				seen = append(seen, name+" "+rec.Line)
				bodies = append(bodies, string(rec.Body))
				sentCookies = append(sentCookies, strings.Join(rec.get("Cookie"), "; "))
				rp := reply{Status: 200, Body: good, How: "length"}
				switch {
				case k < hops:
					rp = reply{Status: status, How: "length", Fields: []string{fmt.Sprintf("Location: %s/moved%d", base, k)}}
				case k == hops:
					rp.Body = ""
					for _, s := range cs {
						rp.Fields = append(rp.Fields, "Set-Cookie: "+s)
					}
				case k > hops+3:
					rp = reply{Status: 500}
				}
				return rp
			}
		}
		e.a.script(next("a"))
		e.b.script(next("b"))
		o := call(ofxgo.NewVanguardClient(bc), entry, "https://"+e.a.addr()+"/start", r, nil)
		if o.resp != nil {
			io.Copy(io.Discard, o.resp.Body)
			o.resp.Body.Close()
		}
		e.a.sync()
		e.b.sync()
		_ = to
		desc := fmt.Sprintf("%s: %d redirects %d to %s/moved, then an empty answer with cookies %q", entry, hops, status, base, cs)
		name := "a"
		if other {
			name = "b"
		}
		want := []string{"a POST /start HTTP/1.1"}
		for k := 0; k < hops; k++ {
			want = append(want, fmt.Sprintf("%s POST /moved%d HTTP/1.1", name, k))
		}
		if sent(cs) != "" {
			want = append(want, "a POST /start HTTP/1.1")
		}
		if strings.Join(seen, "\n") != strings.Join(want, "\n") {
			x.Fail("count", "%s: requests %q instead of %q (error %v)", desc, seen, want, o.err)
		}
		for i, b := range bodies {
			if b != bodies[0] {
				x.Fail("request", "%s: request %d differs from the first", desc, i+1)
			}
		}
		if sent(cs) != "" {
			if got := sentCookies[len(sentCookies)-1]; got != sent(cs) {
				x.Fail("cookies", "%s: the repetition carries cookies %q", desc, got)
			}
			if o.err != nil {
				x.Fail("outcome", "%s: %v", desc, o.err)
			}
		}
		x.State(desc)
	}})
	c.Space(&explore.Space{Name: "second", Body: func(x *explore.X) {
		b := answers[x.Choose("answer", len(answers))]
		cs := cookieSets[1+x.Choose("cookies", c.Pick(3, len(cookieSets)-1))]
		cs2 := cookieSets[x.Choose("cookies again", c.Pick(4, len(cookieSets)))]
		body(x, ans{200, "", "length"}, cs, b, cs2, entries[1+x.Choose("entry", 2)], x.Choose("options", c.Pick(6, 10)))
	}})
	// one client for several requests: the cookies of one are not sent with
	// another
	c.Space(&explore.Space{Name: "sequences", Body: func(x *explore.X) {
		e := at(x)
		bc, _ := c.settings(x)
		cl := ofxgo.NewVanguardClient(bc)
		n := 2 + x.Choose("count", c.Pick(1, 2))
		for i := 0; i < n; i++ {
			k := x.Choose("answer", 4)
			name := fmt.Sprintf("c%d=%d", i, i)
			e.a.script(func(j int, _ *recorded) reply {
				switch {
				case k == 0:
					return reply{Status: 200, Body: good}
				case k == 1 && j == 0:
					return reply{Status: 200, Fields: []string{"Set-Cookie: " + name}}
				case k == 2:
					return reply{Status: 200, Body: good, Fields: []string{"Set-Cookie: " + name}}
				case k == 3:
					return reply{Status: 500, Fields: []string{"Set-Cookie: " + name}}
				}
				return reply{Status: 200, Body: good}
			})
			o := call(cl, entries[1+x.Choose("entry", 2)], "https://"+e.a.addr()+"/", simpleRequest(), nil)
			if o.resp != nil {
				o.resp.Body.Close()
			}
			log, _ := e.a.sync()
			want := 1
			if k == 1 {
				want = 2
			}
			if len(log) != want {
				x.Fail("count", "request %d of the client, kind %d: %d requests", i+1, k, len(log))
			}
			if ck := log[0].get("Cookie"); len(ck) > 0 {
				x.Fail("cookies", "request %d of the client starts with cookies %q", i+1, ck)
			}
			if want == 2 && strings.Join(log[1].get("Cookie"), "; ") != name {
				x.Fail("cookies", "request %d of the client is repeated with cookies %q", i+1, log[1].get("Cookie"))
			}
			if (o.err != nil) != (k == 3) {
				x.Fail("outcome", "request %d of the client, kind %d: error %v", i+1, k, o.err)
			}
			x.State(fmt.Sprint(i, k))
		}
	}})
	// every kind of request is repeated with the same content
	c.Space(&explore.Space{Name: "requests", Body: func(x *explore.X) {
		e := at(x)
		m := model.Requests[x.Choose("message", len(model.Requests))]
		v := versionsAll[x.Choose("version", len(versionsAll))]
		st := reqStyles[1+x.Choose("style", 4)]
		max := x.Choose("max", 2) == 1
		n := minimal(m)
		if max {
			n = maximal(m)
			if v < 220 {
				for _, k := range n.Kids {
					k.Remove("INCLUDEPENDING")
					k.Remove("INCTRANIMG")
				}
			}
		}
		r := newReqDoc(v, n).BuildRequest()
		e.a.script(func(i int, _ *recorded) reply {
			if i == 0 {
				return reply{Status: 200, Fields: []string{"Set-Cookie: k=v"}}
			}
			return reply{Status: 200, Body: good}
		})
		o := call(ofxgo.NewVanguardClient(basicClient(v, st)), "parsed", "https://"+e.a.addr()+"/", r, nil)
		log, _ := e.a.sync()
		if o.err != nil || len(log) != 2 || !bytes.Equal(log[0].Body, log[1].Body) {
			x.Fail("request", "%s version %d: %d requests, error %v", m.Tag, v, len(log), o.err)
		}
		x.State(string(log[0].Body))
	}})
	// cipher suites
	type suite struct {
		id   uint16
		name string
		ver  uint16
	}
	var suites []suite
	for _, id := range []uint16{tls.TLS_RSA_WITH_AES_128_CBC_SHA256, tls.TLS_RSA_WITH_AES_128_GCM_SHA256, tls.TLS_RSA_WITH_AES_256_GCM_SHA384} {
		suites = append(suites, suite{id, tls.CipherSuiteName(id), tls.VersionTLS12})
	}
	for _, s := range tls.CipherSuites() {
		for _, v := range s.SupportedVersions {
			if v >= tls.VersionTLS12 {
				suites = append(suites, suite{s.ID, s.Name, v})
			}
		}
	}
	servers := make([]*server, len(suites))
	for i, s := range suites {
		cfg := &tls.Config{Certificates: []tls.Certificate{p.rsaCert}, MinVersion: s.ver, MaxVersion: s.ver, CipherSuites: []uint16{s.id}}
		if strings.Contains(s.name, "ECDSA") {
			cfg.Certificates = []tls.Certificate{p.ecdsaCert}
		}
		sv, err := c.newServer("127.0.0.1:0", cfg)
		if err != nil {
			panic("model: " + err.Error())
		}
		servers[i] = sv
	}
	c.Space(&explore.Space{Name: "ciphers", Serial: true, Body: func(x *explore.X) {
		i := x.Choose("suite", len(suites))
		entry := entries[x.Choose("entry", 3)]
		repeat := x.Choose("repeat", 2) == 1
		sv := servers[i]
		sv.script(func(j int, _ *recorded) reply {
			if repeat && j == 0 {
				return reply{Status: 200, Fields: []string{"Set-Cookie: a=b"}}
			}
			return reply{Status: 200, Body: good}
		})
		o := call(ofxgo.NewVanguardClient(&ofxgo.BasicClient{}), entry, "https://"+sv.addr()+"/", simpleRequest(), strings.NewReader("raw"))
		if o.resp != nil {
			o.resp.Body.Close()
		}
		log, _ := sv.sync()
		want := 1
		if repeat && entry != "raw" {
			want = 2
		}
		if o.err != nil || len(log) != want {
			x.Fail("ciphers", "%s (%x): %d requests, error %v", suites[i].name, suites[i].ver, len(log), o.err)
		}
		x.State(suites[i].name, entry, fmt.Sprint(repeat))
		x.Sample(suites[i].name)
	}})
}

// strip drops the cookie header from header lines.
func strip(fields []string) []string {
	var out []string
	for _, f := range fields {
		if !strings.HasPrefix(strings.ToLower(f), "cookie:") {
			out = append(out, f)
		}
	}
	return out
}

func c21(c *Ctx) {
	c.Assume = append(c.Assume, "host names other than loopback addresses and localhost are not contacted; how an IPv6 address is written in the Host header is not judged; sockets left open until the body is read are not judged")
	p := c.newPKI()
	envs := c.newEnvs(p, 16)
	for _, e := range envs {
		e.a.surplus = 2 * time.Millisecond
	}
	at := func(x *explore.X) *netEnv { return envs[x.Worker()%len(envs)] }
	good := goodDoc()
	goodModel := newDoc(203, minimal(model.MsgByTag("STMTTRNRS")))
	check := func(x *explore.X, desc string, log []recorded, conns int, target, host string, want string) {
		if conns != 1 || len(log) != 1 {
			x.Fail("count", "%s: %d connections, %d requests", desc, conns, len(log))
		}
		rec := log[0]
		if rec.Err != nil {
			x.Fail("request", "%s: %v", desc, rec.Err)
		}
		if rec.Line != "POST "+target+" HTTP/1.1" {
			x.Fail("request line", "%s: request line %q, expected target %q", desc, rec.Line, target)
		}
		exp := []string{"Content-Type: application/x-ofx", "Host: " + host, fmt.Sprintf("Content-Length: %d", len(want)), "Connection: Keep-Alive"}
		got := append([]string(nil), rec.Fields...)
		if host == "" && len(got) > 1 {
			got[1], exp[1] = "", ""
		}
		if !reflect.DeepEqual(got, exp) {
			x.Fail("headers", "%s: headers %q, expected %q", desc, rec.Fields, exp)
		}
		if string(rec.Body) != want {
			x.Fail("body", "%s: body of %d bytes differs from the %d given", desc, len(rec.Body), len(want))
		}
		if len(rec.Extra) > 0 {
			x.Fail("surplus", "%s: %q follows the request", desc, rec.Extra)
		}
	}
	type ut struct{ suffix, target string }
	uts := []ut{{"", "/"}, {"/", "/"}, {"/a", "/a"}, {"/a/", "/a/"}, {"/a/b.dll", "/a/b.dll"}, {"?q=1", "/?q=1"}, {"/?q=1&r=2", "/?q=1&r=2"}, {"/p?", "/p?"}, {"/a%20b", "/a%20b"}, {"/a%2Fb", "/a%2Fb"}, {"/a;b=c", "/a;b=c"}, {"/p#frag", "/p"}, {"/p?q#frag", "/p?q"}, {"/p?q=%26&%3d", "/p?q=%26&%3d"}, {"//x", "//x"}, {"/a//b/../c/./", "/a//b/../c/./"}, {"/~u/(x)!*'", "/~u/(x)!*'"}, {"/p?a=b=c+d", "/p?a=b=c+d"}, {"/\u00e9", "/%C3%A9"}, {"/a b", "/a%20b"}, {"/@:&=+$,", "/@:&=+$,"}, {"/" + strings.Repeat("p", 3000), "/" + strings.Repeat("p", 3000)}, {"#f", "/"}, {"/%7Eu", "/%7Eu"}}
	for _, s := range Lit.Strings {
		if strings.HasPrefix(s, "/") && !strings.ContainsAny(s, " %#?\"<>\\^`{|}") {
			uts = append(uts, ut{s, s})
		}
	}
	c.Space(&explore.Space{Name: "urls", Body: func(x *explore.X) {
		e := at(x)
		u := uts[x.Choose("url", len(uts))]
		host := []string{"127.0.0.1", "localhost"}[x.Choose("host", 2)]
		user := []string{"", "u:p@", "u@"}[x.Choose("user", 3)]
		entry := entries[x.Choose("entry", 3)]
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: good} })
		bc, r := c.settings(x)
		full := "https://" + user + host + ":" + e.a.port() + u.suffix
		o := call(ofxgo.NewDiscoverCardClient(bc), entry, full, r, strings.NewReader("raw"))
		log, conns := e.a.sync()
		want := "raw"
		if entry != "raw" {
			b, err := r.Marshal()
			if err != nil {
				x.Fail("outcome", "%v", err)
			}
			want = b.String()
		}
		desc := entry + " " + full
		if o.err != nil {
			x.Fail("outcome", "%s: %v", desc, o.err)
		}
		check(x, desc, log, conns, u.target, host, want)
		judgeOutcome(x, desc, entry, o, 200, bodyCase{text: good, doc: goodModel}, false, nil, false)
		x.State(u.suffix, host, user, entry, fmt.Sprint(bc))
		x.Sample(desc)
	}})
	// hosts which are IPv6 addresses
	if s6, err := c.newServer("[::1]:0", &tls.Config{Certificates: []tls.Certificate{p.ecdsaCert}}); err == nil {
		c.Extra["ipv6"] = "checked"
		s6.surplus = 2 * time.Millisecond
		c.Space(&explore.Space{Name: "ipv6", Serial: true, Body: func(x *explore.X) {
			u := uts[x.Choose("url", len(uts))]
			user := []string{"", "u:p@"}[x.Choose("user", 2)]
			host := []string{"[::1]", "[0:0:0:0:0:0:0:1]"}[x.Choose("host", 2)]
			s6.script(func(int, *recorded) reply { return reply{Status: 200, Body: good} })
			full := "https://" + user + host + s6.addr()[strings.LastIndex(s6.addr(), ":"):] + u.suffix
			o := call(ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{}), "raw", full, nil, strings.NewReader("raw"))
			if o.resp != nil {
				o.resp.Body.Close()
			}
			log, conns := s6.sync()
			if o.err != nil {
				x.Fail("outcome", "%s: %v", full, o.err)
			}
			check(x, full, log, conns, u.target, "", "raw")
			x.State(u.suffix, user, host)
		}})
	}
	// sources and sizes
	sizes := []int{0, 1, 2, 511, 512, 513, 4095, 4096, 4097, 16383, 16384, 16385, 32768, 65535, 65536, 1 << 20, 5 << 20}
	if c.Thorough() {
		sizes = append(sizes, 17<<20, 70<<20)
	}
	sizes = append(sizes, litSizes(16<<20)...)
	c.Space(&explore.Space{Name: "sources", Body: func(x *explore.X) {
		e := at(x)
		n := sizes[x.Choose("size", len(sizes))]
		k := x.Choose("source", len(sourceKinds)+1)
		content := patterned(n)
		var src io.Reader
		if k < len(sourceKinds) {
			if sourceKinds[k] == "stutter" && n > 100000 || sourceKinds[k] == "one byte" && n > 100000 {
				x.Skip()
			}
			src = source(sourceKinds[k], content)
		} else {
			src = &failAfter{strings.NewReader(content), errors.New("broken source")}
		}
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: good} })
		bc, _ := c.settings(x)
		o := call(ofxgo.NewDiscoverCardClient(bc), "raw", "https://"+e.a.addr()+"/x", nil, src)
		log, conns := e.a.sync()
		if k == len(sourceKinds) {
			if o.err == nil || len(log) > 0 && log[0].Err == nil {
				x.Fail("outcome", "a failing source gives error %v and %d requests", o.err, len(log))
			}
			return
		}
		desc := fmt.Sprintf("%d bytes from %s", n, sourceKinds[k])
		if o.err != nil {
			x.Fail("outcome", "%s: %v", desc, o.err)
		}
		check(x, desc, log, conns, "/x", "127.0.0.1", content)
		judgeOutcome(x, desc, "raw", o, 200, bodyCase{text: good}, false, nil, false)
		x.State(desc)
		x.Sample(desc)
	}})
	// requests of every kind and formatting
	c.Space(&explore.Space{Name: "requests", Body: func(x *explore.X) {
		e := at(x)
		m := model.Requests[x.Choose("message", len(model.Requests))]
		v := versionsAll[x.Choose("version", len(versionsAll))]
		st := reqStyles[1+x.Choose("style", 4)]
		entry := entries[1+x.Choose("entry", 2)]
		r := newReqDoc(v, minimal(m)).BuildRequest()
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: good} })
		o := call(ofxgo.NewDiscoverCardClient(basicClient(v, st)), entry, "https://"+e.a.addr()+"/x", r, nil)
		log, conns := e.a.sync()
		b, err := r.Marshal()
		if err != nil || o.err != nil {
			x.Fail("outcome", "%v %v", err, o.err)
		}
		check(x, m.Tag, log, conns, "/x", "127.0.0.1", b.String())
		judgeOutcome(x, m.Tag, entry, o, 200, bodyCase{text: good, doc: goodModel}, false, nil, false)
		x.State(b.String(), entry)
	}})
	// answers
	hows := []string{"length", "chunked", "close", "http10", "gzip", "short", "badchunk", "drop", "garbage", "none"}
	c.Space(&explore.Space{Name: "answers", Body: func(x *explore.X) {
		e := at(x)
		statuses := []int{200, 201, 202, 203, 206, 299, 301, 302, 307, 400, 401, 403, 404, 408, 500, 502, 503, 599, 600, 999}
		status := statuses[x.Choose("status", len(statuses))]
		how := hows[x.Choose("how", len(hows))]
		bodies := []string{good, "", "not ofx", good[:len(good)/2], strings.Repeat(" ", 100000)}
		body := bodies[x.Choose("body", len(bodies))]
		entry := entries[x.Choose("entry", 3)]
		if status != 200 && len(body) != len(good) {
			x.Skip()
		}
		if how == "none" && body != "" {
			x.Skip()
		}
		rp := reply{Status: status, Body: body, How: how}
		if how == "garbage" {
			rp.Body = []string{"", "x", "HTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\nX", "HTTP/1.1 abc\r\n\r\n"}[len(body)%5]
		}
		e.a.script(func(int, *recorded) reply { return rp })
		bc, rq := c.settings(x)
		o := call(ofxgo.NewDiscoverCardClient(bc), entry, "https://"+e.a.addr()+"/x", rq, strings.NewReader("raw"))
		desc := fmt.Sprintf("%s: %d %s, %d bytes", entry, status, how, len(body))
		var body2 []byte
		var rerr error
		if o.resp != nil && o.resp.Body != nil {
			body2, rerr = io.ReadAll(o.resp.Body)
			o.resp.Body = io.NopCloser(&failAfter{bytes.NewReader(body2), ifErr(rerr)})
		}
		log, conns := e.a.sync()
		if conns != 1 || len(log) != 1 {
			x.Fail("count", "%s: %d connections, %d requests", desc, conns, len(log))
		}
		k := bodyCase{text: body}
		if body == good {
			k.doc = goodModel
		}
		broken := how == "short" || how == "badchunk"
		if broken && entry == "parsed" && k.doc != nil && status == 200 {
			return // complete before it breaks off
		}
		judgeOutcome(x, desc, entry, o, status, k, how == "drop" || how == "garbage", nil, broken)
		x.State(desc, fmt.Sprint(o.err != nil))
		x.Sample(desc)
	}})
	c.slow(p, []string{"discover"}, bodyCase{text: good, doc: goodModel})
	// the default port
	if s443, err := c.newServer("127.0.0.77:443", &tls.Config{Certificates: []tls.Certificate{p.ecdsaCert}}); err == nil {
		s443.surplus = 2 * time.Millisecond
		c.Extra["default_port"] = "checked"
		c.Space(&explore.Space{Name: "default port", Serial: true, Body: func(x *explore.X) {
			u := uts[x.Choose("url", len(uts))]
			user := []string{"", "u:p@"}[x.Choose("user", 2)]
			colon := []string{"", ":", ":443"}[x.Choose("port", 3)]
			s443.script(func(int, *recorded) reply { return reply{Status: 200, Body: good} })
			full := "https://" + user + "127.0.0.77" + colon + u.suffix
			o := call(ofxgo.NewDiscoverCardClient(&ofxgo.BasicClient{}), "raw", full, nil, strings.NewReader("raw"))
			if o.err != nil {
				if colon == ":" {
					x.Skip() // an empty port is not judged
				}
				x.Fail("default port", "%s: %v", full, o.err)
			}
			log, conns := s443.sync()
			check(x, full, log, conns, u.target, "127.0.0.77", "raw")
			o.resp.Body.Close()
			x.State(full)
		}})
	} else {
		c.Extra["default_port"] = "not checked: " + err.Error()
		c.Assume = append(c.Assume, "port 443 could not be opened here: the default port is not exercised")
	}
}

// patterned makes text without regularities at power-of-two distances.
func patterned(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i/251*13 + i/65521)
	}
	return string(b)
}

func c22(c *Ctx) {
	specials := []struct{ url, kind string }{{"https://ofx.discovercard.com", "*ofxgo.DiscoverCardClient"}, {"https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "*ofxgo.VanguardClient"}}
	expect := func(u string) string {
		t := u
		for strings.HasPrefix(t, "/") {
			t = t[1:]
		}
		for strings.HasSuffix(t, "/") {
			t = t[:len(t)-1]
		}
		for _, s := range specials {
			if t == s.url {
				return s.kind
			}
		}
		return "*ofxgo.BasicClient"
	}
	check := func(x *explore.X, u string, bc *ofxgo.BasicClient) ofxgo.Client {
		snap := *bc
		cl := ofxgo.GetClient(u, bc)
		want := expect(u)
		if got := fmt.Sprintf("%T", cl); got != want {
			x.Fail("client", "URL %q: client %s, expected %s", u, got, want)
		}
		switch t := cl.(type) {
		case *ofxgo.BasicClient:
			if t != bc {
				x.Fail("client", "URL %q: not the given client", u)
			}
		case *ofxgo.DiscoverCardClient:
			if t.BasicClient == nil || *t.BasicClient != snap {
				x.Fail("settings", "URL %q: settings %+v became %+v", u, snap, t.BasicClient)
			}
		case *ofxgo.VanguardClient:
			if t.BasicClient == nil || *t.BasicClient != snap {
				x.Fail("settings", "URL %q: settings %+v became %+v", u, snap, t.BasicClient)
			}
		}
		if *bc != snap {
			x.Fail("settings", "URL %q: the given client was changed", u)
		}
		x.State(u, want)
		x.Sample(fmt.Sprintf("%q: %s", u, want))
		return cl
	}
	slashes := []string{"", "/", "//", "///"}
	c.Space(&explore.Space{Name: "slashes", Body: func(x *explore.X) {
		s := specials[x.Choose("special", 2)]
		check(x, slashes[x.Choose("before", 4)]+s.url+slashes[x.Choose("after", 4)], &ofxgo.BasicClient{})
	}})
	alpha := []string{"a", "/", "x", "A", ".", " ", "?", "#", ":", "s", "%2F", "\u00e9", "0", "\\", "@", "-", "*"}
	c.Space(&explore.Space{Name: "edits", Bound: c.Pick(1, 2), Body: func(x *explore.X) {
		s := specials[x.Choose("special", 2)]
		u := s.url
		if x.Choose("slash", 2) == 1 {
			u += "/"
		}
		var b strings.Builder
		for i := 0; i <= len(u); i++ {
			// insert before, delete, substitute, change case
			k := x.Dev("edit", 3+2*len(alpha))
			switch {
			case k == 0:
				if i < len(u) {
					b.WriteByte(u[i])
				}
			case k == 1: // delete
			case k == 2:
				if i < len(u) {
					b.WriteString(strings.ToUpper(u[i : i+1]))
				}
			case k < 3+len(alpha):
				b.WriteString(alpha[k-3])
				if i < len(u) {
					b.WriteByte(u[i])
				}
			default:
				b.WriteString(alpha[k-3-len(alpha)])
			}
		}
		check(x, b.String(), &ofxgo.BasicClient{})
	}})
	c.Space(&explore.Space{Name: "others", Body: func(x *explore.X) {
		us := []string{"", "/", "//", "https://", "https://example.com", "https://example.com/", "http://ofx.discovercard.com", "ofx.discovercard.com", "https://ofx.discovercard.com:443", "https://ofx.discovercard.com/path", "https://ofx.discovercard.com?x", "https://www.discovercard.com", "https://discovercard.com", "HTTPS://OFX.DISCOVERCARD.COM", "https://vesnc.vanguard.com", "https://vesnc.vanguard.com/us", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet?x=1", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet/x", "http://vesnc.vanguard.com/us/OfxDirectConnectServlet", "https://vesnc.vanguard.com/us/ofxdirectconnectservlet", "https://vesnc.vanguard.com//us/OfxDirectConnectServlet", "https://x/https://ofx.discovercard.com", "https://ofx.discovercard.com.evil.example", "https://ofx.discovercard.com\n", " https://ofx.discovercard.com", "https://ofx.discovercard.com#", "https://u@ofx.discovercard.com"}
		us = append(us, Lit.Strings...)
		u := us[x.Choose("url", len(us))]
		bc := &ofxgo.BasicClient{AppID: "X", UserAgent: "ua", NoIndent: x.Choose("noindent", 2) == 1, CarriageReturn: x.Choose("cr", 2) == 1, HTTPClient: http.DefaultClient}
		check(x, u, bc)
	}})
	// precedence of settings
	vers := []uint64{0}
	for _, v := range model.Versions {
		vers = append(vers, uint64(v.Val))
	}
	vers = append(vers, 12, 99, 1<<40)
	ids := append([]string{"", "QWIN", "A", "OFXGO", "toolong", "a b", " Q", "Q ", "\tQ\n", "%41", "a&amp;b", "<A>", "QMOFX", "QB", "Money", "money", "QBW", " ", "\u00a0"}, Lit.Strings...)
	vs := append([]string{"", "2400", "1", "0001", "longer", "a b", " 1", "1 ", "01\n", "1.0", "&#49;", "2600", "1900", "1700", "1600", "1100", "1800", " ", "\u00a02"}, Lit.Strings...)
	ids, vs = uniq(ids), uniq(vs)
	c.Space(&explore.Space{Name: "applications", Body: func(x *explore.X) {
		bc := &ofxgo.BasicClient{NoIndent: x.Choose("noindent", 2) == 1, CarriageReturn: x.Choose("cr", 2) == 1, AppID: ids[x.Choose("appid", len(ids))], AppVer: vs[x.Choose("appver", len(vs))]}
		v := x.Choose("version", len(vers))
		reflect.ValueOf(bc).Elem().FieldByName("SpecVersion").SetUint(vers[v])
		bc.UserAgent = []string{"", "InetClntApp/3.0", " padded "}[v%3]
		cl := makeClient(clientKinds[(v/2)%3], bc)
		wantID, wantVer := bc.AppID, bc.AppVer
		if wantID == "" {
			wantID = "OFXGO"
		}
		if wantVer == "" {
			wantVer = "0001"
		}
		wantV := "203"
		if n := model.EnumOf("ofxVersion").NameOf(uint(vers[v])); n != "" {
			wantV = n
		}
		if cl.OfxVersion().String() != wantV || string(cl.ID()) != wantID || string(cl.Version()) != wantVer || cl.IndentRequests() == bc.NoIndent || cl.CarriageReturnNewLines() != bc.CarriageReturn {
			x.Fail("settings", "%+v: the client's own answers differ: %v %v %v %v %v", *bc, cl.OfxVersion(), cl.ID(), cl.Version(), cl.IndentRequests(), cl.CarriageReturnNewLines())
		}
		x.State(wantV, wantID, wantVer, fmt.Sprint(bc.NoIndent, bc.CarriageReturn))
	}})
	if !c.Thorough() {
		ids, vs = ids[:12], vs[:12]
	}
	c.Space(&explore.Space{Name: "settings", Body: func(x *explore.X) {
		bc := &ofxgo.BasicClient{NoIndent: x.Choose("noindent", 2) == 1, CarriageReturn: x.Choose("cr", 2) == 1}
		v := vers[x.Choose("version", len(vers))]
		reflect.ValueOf(bc).Elem().FieldByName("SpecVersion").SetUint(v)
		bc.AppID = ids[x.Choose("appid", len(ids))]
		bc.AppVer = vs[x.Choose("appver", len(vs))]
		if x.Choose("agent", 2) == 1 {
			bc.UserAgent = "InetClntApp/3.0"
		}
		kind := clientKinds[x.Choose("client", 3)]
		d := newReqDoc([]int{102, 220}[x.Choose("request", 2)], minimal(model.MsgByTag("STMTTRNRQ")), minimal(model.MsgByTag("PROFTRNRQ")))
		if x.Choose("signon", 2) == 1 {
			d.Signon = (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(true)
		}
		r := d.BuildRequest()
		r.URL = "https://u/"
		twice := x.Choose("twice", 2) == 1
		if twice {
			r.SetClientFields(basicClient(160, reqStyle{cr: true}))
		}
		cl := makeClient(kind, bc)
		snap := *bc
		before := time.Now()
		r.SetClientFields(cl)
		after := time.Now()
		if *bc != snap {
			x.Fail("settings", "the client was changed")
		}
		wantV := "203"
		if n := model.EnumOf("ofxVersion").NameOf(uint(v)); n != "" {
			wantV = n
		}
		wantID, wantVer := bc.AppID, bc.AppVer
		if wantID == "" {
			wantID = "OFXGO"
		}
		if wantVer == "" {
			wantVer = "0001"
		}
		desc := fmt.Sprintf("%s client %+v", kind, snap)
		if r.Version.String() != wantV || string(r.Signon.AppID) != wantID || string(r.Signon.AppVer) != wantVer {
			x.Fail("settings", "%s: request gets version %s, application %q %q", desc, r.Version, r.Signon.AppID, r.Signon.AppVer)
		}
		if cl.OfxVersion().String() != wantV || string(cl.ID()) != wantID || string(cl.Version()) != wantVer || cl.IndentRequests() == bc.NoIndent || cl.CarriageReturnNewLines() != bc.CarriageReturn {
			x.Fail("settings", "%s: the client's own answers differ: %v %v %v %v %v", desc, cl.OfxVersion(), cl.ID(), cl.Version(), cl.IndentRequests(), cl.CarriageReturnNewLines())
		}
		if t := r.Signon.DtClient.Time; t.Before(before) || t.After(after) {
			x.Fail("time", "%s: DTCLIENT is %v at %v", desc, t, before)
		}
		if r.URL != "https://u/" {
			x.Fail("other fields", "%s: the URL becomes %q", desc, r.URL)
		}
		// all other fields
		r2 := *r
		r2.Signon.DtClient = model.GoDate(d.Signon.Find("DTCLIENT").V)
		r2.Signon.AppID, r2.Signon.AppVer = ofxgo.String(d.Signon.Find("APPID").V.S), ofxgo.String(d.Signon.Find("APPVER").V.S)
		setVersion(reflect.ValueOf(&r2).Elem().FieldByName("Version"), d.Version)
		if diff := model.Diff(d.Canon(), model.CanonResponse(&r2)); diff != "" {
			x.Fail("other fields", "%s: another field changed: %s", desc, diff)
		}
		// formatting
		if len(wantID) <= 5 && len(wantVer) <= 4 {
			b, err := r.Marshal()
			if err != nil {
				x.Fail("marshal", "%s: %v", desc, err)
			}
			checkLayout(x, b.String(), reqStyle{indent: !bc.NoIndent, cr: bc.CarriageReturn})
		}
		x.State(desc, wantV, fmt.Sprint(twice))
		x.Sample(desc)
	}})
	// a client of the caller's own: its answers are used
	c.Space(&explore.Space{Name: "own client", Body: func(x *explore.X) {
		oc := &ownClient{BasicClient: &ofxgo.BasicClient{AppID: "BASE", AppVer: "9"}, indent: x.Choose("indent", 2) == 1, cr: x.Choose("cr", 2) == 1}
		r := simpleRequest()
		r.SetClientFields(oc)
		if r.Signon.AppID != "OWN" || r.Signon.AppVer != "77" {
			x.Fail("settings", "own client's settings are not used: %q %q", r.Signon.AppID, r.Signon.AppVer)
		}
		b, err := r.Marshal()
		if err != nil {
			x.Fail("marshal", "%v", err)
		}
		checkLayout(x, b.String(), reqStyle{indent: oc.indent, cr: oc.cr})
		x.State(b.String()[:10])
	}})
	// the settings reach the request that is sent, and may be inspected after
	c.Space(&explore.Space{Name: "sent", Body: func(x *explore.X) {
		ft := &fakeTransport{f: func(q *http.Request) (*http.Response, error) { return memReply(q, 200, nil, goodDoc()), nil }}
		v := vers[x.Choose("version", len(vers))]
		st := reqStyle{indent: x.Choose("indent", 2) == 1, cr: x.Choose("cr", 2) == 1}
		bc := &ofxgo.BasicClient{NoIndent: !st.indent, CarriageReturn: st.cr, AppID: []string{"", "QWIN"}[x.Choose("appid", 2)], AppVer: []string{"", "2400"}[x.Choose("appver", 2)], HTTPClient: &http.Client{Transport: ft}}
		reflect.ValueOf(bc).Elem().FieldByName("SpecVersion").SetUint(v)
		d := newReqDoc([]int{102, 220}[x.Choose("request", 2)], minimal(model.MsgByTag("STMTTRNRQ")))
		r := d.BuildRequest()
		entry := entries[1+x.Choose("entry", 2)]
		before := time.Now()
		o := call(bc, entry, "https://h/", r, nil)
		if o.err != nil || len(ft.calls) != 1 {
			x.Fail("outcome", "%v", o.err)
		}
		d.Version = 203
		if n := model.EnumOf("ofxVersion").NameOf(uint(v)); n != "" {
			fmt.Sscan(n, &d.Version)
		}
		setLeafText(d.Signon, nil, "APPID", []string{"OFXGO", bc.AppID}[b2i(bc.AppID != "")])
		setLeafText(d.Signon, nil, "APPVER", []string{"0001", bc.AppVer}[b2i(bc.AppVer != "")])
		// the time of the request
		k := d.Signon.Find("DTCLIENT")
		k.V = model.DateOf(r.Signon.DtClient)
		k.V.MS = k.V.MS / 1 // milliseconds are sent
		if t := r.Signon.DtClient.Time; t.Before(before) || t.After(time.Now()) {
			x.Fail("time", "DTCLIENT is %v", t)
		}
		checkWritten(x, d, ft.calls[0], d.Version >= 200, d.Canon())
		checkLayout(x, ft.calls[0], st)
		x.State(fmt.Sprint(v, st, bc.AppID, bc.AppVer, entry))
	}})
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ownClient is a client defined by the caller.
type ownClient struct {
	*ofxgo.BasicClient
	indent, cr bool
}

func (o *ownClient) ID() ofxgo.String             { return "OWN" }
func (o *ownClient) Version() ofxgo.String        { return "77" }
func (o *ownClient) IndentRequests() bool         { return o.indent }
func (o *ownClient) CarriageReturnNewLines() bool { return o.cr }
