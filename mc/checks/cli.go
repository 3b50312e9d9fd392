package checks

import (
	"bytes"
	"context"
	"fmt"
	"html"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C25", "exhaustive enumeration of bounded deviations of the flags of every command of the real program, dry run and against recording TLS servers", "", c25)
	register("C26", "exhaustive enumeration of bounded answers to the listing commands of the real program", "", c26)
	register("C27", "exhaustive enumeration of answers, break-off points and file states for the download commands of the real program", "", c27)
	register("C28", "exhaustive enumeration of servers accepting given settings, each explored over the whole settings grid by the real program", "", c28)
}

// cli is the command line client built from the working tree.
type cli struct {
	bin  string
	envs []*netEnv
	dirs []string
}

func (c *Ctx) newCLI() *cli {
	h := &cli{}
	d := c.Scratch()
	h.bin = filepath.Join(d, "ofx")
	cmd := exec.Command("go", "build", "-mod=readonly", "-o", h.bin, "./cmd/ofx")
	cmd.Dir = "/repo"
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "HARNESS: building the command line client: %v\n%s", err, b)
		os.Exit(2)
	}
	p := c.newPKI()
	h.envs = c.newEnvs(p, 16)
	for i := range h.envs {
		w := filepath.Join(d, fmt.Sprintf("w%d", i))
		if err := os.Mkdir(w, 0755); err != nil {
			panic("model: " + err.Error())
		}
		h.dirs = append(h.dirs, w)
	}
	c.Assume = append(c.Assume, "the command line client runs as a process of its own, built from the working tree, against TLS servers on the loopback", "wording of messages is not prescribed beyond what they must name")
	return h
}

func (h *cli) env(x *explore.X) *netEnv { return h.envs[x.Worker()%len(h.envs)] }

// dir is an empty directory for this execution.
func (h *cli) dir(x *explore.X) string {
	d := h.dirs[x.Worker()%len(h.dirs)]
	fs, err := os.ReadDir(d)
	if err != nil {
		panic("model: " + err.Error())
	}
	for _, f := range fs {
		if err := os.RemoveAll(filepath.Join(d, f.Name())); err != nil {
			panic("model: " + err.Error())
		}
	}
	return d
}

type cliOut struct {
	out, err string
	code     int
}

func (o cliOut) said() bool { return strings.TrimSpace(o.out+o.err) != "" }

func (o cliOut) String() string {
	return fmt.Sprintf("exit status %d, output:\n%s%s", o.code, clipN(o.out, 1500), clipN(o.err, 1500))
}

// run executes one command.
func (h *cli) run(x *explore.X, dir string, stdin io.Reader, args ...string) cliOut {
	limit := 60 * time.Second
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, h.bin, args...)
	cmd.Dir = dir
	// the clock of the machine is not set to GMT
	cmd.Env = append(os.Environ(), "TZ=Asia/Kolkata", "HOME="+filepath.Join(dir, "home"))
	if f, ok := stdin.(*os.File); ok {
		cmd.Stdin = f
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	o := cliOut{out: out.String(), err: errb.String()}
	if ctx.Err() != nil {
		x.Fail("hang", "%q does not end within %v: %v", args, limit, o)
	}
	if ee, ok := err.(*exec.ExitError); ok {
		o.code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			x.Fail("crash", "%q: %v: %v", args, err, o)
		}
	} else if err != nil {
		panic("model: " + err.Error())
	}
	if strings.Contains(o.err, "goroutine ") && (strings.Contains(o.err, "panic: ") || strings.Contains(o.err, "fatal error: ")) {
		x.Fail("crash", "%q: %v", args, o)
	}
	return o
}

// flagAlt is one alternative for a flag.
type flagAlt struct {
	val    string
	absent bool
	verdict
}

type verdict int

const (
	fine    verdict = iota
	refused         // the command must end with a message and nonzero
	unclear         // either is accepted
)

type flagSpec struct {
	name string
	alts []flagAlt // the first is the default
}

func alt(v string) flagAlt                 { return flagAlt{val: v} }
func bad(v string) flagAlt                 { return flagAlt{val: v, verdict: refused} }
func none(v verdict) flagAlt               { return flagAlt{absent: true, verdict: v} }
func spec(n string, a ...flagAlt) flagSpec { return flagSpec{n, a} }

const (
	markup   = `a<b>&amp;c "d" 'e'`
	anonUser = "anonymous00000000000000000000000"
)

var cliCommands = []struct{ name, tag, kind string }{
	{"download-profile", "PROFTRNRQ", "download"},
	{"get-accounts", "ACCTINFOTRNRQ", "list"},
	{"download-bank", "STMTTRNRQ", "download"},
	{"download-cc", "CCSTMTTRNRQ", "download"},
	{"download-inv", "INVSTMTTRNRQ", "download"},
	{"transactions-bank", "STMTTRNRQ", "list"},
	{"transactions-cc", "CCSTMTTRNRQ", "list"},
	{"transactions-inv", "INVSTMTTRNRQ", "list"},
}

func cliFlags(cmd, tag, kind string) []flagSpec {
	long := strings.Repeat("u", 32)
	fs := []flagSpec{
		spec("username", alt("user1"), none(refused), alt(long), alt(markup), bad(long+"u"), alt("-dash=x"), alt("two words"), alt("%41%s")),
		spec("password", alt("secret"), none(refused), alt(long), alt(markup), bad(long+"p"), alt("=pw"), alt("p w")),
		spec("org", none(fine), alt("ORG"), alt(markup), alt("")),
		spec("fid", none(fine), alt("1234"), alt(markup), alt("")),
		spec("appid", none(fine), alt("OFXGO"), alt("A"), alt("a&b<"), bad("TOOLNG"), flagAlt{verdict: unclear}),
		spec("appver", none(fine), alt("1"), alt("0001"), bad("24000"), flagAlt{verdict: unclear}),
		spec("ofxversion", none(fine), alt("102"), alt("103"), alt("151"), alt("160"), alt("200"), alt("201"), alt("202"), alt("203"), alt("210"), alt("211"), alt("220"), bad("100"), bad("2.03"), bad("x"), bad("20"), bad("2030"), bad("")),
		spec("clientuid", none(fine), alt("22576921-8E39-4A82-9E3E-EDDB121ADDEE"), alt("x<y&"), alt("")),
		spec("useragent", none(fine), alt("InetClntApp/3.0"), alt("a <b> c")),
		spec("noindent", none(fine), alt("true"), alt("false"), bad("maybe")),
		spec("carriagereturn", none(fine), alt("true"), alt("false"), bad("maybe")),
	}
	if cmd == "download-profile" {
		fs[0].alts[1].verdict = fine
	}
	acct := []flagAlt{alt("ACCT-1"), none(unclear), alt(markup), alt("0"), alt("00 12")}
	switch tag {
	case "STMTTRNRQ":
		acct[1].verdict = refused
		fs = append(fs, spec("bankid", alt("BANK-1"), none(refused), bad(""), alt("0"), alt(markup)),
			spec("acctid", acct...),
			spec("accttype", none(fine), alt("CHECKING"), alt("SAVINGS"), alt("MONEYMRKT"), alt("CREDITLINE"), alt("CD"), bad("FOO"), bad(""), bad("CHECK")))
	case "CCSTMTTRNRQ":
		fs = append(fs, spec("acctid", acct...))
	case "INVSTMTTRNRQ":
		fs = append(fs, spec("acctid", acct...), spec("brokerid", alt("broker.com"), none(unclear), alt("0"), alt(markup)))
	}
	if kind == "download" {
		fs = append(fs, spec("filename", none(fine), alt("out.bin"), alt("./sub dir.ofx"), bad("")))
	}
	return fs
}

type cliArgs struct {
	vals    map[string]string
	absent  map[string]bool
	verdict verdict
	args    []string
	typed   string // the password typed on the terminal
}

func (a *cliArgs) get(name, def string) string {
	if a.absent[name] {
		return def
	}
	return a.vals[name]
}

// flags chooses values for flags.
func cliChoose(x *explore.X, fs []flagSpec, url string, dry bool) *cliArgs {
	a := &cliArgs{vals: map[string]string{}, absent: map[string]bool{}}
	style := x.Dev("style", 4)
	put := func(name, v string, isBool bool) {
		switch {
		case style == 0 && isBool && v == "true":
			a.args = append(a.args, "-"+name)
		case style == 3 && !isBool:
			a.args = append(a.args, "--"+name, v)
		case style == 2 || style == 3:
			a.args = append(a.args, "--"+name+"="+v)
		case style == 1 || isBool:
			a.args = append(a.args, "-"+name+"="+v)
		default:
			a.args = append(a.args, "-"+name, v)
		}
	}
	type one struct{ name, v string }
	var list []one
	if url != "-" {
		list = append(list, one{"url", url})
	}
	for _, f := range fs {
		k := f.alts[x.Dev(f.name, len(f.alts))]
		if f.name == "password" && a.absent["username"] && a.verdict == fine {
			k.verdict = fine // anonymous credentials replace both
		}
		if k.verdict == refused || k.verdict == unclear && a.verdict == fine {
			a.verdict = k.verdict
		}
		if k.absent {
			a.absent[f.name] = true
			continue
		}
		a.vals[f.name] = k.val
		list = append(list, one{f.name, k.val})
	}
	if dry {
		list = append(list, one{"dryrun", "true"})
	}
	if x.DevBool("reversed", false) {
		for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
			list[i], list[j] = list[j], list[i]
		}
	}
	for _, o := range list {
		put(o.name, o.v, o.name == "noindent" || o.name == "carriagereturn" || o.name == "dryrun")
	}
	return a
}

var cliUID = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$`)

// cliRequest is the request flags describe.
func cliRequest(tag string, a *cliArgs) *ofxgo.Request {
	r := &ofxgo.Request{}
	user, pass := a.get("username", ""), a.get("password", "")
	if tag == "PROFTRNRQ" && user == "" {
		user, pass = anonUser, anonUser
	}
	def := func(v, d string) string {
		if v == "" {
			return d
		}
		return v
	}
	r.Signon.UserID, r.Signon.UserPass = ofxgo.String(user), ofxgo.String(pass)
	r.Signon.Language = "ENG"
	r.Signon.Org, r.Signon.Fid = ofxgo.String(a.get("org", "")), ofxgo.String(a.get("fid", ""))
	r.Signon.AppID = ofxgo.String(def(a.get("appid", "QWIN"), "OFXGO"))
	r.Signon.AppVer = ofxgo.String(def(a.get("appver", "2400"), "0001"))
	r.Signon.ClientUID = ofxgo.UID(a.get("clientuid", ""))
	acct := ofxgo.String(a.get("acctid", ""))
	var m ofxgo.Message
	switch tag {
	case "PROFTRNRQ":
		m = &ofxgo.ProfileRequest{ClientRouting: "NONE"}
	case "ACCTINFOTRNRQ":
		m = &ofxgo.AcctInfoRequest{DtAcctUp: ofxgo.Date{Time: time.Unix(0, 0).UTC()}}
	case "STMTTRNRQ":
		b := ofxgo.BankAcct{BankID: ofxgo.String(a.get("bankid", "")), AcctID: acct}
		if v, ok := model.EnumOf("acctType").Value(a.get("accttype", "CHECKING")); ok {
			setNum(&b, "AcctType", v.Num)
		}
		m = &ofxgo.StatementRequest{BankAcctFrom: b, Include: true}
	case "CCSTMTTRNRQ":
		m = &ofxgo.CCStatementRequest{CCAcctFrom: ofxgo.CCAcct{AcctID: acct}, Include: true}
	case "INVSTMTTRNRQ":
		m = &ofxgo.InvStatementRequest{InvAcctFrom: ofxgo.InvAcct{BrokerID: ofxgo.String(a.get("brokerid", "")), AcctID: acct}, Include: true, IncludeOO: true, IncludePos: true, IncludeBalance: true, Include401K: true, Include401KBal: true}
	}
	addMsg(r, model.MsgByTag(tag).Slot, m)
	return r
}

// cliCheckRequest compares a request as sent or printed with the flags.
func cliCheckRequest(x *explore.X, tag string, a *cliArgs, text string, from, to time.Time) {
	version := 0
	fmt.Sscan(a.get("ofxversion", "203"), &version)
	_, body, err := model.Split(text)
	if err != nil {
		x.Fail("request", "%v:\n%s", err, text)
	}
	got, err := model.ReadBody(body, true, version >= 200)
	if err != nil {
		x.Fail("request", "%v:\n%s", err, text)
	}
	r := cliRequest(tag, a)
	setVersionOf(r, version)
	d := &model.Doc{Version: version, Request: true}
	dt := got.Signon.Find("DTCLIENT")
	if dt == nil || dt.V.MS < from.UnixMilli()-1000 || dt.V.MS > to.UnixMilli()+1000 {
		x.Fail("request", "DTCLIENT is not the current time:\n%s", text)
	}
	r.Signon.DtClient = model.GoDate(dt.V)
	if len(got.Msgs) != 1 || got.Msgs[0].Tag != tag {
		x.Fail("request", "not one %s:\n%s", tag, text)
	}
	uid := got.Msgs[0].Str("TRNUID")
	if !cliUID.MatchString(uid) {
		x.Fail("request", "TRNUID %q:\n%s", uid, text)
	}
	setText(r, model.MsgByTag(tag).Slot, "TrnUID", uid)
	if tag == "PROFTRNRQ" {
		// none (the year one) or some date in the past
		if p := got.Msgs[0].Path("PROFRQ/DTPROFUP"); p != nil {
			if p.V.MS > 0 {
				x.Fail("request", "DTPROFUP is not in the past:\n%s", text)
			}
			r.Prof[0].(*ofxgo.ProfileRequest).DtProfUp = model.GoDate(p.V)
		}
	}
	checkWritten(x, d, text, version >= 200, model.CanonResponse(r))
	// the texts given arrive as they are, blanks at their ends included
	for flag, el := range map[string]string{"username": "USERID", "password": "USERPASS", "org": "ORG", "fid": "FID", "appid": "APPID", "appver": "APPVER", "clientuid": "CLIENTUID", "bankid": "BANKID", "acctid": "ACCTID", "brokerid": "BROKERID"} {
		want := a.get(flag, "")
		if flag == "password" && a.typed != "" {
			want = a.typed
		}
		_, t, ok := strings.Cut(text, "<"+el+">")
		if want == "" || !ok || tag == "PROFTRNRQ" && (flag == "username" || flag == "password") { // anonymous there
			continue
		}
		if i := strings.IndexAny(t, "<\r\n"); i >= 0 {
			t = t[:i]
		}
		if t = html.UnescapeString(t); t != want {
			x.Fail("text", "%s is %q instead of %q:\n%s", el, t, want, text)
		}
	}
	isTrue := func(n string) bool { return a.get(n, "false") == "true" }
	checkLayout(x, text, reqStyle{indent: !isTrue("noindent"), cr: isTrue("carriagereturn")})
}

func c25(c *Ctx) {
	h := c.newCLI()
	type answer struct {
		reply
		ok bool
	}
	answers := []answer{{reply{Status: 200, Body: goodDoc()}, true}, {reply{Status: 500, Body: "x"}, false}, {reply{How: "drop"}, false}, {reply{Status: 200, How: "none"}, false}, {reply{Status: 302, Fields: []string{"Location: http://127.0.0.1:1/"}}, false}}
	judge := func(x *explore.X, cmd, tag, kind, path string, fs []flagSpec, dry bool, an answer) {
		e, dir := h.env(x), h.dir(x)
		e.a.script(func(int, *recorded) reply { return an.reply })
		a := cliChoose(x, fs, "https://"+e.a.addr()+path, dry)
		args := append([]string{cmd}, a.args...)
		from := time.Now()
		o := h.run(x, dir, nil, args...)
		to := time.Now()
		log, conns := e.a.sync()
		desc := fmt.Sprintf("%q", args)
		x.State(strings.ReplaceAll(desc, e.a.addr(), ""), fmt.Sprint(o.code, len(log), an.ok))
		x.Sample(strings.ReplaceAll(desc, e.a.addr(), "ADDR"))
		if dry && conns > 0 {
			x.Fail("contact", "dry run %s contacts the server: %v", desc, o)
		}
		isRefused := a.verdict == refused
		if a.verdict == unclear {
			isRefused = o.code != 0 && conns == 0
		}
		if isRefused {
			if conns > 0 || len(log) > 0 {
				x.Fail("contact", "%s contacts the server despite invalid flags: %v", desc, o)
			}
			if o.code == 0 {
				x.Fail("status", "%s ends successfully despite invalid flags: %v", desc, o)
			}
			if !o.said() {
				x.Fail("message", "%s fails without a message", desc)
			}
			if strings.Contains(o.out, "<OFX>") {
				x.Fail("request", "%s prints a request despite invalid flags: %v", desc, o)
			}
			if fs, _ := os.ReadDir(dir); len(fs) > 0 {
				x.Fail("file", "%s leaves a file despite invalid flags", desc)
			}
			return
		}
		if dry {
			if o.code != 0 || o.err != "" {
				x.Fail("status", "%s: %v", desc, o)
			}
			text := o.out
			if !strings.HasSuffix(text, "\n") {
				x.Fail("request", "%s: no final line break: %v", desc, o)
			}
			cliCheckRequest(x, tag, a, strings.TrimSuffix(text, "\n"), from, to)
			return
		}
		if len(log) != 1 || conns != 1 {
			x.Fail("count", "%s: %d requests on %d connections: %v", desc, len(log), conns, o)
		}
		rec := log[0]
		want, _, _ := strings.Cut(path, "#")
		if want == "" || want[0] != '/' {
			want = "/" + want
		}
		if rec.Err != nil || rec.Line != "POST "+want+" HTTP/1.1" {
			x.Fail("request", "%s: %q %v", desc, rec.Line, rec.Err)
		}
		if ct := rec.get("Content-Type"); len(ct) != 1 || ct[0] != "application/x-ofx" {
			x.Fail("request", "%s: content type %q", desc, ct)
		}
		ua := strings.Join(rec.get("User-Agent"), ",")
		if w := a.get("useragent", ""); w != "" && ua != w {
			x.Fail("request", "%s: user agent %q", desc, ua)
		}
		cliCheckRequest(x, tag, a, string(rec.Body), from, to)
		if an.ok != (o.code == 0) {
			x.Fail("status", "%s: %v", desc, o)
		}
		if !an.ok && !o.said() {
			x.Fail("message", "%s fails without a message", desc)
		}
		if kind == "download" {
			b, err := os.ReadFile(filepath.Join(dir, a.get("filename", "response.ofx")))
			if an.ok && (err != nil || string(b) != an.Body) {
				x.Fail("file", "%s: answer not stored: %v", desc, err)
			}
		}
	}
	for _, k := range cliCommands {
		k := k
		for _, dry := range []bool{true, false} {
			dry := dry
			name := map[bool]string{true: "dry run", false: "real"}[dry]
			c.Space(&explore.Space{Name: name + "/" + k.name, Bound: c.Pick(2, 3), Body: func(x *explore.X) {
				an := answers[0]
				path := "/ofx"
				if !dry {
					an = answers[x.Dev("answer", len(answers))]
					paths := []string{"/ofx", "", "/a/b?c=d&e=f%20g", "/x%2Fy"}
					path = paths[x.Dev("path", len(paths))]
					if an.How == "none" && k.kind == "download" {
						an.ok = true
					}
				}
				judge(x, k.name, k.tag, k.kind, path, cliFlags(k.name, k.tag, k.kind), dry, an)
			}})
		}
		// all formats
		c.Space(&explore.Space{Name: "formats/" + k.name, Body: func(x *explore.X) {
			dry := x.Choose("dry", 2) == 0
			fs := cliFlags(k.name, k.tag, k.kind)
			var out []flagSpec
			for _, f := range fs {
				f.alts = f.alts[:1]
				switch f.name {
				case "ofxversion":
					f.alts = []flagAlt{alt(fmt.Sprint(versionsAll[x.Choose("version", len(versionsAll))]))}
				case "noindent":
					f.alts = []flagAlt{alt([]string{"false", "true"}[x.Choose("noindent", 2)])}
				case "carriagereturn":
					f.alts = []flagAlt{alt([]string{"false", "true"}[x.Choose("carriagereturn", 2)])}
				}
				out = append(out, f)
			}
			judge(x, k.name, k.tag, k.kind, "/", out, dry, answers[0])
		}})
	}
	// every notation of the path
	paths := []string{"", "/", "//", "/ofx/", "/ofx//", "/a/b/", "/a//b", "/?", "/ofx?", "/ofx/?", "?a=b", "/a?b=", "/a?b=1&", "/a?&b", "/a?b=/c/", "/a?b=c%20d+e", "/a?b=https://x/", "/a;b=c", "/a%2fb", "/a%2Fb/", "/a%20b", "/a+b", "/~a", "/A/b", "/a/../b", "/a/./b", "/.", "/..", "/a.ofx", "/a:b", "/a@b", "/a,b", "/a$b!c*d(e)'f'", "/a%c3%a9", "/a%C3%A9", "/ofx#f", "/#", "/a?b#c", "/" + strings.Repeat("long/", 300)}
	c.Space(&explore.Space{Name: "addresses", Body: func(x *explore.X) {
		k := cliCommands[x.Choose("command", len(cliCommands))]
		fs := cliFlags(k.name, k.tag, k.kind)
		for i := range fs {
			fs[i].alts = fs[i].alts[:1]
		}
		judge(x, k.name, k.tag, k.kind, paths[x.Choose("path", len(paths))], fs, x.Choose("dry", 2) == 1, answers[0])
	}})
	// every character in every text, and texts which mean something elsewhere
	var texts []string
	for r := rune(0x20); r < 0x7f; r++ {
		texts = append(texts, string(r))
	}
	texts = append(texts, "é", "€", "\U0001f600", "ß", "İ", "ſ")
	words := []string{"007", "-0", "+5", "1e3", "0x1F", "1.50", "1,00", "0", "00", "01", "NULL", "null", "none", "NONE", "nil", "true", "TRUE", "No", "N/A", "%20", "&lt;", "$HOME", "${HOME}", "$1", "~", "~/x", "*", "a/b", "a\\b", `C:\x`, `\n`, `\u0041`, `'q'`, `"q"`, "#1", "@x", "@/dev/null", "a;b", "a|b", "`id`", "$(id)", "!!", "a=b", "-x", "--x", "aBcD", "ABCD", "abcd", "a  b", "1-2-3", "1234-5678-9012", "12 34", "(1)", "a_b", "<!--x-->", "]]>", "OFX", "123456789012345678901234", "000000000000000000001"}
	for _, k := range cliCommands {
		k := k
		c.Space(&explore.Space{Name: "texts/" + k.name, Body: func(x *explore.X) {
			var v string
			if n := x.Choose("text", len(texts)+len(words)); n < len(texts) {
				v = []string{"", "0", "a"}[x.Choose("before", 3)] + texts[n]
				if x.Choose("twice", 2) == 1 {
					v += texts[n]
				}
				v += []string{"", "0", "n"}[x.Choose("after", 3)]
			} else {
				v = words[n-len(texts)]
			}
			if strings.TrimSpace(v) == "" {
				x.Skip() // no value
			}
			var out []flagSpec
			for _, f := range cliFlags(k.name, k.tag, k.kind) {
				f.alts = f.alts[:1]
				most := 32
				switch f.name {
				case "ofxversion", "noindent", "carriagereturn", "accttype", "filename":
					most = 0
				case "appid":
					most = 5
				case "appver":
					most = 4
				}
				if len(v) <= most {
					f.alts = []flagAlt{alt(v)}
				}
				out = append(out, f)
			}
			judge(x, k.name, k.tag, k.kind, "/", out, true, answers[0])
		}})
	}
	// values which are not among those offered
	offered := func(f flagSpec) (vs []string) {
		for _, a := range f.alts {
			if a.verdict == fine && a.val != "" {
				vs = append(vs, a.val)
			}
		}
		return
	}
	var nums []string
	for n := 0; n < 1000; n++ {
		nums = append(nums, fmt.Sprint(n))
		if n < 100 {
			nums = append(nums, fmt.Sprintf("%02d", n), fmt.Sprintf("%03d", n), fmt.Sprint(n*100))
		}
	}
	letters := []string{"0", "1", "2", "3", "-", ".", "x", "S", "_", "G", "K"}
	c.Space(&explore.Space{Name: "unknown values", Body: func(x *explore.X) {
		k := cliCommands[x.Choose("command", len(cliCommands))]
		fs := cliFlags(k.name, k.tag, k.kind)
		for i := range fs {
			if fs[i].name == "ofxversion" || fs[i].name == "accttype" {
				continue
			}
			fs[i].alts = fs[i].alts[:1]
		}
		i := 0
		names := []string{"ofxversion", "accttype"}
		name := names[x.Choose("flag", 2)]
		for i < len(fs) && fs[i].name != name {
			i++
		}
		if i == len(fs) {
			x.Skip()
		}
		all := offered(fs[i])
		var cand []string
		if name == "ofxversion" && (k.name == "get-accounts" || c.Thorough()) {
			cand = append(cand, nums...)
		}
		for q, v := range all {
			if q%4 != 0 && k.name != "transactions-bank" && !c.Thorough() {
				continue
			}
			for p := 0; p <= len(v); p++ {
				for _, l := range letters {
					cand = append(cand, v[:p]+l+v[p:])
				}
				if p < len(v) {
					cand = append(cand, v[:p]+v[p+1:])
				}
			}
			if name == "accttype" {
				cand = append(cand, v+v, v[:2]+"C", v[:1])
			}
			cand = append(cand, v+","+v, v+" "+v, "OFX"+v, "v"+v)
		}
		for _, s := range Lit.Strings {
			if strings.TrimSpace(s) == s && !strings.ContainsRune(s, 0) {
				cand = append(cand, s)
			}
		}
		cand = uniq(cand)
		v := cand[x.Choose("value", len(cand))]
		for _, w := range all {
			if strings.EqualFold(v, w) {
				x.Skip()
			}
		}
		for q := range fs {
			if q == i {
				fs[q].alts = []flagAlt{bad(v)}
			} else {
				fs[q].alts = fs[q].alts[:1]
			}
		}
		judge(x, k.name, k.tag, k.kind, "/", fs, x.Choose("dry", 2) == 1, answers[0])
	}})
	// servers which need no contact: special and unusable URLs
	urls := []struct {
		url string
		verdict
	}{
		{"https://ofx.discovercard.com", fine}, {"https://vesnc.vanguard.com/us/OfxDirectConnectServlet", fine}, {"https://ofx.example.com/x?y=z", fine}, {"https://[::1]:1/", fine},
		{"-", refused}, {"", refused}, {"http://ADDR/", unclear}, {"ftp://ADDR/", unclear}, {"ADDR", unclear}, {"junk", unclear}, {"://", unclear},
	}
	c.Space(&explore.Space{Name: "urls", Bound: c.Pick(0, 1), Body: func(x *explore.X) {
		k := cliCommands[x.Choose("command", len(cliCommands))]
		u := urls[x.Choose("url", len(urls))]
		dry := x.Choose("dry", 2) == 0
		if !dry && u.verdict == fine {
			x.Skip() // nothing out there to contact
		}
		e, dir := h.env(x), h.dir(x)
		ok := func(int, *recorded) reply { return reply{Status: 200, Body: goodDoc()} }
		e.a.script(ok)
		e.plain.script(ok)
		a := cliChoose(x, cliFlags(k.name, k.tag, k.kind), strings.ReplaceAll(u.url, "ADDR", e.plain.addr()), dry)
		if a.verdict != fine {
			x.Skip()
		}
		from := time.Now()
		o := h.run(x, dir, nil, append([]string{k.name}, a.args...)...)
		to := time.Now()
		_, conns := e.plain.sync()
		desc := fmt.Sprintf("%s %q", k.name, a.args)
		x.State(k.name, u.url, fmt.Sprint(dry, o.code))
		if conns > 0 {
			x.Fail("contact", "%s contacts the server: %v", desc, o)
		}
		v := u.verdict
		if v == unclear && !dry {
			v = refused
		}
		if v == refused && o.code == 0 || v == fine && o.code != 0 {
			x.Fail("status", "%s: %v", desc, o)
		}
		if o.code != 0 {
			if !o.said() {
				x.Fail("message", "%s fails without a message", desc)
			}
			return
		}
		cliCheckRequest(x, k.tag, a, strings.TrimSuffix(o.out, "\n"), from, to)
	}})
	// commands and flags which do not exist
	c.Space(&explore.Space{Name: "misuse", Body: func(x *explore.X) {
		e, dir := h.env(x), h.dir(x)
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: goodDoc()} })
		url := "https://" + e.a.addr() + "/"
		all := []string{"-url", url, "-username", "u", "-password", "p", "-acctid", "1"}
		var args []string
		help := false
		names := []string{"detect-settings"}
		for _, k := range cliCommands {
			names = append(names, k.name)
		}
		switch x.Choose("kind", 6) {
		case 0: // no such command
			bads := []string{"", "nosuch", "download", "Download-bank", "download-bank ", "transactions", "bank", "-url", "--dryrun", "detect"}
			args = append([]string{bads[x.Choose("command", len(bads))]}, all...)
		case 1:
			args = nil
		case 2: // no such flag
			fl := []string{"-nosuch", "-nosuch=1", "--user", "-dry", "-file=x", "-bank=1", "-securityid=1"}
			args = append([]string{names[x.Choose("command", len(names))], fl[x.Choose("flag", len(fl))]}, all...)
		case 3: // a flag without its value
			fl := []string{"-url", "-username", "-password", "-org", "--fid"}
			args = append(append([]string{names[x.Choose("command", len(names))]}, all...), fl[x.Choose("flag", len(fl))])
		case 4: // only some of the mandatory flags
			n := x.Choose("command", len(names))
			args = []string{names[n]}
			m := x.Choose("flags", 7)
			for i := 0; i < 3; i++ {
				if m>>uint(i)&1 == 1 {
					args = append(args, all[2*i], all[2*i+1])
				}
			}
			if names[n] == "download-profile" && m&1 == 1 {
				x.Skip()
			}
		case 5: // help
			h := []string{"-h", "-help", "--help", "help"}
			args = []string{h[x.Choose("help", len(h))]}
			help = true
		}
		o := h.run(x, dir, nil, args...)
		_, conns := e.a.sync()
		x.State(strings.ReplaceAll(fmt.Sprintf("%q", args), e.a.addr(), ""))
		if conns > 0 {
			x.Fail("contact", "%q contacts the server: %v", args, o)
		}
		if !o.said() || !help && o.code == 0 {
			x.Fail("status", "%q: %v", args, o)
		}
		if help {
			for _, n := range names {
				if !strings.Contains(o.out+o.err, n) {
					x.Fail("help", "%q does not name the command %s: %v", args, n, o)
				}
			}
		}
	}})
	// the password is asked for on a terminal
	if m, s, err := openPTY(); err != nil {
		c.Assume = append(c.Assume, "no terminals here: asking for passwords was not explored")
	} else {
		m.Close()
		s.Close()
		c.Space(&explore.Space{Name: "password prompt", Body: func(x *explore.X) {
			k := cliCommands[x.Choose("command", len(cliCommands))]
			pws := []string{"secret", "with blank ", " in front", "\u00a0nbsp\u00a0", "two  blanks", "$HOME", "-", "%41", "-x", `back\slash\n`, "ü", "a<b&c", strings.Repeat("p", 32), "", strings.Repeat("p", 33)}
			pw := pws[x.Choose("password", len(pws))]
			dry := x.Choose("dry", 2) == 0
			e, dir := h.env(x), h.dir(x)
			e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: goodDoc()} })
			master, slave, err := openPTY()
			if err != nil {
				panic("model: " + err.Error())
			}
			defer master.Close()
			defer slave.Close()
			fs := cliFlags(k.name, k.tag, k.kind)
			for i := range fs {
				fs[i].alts = fs[i].alts[:1]
				if fs[i].name == "password" {
					fs[i].alts = []flagAlt{none(fine)}
				}
			}
			a := cliChoose(x, fs, "https://"+e.a.addr()+"/", dry)
			go io.Copy(io.Discard, master)
			if _, err := master.Write([]byte(pw + "\n")); err != nil {
				panic("model: " + err.Error())
			}
			from := time.Now()
			o := h.run(x, dir, slave, append([]string{k.name}, a.args...)...)
			to := time.Now()
			log, _ := e.a.sync()
			desc := fmt.Sprintf("%s %q with password %q typed", k.name, a.args, pw)
			x.State(k.name, pw, fmt.Sprint(dry))
			if pw == "" || len(pw) > 32 {
				if o.code == 0 || len(log) > 0 {
					x.Fail("status", "%s: %d requests, %v", desc, len(log), o)
				}
				return
			}
			if o.code != 0 {
				x.Fail("status", "%s: %v", desc, o)
			}
			a.absent["password"] = false
			a.vals["password"] = strings.TrimSpace(pw)
			a.typed = pw
			if dry {
				i := strings.Index(o.out, "OFXHEADER")
				j := strings.LastIndex(o.out[:max(i, 0)], "<?xml")
				if j < 0 || len(log) > 0 {
					x.Fail("request", "%s: %d requests, %v", desc, len(log), o)
				}
				cliCheckRequest(x, k.tag, a, strings.TrimSuffix(o.out[j:], "\n"), from, to)
				return
			}
			if len(log) != 1 {
				x.Fail("count", "%s: %d requests, %v", desc, len(log), o)
			}
			cliCheckRequest(x, k.tag, a, string(log[0].Body), from, to)
		}})
	}
}

// openPTY opens a new terminal.
func openPTY() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, unlock int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&unlock))); e != 0 {
		master.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		master.Close()
		return nil, nil, e
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// piece is a part of an expected line.
type piece struct {
	lit  string     // literal text, or
	date *model.Val // a date, or
	amt  *model.Val // an amount
}

func lit(s string) piece { return piece{lit: s} }

type cliLine struct {
	parts    []piece
	optional bool
}

var cliDate = regexp.MustCompile(`^\d{8}(\d{6}(\.\d{3})?)?(\[[^\]\n]*\])?`)
var amtForm = regexp.MustCompile(`^[-+]?[0-9]*([.,][0-9]*)?`)

func skipBlanks(s string) string { return strings.TrimLeft(s, " \t") }

// matchLine consumes one expected line, blanks aside.
func matchLine(out string, l cliLine) (string, error) {
	out = skipBlanks(out)
	for _, p := range l.parts {
		out = skipBlanks(out)
		switch {
		case p.date != nil:
			t := cliDate.FindString(out)
			v, ok := model.ParseDate(t)
			if !ok || v.MS != p.date.MS {
				return out, fmt.Errorf("date %d ms expected, got %q", p.date.MS, clipN(out, 60))
			}
			out = out[len(t):]
		case p.amt != nil:
			t := amtForm.FindString(out)
			r, ok := model.ParseDecimal(t)
			if !ok || p.amt.R == nil && r.Sign() != 0 || p.amt.R != nil && r.Cmp(p.amt.R) != 0 {
				return out, fmt.Errorf("amount %v expected, got %q", p.amt.R, clipN(out, 60))
			}
			out = out[len(t):]
		default:
			w := p.lit
			for {
				w, out = skipBlanks(w), skipBlanks(out)
				if w == "" {
					break
				}
				if out == "" || out[0] != w[0] {
					return out, fmt.Errorf("%q expected (of %q), got %q", clipN(w, 60), clipN(p.lit, 60), clipN(out, 60))
				}
				w, out = w[1:], out[1:]
			}
		}
	}
	out = skipBlanks(out)
	if out != "" && out[0] != '\n' {
		return out, fmt.Errorf("surplus %q", clipN(out, 60))
	}
	return strings.TrimPrefix(out, "\n"), nil
}

func matchLines(out string, lines []cliLine) error {
	for i, l := range lines {
		for {
			t := skipBlanks(out)
			if t == "" || t[0] != '\n' {
				break
			}
			out = t[1:]
		}
		rest, err := matchLine(out, l)
		if err != nil {
			if l.optional {
				continue
			}
			return fmt.Errorf("line %d: %v", i+1, err)
		}
		out = rest
	}
	if strings.TrimSpace(out) != "" {
		return fmt.Errorf("surplus output %q", clipN(out, 200))
	}
	return nil
}

func line(ps ...interface{}) cliLine {
	var l cliLine
	for _, p := range ps {
		switch v := p.(type) {
		case string:
			l.parts = append(l.parts, lit(v))
		case piece:
			l.parts = append(l.parts, v)
		default:
			panic("model: piece")
		}
	}
	return l
}

func datePiece(n *model.Node, path string) piece {
	if k := n.Path(path); k != nil {
		v := k.V
		return piece{date: &v}
	}
	return piece{date: &model.Val{}}
}

func amtPiece(n *model.Node, path string) piece {
	if k := n.Path(path); k != nil {
		v := k.V
		return piece{amt: &v}
	}
	return piece{amt: &model.Val{}}
}

// ownCurrency is the transaction's own currency, if given, or the statement's.
func ownCurrency(x *explore.X, n *model.Node, def string) string {
	c := n.Find("CURRENCY")
	if c == nil {
		return def
	}
	if r := c.Find("CURRATE"); r == nil || r.V.R == nil || r.V.R.Sign() == 0 || c.Str("CURSYM") == "XXX" || c.Str("CURSYM") == "" {
		x.Skip() // not a currency
	}
	return c.Str("CURSYM")
}

func tranLine(x *explore.X, t *model.Node, def string) cliLine {
	name := t.Str("NAME")
	if name == "" {
		name = t.Str("PAYEE/NAME")
	}
	if m := t.Str("MEMO"); m != "" {
		name += " - " + m
	}
	return line(datePiece(t, "DTPOSTED"), amtPiece(t, "TRNAMT"), ownCurrency(x, t, def), t.Str("TRNTYPE"), name)
}

func kidsOf(n *model.Node, tag string) (out []*model.Node) {
	if n == nil {
		return
	}
	for _, k := range n.Kids {
		if k.Tag == tag {
			out = append(out, k)
		}
	}
	return
}

// listing is what a listing command prints for an answer.
func listing(x *explore.X, cmd string, m *model.Node) (out []cliLine) {
	add := func(ps ...interface{}) { out = append(out, line(ps...)) }
	switch cmd {
	case "get-accounts":
		add("Found the following accounts:")
		for _, a := range kidsOf(m.Find("ACCTINFORS"), "ACCTINFO") {
			b, cc, inv := a.Find("BANKACCTINFO"), a.Find("CCACCTINFO"), a.Find("INVACCTINFO")
			if b != nil && cc != nil || b != nil && inv != nil || cc != nil && inv != nil {
				x.Skip() // one kind per account information
			}
			switch {
			case b != nil:
				f := b.Find("BANKACCTFROM")
				add("Bank Account:")
				add(`BankID: "` + f.Str("BANKID") + `"`)
				add(`AcctID: "` + f.Str("ACCTID") + `"`)
				add("AcctType: ", f.Str("ACCTTYPE"))
			case cc != nil:
				add("Credit card:")
				add(`AcctID: "` + cc.Str("CCACCTFROM/ACCTID") + `"`)
			case inv != nil:
				add("Investment account:")
				add(`BrokerID: "` + inv.Str("INVACCTFROM/BROKERID") + `"`)
				add(`AcctID: "` + inv.Str("INVACCTFROM/ACCTID") + `"`)
			default:
				add("Unknown type: ", a.Str("NAME"), " ", a.Str("DESC"))
			}
		}
	case "transactions-bank", "transactions-cc":
		rs := m.Find("STMTRS")
		if rs == nil {
			rs = m.Find("CCSTMTRS")
		}
		if rs == nil {
			x.Skip()
		}
		cur := rs.Str("CURDEF")
		add("Balance: ", amtPiece(rs, "LEDGERBAL/BALAMT"), cur, " (as of ", datePiece(rs, "LEDGERBAL/DTASOF"), ")")
		add("Transactions:")
		for _, t := range kidsOf(rs.Find("BANKTRANLIST"), "STMTTRN") {
			out = append(out, tranLine(x, t, cur))
		}
	case "transactions-inv":
		rs := m.Find("INVSTMTRS")
		if rs == nil {
			x.Skip()
		}
		cur := rs.Str("CURDEF")
		if b := rs.Path("INVBAL/AVAILCASH"); b != nil {
			l := line("Balance: ", amtPiece(rs, "INVBAL/AVAILCASH"), cur, " (as of ", datePiece(rs, "DTASOF"), ")")
			l.optional = b.V.R == nil || b.V.R.Sign() == 0
			out = append(out, l)
		}
		list := rs.Find("INVTRANLIST")
		for _, b := range kidsOf(list, "INVBANKTRAN") {
			add("Bank Transactions for ", b.Str("SUBACCTFUND"), " subaccount:")
			for _, t := range kidsOf(b, "STMTTRN") {
				out = append(out, tranLine(x, t, cur))
			}
		}
		add("Investment Transactions:")
		if list == nil {
			break
		}
		for _, t := range list.Kids {
			if t.E.Leaf() || t.Tag == "INVBANKTRAN" {
				continue
			}
			sec := func(n *model.Node) string {
				return n.Str("SECID/UNIQUEIDTYPE") + " " + n.Str("SECID/UNIQUEID")
			}
			d := datePiece(t, "INVTRAN/DTTRADE")
			switch t.Tag {
			case "BUYDEBT", "BUYMF", "BUYOPT", "BUYOTHER", "BUYSTOCK", "SELLDEBT", "SELLMF", "SELLOPT", "SELLOTHER", "SELLSTOCK":
				b := t.Find("INVBUY")
				if b == nil {
					b = t.Find("INVSELL")
				}
				add(t.Tag, datePiece(b, "INVTRAN/DTTRADE"), amtPiece(b, "UNITS"), " ("+sec(b)+")@", amtPiece(b, "UNITPRICE"), ownCurrency(x, b, cur), " (Total: ", amtPiece(b, "TOTAL"), ")")
			case "CLOSUREOPT":
				add(t.Tag, d, t.Str("OPTACTION"), amtPiece(t, "UNITS"), " contracts ("+intText(t, "SHPERCTRCT")+" shares each)")
			case "INCOME":
				add(t.Tag, d, t.Str("INCOMETYPE"), amtPiece(t, "TOTAL"), ownCurrency(x, t, cur), " ("+sec(t)+")")
			case "INVEXPENSE", "RETOFCAP":
				add(t.Tag, d, amtPiece(t, "TOTAL"), ownCurrency(x, t, cur), " ("+sec(t)+")")
			case "JRNLFUND":
				add(t.Tag, d, amtPiece(t, "TOTAL"), cur, " ("+t.Str("SUBACCTFROM")+" -> "+t.Str("SUBACCTTO")+")")
			case "JRNLSEC":
				add(t.Tag, d, amtPiece(t, "UNITS"), sec(t), " ("+t.Str("SUBACCTFROM")+" -> "+t.Str("SUBACCTTO")+")")
			case "MARGININTEREST":
				add(t.Tag, d, amtPiece(t, "TOTAL"), ownCurrency(x, t, cur))
			case "REINVEST":
				add(t.Tag, d, amtPiece(t, "UNITS"), " ("+sec(t)+")@", amtPiece(t, "UNITPRICE"), ownCurrency(x, t, cur), " (Total: ", amtPiece(t, "TOTAL"), ")")
			case "SPLIT":
				add(t.Tag, d, intText(t, "NUMERATOR")+"/"+intText(t, "DENOMINATOR"), amtPiece(t, "OLDUNITS"), " -> ", amtPiece(t, "NEWUNITS"), " shares of ", sec(t), " (", amtPiece(t, "FRACCASH"), ownCurrency(x, t, cur), " for fractional shares)")
			case "TRANSFER":
				add(t.Tag, d, amtPiece(t, "UNITS"), " ("+sec(t)+")", t.Str("TFERACTION"))
			default:
				panic("model: transaction " + t.Tag)
			}
		}
	}
	return
}

func intText(n *model.Node, tag string) string {
	if k := n.Find(tag); k != nil {
		return fmt.Sprint(k.V.I)
	}
	return "0"
}

var listCommands = []struct{ cmd, tag string }{
	{"get-accounts", "ACCTINFOTRNRS"}, {"transactions-bank", "STMTTRNRS"}, {"transactions-cc", "CCSTMTTRNRS"}, {"transactions-inv", "INVSTMTTRNRS"},
}

func c26(c *Ctx) {
	c.Assume = append(c.Assume, "blanks between the parts of a line are not judged, nor is whether an investment balance of zero is printed", "each ACCTINFO describes one kind of account and each answer holds one message of the listed kind")
	h := c.newCLI()
	args := func(cmd, addr string) []string {
		a := []string{cmd, "-url", "https://" + addr + "/", "-username", "u", "-password", "p"}
		switch cmd {
		case "transactions-bank":
			a = append(a, "-bankid", "1", "-acctid", "2")
		case "transactions-cc":
			a = append(a, "-acctid", "2")
		case "transactions-inv":
			a = append(a, "-acctid", "2", "-brokerid", "3")
		}
		return a
	}
	show := func(x *explore.X, cmd string, text string) cliOut {
		e, dir := h.env(x), h.dir(x)
		e.a.script(func(int, *recorded) reply { return reply{Status: 200, Body: text} })
		o := h.run(x, dir, nil, args(cmd, e.a.addr())...)
		if log, _ := e.a.sync(); len(log) != 1 {
			x.Fail("count", "%s: %d requests: %v", cmd, len(log), o)
		}
		x.State(cmd, o.out, fmt.Sprint(o.code))
		x.Sample(o.out)
		return o
	}
	judge := func(x *explore.X, cmd string, d *model.Doc, st *model.Style) {
		text := d.Write(st)
		if !d.Valid() {
			o := show(x, cmd, text)
			if o.code == 0 || !o.said() {
				x.Note("answer:\n%s", text)
				x.Fail("status", "%s of an invalid answer: %v", cmd, o)
			}
			return
		}
		if k := d.Signon.Path("STATUS/CODE"); k != nil && k.V.I != 0 {
			o := show(x, cmd, text)
			if o.code == 0 || !strings.Contains(o.out+o.err, fmt.Sprint(k.V.I)) {
				x.Note("answer:\n%s", text)
				x.Fail("status", "%s of an answer with signon status %d: %v", cmd, k.V.I, o)
			}
			return
		}
		var m *model.Node
		for _, n := range d.Msgs {
			if n.Tag == tagOf(cmd) {
				m = n
			}
		}
		var want []cliLine
		if m != nil {
			want = listing(x, cmd, m)
		}
		o := show(x, cmd, text)
		if m == nil {
			if o.code != 0 || !o.said() {
				x.Fail("status", "%s of an answer without messages: %v", cmd, o)
			}
			return
		}
		if o.code != 0 || o.err != "" {
			x.Note("answer:\n%s", text)
			x.Fail("status", "%s of a valid answer: %v", cmd, o)
		}
		if err := matchLines(o.out, want); err != nil {
			x.Note("answer:\n%s", text)
			x.Fail("listing", "%s: %v, output:\n%s", cmd, err, clipN(o.out, 3000))
		}
	}
	// one kind per ACCTINFO
	single := func(m *model.Node, keep string) {
		kinds := []string{"BANKACCTINFO", "CCACCTINFO", "INVACCTINFO"}
		for i, a := range kidsOf(m.Find("ACCTINFORS"), "ACCTINFO") {
			k := kinds[i%3]
			if i == 0 && keep != "" {
				k = keep
			}
			n := 0
			for _, t := range kinds {
				if a.Find(t) != nil {
					n++
				}
			}
			if n < 2 {
				continue
			}
			for _, t := range kinds {
				if t != k {
					a.Remove(t)
				}
			}
		}
	}
	keepOf := func(path string) string {
		for _, k := range []string{"BANKACCTINFO", "CCACCTINFO", "INVACCTINFO"} {
			if strings.Contains(path, k) {
				return k
			}
		}
		return ""
	}
	for _, l := range listCommands {
		l := l
		m := model.MsgByTag(l.tag)
		for _, max := range []bool{false, true} {
			max := max
			c.Space(&explore.Space{Name: fmt.Sprintf("answers/%s/max=%v", l.cmd, max), Bound: c.Pick(1, 2), Body: func(x *explore.X) {
				paths := focusPaths(m, false)
				p := paths[x.Choose("focus", len(paths))]
				g := &model.Gen{C: x, Max: max, Focus: p}
				n := g.Msg(m)
				single(n, keepOf(p))
				judge(x, l.cmd, newDoc(220, n), &model.Style{XML: true})
			}})
		}
		// what the listings show, in pairs
		c.Space(&explore.Space{Name: "shown/" + l.cmd, Bound: c.Pick(2, 3), Body: func(x *explore.X) {
			g := &model.Gen{C: model.NoChoice{}}
			n := g.Msg(m)
			count := []int{2, 1, 3, 5}[x.Dev("count", 4)]
			switch l.cmd {
			case "get-accounts":
				rs := n.Find("ACCTINFORS")
				rs.Remove("ACCTINFO")
				full := maximal(m)
				for i := 0; i < count; i++ {
					a := kidsOf(full.Find("ACCTINFORS"), "ACCTINFO")[0].Clone()
					keep := x.Dev(fmt.Sprint("kind ", i), 4)
					for j, t := range []string{"BANKACCTINFO", "CCACCTINFO", "INVACCTINFO"} {
						if j != keep {
							a.Remove(t)
						}
					}
					for _, t := range []string{"NAME", "DESC"} {
						switch x.Dev(fmt.Sprint(t, i), 3) {
						case 1:
							a.Remove(t)
						case 2:
							retext(a.Find(t), `a"b<c>&d %s\`)
						}
					}
					for _, q := range a.All() {
						switch q.Tag {
						case "ACCTID", "BANKID", "BROKERID":
							texts := []string{fmt.Sprintf("id-%d-%s", i, q.Tag), `q"uote`, "%d <x>&", strings.Repeat("9", 30), "-"}
							retext(q, texts[x.Dev(fmt.Sprint(q.Tag, i), len(texts))])
						}
					}
					rs.Kids = append(rs.Kids, a)
				}
			case "transactions-bank", "transactions-cc":
				rs := n.Find("STMTRS")
				if rs == nil {
					rs = n.Find("CCSTMTRS")
				}
				full := maximal(m)
				frs := full.Find("STMTRS")
				if frs == nil {
					frs = full.Find("CCSTMTRS")
				}
				list := frs.Find("BANKTRANLIST").Clone()
				tran := kidsOf(list, "STMTTRN")[0]
				list.Remove("STMTTRN")
				for i := 0; i < count; i++ {
					list.Kids = append(list.Kids, varyTran(x, tran, i))
				}
				i := len(rs.Kids)
				for j, k := range rs.Kids {
					if k.Tag == "LEDGERBAL" {
						i = j
					}
				}
				rs.Remove("BANKTRANLIST")
				rs.Kids = append(rs.Kids[:i:i], append([]*model.Node{list}, rs.Kids[i:]...)...)
			case "transactions-inv":
				rs := n.Find("INVSTMTRS")
				full := maximal(m)
				list := full.Path("INVSTMTRS/INVTRANLIST").Clone()
				var bank *model.Node
				var kept []*model.Node
				for _, k := range list.Kids {
					if k.Tag == "INVBANKTRAN" && bank == nil {
						bank = k
					}
					if k.E.Leaf() {
						kept = append(kept, k)
					}
				}
				list.Kids = kept
				var e *model.Elem
				for _, k := range list.E.Kids {
					if k.Kind == model.Poly {
						e = k
					}
				}
				for i := 0; i < count; i++ {
					ki := x.Dev(fmt.Sprint("kind ", i), len(e.Members)+1)
					mi := (ki + 5*i) % (len(e.Members) + 1)
					if mi == len(e.Members) {
						b := bank.Clone()
						var t *model.Node
						if ts := kidsOf(b, "STMTTRN"); len(ts) > 0 {
							t = ts[0]
						}
						b.Remove("STMTTRN")
						for j := 0; j < 2; j++ {
							b.Kids = append([]*model.Node{varyTran(x, t, 10*i+1-j)}, b.Kids...)
						}
						list.Kids = append(list.Kids, b)
						continue
					}
					mem := e.Members[mi]
					g := &model.Gen{C: model.NoChoice{}, Max: x.Dev(fmt.Sprint("max ", i), 2) == 1}
					g.Seed(50 * (i + 1))
					k := g.Msg(&model.Msg{Tag: mem.Tag, Kids: mem.Kids})
					k.E = mem.Elem()
					list.Kids = append(list.Kids, k)
				}
				rs.Remove("INVTRANLIST")
				at := len(rs.Kids)
				for j, k := range rs.Kids {
					if k.Tag == "INVACCTFROM" {
						at = j + 1
					}
				}
				rs.Kids = append(rs.Kids[:at:at], append([]*model.Node{list}, rs.Kids[at:]...)...)
			}
			if same := x.Dev("same", 3); same > 0 {
				alike(n, l.cmd, same == 2)
			}
			judge(x, l.cmd, newDoc(220, n), &model.Style{XML: true})
		}})
		// values which are equal to others
		c.relationsOf([]*model.Msg{m}, c.Thorough() || m.Tag != "INVSTMTTRNRS", func(x *explore.X, n *model.Node) {
			if l.cmd == "get-accounts" {
				single(n, []string{"BANKACCTINFO", "CCACCTINFO", "INVACCTINFO"}[x.Choose("keep", 3)])
			}
			judge(x, l.cmd, newDoc(220, n), &model.Style{XML: true})
		})
		// encodings and versions of the answer
		c.Space(&explore.Space{Name: "encodings/" + l.cmd, Body: func(x *explore.X) {
			v := versionsAll[x.Choose("version", len(versionsAll))]
			max := x.Choose("max", 2) == 1
			n := minimal(m)
			if max {
				n = maximal(m)
				if v < 220 {
					dropPending(n)
				}
			}
			single(n, "")
			judge(x, l.cmd, newDoc(v, n), &model.Style{XML: v >= 200})
		}})
		// long lists
		c.Space(&explore.Space{Name: "long/" + l.cmd, Body: func(x *explore.X) {
			ns := []int{10, 100, 1000}
			if c.Thorough() {
				ns = append(ns, 5000)
			}
			ns = append(ns, litSizes(3000)...)
			k := ns[x.Choose("count", len(ns))]
			n := maximal(m)
			single(n, "")
			grow(n, l.cmd, k, x.Choose("same", 4))
			judge(x, l.cmd, newDoc(220, n), &model.Style{XML: true})
		}})
	}
	// the signon's verdict
	codes := []int64{0, 1, 2000, 15000, 15500, 15501, 15502, 13504, 3, 99999}
	c.Space(&explore.Space{Name: "signon", Bound: c.Pick(1, 2), Body: func(x *explore.X) {
		l := listCommands[x.Choose("command", len(listCommands))]
		code := codes[x.Choose("code", len(codes))]
		n := minimal(model.MsgByTag(l.tag))
		d := newDoc(203, n)
		g := &model.Gen{C: x, Focus: "*"}
		d.Signon = g.Signon(false)
		st := d.Signon.Find("STATUS")
		retextInt(st.Find("CODE"), code)
		sev := "ERROR"
		if r, ok := model.StatusByCode[code]; ok {
			sev = r.Severity
		}
		st.Find("SEVERITY").Text, st.Find("SEVERITY").V = sev, model.Val{S: sev}
		if x.Choose("messages", 2) == 1 {
			d.Msgs = nil
		}
		judge(x, l.cmd, d, &model.Style{XML: true})
	}})
	// other messages around the listed one
	c.Space(&explore.Space{Name: "company", Body: func(x *explore.X) {
		l := listCommands[x.Choose("command", len(listCommands))]
		other := model.Responses[x.Choose("other", len(model.Responses))]
		if other.Slot == model.MsgByTag(l.tag).Slot {
			x.Skip()
		}
		var msgs []*model.Node
		if x.Choose("listed", 2) == 1 {
			n := maximal(model.MsgByTag(l.tag))
			single(n, "")
			msgs = append(msgs, n)
		}
		msgs = append(msgs, minimal(other))
		d := newDoc(220, msgs...)
		d.Msgs = bySlot(d.Msgs)
		judge(x, l.cmd, d, &model.Style{XML: true})
	}})
	// answers which cannot be listed
	c.Space(&explore.Space{Name: "errors", Body: func(x *explore.X) {
		l := listCommands[x.Choose("command", len(listCommands))]
		n := maximal(model.MsgByTag(l.tag))
		single(n, "")
		good := newDoc(220, n).Write(&model.Style{XML: true})
		var rs []reply
		for _, s := range []int{400, 401, 403, 404, 500, 503, 301, 302} {
			rs = append(rs, reply{Status: s, Body: good}, reply{Status: s, How: "none"})
		}
		for _, b := range []string{"", "x", "<html><body>busy</body></html>", "OFXHEADER:100\r\n", good[:len(good)-8], good + "<OFX>", strings.Replace(good, "</OFX>", "", 1), strings.Replace(good, "VERSION=\"220\"", "VERSION=\"999\"", 1), "{\"error\": 1}", strings.Repeat("\x00", 100)} {
			rs = append(rs, reply{Status: 200, Body: b})
		}
		rs = append(rs, reply{How: "drop"}, reply{Status: 200, Body: good[:len(good)/2], How: "short"}, reply{Status: 200, Body: good[:len(good)-9], How: "badchunk"}, reply{How: "garbage", Body: "junk\r\n\r\n"}, reply{How: "garbage", Body: ""})
		for i := 1; i < 24; i++ {
			rs = append(rs, reply{Status: 200, Body: good[:len(good)*i/24], How: []string{"length", "chunked", "close"}[i%3]})
		}
		r := rs[x.Choose("answer", len(rs))]
		if strings.HasSuffix(r.Body, "<OFX>") && r.Status == 200 {
			x.Skip()
		}
		e, dir := h.env(x), h.dir(x)
		e.a.script(func(int, *recorded) reply { return r })
		o := h.run(x, dir, nil, args(l.cmd, e.a.addr())...)
		x.State(l.cmd, fmt.Sprint(r.Status, r.How, len(r.Body)), fmt.Sprint(o.code))
		if o.code == 0 || !o.said() {
			x.Note("answer: %d %s\n%s", r.Status, r.How, r.Body)
			x.Fail("status", "%s of an answer which cannot be listed: %v", l.cmd, o)
		}
	}})
	// no server at all
	c.Space(&explore.Space{Name: "unreachable", Body: func(x *explore.X) {
		l := listCommands[x.Choose("command", len(listCommands))]
		addr := []string{closedPort(), "nosuchhost.invalid"}[x.Choose("address", 2)]
		o := h.run(x, h.dir(x), nil, args(l.cmd, addr)...)
		x.State(l.cmd, fmt.Sprint(o.code))
		if o.code == 0 || !o.said() {
			x.Fail("status", "%s of %s: %v", l.cmd, addr, o)
		}
	}})
}

// closedPort is an address nobody listens on.
func closedPort() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("model: " + err.Error())
	}
	defer l.Close()
	return l.Addr().String()
}

func tagOf(cmd string) string {
	for _, l := range listCommands {
		if l.cmd == cmd {
			return l.tag
		}
	}
	panic("model: " + cmd)
}

func retext(n *model.Node, s string) { n.Text, n.V = s, model.Val{S: strings.TrimSpace(s)} }

func retextInt(n *model.Node, i int64) { n.Text, n.V = fmt.Sprint(i), model.Val{I: i} }

// dropPending removes what came with OFX 2.2.
func dropPending(n *model.Node) {
	for _, k := range n.All() {
		k.Remove("BANKTRANLISTP")
	}
}

// varyTran varies what a listing shows of a transaction.
func varyTran(x *explore.X, t *model.Node, i int) *model.Node {
	n := t.Clone()
	n.Remove("CORRECTFITID")
	n.Remove("CORRECTACTION")
	n.Remove("ORIGCURRENCY")
	n.Remove("CURRENCY")
	n.Remove("PAYEE")
	n.Remove("CCACCTTO")
	retext(n.Find("FITID"), fmt.Sprint("fit", i))
	amts := []string{fmt.Sprintf("%d.%02d", i+1, i), "-12.5", "0", "-0.01", "1000000000.001", "5", "-100"}
	a := n.Find("TRNAMT")
	a.Text = amts[x.Dev(fmt.Sprint("amount ", i), len(amts))]
	r, _ := model.ParseDecimal(a.Text)
	a.V = model.Val{R: r}
	texts := []string{fmt.Sprint("name ", i), `100% "x" <b>&`, "%s%d"}
	name := n.Find("NAME")
	switch k := x.Dev(fmt.Sprint("name ", i), 6); {
	case k < 3:
		retext(name, texts[k])
	default:
		at := 0
		for j, q := range n.Kids {
			if q.Tag == "NAME" {
				at = j
			}
		}
		n.Remove("NAME")
		if k == 3 {
			break // neither
		}
		for _, e := range n.E.Kids {
			if e.Tag == "PAYEE" {
				g := &model.Gen{C: model.NoChoice{}, Max: true}
				g.Seed(30 + i)
				p := g.Msg(&model.Msg{Tag: "PAYEE", Kids: e.Kids})
				p.E = e
				if k == 5 {
					retext(p.Find("NAME"), "payee <&> %v")
				}
				n.Kids = append(n.Kids[:at:at], append([]*model.Node{p}, n.Kids[at:]...)...)
			}
		}
	}
	memos := []string{"memo", "", "50% & <more>", "- x - y"}
	if m := memos[x.Dev(fmt.Sprint("memo ", i), len(memos))]; m == "" {
		n.Remove("MEMO")
	} else {
		retext(n.Find("MEMO"), m)
	}
	if cur := x.Dev(fmt.Sprint("currency ", i), 4); cur > 0 {
		tag := "CURRENCY"
		if cur == 3 {
			tag = "ORIGCURRENCY"
		}
		for _, e := range n.E.Kids {
			if e.Tag == tag {
				g := &model.Gen{C: model.NoChoice{}, Max: true}
				g.Seed(3 + i + cur)
				p := g.Msg(&model.Msg{Tag: tag, Kids: e.Kids})
				p.E = e
				// in specification order
				at := len(n.Kids)
				for j, q := range n.Kids {
					if q.Tag == "INV401KSOURCE" {
						at = j
					}
				}
				n.Kids = append(n.Kids[:at:at], append([]*model.Node{p}, n.Kids[at:]...)...)
			}
		}
	}
	types := []string{"DEBIT", "CREDIT", "DIRECTDEBIT", "OTHER"}
	retext(n.Find("TRNTYPE"), types[x.Dev(fmt.Sprint("type ", i), len(types))])
	dates := []string{"20051029101003", "20051029235959.999[-5:EST]", "19700101", "20240229000000[+5.50:IST]"}
	d := n.Find("DTPOSTED")
	d.Text = dates[x.Dev(fmt.Sprint("date ", i), len(dates))]
	d.V, _ = model.ParseDate(d.Text)
	return n
}

// alike gives the listed members the same identifiers, or makes them equal.
func alike(n *model.Node, cmd string, equal bool) {
	var parent *model.Node
	switch cmd {
	case "get-accounts":
		parent = n.Find("ACCTINFORS")
	case "transactions-bank":
		parent = n.Path("STMTRS/BANKTRANLIST")
	case "transactions-cc":
		parent = n.Path("CCSTMTRS/BANKTRANLIST")
	case "transactions-inv":
		parent = n.Path("INVSTMTRS/INVTRANLIST")
	}
	var first *model.Node
	ids := map[string]*model.Node{}
	for i, k := range parent.Kids {
		if k.E.Leaf() {
			continue
		}
		if first == nil {
			first = k
		}
		if equal {
			parent.Kids[i] = first.Clone()
			continue
		}
		for _, q := range k.All() {
			switch q.Tag {
			case "ACCTID", "BANKID", "FITID", "UNIQUEID":
				if ids[q.Tag] == nil {
					ids[q.Tag] = q
				}
				q.Text, q.V = ids[q.Tag].Text, ids[q.Tag].V
			}
		}
	}
}

// grow makes lists of an answer long.
// Their members differ, or (same) all, pairs or every tenth share their names.
func grow(n *model.Node, cmd string, k, same int) {
	var parent *model.Node
	var protos []*model.Node
	switch cmd {
	case "get-accounts":
		parent = n.Find("ACCTINFORS")
		protos = kidsOf(parent, "ACCTINFO")
		parent.Remove("ACCTINFO")
	case "transactions-bank":
		parent = n.Path("STMTRS/BANKTRANLIST")
	case "transactions-cc":
		parent = n.Path("CCSTMTRS/BANKTRANLIST")
	case "transactions-inv":
		parent = n.Path("INVSTMTRS/INVTRANLIST")
		for _, q := range append([]*model.Node(nil), parent.Kids...) {
			if !q.E.Leaf() {
				protos = append(protos, q)
			}
		}
		var leafs []*model.Node
		for _, q := range parent.Kids {
			if q.E.Leaf() {
				leafs = append(leafs, q)
			}
		}
		parent.Kids = leafs
	}
	if protos == nil {
		protos = kidsOf(parent, "STMTTRN")
		parent.Remove("STMTTRN")
	}
	for i := 0; i < k; i++ {
		p := protos[i%len(protos)].Clone()
		id := i
		switch same {
		case 1:
			id = 0
		case 2:
			id = i / 2
		case 3:
			id = i % 10
		}
		for _, q := range p.All() {
			switch q.Tag {
			case "ACCTID", "NAME", "FITID", "UNIQUEID":
				retext(q, fmt.Sprintf("%s %d", strings.ToLower(q.Tag), id))
			}
		}
		parent.Kids = append(parent.Kids, p)
	}
}
