package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

func setNum(p interface{}, field string, n uint) {
	reflect.ValueOf(p).Elem().FieldByName(field).SetUint(uint64(n))
}

func setVersionOf(r *ofxgo.Request, version int) {
	setVersion(reflect.ValueOf(r).Elem().FieldByName("Version"), version)
}

// setText sets a field of the first message of a slot.
func setText(r *ofxgo.Request, slotName, field, v string) {
	reflect.ValueOf(slot(r, slotName).Index(0).Interface()).Elem().FieldByName(field).SetString(v)
}

var downloads = []struct {
	cmd  string
	args []string
}{
	{"download-profile", nil},
	{"download-bank", []string{"-bankid", "1", "-acctid", "2"}},
	{"download-cc", []string{"-acctid", "2"}},
	{"download-inv", []string{"-acctid", "2", "-brokerid", "b"}},
}

func dlArgs(i int, addr, file string) []string {
	d := downloads[i]
	a := append([]string{d.cmd, "-url", "https://" + addr + "/dl", "-username", "u", "-password", "p"}, d.args...)
	if file != "" {
		a = append(a, "-filename", file)
	}
	return a
}

func c27(c *Ctx) {
	c.Assume = append(c.Assume, "what the file holds after an answer broke off half-way is not judged", "answers with statuses 201 to 299 may be stored or refused")
	h := c.newCLI()
	must := func(err error) {
		if err != nil {
			panic("model: " + err.Error())
		}
	}
	// download runs one command and judges it; before is what the file held
	// (nil: absent).
	download := func(x *explore.X, i int, dir, file, target string, r reply, before []byte, writable bool) (stored []byte) {
		e := h.env(x)
		e.a.script(func(int, *recorded) reply { return r })
		o := h.run(x, dir, nil, dlArgs(i, e.a.addr(), file)...)
		log, _ := e.a.sync()
		desc := fmt.Sprintf("%s to %q of an answer %d %s with %d bytes", downloads[i].cmd, file, r.Status, r.How, len(r.Body))
		x.State(desc, clipN(r.Body, 100), fmt.Sprint(o.code, before == nil))
		x.Sample(desc)
		if len(log) != 1 {
			x.Fail("count", "%s: %d requests: %v", desc, len(log), o)
		}
		got, err := os.ReadFile(target)
		if err != nil {
			got = nil
		} else if got == nil {
			got = []byte{}
		}
		broken := r.How == "short" || r.How == "badchunk"
		ok := r.Status == 200 && !broken && r.How != "drop" && r.How != "garbage" && writable
		if r.Status > 200 && r.Status < 300 && !broken && writable {
			ok = o.code == 0
		}
		if !ok {
			if o.code == 0 || !o.said() {
				x.Fail("status", "%s: %v", desc, o)
			}
			if r.Status != 200 || r.How == "drop" || r.How == "garbage" {
				if !reflect.DeepEqual(got, before) {
					x.Fail("replaced", "%s: the file held %q, now %q", desc, clipN(string(before), 100), clipN(string(got), 100))
				}
			}
			return got
		}
		if o.code != 0 {
			x.Fail("status", "%s: %v", desc, o)
		}
		if err != nil || string(got) != r.Body {
			at := 0
			for at < len(got) && at < len(r.Body) && got[at] == r.Body[at] {
				at++
			}
			x.Fail("content", "%s: the file holds %d bytes, differing at %d (%v)", desc, len(got), at, err)
		}
		return got
	}
	var all []byte
	for i := 0; i < 256; i++ {
		all = append(all, byte(i))
	}
	contents := []string{"", "x", "\n", goodDoc(), string(all), "a\r\nb\nc\rd\r\n\r\n", "no final line break", "\xef\xbb\xbfbom", "OFXHEADER:100\r\n\r\n<OFX>", "\x00\x00", "<html>&amp;</html>", " \t leading", "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03"}
	hows := []string{"length", "chunked", "close", "http10", "gzip"}
	c.Space(&explore.Space{Name: "content", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		b := contents[x.Choose("content", len(contents))]
		how := hows[x.Choose("how", len(hows))]
		dir := h.dir(x)
		hdr := []string{"Content-Type: " + []string{"application/x-ofx", "text/html", "application/octet-stream"}[x.Choose("type", 3)]}
		download(x, i, dir, "", filepath.Join(dir, "response.ofx"), reply{Status: 200, Body: b, How: how, Fields: hdr}, nil, true)
	}})
	sizes := []int{2, 99, 100, 101, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 1 << 20, 5 << 20, 17 << 20}
	if c.Thorough() {
		sizes = append(sizes, 1<<20+1, 4<<20, 35<<20, 70<<20)
		for i := 3; i < 300; i += 7 {
			sizes = append(sizes, i)
		}
	}
	for _, n := range litSizes(32 << 20) {
		sizes = append(sizes, n-1, n, n+1)
	}
	c.Space(&explore.Space{Name: "sizes", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		n := sizes[x.Choose("size", len(sizes))]
		how := hows[x.Choose("how", len(hows))]
		dir := h.dir(x)
		download(x, i, dir, "f", filepath.Join(dir, "f"), reply{Status: 200, Body: patterned(n), How: how}, nil, true)
	}})
	statuses := []int{200, 201, 202, 204, 206, 400, 401, 403, 404, 405, 408, 429, 500, 501, 502, 503, 301, 302, 304, 303}
	c.Space(&explore.Space{Name: "statuses", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		r := reply{Status: statuses[x.Choose("status", len(statuses))], Body: "the body of the answer", How: []string{"length", "chunked", "close", "none"}[x.Choose("how", 4)]}
		if r.How == "none" || r.Status == 204 || r.Status == 304 {
			r.Body = ""
			r.How = "none"
		}
		dir := h.dir(x)
		target := filepath.Join(dir, "response.ofx")
		var before []byte
		if x.Choose("before", 2) == 1 {
			before = []byte("previous content")
			must(os.WriteFile(target, before, 0644))
		}
		download(x, i, dir, "", target, r, before, true)
	}})
	// every point at which an answer may break off
	full := goodDoc()
	c.Space(&explore.Space{Name: "break-off", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		how := []string{"short", "badchunk", "drop"}[x.Choose("how", 3)]
		body := ""
		if how != "drop" {
			step := c.Pick(31, 3)
			body = full[:x.Choose("point", len(full)/step+1)*step]
		}
		dir := h.dir(x)
		target := filepath.Join(dir, "response.ofx")
		var before []byte
		if x.Choose("before", 2) == 1 {
			before = []byte("previous content")
			must(os.WriteFile(target, before, 0644))
		}
		download(x, i, dir, "", target, reply{Status: 200, Body: body, How: how}, before, true)
	}})
	c.Space(&explore.Space{Name: "garbage", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		gs := []string{"", "junk", "junk\r\n\r\n", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nbody", "HTTP/1.1 abc OK\r\n\r\n", "HTTP/9.9 200 OK\r\nbad header\r\n\r\n"}
		g := gs[x.Choose("garbage", len(gs))]
		dir := h.dir(x)
		target := filepath.Join(dir, "response.ofx")
		var before []byte
		if x.Choose("before", 2) == 1 {
			before = []byte("previous content")
			must(os.WriteFile(target, before, 0644))
		}
		download(x, i, dir, "", target, reply{How: "garbage", Body: g}, before, true)
	}})
	// states and names of the file
	files := []string{"", "./response.ofx", "out.bin", "sub/out.ofx", "sub dir/o.ofx", "missing/out.ofx", "sub", "ABS", "link", "dangling", "-dash", "/dev/full", "a/../b", "file/below", "über.ofx", ".", "$HOME", "${HOME}x", "a$b.ofx", "-", "--", "~", "~/x", "%d", "%2e", "a%b", " ", " a ", "*", "a?b", "a:b", "|cat", "a;b", "`x`", "NUL", "stdout", "file:x", "a\\b", "con.ofx.gz", "a.tmp", "lnk/../o.ofx", "lnk/o.ofx", "sub/../o.ofx", "sub//o.ofx", "sub/./o.ofx"}
	c.Space(&explore.Space{Name: "files", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		f := files[x.Choose("file", len(files))]
		states := []string{"", "x", patterned(100), patterned(70000)}
		si := x.Choose("before", len(states)+1)
		body := []string{"", "new content", patterned(50000)}[x.Choose("content", 3)]
		status := []int{200, 500}[x.Choose("status", 2)]
		dir := h.dir(x)
		dirs := []string{"sub", "sub dir", "a"}
		if f == "~/x" {
			dirs = append(dirs, "~")
		}
		for _, d := range dirs {
			must(os.Mkdir(filepath.Join(dir, d), 0755))
		}
		must(os.WriteFile(filepath.Join(dir, "file"), []byte("a file"), 0644))
		target := filepath.Join(dir, f)
		writable := true
		switch f {
		case "":
			target = filepath.Join(dir, "response.ofx")
		case "ABS":
			f = target
		case "link":
			must(os.Symlink("linked", target))
			must(os.WriteFile(filepath.Join(dir, "linked"), []byte("old"), 0644))
			target = filepath.Join(dir, "linked")
		case "dangling":
			must(os.Symlink("nothing", target))
			target = filepath.Join(dir, "nothing")
		case "lnk/../o.ofx", "lnk/o.ofx": // through a link to a directory
			must(os.Mkdir(filepath.Join(dir, "a", "deep"), 0755))
			must(os.Symlink("a/deep", filepath.Join(dir, "lnk")))
			target = filepath.Join(dir, "a", "deep", "o.ofx")
			if f == "lnk/../o.ofx" {
				target = filepath.Join(dir, "a", "o.ofx")
			}
		case "/dev/full":
			target = filepath.Join(dir, "response.ofx")
			writable = body == ""
		case "missing/out.ofx", "sub", "file/below", ".":
			writable = false
		}
		var before []byte
		if si > 0 && writable {
			before = []byte(states[si-1])
			must(os.WriteFile(target, before, 0644))
		} else if f == "link" {
			before = []byte("old")
		} else if si > 0 {
			x.Skip()
		}
		if f == "/dev/full" {
			if body == "" || si > 0 {
				x.Skip()
			}
		}
		download(x, i, dir, f, target, reply{Status: status, Body: body, How: "length"}, before, writable)
	}})
	// what is stored does not depend on how the file's previous content is
	// related to the answer
	c.Space(&explore.Space{Name: "kin", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		n := []int{1, 20, 600, 5000, 70000, len(goodDoc())}[x.Choose("size", 6)]
		body := patterned(n)
		if n == len(goodDoc()) {
			body = goodDoc()
		}
		before := []byte(body)
		switch x.Choose("before", 8) {
		case 1: // the same length
			before[n-1] ^= 1
		case 2:
			before[0] ^= 1
		case 3:
			before = bytes.Repeat([]byte("z"), n)
		case 4: // the file continues
			before = append(before, "more"...)
		case 5: // the answer continues
			before = before[:n-1]
		case 6:
			before = append([]byte("more"), before...)
		case 7:
			before = append(before, before...)
		}
		how := hows[x.Choose("how", len(hows))]
		dir := h.dir(x)
		target := filepath.Join(dir, "f")
		must(os.WriteFile(target, before, 0644))
		if at := []time.Duration{0, time.Hour, -time.Hour}[x.Choose("age", 3)]; at != 0 {
			t := time.Now().Add(at)
			must(os.Chtimes(target, t, t))
		}
		download(x, i, dir, "f", target, reply{Status: 200, Body: body, How: how}, before, true)
	}})
	// several downloads to one file
	steps := []reply{{Status: 200, Body: "short"}, {Status: 200, Body: patterned(40000), How: "chunked"}, {Status: 200, Body: ""}, {Status: 500, Body: "error page"}, {How: "drop"}, {Status: 200, Body: patterned(5000), How: "short"}}
	c.Space(&explore.Space{Name: "histories", Body: func(x *explore.X) {
		dir := h.dir(x)
		target := filepath.Join(dir, "response.ofx")
		var before []byte
		first := x.Choose("command", len(downloads))
		for k, n := 0, c.Pick(3, 4); k < n; k++ {
			r := steps[x.Choose("answer", len(steps))]
			before = download(x, (first+k)%len(downloads), dir, "", target, r, before, true)
		}
	}})
	c.Space(&explore.Space{Name: "unreachable", Body: func(x *explore.X) {
		i := x.Choose("command", len(downloads))
		addr := []string{closedPort(), "nosuchhost.invalid"}[x.Choose("address", 2)]
		dir := h.dir(x)
		target := filepath.Join(dir, "response.ofx")
		must(os.WriteFile(target, []byte("previous"), 0644))
		o := h.run(x, dir, nil, dlArgs(i, addr, "")...)
		b, _ := os.ReadFile(target)
		x.State(addr[:1], fmt.Sprint(i, o.code))
		if o.code == 0 || !o.said() || string(b) != "previous" {
			x.Fail("status", "%s of %s: the file holds %q, %v", downloads[i].cmd, addr, b, o)
		}
	}})
}

// setting is one combination that is tried.
type setting struct {
	app, ver, version string
	noindent, anon    bool
}

func (s setting) String() string {
	who := "given"
	if s.anon {
		who = "anonymous"
	}
	return fmt.Sprintf("%s %s %s noindent=%v %s", s.app, s.ver, s.version, s.noindent, who)
}

// settingsGrid is the order of preference.
func settingsGrid() (out []setting) {
	apps := []struct {
		app  string
		vers string
	}{
		{"OFXGO", "0001"},
		{"QWIN", "2600 2500 2400 2300 2200 2100 2000 1900 1800 1700 1600 1500 1400"},
		{"QMOFX", "1700 1600 1500 1400"},
		{"QB", "1800 1700 1600 1500"},
		{"Money", "1600 1500 1400 1200 1100"},
	}
	for _, a := range apps {
		for _, v := range strings.Fields(a.vers) {
			for _, o := range strings.Fields("203 103 200 201 202 210 211 102 151 160 220") {
				for _, n := range []bool{false, true} {
					out = append(out, setting{a.app, v, o, n, false}, setting{a.app, v, o, n, true})
				}
			}
		}
	}
	return
}

var reported = regexp.MustCompile(`(?m)^(AppID|AppVer|OFX Version|noindent):\s*(\S*)\s*$`)

func c28(c *Ctx) {
	c.Assume = append(c.Assume, "an answer which parses and is valid counts as accepted; what a server says in its signon status is not judged", "the delay between attempts is set to zero")
	h := c.newCLI()
	grid := settingsGrid()
	good := goodDoc()
	profile := newDoc(203, minimal(model.MsgByTag("PROFTRNRS"))).Write(&model.Style{XML: true})
	rejects := []reply{
		{Status: 400, Body: "bad request"}, {Status: 500, Body: good}, {How: "drop"}, {Status: 200, Body: ""}, {Status: 200, Body: "<html>sorry</html>"}, {Status: 200, Body: good[:len(good)-20]}, {Status: 200, Body: strings.Replace(good, "<LANGUAGE>ENG", "<LANGUAGE>E", 1)}, {Status: 200, Body: good[:300], How: "short"}, {Status: 302, Fields: []string{"Location: http://127.0.0.1:1/"}},
	}
	read := func(x *explore.X, rec *recorded, user, pass, org, fid string) setting {
		var s setting
		if rec.Err != nil {
			x.Fail("request", "%v", rec.Err)
		}
		text := string(rec.Body)
		hdr, body, err := model.Split(text)
		if err != nil {
			x.Fail("request", "%v: %s", err, text)
		}
		for _, v := range versionsAll {
			if model.CheckHeader(hdr, v) == nil {
				s.version = fmt.Sprint(v)
			}
		}
		d, err := model.ReadBody(body, true, s.version >= "200")
		if err != nil || s.version == "" || len(d.Msgs) != 1 || d.Msgs[0].Tag != "PROFTRNRQ" {
			x.Fail("request", "no profile request (%v):\n%s", err, text)
		}
		s.app, s.ver = d.Signon.Str("APPID"), d.Signon.Str("APPVER")
		s.noindent = !strings.Contains(strings.TrimSpace(body), "\n")
		u, p := d.Signon.Str("USERID"), d.Signon.Str("USERPASS")
		switch {
		case u == user && p == pass:
		case u == anonUser && p == anonUser:
			s.anon = true
		default:
			x.Fail("credentials", "user %q with password %q:\n%s", u, p, text)
		}
		if d.Signon.Str("FI/ORG") != org || d.Signon.Str("FI/FID") != fid || d.Signon.Str("LANGUAGE") != "ENG" || d.Signon.Str("CLIENTUID") != "" {
			x.Fail("request", "other institution:\n%s", text)
		}
		if !cliUID.MatchString(d.Msgs[0].Str("TRNUID")) {
			x.Fail("request", "TRNUID:\n%s", text)
		}
		return s
	}
	// detect runs the command against a server accepting some settings.
	detect := func(x *explore.X, desc string, accept func(i int, s setting) bool, acc string, reject func(i int) reply) {
		e := h.env(x)
		user, pass, org, fid := "user", "secret", "ORG", "42"
		if x.Dev("flags", 2) == 1 {
			user, pass, org, fid = "a<b&", "p&<>", "", ""
		}
		var fails string
		e.a.script(func(i int, r *recorded) (rp reply) {
			x2, f, _ := explore.Exec(&explore.Space{Body: func(y *explore.X) {
				s := read(y, r, user, pass, org, fid)
				if accept(i, s) {
					rp = reply{Status: 200, Body: acc}
				} else {
					rp = reject(i)
				}
			}}, nil, nil, false)
			_ = x2
			if f != nil && fails == "" {
				fails = fmt.Sprintf("request %d: %s", i, f)
			}
			return
		})
		args := []string{"detect-settings", "-url", "https://" + e.a.addr() + "/p", "-username", user, "-password", pass, "-delay", "0"}
		if org != "" {
			args = append(args, "-org", org, "-fid", fid)
		}
		o := h.run(x, h.dir(x), nil, args...)
		log, conns := e.a.sync()
		if fails != "" {
			x.Fail("request", "%s: %s", desc, fails)
		}
		want := grid
		var hit *setting
		for i := range grid {
			if accept(i, grid[i]) {
				want = grid[:i+1]
				hit = &grid[i]
				break
			}
		}
		x.State(desc, acc[len(acc)/2:], fmt.Sprint(len(log)))
		x.Sample(desc)
		for i := range log {
			if i >= len(want) {
				x.Fail("order", "%s: %d requests, expected %d: %v", desc, len(log), len(want), o)
			}
			if s := read(x, &log[i], user, pass, org, fid); s != want[i] {
				x.Fail("order", "%s: request %d is %v, expected %v", desc, i+1, s, want[i])
			}
			if log[i].Line != "POST /p HTTP/1.1" {
				x.Fail("request", "%s: %q", desc, log[i].Line)
			}
		}
		if len(log) != len(want) || conns != len(want) {
			x.Fail("order", "%s: %d requests on %d connections, expected %d: %v", desc, len(log), conns, len(want), o)
		}
		got := map[string]string{}
		n := 0
		for _, m := range reported.FindAllStringSubmatch(o.out, -1) {
			got[m[1]] = m[2]
			n++
		}
		if hit == nil {
			if n > 0 {
				x.Fail("report", "%s: settings are reported although none was accepted: %v", desc, o)
			}
			return
		}
		exp := map[string]string{"AppID": hit.app, "AppVer": hit.ver, "OFX Version": hit.version, "noindent": fmt.Sprint(hit.noindent)}
		if !reflect.DeepEqual(got, exp) || n != 4 || o.code != 0 {
			x.Fail("report", "%s: %v was accepted, reported %v: %v", desc, *hit, got, o)
		}
	}
	only := func(t setting) func(int, setting) bool { return func(_ int, s setting) bool { return s == t } }
	first := func(int) reply { return rejects[0] }
	// servers whose refusals depend on what is refused
	stats := []int{400, 401, 403, 404, 405, 406, 411, 413, 415, 429, 500, 501, 502, 503, 504, 408, 410, 422, 599, 301, 204}
	for _, n := range Lit.Ints {
		if n >= 300 && n < 600 {
			stats = append(stats, int(n))
		}
	}
	c.Space(&explore.Space{Name: "statuses", Body: func(x *explore.X) {
		by := x.Choose("by", 4)
		i, j := x.Choose("status", len(stats)), x.Choose("other", c.Pick(3, len(stats)))
		t := []int{1, 5, 3}[x.Choose("combination", c.Pick(2, 3))]
		if by == 3 {
			t = 46
			if i%3 > 0 && !c.Thorough() {
				x.Skip()
			}
		}
		refuse := func(s setting) reply {
			k := j
			switch by {
			case 0:
				k = []int{j, i}[b2i(s.anon)]
			case 1:
				k = []int{i, j}[b2i(s.anon)]
			case 2:
				k = []int{i, j}[b2i(s.noindent)]
			case 3:
				k = []int{j, i}[b2i(s.version == grid[0].version)]
			}
			return reply{Status: stats[k], Body: []string{"no", good}[k%2]}
		}
		detect(x, fmt.Sprint("statuses ", by, stats[i], stats[j], t), only(grid[t]), good, func(i int) reply { return refuse(grid[i%len(grid)]) })
	}})
	// servers accepting one application, version, OFX version or format
	// whatever the rest
	c.Space(&explore.Space{Name: "one requirement", Bound: 1, Body: func(x *explore.X) {
		type fixed struct{ app, ver, version string }
		seen := map[string]bool{}
		var cases []func(s setting) (string, bool)
		add := func(name string, f func(s setting) bool) {
			if !seen[name] {
				seen[name] = true
				cases = append(cases, func(s setting) (string, bool) { return name, f(s) })
			}
		}
		for _, t := range grid {
			t := t
			add("app "+t.app, func(s setting) bool { return s.app == t.app })
			add("version "+t.app+" "+t.ver, func(s setting) bool { return s.app == t.app && s.ver == t.ver })
			add("any app with version "+t.ver, func(s setting) bool { return s.ver == t.ver })
			add("OFX "+t.version, func(s setting) bool { return s.version == t.version })
			add(fmt.Sprint("noindent ", t.noindent), func(s setting) bool { return s.noindent == t.noindent })
			add(fmt.Sprint("anonymous ", t.anon), func(s setting) bool { return s.anon == t.anon })
		}
		add("everything", func(setting) bool { return true })
		f := cases[x.Choose("server", len(cases))]
		name, _ := f(grid[0])
		at := 0
		for at < len(grid) {
			if _, ok := f(grid[at]); ok {
				break
			}
			at++
		}
		kind, acc := 0, good
		if c.Thorough() || at < 50 {
			kind = x.Dev("reject", len(rejects))
			acc = []string{good, profile}[x.Dev("answer", 2)]
		}
		detect(x, name, func(_ int, s setting) bool { _, ok := f(s); return ok }, acc, func(int) reply { return rejects[kind] })
	}})
	// servers accepting exactly one combination
	var targets []int
	for i := range grid {
		if c.Thorough() || i < 60 || i%44 < 2 && i < 700 || i == len(grid)-1 || i == len(grid)-2 {
			targets = append(targets, i)
		}
	}
	c.Space(&explore.Space{Name: "one combination", Body: func(x *explore.X) {
		t := grid[targets[x.Choose("combination", len(targets))]]
		detect(x, t.String(), only(t), good, first)
	}})
	// servers accepting none, and two
	c.Space(&explore.Space{Name: "none", Bound: 1, Body: func(x *explore.X) {
		kind := x.Choose("reject", c.Pick(3, len(rejects)))
		detect(x, "nothing accepted", func(int, setting) bool { return false }, good, func(int) reply { return rejects[kind] })
	}})
	c.Space(&explore.Space{Name: "two combinations", Body: func(x *explore.X) {
		n := c.Pick(10, 48)
		i, j := x.Choose("one", n), x.Choose("other", n)
		if i >= j {
			x.Skip()
		}
		detect(x, grid[i].String()+" and "+grid[j].String(), func(_ int, s setting) bool { return s == grid[i] || s == grid[j] }, profile, first)
	}})
	// servers whose refusals differ from attempt to attempt
	c.Space(&explore.Space{Name: "mixed refusals", Body: func(x *explore.X) {
		n := c.Pick(2, 4)
		var ks []int
		for i := 0; i < n; i++ {
			ks = append(ks, x.Choose("reject", len(rejects)))
		}
		detect(x, fmt.Sprint("refusals ", ks), func(_ int, s setting) bool { return s == grid[n] }, good, func(i int) reply { return rejects[ks[i%n]] })
	}})
}
