package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C09", "exhaustive enumeration of bounded requests in every version and style, read back with an independent reader", "", c09)
	register("C10", "exhaustive enumeration of texts over a markup alphabet in every text field", "", c10)
	register("C11", "exhaustive enumeration of filings of every message in every message set", "", c11)
	register("C12", "exhaustive enumeration of limit lengths and defects, with transports that count what is sent", "", c12)
}

// reqStyle is a formatting of requests; plain means no client sets the fields.
type reqStyle struct{ plain, indent, cr bool }

var reqStyles = []reqStyle{{plain: true}, {}, {indent: true}, {cr: true}, {indent: true, cr: true}}

// verValue is the library's constant of a version.
func setVersion(v reflect.Value, version int) {
	ev, ok := model.EnumOf("ofxVersion").Value(fmt.Sprint(version))
	if !ok {
		panic(fmt.Sprintf("model: no version %d", version))
	}
	v.SetUint(uint64(ev.Num))
}

func basicClient(version int, st reqStyle) *ofxgo.BasicClient {
	c := &ofxgo.BasicClient{NoIndent: !st.indent, CarriageReturn: st.cr, AppID: "QWIN", AppVer: "2400"}
	setVersion(reflect.ValueOf(c).Elem().FieldByName("SpecVersion"), version)
	return c
}

func leafOf(n *model.Node, tag string) *model.Node { return n.Find(tag) }

func setLeafText(n *model.Node, kids []*model.Elem, tag, text string) {
	if k := n.Find(tag); k != nil {
		k.Text, k.V = text, model.Val{S: strings.TrimSpace(text)}
		return
	}
	for i, e := range kids {
		if e.Tag == tag {
			k := &model.Node{E: e, Tag: tag, Text: text, V: model.Val{S: strings.TrimSpace(text)}}
			// in specification order
			at := 0
			for at < len(n.Kids) {
				j := -1
				for q, o := range kids {
					if o == n.Kids[at].E {
						j = q
					}
				}
				if j > i {
					break
				}
				at++
			}
			n.Kids = append(n.Kids[:at:at], append([]*model.Node{k}, n.Kids[at:]...)...)
			return
		}
	}
	panic("model: no element " + tag)
}

// marshalStyled lets a client set the request's fields and marshals it.
func marshalStyled(x *explore.X, d *model.Doc, st reqStyle, r *ofxgo.Request) (string, error) {
	if !st.plain {
		c := basicClient(d.Version, st)
		before := time.Now()
		r.SetClientFields(c)
		after := time.Now()
		if t := r.Signon.DtClient.Time; t.Before(before.Add(-time.Second)) || t.After(after.Add(time.Second)) {
			x.Fail("dtclient", "DTCLIENT set to %v at %v", t, before)
		}
		// a fixed time makes executions repeatable
		r.Signon.DtClient = model.GoDate(d.Signon.Find("DTCLIENT").V)
		setLeafText(d.Signon, model.SignonRq.Kids, "APPID", "QWIN")
		setLeafText(d.Signon, model.SignonRq.Kids, "APPVER", "2400")
	}
	b, err := r.Marshal()
	if err != nil {
		if b != nil {
			x.Fail("document with error", "Marshal returns both a document and error %v", err)
		}
		return "", err
	}
	if b == nil {
		x.Fail("nothing", "Marshal returns neither a document nor an error")
	}
	return b.String(), nil
}

// applyDefaults fills in the documented defaults.
func applyDefaults(d *model.Doc) {
	if d.Signon.Str("LANGUAGE") == "" {
		setLeafText(d.Signon, model.SignonRq.Kids, "LANGUAGE", "ENG")
	}
	for _, n := range d.Msgs {
		if n.Tag == "PROFTRNRQ" {
			rq := n.Find("PROFRQ")
			for _, e := range model.MsgByTag(n.Tag).Kids {
				if e.Tag == "PROFRQ" {
					if rq == nil {
						rq = &model.Node{E: e, Tag: e.Tag}
						n.Kids = append(n.Kids, rq)
					}
					setLeafText(rq, e.Kids, "CLIENTROUTING", "NONE")
				}
			}
		}
	}
}

// checkLayout verifies indentation and line breaks. Texts hold no line breaks.
func checkLayout(x *explore.X, text string, st reqStyle) {
	if st.cr {
		for i := 0; i < len(text); i++ {
			if text[i] == '\n' && (i == 0 || text[i-1] != '\r') {
				x.Fail("carriage return", "line break without carriage return:\n%q", text)
			}
			if text[i] == '\r' && (i+1 == len(text) || text[i+1] != '\n') {
				x.Fail("carriage return", "carriage return without line break:\n%q", text)
			}
		}
	} else if strings.Contains(text, "\r") {
		x.Fail("carriage return", "carriage returns although not requested:\n%q", text)
	}
	_, body, _ := model.Split(text)
	if !st.indent {
		if i := strings.IndexAny(strings.TrimRight(body, "\r\n"), "\r\n"); i >= 0 {
			x.Fail("indentation", "line breaks in the body although no indentation is requested:\n%s", text)
		}
		toks, err := model.Tokens(body)
		if err != nil {
			panic("model: " + err.Error())
		}
		for i, t := range toks {
			if t.Kind == 't' && strings.TrimSpace(t.Text) == "" && i+1 < len(toks) && t.Text != "" {
				x.Fail("indentation", "blank space although no indentation is requested:\n%s", text)
			}
		}
		return
	}
	// one element per line, deeper elements indented further
	depths := []int{-1}
	for ln, l := range strings.Split(strings.TrimRight(body, "\r\n"), "\n") {
		l = strings.TrimRight(l, "\r")
		t := strings.TrimLeft(l, " \t")
		in := len(l) - len(t)
		toks, err := model.Tokens(t)
		if err != nil {
			panic("model: " + err.Error())
		}
		if len(toks) == 0 {
			x.Fail("indentation", "blank line %d:\n%s", ln, text)
		}
		starts := 0
		for i, k := range toks {
			if k.Kind == '<' {
				starts++
			}
			if k.Kind == 't' && i == 0 {
				x.Fail("indentation", "line %d starts with text:\n%s", ln, text)
			}
		}
		if toks[0].Kind == '/' {
			if len(toks) != 1 || in != depths[len(depths)-1] || len(depths) < 2 {
				x.Fail("indentation", "line %d is not laid out by depth:\n%s", ln, text)
			}
			depths = depths[:len(depths)-1]
			continue
		}
		if starts != 1 || in <= depths[len(depths)-1] {
			x.Fail("indentation", "line %d is not laid out by depth:\n%s", ln, text)
		}
		if len(toks) == 1 && isAggTag(toks[0].Text) {
			depths = append(depths, in)
		}
	}
	if len(depths) != 1 {
		x.Fail("indentation", "unbalanced lines:\n%s", text)
	}
}

var aggTags map[string]bool
var aggOnce sync.Once

func isAggTag(tag string) bool {
	aggOnce.Do(func() {
		aggTags = map[string]bool{"OFX": true, "SONRQ": true, "SIGNONMSGSRQV1": true}
		for _, s := range model.Slots {
			aggTags[s.Set+"RQV1"] = true
		}
		var walk func([]*model.Elem)
		walk = func(es []*model.Elem) {
			for _, e := range es {
				if !e.Leaf() {
					aggTags[e.Tag] = true
					walk(e.Kids)
				}
			}
		}
		for _, m := range append([]*model.Msg{model.SignonRq}, model.Requests...) {
			aggTags[m.Tag] = true
			walk(m.Kids)
		}
	})
	return aggTags[tag]
}

// checkPresence verifies that required elements are written and unset optional
// ones are not.
func checkPresence(x *explore.X, want, got *model.Doc, text string) {
	var zero func(v model.Val, k model.Kind) bool
	zero = func(v model.Val, k model.Kind) bool { return model.CanonVal(k, v) == "" }
	var unset func(n *model.Node)
	unset = func(n *model.Node) {
		for _, k := range n.Kids {
			if k.E.Leaf() {
				if k.E.Opt && !k.E.Ptr && zero(k.V, k.E.Kind) && k.E.Kind != model.Date {
					x.Fail("unset element", "element %s is written although it is not set:\n%s", k.Tag, text)
				}
				continue
			}
			unset(k)
		}
	}
	var need func(w, g *model.Node)
	need = func(w, g *model.Node) {
		for _, k := range w.Kids {
			o := g.Find(k.Tag)
			if k.E.Leaf() {
				if o == nil && !k.E.Opt {
					x.Fail("missing element", "required element %s is not written:\n%s", k.Tag, text)
				}
				continue
			}
			if o != nil {
				need(k, o)
			}
		}
	}
	unset(got.Signon)
	need(want.Signon, got.Signon)
	for i, n := range got.Msgs {
		unset(n)
		if i < len(want.Msgs) {
			need(want.Msgs[i], n)
		}
	}
}

// serialize checks one valid request in one style.
func serialize(x *explore.X, d *model.Doc, st reqStyle) string {
	if !d.Valid() {
		x.Skip()
	}
	r := d.BuildRequest()
	r.URL = "https://example.com/<x>"
	if diff := model.Diff(d.Canon(), model.CanonResponse(r)); diff != "" {
		panic("model: construction differs: " + diff)
	}
	text, err := marshalStyled(x, d, st, r)
	if err != nil {
		x.Fail("marshal", "valid request refused: %v\n%s", err, strings.Join(d.Canon(), "\n"))
	}
	applyDefaults(d)
	d.Msgs = bySlot(d.Msgs)
	want := d.Canon()
	checkWritten(x, d, text, d.Version >= 200, want)
	_, body, _ := model.Split(text)
	got, _ := model.ReadBody(body, true, d.Version >= 200)
	checkPresence(x, d, got, text)
	checkLayout(x, text, st)
	if r.URL != "https://example.com/<x>" {
		x.Fail("mutated", "the URL changed to %q", r.URL)
	}
	if diff := model.Diff(want, model.CanonResponse(r)); diff != "" {
		x.Fail("mutated", "the request differs from what was written: %s", diff)
	}
	x.State(text)
	x.Sample(text)
	return text
}

func c09(c *Ctx) {
	c.Assume = append(c.Assume, "texts without line breaks where the layout is judged", "the amount of indentation per level is not prescribed")
	deep := c.Thorough()
	for _, m := range model.Requests {
		m := m
		for _, max := range []bool{false, true} {
			max := max
			bound := c.Pick(3, 4)
			if max {
				bound--
			}
			c.Space(&explore.Space{Name: fmt.Sprintf("whole/%s/max=%v", m.Tag, max), Bound: bound, Body: func(x *explore.X) {
				v := versionsAll[x.Choose("version", len(versionsAll))]
				st := reqStyles[x.Choose("style", len(reqStyles))]
				if !deep && v != 103 && v != 220 {
					x.Spend(1)
				}
				g := &model.Gen{C: x, Max: max, Focus: "*", Deep: deep}
				serialize(x, newReqDoc(v, g.Msg(m)), st)
			}})
		}
	}
	c.Space(&explore.Space{Name: "signon", Bound: c.Pick(3, 4), Body: func(x *explore.X) {
		v := versionsAll[x.Choose("version", len(versionsAll))]
		st := reqStyles[x.Choose("style", len(reqStyles))]
		if !deep && v != 102 && v != 203 {
			x.Spend(1)
		}
		d := newReqDoc(v)
		g := &model.Gen{C: x, Max: x.Choose("max", 2) == 1, Focus: "*", Deep: deep}
		d.Signon = g.Signon(true)
		if x.DevBool("no language", false) {
			d.Signon.Remove("LANGUAGE")
		}
		serialize(x, d, st)
	}})
	// values that are related to each other
	c.relations(model.Requests, func(x *explore.X, n *model.Node) {
		v := []int{220, 103}[x.Choose("version", 2)]
		if v < 220 {
			for _, k := range n.Kids {
				k.Remove("INCLUDEPENDING")
				k.Remove("INCTRANIMG")
			}
		}
		serialize(x, newReqDoc(v, n), reqStyles[x.Choose("style", len(reqStyles))])
	})
	// defaults filled in
	c.Space(&explore.Space{Name: "defaults", Body: func(x *explore.X) {
		v := versionsAll[x.Choose("version", len(versionsAll))]
		st := reqStyles[x.Choose("style", len(reqStyles))]
		n := minimal(model.MsgByTag("PROFTRNRQ"))
		switch x.Choose("routing", 4) {
		case 1:
			n.Path("PROFRQ").Remove("CLIENTROUTING")
		case 2:
			setLeafText(n.Find("PROFRQ"), nil, "CLIENTROUTING", "SERVICE")
		case 3:
			setLeafText(n.Find("PROFRQ"), nil, "CLIENTROUTING", "MSGSET")
		}
		d := newReqDoc(v, n)
		if x.Choose("no language", 2) == 1 {
			d.Signon.Remove("LANGUAGE")
		}
		serialize(x, d, st)
	}})
	// several messages, supplied in every order
	c.Space(&explore.Space{Name: "messages", Bound: c.Pick(1, 2), Body: func(x *explore.X) {
		v := []int{103, 220, 203, 160}[x.Choose("version", c.Pick(2, 4))]
		st := reqStyles[x.Choose("style", len(reqStyles))]
		var msgs []*model.Node
		for i, n := 0, x.Choose("count", c.Pick(4, 5)); i < n; i++ {
			m := model.Requests[x.Choose("type", len(model.Requests))]
			g := &model.Gen{C: model.NoChoice{}, Max: x.Dev("max", 2) == 1}
			g.Seed(100 * i)
			node := g.Msg(m)
			if v < 220 {
				for _, k := range node.Kids {
					k.Remove("INCLUDEPENDING")
					k.Remove("INCTRANIMG")
				}
			}
			msgs = append(msgs, node)
		}
		serialize(x, newReqDoc(v, msgs...), st)
	}})
	// one and the same message several times
	c.Space(&explore.Space{Name: "same", Body: func(x *explore.X) {
		st := reqStyles[x.Choose("style", len(reqStyles))]
		v := versionsAll[x.Choose("version", len(versionsAll))]
		m := model.Requests[x.Choose("type", len(model.Requests))]
		n := minimal(m)
		patterns := []string{"aa", "aaa", "aba", "aab", "abab"}
		var msgs []*model.Node
		for _, k := range patterns[x.Choose("pattern", len(patterns))] {
			if k == 'a' {
				msgs = append(msgs, n)
			} else {
				g := &model.Gen{C: model.NoChoice{}}
				g.Seed(70)
				msgs = append(msgs, g.Msg(m))
			}
		}
		d := newReqDoc(v, msgs...)
		d.Shared = x.Choose("shared", 2) == 1
		serialize(x, d, st)
	}})
	// many messages
	c.Space(&explore.Space{Name: "many", Body: func(x *explore.X) {
		ns := []int{10, 64, 100, 257}
		ns = append(ns, litSizes(400)...)
		n := ns[x.Choose("count", len(ns))]
		m := model.Requests[x.Choose("type", len(model.Requests))]
		st := reqStyles[x.Choose("style", len(reqStyles))]
		v := []int{103, 220}[x.Choose("version", 2)]
		var msgs []*model.Node
		for i := 0; i < n; i++ {
			g := &model.Gen{C: model.NoChoice{}}
			g.Seed(20 * i)
			msgs = append(msgs, g.Msg(m))
		}
		serialize(x, newReqDoc(v, msgs...), st)
	}})
	// the style never changes the content
	c.Space(&explore.Space{Name: "styles", Body: func(x *explore.X) {
		v := versionsAll[x.Choose("version", len(versionsAll))]
		m := model.Requests[x.Choose("type", len(model.Requests))]
		max := x.Choose("max", 2) == 1
		var first []model.Tok
		for i, st := range reqStyles[1:] {
			n := minimal(m)
			if max {
				n = maximal(m)
				if v < 220 {
					for _, k := range n.Kids {
						k.Remove("INCLUDEPENDING")
						k.Remove("INCTRANIMG")
					}
				}
			}
			text := serialize(x, newReqDoc(v, n), st)
			_, body, _ := model.Split(text)
			toks, _ := model.Tokens(body)
			var t []model.Tok
			for _, k := range toks {
				if k.Kind == 't' {
					k.Text = strings.TrimSpace(k.Text)
					if k.Text == "" {
						continue
					}
				}
				k.Raw = ""
				t = append(t, k)
			}
			if i == 0 {
				first = t
			} else if !reflect.DeepEqual(first, t) {
				x.Fail("style", "formatting changes the content:\n%s", text)
			}
		}
	}})
}

// textPaths lists the paths of the text leaves of a node.
func textLeaves(n *model.Node) []*model.Node {
	var out []*model.Node
	for _, k := range n.All() {
		if k.E != nil && k.E.Leaf() && (k.E.Kind == model.String || k.E.Kind == model.UID) {
			out = append(out, k)
		}
	}
	return out
}

// representable is the text XML can carry for a given text.
func representable(s string) string {
	var b strings.Builder
	for _, r := range s { // yields U+FFFD for invalid bytes
		if !(r == '\t' || r == '\n' || r == '\r' || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF) {
			r = 0xFFFD
		}
		b.WriteRune(r)
	}
	return b.String()
}

var nasty = []string{
	"</USERID><USERPASS>x", "<", ">", "&", "\"", "'", "&lt;", "&amp;", "&amp;lt;", "&#60;", "&#x3C;", "&nosuch;", "&", "&#0;", "<![CDATA[x]]>", "]]>", "<!--", "-->", "<!-- x -->", "<?xml?>", "?>", "<?OFX?>", "<!DOCTYPE x>",
	"a\nb", "a\r\nb", "a\rb", "\n", "a\tb", "\nVERSION:102\n", "\r\n\r\n<OFX>", "OFXHEADER:100", "</OFX>", "<OFX>", "</SONRQ>", "<CATCHALL>", "<A/>", "<A B=\"C\">", "a>b", "a<b", "1<2>3",
	"\x00", "a\x01b", "\x1b[31m", "\x7f", "\u0085", "\u00a0x\u00a0", "\u2028", "\ufeff", "\ufffe", "\ufffd", "\xff", "\xc3\x28", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xbc", "\u00e9", "\u4e2d\u6587", "\U0001f600", "e\u0301", "\u202e", "\uff1c\uff1e",
	" lead", "trail ", " both ", "in  side", "\\", "%3C", "$(x)", "${x}", "{{x}}", "`x`", "null", "0", "-", ".", ":", ";", "]", "[", "=",
}

// inject stores a text in a field of a document and verifies the marshalled
// document.
func inject(x *explore.X, d *model.Doc, leaf *model.Node, text string, st reqStyle) {
	shown := strings.TrimSpace(representable(text))
	build := func(t string) (string, error) {
		// the Go value holds the raw text
		leaf.Text, leaf.V = t, model.Val{S: t}
		if d.Request {
			r := d.BuildRequest()
			return marshalStyled(x, d, st, r)
		}
		r := d.BuildResponse()
		b, err := r.Marshal()
		if err != nil {
			return "", err
		}
		return b.String(), nil
	}
	out, err := build(text)
	if text == "" {
		panic("model: empty text")
	}
	ok := d.Valid()
	if (err == nil) != ok {
		x.Fail("verdict", "text %q in %s: valid=%v but Marshal returns %v", text, leaf.Tag, ok, err)
	}
	if !ok {
		x.State("refused", leaf.Tag, text)
		return
	}
	hdr, body, err := model.Split(out)
	if err != nil {
		x.Fail("structure", "text %q in %s: %v:\n%s", text, leaf.Tag, err, out)
	}
	if err := model.CheckHeader(hdr, d.Version); err != nil {
		x.Fail("structure", "text %q in %s: %v:\n%s", text, leaf.Tag, err, hdr)
	}
	endTags := d.Version >= 200 || !d.Request
	got, err := model.ReadBody(body, d.Request, endTags)
	if err != nil {
		x.Fail("structure", "text %q in %s breaks the document: %v\n%s", text, leaf.Tag, err, out)
	}
	got.Version = d.Version
	if !d.Request {
		_ = got
	}
	if d.Request {
		applyDefaults(d)
	}
	leaf.Text, leaf.V = shown, model.Val{S: shown}
	if diff := model.Diff(trimLines(d.Canon()), trimLines(got.Canon())); diff != "" {
		x.Fail("content", "text %q in %s changes the document: %s\n%s", text, leaf.Tag, diff, out)
	}
	// same elements as with a harmless text
	if shown != "" {
		harmless, err := build(strings.Repeat("h", 3))
		if err == nil {
			a, b := elements(out), elements(harmless)
			if a != b {
				x.Fail("structure", "text %q in %s: elements\n%s\ninstead of\n%s", text, leaf.Tag, a, b)
			}
		}
		leaf.Text, leaf.V = shown, model.Val{S: shown}
	}
	if !d.Request {
		r2, err := parse(out)
		if err != nil && (r2 == nil || d.Valid()) {
			x.Fail("reading back", "text %q in %s: %v\n%s", text, leaf.Tag, err, out)
		}
		if diff := model.Diff(trimLines(d.Canon()), trimLines(model.CanonResponse(r2))); diff != "" {
			x.Fail("reading back", "text %q in %s: %s\n%s", text, leaf.Tag, diff, out)
		}
	}
	x.State(leaf.Tag, text, out)
	x.Sample(fmt.Sprintf("%s: %q", leaf.Tag, text))
}

func trimLines(l model.Lines) model.Lines {
	out := make(model.Lines, len(l))
	for i, s := range l {
		out[i] = strings.TrimSpace(s)
	}
	return out
}

// elements lists the tags of a document.
func elements(doc string) string {
	var b strings.Builder
	_, body, _ := model.Split(doc)
	toks, err := model.Tokens(body)
	if err != nil {
		return "?" + err.Error()
	}
	for _, t := range toks {
		if t.Kind != 't' {
			b.WriteString(t.Raw)
		}
	}
	return b.String()
}

func c10(c *Ctx) {
	c.Assume = append(c.Assume, "characters XML cannot represent may be read back as U+FFFD", "element names (XMLName, MessageSet.Name) are not text fields")
	texts := append([]string{}, nasty...)
	for _, s := range Lit.Strings {
		if s != "" {
			texts = append(texts, s, "<"+s+">", "</"+s+">")
		}
	}
	// every field of every message
	for _, m := range append([]*model.Msg{model.SignonRq}, model.Requests...) {
		m := m
		c.Space(&explore.Space{Name: "fields/" + m.Tag, Body: func(x *explore.X) {
			v := []int{220, 103, 102, 211}[x.Choose("version", c.Pick(2, 4))]
			st := reqStyles[x.Choose("style", len(reqStyles))]
			d := newReqDoc(v)
			var n *model.Node
			if m == model.SignonRq {
				n = (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(true)
				d.Signon = n
				if x.Choose("key", 2) == 1 {
					n.Remove("USERPASS")
					setLeafText(n, m.Kids, "USERKEY", "k")
				}
			} else {
				n = maximal(m)
				if v < 220 {
					for _, k := range n.Kids {
						k.Remove("INCLUDEPENDING")
						k.Remove("INCTRANIMG")
					}
				}
				d.Msgs = append(d.Msgs, n)
			}
			ls := textLeaves(n)
			leaf := ls[x.Choose("field", len(ls))]
			if leaf.Tag == "CLIENTROUTING" {
				x.Skip()
			}
			if !st.plain && (leaf.Tag == "APPID" || leaf.Tag == "APPVER") {
				x.Skip()
			}
			inject(x, d, leaf, texts[x.Choose("text", len(texts))], st)
		}})
		if c.Stop() {
			return
		}
	}
	for _, m := range append([]*model.Msg{model.SignonRs}, model.Responses...) {
		m := m
		c.Space(&explore.Space{Name: "fields/" + m.Tag, Body: func(x *explore.X) {
			d := newDoc([]int{220, 103}[x.Choose("version", 2)])
			var n *model.Node
			if m == model.SignonRs {
				n = (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(false)
				d.Signon = n
			} else {
				n = maximal(m)
				if d.Version < 220 {
					stripNewer(n)
				}
				if !c.Thorough() {
					n = onePerAggregate(n)
				}
				d.Msgs = append(d.Msgs, n)
			}
			ls := textLeaves(n)
			leaf := ls[x.Choose("field", len(ls))]
			ts := texts
			if !c.Thorough() && len(ls) > 60 {
				// the fields share their types; all texts for some, some for all
				ts = []string{"</X><Y>&amp;lt;\"'", "]]><!--\r\n\x01\u00e9"}
			}
			if !c.Thorough() && d.Version == 103 {
				ts = append([]string{"</X><Y>&amp;lt;\"'", "a\nb\rc]]>&#60;"}, Lit.Strings...)
			}
			t := ts[x.Choose("text", len(ts))]
			if t == "" {
				x.Skip()
			}
			inject(x, d, leaf, t, reqStyle{})
		}})
		if c.Stop() {
			return
		}
	}
	// pairs of fields
	c.Space(&explore.Space{Name: "pairs", Body: func(x *explore.X) {
		v := []int{220, 103}[x.Choose("version", 2)]
		st := reqStyles[x.Choose("style", len(reqStyles))]
		ts := []string{"<!--", "-->", "<![CDATA[", "]]>", "</X>", "&", "lt;", "\"", "a\n", "\r", "<?", "?>"}
		n := (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(true)
		d := newReqDoc(v)
		d.Signon = n
		u, p := n.Find("USERID"), n.Find("USERPASS")
		if u == nil || p == nil {
			panic("model: no credentials")
		}
		t := ts[x.Choose("first", len(ts))]
		inject(x, d, u, t, st)
		u.Text, u.V = t, model.Val{S: strings.TrimSpace(t)}
		t2 := ts[x.Choose("second", len(ts))]
		inject(x, d, p, t2, st)
	}})
	// all short texts over an alphabet
	alpha := []string{"<", ">", "&", "\"", "'", "a", "\n", "\r", "\t", " ", ";", "#", "]", "[", "/", "!", "-", "?", "\x00", "\x1f", "\xff", "\u00e9", "\ufffe", "\U0001F600", "lt", "x3c"}
	for _, s := range Lit.Strings {
		if len(s) > 0 && len(s) < 6 {
			alpha = append(alpha, s)
		}
	}
	c.Space(&explore.Space{Name: "texts/request", Body: func(x *explore.X) {
		v := []int{220, 103}[x.Choose("version", 2)]
		st := reqStyles[1+x.Choose("style", 2)]
		d := newReqDoc(v)
		var t string
		for i, n := 0, 1+x.Choose("length", c.Pick(3, 4)); i < n; i++ {
			t += alpha[x.Choose("char", len(alpha))]
		}
		inject(x, d, d.Signon.Find("USERID"), t, st)
	}})
	c.Space(&explore.Space{Name: "texts/response", Body: func(x *explore.X) {
		v := []int{220, 103}[x.Choose("version", 2)]
		d := newDoc(v)
		setLeafText(d.Signon, model.SignonRs.Kids, "SESSCOOKIE", "x")
		var t string
		for i, n := 0, 1+x.Choose("length", c.Pick(2, 3)); i < n; i++ {
			t += alpha[x.Choose("char", len(alpha))]
		}
		inject(x, d, d.Signon.Find("SESSCOOKIE"), t, reqStyle{})
	}})
	// every code point
	c.Space(&explore.Space{Name: "codepoints", Body: func(x *explore.X) {
		step := 256
		block := x.Choose("block", 0x110000/step)
		if !c.Thorough() && block > 0x110 && block%16 != 0 && block < 0xd0 {
			x.Skip()
		}
		if !c.Thorough() && block > 0x110 && block%64 != 0 {
			x.Skip()
		}
		// the whole block in one text
		var b strings.Builder
		b.WriteString("a")
		for i := 0; i < step; i++ {
			b.WriteRune(rune(block*step + i))
		}
		b.WriteString("z")
		d := newDoc(220)
		setLeafText(d.Signon, model.SignonRs.Kids, "SESSCOOKIE", "x")
		inject(x, d, d.Signon.Find("SESSCOOKIE"), b.String(), reqStyle{})
	}})
	// long texts with a special character at any place around buffer sizes
	c.Space(&explore.Space{Name: "long", Body: func(x *explore.X) {
		sizes := []int{1000, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8192, 65536}
		sizes = append(sizes, litSizes(70000)...)
		n := sizes[x.Choose("size", len(sizes))]
		s := []string{"<", "&", "\n", "]]>", "\u00e9", "\xff"}[x.Choose("char", 6)]
		d := newReqDoc([]int{220, 103}[x.Choose("version", 2)], maximal(model.MsgByTag("ACCTINFOTRNRQ")))
		inject(x, d, d.Msgs[0].Find("CLTCOOKIE"), strings.Repeat("x", n)+s+"y", reqStyle{indent: true})
	}})
}

func contains(list []string, s string) bool {
	for _, l := range list {
		if l == s {
			return true
		}
	}
	return false
}

// onePerAggregate keeps one member of each list.
func onePerAggregate(n *model.Node) *model.Node { return n }

// slotsOf lists the message slots of a request or response.
func slot(v interface{}, field string) reflect.Value {
	return reflect.ValueOf(v).Elem().FieldByName(field)
}

func addMsg(v interface{}, field string, m ofxgo.Message) {
	f := slot(v, field)
	f.Set(reflect.Append(f, reflect.ValueOf(m)))
}

// customMsg is a message of the caller's own: T and V are the library's types
// of message sets and of versions, which have no exported names.
type customMsg[T, V any] struct {
	XMLName xml.Name `xml:"OWNTRN"`
	TrnUID  string   `xml:"TRNUID"`
	t       T
}

func (m *customMsg[T, V]) Name() string          { return "OWNTRN" }
func (m *customMsg[T, V]) Valid(V) (bool, error) { return true, nil }
func (m *customMsg[T, V]) Type() T               { return m.t }

func customOf[T, V any](uid string, t T, _ V) ofxgo.Message {
	return interface{}(&customMsg[T, V]{TrnUID: uid, t: t}).(ofxgo.Message)
}

type ownMessage struct {
	set string
	mk  func(uid string) ofxgo.Message
}

// ownMessages makes messages of every message set, by the sets' constants.
func ownMessages() (out []ownMessage) {
	add := func(set string, mk func(uid string) ofxgo.Message) { out = append(out, ownMessage{set, mk}) }
	add("SIGNONMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.SignonRq, ofxgo.OfxVersion102) })
	add("SIGNUPMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.SignupRq, ofxgo.OfxVersion102) })
	add("BANKMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.BankRq, ofxgo.OfxVersion102) })
	add("CREDITCARDMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.CreditCardRq, ofxgo.OfxVersion102) })
	add("LOANMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.LoanRq, ofxgo.OfxVersion102) })
	add("INVSTMTMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.InvStmtRq, ofxgo.OfxVersion102) })
	add("INTERXFERMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.InterXferRq, ofxgo.OfxVersion102) })
	add("WIREXFERMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.WireXferRq, ofxgo.OfxVersion102) })
	add("BILLPAYMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.BillpayRq, ofxgo.OfxVersion102) })
	add("EMAILMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.EmailRq, ofxgo.OfxVersion102) })
	add("SECLISTMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.SecListRq, ofxgo.OfxVersion102) })
	add("PRESDIRMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.PresDirRq, ofxgo.OfxVersion102) })
	add("PRESDLVMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.PresDlvRq, ofxgo.OfxVersion102) })
	add("PROFMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.ProfRq, ofxgo.OfxVersion102) })
	add("IMAGEMSGSRQV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.ImageRq, ofxgo.OfxVersion102) })
	add("SIGNONMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.SignonRs, ofxgo.OfxVersion102) })
	add("SIGNUPMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.SignupRs, ofxgo.OfxVersion102) })
	add("BANKMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.BankRs, ofxgo.OfxVersion102) })
	add("CREDITCARDMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.CreditCardRs, ofxgo.OfxVersion102) })
	add("LOANMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.LoanRs, ofxgo.OfxVersion102) })
	add("INVSTMTMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.InvStmtRs, ofxgo.OfxVersion102) })
	add("INTERXFERMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.InterXferRs, ofxgo.OfxVersion102) })
	add("WIREXFERMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.WireXferRs, ofxgo.OfxVersion102) })
	add("BILLPAYMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.BillpayRs, ofxgo.OfxVersion102) })
	add("EMAILMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.EmailRs, ofxgo.OfxVersion102) })
	add("SECLISTMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.SecListRs, ofxgo.OfxVersion102) })
	add("PRESDIRMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.PresDirRs, ofxgo.OfxVersion102) })
	add("PRESDLVMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.PresDlvRs, ofxgo.OfxVersion102) })
	add("PROFMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.ProfRs, ofxgo.OfxVersion102) })
	add("IMAGEMSGSRSV1", func(uid string) ofxgo.Message { return customOf(uid, ofxgo.ImageRs, ofxgo.OfxVersion102) })
	return
}

func c11(c *Ctx) {
	all := append(append([]*model.Msg{}, model.Requests...), model.Responses...)
	styleV := versionsAll
	mk := func(i int, m *model.Msg) ofxgo.Message {
		g := &model.Gen{C: model.NoChoice{}}
		g.Seed(100 * i)
		return model.BuildMsg(m, g.Msg(m))
	}
	type filed struct {
		m    *model.Msg
		slot string
	}
	try := func(x *explore.X, request bool, version int, fs []filed, st reqStyle) {
		var obj interface{}
		var marshal func() (*bytes.Buffer, error)
		d := newDoc(version)
		if request {
			d = newReqDoc(version)
			r := d.BuildRequest()
			if !st.plain {
				r.SetClientFields(basicClient(version, st))
			}
			obj, marshal = r, r.Marshal
		} else {
			r := d.BuildResponse()
			obj, marshal = r, r.Marshal
		}
		ok := true
		desc := ""
		for i, f := range fs {
			addMsg(obj, f.slot, mk(i, f.m))
			if f.m.Request != request || f.m.Slot != f.slot {
				ok = false
			}
			desc += " " + f.m.Tag + " in " + f.slot
		}
		b, err := marshal()
		if ok && (err != nil || b == nil) {
			x.Fail("refused", "request=%v version %d:%s: refused: %v", request, version, desc, err)
		}
		if !ok && (err == nil || b != nil) {
			x.Fail("accepted", "request=%v version %d:%s: Marshal returns a document (%v) and error %v", request, version, desc, b != nil, err)
		}
		if ok {
			// all of it is written
			for _, f := range fs {
				if strings.Count(b.String(), "<"+f.m.Tag+">") == 0 {
					x.Fail("lost", "%s is not written:\n%s", f.m.Tag, b)
				}
			}
		}
		x.State(fmt.Sprint(request, version, ok), desc)
		x.Sample(desc)
	}
	c.Space(&explore.Space{Name: "single", Body: func(x *explore.X) {
		m := all[x.Choose("message", len(all))]
		s := model.Slots[x.Choose("slot", len(model.Slots))].Field
		v := styleV[x.Choose("version", len(styleV))]
		st := reqStyles[x.Choose("style", len(reqStyles))]
		request := x.Choose("request", 2) == 1
		try(x, request, v, []filed{{m, s}}, st)
	}})
	// a misfiled message among others at every position
	c.Space(&explore.Space{Name: "among", Bound: c.Pick(1, 2), Body: func(x *explore.X) {
		request := x.Choose("request", 2) == 1
		v := []int{220, 103}[x.Choose("version", 2)]
		own := model.Responses
		if request {
			own = model.Requests
		}
		var fs []filed
		n := 2 + x.Choose("count", c.Pick(2, 3))
		for i := 0; i < n; i++ {
			m := own[x.Choose("message", len(own))]
			f := filed{m, m.Slot}
			switch x.Dev("misfiled", 3) {
			case 1:
				f.m = all[x.Choose("other", len(all))]
			case 2:
				f.slot = model.Slots[x.Choose("slot", len(model.Slots))].Field
			}
			fs = append(fs, f)
		}
		try(x, request, v, fs, reqStyles[0])
	}})
	// long slots: the misfiled message comes late
	c.Space(&explore.Space{Name: "late", Body: func(x *explore.X) {
		sizes := []int{3, 9, 64, 100}
		sizes = append(sizes, litSizes(300)...)
		n := sizes[x.Choose("size", len(sizes))]
		request := x.Choose("request", 2) == 1
		own := model.Responses
		if request {
			own = model.Requests
		}
		m := own[x.Choose("message", len(own))]
		pos := []int{0, 1, n / 2, n - 1}[x.Choose("position", 4)]
		o := all[x.Choose("other", len(all))]
		var fs []filed
		for i := 0; i < n; i++ {
			f := filed{m, m.Slot}
			if i == pos {
				f.m = o
			}
			fs = append(fs, f)
		}
		try(x, request, 220, fs, reqStyles[0])
	}})
	// messages of the caller's own, of every set
	own := ownMessages()
	c.Space(&explore.Space{Name: "own", Bound: c.Pick(1, 2), Body: func(x *explore.X) {
		request := x.Choose("request", 2) == 1
		v := styleV[x.Choose("version", len(styleV))]
		st := reqStyles[x.Choose("style", len(reqStyles))]
		d := newDoc(v)
		var obj interface{}
		var marshal func() (*bytes.Buffer, error)
		suffix := "MSGSRSV1"
		if request {
			d = newReqDoc(v)
			r := d.BuildRequest()
			if !st.plain {
				r.SetClientFields(basicClient(v, st))
			}
			obj, marshal, suffix = r, r.Marshal, "MSGSRQV1"
		} else {
			r := d.BuildResponse()
			obj, marshal = r, r.Marshal
		}
		// one slot after the other, with a message of one's own or of any
		// other set
		ok := true
		desc := ""
		var want []string
		only := x.Choose("slots", 1+len(model.Slots))
		if only == 0 && v != 103 && v != 220 {
			x.Spend(1)
		}
		for i, s := range model.Slots {
			if only > 0 && i != only-1 {
				continue
			}
			base := strings.TrimSuffix(s.Set, "MSGS")
			k := x.Dev("message", 1+len(own))
			set := base + suffix
			if k > 0 {
				set = own[k-1].set
			}
			for _, o := range own {
				if o.set == set {
					addMsg(obj, s.Field, o.mk(fmt.Sprintf("OWN%dX", i)))
					desc += " " + o.set + " in " + s.Field
				}
			}
			if set != base+suffix {
				ok = false
			}
			want = append(want, set)
		}
		b, err := marshal()
		if ok && (err != nil || b == nil) {
			x.Fail("refused", "request=%v version %d:%s: refused: %v", request, v, desc, err)
		}
		if !ok && (err == nil || b != nil) {
			x.Fail("accepted", "request=%v version %d:%s: Marshal returns a document (%v) and error %v", request, v, desc, b != nil, err)
		}
		if ok {
			rest := b.String()
			for i, m := range regexp.MustCompile(`<([A-Z]+MSGSR[QS]V1)>\s*<OWNTRN>`).FindAllStringSubmatch(rest, -1) {
				if i >= len(want) || !contains(want, m[1]) {
					x.Fail("lost", "%s: a message is written in %s:\n%s", desc, m[1], rest)
				}
			}
			for _, w := range want {
				if n := strings.Count(rest, "<"+w+">"); n != 1 || !regexp.MustCompile("(?s)<"+w+`>\s*<OWNTRN>.*</OWNTRN>\s*</`+w+">").MatchString(rest) {
					x.Fail("lost", "%s: the message is not written in %s:\n%s", desc, w, rest)
				}
			}
			if n := strings.Count(rest, "<OWNTRN>"); n != len(want) {
				x.Fail("lost", "%s: %d messages are written:\n%s", desc, n, rest)
			}
		}
		x.State(fmt.Sprint(request, v, st), desc)
		x.Sample(desc)
	}})
	// parsing files messages by the set they stand in
	c.Space(&explore.Space{Name: "parse/single", Body: func(x *explore.X) {
		m := all[x.Choose("message", len(all))]
		s := model.Slots[x.Choose("slot", len(model.Slots))]
		xml := x.Choose("xml", 2) == 1
		sfx := []string{"RSV1", "RQV1", "RS", "RSV2", "RSV11", "rsv1"}[x.Choose("suffix", 6)]
		st := &model.Style{XML: xml}
		v := 103
		if xml {
			v = 220
		}
		d := newDoc(v, minimal(m))
		text := d.Write(st)
		i, j := strings.Index(text, "<"+m.Set+"V1>"), strings.Index(text, "</"+m.Set+"V1>")
		if i < 0 || j < 0 {
			// a request written as part of a response
			i = strings.Index(text, "<"+m.Tag+">")
			j = strings.LastIndex(text, "</"+m.Tag+">") + len(m.Tag) + 3
			if i < 0 {
				panic("model: message not found in\n" + text)
			}
			k := strings.LastIndex(text[:i], "<")
			l := j + strings.Index(text[j:], ">") + 1
			text = text[:k] + "<" + s.Set + sfx + ">" + text[i:j] + "</" + s.Set + sfx + ">" + text[l:]
		} else {
			text = text[:i] + "<" + s.Set + sfx + ">" + text[i+len(m.Set)+4:j] + "</" + s.Set + sfx + ">" + text[j+len(m.Set)+5:]
		}
		r, err := parse(text)
		good := !m.Request && m.Slot == s.Field && sfx == "RSV1"
		x.Note("document:\n%s", text)
		if good != (err == nil) || good != (r != nil) {
			x.Fail("filing", "%s inside %s%s: response %v, error %v", m.Tag, s.Set, sfx, r != nil, err)
		}
		if good {
			checkSlots(x, r)
			if slot(r, s.Field).Len() != 1 {
				x.Fail("filing", "%s is not filed under %s", m.Tag, s.Field)
			}
		}
		x.State(m.Tag, s.Set+sfx, fmt.Sprint(good))
	}})
	c.Space(&explore.Space{Name: "parse/several", Body: func(x *explore.X) {
		s := x.Choose("style", 3)
		var msgs []*model.Node
		for i, n := 0, x.Choose("count", c.Pick(4, 5)); i < n; i++ {
			m := model.Responses[x.Choose("message", len(model.Responses))]
			g := &model.Gen{C: model.NoChoice{}}
			g.Seed(100 * i)
			msgs = append(msgs, g.Msg(m))
		}
		d := newDoc(styleVersions[s], msgs...)
		text := d.Write(&styles[s])
		r, err := parse(text)
		compareParsed(x, d, text, r, err)
		checkSlots(x, r)
	}})
	// a foreign message at any place of a message set
	c.Space(&explore.Space{Name: "parse/among", Body: func(x *explore.X) {
		s := x.Choose("style", 2)
		m := model.Responses[x.Choose("message", len(model.Responses))]
		o := all[x.Choose("other", len(all))]
		n := 1 + x.Choose("count", 3)
		pos := x.Choose("position", n+1)
		set := &model.Node{Tag: m.Set + "V1"}
		var body strings.Builder
		for i := 0; i <= n; i++ {
			k := m
			if i == pos {
				k = o
			}
			g := &model.Gen{C: model.NoChoice{}}
			g.Seed(100 * i)
			dd := newDoc(styleVersions[s], g.Msg(k))
			t := dd.Write(&styles[s])
			a := strings.Index(t, "<"+k.Tag+">")
			b := strings.LastIndex(t, "</"+k.Tag+">") + len(k.Tag) + 3
			body.WriteString(t[a:b])
		}
		t := newDoc(styleVersions[s]).Write(&styles[s])
		e := strings.LastIndex(t, "</OFX>")
		text := t[:e] + "<" + set.Tag + ">" + body.String() + "</" + set.Tag + ">" + t[e:]
		r, err := parse(text)
		good := !o.Request && o.Slot == m.Slot
		x.Note("document:\n%s", text)
		if good != (err == nil) || good != (r != nil) {
			x.Fail("filing", "%s among %s: response %v, error %v", o.Tag, m.Tag, r != nil, err)
		}
		if good {
			checkSlots(x, r)
			if l := slot(r, m.Slot).Len(); l != n+1 {
				x.Fail("filing", "%d messages of %d filed", l, n+1)
			}
		}
		x.State(m.Tag, o.Tag, fmt.Sprint(n, pos, good))
	}})
}

// checkSlots verifies that every parsed message is of its slot's type.
func checkSlots(x *explore.X, r *ofxgo.Response) {
	for _, s := range model.Slots {
		f := slot(r, s.Field)
		for i := 0; i < f.Len(); i++ {
			m := f.Index(i).Interface().(ofxgo.Message)
			if got := m.Type().String(); got != s.Set+"RSV1" {
				x.Fail("filing", "%T of %s is filed under %s", m, got, s.Field)
			}
			mm := model.MsgByTag(m.Name())
			if mm == nil || mm.Slot != s.Field || reflect.TypeOf(m).Elem() != mm.Go {
				x.Fail("filing", "%T named %s is filed under %s", m, m.Name(), s.Field)
			}
		}
	}
}

// fakeTransport answers every request without a network.
type fakeTransport struct {
	mu    sync.Mutex
	calls []string
	f     func(*http.Request) (*http.Response, error)
}

func (t *fakeTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	var b []byte
	if r.Body != nil {
		b, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	t.mu.Lock()
	t.calls = append(t.calls, string(b))
	t.mu.Unlock()
	if t.f != nil {
		return t.f(r)
	}
	return nil, errors.New("no network")
}

// sink accepts and closes connections, counting them.
type sink struct {
	l    net.Listener
	mu   sync.Mutex
	cond *sync.Cond
	seen map[string]bool
	n    int
}

func newSink() *sink {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &sink{l: l, seen: map[string]bool{}}
	s.cond = sync.NewCond(&s.mu)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.n++
			s.seen[c.RemoteAddr().String()] = true
			s.cond.Broadcast()
			s.mu.Unlock()
			c.Close()
		}
	}()
	return s
}

// count returns the number of connections made so far: connections are
// accepted in order, so a connection of its own marks the end.
func (s *sink) count() int {
	c, err := net.Dial("tcp", s.l.Addr().String())
	if err != nil {
		panic(err)
	}
	a := c.LocalAddr().String()
	s.mu.Lock()
	for !s.seen[a] {
		s.cond.Wait()
	}
	delete(s.seen, a)
	s.n--
	n := s.n
	s.mu.Unlock()
	c.Close()
	return n
}

var clientKinds = []string{"basic", "vanguard", "discover"}

func makeClient(kind string, bc *ofxgo.BasicClient) ofxgo.Client {
	switch kind {
	case "vanguard":
		return ofxgo.NewVanguardClient(bc)
	case "discover":
		return ofxgo.NewDiscoverCardClient(bc)
	}
	return bc
}

// submit tries to marshal and send a request by every way there is and
// verifies that exactly the valid ones get through.
func submit(x *explore.X, d *model.Doc, mut func(*ofxgo.Request), snk *sink, client bool) {
	ok := d.Valid()
	want := strings.Join(d.Canon(), "\n")
	build := func() *ofxgo.Request {
		r := d.BuildRequest()
		if mut != nil {
			mut(r)
		}
		return r
	}
	r := build()
	b, err := r.Marshal()
	if ok != (err == nil) || ok != (b != nil) {
		x.Fail("verdict", "request valid=%v, but Marshal returns document=%v and error %v\n%s", ok, b != nil, err, want)
	}
	x.State(want, fmt.Sprint(ok))
	x.Sample(fmt.Sprintf("valid=%v: %s", ok, want))
	if !client || !model.VersionKnown(d.Version) {
		return
	}
	// clients overwrite application and version
	appID, appVer := d.Signon.Str("APPID"), d.Signon.Str("APPVER")
	if appID == "" || appVer == "" {
		return
	}
	for _, kind := range clientKinds {
		for _, parsed := range []bool{false, true} {
			if ok && kind != "basic" {
				continue
			}
			ft := &fakeTransport{f: func(q *http.Request) (*http.Response, error) {
				return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Body: io.NopCloser(strings.NewReader("nothing")), Request: q, ContentLength: 7}, nil
			}}
			bc := &ofxgo.BasicClient{AppID: appID, AppVer: appVer, NoIndent: true, HTTPClient: &http.Client{Transport: ft}}
			setVersion(reflect.ValueOf(bc).Elem().FieldByName("SpecVersion"), d.Version)
			cl := makeClient(kind, bc)
			r := build()
			r.URL = "https://127.0.0.1:1/ofx"
			before := 0
			if snk != nil {
				r.URL = "https://" + snk.l.Addr().String() + "/ofx"
				before = snk.count()
			} else if kind != "basic" {
				continue
			}
			var err error
			if parsed {
				_, err = cl.Request(r)
			} else {
				var resp *http.Response
				resp, err = cl.RequestNoParse(r)
				if resp != nil {
					resp.Body.Close()
				}
				if !ok && resp != nil {
					x.Fail("sent", "%s client returns a response to an invalid request\n%s", kind, want)
				}
			}
			if !ok {
				if len(ft.calls) > 0 {
					x.Fail("sent", "%s client sends an invalid request (error %v):\n%s", kind, err, ft.calls[0])
				}
				if snk != nil && snk.count() != before {
					x.Fail("sent", "%s client connects to the server for an invalid request (error %v)\n%s", kind, err, want)
				}
				if err == nil {
					x.Fail("verdict", "%s client reports no error for an invalid request\n%s", kind, want)
				}
			} else {
				if len(ft.calls) != 1 {
					x.Fail("not sent", "basic client sends a valid request %d times, error %v\n%s", len(ft.calls), err, want)
				}
				if !parsed && err != nil {
					x.Fail("not sent", "basic client reports %v for a valid request\n%s", err, want)
				}
			}
		}
	}
}

func c12(c *Ctx) {
	c.Assume = append(c.Assume, "texts are ASCII where their length counts")
	snks := make([]*sink, 64)
	for i := range snks {
		snks[i] = newSink()
		s := snks[i]
		c.Defer(func() { s.l.Close() })
	}
	at := func(x *explore.X) *sink { return snks[x.Worker()%len(snks)] }
	lens := func(limit int) []int {
		m := map[int]bool{0: true, 1: true, 2: true, 3: true, 4: true, 5: true, limit - 1: true, limit: true, limit + 1: true, limit + 2: true, 2 * limit: true, 256: true, 257: true, 65536: true}
		if c.Thorough() {
			for i := 0; i <= 70; i++ {
				m[i] = true
			}
		}
		for _, n := range litSizes(1000) {
			m[n] = true
		}
		var out []int
		for n := range m {
			out = append(out, n)
		}
		sort.Ints(out)
		return out
	}
	fill := func(n int) string { return strings.Repeat("x", n) }
	// lengths of every signon field, alone and with the others at their limits
	for _, f := range []struct {
		tag   string
		limit int
	}{{"USERID", 32}, {"USERPASS", 32}, {"USERKEY", 64}, {"LANGUAGE", 3}, {"APPID", 5}, {"APPVER", 4}, {"CLIENTUID", 36}, {"ORG", 32}, {"FID", 32}} {
		f := f
		ls := lens(f.limit)
		if f.tag == "ORG" || f.tag == "FID" {
			// longer ones are not judged
			for i, n := range ls {
				if n > f.limit {
					ls = ls[:i]
					break
				}
			}
		}
		c.Space(&explore.Space{Name: "length/" + f.tag, Body: func(x *explore.X) {
			vs := []int{103, 220}
			if c.Thorough() {
				vs = versionsAll
			}
			d := newReqDoc(vs[x.Choose("version", len(vs))])
			set := func(tag, t string) {
				if t == "" {
					d.Signon.Remove(tag)
				} else {
					setLeafText(d.Signon, model.SignonRq.Kids, tag, t)
				}
			}
			key := x.Choose("key", 2) == 1
			if key {
				set("USERPASS", "")
				set("USERKEY", "k")
			}
			if x.Choose("others at their limits", 2) == 1 {
				set("USERID", fill(32))
				if key {
					set("USERKEY", fill(64))
				} else {
					set("USERPASS", fill(32))
				}
				set("APPID", fill(5))
				set("APPVER", fill(4))
			}
			if f.tag == "USERKEY" && x.Choose("drop pass", 2) == 1 {
				set("USERPASS", "")
			}
			text := fill(ls[x.Choose("length", len(ls))])
			if f.tag == "ORG" || f.tag == "FID" {
				fi := d.Signon.Find("FI")
				if fi == nil {
					panic("model: no FI")
				}
				if text == "" {
					fi.Remove(f.tag)
				} else {
					setLeafText(fi, fi.E.Kids, f.tag, text)
				}
			} else {
				set(f.tag, text)
			}
			submit(x, d, nil, at(x), true)
		}})
	}
	// texts of special characters count by their length as given
	c.Space(&explore.Space{Name: "characters", Body: func(x *explore.X) {
		d := newReqDoc([]int{103, 220}[x.Choose("version", 2)])
		f := []struct {
			tag   string
			limit int
		}{{"USERID", 32}, {"USERPASS", 32}, {"USERKEY", 64}, {"LANGUAGE", 3}, {"APPID", 5}, {"APPVER", 4}}[x.Choose("field", 6)]
		if f.tag == "USERKEY" {
			d.Signon.Remove("USERPASS")
		}
		ch := []string{"<", "&", "\"", "'", "0", "~", "\x01", "-"}[x.Choose("char", 8)]
		n := f.limit + x.Choose("excess", 3) - 1
		setLeafText(d.Signon, model.SignonRq.Kids, f.tag, strings.Repeat(ch, n))
		submit(x, d, nil, at(x), true)
	}})
	// every combination of presence
	c.Space(&explore.Space{Name: "presence", Body: func(x *explore.X) {
		vs := []int{103, 220}
		d := newReqDoc(vs[x.Choose("version", 2)])
		for _, t := range []string{"USERID", "USERPASS", "USERKEY", "LANGUAGE", "APPID", "APPVER", "FI"} {
			switch x.Choose(t, 2) {
			case 0:
				d.Signon.Remove(t)
			default:
				if t != "FI" {
					v := map[string]string{"LANGUAGE": "ENG", "APPID": "QWIN", "APPVER": "2400"}[t]
					if v == "" {
						v = "v"
					}
					setLeafText(d.Signon, model.SignonRq.Kids, t, v)
				}
			}
		}
		submit(x, d, nil, at(x), x.Choose("client", 2) == 1)
	}})
	// messages: every element dropped or altered
	for _, m := range model.Requests {
		for _, max := range []bool{false, true} {
			m, max := m, max
			c.Space(&explore.Space{Name: fmt.Sprintf("messages/%s/max=%v", m.Tag, max), Bound: c.Pick(3, 4), Body: func(x *explore.X) {
				v := versionsAll[x.Choose("version", len(versionsAll))]
				n := minimal(m)
				if max {
					n = maximal(m)
				}
				alter(x, n, m.Tag, false)
				submit(x, newReqDoc(v, n), nil, at(x), true)
			}})
		}
	}
	// transaction IDs of every length in every message
	c.Space(&explore.Space{Name: "trnuid", Body: func(x *explore.X) {
		m := model.Requests[x.Choose("message", len(model.Requests))]
		ls := lens(36)
		n := minimal(m)
		setLeafText(n, m.Kids, "TRNUID", fill(ls[x.Choose("length", len(ls))]))
		submit(x, newReqDoc([]int{103, 220}[x.Choose("version", 2)], n), nil, at(x), true)
	}})
	// an invalid message at every place among valid ones
	c.Space(&explore.Space{Name: "places", Body: func(x *explore.X) {
		d := newReqDoc([]int{103, 220}[x.Choose("version", 2)])
		n := 1 + x.Choose("count", c.Pick(3, 4))
		bad := x.Choose("bad", n+2) // n: the signon, n+1: nothing
		for i := 0; i < n; i++ {
			m := model.Requests[x.Choose("message", len(model.Requests))]
			k := minimal(m)
			if i == bad {
				setLeafText(k, m.Kids, "TRNUID", "")
			}
			d.Msgs = append(d.Msgs, k)
		}
		if bad == n {
			setLeafText(d.Signon, model.SignonRq.Kids, "USERID", "")
		}
		submit(x, d, nil, at(x), n < 3 || c.Thorough())
	}})
	c.Space(&explore.Space{Name: "late", Body: func(x *explore.X) {
		sizes := append([]int{16, 100, 256}, litSizes(300)...)
		n := sizes[x.Choose("size", len(sizes))]
		m := model.Requests[x.Choose("message", len(model.Requests))]
		bad := []int{0, 1, n / 2, n - 2, n - 1, n}[x.Choose("bad", 6)]
		d := newReqDoc(220)
		for i := 0; i < n; i++ {
			k := minimal(m)
			if i == bad {
				setLeafText(k, m.Kids, "TRNUID", strings.Repeat("u", 37))
			}
			d.Msgs = append(d.Msgs, k)
		}
		submit(x, d, nil, at(x), true)
	}})
	// versions
	c.Space(&explore.Space{Name: "versions", Body: func(x *explore.X) {
		num := x.Choose("number", 300)
		d := newReqDoc(203)
		if k := x.Choose("message", len(model.Requests)+1); k > 0 {
			d.Msgs = append(d.Msgs, minimal(model.Requests[k-1]))
		}
		r := d.BuildRequest()
		reflect.ValueOf(r).Elem().FieldByName("Version").SetUint(uint64(num))
		if num >= 256 {
			reflect.ValueOf(r).Elem().FieldByName("Version").SetUint([]uint64{1 << 20, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<32 + 4, 1<<16 + 4}[num%7])
		}
		got := uint(reflect.ValueOf(r).Elem().FieldByName("Version").Uint())
		ok := model.EnumOf("ofxVersion").NameOf(got) != ""
		b, err := r.Marshal()
		if ok != (err == nil) || ok != (b != nil) {
			x.Fail("version", "version number %d exists=%v, but Marshal returns document=%v and error %v", got, ok, b != nil, err)
		}
		x.State(fmt.Sprint(got, ok))
		// a response of such a version
		rd := newDoc(203)
		rr := rd.BuildResponse()
		reflect.ValueOf(rr).Elem().FieldByName("Version").SetUint(uint64(got))
		b, err = rr.Marshal()
		if ok != (err == nil) || ok != (b != nil) {
			x.Fail("version", "response: version number %d exists=%v, but Marshal returns document=%v and error %v", got, ok, b != nil, err)
		}
	}})
}
