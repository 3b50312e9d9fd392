package checks

import (
	stdxml "encoding/xml"
	"fmt"
	"io"
	"strings"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C05", "exhaustive enumeration of token sequences, corrupted values, and token and byte edits of bounded documents", "", c05)
}

// judge parses arbitrary text and checks what must hold whatever it is. It
// returns the response (nil if refused).
func judge(x *explore.X, text string) *ofxgo.Response {
	r, err := parse(text)
	d, derr := ofxgo.DecodeResponse(strings.NewReader(text))
	bad := func(format string, args ...interface{}) {
		x.Note("input: %q", clip(text))
		x.Fail("outcome", format, args...)
	}
	if (d == nil) != (derr != nil) {
		bad("DecodeResponse returned response=%v and error %v", d != nil, derr)
	}
	if (r == nil) != (d == nil) {
		bad("ParseResponse: response=%v (%v), DecodeResponse: response=%v (%v)", r != nil, err, d != nil, derr)
	}
	if r == nil {
		if err == nil {
			bad("ParseResponse returned neither response nor error")
		}
		if err.Error() != derr.Error() {
			bad("ParseResponse: %v, DecodeResponse: %v", err, derr)
		}
		return nil
	}
	a, b := strings.Join(model.CanonResponse(r), "\n"), strings.Join(model.CanonResponse(d), "\n")
	if a != b {
		bad("ParseResponse and DecodeResponse differ:\n%s\n--\n%s", a, b)
	}
	ok, verr := d.Valid()
	if ok != (verr == nil) {
		bad("Valid() = %v, %v", ok, verr)
	}
	if ok != (err == nil) || fmt.Sprint(err) != fmt.Sprint(verr) {
		bad("ParseResponse: %v, but Valid: %v %v", err, ok, verr)
	}
	r.Marshal() // must not crash
	return r
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:1500] + " ... " + s[len(s)-1500:]
	}
	return s
}

// stdMalformed tells whether the standard library's XML parser finds a syntax
// error up to the end of the OFX element. Not judged: what follows it.
func stdMalformed(text string) bool {
	d := stdxml.NewDecoder(strings.NewReader(text))
	d.CharsetReader = func(c string, r io.Reader) (io.Reader, error) { return r, nil }
	depth := 0
	for {
		t, err := d.Token()
		if err != nil {
			return true
		}
		switch t.(type) {
		case stdxml.StartElement:
			depth++
		case stdxml.EndElement:
			depth--
			if depth == 0 {
				return false
			}
		}
	}
}

// badTexts are texts no value of the kind has.
func badTexts(e *model.Elem) []string {
	out := []string{}
	switch e.Kind {
	case model.Int:
		out = []string{"", "x", "1x", "1.5", "1 2", "-", "--1", "0x10", "9223372036854775808", "-9223372036854775809", "１", "1_0", "\u00bd"}
	case model.Amount:
		out = []string{"x", "1x", "1.2.3", "1 2", "-", "--1", "$5", "", "NaN", "Inf"}
	case model.Date:
		out = []string{"x", "2017", "201713", "20171301", "20170230", "20170101250000", "20170101006000", "2017-01-01", "20170101000000[x:GMT]", "[0:GMT]", "", "99999999", "2017010112000a"}
	case model.Boolean:
		out = []string{"", "y", "n", "YES", "T", "1", "0", "true", "YN", "N Y"}
	case model.CurrSymbol:
		out = []string{"", "US", "USDX", "$", "U$D", "ZZZ", "123", "QQQ"}
	case model.Enum:
		out = []string{"x", "INFOX", "XINFO", "0", "1", "-", "OTHERS", "A B"}
	}
	return out
}

func c05(c *Ctx) {
	c.Assume = append(c.Assume, "an execution taking longer than 60 s or 14 GB counts as a hang", "malformed XML is what the standard library's parser refuses; SGML documents with mismatched tags may be accepted or refused")
	ks := []struct {
		st model.Style
		v  int
	}{{model.Style{XML: true}, 203}, {model.Style{Sep: "\n"}, 103}, {model.Style{EndTags: true}, 151}}
	// values corrupted anywhere
	for _, m := range append([]*model.Msg{model.SignonRs}, model.Responses...) {
		m := m
		c.Space(&explore.Space{Name: "value/" + m.Tag, Body: func(x *explore.X) {
			k := ks[x.Choose("style", len(ks))]
			d := newDoc(k.v)
			var n *model.Node
			if m == model.SignonRs {
				d.Signon = (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(false)
				n = d.Signon
			} else {
				n = maximal(m)
				d.Msgs = append(d.Msgs, n)
			}
			var leaves []*model.Node
			for _, l := range n.All() {
				if l.E != nil && l.E.Leaf() && len(badTexts(l.E)) > 0 {
					leaves = append(leaves, l)
				}
			}
			i := x.Choose("leaf", len(leaves))
			l := leaves[i]
			bads := badTexts(l.E)
			j := 0
			if c.Thorough() || len(leaves) < 80 {
				j = x.Choose("text", len(bads))
			} else {
				j = (i*2 + x.Choose("text", 2)) % len(bads)
			}
			l.Text = bads[j]
			if l.E.Kind == model.Enum {
				if _, ok := model.EnumOf(l.E.Enum).Value(l.Text); ok {
					x.Skip()
				}
			}
			if l.Text == "" && !k.st.XML && !k.st.EndTags {
				x.Skip() // an SGML leaf without text needs its end tag
			}
			text := d.Write(&k.st)
			if r := judge(x, text); r != nil {
				x.Note("document:\n%s", text)
				x.Fail("unnoticed", "%q accepted as %s", l.Text, l.Tag)
			}
			x.State(text)
			x.Sample(text)
		}})
	}
	// verdicts whatever the statuses say
	c.Space(&explore.Space{Name: "verdicts", Body: func(x *explore.X) {
		k := ks[x.Choose("style", len(ks))]
		m := model.Responses[x.Choose("message", len(model.Responses))]
		n := minimal(m)
		d := newDoc(k.v, n)
		if i := x.Choose("signon status", 1+len(otherStatus)); i > 0 {
			setStatus(d.Signon, otherStatus[i-1])
		}
		if n.Find("STATUS") != nil {
			if i := x.Choose("message status", 1+len(otherStatus)); i > 0 {
				setStatus(n, otherStatus[i-1])
			}
		}
		switch x.Choose("defect", 5) {
		case 1:
			n.Remove("TRNUID")
		case 2:
			d.Signon.Remove("LANGUAGE")
		case 3:
			s := d.Signon.Path("STATUS/SEVERITY")
			s.Text, s.V = "FATAL", model.Val{S: "FATAL"}
		case 4:
			if s := n.Path("STATUS/CODE"); s != nil {
				s.Text, s.V = "4", model.Val{I: 4}
			}
		}
		text := d.Write(&k.st)
		r := judge(x, text)
		_, err := parse(text)
		compareParsed(x, d, text, r, err)
	}})
	// sequences of tokens in contexts
	generic := []string{"<A>", "</A>", "<A/>", "x", "&", "<!--c-->", "<![CDATA[x]]>", "<?p?>", "<", "</OFX>", "\xff"}
	contexts := []struct {
		name, pre, post string
		toks            []string
	}{
		{"top", "", "", []string{"<OFX>", "<SIGNONMSGSRSV1>", "<SONRS>", "</SONRS>", "</SIGNONMSGSRSV1>"}},
		{"root", "<OFX>@SIGNON", "</OFX>", []string{"<BANKMSGSRSV1>", "</BANKMSGSRSV1>", "<STMTTRNRS>", "</STMTTRNRS>", "<SECLISTMSGSRSV1>", "<SECLIST>"}},
		{"signon", "<OFX><SIGNONMSGSRSV1><SONRS>", "</SONRS></SIGNONMSGSRSV1></OFX>", []string{"<STATUS>", "</STATUS>", "<CODE>0", "</CODE>", "<LANGUAGE>ENG", "<DTSERVER>2017", "</SONRS>"}},
		{"status", "<OFX><SIGNONMSGSRSV1><SONRS><STATUS>", "</STATUS><DTSERVER>20170101</DTSERVER><LANGUAGE>ENG</LANGUAGE></SONRS></SIGNONMSGSRSV1></OFX>", []string{"<CODE>", "0", "</CODE>", "<SEVERITY>INFO", "</SEVERITY>"}},
		{"statement", "<OFX>@SIGNON<BANKMSGSRSV1><STMTTRNRS>", "</STMTTRNRS></BANKMSGSRSV1></OFX>", []string{"<TRNUID>1", "<STMTRS>", "</STMTRS>", "<BANKTRANLIST>", "<STMTTRN>", "</STMTTRN>", "<LEDGERBAL>"}},
		{"invtranlist", "<OFX>@SIGNON<INVSTMTMSGSRSV1><INVSTMTTRNRS><INVSTMTRS><INVTRANLIST>", "</INVTRANLIST></INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1></OFX>", []string{"<DTSTART>20170101", "<INVBANKTRAN>", "</INVBANKTRAN>", "<BUYSTOCK>", "</BUYSTOCK>", "<INVBUY>", "</INVTRANLIST>"}},
		{"lists", "<OFX>@SIGNON<INVSTMTMSGSRSV1><INVSTMTTRNRS><INVSTMTRS>", "</INVSTMTRS></INVSTMTTRNRS></INVSTMTMSGSRSV1></OFX>", []string{"<INVPOSLIST>", "</INVPOSLIST>", "<POSSTOCK>", "</POSSTOCK>", "<INVOOLIST>", "</INVOOLIST>", "<OOBUYMF>", "<INVPOS>"}},
		{"seclist", "<OFX>@SIGNON<SECLISTMSGSRSV1><SECLIST>", "</SECLIST></SECLISTMSGSRSV1></OFX>", []string{"<STOCKINFO>", "</STOCKINFO>", "<SECINFO>", "<SECID>", "<MFINFO>", "</SECLIST>"}},
		{"msgsetlist", "<OFX>@SIGNON<PROFMSGSRSV1><PROFTRNRS><PROFRS><MSGSETLIST>", "</MSGSETLIST></PROFRS></PROFTRNRS></PROFMSGSRSV1></OFX>", []string{"<BANKMSGSET>", "</BANKMSGSET>", "<BANKMSGSETV1>", "</BANKMSGSETV1>", "<MSGSETCORE>", "<VER>1"}},
		{"acctinfo", "<OFX>@SIGNON<SIGNUPMSGSRSV1><ACCTINFOTRNRS><ACCTINFORS>", "</ACCTINFORS></ACCTINFOTRNRS></SIGNUPMSGSRSV1></OFX>", []string{"<ACCTINFO>", "</ACCTINFO>", "<BANKACCTINFO>", "<INVACCTINFO>", "</INVACCTINFO>", "<DTACCTUP>"}},
	}
	signon := func(k model.Style, v int) string {
		k.Header = "\x01"
		d := newDoc(v)
		return strings.TrimPrefix(d.WriteTree(&k, d.Tree().Kids[0]), "\x01")
	}
	for _, ct := range contexts {
		ct := ct
		toks := append(append([]string{}, ct.toks...), generic...)
		c.Space(&explore.Space{Name: "tokens/" + ct.name, Body: func(x *explore.X) {
			k := ks[x.Choose("style", 2)]
			most := c.Pick(4, 5)
			if !k.st.XML && !c.Thorough() && strings.Contains(ct.pre, "@") {
				most = 3
			}
			n := x.Choose("length", most)
			var b strings.Builder
			for i := 0; i < n; i++ {
				b.WriteString(toks[x.Choose("token", len(toks))])
			}
			post := ct.post
			if x.Choose("end", 2) == 1 {
				post = ""
			}
			text := model.StdHeader(k.v, k.st.XML, "\n") + strings.Replace(ct.pre, "@SIGNON", signon(k.st, k.v), 1) + b.String() + post
			r := judge(x, text)
			if r != nil && k.st.XML && stdMalformed(text) {
				x.Note("document:\n%s", text)
				x.Fail("malformed", "malformed XML accepted")
			}
			x.State(fmt.Sprint(r != nil), b.String(), post)
		}})
		if c.Stop() {
			return
		}
	}
	// edits of the tokens of documents
	odd := []string{"", "x", "&", "&#0;", "&#x110000;", "&foo;", "\x00", "\xff\xfe", "1e999999999", "[", "]", "20170101[", "99999999999999999999999999", "-", ".", "<![CDATA[", "]]>", "<!--", "<?", "<!DOCTYPE x>", strings.Repeat("9", 5000), "\ufeff", "\u2028"}
	for _, s := range Lit.Strings {
		odd = append(odd, s)
	}
	type docT struct {
		name string
		toks []string
		hdr  string
		xml  bool
	}
	split := func(text string) (hdr string, toks []string) {
		i := strings.Index(text, "<OFX>")
		hdr, text = text[:i], text[i:]
		for len(text) > 0 {
			j := 0
			if text[0] == '<' {
				j = strings.IndexByte(text, '>') + 1
			} else if j = strings.IndexByte(text, '<'); j < 0 {
				j = len(text)
			}
			toks = append(toks, text[:j])
			text = text[j:]
		}
		return
	}
	var docs []docT
	add := func(name string, d *model.Doc, st model.Style) {
		h, t := split(d.Write(&st))
		docs = append(docs, docT{name, t, h, st.XML})
	}
	for _, m := range model.Responses {
		for i, kn := range []string{"xml", "sgml"} {
			k := ks[i]
			add("min/"+m.Tag+"/"+kn, newDoc(k.v, minimal(m)), k.st)
			if m.Tag != "INVSTMTTRNRS" || c.Thorough() {
				add("max/"+m.Tag+"/"+kn, newDoc(k.v, maximal(m)), k.st)
			}
		}
	}
	edit := func(x *explore.X, toks []string, ops int) []string {
		i := x.Choose("token", len(toks))
		out := append([]string{}, toks[:i]...)
		t := toks[i]
		rest := toks[i+1:]
		isText := t[0] != '<'
		switch op := x.Choose("edit", ops); {
		case op == 0: // delete
		case op == 1: // duplicate
			out = append(out, t, t)
		case op == 2: // swap with the next
			if len(rest) == 0 {
				x.Skip()
			}
			out = append(out, rest[0], t)
			rest = rest[1:]
		case op == 3: // rename, or drop a whole element
			if isText {
				x.Skip()
			}
			if strings.HasPrefix(t, "</") {
				out = append(out, "</X9>")
			} else {
				out = append(out, "<X9>")
			}
		case op == 4: // turn a start into an end and vice versa
			if isText {
				x.Skip()
			}
			if strings.HasPrefix(t, "</") {
				out = append(out, "<"+t[2:])
			} else {
				out = append(out, "</"+t[1:])
			}
		case op == 5: // self-closing
			if isText || t[1] == '/' {
				x.Skip()
			}
			out = append(out, t[:len(t)-1]+"/>")
		case op == 6: // remove the whole element
			if isText || t[1] == '/' {
				x.Skip()
			}
			end := "</" + t[1:]
			depth := 0
			j := -1
			for q, r := range rest {
				if r == t {
					depth++
				}
				if r == end {
					if depth == 0 {
						j = q
						break
					}
					depth--
				}
			}
			if j < 0 {
				x.Skip()
			}
			rest = rest[j+1:]
		case op == 7: // everything up to here again
			out = append(append(out, t), append([]string{}, toks[:i+1]...)...)
		default:
			o := odd[op-8]
			if isText {
				out = append(out, o)
			} else {
				out = append(out, t, o)
			}
		}
		return append(out, rest...)
	}
	for _, dc := range docs {
		dc := dc
		ops := 8 + len(odd)
		c.Space(&explore.Space{Name: "edit/" + dc.name, Body: func(x *explore.X) {
			n := ops
			if !c.Thorough() && strings.HasPrefix(dc.name, "max/") {
				if n = 8 + 6; !dc.xml {
					n = 8
				}
			}
			toks := edit(x, dc.toks, n)
			text := dc.hdr + strings.Join(toks, "")
			r := judge(x, text)
			if r != nil && dc.xml && stdMalformed(text) {
				x.Note("document:\n%s", text)
				x.Fail("malformed", "malformed XML accepted")
			}
			x.State(dc.name, fmt.Sprint(r != nil), text)
		}})
		if strings.HasPrefix(dc.name, "min/") && (c.Thorough() || len(dc.toks) < 75 && dc.xml) {
			c.Space(&explore.Space{Name: "edit2/" + dc.name, Body: func(x *explore.X) {
				toks := edit(x, dc.toks, 8)
				if len(toks) == 0 {
					x.Skip()
				}
				toks = edit(x, toks, c.Pick(4, 8))
				text := dc.hdr + strings.Join(toks, "")
				r := judge(x, text)
				if r != nil && dc.xml && stdMalformed(text) {
					x.Note("document:\n%s", text)
					x.Fail("malformed", "malformed XML accepted")
				}
				x.State(dc.name, fmt.Sprint(r != nil), text)
			}})
		}
		if c.Stop() {
			return
		}
	}
	// edits of the bytes of documents
	bytes := []string{"", "<", ">", "&", ";", "/", "\x00", "\xff", "\"", ":", "=", " ", "\n", "A", "0", "[", "?", "!", "-", "."}
	for _, k := range ks[:2] {
		k := k
		for _, name := range []string{"", "SECLIST", "STMTTRNRS"} {
			name := name
			d := newDoc(k.v)
			if name != "" {
				d.Msgs = append(d.Msgs, minimal(model.MsgByTag(name)))
			}
			text := d.Write(&k.st)
			c.Space(&explore.Space{Name: fmt.Sprintf("bytes/%s/xml=%v", name, k.st.XML), Body: func(x *explore.X) {
				i := x.Choose("position", len(text)+1)
				ins := x.Choose("insert", 2) == 1
				s := bytes[x.Choose("byte", len(bytes))]
				rest := text[i:]
				if !ins && len(rest) > 0 {
					rest = rest[1:]
				}
				t := text[:i] + s + rest
				r := judge(x, t)
				if r != nil && k.st.XML && s != ":" && stdMalformed(t) {
					x.Note("document:\n%s", t)
					x.Fail("malformed", "malformed XML accepted")
				}
				x.State(fmt.Sprint(r != nil), t)
			}})
		}
	}
	// short streams
	heads := []string{"", "OFXHEADER:", "OFXHEADER=", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\"?><?OFX", "<?xml version=\"1.0\"?><?OFX ", "\ufeff", "<OFX>", strings.TrimRight(model.StdHeader(102, false, "\n"), "\n"), model.StdHeader(102, false, "\n") + "<OFX>", model.StdHeader(203, true, "\n") + "<OFX>"}
	alpha := []string{"<", ">", "/", "OFX", "?", "\"", "=", "OFXHEADER", ":", "100", "\n", "\x00", "\xff", "&", "!", "["}
	c.Space(&explore.Space{Name: "short", Body: func(x *explore.X) {
		t := heads[x.Choose("head", len(heads))]
		for n := x.Choose("length", c.Pick(5, 6)); n > 0; n-- {
			t += alpha[x.Choose("piece", len(alpha))]
		}
		r := judge(x, t)
		if r != nil {
			x.Fail("unnoticed", "response from %q", t)
		}
		x.State(t)
	}})
	// big inputs
	c.Space(&explore.Space{Name: "big", Workers: 3, Body: func(x *explore.X) {
		k := ks[x.Choose("style", 2)]
		sizes := []int{1000, 1023, 1024, 1025, 4095, 4096, 4097, 20000}
		if c.Thorough() {
			sizes = append(sizes, 70000, 1000000)
		}
		sizes = append(sizes, litSizes(70000)...)
		n := sizes[x.Choose("size", len(sizes))]
		d := newDoc(k.v, minimal(model.MsgByTag("STMTTRNRS")))
		d.Signon = (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(false)
		org := d.Signon.Path("FI/ORG")
		text := ""
		known := true
		switch x.Choose("what", 13) {
		case 0: // a long text
			org.Text = strings.Repeat("x", n)
			org.V = model.Val{S: org.Text}
		case 1: // with entities
			org.Text = strings.Repeat("<&", n/8)
			org.V = model.Val{S: org.Text}
		case 2: // a long blank
			org.Text = "y" + strings.Repeat(" ", n) + "y"
			org.V = model.Val{S: org.Text}
		case 3: // long number
			b := d.Msgs[0].Path("STMTRS/LEDGERBAL/BALAMT")
			b.Text = "1" + strings.Repeat("0", n/4)
			v, _ := model.ParseDecimal(b.Text)
			b.V = model.Val{R: v}
		case 4: // deep nesting of unknown elements
			d.Signon.Kids = append(d.Signon.Kids, rawNode(strings.Repeat("<U>", n)+strings.Repeat("</U>", n)))
		case 5: // unclosed nesting
			d.Signon.Kids = append(d.Signon.Kids, rawNode(strings.Repeat("<U>", n)))
			known = false
		case 6: // many attributes
			d.Signon.Kids = append(d.Signon.Kids, rawNode("<U"+strings.Repeat(" a=\"1\"", n/7)+"></U>"))
			known = k.st.XML
			known = false
		case 7: // long name
			u := strings.Repeat("U", n)
			d.Signon.Kids = append(d.Signon.Kids, rawNode("<"+u+">1</"+u+">"))
		case 8: // many empty unknown elements
			d.Signon.Kids = append(d.Signon.Kids, rawNode(strings.Repeat("<U/>", n/4)))
		case 9: // comment in an unknown element
			d.Signon.Kids = append(d.Signon.Kids, rawNode("<U><!--"+strings.Repeat("- ", n/2)+"--></U>"))
		case 10: // nested message sets
			text = model.StdHeader(k.v, k.st.XML, "\n") + "<OFX>" + strings.Repeat("<SIGNONMSGSRSV1>", n/16)
			known = false
		case 11: // end tags only
			text = model.StdHeader(k.v, k.st.XML, "\n") + strings.Repeat("</OFX>", n/6)
			known = false
		case 12: // open angle brackets
			text = model.StdHeader(k.v, k.st.XML, "\n") + strings.Repeat("<", n)
			known = false
		}
		if text == "" {
			text = d.Write(&k.st)
		}
		r := judge(x, text)
		if known {
			if r == nil {
				x.Note("document: %q", clip(text))
				x.Fail("refused", "long but well-formed document refused")
			}
			if diff := model.Diff(d.Canon(), model.CanonResponse(r)); diff != "" {
				x.Fail("data", "long document: %s", clip(diff))
			}
		} else if text != "" && r != nil && k.st.XML && stdMalformed(text) {
			x.Fail("malformed", "malformed XML accepted")
		}
		x.State(text)
	}})
	// many members
	c.Space(&explore.Space{Name: "many", Workers: 4, Body: func(x *explore.X) {
		k := ks[x.Choose("style", 2)]
		m := model.Responses[x.Choose("message", len(model.Responses))]
		n := []int{10, 100, 1000}[x.Choose("count", c.Pick(2, 3))]
		rep := x.Choose("messages", 2) == 1
		d := newDoc(k.v)
		if rep {
			for i := 0; i < n; i++ {
				g := &model.Gen{C: model.NoChoice{}}
				g.Seed(i * 7)
				d.Msgs = append(d.Msgs, g.Msg(m))
			}
		} else {
			if n > 100 && m.Tag == "INVSTMTTRNRS" {
				x.Skip()
			}
			g := &model.Gen{C: &longLists{n}, Focus: "*", Max: true, Repeat: 1, Lens: n, Shape: true}
			d.Msgs = append(d.Msgs, g.Msg(m))
		}
		text := d.Write(&k.st)
		r := judge(x, text)
		if r == nil {
			x.Fail("refused", "long but well-formed document refused")
		}
		if diff := model.Diff(d.Canon(), model.CanonResponse(r)); diff != "" {
			x.Fail("data", "long document: %s", clip(diff))
		}
		x.State(text)
	}})
}

// longLists makes the first list met as long as possible.
type longLists struct{ n int }

// Dev takes the longest length of lists until some were long.
func (l *longLists) Dev(label string, n int) int {
	if strings.HasPrefix(label, "len ") && l.n > 0 {
		l.n = 0
		return n - 1
	}
	return 0
}

// clipN shortens a string to about n bytes.
func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + " ... " + s[len(s)-n/2:]
	}
	return s
}
