package checks

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C03", "exhaustive enumeration of equivalent encodings (end tags, blank space, escapes, SGML/XML) of bounded documents", "", c03)
	register("C04", "exhaustive enumeration of read patterns, cut points and stream failures", "", c04)
}

func minimal(m *model.Msg) *model.Node { return (&model.Gen{C: model.NoChoice{}}).Msg(m) }
func maximal(m *model.Msg) *model.Node {
	return (&model.Gen{C: model.NoChoice{}, Max: true, Repeat: 1}).Msg(m)
}

func check03(x *explore.X, d *model.Doc, st *model.Style) {
	text := d.Write(st)
	r, err := parse(text)
	compareParsed(x, d, text, r, err)
	x.State(text)
	x.Sample(text)
}

func c03(c *Ctx) {
	c.Assume = append(c.Assume, "end tags may be left out for the leaf elements of the OFX 1.0.3 DTD with non-empty values only", "carriage returns inside values are not judged")
	shapes := []bool{false, true}
	// presence of end tags
	for _, m := range model.Responses {
		for _, max := range shapes {
			m, max := m, max
			mk := func() *model.Doc {
				if max {
					return newDoc(103, maximal(m))
				}
				return newDoc(103, minimal(m))
			}
			n := model.Leaves(mk().Tree())
			all := n <= c.Pick(11, 15)
			bound := 0
			if !all {
				bound = 1
				if n <= 40 {
					bound = c.Pick(2, 3)
				} else if n <= 150 {
					bound = c.Pick(1, 2)
				}
			}
			c.Space(&explore.Space{Name: fmt.Sprintf("endtags/%s/max=%v", m.Tag, max), Bound: bound, Body: func(x *explore.X) {
				d := mk()
				base := false
				if !all {
					base = x.Choose("base", 2) == 1
				}
				sep := []string{"", "\n"}[x.Choose("sep", 2)]
				st := &model.Style{Sep: sep, EndTag: func(i int) bool {
					if all {
						return x.Choose("end", 2) == 1
					}
					return x.DevBool("end", base)
				}}
				check03(x, d, st)
			}})
			// blank space: everywhere the same
			seps := []string{"", "\n", "\r\n", " ", "\t", "\n\n  \n", "\r"}
			pads := []string{"", " ", "\n", "\r\n\t "}
			c.Space(&explore.Space{Name: fmt.Sprintf("space/%s/max=%v", m.Tag, max), Body: func(x *explore.X) {
				d := mk()
				st := &model.Style{Sep: seps[x.Choose("sep", len(seps))], Pad: pads[x.Choose("pad", len(pads))], Indent: x.Choose("indent", 2) == 1}
				switch x.Choose("kind", 3) {
				case 1:
					st.EndTags = true
				case 2:
					st.XML = true
					d.Version = 203
				}
				if max && !c.Thorough() && m.Tag == "INVSTMTTRNRS" && len(st.Pad) > 1 {
					x.Skip()
				}
				check03(x, d, st)
			}})
		}
		// end tags of every kind of aggregate
		m := m
		for _, p := range focusPaths(m, false) {
			p := p
			mk := func() *model.Doc {
				return newDoc(103, (&model.Gen{C: &fullAt{true}, Focus: p, Repeat: 1, Shape: true}).Msg(m))
			}
			c.Space(&explore.Space{Name: "endtags/" + p, Bound: c.Pick(1, 2), Body: func(x *explore.X) {
				base := x.Choose("base", 2) == 1
				st := &model.Style{Sep: []string{"", "\n"}[x.Choose("sep", 2)], EndTag: func(i int) bool { return x.DevBool("end", base) }}
				if !c.Thorough() && (st.Sep == "") == base {
					x.Skip()
				}
				check03(x, mk(), st)
			}})
			if c.Stop() {
				return
			}
		}
		// blank space: deviating at single places
		alts := []string{"\n", "", " ", "\r\n", "\n\t\n"}
		c.Space(&explore.Space{Name: "places/" + m.Tag, Bound: c.Pick(1, 2), Body: func(x *explore.X) {
			d := newDoc(102, minimal(m))
			st := &model.Style{}
			switch x.Choose("kind", 3) {
			case 1:
				st.EndTags = true
			case 2:
				st.XML = true
				d.Version = 211
			}
			st.SepFn = func() string { return alts[x.Dev("sep", len(alts))] }
			st.PadFn = func(int) (string, string) {
				k := x.Dev("pad", 2*len(alts)-1)
				if k == 0 {
					return "", ""
				}
				if k < len(alts) {
					return alts[k], ""
				}
				return "", alts[k-len(alts)+1]
			}
			check03(x, d, st)
		}})
	}
	// a long run of blank space at every single place between elements
	lengths := []int{300, 600, 1100, 2100, 4200, 66000}
	for _, m := range model.Responses {
		m := m
		c.Space(&explore.Space{Name: "runs/" + m.Tag, Body: func(x *explore.X) {
			d := newDoc(102, minimal(m))
			st := &model.Style{EndTags: true}
			blank := 0
			switch x.Choose("kind", 3) {
			case 0:
				blank = x.Choose("blank", 3)
			case 1:
				st.XML = true
				d.Version = 211
				blank = x.Choose("blank", 3)
			case 2:
				d = newDoc(220, maximal(m))
				st.XML = true
			}
			n := lengths[x.Choose("length", len(lengths))]
			run := strings.Repeat([]string{" ", "\n", "\r\n\t  "}[blank], n)[:n]
			at := x.Choose("place", 1+strings.Count(d.Write(st), "><"))
			st.SepFn = func() string {
				at--
				if at == 0 {
					return run
				}
				return ""
			}
			check03(x, d, st)
		}})
	}
	// escapes of every character of texts
	var chars = []string{"<", "a", "&", ">", " ", "\"", "'", "\u00e9", "\U0001F600", ";", "#", "]", "lt;", "amp;"}
	chars = append(chars, Lit.Strings...)
	enc := func(x *explore.X, s string, xml bool) string {
		if s == " " {
			return " "
		}
		var b strings.Builder
		switch k := x.Choose("enc", 5); k {
		case 0:
			return model.Escape(s, 0)
		case 1, 2:
			for _, r := range s {
				if k == 1 {
					fmt.Fprintf(&b, "&#%d;", r)
				} else {
					fmt.Fprintf(&b, "&#x%x;", r)
				}
			}
		case 3:
			return "<![CDATA[" + s + "]]>"
		case 4:
			if s == ">" || s == "\"" || s == "'" {
				if s == "\"" {
					return "&quot;"
				} else if s == "'" {
					return "&apos;"
				}
				return ">"
			}
			for _, r := range s {
				fmt.Fprintf(&b, "&#x%06X;", r)
			}
		}
		return b.String()
	}
	c.Space(&explore.Space{Name: "escapes", Body: func(x *explore.X) {
		n := 1 + x.Choose("length", c.Pick(2, 3))
		d := newDoc(103)
		st := &model.Style{Sep: "\n"}
		switch x.Choose("kind", 3) {
		case 1:
			st.EndTags = true
		case 2:
			st.XML = true
			d.Version = 220
		}
		var plain, coded strings.Builder
		for i := 0; i < n; i++ {
			s := chars[x.Choose("char", len(chars))]
			plain.WriteString(s)
			coded.WriteString(enc(x, s, st.XML))
		}
		if strings.Contains(coded.String(), "]]]>") || strings.Contains(coded.String(), "]]>") && !strings.Contains(coded.String(), "CDATA") {
			x.Skip()
		}
		if strings.TrimSpace(plain.String()) == "" {
			x.Skip()
		}
		org := (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(false)
		d.Signon = org
		target := org.Path("FI/ORG")
		if x.Choose("where", 2) == 1 {
			target = org.Find("SESSCOOKIE")
		}
		target.Text = "\x00target"
		target.V = model.Val{S: strings.TrimSpace(plain.String())}
		st.EscFn = func(_ int, t string) string {
			if t == "\x00target" {
				return coded.String()
			}
			return model.Escape(t, 0)
		}
		check03(x, d, st)
	}})
	// escape styles of whole documents
	for _, m := range model.Responses {
		m := m
		c.Space(&explore.Space{Name: "styles/" + m.Tag, Bound: 1, Body: func(x *explore.X) {
			g := &model.Gen{C: x, Focus: "*", Max: true, Repeat: 1, Content: true}
			if !c.Thorough() {
				x.Spend(1)
			}
			d := newDoc(160, g.Msg(m))
			st := &model.Style{Esc: x.Choose("esc", 6), Sep: "\n"}
			switch x.Choose("kind", 3) {
			case 1:
				st.EndTags = true
			case 2:
				st.XML = true
				d.Version = 200
			}
			check03(x, d, st)
		}})
	}
}

// ---- C04

var errStream = errors.New("stream broke")

// frag delivers bytes in pieces.
type frag struct {
	data   []byte
	pos    int
	next   func(pos int) int // length of the next piece (0: empty read)
	end    error
	joined bool // the end is reported together with the last bytes
}

func (f *frag) Read(b []byte) (int, error) {
	if f.pos >= len(f.data) {
		return 0, f.end
	}
	n := f.next(f.pos)
	if n > len(b) {
		n = len(b)
	}
	if n > len(f.data)-f.pos {
		n = len(f.data) - f.pos
	}
	copy(b, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.joined && f.pos == len(f.data) {
		return n, f.end
	}
	return n, nil
}

// passing is the error of a read which might succeed when tried again.
type passing struct{}

func (passing) Error() string   { return "try again" }
func (passing) Timeout() bool   { return true }
func (passing) Temporary() bool { return true }

type outcome struct {
	lines string
	err   string
	nilR  bool
}

func outcomeOf(r *ofxgo.Response, err error) outcome {
	o := outcome{nilR: r == nil, err: fmt.Sprint(err)}
	if r != nil {
		o.lines = strings.Join(model.CanonResponse(r), "\n")
	}
	return o
}

func wholeOutcome(text string) outcome { return outcomeOf(parse(text)) }

func c04(c *Ctx) {
	c.Assume = append(c.Assume, "readers follow the io.Reader contract and return at most three empty reads in a row", "whether bytes after the closing OFX tag make an answer wrong is not judged, only that their delivery does not matter")
	type docT struct {
		name, text string
		end        int // length up to the end of the OFX element
		out        outcome
	}
	var docs []docT
	add := func(name, text string) {
		d := docT{name: name, text: text, out: wholeOutcome(text)}
		d.end = strings.Index(text, "</OFX>") + len("</OFX>")
		if d.end < len("</OFX>") {
			d.end = len(text) + 1
		}
		docs = append(docs, d)
	}
	add("signon-sgml", newDoc(103).Write(&model.Style{}))
	add("signon-xml", newDoc(203).Write(&model.Style{XML: true, Sep: "\r\n", HdrSep: "\r\n"}))
	special := (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(false)
	special.Path("FI/ORG").Text, special.Path("FI/ORG").V = "\u00e9\u20ac<&\U0001F600>\"", model.Val{S: "\u00e9\u20ac<&\U0001F600>\""}
	sd := newDoc(103)
	sd.Signon = special
	add("special-sgml", sd.Write(&model.Style{Esc: 3, Sep: "\r\n"}))
	sd.Version = 211
	add("special-xml", sd.Write(&model.Style{XML: true, Esc: 2}))
	// invalid: validation error
	iv := newDoc(103)
	iv.Signon = model.SimpleSignon(false)
	iv.Signon.Find("STATUS").Kids[1].Text = "BAD"
	add("invalid-sgml", iv.Write(&model.Style{Sep: "\n"}))
	for i, m := range model.Responses {
		st := &model.Style{Sep: "\n"}
		v := 102
		if i%2 == 0 {
			st = &model.Style{XML: true, Sep: "\r\n"}
			v = 220
		}
		add("min-"+m.Tag, newDoc(v, minimal(m)).Write(st))
	}
	small := len(docs)
	for i, m := range model.Responses {
		st := &model.Style{Sep: "\n"}
		v := 160
		if i%2 == 1 {
			st = &model.Style{XML: true}
			v = 210
		}
		add("max-"+m.Tag, newDoc(v, maximal(m)).Write(st))
	}
	// malformed documents keep failing the same way
	add("bad-header", strings.Replace(docs[0].text, "DATA", "DATE", 1)+" ")
	add("bad-tag", strings.Replace(docs[1].text, "</SONRS>", "</SONRQ>", 1)+" ")
	add("long-blank", strings.Repeat(" ", 5000)+docs[1].text)
	add("long-header", strings.Replace(docs[0].text, "<OFX>", strings.Repeat("\n", 2000)+"<OFX>", 1))
	add("empty", "")
	add("text", "hello")
	tails := []string{"\n", "\r\n\r\n", " ", strings.Repeat("\n", 3000), "x", "junk & <", "<", "</OFX>", "<OFX>", "<x/>", "<x>", "<!-- c -->", "<?pi?>", "\x00", strings.Repeat("\x00", 2000), "\xff", strings.Repeat("<x>y</x>", 1000), "\n--boundary--\r\n", docs[0].text, docs[1].text, "é"}
	for i, t := range tails {
		for j, d := range []docT{docs[0], docs[1], docs[4], docs[small]} {
			add(fmt.Sprint("tail-", i, "-", j), d.text[:d.end]+t)
		}
	}
	run := func(x *explore.X, d docT, f *frag) {
		f.data = []byte(d.text)
		got := outcomeOf(ofxgo.ParseResponse(f))
		if got != d.out {
			x.Note("document:\n%s", d.text)
			x.Fail("fragments", "read whole: %v %s; read in pieces: %v %s; same data: %v", !d.out.nilR, d.out.err, !got.nilR, got.err, got.lines == d.out.lines)
		}
		if !got.nilR {
			dec, derr := ofxgo.DecodeResponse(&frag{data: f.data, next: f.next, end: f.end, joined: f.joined})
			if derr != nil || strings.Join(model.CanonResponse(dec), "\n") != d.out.lines {
				x.Fail("fragments", "DecodeResponse in pieces: %v", derr)
			}
		}
		x.State(d.name, got.err, got.lines)
	}
	sizes := []int{1, 2, 3, 5, 7, 13, 64, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 1 << 20}
	sizes = append(sizes, litSizes(1<<20)...)
	c.Space(&explore.Space{Name: "pieces", Body: func(x *explore.X) {
		d := docs[x.Choose("document", len(docs))]
		size := sizes[x.Choose("size", len(sizes))]
		empties := x.Choose("empty reads", 4)
		joined := x.Choose("end with data", 2) == 1
		e := 0
		run(x, d, &frag{end: io.EOF, joined: joined, next: func(int) int {
			if e < empties {
				e++
				return 0
			}
			e = 0
			return size
		}})
	}})
	// a cut at every position
	c.Space(&explore.Space{Name: "cut", Body: func(x *explore.X) {
		d := docs[x.Choose("document", c.Pick(small, len(docs)))]
		if len(d.text) == 0 {
			x.Skip()
		}
		at := 1 + x.Choose("cut", len(d.text))
		empty := x.Choose("empty read", 2) == 1
		did := false
		run(x, d, &frag{end: io.EOF, next: func(pos int) int {
			if pos < at {
				return at - pos
			}
			if pos == at && empty && !did {
				did = true
				return 0
			}
			return len(d.text)
		}})
	}})
	c.Space(&explore.Space{Name: "cut-twice", Body: func(x *explore.X) {
		d := docs[x.Choose("document", c.Pick(1, 4))]
		step := c.Pick(3, 1)
		a := 1 + x.Choose("cut", len(d.text))
		b := a + step*x.Choose("cut2", (len(d.text)-a)/step+1)
		run(x, d, &frag{end: io.EOF, next: func(pos int) int {
			switch {
			case pos < a:
				return a - pos
			case pos < b:
				return b - pos
			}
			return len(d.text)
		}})
	}})
	// the stream ends or fails after every number of bytes
	ends := []error{io.EOF, errStream, io.ErrUnexpectedEOF,
		os.ErrDeadlineExceeded, fmt.Errorf("broken: %w", io.EOF), &net.OpError{Op: "read", Net: "tcp", Err: os.ErrDeadlineExceeded},
		syscall.ECONNRESET, context.Canceled, context.DeadlineExceeded, net.ErrClosed, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed, bufio.ErrBufferFull, errors.New("EOF"), passing{}}
	c.Space(&explore.Space{Name: "truncated", Body: func(x *explore.X) {
		d := docs[x.Choose("document", c.Pick(small, len(docs)))]
		n := x.Choose("bytes", len(d.text)+1)
		end := ends[x.Choose("end", len(ends))]
		if end == io.ErrUnexpectedEOF && !c.Thorough() && n%2 == 1 {
			x.Skip()
		}
		mode := 0
		if end == io.EOF || end == errStream || end == io.ErrUnexpectedEOF {
			mode = x.Choose("delivery", 3)
		}
		if n >= d.end && end != io.EOF {
			x.Skip()
		}
		f := &frag{data: []byte(d.text[:n]), end: end, joined: mode == 1, next: func(int) int {
			if mode == 2 {
				return 1
			}
			return 1 << 20
		}}
		r, err := ofxgo.ParseResponse(f)
		if n < d.end {
			if r != nil || err == nil {
				x.Fail("truncated", "%d of %d bytes, then %v: response %v, error %v", n, len(d.text), end, r != nil, err)
			}
		} else if got := outcomeOf(r, err); got != d.out {
			x.Fail("complete", "complete document without what follows it: %v", err)
		}
		r, err = ofxgo.DecodeResponse(&frag{data: f.data, end: f.end, joined: f.joined, next: f.next})
		if n < d.end && (r != nil || err == nil) {
			x.Fail("truncated", "DecodeResponse: %d of %d bytes, then %v: response %v, error %v", n, len(d.text), end, r != nil, err)
		}
		x.State(d.name, fmt.Sprint(n, r == nil))
	}})
	// huge documents, whole and cut off, in pieces of any size
	c.Space(&explore.Space{Name: "huge", Workers: 4, Body: func(x *explore.X) {
		hs := []int{1<<20 + 1, 9 << 20, 18 << 20}
		if c.Thorough() {
			hs = append(hs, 36<<20, 70<<20)
		}
		for _, n := range litSizes(100 << 20) {
			if n > 9000 {
				hs = append(hs, n+1)
			}
		}
		n := hs[x.Choose("size", len(hs))]
		d := huge(x.Choose("kind", 2), n, x.Choose("xml", 2) == 1)
		st := &model.Style{XML: d.Version >= 200, Sep: "\n"}
		text := d.Write(st)
		step := []int{1 << 21, 65536, 4093, 700}[x.Choose("pieces", 4)]
		cutAt := x.Choose("cut", 3)
		end := strings.LastIndex(text, "</OFX>")
		data := []byte(text)
		if cutAt > 0 {
			data = data[:[]int{end, end - 200}[cutAt-1]]
		}
		r, err := ofxgo.ParseResponse(&frag{data: data, end: io.EOF, next: func(int) int { return step }})
		x.State(fmt.Sprint(n, step, cutAt, d.Version, r == nil))
		if cutAt > 0 {
			if r != nil || err == nil {
				x.Fail("truncated", "%d of %d bytes: response %v, error %v", len(data), len(text), r != nil, err)
			}
			return
		}
		if err != nil || r == nil {
			x.Fail("fragments", "%d bytes in pieces of %d are refused: %v", n, step, err)
		}
		if diff := model.Diff(d.Canon(), model.CanonResponse(r)); diff != "" {
			x.Fail("fragments", "%d bytes in pieces of %d: %s", n, step, clipN(diff, 400))
		}
	}})
	// long documents fail in the middle, too
	c.Space(&explore.Space{Name: "truncated-long", Body: func(x *explore.X) {
		d := docs[small+x.Choose("document", len(model.Responses))]
		k := x.Choose("block", 40)
		for n := k * len(d.text) / 40; n < (k+1)*len(d.text)/40 && n < d.end; n += c.Pick(23, 1) {
			r, err := ofxgo.ParseResponse(&frag{data: []byte(d.text[:n]), end: io.EOF, next: func(int) int { return 700 }})
			if r != nil || err == nil {
				x.Fail("truncated", "%d of %d bytes: response %v, error %v", n, len(d.text), r != nil, err)
			}
		}
		x.State(d.name, fmt.Sprint(k))
	}})
}
