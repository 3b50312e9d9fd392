package model

import (
	"fmt"
	"strconv"
	"strings"
)

// Tok is a token of a marshalled document.
type Tok struct {
	Kind byte // '<' start, '/' end, 't' text
	Text string
	Raw  string
}

func unescape(s string) (string, error) {
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '&' {
			b.WriteByte(s[i])
			i++
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			return "", fmt.Errorf("bare & in %q", s)
		}
		ent := s[i+1 : i+j]
		switch {
		case ent == "lt":
			b.WriteByte('<')
		case ent == "gt":
			b.WriteByte('>')
		case ent == "amp":
			b.WriteByte('&')
		case ent == "quot":
			b.WriteByte('"')
		case ent == "apos":
			b.WriteByte('\'')
		case strings.HasPrefix(ent, "#x") || strings.HasPrefix(ent, "#X"):
			n, err := strconv.ParseUint(ent[2:], 16, 32)
			if err != nil {
				return "", fmt.Errorf("bad reference &%s;", ent)
			}
			b.WriteRune(rune(n))
		case strings.HasPrefix(ent, "#"):
			n, err := strconv.ParseUint(ent[1:], 10, 32)
			if err != nil {
				return "", fmt.Errorf("bad reference &%s;", ent)
			}
			b.WriteRune(rune(n))
		default:
			return "", fmt.Errorf("unknown entity &%s;", ent)
		}
		i += j + 1
	}
	return b.String(), nil
}

// Tokens splits the body of a document written by the library. Only plain
// start tags, end tags and character data are expected.
func Tokens(s string) ([]Tok, error) {
	var out []Tok
	for len(s) > 0 {
		if s[0] == '<' {
			j := strings.IndexByte(s, '>')
			if j < 0 {
				return nil, fmt.Errorf("unclosed tag %.40q", s)
			}
			name := s[1:j]
			k := byte('<')
			if strings.HasPrefix(name, "/") {
				k = '/'
				name = name[1:]
			}
			for i := 0; i < len(name); i++ {
				c := name[i]
				if !(c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.') {
					return nil, fmt.Errorf("odd tag <%s>", s[1:j])
				}
			}
			if name == "" {
				return nil, fmt.Errorf("empty tag")
			}
			out = append(out, Tok{k, name, s[:j+1]})
			s = s[j+1:]
			continue
		}
		j := strings.IndexByte(s, '<')
		if j < 0 {
			j = len(s)
		}
		t, err := unescape(s[:j])
		if err != nil {
			return nil, err
		}
		if strings.Contains(s[:j], ">") && strings.Contains(s[:j], "]]>") {
			return nil, fmt.Errorf("]]> in character data")
		}
		out = append(out, Tok{'t', t, s[:j]})
		s = s[j:]
	}
	return out, nil
}

// Split separates the header of a document from its body.
func Split(doc string) (header, body string, err error) {
	i := strings.Index(doc, "<OFX>")
	if i < 0 {
		return "", "", fmt.Errorf("no <OFX> element")
	}
	return doc[:i], doc[i:], nil
}

// Reader reads a marshalled body guided by the grammar: children must stand in
// specification order.
type Reader struct {
	toks    []Tok
	pos     int
	EndTags bool // leaves must have end tags (else they must not)
	Request bool
	// SloppyEmpty accepts absent required leaves
}

func (r *Reader) skipWS() {
	for r.pos < len(r.toks) && r.toks[r.pos].Kind == 't' && strings.TrimSpace(r.toks[r.pos].Text) == "" {
		r.pos++
	}
}

func (r *Reader) peek() Tok {
	r.skipWS()
	if r.pos < len(r.toks) {
		return r.toks[r.pos]
	}
	return Tok{}
}

func (r *Reader) expect(kind byte, tag string) error {
	t := r.peek()
	if t.Kind != kind || t.Text != tag {
		return fmt.Errorf("expected %c%s, found %c%s", kind, tag, t.Kind, t.Text)
	}
	r.pos++
	return nil
}

// lexVal reads the value of a leaf.
func lexVal(e *Elem, text string) (Val, error) {
	t := strings.TrimSpace(text)
	switch e.Kind {
	case String, UID, Enum, CurrSymbol:
		return Val{S: t}, nil
	case Boolean:
		if t != "Y" && t != "N" {
			return Val{}, fmt.Errorf("%s: bad boolean %q", e.Tag, text)
		}
		return Val{S: t}, nil
	case Int:
		n, err := strconv.ParseInt(t, 10, 64)
		return Val{I: n}, err
	case Amount:
		r, ok := ParseDecimal(t)
		if !ok {
			return Val{}, fmt.Errorf("%s: bad amount %q", e.Tag, text)
		}
		return Val{R: r}, nil
	case Date:
		v, ok := ParseDate(t)
		if !ok {
			return Val{}, fmt.Errorf("%s: bad date %q", e.Tag, text)
		}
		return v, nil
	}
	return Val{}, fmt.Errorf("not a leaf: %s", e.Tag)
}

// Newer lists request elements which OFX 1.x does not have: whether they carry
// end tags in its documents is not judged.
var Newer = map[string]bool{"INC401K": true, "INC401KBAL": true, "INCTRANIMAGE": true, "INCTRANIMG": true, "INCLUDEPENDING": true}

// YearOne is the value of an unset Date.
const YearOne = -62135596800000

func (r *Reader) leaf(n *Node, e *Elem) error {
	r.pos++ // start tag
	text := ""
	if r.pos < len(r.toks) && r.toks[r.pos].Kind == 't' {
		text = r.toks[r.pos].Text
		r.pos++
	}
	hasEnd := r.pos < len(r.toks) && r.toks[r.pos].Kind == '/' && r.toks[r.pos].Text == e.Tag
	if hasEnd {
		r.pos++
	}
	if hasEnd != r.EndTags && (r.EndTags || !Newer[e.Tag]) {
		return fmt.Errorf("end tag of %s present=%v, expected %v", e.Tag, hasEnd, r.EndTags)
	}
	if !r.EndTags {
		text = strings.TrimRight(text, " \r\n")
	}
	v, err := lexVal(e, text)
	if err != nil {
		return err
	}
	if e.Kind == Date && v.MS == YearOne {
		return nil // unset
	}
	n.Kids = append(n.Kids, &Node{E: e, Tag: e.Tag, Text: text, V: v})
	return nil
}

func (r *Reader) kids(n *Node, kids []*Elem) error {
	i := 0
	for {
		t := r.peek()
		if t.Kind == '/' {
			return nil
		}
		if t.Kind != '<' {
			return fmt.Errorf("unexpected text %q in %s", t.Text, n.Tag)
		}
		var e *Elem
		var mem *Member
		for ; i < len(kids); i++ {
			if kids[i].Tag == t.Text {
				e = kids[i]
				break
			}
			if kids[i].Kind == Poly && kids[i].Tag == "" {
				if mem = memberOf(kids[i], t.Text); mem != nil {
					e = kids[i]
					break
				}
			}
		}
		if e == nil {
			return fmt.Errorf("unexpected element %s in %s", t.Text, n.Tag)
		}
		if !e.List && e.Kind != Poly {
			i++
		}
		if e.Leaf() {
			if err := r.leaf(n, e); err != nil {
				return err
			}
			continue
		}
		k := &Node{E: e, Tag: t.Text}
		r.pos++
		switch {
		case mem != nil:
			k.E = mem.Elem()
			if err := r.kids(k, mem.Kids); err != nil {
				return err
			}
		case e.Kind == Poly:
			i++
			for r.peek().Kind == '<' {
				m := memberOf(e, r.peek().Text)
				if m == nil {
					return fmt.Errorf("unexpected element %s in %s", r.peek().Text, e.Tag)
				}
				mk := &Node{E: m.Elem(), Tag: m.Tag}
				r.pos++
				if err := r.kids(mk, m.Kids); err != nil {
					return err
				}
				if err := r.expect('/', m.Tag); err != nil {
					return err
				}
				k.Kids = append(k.Kids, mk)
			}
		case e.Kind == MsgSets:
			i++
			for r.peek().Kind == '<' {
				name := r.peek().Text
				r.pos++
				v := r.peek()
				if v.Kind != '<' || v.Text != name+"V1" {
					return fmt.Errorf("%s not followed by %sV1", name, name)
				}
				r.pos++
				v1 := &Node{E: &Elem{Tag: name + "V1", Kind: Agg, Kids: e.Kids}, Tag: name + "V1"}
				if err := r.kids(v1, e.Kids); err != nil {
					return err
				}
				if err := r.expect('/', name+"V1"); err != nil {
					return err
				}
				if err := r.expect('/', name); err != nil {
					return err
				}
				k.Kids = append(k.Kids, &Node{E: &Elem{Tag: name, Kind: Flat}, Tag: name, Kids: []*Node{v1}})
			}
		default:
			if err := r.kids(k, e.Kids); err != nil {
				return err
			}
		}
		if err := r.expect('/', t.Text); err != nil {
			return err
		}
		n.Kids = append(n.Kids, k)
	}
}

// ReadBody reads an OFX element.
func ReadBody(body string, request, endTags bool) (*Doc, error) {
	toks, err := Tokens(body)
	if err != nil {
		return nil, err
	}
	r := &Reader{toks: toks, EndTags: endTags, Request: request}
	d := &Doc{Request: request}
	sfx, son, msgs := "RS", SignonRs, Responses
	if request {
		sfx, son, msgs = "RQ", SignonRq, Requests
	}
	if err := r.expect('<', "OFX"); err != nil {
		return nil, err
	}
	if err := r.expect('<', "SIGNONMSGS"+sfx+"V1"); err != nil {
		return nil, err
	}
	if err := r.expect('<', son.Tag); err != nil {
		return nil, err
	}
	d.Signon = &Node{E: son.Elem(), Tag: son.Tag}
	if err := r.kids(d.Signon, son.Kids); err != nil {
		return nil, err
	}
	if err := r.expect('/', son.Tag); err != nil {
		return nil, err
	}
	if err := r.expect('/', "SIGNONMSGS"+sfx+"V1"); err != nil {
		return nil, err
	}
	slot := 0
	for r.peek().Kind == '<' {
		set := r.peek().Text
		for ; slot < len(Slots); slot++ {
			if Slots[slot].Set+sfx+"V1" == set {
				break
			}
		}
		if slot == len(Slots) {
			return nil, fmt.Errorf("message set %s unknown or out of order", set)
		}
		slot++
		r.pos++
		for r.peek().Kind == '<' {
			tag := r.peek().Text
			var m *Msg
			for _, x := range msgs {
				if x.Tag == tag && x.Set+"V1" == set {
					m = x
				}
			}
			if m == nil {
				return nil, fmt.Errorf("unexpected message %s in %s", tag, set)
			}
			r.pos++
			n := &Node{E: m.Elem(), Tag: tag}
			if err := r.kids(n, m.Kids); err != nil {
				return nil, err
			}
			if err := r.expect('/', tag); err != nil {
				return nil, err
			}
			d.Msgs = append(d.Msgs, n)
		}
		if err := r.expect('/', set); err != nil {
			return nil, err
		}
	}
	if err := r.expect('/', "OFX"); err != nil {
		return nil, err
	}
	if r.peek().Kind != 0 {
		return nil, fmt.Errorf("content after </OFX>: %q", r.peek().Text)
	}
	return d, nil
}
