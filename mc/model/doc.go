package model

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"golang.org/x/text/currency"
)

// Node is one element of an abstract document.
type Node struct {
	E    *Elem
	Tag  string
	Text string // lexical text of a leaf (unescaped)
	V    Val    // value of a leaf
	Kids []*Node
	Raw  string // written verbatim instead of an element
}

// Val is the semantic value of a leaf.
type Val struct {
	S     string // String, UID (trimmed), Boolean Y/N, CurrSymbol code, Enum name
	I     int64
	R     *big.Rat // Amount
	MS    int64    // Date: milliseconds since 1970 UTC
	Off   int      // Date: zone offset in minutes
	ZName string   // Date: zone name
}

// CanonVal is the canonical text of a value of kind k; "" means "not set".
func CanonVal(k Kind, v Val) string {
	switch k {
	case String, UID:
		return v.S
	case Int:
		if v.I == 0 {
			return ""
		}
		return strconv.FormatInt(v.I, 10)
	case Amount:
		if v.R == nil || v.R.Sign() == 0 {
			return ""
		}
		return v.R.RatString()
	case Date:
		return "@" + strconv.FormatInt(v.MS, 10)
	case Boolean:
		if v.S == "Y" {
			return "Y"
		}
		return ""
	case CurrSymbol:
		if v.S == "XXX" {
			return ""
		}
		return v.S
	case Enum:
		return v.S
	}
	return ""
}

// Find returns the first child with the tag.
func (n *Node) Find(tag string) *Node {
	for _, k := range n.Kids {
		if k.Tag == tag {
			return k
		}
	}
	return nil
}

// Path follows tags separated by '/'.
func (n *Node) Path(p string) *Node {
	for _, t := range strings.Split(p, "/") {
		if n == nil {
			return nil
		}
		n = n.Find(t)
	}
	return n
}

// Str returns the text value of a leaf below n, "" if absent.
func (n *Node) Str(p string) string {
	if k := n.Path(p); k != nil {
		return CanonVal(k.E.Kind, k.V)
	}
	return ""
}

// Remove deletes the first child with the tag.
func (n *Node) Remove(tag string) {
	for i, k := range n.Kids {
		if k.Tag == tag {
			n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
			return
		}
	}
}

// Clone copies a tree.
func (n *Node) Clone() *Node {
	c := *n
	c.Kids = make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		c.Kids[i] = k.Clone()
	}
	return &c
}

// All returns all nodes in document order.
func (n *Node) All() []*Node {
	out := []*Node{n}
	for _, k := range n.Kids {
		out = append(out, k.All()...)
	}
	return out
}

// Lines is a canonical description of the data of an aggregate: one line per
// set value and per present aggregate which is optional in the Go structure.
type Lines []string

func (l *Lines) add(path, val string) { *l = append(*l, path+"="+val) }

// CanonNode lists the data of a document node whose children follow kids.
func CanonNode(n *Node, kids []*Elem, path string, out *Lines) {
	for _, e := range kids {
		idx := 0
		for _, k := range n.Kids {
			if e.Kind == Poly && e.Tag == "" {
				m := memberOf(e, k.Tag)
				if m == nil {
					continue
				}
				p := fmt.Sprintf("%s/%s[%d]:%s", path, e.Field, idx, m.Tag)
				out.add(p, "{}")
				CanonNode(k, m.Kids, p, out)
				idx++
				continue
			}
			if k.Tag != e.Tag {
				continue
			}
			p := path + "/" + e.Tag
			switch {
			case e.Kind == Flat:
				CanonNode(k, e.Kids, p, out)
			case e.Kind == Poly:
				for i, mk := range k.Kids {
					if m := memberOf(e, mk.Tag); m != nil {
						mp := fmt.Sprintf("%s/%s[%d]:%s", path, e.Field, i, m.Tag)
						out.add(mp, "{}")
						CanonNode(mk, m.Kids, mp, out)
					}
				}
			case e.Kind == MsgSets:
				for i, set := range k.Kids {
					mp := fmt.Sprintf("%s/%s[%d]", path, e.Field, i)
					out.add(mp, set.Kids[0].Tag)
					CanonNode(set.Kids[0], e.Kids, mp, out)
				}
			case e.Kind == Agg && e.List:
				lp := fmt.Sprintf("%s[%d]", p, idx)
				idx++
				out.add(lp, "{}")
				CanonNode(k, e.Kids, lp, out)
			case e.Kind == Agg:
				if e.Ptr {
					out.add(p, "{}")
				}
				CanonNode(k, e.Kids, p, out)
			case e.List:
				out.add(fmt.Sprintf("%s[%d]", p, idx), CanonVal(e.Kind, k.V))
				idx++
			default:
				c := CanonVal(e.Kind, k.V)
				if c != "" || e.Ptr {
					out.add(p, c)
				}
			}
		}
	}
}

func memberOf(e *Elem, tag string) *Member {
	for _, m := range e.Members {
		if m.Tag == tag {
			return m
		}
	}
	return nil
}

// LeafVal reads the value of a leaf from a Go value.
func LeafVal(e *Elem, v reflect.Value) Val {
	switch e.Kind {
	case String, UID:
		return Val{S: strings.TrimSpace(v.String())}
	case Int:
		return Val{I: v.Int()}
	case Amount:
		a := v.Interface().(ofxgo.Amount)
		return Val{R: new(big.Rat).Set(&a.Rat)}
	case Date:
		return DateOf(v.Interface().(ofxgo.Date))
	case Boolean:
		if v.Bool() {
			return Val{S: "Y"}
		}
		return Val{S: "N"}
	case CurrSymbol:
		return Val{S: fmt.Sprint(v.Interface().(ofxgo.CurrSymbol).Unit.String())}
	case Enum:
		u := uint(v.Uint())
		if u == 0 {
			return Val{}
		}
		t := EnumOf(e.Enum)
		if t == nil {
			panic("model: no enum " + e.Enum)
		}
		if n := t.NameOf(u); n != "" {
			return Val{S: n}
		}
		return Val{S: fmt.Sprintf("?%d", u)}
	}
	panic("model: not a leaf")
}

// DateOf converts a date.
func DateOf(d ofxgo.Date) Val {
	name, off := d.Time.Zone()
	ms := d.Time.Unix()*1000 + int64(d.Time.Nanosecond()/1000000)
	v := Val{MS: ms, Off: off / 60, ZName: name}
	if r := d.Time.Nanosecond() % 1000000; r != 0 {
		v.ZName += fmt.Sprintf("+%dns", r)
	}
	return v
}

// CanonGo lists the data of a Go struct whose fields follow kids.
func CanonGo(v reflect.Value, kids []*Elem, path string, out *Lines) {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	for _, e := range kids {
		p := path + "/" + e.Tag
		if e.Kind == Flat {
			CanonGo(v, e.Kids, p, out)
			continue
		}
		f := v.FieldByName(e.Field)
		if !f.IsValid() {
			panic(fmt.Sprintf("model: %v has no field %s", v.Type(), e.Field))
		}
		ptr := false
		if f.Kind() == reflect.Ptr {
			if f.IsNil() {
				continue
			}
			f = f.Elem()
			ptr = true
		}
		switch {
		case e.Kind == Poly:
			for i := 0; i < f.Len(); i++ {
				mv := f.Index(i)
				for mv.Kind() == reflect.Interface || mv.Kind() == reflect.Ptr {
					if mv.IsNil() {
						break
					}
					mv = mv.Elem()
				}
				var m *Member
				for _, x := range e.Members {
					if polyTypes[x.Type] == mv.Type() {
						m = x
					}
				}
				if m == nil {
					out.add(fmt.Sprintf("%s/%s[%d]:?%v", path, e.Field, i, mv.Type()), "{}")
					continue
				}
				mp := fmt.Sprintf("%s/%s[%d]:%s", path, e.Field, i, m.Tag)
				out.add(mp, "{}")
				CanonGo(mv, m.Kids, mp, out)
			}
		case e.Kind == MsgSets:
			for i := 0; i < f.Len(); i++ {
				mp := fmt.Sprintf("%s/%s[%d]", path, e.Field, i)
				out.add(mp, f.Index(i).FieldByName("Name").String())
				CanonGo(f.Index(i), e.Kids, mp, out)
			}
		case e.List:
			for i := 0; i < f.Len(); i++ {
				lp := fmt.Sprintf("%s[%d]", p, i)
				if e.Kind == Agg {
					out.add(lp, "{}")
					CanonGo(f.Index(i), e.Kids, lp, out)
				} else {
					out.add(lp, CanonVal(e.Kind, LeafVal(e, f.Index(i))))
				}
			}
		case e.Kind == Agg:
			if ptr {
				out.add(p, "{}")
			}
			CanonGo(f, e.Kids, p, out)
		default:
			if !ptr && e.Kind == Date && f.Interface().(ofxgo.Date).IsZero() {
				continue
			}
			val := LeafVal(e, f)
			c := CanonVal(e.Kind, val)
			if e.Kind == Date && strings.Contains(val.ZName, "ns") {
				c += val.ZName
			}
			if c != "" || ptr {
				out.add(p, c)
			}
		}
	}
}

// Diff returns "" if the two lists agree, else the first difference.
func Diff(want, got Lines) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return "missing: " + want[i]
		case i >= len(want):
			return "unexpected: " + got[i]
		case want[i] != got[i]:
			return fmt.Sprintf("want %s, got %s", want[i], got[i])
		}
	}
	return ""
}

// SetLeaf stores a value in a Go field (allocating pointers).
func SetLeaf(e *Elem, f reflect.Value, v Val) {
	if f.Kind() == reflect.Ptr {
		p := reflect.New(f.Type().Elem())
		SetLeaf(e, p.Elem(), v)
		f.Set(p)
		return
	}
	switch e.Kind {
	case String, UID:
		f.SetString(v.S)
	case Int:
		f.SetInt(v.I)
	case Amount:
		var a ofxgo.Amount
		if v.R != nil {
			a.Set(v.R)
		}
		f.Set(reflect.ValueOf(a))
	case Date:
		f.Set(reflect.ValueOf(GoDate(v)))
	case Boolean:
		f.SetBool(v.S == "Y")
	case CurrSymbol:
		u, err := currency.ParseISO(v.S)
		if err != nil {
			panic("model: bad currency " + v.S)
		}
		f.Set(reflect.ValueOf(ofxgo.CurrSymbol{Unit: u}))
	case Enum:
		if v.S == "" {
			f.SetUint(0)
			return
		}
		ev, ok := EnumOf(e.Enum).Value(v.S)
		if !ok {
			panic("model: bad enum value " + v.S)
		}
		f.SetUint(uint64(ev.Num))
	}
}

// GoDate builds an ofxgo.Date.
func GoDate(v Val) ofxgo.Date {
	sec := v.MS / 1000
	ms := v.MS % 1000
	if ms < 0 {
		ms += 1000
		sec--
	}
	loc := time.UTC
	if v.Off != 0 || v.ZName != "" {
		loc = time.FixedZone(v.ZName, v.Off*60)
	}
	return ofxgo.Date{Time: time.Unix(sec, ms*1000000).In(loc)}
}

// Fill stores the data of a document node in a Go struct.
func Fill(n *Node, kids []*Elem, v reflect.Value) {
	for v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	for _, k := range n.Kids {
		e := k.E
		if e == nil {
			continue // unknown element
		}
		in := false
		for _, x := range kids {
			if x == e {
				in = true
			} else if x.Kind == Poly && x.Tag == "" {
				if m := memberOf(x, k.Tag); m != nil {
					f := v.FieldByName(x.Field)
					mv := reflect.New(polyTypes[m.Type])
					Fill(k, m.Kids, mv)
					f.Set(reflect.Append(f, asMember(mv, f.Type().Elem())))
					in = false
					break
				}
			}
		}
		if !in {
			continue
		}
		if e.Kind == Flat {
			Fill(k, e.Kids, v)
			continue
		}
		f := v.FieldByName(e.Field)
		switch {
		case e.Kind == Poly:
			for _, mk := range k.Kids {
				m := memberOf(e, mk.Tag)
				mv := reflect.New(polyTypes[m.Type])
				Fill(mk, m.Kids, mv)
				f.Set(reflect.Append(f, asMember(mv, f.Type().Elem())))
			}
		case e.Kind == MsgSets:
			for _, set := range k.Kids {
				mv := reflect.New(f.Type().Elem())
				mv.Elem().FieldByName("Name").SetString(set.Kids[0].Tag)
				Fill(set.Kids[0], e.Kids, mv)
				f.Set(reflect.Append(f, mv.Elem()))
			}
		case e.List:
			mv := reflect.New(f.Type().Elem())
			if e.Kind == Agg {
				Fill(k, e.Kids, mv)
			} else {
				SetLeaf(e, mv.Elem(), k.V)
			}
			f.Set(reflect.Append(f, mv.Elem()))
		case e.Kind == Agg:
			if f.Kind() == reflect.Ptr {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			Fill(k, e.Kids, f)
		default:
			SetLeaf(e, f, k.V)
		}
	}
}

func asMember(p reflect.Value, iface reflect.Type) reflect.Value {
	if p.Elem().Type().Implements(iface) {
		return p.Elem()
	}
	return p
}

// BuildMsg builds the Go message of a message node.
func BuildMsg(m *Msg, n *Node) ofxgo.Message {
	v := reflect.New(m.Go)
	Fill(n, m.Kids, v)
	return v.Interface().(ofxgo.Message)
}

// CanonMsgGo lists the data of a Go message, starting with its kind.
func CanonMsgGo(msg interface{}, path string, out *Lines) {
	v := reflect.ValueOf(msg)
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	for _, l := range [][]*Msg{Responses, Requests, {SignonRs, SignonRq}} {
		for _, m := range l {
			if v.IsValid() && m.Go == v.Type() {
				out.add(path, m.Tag)
				CanonGo(v, m.Kids, path, out)
				return
			}
		}
	}
	out.add(path, fmt.Sprintf("?%T", msg))
}

// Doc is an abstract OFX document.
type Doc struct {
	Version int
	Signon  *Node
	Msgs    []*Node // top-level messages, in order
	Request bool
	Shared  bool // nodes in several places are one message in several places
}

// Canon lists the data of a document: messages grouped by slot.
func (d *Doc) Canon() Lines {
	var out Lines
	out.add("VERSION", strconv.Itoa(d.Version))
	son := SignonRs
	if d.Request {
		son = SignonRq
	}
	CanonNode(d.Signon, son.Kids, "SIGNON", &out)
	for _, s := range Slots {
		i := 0
		for _, n := range d.Msgs {
			m := MsgByTag(n.Tag)
			if m.Slot == s.Field {
				p := fmt.Sprintf("%s[%d]", s.Field, i)
				out.add(p, m.Tag)
				CanonNode(n, m.Kids, p, &out)
				i++
			}
		}
	}
	return out
}

// CanonResponse lists the data of a parsed response (or a request).
func CanonResponse(r interface{}) Lines {
	var out Lines
	v := reflect.ValueOf(r).Elem()
	ver := uint(v.FieldByName("Version").Uint())
	name := EnumOf("ofxVersion").NameOf(ver)
	if name == "" {
		name = fmt.Sprintf("?%d", ver)
	}
	out.add("VERSION", name)
	son := SignonRs
	if v.Type() == reflect.TypeOf(ofxgo.Request{}) {
		son = SignonRq
	}
	CanonGo(v.FieldByName("Signon"), son.Kids, "SIGNON", &out)
	for _, s := range Slots {
		f := v.FieldByName(s.Field)
		for i := 0; i < f.Len(); i++ {
			CanonMsgGo(f.Index(i).Interface(), fmt.Sprintf("%s[%d]", s.Field, i), &out)
		}
	}
	return out
}

// BuildResponse builds the Go response of a document.
func (d *Doc) BuildResponse() *ofxgo.Response {
	r := &ofxgo.Response{}
	d.fillTop(reflect.ValueOf(r).Elem(), SignonRs)
	return r
}

// BuildRequest builds the Go request of a document.
func (d *Doc) BuildRequest() *ofxgo.Request {
	r := &ofxgo.Request{}
	d.fillTop(reflect.ValueOf(r).Elem(), SignonRq)
	return r
}

func (d *Doc) fillTop(v reflect.Value, son *Msg) {
	if ev, ok := EnumOf("ofxVersion").Value(strconv.Itoa(d.Version)); ok {
		v.FieldByName("Version").SetUint(uint64(ev.Num))
	}
	Fill(d.Signon, son.Kids, v.FieldByName("Signon"))
	built := map[*Node]reflect.Value{}
	for _, n := range d.Msgs {
		m := MsgByTag(n.Tag)
		f := v.FieldByName(m.Slot)
		b, ok := built[n]
		if !ok || !d.Shared {
			b = reflect.ValueOf(BuildMsg(m, n))
			built[n] = b
		}
		f.Set(reflect.Append(f, b))
	}
}
