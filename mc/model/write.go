package model

import (
	"fmt"
	"strings"
)

// Style says how a document is written.
type Style struct {
	XML     bool
	EndTags bool                            // write end tags of leaves
	EndTag  func(leaf int) bool             // overrides EndTags per leaf
	Sep     string                          // between markup
	Indent  bool                            // indent by nesting depth
	Pad     string                          // around leaf values
	Esc     int                             // 0 entities, 1 decimal references, 2 hexadecimal references, 3 CDATA, 4 five entities
	HdrSep  string                          // line break in headers
	NL      string                          // line break after SGML headers
	Header  string                          // overrides the header
	Decl    string                          // overrides the XML declaration
	SepFn   func() string                   // overrides Sep
	PadFn   func(leaf int) (string, string) // overrides Pad
	EscFn   func(leaf int, text string) string
	leaf    int
}

func (st *Style) sep() string {
	if st.SepFn != nil {
		return st.SepFn()
	}
	return st.Sep
}

// Escape writes text as character data.
func Escape(s string, how int) string {
	if how == 3 && strings.ContainsAny(s, "<>&\"'") && !strings.Contains(s, "]]>") {
		return "<![CDATA[" + s + "]]>"
	}
	var b strings.Builder
	for _, r := range s {
		special := r == '<' || r == '>' || r == '&'
		switch {
		case how == 1 && (special || r > 126 || r == '\'' || r == '"'):
			fmt.Fprintf(&b, "&#%d;", r)
		case how == 2 && (special || r > 126 || r == '\'' || r == '"'):
			fmt.Fprintf(&b, "&#x%X;", r)
		case how == 5 && r == '>':
			b.WriteRune(r)
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '&':
			b.WriteString("&amp;")
		case how == 4 && r == '\'':
			b.WriteString("&apos;")
		case how == 4 && r == '"':
			b.WriteString("&quot;")
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// StdHeader is the standard header of a version.
func StdHeader(version int, xml bool, nl string) string {
	if xml {
		return fmt.Sprintf("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>%s<?OFX OFXHEADER=\"200\" VERSION=\"%d\" SECURITY=\"NONE\" OLDFILEUID=\"NONE\" NEWFILEUID=\"NONE\"?>%s", nl, version, nl)
	}
	l := []string{"OFXHEADER:100", "DATA:OFXSGML", fmt.Sprintf("VERSION:%d", version), "SECURITY:NONE", "ENCODING:UTF-8", "CHARSET:NONE", "COMPRESSION:NONE", "OLDFILEUID:NONE", "NEWFILEUID:NONE"}
	return strings.Join(l, nl) + nl + nl
}

// WriteNode writes an element.
func (st *Style) WriteNode(b *strings.Builder, n *Node, depth int) {
	if st.Indent {
		for i := 0; i < depth; i++ {
			b.WriteString("\t")
		}
	}
	if n.Raw != "" {
		b.WriteString(n.Raw + st.sep())
		return
	}
	b.WriteString("<" + n.Tag + ">")
	leaf := n.E != nil && n.E.Leaf()
	if leaf {
		pa, pz := st.Pad, st.Pad
		if st.PadFn != nil {
			pa, pz = st.PadFn(st.leaf)
		}
		if st.EscFn != nil {
			b.WriteString(pa + st.EscFn(st.leaf, n.Text) + pz)
		} else {
			b.WriteString(pa + Escape(n.Text, st.Esc) + pz)
		}
		end := st.EndTags || st.XML
		if st.EndTag != nil && !st.XML {
			end = st.EndTag(st.leaf)
		}
		st.leaf++
		if end || !sgmlLeaves[n.Tag] {
			b.WriteString("</" + n.Tag + ">")
		}
		b.WriteString(st.sep())
		return
	}
	b.WriteString(st.sep())
	for _, k := range n.Kids {
		st.WriteNode(b, k, depth+1)
	}
	if st.Indent {
		for i := 0; i < depth; i++ {
			b.WriteString("\t")
		}
	}
	name, _, _ := strings.Cut(n.Tag, " ") // without attributes
	b.WriteString("</" + name + ">" + st.sep())
}

// Wrap is an element with the given children.
func Wrap(tag string, kids ...*Node) *Node { return &Node{Tag: tag, Kids: kids} }

// Tree is the complete OFX element of a document; consecutive messages of the
// same message set share its element.
func (d *Doc) Tree() *Node {
	sfx := "RS"
	if d.Request {
		sfx = "RQ"
	}
	root := Wrap("OFX", Wrap("SIGNONMSGS"+sfx+"V1", d.Signon))
	var last *Node
	for _, n := range d.Msgs {
		set := MsgByTag(n.Tag).Set + "V1"
		if last == nil || last.Tag != set {
			last = Wrap(set)
			root.Kids = append(root.Kids, last)
		}
		last.Kids = append(last.Kids, n)
	}
	return root
}

// Write writes the document.
func (d *Doc) Write(st *Style) string { return d.WriteTree(st, d.Tree()) }

// WriteTree writes the document with another tree.
func (d *Doc) WriteTree(st *Style, root *Node) string {
	var b strings.Builder
	nl := st.NL
	if nl == "" {
		nl = "\n"
	}
	if st.Header != "" {
		b.WriteString(st.Header)
	} else {
		b.WriteString(StdHeader(d.Version, st.XML, nl))
	}
	st.leaf = 0
	st.WriteNode(&b, root, 0)
	return b.String()
}

// Leaves counts the leaves of a tree.
func Leaves(n *Node) (c int) {
	for _, k := range n.All() {
		if k.E != nil && k.E.Leaf() {
			c++
		}
	}
	return
}

// SGMLLeaf tells whether an element is a leaf of the OFX 1.0.3 DTD, whose end
// tag may be left out in SGML documents.
func SGMLLeaf(tag string) bool { return sgmlLeaves[tag] }
