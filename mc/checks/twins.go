package checks

import (
	"math/big"
	"strconv"
	"strings"

	"verif/mc/explore"
	"verif/mc/model"
)

// Relations between the values of one document: equal values, exchanged
// values, opposite amounts, repeated members. The generators otherwise give
// every element a value of its own.

// leafRef is a leaf and the aggregate it stands in.
type leafRef struct {
	n, parent *model.Node
	depth     int
}

func leafRefs(root *model.Node) (out []leafRef) {
	var walk func(n *model.Node, depth int)
	walk = func(n *model.Node, depth int) {
		for _, k := range n.Kids {
			if k.E.Leaf() {
				out = append(out, leafRef{k, n, depth})
			} else {
				walk(k, depth+1)
			}
		}
	}
	walk(root, 0)
	return
}

func sameKind(a, b *model.Elem) bool {
	return a.Kind == b.Kind && a.Enum == b.Enum
}

// negate gives a leaf the opposite amount.
func negate(n *model.Node) {
	n.V.R = new(big.Rat).Neg(n.V.R)
	t := strings.TrimSpace(n.Text)
	switch {
	case strings.HasPrefix(t, "-"):
		n.Text = t[1:]
	case strings.HasPrefix(t, "+"):
		n.Text = "-" + t[1:]
	default:
		n.Text = "-" + t
	}
}

// relate gives two leaves of the same kind of value a relation: one of them in
// the given part. Leaves far apart are related only with all.
func relate(x *explore.X, root, part *model.Node, all bool) {
	leaves := leafRefs(root)
	in := leafRefs(part)
	if len(in) == 0 {
		x.Skip()
	}
	a := in[x.Choose("one", len(in))]
	var others []leafRef
	for _, l := range leaves {
		if l.n == a.n || !sameKind(l.n.E, a.n.E) {
			continue
		}
		if all || l.parent == a.parent || l.n.Tag == a.n.Tag || within(l.parent, a.parent) || within(a.parent, l.parent) {
			others = append(others, l)
		}
	}
	if len(others) == 0 {
		x.Skip()
	}
	b := others[x.Choose("other", len(others))]
	rels := 2
	if a.n.E.Kind == model.Amount {
		rels = 3
	}
	switch x.Choose("relation", rels) {
	case 0:
		b.n.Text, b.n.V = a.n.Text, a.n.V
	case 1:
		a.n.Text, a.n.V, b.n.Text, b.n.V = b.n.Text, b.n.V, a.n.Text, a.n.V
	case 2:
		b.n.Text, b.n.V = a.n.Text, a.n.V
		negate(b.n)
	}
}

// within tells whether n is a child or grandchild of p.
func within(n, p *model.Node) bool {
	for _, k := range p.Kids {
		if k == n {
			return true
		}
		for _, kk := range k.Kids {
			if kk == n {
				return true
			}
		}
	}
	return false
}

// repeat copies a member of a list, keeping everything or all but one value.
func repeat(x *explore.X, root, part *model.Node) {
	type spot struct {
		p *model.Node
		i int
	}
	var spots []spot
	var walk func(n *model.Node)
	walk = func(n *model.Node) {
		for i, k := range n.Kids {
			if (k.E.List && k.E.Kind <= model.Agg) || n.E.Kind == model.Poly || n.E.Kind == model.MsgSets || (k.E.Kind == model.Agg && memberIn(n.E, k.Tag)) {
				spots = append(spots, spot{n, i})
			}
			walk(k)
		}
	}
	walk(root)
	if part != root {
		kept := spots[:0]
		for _, s := range spots {
			if s.p.Kids[s.i] == part {
				kept = append(kept, s)
			}
		}
		spots = kept
	}
	if len(spots) == 0 {
		x.Skip()
	}
	s := spots[x.Choose("member", len(spots))]
	c := s.p.Kids[s.i].Clone()
	orig := c.Clone()
	leaves := leafRefs(c)
	if c.E.Leaf() {
		leaves = nil
	}
	opts := removable(c)
	i := x.Choose("but for", len(leaves)+1+2*len(opts))
	if i > len(leaves) {
		// only one of them has some optional element
		j := i - len(leaves) - 1
		other := removable(s.p.Kids[s.i])
		o, from := opts[j/2], c
		if j%2 == 1 {
			o, from = other[j/2], s.p.Kids[s.i]
		}
		for _, l := range append(leafRefs(c), leafRefs(s.p.Kids[s.i])...) {
			if l.n.E.Kind == model.Boolean {
				l.n.Text, l.n.V = "Y", model.Val{S: "Y"}
			}
		}
		cut(from, o)
		orig = s.p.Kids[s.i].Clone()
	} else if i > 0 {
		// all is equal but one value
		for _, o := range leafRefs(root) {
			if o.n.Tag != leaves[i-1].n.Tag && sameKind(o.n.E, leaves[i-1].n.E) && o.n.Text != leaves[i-1].n.Text {
				leaves[i-1].n.Text, leaves[i-1].n.V = o.n.Text, o.n.V
				break
			}
		}
	}
	at := s.i + 1
	var add []*model.Node
	wheres := 3
	if i > len(leaves) {
		wheres = 1
	}
	switch x.Choose("where", wheres) {
	case 0:
		add = []*model.Node{c}
	case 1:
		// not next to each other
		at = len(s.p.Kids)
		for at > 0 && s.p.Kids[at-1].Tag != c.Tag && s.p.Kids[at-1].E != c.E && !memberIn(s.p.E, s.p.Kids[at-1].Tag) {
			at--
		}
		add = []*model.Node{c}
	case 2:
		add = []*model.Node{c, orig}
	}
	s.p.Kids = append(s.p.Kids[:at:at], append(add, s.p.Kids[at:]...)...)
}

// removable lists the nodes below one which may be absent.
func removable(n *model.Node) (out []*model.Node) {
	for _, k := range n.Kids {
		all := len(k.Kids) > 0
		for _, kk := range k.Kids {
			all = all && kk.E.Opt
		}
		if k.E.Opt || k.E.List || k.E.Kind == model.Poly || (k.E.Kind == model.Flat && all) {
			out = append(out, k)
		}
		out = append(out, removable(k)...)
	}
	return
}

// cut removes a node.
func cut(n, what *model.Node) bool {
	for i, k := range n.Kids {
		if k == what {
			n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
			return true
		}
		if cut(k, what) {
			return true
		}
	}
	return false
}

// memberIn tells whether the tag is a kind of member of an inline typed list.
func memberIn(e *model.Elem, tag string) bool {
	for _, k := range e.Kids {
		if k.Kind == model.Poly && k.Tag == "" {
			for _, m := range k.Members {
				if m.Tag == tag {
					return true
				}
			}
		}
	}
	return false
}

// uniform gives all leaves of a kind of value the value of the first.
func uniform(x *explore.X, root *model.Node) {
	leaves := leafRefs(root)
	a := leaves[x.Choose("one", len(leaves))]
	for _, l := range leaves {
		if sameKind(l.n.E, a.n.E) {
			l.n.Text, l.n.V = a.n.Text, a.n.V
		}
	}
}

// relations explores relations between the values of messages.
func (c *Ctx) relations(msgs []*model.Msg, f func(*explore.X, *model.Node)) {
	c.relationsOf(msgs, true, f)
}

// relationsOf explores the relations between values of members of lists and,
// if whole is set, between all others.
func (c *Ctx) relationsOf(msgs []*model.Msg, whole bool, f func(*explore.X, *model.Node)) {
	for _, m := range msgs {
		m := m
		all := func() *model.Node {
			return (&model.Gen{C: model.NoChoice{}, Max: true, Repeat: 2}).Msg(m)
		}
		if whole {
			c.Space(&explore.Space{Name: "related/" + m.Tag, Body: func(x *explore.X) {
				n := all()
				relate(x, n, n, c.Thorough())
				f(x, n)
			}})
			c.Space(&explore.Space{Name: "repeated/" + m.Tag, Body: func(x *explore.X) {
				n := all()
				repeat(x, n, n)
				f(x, n)
			}})
		}
		c.Space(&explore.Space{Name: "uniform/" + m.Tag, Body: func(x *explore.X) {
			n := (&model.Gen{C: model.NoChoice{}, Max: true, Repeat: 1 + x.Choose("repeat", 2)}).Msg(m)
			uniform(x, n)
			f(x, n)
		}})
		for _, lp := range listPaths(m) {
			for _, p := range model.Aggregates(m, false) {
				p := p
				if !strings.HasPrefix(p, lp+"/") {
					continue
				}
				member := func() (*model.Node, *model.Node) {
					n := (&model.Gen{C: model.NoChoice{}, Max: true, Repeat: 1, Focus: p}).Msg(m)
					at := n
					if i := strings.IndexByte(p, '/'); i >= 0 {
						at = n.Path(p[i+1:])
					}
					if at == nil || len(at.Kids) == 0 {
						panic("model: no " + p)
					}
					return n, at
				}
				if strings.Contains(p[len(lp)+1:], "/") {
					// lists within the members
					if _, at := member(); !at.E.List {
						continue
					}
					if lp == m.Tag && len(listPaths(m)) > 1 && strings.HasPrefix(p, listPaths(m)[1]+"/") {
						continue // comes with the other
					}
				} else {
					c.Space(&explore.Space{Name: "related/" + p, Body: func(x *explore.X) {
						n, part := member()
						relate(x, n, part, c.Thorough())
						f(x, n)
					}})
				}
				c.Space(&explore.Space{Name: "repeated/" + p, Body: func(x *explore.X) {
					n, part := member()
					repeat(x, n, part)
					f(x, n)
				}})
			}
		}
		if c.Stop() {
			return
		}
	}
}

// lacking explores messages some of whose parts are missing, whether they are
// optional or not: every aggregate without any one or two of its parts, and with only one of them.
func (c *Ctx) lacking(msgs []*model.Msg, f func(*explore.X, *model.Node)) {
	for _, m := range msgs {
		m := m
		// any one part of a list member after members of all kinds
		rec := &lenAt{seen: map[string]bool{}}
		(&model.Gen{C: rec, Focus: "*", Max: true, Repeat: 1, Shape: true}).Msg(m)
		var polys []string
		listOf := func(label string) (*model.Node, *model.Node) {
			n := (&model.Gen{C: &lenAt{label: label}, Focus: "*", Max: true, Repeat: 1, Shape: true, Lens: 45}).Msg(m)
			for _, k := range n.All() {
				if p := polyOf(k); p != nil && len(k.Kids) >= 45 {
					if u := 2*len(p.Members) + 1; u < 45 {
						k.Kids = k.Kids[:len(k.Kids)-45+u]
					}
					return n, k
				}
			}
			return n, nil
		}
		for _, l := range rec.all {
			if _, k := listOf(l); k != nil {
				polys = append(polys, l)
			}
		}
		if len(polys) > 0 {
			c.Space(&explore.Space{Name: "lacking member/" + m.Tag, Body: func(x *explore.X) {
				n, k := listOf(polys[x.Choose("list", len(polys))])
				i := len(k.Kids) - 1 - x.Choose("member", len(polyOf(k).Members))
				k.Kids[i] = k.Kids[i].Clone()
				var parents []*model.Node
				var ats []int
				var walk func(n *model.Node)
				walk = func(n *model.Node) {
					for i, k := range n.Kids {
						parents, ats = append(parents, n), append(ats, i)
						walk(k)
					}
				}
				walk(k.Kids[i])
				if len(parents) == 0 {
					x.Skip()
				}
				j := x.Choose("part", len(parents))
				p := parents[j]
				p.Kids = append(append([]*model.Node{}, p.Kids[:ats[j]]...), p.Kids[ats[j]+1:]...)
				f(x, n)
			}})
		}
		// any one part anywhere, among complete ones
		c.Space(&explore.Space{Name: "lacking one/" + m.Tag, Body: func(x *explore.X) {
			n := (&model.Gen{C: model.NoChoice{}, Max: true, Repeat: 1 + x.Choose("repeat", c.Pick(1, 2))}).Msg(m)
			var parents []*model.Node
			var ats []int
			var walk func(n *model.Node)
			walk = func(n *model.Node) {
				for i, k := range n.Kids {
					parents, ats = append(parents, n), append(ats, i)
					if n.E != nil && n.E.Kind == model.MsgSets {
						continue // what a message set consists of is not optional
					}
					walk(k)
				}
			}
			walk(n)
			i := x.Choose("part", len(parents))
			p := parents[i]
			p.Kids = append(append([]*model.Node{}, p.Kids[:ats[i]]...), p.Kids[ats[i]+1:]...)
			f(x, n)
		}})
		for _, p := range focusPaths(m, c.Thorough()) {
			p := p
			c.Space(&explore.Space{Name: "lacking/" + p, Body: func(x *explore.X) {
				n := (&model.Gen{C: model.NoChoice{}, Max: true, Repeat: 1, Focus: p}).Msg(m)
				at := n
				if i := strings.IndexByte(p, '/'); i >= 0 {
					at = n.Path(p[i+1:])
				}
				if at == nil || len(at.Kids) == 0 {
					x.Skip()
				}
				drop := map[int]bool{}
				if x.Choose("only", 2) == 1 {
					keep := x.Choose("keep", len(at.Kids)+1)
					for i := range at.Kids {
						drop[i] = i != keep
					}
				} else {
					drop[x.Choose("drop", len(at.Kids))] = true
					drop[x.Choose("drop too", len(at.Kids))] = true
				}
				var kids []*model.Node
				for i, k := range at.Kids {
					if !drop[i] {
						kids = append(kids, k)
					}
				}
				at.Kids = kids
				f(x, n)
			}})
		}
		if c.Stop() {
			return
		}
	}
}

// polyOf is the element of n's members of several kinds, if it has any.
func polyOf(n *model.Node) *model.Elem {
	if n.E == nil || n.E.Kind == model.Poly {
		return n.E
	}
	for _, e := range n.E.Kids {
		if e.Kind == model.Poly {
			return e
		}
	}
	return nil
}

func hasMember(e *model.Elem, tag string) bool {
	for _, m := range e.Members {
		if m.Tag == tag {
			return true
		}
	}
	return false
}

// lenAt makes the first list with the given label as long as possible; it
// notes the labels of lists.
type lenAt struct {
	label string
	done  bool
	seen  map[string]bool
	all   []string
}

// Dev takes the longest length once.
func (l *lenAt) Dev(label string, n int) int {
	if !strings.HasPrefix(label, "len ") {
		return 0
	}
	if l.seen != nil && !l.seen[label] {
		l.seen[label] = true
		l.all = append(l.all, label)
	}
	if label == l.label && !l.done {
		l.done = true
		return n - 1
	}
	return 0
}

// longLists explores long lists of every kind.
func (c *Ctx) longLists(f func(*explore.X, *model.Node)) {
	sizes := []int{5, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129}
	if c.Thorough() {
		sizes = append(sizes, 4, 7, 15, 31, 63, 99, 127, 255, 256, 257, 500, 511, 512, 513)
	}
	sizes = append(sizes, litSizes(600)...)
	for _, m := range model.Responses {
		m := m
		rec := &lenAt{seen: map[string]bool{}}
		(&model.Gen{C: rec, Focus: "*", Max: true, Repeat: 2, Shape: true}).Msg(m)
		if len(rec.all) == 0 {
			continue
		}
		c.Space(&explore.Space{Name: "long/" + m.Tag, Body: func(x *explore.X) {
			label := rec.all[x.Choose("list", len(rec.all))]
			n := sizes[x.Choose("size", len(sizes))]
			kind := x.Choose("kind", 4)
			g := &model.Gen{C: &lenAt{label: label}, Focus: "*", Max: kind%2 == 1, Repeat: 1, Shape: true, Lens: n}
			msg := g.Msg(m)
			if kind >= 2 {
				// all members are the same
				var long *model.Node
				var walk func(n *model.Node)
				walk = func(n *model.Node) {
					if long == nil || len(n.Kids) > len(long.Kids) {
						long = n
					}
					for _, k := range n.Kids {
						walk(k)
					}
				}
				walk(msg)
				if len(long.Kids) == 0 {
					x.Skip()
				}
				last := long.Kids[len(long.Kids)-1]
				if poly := polyOf(long); poly != nil {
					// of any one kind
					if n > 99 {
						last = long.Kids[len(long.Kids)-1-x.Choose("member", len(poly.Members))]
					}
					for i := len(long.Kids) - n; i < len(long.Kids); i++ {
						if i >= 0 && hasMember(poly, long.Kids[i].Tag) {
							long.Kids[i] = last
						}
					}
				}
				for i, k := range long.Kids {
					if k.Tag == last.Tag {
						long.Kids[i] = last
					}
				}
			}
			f(x, msg)
		}})
		if c.Stop() {
			return
		}
	}
}

// longText makes a text of n bytes. Some texts repeat themselves.
func longText(kind, n int) string {
	var s string
	switch kind {
	case 0:
		s = strings.Repeat("L", n)
	case 1: // two equal halves
		b := counting((n + 1) / 2)
		s = b[:(n+1)/2]
		s += s
	case 2:
		s = counting(n)
	case 3:
		s = strings.Repeat("word ", n/5+1)
	case 4:
		s = strings.Repeat("&<\u00e9", n/4+1)
	case 5: // words of all lengths
		var b strings.Builder
		for i := 1; b.Len() < n; i++ {
			b.WriteString(strings.Repeat(string(rune('a'+i%26)), i) + " ")
		}
		s = b.String()
	}
	for len(s) > n && s[n]&0xc0 == 0x80 {
		n++
	}
	return strings.TrimSpace(s[:n])
}

// counting is a text of at least n bytes.
func counting(n int) string {
	b := make([]byte, 0, n+20)
	for i := 0; len(b) < n; i++ {
		b = append(strconv.AppendInt(b, int64(i), 10), '.')
	}
	return string(b)
}

const longKinds = 6

// longTexts explores documents whose texts are long.
func (c *Ctx) longTexts(f func(*explore.X, *model.Node)) {
	sizes := []int{31, 33, 64, 65, 80, 81, 128, 129, 254, 255, 256, 257, 300, 511, 514, 1023, 1025}
	if c.Thorough() {
		for n := 20; n < 300; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 2047, 2048, 2050, 4095, 4096, 4098, 8191, 8194, 65534, 65538)
	}
	sizes = append(sizes, litSizes(9000)...)
	for _, m := range model.Responses {
		m := m
		c.Space(&explore.Space{Name: "long texts/" + m.Tag, Body: func(x *explore.X) {
			n := sizes[x.Choose("size", len(sizes))]
			k := x.Choose("kind", longKinds)
			g := &model.Gen{C: model.NoChoice{}, Max: true}
			node := g.Msg(m)
			t := longText(k, n)
			if t == "" {
				x.Skip()
			}
			var in []leafRef
			for _, l := range leafRefs(node) {
				if l.n.E.Kind == model.String {
					in = append(in, l)
				}
			}
			// in one place, or everywhere
			at := 0
			if k < 3 && c.Thorough() {
				at = x.Choose("where", 1+len(in))
			} else {
				at = x.Choose("where", 2) * (1 + (n+k)%len(in))
			}
			for i, l := range in {
				if at == 0 || at == i+1 {
					l.n.Text, l.n.V = t, model.Val{S: t}
				}
			}
			f(x, node)
		}})
		if c.Stop() {
			return
		}
	}
}

// hugeSizes lists sizes of huge documents.
func (c *Ctx) hugeSizes() []int {
	sizes := []int{100 << 10, 1<<20 + 1, 5 << 20, 17 << 20, 35 << 20}
	if c.Thorough() {
		sizes = append(sizes, 2<<20+1, 9<<20, 70<<20, 130<<20)
	}
	for _, n := range litSizes(100 << 20) {
		if n > 9000 {
			sizes = append(sizes, n-1, n+1)
		}
	}
	return sizes
}

const hugeKinds = 4

// huge makes a document of about n bytes.
func huge(kind, n int, xmlStyle bool) *model.Doc {
	v := 102
	if xmlStyle {
		v = 220
	}
	d := newDoc(v)
	m := model.MsgByTag("STMTTRNRS")
	first := minimal(m)
	d.Msgs = append(d.Msgs, first)
	switch kind {
	case 0: // one text
		org := d.Signon.Path("FI/ORG")
		org.Text = longText(2, n)
		org.V = model.Val{S: org.Text}
	case 1: // texts of a few kilobytes
		for i := 0; i < n; i += 5000 {
			node := minimal(m)
			t := longText(i/5000%longKinds, 4000+i%1000)
			setLeafText(node, m.Kids, "CLTCOOKIE", t)
			d.Msgs = append(d.Msgs, node)
			if i > 4<<20 {
				i += 500000 // not too many of them
				setLeafText(node, m.Kids, "CLTCOOKIE", longText(i%longKinds, 500000))
			}
		}
	case 2: // blank space in front
		d.Signon.Path("FI/ORG").Text = strings.Repeat(" ", n) + d.Signon.Path("FI/ORG").Text
	case 3: // an element unknown here
		d.Signon.Kids = append(d.Signon.Kids, rawNode("<NEW.TEXT>"+longText(1, n)+"</NEW.TEXT>"))
	}
	// something at the very end
	last := minimal(m)
	last.Kids[0].Text, last.Kids[0].V = "last", model.Val{S: "last"}
	d.Msgs = append(d.Msgs, last)
	return d
}
