package checks

import (
	"fmt"
	"strings"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C30", "exhaustive enumeration of unknown content inserted at every place of bounded documents, and of every message set with every transaction", "", c30)
}

func rawNode(s string) *model.Node { return &model.Node{Raw: s} }

// bare is the name of a start tag without its attributes.
func bare(tag string) string {
	n, _, _ := strings.Cut(tag, " ")
	return n
}

// place is a position among the children of an aggregate.
type place struct {
	n    *model.Node
	at   int
	list bool // member position of a typed list: unknown members are refused
}

// insertAt puts nodes at a place.
func (p place) insert(kids ...*model.Node) {
	rest := append([]*model.Node{}, p.n.Kids[p.at:]...)
	p.n.Kids = append(append(p.n.Kids[:p.at:p.at], kids...), rest...)
}

func isAgg(n *model.Node) bool {
	return n.Raw == "" && (n.E == nil || !n.E.Leaf())
}

// typedList tells whether unknown children of the node are refused.
func typedList(n *model.Node) bool {
	if n.E == nil {
		return false
	}
	if (n.E.Kind == model.Poly || n.E.Kind == model.MsgSets) && n.E.Tag != "" {
		return true
	}
	// aggregates with inline typed lists
	for _, k := range n.E.Kids {
		if k.Kind == model.Poly && k.Tag == "" {
			return true
		}
	}
	return false
}

// sgmlDTDLeaf finds a DTD leaf which is no child of the aggregate.
func sgmlDTDLeaf(n *model.Node) string {
	for _, t := range []string{"SIC", "TRNTYPE", "NAGENT", "PINCH"} {
		if model.SGMLLeaf(t) && !hasChild(n, t) {
			return t
		}
	}
	panic("model: no leaf")
}

func hasChild(n *model.Node, tag string) bool {
	if n.E != nil {
		for _, k := range n.E.Kids {
			if k.Tag == tag {
				return true
			}
		}
	}
	return n.Find(tag) != nil
}

const unknownKinds = 15

// unknown makes unknown content for a place ("" Raw for not applicable).
func unknown(x *explore.X, kind int, n *model.Node, at int, xml bool, st *model.Style) []*model.Node {
	w := func(k *model.Node) string {
		var b strings.Builder
		s2 := *st
		s2.SepFn, s2.PadFn, s2.EscFn, s2.EndTag = nil, nil, nil, nil
		s2.WriteNode(&b, k, 0)
		return b.String()
	}
	all := func(ns []*model.Node) string {
		s := ""
		for _, k := range ns {
			s += w(k)
		}
		return s
	}
	if n.E != nil && n.E.Kind == model.MsgSets && n.E.Tag == n.Tag && (kind == 4 || kind == 10 || kind == 11 || kind == 13) {
		x.Skip() // looks like one more message set: their names are free
	}
	one := func(s string) []*model.Node { return []*model.Node{rawNode(s)} }
	switch kind {
	case 0:
		return one("<X.YZ>some text</X.YZ>")
	case 1:
		return one("<UNKNOWN></UNKNOWN>")
	case 2:
		return one("<UNKNOWN/>")
	case 3:
		return one("<UNKNOWN>\n<A>1</A><B.C>2 &amp; 3</B.C> <D><E>4</E></D></UNKNOWN>")
	case 4: // holding copies of everything around it
		return one("<UNKNOWN>" + all(n.Kids) + "</UNKNOWN>")
	case 5: // two in a row
		return []*model.Node{rawNode("<UNKNOWN1>a</UNKNOWN1>"), rawNode("<UNKNOWN2><A>b</A></UNKNOWN2>")}
	case 6: // a vendor's element which the DTD knows, without end tag
		if xml {
			return one("<INTU.BID>3000</INTU.BID>")
		}
		t := sgmlDTDLeaf(n)
		return one("<" + t + ">77")
	case 7: // lower case name of a known element
		if len(n.Kids) == 0 {
			x.Skip()
		}
		k := n.Kids[at%len(n.Kids)]
		if k.Raw != "" {
			x.Skip()
		}
		t := strings.ToLower(k.Tag)
		return one("<" + t + ">9</" + t + ">")
	case 8: // attributes
		return one("<UNKNOWN a=\"1\" b='&lt;x'>9</UNKNOWN>")
	case 9: // nested in itself
		return one("<UNKNOWN><UNKNOWN>1</UNKNOWN><UNKNOWN/></UNKNOWN>")
	case 10: // holding an aggregate of the same name as the one around it
		return one("<UNKNOWN><" + n.Tag + ">" + all(n.Kids) + "</" + n.Tag + "></UNKNOWN>")
	case 11: // names which start or end like known ones
		if len(n.Kids) == 0 {
			x.Skip()
		}
		k := n.Kids[at%len(n.Kids)]
		if k.Raw != "" {
			x.Skip()
		}
		if !isAgg(k) {
			return []*model.Node{rawNode("<" + k.Tag + "9Z>" + k.Text + "</" + k.Tag + "9Z>"), rawNode("<Z9" + k.Tag + ">9</Z9" + k.Tag + ">")}
		}
		return []*model.Node{rawNode("<" + k.Tag + "9Z>" + all(k.Kids) + "</" + k.Tag + "9Z>")}
	case 12: // text with markup characters
		return one("<UNKNOWN>&lt;/UNKNOWN&gt;&lt;STATUS&gt;<![CDATA[</UNKNOWN><CODE>1]]></UNKNOWN>")
	case 13: // known leaves in a deeply nested unknown aggregate
		s, e := "", ""
		for i := 0; i < 12; i++ {
			s += fmt.Sprintf("<U%d>", i)
			e = fmt.Sprintf("</U%d>", i) + e
		}
		return one(s + all(n.Kids) + e)
	case 14: // a SGML leaf of unknown name without end tag, before the end
		if xml || at != len(n.Kids) {
			x.Skip()
		}
		return one("<UNKNOWN>abc")
	}
	panic("model: no kind")
}

func c30(c *Ctx) {
	c.Assume = append(c.Assume, "not judged: unknown leaf elements without end tag which are neither in the OFX 1.0.3 DTD nor the last child; comments and processing instructions; elements with namespace prefixes")
	type styleT struct {
		st model.Style
		v  int
	}
	styles := []styleT{{model.Style{XML: true}, 211}, {model.Style{Sep: "\n"}, 102}, {model.Style{EndTags: true, Sep: "\r\n", Indent: true}, 160}}
	// places of a document, without the message sets themselves
	places := func(root *model.Node, only string) (out []place) {
		var walk func(n *model.Node, depth int, path string)
		walk = func(n *model.Node, depth int, path string) {
			if !isAgg(n) {
				return
			}
			if depth >= 2 {
				list := typedList(n)
				if only == "" || path == only {
					// unknown children of MSGSETLIST members stand one level deeper
					if !(n.E != nil && n.E.Kind == model.Flat && strings.HasSuffix(n.Tag, "MSGSET")) {
						for i := 0; i <= len(n.Kids); i++ {
							out = append(out, place{n, i, list})
						}
					}
				}
			}
			for _, k := range n.Kids {
				walk(k, depth+1, path+"/"+k.Tag)
			}
		}
		walk(root, 0, "")
		return
	}
	check := func(x *explore.X, d *model.Doc, root *model.Node, st *model.Style, refused bool) {
		text := d.WriteTree(st, root)
		r, err := parse(text)
		if refused {
			if r != nil || err == nil {
				x.Note("document:\n%s", text)
				x.Fail("accepted", "unknown member of a typed list accepted")
			}
			x.State("refused", text)
			return
		}
		compareParsed(x, d, text, r, err)
		x.State(text)
		x.Sample(text)
	}
	// every aggregate, every place, every kind of unknown content
	for _, m := range model.Responses {
		m := m
		for _, p := range model.Aggregates(m, !c.Thorough()) {
			p := p
			for _, max := range []bool{false, true} {
				max := max
				c.Space(&explore.Space{Name: fmt.Sprintf("insert/%s/max=%v", p, max), Body: func(x *explore.X) {
					s := styles[x.Choose("style", len(styles))]
					// the aggregate itself is full while others are minimal
					g := &model.Gen{C: &fullAt{max}, Focus: p, Repeat: 1, Shape: true}
					d := newDoc(s.v, g.Msg(m))
					root := d.Tree()
					var ps []place
					for _, q := range places(root, "") {
						if q.n.Tag == p[strings.LastIndex(p, "/")+1:] || strings.HasSuffix(p, "/"+m.Tag) {
							ps = append(ps, q)
						}
					}
					if len(ps) == 0 {
						x.Skip()
					}
					pl := ps[x.Choose("place", len(ps))]
					kind := x.Choose("kind", unknownKinds)
					pl.insert(unknown(x, kind, pl.n, pl.at, s.st.XML, &s.st)...)
					check(x, d, root, &s.st, pl.list)
				}})
			}
			if c.Stop() {
				return
			}
		}
		// two insertions anywhere in a small document, one in a full one
		for _, max := range []bool{false, true} {
			max := max
			c.Space(&explore.Space{Name: fmt.Sprintf("anywhere/%s/max=%v", m.Tag, max), Body: func(x *explore.X) {
				n := minimal(m)
				si := x.Choose("style", 2)
				count := 1
				if max {
					n = maximal(m)
				} else {
					count = 2
				}
				s := styles[si]
				d := newDoc(s.v, n)
				root := d.Tree()
				refused := false
				for i := 0; i < count; i++ {
					ps := places(root, "")
					pl := ps[x.Choose("place", len(ps))]
					kinds := []int{0, 4, 10, 6, 7}
					if !c.Thorough() {
						kinds = kinds[i : 3-i]
					}
					if max {
						kinds = []int{4, 10, 0, 13, 2}
						if !c.Thorough() && len(ps) > 400 {
							kinds = []int{(pl.at+len(pl.n.Kids))%3*2 + 0}
							if kinds[0] == 2 {
								kinds[0] = 10
							}
						}
					}
					if pl.list {
						refused = true
					}
					pl.insert(unknown(x, kinds[x.Choose("kind", len(kinds))], pl.n, pl.at, s.st.XML, &s.st)...)
				}
				check(x, d, root, &s.st, refused)
			}})
		}
	}
	c.Space(&explore.Space{Name: "insert/SONRS", Body: func(x *explore.X) {
		s := styles[x.Choose("style", len(styles))]
		d := newDoc(s.v)
		d.Signon = (&model.Gen{C: model.NoChoice{}, Max: x.Choose("max", 2) == 1}).Signon(false)
		root := d.Tree()
		ps := places(root, "")
		pl := ps[x.Choose("place", len(ps))]
		pl.insert(unknown(x, x.Choose("kind", unknownKinds), pl.n, pl.at, s.st.XML, &s.st)...)
		check(x, d, root, &s.st, pl.list)
	}})
	// typed lists: everything which is no member is refused
	var names []string
	for _, l := range [][]*model.Msg{model.Responses, model.Requests, {model.SignonRs, model.SignonRq}} {
		for _, m := range l {
			names = append(names, m.Tag)
		}
	}
	for _, l := range [][]*model.Member{model.InvTranMembers, model.PositionMembers, model.OpenOrderMembers, model.SecurityMembers} {
		for _, m := range l {
			names = append(names, m.Tag)
		}
	}
	names = append(names, "STMTTRN", "STMTTRNP", "INVBANKTRAN", "BUYFOO", "POSFOO", "OOFOO", "FOOINFO", "BUYSTOCKX", "INTU.X", "UNKNOWN", "BANKMSGSET", "BANKMSGSETV1", "MSGSETCORE", "SECINFO", "INVTRAN", "INVBUY", "INVPOS", "OO", "STMTENDTRNRS", "INTRATRNRS", "CHGUSERINFOTRNRS", "ENROLLTRNRS", "PINCHTRNRS", "CHALLENGETRNRS", "RECINTRATRNRS", "BANKMAILTRNRS", "STPCHKTRNRS", "CCSTMTENDTRNRS", "PMTTRNRS", "MAILTRNRS", "LOANSTMTTRNRS")
	for _, s := range model.Slots {
		names = append(names, s.Set+"RSV1", s.Set+"RQV1", s.Set+"V1")
	}
	for _, l := range Lit.Strings {
		if plainWord.MatchString(l) && l[0] >= 'A' && l[0] <= 'Z' {
			names = append(names, l)
		}
	}
	names = append(names, "x:UNKNOWN", "x:FOOMSGSRSV1", "ofx:STMTENDTRNRS", "x:POSFOO", "UNKNOWN a=\"1\"", "FOOMSGSRSV1 a=\"b\"", "x:FOO xmlns:x=\"urn:x\"", "BUYFOO xmlns=\"urn:x\"")
	names = dedup(names)
	for _, m := range model.Responses {
		m := m
		for i, lp := range listPaths(m) {
			lp := lp
			if i > 0 {
				break
			}
			c.Space(&explore.Space{Name: "members/" + lp, Body: func(x *explore.X) {
				s := styles[x.Choose("style", 2)]
				g := &model.Gen{C: model.NoChoice{}, Max: true, Repeat: 1}
				d := newDoc(s.v, g.Msg(m))
				root := d.Tree()
				var ps []place
				for _, p := range places(root, "") {
					if p.list {
						ps = append(ps, p)
					}
				}
				if len(ps) > 60 {
					// long lists: the ends and the middle
					var few []place
					for i, p := range ps {
						if p.at < 2 || p.at > len(p.n.Kids)-2 || i%7 == 0 {
							few = append(few, p)
						}
					}
					ps = few
				}
				pl := ps[x.Choose("place", len(ps))]
				name := names[x.Choose("name", len(names))]
				known := map[string]bool{}
				if pl.n.E != nil {
					for _, mm := range pl.n.E.Members {
						known[mm.Tag] = true
					}
					for _, k := range pl.n.E.Kids {
						known[k.Tag] = true
						for _, mm := range k.Members {
							known[mm.Tag] = true
						}
					}
				}
				if known[name] {
					x.Skip()
				}
				if pl.n.E.Kind == model.MsgSets && strings.HasSuffix(name, "MSGSET") {
					x.Skip() // message sets of any name are listed
				}
				if pl.n.E.Kind == model.MsgSets && !c.Thorough() && pl.at > 0 {
					x.Skip()
				}
				inner := "<A>1</A>"
				if pl.n.E.Kind == model.MsgSets {
					inner = "1" // an element in an element looks like one more message set
				}
				pl.insert(rawNode("<" + name + ">" + inner + "</" + bare(name) + ">"))
				text := d.WriteTree(&s.st, root)
				r, err := parse(text)
				if r != nil || err == nil {
					x.Note("document:\n%s", text)
					x.Fail("accepted", "%s accepted in %s", name, pl.n.Tag)
				}
				x.State(text)
			}})
		}
	}
	// a message set in the list holds its parameters once, in one version
	c.Space(&explore.Space{Name: "message set versions", Body: func(x *explore.X) {
		s := styles[x.Choose("style", len(styles))]
		g := &model.Gen{C: model.NoChoice{}, Max: x.Choose("max", 2) == 1, Repeat: 1}
		d := newDoc(s.v, g.Msg(model.MsgByTag("PROFTRNRS")))
		root := d.Tree()
		var list *model.Node
		for _, p := range places(root, "") {
			if p.n.E != nil && p.n.E.Kind == model.MsgSets {
				list = p.n
			}
		}
		if list == nil {
			panic("model: no message set list")
		}
		set := list.Kids[x.Choose("set", len(list.Kids))]
		own := set.Kids
		if len(own) == 0 {
			panic("model: empty message set")
		}
		w := func(tag string, kids []*model.Node) *model.Node { return model.Wrap(tag, kids...) }
		var extra *model.Node
		name := own[0].Tag
		stem := strings.TrimSuffix(name, "V1")
		switch x.Choose("extra", 9) {
		case 0:
			extra = w(stem+"V2", own[0].Kids)
		case 1:
			extra = w(stem+"V1", own[0].Kids)
		case 2:
			extra = w(stem+"V3", own[0].Kids)
		case 3:
			extra = w(stem, own[0].Kids)
		case 4:
			extra = rawNode("<" + stem + "V2></" + stem + "V2>")
		case 5:
			extra = rawNode("<UNKNOWN><A>1</A></UNKNOWN>")
		case 6:
			extra = rawNode("<X.YZ>1</X.YZ>")
		case 7:
			extra = w("WIREXFERMSGSETV1", own[0].Kids)
		case 8:
			extra = rawNode("text")
		}
		n := 1 + x.Choose("times", 2)
		at := x.Choose("at", len(own)+1)
		for i := 0; i < n; i++ {
			place{set, at, true}.insert(extra)
		}
		text := d.WriteTree(&s.st, root)
		if r, err := parse(text); r != nil || err == nil {
			x.Note("document:\n%s", text)
			x.Fail("accepted", "a message set with a further %s is accepted", extra.Tag+extra.Raw)
		}
		x.State(text)
	}})
	// message sets and transactions
	table := map[string]map[string]bool{}
	for _, s := range model.Slots {
		table[s.Set+"RSV1"] = map[string]bool{}
	}
	for _, m := range model.Responses {
		table[m.Set+"V1"][m.Tag] = true
	}
	sets := append([]string{}, names...)
	sets = append(sets, "signupmsgsrsv1", "BANKMSGSRSV2", "BANKMSGSRS", "BANKMSGSRSV10", "TAX1099MSGSRSV1", "OFX", "SIGNONMSGSRSV2", "INTU.MSGSRSV1")
	sets = dedup(sets)
	c.Space(&explore.Space{Name: "sets", Body: func(x *explore.X) {
		s := styles[x.Choose("style", 2)]
		set := sets[x.Choose("set", len(sets))]
		d := newDoc(s.v)
		if set == "SIGNONMSGSRSV1" {
			x.Skip()
		}
		// what surrounds it
		around := x.Choose("around", 3)
		var before, after []*model.Node
		if around >= 1 {
			before = append(before, minimal(model.MsgByTag("STMTTRNRS")))
		}
		if around == 2 {
			after = append(after, minimal(model.MsgByTag("CCSTMTTRNRS")))
		}
		ok := table[set] != nil
		tag := ""
		var inner []*model.Node
		nt := len(names) + 1
		if !ok && !c.Thorough() {
			nt = 16
		}
		if k := x.Choose("transaction", nt); k > 0 {
			tag = names[k-1]
			if m := model.MsgByTag(tag); m != nil && !m.Request && tag != "SONRS" {
				inner = []*model.Node{minimal(m)}
			} else {
				inner = []*model.Node{rawNode("<" + tag + "><TRNUID>1</TRNUID></" + bare(tag) + ">")}
			}
			ok = ok && table[set][tag]
		}
		d.Msgs = append(append(append([]*model.Node{}, before...), after...))
		root := d.Tree()
		at := 1 + len(before)
		wrapped := model.Wrap(set, inner...)
		if tag != "" && ok {
			// the same kind of message in front changes indices
			d.Msgs = append(append(append([]*model.Node{}, before...), inner...), after...)
		}
		rest := append([]*model.Node{}, root.Kids[at:]...)
		root.Kids = append(append(root.Kids[:at:at], wrapped), rest...)
		text := d.WriteTree(&s.st, root)
		r, err := parse(text)
		if !ok {
			if r != nil || err == nil {
				x.Note("document:\n%s", text)
				x.Fail("accepted", "%s with transaction %s accepted", set, tag)
			}
			x.State("refused", text)
			return
		}
		compareParsed(x, d, text, r, err)
		x.Sample(text)
	}})
	// two transactions, the second or the third being unsupported
	c.Space(&explore.Space{Name: "later", Body: func(x *explore.X) {
		s := styles[x.Choose("style", 2)]
		m := model.Responses[x.Choose("message", len(model.Responses))]
		n := 1 + x.Choose("messages", 2)
		tag := names[x.Choose("transaction", len(names))]
		if table[m.Set+"V1"][tag] {
			x.Skip()
		}
		d := newDoc(s.v)
		for i := 0; i < n; i++ {
			g := &model.Gen{C: model.NoChoice{}}
			g.Seed(50 * i)
			d.Msgs = append(d.Msgs, g.Msg(m))
		}
		root := d.Tree()
		set := root.Kids[1]
		place{set, 1 + x.Choose("at", n), true}.insert(rawNode("<" + tag + "><A>1</A></" + bare(tag) + ">"))
		text := d.WriteTree(&s.st, root)
		if r, err := parse(text); r != nil || err == nil {
			x.Note("document:\n%s", text)
			x.Fail("accepted", "%s in %s accepted", tag, set.Tag)
		}
		x.State(text)
	}})
	// documents lacking the outer element or the signon
	c.Space(&explore.Space{Name: "outer", Body: func(x *explore.X) {
		s := styles[x.Choose("style", len(styles))]
		var msgs []*model.Node
		mi := x.Choose("message", len(model.Responses)+1)
		if mi > 0 {
			msgs = append(msgs, minimal(model.Responses[mi-1]))
		}
		d := newDoc(s.v, msgs...)
		root := d.Tree()
		son := root.Kids[0]
		render := func(ns ...*model.Node) string {
			st := s.st
			st.Header = "\x01"
			t := ""
			for _, n := range ns {
				t += strings.TrimPrefix(d.WriteTree(&st, n), "\x01")
			}
			return t
		}
		hdr := model.StdHeader(s.v, s.st.XML, "\n")
		text := ""
		// a document without its outer element starts with the signon
		switch x.Choose("defect", 22) {
		case 0:
			text = render(root.Kids...)
		case 1: // no signon
			root.Kids = root.Kids[1:]
			text = render(root)
		case 2: // the signon comes last
			if len(root.Kids) < 2 {
				x.Skip()
			}
			root.Kids = append(root.Kids[1:], son)
			text = render(root)
		case 3:
			son.Kids = nil
			text = render(root)
		case 4:
			root.Tag = "OFC"
			text = render(root)
		case 5:
			root.Tag = "ofx"
			text = render(root)
		case 6:
			son.Tag = "SIGNONMSGSRQV1"
			text = render(root)
		case 7:
			son.Kids[0].Tag = "SONRQ"
			text = render(root)
		case 8:
			son.Tag = "SIGNONMSGSRSV2"
			text = render(root)
		case 9:
			root.Kids = append([]*model.Node{rawNode("<UNKNOWN>1</UNKNOWN>")}, root.Kids...)
			text = render(root)
		case 10: // another transaction beside the signon
			son.Kids = append(son.Kids, rawNode("<PINCHTRNRS><TRNUID>1</TRNUID></PINCHTRNRS>"))
			text = render(root)
		case 11:
			son.Kids = append([]*model.Node{rawNode("<PINCHTRNRS><TRNUID>1</TRNUID></PINCHTRNRS>")}, son.Kids...)
			text = render(root)
		case 12:
			text = ""
		case 13:
			root.Kids = nil
			text = render(root)
		case 14: // the outer element is closed too early
			root.Kids = nil
			text = render(root) + render(d.Tree().Kids...)
		case 15: // the signon without its message set
			root.Kids[0] = son.Kids[0]
			text = render(root)
		case 16: // text in place of elements
			text = "<OFX>hello</OFX>"
		case 17:
			text = "hello" + render(root)
		case 18: // an element around
			text = render(model.Wrap("OFX", root))
		case 19:
			text = render(model.Wrap("UNKNOWN", root))
		case 20: // another root in front
			text = "<A></A>" + render(root)
		case 21: // text between message sets
			root.Kids = append(root.Kids, rawNode("hello"))
			text = render(root)
		}
		text = hdr + text
		r, err := parse(text)
		if r != nil || err == nil {
			x.Note("document:\n%s", text)
			x.Fail("accepted", "defective document accepted")
		}
		x.State(text)
	}})
}

// fullAt makes optional elements present or not.
type fullAt struct{ max bool }

// Dev takes the alternative for presence choices.
func (f *fullAt) Dev(label string, n int) int {
	if f.max && strings.HasPrefix(label, "opt ") {
		return 1
	}
	return 0
}

func dedup(in []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}
