package model

import (
	"fmt"
	"strings"
)

// Chooser resolves the choices of the generator.
type Chooser interface {
	Dev(label string, n int) int
}

// Gen generates abstract documents.
type Gen struct {
	C       Chooser
	Max     bool   // optional elements are present by default
	Focus   string // path of the aggregate whose elements vary ("*": all)
	Deep    bool
	Repeat  int  // default length of lists in Max mode (0: 2)
	Lens    int  // longest list
	Content bool // vary only the values of leaves
	Shape   bool // vary only the presence of elements and list lengths
	u       int
}

// NoChoice takes every default.
type NoChoice struct{}

// Dev returns 0.
func (NoChoice) Dev(string, int) int { return 0 }

func (g *Gen) next() int { g.u++; return g.u - 1 }

func (g *Gen) active(path string) bool { return g.Focus == "*" || g.Focus == path }

func (g *Gen) onPath(path string) bool {
	return g.Focus == path || strings.HasPrefix(g.Focus, path+"/")
}

// exclusive elements: by default only the first of each pair is present.
var exclusive = map[string]string{"PAYEE": "NAME", "CCACCTTO": "BANKACCTTO", "ORIGCURRENCY": "CURRENCY", "USERKEY": "USERPASS"}

func (g *Gen) kids(n *Node, kids []*Elem, path string) {
	act := g.active(path)
	for _, e := range kids {
		if e.Kind == Flat {
			k := &Node{E: e, Tag: e.Tag}
			g.flat(k, e, path+"/"+e.Tag, act)
			if len(k.Kids) > 0 {
				n.Kids = append(n.Kids, k)
			}
			continue
		}
		g.elem(n, e, kids, path, act)
	}
}

func (g *Gen) flat(n *Node, e *Elem, path string, act bool) {
	for _, k := range e.Kids {
		if k.Kind == Flat {
			c := &Node{E: k, Tag: k.Tag}
			g.flat(c, k, path+"/"+k.Tag, act || g.active(path))
			if len(c.Kids) > 0 {
				n.Kids = append(n.Kids, c)
			}
			continue
		}
		g.elem(n, k, e.Kids, path, act || g.active(path))
	}
}

func has(n *Node, tag string) bool { return n.Find(tag) != nil }

func (g *Gen) elem(n *Node, e *Elem, sib []*Elem, path string, act bool) {
	p := path + "/" + e.Tag
	forced := g.Focus != "*" && g.Focus != "" && g.onPath(p) && (e.Kind >= Agg)
	if e.Kind == Poly && e.Tag == "" {
		forced = false
		for _, m := range e.Members {
			if g.Focus != "*" && g.Focus != "" && g.onPath(path+"/"+m.Tag) {
				forced = true
			}
		}
	}
	optional := e.Opt
	def := g.Max || !optional
	if x, ok := exclusive[e.Tag]; ok && has(n, x) {
		def = false
		if !act && !forced {
			// exclusive elements never come together by default
			if !optional {
				def = true
			}
		}
	}
	if e.Tag == "USERPASS" {
		def = true
	}
	vary := act && !g.Content
	if e.List || e.Kind == Poly || e.Kind == MsgSets {
		defLen := 0
		if def {
			defLen = g.Repeat
			if defLen == 0 {
				defLen = 2
			}
			if !g.Max {
				defLen = 1
			}
			if optional && !g.Max {
				defLen = 0
			}
		}
		if forced && defLen == 0 {
			defLen = 1
		}
		ln := defLen
		if vary {
			max := g.Lens
			if max == 0 {
				max = 3
			}
			min := 0
			if forced {
				min = 1
			}
			opts := []int{defLen}
			for l := min; l <= max; l++ {
				if l != defLen {
					opts = append(opts, l)
				}
			}
			ln = opts[g.C.Dev("len "+p, len(opts))]
		}
		g.list(n, e, p, path, ln, vary)
		return
	}
	present := def || forced
	if vary && optional && !forced {
		present = (g.C.Dev("opt "+p, 2) == 1) != present
	}
	if !present {
		return
	}
	k := &Node{E: e, Tag: e.Tag}
	if e.Leaf() {
		g.leaf(k, e, p, act)
	} else {
		g.agg(k, e, p)
	}
	n.Kids = append(n.Kids, k)
}

func (g *Gen) agg(k *Node, e *Elem, p string) {
	if e.Tag == "STATUS" {
		g.status(k, e, p)
		return
	}
	g.kids(k, e.Kids, p)
}

var statusPairs = [][2]string{{"0", "INFO"}, {"2000", "ERROR"}, {"15000", "INFO"}, {"12250", "WARN"}, {"15500", "ERROR"}, {"1", "INFO"}}

func (g *Gen) status(k *Node, e *Elem, p string) {
	i := 0
	if g.active(p) && !g.Shape {
		i = g.C.Dev("status", len(statusPairs))
	}
	row := statusPairs[i]
	c := amt(row[0]).V.R.Num().Int64()
	if r, ok := StatusByCode[c]; !ok || r.Severity != row[1] {
		panic("model: bad status pair " + row[0])
	}
	k.Kids = append(k.Kids, &Node{E: e.Kids[0], Tag: "CODE", Text: row[0], V: Val{I: c}}, &Node{E: e.Kids[1], Tag: "SEVERITY", Text: row[1], V: Val{S: row[1]}})
	g.elem(k, e.Kids[2], e.Kids, p, g.active(p))
}

func (g *Gen) leaf(k *Node, e *Elem, p string, act bool) {
	u := g.next()
	lv := Default(e, u)
	if act && !g.Shape {
		alts := Alphabet(e, u, g.Deep)
		if i := g.C.Dev("val "+p, len(alts)+1); i > 0 {
			lv = alts[i-1]
		}
	}
	k.Text, k.V = lv.Text, lv.V
}

// MsgSetNames are the names used in MSGSETLIST.
var MsgSetNames = []string{"SIGNONMSGSET", "BANKMSGSET", "PROFMSGSET", "INVSTMTMSGSET"}

func (g *Gen) list(n *Node, e *Elem, p, path string, ln int, vary bool) {
	switch {
	case e.Kind == Poly:
		at := n
		base := path
		if e.Tag != "" {
			if ln == 0 && !g.Max {
				return
			}
			at = &Node{E: e, Tag: e.Tag}
			base = p
		}
		only := -1
		if g.Focus != "*" {
			for i, m := range e.Members {
				if g.onPath(base + "/" + m.Tag) {
					only = i
				}
			}
		}
		for i := 0; i < ln; i++ {
			mi := i % len(e.Members)
			if only >= 0 {
				mi = only
				if i > 0 {
					mi = (only + i) % len(e.Members)
				}
			} else if vary {
				mi = (g.C.Dev(fmt.Sprintf("kind %s %d", p, i), len(e.Members)) + i) % len(e.Members)
			}
			m := e.Members[mi]
			k := &Node{E: m.Elem(), Tag: m.Tag}
			save := g.Focus
			if only >= 0 && i > 0 {
				g.Focus = ""
			}
			g.kids(k, m.Kids, base+"/"+m.Tag)
			g.Focus = save
			at.Kids = append(at.Kids, k)
		}
		if e.Tag != "" {
			n.Kids = append(n.Kids, at)
		}
	case e.Kind == MsgSets:
		at := &Node{E: e, Tag: e.Tag}
		for i := 0; i < ln; i++ {
			name := MsgSetNames[i%len(MsgSetNames)]
			set := &Node{E: &Elem{Tag: name, Kind: Flat}, Tag: name}
			v1 := &Node{E: &Elem{Tag: name + "V1", Kind: Agg, Kids: e.Kids}, Tag: name + "V1"}
			g.kids(v1, e.Kids, p)
			set.Kids = []*Node{v1}
			at.Kids = append(at.Kids, set)
		}
		n.Kids = append(n.Kids, at)
	default:
		for i := 0; i < ln; i++ {
			k := &Node{E: e, Tag: e.Tag}
			if e.Leaf() {
				g.leaf(k, e, p, g.active(path))
			} else {
				save := g.Focus
				if i > 0 && g.Focus != "*" && g.onPath(p) {
					g.Focus = ""
				}
				g.agg(k, e, p)
				g.Focus = save
			}
			n.Kids = append(n.Kids, k)
		}
	}
}

// Msg generates a message.
func (g *Gen) Msg(m *Msg) *Node {
	n := &Node{E: m.Elem(), Tag: m.Tag}
	g.kids(n, m.Kids, m.Tag)
	return n
}

// Aggregates lists the paths of all aggregates of a message; with unique, only
// the first path of each distinct aggregate.
func Aggregates(m *Msg, unique bool) []string {
	var out []string
	seen := map[**Elem]bool{}
	var walk func(kids []*Elem, path string)
	walk = func(kids []*Elem, path string) {
		for _, e := range kids {
			p := path + "/" + e.Tag
			switch e.Kind {
			case Flat:
				walk(e.Kids, p)
			case Agg, MsgSets:
				if unique && seen[&e.Kids[0]] {
					continue
				}
				seen[&e.Kids[0]] = true
				out = append(out, p)
				walk(e.Kids, p)
			case Poly:
				base := p
				if e.Tag == "" {
					base = path
				}
				for _, mm := range e.Members {
					if unique && seen[&mm.Kids[0]] {
						continue
					}
					seen[&mm.Kids[0]] = true
					out = append(out, base+"/"+mm.Tag)
					walk(mm.Kids, base+"/"+mm.Tag)
				}
			}
		}
	}
	out = append(out, m.Tag)
	walk(m.Kids, m.Tag)
	return out
}

// Signon generates the signon of a document.
func (g *Gen) Signon(request bool) *Node {
	m := SignonRs
	if request {
		m = SignonRq
	}
	return g.Msg(m)
}

// SimpleSignon is the signon used when it is not varied.
func SimpleSignon(request bool) *Node {
	g := &Gen{C: NoChoice{}}
	g.u = 700
	return g.Signon(request)
}

// Seed sets the counter distinguishing default values.
func (g *Gen) Seed(u int) { g.u = u }
