package checks

import (
	"fmt"

	"github.com/aclindsa/ofxgo"
	"strings"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C01", "exhaustive exploration of bounded response shapes against a document model", "", c01)
	register("C02", "exhaustive exploration of bounded documents of an independent OFX grammar", "", c02)
}

// roundTrip marshals the response of a document and parses it back.
func roundTrip(x *explore.X, d *model.Doc) {
	if !d.Valid() {
		x.Skip()
	}
	r := d.BuildResponse()
	want := d.Canon()
	if diff := model.Diff(want, model.CanonResponse(r)); diff != "" {
		panic("model: construction differs: " + diff)
	}
	b, err := r.Marshal()
	if err != nil {
		x.Fail("marshal", "valid response refused: %v\n%s", err, strings.Join(want, "\n"))
	}
	text := b.String()
	if diff := model.Diff(want, model.CanonResponse(r)); diff != "" {
		x.Fail("mutated", "Marshal changed the response: %s", diff)
	}
	checkWritten(x, d, text, true, want)
	r2, err := parse(text)
	if err != nil || r2 == nil {
		x.Note("marshalled:\n%s", text)
		x.Fail("reparse", "marshalled response does not parse: %v", err)
	}
	if diff := model.Diff(want, model.CanonResponse(r2)); diff != "" {
		x.Note("marshalled:\n%s", text)
		x.Fail("roundtrip", "response changed: %s", diff)
	}
	x.State(text)
	x.Sample(text)
}

// checkWritten reads a marshalled document with the model's own reader.
func checkWritten(x *explore.X, d *model.Doc, text string, endTags bool, want model.Lines) {
	hdr, body, err := model.Split(text)
	if err != nil {
		x.Fail("wellformed", "%v:\n%s", err, text)
	}
	if err := model.CheckHeader(hdr, d.Version); err != nil {
		x.Fail("header", "%v:\n%s", err, hdr)
	}
	rd, err := model.ReadBody(body, d.Request, endTags)
	if err != nil {
		x.Fail("wellformed", "document not as specified: %v\n%s", err, text)
	}
	rd.Version = d.Version
	if diff := model.Diff(want, rd.Canon()); diff != "" {
		x.Fail("content", "document holds other data: %s\n%s", diff, text)
	}
}

func c01(c *Ctx) {
	c.Assume = append(c.Assume, "elements whose value is the type's zero value may be written or left out", "texts are compared without surrounding white space")
	deep := c.Thorough()
	// every message type, every element varied, every version
	for _, m := range model.Responses {
		m := m
		for _, max := range []bool{false, true} {
			max := max
			c.Space(&explore.Space{Name: fmt.Sprintf("whole/%s/max=%v", m.Tag, max), Bound: 1, Body: func(x *explore.X) {
				v := []int{220, 160}[x.Choose("version", 2)]
				g := &model.Gen{C: x, Max: max, Focus: "*", Deep: deep, Repeat: 1, Shape: max && !deep}
				n := g.Msg(m)
				if v < 220 {
					stripNewer(n)
				}
				roundTrip(x, newDoc(v, n))
			}})
		}
	}
	c.Space(&explore.Space{Name: "signon", Bound: 2, Body: func(x *explore.X) {
		v := versionsAll[x.Choose("version", len(versionsAll))]
		if !deep && v != 102 && v != 220 {
			x.Spend(1)
		}
		g := &model.Gen{C: x, Max: x.Choose("max", 2) == 1, Focus: "*", Deep: deep}
		d := newDoc(v)
		d.Signon = g.Signon(false)
		roundTrip(x, d)
	}})
	// all versions, pairs of messages, message order
	c.Space(&explore.Space{Name: "messages", Bound: c.Pick(2, 4), Body: func(x *explore.X) {
		v := versionsAll[x.Choose("version", len(versionsAll))]
		var msgs []*model.Node
		n := x.Choose("count", 4)
		u := 0
		for i := 0; i < n; i++ {
			m := model.Responses[(x.Dev("type", len(model.Responses))+i)%len(model.Responses)]
			g := &model.Gen{C: model.NoChoice{}, Max: x.Dev("max", 2) == 1}
			g.Seed(u)
			node := g.Msg(m)
			stripNewer(node)
			msgs = append(msgs, node)
			u += 300
		}
		d := newDoc(v, msgs...)
		d.Msgs = bySlot(d.Msgs)
		roundTrip(x, d)
	}})
	// every aggregate on its own with pairs of deviations
	c.focusSpaces(2, func(x *explore.X, d *model.Doc) { roundTrip(x, d) }, []int{220, 160})
	// values that are related to each other
	c.relations(model.Responses, func(x *explore.X, n *model.Node) {
		v := 220
		if c.Thorough() {
			v = []int{220, 160}[x.Choose("version", 2)]
		}
		if v < 220 {
			stripNewer(n)
		}
		roundTrip(x, newDoc(v, n))
	})
	// parts which are missing, as far as the message is valid without them
	c.lacking(model.Responses, func(x *explore.X, n *model.Node) {
		roundTrip(x, newDoc(220, n))
	})
	// long lists
	c.longLists(func(x *explore.X, n *model.Node) {
		roundTrip(x, newDoc(220, n))
	})
	c.longTexts(func(x *explore.X, n *model.Node) {
		roundTrip(x, newDoc(220, n))
	})
	c.Space(&explore.Space{Name: "huge", Workers: 3, Body: func(x *explore.X) {
		sizes := c.hugeSizes()
		n := sizes[x.Choose("size", len(sizes))]
		d := huge(x.Choose("kind", 2), n, true)
		want := d.Canon()
		b, err := d.BuildResponse().Marshal()
		if err != nil {
			x.Fail("marshal", "valid response of %d bytes refused: %v", n, err)
		}
		got, err := ofxgo.ParseResponse(b)
		if err != nil || got == nil {
			x.Fail("reparse", "marshalled response of %d bytes does not parse: %v", n, err)
		}
		if diff := model.Diff(want, model.CanonResponse(got)); diff != "" {
			x.Fail("roundtrip", "response of %d bytes changed: %s", n, clipN(diff, 400))
		}
		x.State(fmt.Sprint(n), fmt.Sprint(len(want)))
	}})
}

// focusSpaces explores each distinct aggregate with pairs of deviations.
func (c *Ctx) focusSpaces(bound int, f func(*explore.X, *model.Doc), versions []int) {
	for _, m := range model.Responses {
		m := m
		for _, p := range focusPaths(m, c.Thorough()) {
			p := p
			c.Space(&explore.Space{Name: "focus/" + p, Bound: bound, Body: func(x *explore.X) {
				g := &model.Gen{C: x, Focus: p, Repeat: 1, Deep: c.Thorough()}
				focusMode(x, g, c)
				n := g.Msg(m)
				v := versions[0]
				if !c.Thorough() && len(versions) > 1 {
					// the version alternates with the shape
					v = versions[model.Leaves(n)%len(versions)]
				} else {
					v = versions[x.Choose("version", len(versions))]
				}
				if v < 220 {
					stripNewer(n)
				}
				f(x, newDoc(v, n))
			}})
			if c.Stop() {
				return
			}
		}
	}
}

// bySlot sorts messages by message set, keeping their order within sets.
func bySlot(in []*model.Node) (out []*model.Node) {
	for _, s := range model.Slots {
		for _, n := range in {
			if model.MsgByTag(n.Tag).Slot == s.Field {
				out = append(out, n)
			}
		}
	}
	return
}

// stripNewer removes what only OFX 2.2 allows.
func stripNewer(n *model.Node) {
	var kids []*model.Node
	for _, k := range n.Kids {
		if k.Tag == "BANKTRANLISTP" || k.Tag == "IMAGEDATA" {
			continue
		}
		stripNewer(k)
		kids = append(kids, k)
	}
	n.Kids = kids
}

var styles = []model.Style{
	{XML: true, Sep: "\r\n", Indent: true, HdrSep: "\r\n"},
	{Sep: "\n"},
	{EndTags: true, Sep: "", Esc: 4},
	{XML: true, Sep: "", Esc: 2},
	{EndTags: true, Sep: "\r\n", Indent: true, Esc: 3, NL: "\r\n"},
}
var styleVersions = []int{220, 103, 160, 211, 102}

func parseStyled(x *explore.X, d *model.Doc, style int) {
	st := styles[style]
	d.Version = styleVersions[style]
	text := d.Write(&st)
	r, err := parse(text)
	compareParsed(x, d, text, r, err)
	x.Sample(text)
}

func c02(c *Ctx) {
	c.Assume = append(c.Assume, "texts are UTF-8; an absent optional element and one holding the type's zero value are not told apart where the Go field cannot")
	deep := c.Thorough()
	for _, m := range model.Responses {
		m := m
		for _, max := range []bool{false, true} {
			max := max
			c.Space(&explore.Space{Name: fmt.Sprintf("whole/%s/max=%v", m.Tag, max), Bound: 1, Body: func(x *explore.X) {
				s := x.Choose("style", c.Pick(3, 5))
				g := &model.Gen{C: x, Max: max, Focus: "*", Deep: deep, Repeat: 1, Shape: max && !deep}
				parseStyled(x, newDoc(0, g.Msg(m)), s)
			}})
		}
	}
	c.Space(&explore.Space{Name: "signon", Bound: 2, Body: func(x *explore.X) {
		s := x.Choose("style", 5)
		if !deep && s > 1 {
			x.Spend(1)
		}
		g := &model.Gen{C: x, Max: x.Choose("max", 2) == 1, Focus: "*", Deep: deep}
		d := newDoc(0)
		d.Signon = g.Signon(false)
		parseStyled(x, d, s)
	}})
	c.Space(&explore.Space{Name: "messages", Bound: c.Pick(2, 4), Body: func(x *explore.X) {
		s := x.Choose("style", 3)
		var msgs []*model.Node
		n := x.Choose("count", 4)
		for i := 0; i < n; i++ {
			m := model.Responses[(x.Dev("type", len(model.Responses))+i)%len(model.Responses)]
			g := &model.Gen{C: model.NoChoice{}, Max: x.Dev("max", 2) == 1}
			g.Seed(300 * i)
			msgs = append(msgs, g.Msg(m))
		}
		// message sets in any order
		parseStyled(x, newDoc(0, msgs...), s)
	}})
	// members of typed lists: every kind and every ordered pair
	for _, m := range model.Responses {
		m := m
		for _, lp := range listPaths(m) {
			lp := lp
			c.Space(&explore.Space{Name: "list/" + lp, Bound: c.Pick(2, 3), Body: func(x *explore.X) {
				s := x.Choose("style", c.Pick(2, 5))
				g := &model.Gen{C: x, Max: true, Focus: lp, Shape: true, Repeat: 1, Lens: c.Pick(2, 4)}
				parseStyled(x, newDoc(0, g.Msg(m)), s)
			}})
		}
	}
	bound := 2
	for _, m := range model.Responses {
		m := m
		for _, p := range focusPaths(m, c.Thorough()) {
			p := p
			c.Space(&explore.Space{Name: "focus/" + p, Bound: bound, Body: func(x *explore.X) {
				g := &model.Gen{C: x, Focus: p, Repeat: 1, Deep: c.Thorough()}
				focusMode(x, g, c)
				n := g.Msg(m)
				s := 0
				if c.Thorough() {
					s = x.Choose("style", 5)
				} else {
					s = model.Leaves(n) % 5
				}
				parseStyled(x, newDoc(0, n), s)
			}})
			if c.Stop() {
				return
			}
		}
	}
	// values that are related to each other
	c.relations(model.Responses, func(x *explore.X, n *model.Node) {
		s := len(n.Kids) % 2
		if c.Thorough() {
			s = x.Choose("style", 2)
		}
		parseStyled(x, newDoc(0, n), s)
	})
	// parts which are missing
	c.lacking(model.Responses, func(x *explore.X, n *model.Node) {
		parseStyled(x, newDoc(0, n), len(n.Kids)%2)
	})
	// long lists
	c.longLists(func(x *explore.X, n *model.Node) {
		parseStyled(x, newDoc(0, n), x.Choose("style", 2))
	})
	c.longTexts(func(x *explore.X, n *model.Node) {
		parseStyled(x, newDoc(0, n), x.Choose("style", 2))
	})
	c.Space(&explore.Space{Name: "huge", Workers: 3, Body: func(x *explore.X) {
		sizes := c.hugeSizes()
		n := sizes[x.Choose("size", len(sizes))]
		k := x.Choose("kind", hugeKinds)
		st := styles[x.Choose("style", 2)]
		d := huge(k, n, st.XML)
		got, err := parse(d.Write(&st))
		if err != nil || got == nil {
			x.Fail("refused", "document of %d bytes (kind %d): %v", n, k, err)
		}
		if diff := model.Diff(d.Canon(), model.CanonResponse(got)); diff != "" {
			x.Fail("data", "document of %d bytes (kind %d): %s", n, k, clipN(diff, 400))
		}
		x.State(fmt.Sprint(n, k, st.XML))
	}})
}

// listPaths lists the aggregates holding typed lists.
func listPaths(m *model.Msg) []string {
	switch m.Tag {
	case "INVSTMTTRNRS":
		return []string{"INVSTMTTRNRS", "INVSTMTTRNRS/INVSTMTRS/INVTRANLIST"}
	case "SECLIST":
		return []string{"SECLIST"}
	case "PROFTRNRS":
		return []string{"PROFTRNRS", "PROFTRNRS/PROFRS/MSGSETLIST"}
	}
	return nil
}

// focusMode chooses what varies: pairs of shape deviations of the minimal or
// maximal aggregate, or single value deviations of the maximal one.
func focusMode(x *explore.X, g *model.Gen, c *Ctx) {
	switch x.Choose("mode", 3) {
	case 0:
		g.Shape = true
	case 1:
		g.Shape, g.Max = true, true
	case 2:
		g.Max, g.Content = true, true
		if !c.Thorough() {
			x.Spend(1)
		}
	}
}
