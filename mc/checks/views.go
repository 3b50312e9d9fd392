package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C31", "exhaustive exploration of bounded list members and messages; each generic view compared with the document model", "", c31)
	register("C32", "exhaustive exploration of bounded responses with defects anywhere: written exactly if valid", "", c32)
}

// commonPart names the element a view of a list member is about.
var commonPart = map[reflect.Type]string{
	reflect.TypeOf(ofxgo.InvTran{}): "INVTRAN", reflect.TypeOf(ofxgo.InvPosition{}): "INVPOS", reflect.TypeOf(ofxgo.SecInfo{}): "SECINFO",
}

var viewNames = map[string]bool{"TransactionType": true, "InvTransaction": true, "PositionType": true, "InvPosition": true, "OrderType": true, "SecurityType": true, "SecurityInfo": true}

// commonElem finds an element of a member kind.
func commonElem(kids []*model.Elem, tag string) *model.Elem {
	for _, e := range kids {
		if e.Tag == tag {
			return e
		}
	}
	for _, e := range kids {
		if e.Kind == model.Agg || e.Kind == model.Flat {
			if k := commonElem(e.Kids, tag); k != nil {
				return k
			}
		}
	}
	return nil
}

func findNode(n *model.Node, e *model.Elem) *model.Node {
	for _, k := range n.Kids {
		if k.E == e {
			return k
		}
		if f := findNode(k, e); f != nil {
			return f
		}
	}
	return nil
}

// checkViews compares the generic views of a member with its element. Two of
// them must agree; views may be asked again.
func checkViews(x *explore.X, where string, v reflect.Value, kids []*model.Elem, n *model.Node) {
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	seen := 0
	for i := 0; i < v.NumMethod(); i++ {
		mt := v.Type().Method(i)
		if !viewNames[mt.Name] || mt.Type.NumIn() != 1 || mt.Type.NumOut() != 1 {
			continue
		}
		out := v.Method(i).Call(nil)[0]
		part, isPart := commonPart[out.Type()]
		switch {
		case out.Kind() == reflect.String:
			seen++
			if out.String() != n.Tag {
				x.Fail("kind", "%s: %s of %s is %q", where, mt.Name, n.Tag, out.String())
			}
		case isPart:
			seen++
			e := commonElem(kids, part)
			if e == nil {
				x.Fail("part", "%s: %s has a view of %s", where, n.Tag, part)
			}
			var want, got model.Lines
			if k := findNode(n, e); k != nil {
				model.CanonNode(k, e.Kids, part, &want)
			}
			model.CanonGo(out, e.Kids, part, &got)
			if diff := model.Diff(want, got); diff != "" {
				x.Fail("part", "%s: %s of %s: %s", where, mt.Name, n.Tag, diff)
			}
		}
	}
	if seen == 0 {
		panic("model: no views of " + n.Tag)
	}
}

// walkViews checks the members of the typed lists of a message.
func walkViews(x *explore.X, where string, v reflect.Value, kids []*model.Elem, n *model.Node) int {
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	count := 0
	for _, e := range kids {
		switch {
		case e.Kind == model.Poly:
			list := v.FieldByName(e.Field)
			if list.Kind() == reflect.Ptr {
				if list.IsNil() {
					continue
				}
				list = list.Elem()
			}
			var members []*model.Node
			from := []*model.Node{n}
			if e.Tag != "" {
				from = kidsOf(n, e.Tag)
			}
			for _, p := range from {
				for _, k := range p.Kids {
					if memberKind(e, k.Tag) != nil {
						members = append(members, k)
					}
				}
			}
			if list.Len() != len(members) {
				x.Fail("members", "%s: %d members of %s, expected %d", where, list.Len(), e.Field, len(members))
			}
			for i, k := range members {
				checkViews(x, fmt.Sprintf("%s %s[%d]", where, e.Field, i), list.Index(i), memberKind(e, k.Tag).Kids, k)
				count++
			}
		case e.Kind == model.Flat:
			if k := n.Find(e.Tag); k != nil {
				count += walkViews(x, where, v, e.Kids, k)
			}
		case e.Kind == model.Agg && !e.List:
			k := n.Find(e.Tag)
			f := v.FieldByName(e.Field)
			if k == nil || f.Kind() == reflect.Ptr && f.IsNil() {
				continue
			}
			count += walkViews(x, where, f, e.Kids, k)
		}
	}
	return count
}

func memberKind(e *model.Elem, tag string) *model.Member {
	for _, m := range e.Members {
		if m.Tag == tag {
			return m
		}
	}
	return nil
}

// checkMessages checks what the messages of a response or request say about
// themselves, and the views of the members of their lists.
func checkMessages(x *explore.X, d *model.Doc, r interface{}, where string) {
	v := reflect.ValueOf(r).Elem()
	for _, s := range model.Slots {
		f := v.FieldByName(s.Field)
		i := 0
		for _, n := range d.Msgs {
			m := model.MsgByTag(n.Tag)
			if m.Slot != s.Field {
				continue
			}
			if i >= f.Len() {
				x.Fail("members", "%s: %s lacks message %d", where, s.Field, i)
			}
			msg := f.Index(i).Interface().(ofxgo.Message)
			if msg.Name() != n.Tag {
				x.Fail("name", "%s: %s[%d] of element %s calls itself %q", where, s.Field, i, n.Tag, msg.Name())
			}
			if t := msg.Type().String(); t != m.Set+"V1" {
				x.Fail("set", "%s: %s[%d] says it belongs to %s, not %s", where, s.Field, i, t, m.Set)
			}
			var lines model.Lines
			model.CanonNode(n, m.Kids, "", &lines)
			members := 0
			for _, l := range lines {
				if strings.HasSuffix(l, "={}") && strings.Contains(l[strings.LastIndexByte(l, '/')+1:], ":") {
					members++
				}
			}
			if got := walkViews(x, fmt.Sprintf("%s %s[%d]", where, s.Field, i), f.Index(i), m.Kids, n); got != members {
				panic(fmt.Sprintf("model: views of %d members of %d checked", got, members))
			}
			i++
		}
	}
}

func c31(c *Ctx) {
	c.Assume = append(c.Assume, "changing a view's pointers is the caller's affair")
	both := func(x *explore.X, n *model.Node) {
		v := []int{220, 160}[x.Choose("version", 2)]
		d := newDoc(v, n)
		r := d.BuildResponse()
		checkMessages(x, d, r, "built")
		st := &styles[0]
		if v < 200 {
			st = &styles[1]
		}
		p, err := parse(d.Write(st))
		if p == nil {
			x.Fail("refused", "%v", err)
		}
		checkMessages(x, d, p, "parsed")
		if diff := model.Diff(model.CanonResponse(r), model.CanonResponse(p)); diff != "" {
			x.Fail("changed", "%s", diff)
		}
		x.State(strings.Join(model.CanonResponse(p), "\n"))
	}
	for _, m := range model.Responses {
		m := m
		for _, max := range []bool{false, true} {
			max := max
			c.Space(&explore.Space{Name: fmt.Sprintf("whole/%s/max=%v", m.Tag, max), Bound: 1, Body: func(x *explore.X) {
				g := &model.Gen{C: x, Max: max, Focus: "*", Deep: c.Thorough(), Repeat: 1}
				both(x, g.Msg(m))
			}})
		}
		if len(listPaths(m)) == 0 {
			continue
		}
		for _, p := range model.Aggregates(m, false) {
			p := p
			in := false
			for _, lp := range listPaths(m) {
				in = in || strings.HasPrefix(p, lp+"/")
			}
			if !in {
				continue
			}
			c.Space(&explore.Space{Name: "focus/" + p, Bound: c.Pick(1, 2), Body: func(x *explore.X) {
				g := &model.Gen{C: x, Focus: p, Repeat: 1, Deep: c.Thorough(), Max: x.Choose("max", 2) == 1}
				both(x, g.Msg(m))
			}})
		}
		if c.Stop() {
			return
		}
	}
	quiet := func(x *explore.X, n *model.Node) {
		d := newDoc(220, n)
		r := d.BuildResponse()
		checkMessages(x, d, r, "built")
		x.State(strings.Join(model.CanonResponse(r), "\n"))
	}
	var lists []*model.Msg
	for _, m := range model.Responses {
		if len(listPaths(m)) > 0 {
			lists = append(lists, m)
		}
	}
	c.relations(lists, quiet)
	c.longLists(quiet)
	c.longTexts(quiet)
	// the message sets themselves, before and after they have been used
	own := ownMessages()
	c.Space(&explore.Space{Name: "sets", Body: func(x *explore.X) {
		i, j := x.Choose("first", len(own)), x.Choose("second", len(own))
		for _, o := range []ownMessage{own[i], own[j], own[i]} {
			if s := o.mk("1").Type().String(); s != o.set {
				x.Fail("set", "the constant of %s calls itself %q", o.set, s)
			}
		}
		if (own[i].mk("1").Type() == own[j].mk("1").Type()) != (i == j) {
			x.Fail("set", "the constants of %s and %s are the same", own[i].set, own[j].set)
		}
		x.State(own[i].set, own[j].set)
	}})
	// requests
	for _, m := range model.Requests {
		m := m
		c.Space(&explore.Space{Name: "requests/" + m.Tag, Bound: c.Pick(2, 3), Body: func(x *explore.X) {
			d := newReqDoc(versionsAll[x.Choose("version", len(versionsAll))])
			g := &model.Gen{C: x, Max: x.Choose("max", 2) == 1, Focus: "*"}
			d.Msgs = append(d.Msgs, g.Msg(m))
			r := d.BuildRequest()
			checkMessages(x, d, r, "request")
			x.State(fmt.Sprint(d.Version), strings.Join(model.CanonResponse(r), "\n"))
		}})
	}
}

// writtenIfValid marshals a response: exactly valid ones are written.
func writtenIfValid(x *explore.X, r *ofxgo.Response, what string) {
	before := model.CanonResponse(r)
	ok, verr := r.Valid()
	b, err := r.Marshal()
	if diff := model.Diff(before, model.CanonResponse(r)); diff != "" {
		x.Fail("mutated", "%s: Marshal or Valid changed the response: %s", what, diff)
	}
	if !ok {
		if err == nil {
			x.Fail("written", "%s: an invalid response (%v) is written:\n%s", what, verr, clipN(b.String(), 3000))
		}
		if b != nil && b.Len() > 0 {
			x.Fail("partial", "%s: a part of an invalid response is returned besides %v", what, err)
		}
		if err.Error() == "" {
			x.Fail("message", "%s: no message", what)
		}
		return
	}
	if err != nil || b == nil {
		x.Fail("refused", "%s: a valid response is refused: %v", what, err)
	}
	text := b.String()
	again, err := parse(text)
	if err != nil || again == nil {
		x.Fail("reparse", "%s: the written response does not parse: %v\n%s", what, err, clipN(text, 3000))
	}
	if diff := model.Diff(before, model.CanonResponse(again)); diff != "" {
		x.Fail("roundtrip", "%s: %s\n%s", what, diff, clipN(text, 3000))
	}
}

func c32(c *Ctx) {
	c.Assume = append(c.Assume, "texts hold what XML can represent; validity is what Valid says (which C07 decides)")
	judge := func(x *explore.X, d *model.Doc, st *model.Style) {
		if st == nil {
			r := d.BuildResponse()
			writtenIfValid(x, r, "built")
			x.State(strings.Join(d.Canon(), "\n"))
			return
		}
		r, err := parse(d.Write(st))
		if r == nil {
			x.Fail("parse", "%v", err)
		}
		writtenIfValid(x, r, "parsed")
		x.State(strings.Join(d.Canon(), "\n"))
	}
	for _, m := range append([]*model.Msg{model.SignonRs}, model.Responses...) {
		m := m
		for _, max := range []bool{false, true} {
			max := max
			bound := 1
			if m.Tag == "STMTTRNRS" || m.Tag == "SONRS" {
				bound = 2
			}
			if c.Thorough() && m.Tag != "INVSTMTTRNRS" {
				bound++
			}
			c.Space(&explore.Space{Name: fmt.Sprintf("defects/%s/max=%v", m.Tag, max), Bound: bound, Body: func(x *explore.X) {
				d := newDoc([]int{220, 160}[x.Choose("version", 2)])
				var n *model.Node
				if m == model.SignonRs {
					d.Signon = (&model.Gen{C: model.NoChoice{}, Max: max}).Signon(false)
					n = d.Signon
				} else {
					n = minimal(m)
					if max {
						n = maximal(m)
					}
					d.Msgs = append(d.Msgs, n)
				}
				alter(x, n, m.Tag, false)
				if m.Tag == "SONRS" && len(n.Kids) == 0 {
					x.Skip()
				}
				judge(x, d, nil)
			}})
			if c.Stop() {
				return
			}
		}
		if m == model.SignonRs {
			continue
		}
		// read from documents in every style
		for _, p := range focusPaths(m, c.Thorough()) {
			p := p
			c.Space(&explore.Space{Name: "read/" + p, Bound: c.Pick(1, 2), Body: func(x *explore.X) {
				s := x.Choose("style", len(styles))
				g := &model.Gen{C: x, Focus: p, Repeat: 1, Max: x.Choose("max", 2) == 1, Shape: !c.Thorough()}
				d := newDoc(styleVersions[s], g.Msg(m))
				judge(x, d, &styles[s])
			}})
			if c.Stop() {
				return
			}
		}
	}
	// which message of several is the invalid one
	spoil := func(x *explore.X, n *model.Node) bool {
		k := n.Find("TRNUID")
		if k == nil {
			return false
		}
		switch x.Dev("defect", 4) {
		case 1:
			n.Remove("TRNUID")
		case 2:
			retext(k, strings.Repeat("u", 37))
		case 3:
			if s := n.Find("STATUS"); s != nil {
				s.Remove("SEVERITY")
			}
		}
		return true
	}
	c.Space(&explore.Space{Name: "positions", Bound: c.Pick(3, 4), Body: func(x *explore.X) {
		d := newDoc([]int{220, 103}[x.Choose("version", 2)])
		count := 1 + x.Choose("count", 4)
		for i := 0; i < count; i++ {
			m := model.Responses[(x.Dev("type", len(model.Responses))+i)%len(model.Responses)]
			g := &model.Gen{C: model.NoChoice{}}
			g.Seed(100 * i)
			n := g.Msg(m)
			spoil(x, n)
			d.Msgs = append(d.Msgs, n)
		}
		d.Msgs = bySlot(d.Msgs)
		if k := x.Dev("signon", 3); k > 0 {
			if k == 1 {
				retext(d.Signon.Find("LANGUAGE"), "ENGL")
			} else {
				d.Signon.Remove("STATUS")
			}
		}
		judge(x, d, nil)
	}})
	c.Space(&explore.Space{Name: "many", Body: func(x *explore.X) {
		ns := append([]int{2, 3, 10, 33, 64, 65, 100}, litSizes(200)...)
		n := ns[x.Choose("count", len(ns))]
		if n == 0 {
			x.Skip()
		}
		bad := x.Choose("bad", n+1)
		m := model.Responses[x.Choose("type", len(model.Responses))]
		d := newDoc(220)
		for i := 0; i < n; i++ {
			g := &model.Gen{C: model.NoChoice{}}
			g.Seed(10 * i)
			k := g.Msg(m)
			if i == bad {
				k.Remove("TRNUID")
			}
			d.Msgs = append(d.Msgs, k)
		}
		judge(x, d, nil)
	}})
	// message sets of names which a profile can or cannot hold: all are
	// written, or nothing is
	setNames := []string{"BANKMSGSETV1", "SIGNUPMSGSETV1", "AV1", "DRIVV1", "LOT11V1", "", "X", "V1", "BANKMSGSET", "BANKMSGSETV2", "bankmsgsetv1", "BANKMSGSETV1V1", "BANKMSGSETV"}
	c.Space(&explore.Space{Name: "set names", Body: func(x *explore.X) {
		d := newDoc(203, maximal(model.Responses[len(model.Responses)-1]))
		for _, m := range model.Responses {
			if m.Tag == "PROFTRNRS" {
				d = newDoc(203, maximal(m))
			}
		}
		r := d.BuildResponse()
		p := r.Prof[0].(*ofxgo.ProfileResponse)
		some := p.MessageSetList[0]
		p.MessageSetList = nil
		var names []string
		odd := false
		for i, n := 0, 1+x.Choose("count", c.Pick(2, 3)); i < n; i++ {
			k := x.Choose("name", len(setNames))
			odd = odd || k > 4
			one := some
			one.Name = setNames[k]
			one.SpName = ofxgo.String(fmt.Sprint("provider ", i))
			names = append(names, one.Name+" "+string(one.SpName))
			p.MessageSetList = append(p.MessageSetList, one)
		}
		b, err := r.Marshal()
		if err != nil {
			if !odd {
				x.Fail("refused", "message sets %q: %v", names, err)
			}
			if b != nil && b.Len() > 0 {
				x.Fail("partial", "message sets %q: a part is returned besides %v", names, err)
			}
			x.State(names...)
			return
		}
		for _, s := range p.MessageSetList {
			if base := strings.TrimSuffix(s.Name, "V1"); !odd && !strings.Contains(b.String(), "<"+base+">") {
				x.Note("%s", b)
				x.Fail("element", "message set %s stands in no element %s", s.Name, base)
			}
		}
		again, err := parse(b.String())
		if err != nil || again == nil || len(again.Prof) != 1 {
			x.Fail("reparse", "message sets %q: what is written does not parse: %v", names, err)
		}
		var got []string
		for _, s := range again.Prof[0].(*ofxgo.ProfileResponse).MessageSetList {
			got = append(got, s.Name+" "+string(s.SpName))
		}
		if strings.Join(got, "\n") != strings.Join(names, "\n") {
			x.Fail("lost", "message sets %q are written as %q", names, got)
		}
		x.State(names...)
	}})
	// versions which do not exist, and all others
	c.Space(&explore.Space{Name: "versions", Body: func(x *explore.X) {
		vs := []uint64{}
		for i := uint64(0); i < 300; i++ {
			vs = append(vs, i)
		}
		vs = append(vs, 1<<16, 1<<16+4, 1<<32, 1<<32+4, 1<<62)
		k := vs[x.Choose("version", len(vs))]
		m := model.Responses[x.Choose("message", len(model.Responses))]
		d := newDoc(203, minimal(m))
		r := d.BuildResponse()
		reflect.ValueOf(r).Elem().FieldByName("Version").SetUint(k)
		name := model.EnumOf("ofxVersion").NameOf(uint(k))
		if name != "" {
			writtenIfValid(x, r, name)
		} else if b, err := r.Marshal(); err == nil || b != nil && b.Len() > 0 {
			x.Fail("version", "version %d is written: %v %v", k, b, err)
		}
		x.State(m.Tag, fmt.Sprint(k))
	}})
	c.relations(model.Responses, func(x *explore.X, n *model.Node) {
		if !c.Thorough() && !strings.HasPrefix(n.Tag, "STMT") && !strings.HasPrefix(n.Tag, "CCSTMT") && !strings.HasPrefix(n.Tag, "ACCT") {
			d := newDoc(220, n)
			r := d.BuildResponse()
			ok, _ := r.Valid()
			b, err := r.Marshal()
			if ok != (err == nil) || ok != (b != nil && b.Len() > 0) {
				x.Fail("written", "valid=%v, error %v", ok, err)
			}
			x.State(strings.Join(d.Canon(), "\n"))
			return
		}
		judge(x, newDoc(220, n), nil)
	})
}
