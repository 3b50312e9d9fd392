package checks

import (
	"fmt"

	"verif/mc/model"
)

// Operations on documents which differ in one choice: an optional element more
// or less, another value, another list length.

// oneDev deviates from the defaults of the generator in one place.
type oneDev struct {
	at, val int
	opts    []int
}

func (o *oneDev) Dev(_ string, n int) int {
	i := len(o.opts)
	o.opts = append(o.opts, n)
	if i == o.at && o.val < n {
		return o.val
	}
	return 0
}

type variant struct {
	name    string
	msg     *model.Msg // nil: the signon of a request
	max     bool
	at, val int
	version int
}

func (v *variant) doc(request bool, id string) *model.Doc {
	g := &model.Gen{C: &oneDev{at: v.at, val: v.val}, Max: v.max, Focus: "*", Deep: !v.max}
	var d *model.Doc
	if v.msg == nil {
		d = newReqDoc(v.version)
		d.Signon = g.Signon(true)
		return d
	}
	n := g.Msg(v.msg)
	if request {
		d = newReqDoc(v.version, n)
		setLeafText(d.Signon, model.SignonRq.Kids, "LANGUAGE", "GER")
		if v.at%2 == 0 {
			d.Signon.Remove("LANGUAGE")
		}
	} else {
		d = newDoc(v.version, n)
	}
	if f := d.Signon.Find("FI"); f != nil && id != "" {
		setLeafText(f, nil, "ORG", id)
	}
	return d
}

// variants lists the documents which differ from the smallest and the largest
// one of each message in at most one choice.
func variants(msgs []*model.Msg, signon bool, maximal bool) []variant {
	var out []variant
	add := func(m *model.Msg) {
		for _, max := range []bool{false, true} {
			o := &oneDev{at: -1}
			g := &model.Gen{C: o, Max: max, Focus: "*", Deep: !max}
			tag := "signon"
			if m == nil {
				g.Signon(true)
			} else {
				tag = m.Tag
				g.Msg(m)
			}
			one := func(at, val int) {
				v := 220
				if len(out)%2 == 1 {
					v = 103
				}
				out = append(out, variant{fmt.Sprintf("%s %v %d:%d (%d)", tag, max, at, val, v), m, max, at, val, v})
			}
			one(-1, 0)
			one(-1, 0) // in the other version
			if max && !maximal {
				continue
			}
			for i, n := range o.opts {
				for k := 1; k < n; k++ {
					one(i, k)
				}
			}
		}
	}
	if signon {
		add(nil)
	}
	for _, m := range msgs {
		add(m)
	}
	return out
}

func requestVariants() []op {
	var ops []op
	for _, v := range variants(model.Requests, true, true) {
		v := v
		ops = append(ops, op{name: "write " + v.name, prep: func(e *opEnv, id string) func() func() string {
			d := v.doc(true, "")
			return func() func() string {
				r := d.BuildRequest()
				r.SetClientFields(basicClient(v.version, reqStyle{}))
				b, err := r.Marshal()
				s := bufText(b, err) + "\n" + fmt.Sprintf("%q %v", r.Signon.Language, r.Signon.AppID)
				return func() string { return s }
			}
		}})
	}
	return ops
}

func responseVariants() []op {
	var ops []op
	for _, v := range variants(model.Responses, false, false) {
		v := v
		ops = append(ops, docOp("parse "+v.name, 1000, func(id string) string {
			return v.doc(false, "x").Write(&model.Style{XML: v.version >= 200, NL: "\n"})
		}))
	}
	return ops
}
