package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C07", "exhaustive enumeration of defects (up to two, thorough three, at once) at every place of bounded messages, and of the fields of each message part, against the documented rules", "", c07)
	register("C08", "exhaustive enumeration of combinations of valid and invalid message parts", "", c08)
}

// defects lists other states of a node: dropped, emptied, other values.
func defects(n *model.Node) []func(*model.Node) {
	var out []func(*model.Node)
	text := func(ts ...string) {
		for _, t := range ts {
			t := t
			out = append(out, func(k *model.Node) { k.Text = t; k.V = model.Val{S: strings.TrimSpace(t)} })
		}
	}
	if n.E == nil || !n.E.Leaf() {
		return nil
	}
	switch n.E.Kind {
	case model.String, model.UID:
		text("")
		switch n.Tag {
		case "TRNUID":
			text("x", strings.Repeat("u", 36), strings.Repeat("u", 37), strings.Repeat("u", 35))
		case "LANGUAGE":
			text("EN", "ENGL", "fra", "E")
		case "COUNTRY":
			text("US", "USAA", "CAN", "U")
		case "SEVERITY":
			text("WARN", "ERROR", "info", "FATAL", "INFO2")
		}
	case model.Int:
		if n.Tag == "CODE" {
			for _, c := range []int64{0, 1, 2000, 15000, 15500, 10500, 13504, 3, -1, 99999, 2001} {
				c := c
				out = append(out, func(k *model.Node) { k.Text = fmt.Sprint(c); k.V = model.Val{I: c} })
			}
		}
	case model.Amount:
		for _, t := range []string{"0", "0.00", "-0.000001"} {
			t := t
			r, _ := model.ParseDecimal(t)
			out = append(out, func(k *model.Node) { k.Text = t; k.V = model.Val{R: r} })
		}
	case model.Enum:
		if n.Tag == "TRNTYPE" {
			for _, v := range model.EnumOf(n.E.Enum).Values {
				v := v
				out = append(out, func(k *model.Node) { k.Text = v.Name; k.V = model.Val{S: v.Name} })
			}
		}
	case model.CurrSymbol:
		text("XXX")
	}
	return out
}

// alter gives every node of a message the chance to be dropped or changed.
func alter(x *explore.X, n *model.Node, path string, onlyDrop bool) {
	var kids []*model.Node
	for _, k := range n.Kids {
		ds := defects(k)
		if onlyDrop {
			ds = nil
		}
		if strings.HasSuffix(k.Tag, "MSGSETV1") {
			alter(x, k, path+"/"+k.Tag, onlyDrop)
			kids = append(kids, k)
			continue
		}
		d := x.Dev("alter "+path+"/"+k.Tag, 2+len(ds))
		if d == 1 {
			continue
		}
		if d > 1 {
			ds[d-2](k)
		} else {
			alter(x, k, path+"/"+k.Tag, onlyDrop)
		}
		kids = append(kids, k)
	}
	n.Kids = kids
}

func c07(c *Ctx) {
	c.Assume = append(c.Assume, "texts are ASCII where their length counts", "dates in year one are not judged (they cannot be told from unset ones)", "rules not documented for a message part (investment and card statements beyond the transaction ID, among others) are not demanded")
	st := &model.Style{XML: true}
	// documents with defects anywhere
	for _, m := range append([]*model.Msg{model.SignonRs}, model.Responses...) {
		m := m
		for _, max := range []bool{false, true} {
			max := max
			bound := 1
			if m.Tag == "STMTTRNRS" || m.Tag == "SONRS" {
				bound = 2
			}
			if c.Thorough() && m.Tag != "INVSTMTTRNRS" {
				bound++
			}
			c.Space(&explore.Space{Name: fmt.Sprintf("documents/%s/max=%v", m.Tag, max), Bound: bound, Body: func(x *explore.X) {
				vs := []int{220, 211}
				if c.Thorough() {
					vs = versionsXML
				}
				d := newDoc(vs[x.Choose("version", len(vs))])
				var n *model.Node
				if m == model.SignonRs {
					d.Signon = (&model.Gen{C: model.NoChoice{}, Max: max}).Signon(false)
					n = d.Signon
				} else {
					n = minimal(m)
					if max {
						n = maximal(m)
					}
					d.Msgs = append(d.Msgs, n)
				}
				if d.Version < 220 && m.Tag == "STMTTRNRS" && max {
					stripNewer(n)
				}
				alter(x, n, m.Tag, false)
				if m.Tag == "SONRS" && len(n.Kids) == 0 {
					x.Skip()
				}
				text := d.Write(st)
				r, err := parse(text)
				compareParsed(x, d, text, r, err)
				x.Sample(text)
			}})
			if c.Stop() {
				return
			}
		}
	}
	// exclusive elements together, images, versions: the transaction's elements
	// vary freely
	for _, p := range []string{"STMTTRNRS/STMTRS/BANKTRANLIST/STMTTRN", "STMTTRNRS/STMTRS/BANKTRANLISTP/STMTTRNP", "STMTTRNRS/STMTRS/BALLIST/BAL", "STMTTRNRS", "STMTTRNRS/STMTRS", "STMTTRNRS/STMTRS/BANKTRANLIST/STMTTRN/PAYEE", "STMTTRNRS/STMTRS/BANKTRANLIST/STMTTRN/BANKACCTTO", "STMTTRNRS/STMTRS/BANKTRANLIST/STMTTRN/CCACCTTO", "STMTTRNRS/STMTRS/BANKTRANLIST/STMTTRN/CURRENCY", "STMTTRNRS/STMTRS/BANKTRANLIST/STMTTRN/ORIGCURRENCY", "STMTTRNRS/STMTRS/BANKTRANLIST/STMTTRN/IMAGEDATA"} {
		p := p
		c.Space(&explore.Space{Name: "elements/" + p, Bound: c.Pick(3, 4), Body: func(x *explore.X) {
			d := newDoc(versionsXML[x.Choose("version", len(versionsXML))])
			if d.Version != 220 && d.Version != 211 {
				x.Spend(1)
			}
			g := &model.Gen{C: x, Focus: p, Repeat: 1, Shape: true, Max: x.Choose("max", 2) == 1}
			n := g.Msg(model.MsgByTag("STMTTRNRS"))
			d.Msgs = append(d.Msgs, n)
			text := d.Write(st)
			r, err := parse(text)
			compareParsed(x, d, text, r, err)
		}})
	}
	// texts of any length
	c.longTexts(func(x *explore.X, n *model.Node) {
		d := newDoc(220, n)
		ok, err := d.BuildResponse().Valid()
		if want := d.Valid(); ok != want || (err == nil) != want {
			x.Fail("verdict", "valid should be %v, is %v (%v)", want, ok, err)
		}
		x.State(n.Tag, fmt.Sprint(len(strings.Join(d.Canon(), "\n"))))
	})
	// the fields of each part, set directly
	c07parts(c)
	// defects at every position of lists
	tranDefect := []func(*model.Node){
		func(n *model.Node) { n.Remove("FITID") },
		func(n *model.Node) { n.Remove("DTPOSTED") },
		func(n *model.Node) { n.Remove("TRNTYPE") },
		func(n *model.Node) { k := n.Find("TRNTYPE"); k.Text, k.V = "HOLD", model.Val{S: "HOLD"} },
	}
	c.Space(&explore.Space{Name: "positions", Bound: 3, Body: func(x *explore.X) {
		d := newDoc(220)
		msgs := 1 + x.Choose("messages", 3)
		sizes := []int{1, 2, 3, 5}
		for i := 0; i < msgs; i++ {
			g := &model.Gen{C: model.NoChoice{}, Max: true, Repeat: 1}
			g.Seed(40 * i)
			n := g.Msg(model.MsgByTag("STMTTRNRS"))
			d.Msgs = append(d.Msgs, n)
			rs := n.Find("STMTRS")
			for _, l := range []struct{ list, item string }{{"BANKTRANLIST", "STMTTRN"}, {"BANKTRANLISTP", "STMTTRNP"}, {"BALLIST", "BAL"}} {
				ln := rs.Find(l.list)
				item := ln.Find(l.item)
				size := sizes[x.Dev("size", len(sizes))]
				for j := 1; j < size; j++ {
					ln.Kids = append(ln.Kids, item.Clone())
				}
				for _, k := range ln.Kids {
					if k.Tag != l.item {
						continue
					}
					switch l.item {
					case "STMTTRN":
						if q := x.Dev("defect", 1+len(tranDefect)); q > 0 {
							tranDefect[q-1](k)
						}
					case "STMTTRNP":
						if q := x.Dev("defect", 4); q > 0 {
							k.Remove([]string{"NAME", "DTTRAN", "TRNTYPE"}[q-1])
						}
					case "BAL":
						if q := x.Dev("defect", 4); q > 0 {
							k.Remove([]string{"NAME", "DESC", "BALTYPE"}[q-1])
						}
					}
				}
			}
		}
		text := d.Write(st)
		r, err := parse(text)
		compareParsed(x, d, text, r, err)
	}})
	// long lists
	c.Space(&explore.Space{Name: "long lists", Body: func(x *explore.X) {
		sizes := append([]int{8, 17, 100}, litSizes(300)...)
		size := sizes[x.Choose("size", len(sizes))]
		if size == 0 {
			x.Skip()
		}
		at := x.Choose("defect", size+1) // size: none
		d := newDoc(220, maximal(model.MsgByTag("STMTTRNRS")))
		rs := d.Msgs[0].Find("STMTRS")
		l := []struct{ list, item, drop string }{{"BANKTRANLIST", "STMTTRN", "FITID"}, {"BANKTRANLISTP", "STMTTRNP", "NAME"}, {"BALLIST", "BAL", "DESC"}}[x.Choose("list", 3)]
		ln := rs.Find(l.list)
		item := ln.Find(l.item)
		for j := 1; j < size; j++ {
			ln.Kids = append(ln.Kids, item.Clone())
		}
		i := 0
		for _, k := range ln.Kids {
			if k.Tag == l.item {
				if i == at {
					k.Remove(l.drop)
				}
				i++
			}
		}
		r := d.BuildResponse()
		ok, err := r.Valid()
		if want := at == size; ok != want || (err == nil) != want {
			x.Fail("verdict", "%d members, defect at %d: valid %v, error %v", size, at, ok, err)
		}
		x.State(fmt.Sprint(size, at, l))
	}})
}

var someDate = ofxgo.Date{Time: time.Date(2017, 3, 4, 5, 6, 7, 0, time.UTC)}

func c07parts(c *Ctx) {
	verdict := func(x *explore.X, what string, want bool, ok bool, err error) {
		if ok != want || (err == nil) != want {
			x.Fail("verdict", "%s: valid should be %v, is %v (%v)", what, want, ok, err)
		}
		x.State(what)
	}
	str := func(x *explore.X, label string, alts ...string) ofxgo.String {
		return ofxgo.String(alts[x.Choose(label, len(alts))])
	}
	acctTypes := []uint{0, 1, 5, 6, 7, 99}
	nAcct := uint(len(model.EnumOf("acctType").Values))
	setEnum := func(p interface{}, field string, n uint) {
		reflect.ValueOf(p).Elem().FieldByName(field).SetUint(uint64(n))
	}
	// complete products for the small parts
	c.Space(&explore.Space{Name: "parts/bankacct", Body: func(x *explore.X) {
		b := ofxgo.BankAcct{BankID: str(x, "bankid", "", "1", " "), BranchID: str(x, "branchid", "", "2"), AcctID: str(x, "acctid", "", "3"), AcctKey: str(x, "acctkey", "", "4")}
		t := acctTypes[x.Choose("type", len(acctTypes))]
		setEnum(&b, "AcctType", t)
		ok, err := b.Valid()
		verdict(x, fmt.Sprintf("%+v", b), b.BankID != "" && b.AcctID != "" && t >= 1 && t <= nAcct, ok, err)
	}})
	c.Space(&explore.Space{Name: "parts/ccacct", Body: func(x *explore.X) {
		b := ofxgo.CCAcct{AcctID: str(x, "acctid", "", "3", " "), AcctKey: str(x, "acctkey", "", "4")}
		ok, err := b.Valid()
		verdict(x, fmt.Sprintf("%+v", b), b.AcctID != "", ok, err)
	}})
	c.Space(&explore.Space{Name: "parts/payee", Body: func(x *explore.X) {
		f := func(l string) ofxgo.String { return str(x, l, "x", "") }
		p := ofxgo.Payee{Name: f("name"), Addr1: f("addr1"), Addr2: f("addr2"), Addr3: f("addr3"), City: f("city"), State: f("state"), PostalCode: f("postalcode"), Phone: f("phone"), Country: str(x, "country", "", "USA", "US", "USAX", "U")}
		ok, err := p.Valid()
		verdict(x, fmt.Sprintf("%+v", p), p.Name != "" && p.Addr1 != "" && p.City != "" && p.State != "" && p.PostalCode != "" && p.Phone != "" && (p.Country == "" || len(p.Country) == 3), ok, err)
	}})
	syms := []string{"", "USD", "XXX", "JPY"}
	rates := []*big.Rat{big.NewRat(1, 1), new(big.Rat), big.NewRat(-1, 3), big.NewRat(1, 1000000000)}
	currency := func(x *explore.X) (ofxgo.Currency, bool) {
		var cur ofxgo.Currency
		r := rates[x.Choose("rate", len(rates))]
		cur.CurRate.Set(r)
		s := syms[x.Choose("symbol", len(syms))]
		if s != "" {
			cs, err := ofxgo.NewCurrSymbol(s)
			if err != nil {
				x.Fail("symbol", "%s: %v", s, err)
			}
			cur.CurSym = *cs
		}
		return cur, r.Sign() != 0 && s != "" && s != "XXX"
	}
	c.Space(&explore.Space{Name: "parts/currency", Body: func(x *explore.X) {
		cur, want := currency(x)
		ok, err := cur.Valid()
		verdict(x, fmt.Sprintf("%v", cur), want, ok, err)
	}})
	dates := []ofxgo.Date{someDate, {}, {Time: time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC)}, {Time: time.Unix(0, 0).UTC()}, {Time: time.Unix(0, 0).In(time.FixedZone("X", -7200))}, {Time: time.Date(9999, 12, 31, 23, 59, 59, 999e6, time.UTC)}, {Time: time.Date(2, 1, 1, 0, 0, 0, 0, time.UTC)}}
	nBal := uint(len(model.EnumOf("balType").Values))
	c.Space(&explore.Space{Name: "parts/balance", Body: func(x *explore.X) {
		b := ofxgo.Balance{Name: str(x, "name", "x", ""), Desc: str(x, "desc", "x", "")}
		t := uint(x.Choose("type", 5))
		if t == 4 {
			t = 1000
		}
		setEnum(&b, "BalType", t)
		if x.Choose("value", 2) == 1 {
			b.Value.SetInt64(3)
		}
		if x.Choose("date", 2) == 1 {
			b.DtAsOf = &ofxgo.Date{}
		}
		if x.Choose("currency", 2) == 1 {
			b.Currency = &ofxgo.Currency{}
		}
		ok, err := b.Valid()
		verdict(x, fmt.Sprintf("%+v", b), b.Name != "" && b.Desc != "" && t >= 1 && t <= nBal, ok, err)
	}})
	nTrn := uint(len(model.EnumOf("trnType").Values))
	hold, _ := model.EnumOf("trnType").Value("HOLD")
	nCorr := uint(len(model.EnumOf("correctAction").Values))
	goodPayee := ofxgo.Payee{Name: "n", Addr1: "a", City: "c", State: "s", PostalCode: "p", Phone: "1"}
	checking, _ := model.EnumOf("acctType").Value("CHECKING")
	versionVals := map[int]uint{}
	for _, v := range model.Versions {
		versionVals[v.Num] = v.Val
	}
	// verdictOf calls v.Valid(version) through reflection: the version's type
	// has no exported name.
	verdictOf := func(v interface{}, version uint) (bool, error) {
		m := reflect.ValueOf(v).MethodByName("Valid")
		a := reflect.New(m.Type().In(0)).Elem()
		a.SetUint(uint64(version))
		out := m.Call([]reflect.Value{a})
		err, _ := out[1].Interface().(error)
		return out[0].Bool(), err
	}
	transaction := func(x *explore.X, dev func(string, int) int, version int) (ofxgo.Transaction, bool) {
		want := true
		no := func(b bool) {
			if b {
				want = false
			}
		}
		var t ofxgo.Transaction
		ty := []uint{1, 0, hold.Num, nTrn, nTrn + 1, 2, 12345}[dev("type", 7)]
		setEnum(&t, "TrnType", ty)
		no(ty == 0 || ty > nTrn || ty == hold.Num)
		di := dev("date", len(dates))
		t.DtPosted = dates[di]
		no(di == 1)
		t.FiTID = []ofxgo.String{"1", "", " "}[dev("fitid", 3)]
		no(t.FiTID == "")
		t.CorrectFiTID = []ofxgo.String{"", "2"}[dev("correctfitid", 2)]
		ca := []uint{0, 1, nCorr, nCorr + 1, 99}[dev("correctaction", 5)]
		setEnum(&t, "CorrectAction", ca)
		no(t.CorrectFiTID != "" && (ca < 1 || ca > nCorr))
		t.Name = []ofxgo.String{"", "n"}[dev("name", 2)]
		if p := dev("payee", 9); p > 0 {
			py := goodPayee
			switch p {
			case 2:
				py.Name = ""
			case 3:
				py.Addr1 = ""
			case 4:
				py.City = ""
			case 5:
				py.State = ""
			case 6:
				py.PostalCode = ""
			case 7:
				py.Phone = ""
			case 8:
				py.Country = "US"
			}
			no(p > 1)
			no(t.Name != "")
			t.Payee = &py
		}
		b := dev("bankacctto", 5)
		if b > 0 {
			t.BankAcctTo = &ofxgo.BankAcct{BankID: "1", AcctID: "2"}
			setEnum(t.BankAcctTo, "AcctType", checking.Num)
			switch b {
			case 2:
				t.BankAcctTo.BankID = ""
			case 3:
				t.BankAcctTo.AcctID = ""
			case 4:
				setEnum(t.BankAcctTo, "AcctType", 0)
			}
			no(b > 1)
		}
		cc := dev("ccacctto", 3)
		if cc > 0 {
			t.CCAcctTo = &ofxgo.CCAcct{AcctID: "2"}
			if cc == 2 {
				t.CCAcctTo.AcctID = ""
			}
			no(cc > 1 || b > 0)
		}
		im := dev("images", 5)
		t.ImageData = make([]ofxgo.ImageData, im)
		no(im > 2 || im > 0 && version < 220)
		var ok1, ok2 bool
		if k := dev("currency", 4); k > 0 {
			t.Currency, ok1 = someCurrency(k), k == 1
		}
		if k := dev("origcurrency", 4); k > 0 {
			t.OrigCurrency, ok2 = someCurrency(k), k == 1
		}
		no(ok1 && ok2)
		return t, want
	}
	c.Space(&explore.Space{Name: "parts/transaction", Bound: c.Pick(4, 6), Body: func(x *explore.X) {
		v := []int{220, 211, 203, 160, 102}[x.Dev("version", 5)]
		t, want := transaction(x, x.Dev, v)
		ok, err := verdictOf(t, versionVals[v])
		verdict(x, fmt.Sprint(v, t.TrnType, t.DtPosted, t.FiTID, t.CorrectFiTID, t.CorrectAction, t.Name, t.Payee, t.BankAcctTo, t.CCAcctTo, len(t.ImageData), t.Currency, t.OrigCurrency), want, ok, err)
	}})
	c.Space(&explore.Space{Name: "parts/list", Bound: c.Pick(2, 3), Body: func(x *explore.X) {
		v := []int{220, 211}[x.Choose("version", 2)]
		var l ofxgo.TransactionList
		want := true
		di, dj := x.Dev("start", len(dates)), x.Dev("end", len(dates))
		l.DtStart, l.DtEnd = dates[di], dates[dj]
		if di == 1 || dj == 1 {
			want = false
		}
		for n := x.Choose("length", 5); n > 0; n-- {
			t, ok := transaction(x, x.Dev, v)
			if !ok {
				want = false
			}
			l.Transactions = append(l.Transactions, t)
		}
		ok, err := verdictOf(l, versionVals[v])
		verdict(x, fmt.Sprintf("%d transactions", len(l.Transactions)), want, ok, err)
	}})
	pending := func(dev func(string, int) int) (ofxgo.PendingTransaction, bool) {
		want := true
		var t ofxgo.PendingTransaction
		ty := []uint{1, 0, hold.Num, nTrn, nTrn + 1, 12345}[dev("type", 6)]
		setEnum(&t, "TrnType", ty)
		di := dev("date", len(dates))
		t.DtTran = dates[di]
		t.Name = []ofxgo.String{"n", "", " "}[dev("name", 3)]
		if ty == 0 || ty > nTrn || di == 1 || t.Name == "" {
			want = false
		}
		if dev("expire", 2) == 1 {
			t.DtExpire = &ofxgo.Date{}
		}
		t.ImageData = make([]ofxgo.ImageData, dev("images", 2)*3)
		a, b := dev("currency", 4), dev("origcurrency", 4)
		if a > 0 {
			t.Currency = *someCurrency(a)
		}
		if b > 0 {
			t.OrigCurrency = *someCurrency(b)
		}
		if a == 1 && b == 1 {
			want = false
		}
		return t, want
	}
	c.Space(&explore.Space{Name: "parts/pending", Bound: c.Pick(5, 8), Body: func(x *explore.X) {
		t, want := pending(x.Dev)
		ok, err := t.Valid()
		verdict(x, fmt.Sprintf("%v", t), want, ok, err)
	}})
	c.Space(&explore.Space{Name: "parts/pendinglist", Bound: 2, Body: func(x *explore.X) {
		var l ofxgo.PendingTransactionList
		di := x.Dev("date", len(dates))
		l.DtAsOf = dates[di]
		want := di != 1
		for n := x.Choose("length", 5); n > 0; n-- {
			t, ok := pending(x.Dev)
			if !ok {
				want = false
			}
			l.Transactions = append(l.Transactions, t)
		}
		ok, err := l.Valid()
		verdict(x, fmt.Sprintf("%d pending", len(l.Transactions)), want, ok, err)
	}})
	// requests
	lens := func(n int) string { return strings.Repeat("x", n) }
	c.Space(&explore.Space{Name: "parts/signon request", Bound: c.Pick(3, 5), Body: func(x *explore.X) {
		v := versionsAll[x.Dev("version", len(versionsAll))]
		length := func(label string, def int, alts ...int) int {
			alts = append([]int{def}, alts...)
			for _, n := range litSizes(200) {
				if n > 0 {
					alts = append(alts, n)
				}
			}
			return alts[x.Dev(label, len(alts))]
		}
		id, pass, key, lang, app, ver := length("userid", 5, 0, 1, 31, 32, 33, 64), length("userpass", 5, 0, 1, 31, 32, 33, 64), length("userkey", 0, 1, 31, 32, 33, 63, 64, 65), length("language", 3, 0, 1, 2, 4), length("appid", 5, 0, 1, 4, 6), length("appver", 4, 0, 1, 3, 5)
		r := ofxgo.SignonRequest{UserID: ofxgo.String(lens(id)), UserPass: ofxgo.String(lens(pass)), UserKey: ofxgo.String(lens(key)), Language: ofxgo.String(lens(lang)), AppID: ofxgo.String(lens(app)), AppVer: ofxgo.String(lens(ver))}
		switch x.Dev("client", 4) {
		case 1:
			r.ClientUID = "x"
		case 2:
			r.Org, r.Fid = "x", "y"
		case 3:
			r.DtClient = someDate
		}
		want := id >= 1 && id <= 32 && (pass == 0) != (key == 0) && pass <= 32 && key <= 64 && (lang == 0 || lang == 3) && app >= 1 && app <= 5 && ver >= 1 && ver <= 4
		ok, err := verdictOf(&r, versionVals[v])
		verdict(x, fmt.Sprint(v, id, pass, key, lang, app, ver), want, ok, err)
	}})
	uids := []int{36, 0, 1, 35, 37, 72}
	c.Space(&explore.Space{Name: "parts/requests", Body: func(x *explore.X) {
		m := model.Requests[x.Choose("request", len(model.Requests))]
		v := versionsAll[x.Choose("version", len(versionsAll))]
		n := maximal(m)
		u := uids[x.Choose("trnuid", len(uids))]
		n.Find("TRNUID").V = model.Val{S: lens(u)}
		want := u >= 1 && u <= 36
		if m.Tag == "STMTTRNRQ" {
			rq := n.Find("STMTRQ")
			bool01 := func(tag string, min int) {
				on := x.Choose(tag, 2) == 1
				k := rq.Find(tag)
				if on {
					k.V = model.Val{S: "Y"}
				} else {
					k.V = model.Val{S: "N"}
				}
				if on && v < min {
					want = false
				}
			}
			for _, tag := range []string{"INCLUDEPENDING", "INCTRANIMG"} {
				if rq.Find(tag) == nil {
					panic("model: no " + tag)
				}
			}
			bool01("INCLUDEPENDING", 220)
			bool01("INCTRANIMG", 210)
			if k := x.Choose("account", 4); k > 0 {
				rq.Find("BANKACCTFROM").Remove([]string{"BANKID", "ACCTID", "ACCTTYPE"}[k-1])
				want = false
			}
		}
		if got := model.ValidMsg(n, v); got != want {
			panic(fmt.Sprintf("model: %s %d: rules disagree", m.Tag, v))
		}
		msg := model.BuildMsg(m, n)
		ok, err := verdictOf(msg, versionVals[v])
		verdict(x, fmt.Sprint(m.Tag, v, u), want, ok, err)
	}})
	c.Space(&explore.Space{Name: "parts/responses", Body: func(x *explore.X) {
		m := model.Responses[x.Choose("response", len(model.Responses))]
		v := versionsAll[x.Choose("version", len(versionsAll))]
		n := minimal(m)
		if x.Choose("max", 2) == 1 {
			n = maximal(m)
			stripNewer(n)
		}
		if k := n.Find("TRNUID"); k != nil {
			k.V = model.Val{S: lens(uids[x.Choose("trnuid", len(uids))])}
		}
		ok, err := verdictOf(model.BuildMsg(m, n), versionVals[v])
		verdict(x, fmt.Sprint(m.Tag, v), model.ValidMsg(n, v), ok, err)
	}})
}

// someCurrency makes a currency: 1 valid, 2 without rate, 3 without symbol.
func someCurrency(k int) *ofxgo.Currency {
	var c ofxgo.Currency
	if k != 2 {
		c.CurRate.SetFrac64(3, 2)
	}
	if k != 3 {
		s, err := ofxgo.NewCurrSymbol("EUR")
		if err != nil {
			panic(err)
		}
		c.CurSym = *s
	}
	return &c
}

// ---- C08

type partDefect struct {
	tag, name string
	apply     func(*model.Node)
}

func c08(c *Ctx) {
	c.Assume = append(c.Assume, "of several problems within one message, naming the first is enough")
	set := func(path, text string) func(*model.Node) {
		return func(n *model.Node) {
			k := n.Path(path)
			k.Text = text
			k.V = model.Val{S: text}
			if k.E.Kind == model.Int {
				fmt.Sscan(text, &k.V.I)
			}
		}
	}
	drop := func(path, tag string) func(*model.Node) {
		return func(n *model.Node) {
			if path == "" {
				n.Remove(tag)
			} else {
				n.Path(path).Remove(tag)
			}
		}
	}
	byTag := map[string][]partDefect{
		"SONRS": {{"SONRS", "severity", set("STATUS/SEVERITY", "FATAL")}, {"SONRS", "language", set("LANGUAGE", "ENGLISH")}, {"SONRS", "code", set("STATUS/CODE", "77")}},
		"STMTTRNRS": {{"STMTTRNRS", "uid", drop("", "TRNUID")}, {"STMTTRNRS", "account", drop("STMTRS/BANKACCTFROM", "BANKID")}, {"STMTTRNRS", "fitid", drop("STMTRS/BANKTRANLIST/STMTTRN", "FITID")},
			{"STMTTRNRS", "currency", drop("STMTRS", "CURDEF")}, {"STMTTRNRS", "balance", drop("STMTRS/LEDGERBAL", "DTASOF")}, {"STMTTRNRS", "available", drop("STMTRS/AVAILBAL", "DTASOF")}, {"STMTTRNRS", "pending", drop("STMTRS/BANKTRANLISTP", "DTASOF")}, {"STMTTRNRS", "severity", func(n *model.Node) { setStatus(n, [2]string{"0", "WARN"}) }}},
	}
	for _, m := range model.Responses {
		if m.Tag != "STMTTRNRS" && m.Tag != "SECLIST" {
			byTag[m.Tag] = []partDefect{{m.Tag, "uid", drop("", "TRNUID")}, {m.Tag, "long uid", set("TRNUID", strings.Repeat("u", 37))}}
		}
	}
	full := func(tag string, seed int) *model.Node {
		m := model.MsgByTag(tag)
		g := &model.Gen{C: model.NoChoice{}, Max: tag == "STMTTRNRS", Repeat: 1}
		g.Seed(seed)
		return g.Msg(m)
	}
	// problem texts, one per defect, from a part on its own
	problem := map[string]string{}
	solo := func(tag string, i int) string {
		key := fmt.Sprint(tag, i)
		if s, ok := problem[key]; ok {
			return s
		}
		return ""
	}
	for tag, ds := range byTag {
		for i, df := range ds {
			var err error
			if tag == "SONRS" {
				d := newDoc(220)
				df.apply(d.Signon)
				_, err = validOf(&d.BuildResponse().Signon, 220)
			} else {
				n := full(tag, 0)
				df.apply(n)
				_, err = validOf(model.BuildMsg(model.MsgByTag(tag), n), 220)
			}
			if err != nil {
				problem[fmt.Sprint(tag, i)] = err.Error()
			}
		}
	}
	// check verifies that the error names exactly the problems.
	check := func(x *explore.X, err error, want []string, all map[string]string) {
		if (err == nil) != (len(want) == 0) {
			x.Fail("verdict", "%d invalid parts, error %v", len(want), err)
		}
		if err == nil {
			return
		}
		text := err.Error()
		counts := map[string]int{}
		for _, w := range want {
			if w == "" {
				x.Fail("problem", "an invalid part has no problem of its own")
			}
			counts[w]++
		}
		var msgs []string
		for _, p := range all {
			msgs = append(msgs, p)
		}
		msgs = dedup(msgs)
		// longer texts first: one may be part of another
		sort.Slice(msgs, func(i, j int) bool {
			return len(msgs[i]) > len(msgs[j]) || len(msgs[i]) == len(msgs[j]) && msgs[i] < msgs[j]
		})
		for _, m := range msgs {
			if m == "" {
				continue
			}
			n := strings.Count(text, m)
			if n != counts[m] {
				x.Fail("problems", "problem %q of %d parts is named %d times in %q", m, counts[m], n, text)
			}
			text = strings.ReplaceAll(text, m, "\x00")
		}
	}
	order := []string{"ACCTINFOTRNRS", "STMTTRNRS", "STMTTRNRS", "CCSTMTTRNRS", "INVSTMTTRNRS", "SECLISTTRNRS", "SECLIST", "PROFTRNRS"}
	run := func(x *explore.X, tags []string, style int, pick func(string, int) int, version int) {
		d := newDoc(version)
		var want []string
		if k := pick("SONRS", 1+len(byTag["SONRS"])); k > 0 {
			byTag["SONRS"][k-1].apply(d.Signon)
			want = append(want, solo("SONRS", k-1))
		}
		if k := pick("status", 1+len(otherStatus)); k > 0 && len(want) == 0 {
			setStatus(d.Signon, otherStatus[k-1])
		}
		for i, tag := range tags {
			n := full(tag, 50*i)
			ds := byTag[tag]
			k := pick(tag, 1+len(ds))
			if n.Find("STATUS") != nil {
				if k := pick("status", 1+len(otherStatus)); k > 0 {
					setStatus(n, otherStatus[k-1])
				}
			}
			if k > 0 {
				ds[k-1].apply(n)
				want = append(want, solo(tag, k-1))
			}
			d.Msgs = append(d.Msgs, n)
		}
		st := styles[style]
		text := d.Write(&st)
		r, err := parse(text)
		if r == nil {
			x.Note("document:\n%s", text)
			x.Fail("data", "no response: %v", err)
		}
		if diff := model.Diff(d.Canon(), model.CanonResponse(r)); diff != "" {
			x.Note("document:\n%s", text)
			x.Fail("data", "response of an invalid document differs: %s", diff)
		}
		check(x, err, want, problem)
		ok, verr := r.Valid()
		if ok != (err == nil) || fmt.Sprint(err) != fmt.Sprint(verr) {
			x.Fail("verdict", "ParseResponse: %v, Valid: %v", err, verr)
		}
		x.State(text, fmt.Sprint(err))
		x.Sample(fmt.Sprint(err))
	}
	// every subset of parts invalid, the first problem each
	c.Space(&explore.Space{Name: "subsets", Body: func(x *explore.X) {
		run(x, order, 0, func(tag string, n int) int {
			if n == 1 || tag == "status" {
				return 0
			}
			return x.Choose("invalid "+tag, 2)
		}, 220)
	}})
	// one invalid part among statuses of every kind
	c.Space(&explore.Space{Name: "statuses", Body: func(x *explore.X) {
		signon := x.Choose("signon status", 1+len(otherStatus))
		others := x.Choose("message status", 1+len(otherStatus))
		first := true
		run(x, order, x.Choose("style", 2)*3, func(tag string, n int) int {
			if tag == "status" {
				if first {
					first = false
					return signon
				}
				return others
			}
			if tag == "SONRS" || n == 1 {
				return 0
			}
			return x.Dev("invalid "+tag, 2)
		}, 220)
	}, Bound: c.Pick(1, 2)})
	c.Space(&explore.Space{Name: "kinds", Bound: c.Pick(2, 4), Body: func(x *explore.X) {
		s := x.Choose("style", 2)
		run(x, order, s*3, x.Dev, 220)
	}})
	c.Space(&explore.Space{Name: "sequences", Bound: 2, Body: func(x *explore.X) {
		n := 1 + x.Choose("count", c.Pick(3, 4))
		var tags []string
		for i := 0; i < n; i++ {
			tags = append(tags, model.Responses[x.Choose("message", len(model.Responses))].Tag)
		}
		run(x, tags, 0, x.Dev, 220)
	}})
	// many invalid messages of one kind
	c.Space(&explore.Space{Name: "many", Body: func(x *explore.X) {
		sizes := append([]int{5, 9, 17, 20, 33, 65, 129, 300}, litSizes(2000)...)
		n := sizes[x.Choose("count", len(sizes))]
		m := order[x.Choose("message", 5)]
		which := x.Choose("which", 4)
		var tags []string
		for i := 0; i < n; i++ {
			tags = append(tags, m)
		}
		i := -1
		run(x, tags, 0, func(tag string, n int) int {
			if tag == "SONRS" || tag == "status" || n < 2 {
				return 0
			}
			i++
			switch which {
			case 0:
				return 1
			case 1:
				return i % 2
			case 2:
				if i == len(tags)-1 {
					return 1
				}
				return 0
			}
			return 1 + i%(n-1)
		}, 220)
	}})
	// messages in every field of a response, also those nothing is parsed into
	c.Space(&explore.Space{Name: "fields", Body: func(x *explore.X) {
		r := newDoc(220).BuildResponse()
		v := reflect.ValueOf(r).Elem()
		var want []string
		all := map[string]string{}
		put := func(field string, seed int, bad bool) {
			n := full("STMTTRNRS", seed)
			tag, i := "STMTTRNRS", 2
			if bad {
				byTag[tag][i].apply(n)
				want = append(want, solo(tag, i))
			}
			f := v.FieldByName(field)
			f.Set(reflect.Append(f, reflect.ValueOf(model.BuildMsg(model.MsgByTag(tag), n))))
			all["x"] = solo(tag, i)
		}
		a, b := x.Choose("field", len(model.Slots)), x.Choose("field", len(model.Slots))
		put(model.Slots[a].Field, 0, x.Choose("bad", 2) == 1)
		put(model.Slots[b].Field, 50, x.Choose("bad", 2) == 1)
		put(model.Slots[b].Field, 90, x.Choose("bad", 2) == 1)
		before := strings.Join(model.CanonResponse(r), "\n")
		ok, err := r.Valid()
		if ok != (len(want) == 0) {
			x.Fail("verdict", "%d invalid parts, valid=%v", len(want), ok)
		}
		check(x, err, want, all)
		if after := strings.Join(model.CanonResponse(r), "\n"); after != before {
			x.Fail("mutated", "Valid changed the response")
		}
		x.State(fmt.Sprint(a, b, len(want)))
	}})
}

// otherStatus lists valid statuses of every severity.
var otherStatus = [][2]string{{"1", "INFO"}, {"15000", "INFO"}, {"15500", "ERROR"}, {"2000", "ERROR"}, {"12250", "WARN"}, {"2003", "ERROR"}}

// setStatus gives a message or signon a status.
func setStatus(n *model.Node, s [2]string) {
	st := n.Find("STATUS")
	c := st.Find("CODE")
	c.Text = s[0]
	fmt.Sscan(s[0], &c.V.I)
	v := st.Find("SEVERITY")
	v.Text, v.V = s[1], model.Val{S: s[1]}
}

// validOf calls Valid(version) of a message or signon.
func validOf(v interface{}, version int) (bool, error) {
	m := reflect.ValueOf(v).MethodByName("Valid")
	a := reflect.New(m.Type().In(0)).Elem()
	for _, w := range model.Versions {
		if w.Num == version {
			a.SetUint(uint64(w.Val))
		}
	}
	out := m.Call([]reflect.Value{a})
	err, _ := out[1].Interface().(error)
	return out[0].Bool(), err
}
