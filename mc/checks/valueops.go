package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"

	"verif/mc/model"
)

// valueOps read, build, write, compare and judge single values: texts and
// values which share one part and differ in another.
func valueOps() []op {
	var ops []op
	add := func(name string, f func() string) {
		ops = append(ops, op{name: name, prep: func(*opEnv, string) func() func() string {
			return func() func() string { s := f(); return func() string { return s } }
		}})
	}
	written := func(v interface{}) string {
		m, err := xml.Marshal(v)
		return fmt.Sprintf("%s %v", m, err)
	}
	// amounts
	for _, t := range []string{"1", "1.0", "01", "1,0", "-1", "+1", "1.5", "1.50", "100", "100.00", "0", "-0", "x", "", "12345678901234567890.123456789", "12345678901234567890.123456788", "0.1", "0.10", " 1 ", "1.005"} {
		t := t
		add(fmt.Sprintf("amount %q", t), func() string {
			var a ofxgo.Amount
			err := xml.Unmarshal(leafXML(t), &a)
			s := a.RatString() + " " + a.String() + " " + written(a) + " " + fmt.Sprint(err)
			a.Add(&a.Rat, big.NewRat(5, 1))
			return s + " " + a.String()
		})
	}
	for _, r := range [][2]int64{{1, 3}, {-1, 3}, {2, 3}, {1, 7}, {1, 1 << 40}, {5, 1}} {
		r := r
		add(fmt.Sprintf("amount %v", r), func() string {
			var a ofxgo.Amount
			a.SetFrac64(r[0], r[1])
			return a.String() + written(a)
		})
	}
	// dates
	for _, t := range []string{"20200301", "20200301000000", "2020030100", "202003010000", "20200301000000[0:GMT]", "20200301000000[0:UTC]", "20200301000000[-4:EDT]", "20200301000000[-4:AST]", "20200301000000[-4]", "20200301000000[-5:EST]", "20200301000000[-5:CDT]", "20200301000000[-5]", "20200301000000[+5.50:IST]", "20200301000000[+5.50]", "20200301000000[+5.30:IST]", "20200301000000[5:PKT]", "20200301000000[2:IST]", "20200301000000[1:IST]", "20200301000000[1:CET]", "20200301000000.000[-4:EDT]", "20200301000000.500[-4:EDT]", "20210301000000[-4:EDT]", "20210301000000[-4:AST]", "20200301120000[8:CST]", "20200301120000[-6:CST]", "20200701120000[-7:MST]", "20200701120000[-7:PDT]", "20201301", "20200301000000[x]", "bad", ""} {
		t := t
		add(fmt.Sprintf("date %q", t), func() string {
			var d ofxgo.Date
			err := xml.Unmarshal(leafXML(t), &d)
			n, off := d.Zone()
			return fmt.Sprintf("%v %s %v %v %s %d %v", d.UnixNano(), d.String(), written(d), d.Location(), n, off, err)
		})
	}
	for _, z := range []struct {
		name string
		off  int
	}{{"EDT", -14400}, {"AST", -14400}, {"", -14400}, {"EDT", -18000}, {"CDT", -18000}, {"GMT", 0}, {"UTC", 0}, {"IST", 19800}, {"IST", 7200}, {"IST", 3600}, {"edt", -14400}, {"-04", -14400}} {
		z := z
		add(fmt.Sprintf("new date %v", z), func() string {
			d := ofxgo.NewDate(2020, 3, 1, 2, 3, 4, 5000000, time.FixedZone(z.name, z.off))
			return d.String() + written(d) + fmt.Sprint(d.Equal(*ofxgo.NewDateGMT(2020, 3, 1, 6, 3, 4, 5000000)))
		})
	}
	// simple values
	for _, t := range []string{"1", "01", "+1", "-1", "256", "257", "x", "", "9223372036854775807", "9223372036854775808", "Y", "N", "y", "USD", "EUR", "XXX", "usd", "ABC", "CHECKING", "SAVINGS", "CREDIT", "DEBIT", "OTHER", "BUY", "SELL", "LONG", "SHORT", "CALL", "PUT", "INFO", "NONE", "100", "102", "160", "203", "ANNUAL", "MONTHLY", "a  b", "A B"} {
		t := t
		add(fmt.Sprintf("word %q", t), func() string {
			var b strings.Builder
			var i ofxgo.Int
			err := xml.Unmarshal(leafXML(t), &i)
			fmt.Fprintln(&b, i, err, written(i))
			var y ofxgo.Boolean
			err = xml.Unmarshal(leafXML(t), &y)
			fmt.Fprintln(&b, y, err, written(y))
			var s ofxgo.String
			err = xml.Unmarshal(leafXML(t), &s)
			fmt.Fprintln(&b, s, err, written(s))
			var u ofxgo.UID
			err = xml.Unmarshal(leafXML(t), &u)
			ok, err2 := u.Valid()
			rec, err3 := u.RecommendedFormat()
			fmt.Fprintln(&b, u, err, written(u), ok, err2, rec, err3)
			var c ofxgo.CurrSymbol
			err = xml.Unmarshal(leafXML(t), &c)
			ok, err2 = c.Valid()
			fmt.Fprintln(&b, c, err, ok, err2)
			n, err := ofxgo.NewCurrSymbol(t)
			fmt.Fprintln(&b, n, err)
			for _, e := range model.EnumTable {
				p := reflect.New(reflect.TypeOf(e.Values[0].Const))
				err := xml.Unmarshal(leafXML(t), p.Interface())
				fmt.Fprintln(&b, e.Type, p.Elem().Uint(), p.Interface(), err)
			}
			return b.String()
		})
	}
	for _, e := range model.EnumTable {
		e := e
		add("enumeration "+e.Type, func() string {
			var b strings.Builder
			for i := 0; i <= len(e.Values)+1; i++ {
				p := reflect.New(reflect.TypeOf(e.Values[0].Const))
				p.Elem().SetUint(uint64(i))
				fmt.Fprintln(&b, p.Interface(), p.MethodByName("Valid").Call(nil)[0].Bool(), written(p.Elem().Interface()))
			}
			return b.String()
		})
	}
	// statuses
	for _, code := range []int64{0, 1, 2, 100, 2000, 2001, 2003, 10500, 13000, 15000, 15500, 15501, 16500, 31337} {
		for _, sev := range []string{"INFO", "WARN", "ERROR", "BAD"} {
			for _, msg := range []string{"", "told"} {
				s := ofxgo.Status{Code: ofxgo.Int(code), Severity: ofxgo.String(sev), Message: ofxgo.String(msg)}
				add(fmt.Sprintf("status %d %s %q", code, sev, msg), func() string {
					ok, err := s.Valid()
					m, err2 := s.CodeMeaning()
					q, err3 := s.CodeConditions()
					return fmt.Sprintf("%v %v %q %v %q %v %s", ok, err, m, err2, q, err3, written(&s))
				})
			}
		}
	}
	// accounts and other parts with the same and other identifiers
	for _, id := range []string{"1", "2", ""} {
		for _, bank := range []string{"1", "2", ""} {
			for _, typ := range []string{"CHECKING", "SAVINGS", ""} {
				a := ofxgo.BankAcct{BankID: ofxgo.String(bank), AcctID: ofxgo.String(id)}
				if typ != "" {
					a.AcctType.FromString(typ)
				}
				add(fmt.Sprintf("account %s %s %s", bank, id, typ), func() string {
					ok, err := a.Valid()
					return fmt.Sprint(ok, err, written(&a))
				})
			}
		}
	}
	// clients for addresses
	for _, u := range []string{"https://ofx.discovercard.com", "https://ofx.discovercard.com/", "https://OFX.discovercard.com", "https://ofx.discovercard.com/x", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet", "https://vesnc.vanguard.com/us/OfxDirectConnectServlet/", "https://vesnc.vanguard.com/us", "https://vesnc.vanguard.com", "https://example.com/", "", "http://ofx.discovercard.com"} {
		for _, app := range []string{"A", "B"} {
			u, app := u, app
			add("client for "+u+" "+app, func() string {
				bc := &ofxgo.BasicClient{AppID: app, NoIndent: app == "B", CarriageReturn: app == "A"}
				c := ofxgo.GetClient(u, bc)
				return fmt.Sprintf("%T %s %s %s %v %v", c, c.ID(), c.Version(), c.OfxVersion(), c.IndentRequests(), c.CarriageReturnNewLines())
			})
		}
	}
	return ops
}
