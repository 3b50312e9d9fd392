package checks

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	_ "time/tzdata"

	"github.com/aclindsa/ofxgo"
	"github.com/aclindsa/xml"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	// the clock of the machine is not set to GMT
	if l, err := time.LoadLocation("America/St_Johns"); err == nil {
		time.Local = l
	}
	register("C13", "exhaustive enumeration of bounded amount texts and decimal values against an exact decimal model", "", c13)
	register("C14", "exhaustive enumeration of date components, zones and malformations against an independent calendar", "", c14)
	register("C15", "exhaustive enumeration of enumerated types, values and texts against the specification's tables", "", c15)
	register("C16", "exhaustive enumeration of status codes and severities against the specification's table", "", c16)
	register("C17", "exhaustive enumeration of bounded texts of the simple value types against their grammars", "", c17)
	register("C29", "exhaustive exploration of random source contents, read patterns and call histories", "", c29)
}

func leafXML(text string) []byte {
	return []byte("<T>" + model.Escape(text, 0) + "</T>")
}

func unmarshal(text string, v interface{}) error { return xml.Unmarshal(leafXML(text), v) }

// marshalLeaf returns the text of the element a value marshals to.
func marshalLeaf(x *explore.X, v interface{}) string {
	var b bytes.Buffer
	enc := xml.NewEncoder(&b)
	if err := enc.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: "T"}}); err != nil {
		x.Fail("marshal", "%v: %v", v, err)
	}
	enc.Flush()
	s := b.String()
	if s == "" {
		return ""
	}
	if !strings.HasPrefix(s, "<T>") || !strings.HasSuffix(s, "</T>") {
		x.Fail("marshal", "%v is marshalled as %q", v, s)
	}
	toks, err := model.Tokens(s)
	if err != nil || len(toks) > 3 {
		x.Fail("marshal", "%v is marshalled as %q", v, s)
	}
	if len(toks) == 3 {
		return toks[1].Text
	}
	return ""
}

// strings over an alphabet: the execution picks length and characters.
func pickString(x *explore.X, alpha []string, max int) string {
	n := x.Choose("length", max+1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(alpha[x.Choose("char", len(alpha))])
	}
	return b.String()
}

// anyChars lists every printable character of ASCII and some others.
func anyChars() []rune {
	var out []rune
	for r := rune(0x20); r < 0x7f; r++ {
		out = append(out, r)
	}
	return append(out, []rune("\t\n\r\u00a0\u2009\u202f\u2007\ufeff\u200b\u200e\u00ad\u0660\u0661\u06f1\uff10\uff11\uff0e\uff0c\uff0b\uff0d\u2212\u2013\u2010\u066b\u066c\u00b7\u2019\u00b2\u00bd\u20ac\u00a3\u00e9\uff39\uff2e\u017f\u0131\u0130\u212a")...)
}

// editOf replaces, inserts, doubles, drops or swaps characters of a text:
// every single edit, and every pair of insertions of one character.
func editOf(x *explore.X, seed string, pairs bool) string {
	s := []rune(seed)
	cs := anyChars()
	at := x.Choose("position", len(s)+1)
	k := x.Choose("edit", 2*len(cs)+3)
	ins := func(s []rune, p int, r rune) []rune {
		return append(append(append([]rune{}, s[:p]...), r), s[p:]...)
	}
	switch {
	case k < len(cs):
		s = ins(s, at, cs[k])
		if pairs && x.Choose("again", 2) == 1 {
			s = ins(s, x.Choose("where", len(s)+1), cs[k])
		}
	case at == len(s):
		x.Skip()
	case k < 2*len(cs):
		s[at] = cs[k-len(cs)]
	case k == 2*len(cs):
		s = append(s[:at:at], s[at+1:]...)
	case k == 2*len(cs)+1:
		s = ins(s, at, s[at])
	default:
		if at+1 == len(s) {
			x.Skip()
		}
		s[at], s[at+1] = s[at+1], s[at]
	}
	return string(s)
}

// exponents, fractions, other bases and underscores are not judged
var amountOpen = regexp.MustCompile(`^[0-9a-fA-FxXoObBpP_./,+-]*[eEpP_/xXbBoO][0-9a-fA-FxXoObBpP_./,+-]*$`)

var (
	numPrefixes = []string{"", "-", "+", "(", "$", "-$", "$-", "($", "\u20ac", "\u00a3", "USD", "USD ", "$ ", "EUR ", "- ", "+ ", "--", "++", "+-", "-+", "#", "~", "=", "'", "\"", "<", ">", "*", "CR", "CR ", "Rs.", "0x", "0", "00", ".", ","}
	numSuffixes = []string{"", ")", "-", "+", " -", "CR", "DR", "cr", "dr", " CR", " DR", "Cr", "Dr", "C", "D", "c", "%", " %", "$", " USD", "USD", " EUR", "\u20ac", "K", "M", "k", "m", " k", "e2", "E2", "e-2", "E+2", "e", "p2", "P-2", "/2", "/1", "f", "d", "L", "'", "\"", ".-", ".--", ",-", ",--", "*", " .", " 0", "^2", ";", ":00"}
	numBodies   = []string{"5", "5.00", "5,00", ".5", ",5", "5.", "5,", "1,234.56", "1.234,56", "1 234.56", "1 234,56", "1'234.56", "1_234.56", "1234_5", "1234,567", "1,234", "1.234", "12,34,567.89", "1,234,567", "1.234.567", "1.2.3", "1,2,3", "1.2,3", "1F", "b11", "o17", "1e5", "1E5", "1e-5", "Inf", "inf", "NaN", "nan", "infinity", "one", "\u00bd", "1/2", "3/4", "1 1/2", "00005", "0", "-5", "+5", "NULL", "null", "N/A", "-", ""}
	// words which might be meant as yes or no
	boolWords = []string{"YES", "Yes", "yes", "NO", "No", "no", "TRUE", "True", "true", "FALSE", "False", "false", "T", "F", "t", "f", "1", "0", "-1", "00", "01", "ON", "on", "OFF", "off", "J", "JA", "ja", "nein", "oui", "OUI", "NON", "non", "si", "S", "X", "x", "OK", "ok", "enabled", "null", "NULL", "nil", "none", "NONE", "Y.", "Y/N", "YN", "NY", "YY", "NN", "Y Y", "Yn"}
)

var spaces = []string{"", " ", "\n", "\t ", "\r\n"}

// ---- C13

func checkAmountText(x *explore.X, text string) {
	var a ofxgo.Amount
	if x.Worker()%2 == 1 {
		a.SetFrac64(-22, 7) // overwritten by parsing
	}
	err := unmarshal(text, &a)
	want, ok := model.ParseDecimal(text)
	if ok != (err == nil) {
		x.Fail("verdict", "amount %q: number=%v but error is %v", text, ok, err)
	}
	if ok {
		if want.Cmp(&a.Rat) != 0 {
			x.Fail("value", "amount %q read as %s", text, a.Rat.RatString())
		}
		checkAmount(x, want, a)
	}
	x.State(text, fmt.Sprint(ok))
}

// checkAmount checks how a number of up to a hundred decimals is written.
func checkAmount(x *explore.X, want *big.Rat, a ofxgo.Amount) {
	s := a.String()
	if s != model.Decimal(want) && !(want.Sign() == 0 && s == "0") {
		x.Fail("text", "%s is written %q, want %q", want.RatString(), s, model.Decimal(want))
	}
	if m := marshalLeaf(x, a); m != s {
		x.Fail("text", "%s is marshalled as %q but printed as %q", want.RatString(), m, s)
	}
	if m := marshalLeaf(x, &a); m != s {
		x.Fail("text", "*%s is marshalled as %q but printed as %q", want.RatString(), m, s)
	}
	var b ofxgo.Amount
	if err := unmarshal(s, &b); err != nil {
		x.Fail("readback", "%q written for %s is refused: %v", s, want.RatString(), err)
	}
	if b.Cmp(want) != 0 || !a.Equal(b) || !b.Equal(a) {
		x.Fail("readback", "%q written for %s reads back as %s", s, want.RatString(), b.Rat.RatString())
	}
	if a.Cmp(want) != 0 {
		x.Fail("mutated", "writing changed %s to %s", want.RatString(), a.Rat.RatString())
	}
}

func pow10(n int) *big.Rat {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(n))), nil)
	r := new(big.Rat).SetInt(p)
	if n < 0 {
		r.Inv(r)
	}
	return r
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func c13(c *Ctx) {
	c.Assume = append(c.Assume, "texts with exponents, fractions or digit separators are outside the explored domain")
	alpha := []string{"0", "1", "9", ".", ",", "-", "+", " "}
	c.Space(&explore.Space{Name: "texts", Body: func(x *explore.X) {
		checkAmountText(x, pickString(x, alpha, c.Pick(5, 6)))
	}})
	c.Space(&explore.Space{Name: "digits", Body: func(x *explore.X) {
		checkAmountText(x, pickString(x, []string{"0", "3", "5", "7", "."}, c.Pick(6, 8)))
	}})
	c.Space(&explore.Space{Name: "letters", Body: func(x *explore.X) {
		s := pickString(x, []string{"1", ".", "-", "a", "$", "%", "x1", "Inf", "NaN", " 2", "(", "\u0661", "\u2212"}, c.Pick(3, 4))
		if strings.Contains(s, "1x1") || strings.Contains(s, "0x1") {
			x.Skip()
		}
		checkAmountText(x, s)
	}})
	// every edit of numbers in different notations
	aseeds := []string{"1234567.89", "-1234", "1000000", "1,5", "+0.75", "1,234.5", "1.234,56", "1 234.5", "1'234", "(12.50)", "12-", "$5", "5%", "12.50CR", "12.50DR", ".5", "5.", "-.5", "1,234,567", "1.234.567", "USD5", "5 USD", "--5", "+-5", "1..5", "1.,5"}
	c.Space(&explore.Space{Name: "edits", Body: func(x *explore.X) {
		s := editOf(x, aseeds[x.Choose("seed", len(aseeds))], c.Thorough())
		if strings.ContainsAny(s, "eEpPxXoObB_/") || strings.Contains(s, "Inf") || strings.Contains(s, "NaN") {
			x.Skip()
		}
		checkAmountText(x, s)
	}})
	c.Space(&explore.Space{Name: "space", Body: func(x *explore.X) {
		n := []string{"0", "1.5", "-1,25", "+7", ".5"}
		checkAmountText(x, spaces[x.Choose("before", len(spaces))]+n[x.Choose("number", len(n))]+spaces[x.Choose("after", len(spaces))])
	}})
	// long numbers: digits before and after the point
	lens := []int{0, 1, 2, 8, 9, 17, 18, 19, 20, 37, 38, 39, 64, 99, 100}
	pats := []string{"1", "9", "12345678901234567890", "10", "0"}
	c.Space(&explore.Space{Name: "long", Body: func(x *explore.X) {
		sign := []string{"", "-", "+"}[x.Choose("sign", 3)]
		fill := func(n int) string {
			p := pats[x.Choose("pattern", len(pats))]
			return strings.Repeat(p, n/len(p)+1)[:n]
		}
		ip := fill(lens[x.Choose("int", len(lens))])
		fp := fill(lens[x.Choose("frac", len(lens))])
		point := []string{".", ","}[x.Choose("point", 2)]
		if fp == "" && x.Choose("nopoint", 2) == 1 {
			point = ""
		}
		checkAmountText(x, sign+ip+point+fp)
	}})
	// the ways people write amounts
	c.Space(&explore.Space{Name: "notations", Body: func(x *explore.X) {
		before := numPrefixes[x.Choose("before", len(numPrefixes))]
		body := numBodies[x.Choose("body", len(numBodies))]
		for _, after := range numSuffixes {
			if t := before + body + after; !amountOpen.MatchString(strings.TrimSpace(t)) {
				checkAmountText(x, t)
			}
		}
	}})
	// values digits * 10^exp
	mant := []int64{1, 2, 5, 7, 9, 10, 11, 15, 25, 99, 101, 125, 250, 999, 1000, 1001, 12345, 99999999, 1<<31 - 1, 1 << 32, 1<<53 + 1, 1<<63 - 1}
	mant = append(mant, Lit.Ints...)
	c.Space(&explore.Space{Name: "values", Body: func(x *explore.X) {
		m := mant[x.Choose("mantissa", len(mant))]
		if x.Choose("sign", 2) == 1 {
			m = -m
		}
		e := 60 - x.Choose("exponent", 161)
		want := new(big.Rat).Mul(big.NewRat(m, 1), pow10(e))
		var a ofxgo.Amount
		a.Set(want)
		checkAmount(x, want, a)
		x.State(want.RatString())
	}})
	// values mantissa * 2^exp: binary fractions have finitely many decimals
	c.Space(&explore.Space{Name: "binary", Body: func(x *explore.X) {
		m := mant[x.Choose("mantissa", len(mant))]
		if x.Choose("sign", 2) == 1 {
			m = -m
		}
		e := 100 - x.Choose("exponent", 201)
		two := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(max(e, -e))))
		if e < 0 {
			two.Inv(two)
		}
		want := new(big.Rat).Mul(big.NewRat(m, 1), two)
		var a ofxgo.Amount
		a.Set(want)
		checkAmount(x, want, a)
		x.State(want.RatString())
	}})
	c.Space(&explore.Space{Name: "cents", Body: func(x *explore.X) {
		lo := x.Choose("hundreds", c.Pick(200, 2000))
		for i := 0; i < 100; i++ {
			n := int64(lo*100 + i)
			for _, d := range []int64{1, 100, 1000, 8, 3125} {
				for _, s := range []int64{1, -1} {
					want := big.NewRat(s*n, d)
					var a ofxgo.Amount
					a.Set(want)
					if s2 := a.String(); s2 != model.Decimal(want) {
						x.Fail("text", "%s is written %q, want %q", want.RatString(), s2, model.Decimal(want))
					}
				}
			}
		}
		x.State(fmt.Sprint(lo))
	}})
	// equality of all pairs
	var vals []*big.Rat
	for _, s := range []string{"0", "1", "-1", "0.1", "-0.1", "1.1", "10", "100", "0.01", "1e20", "18446744073709551616", "18446744073709551617", "-18446744073709551616", "9223372036854775808", "1.0000000000000000000000000000000000001", "0.9999999999999999999999999", "4294967296", "4294967297", "0.5", "0.25", "2.5"} {
		r, _ := new(big.Rat).SetString(s)
		vals = append(vals, r)
	}
	vals = append(vals, big.NewRat(1, 3), big.NewRat(-1, 3), big.NewRat(2, 3), big.NewRat(1, 7))
	// differences beyond any number of decimals
	third, _ := new(big.Rat).SetString("0." + strings.Repeat("3", 100))
	vals = append(vals, third)
	for _, e := range []int{-16, -20, -100, -101, -102, -150, -400} {
		one := big.NewRat(1, 1)
		vals = append(vals, pow10(e), new(big.Rat).Neg(pow10(e)), new(big.Rat).Add(one, pow10(e)), new(big.Rat).Sub(one, pow10(e)))
	}
	for _, f := range []float64{0.1, 0.3, 1.1} {
		vals = append(vals, new(big.Rat).SetFloat64(f))
	}
	c.Space(&explore.Space{Name: "equal", Body: func(x *explore.X) {
		i, j := x.Choose("a", len(vals)), x.Choose("b", len(vals))
		var a, b ofxgo.Amount
		a.Set(vals[i])
		b.Set(vals[j])
		if a.Equal(b) != (i == j) {
			x.Fail("equal", "%s equals %s: %v", vals[i].RatString(), vals[j].RatString(), a.Equal(b))
		}
		if a.Cmp(vals[i]) != 0 || b.Cmp(vals[j]) != 0 {
			x.Fail("mutated", "comparing changed an amount")
		}
		x.State(fmt.Sprint(i, j))
	}})
	// one variable read into repeatedly
	texts := []string{"0", "-17.25", "100", "0.001", "123456789012345678901234567890"}
	c.Space(&explore.Space{Name: "reuse", Body: func(x *explore.X) {
		var a ofxgo.Amount
		var copies []ofxgo.Amount
		var wants []*big.Rat
		for i := 0; i < 3; i++ {
			t := texts[x.Choose("text", len(texts))]
			// a fresh value must not share state with copies made before
			var b ofxgo.Amount
			if err := unmarshal(t, &b); err != nil {
				x.Fail("verdict", "%q: %v", t, err)
			}
			if err := unmarshal(t, &a); err != nil {
				x.Fail("verdict", "%q: %v", t, err)
			}
			w, _ := model.ParseDecimal(t)
			if a.Cmp(w) != 0 {
				x.Fail("value", "%q read as %s", t, a.Rat.RatString())
			}
			_ = a.String()
			copies, wants = append(copies, b), append(wants, w)
			for j := range copies {
				if copies[j].Cmp(wants[j]) != 0 {
					x.Fail("shared", "reading another amount changed %s to %s", wants[j].RatString(), copies[j].Rat.RatString())
				}
			}
		}
		x.State(fmt.Sprint(wants))
	}})
}

// ---- C14

func checkDateText(x *explore.X, text string) {
	want, ok, tolerated := model.ClassifyDate(text)
	d := ofxgo.Date{Time: time.Unix(12345, 6).In(time.FixedZone("X", 3600))}
	err := unmarshal(text, &d)
	if ok {
		if err != nil {
			x.Fail("refused", "date %q: %v", text, err)
		}
		if got := model.DateOf(d); got.MS != want.MS || d.Nanosecond()%1000000 != 0 {
			x.Fail("instant", "date %q read as %v, want %s", text, d.Time, time.UnixMilli(want.MS).UTC())
		}
		checkDate(x, d, want)
	} else if !tolerated && err == nil {
		x.Fail("accepted", "text %q read as date %v", text, d.Time)
	}
	x.State(text, fmt.Sprint(err == nil))
}

var dateForm = regexp.MustCompile(`^[0-9]{14}\.[0-9]{3}\[[+-]?[0-9]{1,2}(\.[0-9]{2})?(:[A-Z]+)?\]$`)

func checkDate(x *explore.X, d ofxgo.Date, want model.Val) {
	s := d.String()
	if !dateForm.MatchString(s) {
		x.Fail("text", "%v is written %q", d.Time, s)
	}
	v, ok := model.ParseDate(s)
	if !ok || v.MS != want.MS {
		x.Fail("text", "%v is written %q which denotes %s", d.Time, s, time.UnixMilli(v.MS).UTC())
	}
	if m := marshalLeaf(x, d); m != s {
		x.Fail("text", "%v is marshalled as %q but printed as %q", d.Time, m, s)
	}
	var b ofxgo.Date
	if err := unmarshal(s, &b); err != nil {
		x.Fail("readback", "%q written for %v is refused: %v", s, d.Time, err)
	}
	if !b.Equal(d) || !d.Equal(b) || b.UnixNano() != d.UnixNano() {
		x.Fail("readback", "%q written for %v reads back as %v", s, d.Time, b.Time)
	}
}

func c14(c *Ctx) {
	c.Assume = append(c.Assume, "zone fractions are multiples of .05 hours (whole minutes); surplus text after a closing bracket, a missing closing bracket, fractions of a second of other lengths and minutes of 60 in zones are not judged")
	deep := c.Thorough()
	years := []int{2000, 1970, 1999, 2004, 2100, 1, 1582, 1900, 1969, 2016, 2038, 9998}
	times := []string{"000000", "235959", "123456", "010203", "095901", "200059"}
	millis := []string{"000", "999", "001", "500", "123"}
	var zones []string
	zones = append(zones, "", "[0]", "[0:GMT]", "[-0]", "[+0:UTC]")
	fr := []string{"", ".00", ".25", ".50", ".75"}
	names := []string{"", ":EST"}
	for h := 0; h <= 14; h++ {
		for _, sg := range []string{"", "-", "+"} {
			for _, f := range fr {
				for _, n := range names {
					zones = append(zones, fmt.Sprintf("[%s%d%s%s]", sg, h, f, n))
				}
			}
		}
	}
	form := func(x *explore.X, y, mo, d int, tm, ms string) string {
		s := fmt.Sprintf("%04d%02d%02d", y, mo, d)
		switch x.Choose("form", 5) {
		case 0:
			return s + tm + "." + ms
		case 1:
			return s + tm
		case 2:
			return s + tm[:4]
		case 3:
			return s + tm[:2]
		}
		return s
	}
	// every zone at chosen instants
	c.Space(&explore.Space{Name: "zones", Bound: 1, Body: func(x *explore.X) {
		z := zones[x.Choose("zone", len(zones))]
		y := years[x.Dev("year", len(years))]
		mo := 1 + x.Dev("month", 12)
		d := []int{1, 28, 29, 30, 31}[x.Dev("day", 5)]
		checkDateText(x, form(x, y, mo, d, times[x.Dev("time", len(times))], millis[x.Dev("ms", len(millis))])+z)
	}})
	// calendar: every day of chosen years
	c.Space(&explore.Space{Name: "calendar", Body: func(x *explore.X) {
		y := years[x.Choose("year", len(years))]
		mo := x.Choose("month", 14)
		for d := 0; d <= 32; d++ {
			checkDateText(x, fmt.Sprintf("%04d%02d%02d", y, mo, d))
			checkDateText(x, fmt.Sprintf("%04d%02d%02d235959.999[-8:PST]", y, mo, d))
		}
	}})
	// times: every hour, minute, second value
	c.Space(&explore.Space{Name: "times", Body: func(x *explore.X) {
		h := x.Choose("hour", 26)
		for m := 0; m <= 61; m++ {
			checkDateText(x, fmt.Sprintf("20070301%02d%02d", h, m))
			step := 19
			if deep {
				step = 1
			}
			for s := 0; s <= 61; s += step {
				checkDateText(x, fmt.Sprintf("20070301%02d%02d%02d.%03d[+5.50:IST]", h, m, s, (m*61+s)%1000))
			}
			checkDateText(x, fmt.Sprintf("20070301%02d%02d59", h, m))
			checkDateText(x, fmt.Sprintf("20070301%02d%02d60", h, m))
		}
	}})
	c.Space(&explore.Space{Name: "millis", Body: func(x *explore.X) {
		a := x.Choose("hundreds", 10)
		for i := 0; i < 100; i++ {
			checkDateText(x, fmt.Sprintf("20070301102030.%03d", a*100+i))
			checkDateText(x, fmt.Sprintf("19070301102030.%03d[-3.50:NST]", a*100+i))
		}
	}})
	// zone names and space
	zn := []string{"GMT", "UTC", "EST", "EDT", "CET", "CEST", "AEST", "NZST", "WAKT", "MSK", "Z", "A", "ABCDEFG", "est", "E1T", "+05", "E T", ""}
	c.Space(&explore.Space{Name: "names", Body: func(x *explore.X) {
		n := zn[x.Choose("name", len(zn))]
		o := []string{"0", "-5", "+5.50", "-0.50", "12.75"}[x.Choose("offset", 5)]
		text := spaces[x.Choose("before", len(spaces))] + form(x, 2005, 10, 29, "101003", "010") + "[" + o + ":" + n + "]" + spaces[x.Choose("after", len(spaces))]
		checkDateText(x, text)
		checkDateText(x, strings.Replace(text, "["+o+":"+n+"]", "", 1))
	}})
	// the ways people write dates
	pick := func(x *explore.X, l string, vs []string) string { return vs[x.Choose(l, len(vs))] }
	c.Space(&explore.Space{Name: "notations", Body: func(x *explore.X) {
		p := strings.Fields(pick(x, "order", []string{"2006 01 02", "01 02 2006", "02 01 2006", "06 01 02", "02 Jan 2006", "Jan 02 2006", "2006 Jan 02", "2006 1 2", "2006 01", "2006 061", "Mon 2006-01 02"}))
		d := p[0]
		seps := []string{"", "-", "/", ".", " ", ", "}
		for _, q := range p[1:] {
			d += pick(x, "separator", seps) + q
		}
		join := pick(x, "join", []string{"", " ", "T", "-", "_", ":"})
		sep := pick(x, "time separator", []string{"", ":", ".", " "})
		for _, t := range [][]string{nil, {"15"}, {"15", "04"}, {"15", "04", "05"}, {"24"}, {"24", "00"}, {"24", "00", "00"}, {"03", "04"}, {"3", "4", "5"}} {
			if t == nil && join+sep != "" {
				continue
			}
			for _, ms := range []string{"", ".123", ",123", ":123", ".1", ".000", ".123456"} {
				for _, zone := range []string{"", "Z", "z", "+00:00", "+0200", "-05:00", " GMT", "GMT", " UTC", " EST", "[0:GMT]", "[-5:EST]", "[-5.00:EST]", "[EST]", "[-5:00]", "[-0500]", "[GMT-5]", "[+05:30]", " PM", "PM", " am", "[]"} {
					checkDateText(x, d+join+strings.Join(t, sep)+ms+zone)
				}
			}
		}
	}})
	c.Space(&explore.Space{Name: "numbers", Body: func(x *explore.X) {
		s := pick(x, "number", []string{"0", "1", "1130580603", "1130580603000", "2453673", "38654", "38654.42", "130580603", "99991231", "00000000", "00000101", "00010101", "000000000000", "00000000000000", "99999999", "99999999999999", "20051029246060", "now", "today", "NULL", "null", "N/A", "none", "-", "never"})
		checkDateText(x, s)
		checkDateText(x, "-"+s)
		checkDateText(x, "+"+s)
		checkDateText(x, s+"[0:GMT]")
	}})
	// malformed: edits of valid dates
	seeds := []string{"20051029101003.010[-5.50:EST]", "20051029101003", "200510291010", "20051029", "20051029101003.010[0:GMT]"}
	c.Space(&explore.Space{Name: "any edit", Body: func(x *explore.X) {
		checkDateText(x, editOf(x, seeds[x.Choose("seed", len(seeds))], c.Thorough()))
	}})
	chars := []string{"0", "1", "3", "9", "A", "-", "+", ":", ".", "[", "]", " ", "/", "\u0665", "T", "Z"}
	c.Space(&explore.Space{Name: "edits", Bound: c.Pick(1, 2), Body: func(x *explore.X) {
		s := []rune(seeds[x.Choose("seed", len(seeds))])
		for k := 0; k < 2; k++ {
			e := x.Dev("edit", 3*len(s)*len(chars)+1)
			if e == 0 {
				continue
			}
			e--
			ch := []rune(chars[e%len(chars)])[0]
			e /= len(chars)
			p := e / 3
			switch e % 3 {
			case 0:
				s[p] = ch
			case 1:
				s = append(s[:p:p], append([]rune{ch}, s[p:]...)...)
			case 2:
				s = append(s[:p:p], s[p+1:]...)
			}
		}
		checkDateText(x, string(s))
	}})
	c.Space(&explore.Space{Name: "short", Body: func(x *explore.X) {
		checkDateText(x, pickString(x, []string{"2", "0", "1", "20051029", "[", "]", ":", "."}, c.Pick(4, 5)))
	}})
	// writing: any zone
	wz := []string{"", "GMT", "UTC", "EST", "-03", "+0530", "LMT", "CEST", "x", "E:T", "]", "\u00c9T", "ABCDEF", "A"}
	insts := []int64{0, 1, -1, 951782400000, 951782399999, 1130580603010, -2208988800000, 253370764800000, -62100000000000, 4102444800000, -62135596800000 + 86400000*2, 1583020799500}
	c.Space(&explore.Space{Name: "write", Body: func(x *explore.X) {
		z := wz[x.Choose("name", len(wz))]
		oh := x.Choose("hour", 29) - 14
		for om := 0; om < 60; om++ {
			for _, os := range []int{0, 0, 30, 1} {
				if os != 0 && !deep && om%7 != 0 {
					continue
				}
				off := oh*3600 + om*60 + os
				if off > 14*3600 {
					continue
				}
				for i, ms := range insts {
					if !deep && (i+om)%3 != 0 {
						continue
					}
					d := ofxgo.Date{Time: time.UnixMilli(ms).In(time.FixedZone(z, off))}
					checkDate(x, d, model.Val{MS: ms})
				}
			}
		}
		x.State(z, fmt.Sprint(oh))
	}})
	// places whose clocks change
	c.Space(&explore.Space{Name: "places", Body: func(x *explore.X) {
		loc := places()[x.Choose("place", len(places()))]
		y := 1880 + x.Choose("year", 160)
		// around every change of the clocks, and every few days
		for t := time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC); t.Year() == y; t = t.AddDate(0, 0, c.Pick(11, 1)) {
			d := ofxgo.Date{Time: t.Add(time.Duration(t.YearDay()%24) * time.Hour).In(loc)}
			checkDate(x, d, model.Val{MS: d.UnixMilli()})
			_, end := d.ZoneBounds()
			if end.IsZero() || end.Year() != y {
				continue
			}
			for _, by := range []time.Duration{-2 * time.Hour, -time.Hour, -time.Second, -time.Millisecond, 0, time.Millisecond, time.Hour, 2 * time.Hour} {
				d := ofxgo.Date{Time: end.Add(by).In(loc)}
				checkDate(x, d, model.Val{MS: d.UnixMilli()})
			}
			w := ofxgo.NewDate(y, end.Month(), end.Day(), end.Hour(), 30, 0, 0, loc)
			if want := time.Date(y, end.Month(), end.Day(), end.Hour(), 30, 0, 0, loc); !w.Time.Equal(want) {
				x.Fail("construct", "NewDate in %v gives %v instead of %v", loc, w.Time, want)
			}
		}
		x.State(loc.String(), fmt.Sprint(y))
	}})
	// the local time zone of the machine does not matter
	c.Space(&explore.Space{Name: "machine", Serial: true, Body: func(x *explore.X) {
		loc := places()[x.Choose("place", len(places()))]
		was := time.Local
		time.Local = loc
		defer func() { time.Local = was }()
		for _, y := range years {
			for mo := 1; mo <= 12; mo++ {
				for i, z := range []string{"", "[0:GMT]", "[-5:EST]", "[+5.50]"} {
					s := fmt.Sprintf("%04d%02d%02d", y, mo, 1+(y+mo+i)%28)
					checkDateText(x, s+z)
					checkDateText(x, s+"02"+z)
					checkDateText(x, s+"0230"+z)
					checkDateText(x, s+times[(mo+i)%len(times)]+z)
					checkDateText(x, s+times[(mo+i+1)%len(times)]+".123"+z)
				}
				a := ofxgo.NewDateGMT(y, time.Month(mo), 3, 2, 30, 33, 444000000)
				checkDate(x, *a, model.Val{MS: model.Civil(y, mo, 3)*86400000 + 2*3600000 + 30*60000 + 33444})
				if y > 1880 && y < 2040 {
					b := ofxgo.Date{Time: time.Date(y, time.Month(mo), 3, 2, 30, 33, 0, time.Local)}
					checkDate(x, b, model.Val{MS: b.UnixMilli()})
				}
			}
		}
		x.State(loc.String())
	}})
	c.Space(&explore.Space{Name: "constructors", Body: func(x *explore.X) {
		y := years[x.Choose("year", len(years))]
		mo, d := 1+x.Choose("month", 12), 1+x.Choose("day", 28)
		off := []int{0, -18000, 19800, -1800}[x.Choose("zone", 4)]
		want := model.Civil(y, mo, d)*86400000 + 11*3600000 + 22*60000 + 33*1000 + 444
		a := ofxgo.NewDateGMT(y, time.Month(mo), d, 11, 22, 33, 444000000)
		if a.UnixMilli() != want {
			x.Fail("construct", "NewDateGMT(%d,%d,%d,11,22,33,444ms) is %v", y, mo, d, a.Time)
		}
		b := ofxgo.NewDate(y, time.Month(mo), d, 11, 22, 33, 444000000, time.FixedZone("EST", off))
		if b.UnixMilli() != want-int64(off)*1000 {
			x.Fail("construct", "NewDate(%d,%d,%d,11,22,33,444ms,%ds) is %v", y, mo, d, off, b.Time)
		}
		checkDate(x, *a, model.Val{MS: want})
		checkDate(x, *b, model.Val{MS: want - int64(off)*1000})
		if a.Equal(*b) != (off == 0) || !a.Equal(ofxgo.Date{Time: a.In(time.FixedZone("Q", 3600))}) {
			x.Fail("equal", "%v equals %v: %v", a.Time, b.Time, a.Equal(*b))
		}
		x.State(fmt.Sprint(y, mo, d, off))
	}})
}

var placeOnce sync.Once
var placeList []*time.Location

// places lists locations with all kinds of clock changes.
func places() []*time.Location {
	placeOnce.Do(func() {
		for _, n := range []string{"America/New_York", "America/Los_Angeles", "America/St_Johns", "America/Caracas", "America/Sao_Paulo", "Europe/London", "Europe/Berlin", "Europe/Dublin", "Europe/Moscow", "Europe/Amsterdam", "Asia/Kolkata", "Asia/Kathmandu", "Asia/Tehran", "Asia/Pyongyang", "Asia/Tokyo", "Asia/Manila", "Australia/Sydney", "Australia/Lord_Howe", "Australia/Eucla", "Pacific/Auckland", "Pacific/Chatham", "Pacific/Apia", "Pacific/Kiritimati", "Pacific/Marquesas", "Africa/Casablanca", "Africa/Monrovia", "Antarctica/Troll", "Asia/Karachi"} {
			l, err := time.LoadLocation(n)
			if err != nil {
				panic("model: " + err.Error())
			}
			placeList = append(placeList, l)
		}
	})
	return placeList
}

// ---- C17

func c17(c *Ctx) {
	c.Assume = append(c.Assume, "lower-case currency codes are not judged")
	checkInt := func(x *explore.X, text string) {
		i := ofxgo.Int(77)
		err := unmarshal(text, &i)
		t := strings.TrimSpace(text)
		n, ok := new(big.Int), false
		if regexp.MustCompile(`^[+-]?[0-9]+$`).MatchString(t) {
			n.SetString(strings.TrimPrefix(t, "+"), 10)
			ok = n.IsInt64()
		}
		if ok != (err == nil) {
			x.Fail("int-verdict", "integer %q: error is %v", text, err)
		}
		if ok {
			if int64(i) != n.Int64() {
				x.Fail("int-value", "integer %q read as %d", text, i)
			}
			if m := marshalLeaf(x, i); m != n.String() {
				x.Fail("int-text", "%d is written %q", i, m)
			}
		}
		x.State("int", text, fmt.Sprint(err == nil))
	}
	c.Space(&explore.Space{Name: "int", Body: func(x *explore.X) {
		checkInt(x, pickString(x, []string{"0", "1", "7", "9", "-", "+", " ", ".", "a", "_", "0x", "e"}, c.Pick(4, 5)))
	}})
	c.Space(&explore.Space{Name: "int-notations", Body: func(x *explore.X) {
		before := numPrefixes[x.Choose("before", len(numPrefixes))]
		body := numBodies[x.Choose("body", len(numBodies))]
		for _, after := range numSuffixes {
			checkInt(x, before+body+after)
		}
	}})
	iseeds := []string{"1234567", "0", "-12", "+7", "007", "1000", "9223372036854775807", "12", "1,000", "1.0", "12.", "0x10", "1e3", "0b1", "0o7", "1_000", "12-", "(12)", "- 1", "--1"}
	c.Space(&explore.Space{Name: "int-edits", Body: func(x *explore.X) {
		checkInt(x, editOf(x, iseeds[x.Choose("seed", len(iseeds))], true))
	}})
	big63 := []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967296", "2147483648", "-2147483649", "99999999999999999999", "000000000000000000000000012", "100000000000000000000000000000000000000000", "127", "128", "255", "256", "32768", "65536"}
	for _, n := range Lit.Ints {
		big63 = append(big63, strconv.FormatInt(n, 10))
	}
	c.Space(&explore.Space{Name: "int-bounds", Body: func(x *explore.X) {
		checkInt(x, spaces[x.Choose("before", len(spaces))]+big63[x.Choose("number", len(big63))]+spaces[x.Choose("after", len(spaces))])
	}})
	c.Space(&explore.Space{Name: "int-equal", Body: func(x *explore.X) {
		v := []ofxgo.Int{0, 1, -1, 1 << 32, 1<<32 + 1, -1 << 63, 1<<63 - 1}
		i, j := x.Choose("a", len(v)), x.Choose("b", len(v))
		x.Check(v[i].Equal(v[j]) == (i == j), "int-equal", "%d equals %d: %v", v[i], v[j], v[i].Equal(v[j]))
		x.State("inteq", fmt.Sprint(i, j))
	}})
	checkBool := func(x *explore.X, text string) {
		for _, init := range []bool{false, true} {
			b := ofxgo.Boolean(init)
			err := unmarshal(text, &b)
			t := strings.TrimSpace(text)
			ok := t == "Y" || t == "N"
			if ok != (err == nil) {
				x.Fail("bool-verdict", "boolean %q: error is %v", text, err)
			}
			if ok {
				if bool(b) != (t == "Y") {
					x.Fail("bool-value", "boolean %q read as %v", text, b)
				}
				if m := marshalLeaf(x, b); m != t {
					x.Fail("bool-text", "%v is written %q", b, m)
				}
				if s := b.String(); s != fmt.Sprint(t == "Y") {
					x.Fail("bool-text", "%v is printed %q", t, s)
				}
			}
		}
		x.State("bool", text)
	}
	bt := []string{"true", "false", "YES", "NO", "Yes", "0", "1", "T", "F", "y", "n", "\u00ff", "\uff39"}
	bt = append(bt, boolWords...)
	c.Space(&explore.Space{Name: "bool", Body: func(x *explore.X) {
		if k := x.Choose("word", len(bt)+1); k > 0 {
			checkBool(x, bt[k-1])
			return
		}
		checkBool(x, pickString(x, []string{"Y", "N", "y", "n", "0", "1", " ", "\n", "T", "F", "-"}, c.Pick(3, 5)))
	}})
	c.Space(&explore.Space{Name: "bool-edits", Body: func(x *explore.X) {
		checkBool(x, editOf(x, []string{"Y", "N", "YES", "No", "true", "0"}[x.Choose("seed", 6)], true))
	}})
	checkText := func(x *explore.X, text string) {
		want := strings.TrimSpace(text)
		s := ofxgo.String("old")
		if err := unmarshal(text, &s); err != nil {
			x.Fail("string-verdict", "text %q: %v", text, err)
		}
		if string(s) != want || s.String() != want || !s.Equal(ofxgo.String(want)) {
			x.Fail("string-value", "text %q read as %q", text, s)
		}
		if m := marshalLeaf(x, s); m != want {
			x.Fail("string-text", "%q is written %q", want, m)
		}
		u := ofxgo.UID("old")
		if err := unmarshal(text, &u); err != nil {
			x.Fail("uid-verdict", "text %q: %v", text, err)
		}
		if string(u) != want || !u.Equal(ofxgo.UID(want)) || u.Equal(ofxgo.UID(want+"x")) {
			x.Fail("uid-value", "text %q read as %q", text, u)
		}
		if m := marshalLeaf(x, u); m != want {
			x.Fail("uid-text", "%q is written %q", want, m)
		}
		x.State("text", text)
	}
	texts := append([]string{"a", "B", " ", "  ", "\t", "\n", "<", "&amp;", "\u00e9", "0", "\U0001F600", "]]>"}, Lit.Strings...)
	c.Space(&explore.Space{Name: "text", Body: func(x *explore.X) {
		checkText(x, pickString(x, texts, c.Pick(4, 5)))
	}})
	c.Space(&explore.Space{Name: "text-length", Body: func(x *explore.X) {
		n := x.Choose("length", c.Pick(300, 5000))
		checkText(x, strings.Repeat("ab ", n/3)+"abc"[:1+n%3])
		for k := 0; k < longKinds && n > 0; k++ {
			checkText(x, longText(k, n))
		}
	}})
	lengths := append([]int{511, 512, 513, 514, 1000, 1023, 1024, 1025, 1026, 2048, 4096, 4097, 4098, 8192, 65534, 65535, 65536, 65537, 70000}, litSizes(1<<20)...)
	c.Space(&explore.Space{Name: "text-lengths", Body: func(x *explore.X) {
		checkText(x, longText(x.Choose("kind", longKinds), lengths[x.Choose("length", len(lengths))]))
	}})
	c.Space(&explore.Space{Name: "string-equal", Body: func(x *explore.X) {
		v := []string{"", "a", "A", "a ", "b", "ab", "\u00e9"}
		i, j := x.Choose("a", len(v)), x.Choose("b", len(v))
		x.Check(ofxgo.String(v[i]).Equal(ofxgo.String(v[j])) == (i == j), "string-equal", "%q equals %q", v[i], v[j])
		x.Check(ofxgo.UID(v[i]).Equal(ofxgo.UID(v[j])) == (i == j), "uid-equal", "%q equals %q", v[i], v[j])
		x.Check(ofxgo.Boolean(i%2 == 0).Equal(ofxgo.Boolean(j%2 == 0)) == (i%2 == j%2), "bool-equal", "booleans")
		x.State("streq", fmt.Sprint(i, j))
	}})
	checkUID := func(x *explore.X, s string) {
		u := ofxgo.UID(s)
		want := len(s) >= 1 && len(s) <= 36
		if ok, err := u.Valid(); ok != want || ok != (err == nil) {
			x.Fail("uid-valid", "UID %q: valid=%v, %v", s, ok, err)
		}
		rec := len(s) == 36 && s[8] == '-' && s[13] == '-' && s[18] == '-' && s[23] == '-'
		if ok, err := u.RecommendedFormat(); ok != rec || ok != (err == nil) {
			x.Fail("uid-recommended", "UID %q: recommended=%v, %v", s, ok, err)
		}
		x.State("uid", s)
	}
	c.Space(&explore.Space{Name: "uid-length", Body: func(x *explore.X) {
		n := x.Choose("length", 400)
		for _, f := range []string{"a", "-", "0", "Z", "f", " "} {
			checkUID(x, strings.Repeat(f, n))
		}
		canon := "01234567-89ab-cdef-0123-456789abcdef0123456789"
		if n < len(canon) {
			checkUID(x, canon[:n])
		}
	}})
	c.Space(&explore.Space{Name: "uid-format", Bound: c.Pick(3, 4), Body: func(x *explore.X) {
		b := []byte("01234567-89ab-cdef-0123-456789abcdef")
		for i := range b {
			if b[i] == '-' {
				b[i] = []byte("-0_ ")[x.Dev("hyphen", 4)]
			} else if x.Dev("char", 2) == 1 {
				b[i] = '-'
			}
		}
		checkUID(x, string(b))
	}})
	// currencies: all codes of three capital letters
	known := map[string]bool{}
	for _, k := range strings.Fields(model.CurrencyCodes) {
		known[k] = true
	}
	checkCurr := func(x *explore.X, text string) {
		cs, _ := ofxgo.NewCurrSymbol("EUR")
		sym := *cs
		err := unmarshal(text, &sym)
		t := strings.TrimSpace(text)
		if known[t] {
			if err != nil {
				x.Fail("curr-verdict", "currency %q: %v", text, err)
			}
			if sym.String() != t {
				x.Fail("curr-value", "currency %q read as %s", text, sym)
			}
			if m := marshalLeaf(x, sym); m != t {
				x.Fail("curr-text", "%s is written %q", t, m)
			}
			n, err := ofxgo.NewCurrSymbol(t)
			if err != nil || n == nil || n.String() != t || !n.Equal(sym) {
				x.Fail("curr-new", "NewCurrSymbol(%q) is %v, %v", t, n, err)
			}
			if ok, err := sym.Valid(); ok != (t != "XXX") || ok != (err == nil) {
				x.Fail("curr-valid", "currency %s: valid=%v, %v", t, ok, err)
			}
			if t != "USD" {
				usd, _ := ofxgo.NewCurrSymbol("USD")
				if usd.Equal(sym) {
					x.Fail("curr-equal", "USD equals %s", t)
				}
			}
		} else if !known[strings.ToUpper(t)] {
			if err == nil {
				x.Fail("curr-accepted", "text %q read as currency %s", text, sym)
			}
			if n, err := ofxgo.NewCurrSymbol(t); err == nil {
				x.Fail("curr-new", "NewCurrSymbol(%q) is %v", t, n)
			}
		}
	}
	c.Space(&explore.Space{Name: "currency", Body: func(x *explore.X) {
		a, b := byte('A'+x.Choose("1st", 26)), byte('A'+x.Choose("2nd", 26))
		for k := byte('A'); k <= 'Z'; k++ {
			checkCurr(x, string([]byte{a, b, k}))
		}
		x.State("curr", string([]byte{a, b}))
	}})
	c.Space(&explore.Space{Name: "currency-texts", Body: func(x *explore.X) {
		s := pickString(x, []string{"U", "S", "D", "USD", "E", " ", "\n", "1", "$", "\u20ac"}, 4)
		checkCurr(x, s)
		x.State("currtext", s)
	}})
	c.Space(&explore.Space{Name: "currency-edits", Body: func(x *explore.X) {
		s := editOf(x, []string{"USD", "EUR", "XXX", "CHF", "US DOLLAR", "978", "BTC"}[x.Choose("seed", 7)], true)
		checkCurr(x, s)
		x.State("curredit", s)
	}})
	c.Space(&explore.Space{Name: "text-edits", Body: func(x *explore.X) {
		s := editOf(x, []string{"a", "AB", "a b", "12"}[x.Choose("seed", 4)], true)
		if strings.ContainsAny(s, "\r") {
			x.Skip() // written as a line break
		}
		checkText(x, s)
	}})
	c.Space(&explore.Space{Name: "currency-zero", Body: func(x *explore.X) {
		var z ofxgo.CurrSymbol
		ok, err := z.Valid()
		x.Check(!ok && err != nil, "curr-valid", "an unset currency is valid")
		x.State("currzero")
	}})
}

// ---- C16

func c16(c *Ctx) {
	c.Assume = append(c.Assume, "the committed table of status codes, severities, meanings and conditions is the OFX specification's")
	sev := append([]string{"INFO", "WARN", "ERROR", "", "info", "ERR", "WARNING", "INFO ", "Error", "FATAL"}, Lit.Strings...)
	one := func(x *explore.X, code int64) {
		row, known := model.StatusByCode[code]
		for _, sv := range sev {
			for _, msg := range []ofxgo.String{"", "SUCCESS", "some message"} {
				s := ofxgo.Status{Code: ofxgo.Int(code), Severity: ofxgo.String(sv), Message: msg}
				ok, err := s.Valid()
				want := known && row.Severity == sv
				if ok != want || ok != (err == nil) {
					x.Fail("valid", "status %d %q: valid=%v, %v", code, sv, ok, err)
				}
				m, err := s.CodeMeaning()
				if known != (err == nil) || known && m != row.Meaning {
					x.Fail("meaning", "meaning of %d: %q, %v", code, m, err)
				}
				d, err := s.CodeConditions()
				if known != (err == nil) || known && d != row.Conditions {
					x.Fail("conditions", "conditions of %d: %q, %v", code, d, err)
				}
				if int64(s.Code) != code || string(s.Severity) != sv || s.Message != msg {
					x.Fail("mutated", "looking up %d changed the status", code)
				}
			}
		}
	}
	// messages do not matter
	c.Space(&explore.Space{Name: "messages", Body: func(x *explore.X) {
		ms := append([]string{"", " ", "x", "\n", "<&>", "é", "status", "0", "ERROR", "INFO"}, Lit.Strings...)
		for _, n := range append([]int{2, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10000, 65536}, litSizes(100000)...) {
			ms = append(ms, strings.Repeat("m", n), strings.Repeat("é", n/2))
		}
		row := model.StatusTable[x.Choose("row", len(model.StatusTable)+1)%len(model.StatusTable)]
		msg := ms[x.Choose("message", len(ms))]
		for _, sv := range []string{"INFO", "WARN", "ERROR", ""} {
			s := ofxgo.Status{Code: ofxgo.Int(row.Code), Severity: ofxgo.String(sv), Message: ofxgo.String(msg)}
			ok, err := s.Valid()
			if want := row.Severity == sv; ok != want || ok != (err == nil) {
				x.Fail("valid", "status %d %q with a message of %d bytes: valid=%v, %v", row.Code, sv, len(msg), ok, err)
			}
			m, err := s.CodeMeaning()
			d, err2 := s.CodeConditions()
			if err != nil || err2 != nil || m != row.Meaning || d != row.Conditions {
				x.Fail("meaning", "status %d with a message of %d bytes: %v %v", row.Code, len(msg), err, err2)
			}
		}
		x.State(fmt.Sprint(row.Code, len(msg)), msg[:min(len(msg), 20)])
	}})
	top := c.Pick(20000, 200000)
	c.Space(&explore.Space{Name: "codes", Body: func(x *explore.X) {
		b := x.Choose("block", top/100+1)
		for i := 0; i < 100; i++ {
			one(x, int64(b*100+i-50))
		}
		x.State(fmt.Sprint(b))
	}})
	var far []int64
	for _, r := range model.StatusTable {
		far = append(far, r.Code, -r.Code, r.Code+1<<32, r.Code-1<<32, r.Code+1<<16, r.Code+1<<31, r.Code+1<<62, r.Code*10, r.Code/10)
	}
	far = append(far, Lit.Ints...)
	c.Space(&explore.Space{Name: "far", Body: func(x *explore.X) {
		n := far[x.Choose("code", len(far))]
		one(x, n)
		x.State("far", fmt.Sprint(n))
	}})
	// through a parsed document
	c.Space(&explore.Space{Name: "documents", Body: func(x *explore.X) {
		i := x.Choose("row", len(model.StatusTable))
		row := model.StatusTable[i]
		sv := []string{"INFO", "WARN", "ERROR"}[x.Choose("severity", 3)]
		where := x.Choose("where", 2)
		var d *model.Doc
		var st *model.Node
		if where == 0 {
			d = newDoc(220)
			st = d.Signon.Find("STATUS")
		} else {
			g := &model.Gen{C: model.NoChoice{}}
			d = newDoc(220, g.Msg(model.MsgByTag("STMTTRNRS")))
			st = d.Msgs[0].Find("STATUS")
		}
		code := strconv.FormatInt(row.Code, 10)
		st.Kids[0].Text, st.Kids[0].V = code, model.Val{I: row.Code}
		st.Kids[1].Text, st.Kids[1].V = sv, model.Val{S: sv}
		text := d.Write(&model.Style{XML: true})
		r, err := parse(text)
		if r == nil || (err == nil) != (sv == row.Severity) {
			x.Fail("document", "status %d %s: %v", row.Code, sv, err)
		}
		s := r.Signon.Status
		if where == 1 {
			s = r.Bank[0].(*ofxgo.StatementResponse).Status
		}
		if int64(s.Code) != row.Code || string(s.Severity) != sv {
			x.Fail("document", "status %d %s read as %d %s", row.Code, sv, s.Code, s.Severity)
		}
		if m, err := s.CodeMeaning(); err != nil || m != row.Meaning {
			x.Fail("document", "meaning of %d: %q, %v", row.Code, m, err)
		}
		x.State("doc", code, sv, fmt.Sprint(where))
	}})
}

// ---- C29

type pattern struct {
	mu    sync.Mutex
	data  []byte
	pos   int
	chunk int
	reads int
}

func (p *pattern) Read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.reads++
	n := len(b)
	if p.chunk > 0 && n > p.chunk {
		n = p.chunk
	}
	for i := 0; i < n; i++ {
		b[i] = p.data[p.pos%len(p.data)]
		p.pos++
	}
	return n, nil
}

var uidForm = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$`)

// withRandom makes identifiers from a given random source.
func withRandom(data []byte, chunk, n int, x *explore.X) (out []string) {
	old := rand.Reader
	rand.Reader = &pattern{data: data, chunk: chunk}
	defer func() { rand.Reader = old }()
	for i := 0; i < n; i++ {
		u, err := ofxgo.RandomUID()
		if err != nil || u == nil {
			x.Fail("error", "RandomUID: %v", err)
		}
		if !uidForm.MatchString(string(*u)) {
			x.Fail("form", "RandomUID gives %q", *u)
		}
		if ok, err := u.RecommendedFormat(); !ok || err != nil {
			x.Fail("form", "RandomUID gives %q: %v", *u, err)
		}
		if ok, err := u.Valid(); !ok || err != nil {
			x.Fail("form", "RandomUID gives %q: %v", *u, err)
		}
		out = append(out, string(*u))
	}
	return
}

func c29(c *Ctx) {
	c.Assume = append(c.Assume, "the process's random source is crypto/rand.Reader, replaced by an enumerated one")
	var io16 io.Reader = rand.Reader
	_ = io16
	seen := map[string]string{}
	bases := [][]byte{bytes.Repeat([]byte{0}, 16), bytes.Repeat([]byte{0xff}, 16), []byte("\x01\x23\x45\x67\x89\xab\xcd\xef\xfe\xdc\xba\x98\x76\x54\x32\x10"), bytes.Repeat([]byte{0x0a, 0xa0}, 8), bytes.Repeat([]byte{0x00, 0x0f}, 8)}
	chunks := []int{0, 1, 3, 15}
	injective := func(x *explore.X, data []byte, id string) {
		h := hex.EncodeToString(data)
		if old, ok := seen[id]; ok && old != h {
			x.Fail("collision", "random bytes %s and %s both give %s", old, h, id)
		}
		seen[id] = h
		x.State(id)
	}
	// every value of every byte; every pair of bits
	c.Space(&explore.Space{Name: "bytes", Serial: true, Body: func(x *explore.X) {
		d := append([]byte(nil), bases[x.Choose("base", len(bases))]...)
		p := x.Choose("position", 16)
		d[p] = byte(x.Choose("value", 256))
		injective(x, d, withRandom(d, 0, 1, x)[0])
	}})
	c.Space(&explore.Space{Name: "bits", Serial: true, Bound: c.Pick(2, 3), Body: func(x *explore.X) {
		d := append([]byte(nil), bases[x.Choose("base", c.Pick(3, 2))]...)
		for i := 0; i < 128; i++ {
			if x.Dev("bit", 2) == 1 {
				d[i/8] ^= 1 << (i % 8)
			}
		}
		injective(x, d, withRandom(d, 0, 1, x)[0])
	}})
	// the way the source delivers its bytes does not matter
	c.Space(&explore.Space{Name: "chunks", Serial: true, Body: func(x *explore.X) {
		d := bases[x.Choose("base", len(bases))]
		a := withRandom(d, 0, 1, x)[0]
		b := withRandom(d, chunks[x.Choose("chunk", len(chunks))], 1, x)[0]
		x.Check(a == b, "short-reads", "%x gives %s, or %s with short reads", d, a, b)
		x.State(a)
	}})
	// histories: an identifier depends on its own bytes only
	c.Space(&explore.Space{Name: "histories", Serial: true, Body: func(x *explore.X) {
		n := 1 + x.Choose("calls", c.Pick(4, 5))
		var d []byte
		var want []string
		for i := 0; i < n; i++ {
			b := bases[x.Choose("bytes", len(bases))]
			d = append(d, b...)
			want = append(want, withRandom(b, 0, 1, x)[0])
		}
		got := withRandom(d, 0, n, x)
		for i := range got {
			if got[i] != want[i] {
				x.Fail("history", "call %d gives %s, alone it gives %s", i, got[i], want[i])
			}
		}
		x.State(got...)
	}})
	c.Space(&explore.Space{Name: "many", Serial: true, Body: func(x *explore.X) {
		n := c.Pick(5000, 100000)
		d := make([]byte, 0, 16*n)
		for i := 0; i < n; i++ {
			var b [16]byte
			b[i%16], b[(i/16)%16], b[15-(i/256)%16] = byte(i), byte(i>>8)^b[(i/16)%16], byte(i>>16)^byte(i*7)
			copy(b[4:], strconv.Itoa(i))
			d = append(d, b[:]...)
		}
		ids := withRandom(d, 0, n, x)
		sort.Strings(ids)
		src := map[string]bool{}
		for i := 0; i < n; i++ {
			src[string(d[16*i:16*i+16])] = true
		}
		distinct := map[string]bool{}
		for _, s := range ids {
			distinct[s] = true
		}
		x.Check(len(distinct) == len(src), "collision", "%d different random blocks give %d identifiers", len(src), len(distinct))
		x.State("many")
	}})
	// the real source, concurrently
	c.Space(&explore.Space{Name: "real", Serial: true, Body: func(x *explore.X) {
		const g, n = 8, 2000
		res := make([][]string, g)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < n; k++ {
					u, err := ofxgo.RandomUID()
					if err == nil && u != nil {
						res[i] = append(res[i], string(*u))
					}
				}
			}(i)
		}
		wg.Wait()
		all := map[string]bool{}
		for i := range res {
			for _, s := range res[i] {
				x.Check(uidForm.MatchString(s), "form", "RandomUID gives %q", s)
				all[s] = true
			}
		}
		x.Check(len(all) == g*n, "repeated", "%d calls gave %d identifiers", g*n, len(all))
		x.State("real")
	}})
}
