package model

import (
	"fmt"
	"math/big"
	"strconv"
	"strings"
)

// LV is a lexical form with the value it denotes.
type LV struct {
	Text string
	V    Val
}

// ParseDecimal is an independent reader of OFX amounts: optional sign, digits,
// optionally a point or comma and decimals; at least one digit.
func ParseDecimal(s string) (*big.Rat, bool) {
	s = strings.TrimSpace(s)
	neg := false
	if s != "" && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	digits, dec, seen := "", 0, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			digits += string(c)
			if seen {
				dec++
			}
		case (c == '.' || c == ',') && !seen:
			seen = true
		default:
			return nil, false
		}
	}
	if digits == "" {
		return nil, false
	}
	num, _ := new(big.Int).SetString(digits, 10)
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil)
	r := new(big.Rat).SetFrac(num, den)
	if neg {
		r.Neg(r)
	}
	return r, true
}

// Decimal writes a number with n decimals' worth of exactness: plain decimal
// notation without superfluous zeros. The number must be a finite decimal.
func Decimal(r *big.Rat) string {
	for n := 0; n <= 400; n++ {
		s := r.FloatString(n)
		if back, ok := new(big.Rat).SetString(s); ok && back.Cmp(r) == 0 {
			return s
		}
	}
	panic("model: not a finite decimal")
}

func amt(s string) LV {
	r, ok := ParseDecimal(s)
	if !ok {
		panic("model: bad amount " + s)
	}
	return LV{s, Val{R: r}}
}

func dat(s string) LV {
	v, ok := ParseDate(s)
	if !ok {
		panic("model: bad date " + s)
	}
	return LV{s, v}
}

func str(s string) LV { return LV{s, Val{S: strings.TrimSpace(s)}} }

// daysFromCivil is an independent proleptic Gregorian calendar.
func daysFromCivil(y, m, d int) int64 {
	n := int64(0)
	// years since 1970
	if y >= 1970 {
		for i := 1970; i < y; i++ {
			n += 365
			if leap(i) {
				n++
			}
		}
	} else {
		for i := y; i < 1970; i++ {
			n -= 365
			if leap(i) {
				n--
			}
		}
	}
	for i := 1; i < m; i++ {
		n += int64(MonthDays(y, i))
	}
	return n + int64(d-1)
}

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// MonthDays returns the number of days of a month.
func MonthDays(y, m int) int {
	switch m {
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func digits(s string) (int, bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return n, s != ""
}

// ParseDate is an independent reader of OFX dates: YYYYMMDD, YYYYMMDDHHMM,
// YYYYMMDDHHMMSS or YYYYMMDDHHMMSS.XXX, then optionally a zone
// [offset] or [offset:name], offset being [+-]H[H][.DD].
func ParseDate(in string) (Val, bool) {
	s := strings.TrimSpace(in)
	zone := ""
	hasZone := false
	if i := strings.IndexByte(s, '['); i >= 0 {
		if !strings.HasSuffix(s, "]") {
			return Val{}, false
		}
		zone = s[i+1 : len(s)-1]
		s = s[:i]
		hasZone = true
	}
	ms := 0
	if len(s) == 18 && s[14] == '.' {
		m, ok := digits(s[15:])
		if !ok {
			return Val{}, false
		}
		ms = m
		s = s[:14]
	}
	if len(s) != 8 && len(s) != 10 && len(s) != 12 && len(s) != 14 {
		return Val{}, false
	}
	if _, ok := digits(s); !ok {
		return Val{}, false
	}
	f := func(a, b int) int { n, _ := digits(s[a:b]); return n }
	y, mo, d := f(0, 4), f(4, 6), f(6, 8)
	h, mi, se := 0, 0, 0
	if len(s) >= 10 {
		h = f(8, 10)
	}
	if len(s) >= 12 {
		mi = f(10, 12)
	}
	if len(s) >= 14 {
		se = f(12, 14)
	}
	if mo < 1 || mo > 12 || d < 1 || d > MonthDays(y, mo) || h > 23 || mi > 59 || se > 59 {
		return Val{}, false
	}
	off := 0 // hundredths of an hour
	name := ""
	if hasZone {
		o := zone
		if i := strings.IndexByte(zone, ':'); i >= 0 {
			o, name = zone[:i], zone[i+1:]
		}
		sign := 1
		if o != "" && (o[0] == '+' || o[0] == '-') {
			if o[0] == '-' {
				sign = -1
			}
			o = o[1:]
		}
		frac := ""
		if i := strings.IndexByte(o, '.'); i >= 0 {
			o, frac = o[:i], o[i+1:]
			if len(frac) != 2 {
				return Val{}, false
			}
		}
		hh, ok := digits(o)
		if !ok || len(o) > 2 {
			return Val{}, false
		}
		ff := 0
		if frac != "" {
			if ff, ok = digits(frac); !ok {
				return Val{}, false
			}
		}
		off = sign * (hh*100 + ff)
	}
	t := daysFromCivil(y, mo, d)*86400 + int64(h*3600+mi*60+se) - int64(off)*36
	return Val{MS: t*1000 + int64(ms), Off: off * 60 / 100, ZName: name}, true
}

var digest = []string{"x<y>&\"z'", "a  b   c", "\u00e9\u20ac\U0001F600 \u4e2d", "0", "-", strings.Repeat("L", 300), "&amp;", "]]>", "a/b=c;d"}

// Currencies used in alphabets.
var curr = []string{"USD", "EUR", "JPY", "GBP", "CHF", "CAD", "XAU"}

// Extra holds literal-directed additions to the alphabets.
var Extra struct {
	Strings []string
	Ints    []int64
}

// Default is the default lexical form of a leaf, distinct for distinct u.
func Default(e *Elem, u int) LV {
	switch e.Tag {
	case "LANGUAGE":
		return str("ENG")
	case "COUNTRY":
		return str("USA")
	case "CLIENTROUTING":
		return str("NONE")
	case "APPID":
		return str("QWIN")
	case "APPVER":
		return str("2400")
	}
	switch e.Kind {
	case String:
		return str(fmt.Sprintf("%c%d%s", 'A'+u%26, u, strings.ToLower(e.Tag[:1])))
	case UID:
		return str(fmt.Sprintf("%08d-0000-4000-8000-%012d", u, u))
	case Int:
		return LV{strconv.Itoa(u + 1), Val{I: int64(u + 1)}}
	case Amount:
		return amt(fmt.Sprintf("%d.%02d", u+1, (u*7)%99+1))
	case Date:
		return dat(fmt.Sprintf("%04d%02d%02d%02d%02d%02d", 1990+u%40, 1+u%12, 1+u%28, u%24, (u/3)%60, u%60))
	case Boolean:
		return LV{"Y", Val{S: "Y"}}
	case CurrSymbol:
		c := curr[u%len(curr)]
		return LV{c, Val{S: c}}
	case Enum:
		t := EnumOf(e.Enum).Values
		i := u % len(t)
		if e.Enum == "trnType" && t[i].Name == "HOLD" {
			i = 0
		}
		return LV{t[i].Name, Val{S: t[i].Name}}
	}
	panic("model: not a leaf")
}

// Alphabet lists further lexical forms of a leaf.
func Alphabet(e *Elem, u int, deep bool) []LV {
	var out []LV
	switch e.Tag {
	case "LANGUAGE":
		return []LV{str("FRA"), str("SPA")}
	case "COUNTRY":
		return []LV{str("CAN")}
	case "CLIENTROUTING":
		return nil
	case "APPID":
		return []LV{str("A"), str("OFXGO")}
	case "APPVER":
		return []LV{str("1"), str("0001")}
	case "USERID":
		return []LV{str("u"), str(strings.Repeat("u", 32)), str("a<b&c>\"d'")}
	case "USERPASS":
		return []LV{str("p"), str(strings.Repeat("p", 32)), str("a<b&c>\"d'")}
	case "USERKEY":
		return []LV{str("k"), str(strings.Repeat("k", 64)), str("a<b&c>\"d'")}
	}
	switch e.Kind {
	case String:
		for i, s := range digest {
			if deep || i < 5 {
				out = append(out, str(s))
			}
		}
		for _, s := range Extra.Strings {
			if strings.TrimSpace(s) != "" && len(s) < 2000 {
				out = append(out, str(s))
			}
		}
	case UID:
		out = append(out, str("0"), str(strings.Repeat("f", 36)), str("x<y>&z"))
	case Int:
		for _, n := range []int64{0, -7, 10, 1 << 31, -1 << 63, 1<<63 - 1} {
			out = append(out, LV{strconv.FormatInt(n, 10), Val{I: n}})
		}
		for _, n := range Extra.Ints {
			out = append(out, LV{strconv.FormatInt(n, 10), Val{I: n}})
		}
	case Amount:
		l := []string{"0", "-1", "+3.50", "1000,25", "-.125", "100", "123456789012345678901234567890.000000000000000001", "00.10"}
		if deep {
			l = append(l, "-0", "0.00000000000000000000000000000000000000000000000001", "99999999.99", "-0,001")
		}
		for _, s := range l {
			out = append(out, amt(s))
		}
		for _, n := range Extra.Ints {
			out = append(out, amt(strconv.FormatInt(n, 10)))
		}
	case Date:
		l := []string{"20200229", "201001312359", "19991231235959.999", "20051029101003[-5:EST]", "20051029101003.010[+5.50:IST]", "20051029000000[0:GMT]", "19691231235959.250[-3]"}
		if deep {
			l = append(l, "20051029101003.500[-9.50]", "20380119031408", "00010102", "99991231235959.999[12:NZST]", "20051029101003[+12.75:CHAST]")
		}
		for _, s := range l {
			out = append(out, dat(s))
		}
	case Boolean:
		out = append(out, LV{"N", Val{S: "N"}})
	case CurrSymbol:
		for _, c := range []string{"USD", "EUR", "JPY"} {
			out = append(out, LV{c, Val{S: c}})
		}
	case Enum:
		for _, v := range EnumOf(e.Enum).Values {
			if e.Enum == "trnType" && v.Name == "HOLD" {
				continue
			}
			out = append(out, LV{v.Name, Val{S: v.Name}})
		}
	}
	return out
}

// Civil is the number of days from 1970-01-01 to a date.
func Civil(y, m, d int) int64 { return daysFromCivil(y, m, d) }

// ClassifyDate tells whether a text is a date, and if not whether it deviates
// from the notation only in ways which are not judged.
func ClassifyDate(in string) (v Val, ok, tolerated bool) {
	v, ok = ParseDate(in)
	if ok {
		if i := strings.IndexByte(in, '['); i >= 0 {
			// offsets of other than whole minutes, beyond a day or with names
			// that are not capital letters
			z := strings.TrimSuffix(strings.TrimSpace(in), "]")[strings.IndexByte(strings.TrimSpace(in), '[')+1:]
			o, name, named := strings.Cut(z, ":")
			if named && !usualZone(name) {
				return v, false, true
			}
			if k := strings.IndexByte(o, '.'); k >= 0 {
				f, _ := digits(o[k+1:])
				if f%5 != 0 {
					return v, false, true
				}
			}
			if v.Off > 14*60 || v.Off < -14*60 {
				return v, false, true
			}
		}
		return v, true, false
	}
	s := strings.TrimSpace(in)
	// surplus text after the zone, or no closing bracket
	if i := strings.IndexByte(s, ']'); i >= 0 {
		s = strings.TrimSpace(s[:i])
	}
	if strings.Contains(s, "[") {
		s += "]"
	}
	s = strings.ReplaceAll(s, " ]", "]")
	// space before the zone
	if i := strings.IndexByte(s, '['); i > 0 {
		s = strings.TrimSpace(s[:i]) + s[i:]
	}
	// a lone bracket without zone
	if !strings.Contains(s, "[") {
		s = strings.TrimSuffix(s, "]")
	}
	for {
		if t := strings.Replace(s, "]]", "]", 1); t != s {
			s = t
			continue
		}
		break
	}
	// hours of one digit
	if n, z, _ := strings.Cut(s, "["); len(n) == 9 {
		s = n[:8] + "0" + n[8:]
		if z != "" {
			s += "[" + z
		}
	}
	// other lengths of fractions of a second
	if len(s) > 15 && (s[14] == '.' || s[14] == ',') {
		k := 15
		for k < len(s) && (s[k] >= '0' && s[k] <= '9' || k == 15 && (s[k] == '+' || s[k] == '-')) {
			k++
		}
		if k > 15 {
			s = s[:14] + s[k:]
		}
	}
	// offsets of more or fewer digits than usual
	if i := strings.IndexByte(s, '['); i > 0 {
		o, _, _ := strings.Cut(s[i+1:], ":")
		o = strings.TrimSuffix(o, "]")
		h, _, _ := strings.Cut(o, ".")
		h = strings.TrimLeft(h, "+-")
		if len(h) > 2 {
			s = s[:i] + strings.Replace(s[i:], h, "1", 1)
		}
	}
	if s != in {
		if _, ok := ParseDate(s); ok {
			return Val{}, false, true
		}
	}
	return Val{}, false, false
}

// usualZone tells whether a zone name consists of capital letters.
func usualZone(n string) bool {
	for i := 0; i < len(n); i++ {
		if n[i] < 'A' || n[i] > 'Z' {
			return false
		}
	}
	return n != ""
}
