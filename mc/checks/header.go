package checks

import (
	"fmt"
	"regexp"
	"strings"

	"verif/mc/explore"
	"verif/mc/model"
)

func init() {
	register("C06", "exhaustive enumeration of headers deviating from the standard ones in up to two (thorough: three) places, against a header model", "", c06)
}

var plainWord = regexp.MustCompile(`^[A-Za-z0-9_.-]{1,40}$`)

type hdrVal struct {
	s  string
	ok bool
}

func vals(ok []string, bad ...string) (out []hdrVal) {
	for _, s := range ok {
		out = append(out, hdrVal{s, true})
	}
	for _, s := range bad {
		out = append(out, hdrVal{s, false})
	}
	return
}

// checkHeader parses a document with the header and compares with the model.
func checkHeader(x *explore.X, text string, version int, ok bool) {
	d := newDoc(version)
	r, err := parse(text)
	if !ok {
		if r != nil || err == nil {
			x.Note("document:\n%s", text)
			x.Fail("accepted", "header accepted which is not one of OFX: response %v, error %v", r != nil, err)
		}
		x.State("refused", err.Error())
		return
	}
	compareParsed(x, d, text, r, err)
	x.State(text)
	x.Sample(text)
}

func c06(c *Ctx) {
	c.Assume = append(c.Assume, "headers fit into 1024 bytes", "not judged: encodings which are not upper-case letters, digits and hyphens, blank space before a colon or an equals sign, blank space before the header, repeated XML attributes, attributes without blank space between them or in single quotes, other XML versions")
	body := func(version int, xml bool) string {
		st := &model.Style{XML: xml, Header: "\x01"}
		return strings.TrimPrefix(newDoc(version).Write(st), "\x01")
	}
	var sgmlVersions, otherVersions []string
	for _, v := range versionsSGML {
		sgmlVersions = append(sgmlVersions, fmt.Sprint(v))
	}
	var xmlVersions []string
	for _, v := range versionsXML {
		xmlVersions = append(xmlVersions, fmt.Sprint(v))
	}
	otherVersions = []string{"100", "101", "104", "150", "152", "161", "199", "204", "212", "221", "230", "300", "0", "", "1.02", "2.0.3", "0102", "1020", "99999999999999999999", "V102"}
	extra := func(in []hdrVal) []hdrVal {
	literals:
		for _, s := range Lit.Strings {
			if !plainWord.MatchString(s) {
				continue
			}
			for _, v := range in {
				if v.s == s {
					continue literals
				}
			}
			in = append(in, hdrVal{s, false})
		}
		return in
	}
	uids := vals([]string{"NONE", "abc_D-1", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", "0", strings.Repeat("X", 36), "20260101", "None"}, "")
	for _, n := range litSizes(200) {
		if n > 0 {
			uids = append(uids, hdrVal{strings.Repeat("7", n), true})
		}
	}
	sgml := []struct {
		key  string
		vals []hdrVal
	}{
		{"OFXHEADER", extra(vals([]string{"100"}, "200", "101", "0100", "10", "", "1OO", "1000", "NONE"))},
		{"DATA", extra(vals([]string{"OFXSGML"}, "OFXXML", "ofxsgml", "OFX", "SGML", "", "XOFXSGML", "OFXSGMLX"))},
		{"VERSION", vals(sgmlVersions, append(append([]string{}, xmlVersions...), otherVersions...)...)},
		{"SECURITY", extra(vals([]string{"NONE", "TYPE1"}, "TYPE2", "none", "type1", "", "TYPE10", "TYPE", "NONE1"))},
		{"ENCODING", vals([]string{"USASCII", "UNICODE", "UTF-8", "ISO-8859-1", "8859-1"}, "")},
		{"CHARSET", vals([]string{"1252", "NONE", "ISO-8859-1", "8859-1", "CP_1252", "utf-8"}, "")},
		{"COMPRESSION", extra(vals([]string{"NONE"}, "GZIP", "none", "", "TYPE1", "NONENONE", "NON"))},
		{"OLDFILEUID", uids},
		{"NEWFILEUID", uids},
	}
	colons := []string{":", ": ", ":\t", ":  ", ":\r\n"}
	seps := []string{"\r\n", "\n", "", "\r", " ", "\n\n", " \t\r\n  "}
	sgmlHeader := func(x *explore.X, kind int) (string, int, bool) {
		ok := true
		version := 0
		type part struct{ key, colon, val, sep string }
		var parts []part
		base := []string{"\r\n", "\n", ""}[x.Choose("line breaks", 3)]
		for _, f := range sgml {
			i := x.Dev("value "+f.key, len(f.vals))
			v := f.vals[i]
			if !v.ok {
				ok = false
			}
			if f.key == "VERSION" && v.ok {
				fmt.Sscan(v.s, &version)
			}
			p := part{key: f.key, val: v.s, colon: ":", sep: base}
			if kind == 1 {
				p.colon = colons[x.Dev("colon "+f.key, len(colons))]
				if k := x.Dev("separator "+f.key, len(seps)); k > 0 {
					p.sep = seps[k-1]
					if p.sep == base {
						p.sep = seps[len(seps)-1]
					}
				}
			}
			n := 1
			if kind == 2 {
				switch x.Dev("shape "+f.key, 9) {
				case 1: // missing
					n, ok = 0, false
				case 2: // twice
					n, ok = 2, false
				case 3:
					p.key, ok = strings.ToLower(p.key), false
				case 4:
					p.key, ok = p.key+"S", false
				case 5:
					p.colon, ok = "=", false
				case 6:
					p.colon, ok = "", false
				case 7:
					p.key, ok = p.key[1:], false
				case 8: // a field too much
					parts = append(parts, part{"EXTRA", ":", "1", base})
					ok = false
				}
			}
			for ; n > 0; n-- {
				parts = append(parts, p)
			}
		}
		if kind == 3 {
			// another order
			n := len(parts)
			a := x.Choose("first", n)
			b := x.Choose("second", n)
			if a >= b {
				x.Skip()
			}
			if x.Choose("how", 2) == 0 {
				parts[a], parts[b] = parts[b], parts[a]
			} else {
				p := parts[a]
				copy(parts[a:b], parts[a+1:b+1])
				parts[b] = p
			}
			ok = false
		}
		var s strings.Builder
		for _, p := range parts {
			s.WriteString(p.key + p.colon + p.val + p.sep)
		}
		tail := []string{"\r\n", "", "\n\n", "\r\n\r\n"}
		if kind == 1 {
			s.WriteString(tail[x.Dev("tail", len(tail))])
		} else {
			s.WriteString(tail[x.Choose("tail", 2)])
		}
		return s.String(), version, ok
	}
	kinds := []string{"values", "spaces", "shapes", "order"}
	for k, kn := range kinds {
		k := k
		b := c.Pick(2, 3)
		if k == 3 {
			b = 0
		}
		c.Space(&explore.Space{Name: "sgml/" + kn, Bound: b, Body: func(x *explore.X) {
			h, v, ok := sgmlHeader(x, k)
			checkHeader(x, h+body(v, len(h)%2 == 0), v, ok)
		}})
	}
	// ---- XML
	xmlf := []struct {
		key  string
		vals []hdrVal
		opt  bool
	}{
		{"OFXHEADER", extra(vals([]string{"200"}, "100", "201", "0200", "20", "", "2OO", "2000", "NONE", " 200")), false},
		{"VERSION", vals(append([]string{"203"}, xmlVersions...), append(append([]string{}, sgmlVersions...), otherVersions...)...), false},
		{"SECURITY", extra(vals([]string{"NONE"}, "TYPE1", "none", "", "TYPE2", "NONE1")), true},
		{"OLDFILEUID", vals([]string{"NONE", "abc_D-1", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", strings.Repeat("X", 36)}), true},
		{"NEWFILEUID", vals([]string{"NONE", "abc_D-1", "f81d4fae-7dec-11d0-a765-00a0c91e6bf6", strings.Repeat("X", 36)}), true},
	}
	decls := []string{
		`<?xml version="1.0" encoding="UTF-8" standalone="no"?>`,
		`<?xml version="1.0"?>`,
		`<?xml version="1.0" encoding="utf-8"?>`,
		`<?xml version="1.0" encoding="ISO-8859-1" ?>`,
		`<?xml version="1.0" encoding="windows-1252" standalone="yes"?>`,
		`<?xml version='1.0' encoding='US-ASCII'?>`,
	}
	perms := permutations(5)
	xmlHeader := func(x *explore.X, kind int) (string, int, bool) {
		ok := true
		version := 0
		var parts []string
		for _, f := range xmlf {
			i := x.Dev("value "+f.key, len(f.vals))
			v := f.vals[i]
			key := f.key
			shape := 0
			if kind >= 1 {
				shape = x.Dev("shape "+f.key, 7)
			}
			if !v.ok && shape != 1 {
				ok = false
			}
			if f.key == "VERSION" && v.ok {
				fmt.Sscan(v.s, &version)
			}
			if kind >= 1 {
				switch shape {
				case 1:
					if !f.opt {
						ok = false
					}
					continue
				case 2:
					key, ok = strings.ToLower(key), false
				case 3:
					key, ok = key+"S", false
				case 4:
					key, ok = key[1:], false
				case 5:
					parts = append(parts, []string{`FOO="1"`, `DATA="OFXSGML"`, `COMPRESSION="NONE"`, `ENCODING="UTF-8"`}[x.Choose("extra", 4)])
					ok = false
				case 6:
					parts = append(parts, key+`:"`+v.s+`"`)
					ok = false
					continue
				}
			}
			parts = append(parts, key+`="`+v.s+`"`)
		}
		sep, nl := " ", "\n"
		if kind == 2 {
			if len(parts) != 5 {
				x.Skip()
			}
			p := perms[x.Choose("order", len(perms))]
			q := make([]string, 5)
			for i, j := range p {
				q[i] = parts[j]
			}
			parts = q
		} else {
			sep = []string{" ", "\n", "\r\n\t", "  "}[x.Choose("separator", 4)]
			nl = []string{"\n", "", "\r\n\r\n", " "}[x.Choose("line break", 4)]
		}
		end := []string{"", " ", "\n"}[x.Choose("end", 3)]
		di := x.Dev("declaration", len(decls)+7)
		pi := "<?OFX " + strings.Join(parts, sep) + end + "?>"
		decl := decls[0]
		switch {
		case di < len(decls):
			decl = decls[di]
		case di == len(decls): // none
			return pi + nl, version, false
		case di == len(decls)+1: // no OFX instruction
			return decl + nl, version, false
		case di == len(decls)+2:
			return pi + nl + decl + nl, version, false
		case di == len(decls)+3: // another instruction instead
			return decl + nl + strings.Replace(pi, "<?OFX", "<?OFY", 1) + nl, version, false
		case di == len(decls)+4:
			return decl + nl + strings.Replace(pi, "<?OFX", "<?ofx", 1) + nl, version, false
		case di == len(decls)+5:
			return decl + nl + "<?OFX?>" + nl, version, false
		case di == len(decls)+6: // an element instead
			return decl + nl + "<OFX " + strings.Join(parts, sep) + "></OFX>" + nl, version, false
		}
		return decl + nl + pi + nl, version, ok
	}
	for k, kn := range []string{"values", "shapes", "order"} {
		k := k
		b := c.Pick(2, 3)
		if k == 2 {
			b = c.Pick(1, 2)
		}
		c.Space(&explore.Space{Name: "xml/" + kn, Bound: b, Body: func(x *explore.X) {
			h, v, ok := xmlHeader(x, k)
			checkHeader(x, h+body(v, true), v, ok)
		}})
	}
	// one character too much, too few or another, anywhere
	pieces := func(xml bool) (out [][2]string, names []string) {
		// kinds of pieces: k a name, v a value, p punctuation, g a gap
		if !xml {
			for _, f := range sgml {
				v := f.vals[0].s
				if f.key == "VERSION" {
					v = "102"
				}
				out = append(out, [2]string{"k", f.key}, [2]string{"p", ":"}, [2]string{"v", v}, [2]string{"g", "\r\n"})
				names = append(names, "", "", f.key, "")
			}
			return
		}
		out = append(out, [2]string{"k", "<?OFX"}, [2]string{"g", " "})
		names = append(names, "", "")
		for i, f := range xmlf {
			v := f.vals[0].s
			if f.key == "OLDFILEUID" {
				v = "abc_D-1"
			}
			out = append(out, [2]string{"k", f.key}, [2]string{"p", "=\""}, [2]string{"v", v}, [2]string{"p", "\""})
			names = append(names, "", "", f.key, "")
			if i+1 < len(xmlf) {
				out = append(out, [2]string{"g", " "})
				names = append(names, "")
			}
		}
		out = append(out, [2]string{"e", "?>"})
		names = append(names, "")
		return
	}
	uidText := regexp.MustCompile(`^[A-Za-z0-9_-]+$`)
	for _, xml := range []bool{false, true} {
		xml := xml
		ps, names := pieces(xml)
		fields := map[string][]hdrVal{}
		for _, f := range sgml {
			if !xml {
				fields[f.key] = f.vals
			}
		}
		for _, f := range xmlf {
			if xml {
				fields[f.key] = f.vals
			}
		}
		c.Space(&explore.Space{Name: fmt.Sprintf("characters/xml=%v", xml), Body: func(x *explore.X) {
			pi := x.Choose("piece", len(ps))
			kind, s := ps[pi][0], ps[pi][1]
			at := x.Choose("at", len(s)+1)
			how := x.Choose("how", 3) // insert, replace, delete
			if how > 0 && at == len(s) {
				x.Skip()
			}
			ch := ""
			if how < 2 {
				n := x.Choose("character", 0x7f-0x20+2)
				ch = string(rune(0x20 + n))
				if n >= 0x7f-0x20 {
					ch = []string{"\u00e9", "\u20ac"}[n-(0x7f-0x20)]
				}
				if how == 1 && ch == s[at:at+1] {
					x.Skip()
				}
			}
			t := s[:at] + ch + s[at:]
			if how == 1 {
				t = s[:at] + ch + s[at+1:]
			} else if how == 2 {
				t = s[:at] + s[at+1:]
			}
			ok := false
			version := 102
			if xml {
				version = 203
			}
			val, key := t, names[pi]
			switch kind {
			case "v":
				if ch == " " && (at == 0 || at >= len(s)-1) {
					// blank space around a value
					x.Skip()
				}
			case "k", "p":
				if ch == " " {
					// blank space around names and punctuation is not judged
					if how == 0 && kind == "k" && (at == 0 || at == len(s)) || kind == "p" {
						x.Skip()
					}
				}
				if kind == "p" && how == 0 && !xml {
					if at == 0 {
						// the end of the name
						break
					}
					// the beginning of the value
					key, val = names[pi+1], ch+ps[pi+1][1]
				}
				if kind == "p" && xml {
					if s == "\"" && how == 0 && at == 0 {
						key, val = names[pi-1], ps[pi-1][1]+ch
					}
					if s != "\"" && how == 0 && at == 2 {
						key, val = names[pi+1], ch+ps[pi+1][1]
					}
					if s == "\"" && how == 0 && at == 1 && pi+2 == len(ps) && ch == "?" {
						x.Skip()
					}
				}
			case "g":
				if strings.TrimSpace(ch) == "" {
					x.Skip()
				}
				if !xml {
					switch {
					case how == 0 && at == 0:
						key, val = names[pi-1], ps[pi-1][1]+ch
					case how == 0 && at == 1:
						// between CR and LF: the beginning of a name of its own
						if pi+1 == len(ps) {
							x.Skip()
						}
					case pi+1 == len(ps):
						x.Skip()
					case how == 1 && at == 0:
						key, val = names[pi-1], ps[pi-1][1]+ch
					}
				}
			case "e":
				// the end of the instruction and what follows it
				if how != 0 || at != 0 || strings.TrimSpace(ch) == "" || ch == "?" {
					x.Skip()
				}
			}
			if key != "" {
				found := false
				for _, v := range fields[key] {
					if v.s == val {
						found, ok = true, v.ok
						if key == "VERSION" && v.ok {
							fmt.Sscan(v.s, &version)
						}
					}
				}
				if !found && (key == "OLDFILEUID" || key == "NEWFILEUID" || key == "ENCODING" || key == "CHARSET") {
					if !uidText.MatchString(val) || (key == "ENCODING" && strings.ToUpper(strings.ReplaceAll(val, "_", "a")) != val) {
						x.Skip()
					}
					ok = true
				}
			}
			var b strings.Builder
			if xml {
				b.WriteString(decls[0] + "\n")
			}
			for i, p := range ps {
				if i == pi {
					b.WriteString(t)
				} else {
					b.WriteString(p[1])
				}
			}
			text := b.String() + "\r\n" + body(version, xml)
			checkHeader(x, text, version, ok)
		}})
	}
	// the kind of a document follows from its header, whatever its content
	marks := []string{"OFXHEADER:", "OFXHEADER=", "OFXHEADER=\"200\"", "OFXHEADER:100", "<?OFX OFXHEADER=\"200\" VERSION=\"203\"?>", "DATA:OFXSGML", "VERSION:102", "?xml", "VERSION=\"160\""}
	c.Space(&explore.Space{Name: "detection", Body: func(x *explore.X) {
		v := versionsAll[x.Choose("version", len(versionsAll))]
		d := newDoc(v)
		d.Signon = (&model.Gen{C: model.NoChoice{}, Max: true}).Signon(false)
		t := d.Signon.Path([]string{"FI/ORG", "STATUS/MESSAGE", "USERKEY", "SESSCOOKIE", "FI/FID"}[x.Choose("where", 5)])
		t.Text = marks[x.Choose("text", len(marks))]
		t.V = model.Val{S: t.Text}
		st := &model.Style{XML: v >= 200, Sep: []string{"", "\n", "\r\n"}[x.Choose("separator", 3)], Esc: []int{0, 1, 3, 5}[x.Choose("escapes", 4)]}
		text := d.Write(st)
		blanks := []int{0, 1, 100, 600, 1000, 1024, 1100, 5000}[x.Choose("blanks", 8)]
		if blanks > 0 {
			if st.XML {
				hdr, rest, _ := strings.Cut(text, "<OFX>")
				text = hdr + strings.Repeat("\n", blanks) + "<OFX>" + rest
				if x.Choose("where blanks", 2) == 1 {
					decl, rest, _ := strings.Cut(text, "<?OFX")
					text = decl + strings.Repeat(" ", blanks) + "<?OFX" + rest
				}
			} else {
				hdr, rest, _ := strings.Cut(text, "<OFX>")
				if len(hdr)+blanks > 1000 {
					x.Skip()
				}
				text = hdr + strings.Repeat("\n", blanks) + "<OFX>" + rest
			}
		}
		r, err := parse(text)
		compareParsed(x, d, text, r, err)
		x.State(text)
	}})
	// a header of one kind with a body and attributes of the other, or cut short
	c.Space(&explore.Space{Name: "cut", Body: func(x *explore.X) {
		xml := x.Choose("kind", 2) == 1
		v := 102
		if xml {
			v = 203
		}
		nl := []string{"\r\n", "\n"}[x.Choose("line breaks", 2)]
		h := model.StdHeader(v, xml, nl)
		t := strings.TrimRight(h, "\r\n")
		n := x.Choose("bytes", len(t))
		b := body(v, true)
		if n == 0 && !xml {
			// no header at all: not recognized as SGML
			b = body(v, false)
		}
		text := t[:n] + b
		r, err := parse(text)
		if !xml && n >= len(t)-4+1 {
			// NEWFILEUID:N, NO, NON are identifiers, too
			if err != nil || r == nil {
				x.Fail("refused", "header refused: %v", err)
			}
			return
		}
		if r != nil || err == nil {
			x.Note("document:\n%s", text)
			x.Fail("accepted", "header cut after %d bytes accepted", n)
		}
		x.State(text)
	}})
}

func permutations(n int) (out [][]int) {
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			out = append(out, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				rec(append(cur, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return
}
