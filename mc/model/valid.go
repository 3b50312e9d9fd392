package model

import (
	"strconv"
)

// The validity rules documented for each message part, stated over abstract
// documents.

func lenIn(s string, lo, hi int) bool { return len(s) >= lo && len(s) <= hi }

// ValidUID is the rule for identifiers.
func ValidUID(s string) bool { return lenIn(s, 1, 36) }

// ValidStatus is the rule for STATUS aggregates.
func ValidStatus(n *Node) bool {
	if n == nil {
		// an absent aggregate reads as code 0 without severity
		return false
	}
	code := int64(0)
	if c := n.Find("CODE"); c != nil {
		code = c.V.I
	}
	row, ok := StatusByCode[code]
	return ok && row.Severity == n.Str("SEVERITY")
}

func validCurrency(n *Node) bool {
	if n == nil {
		return false
	}
	r := n.Find("CURRATE")
	return r != nil && r.V.R != nil && r.V.R.Sign() != 0 && n.Str("CURSYM") != ""
}

func validBankAcct(n *Node) bool {
	return n != nil && n.Str("BANKID") != "" && n.Str("ACCTID") != "" && n.Str("ACCTTYPE") != ""
}

func validCCAcct(n *Node) bool { return n != nil && n.Str("ACCTID") != "" }

func validPayee(n *Node) bool {
	for _, f := range []string{"NAME", "ADDR1", "CITY", "STATE", "POSTALCODE", "PHONE"} {
		if n.Str(f) == "" {
			return false
		}
	}
	c := n.Str("COUNTRY")
	return c == "" || len(c) == 3
}

func count(n *Node, tag string) (c int) {
	for _, k := range n.Kids {
		if k.Tag == tag {
			c++
		}
	}
	return
}

// ValidTransaction is the rule for STMTTRN aggregates.
func ValidTransaction(n *Node, version int) bool {
	t := n.Str("TRNTYPE")
	if t == "" || t == "HOLD" || n.Find("DTPOSTED") == nil || n.Str("FITID") == "" {
		return false
	}
	if n.Str("CORRECTFITID") != "" && n.Str("CORRECTACTION") == "" {
		return false
	}
	if p := n.Find("PAYEE"); p != nil && (n.Str("NAME") != "" || !validPayee(p)) {
		return false
	}
	b, c := n.Find("BANKACCTTO"), n.Find("CCACCTTO")
	if b != nil && c != nil || b != nil && !validBankAcct(b) || c != nil && !validCCAcct(c) {
		return false
	}
	if im := count(n, "IMAGEDATA"); im > 2 || im > 0 && version < 220 {
		return false
	}
	return !(validCurrency(n.Find("CURRENCY")) && validCurrency(n.Find("ORIGCURRENCY")))
}

// ValidTransactionList is the rule for BANKTRANLIST aggregates.
func ValidTransactionList(n *Node, version int) bool {
	if n.Find("DTSTART") == nil || n.Find("DTEND") == nil {
		return false
	}
	for _, k := range n.Kids {
		if k.Tag == "STMTTRN" && !ValidTransaction(k, version) {
			return false
		}
	}
	return true
}

// ValidPending is the rule for BANKTRANLISTP aggregates.
func ValidPending(n *Node, version int) bool {
	if version < 220 || n.Find("DTASOF") == nil {
		return false
	}
	for _, k := range n.Kids {
		if k.Tag != "STMTTRNP" {
			continue
		}
		if k.Str("TRNTYPE") == "" || k.Find("DTTRAN") == nil || k.Str("NAME") == "" {
			return false
		}
		if validCurrency(k.Find("CURRENCY")) && validCurrency(k.Find("ORIGCURRENCY")) {
			return false
		}
	}
	return true
}

// ValidMsg is the rule for a message.
func ValidMsg(n *Node, version int) bool {
	if n.Tag == "SECLIST" {
		return true
	}
	if n.Tag == "SONRS" {
		return len(n.Str("LANGUAGE")) == 3 && ValidStatus(n.Find("STATUS"))
	}
	if n.Tag == "SONRQ" {
		up, uk := n.Str("USERPASS"), n.Str("USERKEY")
		l := n.Str("LANGUAGE")
		return lenIn(n.Str("USERID"), 1, 32) && (up == "") != (uk == "") && len(up) <= 32 && len(uk) <= 64 &&
			(l == "" || len(l) == 3) && lenIn(n.Str("APPID"), 1, 5) && lenIn(n.Str("APPVER"), 1, 4)
	}
	if !ValidUID(n.Str("TRNUID")) {
		return false
	}
	switch n.Tag {
	case "STMTTRNRQ":
		rq := n.Find("STMTRQ")
		if rq == nil {
			return false
		}
		return validBankAcct(rq.Find("BANKACCTFROM")) && (rq.Str("INCLUDEPENDING") != "Y" || version >= 220) && (rq.Str("INCTRANIMG") != "Y" || version >= 210)
	case "STMTTRNRS":
		rs := n.Find("STMTRS")
		if rs == nil || !ValidStatus(n.Find("STATUS")) || rs.Str("CURDEF") == "" || !validBankAcct(rs.Find("BANKACCTFROM")) {
			return false
		}
		if rs.Path("LEDGERBAL/DTASOF") == nil || (rs.Path("AVAILBAL/BALAMT") == nil) != (rs.Path("AVAILBAL/DTASOF") == nil) {
			return false
		}
		if l := rs.Find("BANKTRANLIST"); l != nil && !ValidTransactionList(l, version) {
			return false
		}
		if l := rs.Find("BANKTRANLISTP"); l != nil && !ValidPending(l, version) {
			return false
		}
		if l := rs.Find("BALLIST"); l != nil {
			for _, b := range l.Kids {
				if b.Tag == "BAL" && (b.Str("NAME") == "" || b.Str("DESC") == "" || b.Str("BALTYPE") == "") {
					return false
				}
			}
		}
	}
	return true
}

// Valid is the rule for a document.
func (d *Doc) Valid() bool {
	if !VersionKnown(d.Version) || !ValidMsg(d.Signon, d.Version) {
		return false
	}
	for _, n := range d.Msgs {
		if !ValidMsg(n, d.Version) {
			return false
		}
	}
	return true
}

// VersionKnown tells whether an OFX version exists.
func VersionKnown(v int) bool {
	_, ok := EnumOf("ofxVersion").Value(strconv.Itoa(v))
	return ok
}
