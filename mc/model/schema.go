// Package model is the reference model the library is checked against: the OFX
// element grammar, abstract documents, serializers, a document reader, and
// small models of the value types. It is written independently of the
// library's implementation and uses only its exported API.
package model

import (
	"reflect"

	"github.com/aclindsa/ofxgo"
)

// Kind is the kind of content of an element.
type Kind int

// Kinds of content.
const (
	String Kind = iota
	UID
	Int
	Amount
	Date
	Boolean
	CurrSymbol
	Enum
	Agg     // aggregate with its own Go struct
	Flat    // aggregate whose children are fields of the parent's Go struct
	Poly    // list of members of several kinds (inline if Tag is empty)
	MsgSets // <xxxMSGSET><xxxMSGSETV1>...</xxxMSGSETV1></xxxMSGSET> list
)

// Elem describes one element of the grammar.
type Elem struct {
	Tag     string
	Field   string
	Kind    Kind
	Enum    string
	Kids    []*Elem
	Members []*Member
	Opt     bool
	List    bool
	Ptr     bool
}

// Leaf tells whether the element holds text only.
func (e *Elem) Leaf() bool { return e.Kind < Agg }

// Member is one kind of member of a typed list.
type Member struct {
	Tag  string
	Type string
	Kids []*Elem
	elem *Elem
}

// Elem returns the member as an aggregate element.
func (m *Member) Elem() *Elem {
	return &Elem{Tag: m.Tag, Kind: Agg, Kids: m.Kids}
}

// EnumValue is one value of an enumerated type.
type EnumValue struct {
	Name  string
	Num   uint
	Const interface{}
}

// EnumType is one enumerated type.
type EnumType struct {
	Type   string
	Values []EnumValue
}

var enumByType = map[string]*EnumType{}

func init() {
	for i := range EnumTable {
		enumByType[EnumTable[i].Type] = &EnumTable[i]
	}
}

// EnumOf returns the table of an enumerated type.
func EnumOf(t string) *EnumType { return enumByType[t] }

// NameOf returns the OFX name of a numeric value ("" if it is none).
func (t *EnumType) NameOf(n uint) string {
	for _, v := range t.Values {
		if v.Num == n {
			return v.Name
		}
	}
	return ""
}

// Value returns the constant of a name.
func (t *EnumType) Value(name string) (EnumValue, bool) {
	for _, v := range t.Values {
		if v.Name == name {
			return v, true
		}
	}
	return EnumValue{}, false
}

// Msg describes a top-level message (transaction) type.
type Msg struct {
	Tag     string // transaction element
	Set     string // message set element, without the V1 ending
	Slot    string // field of ofxgo.Response / ofxgo.Request
	Go      reflect.Type
	Kids    []*Elem
	Request bool
}

// Elem returns the message as an aggregate element.
func (m *Msg) Elem() *Elem { return &Elem{Tag: m.Tag, Kind: Agg, Kids: m.Kids} }

func typ(v interface{}) reflect.Type { return reflect.TypeOf(v) }

// Responses lists the supported response messages in message set order.
var Responses = []*Msg{
	{"ACCTINFOTRNRS", "SIGNUPMSGSRS", "Signup", typ(ofxgo.AcctInfoResponse{}), sAcctInfoResponse, false},
	{"STMTTRNRS", "BANKMSGSRS", "Bank", typ(ofxgo.StatementResponse{}), sStatementResponse, false},
	{"CCSTMTTRNRS", "CREDITCARDMSGSRS", "CreditCard", typ(ofxgo.CCStatementResponse{}), sCCStatementResponse, false},
	{"INVSTMTTRNRS", "INVSTMTMSGSRS", "InvStmt", typ(ofxgo.InvStatementResponse{}), sInvStatementResponse, false},
	{"SECLISTTRNRS", "SECLISTMSGSRS", "SecList", typ(ofxgo.SecListResponse{}), sSecListResponse, false},
	{"SECLIST", "SECLISTMSGSRS", "SecList", typ(ofxgo.SecurityList{}), sSecurityList, false},
	{"PROFTRNRS", "PROFMSGSRS", "Prof", typ(ofxgo.ProfileResponse{}), sProfileResponse, false},
}

// Requests lists the supported request messages in message set order.
var Requests = []*Msg{
	{"ACCTINFOTRNRQ", "SIGNUPMSGSRQ", "Signup", typ(ofxgo.AcctInfoRequest{}), sAcctInfoRequest, true},
	{"STMTTRNRQ", "BANKMSGSRQ", "Bank", typ(ofxgo.StatementRequest{}), sStatementRequest, true},
	{"CCSTMTTRNRQ", "CREDITCARDMSGSRQ", "CreditCard", typ(ofxgo.CCStatementRequest{}), sCCStatementRequest, true},
	{"INVSTMTTRNRQ", "INVSTMTMSGSRQ", "InvStmt", typ(ofxgo.InvStatementRequest{}), sInvStatementRequest, true},
	{"SECLISTTRNRQ", "SECLISTMSGSRQ", "SecList", typ(ofxgo.SecListRequest{}), sSecListRequest, true},
	{"PROFTRNRQ", "PROFMSGSRQ", "Prof", typ(ofxgo.ProfileRequest{}), sProfileRequest, true},
}

// Signon elements.
var (
	SignonRs = &Msg{"SONRS", "SIGNONMSGSRS", "Signon", typ(ofxgo.SignonResponse{}), sSignonResponse, false}
	SignonRq = &Msg{"SONRQ", "SIGNONMSGSRQ", "Signon", typ(ofxgo.SignonRequest{}), sSignonRequest, true}
)

// MsgByTag finds a message type.
func MsgByTag(tag string) *Msg {
	for _, l := range [][]*Msg{Responses, Requests, {SignonRs, SignonRq}} {
		for _, m := range l {
			if m.Tag == tag {
				return m
			}
		}
	}
	return nil
}

// Slots lists the message fields of ofxgo.Request and ofxgo.Response in
// specification order, with their message set elements.
var Slots = []struct{ Field, Set string }{
	{"Signup", "SIGNUPMSGS"}, {"Bank", "BANKMSGS"}, {"CreditCard", "CREDITCARDMSGS"}, {"Loan", "LOANMSGS"},
	{"InvStmt", "INVSTMTMSGS"}, {"InterXfer", "INTERXFERMSGS"}, {"WireXfer", "WIREXFERMSGS"}, {"Billpay", "BILLPAYMSGS"},
	{"Email", "EMAILMSGS"}, {"SecList", "SECLISTMSGS"}, {"PresDir", "PRESDIRMSGS"}, {"PresDlv", "PRESDLVMSGS"},
	{"Prof", "PROFMSGS"}, {"Image", "IMAGEMSGS"},
}

var polyTypes = map[string]reflect.Type{}

func init() {
	for _, v := range []interface{}{
		ofxgo.BuyDebt{}, ofxgo.BuyMF{}, ofxgo.BuyOpt{}, ofxgo.BuyOther{}, ofxgo.BuyStock{}, ofxgo.ClosureOpt{}, ofxgo.Income{}, ofxgo.InvExpense{}, ofxgo.JrnlFund{}, ofxgo.JrnlSec{}, ofxgo.MarginInterest{}, ofxgo.Reinvest{}, ofxgo.RetOfCap{}, ofxgo.SellDebt{}, ofxgo.SellMF{}, ofxgo.SellOpt{}, ofxgo.SellOther{}, ofxgo.SellStock{}, ofxgo.Split{}, ofxgo.Transfer{},
		ofxgo.DebtPosition{}, ofxgo.MFPosition{}, ofxgo.OptPosition{}, ofxgo.OtherPosition{}, ofxgo.StockPosition{},
		ofxgo.OOBuyDebt{}, ofxgo.OOBuyMF{}, ofxgo.OOBuyOpt{}, ofxgo.OOBuyOther{}, ofxgo.OOBuyStock{}, ofxgo.OOSellDebt{}, ofxgo.OOSellMF{}, ofxgo.OOSellOpt{}, ofxgo.OOSellOther{}, ofxgo.OOSellStock{}, ofxgo.OOSwitchMF{},
		ofxgo.DebtInfo{}, ofxgo.MFInfo{}, ofxgo.OptInfo{}, ofxgo.OtherInfo{}, ofxgo.StockInfo{},
	} {
		polyTypes[reflect.TypeOf(v).Name()] = reflect.TypeOf(v)
	}
	for _, ms := range [][]*Member{InvTranMembers, PositionMembers, OpenOrderMembers, SecurityMembers} {
		for _, m := range ms {
			if polyTypes[m.Type] == nil {
				panic("model: no Go type for " + m.Type)
			}
		}
	}
}

// Versions lists the OFX versions with their constants.
var Versions = []struct {
	Text string
	Num  int
	Val  uint
}{
	{"102", 102, uint(ofxgo.OfxVersion102)}, {"103", 103, uint(ofxgo.OfxVersion103)}, {"151", 151, uint(ofxgo.OfxVersion151)}, {"160", 160, uint(ofxgo.OfxVersion160)},
	{"200", 200, uint(ofxgo.OfxVersion200)}, {"201", 201, uint(ofxgo.OfxVersion201)}, {"202", 202, uint(ofxgo.OfxVersion202)}, {"203", 203, uint(ofxgo.OfxVersion203)},
	{"210", 210, uint(ofxgo.OfxVersion210)}, {"211", 211, uint(ofxgo.OfxVersion211)}, {"220", 220, uint(ofxgo.OfxVersion220)},
}
