// genschema prints a first draft of ../../model/schema_gen.go from the struct
// tags of the library. It was run ONCE; its output was then audited against
// the OFX specification, edited and committed. No check runs it: the schema is
// independent of the tags of the tree under test.
package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"
)

var seen = map[reflect.Type]bool{}
var order []reflect.Type

func kind(t reflect.Type) string {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	switch t.Name() {
	case "String", "UID", "Int", "Amount", "Date", "Boolean", "CurrSymbol":
		return t.Name()
	}
	if t.Kind() == reflect.Uint {
		return "Enum:" + t.Name()
	}
	if t.Kind() == reflect.Slice {
		return "Slice"
	}
	return "Agg"
}

type node struct {
	tag, field, kind string
	opt, list, ptr   bool
	typ              reflect.Type
	kids             []*node
}

func visit(t reflect.Type) {
	for t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || seen[t] {
		return
	}
	if k := kind(t); k != "Agg" {
		return
	}
	seen[t] = true
	root := &node{}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if f.Name == "XMLName" {
			continue
		}
		tag := f.Tag.Get("xml")
		parts := strings.Split(tag, ",")
		path := strings.Split(parts[0], ">")
		n := root
		for _, p := range path[:len(path)-1] {
			if len(n.kids) > 0 && n.kids[len(n.kids)-1].tag == p {
				n = n.kids[len(n.kids)-1]
			} else {
				k := &node{tag: p, kind: "Flat"}
				n.kids = append(n.kids, k)
				n = k
			}
		}
		ft := f.Type
		k := &node{tag: path[len(path)-1], field: f.Name, opt: len(parts) > 1, typ: ft}
		if ft.Kind() == reflect.Ptr {
			k.ptr = true
			ft = ft.Elem()
		}
		k.kind = kind(ft)
		if k.kind == "Slice" {
			k.list = true
			ft = ft.Elem()
			k.kind = kind(ft)
		}
		k.typ = ft
		if k.kind == "Agg" {
			visit(ft)
		}
		n.kids = append(n.kids, k)
	}
	fmt.Printf("var s%s = []*Elem{\n", t.Name())
	show(root.kids, "\t")
	fmt.Printf("}\n\n")
}

func show(kids []*node, ind string) {
	for _, k := range kids {
		s := ""
		if k.opt {
			s += ", Opt: true"
		}
		if k.list {
			s += ", List: true"
		}
		if k.ptr {
			s += ", Ptr: true"
		}
		switch {
		case k.kind == "Flat":
			fmt.Printf("%s{Tag: %q, Kind: Flat, Kids: []*Elem{\n", ind, k.tag)
			show(k.kids, ind+"\t")
			fmt.Printf("%s}},\n", ind)
		case k.kind == "Agg":
			fmt.Printf("%s{Tag: %q, Field: %q, Kind: Agg, Kids: s%s%s},\n", ind, k.tag, k.field, k.typ.Name(), s)
		case strings.HasPrefix(k.kind, "Enum:"):
			fmt.Printf("%s{Tag: %q, Field: %q, Kind: Enum, Enum: %q%s},\n", ind, k.tag, k.field, k.kind[5:], s)
		default:
			fmt.Printf("%s{Tag: %q, Field: %q, Kind: %s%s},\n", ind, k.tag, k.field, k.kind, s)
		}
	}
}

func main() {
	for _, v := range []interface{}{
		ofxgo.SignonRequest{}, ofxgo.AcctInfoRequest{}, ofxgo.StatementRequest{}, ofxgo.CCStatementRequest{}, ofxgo.InvStatementRequest{}, ofxgo.SecListRequest{}, ofxgo.ProfileRequest{},
		ofxgo.SignonResponse{}, ofxgo.AcctInfoResponse{}, ofxgo.StatementResponse{}, ofxgo.CCStatementResponse{}, ofxgo.InvStatementResponse{}, ofxgo.SecListResponse{}, ofxgo.ProfileResponse{},
		ofxgo.BuyDebt{}, ofxgo.BuyMF{}, ofxgo.BuyOpt{}, ofxgo.BuyOther{}, ofxgo.BuyStock{}, ofxgo.ClosureOpt{}, ofxgo.Income{}, ofxgo.InvExpense{}, ofxgo.JrnlFund{}, ofxgo.JrnlSec{}, ofxgo.MarginInterest{}, ofxgo.Reinvest{}, ofxgo.RetOfCap{}, ofxgo.SellDebt{}, ofxgo.SellMF{}, ofxgo.SellOpt{}, ofxgo.SellOther{}, ofxgo.SellStock{}, ofxgo.Split{}, ofxgo.Transfer{}, ofxgo.InvBankTransaction{},
		ofxgo.DebtPosition{}, ofxgo.MFPosition{}, ofxgo.OptPosition{}, ofxgo.OtherPosition{}, ofxgo.StockPosition{},
		ofxgo.OOBuyDebt{}, ofxgo.OOBuyMF{}, ofxgo.OOBuyOpt{}, ofxgo.OOBuyOther{}, ofxgo.OOBuyStock{}, ofxgo.OOSellDebt{}, ofxgo.OOSellMF{}, ofxgo.OOSellOpt{}, ofxgo.OOSellOther{}, ofxgo.OOSellStock{}, ofxgo.OOSwitchMF{},
		ofxgo.DebtInfo{}, ofxgo.MFInfo{}, ofxgo.OptInfo{}, ofxgo.OtherInfo{}, ofxgo.StockInfo{}, ofxgo.MessageSet{},
	} {
		visit(reflect.TypeOf(v))
	}
}
