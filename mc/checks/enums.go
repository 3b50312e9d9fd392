package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

// constructors of enumerated values, by type
var newEnum = map[string]interface{}{
	"ofxVersion":         ofxgo.NewOfxVersion,
	"acctType":           ofxgo.NewAcctType,
	"trnType":            ofxgo.NewTrnType,
	"imageType":          ofxgo.NewImageType,
	"imageRefType":       ofxgo.NewImageRefType,
	"checkSup":           ofxgo.NewCheckSup,
	"correctAction":      ofxgo.NewCorrectAction,
	"balType":            ofxgo.NewBalType,
	"inv401kSource":      ofxgo.NewInv401kSource,
	"subAcctType":        ofxgo.NewSubAcctType,
	"buyType":            ofxgo.NewBuyType,
	"optAction":          ofxgo.NewOptAction,
	"tferAction":         ofxgo.NewTferAction,
	"posType":            ofxgo.NewPosType,
	"secured":            ofxgo.NewSecured,
	"duration":           ofxgo.NewDuration,
	"restriction":        ofxgo.NewRestriction,
	"unitType":           ofxgo.NewUnitType,
	"optBuyType":         ofxgo.NewOptBuyType,
	"sellType":           ofxgo.NewSellType,
	"loanPmtFreq":        ofxgo.NewLoanPmtFreq,
	"incomeType":         ofxgo.NewIncomeType,
	"sellReason":         ofxgo.NewSellReason,
	"optSellType":        ofxgo.NewOptSellType,
	"relType":            ofxgo.NewRelType,
	"charType":           ofxgo.NewCharType,
	"syncMode":           ofxgo.NewSyncMode,
	"ofxSec":             ofxgo.NewOfxSec,
	"debtType":           ofxgo.NewDebtType,
	"debtClass":          ofxgo.NewDebtClass,
	"couponFreq":         ofxgo.NewCouponFreq,
	"callType":           ofxgo.NewCallType,
	"assetClass":         ofxgo.NewAssetClass,
	"mfType":             ofxgo.NewMfType,
	"optType":            ofxgo.NewOptType,
	"stockType":          ofxgo.NewStockType,
	"holderType":         ofxgo.NewHolderType,
	"acctClassification": ofxgo.NewAcctClassification,
	"svcStatus":          ofxgo.NewSvcStatus,
	"usProductType":      ofxgo.NewUsProductType,
}

func c15(c *Ctx) {
	c.Assume = append(c.Assume, "the committed tables of enumerated types are the OFX specification's")
	types := model.EnumTable
	if len(newEnum) != len(types) {
		panic("model: enumeration tables differ")
	}
	var allNames []string
	seen := map[string]bool{}
	for _, t := range types {
		for _, v := range t.Values {
			if !seen[v.Name] {
				seen[v.Name] = true
				allNames = append(allNames, v.Name)
			}
		}
	}
	allNames = append(allNames, Lit.Strings...)
	goType := func(t model.EnumType) reflect.Type { return reflect.TypeOf(t.Values[0].Const) }
	mk := func(t model.EnumType, n uint64) reflect.Value {
		p := reflect.New(goType(t))
		p.Elem().SetUint(n)
		return p
	}
	call := func(v reflect.Value, name string, args ...interface{}) []reflect.Value {
		m := v.MethodByName(name)
		if !m.IsValid() {
			panic("model: no method " + name)
		}
		var in []reflect.Value
		for _, a := range args {
			in = append(in, reflect.ValueOf(a))
		}
		return m.Call(in)
	}
	isErr := func(v reflect.Value) bool { return !v.IsNil() }
	checkText := func(x *explore.X, t model.EnumType, text string) {
		want := uint64(0)
		for _, v := range t.Values {
			if v.Name == strings.TrimSpace(text) {
				want = uint64(v.Num)
			}
		}
		for _, init := range []uint64{0, 1, uint64(len(t.Values))} {
			p := mk(t, init)
			e := call(p, "FromString", text)[0]
			if (want != 0) == isErr(e) {
				x.Fail("fromstring", "%s.FromString(%q): %v", t.Type, text, e)
			}
			if got := p.Elem().Uint(); want != 0 && got != want || want == 0 && got != 0 && got != init {
				x.Fail("fromstring", "%s.FromString(%q) gives %d, want %d", t.Type, text, got, want)
			}
			p = mk(t, init)
			err := unmarshal(text, p.Interface())
			if (want != 0) == (err != nil) || want != 0 && p.Elem().Uint() != want {
				x.Fail("unmarshal", "%s %q is read as %d, %v; want %d", t.Type, text, p.Elem().Uint(), err, want)
			}
		}
		r := reflect.ValueOf(newEnum[t.Type]).Call([]reflect.Value{reflect.ValueOf(text)})
		if (want != 0) == isErr(r[1]) || r[0].Uint() != want {
			x.Fail("new", "New%s(%q) gives %d, %v; want %d", strings.Title(t.Type), text, r[0].Uint(), r[1], want)
		}
	}
	// every value
	c.Space(&explore.Space{Name: "values", Body: func(x *explore.X) {
		t := types[x.Choose("type", len(types))]
		n := uint64(len(t.Values))
		nums := []uint64{}
		for i := uint64(0); i <= n+3; i++ {
			nums = append(nums, i)
		}
		nums = append(nums, 1<<8, 1<<8+1, 1<<16, 1<<16+1, 1<<32, 1<<32+1, 1<<63, 1<<64-1, 100, 255)
		for _, l := range Lit.Ints {
			if l >= 0 {
				nums = append(nums, uint64(l))
			}
		}
		v := nums[x.Choose("value", len(nums))]
		name := ""
		for _, ev := range t.Values {
			if uint64(ev.Num) == v {
				name = ev.Name
			}
		}
		p := mk(t, v)
		for _, rv := range []reflect.Value{p, p.Elem()} {
			if call(rv, "Valid")[0].Bool() != (name != "") {
				x.Fail("valid", "%s value %d: valid=%v", t.Type, v, name == "")
			}
			s := call(rv, "String")[0].String()
			if name != "" && s != name {
				x.Fail("string", "%s value %d is printed %q, want %q", t.Type, v, s, name)
			}
			if name == "" {
				for _, o := range t.Values {
					if s == o.Name {
						x.Fail("string", "undefined %s value %d is printed %q", t.Type, v, s)
					}
				}
			}
			if m := marshalLeaf(x, rv.Interface()); m != name {
				x.Fail("marshal", "%s value %d is written %q, want %q", t.Type, v, m, name)
			}
			if p.Elem().Uint() != v {
				x.Fail("mutated", "%s value %d changed to %d", t.Type, v, p.Elem().Uint())
			}
		}
		if name != "" {
			checkText(x, t, name)
		}
		x.State(t.Type, fmt.Sprint(v))
	}})
	// every name of every type, for every type, in several spellings
	c.Space(&explore.Space{Name: "names", Body: func(x *explore.X) {
		t := types[x.Choose("type", len(types))]
		name := allNames[x.Choose("name", len(allNames))]
		for _, s := range []string{name, " " + name, name + "\n", "\t" + name + "  ", strings.ToLower(name), strings.Title(strings.ToLower(name)), name + "S", name + "0", "X" + name, name + "," + name, name + " " + name, "", " ", "0", "1"} {
			checkText(x, t, s)
		}
		if len(name) > 1 {
			checkText(x, t, name[1:])
			checkText(x, t, name[:len(name)-1])
			checkText(x, t, name[:1]+" "+name[1:])
		}
		x.State(t.Type, name)
	}})
	// single character edits of every name
	c.Space(&explore.Space{Name: "edits", Body: func(x *explore.X) {
		t := types[x.Choose("type", len(types))]
		v := t.Values[x.Choose("value", len(t.Values))]
		alpha := "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- "
		step := 3
		if c.Thorough() {
			step = 1
		}
		for i := 0; i <= len(v.Name); i++ {
			for k := i % step; k < len(alpha); k += step {
				ch := alpha[k : k+1]
				checkText(x, t, v.Name[:i]+ch+v.Name[i:])
				if i < len(v.Name) {
					checkText(x, t, v.Name[:i]+ch+v.Name[i+1:])
				}
			}
		}
		x.State(t.Type, v.Name)
	}})
	// short texts
	c.Space(&explore.Space{Name: "short", Body: func(x *explore.X) {
		t := types[x.Choose("type", len(types))]
		checkText(x, t, pickString(x, []string{"C", "D", "A", "T", "M", "N", "1", "2", "0", " "}, c.Pick(3, 5)))
		x.State(t.Type)
	}})
}
