package model

import "github.com/aclindsa/ofxgo"

// EnumTable lists the OFX names of every enumerated type together with the
// exported constant standing for each (audited copy of the specification).
var EnumTable = []EnumType{
	{Type: "ofxVersion", Values: []EnumValue{
		{"102", uint(ofxgo.OfxVersion102), ofxgo.OfxVersion102},
		{"103", uint(ofxgo.OfxVersion103), ofxgo.OfxVersion103},
		{"151", uint(ofxgo.OfxVersion151), ofxgo.OfxVersion151},
		{"160", uint(ofxgo.OfxVersion160), ofxgo.OfxVersion160},
		{"200", uint(ofxgo.OfxVersion200), ofxgo.OfxVersion200},
		{"201", uint(ofxgo.OfxVersion201), ofxgo.OfxVersion201},
		{"202", uint(ofxgo.OfxVersion202), ofxgo.OfxVersion202},
		{"203", uint(ofxgo.OfxVersion203), ofxgo.OfxVersion203},
		{"210", uint(ofxgo.OfxVersion210), ofxgo.OfxVersion210},
		{"211", uint(ofxgo.OfxVersion211), ofxgo.OfxVersion211},
		{"220", uint(ofxgo.OfxVersion220), ofxgo.OfxVersion220},
	}},
	{Type: "acctType", Values: []EnumValue{
		{"CHECKING", uint(ofxgo.AcctTypeChecking), ofxgo.AcctTypeChecking},
		{"SAVINGS", uint(ofxgo.AcctTypeSavings), ofxgo.AcctTypeSavings},
		{"MONEYMRKT", uint(ofxgo.AcctTypeMoneyMrkt), ofxgo.AcctTypeMoneyMrkt},
		{"CREDITLINE", uint(ofxgo.AcctTypeCreditLine), ofxgo.AcctTypeCreditLine},
		{"CD", uint(ofxgo.AcctTypeCD), ofxgo.AcctTypeCD},
	}},
	{Type: "trnType", Values: []EnumValue{
		{"CREDIT", uint(ofxgo.TrnTypeCredit), ofxgo.TrnTypeCredit},
		{"DEBIT", uint(ofxgo.TrnTypeDebit), ofxgo.TrnTypeDebit},
		{"INT", uint(ofxgo.TrnTypeInt), ofxgo.TrnTypeInt},
		{"DIV", uint(ofxgo.TrnTypeDiv), ofxgo.TrnTypeDiv},
		{"FEE", uint(ofxgo.TrnTypeFee), ofxgo.TrnTypeFee},
		{"SRVCHG", uint(ofxgo.TrnTypeSrvChg), ofxgo.TrnTypeSrvChg},
		{"DEP", uint(ofxgo.TrnTypeDep), ofxgo.TrnTypeDep},
		{"ATM", uint(ofxgo.TrnTypeATM), ofxgo.TrnTypeATM},
		{"POS", uint(ofxgo.TrnTypePOS), ofxgo.TrnTypePOS},
		{"XFER", uint(ofxgo.TrnTypeXfer), ofxgo.TrnTypeXfer},
		{"CHECK", uint(ofxgo.TrnTypeCheck), ofxgo.TrnTypeCheck},
		{"PAYMENT", uint(ofxgo.TrnTypePayment), ofxgo.TrnTypePayment},
		{"CASH", uint(ofxgo.TrnTypeCash), ofxgo.TrnTypeCash},
		{"DIRECTDEP", uint(ofxgo.TrnTypeDirectDep), ofxgo.TrnTypeDirectDep},
		{"DIRECTDEBIT", uint(ofxgo.TrnTypeDirectDebit), ofxgo.TrnTypeDirectDebit},
		{"REPEATPMT", uint(ofxgo.TrnTypeRepeatPmt), ofxgo.TrnTypeRepeatPmt},
		{"HOLD", uint(ofxgo.TrnTypeHold), ofxgo.TrnTypeHold},
		{"OTHER", uint(ofxgo.TrnTypeOther), ofxgo.TrnTypeOther},
	}},
	{Type: "imageType", Values: []EnumValue{
		{"STATEMENT", uint(ofxgo.ImageTypeStatement), ofxgo.ImageTypeStatement},
		{"TRANSACTION", uint(ofxgo.ImageTypeTransaction), ofxgo.ImageTypeTransaction},
		{"TAX", uint(ofxgo.ImageTypeTax), ofxgo.ImageTypeTax},
	}},
	{Type: "imageRefType", Values: []EnumValue{
		{"OPAQUE", uint(ofxgo.ImageRefTypeOpaque), ofxgo.ImageRefTypeOpaque},
		{"URL", uint(ofxgo.ImageRefTypeURL), ofxgo.ImageRefTypeURL},
		{"FORMURL", uint(ofxgo.ImageRefTypeFormURL), ofxgo.ImageRefTypeFormURL},
	}},
	{Type: "checkSup", Values: []EnumValue{
		{"FRONTONLY", uint(ofxgo.CheckSupFrontOnly), ofxgo.CheckSupFrontOnly},
		{"BACKONLY", uint(ofxgo.CheckSupBackOnly), ofxgo.CheckSupBackOnly},
		{"FRONTANDBACK", uint(ofxgo.CheckSupFrontAndBack), ofxgo.CheckSupFrontAndBack},
	}},
	{Type: "correctAction", Values: []EnumValue{
		{"DELETE", uint(ofxgo.CorrectActionDelete), ofxgo.CorrectActionDelete},
		{"REPLACE", uint(ofxgo.CorrectActionReplace), ofxgo.CorrectActionReplace},
	}},
	{Type: "balType", Values: []EnumValue{
		{"DOLLAR", uint(ofxgo.BalTypeDollar), ofxgo.BalTypeDollar},
		{"PERCENT", uint(ofxgo.BalTypePercent), ofxgo.BalTypePercent},
		{"NUMBER", uint(ofxgo.BalTypeNumber), ofxgo.BalTypeNumber},
	}},
	{Type: "inv401kSource", Values: []EnumValue{
		{"PRETAX", uint(ofxgo.Inv401kSourcePreTax), ofxgo.Inv401kSourcePreTax},
		{"AFTERTAX", uint(ofxgo.Inv401kSourceAfterTax), ofxgo.Inv401kSourceAfterTax},
		{"MATCH", uint(ofxgo.Inv401kSourceMatch), ofxgo.Inv401kSourceMatch},
		{"PROFITSHARING", uint(ofxgo.Inv401kSourceProfitSharing), ofxgo.Inv401kSourceProfitSharing},
		{"ROLLOVER", uint(ofxgo.Inv401kSourceRollover), ofxgo.Inv401kSourceRollover},
		{"OTHERVEST", uint(ofxgo.Inv401kSourceOtherVest), ofxgo.Inv401kSourceOtherVest},
		{"OTHERNONVEST", uint(ofxgo.Inv401kSourceOtherNonVest), ofxgo.Inv401kSourceOtherNonVest},
	}},
	{Type: "subAcctType", Values: []EnumValue{
		{"CASH", uint(ofxgo.SubAcctTypeCash), ofxgo.SubAcctTypeCash},
		{"MARGIN", uint(ofxgo.SubAcctTypeMargin), ofxgo.SubAcctTypeMargin},
		{"SHORT", uint(ofxgo.SubAcctTypeShort), ofxgo.SubAcctTypeShort},
		{"OTHER", uint(ofxgo.SubAcctTypeOther), ofxgo.SubAcctTypeOther},
	}},
	{Type: "buyType", Values: []EnumValue{
		{"BUY", uint(ofxgo.BuyTypeBuy), ofxgo.BuyTypeBuy},
		{"BUYTOCOVER", uint(ofxgo.BuyTypeBuyToCover), ofxgo.BuyTypeBuyToCover},
	}},
	{Type: "optAction", Values: []EnumValue{
		{"EXERCISE", uint(ofxgo.OptActionExercise), ofxgo.OptActionExercise},
		{"ASSIGN", uint(ofxgo.OptActionAssign), ofxgo.OptActionAssign},
		{"EXPIRE", uint(ofxgo.OptActionExpire), ofxgo.OptActionExpire},
	}},
	{Type: "tferAction", Values: []EnumValue{
		{"IN", uint(ofxgo.TferActionIn), ofxgo.TferActionIn},
		{"OUT", uint(ofxgo.TferActionOut), ofxgo.TferActionOut},
	}},
	{Type: "posType", Values: []EnumValue{
		{"LONG", uint(ofxgo.PosTypeLong), ofxgo.PosTypeLong},
		{"SHORT", uint(ofxgo.PosTypeShort), ofxgo.PosTypeShort},
	}},
	{Type: "secured", Values: []EnumValue{
		{"NAKED", uint(ofxgo.SecuredNaked), ofxgo.SecuredNaked},
		{"COVERED", uint(ofxgo.SecuredCovered), ofxgo.SecuredCovered},
	}},
	{Type: "duration", Values: []EnumValue{
		{"DAY", uint(ofxgo.DurationDay), ofxgo.DurationDay},
		{"GOODTILCANCEL", uint(ofxgo.DurationGoodTilCancel), ofxgo.DurationGoodTilCancel},
		{"IMMEDIATE", uint(ofxgo.DurationImmediate), ofxgo.DurationImmediate},
	}},
	{Type: "restriction", Values: []EnumValue{
		{"ALLORNONE", uint(ofxgo.RestrictionAllOrNone), ofxgo.RestrictionAllOrNone},
		{"MINUNITS", uint(ofxgo.RestrictionMinUnits), ofxgo.RestrictionMinUnits},
		{"NONE", uint(ofxgo.RestrictionNone), ofxgo.RestrictionNone},
	}},
	{Type: "unitType", Values: []EnumValue{
		{"SHARES", uint(ofxgo.UnitTypeShares), ofxgo.UnitTypeShares},
		{"CURRENCY", uint(ofxgo.UnitTypeCurrency), ofxgo.UnitTypeCurrency},
	}},
	{Type: "optBuyType", Values: []EnumValue{
		{"BUYTOOPEN", uint(ofxgo.OptBuyTypeBuyToOpen), ofxgo.OptBuyTypeBuyToOpen},
		{"BUYTOCLOSE", uint(ofxgo.OptBuyTypeBuyToClose), ofxgo.OptBuyTypeBuyToClose},
	}},
	{Type: "sellType", Values: []EnumValue{
		{"SELL", uint(ofxgo.SellTypeSell), ofxgo.SellTypeSell},
		{"SELLSHORT", uint(ofxgo.SellTypeSellShort), ofxgo.SellTypeSellShort},
	}},
	{Type: "loanPmtFreq", Values: []EnumValue{
		{"WEEKLY", uint(ofxgo.LoanPmtFreqWeekly), ofxgo.LoanPmtFreqWeekly},
		{"BIWEEKLY", uint(ofxgo.LoanPmtFreqBiweekly), ofxgo.LoanPmtFreqBiweekly},
		{"TWICEMONTHLY", uint(ofxgo.LoanPmtFreqTwiceMonthly), ofxgo.LoanPmtFreqTwiceMonthly},
		{"MONTHLY", uint(ofxgo.LoanPmtFreqMonthly), ofxgo.LoanPmtFreqMonthly},
		{"FOURWEEKS", uint(ofxgo.LoanPmtFreqFourWeeks), ofxgo.LoanPmtFreqFourWeeks},
		{"BIMONTHLY", uint(ofxgo.LoanPmtFreqBiMonthly), ofxgo.LoanPmtFreqBiMonthly},
		{"QUARTERLY", uint(ofxgo.LoanPmtFreqQuarterly), ofxgo.LoanPmtFreqQuarterly},
		{"SEMIANNUALLY", uint(ofxgo.LoanPmtFreqSemiannually), ofxgo.LoanPmtFreqSemiannually},
		{"ANNUALLY", uint(ofxgo.LoanPmtFreqAnnually), ofxgo.LoanPmtFreqAnnually},
		{"OTHER", uint(ofxgo.LoanPmtFreqOther), ofxgo.LoanPmtFreqOther},
	}},
	{Type: "incomeType", Values: []EnumValue{
		{"CGLONG", uint(ofxgo.IncomeTypeCGLong), ofxgo.IncomeTypeCGLong},
		{"CGSHORT", uint(ofxgo.IncomeTypeCGShort), ofxgo.IncomeTypeCGShort},
		{"DIV", uint(ofxgo.IncomeTypeDiv), ofxgo.IncomeTypeDiv},
		{"INTEREST", uint(ofxgo.IncomeTypeInterest), ofxgo.IncomeTypeInterest},
		{"MISC", uint(ofxgo.IncomeTypeMisc), ofxgo.IncomeTypeMisc},
	}},
	{Type: "sellReason", Values: []EnumValue{
		{"CALL", uint(ofxgo.SellReasonCall), ofxgo.SellReasonCall},
		{"SELL", uint(ofxgo.SellReasonSell), ofxgo.SellReasonSell},
		{"MATURITY", uint(ofxgo.SellReasonMaturity), ofxgo.SellReasonMaturity},
	}},
	{Type: "optSellType", Values: []EnumValue{
		{"SELLTOCLOSE", uint(ofxgo.OptSellTypeSellToClose), ofxgo.OptSellTypeSellToClose},
		{"SELLTOOPEN", uint(ofxgo.OptSellTypeSellToOpen), ofxgo.OptSellTypeSellToOpen},
	}},
	{Type: "relType", Values: []EnumValue{
		{"SPREAD", uint(ofxgo.RelTypeSpread), ofxgo.RelTypeSpread},
		{"STRADDLE", uint(ofxgo.RelTypeStraddle), ofxgo.RelTypeStraddle},
		{"NONE", uint(ofxgo.RelTypeNone), ofxgo.RelTypeNone},
		{"OTHER", uint(ofxgo.RelTypeOther), ofxgo.RelTypeOther},
	}},
	{Type: "charType", Values: []EnumValue{
		{"ALPHAONLY", uint(ofxgo.CharTypeAlphaOnly), ofxgo.CharTypeAlphaOnly},
		{"NUMERICONLY", uint(ofxgo.CharTypeNumericOnly), ofxgo.CharTypeNumericOnly},
		{"ALPHAORNUMERIC", uint(ofxgo.CharTypeAlphaOrNumeric), ofxgo.CharTypeAlphaOrNumeric},
		{"ALPHAANDNUMERIC", uint(ofxgo.CharTypeAlphaAndNumeric), ofxgo.CharTypeAlphaAndNumeric},
	}},
	{Type: "syncMode", Values: []EnumValue{
		{"FULL", uint(ofxgo.SyncModeFull), ofxgo.SyncModeFull},
		{"LITE", uint(ofxgo.SyncModeLite), ofxgo.SyncModeLite},
	}},
	{Type: "ofxSec", Values: []EnumValue{
		{"NONE", uint(ofxgo.OfxSecNone), ofxgo.OfxSecNone},
		{"TYPE 1", uint(ofxgo.OfxSecType1), ofxgo.OfxSecType1},
	}},
	{Type: "debtType", Values: []EnumValue{
		{"COUPON", uint(ofxgo.DebtTypeCoupon), ofxgo.DebtTypeCoupon},
		{"ZERO", uint(ofxgo.DebtTypeZero), ofxgo.DebtTypeZero},
	}},
	{Type: "debtClass", Values: []EnumValue{
		{"TREASURY", uint(ofxgo.DebtClassTreasury), ofxgo.DebtClassTreasury},
		{"MUNICIPAL", uint(ofxgo.DebtClassMunicipal), ofxgo.DebtClassMunicipal},
		{"CORPORATE", uint(ofxgo.DebtClassCorporate), ofxgo.DebtClassCorporate},
		{"OTHER", uint(ofxgo.DebtClassOther), ofxgo.DebtClassOther},
	}},
	{Type: "couponFreq", Values: []EnumValue{
		{"MONTHLY", uint(ofxgo.CouponFreqMonthly), ofxgo.CouponFreqMonthly},
		{"QUARTERLY", uint(ofxgo.CouponFreqQuarterly), ofxgo.CouponFreqQuarterly},
		{"SEMIANNUAL", uint(ofxgo.CouponFreqSemiannual), ofxgo.CouponFreqSemiannual},
		{"ANNUAL", uint(ofxgo.CouponFreqAnnual), ofxgo.CouponFreqAnnual},
		{"OTHER", uint(ofxgo.CouponFreqOther), ofxgo.CouponFreqOther},
	}},
	{Type: "callType", Values: []EnumValue{
		{"CALL", uint(ofxgo.CallTypeCall), ofxgo.CallTypeCall},
		{"PUT", uint(ofxgo.CallTypePut), ofxgo.CallTypePut},
		{"PREFUND", uint(ofxgo.CallTypePrefund), ofxgo.CallTypePrefund},
		{"MATURITY", uint(ofxgo.CallTypeMaturity), ofxgo.CallTypeMaturity},
	}},
	{Type: "assetClass", Values: []EnumValue{
		{"DOMESTICBOND", uint(ofxgo.AssetClassDomesticBond), ofxgo.AssetClassDomesticBond},
		{"INTLBOND", uint(ofxgo.AssetClassIntlBond), ofxgo.AssetClassIntlBond},
		{"LARGESTOCK", uint(ofxgo.AssetClassLargeStock), ofxgo.AssetClassLargeStock},
		{"SMALLSTOCK", uint(ofxgo.AssetClassSmallStock), ofxgo.AssetClassSmallStock},
		{"INTLSTOCK", uint(ofxgo.AssetClassIntlStock), ofxgo.AssetClassIntlStock},
		{"MONEYMRKT", uint(ofxgo.AssetClassMoneyMrkt), ofxgo.AssetClassMoneyMrkt},
		{"OTHER", uint(ofxgo.AssetClassOther), ofxgo.AssetClassOther},
	}},
	{Type: "mfType", Values: []EnumValue{
		{"OPENEND", uint(ofxgo.MfTypeOpenEnd), ofxgo.MfTypeOpenEnd},
		{"CLOSEEND", uint(ofxgo.MfTypeCloseEnd), ofxgo.MfTypeCloseEnd},
		{"OTHER", uint(ofxgo.MfTypeOther), ofxgo.MfTypeOther},
	}},
	{Type: "optType", Values: []EnumValue{
		{"PUT", uint(ofxgo.OptTypePut), ofxgo.OptTypePut},
		{"CALL", uint(ofxgo.OptTypeCall), ofxgo.OptTypeCall},
	}},
	{Type: "stockType", Values: []EnumValue{
		{"COMMON", uint(ofxgo.StockTypeCommon), ofxgo.StockTypeCommon},
		{"PREFERRED", uint(ofxgo.StockTypePreferred), ofxgo.StockTypePreferred},
		{"CONVERTIBLE", uint(ofxgo.StockTypeConvertible), ofxgo.StockTypeConvertible},
		{"OTHER", uint(ofxgo.StockTypeOther), ofxgo.StockTypeOther},
	}},
	{Type: "holderType", Values: []EnumValue{
		{"INDIVIDUAL", uint(ofxgo.HolderTypeIndividual), ofxgo.HolderTypeIndividual},
		{"JOINT", uint(ofxgo.HolderTypeJoint), ofxgo.HolderTypeJoint},
		{"CUSTODIAL", uint(ofxgo.HolderTypeCustodial), ofxgo.HolderTypeCustodial},
		{"TRUST", uint(ofxgo.HolderTypeTrust), ofxgo.HolderTypeTrust},
		{"OTHER", uint(ofxgo.HolderTypeOther), ofxgo.HolderTypeOther},
	}},
	{Type: "acctClassification", Values: []EnumValue{
		{"PERSONAL", uint(ofxgo.AcctClassificationPersonal), ofxgo.AcctClassificationPersonal},
		{"BUSINESS", uint(ofxgo.AcctClassificationBusiness), ofxgo.AcctClassificationBusiness},
		{"CORPORATE", uint(ofxgo.AcctClassificationCorporate), ofxgo.AcctClassificationCorporate},
		{"OTHER", uint(ofxgo.AcctClassificationOther), ofxgo.AcctClassificationOther},
	}},
	{Type: "svcStatus", Values: []EnumValue{
		{"AVAIL", uint(ofxgo.SvcStatusAvail), ofxgo.SvcStatusAvail},
		{"PEND", uint(ofxgo.SvcStatusPend), ofxgo.SvcStatusPend},
		{"ACTIVE", uint(ofxgo.SvcStatusActive), ofxgo.SvcStatusActive},
	}},
	{Type: "usProductType", Values: []EnumValue{
		{"401K", uint(ofxgo.UsProductType401K), ofxgo.UsProductType401K},
		{"403B", uint(ofxgo.UsProductType403B), ofxgo.UsProductType403B},
		{"IRA", uint(ofxgo.UsProductTypeIRA), ofxgo.UsProductTypeIRA},
		{"KEOGH", uint(ofxgo.UsProductTypeKEOGH), ofxgo.UsProductTypeKEOGH},
		{"OTHER", uint(ofxgo.UsProductTypeOther), ofxgo.UsProductTypeOther},
		{"SARSEP", uint(ofxgo.UsProductTypeSARSEP), ofxgo.UsProductTypeSARSEP},
		{"SIMPLE", uint(ofxgo.UsProductTypeSimple), ofxgo.UsProductTypeSimple},
		{"NORMAL", uint(ofxgo.UsProductTypeNormal), ofxgo.UsProductTypeNormal},
		{"TDA", uint(ofxgo.UsProductTypeTDA), ofxgo.UsProductTypeTDA},
		{"TRUST", uint(ofxgo.UsProductTypeTrust), ofxgo.UsProductTypeTrust},
		{"UGMA", uint(ofxgo.UsProductTypeUGMA), ofxgo.UsProductTypeUGMA},
	}},
}
