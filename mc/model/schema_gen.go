package model

// The element grammar of the supported OFX subset: element names, their order,
// optionality and nesting as in the OFX 2.2 specification, and the exported Go
// field each element corresponds to. Written once (first draft by
// tools/genschema), audited against the specification and the documentation of
// the exported fields; it is data of the oracle and never derived from the
// struct tags of the tree under test.

var sSignonRequest = []*Elem{
	{Tag: "DTCLIENT", Field: "DtClient", Kind: Date},
	{Tag: "USERID", Field: "UserID", Kind: String},
	{Tag: "USERPASS", Field: "UserPass", Kind: String, Opt: true},
	{Tag: "USERKEY", Field: "UserKey", Kind: String, Opt: true},
	{Tag: "GENUSERKEY", Field: "GenUserKey", Kind: Boolean, Opt: true},
	{Tag: "LANGUAGE", Field: "Language", Kind: String},
	{Tag: "FI", Kind: Flat, Kids: []*Elem{
		{Tag: "ORG", Field: "Org", Kind: String},
		{Tag: "FID", Field: "Fid", Kind: String},
	}},
	{Tag: "APPID", Field: "AppID", Kind: String},
	{Tag: "APPVER", Field: "AppVer", Kind: String},
	{Tag: "CLIENTUID", Field: "ClientUID", Kind: UID, Opt: true},
}

var sAcctInfoRequest = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "TAN", Field: "TAN", Kind: String, Opt: true},
	{Tag: "ACCTINFORQ", Kind: Flat, Kids: []*Elem{
		{Tag: "DTACCTUP", Field: "DtAcctUp", Kind: Date},
	}},
}

var sBankAcct = []*Elem{
	{Tag: "BANKID", Field: "BankID", Kind: String},
	{Tag: "BRANCHID", Field: "BranchID", Kind: String, Opt: true},
	{Tag: "ACCTID", Field: "AcctID", Kind: String},
	{Tag: "ACCTTYPE", Field: "AcctType", Kind: Enum, Enum: "acctType"},
	{Tag: "ACCTKEY", Field: "AcctKey", Kind: String, Opt: true},
}

var sStatementRequest = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "TAN", Field: "TAN", Kind: String, Opt: true},
	{Tag: "STMTRQ", Kind: Flat, Kids: []*Elem{
		{Tag: "BANKACCTFROM", Field: "BankAcctFrom", Kind: Agg, Kids: sBankAcct},
		{Tag: "INCTRAN", Kind: Flat, Kids: []*Elem{
			{Tag: "DTSTART", Field: "DtStart", Kind: Date, Opt: true, Ptr: true},
			{Tag: "DTEND", Field: "DtEnd", Kind: Date, Opt: true, Ptr: true},
			{Tag: "INCLUDE", Field: "Include", Kind: Boolean},
		}},
		{Tag: "INCLUDEPENDING", Field: "IncludePending", Kind: Boolean, Opt: true},
		{Tag: "INCTRANIMG", Field: "IncTranImg", Kind: Boolean, Opt: true},
	}},
}

var sCCAcct = []*Elem{
	{Tag: "ACCTID", Field: "AcctID", Kind: String},
	{Tag: "ACCTKEY", Field: "AcctKey", Kind: String, Opt: true},
}

var sCCStatementRequest = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "TAN", Field: "TAN", Kind: String, Opt: true},
	{Tag: "CCSTMTRQ", Kind: Flat, Kids: []*Elem{
		{Tag: "CCACCTFROM", Field: "CCAcctFrom", Kind: Agg, Kids: sCCAcct},
		{Tag: "INCTRAN", Kind: Flat, Kids: []*Elem{
			{Tag: "DTSTART", Field: "DtStart", Kind: Date, Opt: true, Ptr: true},
			{Tag: "DTEND", Field: "DtEnd", Kind: Date, Opt: true, Ptr: true},
			{Tag: "INCLUDE", Field: "Include", Kind: Boolean},
		}},
		{Tag: "INCLUDEPENDING", Field: "IncludePending", Kind: Boolean, Opt: true},
		{Tag: "INCTRANIMG", Field: "IncTranImg", Kind: Boolean, Opt: true},
	}},
}

var sInvAcct = []*Elem{
	{Tag: "BROKERID", Field: "BrokerID", Kind: String},
	{Tag: "ACCTID", Field: "AcctID", Kind: String},
}

var sInvStatementRequest = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "TAN", Field: "TAN", Kind: String, Opt: true},
	{Tag: "INVSTMTRQ", Kind: Flat, Kids: []*Elem{
		{Tag: "INVACCTFROM", Field: "InvAcctFrom", Kind: Agg, Kids: sInvAcct},
		{Tag: "INCTRAN", Kind: Flat, Kids: []*Elem{
			{Tag: "DTSTART", Field: "DtStart", Kind: Date, Opt: true, Ptr: true},
			{Tag: "DTEND", Field: "DtEnd", Kind: Date, Opt: true, Ptr: true},
			{Tag: "INCLUDE", Field: "Include", Kind: Boolean},
		}},
		{Tag: "INCOO", Field: "IncludeOO", Kind: Boolean},
		{Tag: "INCPOS", Kind: Flat, Kids: []*Elem{
			{Tag: "DTASOF", Field: "PosDtAsOf", Kind: Date, Opt: true, Ptr: true},
			{Tag: "INCLUDE", Field: "IncludePos", Kind: Boolean},
		}},
		{Tag: "INCBAL", Field: "IncludeBalance", Kind: Boolean},
		{Tag: "INC401K", Field: "Include401K", Kind: Boolean, Opt: true},
		{Tag: "INC401KBAL", Field: "Include401KBal", Kind: Boolean, Opt: true},
		{Tag: "INCTRANIMAGE", Field: "IncludeTranImage", Kind: Boolean, Opt: true},
	}},
}

var sSecurityID = []*Elem{
	{Tag: "UNIQUEID", Field: "UniqueID", Kind: String},
	{Tag: "UNIQUEIDTYPE", Field: "UniqueIDType", Kind: String},
}

var sSecurityRequest = []*Elem{
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID, Opt: true, Ptr: true},
	{Tag: "TICKER", Field: "Ticker", Kind: String, Opt: true},
	{Tag: "FIID", Field: "FiID", Kind: String, Opt: true},
}

var sSecListRequest = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "TAN", Field: "TAN", Kind: String, Opt: true},
	{Tag: "SECLISTRQ", Kind: Flat, Kids: []*Elem{
		{Tag: "SECRQ", Field: "Securities", Kind: Agg, Kids: sSecurityRequest, Opt: true, List: true},
	}},
}

var sProfileRequest = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "TAN", Field: "TAN", Kind: String, Opt: true},
	{Tag: "PROFRQ", Kind: Flat, Kids: []*Elem{
		{Tag: "CLIENTROUTING", Field: "ClientRouting", Kind: String},
		{Tag: "DTPROFUP", Field: "DtProfUp", Kind: Date},
	}},
}

var sStatus = []*Elem{
	{Tag: "CODE", Field: "Code", Kind: Int},
	{Tag: "SEVERITY", Field: "Severity", Kind: String},
	{Tag: "MESSAGE", Field: "Message", Kind: String, Opt: true},
}

var sSignonResponse = []*Elem{
	{Tag: "STATUS", Field: "Status", Kind: Agg, Kids: sStatus},
	{Tag: "DTSERVER", Field: "DtServer", Kind: Date},
	{Tag: "USERKEY", Field: "UserKey", Kind: String, Opt: true},
	{Tag: "TSKEYEXPIRE", Field: "TsKeyExpire", Kind: Date, Opt: true, Ptr: true},
	{Tag: "LANGUAGE", Field: "Language", Kind: String},
	{Tag: "DTPROFUP", Field: "DtProfUp", Kind: Date, Opt: true, Ptr: true},
	{Tag: "DTACCTUP", Field: "DtAcctUp", Kind: Date, Opt: true, Ptr: true},
	{Tag: "FI", Kind: Flat, Kids: []*Elem{
		{Tag: "ORG", Field: "Org", Kind: String},
		{Tag: "FID", Field: "Fid", Kind: String},
	}},
	{Tag: "SESSCOOKIE", Field: "SessCookie", Kind: String, Opt: true},
	{Tag: "ACCESSKEY", Field: "AccessKey", Kind: String, Opt: true},
}

var sHolderInfo = []*Elem{
	{Tag: "FIRSTNAME", Field: "FirstName", Kind: String},
	{Tag: "MIDDLENAME", Field: "MiddleName", Kind: String, Opt: true},
	{Tag: "LASTNAME", Field: "LastName", Kind: String},
	{Tag: "ADDR1", Field: "Addr1", Kind: String},
	{Tag: "ADDR2", Field: "Addr2", Kind: String, Opt: true},
	{Tag: "ADDR3", Field: "Addr3", Kind: String, Opt: true},
	{Tag: "CITY", Field: "City", Kind: String},
	{Tag: "STATE", Field: "State", Kind: String},
	{Tag: "POSTALCODE", Field: "PostalCode", Kind: String},
	{Tag: "COUNTRY", Field: "Country", Kind: String, Opt: true},
	{Tag: "DAYPHONE", Field: "DayPhone", Kind: String, Opt: true},
	{Tag: "EVEPHONE", Field: "EvePhone", Kind: String, Opt: true},
	{Tag: "EMAIL", Field: "Email", Kind: String, Opt: true},
	{Tag: "HOLDERTYPE", Field: "HolderType", Kind: Enum, Enum: "holderType", Opt: true},
}

var sBankAcctInfo = []*Elem{
	{Tag: "BANKACCTFROM", Field: "BankAcctFrom", Kind: Agg, Kids: sBankAcct},
	{Tag: "SUPTXDL", Field: "SupTxDl", Kind: Boolean},
	{Tag: "XFERSRC", Field: "XferSrc", Kind: Boolean},
	{Tag: "XFERDEST", Field: "XferDest", Kind: Boolean},
	{Tag: "MATURITYDATE", Field: "MaturityDate", Kind: Date, Opt: true},
	{Tag: "MATURITYAMOUNT", Field: "MaturityAmt", Kind: Amount, Opt: true},
	{Tag: "MINBALREQ", Field: "MinBalReq", Kind: Amount, Opt: true},
	{Tag: "ACCTCLASSIFICATION", Field: "AcctClassification", Kind: Enum, Enum: "acctClassification", Opt: true},
	{Tag: "OVERDRAFTLIMIT", Field: "OverdraftLimit", Kind: Amount, Opt: true},
	{Tag: "SVCSTATUS", Field: "SvcStatus", Kind: Enum, Enum: "svcStatus"},
}

var sCCAcctInfo = []*Elem{
	{Tag: "CCACCTFROM", Field: "CCAcctFrom", Kind: Agg, Kids: sCCAcct},
	{Tag: "SUPTXDL", Field: "SupTxDl", Kind: Boolean},
	{Tag: "XFERSRC", Field: "XferSrc", Kind: Boolean},
	{Tag: "XFERDEST", Field: "XferDest", Kind: Boolean},
	{Tag: "ACCTCLASSIFICATION", Field: "AcctClassification", Kind: Enum, Enum: "acctClassification", Opt: true},
	{Tag: "SVCSTATUS", Field: "SvcStatus", Kind: Enum, Enum: "svcStatus"},
}

var sInvAcctInfo = []*Elem{
	{Tag: "INVACCTFROM", Field: "InvAcctFrom", Kind: Agg, Kids: sInvAcct},
	{Tag: "USPRODUCTTYPE", Field: "UsProductType", Kind: Enum, Enum: "usProductType"},
	{Tag: "CHECKING", Field: "Checking", Kind: Boolean},
	{Tag: "SVCSTATUS", Field: "SvcStatus", Kind: Enum, Enum: "svcStatus"},
	{Tag: "INVACCTTYPE", Field: "InvAcctType", Kind: Enum, Enum: "holderType", Opt: true},
	{Tag: "OPTIONLEVEL", Field: "OptionLevel", Kind: String, Opt: true},
}

var sAcctInfo = []*Elem{
	{Tag: "NAME", Field: "Name", Kind: String, Opt: true},
	{Tag: "DESC", Field: "Desc", Kind: String, Opt: true},
	{Tag: "PHONE", Field: "Phone", Kind: String, Opt: true},
	{Tag: "HOLDERINFO", Kind: Flat, Kids: []*Elem{
		{Tag: "PRIMARYHOLDER", Field: "PrimaryHolder", Kind: Agg, Kids: sHolderInfo, Opt: true},
		{Tag: "SECONDARYHOLDER", Field: "SecondaryHolder", Kind: Agg, Kids: sHolderInfo, Opt: true},
	}},
	{Tag: "BANKACCTINFO", Field: "BankAcctInfo", Kind: Agg, Kids: sBankAcctInfo, Opt: true, Ptr: true},
	{Tag: "CCACCTINFO", Field: "CCAcctInfo", Kind: Agg, Kids: sCCAcctInfo, Opt: true, Ptr: true},
	{Tag: "INVACCTINFO", Field: "InvAcctInfo", Kind: Agg, Kids: sInvAcctInfo, Opt: true, Ptr: true},
}

var sAcctInfoResponse = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "STATUS", Field: "Status", Kind: Agg, Kids: sStatus},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "ACCTINFORS", Kind: Flat, Kids: []*Elem{
		{Tag: "DTACCTUP", Field: "DtAcctUp", Kind: Date},
		{Tag: "ACCTINFO", Field: "AcctInfo", Kind: Agg, Kids: sAcctInfo, Opt: true, List: true},
	}},
}

var sPayee = []*Elem{
	{Tag: "NAME", Field: "Name", Kind: String},
	{Tag: "ADDR1", Field: "Addr1", Kind: String},
	{Tag: "ADDR2", Field: "Addr2", Kind: String, Opt: true},
	{Tag: "ADDR3", Field: "Addr3", Kind: String, Opt: true},
	{Tag: "CITY", Field: "City", Kind: String},
	{Tag: "STATE", Field: "State", Kind: String},
	{Tag: "POSTALCODE", Field: "PostalCode", Kind: String},
	{Tag: "COUNTRY", Field: "Country", Kind: String, Opt: true},
	{Tag: "PHONE", Field: "Phone", Kind: String},
}

var sImageData = []*Elem{
	{Tag: "IMAGETYPE", Field: "ImageType", Kind: Enum, Enum: "imageType"},
	{Tag: "IMAGEREF", Field: "ImageRef", Kind: String},
	{Tag: "IMAGEREFTYPE", Field: "ImageRefType", Kind: Enum, Enum: "imageRefType"},
	{Tag: "IMAGEDELAY", Field: "ImageDelay", Kind: Int, Opt: true},
	{Tag: "DTIMAGEAVAIL", Field: "DtImageAvail", Kind: Date, Opt: true, Ptr: true},
	{Tag: "IMAGETTL", Field: "ImageTTL", Kind: Int, Opt: true},
	{Tag: "CHECKSUP", Field: "CheckSup", Kind: Enum, Enum: "checkSup", Opt: true},
}

var sCurrency = []*Elem{
	{Tag: "CURRATE", Field: "CurRate", Kind: Amount},
	{Tag: "CURSYM", Field: "CurSym", Kind: CurrSymbol},
}

var sTransaction = []*Elem{
	{Tag: "TRNTYPE", Field: "TrnType", Kind: Enum, Enum: "trnType"},
	{Tag: "DTPOSTED", Field: "DtPosted", Kind: Date},
	{Tag: "DTUSER", Field: "DtUser", Kind: Date, Opt: true, Ptr: true},
	{Tag: "DTAVAIL", Field: "DtAvail", Kind: Date, Opt: true, Ptr: true},
	{Tag: "TRNAMT", Field: "TrnAmt", Kind: Amount},
	{Tag: "FITID", Field: "FiTID", Kind: String},
	{Tag: "CORRECTFITID", Field: "CorrectFiTID", Kind: String, Opt: true},
	{Tag: "CORRECTACTION", Field: "CorrectAction", Kind: Enum, Enum: "correctAction", Opt: true},
	{Tag: "SRVRTID", Field: "SrvrTID", Kind: String, Opt: true},
	{Tag: "CHECKNUM", Field: "CheckNum", Kind: String, Opt: true},
	{Tag: "REFNUM", Field: "RefNum", Kind: String, Opt: true},
	{Tag: "SIC", Field: "SIC", Kind: Int, Opt: true},
	{Tag: "PAYEEID", Field: "PayeeID", Kind: String, Opt: true},
	{Tag: "NAME", Field: "Name", Kind: String, Opt: true},
	{Tag: "PAYEE", Field: "Payee", Kind: Agg, Kids: sPayee, Opt: true, Ptr: true},
	{Tag: "EXTDNAME", Field: "ExtdName", Kind: String, Opt: true},
	{Tag: "BANKACCTTO", Field: "BankAcctTo", Kind: Agg, Kids: sBankAcct, Opt: true, Ptr: true},
	{Tag: "CCACCTTO", Field: "CCAcctTo", Kind: Agg, Kids: sCCAcct, Opt: true, Ptr: true},
	{Tag: "MEMO", Field: "Memo", Kind: String, Opt: true},
	{Tag: "IMAGEDATA", Field: "ImageData", Kind: Agg, Kids: sImageData, Opt: true, List: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true, Ptr: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true, Ptr: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sTransactionList = []*Elem{
	{Tag: "DTSTART", Field: "DtStart", Kind: Date},
	{Tag: "DTEND", Field: "DtEnd", Kind: Date},
	{Tag: "STMTTRN", Field: "Transactions", Kind: Agg, Kids: sTransaction, Opt: true, List: true},
}

var sPendingTransaction = []*Elem{
	{Tag: "TRNTYPE", Field: "TrnType", Kind: Enum, Enum: "trnType"},
	{Tag: "DTTRAN", Field: "DtTran", Kind: Date},
	{Tag: "DTEXPIRE", Field: "DtExpire", Kind: Date, Opt: true, Ptr: true},
	{Tag: "TRNAMT", Field: "TrnAmt", Kind: Amount},
	{Tag: "REFNUM", Field: "RefNum", Kind: String, Opt: true},
	{Tag: "NAME", Field: "Name", Kind: String, Opt: true},
	{Tag: "EXTDNAME", Field: "ExtdName", Kind: String, Opt: true},
	{Tag: "MEMO", Field: "Memo", Kind: String, Opt: true},
	{Tag: "IMAGEDATA", Field: "ImageData", Kind: Agg, Kids: sImageData, Opt: true, List: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
}

var sPendingTransactionList = []*Elem{
	{Tag: "DTASOF", Field: "DtAsOf", Kind: Date},
	{Tag: "STMTTRNP", Field: "Transactions", Kind: Agg, Kids: sPendingTransaction, Opt: true, List: true},
}

var sBalance = []*Elem{
	{Tag: "NAME", Field: "Name", Kind: String},
	{Tag: "DESC", Field: "Desc", Kind: String},
	{Tag: "BALTYPE", Field: "BalType", Kind: Enum, Enum: "balType"},
	{Tag: "VALUE", Field: "Value", Kind: Amount},
	{Tag: "DTASOF", Field: "DtAsOf", Kind: Date, Opt: true, Ptr: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true, Ptr: true},
}

var sStatementResponse = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "STATUS", Field: "Status", Kind: Agg, Kids: sStatus},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "STMTRS", Kind: Flat, Kids: []*Elem{
		{Tag: "CURDEF", Field: "CurDef", Kind: CurrSymbol},
		{Tag: "BANKACCTFROM", Field: "BankAcctFrom", Kind: Agg, Kids: sBankAcct},
		{Tag: "BANKTRANLIST", Field: "BankTranList", Kind: Agg, Kids: sTransactionList, Opt: true, Ptr: true},
		{Tag: "BANKTRANLISTP", Field: "BankTranListP", Kind: Agg, Kids: sPendingTransactionList, Opt: true, Ptr: true},
		{Tag: "LEDGERBAL", Kind: Flat, Kids: []*Elem{
			{Tag: "BALAMT", Field: "BalAmt", Kind: Amount},
			{Tag: "DTASOF", Field: "DtAsOf", Kind: Date},
		}},
		{Tag: "AVAILBAL", Kind: Flat, Kids: []*Elem{
			{Tag: "BALAMT", Field: "AvailBalAmt", Kind: Amount, Opt: true, Ptr: true},
			{Tag: "DTASOF", Field: "AvailDtAsOf", Kind: Date, Opt: true, Ptr: true},
		}},
		{Tag: "CASHADVBALAMT", Field: "CashAdvBalAmt", Kind: Amount, Opt: true, Ptr: true},
		{Tag: "INTRATE", Field: "IntRate", Kind: Amount, Opt: true, Ptr: true},
		{Tag: "BALLIST", Kind: Flat, Kids: []*Elem{
			{Tag: "BAL", Field: "BalList", Kind: Agg, Kids: sBalance, Opt: true, List: true},
		}},
		{Tag: "MKTGINFO", Field: "MktgInfo", Kind: String, Opt: true},
	}},
}

var sCCStatementResponse = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "STATUS", Field: "Status", Kind: Agg, Kids: sStatus},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "CCSTMTRS", Kind: Flat, Kids: []*Elem{
		{Tag: "CURDEF", Field: "CurDef", Kind: CurrSymbol},
		{Tag: "CCACCTFROM", Field: "CCAcctFrom", Kind: Agg, Kids: sCCAcct},
		{Tag: "BANKTRANLIST", Field: "BankTranList", Kind: Agg, Kids: sTransactionList, Opt: true, Ptr: true},
		{Tag: "LEDGERBAL", Kind: Flat, Kids: []*Elem{
			{Tag: "BALAMT", Field: "BalAmt", Kind: Amount},
			{Tag: "DTASOF", Field: "DtAsOf", Kind: Date},
		}},
		{Tag: "AVAILBAL", Kind: Flat, Kids: []*Elem{
			{Tag: "BALAMT", Field: "AvailBalAmt", Kind: Amount, Opt: true, Ptr: true},
			{Tag: "DTASOF", Field: "AvailDtAsOf", Kind: Date, Opt: true, Ptr: true},
		}},
		{Tag: "CASHADVBALAMT", Field: "CashAdvBalAmt", Kind: Amount, Opt: true},
		{Tag: "INTRATEPURCH", Field: "IntRatePurch", Kind: Amount, Opt: true},
		{Tag: "INTRATECASH", Field: "IntRateCash", Kind: Amount, Opt: true},
		{Tag: "INTRATEXFER", Field: "IntRateXfer", Kind: Amount, Opt: true},
		{Tag: "REWARDINFO", Kind: Flat, Kids: []*Elem{
			{Tag: "NAME", Field: "RewardName", Kind: String, Opt: true},
			{Tag: "REWARDBAL", Field: "RewardBal", Kind: Amount, Opt: true},
			{Tag: "REWARDEARNED", Field: "RewardEarned", Kind: Amount, Opt: true},
		}},
		{Tag: "BALLIST", Kind: Flat, Kids: []*Elem{
			{Tag: "BAL", Field: "BalList", Kind: Agg, Kids: sBalance, Opt: true, List: true},
		}},
		{Tag: "MKTGINFO", Field: "MktgInfo", Kind: String, Opt: true},
	}},
}

var sInvBankTransaction = []*Elem{
	{Tag: "STMTTRN", Field: "Transactions", Kind: Agg, Kids: sTransaction, Opt: true, List: true},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType"},
}

var sInvTranList = []*Elem{
	{Tag: "DTSTART", Field: "DtStart", Kind: Date},
	{Tag: "DTEND", Field: "DtEnd", Kind: Date},
	{Tag: "", Field: "InvTransactions", Kind: Poly, Members: InvTranMembers, Opt: true, List: true},
	{Tag: "INVBANKTRAN", Field: "BankTransactions", Kind: Agg, Kids: sInvBankTransaction, Opt: true, List: true},
}

var sInvBalance = []*Elem{
	{Tag: "AVAILCASH", Field: "AvailCash", Kind: Amount},
	{Tag: "MARGINBALANCE", Field: "MarginBalance", Kind: Amount},
	{Tag: "SHORTBALANCE", Field: "ShortBalance", Kind: Amount},
	{Tag: "BUYPOWER", Field: "BuyPower", Kind: Amount, Opt: true},
	{Tag: "BALLIST", Kind: Flat, Kids: []*Elem{
		{Tag: "BAL", Field: "BalList", Kind: Agg, Kids: sBalance, Opt: true, List: true},
	}},
}

var sContribSecurity = []*Elem{
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "PRETAXCONTRIBPCT", Field: "PreTaxContribPct", Kind: Amount, Opt: true},
	{Tag: "PRETAXCONTRIBAMT", Field: "PreTaxContribAmt", Kind: Amount, Opt: true},
	{Tag: "AFTERTAXCONTRIBPCT", Field: "AfterTaxContribPct", Kind: Amount, Opt: true},
	{Tag: "AFTERTAXCONTRIBAMT", Field: "AfterTaxContribAmt", Kind: Amount, Opt: true},
	{Tag: "MATCHCONTRIBPCT", Field: "MatchContribPct", Kind: Amount, Opt: true},
	{Tag: "MATCHCONTRIBAMT", Field: "MatchContribAmt", Kind: Amount, Opt: true},
	{Tag: "PROFITSHARINGCONTRIBPCT", Field: "ProfitSharingContribPct", Kind: Amount, Opt: true},
	{Tag: "PROFITSHARINGCONTRIBAMT", Field: "ProfitSharingContribAmt", Kind: Amount, Opt: true},
	{Tag: "ROLLOVERCONTRIBPCT", Field: "RolloverContribPct", Kind: Amount, Opt: true},
	{Tag: "ROLLOVERCONTRIBAMT", Field: "RolloverContribAmt", Kind: Amount, Opt: true},
	{Tag: "OTHERVESTPCT", Field: "OtherVestPct", Kind: Amount, Opt: true},
	{Tag: "OTHERVESTAMT", Field: "OtherVestAmt", Kind: Amount, Opt: true},
	{Tag: "OTHERNONVESTPCT", Field: "OtherNonVestPct", Kind: Amount, Opt: true},
	{Tag: "OTHERNONVESTAMT", Field: "OtherNonVestAmt", Kind: Amount, Opt: true},
}

var sVestInfo = []*Elem{
	{Tag: "VESTDATE", Field: "VestDate", Kind: Date, Opt: true, Ptr: true},
	{Tag: "VESTPCT", Field: "VestPct", Kind: Amount},
}

var sLoanInfo = []*Elem{
	{Tag: "LOANID", Field: "LoanID", Kind: String},
	{Tag: "LOANDESC", Field: "LoanDesc", Kind: String, Opt: true},
	{Tag: "INITIALLOANBAL", Field: "InitialLoanBal", Kind: Amount, Opt: true},
	{Tag: "LOANSTARTDATE", Field: "LoanStartDate", Kind: Date, Opt: true, Ptr: true},
	{Tag: "CURRENTLOANBAL", Field: "CurrentLoanBal", Kind: Amount},
	{Tag: "DTASOF", Field: "DtAsOf", Kind: Date, Ptr: true},
	{Tag: "LOANRATE", Field: "LoanRate", Kind: Amount, Opt: true},
	{Tag: "LOANPMTAMT", Field: "LoanPmtAmt", Kind: Amount, Opt: true},
	{Tag: "LOANPMTFREQ", Field: "LoanPmtFreq", Kind: Enum, Enum: "loanPmtFreq", Opt: true},
	{Tag: "LOANPMTSINITIAL", Field: "LoanPmtsInitial", Kind: Int, Opt: true},
	{Tag: "LOANPMTSREMAINING", Field: "LoanPmtsRemaining", Kind: Int, Opt: true},
	{Tag: "LOANMATURITYDATE", Field: "LoanMaturityDate", Kind: Date, Opt: true, Ptr: true},
	{Tag: "LOANTOTALPROJINTEREST", Field: "LoanTotalProjInterest", Kind: Amount, Opt: true},
	{Tag: "LOANINTERESTTODATE", Field: "LoanInterestToDate", Kind: Amount, Opt: true},
	{Tag: "LOANNEXTPMTDATE", Field: "LoanExtPmtDate", Kind: Date, Opt: true, Ptr: true},
}

var sInv401KSummaryAggregate = []*Elem{
	{Tag: "PRETAX", Field: "PreTax", Kind: Amount, Opt: true},
	{Tag: "AFTERTAX", Field: "AfterTax", Kind: Amount, Opt: true},
	{Tag: "MATCH", Field: "Match", Kind: Amount, Opt: true},
	{Tag: "PROFITSHARING", Field: "ProfitSharing", Kind: Amount, Opt: true},
	{Tag: "ROLLOVER", Field: "Rollover", Kind: Amount, Opt: true},
	{Tag: "OTHERVEST", Field: "OtherVest", Kind: Amount, Opt: true},
	{Tag: "OTHERNONVEST", Field: "OtherNonVest", Kind: Amount, Opt: true},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
}

var sInv401KSummaryPeriod = []*Elem{
	{Tag: "DTSTART", Field: "DtStart", Kind: Date},
	{Tag: "DTEND", Field: "DtEnd", Kind: Date},
	{Tag: "CONTRIBUTIONS", Field: "Contributions", Kind: Agg, Kids: sInv401KSummaryAggregate, Opt: true, Ptr: true},
	{Tag: "WITHDRAWLS", Field: "Withdrawls", Kind: Agg, Kids: sInv401KSummaryAggregate, Opt: true, Ptr: true},
	{Tag: "EARNINGS", Field: "Earnings", Kind: Agg, Kids: sInv401KSummaryAggregate, Opt: true, Ptr: true},
}

var sInv401K = []*Elem{
	{Tag: "EMPLOYERNAME", Field: "EmployerName", Kind: String},
	{Tag: "PLANID", Field: "PlanID", Kind: String, Opt: true},
	{Tag: "PLANJOINDATE", Field: "PlanJoinDate", Kind: Date, Opt: true, Ptr: true},
	{Tag: "EMPLOYERCONTACTINFO", Field: "EmployerContactInfo", Kind: String, Opt: true},
	{Tag: "BROKERCONTACTINFO", Field: "BrokerContactInfo", Kind: String, Opt: true},
	{Tag: "DEFERPCTPRETAX", Field: "DeferPctPreTax", Kind: Amount, Opt: true},
	{Tag: "DEFERPCTAFTERTAX", Field: "DeferPctAfterTax", Kind: Amount, Opt: true},
	{Tag: "MATCHINFO", Kind: Flat, Kids: []*Elem{
		{Tag: "MATCHPCT", Field: "MatchPct", Kind: Amount, Opt: true},
		{Tag: "MAXMATCHAMT", Field: "MaxMatchAmt", Kind: Amount, Opt: true},
		{Tag: "MAXMATCHPCT", Field: "MaxMatchPct", Kind: Amount, Opt: true},
		{Tag: "STARTOFYEAR", Field: "StartOfYear", Kind: Date, Opt: true, Ptr: true},
		{Tag: "BASEMATCHAMT", Field: "BaseMatchAmt", Kind: Amount},
		{Tag: "BASEMATCHPCT", Field: "BaseMatchPct", Kind: Amount},
	}},
	{Tag: "CONTRIBINFO", Kind: Flat, Kids: []*Elem{
		{Tag: "CONTRIBSECURITY", Field: "ContribInfo", Kind: Agg, Kids: sContribSecurity, List: true},
	}},
	{Tag: "CURRENTVESTPCT", Field: "CurrentVestPct", Kind: Amount, Opt: true},
	{Tag: "VESTINFO", Field: "VestInfo", Kind: Agg, Kids: sVestInfo, Opt: true, List: true},
	{Tag: "LOANINFO", Field: "LoanInfo", Kind: Agg, Kids: sLoanInfo, Opt: true, List: true},
	{Tag: "INV401KSUMMARY", Kind: Flat, Kids: []*Elem{
		{Tag: "YEARTODATE", Field: "YearToDateSummary", Kind: Agg, Kids: sInv401KSummaryPeriod},
		{Tag: "INCEPTODATE", Field: "InceptToDateSummary", Kind: Agg, Kids: sInv401KSummaryPeriod, Opt: true, Ptr: true},
		{Tag: "PERIODTODATE", Field: "PeriodToDate", Kind: Agg, Kids: sInv401KSummaryPeriod, Opt: true, Ptr: true},
	}},
}

var sInv401KBal = []*Elem{
	{Tag: "CASHBAL", Field: "CashBal", Kind: Amount, Opt: true},
	{Tag: "PRETAX", Field: "PreTax", Kind: Amount, Opt: true},
	{Tag: "AFTERTAX", Field: "AfterTax", Kind: Amount, Opt: true},
	{Tag: "MATCH", Field: "Match", Kind: Amount, Opt: true},
	{Tag: "PROFITSHARING", Field: "ProfitSharing", Kind: Amount, Opt: true},
	{Tag: "ROLLOVER", Field: "Rollover", Kind: Amount, Opt: true},
	{Tag: "OTHERVEST", Field: "OtherVest", Kind: Amount, Opt: true},
	{Tag: "OTHERNONVEST", Field: "OtherNonVest", Kind: Amount, Opt: true},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "BALLIST", Kind: Flat, Kids: []*Elem{
		{Tag: "BAL", Field: "BalList", Kind: Agg, Kids: sBalance, Opt: true, List: true},
	}},
}

var sInvStatementResponse = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "STATUS", Field: "Status", Kind: Agg, Kids: sStatus},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "INVSTMTRS", Kind: Flat, Kids: []*Elem{
		{Tag: "DTASOF", Field: "DtAsOf", Kind: Date},
		{Tag: "CURDEF", Field: "CurDef", Kind: CurrSymbol},
		{Tag: "INVACCTFROM", Field: "InvAcctFrom", Kind: Agg, Kids: sInvAcct},
		{Tag: "INVTRANLIST", Field: "InvTranList", Kind: Agg, Kids: sInvTranList, Opt: true, Ptr: true},
		{Tag: "INVPOSLIST", Field: "InvPosList", Kind: Poly, Members: PositionMembers, Opt: true, List: true},
		{Tag: "INVBAL", Field: "InvBal", Kind: Agg, Kids: sInvBalance, Opt: true, Ptr: true},
		{Tag: "INVOOLIST", Field: "InvOOList", Kind: Poly, Members: OpenOrderMembers, Opt: true, List: true},
		{Tag: "MKTGINFO", Field: "MktgInfo", Kind: String, Opt: true},
		{Tag: "INV401K", Field: "Inv401K", Kind: Agg, Kids: sInv401K, Opt: true, Ptr: true},
		{Tag: "INV401KBAL", Field: "Inv401KBal", Kind: Agg, Kids: sInv401KBal, Opt: true, Ptr: true},
	}},
}

var sSecListResponse = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "STATUS", Field: "Status", Kind: Agg, Kids: sStatus},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
}

var sMessageSet = []*Elem{
	{Tag: "MSGSETCORE", Kind: Flat, Kids: []*Elem{
		{Tag: "VER", Field: "Ver", Kind: Int},
		{Tag: "URL", Field: "URL", Kind: String},
		{Tag: "OFXSEC", Field: "OfxSec", Kind: Enum, Enum: "ofxSec"},
		{Tag: "TRANSPSEC", Field: "TranspSec", Kind: Boolean},
		{Tag: "SIGNONREALM", Field: "SignonRealm", Kind: String},
		{Tag: "LANGUAGE", Field: "Language", Kind: String, List: true},
		{Tag: "SYNCMODE", Field: "SyncMode", Kind: Enum, Enum: "syncMode"},
		{Tag: "REFRESHSUPT", Field: "RefreshSupt", Kind: Boolean, Opt: true},
		{Tag: "RESPFILEER", Field: "RespFileER", Kind: Boolean},
		{Tag: "SPNAME", Field: "SpName", Kind: String},
	}},
}

var sSignonInfo = []*Elem{
	{Tag: "SIGNONREALM", Field: "SignonRealm", Kind: String},
	{Tag: "MIN", Field: "Min", Kind: Int},
	{Tag: "MAX", Field: "Max", Kind: Int},
	{Tag: "CHARTYPE", Field: "CharType", Kind: Enum, Enum: "charType"},
	{Tag: "CASESEN", Field: "CaseSen", Kind: Boolean},
	{Tag: "SPECIAL", Field: "Special", Kind: Boolean},
	{Tag: "SPACES", Field: "Spaces", Kind: Boolean},
	{Tag: "PINCH", Field: "PinCh", Kind: Boolean},
	{Tag: "CHGPINFIRST", Field: "ChgPinFirst", Kind: Boolean},
	{Tag: "USERCRED1LABEL", Field: "UserCred1Label", Kind: String, Opt: true},
	{Tag: "USERCRED2LABEL", Field: "UserCred2Label", Kind: String, Opt: true},
	{Tag: "CLIENTUIDREQ", Field: "ClientUIDReq", Kind: Boolean, Opt: true},
	{Tag: "AUTHTOKENFIRST", Field: "AuthTokenFirst", Kind: Boolean, Opt: true},
	{Tag: "AUTHTOKENLABEL", Field: "AuthTokenLabel", Kind: String, Opt: true},
	{Tag: "AUTHTOKENINFOURL", Field: "AuthTokenInfoURL", Kind: String, Opt: true},
	{Tag: "MFACHALLENGESUPT", Field: "MFAChallengeSupt", Kind: Boolean, Opt: true},
	{Tag: "MFACHALLENGEFIRST", Field: "MFAChallengeFIRST", Kind: Boolean, Opt: true},
	{Tag: "ACCESSTOKENREQ", Field: "AccessTokenReq", Kind: Boolean, Opt: true},
}

var sProfileResponse = []*Elem{
	{Tag: "TRNUID", Field: "TrnUID", Kind: UID},
	{Tag: "STATUS", Field: "Status", Kind: Agg, Kids: sStatus},
	{Tag: "CLTCOOKIE", Field: "CltCookie", Kind: String, Opt: true},
	{Tag: "PROFRS", Kind: Flat, Kids: []*Elem{
		{Tag: "MSGSETLIST", Field: "MessageSetList", Kind: MsgSets, Kids: sMessageSet, List: true},
		{Tag: "SIGNONINFOLIST", Kind: Flat, Kids: []*Elem{
			{Tag: "SIGNONINFO", Field: "SignonInfoList", Kind: Agg, Kids: sSignonInfo, List: true},
		}},
		{Tag: "DTPROFUP", Field: "DtProfUp", Kind: Date},
		{Tag: "FINAME", Field: "FiName", Kind: String},
		{Tag: "ADDR1", Field: "Addr1", Kind: String},
		{Tag: "ADDR2", Field: "Addr2", Kind: String, Opt: true},
		{Tag: "ADDR3", Field: "Addr3", Kind: String, Opt: true},
		{Tag: "CITY", Field: "City", Kind: String},
		{Tag: "STATE", Field: "State", Kind: String},
		{Tag: "POSTALCODE", Field: "PostalCode", Kind: String},
		{Tag: "COUNTRY", Field: "Country", Kind: String},
		{Tag: "CSPHONE", Field: "CsPhone", Kind: String, Opt: true},
		{Tag: "TSPHONE", Field: "TsPhone", Kind: String, Opt: true},
		{Tag: "FAXPHONE", Field: "FaxPhone", Kind: String, Opt: true},
		{Tag: "URL", Field: "URL", Kind: String, Opt: true},
		{Tag: "EMAIL", Field: "Email", Kind: String, Opt: true},
	}},
}

var sInvTran = []*Elem{
	{Tag: "FITID", Field: "FiTID", Kind: String},
	{Tag: "SRVRTID", Field: "SrvrTID", Kind: String, Opt: true},
	{Tag: "DTTRADE", Field: "DtTrade", Kind: Date},
	{Tag: "DTSETTLE", Field: "DtSettle", Kind: Date, Opt: true, Ptr: true},
	{Tag: "REVERSALFITID", Field: "ReversalFiTID", Kind: String, Opt: true},
	{Tag: "MEMO", Field: "Memo", Kind: String, Opt: true},
}

var sInvBuy = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
	{Tag: "UNITPRICE", Field: "UnitPrice", Kind: Amount},
	{Tag: "MARKUP", Field: "Markup", Kind: Amount, Opt: true},
	{Tag: "COMMISSION", Field: "Commission", Kind: Amount, Opt: true},
	{Tag: "TAXES", Field: "Taxes", Kind: Amount, Opt: true},
	{Tag: "FEES", Field: "Fees", Kind: Amount, Opt: true},
	{Tag: "LOAD", Field: "Load", Kind: Amount, Opt: true},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType"},
	{Tag: "LOANID", Field: "LoanID", Kind: String, Opt: true},
	{Tag: "LOANPRINCIPAL", Field: "LoanPrincipal", Kind: Amount, Opt: true},
	{Tag: "LOANINTEREST", Field: "LoanInterest", Kind: Amount, Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
	{Tag: "DTPAYROLL", Field: "DtPayroll", Kind: Date, Opt: true, Ptr: true},
	{Tag: "PRIORYEARCONTRIB", Field: "PriorYearContrib", Kind: Boolean, Opt: true},
}

var sBuyDebt = []*Elem{
	{Tag: "INVBUY", Field: "InvBuy", Kind: Agg, Kids: sInvBuy},
	{Tag: "ACCRDINT", Field: "AccrdInt", Kind: Amount, Opt: true},
}

var sBuyMF = []*Elem{
	{Tag: "INVBUY", Field: "InvBuy", Kind: Agg, Kids: sInvBuy},
	{Tag: "BUYTYPE", Field: "BuyType", Kind: Enum, Enum: "buyType"},
	{Tag: "RELFITID", Field: "RelFiTID", Kind: String, Opt: true},
}

var sBuyOpt = []*Elem{
	{Tag: "INVBUY", Field: "InvBuy", Kind: Agg, Kids: sInvBuy},
	{Tag: "OPTBUYTYPE", Field: "OptBuyType", Kind: Enum, Enum: "optBuyType"},
	{Tag: "SHPERCTRCT", Field: "ShPerCtrct", Kind: Int},
}

var sBuyOther = []*Elem{
	{Tag: "INVBUY", Field: "InvBuy", Kind: Agg, Kids: sInvBuy},
}

var sBuyStock = []*Elem{
	{Tag: "INVBUY", Field: "InvBuy", Kind: Agg, Kids: sInvBuy},
	{Tag: "BUYTYPE", Field: "BuyType", Kind: Enum, Enum: "buyType"},
}

var sClosureOpt = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "OPTACTION", Field: "OptAction", Kind: Enum, Enum: "optAction"},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
	{Tag: "SHPERCTRCT", Field: "ShPerCtrct", Kind: Int},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "RELFITID", Field: "RelFiTID", Kind: String, Opt: true},
	{Tag: "GAIN", Field: "Gain", Kind: Amount, Opt: true},
}

var sIncome = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "INCOMETYPE", Field: "IncomeType", Kind: Enum, Enum: "incomeType"},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType"},
	{Tag: "TAXEXEMPT", Field: "TaxExempt", Kind: Boolean, Opt: true},
	{Tag: "WITHHOLDING", Field: "Withholding", Kind: Amount, Opt: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sInvExpense = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType"},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sJrnlFund = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "SUBACCTFROM", Field: "SubAcctFrom", Kind: Enum, Enum: "subAcctType"},
	{Tag: "SUBACCTTO", Field: "SubAcctTo", Kind: Enum, Enum: "subAcctType"},
}

var sJrnlSec = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "SUBACCTFROM", Field: "SubAcctFrom", Kind: Enum, Enum: "subAcctType"},
	{Tag: "SUBACCTTO", Field: "SubAcctTo", Kind: Enum, Enum: "subAcctType"},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
}

var sMarginInterest = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType"},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
}

var sReinvest = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "INCOMETYPE", Field: "IncomeType", Kind: Enum, Enum: "incomeType"},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
	{Tag: "UNITPRICE", Field: "UnitPrice", Kind: Amount},
	{Tag: "COMMISSION", Field: "Commission", Kind: Amount, Opt: true},
	{Tag: "TAXES", Field: "Taxes", Kind: Amount, Opt: true},
	{Tag: "FEES", Field: "Fees", Kind: Amount, Opt: true},
	{Tag: "LOAD", Field: "Load", Kind: Amount, Opt: true},
	{Tag: "TAXEXEMPT", Field: "TaxExempt", Kind: Boolean, Opt: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sRetOfCap = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType"},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sInvSell = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
	{Tag: "UNITPRICE", Field: "UnitPrice", Kind: Amount},
	{Tag: "MARKDOWN", Field: "Markdown", Kind: Amount, Opt: true},
	{Tag: "COMMISSION", Field: "Commission", Kind: Amount, Opt: true},
	{Tag: "TAXES", Field: "Taxes", Kind: Amount, Opt: true},
	{Tag: "FEES", Field: "Fees", Kind: Amount, Opt: true},
	{Tag: "LOAD", Field: "Load", Kind: Amount, Opt: true},
	{Tag: "WITHHOLDING", Field: "Withholding", Kind: Amount, Opt: true},
	{Tag: "TAXEXEMPT", Field: "TaxExempt", Kind: Boolean, Opt: true},
	{Tag: "TOTAL", Field: "Total", Kind: Amount},
	{Tag: "GAIN", Field: "Gain", Kind: Amount, Opt: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType"},
	{Tag: "LOANID", Field: "LoanID", Kind: String, Opt: true},
	{Tag: "STATEWITHHOLDING", Field: "StateWithholding", Kind: Amount, Opt: true},
	{Tag: "PENALTY", Field: "Penalty", Kind: Amount, Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sSellDebt = []*Elem{
	{Tag: "INVSELL", Field: "InvSell", Kind: Agg, Kids: sInvSell},
	{Tag: "SELLREASON", Field: "SellReason", Kind: Enum, Enum: "sellReason"},
	{Tag: "ACCRDINT", Field: "AccrdInt", Kind: Amount, Opt: true},
}

var sSellMF = []*Elem{
	{Tag: "INVSELL", Field: "InvSell", Kind: Agg, Kids: sInvSell},
	{Tag: "SELLTYPE", Field: "SellType", Kind: Enum, Enum: "sellType"},
	{Tag: "AVGCOSTBASIS", Field: "AvgCostBasis", Kind: Amount},
	{Tag: "RELFITID", Field: "RelFiTID", Kind: String, Opt: true},
}

var sSellOpt = []*Elem{
	{Tag: "INVSELL", Field: "InvSell", Kind: Agg, Kids: sInvSell},
	{Tag: "OPTSELLTYPE", Field: "OptSellType", Kind: Enum, Enum: "optSellType"},
	{Tag: "SHPERCTRCT", Field: "ShPerCtrct", Kind: Int},
	{Tag: "RELFITID", Field: "RelFiTID", Kind: String, Opt: true},
	{Tag: "RELTYPE", Field: "RelType", Kind: Enum, Enum: "relType", Opt: true},
	{Tag: "SECURED", Field: "Secured", Kind: Enum, Enum: "secured", Opt: true},
}

var sSellOther = []*Elem{
	{Tag: "INVSELL", Field: "InvSell", Kind: Agg, Kids: sInvSell},
}

var sSellStock = []*Elem{
	{Tag: "INVSELL", Field: "InvSell", Kind: Agg, Kids: sInvSell},
	{Tag: "SELLTYPE", Field: "SellType", Kind: Enum, Enum: "sellType"},
}

var sSplit = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "OLDUNITS", Field: "OldUnits", Kind: Amount},
	{Tag: "NEWUNITS", Field: "NewUnits", Kind: Amount},
	{Tag: "NUMERATOR", Field: "Numerator", Kind: Int},
	{Tag: "DENOMINATOR", Field: "Denominator", Kind: Int},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "ORIGCURRENCY", Field: "OrigCurrency", Kind: Agg, Kids: sCurrency, Opt: true},
	{Tag: "FRACCASH", Field: "FracCash", Kind: Amount, Opt: true},
	{Tag: "SUBACCTFUND", Field: "SubAcctFund", Kind: Enum, Enum: "subAcctType", Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sTransfer = []*Elem{
	{Tag: "INVTRAN", Field: "InvTran", Kind: Agg, Kids: sInvTran},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "SUBACCTSEC", Field: "SubAcctSec", Kind: Enum, Enum: "subAcctType"},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
	{Tag: "TFERACTION", Field: "TferAction", Kind: Enum, Enum: "tferAction"},
	{Tag: "POSTYPE", Field: "PosType", Kind: Enum, Enum: "posType"},
	{Tag: "INVACCTFROM", Field: "InvAcctFrom", Kind: Agg, Kids: sInvAcct, Opt: true},
	{Tag: "AVGCOSTBASIS", Field: "AvgCostBasis", Kind: Amount, Opt: true},
	{Tag: "UNITPRICE", Field: "UnitPrice", Kind: Amount, Opt: true},
	{Tag: "DTPURCHASE", Field: "DtPurchase", Kind: Date, Opt: true, Ptr: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sInvPosition = []*Elem{
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "HELDINACCT", Field: "HeldInAcct", Kind: Enum, Enum: "subAcctType"},
	{Tag: "POSTYPE", Field: "PosType", Kind: Enum, Enum: "posType"},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
	{Tag: "UNITPRICE", Field: "UnitPrice", Kind: Amount},
	{Tag: "MKTVAL", Field: "MktVal", Kind: Amount},
	{Tag: "AVGCOSTBASIS", Field: "AvgCostBasis", Kind: Amount, Opt: true},
	{Tag: "DTPRICEASOF", Field: "DtPriceAsOf", Kind: Date},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true, Ptr: true},
	{Tag: "MEMO", Field: "Memo", Kind: String, Opt: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sDebtPosition = []*Elem{
	{Tag: "INVPOS", Field: "InvPos", Kind: Agg, Kids: sInvPosition},
}

var sMFPosition = []*Elem{
	{Tag: "INVPOS", Field: "InvPos", Kind: Agg, Kids: sInvPosition},
	{Tag: "UNITSSTREET", Field: "UnitsStreet", Kind: Amount, Opt: true},
	{Tag: "UNITSUSER", Field: "UnitsUser", Kind: Amount, Opt: true},
	{Tag: "REINVDIV", Field: "ReinvDiv", Kind: Boolean, Opt: true},
	{Tag: "REINVCG", Field: "ReinvCG", Kind: Boolean, Opt: true},
}

var sOptPosition = []*Elem{
	{Tag: "INVPOS", Field: "InvPos", Kind: Agg, Kids: sInvPosition},
	{Tag: "SECURED", Field: "Secured", Kind: Enum, Enum: "secured", Opt: true},
}

var sOtherPosition = []*Elem{
	{Tag: "INVPOS", Field: "InvPos", Kind: Agg, Kids: sInvPosition},
}

var sStockPosition = []*Elem{
	{Tag: "INVPOS", Field: "InvPos", Kind: Agg, Kids: sInvPosition},
	{Tag: "UNITSSTREET", Field: "UnitsStreet", Kind: Amount, Opt: true},
	{Tag: "UNITSUSER", Field: "UnitsUser", Kind: Amount, Opt: true},
	{Tag: "REINVDIV", Field: "ReinvDiv", Kind: Boolean, Opt: true},
}

var sOO = []*Elem{
	{Tag: "FITID", Field: "FiTID", Kind: String},
	{Tag: "SRVRTID", Field: "SrvrTID", Kind: String, Opt: true},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "DTPLACED", Field: "DtPlaced", Kind: Date},
	{Tag: "UNITS", Field: "Units", Kind: Amount},
	{Tag: "SUBACCT", Field: "SubAcct", Kind: Enum, Enum: "subAcctType"},
	{Tag: "DURATION", Field: "Duration", Kind: Enum, Enum: "duration"},
	{Tag: "RESTRICTION", Field: "Restriction", Kind: Enum, Enum: "restriction"},
	{Tag: "MINUNITS", Field: "MinUnits", Kind: Amount, Opt: true},
	{Tag: "LIMITPRICE", Field: "LimitPrice", Kind: Amount, Opt: true},
	{Tag: "STOPPRICE", Field: "StopPrice", Kind: Amount, Opt: true},
	{Tag: "MEMO", Field: "Memo", Kind: String, Opt: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true, Ptr: true},
	{Tag: "INV401KSOURCE", Field: "Inv401kSource", Kind: Enum, Enum: "inv401kSource", Opt: true},
}

var sOOBuyDebt = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "AUCTION", Field: "Auction", Kind: Boolean},
	{Tag: "DTAUCTION", Field: "DtAuction", Kind: Date, Opt: true, Ptr: true},
}

var sOOBuyMF = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "BUYTYPE", Field: "BuyType", Kind: Enum, Enum: "buyType"},
	{Tag: "UNITTYPE", Field: "UnitType", Kind: Enum, Enum: "unitType"},
}

var sOOBuyOpt = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "OPTBUYTYPE", Field: "OptBuyType", Kind: Enum, Enum: "optBuyType"},
}

var sOOBuyOther = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "UNITTYPE", Field: "UnitType", Kind: Enum, Enum: "unitType"},
}

var sOOBuyStock = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "BUYTYPE", Field: "BuyType", Kind: Enum, Enum: "buyType"},
}

var sOOSellDebt = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
}

var sOOSellMF = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "SELLTYPE", Field: "SellType", Kind: Enum, Enum: "sellType"},
	{Tag: "UNITTYPE", Field: "UnitType", Kind: Enum, Enum: "unitType"},
	{Tag: "SELLALL", Field: "SellAll", Kind: Boolean},
}

var sOOSellOpt = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "OPTSELLTYPE", Field: "OptSellType", Kind: Enum, Enum: "optSellType"},
}

var sOOSellOther = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "UNITTYPE", Field: "UnitType", Kind: Enum, Enum: "unitType"},
}

var sOOSellStock = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "SELLTYPE", Field: "SellType", Kind: Enum, Enum: "sellType"},
}

var sOOSwitchMF = []*Elem{
	{Tag: "OO", Field: "OO", Kind: Agg, Kids: sOO},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "UNITTYPE", Field: "UnitType", Kind: Enum, Enum: "unitType"},
	{Tag: "SWITCHALL", Field: "SwitchAll", Kind: Boolean},
}

var sSecInfo = []*Elem{
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID},
	{Tag: "SECNAME", Field: "SecName", Kind: String},
	{Tag: "TICKER", Field: "Ticker", Kind: String, Opt: true},
	{Tag: "FIID", Field: "FiID", Kind: String, Opt: true},
	{Tag: "RATING", Field: "Rating", Kind: String, Opt: true},
	{Tag: "UNITPRICE", Field: "UnitPrice", Kind: Amount, Opt: true},
	{Tag: "DTASOF", Field: "DtAsOf", Kind: Date, Opt: true, Ptr: true},
	{Tag: "CURRENCY", Field: "Currency", Kind: Agg, Kids: sCurrency, Opt: true, Ptr: true},
	{Tag: "MEMO", Field: "Memo", Kind: String, Opt: true},
}

var sDebtInfo = []*Elem{
	{Tag: "SECINFO", Field: "SecInfo", Kind: Agg, Kids: sSecInfo},
	{Tag: "PARVALUE", Field: "ParValue", Kind: Amount},
	{Tag: "DEBTTYPE", Field: "DebtType", Kind: Enum, Enum: "debtType"},
	{Tag: "DEBTCLASS", Field: "DebtClass", Kind: Enum, Enum: "debtClass", Opt: true},
	{Tag: "COUPONRT", Field: "CouponRate", Kind: Amount, Opt: true},
	{Tag: "DTCOUPON", Field: "DtCoupon", Kind: Date, Opt: true, Ptr: true},
	{Tag: "COUPONFREQ", Field: "CouponFreq", Kind: Enum, Enum: "couponFreq", Opt: true},
	{Tag: "CALLPRICE", Field: "CallPrice", Kind: Amount, Opt: true},
	{Tag: "YIELDTOCALL", Field: "YieldToCall", Kind: Amount, Opt: true},
	{Tag: "DTCALL", Field: "DtCall", Kind: Date, Opt: true, Ptr: true},
	{Tag: "CALLTYPE", Field: "CallType", Kind: Enum, Enum: "callType", Opt: true},
	{Tag: "YIELDTOMAT", Field: "YieldToMat", Kind: Amount, Opt: true},
	{Tag: "DTMAT", Field: "DtMat", Kind: Date, Opt: true, Ptr: true},
	{Tag: "ASSETCLASS", Field: "AssetClass", Kind: Enum, Enum: "assetClass", Opt: true},
	{Tag: "FIASSETCLASS", Field: "FiAssetClass", Kind: String, Opt: true},
}

var sAssetPortion = []*Elem{
	{Tag: "ASSETCLASS", Field: "AssetClass", Kind: Enum, Enum: "assetClass"},
	{Tag: "PERCENT", Field: "Percent", Kind: Amount},
}

var sFiAssetPortion = []*Elem{
	{Tag: "FIASSETCLASS", Field: "FiAssetClass", Kind: String, Opt: true},
	{Tag: "PERCENT", Field: "Percent", Kind: Amount},
}

var sMFInfo = []*Elem{
	{Tag: "SECINFO", Field: "SecInfo", Kind: Agg, Kids: sSecInfo},
	{Tag: "MFTYPE", Field: "MfType", Kind: Enum, Enum: "mfType"},
	{Tag: "YIELD", Field: "Yield", Kind: Amount, Opt: true},
	{Tag: "DTYIELDASOF", Field: "DtYieldAsOf", Kind: Date, Opt: true, Ptr: true},
	{Tag: "MFASSETCLASS", Kind: Flat, Kids: []*Elem{
		{Tag: "PORTION", Field: "AssetClasses", Kind: Agg, Kids: sAssetPortion, List: true},
	}},
	{Tag: "FIMFASSETCLASS", Kind: Flat, Kids: []*Elem{
		{Tag: "FIPORTION", Field: "FiAssetClasses", Kind: Agg, Kids: sFiAssetPortion, List: true},
	}},
}

var sOptInfo = []*Elem{
	{Tag: "SECINFO", Field: "SecInfo", Kind: Agg, Kids: sSecInfo},
	{Tag: "OPTTYPE", Field: "OptType", Kind: Enum, Enum: "optType"},
	{Tag: "STRIKEPRICE", Field: "StrikePrice", Kind: Amount},
	{Tag: "DTEXPIRE", Field: "DtExpire", Kind: Date},
	{Tag: "SHPERCTRCT", Field: "ShPerCtrct", Kind: Int},
	{Tag: "SECID", Field: "SecID", Kind: Agg, Kids: sSecurityID, Opt: true, Ptr: true},
	{Tag: "ASSETCLASS", Field: "AssetClass", Kind: Enum, Enum: "assetClass", Opt: true},
	{Tag: "FIASSETCLASS", Field: "FiAssetClass", Kind: String, Opt: true},
}

var sOtherInfo = []*Elem{
	{Tag: "SECINFO", Field: "SecInfo", Kind: Agg, Kids: sSecInfo},
	{Tag: "TYPEDESC", Field: "TypeDesc", Kind: String, Opt: true},
	{Tag: "ASSETCLASS", Field: "AssetClass", Kind: Enum, Enum: "assetClass", Opt: true},
	{Tag: "FIASSETCLASS", Field: "FiAssetClass", Kind: String, Opt: true},
}

var sStockInfo = []*Elem{
	{Tag: "SECINFO", Field: "SecInfo", Kind: Agg, Kids: sSecInfo},
	{Tag: "STOCKTYPE", Field: "StockType", Kind: Enum, Enum: "stockType", Opt: true},
	{Tag: "YIELD", Field: "Yield", Kind: Amount, Opt: true},
	{Tag: "DTYIELDASOF", Field: "DtYieldAsOf", Kind: Date, Opt: true, Ptr: true},
	{Tag: "ASSETCLASS", Field: "AssetClass", Kind: Enum, Enum: "assetClass", Opt: true},
	{Tag: "FIASSETCLASS", Field: "FiAssetClass", Kind: String, Opt: true},
}

var sSecurityList = []*Elem{
	{Tag: "", Field: "Securities", Kind: Poly, Members: SecurityMembers, Opt: true, List: true},
}

var InvTranMembers = []*Member{
	{Tag: "BUYDEBT", Type: "BuyDebt", Kids: sBuyDebt},
	{Tag: "BUYMF", Type: "BuyMF", Kids: sBuyMF},
	{Tag: "BUYOPT", Type: "BuyOpt", Kids: sBuyOpt},
	{Tag: "BUYOTHER", Type: "BuyOther", Kids: sBuyOther},
	{Tag: "BUYSTOCK", Type: "BuyStock", Kids: sBuyStock},
	{Tag: "CLOSUREOPT", Type: "ClosureOpt", Kids: sClosureOpt},
	{Tag: "INCOME", Type: "Income", Kids: sIncome},
	{Tag: "INVEXPENSE", Type: "InvExpense", Kids: sInvExpense},
	{Tag: "JRNLFUND", Type: "JrnlFund", Kids: sJrnlFund},
	{Tag: "JRNLSEC", Type: "JrnlSec", Kids: sJrnlSec},
	{Tag: "MARGININTEREST", Type: "MarginInterest", Kids: sMarginInterest},
	{Tag: "REINVEST", Type: "Reinvest", Kids: sReinvest},
	{Tag: "RETOFCAP", Type: "RetOfCap", Kids: sRetOfCap},
	{Tag: "SELLDEBT", Type: "SellDebt", Kids: sSellDebt},
	{Tag: "SELLMF", Type: "SellMF", Kids: sSellMF},
	{Tag: "SELLOPT", Type: "SellOpt", Kids: sSellOpt},
	{Tag: "SELLOTHER", Type: "SellOther", Kids: sSellOther},
	{Tag: "SELLSTOCK", Type: "SellStock", Kids: sSellStock},
	{Tag: "SPLIT", Type: "Split", Kids: sSplit},
	{Tag: "TRANSFER", Type: "Transfer", Kids: sTransfer},
}

var PositionMembers = []*Member{
	{Tag: "POSDEBT", Type: "DebtPosition", Kids: sDebtPosition},
	{Tag: "POSMF", Type: "MFPosition", Kids: sMFPosition},
	{Tag: "POSOPT", Type: "OptPosition", Kids: sOptPosition},
	{Tag: "POSOTHER", Type: "OtherPosition", Kids: sOtherPosition},
	{Tag: "POSSTOCK", Type: "StockPosition", Kids: sStockPosition},
}

var OpenOrderMembers = []*Member{
	{Tag: "OOBUYDEBT", Type: "OOBuyDebt", Kids: sOOBuyDebt},
	{Tag: "OOBUYMF", Type: "OOBuyMF", Kids: sOOBuyMF},
	{Tag: "OOBUYOPT", Type: "OOBuyOpt", Kids: sOOBuyOpt},
	{Tag: "OOBUYOTHER", Type: "OOBuyOther", Kids: sOOBuyOther},
	{Tag: "OOBUYSTOCK", Type: "OOBuyStock", Kids: sOOBuyStock},
	{Tag: "OOSELLDEBT", Type: "OOSellDebt", Kids: sOOSellDebt},
	{Tag: "OOSELLMF", Type: "OOSellMF", Kids: sOOSellMF},
	{Tag: "OOSELLOPT", Type: "OOSellOpt", Kids: sOOSellOpt},
	{Tag: "OOSELLOTHER", Type: "OOSellOther", Kids: sOOSellOther},
	{Tag: "OOSELLSTOCK", Type: "OOSellStock", Kids: sOOSellStock},
	{Tag: "SWITCHMF", Type: "OOSwitchMF", Kids: sOOSwitchMF},
}

var SecurityMembers = []*Member{
	{Tag: "DEBTINFO", Type: "DebtInfo", Kids: sDebtInfo},
	{Tag: "MFINFO", Type: "MFInfo", Kids: sMFInfo},
	{Tag: "OPTINFO", Type: "OptInfo", Kids: sOptInfo},
	{Tag: "OTHERINFO", Type: "OtherInfo", Kids: sOtherInfo},
	{Tag: "STOCKINFO", Type: "StockInfo", Kids: sStockInfo},
}
