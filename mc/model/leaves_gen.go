// Package model: the leaf elements of the OFX 1.0.3 DTD.
package model

var sgmlLeaves = map[string]bool{
	"ACCESSKEY":         true,
	"ACCRDINT":          true,
	"ACCTID":            true,
	"ACCTKEY":           true,
	"ACCTREQUIRED":      true,
	"ACCTTYPE":          true,
	"ADDR1":             true,
	"ADDR2":             true,
	"ADDR3":             true,
	"ADJAMT":            true,
	"ADJDATE":           true,
	"ADJDESC":           true,
	"ADJNO":             true,
	"APPID":             true,
	"APPVER":            true,
	"ASSETCLASS":        true,
	"AUCTION":           true,
	"AUTHTOKEN":         true,
	"AUTHTOKENFIRST":    true,
	"AUTHTOKENINFOURL":  true,
	"AUTHTOKENLABEL":    true,
	"AVAILACCTS":        true,
	"AVAILCASH":         true,
	"AVGCOSTBASIS":      true,
	"BALAMT":            true,
	"BALCLOSE":          true,
	"BALDNLD":           true,
	"BALMIN":            true,
	"BALOPEN":           true,
	"BALTYPE":           true,
	"BANKID":            true,
	"BILLREFINFO":       true,
	"BRANCHID":          true,
	"BROKERID":          true,
	"BUYPOWER":          true,
	"BUYTYPE":           true,
	"CALLPRICE":         true,
	"CALLTYPE":          true,
	"CANADDPAYEE":       true,
	"CANBILLPAY":        true,
	"CANCELWND":         true,
	"CANEMAIL":          true,
	"CANMODMDLS":        true,
	"CANMODPMTS":        true,
	"CANMODXFERS":       true,
	"CANNOTIFY":         true,
	"CANPENDING":        true,
	"CANRECUR":          true,
	"CANSCHED":          true,
	"CANUSEDESC":        true,
	"CANUSERANGE":       true,
	"CASESEN":           true,
	"CHARTYPE":          true,
	"CHECKING":          true,
	"CHECKNUM":          true,
	"CHGPINFIRST":       true,
	"CHGUSERINFO":       true,
	"CHKANDDEB":         true,
	"CHKERROR":          true,
	"CHKNUMEND":         true,
	"CHKNUMSTART":       true,
	"CHKSTATUS":         true,
	"CITY":              true,
	"CLIENTACTREQ":      true,
	"CLIENTROUTING":     true,
	"CLIENTUID":         true,
	"CLIENTUIDREQ":      true,
	"CLOSINGAVAIL":      true,
	"CLTCOOKIE":         true,
	"CODE":              true,
	"COMMISSION":        true,
	"CONFMSG":           true,
	"CORRECTACTION":     true,
	"CORRECTFITID":      true,
	"COUNTRY":           true,
	"COUPONFREQ":        true,
	"COUPONRT":          true,
	"CREDITLIMIT":       true,
	"CSPHONE":           true,
	"CURDEF":            true,
	"CURRATE":           true,
	"CURSYM":            true,
	"DATEBIRTH":         true,
	"DAYPHONE":          true,
	"DAYSTOPAY":         true,
	"DAYSWITH":          true,
	"DEBADJ":            true,
	"DEBTCLASS":         true,
	"DEBTTYPE":          true,
	"DENOMINATOR":       true,
	"DEPANDCREDIT":      true,
	"DESC":              true,
	"DFLTDAYSTOPAY":     true,
	"DIFFFIRSTPMT":      true,
	"DIFFLASTPMT":       true,
	"DOMXFERFEE":        true,
	"DSCAMT":            true,
	"DSCDATE":           true,
	"DSCDESC":           true,
	"DSCRATE":           true,
	"DTACCTUP":          true,
	"DTASOF":            true,
	"DTAUCTION":         true,
	"DTAVAIL":           true,
	"DTCALL":            true,
	"DTCHANGED":         true,
	"DTCLIENT":          true,
	"DTCLOSE":           true,
	"DTCOUPON":          true,
	"DTCREATED":         true,
	"DTDUE":             true,
	"DTEND":             true,
	"DTEXPIRE":          true,
	"DTINFOCHG":         true,
	"DTMAT":             true,
	"DTNEXT":            true,
	"DTOPEN":            true,
	"DTPLACED":          true,
	"DTPMTDUE":          true,
	"DTPMTPRC":          true,
	"DTPOSTED":          true,
	"DTPOSTEND":         true,
	"DTPOSTSTART":       true,
	"DTPRICEASOF":       true,
	"DTPROFUP":          true,
	"DTPURCHASE":        true,
	"DTSERVER":          true,
	"DTSETTLE":          true,
	"DTSTART":           true,
	"DTTRADE":           true,
	"DTUSER":            true,
	"DTXFERPRC":         true,
	"DTXFERPRJ":         true,
	"DTYIELDASOF":       true,
	"DURATION":          true,
	"EMAIL":             true,
	"EVEPHONE":          true,
	"EXTDPMTCHK":        true,
	"EXTDPMTFOR":        true,
	"FAXPHONE":          true,
	"FEE":               true,
	"FEEMSG":            true,
	"FEES":              true,
	"FIASSETCLASS":      true,
	"FICERTID":          true,
	"FID":               true,
	"FIID":              true,
	"FINALAMT":          true,
	"FINAME":            true,
	"FINCHG":            true,
	"FIRSTNAME":         true,
	"FITID":             true,
	"FRACCASH":          true,
	"FREQ":              true,
	"FROM":              true,
	"GAIN":              true,
	"GENUSERKEY":        true,
	"GETMIMESUP":        true,
	"HASEXTDPMT":        true,
	"HELDINACCT":        true,
	"IDSCOPE":           true,
	"INCBAL":            true,
	"INCIMAGES":         true,
	"INCLUDE":           true,
	"INCOMETYPE":        true,
	"INCOO":             true,
	"INITIALAMT":        true,
	"INTLXFERFEE":       true,
	"INVACCTTYPE":       true,
	"INVALIDACCTTYPE":   true,
	"INVDATE":           true,
	"INVDESC":           true,
	"INVNO":             true,
	"INVPAIDAMT":        true,
	"INVTOTALAMT":       true,
	"LANGUAGE":          true,
	"LASTNAME":          true,
	"LIMITPRICE":        true,
	"LITMAMT":           true,
	"LITMDESC":          true,
	"LOAD":              true,
	"LOSTSYNC":          true,
	"MAILSUP":           true,
	"MARGINBALANCE":     true,
	"MARKDOWN":          true,
	"MARKUP":            true,
	"MAX":               true,
	"MEMO":              true,
	"MESSAGE":           true,
	"MFACHALLENGEFIRST": true,
	"MFACHALLENGESUPT":  true,
	"MFAPHRASEA":        true,
	"MFAPHRASEID":       true,
	"MFAPHRASELABEL":    true,
	"MFTYPE":            true,
	"MIDDLENAME":        true,
	"MIN":               true,
	"MINPMTDUE":         true,
	"MINUNITS":          true,
	"MKTGINFO":          true,
	"MKTVAL":            true,
	"MODELWND":          true,
	"MODPENDING":        true,
	"NAME":              true,
	"NEWUNITS":          true,
	"NEWUSERPASS":       true,
	"NINSTS":            true,
	"NONCE":             true,
	"NUMERATOR":         true,
	"OFXSEC":            true,
	"OLDUNITS":          true,
	"OODNLD":            true,
	"OPTACTION":         true,
	"OPTBUYTYPE":        true,
	"OPTIONLEVEL":       true,
	"OPTSELLTYPE":       true,
	"OPTTYPE":           true,
	"ORG":               true,
	"PARVALUE":          true,
	"PAYACCT":           true,
	"PAYANDCREDIT":      true,
	"PAYEEID":           true,
	"PAYEELSTID":        true,
	"PAYINSTRUCT":       true,
	"PERCENT":           true,
	"PHONE":             true,
	"PINCH":             true,
	"PMTBYADDR":         true,
	"PMTBYPAYEEID":      true,
	"PMTBYXFER":         true,
	"PMTPRCCODE":        true,
	"POSDNLD":           true,
	"POSTALCODE":        true,
	"POSTPROCWND":       true,
	"POSTYPE":           true,
	"PROCDAYSOFF":       true,
	"PROCENDTM":         true,
	"PURANDADV":         true,
	"RATING":            true,
	"RECSRVRTID":        true,
	"REFNUM":            true,
	"REFRESH":           true,
	"REFRESHSUPT":       true,
	"REINVCG":           true,
	"REINVDIV":          true,
	"REJECTIFMISSING":   true,
	"RELFITID":          true,
	"RELTYPE":           true,
	"RESPFILEER":        true,
	"RESTRICTION":       true,
	"SECLISTRQDNLD":     true,
	"SECNAME":           true,
	"SECURED":           true,
	"SECURITYNAME":      true,
	"SELLALL":           true,
	"SELLREASON":        true,
	"SELLTYPE":          true,
	"SESSCOOKIE":        true,
	"SEVERITY":          true,
	"SHORTBALANCE":      true,
	"SHPERCTRCT":        true,
	"SIC":               true,
	"SIGNONREALM":       true,
	"SPACES":            true,
	"SPECIAL":           true,
	"SPNAME":            true,
	"SRVRTID":           true,
	"STATE":             true,
	"STOCKTYPE":         true,
	"STOPPRICE":         true,
	"STPCHKFEE":         true,
	"STRIKEPRICE":       true,
	"STSVIAMODS":        true,
	"SUBACCT":           true,
	"SUBACCTFROM":       true,
	"SUBACCTSEC":        true,
	"SUBACCTTO":         true,
	"SUBJECT":           true,
	"SUPTXDL":           true,
	"SVC":               true,
	"SVCSTATUS":         true,
	"SWITCHALL":         true,
	"SYNCMODE":          true,
	"TAN":               true,
	"TAXES":             true,
	"TAXEXEMPT":         true,
	"TAXID":             true,
	"TEMPPASS":          true,
	"TFERACTION":        true,
	"TICKER":            true,
	"TO":                true,
	"TOKEN":             true,
	"TOKENONLY":         true,
	"TOTAL":             true,
	"TOTALFEES":         true,
	"TOTALINT":          true,
	"TRANDNLD":          true,
	"TRANSPSEC":         true,
	"TRNAMT":            true,
	"TRNTYPE":           true,
	"TRNUID":            true,
	"TSKEYEXPIRE":       true,
	"TSPHONE":           true,
	"TYPEDESC":          true,
	"UNIQUEID":          true,
	"UNIQUEIDTYPE":      true,
	"UNITPRICE":         true,
	"UNITS":             true,
	"UNITSSTREET":       true,
	"UNITSUSER":         true,
	"UNITTYPE":          true,
	"URL":               true,
	"USEHTML":           true,
	"USERCRED1":         true,
	"USERCRED1LABEL":    true,
	"USERCRED2":         true,
	"USERCRED2LABEL":    true,
	"USERID":            true,
	"USERKEY":           true,
	"USERPASS":          true,
	"USPRODUCTTYPE":     true,
	"VALUE":             true,
	"VER":               true,
	"WITHHOLDING":       true,
	"XFERDAYSWITH":      true,
	"XFERDEST":          true,
	"XFERDFLTDAYSTOPAY": true,
	"XFERPRCCODE":       true,
	"XFERSRC":           true,
	"YIELD":             true,
	"YIELDTOCALL":       true,
	"YIELDTOMAT":        true,
}
