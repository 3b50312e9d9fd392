From e4c0718e753246dda50d9bc1781029ea77c25c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 01/19] fix: reject corrections without a valid CORRECTACTION,
 accept those with one

The condition was inverted: every transaction correcting another one with a
proper DELETE/REPLACE action failed validation, and those lacking one passed.
---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From a39a95a88e88a0ddee92669a9ce601b08f1f5a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:21 +0000
Subject: [PATCH 02/19] fix: fail instead of emitting a headerless document for
 an invalid version

---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index 61f471e..888b1d0 100644
--- a/response.go
+++ b/response.go
@@ -415,7 +415,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From fd16d8c3e499dc82ef24ae89ded3d3e23dff2eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 03/19] fix: keep the sign of time zone offsets less than an
 hour west of GMT

---
 types.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index dda6a3f..f90ea06 100644
--- a/types.go
+++ b/types.go
@@ -138,6 +138,10 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			zoneminutes = zoneminutes * 60 / 100
 		}
 		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
+		if zonehours == 0 && matches[1][0] == '-' {
+			// An integer zero can't carry the sign of e.g. "-0.50"
+			zone = fmt.Sprintf(" -00%02d", zoneminutes)
+		}
 
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
@@ -169,7 +173,9 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 func (od Date) String() string {
 	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
-	if zoneoffset < 0 {
+	if zoneoffset < 0 && zoneoffset > -3600 {
+		format += "[-0" // Zero hours, but still west of GMT
+	} else if zoneoffset < 0 {
 		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
 	} else {
 		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
-- 
2.43.0


From 965b9e3800ba4090055f904db4f048494c8cce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 04/19] fix: print dates in GMT if their zone offset has no
 exact OFX representation

An offset which is not a multiple of three minutes (e.g. local mean time) was
rounded to hundredths of an hour, moving the instant the date stands for.
---
 types.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types.go b/types.go
index f90ea06..5e2b6f6 100644
--- a/types.go
+++ b/types.go
@@ -171,6 +171,11 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 
 // String returns a string representation of the Date abiding by the OFX spec
 func (od Date) String() string {
+	if _, offset := od.Zone(); offset%180 != 0 {
+		// Offsets are written in hundredths of an hour and read in whole
+		// minutes, use GMT if that would change the instant represented
+		od.Time = od.In(gmt)
+	}
 	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
 	if zoneoffset < 0 && zoneoffset > -3600 {
-- 
2.43.0


From bd84f100cd19cf4a5ba9a45872f9263d692b8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 05/19] fix: omit time zone names from dates which can't be
 parsed back

Time zones without an alphabetic abbreviation (America/Sao_Paulo, Asia/Dubai,
...) were printed as e.g. [-3:-03], which is not valid OFX and which this
library itself refuses to parse.
---
 types.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/types.go b/types.go
index 5e2b6f6..f452b9e 100644
--- a/types.go
+++ b/types.go
@@ -192,6 +192,12 @@ func (od Date) String() string {
 		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
 	}
 
+	// Not all zones have an abbreviation which can be parsed again: some are
+	// numeric ("-03" for America/Sao_Paulo), which OFX doesn't allow for
+	if _, err := time.Parse("MST", zonename); err != nil || !ofxDateZoneRegex.MatchString("0:"+zonename) {
+		zonename = ""
+	}
+
 	if len(zonename) > 0 {
 		return format + ":" + zonename + "]"
 	}
-- 
2.43.0


From 41a449cb6de83da5b08b93e965b276e5821a9fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:13 +0000
Subject: [PATCH 06/19] fix: parse LOANINFO aggregates

LoanInfo claimed to be a VESTINFO element, so any statement containing a 401(k)
loan failed to parse.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..dc7cea5 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
-- 
2.43.0


From a6b0dc96b21c880040a320a2d21f7a80980b6f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:15 +0000
Subject: [PATCH 07/19] fix: don't drop CONTRIBINFO aggregates

The name of the element was misspelled, so 401(k) contribution allocations were
silently ignored when parsing.
---
 invstmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invstmt.go b/invstmt.go
index dc7cea5..e2e65ba 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1453,7 +1453,7 @@ type Inv401K struct {
 	StartOfYear         *Date                 `xml:"MATCHINFO>STARTOFYEAR,omitempty"`       // Specifies when the employer contribution max is reset. Some plans have a maximum based on the company fiscal year rather than calendar year. Assume calendar year if omitted. Only the month and day (MMDD) are used; year (YYYY) and time are ignored
 	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // Specifies a fixed dollar amount contributed by the employer if the employee participates in the plan at all. This may be present in addition to the <MATCHPCT>. $0 if omitted
 	BaseMatchPct        Amount                `xml:"MATCHINFO>BASEMATCHPCT"`                // Specifies a fixed percent of employee salary matched if the employee participates in the plan at all. This may be present in addition to the MATCHPCT>. 0% if omitted. Base match in a year is BASEMATCHPCT up to the BASEMATCHAMT,if provided
-	ContribInfo         []ContribSecurity     `xml:"CONTRIBINTO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
+	ContribInfo         []ContribSecurity     `xml:"CONTRIBINFO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
 	CurrentVestPct      Amount                `xml:"CURRENTVESTPCT,omitempty"`              // Estimated percentage of employer contributions vested as of the current date. If omitted, assume 100%
 	VestInfo            []VestInfo            `xml:"VESTINFO,omitempty"`                    // Vest change dates. Provides the vesting percentage as of any particular past, current, or future date. 0 or more.
 	LoanInfo            []LoanInfo            `xml:"LOANINFO,omitempty"`                    // List of any loans outstanding against this account
-- 
2.43.0


From 98b3e8a4a2ad96d6ce78d7a4094807229771c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 08/19] fix: refuse redirects from https to plain-text URLs

A 307 or 308 redirect to a http:// URL re-sent the whole request, including the
password, without encryption.
---
 basic_client.go    | 21 ++++++++++++++++++++-
 vanguard_client.go |  2 +-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..0cf4c60 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -65,6 +65,25 @@ func (c *BasicClient) CarriageReturnNewLines() bool {
 	return c.CarriageReturn
 }
 
+// httpsOnly returns a copy of the http.Client which additionally refuses to be
+// redirected to a non-https URL, since this could re-send the request
+func httpsOnly(client *http.Client) *http.Client {
+	c := *client
+	c.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow OFX request redirect to non-https URL")
+		}
+		if client.CheckRedirect != nil {
+			return client.CheckRedirect(req, via)
+		}
+		if len(via) >= 10 { // same as http.Client's default policy
+			return errors.New("stopped after 10 redirects")
+		}
+		return nil
+	}
+	return &c
+}
+
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
 // when you need to read/inspect the raw HTTP response yourself.
 func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error) {
@@ -86,7 +105,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := httpsOnly(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..00b07d1 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -45,7 +45,7 @@ func vanguardHttpClient() *http.Client {
 			},
 		},
 	}
-	return client
+	return httpsOnly(client)
 }
 
 // RawRequest is a copy of BasicClient RawRequest with a custom http.Client
-- 
2.43.0


From 3f931c850be75376aec82f1af79f96ea8e87e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:24 +0000
Subject: [PATCH 09/19] fix: close the bodies of responses which are not handed
 to the caller

---
 client.go          | 3 +++
 vanguard_client.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/client.go b/client.go
index a9d43dd..db66035 100644
--- a/client.go
+++ b/client.go
@@ -93,6 +93,9 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
 	if err != nil {
+		if response != nil {
+			response.Body.Close()
+		}
 		return nil, err
 	}
 	defer response.Body.Close()
diff --git a/vanguard_client.go b/vanguard_client.go
index 00b07d1..8bccfee 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -100,6 +100,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
@@ -124,6 +125,8 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
 	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+		response.Body.Close()
+
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From fff60d54a1f388360031dcbd656ec8173d2b2954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 10/19] fix: send the configured User-Agent in Vanguard cookie
 retries, too

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 8bccfee..9bebc7b 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -79,7 +79,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie, userAgent string) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -89,6 +89,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if userAgent != "" {
+		request.Header.Set("User-Agent", userAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -132,7 +135,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies(), c.UserAgent)
 	}
 
 	return response, err
-- 
2.43.0


From 210b150341413f0c4f3f75038f7a358780d88e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:28 +0000
Subject: [PATCH 11/19] fix: don't retry Vanguard requests which were answered
 with an error

As the comment above says, only empty responses without any errors are to be
retried. Retrying e.g. a 403 response sends the credentials once more and
reports the outcome of the second attempt instead.
---
 vanguard_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index 9bebc7b..eeb35bc 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -127,7 +127,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// Fortunately, the initial response contains the cookie we need, so if we
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
-	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+	if err == nil && response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
 		response.Body.Close()
 
 		b, err = r.Marshal()
-- 
2.43.0


From 2ab187721d3931973c19124ce5b4721060426466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 12/19] fix: send the encoded path and query of Discover URLs

The query was dropped and the path was written to the request line in decoded
form, so that e.g. %0d%0a in it could inject headers.
---
 discovercard_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..bf72034 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,7 +42,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
+	path := url.RequestURI()
 	if path == "" {
 		path = "/"
 	}
-- 
2.43.0


From d0cec67e2cda88d771fcca81061e15423ff9a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 13/19] fix: accept exchange rates which are multiples of 2^64

The numerator of the rate was truncated to 64 bits before comparing it to zero.
---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From 6f6c9593de958b08db522ea349e838040c043056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 14/19] fix: don't crash printing statements lacking optional
 aggregates

Transaction lists, investment balances, and both names of card transactions may
be missing from valid responses.
---
 cmd/ofx/banktransactions.go | 3 +++
 cmd/ofx/cctransactions.go   | 5 ++++-
 cmd/ofx/invtransactions.go  | 8 ++++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..ea1feb9 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -74,6 +74,9 @@ func bankTransactions() {
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return // balance-only statement
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			printTransaction(stmt.CurDef, &tran)
 		}
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..df09c2b 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -63,6 +63,9 @@ func ccTransactions() {
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
 		fmt.Println("Transactions:")
+		if stmt.BankTranList == nil {
+			return // balance-only statement
+		}
 		for _, tran := range stmt.BankTranList.Transactions {
 			currency := stmt.CurDef
 			if tran.Currency != nil {
@@ -72,7 +75,7 @@ func ccTransactions() {
 			var name string
 			if len(tran.Name) > 0 {
 				name = string(tran.Name)
-			} else {
+			} else if tran.Payee != nil {
 				name = string(tran.Payee.Name)
 			}
 
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..650cb7c 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,6 +67,14 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
+		// The balance and list of transactions are both optional
+		if stmt.InvBal == nil {
+			stmt.InvBal = &ofxgo.InvBalance{}
+		}
+		if stmt.InvTranList == nil {
+			stmt.InvTranList = &ofxgo.InvTranList{}
+		}
+
 		availCash := stmt.InvBal.AvailCash
 		if availCash.IsInt() && availCash.Num().Int64() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
-- 
2.43.0


From 9c6d4a7632d9bf27ea5635847f03533390709b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 15/19] fix: print investment balances which are not whole
 numbers

---
 cmd/ofx/invtransactions.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 650cb7c..5785762 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -76,7 +76,7 @@ func invTransactions() {
 		}
 
 		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
+		if availCash.Sign() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
-- 
2.43.0


From 39a21ba957a5ab7c97a60777911f9cb1918e2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 16/19] fix: report why investment transactions could not be
 requested

---
 cmd/ofx/invtransactions.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index 5785762..25fbca7 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -52,6 +52,7 @@ func invTransactions() {
 
 	response, err := client.Request(query)
 	if err != nil {
+		fmt.Println("Error requesting account statement:", err)
 		os.Exit(1)
 	}
 
-- 
2.43.0


From ed49c1ee2de536d47546e138e0740df49ffd1eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:55 +0000
Subject: [PATCH 17/19] fix: don't marshal MessageSet.Name as an extra <Name>
 element

---
 profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.go b/profile.go
index 8bacc60..433113b 100644
--- a/profile.go
+++ b/profile.go
@@ -71,7 +71,7 @@ type SignonInfo struct {
 // capabilities
 type MessageSet struct {
 	XMLName     xml.Name // <xxxMSGSETVn>
-	Name        string   // <xxxMSGSETVn> (copy of XMLName.Local)
+	Name        string   `xml:"-"`                                // <xxxMSGSETVn> (copy of XMLName.Local)
 	Ver         Int      `xml:"MSGSETCORE>VER"`                   // Message set version - should always match 'n' in <xxxMSGSETVn> of Name
 	URL         String   `xml:"MSGSETCORE>URL"`                   // URL where messages in this set are to be set
 	OfxSec      ofxSec   `xml:"MSGSETCORE>OFXSEC"`                // NONE or 'TYPE 1'
-- 
2.43.0


From 3c3dc7962647a8d26cfb8d62651d751d361f33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 18/19] fix: heed the offset of dates and accept any name of
 their zone

time.Parse ignores the offset if the zone is called UTC, and refuses most
names which don't have three letters.
---
 types.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/types.go b/types.go
index f452b9e..937c39c 100644
--- a/types.go
+++ b/types.go
@@ -104,7 +104,7 @@ var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]
 // and defaults to GMT if a time zone is not provided, as per the OFX spec.
 // Leading and trailing whitespace is ignored.
 func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	var value, zone, zoneFormat string
+	var value, zone, zoneName string
 	err := d.DecodeElement(&value, &start)
 	if err != nil {
 		return err
@@ -117,7 +117,6 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	split := strings.SplitN(value, "[", 2)
 	if len(split) == 2 {
 		value = split[0]
-		zoneFormat = " -0700"
 		zone = strings.TrimRight(split[1], "]")
 
 		matches := ofxDateZoneRegex.FindStringSubmatch(zone)
@@ -146,22 +145,26 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
 		if len(matches[5]) > 0 {
-			zone = zone + " " + matches[5]
-			zoneFormat = zoneFormat + " MST"
+			zoneName = matches[5]
 		} else if zonehours == 0 && zoneminutes == 0 {
-			zone = zone + " GMT"
-			zoneFormat = zoneFormat + " MST"
+			zoneName = "GMT"
 		}
 	} else {
 		// Default to GMT if no time zone was specified
-		zone = " +0000 GMT"
-		zoneFormat = " -0700 MST"
+		zone = " +0000"
+		zoneName = "GMT"
 	}
 
-	// Try all the date formats, from longest to shortest
+	// Try all the date formats, from longest to shortest. The name of the zone
+	// is left to FixedZone: time.Parse doesn't accept all names, and it ignores
+	// the offset if the name is UTC.
 	for _, format := range ofxDateFormats {
-		t, err := time.Parse(format+zoneFormat, value+zone)
+		t, err := time.Parse(format+" -0700", value+zone)
 		if err == nil {
+			if len(zoneName) > 0 {
+				_, offset := t.Zone()
+				t = t.In(time.FixedZone(zoneName, offset))
+			}
 			od.Time = t
 			return nil
 		}
-- 
2.43.0


From 22085f293736d2f671c5d5f2eb74b103da035958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 19/19] fix: exit nonzero when a dry run cannot create its
 request

---
 cmd/ofx/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/ofx/util.go b/cmd/ofx/util.go
index 33f5a65..9877a3a 100644
--- a/cmd/ofx/util.go
+++ b/cmd/ofx/util.go
@@ -38,8 +38,8 @@ func printRequest(c ofxgo.Client, r *ofxgo.Request) {
 
 	b, err := r.Marshal()
 	if err != nil {
-		fmt.Println(err)
-		return
+		fmt.Println("Error creating request:", err)
+		os.Exit(1)
 	}
 	fmt.Println(b)
 }
-- 
2.43.0

