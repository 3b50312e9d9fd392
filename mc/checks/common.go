package checks

import (
	"fmt"
	"strings"

	"github.com/aclindsa/ofxgo"

	"verif/mc/explore"
	"verif/mc/model"
)

// parse runs ParseResponse.
func parse(doc string) (*ofxgo.Response, error) {
	return ofxgo.ParseResponse(strings.NewReader(doc))
}

// newDoc makes a document with the given messages and a simple signon.
func newDoc(version int, msgs ...*model.Node) *model.Doc {
	return &model.Doc{Version: version, Signon: model.SimpleSignon(false), Msgs: msgs}
}

func newReqDoc(version int, msgs ...*model.Node) *model.Doc {
	return &model.Doc{Version: version, Signon: model.SimpleSignon(true), Msgs: msgs, Request: true}
}

// compareParsed checks that a parsed response holds exactly the document's
// data and that the verdict agrees with the documented rules.
func compareParsed(x *explore.X, d *model.Doc, text string, r *ofxgo.Response, err error) {
	if r == nil {
		x.Note("document:\n%s", text)
		x.Fail("refused", "well-formed document refused: %v", err)
	}
	got := model.CanonResponse(r)
	if diff := model.Diff(d.Canon(), got); diff != "" {
		x.Note("document:\n%s", text)
		x.Fail("data", "parsed data differ: %s", diff)
	}
	if ok := d.Valid(); ok != (err == nil) {
		x.Note("document:\n%s", text)
		x.Fail("verdict", "document valid=%v but error is %v", ok, err)
	}
	x.State(strings.Join(got, "\n"), fmt.Sprint(err == nil))
}

// focusPaths lists the aggregates to explore in depth.
func focusPaths(m *model.Msg, all bool) []string { return model.Aggregates(m, !all) }

var versionsSGML = []int{102, 103, 151, 160}
var versionsXML = []int{200, 201, 202, 203, 210, 211, 220}
var versionsAll = append(append([]int{}, versionsSGML...), versionsXML...)

// uniq removes repeated texts.
func uniq(in []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return
}

func must(err error) {
	if err != nil {
		panic("model: " + err.Error())
	}
}
