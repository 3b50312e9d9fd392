package model

import (
	"fmt"
	"regexp"
	"strings"
)

var hdrKV = regexp.MustCompile(`^([A-Z]+):([A-Za-z0-9-]*)$`)

// CheckHeader verifies the header of a marshalled document.
func CheckHeader(hdr string, version int) error {
	if version < 200 {
		want := [][2]string{{"OFXHEADER", "100"}, {"DATA", "OFXSGML"}, {"VERSION", fmt.Sprint(version)}, {"SECURITY", "NONE"}, {"ENCODING", "*"}, {"CHARSET", "*"}, {"COMPRESSION", "NONE"}, {"OLDFILEUID", "NONE"}, {"NEWFILEUID", "NONE"}}
		lines := strings.Split(strings.ReplaceAll(hdr, "\r\n", "\n"), "\n")
		i := 0
		for _, l := range lines {
			if l == "" {
				continue
			}
			kv := hdrKV.FindStringSubmatch(l)
			if kv == nil || i >= len(want) || kv[1] != want[i][0] || (want[i][1] != "*" && kv[2] != want[i][1]) || kv[2] == "" {
				return fmt.Errorf("unexpected header line %q", l)
			}
			i++
		}
		if i != len(want) {
			return fmt.Errorf("header has %d of %d lines", i, len(want))
		}
		return nil
	}
	s := strings.TrimSpace(hdr)
	re := regexp.MustCompile(`^<\?xml\s+version="1\.0"[^?<>]*\?>\s*<\?OFX((?:\s+[A-Z]+="[A-Za-z0-9-]*")+)\s*\?>$`)
	m := re.FindStringSubmatch(s)
	if m == nil {
		return fmt.Errorf("unexpected header")
	}
	got := map[string]string{}
	for _, kv := range regexp.MustCompile(`([A-Z]+)="([^"]*)"`).FindAllStringSubmatch(m[1], -1) {
		if _, dup := got[kv[1]]; dup {
			return fmt.Errorf("duplicate %s", kv[1])
		}
		got[kv[1]] = kv[2]
	}
	want := map[string]string{"OFXHEADER": "200", "VERSION": fmt.Sprint(version), "SECURITY": "NONE", "OLDFILEUID": "NONE", "NEWFILEUID": "NONE"}
	for k, v := range want {
		if got[k] != v {
			return fmt.Errorf("%s is %q", k, got[k])
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("extra attributes")
	}
	return nil
}
