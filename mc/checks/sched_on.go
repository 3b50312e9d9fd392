//go:build sched

package checks

import "github.com/aclindsa/ofxgo"

const instrumented = true

func init() {
	ofxgo.VerifYield = libPoint
	ofxgo.VerifBlocked = libBlocked
}
