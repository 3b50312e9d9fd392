//go:build !sched

package checks

const instrumented = false
