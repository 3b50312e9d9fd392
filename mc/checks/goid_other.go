//go:build !amd64

package checks

import (
	"bytes"
	"runtime"
	"strconv"
)

func goID() int64 {
	var buf [48]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = b[len("goroutine "):]
	if i := bytes.IndexByte(b, ' '); i > 0 {
		n, _ := strconv.ParseInt(string(b[:i]), 10, 64)
		return n
	}
	return -1
}
