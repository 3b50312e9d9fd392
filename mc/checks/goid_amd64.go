package checks

// getg returns the address of the running goroutine: its identity.
func getg() uintptr

func goID() int64 { return int64(getg()) }
