//go:build go1.22

package main

import (
	"bytes"
	"runtime"
	"strconv"
)

// goid is the number of the calling goroutine
func goid() uint64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	n, _ := strconv.ParseUint(string(b[:bytes.IndexByte(b, ' ')]), 10, 64)
	return n
}
