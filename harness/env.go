package main

import (
	"os"
	"os/signal"
	"path/filepath"
	"sync"
	"syscall"
)

// fileLimit makes writes fail that would let a file grow beyond n bytes, as on a
// full disk; a negative n lifts the limit.
func fileLimit(n int) error {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		return err
	}
	l.Cur = l.Max
	if n >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		l.Cur = uint64(n)
	}
	return syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l)
}

var (
	scratchOnce sync.Once
	scratchDir  string
)

// scratch is a directory of this process, for the temporary files of the code
// under test. The orchestrator gives it and removes it.
func scratch() string {
	scratchOnce.Do(func() {
		dir := os.Getenv("VERIF_SCRATCH")
		if dir == "" {
			var err error
			dir, err = os.MkdirTemp("", "verif-scratch-")
			herr(err)
		}
		scratchDir = filepath.Join(dir, "body")
		herr(os.MkdirAll(scratchDir, 0700))
		tmp := filepath.Join(dir, "tmp")
		herr(os.MkdirAll(tmp, 0700))
		herr(os.Setenv("TMPDIR", tmp))
	})
	return scratchDir
}
