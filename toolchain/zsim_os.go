// Simulation seam for the file system and process exit (see mkoverlay.py).
package os

// SimFSHook decides about one file-system call. n is the number of bytes or
// entries involved; it returns how many may go through before err happens.
// A negative count swallows the call.
var SimFS func(op, name string, flag, n int) (int, error)

// SimAfter runs after a write that SimFS cut short.
var SimAfter func()

// SimDirOrder permutes directory entries before anybody sorts them.
var SimDirOrder func(n int, swap func(i, j int))

// SimExit replaces process exit.
var SimExit func(code int)

func simfs(op, name string, flag int) error {
	if SimFS == nil {
		return nil
	}
	if _, err := SimFS(op, name, flag, 0); err != nil {
		return &PathError{Op: op, Path: name, Err: err}
	}
	return nil
}
