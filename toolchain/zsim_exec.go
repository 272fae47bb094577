// Simulation seam for child processes (see mkoverlay.py).
package exec

// SimRun answers a command in place of a child process.
var SimRun func(c *Cmd) error

type simRun struct {
	done bool
	err  error
}
