// Package bsvlog is a do-nothing stand-in for github.com/bitcoinsv/bsvlog,
// which is not in the offline module cache. bsvd/txscript (used by the harness
// as an independent oracle) only needs a disabled logger from it.
package bsvlog

// Logger has the one method bsvd/txscript calls.
type Logger interface {
	Tracef(format string, params ...interface{})
}

type disabled struct{}

func (disabled) Tracef(string, ...interface{}) {}

// Disabled discards everything.
var Disabled Logger = disabled{}
