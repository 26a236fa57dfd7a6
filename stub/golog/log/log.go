// Package log stands in for github.com/Breeze0806/go/log, which cannot be
// obtained offline. The default logger discards everything.
package log

import "io"

// Logger as used by gobinlog and the driver.
type Logger interface {
	Debugf(format string, args ...interface{})
	Infof(format string, args ...interface{})
	Warnf(format string, args ...interface{})
	Errorf(format string, args ...interface{})
	Print(args ...interface{})
}

// Level of logging.
type Level int

// Levels.
const (
	DebugLevel Level = iota
	InfoLevel
	WarnLevel
	ErrorLevel
)

type nop struct{}

func (nop) Debugf(string, ...interface{}) {}
func (nop) Infof(string, ...interface{})  {}
func (nop) Warnf(string, ...interface{})  {}
func (nop) Errorf(string, ...interface{}) {}
func (nop) Print(...interface{})          {}

// NewDefaultLogger returns a logger that discards.
func NewDefaultLogger(io.Writer, Level, string) Logger { return nop{} }

var cur Logger = nop{}

// SetLogger sets the current logger.
func SetLogger(l Logger) { cur = l }

// GetLogger gets the current logger.
func GetLogger() Logger { return cur }
