//go:build go1.21

// Package simfmt is package fmt with the standard output of the simulated process.
package simfmt

import (
	real "fmt"
	"io"

	os "github.com/bytesparadise/libasciidoc/verifsim/simos"
)

func out() io.Writer {
	if os.Stdout == nil {
		return io.Discard
	}
	return os.Stdout
}

// Print prints
func Print(a ...interface{}) (int, error) { return real.Fprint(out(), a...) }

// Println prints
func Println(a ...interface{}) (int, error) { return real.Fprintln(out(), a...) }

// Printf prints
func Printf(format string, a ...interface{}) (int, error) { return real.Fprintf(out(), format, a...) }

// Sprintf is a plain function so that it stays cheap
func Sprintf(format string, a ...interface{}) string { return real.Sprintf(format, a...) }
