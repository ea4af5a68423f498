//go:build go1.21

// Package simioutil is package io/ioutil on top of the simulated file system.
package simioutil

import (
	"io/fs"

	os "github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// ReadFile reads a file
func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }

// WriteFile writes a file
func WriteFile(name string, data []byte, perm fs.FileMode) error { return os.WriteFile(name, data, perm) }

// TempFile creates a temporary file
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }

// TempDir creates a temporary directory
func TempDir(dir, pattern string) (string, error) { return os.MkdirTemp(dir, pattern) }

// ReadDir lists a directory
func ReadDir(name string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(name)
	var res []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		res = append(res, i)
	}
	return res, err
}
