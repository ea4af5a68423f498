//go:build go1.21

// Package simfilepath is package path/filepath on top of the simulated file system.
package simfilepath

import (
	"io/fs"
	"path"
	real "path/filepath"
	"sort"
	"strings"

	os "github.com/bytesparadise/libasciidoc/verifsim/simos"
)

// Abs makes a path absolute
func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return real.Join(wd, p), nil
}

// EvalSymlinks resolves links
func EvalSymlinks(p string) (string, error) {
	abs := strings.HasPrefix(p, "/")
	res := ""
	if abs {
		res = "/"
	}
	n := 0
	parts := strings.Split(p, "/")
	for len(parts) > 0 {
		c := parts[0]
		parts = parts[1:]
		if c == "" || c == "." {
			continue
		}
		q := path.Join(res, c)
		fi, err := os.Lstat(q)
		if err != nil {
			return "", err
		}
		if fi.Mode()&fs.ModeSymlink != 0 {
			if n++; n > 40 {
				return "", &fs.PathError{Op: "lstat", Path: p, Err: fs.ErrInvalid}
			}
			t, err := os.Readlink(q)
			if err != nil {
				return "", err
			}
			if strings.HasPrefix(t, "/") {
				res = "/"
			}
			parts = append(strings.Split(t, "/"), parts...)
			continue
		}
		res = q
	}
	return real.Clean(res), nil
}

// WalkDir walks a tree
func WalkDir(root string, fn fs.WalkDirFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(fi), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				return nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(real.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

// Walk walks a tree
func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var fi fs.FileInfo
		if d != nil {
			fi, _ = d.Info()
		}
		return fn(p, fi, err)
	})
}

// Glob matches names
func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, "*?[\\") {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	dirs := []string{real.Clean(dir)}
	if dir == "" {
		dirs = []string{"."}
	}
	if strings.ContainsAny(dir, "*?[\\") {
		var err error
		if dirs, err = Glob(real.Clean(dir)); err != nil {
			return nil, err
		}
	}
	var res []string
	for _, d := range dirs {
		l, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range l {
			if ok, _ := real.Match(file, e.Name()); ok {
				if dir == "" {
					res = append(res, e.Name())
				} else {
					res = append(res, real.Join(d, e.Name()))
				}
			}
		}
	}
	sort.Strings(res)
	return res, nil
}
