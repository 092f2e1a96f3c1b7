//go:build go1.25

// Package filepath is path/filepath on the simulated disk.
package filepath

import (
	iofs "io/fs"
	real "path/filepath"
	"sort"

	"powsim/fs"
	"powsim/rt"
	"powsim/shim/os"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	wd, err := os.Getwd()
	return real.Join(wd, p), err
}

func EvalSymlinks(p string) (string, error) {
	if fs.Cur == nil {
		return p, nil
	}
	for i := 0; i < 20; i++ {
		t, err := os.Readlink(p)
		if err != nil {
			break
		}
		if !real.IsAbs(t) {
			t = real.Join(real.Dir(p), t)
		}
		p = t
	}
	if _, err := os.Stat(p); err != nil {
		return "", err
	}
	return real.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !hasMeta(pattern) {
		if _, err := os.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := real.Split(pattern)
	if dir == "" {
		dir = "."
	} else if len(dir) > 1 {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if hasMeta(dir) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	}
	var out []string
	for _, d := range dirs {
		l, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range l {
			if ok, _ := real.Match(file, e.Name()); ok {
				out = append(out, real.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

func hasMeta(p string) bool {
	for _, c := range p {
		if c == '*' || c == '?' || c == '[' || c == '\\' {
			return true
		}
	}
	return false
}

func WalkDir(root string, fn iofs.WalkDirFunc) error {
	fi, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, iofs.FileInfoToDirEntry(fi), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(p string, d iofs.DirEntry, fn iofs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	for _, e := range l {
		if err := walk(real.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d iofs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, e := d.Info()
		if err == nil {
			err = e
		}
		return fn(p, i, err)
	})
}

var _ = rt.Active
