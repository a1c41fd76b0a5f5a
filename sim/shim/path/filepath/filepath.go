// Package filepath walks the simulated file system.
package filepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"sort"

	"alda.sim/shim/os"
	"alda.sim/world"
)

type WalkFunc = filepath.WalkFunc

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return path.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	wd, _ := os.Getwd()
	r, err := world.W.FS.RealPath(wd, p)
	if err != nil {
		return "", err
	}
	if !path.IsAbs(p) {
		if rel, err := filepath.Rel(wd, r); err == nil {
			return rel, nil
		}
	}
	return r, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := os.ReadDir(p)
	if err != nil {
		err = fn(p, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		if err := walkDir(path.Join(p, d1.Name()), d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(p, info, nil)
	}
	ents, err := os.ReadDir(p)
	err1 := fn(p, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range ents {
		name := path.Join(p, e.Name())
		fi, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else {
			err = walk(name, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != filepath.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := path.Split(pattern)
	dir = path.Clean(dir)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range ents {
		if ok, _ := filepath.Match(file, e.Name()); ok {
			out = append(out, path.Join(dir, e.Name()))
		}
	}
	sort.Strings(out)
	return out, nil
}
