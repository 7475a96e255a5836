package simrt

import (
	"io/fs"
	"os"
	"path"
	"strconv"
	"sync"
)

var dirs = struct {
	sync.Mutex
	m map[string]fs.FS
}{m: map[string]fs.FS{}}

// NewDir puts a simulated file system behind a path.
func NewDir(fsys fs.FS) string {
	dirs.Lock()
	defer dirs.Unlock()
	name := "zzsim/" + strconv.Itoa(len(dirs.m))
	dirs.m[name] = fsys
	return name
}

// ClearDirs removes all simulated folders.
func ClearDirs() {
	dirs.Lock()
	defer dirs.Unlock()
	clear(dirs.m)
}

// DirFS stands in for os.DirFS. A folder the simulation does not know is empty,
// so that nothing outside the simulation is ever read.
func DirFS(name string) fs.FS {
	dirs.Lock()
	defer dirs.Unlock()
	if f, ok := dirs.m[path.Clean(name)]; ok {
		return f
	}
	return noDir{}
}

type noDir struct{}

func (noDir) Open(name string) (fs.File, error) {
	return nil, &fs.PathError{Op: "open", Path: name, Err: os.ErrNotExist}
}
