// Package mos models the operating system for the symbolic executor: a file
// system, pipes, processes and signals. A function marked "sx:replace"
// stands in for the named function when the executor runs the program; in
// native execution nothing here is used and the real operating system is.
package mos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"time"

	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

const (
	kindFile = iota
	kindDir
	kindLink
	kindFifo
	kindChar
	kindPipe
)

// Node is a file system object.
type Node struct {
	kind   int
	perm   fs.FileMode
	data   []byte
	kids   []*entry
	target string
	parent *Node
	id     int
	// pipes and fifos
	readers int
	writers int
	opened  int // how often it has been opened
	change  int
	cap     int
}

type entry struct {
	name string
	node *Node
}

// File is an open file description.
type File struct {
	node   *Node
	name   string
	off    int
	flags  int
	closed bool
	dirpos int
	rd, wr bool
	busy   int
}

var (
	root   *Node
	cwd    *Node
	nextID int
	files  = map[*os.File]*File{}
	env    []string
	umask  = 022
	// FailAt makes the n-th system call from now fail (0: never).
	// Stdout collects what is written to the standard output and error.
	Stdout, Stderr *Node
	// Exited holds the code passed to os.Exit.
	Exited   bool
	ExitCode int
	tmpN     int
)

func newNode(kind int, perm fs.FileMode, parent *Node) *Node {
	nextID++
	return &Node{kind: kind, perm: perm, parent: parent, id: nextID}
}

// Reset gives an empty file system with a working directory and a few
// conventional objects.
func Reset() {
	// Package os is not initialised.
	os.ErrInvalid, os.ErrPermission = fs.ErrInvalid, fs.ErrPermission
	os.ErrExist, os.ErrNotExist, os.ErrClosed = fs.ErrExist, fs.ErrNotExist, fs.ErrClosed
	nextID = 0
	root = newNode(kindDir, 0o755, nil)
	root.parent = root
	files = map[*os.File]*File{}
	Exited, ExitCode = false, 0
	umask = 022
	mkdirAll("/w")
	mkdirAll("/tmp")
	mkdirAll("/dev")
	n := newNode(kindChar, 0o666, root)
	add(find("/dev"), "null", n)
	cwd = find("/w")
	Stdout = newNode(kindFile, 0o644, root)
	Stderr = newNode(kindFile, 0o644, root)
	os.Stdin = attach(newNode(kindFile, 0o644, root), "/dev/stdin", os.O_RDONLY)
	os.Stdout = attach(Stdout, "/dev/stdout", os.O_WRONLY|os.O_APPEND)
	os.Stderr = attach(Stderr, "/dev/stderr", os.O_WRONLY|os.O_APPEND)
	os.Args = []string{"oh"}
	env = []string{"PATH=/bin", "HOME=/home"}
	resetProc()
}

func init() {
	if sx.Symbolic() {
		Reset()
	}
}

func attach(n *Node, name string, flags int) *os.File {
	f := new(os.File)
	m := &File{node: n, name: name, flags: flags}
	switch flags & 3 {
	case os.O_RDONLY:
		m.rd = true
	case os.O_WRONLY:
		m.wr = true
	default:
		m.rd, m.wr = true, true
	}
	if n.kind == kindPipe || n.kind == kindFifo {
		if m.rd {
			n.readers++
		}
		if m.wr {
			n.writers++
		}
		n.change++
	}
	files[f] = m
	return f
}

func child(d *Node, name string) *Node {
	for _, e := range d.kids {
		if e.name == name {
			return e.node
		}
	}
	return nil
}

func add(d *Node, name string, n *Node) {
	n.parent = d
	d.kids = append(append([]*entry(nil), d.kids...), &entry{name, n})
}

func del(d *Node, name string) {
	var k []*entry
	for _, e := range d.kids {
		if e.name != name {
			k = append(k, e)
		}
	}
	d.kids = k
}

func find(path string) *Node {
	n, _, _, _ := walk(path, true)
	return n
}

func mkdirAll(p string) *Node {
	n := root
	for _, c := range split(p) {
		k := child(n, c)
		if k == nil {
			k = newNode(kindDir, 0o755, n)
			add(n, c, k)
		}
		n = k
	}
	return n
}

func split(p string) []string {
	var out []string
	s := 0
	for i := 0; i <= len(p); i++ {
		if i == len(p) || p[i] == '/' {
			if i > s {
				out = append(out, p[s:i])
			}
			s = i + 1
		}
	}
	return out
}

// walk resolves a path. It returns the node (nil if the last component does
// not exist), its parent directory and last component.
func walk(path string, follow bool) (*Node, *Node, string, error) {
	return walkN(cwd, path, follow, 0)
}

func walkN(from *Node, path string, follow bool, depth int) (*Node, *Node, string, error) {
	if path == "" {
		return nil, nil, "", syscall.ENOENT
	}
	for i := 0; i < len(path); i++ {
		if path[i] == 0 {
			return nil, nil, "", syscall.EINVAL
		}
	}
	if depth > 40 {
		return nil, nil, "", syscall.ELOOP
	}
	n := from
	if path[0] == '/' {
		n = root
	}
	cs := split(path)
	slash := path[len(path)-1] == '/'
	dir, last := n, "."
	for i, c := range cs {
		if n.kind != kindDir {
			return nil, nil, "", syscall.ENOTDIR
		}
		dir, last = n, c
		if c == "." {
			continue
		}
		if c == ".." {
			n = n.parent
			continue
		}
		if len(c) > 255 {
			return nil, nil, "", syscall.ENAMETOOLONG
		}
		k := child(n, c)
		if k == nil {
			if i < len(cs)-1 {
				return nil, nil, "", syscall.ENOENT
			}
			return nil, dir, last, syscall.ENOENT
		}
		if k.kind == kindLink && (i < len(cs)-1 || follow || slash) {
			t, d2, l2, err := walkN(n, k.target, true, depth+1)
			if err != nil {
				if i == len(cs)-1 && err == syscall.ENOENT {
					return nil, d2, l2, err
				}
				return nil, nil, "", err
			}
			k = t
		}
		n = k
	}
	if slash && n.kind != kindDir {
		return nil, nil, "", syscall.ENOTDIR
	}
	return n, dir, last, nil
}

func perr(op, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

type info struct {
	name string
	n    *Node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(len(i.n.data)) }
func (i *info) Mode() fs.FileMode {
	switch i.n.kind {
	case kindDir:
		return fs.ModeDir | i.n.perm
	case kindLink:
		return fs.ModeSymlink | 0o777
	case kindFifo, kindPipe:
		return fs.ModeNamedPipe | i.n.perm
	case kindChar:
		return fs.ModeDevice | fs.ModeCharDevice | i.n.perm
	}
	return i.n.perm
}
func (i *info) ModTime() time.Time { return time.Time{} }
func (i *info) IsDir() bool        { return i.n.kind == kindDir }
func (i *info) Sys() any           { return nil }

type dirent struct{ info }

func (d *dirent) Type() fs.FileMode          { return d.Mode().Type() }
func (d *dirent) Info() (fs.FileInfo, error) { return &d.info, nil }

//sx:replace os.Stat
func osStat(name string) (os.FileInfo, error) {
	n, _, _, err := walk(name, true)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return &info{filepath.Base(name), n}, nil
}

//sx:replace os.Lstat
func osLstat(name string) (os.FileInfo, error) {
	n, _, _, err := walk(name, false)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return &info{filepath.Base(name), n}, nil
}

//sx:replace os.SameFile
func osSameFile(a, b os.FileInfo) bool { return nodeOf(a) == nodeOf(b) }

func nodeOf(i os.FileInfo) *Node {
	switch v := i.(type) {
	case *info:
		return v.n
	case *dirent:
		return v.n
	}
	panic("SameFile")
}

//sx:replace os.Readlink
func osReadlink(name string) (string, error) {
	n, _, _, err := walk(name, false)
	if err != nil {
		return "", perr("readlink", name, err)
	}
	if n.kind != kindLink {
		return "", perr("readlink", name, syscall.EINVAL)
	}
	return n.target, nil
}

// Open counts the open files.
func Open() (n int) {
	for _, m := range files {
		if !m.closed {
			n++
		}
	}
	return
}

// OpenFails and WriteFails make opening files and writing to files fail.
var OpenFails, WriteFails bool

//sx:replace os.OpenFile
func osOpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	sx.Point()
	if OpenFails {
		return nil, perr("open", name, syscall.EMFILE)
	}
	n, dir, last, err := walk(name, true)
	if err != nil {
		if err != syscall.ENOENT || dir == nil || flag&os.O_CREATE == 0 || name[len(name)-1] == '/' {
			return nil, perr("open", name, err)
		}
		n = newNode(kindFile, perm&^fs.FileMode(umask), dir)
		add(dir, last, n)
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.kind == kindDir && (flag&3 != os.O_RDONLY || flag&os.O_CREATE != 0) {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if n.kind == kindFile && flag&os.O_TRUNC != 0 {
			n.data = nil
		}
	}
	f := attach(n, name, flag)
	if n.kind == kindFifo {
		m := files[f]
		n.opened++
		// The other end may have been opened and closed meanwhile.
		for was := n.opened; n.opened == was && (m.rd && !m.wr && n.writers == 0 || m.wr && !m.rd && n.readers == 0); {
			sx.Await(&n.change, n.change)
		}
	}
	return f, nil
}

//sx:replace os.Open
func osOpen(name string) (*os.File, error) { return osOpenFile(name, os.O_RDONLY, 0) }

//sx:replace os.Create
func osCreate(name string) (*os.File, error) {
	return osOpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//sx:replace os.ReadFile
func osReadFile(name string) ([]byte, error) {
	n, _, _, err := walk(name, true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.kind == kindDir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte(nil), n.data...), nil
}

//sx:replace os.WriteFile
func osWriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := osOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, data)
	fileClose(f)
	return err
}

//sx:replace os.Mkdir
func osMkdir(name string, perm os.FileMode) error {
	_, dir, last, err := walk(name, true)
	if err == nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	if err != syscall.ENOENT || dir == nil {
		return perr("mkdir", name, err)
	}
	add(dir, last, newNode(kindDir, perm, dir))
	return nil
}

//sx:replace os.MkdirAll
func osMkdirAll(name string, perm os.FileMode) error {
	p := name
	if len(p) > 0 && p[0] != '/' {
		p = getwd() + "/" + p
	}
	mkdirAll(filepath.Clean(p))
	return nil
}

//sx:replace os.MkdirTemp
func osMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	tmpN++
	p := dir + "/" + pattern + string(rune('a'+tmpN))
	mkdirAll(p)
	return p, nil
}

//sx:replace os.Symlink
func osSymlink(old, name string) error {
	_, dir, last, err := walk(name, false)
	if err == nil {
		return perr("symlink", name, syscall.EEXIST)
	}
	if dir == nil {
		return perr("symlink", name, err)
	}
	n := newNode(kindLink, 0o777, dir)
	n.target = old
	add(dir, last, n)
	return nil
}

//sx:replace syscall.Mkfifo
func sysMkfifo(name string, mode uint32) error {
	_, dir, last, err := walk(name, false)
	if err == nil {
		return syscall.EEXIST
	}
	if dir == nil {
		return err
	}
	add(dir, last, newNode(kindFifo, fs.FileMode(mode), dir))
	return nil
}

//sx:replace golang.org/x/sys/unix.Mkfifo
func unixMkfifo(name string, mode uint32) error { return sysMkfifo(name, mode) }

//sx:replace os.Chmod
func osChmod(name string, mode os.FileMode) error {
	n, _, _, err := walk(name, true)
	if err != nil {
		return perr("chmod", name, err)
	}
	n.perm = mode
	return nil
}

//sx:replace os.Remove
func osRemove(name string) error {
	n, dir, last, err := walk(name, false)
	if err != nil {
		return perr("remove", name, err)
	}
	if n.kind == kindDir && len(n.kids) > 0 {
		return perr("remove", name, syscall.ENOTEMPTY)
	}
	del(dir, last)
	return nil
}

//sx:replace os.RemoveAll
func osRemoveAll(name string) error {
	_, dir, last, err := walk(name, false)
	if err == nil {
		del(dir, last)
	}
	return nil
}

//sx:replace os.Rename
func osRename(a, b string) error {
	n, d1, l1, err := walk(a, false)
	if err != nil {
		return err
	}
	_, d2, l2, _ := walk(b, false)
	if d2 == nil {
		return syscall.ENOENT
	}
	del(d1, l1)
	del(d2, l2)
	add(d2, l2, n)
	return nil
}

func getwd() string {
	s := ""
	for n := cwd; n != root; n = n.parent {
		for _, e := range n.parent.kids {
			if e.node == n {
				s = "/" + e.name + s
			}
		}
	}
	if s == "" {
		return "/"
	}
	return s
}

//sx:replace os.Getwd
func osGetwd() (string, error) { return getwd(), nil }

//sx:replace os.Chdir
func osChdir(dir string) error {
	sx.Point()
	n, _, _, err := walk(dir, true)
	if err != nil {
		return perr("chdir", dir, err)
	}
	if n.kind != kindDir {
		return perr("chdir", dir, syscall.ENOTDIR)
	}
	if ChdirFails {
		return perr("chdir", dir, syscall.EACCES)
	}
	cwd = n
	return nil
}

// ChdirFails makes changing directory fail.
var ChdirFails bool

func dirNames(n *Node) []string {
	var out []string
	for _, e := range n.kids {
		out = append(out, e.name)
	}
	return out
}

//sx:replace os.ReadDir
func osReadDir(name string) ([]os.DirEntry, error) {
	n, _, _, err := walk(name, true)
	if err != nil {
		return nil, perr("open", name, err)
	}
	if n.kind != kindDir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	names := dirNames(n)
	sort.Strings(names)
	var out []os.DirEntry
	for _, s := range names {
		out = append(out, &dirent{info{s, child(n, s)}})
	}
	return out, nil
}

//sx:replace (*os.File).Readdirnames
func fileReaddirnames(f *os.File, k int) ([]string, error) {
	m := files[f]
	if m.node.kind != kindDir {
		return nil, perr("readdirent", m.name, syscall.ENOTDIR)
	}
	names := dirNames(m.node)
	if m.dirpos >= len(names) && k > 0 {
		return nil, io.EOF
	}
	names = names[m.dirpos:]
	m.dirpos += len(names)
	return names, nil
}

//sx:replace (*os.File).Readdir
func fileReaddir(f *os.File, k int) ([]os.FileInfo, error) {
	names, err := fileReaddirnames(f, k)
	var out []os.FileInfo
	for _, s := range names {
		out = append(out, &info{s, child(files[f].node, s)})
	}
	return out, err
}

//sx:replace (*os.File).ReadDir
func fileReadDir(f *os.File, k int) ([]os.DirEntry, error) {
	names, err := fileReaddirnames(f, k)
	var out []os.DirEntry
	for _, s := range names {
		out = append(out, &dirent{info{s, child(files[f].node, s)}})
	}
	return out, err
}

//sx:replace (*os.File).Name
func fileName(f *os.File) string { return files[f].name }

//sx:replace (*os.File).Fd
func fileFd(f *os.File) uintptr {
	if f == os.Stdin {
		return 0
	}
	if f == os.Stdout {
		return 1
	}
	return 2
}

//sx:replace (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	m := files[f]
	return &info{filepath.Base(m.name), m.node}, nil
}

//sx:replace (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	sx.Point()
	m := files[f]
	if m.closed {
		return 0, perr("read", m.name, fs.ErrClosed)
	}
	if !m.rd {
		return 0, perr("read", m.name, syscall.EBADF)
	}
	n := m.node
	switch n.kind {
	case kindDir:
		return 0, perr("read", m.name, syscall.EISDIR)
	case kindChar:
		return 0, io.EOF
	case kindPipe, kindFifo:
		for len(n.data) == 0 {
			if n.writers == 0 {
				return 0, io.EOF
			}
			if m.closed {
				return 0, perr("read", m.name, fs.ErrClosed)
			}
			sx.Await(&n.change, n.change)
		}
		sx.Acquire(&n.change)
		k := copy(b, n.data)
		n.data = append([]byte(nil), n.data[k:]...)
		n.change++
		return k, nil
	}
	if m.off >= len(n.data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	k := copy(b, n.data[m.off:])
	m.off += k
	return k, nil
}

//sx:replace (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	sx.Point()
	m := files[f]
	if m.closed {
		return 0, perr("write", m.name, fs.ErrClosed)
	}
	if !m.wr {
		return 0, perr("write", m.name, syscall.EBADF)
	}
	n := m.node
	if WriteFails && n.kind == kindFile {
		return 0, perr("write", m.name, syscall.ENOSPC)
	}
	switch n.kind {
	case kindChar:
		return len(b), nil
	case kindPipe, kindFifo:
		// Writes to the same file are made one after another.
		for m.busy > 0 {
			sx.Await(&m.busy, m.busy)
		}
		if m.closed {
			return 0, perr("write", m.name, fs.ErrClosed)
		}
		m.busy++
		defer func() { m.busy-- }()
		done := 0
		for {
			if n.readers == 0 {
				return done, perr("write", m.name, syscall.EPIPE)
			}
			if m.closed {
				return done, perr("write", m.name, fs.ErrClosed)
			}
			room := len(b) - done
			if PipeCap > 0 && len(n.data)+room > PipeCap {
				room = PipeCap - len(n.data)
			}
			sx.Release(&n.change)
			n.data = append(append([]byte(nil), n.data...), b[done:done+room]...)
			if room > 0 {
				n.change++
			}
			done += room
			if done == len(b) {
				return done, nil
			}
			sx.Await(&n.change, n.change)
		}
	}
	if m.flags&os.O_APPEND != 0 {
		m.off = len(n.data)
	}
	d := append([]byte(nil), n.data...)
	for len(d) < m.off {
		d = append(d, 0)
	}
	k := copy(d[m.off:], b)
	d = append(d, b[k:]...)
	n.data = d
	m.off += len(b)
	return len(b), nil
}

// PipeCap bounds the bytes a pipe holds (0: unbounded).
var PipeCap int

//sx:replace (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//sx:replace (*os.File).Sync
func fileSync(f *os.File) error { return nil }

//sx:replace (*os.File).Close
func fileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	sx.Point()
	m := files[f]
	if m.closed {
		return perr("close", m.name, fs.ErrClosed)
	}
	m.closed = true
	n := m.node
	if n.kind == kindPipe || n.kind == kindFifo {
		if m.rd {
			n.readers--
		}
		if m.wr {
			n.writers--
			sx.Release(&n.change)
		}
		n.change++
	}
	return nil
}

//sx:replace os.Pipe
func osPipe() (*os.File, *os.File, error) {
	n := newNode(kindPipe, 0o600, root)
	return attach(n, "|0", os.O_RDONLY), attach(n, "|1", os.O_WRONLY), nil
}

//sx:replace os.Getenv
func osGetenv(k string) string {
	v, _ := osLookupEnv(k)
	return v
}

//sx:replace os.LookupEnv
func osLookupEnv(k string) (string, bool) {
	for _, e := range env {
		if len(e) > len(k) && e[len(k)] == '=' && e[:len(k)] == k {
			return e[len(k)+1:], true
		}
	}
	return "", false
}

//sx:replace os.Setenv
func osSetenv(k, v string) error {
	osUnsetenv(k)
	env = append(env, k+"="+v)
	return nil
}

//sx:replace os.Unsetenv
func osUnsetenv(k string) error {
	var out []string
	for _, e := range env {
		if !(len(e) > len(k) && e[len(k)] == '=' && e[:len(k)] == k) {
			out = append(out, e)
		}
	}
	env = out
	return nil
}

//sx:replace os.Environ
func osEnviron() []string { return append([]string(nil), env...) }

//sx:replace os.Exit
func osExit(code int) {
	Exited, ExitCode = true, code
	sx.Log("exit")
	panic(Exit(code))
}

// Exit is the panic value that stands for the process ending.
type Exit int

//sx:replace os.IsNotExist
func osIsNotExist(err error) bool { return sx.Model_errors_Is(err, fs.ErrNotExist) }

//sx:replace (syscall.Errno).Error
func errnoError(e syscall.Errno) string {
	switch e {
	case syscall.ENOENT:
		return "no such file or directory"
	case syscall.EEXIST:
		return "file exists"
	case syscall.ENOTDIR:
		return "not a directory"
	case syscall.EISDIR:
		return "is a directory"
	case syscall.EACCES:
		return "permission denied"
	case syscall.EINVAL:
		return "invalid argument"
	case syscall.EPIPE:
		return "broken pipe"
	case syscall.ENOEXEC:
		return "exec format error"
	}
	return "errno"
}

// Text is what a file holds.
func (n *Node) Text() string { return string(n.data) }
