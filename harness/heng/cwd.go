package heng

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/list"
	"github.com/michaelmacinnis/oh/internal/common/type/pair"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/common/type/sym"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

func here() string {
	s, err := os.Getwd()
	if err != nil {
		panic(err.Error())
	}
	return s
}

func text(c cell.I) string { return common.String(c) }

// sameDir tells whether two paths name the same directory.
func sameDir(a, b string) bool {
	i, err := os.Stat(a)
	if err != nil {
		return false
	}
	j, err := os.Stat(b)
	return err == nil && os.SameFile(i, j)
}

// top makes a directory with
//
//	a/  a/b/  a/c d/  f  gone/  home/  l -> a/b  x (if bad: no permission)
func top() string {
	d, err := os.MkdirTemp("", "sx")
	if err != nil {
		panic(err.Error())
	}
	for _, n := range []string{"a", "a/b", "a/c d", "gone", "home"} {
		if err := os.Mkdir(d+"/"+n, 0o755); err != nil {
			panic(err.Error())
		}
	}
	if err := os.WriteFile(d+"/f", nil, 0o644); err != nil {
		panic(err.Error())
	}
	if err := os.Symlink("a/b", d+"/l"); err != nil {
		panic(err.Error())
	}
	return d
}

// Ways to name a directory. TOP stands for the top directory.
var dirArgs = []string{"a", "b", "..", "-", "TOP/a", "missing", "f", "l", "TOP/a/b/", ".", "a//../a", "gone", "TOP", "c d", "./a", "", "/", "~/a", "*b", "TOP/a/b/..", "../a"}

// Dirs checks that the working directory variables match the directory the
// process is in.
func Dirs() {
	d := top()
	start := here()
	defer os.RemoveAll(d)
	defer os.Chdir(start)
	m := machine()
	os.Chdir(d)
	m.S.Export("PWD", str.New(d))
	m.S.Export("OLDPWD", str.New(start))
	home := sx.Choice("home", 2) == 1
	if home {
		m.S.Export("HOME", str.New(d+"/home"))
		if err := os.Mkdir(d+"/home/a", 0o755); err != nil {
			panic(err.Error())
		}
	} else {
		outer.Remove("HOME")
	}
	get := func(k string) string { return text(m.must("resolve " + k + "\n")) }

	for n := 0; n < sx.Param("steps", 2); n++ {
		m.step(d, home, get)
	}
}

func (m *M) step(d string, home bool, get func(string) string) {
	was, pwd, old := here(), get("PWD"), get("OLDPWD")
	args := dirArgs
	if sx.Param("text", 0) > 0 {
		args = args[:1]
	}
	k := sx.Choice("arg", len(args)+1)
	arg := ""
	cmd := list.New(symbol("cd"))
	target, known := "", true
	if k == len(args) {
		target = d + "/home"
		if !home {
			target = ""
			known = false
		}
	} else {
		arg = strings.Replace(args[k], "TOP", d, 1)
		if n := sx.Param("text", 0); n > 0 {
			arg = sx.Str("dir", sx.Choice("length", n+1))
			for i := 0; i < len(arg); i++ {
				sx.Assume(sx.In(arg[i], "ab./-l"))
			}
		}
		switch arg {
		case "-":
			target = old
		default:
			target = arg
			if !strings.HasPrefix(arg, "/") {
				target = was + "/" + arg
			}
		}
		if arg == "gone" {
			os.Remove(d + "/gone")
		}
		quoted := sx.Choice("quoted", 2) == 1
		if strings.ContainsAny(arg, "~*") {
			// Expanded only when it is no string.
			if !quoted {
				if arg == "~/a" {
					target = d + "/home/a"
					known = home
				} else {
					ms, _ := filepath.Glob(pwd + "/" + arg)
					known = len(ms) == 1
					if known {
						target = ms[0]
					} else if len(ms) == 0 {
						return // an error, as for every command
					}
				}
			}
		}
		a := cell.I(sym.New(arg))
		if quoted {
			a = str.New(arg)
		}
		cmd = list.New(symbol("cd"), a)
		if sx.Param("named", 0) > 0 {
			if !strings.HasPrefix(arg, "/") && !strings.HasPrefix(arg, "./") && !strings.HasPrefix(arg, "../") {
				return
			}
			if i, err := os.Stat(target); err != nil || !i.IsDir() {
				return
			}
			cmd = list.New(a)
		}
	}
	// Going up from a symbolic link, or from what is no directory, leads to
	// different places in the shell's view and the system's.
	if strings.Contains(arg, "..") && (filepath.Clean(pwd) != was || !sameDir(target, filepath.Clean(target))) {
		known = false
	}
	if sx.Param("commands", 0) > 0 && sx.Choice("fault", 2) == 1 {
		mos.ChdirFails = true
		known = false
	}
	r := m.in(m.F, cmd)
	if mos.ChdirFails {
		sx.Assert(r == pair.Null, "a failed change of directory is said to succeed")
	}
	mos.ChdirFails = false
	_, bad := failed(r)
	sx.Assert(!bad, "changing directory raises an error")
	sx.Assert(r == pair.Null || r == sym.True, "changing directory answers neither true nor false")
	now := here()
	if r == pair.Null {
		sx.Reach("failed")
		sx.Assert(now == was, "a failed change of directory changes it")
		sx.Assert(get("PWD") == pwd && get("OLDPWD") == old, "a failed change of directory changes a variable")
		if known {
			i, err := os.Stat(target)
			sx.Assert(err != nil || !i.IsDir(), "changing to a directory fails")
		}
		return
	}
	sx.Reach("changed")
	sx.Assert(filepath.IsAbs(get("PWD")), "PWD is no absolute path")
	sx.Assert(sameDir(get("PWD"), "."), "PWD is not the working directory")
	sx.Assert(get("OLDPWD") == pwd, "OLDPWD is not the previous directory")
	if known {
		sx.Assert(sameDir(target, "."), "the wrong directory is entered")
	}
	if k == len(args) {
		sx.Reach("home")
	}
	if sx.Param("commands", 0) > 0 {
		// External commands start there.
		n := len(mos.Procs)
		os.MkdirAll("/bin", 0o755)
		os.WriteFile("/bin/prog", nil, 0o755)
		mos.Program = func(p *mos.Proc) int { return 0 }
		m.start(list.New(symbol("prog")))
		sx.Assert(len(mos.Procs) == n+1, "an external command is not run")
		p := mos.Procs[n]
		sx.Assert(p.Dir == "" || sameDir(p.Dir, "."), "an external command starts in another directory")
		sx.Reach("command")
	}
}

// DirScopes checks that the variables still match the directory after the
// scope that changed it ends.
func DirScopes() {
	d := top()
	start := here()
	defer os.RemoveAll(d)
	defer os.Chdir(start)
	m := machine()
	os.Chdir(d)
	m.S.Export("PWD", str.New(d))
	m.S.Export("OLDPWD", str.New(start))
	m.def("dir", str.New(d+"/a"))
	m.must([]string{"block {\n cd $dir\n}\n", "if true {\n cd $dir\n}\n", "define m: method () {\n cd $dir\n}\nm\n"}[sx.Choice("scope", 3)])
	sx.Reach("scope")
	sx.Assert(sameDir(text(m.must("resolve PWD\n")), "."), "PWD is not the working directory after the scope that changed it ends")
}
