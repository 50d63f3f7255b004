L = "internal/reader/lexer/lexer.go"
PR = "internal/reader/parser/parser.go"
A = "internal/engine/task/action.go"
TK = "internal/engine/task/task.go"
J = "internal/system/job/job_unix.go"
B = "internal/engine/boot/boot.oh"
C = "internal/engine/commands/"
T = "internal/common/type/"
ST = "internal/common/struct/"

S("C01-comment-backslash", "C01", [(L, """			l.emit('\\n', l.Text())

			return skipWhitespace

		default: // Continue and get next character.
""", """			l.emit('\\n', l.Text())

			return skipWhitespace

		case '\\\\':
			l.next()

		default: // Continue and get next character.
""")],
  "a comment that ends with a backslash", "the line after such a comment becomes part of it",
  oh=("write-line one # see C:\\\nwrite-line two\n", "one\ntwo\nexit 0\n"))

S("C02-append-split", "C02", [(L, """func afterDoubleGreaterThan(l *T) action {
	r, w := l.peek()

	l.expected = []string{" ", "& "}

	switch r {
	case eof:
		return nil
	case '&':""", """func afterDoubleGreaterThan(l *T) action {
	r, w := l.peek()

	l.expected = []string{" ", "& "}

	switch r {
	case '&':""")],
  "a piece of input that ends inside the operator >>&", "the operator is read as two when the input is divided inside it",
  go=("internal/reader/lexer", '''package lexer

import "testing"

func TestDemo(t *testing.T) {
	l := New("x")
	s := ""
	for _, p := range []string{"a >>", "& b\\n"} {
		l.Scan(p)
		for k := l.Token(); k != nil; k = l.Token() {
			s += k.Value() + "|"
		}
	}
	l = New("x")
	w := ""
	l.Scan("a >>& b\\n")
	for k := l.Token(); k != nil; k = l.Token() {
		w += k.Value() + "|"
	}
	if s != w {
		t.Fatal(s, w)
	}
}
'''))

S("C03-quote-lines", "C03", [(L, """func scanSingleQuoted(l *T) action {
	for {
""", """func scanSingleQuoted(l *T) action {
	// Everything up to the closing quote is taken as it is.
	if n := strings.IndexByte(l.bytes[l.index:], '\\''); n > 0 {
		l.runes += utf8.RuneCountInString(l.bytes[l.index : l.index+n])
		l.index += n
	}

	for {
""")],
  "a single-quoted string that spans lines and is read at once, with an error after it", "lines inside such strings are not counted",
  go=("internal/reader/lexer", '''package lexer

import "testing"

func TestDemo(t *testing.T) {
	l := New("x")
	l.Scan("a 'b\\nc' d\\ne\\n")
	line := 0
	for k := l.Token(); k != nil; k = l.Token() {
		if k.Value() == "e" {
			line = k.Source().Line
		}
	}
	if line != 3 {
		t.Fatal(line)
	}
}
'''))

S("C04-brace-lenient", "C04", [(PR, """			c = pair.Cons(c, pair.Null)

			p.expect('}')
		}""", """			c = pair.Cons(c, pair.Null)

			if p.peek().Is('}') {
				p.consume()
			}
		}""")],
  "a reference in braces whose closing brace is missing", "text that is not well-formed is accepted",
  oh=("define x 1\nwrite-line ${x y\nwrite-line z\n", None))

S("C14-clone-empty", "C14", [(T+"env/env.go", """	return &env{
		previous: e.previous,
		private:  e.private.Copy(),
		public:   e.public.Copy(),
	}
""", """	public := e.public
	if public.Size() > 0 {
		public = public.Copy()
	}

	return &env{
		previous: e.previous,
		private:  e.private.Copy(),
		public:   public,
	}
""")],
  "an object with no exported names that is copied, and then given some", "the copy shares its exported names with the original",
  go=("internal/common/type/env", '''package env

import (
	"testing"

	"github.com/michaelmacinnis/oh/internal/common/type/str"
)

func TestDemo(t *testing.T) {
	o := New(nil)
	p := o.Clone()
	p.Export("y", str.New("2"))
	if o.Lookup("y") != nil {
		t.Fatal("shared")
	}
}
'''))

S("C15-unset-private", "C15", [(T+"obj/obj.go", "	return o.wrapped.Public().Del(k)", "	return o.wrapped.Remove(k)")],
  "unset, through an object, of a name private in it", "private names can be removed from outside",
  oh=("define o: object {\n    export drop $unset\n    export fetch $get\n    define x 1\n    export get-x: method () {\n        return $x\n    }\n}\no drop x\nwrite-line (o get-x)\n", None))

S("C16-enclosing", "C16", [(ST+"frame/frame.go", """		for s = f.scope; s != nil; s = s.Enclosing() {
			r = s.Public().Get(k)
			if r != nil {
				return
			}
		}
""", """		for s = f.scope; s != nil; s = s.Enclosing() {
			r = s.Public().Get(k)
			if r != nil {
				return
			}

			if s.Exported() > 0 {
				// These are the exports the caller sees.
				break
			}
		}
""")],
  "a caller with exports in two of its scopes and a method that uses one of the outer", "exports in the outer scopes of a caller are not seen",
  oh=("define o: object {\n    export show: method () {\n        write-line $far $near\n    }\n}\nblock {\n    export far 1\n    block {\n        export near 2\n        o show\n    }\n}\n", None))

S("C19-rethrow", "C19", [(B, "    defn append (list export throw (list resolve throw))\n", "")],
  "a handler that itself fails", "a failing handler is run again and again instead of passing the error on",
  sh='''go build -o "$tmp/oh" . || exit 9
cd "$tmp"
printf 'define bad: method () {\\n    throw again\\n}\\ndefine f: method () {\\n    catch ex {\\n        set count: add $count 1\\n        lt? $count 4 && bad\\n        return stuck\\n    }\\n    throw first\\n}\\ndefine count 0\\ndefine g: method () {\\n    catch ex {\\n        return outer\\n    }\\n    f\\n}\\nwrite-line (g) $count\\n' > demo.oh
HOME=$tmp timeout -k 5 60 ./oh demo.oh > out 2>&1 < /dev/null
grep -qx "outer 1" out || { cat out; exit 1; }
''')

S("C20-blank-args", "C20", [(A, """		argv = append(argv, common.String(pair.Car(args)))
	}

	dir""", """		s := common.String(pair.Car(args))
		if s == "" && pair.Cdr(args) == pair.Null {
			// Nothing to pass on.
			break
		}

		argv = append(argv, s)
	}

	dir""")],
  "an empty string as the last argument of an external command", "an empty last argument is dropped",
  sh='''go build -o "$tmp/oh" . || exit 9
cd "$tmp"
printf '#!/bin/sh\\necho $#\\n' > count
chmod +x count
printf './count a %s\\n./count a b\\n' "''" > demo.oh
HOME=$tmp timeout -k 5 60 ./oh demo.oh > out 2>&1 < /dev/null
printf '2\\n2\\n' | diff - out
''')

S("C27-oldpwd", "C27", [(TK, """		t.frame.Scope().Export("PWD", sym.New(s))
		t.frame.Scope().Export("OLDPWD", oldwd)
""", """		t.frame.Scope().Export("PWD", sym.New(s))

		if s != wd {
			t.frame.Scope().Export("OLDPWD", oldwd)
		}
""")],
  "changing to the directory one is in, and then back with -", "OLDPWD is not the previous directory after changing to the same one",
  oh=("mkdir a b\ncd a\ncd $PWD\ncd -\nwrite-line (eq? $PWD $OLDPWD)\n", None))

S("C28-rel-clean", "C28", [(TK, """				rel, err := filepath.Rel(pwd, v)
				if err == nil {
					v = rel
				}
""", """				v = strings.TrimPrefix(v, pwd+string(os.PathSeparator))
""")],
  "a pattern in the root directory, or with .. in it", "names generated by a pattern keep the directory",
  sh='''go build -o "$tmp/oh" . || exit 9
mkdir "$tmp/w" "$tmp/w/in"
touch "$tmp/w/xa"
cd "$tmp/w/in"
printf 'for (glob ../x*) (method (x) {\\n    write-line $x\\n})\\n' > "$tmp/demo.oh"
HOME=$tmp timeout -k 5 60 "$tmp/oh" "$tmp/demo.oh" > "$tmp/out" 2>&1 < /dev/null
echo "../xa" | diff - "$tmp/out"
''')

S("C32-size-unlocked", "C32", [(ST+"hash/hash.go", """func (h *hash) Size() int {
	h.RLock()
	defer h.RUnlock()

	return""", """func (h *hash) Size() int {
	return""")],
  "a task that exports a name while another calls a method", "the number of names is read without holding the lock",
  go=("internal/common/struct/hash", '''package hash

import (
	"testing"

	"github.com/michaelmacinnis/oh/internal/common/type/pair"
)

func TestDemo(t *testing.T) {
	h := New()
	done := make(chan bool)
	go func() {
		for i := 0; i < 1000; i++ {
			h.Set(string(rune('a'+i%26)), pair.Null)
		}
		close(done)
	}()
	n := 0
	for i := 0; i < 1000; i++ {
		n += h.Size()
	}
	<-done
}
'''), flags="-race")

S("C33-rescan", "C33", [(A, """		return common.String(t.resolve(s, name))
	}
""", """		v := common.String(t.resolve(s, name))
		if strings.HasPrefix(v, "$") && len(v) > 1 {
			// A reference to another variable.
			if r := t.value(s, v[1:]); r != nil {
				return common.String(r)
			}
		}

		return v
	}
""")],
  "a variable whose value is a dollar sign and the name of another", "values put in are looked at again",
  oh=("define price 5\ndefine label '$price'\nwrite-line \"label: ${label}\"\n", None))

S("C34-default-count", "C34", [(J, """		if n == 0 {
			n = jobNumbers()[len(jobs)-1]
		}

		j, found := jobs[n]
		if !found {
			close(r)

			return
		}

		wgs""", """		if n == 0 {
			n = len(jobs)
		}

		j, found := jobs[n]
		if !found {
			close(r)

			return
		}

		wgs""")],
  "three stopped jobs, the first of which is continued by number, and then fg without one", "fg without a number takes the wrong job when numbers are not consecutive",
  sh='''cat > "$tmp/drive.py" <<'X'
import os, pty, sys, time, select, re
pid, fd = pty.fork()
if pid == 0:
    os.environ["TERM"] = "dumb"
    os.chdir(sys.argv[2])
    os.environ["HOME"] = sys.argv[2]
    os.execv(sys.argv[1], [sys.argv[1]])
out = b""
def pump(t):
    global out
    end = time.time() + t
    while time.time() < end:
        r, _, _ = select.select([fd], [], [], 0.05)
        if r:
            try: out += os.read(fd, 4096)
            except OSError: return
def send(s, t): 
    os.write(fd, s); pump(t)
pump(2)
for n in (61, 62, 63):
    send(b"sleep %d\\r" % n, 1.0); send(b"\\x1a", 1.0)
send(b"bg 1\\r", 1.0)
mark = len(out)
send(b"fg\\r", 1.0)
send(b"\\x03", 1.0)
text = out[mark:].decode("utf8", "replace")
os.system("pkill -9 -s %d" % os.getsid(pid) if False else "kill -9 %d 2>/dev/null" % pid)
sys.exit(0 if "sleep 63" in text else 1)
X
go build -o "$tmp/oh" . || exit 9
timeout -k 5 60 python3 "$tmp/drive.py" "$tmp/oh" "$tmp"
rc=$?
pkill -x -f 'sleep 6[123]' 2>/dev/null
exit $rc
''')

S("C35-tab-lexer", "C35", [("main.go", "		lc := (*r).Lexer().Copy()\n", "		lc := (*r).Lexer()\n")],
  "a request for completion while a line is entered", "what was completed is entered as well",
  sh='''cat > "$tmp/drive.py" <<'X'
import os, pty, sys, time, select
pid, fd = pty.fork()
if pid == 0:
    os.environ["TERM"] = "xterm"
    os.chdir(sys.argv[2])
    os.environ["HOME"] = sys.argv[2]
    os.execv(sys.argv[1], [sys.argv[1]])
import fcntl, struct, termios
fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", 24, 80, 0, 0))
out = b""
def pump(t):
    global out
    end = time.time() + t
    while time.time() < end:
        r, _, _ = select.select([fd], [], [], 0.05)
        if r:
            try: out += os.read(fd, 4096)
            except OSError: return
def send(s, t): 
    os.write(fd, s); pump(t)
pump(2)
send(b"write-line zz\\t", 2)
send(b"\\x15", 0.5)
mark = len(out)
send(b"write-line ab\\r", 2)
import re
text = re.sub("\x1b\\\\[[0-9;?]*[a-zA-Z]", "", out[mark:].decode("utf8", "replace")).replace("\\r", "\\n")
os.system("kill -9 %d 2>/dev/null" % pid)
sys.exit(0 if "\\nab\\n" in text else 1)
X
go build -o "$tmp/oh" . || exit 9
timeout -k 5 60 python3 "$tmp/drive.py" "$tmp/oh" "$tmp"
''')

S("C36-options", "C36", [("internal/system/options/options.go", "	docopt.DefaultParser.OptionsFirst = true\n\n", "")],
  "an argument of a script that looks like an option of the shell", "the shell takes options meant for the script",
  sh='''go build -o "$tmp/oh" . || exit 9
cd "$tmp"
printf 'write-line (splice $@)\\n' > demo.oh
HOME=$tmp timeout -k 5 60 ./oh demo.oh -v -i > out 2>&1 < /dev/null
echo "-v -i" | diff - out
''')
