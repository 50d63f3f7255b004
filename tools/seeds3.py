A = "internal/engine/task/action.go"
J = "internal/system/job/job_unix.go"
T = "internal/common/type/"

S("C08-low-bits", "C08", [(T + "num/num.go", "	return n.Rat().Cmp(&big.Rat{}) != 0\n", "	return n.Rat().Num().Int64() != 0\n")],
  "a number whose numerator is a multiple of two to the 64th", "the number counts as false",
  oh=("if (add 18446744073709551615 1) {\n    write-line true\n} else {\n    write-line false\n}\n", None))

S("C17-while-scope", "C17", [(A, """func evalWhile(t *T) Op {
	t.ReplaceOp(&registers{frame: t.frame})

	t.frame = frame.Dup(env.New(t.frame.Scope()), t.frame)

""", """func evalWhile(t *T) Op {
	t.ReplaceOp(&registers{frame: t.frame})

""")],
  "a definition in the condition of a while with the name of an outer variable", "the outer variable is replaced",
  oh=("define x before\nwhile (define x ()) {\n    write-line never\n}\nwrite-line $x\n", None))

S("C18-too-many", "C18", [(A, "	} else if actual != expected {\n", "	} else if actual < expected {\n")],
  "a call with more arguments than parameters", "the method runs without the extra arguments",
  oh=("define m: method (a) {\n    write-line $a\n}\nm one two\n", None))

S("C21-sticky", "C21", [(A, "m&(os.ModeDevice|os.ModeCharDevice) > 0", "m&^os.ModePerm != 0")],
  "an existing file with the sticky, setuid or setgid bit", "the file is overwritten without the clobber form",
  sh='''go build -o "$tmp/oh" . || exit 9
cd "$tmp"
echo keep > f
chmod 1644 f
printf 'write-line gone > f\\n' > demo.oh
HOME=$tmp timeout -k 5 60 ./oh demo.oh > out 2>&1 < /dev/null
[ "$(cat f)" = keep ]
''')

S("C23-return", "C23", [(T + "pipe/pipe.go", '	return str.New(strings.TrimRight(s, "\\n"))\n', '	return str.New(strings.TrimRight(s, "\\r\\n"))\n')],
  "a line that ends with a carriage return", "the line loses it",
  oh=("define p: pipe\np write-line $'ab\\r'\ndefine l: p read-line\nwrite-line (equal? $l $'ab\\r')\n", None))

S("C24-stop-waiting", "C24", [("internal/engine/task/state.go", """	if !s.running {
		// Stopped running before we got here.
""", """	if !s.running && !s.waiting {
		// Stopped running before we got here.
""")],
  "a stop for a task that is waiting and has been stopped already, and then continued", "the task never runs again",
  go=("internal/engine/task", '''package task

import "testing"

func TestDemo(t *testing.T) {
	s := fresh()
	if !s.Started() {
		t.Fatal("not started")
	}
	s.Wait()
	s.Stop(nil)
	if s.Runnable() {
		t.Fatal("not stopped")
	}
	s.Stopped()
	s.Stop(nil) // It is not running: this has no effect.
	if !s.Started() {
		t.Fatal("not continued")
	}
}
'''))

S("C25-first-done", "C25", [(J, """			if _, found := parent[t]; !found {
				continue
			}
""", """			if _, found := parent[t]; !found {
				break
			}
""")],
  "waiting for a task that has ended and, after it, one that has not", "the wait does not wait",
  oh=("define a: spawn {\n    true\n}\nwait $a\ndefine go: chan 1\ndefine n 0\ndefine b: spawn {\n    sleep 1\n    set n 1\n}\nwait $a $b\nwrite-line $n\n", None))

S("C29-last", "C29", [("main.go", "			s := strings.Index(p, candidate) + len(candidate)\n", "			s := strings.LastIndex(p, candidate) + len(candidate)\n")],
  "completing a path in the root directory", "the names of directories there are not completed",
  sh='''cat > "$tmp/zz_demo_test.go" <<'X'
package main

import "testing"

func TestDemo(t *testing.T) {
	cached := func(string) []string { return []string{"/tmp/", "/file"} }
	cs := matches(cached, []string{"/"}, "/")
	if len(cs) != 2 || cs[0] != "/tmp/" || cs[1] != "/file" {
		t.Fatal(cs)
	}
}
X
printf '{"Replace":{"%s":"%s"}}' "$repo/zz_demo_test.go" "$tmp/zz_demo_test.go" > "$tmp/overlay.json"
cd "$tmp"
TMPDIR=$tmp timeout -k 5 250 go test -C "$repo" -count=1 -vet=off -timeout 120s -overlay "$tmp/overlay.json" -run 'TestDemo$' .
''')

S("C31-large", "C31", [("internal/common/interface/integer/integer.go", """			if bi.IsInt64() {
				return bi.Int64()
			}
""", """			return bi.Int64()
""")],
  "exit with a number that takes more than 64 bits", "the shell exits with some of its bits",
  oh=("exit 18446744073709551619\n", None))
