package heng

import (
	"os"

	"github.com/michaelmacinnis/oh/internal/common/interface/cell"
	"github.com/michaelmacinnis/oh/internal/common/type/str"
	"github.com/michaelmacinnis/oh/internal/engine"
	"github.com/michaelmacinnis/oh/internal/system/job"
	"github.com/michaelmacinnis/oh/internal/zzverif/mos"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Commands that use what tasks share.
var sharing = []string{
	"set v: quote 2",
	"define v 3",
	"export v 4",
	"unset v",
	"get v",
	"set v $v",
	"f $v",
	"g $v",
	"o m",
	"o set e 5",
	"o get e",
	"o export e 6",
	"o unset e",
	"define z: o clone\nz set e 7",
	"set w: add $v 1",
	"block {\n define v 8\n f $v\n}",
	"interpolate \"${v}\"",
	"spawn {\n set v 9\n}",
	"capture (write-line $v)",
	"write-line $v | read-line",
	"prog $v",
	"resolve v",
	"set? v",
	"c write $v\nc read",
	"mp set $v 1\nmp get $v",
	"symbol ab\nsymbol \"a$v\"",
	"while (lt? $v 2) {\n set v: add $v 1\n}",
}

// Together checks that commands evaluated at the same time, as when a job
// continues in the background, can share variables, objects, methods and
// conduits.
func Together() {
	sx.Enter()
	os.MkdirAll("/bin", 0o755)
	os.WriteFile("/bin/prog", nil, 0o755)
	mos.Program = func(p *mos.Proc) int { return 0 }
	global.Export("PATH", str.New("/bin"))
	for _, src := range []string{
		"define v 1\n",
		"define w 1\n",
		"define f: method (a) {\n define b $a\n catch ex {\n return 1\n}\n set b: list $b $v\n return $b\n}\n",
		"define g: syntax (a) e {\n return (e eval $a)\n}\n",
		"define o: object {\n export e 1\n export m: method s () {\n set e: quote 2\n return $e\n}\n}\n",
		"define c: chan 5\n",
		"define mp: map\n",
		"export stdout: open w /dev/null\n",
	} {
		run(src)
	}
	all := sharing
	if k := sx.Param("commands", 0); k > 0 {
		all = all[:k]
	}
	n := sx.Param("tasks", 2)
	cs := make([]cell.I, n)
	first := 0
	for i := range cs {
		first += sx.Choice("command", len(all)-first)
		if k := sx.Param("pair", 0); k > 0 {
			sx.Assume(first == []int{k % 100, k / 100}[i%2])
		}
		cs[i] = parse("(method () {\n catch ex {\n return failed\n}\n" + all[first] + "\n})\n")[0]
	}
	done := make(chan int, n)
	for i := range cs {
		go func(c cell.I) {
			engine.System(job.New(0), c)
			done <- 1
		}(cs[i])
	}
	sx.Leave()
	for range cs {
		<-done
	}
	if r := global.Lookup("v"); r != nil {
		ok := false
		for _, s := range []string{"1", "2", "3", "4", "9"} {
			ok = ok || text(r.Get()) == s
		}
		sx.Assert(ok, "a variable has a value that no task stored in it: "+text(r.Get()))
	}
	sx.Reach("done")
}
