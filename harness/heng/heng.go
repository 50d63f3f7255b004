package heng

import (
	"github.com/michaelmacinnis/oh/internal/common"
	"github.com/michaelmacinnis/oh/internal/zzverif/sx"
)

// Hello checks the machinery itself.
func Hello() {
	m := machine()
	s := common.String(m.must("define x 3\nadd $x 4\n"))
	sx.Assert(s == "7", "7 got "+s)
	_, msg, bad := m.eval("nosuch 1\n")
	sx.Log(msg)
	sx.Assert(bad, "no error")
	sx.Reach("hello")
}
