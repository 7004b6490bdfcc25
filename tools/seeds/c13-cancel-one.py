property='C13'
pkg=''
needs='two pending timers with the same label'
breaks='cancelling a label leaves its second timer running'
edits=[
('timer.go',
 '\t\tif t.label == label {\n\t\t\tt.cancel()\n\t\t}',
 '\t\tif t.label == label && t.cb != nil {\n\t\t\tt.cancel()\n\t\t\treturn\n\t\t}'),
]
demo=r"""package mint

import (
	"testing"
	"time"
)

func TestVfDemo(t *testing.T) {
	ts := newTimerSet()
	n := 0
	cb := func() error { n++; return nil }
	ts.start("a", cb, 10)
	ts.start("a", cb, 20)
	ts.cancel("a")
	ts.check(time.Now().Add(time.Hour))
	if n != 0 {
		t.Fatal("a cancelled timer fired")
	}
}
"""
