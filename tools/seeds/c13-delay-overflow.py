property='C13'
pkg=''
needs='a timer longer than about 71 minutes'
breaks='a long delay wraps, so that the timer fires early'
edits=[
('timer.go',
 '\t\tnow.Add(time.Millisecond * time.Duration(delayMs)),',
 '\t\tnow.Add(time.Microsecond * time.Duration(delayMs*1000)),'),
]
demo=r"""package mint

import (
	"testing"
	"time"
)

func TestVfDemo(t *testing.T) {
	ts := newTimerSet()
	fired := false
	ts.start("a", func() error { fired = true; return nil }, 4300000)
	ts.check(time.Now().Add(time.Hour))
	if fired {
		t.Fatal("a timer of 71 minutes fired within the hour")
	}
}
"""
