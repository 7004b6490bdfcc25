property='C31'
pkg=''
needs='two goroutines writing, one of them more than one record'
breaks='the records of concurrent writes are interleaved, because the lock is taken for each record'
edits=[
('conn.go',
 '\t// Lock the output channel\n\tc.out.Lock()\n\tdefer c.out.Unlock()\n\n\tif !c.Writable()',
 '\twrite := func(pt *TLSPlaintext) error {\n\t\t// Lock the output channel\n\t\tc.out.Lock()\n\t\tdefer c.out.Unlock()\n\t\treturn c.out.WriteRecord(pt)\n\t}\n\n\tif !c.Writable()'),
('conn.go',
 '\t\terr := c.out.WriteRecord(&TLSPlaintext{\n\t\t\tcontentType: RecordTypeApplicationData,\n\t\t\tfragment:    buffer[start : start+maxFragmentLen],',
 '\t\terr := write(&TLSPlaintext{\n\t\t\tcontentType: RecordTypeApplicationData,\n\t\t\tfragment:    buffer[start : start+maxFragmentLen],'),
('conn.go',
 '\t\terr := c.out.WriteRecord(&TLSPlaintext{\n\t\t\tcontentType: RecordTypeApplicationData,\n\t\t\tfragment:    buffer[start:],',
 '\t\terr := write(&TLSPlaintext{\n\t\t\tcontentType: RecordTypeApplicationData,\n\t\t\tfragment:    buffer[start:],'),
]
demo=r"""package mint

import (
	"testing"
	"time"
)

type vfSlow struct {
	*pipeConn
	slow    bool
	first   chan bool
	goOn    chan bool
}

func (f *vfSlow) Write(b []byte) (int, error) {
	n, err := f.pipeConn.Write(b)
	if f.slow {
		f.slow = false
		f.first <- true
		select {
		case <-f.goOn:
		case <-time.After(500 * time.Millisecond):
		}
	}
	return n, err
}

func TestVfDemo(t *testing.T) {
	c, s := pipe()
	f := &vfSlow{pipeConn: c, first: make(chan bool), goOn: make(chan bool, 10)}
	client, server := Client(f, nbConfig.Clone()), Server(s, nbConfig.Clone())
	vfDemoRun(client, server, func(int) {})
	if !vfDemoBoth(client, server) {
		t.Fatal("no connection")
	}
	const n = 8*maxFragmentLen
	f.slow = true
	done := make(chan bool)
	data := make([]byte, n)
	go func() {
		client.Write(data)
		done <- true
	}()
	<-f.first
	go func() {
		for i := 0; i < 3; i++ {
			client.Write([]byte{1})
		}
		done <- true
	}()
	<-done
	<-done
	zeros := 0
	for i := 0; i < 100; i++ {
		b := make([]byte, n)
		k, _ := server.Read(b)
		for _, x := range b[:k] {
			if x == 1 && zeros > 0 && zeros < n {
				t.Fatal("a write was interrupted by another after", zeros)
			}
			if x == 0 {
				zeros++
			}
		}
	}
}
"""+__import__('vfhelp').PAIR
