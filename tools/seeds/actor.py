S("mpsc-no-resignal", "C01", [("lib/mpsc/mpsc.go", "	if count > 0 {\n		select {", "	// a pop never produces work, only a push has somebody to wake\n	if delta > 0 {\n		select {")], "lib/mpsc", """
package mpsc

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	q := New()
	for i := 0; i < 5; i++ {
		q.Push(i)
	}
	for i := 0; i < 5; i++ {
		select {
		case <-q.C:
			if v := q.Pop(); v != i {
				t.Fatalf("popped %v, want %v", v, i)
			}
		case <-time.After(2 * time.Second):
			t.Fatalf("consumer sleeps with %d values queued", q.Count())
		}
	}
}
""", "several values pushed before the consumer wakes up once", "the consumer sleeps while values are queued: a pop that leaves values behind no longer signals")

S("wg-done-order", "C02", [("lib/warpwaitgroup/warpwaitgroup.go", "	atomic.AddInt32(&w.counter, -1)\n	w.wg.Done()", "	w.wg.Done()\n	atomic.AddInt32(&w.counter, -1)")], "lib/warpwaitgroup", """
package warpwaitgroup

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	var stop int32
	bad := make(chan int32, 64)
	done := make(chan struct{})
	for g := 0; g < 16; g++ {
		go func() {
			for atomic.LoadInt32(&stop) == 0 {
				w := &WrapWaitGroup{}
				w.Add(1)
				ready := make(chan struct{})
				go func() { close(ready); w.Done() }()
				<-ready
				w.Wait()
				if n := w.Count(); n != 0 {
					select {
					case bad <- n:
					default:
					}
				}
			}
			done <- struct{}{}
		}()
	}
	select {
	case n := <-bad:
		atomic.StoreInt32(&stop, 1)
		t.Fatalf("released waiter still sees %d pending", n)
	case <-time.After(8 * time.Second):
		atomic.StoreInt32(&stop, 1)
	}
	for g := 0; g < 16; g++ {
		<-done
	}
}
""", "a waiter that runs between the release of the waiters and the decrement of the counter", "a call that has completed still shows pending work in its group, so the system takes it for a nested call")

S("chain-after-error", "C06", [("core/actor/actor_chain.go", "	for _, after := range c.After {\n		err = after(mw)\n		if err != nil {\n			goto ext\n		}\n	}", "	for _, after := range c.After {\n		if err := after(mw); err != nil {\n			break\n		}\n	}")], "core/actor", """
package actor

import (
	"errors"
	"testing"

	"github.com/pojol/braid/router/msg"
)

func TestDemo(t *testing.T) {
	boom := errors.New("boom")
	n := 0
	c := &DefaultChain{
		Handler: func(*msg.Wrapper) error { n++; return nil },
		After: []EventHandler{
			func(*msg.Wrapper) error { n++; return boom },
			func(*msg.Wrapper) error { n++; return nil },
		},
	}
	if err := c.Execute(&msg.Wrapper{}); err != boom {
		t.Fatalf("got %v", err)
	}
	if n != 2 {
		t.Fatalf("%d elements ran", n)
	}
}
""", "an after-middleware that fails", "the error of an after-middleware is swallowed, the chain reports success")

FAKE = """
package actor

import (
	"context"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/warpwaitgroup"
	"github.com/pojol/braid/router/msg"
)

var _ = time.Second
var _ = context.TODO
var _ = testing.Short
var _ = warpwaitgroup.WrapWaitGroup{}

type fakeSys struct {
	core.ISystem
	call func(mw *msg.Wrapper) error
}

func (s *fakeSys) Call(id, ty, ev string, mw *msg.Wrapper) error { return s.call(mw) }
"""
S("prev-type-once", "C11", [("core/actor/actor_runtime_impl.go", """		mw.Req.Header.OrgActorType = a.Ty
	}

	// Updated to the latest value on each call
	mw.Req.Header.PrevActorType = a.Ty

""", """		mw.Req.Header.OrgActorType = a.Ty
		mw.Req.Header.PrevActorType = a.Ty
	}

""")], "core/actor", FAKE + """
func TestDemo(t *testing.T) {
	for _, org := range []string{"", "client"} {
		got := ""
		a := &Runtime{Id: "b", Ty: "B", Sys: &fakeSys{call: func(mw *msg.Wrapper) error { got = mw.Req.Header.PrevActorType; return nil }}}
		mw := msg.NewBuilder(context.TODO()).Build()
		mw.Req.Header.OrgActorID = org
		mw.Req.Header.PrevActorType = "A"
		a.Call("c", "C", "ev", mw)
		if got != "B" {
			t.Fatalf("origin %q: previous hop %q", org, got)
		}
	}
}
""", "a message relayed through a second actor", "the previous hop of a relayed message stays the first actor's type")

S("reenter-error-lost", "C09", [("core/actor/actor_runtime_impl.go", """				if mw.Err != nil {
					rmw.Err = mw.Err
					reenterFuture.Complete(rmw)
					return mw.Err
				}
""", """				if mw.Err != nil {
					return mw.Err
				}
""")], "core/actor", FAKE + """
func TestDemo(t *testing.T) {
	a := &Runtime{Id: "b", Ty: "B", Sys: &fakeSys{call: func(mw *msg.Wrapper) error { return context.Canceled }}}
	a.Init(context.TODO())
	got := make(chan error, 1)
	ctx, cancel := context.WithTimeout(context.TODO(), time.Minute)
	defer cancel()
	a.ReenterCall("c", "C", "ev", msg.NewBuilder(ctx).Build()).Then(func(mw *msg.Wrapper) { got <- mw.Err })
	select {
	case err := <-got:
		if err == nil {
			t.Fatal("failure reported as success")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("future of a failed call never completes")
	}
}
""", "a reentrant call whose target cannot be called", "the future of a failed reentrant call is never completed")

S("future-callback-locked", "C08", [("core/actor/actor_reenter_impl.go", "		go callback(f.result)\n", "		callback(f.result)\n")], "core/actor", FAKE + """
func TestDemo(t *testing.T) {
	f := NewFuture()
	done := make(chan struct{})
	f.Then(func(mw *msg.Wrapper) {
		f.Then(func(mw *msg.Wrapper) { close(done) })
	})
	go f.Complete(&msg.Wrapper{})
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("callback that uses its own future deadlocks")
	}
}
""", "a callback that adds another callback to the future it was called from", "callbacks run while the future's lock is held")
