# later additions: exit, single loop, timers, traces, error codes, helpers, missing values
ACT = """
package actor

import (
	"context"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

var _ = atomic.AddInt32
var _ = msg.NewBuilder
var _ core.ISystem
var _ = context.TODO
var _ = time.Now
"""
S("actor-accepts-while-draining", "C05", [("core/actor/actor_runtime_impl.go", "	if atomic.LoadInt32(&a.closed) != 0 {\n		// Actor已关闭，不处理消息，也不增加计数器\n", "	if atomic.LoadInt32(&a.closed) != 0 && a.q.Count() == 0 {\n		// Actor已关闭，不处理消息，也不增加计数器\n")], "core/actor", ACT + """
func TestDemo(t *testing.T) {
	a := &Runtime{Id: "b", Ty: "B"}
	a.Init(context.TODO())
	gate := make(chan struct{})
	a.OnEvent("ev", func(ctx core.ActorContext) core.IChain {
		return &DefaultChain{Handler: func(mw *msg.Wrapper) error { <-gate; return nil }}
	})
	send := func() error {
		mw := msg.NewBuilder(context.TODO()).Build()
		mw.Req.Header.Event = "ev"
		return a.Received(mw)
	}
	for i := 0; i < 4; i++ {
		if err := send(); err != nil {
			t.Fatal(err)
		}
	}
	go a.Exit()
	for i := 0; i < 200 && atomic.LoadInt32(&a.closed) == 0; i++ {
		time.Sleep(5 * time.Millisecond)
		if i == 20 {
			gate <- struct{}{} // the loop has to come around to see the request
		}
		if i > 20 {
			select {
			case gate <- struct{}{}:
			default:
			}
			if a.q.Count() <= 1 {
				break
			}
		}
	}
	if atomic.LoadInt32(&a.closed) == 0 {
		close(gate)
		t.Skip("the loop never saw the request while messages were left")
	}
	err := send()
	left := a.q.Count()
	close(gate)
	if err == nil {
		t.Fatalf("an exiting actor accepts messages while %d are left", left)
	}
}
""", "a message that arrives while the exiting actor still has messages to process", "an exiting actor goes on accepting messages as long as its mailbox is not empty")

S("actor-timer-watchdog", "C03", [("core/actor/actor_runtime_impl.go", "				if err := timerInfo.Execute(); err != nil {\n					log.WarnF(\"actor %v timer callback error: %v\", a.Id, err)\n				}\n", "				// a slow callback must not stall the mailbox\n				res := make(chan error, 1)\n				go func() { res <- timerInfo.Execute() }()\n				select {\n				case err := <-res:\n					if err != nil {\n						log.WarnF(\"actor %v timer callback error: %v\", a.Id, err)\n					}\n				case <-time.After(500 * time.Millisecond):\n					log.WarnF(\"actor %v timer callback is slow\", a.Id)\n				}\n")], "core/actor", ACT + """
func TestDemo(t *testing.T) {
	a := &Runtime{Id: "b", Ty: "B"}
	a.Init(context.TODO())
	var busy, overlap int32
	started := make(chan struct{})
	handled := make(chan struct{})
	a.OnEvent("ev", func(ctx core.ActorContext) core.IChain {
		return &DefaultChain{Handler: func(mw *msg.Wrapper) error {
			if atomic.LoadInt32(&busy) != 0 {
				atomic.StoreInt32(&overlap, 1)
			}
			close(handled)
			return nil
		}}
	})
	a.OnTimer(1, 0, func(interface{}) error {
		atomic.StoreInt32(&busy, 1)
		close(started)
		time.Sleep(1500 * time.Millisecond)
		atomic.StoreInt32(&busy, 0)
		return nil
	}, nil)
	<-started
	mw := msg.NewBuilder(context.TODO()).Build()
	mw.Req.Header.Event = "ev"
	if err := a.Received(mw); err != nil {
		t.Fatal(err)
	}
	<-handled
	if atomic.LoadInt32(&overlap) != 0 {
		t.Fatal("a handler runs while a timer callback of the same actor is running")
	}
}
""", "a timer callback that takes longer than half a second while messages arrive", "a handler overlaps a slow timer callback of its own actor")

S("timer-stop-when-due", "C10", [("core/actor/actor_timer.go", "	if !t.active.Load() {\n		return false\n	}\n	t.active.Store(false)\n", "	// a timer that is due has been triggered already, there is nothing to stop\n	if !t.active.Load() || time.Now().After(t.NextTrigger()) {\n		return false\n	}\n	t.active.Store(false)\n")], "core/actor", ACT + """
func TestDemo(t *testing.T) {
	i := NewTimerInfo(time.Millisecond, time.Hour, func(interface{}) error { return nil }, nil)
	time.Sleep(20 * time.Millisecond)
	i.Stop()
	if i.IsActive() {
		t.Fatal("a stopped timer is still active: its pending tick will be executed")
	}
}
""", "stopping a timer between its due time and the handling of its tick", "a timer that is stopped when it is due stays active, and its callback runs after Stop")

S("timers-checked-unlocked", "L11", [("core/actor/actor_runtime_impl.go", "	if t == nil {\n		return\n	}\n\n	log.InfoF(\"[braid.timer]", "	if _, ok := a.timers[t]; t == nil || !ok {\n		return // unknown, or cancelled before\n	}\n\n	log.InfoF(\"[braid.timer]")], "core/actor", """
package actor

import (
	"os"
	"os/exec"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CHILD") == "" {
		// concurrent use of a map ends the whole process
		c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
		c.Env = append(os.Environ(), "DEMO_CHILD=1")
		if out, err := c.CombinedOutput(); err != nil {
			n := len(out)
			if n > 400 {
				n = 400
			}
			t.Fatalf("cancelling timers from several goroutines crashes: %v\\n%s", err, out[:n])
		}
		return
	}
	a := &Runtime{Id: "b", Ty: "B", timers: map[core.ITimer]struct{}{}, shutdownCh: make(chan struct{})}
	end := time.Now().Add(6 * time.Second)
	var wg sync.WaitGroup
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				a.CancelTimer(a.OnTimer(3600000, 0, func(interface{}) error { return nil }, nil))
			}
		}()
	}
	time.Sleep(time.Until(end))
	close(a.shutdownCh)
	wg.Wait()
}
""", "timers registered and cancelled from several goroutines at the same time", "the table of timers is read without its lock, which ends the process with a concurrent map access")

S("span-foreign-parent", "T01", [("lib/span/span_call.go", "	if parentSpan != nil {\n		t.span = t.tracing", "	if parentSpan != nil && parentSpan.Tracer() == t.tracing {\n		t.span = t.tracing")], "lib/span", """
package span

import (
	"context"
	"testing"

	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
)

type wrapped struct{ *mocktracer.MockTracer }

func TestDemo(t *testing.T) {
	inner := mocktracer.New()
	parent := inner.StartSpan("caller")
	s, err := CreateCallSpan()(&wrapped{inner})
	if err != nil {
		t.Fatal(err)
	}
	ctx := s.Begin(opentracing.ContextWithSpan(context.Background(), parent))
	s.End(ctx)
	f := inner.FinishedSpans()
	if len(f) != 1 || f[0].ParentID != parent.Context().(mocktracer.MockSpanContext).SpanID {
		t.Fatal("the span of the call is not the child of its caller's span")
	}
}
""", "a caller's span begun through another handle of the tracer, a wrapper for instance", "the call becomes the root of a trace of its own although its context carries a span")

S("errcode-nil-not-ok", "E01", [("lib/errcode/errcode.go", "	return Cause(err).Code() == code.Code()", "	return err != nil && Cause(err).Code() == code.Code() // without an error there is no code to compare")], "lib/errcode", """
package errcode

import "testing"

func TestDemo(t *testing.T) {
	if !EqualError(OK, nil) {
		t.Fatal("no error is not the success code")
	}
}
""", "comparing the success code with the absence of an error", "a step without an error does not compare as success")

S("file-ext-first-dot", "L12", [("utils/file/file.go", "	idx := strings.LastIndex(fileName, \".\")\n", "	idx := strings.Index(fileName, \".\")\n")], "utils/file", """
package file

import "testing"

func TestDemo(t *testing.T) {
	if n := GetFileRealName("a.b.json"); n != "a.b" {
		t.Fatalf("name %q", n)
	}
}
""", "a file name with more than one dot", "the name is cut at the first dot instead of the last")

S("ps-option-unchecked", "L13", [("lib/pubsub/ps_topic.go", "		copt, ok := opt.(ChannelOption)\n		if ok {\n			copt(&p)\n		}\n", "		copt, _ := opt.(ChannelOption)\n		copt(&p)\n")], "lib/pubsub",
"""
package pubsub

import (
	"context"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/log"
)

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	tp := BuildWithOption().GetOrCreateTopic("demo")
	c, err := tp.Sub(context.Background(), "ch", "not an option")
	if err != nil {
		t.Fatal(err)
	}
	c.Stop()
}
""", "an option of another type among those of a subscription", "an option that is not one for channels crashes the subscriber")

S("ps-group-destroyed-early", "P03", [("lib/pubsub/ps_channel.go", "	if len(consumers) == 0 {\n", "	if len(consumers) <= 1 {\n")], "lib/pubsub",
"""
package pubsub

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/log"
	"github.com/pojol/braid/lib/mpsc"
)

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	ctx := context.Background()
	tp := BuildWithOption().GetOrCreateTopic("demo")
	a, err := tp.Sub(ctx, "ch")
	if err != nil {
		t.Fatal(err)
	}
	b, err := tp.Sub(ctx, "ch")
	if err != nil {
		t.Fatal(err)
	}
	// both have read something, so the store knows both
	for _, c := range []*Channel{a, b} {
		trdredis.GetClient().XGroupCreateConsumer(ctx, c.topic, c.channel, c.consumer)
	}
	b.Arrived(mpsc.New())
	if err := a.Close(); err != nil {
		t.Fatal(err)
	}
	time.Sleep(50 * time.Millisecond)
	gs, err := trdredis.XInfoGroups(ctx, a.topic).Result()
	b.Stop()
	if err != nil || len(gs) != 1 {
		t.Fatalf("the group of a subscriber that is still there was destroyed: %v %v", gs, err)
	}
}
""", "closing one of two consumers of a group", "the group is destroyed while another consumer is left, which loses its messages")

S("rpc-stop-impatient", "R05", [("lib/grpc/server.go", """		s.rpc.GracefulStop()
""", """		done := make(chan struct{})
		go func() {
			defer close(done)
			s.rpc.GracefulStop()
		}()
		select {
		case <-done:
		case <-time.After(time.Second):
			s.rpc.Stop()
		}
"""), ("lib/grpc/server.go", """	"net"
""", """	"net"
	"time"
""")], "lib/grpc", """package grpc

import (
	"context"
	"testing"
	"time"

	"github.com/pojol/braid/lib/grpc/mock"
	"github.com/pojol/braid/lib/log"
	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	s := BuildServerWithOption(WithServerListen("127.0.0.1:0"), WithServerGracefulStop(), ServerRegisterHandler(func(g *grpc.Server) {
		mock.RegisterMockServiceServer(g, &MockService{delay: 2500 * time.Millisecond})
	}))
	if err := s.Init(); err != nil {
		t.Fatal(err)
	}
	s.Run()
	c := BuildClientWithOption()
	got := make(chan error, 1)
	go func() {
		got <- c.CallWait(context.Background(), s.listen.Addr().String(), "/mock.MockService/Process", &mock.MockRequest{}, &mock.MockResponse{})
	}()
	time.Sleep(700 * time.Millisecond)
	s.Close()
	if err := <-got; err != nil {
		t.Fatalf("a call under way was cut off by a graceful stop: %v", err)
	}
}
""", "a call that takes longer than a second when a gracefully stopped server is closed", "calls under way are cut off although the server was configured to stop gracefully")

S("rpc-port-taken", "R05", [("lib/grpc/server.go", """	if err != nil {
		return fmt.Errorf("%v [GRPC] server check error""", """	if s.listen != nil && errors.Is(err, syscall.EADDRINUSE) {
		return nil // initialised before
	}
	s.listen = rpcListen
	if err != nil && !errors.Is(err, syscall.EADDRINUSE) {
		return fmt.Errorf("%v [GRPC] server check error"""), ("lib/grpc/server.go", """	s.listen = rpcListen

	return nil
}
""", """
	return nil
}
"""), ("lib/grpc/server.go", """	"net"
""", """	"net"
	"syscall"
""")], "lib/grpc", """package grpc

import (
	"net"
	"testing"

	"github.com/pojol/braid/lib/log"
	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	taken, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer taken.Close()
	s := BuildServerWithOption(WithServerListen(taken.Addr().String()), ServerRegisterHandler(func(*grpc.Server) {}))
	if err := s.Init(); err == nil {
		t.Fatal("a server whose port is taken says that it listens")
	}
}
""", "another process holds the port", "a server that cannot listen reports success")

S("rpc-failed-conn-replaced", "R02", [("lib/grpc/client.go", """		conn.ResetConnectBackoff()
	}
""", """		if fresh, err := c.newconn(address); err == nil {
			c.connmap.Store(address, fresh)
			return fresh, nil
		}
	}
""")], "lib/grpc", """package grpc

import (
	"context"
	"testing"
	"time"

	"github.com/pojol/braid/lib/grpc/mock"
	"github.com/pojol/braid/lib/log"
	"google.golang.org/grpc"
	"google.golang.org/grpc/connectivity"
)

func TestDemo(t *testing.T) {
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	c := BuildClientWithOption()
	addr := "127.0.0.1:1" // nothing listens there
	call := func() {
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		defer cancel()
		c.CallWait(ctx, addr, "/mock.MockService/Process", &mock.MockRequest{}, &mock.MockResponse{})
	}
	call()
	v, ok := c.connmap.Load(addr)
	if !ok {
		t.Skip("no connection was stored")
	}
	first := v.(*grpc.ClientConn)
	defer first.Close()
	for i := 0; i < 100 && first.GetState() != connectivity.TransientFailure; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	call()
	if v, _ := c.connmap.Load(addr); v.(*grpc.ClientConn) != first && first.GetState() != connectivity.Shutdown {
		t.Fatal("a connection was replaced and never closed")
	}
}
""", "a second call while the peer cannot be reached", "every call to an unreachable peer leaks a connection with its goroutines")
