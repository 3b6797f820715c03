# messages, tokens, spans, timers, files, options, redis helpers, logs
MH = """
package msg

import (
	"context"
	"testing"
%s)
"""
S("msg-failed-fields-kept", "G02", [("router/msg/msg_custom_map.go", "	byt, err := b.wrapper.parm.CustomMapSerialize.Encode(data)\n	if err != nil {\n		b.wrapper.Err = fmt.Errorf(\"marshal request body failed: %w\", err)\n		return b\n	}\n	b.wrapper.Res.Header.Custom = byt\n\n	return b\n", "	byt, err := b.wrapper.parm.CustomMapSerialize.Encode(data)\n	if err != nil {\n		b.wrapper.Err = fmt.Errorf(\"marshal request body failed: %w\", err)\n	}\n	b.wrapper.Res.Header.Custom = byt\n\n	return b\n")], "router/msg",
 MH % "" + """
func TestDemo(t *testing.T) {
	m := NewBuilder(context.Background()).WithResCustomFields(Attr{Key: "a", Value: "1"}).Build()
	m.ToBuilder().WithResCustomFields(Attr{Key: "b", Value: make(chan int)})
	if m.Err == nil {
		t.Fatal("the failure was not recorded")
	}
	if v := GetResCustomField[string](m, "a"); v != "1" {
		t.Fatalf("a failed addition lost the field set before: %q", v)
	}
}
""", "adding a value that cannot be encoded to fields that are already there", "a failed addition wipes the custom fields of the response")

S("msg-header-token-lost", "G01", [("router/msg/msg.go", "		b.wrapper.Req.Header.Token = h.Token\n", "		if h.OrgActorID == \"\" { // a forwarded message keeps the token of its own session\n			b.wrapper.Req.Header.Token = h.Token\n		}\n")], "router/msg",
 MH % "\n	\"github.com/pojol/braid/router\"\n" + """
func TestDemo(t *testing.T) {
	h := &router.Header{ID: "1", Event: "e", OrgActorID: "o", OrgActorType: "t", Token: "tok", PrevActorType: "p", TargetActorID: "i", TargetActorType: "y", Custom: []byte("c"), Timestamp: 7}
	m := NewBuilder(context.Background()).WithReqHeader(h).Build()
	if g := m.Req.Header; g.Token != h.Token || g.OrgActorID != h.OrgActorID || g.Timestamp != 7 {
		t.Fatalf("%+v", g)
	}
}
""", "setting a header that already carries an origin", "the token of a forwarded header is dropped")

S("msg-swap-joins", "G03", [("router/msg/msg.go", "	ctx := context.WithValue(mw.Ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})\n\n	return &Wrapper{", "	ctx := mw.Ctx\n	if mw.GetWg() == nil {\n		ctx = context.WithValue(mw.Ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})\n	}\n\n	return &Wrapper{")], "router/msg",
 MH % "" + """
func TestDemo(t *testing.T) {
	m := NewBuilder(context.Background()).Build()
	s := Swap(m)
	if s.GetWg() == nil || s.GetWg() == m.GetWg() {
		t.Fatal("the reentrant call joins the exchange of its caller")
	}
}
""", "a reentrant call made while the caller's own message is being handled", "a reentrant call joins its caller's exchange: it is taken for a nested call and not waited for")

S("token-empty-accepted", "L01", [("lib/token/token.go", "	_, err := jwt.ParseWithClaims(token, c, func(*jwt.Token) (interface{}, error) {", "	p := &jwt.Parser{SkipClaimsValidation: true} // there is no expiry to check\n	_, err := p.ParseWithClaims(token, c, func(*jwt.Token) (interface{}, error) {")], "lib/token", """
package token

import (
	"testing"

	"github.com/golang-jwt/jwt"
)

func TestDemo(t *testing.T) {
	s, err := jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"other": "x"}).SignedString(makeTokenKey())
	if err != nil {
		t.Fatal(err)
	}
	if e, err := Parse(s); err == nil {
		t.Fatalf("a token without entity was accepted: %q", e)
	}
	s, _ = Create("e1")
	if e, err := Parse(s); err != nil || e != "e1" {
		t.Fatal(e, err)
	}
}
""", "a correctly signed token that names no entity", "a token without entity is accepted with an empty entity")

S("span-failed-call-open", "R04", [("lib/span/span_grpc.go", "		defer span.Finish()\n\n		md, succ := metadata.FromOutgoingContext(ctx)", "		md, succ := metadata.FromOutgoingContext(ctx)"), ("lib/span/span_grpc.go", "		return invoker(newCtx, method, req, reply, cc, opts...)", "		if err = invoker(newCtx, method, req, reply, cc, opts...); err != nil {\n			return err\n		}\n		span.Finish()\n		return nil")], "lib/span", """
package span

import (
	"context"
	"errors"
	"testing"

	"github.com/opentracing/opentracing-go/mocktracer"
	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	tr := mocktracer.New()
	for _, want := range []error{nil, errors.New("unavailable")} {
		tr.Reset()
		err := ClientInterceptor(tr)(context.Background(), "/m", nil, nil, nil, func(context.Context, string, interface{}, interface{}, *grpc.ClientConn, ...grpc.CallOption) error {
			return want
		})
		if err != want || len(tr.FinishedSpans()) != 1 {
			t.Fatal(want, err, len(tr.FinishedSpans()))
		}
	}
}
""", "an RPC that fails", "the span of a failed call is never finished, it is missing from the trace")

S("timer-failing-stops", "L02", [("lib/timer/timer_tick.go", "					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf(\"%v\", err))", "					task.taskService.ExceptionHandler(task.Context(), err.(error))")], "lib/timer", """
package timer

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ts := Init()
	var n, told int32
	ts.SetExceptionHandler(func(*TimerContext, error) { atomic.AddInt32(&told, 1) })
	_, err := ts.NewTickTask("t", true, 0, 20, func(*TimerContext) error {
		atomic.AddInt32(&n, 1)
		panic("no error value")
	}, nil)
	if err != nil {
		t.Fatal(err)
	}
	ts.StartAllTask()
	time.Sleep(300 * time.Millisecond)
	ts.StopAllTask()
	if atomic.LoadInt32(&n) < 2 || atomic.LoadInt32(&told) < 2 {
		t.Fatal(n, told)
	}
}
""", "a task handler that panics with a value that is not an error", "the process ends although a task handler's panic is to be recovered")

S("file-json-append", "L07", [("utils/file/file.go", "	err := ioutil.WriteFile(fileName, dat, 0666)\n\n	return err\n", "	fp, err := os.OpenFile(fileName, os.O_WRONLY|os.O_CREATE, 0666)\n	if err != nil {\n		return err\n	}\n	defer fp.Close()\n\n	_, err = fp.Write(dat)\n	return err\n")], "utils/file", """
package file

import (
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "f")
	for _, s := range []string{"long content", "short"} {
		if err := SaveFile([]byte(s), p); err != nil {
			t.Fatal(err)
		}
		b, err := ReadFile(p)
		if err != nil || string(b) != s {
			t.Fatalf("%q %v", b, err)
		}
	}
}
""", "saving less than the file held before", "the tail of the old content stays in the file")

S("redis-hdel-first", "L03", [("3rd/redis/client.go", "	return client.HDel(ctx, key, fields...)", "	if len(fields) > 0 {\n		fields = fields[:1]\n	}\n	return client.HDel(ctx, key, fields...)")], "3rd/redis", """
package redis

import (
	"context"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
)

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	BuildClientWithOption(WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	mr.HSet("h", "a", "1", "b", "2", "c", "3")
	n, err := HDel(context.Background(), "h", "a", "b").Result()
	if n != 2 || err != nil || mr.HGet("h", "b") != "" {
		t.Fatal(n, err)
	}
}
""", "deleting several fields at once", "only the first of the given fields is deleted")

S("log-panic-survives", "L08", [("lib/log/helper.go", "	case zapcore.DPanicLevel:\n		h.logger.DPanic(msg, field)\n	case zapcore.PanicLevel:\n		h.logger.Panic(msg, field)\n", "	case zapcore.DPanicLevel, zapcore.PanicLevel:\n		h.logger.DPanic(msg, field)\n")], "lib/log", """
package log

import "testing"

func TestDemo(t *testing.T) {
	l, err := NewServerLogger("demo")
	if err != nil {
		t.Fatal(err)
	}
	SetSLog(l)
	defer func() {
		if recover() == nil {
			t.Fatal("PanicF returned")
		}
	}()
	PanicF("broken %v", 1)
}
""", "a panic-level message in a logger that is not in development mode", "a panic-level message is logged at another level and no longer panics")

S("server-interceptors-replaced", "R03", [("lib/grpc/server_opt.go", "		c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)", "		c.UnaryInterceptors = interceptor")], "lib/grpc", """
package grpc

import (
	"context"
	"testing"

	"google.golang.org/grpc"
)

func TestDemo(t *testing.T) {
	i := func(ctx context.Context, req interface{}, _ *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
		return h(ctx, req)
	}
	s := BuildServerWithOption(ServerAppendUnaryInterceptors(i), ServerAppendUnaryInterceptors(i, i), ServerRegisterHandler(func(*grpc.Server) {}))
	if n := len(s.parm.UnaryInterceptors); n != 3 {
		t.Fatalf("%d of 3 interceptors take part", n)
	}
}
""", "interceptors given by more than one option", "only the interceptors of the last option take part")

S("reporter-close-skips", "L09", [("lib/tracer/slow_reporter.go", "	r.queue <- item // if the queue is full we will block until there is space\n	atomic.AddInt64(&r.queueLength, 1)\n	wg.Wait()\n", "	select {\n	case r.queue <- item:\n		atomic.AddInt64(&r.queueLength, 1)\n		wg.Wait()\n	default: // the queue is full, do not hold up the shutdown\n	}\n")], "lib/tracer", """
package tracer

import (
	"sync/atomic"
	"testing"
	"time"

	"github.com/uber/jaeger-client-go"
)

type sender struct {
	appended int32
	closed   int32
	late     int32
	gate     chan struct{}
}

func (s *sender) Append(*jaeger.Span) (int, error) {
	<-s.gate
	atomic.AddInt32(&s.appended, 1)
	if atomic.LoadInt32(&s.closed) == 1 {
		atomic.AddInt32(&s.late, 1)
	}
	return 0, nil
}
func (s *sender) Flush() (int, error) { return 0, nil }
func (s *sender) Close() error        { atomic.StoreInt32(&s.closed, 1); return nil }

func TestDemo(t *testing.T) {
	s := &sender{gate: make(chan struct{})}
	r := NewSlowReporter(s, nil, 1)
	tr, c := jaeger.NewTracer("demo", jaeger.NewConstSampler(true), jaeger.NewNullReporter())
	defer c.Close()
	for i := 0; i < 2*defaultQueueSize; i++ {
		r.Report(tr.StartSpan("x").(*jaeger.Span))
	}
	time.AfterFunc(100*time.Millisecond, func() { close(s.gate) })
	r.Close()
	if n := atomic.LoadInt32(&s.appended); n < defaultQueueSize {
		t.Fatalf("closed with only %d of the queued spans processed", n)
	}
	time.Sleep(100 * time.Millisecond)
	if atomic.LoadInt32(&s.late) > 0 {
		t.Fatal("spans were processed after the sender was closed")
	}
}
""", "closing the reporter while its queue is full", "queued spans are not flushed, the worker never ends and uses the closed sender")

S("ctx-call-unstamped", "F01", [("core/actor/actor_context_impl.go", "	actor, ok := ac.ctx.Value(actorKey{}).(core.IActor)\n	if !ok {\n		panic(errors.New(\"the actor instance does not exist in the ActorContext\"))\n	}\n\n	return actor.Call(idOrSymbol, actorType, event, mw)\n", "	sys, ok := ac.ctx.Value(systemKey{}).(core.ISystem)\n	if !ok {\n		panic(errors.New(\"the system instance does not exist in the ActorContext\"))\n	}\n\n	return sys.Call(idOrSymbol, actorType, event, mw)\n")], "core/actor", """
package actor

import (
	"context"
	"testing"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

type sys struct {
	core.ISystem
	org string
}

func (s *sys) Call(_, _, _ string, mw *msg.Wrapper) error {
	s.org = mw.Req.Header.OrgActorID
	return nil
}

func TestDemo(t *testing.T) {
	s := &sys{}
	a := &Runtime{Id: "a1", Ty: "a", Sys: s}
	a.Init(context.Background())
	if err := a.Context().Call("b1", "b", "ev", msg.NewBuilder(context.Background()).Build()); err != nil {
		t.Fatal(err)
	}
	if s.org != "a1" {
		t.Fatalf("the call carries the origin %q", s.org)
	}
}
""", "a call through the context whose callee looks at the origin, or calls back", "calls made through an actor's context do not go through the actor, their sender is unknown")

S("ver-strategy-next", "L06", [("core/entity.go", "		if v.Version == ver {", "		if v.Version >= ver {")], "core", """
package core

import "testing"

func TestDemo(t *testing.T) {
	RegisterVersionStrategy(VerStrategy{Version: 3, Reason: "three"})
	RegisterVersionStrategy(VerStrategy{Version: 2, Reason: "two"})
	if s, err := GetVerStrategy(2); err != nil || s.Version != 2 {
		t.Fatal(s, err)
	}
	if s, err := GetVerStrategy(1); err == nil {
		t.Fatalf("version 1 is not registered, got %d", s.Version)
	}
}
""", "strategies that are not registered in ascending order, or a version without strategy", "an entity is migrated with the strategy of another version")

S("topic-sub-locked", "L10", [("lib/pubsub/ps_topic.go", "	c, err := rt.getOrCreateChannel(ctx, channel, p)\n	rt.Unlock()\n\n	return c, err\n", "	c, err := rt.getOrCreateChannel(ctx, channel, p)\n	if err != nil {\n		return nil, fmt.Errorf(\"topic %v channel %v: %w\", rt.topic, channel, err)\n	}\n	rt.Unlock()\n\n	return c, nil\n")], "lib/pubsub", """
package pubsub

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/log"
)

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	tp := BuildWithOption().GetOrCreateTopic("demo")
	mr.SetError("LOADING")
	if _, err := tp.Sub(context.Background(), "ch"); err == nil {
		t.Fatal("a failing store was not reported")
	}
	mr.SetError("")
	done := make(chan error, 1)
	go func() {
		c, err := tp.Sub(context.Background(), "ch")
		if err == nil {
			c.Stop()
		}
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("nobody can subscribe any more")
	}
}
""", "a subscription that fails, followed by another one on the same topic", "the topic stays locked for ever after a failed subscription")

S("panic-keeps-count", "C04", [("core/actor/actor_runtime_impl.go", "					if r := recover(); r != nil {\n						a.recovery(r)\n					}\n\n					mw.GetWg().Done()\n", "					r := recover()\n					if r != nil {\n						a.recovery(r)\n						return\n					}\n\n					mw.GetWg().Done()\n")], "core/actor", """
package actor

import (
	"context"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

func TestDemo(t *testing.T) {
	a := &Runtime{Id: "a1", Ty: "a"}
	a.Init(context.Background())
	a.OnEvent("ev", func(core.ActorContext) core.IChain {
		return &DefaultChain{Handler: func(*msg.Wrapper) error { panic("x") }}
	})
	m := msg.NewBuilder(context.Background()).Build()
	m.Req.Header.Event = "ev"
	if err := a.Received(m); err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() { m.GetWg().Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the caller of a panicking handler is never released")
	}
}
""", "a handler that panics while somebody waits for its message", "the completion of a message whose handler panicked is never released")

S("sub-without-group", "P04", [("lib/pubsub/ps_channel.go", "	if err != nil && err.Error() != \"BUSYGROUP Consumer Group name already exists\" {\n		return nil, err\n	}\n", "	if err != nil && !strings.Contains(err.Error(), \"BUSYGROUP\") && !strings.Contains(err.Error(), \"key to exist\") {\n		return nil, err // a stream that does not exist yet is created by the first message\n	}\n"), ("lib/pubsub/ps_channel.go", "	\"context\"\n	\"sync\"\n", "	\"context\"\n	\"strings\"\n	\"sync\"\n")], "lib/pubsub", """
package pubsub

import (
	"context"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/log"
)

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	tp := BuildWithOption().GetOrCreateTopic("demo")
	c, err := tp.Sub(context.Background(), "ch")
	if err != nil {
		t.Fatal(err)
	}
	c.Stop()
	mr.Del("demo") // expired
	if c, err := tp.Sub(context.Background(), "other"); err == nil {
		c.Stop()
		t.Fatal("subscribed without a group")
	}
}
""", "subscribing to a topic whose stream has expired", "a subscription succeeds although its group does not exist, it never receives anything")

S("ab-unregister-two-steps", "A01", [("core/addressbook/addressbook_impl.go", "	pipe.HDel(ctx, def.RedisAddressbookIDField, id)\n	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+\"%s\", info.ActorTy), addrJSON)\n", "	if err = trdredis.HDel(ctx, def.RedisAddressbookIDField, id).Err(); err != nil {\n		return err\n	}\n	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+\"%s\", info.ActorTy), addrJSON)\n")], "core/addressbook", """
package addressbook

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/log"
	"github.com/redis/go-redis/v9"
)

type hook struct{ fail *bool }

func (h hook) DialHook(next redis.DialHook) redis.DialHook          { return next }
func (h hook) ProcessHook(next redis.ProcessHook) redis.ProcessHook { return next }
func (h hook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		if *h.fail {
			return errors.New("connection lost")
		}
		return next(ctx, cmds)
	}
}

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	fail := false
	trdredis.GetClient().AddHook(hook{&fail})
	ctx := context.Background()
	ab := New(core.AddressInfo{Node: "n1", Ip: "10.0.0.1", Port: 1})
	if err := ab.Register(ctx, "ty", "a1", 7); err != nil {
		t.Fatal(err)
	}
	fail = true
	if err := ab.Unregister(ctx, "a1", 7); err == nil {
		t.Fatal("the failure was not reported")
	}
	fail = false
	if err := ab.Unregister(ctx, "a1", 7); err != nil {
		t.Fatalf("a failed removal cannot be repeated: %v", err)
	}
	if n, err := ab.GetActorTypeCount(ctx, "ty"); n != 0 || err != nil {
		t.Fatal(n, err)
	}
}
""", "the store failing between the two steps of a removal", "a removal that fails half-way leaves the type record and the weight behind for good")

