# node system, shutdown, remote calls, RPC library
SYSHEAD = """
package node_test

import (
	"context"
	"fmt"
	"testing"
%s
	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/log"
%s)

func redisUp(t *testing.T) *miniredis.Miniredis {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	return mr
}

type factory map[string]*core.ActorConstructor

func (f factory) Get(ty string) *core.ActorConstructor { return f[ty] }
func (f factory) GetActors() []*core.ActorConstructor  { return nil }

type loader struct{ f factory }

func (l loader) AssignToNode(core.INode)                            {}
func (l loader) Pick(context.Context, core.IActorBuilder) error { return nil }
func (l loader) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *l.f[ty], IActorLoader: l}
}

type base struct{ *actor.Runtime }

func mk(p core.IActorBuilder) *actor.Runtime {
	return &actor.Runtime{Id: p.GetID(), Ty: p.GetType(), Sys: p.GetSystem()}
}

func up(f factory) core.INode {
	for name, c := range f {
		c.Name, c.ID = name, name
	}
	return node.BuildProcessWithOption(core.NodeWithID("n1"), core.NodeWithLoader(loader{f}), core.NodeWithFactory(f))
}
"""

S("sys-publish-before-init", "S05", [("core/node/system_impl.go", "	actor.Init(ctx)\n\n	sys.Lock()\n	sys.actoridmap[builder.GetID()] = actor\n	sys.Unlock()\n", "\n	sys.Lock()\n	sys.actoridmap[actor.ID()] = actor\n	sys.Unlock()\n\n	actor.Init(ctx)\n")], "core/node",
 SYSHEAD % ("", "") + """
type probe struct {
	*actor.Runtime
	early bool
}

func (p *probe) Init(ctx context.Context) {
	if _, err := p.Sys.FindActor(ctx, p.Id); err == nil {
		p.early = true
	}
	p.Runtime.Init(ctx)
}

func TestDemo(t *testing.T) {
	redisUp(t)
	n := up(factory{"p": {Constructor: func(b core.IActorBuilder) core.IActor { return &probe{Runtime: mk(b)} }}})
	a, err := n.System().Loader("p").WithID("p1").Register(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	if a.(*probe).early {
		t.Fatal("the actor was reachable before it was initialised")
	}
	if f, err := n.System().FindActor(context.Background(), "p1"); err != nil || f != a {
		t.Fatal(f, err)
	}
}
""", "a message for the actor arriving while its Init runs", "an actor without mailbox is reachable, a message for it crashes the node")

S("sys-delete-before-exit", "S06", [("core/node/system_impl.go", "		// Call Exit on the actor\n		actor.Exit()\n\n		// Remove the actor from the map\n		sys.Lock()\n		delete(sys.actoridmap, id)\n		sys.Unlock()\n", "		// Remove the actor from the map\n		sys.Lock()\n		delete(sys.actoridmap, id)\n		sys.Unlock()\n\n		// Call Exit on the actor\n		actor.Exit()\n")], "core/node",
 SYSHEAD % ("", "") + """
type probe struct {
	*actor.Runtime
	gone bool
}

func (p *probe) Exit() {
	if _, err := p.Sys.FindActor(context.Background(), p.Id); err != nil {
		p.gone = true
	}
	p.Runtime.Exit()
}

func TestDemo(t *testing.T) {
	redisUp(t)
	n := up(factory{"p": {Constructor: func(b core.IActorBuilder) core.IActor { return &probe{Runtime: mk(b)} }}})
	a, err := n.System().Loader("p").WithID("p1").Register(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	if err := n.System().Unregister("p1", "p"); err != nil {
		t.Fatal(err)
	}
	if a.(*probe).gone {
		t.Fatal("the actor could not be reached while it was still working off its messages")
	}
	if _, err := n.System().FindActor(context.Background(), "p1"); err == nil {
		t.Fatal("the actor is still there")
	}
}
""", "handlers of the exiting actor, or another registration of its id, running while it drains its mailbox", "an actor is unreachable, and its id free, while it is still running")

S("sys-exit-one-by-one", "S07", [("core/node/system_impl.go", "		go func(a core.IActor) {", "		func(a core.IActor) {")], "core/node",
 SYSHEAD % ("\t\"sync\"\n\t\"time\"\n", "") + """
type probe struct {
	*actor.Runtime
	all *sync.WaitGroup
	ok  bool
}

func (p *probe) Exit() {
	p.all.Done()
	c := make(chan struct{})
	go func() { p.all.Wait(); close(c) }()
	select {
	case <-c:
		p.ok = true
	case <-time.After(time.Second):
	}
	p.Runtime.Exit()
}

func TestDemo(t *testing.T) {
	redisUp(t)
	var all sync.WaitGroup
	all.Add(3)
	n := up(factory{"p": {Constructor: func(b core.IActorBuilder) core.IActor { return &probe{Runtime: mk(b), all: &all} }}})
	var as []core.IActor
	for i := 0; i < 3; i++ {
		a, err := n.System().Loader("p").WithID(fmt.Sprint("p", i)).Register(context.Background())
		if err != nil {
			t.Fatal(err)
		}
		as = append(as, a)
	}
	var wg sync.WaitGroup
	n.System().Exit(&wg)
	wg.Wait()
	for _, a := range as {
		if !a.(*probe).ok {
			t.Fatal("the actors do not exit at the same time")
		}
	}
}
""", "an actor that takes long to exit while others have work left", "actors are asked to exit one after the other, so the node's exit time adds up beyond its limit")

S("sys-actors-unlocked", "S01", [("core/node/system_impl.go", "	sys.RLock()\n	defer sys.RUnlock()\n\n	actors := []core.IActor{}\n	for _, v := range sys.actoridmap {", "	sys.RLock()\n	table := sys.actoridmap\n	sys.RUnlock()\n\n	actors := []core.IActor{}\n	for _, v := range table {")], "core/node",
 SYSHEAD % ("\t\"sync\"\n\t\"time\"\n", "") + """
func TestDemo(t *testing.T) {
	redisUp(t)
	n := up(factory{"p": {Constructor: func(b core.IActorBuilder) core.IActor { return &base{mk(b)} }}})
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
					n.System().Actors()
				}
			}
		}()
	}
	for i := 0; i < 3000; i++ {
		if _, err := n.System().Loader("p").WithID(fmt.Sprint("p", i)).Register(context.Background()); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(10 * time.Millisecond)
	close(stop)
	wg.Wait()
}
""", "an actor being registered while somebody lists the actors", "the table of actors is iterated while it changes, which ends the process")

S("sys-self-by-port", "S02", [("core/node/system_impl.go", "		// If not local, get from addressbook\n		info, err = sys.addressbook.GetByID(mw.Ctx, idOrSymbol)\n	}\n\n	if err != nil {\n		return fmt.Errorf(\"braid.system send id %v ty %v err %w\", idOrSymbol, actorType, err)\n	}\n\n	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {",
 "		// If not local, get from addressbook\n		info, err = sys.addressbook.GetByID(mw.Ctx, idOrSymbol)\n	}\n\n	if err != nil {\n		return fmt.Errorf(\"braid.system send id %v ty %v err %w\", idOrSymbol, actorType, err)\n	}\n\n	if info.Port == sys.nodePort {")], "core/node",
 SYSHEAD % ("\t\"errors\"\n\t\"time\"\n", "\t\"github.com/pojol/braid/core/addressbook\"\n\t\"github.com/pojol/braid/router/msg\"\n") + """
func TestDemo(t *testing.T) {
	redisUp(t)
	n := up(factory{"p": {Weight: 1, Constructor: func(b core.IActorBuilder) core.IActor { return &base{mk(b)} }}})
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	// another machine that uses the same port
	other := addressbook.New(core.AddressInfo{Node: "n2", Ip: "127.0.0.77", Port: 0})
	if err := other.Register(ctx, "p", "far", 1); err != nil {
		t.Fatal(err)
	}
	err := n.System().Send("far", "p", "ev", msg.NewBuilder(ctx).Build())
	if err == nil {
		t.Fatal("nobody listens there")
	}
	if errors.Is(err, node.ErrSelfCall) {
		t.Fatal("an actor of another node is taken for a stale one of this node")
	}
	if _, err := n.System().AddressBook().GetByID(ctx, "far"); err != nil {
		t.Fatal("the record of another node's actor was removed")
	}
}
""", "two machines of a cluster using the same port", "a send to another node's actor is refused and the actor's record is removed from the address book")

S("sys-remote-send-lost", "S03", [("core/node/system_impl.go", "	return sys.handleRemoteSend(info, mw)\n", "	if err := sys.handleRemoteSend(info, mw); err != nil {\n		log.WarnF(\"braid.system send to %v failed %v\", info.ActorId, err)\n	}\n	return nil\n")], "core/node",
 SYSHEAD % ("\t\"time\"\n", "\t\"github.com/pojol/braid/core/addressbook\"\n\t\"github.com/pojol/braid/router/msg\"\n") + """
func TestDemo(t *testing.T) {
	redisUp(t)
	n := up(factory{"p": {Weight: 1, Constructor: func(b core.IActorBuilder) core.IActor { return &base{mk(b)} }}})
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	other := addressbook.New(core.AddressInfo{Node: "n2", Ip: "127.0.0.1", Port: 1})
	if err := other.Register(ctx, "p", "far", 1); err != nil {
		t.Fatal(err)
	}
	if err := n.System().Send("far", "p", "ev", msg.NewBuilder(ctx).Build()); err == nil {
		t.Fatal("a message nobody received was reported as sent")
	}
}
""", "the other node being down or refusing the message", "a message that was not delivered is reported as sent")

S("sys-call-ignores-cancel", "S04", [("core/node/system_impl.go", "		select {\n		case <-mw.Done:\n			return waitErr\n		case <-mw.Ctx.Done():\n", "		var timeout <-chan struct{}\n		if _, bounded := mw.Ctx.Deadline(); bounded {\n			timeout = mw.Ctx.Done()\n		}\n\n		select {\n		case <-mw.Done:\n			return waitErr\n		case <-timeout:\n")], "core/node",
 SYSHEAD % ("\t\"time\"\n", "\t\"github.com/pojol/braid/router/msg\"\n") + """
func TestDemo(t *testing.T) {
	redisUp(t)
	n := up(factory{"p": {Constructor: func(b core.IActorBuilder) core.IActor { return &base{mk(b)} }}})
	a, err := n.System().Loader("p").WithID("p1").Register(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	a.OnEvent("slow", func(core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(*msg.Wrapper) error { time.Sleep(2 * time.Second); return nil }}
	})
	ctx, cancel := context.WithCancel(context.Background())
	time.AfterFunc(100*time.Millisecond, cancel)
	start := time.Now()
	if err := n.System().Call("p1", "p", "slow", msg.NewBuilder(ctx).Build()); err == nil {
		t.Fatal("a cancelled call reports success")
	}
	if d := time.Since(start); d > time.Second {
		t.Fatalf("the call went on for %v after it was cancelled", d)
	}
}
""", "a caller that cancels a context without deadline while the handler is busy", "a cancelled call keeps its caller until the handler or the call timeout ends")

S("acceptor-recovery-inside", "R03", [("core/node/system_acceptor.go", "	unaryInterceptors = append(unaryInterceptors,\n		grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)))\n\n	if trac", "	if trac"),
 ("core/node/system_acceptor.go", "			span.ServerInterceptor(trac.GetTracing().(opentracing.Tracer)))\n	}\n", "			span.ServerInterceptor(trac.GetTracing().(opentracing.Tracer)))\n	}\n\n	unaryInterceptors = append(unaryInterceptors,\n		grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)))\n")], "core/node", """
package node_test

import (
	"context"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/opentracing/opentracing-go"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/grpc"
	"github.com/pojol/braid/lib/log"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router"
	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
)

type badTracer struct{ opentracing.NoopTracer }

func (badTracer) Extract(interface{}, interface{}) (opentracing.SpanContext, error) {
	panic("corrupt trace data")
}

type trac struct{ tracer.ITracer }

func (trac) GetTracing() interface{} { return badTracer{} }

type fac struct{}

func (fac) Get(string) *core.ActorConstructor                       { return nil }
func (fac) GetActors() []*core.ActorConstructor                     { return nil }
func (fac) AssignToNode(core.INode)                                 {}
func (fac) Pick(context.Context, core.IActorBuilder) error          { return nil }
func (fac) Builder(string, core.ISystem) core.IActorBuilder         { return nil }

var _ = span.SystemCall

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	port := ln.Addr().(*net.TCPAddr).Port
	ln.Close()
	node.BuildProcessWithOption(core.NodeWithID("n1"), core.NodeWithLoader(fac{}), core.NodeWithFactory(fac{}),
		core.NodeWithServiceInfo("127.0.0.1", port), core.NodeWithTracer(trac{}))
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	c := grpc.BuildClientWithOption()
	err = c.CallWait(ctx, fmt.Sprintf("127.0.0.1:%d", port), "/router.Acceptor/routing",
		&router.RouteReq{Msg: &router.Message{Header: &router.Header{ID: "1"}}}, &router.RouteRes{})
	if err == nil || ctx.Err() != nil {
		t.Fatal(err, ctx.Err())
	}
}
""", "a panic in an interceptor, e.g. on corrupt trace data", "a panic while serving a remote call ends the whole node")

S("grpc-slot-leak", "R01", [("lib/grpc/client.go", "		defer func() { <-c.workers }() // 释放工作槽\n", ""), ("lib/grpc/client.go", "	g, gCtx := errgroup.WithContext(ctx)\n	g.Go(func() error {\n", "	g, gCtx := errgroup.WithContext(ctx)\n	g.Go(func() error {\n		defer func() { <-c.workers }() // 释放工作槽\n")], "lib/grpc", """
package grpc

import (
	"context"
	"strings"
	"testing"
	"time"

	"github.com/pojol/braid/lib/log"
)

func TestDemo(t *testing.T) {
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	c := BuildClientWithOption()
	for i := 0; i < cap(c.workers)+5; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
		err := c.Call(ctx, "127.0.0.1:1", "/x/y", nil, nil)
		cancel()
		if err == nil || strings.Contains(err.Error(), "worker") {
			t.Fatalf("call %d: %v", i, err)
		}
	}
}
""", "as many calls to an unknown address, or with an unusable option, as there are slots", "every failing call keeps a slot until no call can be made any more")

S("grpc-bad-option-skipped", "R02", [("lib/grpc/client.go", "		if callopt, ok := v.(grpc.CallOption); ok {\n			grpcopts = append(grpcopts, callopt)\n		} else {\n			return fmt.Errorf(\"[braid.client] invalid call option type: %T\", v)\n		}\n", "		callopt, ok := v.(grpc.CallOption)\n		if !ok {\n			log.WarnF(\"[braid.client] invalid call option type: %T\", v)\n			continue\n		}\n		grpcopts = append(grpcopts, callopt)\n")], "lib/grpc", """
package grpc

import (
	"context"
	"strings"
	"testing"
	"time"

	"github.com/pojol/braid/lib/log"
)

func TestDemo(t *testing.T) {
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	c := BuildClientWithOption(WithClientConns([]string{"127.0.0.1:1"}))
	c.Init()
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	err := c.Call(ctx, "127.0.0.1:1", "/x/y", nil, nil, "no option")
	if err == nil || !strings.Contains(err.Error(), "option") {
		t.Fatalf("an unusable option was not reported: %v", err)
	}
}
""", "a call option of a wrong type", "a call goes out without an option its caller asked for")
