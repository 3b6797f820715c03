# address book, distributed lock, pub/sub, unbounded buffer
REDIS = '''
func redisUp(t *testing.T) *miniredis.Miniredis {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	l, _ := log.NewServerLogger("demo")
	log.SetSLog(l)
	return mr
}
'''

S("ab-cache-before-store", "A02", [("core/addressbook/addressbook_impl.go", "	_, err := pipe.Exec(ctx)\n	if err != nil {\n		return fmt.Errorf(\"redis pipeline exec err %v\", err.Error())\n	}\n\n	ab.Lock()\n	ab.IDMap[id] = true\n	ab.Unlock()\n",
 "	// claim the id first, another goroutine may be registering it as well\n	ab.Lock()\n	ab.IDMap[id] = true\n	ab.Unlock()\n\n	_, err := pipe.Exec(ctx)\n	if err != nil {\n		return fmt.Errorf(\"redis pipeline exec err %v\", err.Error())\n	}\n")], "core/addressbook", """
package addressbook

import (
	"context"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/log"
)
""" + REDIS + """
func TestDemo(t *testing.T) {
	mr := redisUp(t)
	ab := New(core.AddressInfo{Node: "n1", Ip: "10.0.0.1", Port: 1})
	ctx := context.Background()
	mr.SetError("LOADING")
	if err := ab.Register(ctx, "ty", "a1", 5); err == nil {
		t.Fatal("a failing store was not reported")
	}
	mr.SetError("")
	if info, err := ab.GetByID(ctx, "a1"); err == nil {
		t.Fatalf("an actor that was never published is found: %+v", info)
	}
	if err := ab.Register(ctx, "ty", "a1", 5); err != nil {
		t.Fatal(err)
	}
}
""", "a registration whose store batch fails, followed by a lookup or a retry", "the node believes in an address that was never published")

S("ab-lowweight-shadowed", "A04", [("core/addressbook/addressbook_impl.go", "		if weight < lowestWeight {\n			var nodeInfo core.AddressInfo", "		if weight < lowestWeight {\n			lowestWeight = weight\n			var nodeInfo core.AddressInfo"),
 ("core/addressbook/addressbook_impl.go", "				continue\n			}\n			lowestWeight = weight\n			selectedNode", "				continue\n			}\n			selectedNode")], "core/addressbook", """
package addressbook

import (
	"context"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/pojol/braid/lib/log"
)
""" + REDIS + """
func TestDemo(t *testing.T) {
	mr := redisUp(t)
	ab := New(core.AddressInfo{Node: "good", Ip: "10.0.0.1", Port: 1})
	if err := ab.Register(context.Background(), "ty", "a1", 50); err != nil {
		t.Fatal(err)
	}
	mr.HSet(def.RedisAddressbookNodesField, "broken", "{")
	mr.HSet("{node:broken}", "total_weight", "1")
	for i := 0; i < 100; i++ {
		info, err := ab.GetLowWeightNodeForActor(context.Background(), "ty")
		if err != nil || info.Node != "good" {
			t.Fatalf("try %d: %+v %v", i, info, err)
		}
	}
}
""", "a node whose info is unreadable, of the lowest weight, visited before the usable ones", "a candidate that cannot be read makes the choice fail for all the others")

S("ab-count-hides-failure", "A03", [("core/addressbook/addressbook_impl.go", "		if err == redis.Nil {\n			// Key doesn't exist, return 0\n			return 0, nil\n		}\n		return 0, fmt.Errorf(\"failed to get count for actor type %s: %v\", actorType, err)\n", "		// the set does not exist (yet), nobody registered\n		log.WarnF(\"no count for actor type %s: %v\", actorType, err)\n		return 0, nil\n")], "core/addressbook", """
package addressbook

import (
	"context"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/log"
)
""" + REDIS + """
func TestDemo(t *testing.T) {
	mr := redisUp(t)
	ab := New(core.AddressInfo{Node: "n1", Ip: "10.0.0.1", Port: 1})
	if n, err := ab.GetActorTypeCount(context.Background(), "ty"); n != 0 || err != nil {
		t.Fatal(n, err)
	}
	mr.SetError("LOADING")
	if _, err := ab.GetActorTypeCount(context.Background(), "ty"); err == nil {
		t.Fatal("a failing store is reported as zero actors")
	}
}
""", "the store failing while a type is counted", "a failing store is reported as a type without actors, so quantity limits are not applied")

S("ab-clear-lock-kept", "A05", [("core/addressbook/addressbook_impl.go", "	defer dismutex.Unlock(ctx, ab.NodeID, mid)\n", ""),
 ("core/addressbook/addressbook_impl.go", "		return fmt.Errorf(\"failed to clear node data: %w\", err)\n	}\n", "		return fmt.Errorf(\"failed to clear node data: %w\", err)\n	}\n	dismutex.Unlock(ctx, ab.NodeID, mid)\n")], "core/addressbook", """
package addressbook

import (
	"context"
	"fmt"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/log"
)
""" + REDIS + """
func TestDemo(t *testing.T) {
	mr := redisUp(t)
	ab := New(core.AddressInfo{Node: "n1", Ip: "10.0.0.1", Port: 1})
	if err := ab.Clear(context.Background()); err != nil {
		t.Fatal(err)
	}
	if mr.Exists("n1") {
		t.Fatal("the lock is still held")
	}
	mr.Set("{node:n1}", "not a hash")
	if err := ab.Clear(context.Background()); err == nil {
		t.Fatal("a failing step was not reported")
	}
	if mr.Exists("n1") {
		t.Fatal("the lock is still held after a failing step")
	}
}
""", "a store failure between taking the node's lock and the final batch", "the node's distributed lock stays taken until it expires")

S("dismutex-get-then-del", "D01", [("lib/dismutex/dismutex.go", "	status, err := delScript.Run(ctx, trdredis.GetClient(), []string{token}, value).Int()\n\n	return status != 0 && err == nil\n", "	// only the owner may delete the lock\n	cur, err := trdredis.Get(ctx, token).Result()\n	if err != nil || cur != value {\n		return false\n	}\n\n	status, err := trdredis.Del(ctx, token).Result()\n	return status != 0 && err == nil\n"),
 ("lib/dismutex/dismutex.go", """
var delScript = redis.NewScript(`
if redis.call("get", KEYS[1]) == ARGV[1] then
	return redis.call("del", KEYS[1])
else
	return 0
end`)
""", ""), ("lib/dismutex/dismutex.go", "	\"github.com/redis/go-redis/v9\"\n", "")], "lib/dismutex", """
package dismutex

import (
	"context"
	"fmt"
	"net"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/redis/go-redis/v9"
)

type hook struct{ after func(cmd redis.Cmder) }

func (h hook) DialHook(next redis.DialHook) redis.DialHook {
	return func(ctx context.Context, n, a string) (net.Conn, error) { return next(ctx, n, a) }
}
func (h hook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		err := next(ctx, cmd)
		h.after(cmd)
		return err
	}
}
func (h hook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return next
}

func TestDemo(t *testing.T) {
	mr := miniredis.RunT(t)
	trdredis.BuildClientWithOption(trdredis.WithAddr(fmt.Sprintf("redis://%s", mr.Addr())))
	ctx := context.Background()
	v, err := Lock(ctx, "node")
	if err != nil {
		t.Fatal(err)
	}
	taken := false
	trdredis.GetClient().AddHook(hook{after: func(cmd redis.Cmder) {
		if cmd.Name() == "get" && !taken { // the lock expires here and somebody else takes it
			taken = true
			mr.Set("node", "somebody else")
		}
	}})
	Unlock(ctx, "node", v)
	if taken && !mr.Exists("node") {
		t.Fatal("the lock of another owner was deleted")
	}
	if !taken && mr.Exists("node") {
		t.Fatal("the lock was not released")
	}
}
""", "the lock expiring and being taken by another owner between reading and deleting it", "release can delete a lock that meanwhile belongs to somebody else")

PSHOOK = '''
type hook struct {
	before   func(cmd redis.Cmder) error
	pipeline func(cmds []redis.Cmder) error
}

func (h hook) DialHook(next redis.DialHook) redis.DialHook { return next }
func (h hook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		if h.before != nil {
			if err := h.before(cmd); err != nil {
				cmd.SetErr(err)
				return err
			}
		}
		return next(ctx, cmd)
	}
}
func (h hook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		if h.pipeline != nil {
			if err := h.pipeline(cmds); err != nil {
				for _, c := range cmds {
					c.SetErr(err)
				}
				return err
			}
		}
		return next(ctx, cmds)
	}
}
'''
PSHEAD = """
package pubsub

import (
	"context"
	"fmt"
	"testing"
%s
	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/log"
%s)
""" + REDIS.replace("%", "%%")

S("ps-ack-first", "P01", [("lib/pubsub/ps_channel.go", "			mb.GetWg().Add(1)\n			queue.Push(mb)\n\n", ""),
 ("lib/pubsub/ps_channel.go", "id %v pipeline failed: %v\", c.topic, c.channel, recvmsg.Header.ID, err)\n			}\n", "id %v pipeline failed: %v\", c.topic, c.channel, recvmsg.Header.ID, err)\n			}\n\n			mb.GetWg().Add(1)\n			queue.Push(mb)\n")], "lib/pubsub",
 PSHEAD % ("\t\"sync/atomic\"\n\t\"time\"\n", "\t\"github.com/pojol/braid/lib/mpsc\"\n\t\"github.com/redis/go-redis/v9\"\n") + PSHOOK + """
func TestDemo(t *testing.T) {
	redisUp(t)
	q := mpsc.New()
	var acked, early int32
	trdredis.GetClient().AddHook(hook{pipeline: func(cmds []redis.Cmder) error {
		for _, c := range cmds {
			if c.Name() == "xack" {
				atomic.AddInt32(&acked, 1)
				if q.Count() == 0 {
					atomic.AddInt32(&early, 1)
				}
			}
		}
		return nil
	}})
	ps := BuildWithOption()
	tp := ps.GetOrCreateTopic("demo")
	c, err := tp.Sub(context.Background(), "ch")
	if err != nil {
		t.Fatal(err)
	}
	c.Arrived(q)
	if err := tp.Pub(context.Background(), "ev", []byte("x")); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300 && atomic.LoadInt32(&acked) == 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	c.Stop()
	if atomic.LoadInt32(&acked) == 0 {
		t.Fatal("never acknowledged")
	}
	if atomic.LoadInt32(&early) > 0 {
		t.Fatal("acknowledged before the subscriber had it")
	}
}
""", "a crash between the acknowledgement and the hand-over", "a message is removed from the stream before anybody has it")

S("ps-read-error-ends", "P02", [("lib/pubsub/ps_channel.go", "			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{", "			msgs, err := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{"),
 ("lib/pubsub/ps_channel.go", "				Count:    10,\n			}).Val()\n", "				Count:    10,\n			}).Result()\n			if err != nil && err != redis.Nil {\n				log.WarnF(\"topic %v channel %v read err %v\", c.topic, c.channel, err)\n				return\n			}\n")], "lib/pubsub",
 PSHEAD % ("\t\"time\"\n", "\t\"github.com/pojol/braid/lib/mpsc\"\n") + """
func TestDemo(t *testing.T) {
	mr := redisUp(t)
	q := mpsc.New()
	ps := BuildWithOption()
	tp := ps.GetOrCreateTopic("demo")
	c, err := tp.Sub(context.Background(), "ch")
	if err != nil {
		t.Fatal(err)
	}
	c.Arrived(q)
	mr.SetError("LOADING")
	time.Sleep(200 * time.Millisecond)
	mr.SetError("")
	if err := tp.Pub(context.Background(), "ev", []byte("x")); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 300 && q.Count() == 0; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	c.Stop()
	if q.Count() != 1 {
		t.Fatalf("%d messages delivered after the store came back", q.Count())
	}
}
""", "a read that fails while the store is unavailable for a moment", "a transient store failure ends the subscription for good")

S("ps-topic-twice", "P05", [("lib/pubsub/ps_mgr.go", "	// Check again in case another goroutine created the topic\n	if t, ok := nps.topicMap[name]; ok {\n		return t\n	}\n\n", "")], "lib/pubsub",
 PSHEAD % ("\t\"sync\"\n", "") + """
func TestDemo(t *testing.T) {
	redisUp(t)
	_ = context.Background
	_ = trdredis.GetClient
	ps := BuildWithOption()
	for n := 0; n < 2000; n++ {
		got := make([]*Topic, 8)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				got[i] = ps.GetOrCreateTopic(fmt.Sprintf("demo%d", n))
			}(i)
		}
		close(start)
		wg.Wait()
		for _, g := range got {
			if g == nil || g != got[0] {
				t.Fatalf("users of one topic do not share it: %v", got)
			}
		}
	}
}
""", "two goroutines asking for the same new topic at once", "a topic is created twice and its users do not share it")

S("ps-close-len-unknown", "P06", [("lib/pubsub/ps_topic.go", "		cnt, err := thdredis.XLen(ctx, rt.topic).Result()\n		if err != nil && err != redis.Nil {\n			return fmt.Errorf(\"failed to get XLen: %w\", err)\n		}\n\n		if cnt == 0 {", "		// without groups nobody is waiting for the entries that are left\n		if cnt := thdredis.XLen(ctx, rt.topic).Val(); cnt == 0 {")], "lib/pubsub",
 PSHEAD % ("\t\"errors\"\n", "\t\"github.com/redis/go-redis/v9\"\n") + PSHOOK + """
func TestDemo(t *testing.T) {
	mr := redisUp(t)
	ps := BuildWithOption()
	tp := ps.GetOrCreateTopic("demo")
	if err := tp.Pub(context.Background(), "ev", []byte("x")); err != nil {
		t.Fatal(err)
	}
	trdredis.GetClient().AddHook(hook{before: func(cmd redis.Cmder) error {
		if cmd.Name() == "xlen" {
			return errors.New("i/o timeout")
		}
		return nil
	}})
	err := tp.Close()
	if !mr.Exists("demo") {
		t.Fatal("an undelivered entry was destroyed")
	}
	if err == nil {
		t.Fatal("the failure was not reported")
	}
}
""", "the store failing exactly while the length of the stream is read", "closing a topic deletes its stream although it was not known to be empty")

S("unbounded-load-drops", "P07", [("lib/unbounded/unbounded.go", "		select {\n		case b.c <- b.backlog[0]:\n			b.backlog[0] = nil\n			b.backlog = b.backlog[1:]\n		default:\n		}\n", "		next := b.backlog[0]\n		b.backlog[0] = nil\n		b.backlog = b.backlog[1:]\n		select {\n		case b.c <- next:\n		default:\n		}\n")], "lib/unbounded", """
package unbounded

import "testing"

func TestDemo(t *testing.T) {
	b := NewUnbounded()
	for i := 0; i < 4; i++ {
		b.Put(i)
	}
	b.Load() // the channel is still full, e.g. another consumer loaded it meanwhile
	for i := 0; i < 4; i++ {
		select {
		case v := <-b.Get():
			if v != i {
				t.Fatalf("got %v, want %v", v, i)
			}
		default:
			t.Fatalf("value %d is lost", i)
		}
		b.Load()
	}
}
""", "loading while the channel is still full, which takes a second consumer", "the oldest backlog value is dropped although it did not reach the channel")
