From 2a20eaab85f32c737d337708024559158bfc15c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 01/58] fix: guard the actor timer's ticker, Stop/Reset before
 the first tick crashed and raced

---
 core/actor/actor_runtime_impl.go |  4 ++--
 core/actor/actor_timer.go        | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 695ac6d..89be663 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -110,11 +110,11 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 			a.timerChan <- info
 		}
 
-		info.ticker = time.NewTicker(info.interval)
+		tick := info.startTicker()
 
 		for {
 			select {
-			case <-info.ticker.C:
+			case <-tick:
 				a.timerChan <- info
 			case <-a.shutdownCh:
 				return
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 0069d54..31c758a 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -1,6 +1,7 @@
 package actor
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -9,6 +10,7 @@ import (
 
 type TimerInfo struct {
 	ID       string
+	mutex    sync.Mutex // 保护 ticker 和 interval
 	ticker   *time.Ticker
 	dueTime  time.Duration
 	interval time.Duration
@@ -19,16 +21,37 @@ type TimerInfo struct {
 }
 
 func (t *TimerInfo) Stop() bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	if !t.active.Load() {
 		return false
 	}
 	t.active.Store(false)
-	t.ticker.Stop()
+	if t.ticker != nil { // nil until the first interval starts
+		t.ticker.Stop()
+	}
 
 	return true
 }
 
+// startTicker creates the ticker of a periodic timer, stopped if the timer was cancelled meanwhile
+func (t *TimerInfo) startTicker() <-chan time.Time {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	t.ticker = time.NewTicker(t.interval)
+	if !t.active.Load() {
+		t.ticker.Stop()
+	}
+
+	return t.ticker.C
+}
+
 func (t *TimerInfo) Reset(interval time.Duration) bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
 		if t.interval == interval {
@@ -43,7 +66,9 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	t.active.Store(true)
 	t.nextTick.Store(time.Now().Add(t.interval))
 
-	t.ticker.Reset(t.interval)
+	if t.ticker != nil {
+		t.ticker.Reset(t.interval)
+	}
 	return true
 }
 
@@ -52,6 +77,9 @@ func (t *TimerInfo) IsActive() bool {
 }
 
 func (t *TimerInfo) Interval() time.Duration {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	return t.interval
 }
 
-- 
2.43.0


From a9cf652462500108c2e3020f5bb904705a41ba13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 02/58] fix: actor timer with interval 0 fires once instead of
 crashing the process

---
 core/actor/actor_runtime_impl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 89be663..17c93c2 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -108,6 +108,12 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		if info.dueTime > 0 {
 			<-time.After(info.dueTime)
 			a.timerChan <- info
+		} else if info.Interval() <= 0 {
+			a.timerChan <- info
+		}
+
+		if info.Interval() <= 0 {
+			return // executes only once
 		}
 
 		tick := info.startTicker()
-- 
2.43.0


From aa3696d6216dd3169ef37326a6aac6b063f4c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 03/58] fix: timer goroutines end at actor shutdown also while
 waiting for the due time or a full queue

---
 core/actor/actor_runtime_impl.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 17c93c2..219108f 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -106,10 +106,22 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 
 		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
 		if info.dueTime > 0 {
-			<-time.After(info.dueTime)
-			a.timerChan <- info
-		} else if info.Interval() <= 0 {
-			a.timerChan <- info
+			due := time.NewTimer(info.dueTime)
+			defer due.Stop()
+
+			select {
+			case <-due.C:
+			case <-a.shutdownCh:
+				return
+			}
+		}
+
+		if info.dueTime > 0 || info.Interval() <= 0 {
+			select {
+			case a.timerChan <- info:
+			case <-a.shutdownCh:
+				return
+			}
 		}
 
 		if info.Interval() <= 0 {
@@ -121,7 +133,11 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		for {
 			select {
 			case <-tick:
-				a.timerChan <- info
+				select {
+				case a.timerChan <- info:
+				case <-a.shutdownCh:
+					return
+				}
 			case <-a.shutdownCh:
 				return
 			}
-- 
2.43.0


From 76d37921f5a803465e53a0d578bb0c8c83b8a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 04/58] fix: a tick queued before its timer was cancelled is no
 longer executed

---
 core/actor/actor_runtime_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 219108f..a039aad 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -325,7 +325,7 @@ func (a *Runtime) update() {
 	for {
 		select {
 		case timerInfo := <-a.timerChan:
-			if atomic.LoadInt32(&a.closed) != 0 {
+			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
 				continue
 			}
 			func() {
-- 
2.43.0


From 98f565dd025dbb4b9b4def7743e48d4c33747a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 05/58] fix: guard the actor's timer table against concurrent
 OnTimer, CancelTimer and Exit

---
 core/actor/actor_runtime_impl.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index a039aad..5f77257 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"runtime/debug"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -35,6 +36,7 @@ type Runtime struct {
 	recovery     RecoveryFunc
 
 	timers    map[core.ITimer]struct{}
+	timersMu  sync.Mutex // 保护 timers
 	timerChan chan core.ITimer
 	//timerWg   sync.WaitGroup // 用于等待所有 timer goroutine 退出
 
@@ -98,7 +100,9 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		time.Duration(interval)*time.Millisecond,
 		f, args)
 
+	a.timersMu.Lock()
 	a.timers[info] = struct{}{}
+	a.timersMu.Unlock()
 	//a.timerWg.Add(1)
 
 	go func() {
@@ -155,7 +159,10 @@ func (a *Runtime) CancelTimer(t core.ITimer) {
 	log.InfoF("[braid.timer] %v timer cancel", a.Id)
 
 	t.Stop()
+
+	a.timersMu.Lock()
 	delete(a.timers, t)
+	a.timersMu.Unlock()
 }
 
 // Sub subscribes to a message
@@ -390,7 +397,14 @@ func (a *Runtime) Exit() {
 	close(a.shutdownCh) // 发送关闭信号
 	<-a.closeCh         // 等待所有消息处理完毕
 
+	a.timersMu.Lock()
+	timers := make([]core.ITimer, 0, len(a.timers))
 	for t := range a.timers {
+		timers = append(timers, t)
+	}
+	a.timersMu.Unlock()
+
+	for _, t := range timers {
 		a.CancelTimer(t)
 	}
 	//a.timerWg.Wait()
-- 
2.43.0


From 9aef9074505b7cb857ab89f9648d03361e8a00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 06/58] fix: an execute-once timer is finished and forgotten
 once triggered

---
 core/actor/actor_runtime_impl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 5f77257..16cfd09 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -335,6 +335,9 @@ func (a *Runtime) update() {
 			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
 				continue
 			}
+			if timerInfo.Interval() <= 0 {
+				a.CancelTimer(timerInfo) // triggered, an execute-once timer is finished
+			}
 			func() {
 				defer func() {
 					if r := recover(); r != nil {
-- 
2.43.0


From dae1b7f12e512fae8d8a8a9d59f2c3738cf53a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:08 +0000
Subject: [PATCH 07/58] fix: guard the actor's handler table, OnEvent raced
 with message dispatch

---
 core/actor/actor_runtime_impl.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 16cfd09..52de28c 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -33,6 +33,7 @@ type Runtime struct {
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
 	chains       map[string]core.IChain
+	chainsMu     sync.RWMutex // 保护 chains
 	recovery     RecoveryFunc
 
 	timers    map[core.ITimer]struct{}
@@ -81,13 +82,30 @@ func (a *Runtime) Context() core.ActorContext {
 }
 
 func (a *Runtime) OnEvent(ev string, chainFunc func(ctx core.ActorContext) core.IChain) error {
+	if _, exists := a.getChain(ev); exists {
+		return fmt.Errorf("actor: repeat register event %v", ev)
+	}
+
+	chain := chainFunc(a.actorCtx)
+
+	a.chainsMu.Lock()
+	defer a.chainsMu.Unlock()
+
 	if _, exists := a.chains[ev]; exists {
 		return fmt.Errorf("actor: repeat register event %v", ev)
 	}
-	a.chains[ev] = chainFunc(a.actorCtx)
+	a.chains[ev] = chain
 	return nil
 }
 
+func (a *Runtime) getChain(ev string) (core.IChain, bool) {
+	a.chainsMu.RLock()
+	defer a.chainsMu.RUnlock()
+
+	chain, ok := a.chains[ev]
+	return chain, ok
+}
+
 // OnTimer register timer
 //
 //	dueTime: Delay time before starting the timer (in milliseconds). If 0, starts immediately
@@ -367,7 +385,7 @@ func (a *Runtime) update() {
 					mw.GetWg().Done()
 				}()
 
-				if chain, ok := a.chains[mw.Req.Header.Event]; ok {
+				if chain, ok := a.getChain(mw.Req.Header.Event); ok {
 					err := chain.Execute(mw)
 					if err != nil {
 						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
-- 
2.43.0


From 145b311ac7e1fedeccb0a3a193623b95a52de94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:09 +0000
Subject: [PATCH 08/58] fix: actor subscription registers its handler before
 delivery starts and reports its failure

---
 core/actor/actor_runtime_impl.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 52de28c..783eeca 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -191,15 +191,22 @@ func (a *Runtime) CancelTimer(t core.ITimer) {
 //	callback: Callback function for successful subscription
 func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.ActorContext) core.IChain, opts ...pubsub.TopicOption) error {
 
+	// The handler must exist before the first message can arrive
+	if err := a.OnEvent(channel, callback); err != nil {
+		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
+	}
+
 	ch, err := a.Sys.Sub(topic, channel, opts...)
 	if err != nil {
+		a.chainsMu.Lock()
+		delete(a.chains, channel)
+		a.chainsMu.Unlock()
+
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
 	ch.Arrived(a.q)
 
-	a.OnEvent(channel, callback)
-
 	return nil
 }
 
-- 
2.43.0


From 05a235a643f602630a2af493b52c01de987213fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 09/58] fix: a stream entry without the expected fields no
 longer crashes the subscriber

---
 lib/pubsub/ps_channel.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 751eae7..17b8af3 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -57,7 +57,12 @@ func (c *Channel) loop() {
 			for _, v := range msgs {
 				for _, msg := range v.Messages {
 
-					val := msg.Values["msg"].(string)
+					val, valok := msg.Values["msg"].(string)
+					event, evok := msg.Values["event"].(string)
+					if !valok || !evok {
+						log.WarnF("topic %v channel %v skip malformed entry %v", c.topic, c.channel, msg.ID)
+						continue
+					}
 
 					if atomic.LoadInt32(&c.exitFlag) == 1 {
 						log.WarnF("cannot write to the exiting channel %v", c.channel)
@@ -67,7 +72,7 @@ func (c *Channel) loop() {
 					msg := &router.Message{
 						Header: &router.Header{
 							ID:    msg.ID,
-							Event: msg.Values["event"].(string),
+							Event: event,
 						},
 						Body: []byte(val),
 					}
-- 
2.43.0


From 2d5ff9516d4fb03b2f7f06ac7c33ee90de95c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:24 +0000
Subject: [PATCH 10/58] fix: Channel.Close reports a failure to destroy the
 group

---
 lib/pubsub/ps_channel.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 17b8af3..8fc2427 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -139,7 +139,7 @@ func (c *Channel) Close() error {
 	}
 
 	if len(consumers) == 0 {
-		_, err := thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Result()
+		_, err = thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Result()
 		if err != nil {
 			log.WarnF("braid.pubsub topic %v channel %v redis channel destory err %v", c.topic, c.channel, err.Error())
 		}
-- 
2.43.0


From 6f4a4b887ef8f765e3abf07b4f0513bc56b0a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 11/58] fix: closing a channel ends its reading and delivering
 goroutines

---
 lib/pubsub/ps_channel.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 8fc2427..6707426 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -2,6 +2,7 @@ package pubsub
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -21,6 +22,8 @@ type Channel struct {
 	consumer string // group consumer
 
 	exitFlag int32
+	readDone chan struct{}  // closed when no more entries are read
+	handlers sync.WaitGroup // goroutines handing messages over
 	msgCh    *unbounded.Unbounded
 }
 
@@ -30,6 +33,7 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 		topic:    topic,
 		channel:  channel,
 		consumer: uuid.New().String(),
+		readDone: make(chan struct{}),
 		msgCh:    unbounded.NewUnbounded(),
 	}
 
@@ -45,7 +49,9 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 
 func (c *Channel) loop() {
 	go func() {
-		for {
+		defer close(c.readDone)
+
+		for atomic.LoadInt32(&c.exitFlag) == 0 {
 			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
 				Group:    c.channel,
 				Consumer: c.consumer,
@@ -64,11 +70,6 @@ func (c *Channel) loop() {
 						continue
 					}
 
-					if atomic.LoadInt32(&c.exitFlag) == 1 {
-						log.WarnF("cannot write to the exiting channel %v", c.channel)
-						return
-					}
-
 					msg := &router.Message{
 						Header: &router.Header{
 							ID:    msg.ID,
@@ -85,12 +86,21 @@ func (c *Channel) loop() {
 }
 
 func (c *Channel) addHandlers(queue *mpsc.Queue) {
+	c.handlers.Add(1)
 	go func() {
+		defer c.handlers.Done()
 
 		for {
-			m, ok := <-c.msgCh.Get()
-			if !ok {
-				goto EXT
+			var m interface{}
+			select {
+			case m = <-c.msgCh.Get():
+			case <-c.readDone:
+				// hand over what was read before the channel was stopped
+				select {
+				case m = <-c.msgCh.Get():
+				default:
+					goto EXT
+				}
 			}
 			c.msgCh.Load()
 
@@ -124,8 +134,19 @@ func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
 
+// Stop ends the local consumption of the channel, its group (and the entries in it) is kept.
+//
+// It returns once the entries that were already read have been handed over.
+func (c *Channel) Stop() {
+	atomic.StoreInt32(&c.exitFlag, 1)
+	<-c.readDone
+	c.handlers.Wait()
+}
+
 func (c *Channel) Close() error {
 
+	c.Stop()
+
 	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()
 	if err != nil {
 		log.WarnF("braid.pubsub topic %v channel %v redis channel del consumer err %v", c.topic, c.channel, err.Error())
-- 
2.43.0


From 60622cf632257017f73b4cdd75a50957b103a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 12/58] fix: actor exit waits for its last handler, loses no
 accepted message and may be repeated

---
 core/actor/actor_runtime_impl.go | 61 ++++++++++++++++----------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 783eeca..561b37d 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -30,8 +30,10 @@ type Runtime struct {
 	q            *mpsc.Queue
 	reenterQueue *mpsc.Queue
 	closed       int32
+	closedMu     sync.RWMutex // 保证 closed 之后不会再有消息入队
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
+	exitOnce     sync.Once
 	chains       map[string]core.IChain
 	chainsMu     sync.RWMutex // 保护 chains
 	recovery     RecoveryFunc
@@ -231,6 +233,9 @@ func (a *Runtime) Received(mw *msg.Wrapper) error {
 		}
 	}
 
+	a.closedMu.RLock()
+	defer a.closedMu.RUnlock()
+
 	if atomic.LoadInt32(&a.closed) != 0 {
 		// Actor已关闭，不处理消息，也不增加计数器
 		log.WarnF("actor %v is closed, message %v will be ignored", a.Id, mw.Req.Header.Event)
@@ -331,30 +336,16 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 	return reenterFuture
 }
 
-func (a *Runtime) update() {
-	checkClose := func() {
-		timeout := time.After(10 * time.Second)
-		ticker := time.NewTicker(10 * time.Millisecond)
-		defer ticker.Stop()
+// exitTimeout limits how long an exiting actor processes its remaining messages
+const exitTimeout = 10 * time.Second
 
-		for !a.q.Empty() || !a.reenterQueue.Empty() {
-			select {
-			case <-timeout:
-				log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
-				goto ForceClose
-			case <-ticker.C:
-				continue
-			}
-		}
+func (a *Runtime) update() {
+	defer close(a.closeCh)
 
-	ForceClose:
-		if atomic.CompareAndSwapInt32(&a.closed, 1, 2) {
-			log.InfoF("[braid.actor] %s closing channel", a.Id)
-			close(a.closeCh)
-		}
-	}
+	shutdownCh := a.shutdownCh
+	var force <-chan time.Time
 
-	for {
+	for atomic.LoadInt32(&a.closed) == 0 || a.q.Count() > 0 || a.reenterQueue.Count() > 0 {
 		select {
 		case timerInfo := <-a.timerChan:
 			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
@@ -408,13 +399,15 @@ func (a *Runtime) update() {
 				reenterMsg.action(reenterMsg.msg.(*msg.Wrapper))
 			}
 
-		case <-a.shutdownCh:
-			if atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
-				log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
-				go checkClose()
-			}
-		case <-a.closeCh:
-			log.DebugF("[braid.actor] %s exiting closed", a.Id)
+		case <-shutdownCh:
+			shutdownCh = nil
+			force = time.After(exitTimeout)
+
+			a.closedMu.Lock()
+			atomic.StoreInt32(&a.closed, 1)
+			a.closedMu.Unlock()
+		case <-force:
+			log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
 			return
 		}
 	}
@@ -422,8 +415,16 @@ func (a *Runtime) update() {
 
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
-	close(a.shutdownCh) // 发送关闭信号
-	<-a.closeCh         // 等待所有消息处理完毕
+	a.exitOnce.Do(func() {
+		close(a.shutdownCh) // 发送关闭信号
+	})
+
+	// 等待所有消息处理完毕
+	select {
+	case <-a.closeCh:
+	case <-time.After(exitTimeout):
+		log.WarnF("[braid.actor] %s exit timed out", a.Id)
+	}
 
 	a.timersMu.Lock()
 	timers := make([]core.ITimer, 0, len(a.timers))
-- 
2.43.0


From bbf8acb749323ab9ce1763d84e0b3bc63d716530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:23 +0000
Subject: [PATCH 13/58] fix: an exiting actor ends its subscriptions

---
 core/actor/actor_runtime_impl.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 561b37d..78eb0ab 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -38,6 +38,10 @@ type Runtime struct {
 	chainsMu     sync.RWMutex // 保护 chains
 	recovery     RecoveryFunc
 
+	channels   []*pubsub.Channel // 已订阅的 channel
+	channelsMu sync.Mutex        // 保护 channels
+	exiting    bool
+
 	timers    map[core.ITimer]struct{}
 	timersMu  sync.Mutex // 保护 timers
 	timerChan chan core.ITimer
@@ -207,11 +211,31 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
+	a.channelsMu.Lock()
+	defer a.channelsMu.Unlock()
+
+	if a.exiting {
+		ch.Stop()
+		return fmt.Errorf("failed to subscribe to topic %s: actor %v is exiting", topic, a.Id)
+	}
+	a.channels = append(a.channels, ch)
 	ch.Arrived(a.q)
 
 	return nil
 }
 
+// stopSubscriptions ends the delivery of subscribed messages into the mailbox
+func (a *Runtime) stopSubscriptions() {
+	a.channelsMu.Lock()
+	defer a.channelsMu.Unlock()
+
+	a.exiting = true
+	for _, ch := range a.channels {
+		ch.Stop()
+	}
+	a.channels = nil
+}
+
 func (a *Runtime) Call(idOrSymbol, actorType, event string, mw *msg.Wrapper) error {
 
 	if mw.Req.Header.OrgActorID == "" { // Only record the original sender
@@ -416,6 +440,7 @@ func (a *Runtime) update() {
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
 	a.exitOnce.Do(func() {
+		a.stopSubscriptions()
 		close(a.shutdownCh) // 发送关闭信号
 	})
 
-- 
2.43.0


From 1bc55067e4c9506551ca2c1656820520f69460e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 14/58] fix: the future returned by Then always completes, a
 panicking callback does not end the process

---
 core/actor/actor_reenter_impl.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index e776c6b..a368c55 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -4,6 +4,7 @@ import (
 	"sync"
 
 	"github.com/pojol/braid/core"
+	"github.com/pojol/braid/lib/log"
 	"github.com/pojol/braid/router/msg"
 )
 
@@ -25,16 +26,23 @@ func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
 	f.mutex.Lock()
 	defer f.mutex.Unlock()
 
-	if f.IsCompleted() {
-		go callback(f.result)
-		return NewFuture()
-	}
-
 	newFuture := NewFuture()
-	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {
+	next := func(mw *msg.Wrapper) {
+		defer newFuture.Complete(mw)
+		defer func() {
+			if r := recover(); r != nil {
+				log.ErrorF("panic in future callback: %v", r)
+			}
+		}()
+
 		callback(mw)
-		newFuture.Complete(mw)
-	})
+	}
+
+	if f.IsCompleted() {
+		go next(f.result)
+		return newFuture
+	}
+	f.callbacks = append(f.callbacks, next)
 
 	return newFuture
 }
-- 
2.43.0


From e4535ff7ecab45e07a055e662bfb38d3b2c4995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:13 +0000
Subject: [PATCH 15/58] fix: a reentrant call always completes its future, with
 a usable wrapper

---
 core/actor/actor_runtime_impl.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 78eb0ab..887ff33 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -290,18 +290,18 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 		timeout = 30 * time.Second
 	}
 
-	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	ctx, cancel := context.WithTimeout(rmw.Ctx, timeout)
 
 	go func() {
 		select {
-		case <-rmw.Ctx.Done():
-			log.WarnF("[ReenterCall] Context canceled: %v", rmw.Ctx.Err())
-			cancel()
-
-			errWrapper := &msg.Wrapper{
-				Ctx: rmw.Ctx,
-				Err: rmw.Ctx.Err(),
+		case <-ctx.Done():
+			if callFuture.IsCompleted() {
+				return // the call ended and released its context
 			}
+			log.WarnF("[ReenterCall] Context canceled: %v", ctx.Err())
+
+			errWrapper := msg.NewBuilder(rmw.Ctx).Build()
+			errWrapper.Err = ctx.Err()
 
 			reenterFuture.Complete(errWrapper)
 		case <-callFuture.done:
@@ -354,6 +354,16 @@ func (a *Runtime) ReenterCall(idOrSymbol, actorType, event string, rmw *msg.Wrap
 			msg: ret,
 		}
 
+		a.closedMu.RLock()
+		defer a.closedMu.RUnlock()
+
+		if atomic.LoadInt32(&a.closed) != 0 {
+			// nobody is left to run the action
+			errWrapper := msg.NewBuilder(rmw.Ctx).Build()
+			errWrapper.Err = fmt.Errorf("actor %v is closed", a.Id)
+			reenterFuture.Complete(errWrapper)
+			return
+		}
 		a.reenterQueue.Push(reenterMsg)
 	})
 
-- 
2.43.0


From 1b62574172aadd15c21f451b2ec5e410de4a4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 16/58] fix: actor builder options are usable from the first
 WithOpt and never shared unlocked

---
 core/actor/actor_build_impl.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/actor/actor_build_impl.go b/core/actor/actor_build_impl.go
index 149c101..2977d08 100644
--- a/core/actor/actor_build_impl.go
+++ b/core/actor/actor_build_impl.go
@@ -31,6 +31,9 @@ func (p *ActorLoaderBuilder) WithType(ty string) core.IActorBuilder {
 
 func (p *ActorLoaderBuilder) WithOpt(key string, value string) core.IActorBuilder {
 	p.optionsMutex.Lock()
+	if p.Options == nil {
+		p.Options = make(map[string]string)
+	}
 	p.Options[key] = value
 	p.optionsMutex.Unlock()
 	return p
@@ -59,7 +62,12 @@ func (p *ActorLoaderBuilder) GetNodeUnique() bool {
 func (p *ActorLoaderBuilder) GetOptions() map[string]string {
 	p.optionsMutex.RLock()
 	defer p.optionsMutex.RUnlock()
-	return p.Options
+
+	options := make(map[string]string, len(p.Options))
+	for k, v := range p.Options {
+		options[k] = v
+	}
+	return options
 }
 
 func (p *ActorLoaderBuilder) GetOpt(key string) string {
-- 
2.43.0


From 9ff95ec6f304dcba63b5a637204e35d6a7bd7746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 17/58] fix: concurrent registrations of one id or node-unique
 type, only one may succeed

---
 core/node/system_impl.go | 52 ++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7044d19..03b9241 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	registering map[string]string // id -> type, registrations in progress
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -48,6 +49,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -102,23 +104,17 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		return nil, fmt.Errorf("braid.system register actor id %v type %v parm err", builder.GetID(), builder.GetType())
 	}
 
-	sys.Lock()
-	if _, ok := sys.actoridmap[builder.GetID()]; ok {
-		sys.Unlock()
-		return nil, core.ErrActorRegisterRepeat
+	if err := sys.reserve(builder); err != nil {
+		return nil, err
 	}
-	sys.Unlock()
+	defer func() {
+		sys.Lock()
+		delete(sys.registering, builder.GetID())
+		sys.Unlock()
+	}()
 
 	if builder.GetGlobalQuantityLimit() != 0 {
 
-		if builder.GetNodeUnique() {
-			for _, v := range sys.actoridmap {
-				if v.Type() == builder.GetType() {
-					return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
-				}
-			}
-		}
-
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil {
 			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
@@ -151,6 +147,36 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// reserve claims the id (and the type, when it is unique in the node) for one registration
+func (sys *NormalSystem) reserve(builder core.IActorBuilder) error {
+	sys.Lock()
+	defer sys.Unlock()
+
+	if _, ok := sys.actoridmap[builder.GetID()]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+	if _, ok := sys.registering[builder.GetID()]; ok {
+		return core.ErrActorRegisterRepeat
+	}
+
+	if builder.GetNodeUnique() {
+		unique := fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
+		for _, v := range sys.actoridmap {
+			if v.Type() == builder.GetType() {
+				return unique
+			}
+		}
+		for _, ty := range sys.registering {
+			if ty == builder.GetType() {
+				return unique
+			}
+		}
+	}
+
+	sys.registering[builder.GetID()] = builder.GetType()
+	return nil
+}
+
 func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
-- 
2.43.0


From 483d3b7cac83432e3b8daa72d08f739db8599e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:22 +0000
Subject: [PATCH 18/58] fix: a registration without constructor is refused
 before its address is published

---
 core/node/system_impl.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 03b9241..95ec4ee 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -124,6 +124,10 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		}
 	}
 
+	if builder.GetConstructor() == nil {
+		return nil, fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType())
+	}
+
 	// Register first, then build
 	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
 	if err != nil {
@@ -131,13 +135,8 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 
 	// Instantiate actor
-	var actor core.IActor
-	if builder.GetConstructor() != nil {
-		actor = builder.GetConstructor()(builder)
-		actor.Init(ctx)
-	} else {
-		panic(fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType()))
-	}
+	actor := builder.GetConstructor()(builder)
+	actor.Init(ctx)
 
 	sys.Lock()
 	sys.actoridmap[builder.GetID()] = actor
-- 
2.43.0


From 66b93c1f7e395dd824486277824994479e3b1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 19/58] fix: the actor registry is iterated under its lock

---
 core/node/system_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 95ec4ee..4eca9d7 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -212,6 +212,9 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 }
 
 func (sys *NormalSystem) Actors() []core.IActor {
+	sys.RLock()
+	defer sys.RUnlock()
+
 	actors := []core.IActor{}
 	for _, v := range sys.actoridmap {
 		actors = append(actors, v)
@@ -499,7 +502,7 @@ func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
 		wait.Done()
 	}
 
-	for _, actor := range sys.actoridmap {
+	for _, actor := range sys.Actors() {
 		wait.Add(1)
 
 		go func(a core.IActor) {
-- 
2.43.0


From bd696e077ef3e5d00fb3a6b84325af5d6907fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:24 +0000
Subject: [PATCH 20/58] fix: an unknown actor type no longer crashes a call, an
 actor being registered is not taken for a stale record

---
 core/node/system_impl.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 4eca9d7..ad89436 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -290,10 +290,7 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
-		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
+		sys.cleanStaleRecord(mw.Ctx, info.ActorId, actorType, event)
 
 		return ErrSelfCall
 	}
@@ -302,6 +299,29 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	return sys.handleRemoteCall(mw.Ctx, info, mw)
 }
 
+// cleanStaleRecord removes the address of an actor that this node does not run
+func (sys *NormalSystem) cleanStaleRecord(ctx context.Context, id, actorType, event string) {
+	sys.RLock()
+	_, running := sys.actoridmap[id]
+	_, registering := sys.registering[id]
+	sys.RUnlock()
+	if running || registering {
+		return // not stale, the registration ended meanwhile or is in progress
+	}
+
+	ac := sys.factory.Get(actorType)
+	if ac == nil {
+		log.WarnF("braid.system stale actor record actorID %v unknown actorTy %v call ev %v", id, actorType, event)
+		return
+	}
+
+	if err := sys.addressbook.Unregister(ctx, id, ac.Weight); err != nil {
+		log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, id, err)
+		return
+	}
+	log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, id, event)
+}
+
 func (sys *NormalSystem) findLocalOrWildcardActor(ctx context.Context, ty string) (core.IActor, core.AddressInfo, error) {
 	sys.RLock()
 
@@ -454,10 +474,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
-		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
+		sys.cleanStaleRecord(mw.Ctx, info.ActorId, actorType, event)
 		return ErrSelfCall
 	}
 
-- 
2.43.0


From 5a5ca7d866a833a0c6edb1b0cc4bfe75160dde45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 21/58] fix: Send to another node connects on demand and no
 longer fails on its missing reply

---
 core/node/system_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index ad89436..6b29713 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -482,11 +482,11 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.Call(mw.Ctx,
+	return sys.client.CallWait(mw.Ctx,
 		fmt.Sprintf("%s:%d", info.Ip, info.Port),
 		"/router.Acceptor/routing",
 		&router.RouteReq{Msg: mw.Req},
-		nil) // We don't need the response for Send
+		&router.RouteRes{}) // We don't need the response for Send
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-- 
2.43.0


From bcea72d38f530f525eaeda8e238e5982d4a1c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:26 +0000
Subject: [PATCH 22/58] fix: publishing to a topic nobody subscribed to in this
 process no longer crashes

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 6b29713..2bfd481 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -490,7 +490,7 @@ func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)
+	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-- 
2.43.0


From 0ff2dd50463df0f6e3a753571e8f487ae52d1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:27 +0000
Subject: [PATCH 23/58] fix: the topic options of a subscription take effect

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 2bfd481..041d368 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -494,7 +494,7 @@ func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-	return sys.ps.GetOrCreateTopic(topic).Sub(context.TODO(), channel)
+	return sys.ps.GetOrCreateTopic(topic, opts...).Sub(context.TODO(), channel)
 }
 
 func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor, error) {
-- 
2.43.0


From 78bbc413058f19ca6c6588fe814332abaf800af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 24/58] fix: a call that gave up waiting reports its timeout

---
 core/node/system_impl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 041d368..f7adea1 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -345,6 +345,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 		log.InfoF("braid.system local call root event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
 		mw.Done = make(chan struct{})
 		ready := make(chan struct{})
+		var waitErr error // set before mw.Done is closed
 		go func() {
 			<-ready // Wait for Received to complete
 
@@ -360,8 +361,9 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 			case <-time.After(sys.callTimeout):
 				log.WarnF("braid.system wait timeout for event %v id %v, remaining tasks: %d",
 					mw.Req.Header.Event, mw.Req.Header.TargetActorID, mw.GetWg().Count())
+				waitErr = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
 				if mw.Err == nil {
-					mw.Err = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
+					mw.Err = waitErr
 				}
 			}
 
@@ -376,7 +378,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
 		select {
 		case <-mw.Done:
-			return nil
+			return waitErr
 		case <-mw.Ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
 				mw.Req.Header.TargetActorID, mw.Req.Header.Event)
-- 
2.43.0


From 5f70ff2958d7326503017d22abf8c26a4e45fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:29 +0000
Subject: [PATCH 25/58] fix: the caller of a remote actor learns that the call
 failed

---
 core/node/system_acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 9ebff79..415bb44 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -110,5 +110,5 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 	}
 
 	res.Msg = routermsg.Res
-	return res, nil
+	return res, err
 }
-- 
2.43.0


From a5c28f09245213a7963310acb2af100372313d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 26/58] fix: unregistering with an unknown type leaves the
 actor running instead of half removed

---
 core/node/system_impl.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index f7adea1..40290fc 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -177,6 +177,11 @@ func (sys *NormalSystem) reserve(builder core.IActorBuilder) error {
 }
 
 func (sys *NormalSystem) Unregister(id, ty string) error {
+	ac := sys.factory.Get(ty)
+	if ac == nil {
+		return fmt.Errorf("braid.system unregister actor id %v unknown type %v", id, ty)
+	}
+
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
 
@@ -195,12 +200,7 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	}
 
 	// Unregister from the address book
-	ac := sys.factory.Get(ty)
-	if ac == nil {
-		return fmt.Errorf("braid.system unregister actor id %v unknown type %v", id, ty)
-	}
-
-	err := sys.addressbook.Unregister(context.TODO(), id, sys.factory.Get(ty).Weight)
+	err := sys.addressbook.Unregister(context.TODO(), id, ac.Weight)
 	if err != nil {
 		// Log the error, but don't return it as the actor has already been removed locally
 		log.WarnF("braid.system unregister actor id %s failed from address book err: %v", id, err)
-- 
2.43.0


From 85c5713470d59b1c2a5e2c0b3da923a6baeca0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:36 +0000
Subject: [PATCH 27/58] fix: the timer service reads its task table under its
 lock

---
 lib/timer/timer.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 08a6552..ba51a08 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -122,17 +122,36 @@ func Init() *TimerService {
 }
 
 func (ts *TimerService) StartAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.tasks() {
 		v.start()
 	}
 }
 
 func (ts *TimerService) StopAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.tasks() {
 		v.stop()
 	}
 }
 
+func (ts *TimerService) tasks() []Timer {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	tasks := make([]Timer, 0, len(ts.taskMap))
+	for _, v := range ts.taskMap {
+		tasks = append(tasks, v)
+	}
+	return tasks
+}
+
+func (ts *TimerService) task(taskID string) (Timer, bool) {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	t, ok := ts.taskMap[taskID]
+	return t, ok
+}
+
 func (ts *TimerService) NewTickTask(taskID string, isRun bool, dueTime int64, interval int64, handler TimerHandleFunc, taskData interface{}) (Timer, error) {
 	task, err := NewTickTimer(taskID, isRun, dueTime, interval, handler, taskData)
 	if err != nil {
@@ -156,22 +175,20 @@ func (service *TimerService) RemoveTask(taskID string) {
 }
 
 func (ts *TimerService) StopTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.task(taskID); ok {
+		t.stop()
 	}
-	ts.taskMap[taskID].stop()
 }
 
 func (ts *TimerService) StartTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.task(taskID); ok {
+		t.start()
 	}
-	ts.taskMap[taskID].start()
 }
 
 func (ts *TimerService) Stop(name string) error {
 
-	if v, ok := ts.taskMap[name]; ok {
+	if v, ok := ts.task(name); ok {
 		v.stop()
 		return nil
 	}
-- 
2.43.0


From 18b3de4c1845ebbd7ae0bfa0ee5489b8caf6e301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 28/58] fix: a stopped task of the timer service ends its
 goroutine, a panicking one does not run twice

---
 lib/timer/timer.go      |  8 +++++--
 lib/timer/timer_tick.go | 51 ++++++++++++++++++++++++++++-------------
 2 files changed, 41 insertions(+), 18 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index ba51a08..7c91d96 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -52,16 +52,20 @@ type TimerInfo struct {
 	handler     TimerHandleFunc
 	context     *TimerContext
 	State       string
-	DueTime     int64 //开始任务的延迟时间（以毫秒为单位），如果<=0则不延迟
+	quit        chan struct{} // closed by stop
+	DueTime     int64         //开始任务的延迟时间（以毫秒为单位），如果<=0则不延迟
 }
 
 // Stop stop task
 func (task *TimerInfo) stop() {
+	task.mutex.Lock()
+	defer task.mutex.Unlock()
+
 	if !task.isRun {
 		return
 	}
 	if task.State == Timer_state_run {
-		task.TimeTicker.Stop()
+		close(task.quit)
 		task.State = Timer_state_stop
 	}
 }
diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index e244eb8..8d35309 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -21,7 +21,8 @@ func (tt *TimerTask) start() {
 
 	if tt.State == Timer_state_init || tt.State == Timer_state_stop {
 		tt.State = Timer_state_run
-		startTickTask(tt)
+		tt.quit = make(chan struct{})
+		startTickTask(tt, tt.quit)
 	}
 }
 
@@ -31,6 +32,10 @@ func (tt *TimerTask) runOnce() error {
 }
 
 func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, handler TimerHandleFunc, taskData interface{}) (Timer, error) {
+	if interval <= 0 {
+		return nil, fmt.Errorf("timer %v interval %v must be positive", taskID, interval)
+	}
+
 	context := new(TimerContext)
 	context.TimerID = taskID
 	context.TimerData = taskData
@@ -47,16 +52,14 @@ func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, hand
 	return task, nil
 }
 
-func startTickTask(task *TimerTask) {
+func startTickTask(task *TimerTask, quit <-chan struct{}) {
 	handler := func() {
 		defer func() {
 			if err := recover(); err != nil {
 				//task.taskService.Logger().Debug(task.TaskID, " loop handler recover error => ", err)
-				if task.taskService.ExceptionHandler != nil {
+				if task.taskService != nil && task.taskService.ExceptionHandler != nil {
 					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))
 				}
-				//goroutine panic, restart cron task
-				startTickTask(task)
 			}
 		}()
 		if task.taskService != nil && task.taskService.OnBeforeHandler != nil {
@@ -76,19 +79,35 @@ func startTickTask(task *TimerTask) {
 			task.taskService.OnEndHandler(task.Context())
 		}
 	}
-	dofunc := func() {
-		task.TimeTicker = time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+	go func() {
+		//等待设定的延时毫秒
+		if task.DueTime > 0 {
+			due := time.NewTimer(time.Duration(task.DueTime) * time.Millisecond)
+			defer due.Stop()
+
+			select {
+			case <-due.C:
+			case <-quit:
+				return
+			}
+		}
+
+		ticker := time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+		defer ticker.Stop()
+
+		task.mutex.Lock()
+		task.TimeTicker = ticker
+		task.mutex.Unlock()
+
 		handler()
 		for {
-			<-task.TimeTicker.C
-			handler()
+			select {
+			case <-ticker.C:
+				handler()
+			case <-quit:
+				return
+			}
 		}
-	}
-	//等待设定的延时毫秒
-	if task.DueTime > 0 {
-		go time.AfterFunc(time.Duration(task.DueTime)*time.Millisecond, dofunc)
-	} else {
-		go dofunc()
-	}
+	}()
 
 }
-- 
2.43.0


From 432bc8a9213a9adb1e2d28d097fc7b61b7df8a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 29/58] fix: unregistering releases the weight of the node the
 actor was registered on

---
 core/addressbook/addressbook_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a2412e..30b848d 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -118,8 +118,8 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
 
 	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
 
 	_, err = pipe.Exec(ctx)
 	if err == nil {
-- 
2.43.0


From e91302d65d1f420c76c860dcd0bb2bb5fe04a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 30/58] fix: the low weight node is chosen by its own weight,
 not by that of another node

---
 core/addressbook/addressbook_impl.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 30b848d..28bc8c1 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -253,25 +253,20 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	pipe := trdredis.Pipeline()
 
 	// 使用 pipeline 批量获取节点权重
+	weights := make(map[string]*redis.StringCmd, len(nodeInfoMap))
 	for nodeID := range nodeInfoMap {
-		pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
+		weights[nodeID] = pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
 	}
 
-	cmders, err := pipe.Exec(ctx)
-	if err != nil {
+	_, err = pipe.Exec(ctx)
+	if err != nil && err != redis.Nil { // a node without weight is skipped below
 		return core.AddressInfo{}, fmt.Errorf("pipeline execution failed: %v", err)
 	}
 
-	i := 0
 	for nodeID, nodeInfoJSON := range nodeInfoMap {
-		if i >= len(cmders) {
-			break
-		}
-
-		weightStr, err := cmders[i].(*redis.StringCmd).Result()
+		weightStr, err := weights[nodeID].Result()
 		if err != nil {
 			log.WarnF("unable to get weight for node %s: %v", nodeID, err)
-			i++
 			continue
 		}
 
@@ -281,14 +276,11 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 			var nodeInfo core.AddressInfo
 			if err := json.Unmarshal([]byte(nodeInfoJSON), &nodeInfo); err != nil {
 				log.WarnF("unable to unmarshal node info: %v", err)
-				i++
 				continue
 			}
 			lowestWeight = weight
 			selectedNode = nodeInfo
 		}
-
-		i++
 	}
 
 	if selectedNode.Node == "" {
-- 
2.43.0


From ef3e71c756578c7da75ee52977d4d5d25794201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 31/58] fix: clearing the node's addresses clears the local
 cache too

---
 core/addressbook/addressbook_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 28bc8c1..f94b4ad 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -358,5 +358,9 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 		return fmt.Errorf("failed to clear node data: %w", err)
 	}
 
+	ab.Lock()
+	ab.IDMap = make(map[string]bool)
+	ab.Unlock()
+
 	return nil
 }
-- 
2.43.0


From 91ea5a016888d8c5ddbcf0606f8effff000f10bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:41 +0000
Subject: [PATCH 32/58] fix: unbounded.Len reads the backlog under its lock

---
 lib/unbounded/unbounded.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/unbounded/unbounded.go b/lib/unbounded/unbounded.go
index 0f25c16..6e458b2 100644
--- a/lib/unbounded/unbounded.go
+++ b/lib/unbounded/unbounded.go
@@ -53,5 +53,7 @@ func (b *Unbounded) Get() <-chan interface{} {
 }
 
 func (b *Unbounded) Len() int {
+	b.Lock()
+	defer b.Unlock()
 	return len(b.backlog)
 }
-- 
2.43.0


From c192ea09e067fa04461cb6b3ee617ae5e66e9bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:42 +0000
Subject: [PATCH 33/58] fix: concurrent first calls share one connection, a
 wrong call option is an error instead of a crash

---
 lib/grpc/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 0a12bd0..3fb2306 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -140,14 +140,18 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 			return err
 		}
 
-		c.connmap.Store(addr, conn)
+		// keep the connection that was stored first, another caller may have created one meanwhile
+		if stored, loaded := c.connmap.LoadOrStore(addr, conn); loaded {
+			conn.Close()
+			conn = stored.(*grpc.ClientConn)
+		}
 	}
 
 	if len(opts) != 0 {
 		for _, v := range opts {
 			callopt, ok := v.(grpc.CallOption)
 			if !ok {
-				fmt.Printf("[braid.client] call option type mismatch")
+				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
 			}
 			grpcopts = append(grpcopts, callopt)
 		}
-- 
2.43.0


From a9436f8c5659bab08d5e01ab202e69652dcd3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 34/58] fix: the options given to NewBuilder take effect

---
 router/msg/msg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index eca22b1..bc606ec 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -51,6 +51,9 @@ func NewBuilder(ctx context.Context, opts ...WrapperOption) *MsgBuilder {
 		CustomMapSerialize: &CustomJsonSerialize{},
 		CustomObjSerialize: &CustomObjectSerialize{},
 	}
+	for _, opt := range opts {
+		opt(&parm)
+	}
 
 	if wc, ok := ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
 		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
-- 
2.43.0


From 334b3d02f1baadd5714285e519ca32559b0175df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 35/58] fix: WithReqHeader keeps the timestamp of the given
 header

---
 router/msg/msg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index bc606ec..3913e63 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -97,6 +97,7 @@ func (b *MsgBuilder) WithReqHeader(h *router.Header) *MsgBuilder {
 		b.wrapper.Req.Header.TargetActorID = h.TargetActorID
 		b.wrapper.Req.Header.TargetActorType = h.TargetActorType
 		b.wrapper.Req.Header.Custom = h.Custom
+		b.wrapper.Req.Header.Timestamp = h.Timestamp
 	} else {
 		// If either header is nil, directly set the header
 		b.wrapper.Req.Header = h
-- 
2.43.0


From d6e8c70073129d190736a34bca5d91ce4f54788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 36/58] fix: a custom object that cannot be encoded leaves the
 custom field as it was

---
 router/msg/map_custom_object.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router/msg/map_custom_object.go b/router/msg/map_custom_object.go
index fefb8f0..8d6e0cd 100644
--- a/router/msg/map_custom_object.go
+++ b/router/msg/map_custom_object.go
@@ -7,6 +7,7 @@ func (b *MsgBuilder) WithReqCustomObject(v any) *MsgBuilder {
 	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
 	if err != nil {
 		b.wrapper.Err = fmt.Errorf("with req custom object encode err %v", err)
+		return b
 	}
 
 	b.wrapper.Req.Header.Custom = byt
@@ -18,6 +19,7 @@ func (b *MsgBuilder) WithResCustomObject(v any) *MsgBuilder {
 	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
 	if err != nil {
 		b.wrapper.Err = fmt.Errorf("with res custom object encode err %v", err)
+		return b
 	}
 
 	b.wrapper.Res.Header.Custom = byt
-- 
2.43.0


From 7e3fd0741fa3c88e35c29748a29e7b43aef0d740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 37/58] fix: custom fields of type int8 and uint8 are read back

---
 router/msg/msg_custom_map.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f52f8e2..f5ccb99 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -115,6 +115,14 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
@@ -191,6 +199,14 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
-- 
2.43.0


From dfb18f3b79cb74299d947675be290fe43e4a51f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 38/58] fix: custom fields are read with the serializer they
 were written with

---
 router/msg/msg_custom_map.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f5ccb99..6bfff94 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -1,7 +1,6 @@
 package msg
 
 import (
-	"encoding/json"
 	fmt "fmt"
 
 	"github.com/pojol/braid/lib/log"
@@ -72,6 +71,14 @@ func (b *MsgBuilder) WithResCustomFieldsMap(data map[string]any) *MsgBuilder {
 	return b
 }
 
+// customMapSerialize is the serializer the fields were written with
+func (mw *Wrapper) customMapSerialize() ICustomSerialize {
+	if mw.parm.CustomMapSerialize == nil { // not created by a builder
+		return &CustomJsonSerialize{}
+	}
+	return mw.parm.CustomMapSerialize
+}
+
 // GetReqCustomMap gets the custom fields map from the message
 //
 // Note: The custom map is serialized using JSON, all value types need to be carefully converted
@@ -81,7 +88,7 @@ func (mw *Wrapper) GetReqCustomMap() (map[string]any, error) {
 		return nil, fmt.Errorf("empty request body")
 	}
 	var data map[string]any
-	err := json.Unmarshal(mw.Req.Header.Custom, &data)
+	err := mw.customMapSerialize().Decode(mw.Req.Header.Custom, &data)
 	return data, err
 }
 
@@ -166,7 +173,7 @@ func (mw *Wrapper) GetResCustomMap() (map[string]any, error) {
 		return nil, fmt.Errorf("empty resuest body")
 	}
 	var data map[string]any
-	err := json.Unmarshal(mw.Res.Header.Custom, &data)
+	err := mw.customMapSerialize().Decode(mw.Res.Header.Custom, &data)
 	return data, err
 }
 
-- 
2.43.0


From f2fd99c3f869a15588a00ae33f7df0fde757adfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 39/58] fix: GetCmdsByteSlice returns the error of the failed
 command

---
 3rd/redis/client_utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/redis/client_utils.go b/3rd/redis/client_utils.go
index 171c996..9b5f45a 100644
--- a/3rd/redis/client_utils.go
+++ b/3rd/redis/client_utils.go
@@ -13,13 +13,13 @@ func GetCmdsByteSlice(cmds []redis.Cmder) ([][]byte, error) {
 	var err error
 	for _, cmder := range cmds {
 		cmd := cmder.(*redis.StringCmd)
-		bytes, err := cmd.Bytes()
+		var bytes []byte
+		bytes, err = cmd.Bytes()
 		if err != nil {
-			goto EXT
+			break
 		}
 		bts = append(bts, bytes)
 	}
-EXT:
 	return bts, err
 }
 
-- 
2.43.0


From 28821ee26cc7de1ece6b11eb673f221de772e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:14 +0000
Subject: [PATCH 40/58] fix: ConnHGet uses the caller's context

---
 3rd/redis/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/redis/client.go b/3rd/redis/client.go
index 38af08a..dc94216 100644
--- a/3rd/redis/client.go
+++ b/3rd/redis/client.go
@@ -85,7 +85,7 @@ func ConnHGet(conn *redis.Conn, ctx context.Context, key, field string) (string,
 		defer span.End(ctx)
 	}
 
-	cmd := conn.HGet(context.TODO(), key, field)
+	cmd := conn.HGet(ctx, key, field)
 	return cmd.Val(), cmd.Err()
 }
 
-- 
2.43.0


From d953758d0d80dca5bed3f47606cc0395a5477117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 41/58] fix: WithConnectTimeOut sets the connect timeout

---
 3rd/redis/client_opt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/redis/client_opt.go b/3rd/redis/client_opt.go
index e98c79e..8018a63 100644
--- a/3rd/redis/client_opt.go
+++ b/3rd/redis/client_opt.go
@@ -63,7 +63,7 @@ func WithWriteTimeOut(writetimeout time.Duration) Option {
 // WithConnectTimeOut 连接超时时间
 func WithConnectTimeOut(connecttimeout time.Duration) Option {
 	return func(c *Parm) {
-		c.redisopt.ConnMaxLifetime = connecttimeout
+		c.redisopt.DialTimeout = connecttimeout
 	}
 }
 
-- 
2.43.0


From a10e952b6d20aa75873ab0ccc03206de9bed0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:16 +0000
Subject: [PATCH 42/58] fix: WriteJSON leaves no tail of a longer previous
 content

---
 utils/file/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/file/file.go b/utils/file/file.go
index 022f103..b216e67 100644
--- a/utils/file/file.go
+++ b/utils/file/file.go
@@ -74,7 +74,7 @@ func SaveFile(dat []byte, fileName string) error {
 
 // WriteJSON 保存json文件
 func WriteJSON(path string, jsonByte []byte) {
-	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0755)
+	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 	if err != nil {
 		log.Fatal(err)
 		return
-- 
2.43.0


From 2961717185f7d4818b52f794952a6525f8785cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 43/58] fix: version strategies are registered under their lock

---
 core/entity.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/entity.go b/core/entity.go
index 02be84d..045e31d 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -35,6 +35,9 @@ var verRMu sync.RWMutex
 
 // RegisterVersionStrategy 注册entity版本变更执行的策略函数
 func RegisterVersionStrategy(s VerStrategy) {
+	verRMu.Lock()
+	defer verRMu.Unlock()
+
 	verList = append(verList, s)
 }
 
-- 
2.43.0


From 156ae75ab95347728d2b76e2c27858fb15778bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:19 +0000
Subject: [PATCH 44/58] fix: the next version does not depend on the
 registration order

---
 core/entity.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/entity.go b/core/entity.go
index 045e31d..5a720d6 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -59,14 +59,14 @@ func GetNextVersion(ver int) int {
 	verRMu.RLock()
 	defer verRMu.RUnlock()
 
+	next := ver // 没有更高的版本则保持不变
 	for _, v := range verList {
-		if v.Version > ver {
-			return v.Version
+		if v.Version > ver && (next == ver || v.Version < next) {
+			next = v.Version
 		}
 	}
 
-	// 保持不变
-	return ver
+	return next
 }
 
 type VerStrategy struct {
-- 
2.43.0


From 266b905d2b09dbff843b222db0fc89f14223b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 45/58] fix: a sampler parameter above 1 no longer crashes the
 slow reporter

---
 lib/tracer/slow_reporter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/tracer/slow_reporter.go b/lib/tracer/slow_reporter.go
index 9f70e6a..5d8cd86 100644
--- a/lib/tracer/slow_reporter.go
+++ b/lib/tracer/slow_reporter.go
@@ -62,7 +62,11 @@ func NewSlowReporter(sender jaeger.Transport, metrics *jaeger.Metrics, probabili
 		metrics = jaeger.NewNullMetrics()
 	}
 
-	sampler, _ := jaeger.NewProbabilisticSampler(probabilistic)
+	sampler, err := jaeger.NewProbabilisticSampler(probabilistic)
+	if err != nil {
+		// e.g. the parameter of a rate limiting sampler, which is no probability
+		sampler, _ = jaeger.NewProbabilisticSampler(1)
+	}
 
 	reporter := &slowReporter{
 		sender:              sender,
-- 
2.43.0


From a19569b0698db1e1eb369f97d9991e6370a5eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:59 +0000
Subject: [PATCH 46/58] fix: a subscription refused by an exiting actor leaves
 no handler behind

---
 core/actor/actor_runtime_impl.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 887ff33..b78e030 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -112,6 +112,13 @@ func (a *Runtime) getChain(ev string) (core.IChain, bool) {
 	return chain, ok
 }
 
+func (a *Runtime) removeChain(ev string) {
+	a.chainsMu.Lock()
+	defer a.chainsMu.Unlock()
+
+	delete(a.chains, ev)
+}
+
 // OnTimer register timer
 //
 //	dueTime: Delay time before starting the timer (in milliseconds). If 0, starts immediately
@@ -204,10 +211,7 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 
 	ch, err := a.Sys.Sub(topic, channel, opts...)
 	if err != nil {
-		a.chainsMu.Lock()
-		delete(a.chains, channel)
-		a.chainsMu.Unlock()
-
+		a.removeChain(channel)
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
@@ -216,6 +220,7 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 
 	if a.exiting {
 		ch.Stop()
+		a.removeChain(channel)
 		return fmt.Errorf("failed to subscribe to topic %s: actor %v is exiting", topic, a.Id)
 	}
 	a.channels = append(a.channels, ch)
-- 
2.43.0


From ad9d9eaec254f95badf36b33de308e69e996e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:46 +0000
Subject: [PATCH 47/58] fix: an actor's subscriptions are stopped outside its
 lock

---
 core/actor/actor_runtime_impl.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index b78e030..f626460 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -216,29 +216,32 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 	}
 
 	a.channelsMu.Lock()
-	defer a.channelsMu.Unlock()
+	exiting := a.exiting
+	if !exiting {
+		a.channels = append(a.channels, ch)
+		ch.Arrived(a.q)
+	}
+	a.channelsMu.Unlock()
 
-	if a.exiting {
+	if exiting {
 		ch.Stop()
 		a.removeChain(channel)
 		return fmt.Errorf("failed to subscribe to topic %s: actor %v is exiting", topic, a.Id)
 	}
-	a.channels = append(a.channels, ch)
-	ch.Arrived(a.q)
-
 	return nil
 }
 
 // stopSubscriptions ends the delivery of subscribed messages into the mailbox
 func (a *Runtime) stopSubscriptions() {
 	a.channelsMu.Lock()
-	defer a.channelsMu.Unlock()
-
 	a.exiting = true
-	for _, ch := range a.channels {
+	channels := a.channels
+	a.channels = nil
+	a.channelsMu.Unlock()
+
+	for _, ch := range channels {
 		ch.Stop()
 	}
-	a.channels = nil
 }
 
 func (a *Runtime) Call(idOrSymbol, actorType, event string, mw *msg.Wrapper) error {
-- 
2.43.0


From 846d178bf3dbca9866d0e2764d2a5d9704780b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 48/58] fix: pubsub: a topic whose existence cannot be checked
 is left untouched

---
 lib/pubsub/ps_topic.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/pubsub/ps_topic.go b/lib/pubsub/ps_topic.go
index 6c242b2..aa6ff83 100644
--- a/lib/pubsub/ps_topic.go
+++ b/lib/pubsub/ps_topic.go
@@ -36,7 +36,12 @@ func newTopic(name string, mgr *Pubsub, opts ...TopicOption) *Topic {
 		opt(options)
 	}
 
-	cnt, _ := thdredis.Exists(ctx, rt.topic).Result()
+	cnt, err := thdredis.Exists(ctx, rt.topic).Result()
+	if err != nil {
+		log.WarnF("[braid.pubsub ]Topic %v exists check failed %v", rt.topic, err)
+		return rt
+	}
+
 	if cnt == 0 {
 		id, err := thdredis.XAdd(ctx, &redis.XAddArgs{
 			Stream: rt.topic,
-- 
2.43.0


From 3ec28f72f8cecf22f67c10051e7e06e026fcd671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:43 +0000
Subject: [PATCH 49/58] fix: addressbook: a node whose weight cannot be read is
 skipped

---
 core/addressbook/addressbook_impl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index f94b4ad..fcb0c6d 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -270,7 +270,11 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 			continue
 		}
 
-		weight, _ := strconv.Atoi(weightStr)
+		weight, err := strconv.Atoi(weightStr)
+		if err != nil {
+			log.WarnF("unreadable weight for node %s: %v", nodeID, err)
+			continue
+		}
 
 		if weight < lowestWeight {
 			var nodeInfo core.AddressInfo
-- 
2.43.0


From 9e3a321e54d2fc386e78abfce9da7b5514dfb270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:18 +0000
Subject: [PATCH 50/58] fix: grpc client Init leaks a connection when an
 address is listed twice

---
 lib/grpc/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 3fb2306..722131f 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -101,7 +101,10 @@ func (c *Client) Init() error {
 		if err != nil {
 			fmt.Printf("[braid.client] new grpc conn err %s", err.Error())
 		} else {
-			c.connmap.Store(addr, conn)
+			// the address may be listed twice, or a connection may be there already
+			if _, loaded := c.connmap.LoadOrStore(addr, conn); loaded {
+				conn.Close()
+			}
 		}
 	}
 
-- 
2.43.0


From 5b939dc8283ac6428441518f371c5e834af970bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:19 +0000
Subject: [PATCH 51/58] fix: adding custom fields to null custom data no longer
 panics

---
 router/msg/msg_custom_map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index 6bfff94..58e444b 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -23,6 +23,10 @@ func (b *MsgBuilder) WithReqCustomFields(attrs ...Attr) *MsgBuilder {
 		}
 	}
 
+	if data == nil { // the existing data may be null
+		data = make(map[string]any, len(attrs))
+	}
+
 	for _, attr := range attrs {
 		data[attr.Key] = attr.Value
 	}
@@ -52,6 +56,10 @@ func (b *MsgBuilder) WithResCustomFields(attrs ...Attr) *MsgBuilder {
 		}
 	}
 
+	if data == nil { // the existing data may be null
+		data = make(map[string]any, len(attrs))
+	}
+
 	for _, attr := range attrs {
 		data[attr.Key] = attr.Value
 	}
-- 
2.43.0


From c69200f913ad6669f3fd902f1e6cb663883b10ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 52/58] fix: the options of one redis client no longer become
 the defaults of the next

---
 3rd/redis/client.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/3rd/redis/client.go b/3rd/redis/client.go
index dc94216..1510393 100644
--- a/3rd/redis/client.go
+++ b/3rd/redis/client.go
@@ -24,10 +24,12 @@ var (
 
 func BuildClientWithOption(opts ...Option) *redis.Client {
 
+	p := *defaultClientConfig // the defaults of other clients stay as they are
+
 	for _, opt := range opts {
-		opt(defaultClientConfig)
+		opt(&p)
 	}
-	return new(defaultClientConfig)
+	return new(&p)
 }
 
 func new(p *Parm) *redis.Client {
-- 
2.43.0


From 5fc491076bda459c03d615e734214ebfda92a462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 53/58] fix: a second database on the same mongo server is no
 longer dropped

---
 3rd/mgo/mgr_opts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/3rd/mgo/mgr_opts.go b/3rd/mgo/mgr_opts.go
index ed3752b..ec99216 100644
--- a/3rd/mgo/mgr_opts.go
+++ b/3rd/mgo/mgr_opts.go
@@ -29,9 +29,9 @@ func WithTracer(trc tracer.ITracer) Option {
 	}
 }
 
-func (p *Parm) _checkRepeat(addr string) bool {
+func (p *Parm) _checkRepeat(info ConnInfo) bool {
 	for _, c := range p.conns {
-		if c.Addr == addr {
+		if c == info {
 			return true
 		}
 	}
@@ -53,7 +53,7 @@ func WithConnPoolSize(size uint64) Option {
 
 func AppendConn(info ConnInfo) Option {
 	return func(p *Parm) {
-		if !p._checkRepeat(info.Addr) {
+		if !p._checkRepeat(info) {
 			p.conns = append(p.conns, info)
 		}
 	}
-- 
2.43.0


From e05d7369969c1192e34a27cfe0f8afce58e5fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:10 +0000
Subject: [PATCH 54/58] fix: the mongo tracer option takes effect

---
 3rd/mgo/mgr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/3rd/mgo/mgr.go b/3rd/mgo/mgr.go
index ac85943..1a83cf3 100644
--- a/3rd/mgo/mgr.go
+++ b/3rd/mgo/mgr.go
@@ -73,6 +73,7 @@ func Collection(db string, collection string) *LCollection {
 	}
 
 	return &LCollection{
+		trc:  mgrPtr.trc,
 		coll: cli.cli.Database(db).Collection(collection),
 	}
 }
-- 
2.43.0


From ea45686224c6038176592d14d03354ab314b366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:11 +0000
Subject: [PATCH 55/58] fix: stream interceptors of grpc servers and clients
 are installed

---
 lib/grpc/client.go |  3 +++
 lib/grpc/server.go | 11 +++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 722131f..d718abe 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -59,6 +59,9 @@ func (c *Client) newconn(addr string) (*grpc.ClientConn, error) {
 	if len(c.parm.UnaryInterceptors) > 0 {
 		dialOpts = append(dialOpts, grpc.WithUnaryInterceptor(grpc_middleware.ChainUnaryClient(c.parm.UnaryInterceptors...)))
 	}
+	if len(c.parm.StreamInterceptors) > 0 {
+		dialOpts = append(dialOpts, grpc.WithStreamInterceptor(grpc_middleware.ChainStreamClient(c.parm.StreamInterceptors...)))
+	}
 	if len(c.parm.dialOptions) > 0 {
 		dialOpts = append(dialOpts, c.parm.dialOptions...)
 	}
diff --git a/lib/grpc/server.go b/lib/grpc/server.go
index deb5378..4cd772c 100644
--- a/lib/grpc/server.go
+++ b/lib/grpc/server.go
@@ -33,14 +33,17 @@ func BuildServerWithOption(opts ...ServerOption) *Server {
 		opt(&p)
 	}
 
-	var rpcserver *grpc.Server
+	var interceptors []grpc.ServerOption
 
 	if len(p.UnaryInterceptors) != 0 {
-		rpcserver = grpc.NewServer(grpc.UnaryInterceptor(grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)))
-	} else {
-		rpcserver = grpc.NewServer()
+		interceptors = append(interceptors, grpc.UnaryInterceptor(grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)))
+	}
+	if len(p.StreamInterceptors) != 0 {
+		interceptors = append(interceptors, grpc.StreamInterceptor(grpc_middleware.ChainStreamServer(p.StreamInterceptors...)))
 	}
 
+	rpcserver := grpc.NewServer(interceptors...)
+
 	if p.Handler == nil {
 		panic(fmt.Errorf("grpc server handler not set"))
 	}
-- 
2.43.0


From 7111e13a852870e1bf677d7398dc11a985668cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:12 +0000
Subject: [PATCH 56/58] fix: the caller format options of the logger take
 effect

---
 lib/log/options.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lib/log/options.go b/lib/log/options.go
index b6a23c5..e5bbaee 100644
--- a/lib/log/options.go
+++ b/lib/log/options.go
@@ -247,24 +247,29 @@ func NewLogger(opts ...Option) (*zap.Logger, error) {
 		}
 	}
 
-	core := zapcore.NewCore(
-		zapcore.NewJSONEncoder(*options.EncoderConf), // 编码器配置
-		ws,                                  // 输出方式
-		zap.NewAtomicLevelAt(options.Level), // 日志级别
-	)
-
-	var logger *zap.Logger
+	// the encoder keeps its own copy of the configuration
+	conf := *options.EncoderConf
 	if options.Caller {
 		if options.CallerFunc {
-			options.EncoderConf.EncodeCaller = func(caller zapcore.EntryCaller, enc zapcore.PrimitiveArrayEncoder) {
+			conf.EncodeCaller = func(caller zapcore.EntryCaller, enc zapcore.PrimitiveArrayEncoder) {
 				enc.AppendString(fmt.Sprintf("%s:%d %s()", path.Base(caller.File), caller.Line, funcShortName(caller.Function)))
 			}
 		} else {
-			options.EncoderConf.EncodeCaller = func(caller zapcore.EntryCaller, enc zapcore.PrimitiveArrayEncoder) {
+			conf.EncodeCaller = func(caller zapcore.EntryCaller, enc zapcore.PrimitiveArrayEncoder) {
 				enc.AppendString(fmt.Sprintf("%s:%d", path.Base(caller.File), caller.Line))
 			}
 		}
-		options.EncoderConf.FunctionKey = zapcore.OmitKey
+		conf.FunctionKey = zapcore.OmitKey
+	}
+
+	core := zapcore.NewCore(
+		zapcore.NewJSONEncoder(conf),        // 编码器配置
+		ws,                                  // 输出方式
+		zap.NewAtomicLevelAt(options.Level), // 日志级别
+	)
+
+	var logger *zap.Logger
+	if options.Caller {
 		logger = zap.New(core, zap.AddCallerSkip(options.CallerSkip), zap.AddCaller())
 	} else {
 		logger = zap.New(core)
-- 
2.43.0


From 0186539fffeed8689e237fb776acb3c21df2806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:42 +0000
Subject: [PATCH 57/58] fix: release the span a full tracer queue drops

---
 lib/tracer/slow_reporter.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/tracer/slow_reporter.go b/lib/tracer/slow_reporter.go
index 5d8cd86..23d2356 100644
--- a/lib/tracer/slow_reporter.go
+++ b/lib/tracer/slow_reporter.go
@@ -94,6 +94,8 @@ func (r *slowReporter) Report(span *jaeger.Span) {
 	case r.queue <- reporterQueueItem{itemType: reporterQueueItemSpan, span: span.Retain()}:
 		atomic.AddInt64(&r.queueLength, 1)
 	default:
+		// the span was retained for the queue, which did not take it
+		span.Release()
 		r.metrics.ReporterDropped.Inc(1)
 		r.reporterStats.incDroppedCount()
 	}
-- 
2.43.0


From 23c255323b376af324c6d6e2327b2a8a9325ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:08 +0000
Subject: [PATCH 58/58] fix: Reset with the same interval reactivates a stopped
 timer

---
 core/actor/actor_timer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 31c758a..55ed8ab 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -54,7 +54,7 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
-		if t.interval == interval {
+		if t.interval == interval && t.active.Load() {
 			return true
 		}
 		t.interval = interval
-- 
2.43.0

