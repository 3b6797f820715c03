C='lib/pubsub/ps_channel.go'
T='lib/pubsub/ps_topic.go'
G='lib/pubsub/ps_mgr.go'
U='lib/unbounded/unbounded.go'
# ---- P01
M('P01',C,'''				for _, msg := range v.Messages {
''','''				for _, msg := range v.Messages[:1] {
''')
M('P01',C,'''				for _, msg := range v.Messages {
''','''				for i, msg := range v.Messages {
					if i > 5 {
						break
					}
''')
M('P01',C,'''					if !valok || !evok {
''','''					if !valok || !evok || val == "" {
''')
M('P01',C,'''							ID:    msg.ID,
''','''							ID:    v.Messages[0].ID,
''')
M('P01',C,'''						Body: []byte(val),
''','''						Body: []byte(event + val[:0]),
''')
M('P01',C,'''			queue.Push(mb)

			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)

			_, err := pipe.Exec(context.TODO())
''','''			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)

			_, err := pipe.Exec(context.TODO())
			queue.Push(mb)
''')
M('P01',C,'''					c.msgCh.Put(msg)
''','''					c.msgCh.Put(msg)
					ap := thdredis.Pipeline()
					ap.XAck(context.TODO(), c.topic, c.channel, msg.Header.ID)
					ap.Exec(context.TODO())
''')
M('P01',C,'''			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
''','')
M('P01',C,'''			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
''','')
M('P01',C,'''			_, err := pipe.Exec(context.TODO())
			if err''','''			var err error
			if err''')
M('P01',C,'''pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)''','''pipe.XAck(context.TODO(), c.topic, c.consumer, recvmsg.Header.ID)''')
M('P01',C,'''WithReqHeader(&router.Header{ID: recvmsg.Header.ID, Event: recvmsg.Header.Event}).
''','''WithReqHeader(&router.Header{ID: recvmsg.Header.ID}).
''')
M('P01',C,'''				WithReqBody(recvmsg.Body).Build()''','''				Build()''')
M('P01',C,'''			queue.Push(mb)
''','''			if len(recvmsg.Body) > 0 {
				queue.Push(mb)
			}
''')
M('P01',C,'''			queue.Push(mb)
''','''			queue.Push(mb)
			if recvmsg.Header.Token != "" {
				queue.Push(mb)
			}
''')
M('P01','router/msg/msg.go','''	b.wrapper.Req.Body = byt
''','''	b.wrapper.Res.Body = byt
''')
M('P01',C,'''			for _, v := range msgs {
				for _, msg''','''			if len(msgs) > 0 {
				v := msgs[0]
				if len(v.Messages) == 0 {
					continue
				}
				for _, msg''')
# ---- quiet
Q(C,'''			for _, v := range msgs {
				for _, msg := range v.Messages {

					val, valok := msg.Values["msg"].(string)
					event, evok := msg.Values["event"].(string)
					if !valok || !evok {
						log.WarnF("topic %v channel %v skip malformed entry %v", c.topic, c.channel, msg.ID)
						continue
					}

					msg := &router.Message{
						Header: &router.Header{
							ID:    msg.ID,
							Event: event,
						},
						Body: []byte(val),
					}
					c.msgCh.Put(msg)
				}
			}
''','''			for i := 0; i < len(msgs); i++ {
				entries := msgs[i].Messages
				for j := range entries {
					m := decode(entries[j])
					if m == nil {
						continue
					}
					c.msgCh.Put(m)
				}
			}
''','''func (c *Channel) loop() {''','''func decode(e redis.XMessage) *router.Message {
	body, ok := e.Values["msg"].(string)
	if !ok {
		return nil
	}
	ev, ok := e.Values["event"].(string)
	if !ok {
		return nil
	}
	h := &router.Header{}
	h.ID = e.ID
	h.Event = ev
	return &router.Message{Header: h, Body: []byte(body)}
}

func (c *Channel) loop() {''')
Q(C,'''			pipe := thdredis.Pipeline()
			recvmsg, ok := m.(*router.Message)
			if !ok {
				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
				continue
			}

			mb := msg.NewBuilder(context.TODO()).
				WithReqHeader(&router.Header{ID: recvmsg.Header.ID, Event: recvmsg.Header.Event}).
				WithReqBody(recvmsg.Body).Build()
			mb.GetWg().Add(1)
			queue.Push(mb)

			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)

			_, err := pipe.Exec(context.TODO())
			if err != nil {
				log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
			}
		}
''','''			if recvmsg, ok := m.(*router.Message); ok {
				c.deliver(queue, recvmsg)
			} else {
				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
			}
		}
''','''func (c *Channel) Arrived(''','''func (c *Channel) deliver(queue *mpsc.Queue, m *router.Message) {
	ctx := context.TODO()
	id := m.Header.ID
	b := msg.NewBuilder(ctx)
	b.WithReqHeader(&router.Header{Event: m.Header.Event, ID: id})
	b.WithReqBody(m.Body)
	w := b.Build()
	w.GetWg().Add(1)
	queue.Push(w)
	if err := c.ack(ctx, id); err != nil {
		log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, id, err)
	}
}

func (c *Channel) ack(ctx context.Context, id string) error {
	p := thdredis.Pipeline()
	p.XDel(ctx, c.topic, id)
	p.XAck(ctx, c.topic, c.channel, id)
	_, err := p.Exec(ctx)
	return err
}

func (c *Channel) Arrived(''')
Q(C,'''			var m interface{}
			select {
			case m = <-c.msgCh.Get():
			case <-c.readDone:
				// hand over what was read before the channel was stopped
				select {
				case m = <-c.msgCh.Get():
				default:
					goto EXT
				}
			}
''','''			m, more := c.next()
			if !more {
				log.InfoF("channel %v stopping handler", c.channel)
				return
			}
''','''	EXT:
		log.InfoF("channel %v stopping handler", c.channel)
''','','''func (c *Channel) Arrived(''','''func (c *Channel) next() (interface{}, bool) {
	select {
	case m := <-c.msgCh.Get():
		return m, true
	case <-c.readDone:
	}
	select {
	case m := <-c.msgCh.Get():
		return m, true
	default:
		return nil, false
	}
}

func (c *Channel) Arrived(''')
# ---- P02
M('P02',C,'''					val, valok := msg.Values["msg"].(string)
					event, evok''','''					valok := true
					val := msg.Values["msg"].(string)
					event, evok''')
M('P02',C,'''						continue
					}

					msg :=''','''						return
					}

					msg :=''')
M('P02',C,'''				log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
''','''				log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
				return
''')
M('P02',C,'''			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
				Group:    c.channel,
				Consumer: c.consumer,
				Streams:  []string{c.topic, ">"},
				Block:    10 * time.Millisecond,
				Count:    10,
			}).Val()
''','''			msgs, err := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
				Group:    c.channel,
				Consumer: c.consumer,
				Streams:  []string{c.topic, ">"},
				Block:    10 * time.Millisecond,
				Count:    10,
			}).Result()
			if err != nil && err != redis.Nil {
				return
			}
''')
M('P02',C,'''			for _, v := range msgs {
				for _, msg''','''			{
				v := msgs[0]
				for _, msg''')
M('P02',C,'''			recvmsg, ok := m.(*router.Message)
			if !ok {
				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
				continue
			}
''','''			recvmsg, ok := m.(*router.Message)
			if !ok {
				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
				goto EXT
			}
''')
Q(C,'''			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
				Group:    c.channel,
				Consumer: c.consumer,
				Streams:  []string{c.topic, ">"},
				Block:    10 * time.Millisecond,
				Count:    10,
			}).Val()
''','''			args := &redis.XReadGroupArgs{Block: 10 * time.Millisecond, Count: 10}
			args.Group, args.Consumer = c.channel, c.consumer
			args.Streams = []string{c.topic, ">"}
			msgs, err := thdredis.XReadGroup(context.TODO(), args).Result()
			if err != nil && err != redis.Nil {
				log.WarnF("read failed %v", err)
				time.Sleep(10 * time.Millisecond)
				continue
			}
''')
# ---- P03
M('P03',C,'''		for atomic.LoadInt32(&c.exitFlag) == 0 {
''','''		for {
''','''	atomic.StoreInt32(&c.exitFlag, 1)
	<-c.readDone
''','''	atomic.StoreInt32(&c.exitFlag, 1)
''')
M('P03',C,'''				Block:    10 * time.Millisecond,
''','''				Block:    0 * time.Millisecond,
''')
M('P03',C,'''				Block:    10 * time.Millisecond,
''','','''	"time"
''','')
M('P03',C,'''	<-c.readDone
	c.handlers.Wait()
''','''	<-c.readDone
''')
M('P03',C,'''	atomic.StoreInt32(&c.exitFlag, 1)
	<-c.readDone
''','''	atomic.StoreInt32(&c.exitFlag, 1)
''')
M('P03',C,'''	atomic.StoreInt32(&c.exitFlag, 1)
	<-c.readDone
''','''	<-c.readDone
	atomic.StoreInt32(&c.exitFlag, 1)
''')
M('P03',C,'''	c.handlers.Add(1)
	go func() {
		defer c.handlers.Done()
''','''	go func() {
		c.handlers.Add(1)
		defer c.handlers.Done()
''')
M('P03',C,'''				select {
				case m = <-c.msgCh.Get():
				default:
					goto EXT
				}
''','''				goto EXT
''')
M('P03',C,'''
	c.Stop()

	_, err := thdredis.XGroupDelConsumer(''','''
	defer c.Stop()

	_, err := thdredis.XGroupDelConsumer(''')
M('P03',C,'''	if len(consumers) == 0 {
''','''	if len(consumers) <= 1 {
''')
M('P03',C,'''	if len(consumers) == 0 {
''','''	if len(consumers) >= 0 {
''')
M('P03',C,'''		log.WarnF("braid.pubsub topic %v channel %v redis channel info consumers err %v", c.topic, c.channel, err.Error())
		return err
''','''		log.WarnF("braid.pubsub topic %v channel %v redis channel info consumers err %v", c.topic, c.channel, err.Error())
		return nil
''')
M('P03',C,'''		log.WarnF("braid.pubsub topic %v channel %v redis channel del consumer err %v", c.topic, c.channel, err.Error())
		return err
''','''		log.WarnF("braid.pubsub topic %v channel %v redis channel del consumer err %v", c.topic, c.channel, err.Error())
''')
M('P03',C,'''	return err
}
''','''	return nil
}
''')
M('P03',C,'''c.topic, c.channel, c.consumer).Result()''','''c.topic, c.consumer, c.channel).Result()''')
M('P03',C,'''		defer close(c.readDone)
''','')
M('P03',C,'''	atomic.StoreInt32(&c.exitFlag, 1)
	<-c.readDone
''','''	if atomic.LoadInt32(&c.exitFlag) == 1 {
		panic("stopped")
	}
	close(c.readDone)
	atomic.StoreInt32(&c.exitFlag, 1)
''')
Q(C,'''	if len(consumers) == 0 {
		_, err = thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Result()
		if err != nil {
			log.WarnF("braid.pubsub topic %v channel %v redis channel destory err %v", c.topic, c.channel, err.Error())
		}
	}

	return err
''','''	if len(consumers) > 0 {
		return nil
	}
	return c.destroy()
''','''func (c *Channel) Close() error {
''','''func (c *Channel) destroy() error {
	err := thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Err()
	if err != nil {
		log.WarnF("destory err %v", err.Error())
	}
	return err
}

func (c *Channel) Close() error {
''')
Q(C,'''		for atomic.LoadInt32(&c.exitFlag) == 0 {
''','''		for {
			if atomic.LoadInt32(&c.exitFlag) != 0 {
				break
			}
''')
Q(C,'''	exitFlag int32
''','''	exitFlag atomic.Bool
''','''		for atomic.LoadInt32(&c.exitFlag) == 0 {
''','''		for !c.exitFlag.Load() {
''','''	atomic.StoreInt32(&c.exitFlag, 1)
''','''	c.exitFlag.Store(true)
''')
Q(C,'''		defer close(c.readDone)

		for atomic.LoadInt32(&c.exitFlag) == 0 {
''','''		defer func() {
			close(c.readDone)
			log.InfoF("channel %v reader stopped", c.channel)
		}()

		for {
			if stopped := atomic.LoadInt32(&c.exitFlag); stopped > 0 {
				return
			}
''')
# ---- P04
M('P04',C,'''	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
		return nil, err
	}
''','''	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
		log.WarnF("%v", err)
	}
''')
M('P04',C,'''	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
''','''	if err != nil {
''')
M('P04',C,'''c.channel, p.ReadMode).Result()''','''c.channel, ReadModeBeginning).Result()''')
M('P04',T,'''		ReadMode: ReadModeLatest,
''','''		ReadMode: ReadModeBeginning,
''')
M('P04',C,'''				Streams:  []string{c.topic, ">"},
''','''				Streams:  []string{c.topic, "0"},
''')
M('P04',C,'''				Block:    10 * time.Millisecond,
''','''				Block:    10 * time.Millisecond,
				NoAck:    true,
''')
M('P04',C,'''		consumer: uuid.New().String(),
''','''		consumer: channel,
''','''	"github.com/google/uuid"
''','''''')
M('P04',C,'''	_, err := thdredis.XGroupCreate(ctx''','''	c.loop()
	_, err := thdredis.XGroupCreate(ctx''','''	c.loop()

	return c, nil''','''	return c, nil''')
M('P04',T,'''	rt.Lock()
	c, err := rt.getOrCreateChannel(ctx, channel, p)
	rt.Unlock()
''','''	c, err := rt.getOrCreateChannel(ctx, channel, p)
''')
M('P04',T,'''	c, err := rt.getOrCreateChannel(ctx, channel, p)
	rt.Unlock()

	return c, err''','''	c, _ := rt.getOrCreateChannel(ctx, channel, p)
	rt.Unlock()

	return c, nil''')
M('P04',T,'''	rt.channelMap[name] = channel
''','''	if old, ok := rt.channelMap[name]; ok {
		old.consumer = channel.consumer
	}
	rt.channelMap[name] = channel
''')
M('P04',T,'''			copt(&p)
''','''			_ = copt
''')
Q(C,'''	_, err := thdredis.XGroupCreate(ctx, topic, c.channel, p.ReadMode).Result()
	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
		return nil, err
	}
''','''	if err := thdredis.XGroupCreate(ctx, topic, channel, p.ReadMode).Err(); err != nil {
		if !strings.HasPrefix(err.Error(), "BUSYGROUP") {
			return nil, err
		}
	}
''','''	"sync/atomic"
''','''	"strings"
	"sync/atomic"
''')
Q(C,'''	_, err := thdredis.XGroupCreate(ctx, topic, c.channel, p.ReadMode).Result()
	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
		return nil, err
	}
	c.loop()

	return c, nil
''','''	if err := c.createGroup(ctx, p.ReadMode); err != nil {
		return nil, err
	}
	c.loop()

	return c, nil
''','''func (c *Channel) loop() {''','''const groupExists = "BUSYGROUP Consumer Group name already exists"

func (c *Channel) createGroup(ctx context.Context, start string) error {
	err := thdredis.XGroupCreate(ctx, c.topic, c.channel, start).Err()
	switch {
	case err == nil:
		return nil
	case err.Error() == groupExists:
		return nil
	}
	return err
}

func (c *Channel) loop() {''')
Q(T,'''	rt.Lock()
	c, err := rt.getOrCreateChannel(ctx, channel, p)
	rt.Unlock()

	return c, err''','''	rt.Lock()
	defer rt.Unlock()
	return rt.getOrCreateChannel(ctx, channel, p)''')
Q(C,'''	go func() {
		defer close(c.readDone)
''','''	go c.read()
}

func (c *Channel) read() {
		defer close(c.readDone)
''','''			}

		}
	}()
}

func (c *Channel) addHandlers''','''			}

		}
}

func (c *Channel) addHandlers''')
# ---- P05
M('P05',T,'''	if event == "" {
		return fmt.Errorf("cannot send a message without an event")
	}

''','')
M('P05',T,'''		Values: []string{"msg", string(body), "event", event},
''','''		Values: []string{"msg", string(body), "event", rt.topic},
''')
M('P05',T,'''		Values: []string{"msg", string(body), "event", event},
''','''		Values: []string{"body", string(body), "event", event},
''')
M('P05',T,'''		Values: []string{"msg", string(body), "event", event},
''','''		Values: []string{"msg", string(body), "event", event},
		MaxLen: 1000,
''')
M('P05',T,'''		Values: []string{"msg", string(body), "event", event},
	}).Result()

	return err
''','''		Values: []string{"msg", string(body), "event", event},
	}).Result()
	if err == redis.Nil {
		return nil
	}
	_ = err

	return nil
''')
M('P05',T,'''			thdredis.XDel(ctx, rt.topic, id)
''','''			_ = id
''')
M('P05',T,'''	if cnt == 0 {
		id, err := thdredis.XAdd''','''	if cnt >= 0 {
		id, err := thdredis.XAdd''')
M('P05',T,'''		log.WarnF("[braid.pubsub ]Topic %v exists check failed %v", rt.topic, err)
		return rt
''','''		log.WarnF("[braid.pubsub ]Topic %v exists check failed %v", rt.topic, err)
''')
M('P05',T,'''			if options.ttl > 0 {
				err''','''			if options.ttl >= 0 {
				err''')
M('P05',G,'''	if t, ok := nps.topicMap[name]; ok {
		return t
	}

	t := newTopic''','''	t := newTopic''')
M('P05',G,'''	nps.Lock()
	defer nps.Unlock()

	// Check again in case another goroutine created the topic
	if t, ok := nps.topicMap[name]; ok {
		return t
	}
''','''	nps.Lock()
	if t, ok := nps.topicMap[name]; ok {
		nps.Unlock()
		return t
	}
	nps.Unlock()
''','''	nps.topicMap[name] = t
	return t''','''	nps.Lock()
	nps.topicMap[name] = t
	nps.Unlock()
	return t''')
M('P05',G,'''	nps.RLock()
	t, ok := nps.topicMap[name]
	nps.RUnlock()
''','''	t, ok := nps.topicMap[name]
''')
M('P05',G,'''	nps.topicMap[name] = t
	return t''','''	return t''')
Q(T,'''	_, err := thdredis.XAdd(ctx, &redis.XAddArgs{
		Stream: rt.topic,
		ID:     "*",
		Values: []string{"msg", string(body), "event", event},
	}).Result()

	return err
''','''	args := &redis.XAddArgs{Stream: rt.topic}
	args.Values = map[string]interface{}{"event": event, "msg": body}
	if err := thdredis.XAdd(ctx, args).Err(); err != nil {
		return err
	}
	return nil
''')
Q(T,'''	if event == "" {
''','''	if len(event) == 0 {
''')
Q(G,'''	if t, ok := nps.topicMap[name]; ok {
		return t
	}

	t := newTopic(name, nps, opts...)
	nps.topicMap[name] = t
	return t''','''	t, ok := nps.topicMap[name]
	if !ok {
		t = newTopic(name, nps, opts...)
		nps.topicMap[name] = t
	}
	return t''')
Q(T,'''			thdredis.XDel(ctx, rt.topic, id)
''','''			if err := thdredis.XDel(ctx, rt.topic, id).Err(); err != nil {
				log.WarnF("del %v", err)
			}
''')
# ---- P06
M('P06',T,'''	if len(groups) == 0 {
''','''	if len(groups) <= 1 {
''')
M('P06',T,'''		if cnt == 0 {
			cleanpipe''','''		if cnt <= 1 {
			cleanpipe''')
M('P06',T,'''			return fmt.Errorf("failed to get XLen: %w", err)
''','''			log.WarnF("failed to get XLen: %v", err)
''')
M('P06',T,'''			return fmt.Errorf("failed to get XInfoGroups: %w", err)
''','''			log.WarnF("failed to get XInfoGroups: %v", err)
''')
M('P06',T,'''			cleanpipe.SRem(ctx, BraidPubsubTopic, rt.topic)
''','''			cleanpipe.Del(ctx, BraidPubsubTopic)
''')
M('P06',T,'''			cleanpipe.SRem(ctx, BraidPubsubTopic, rt.topic)
''','')
M('P06',T,'''				return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
''','''				log.WarnF("failed to clean topic %s: %v", rt.topic, err)
				return nil
''')
M('P06',T,'''			cleanpipe.Del(ctx, rt.topic)
''','''			thdredis.Del(ctx, rt.topic)
''')
Q(T,'''	if err != nil && err != redis.Nil {
		// 忽略 "no such key" 错误
		if !strings.Contains(err.Error(), "no such key") {
			return fmt.Errorf("failed to get XInfoGroups: %w", err)
		}
		groups = []redis.XInfoGroup{} // 设置为空切片
		err = nil
	}

	if len(groups) == 0 {
		cnt, err := thdredis.XLen(ctx, rt.topic).Result()
		if err != nil && err != redis.Nil {
			return fmt.Errorf("failed to get XLen: %w", err)
		}

		if cnt == 0 {
			cleanpipe := thdredis.Pipeline()
			cleanpipe.Del(ctx, rt.topic)
			cleanpipe.SRem(ctx, BraidPubsubTopic, rt.topic)

			_, err = cleanpipe.Exec(ctx)
			if err != nil {
				return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
			}
			log.InfoF("[braid.pubsub] Topic %v cleaned successfully", rt.topic)
		} else {
			log.InfoF("[braid.pubsub] Topic %v not cleaned: non-empty stream", rt.topic)
		}
	}

	return err
''','''	if err != nil && !errors.Is(err, redis.Nil) {
		if !strings.Contains(err.Error(), "no such key") {
			return fmt.Errorf("failed to get XInfoGroups: %w", err)
		}
		groups = nil
	}
	if len(groups) > 0 {
		return nil
	}
	cnt, err := thdredis.XLen(ctx, rt.topic).Result()
	if err != nil && !errors.Is(err, redis.Nil) {
		return fmt.Errorf("failed to get XLen: %w", err)
	}
	if cnt > 0 {
		log.InfoF("[braid.pubsub] Topic %v not cleaned: non-empty stream", rt.topic)
		return nil
	}
	return rt.clean(ctx)
''','''func (rt *Topic) getOr''','''func (rt *Topic) clean(ctx context.Context) error {
	p := thdredis.Pipeline()
	p.SRem(ctx, BraidPubsubTopic, rt.topic)
	p.Del(ctx, rt.topic)
	if _, err := p.Exec(ctx); err != nil {
		return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
	}
	return nil
}

func (rt *Topic) getOr''','''	"fmt"
''','''	"errors"
	"fmt"
''')
Y='core/node/system_impl.go'
M('P05',Y,'''GetOrCreateTopic(topic).Pub(context.TODO(), event, body)''','''GetOrCreateTopic(event).Pub(context.TODO(), event, body)''')
M('P05',Y,'''	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
''','''	go sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
	return nil
''')
Q(Y,'''	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
''','''	t := sys.ps.GetTopic(topic)
	if t == nil {
		t = sys.ps.CreateTopic(topic)
	}
	if err := t.Pub(context.TODO(), event, body); err != nil {
		return fmt.Errorf("pub %v %w", topic, err)
	}
	return nil
''')
# ---- P07
M('P07',U,'''	if len(b.backlog) == 0 {
		select''','''	{
		select''')
M('P07',U,'''		default:
		}
	}
	b.backlog = append(b.backlog, t)''','''		}
	}
	b.backlog = append(b.backlog, t)''')
M('P07',U,'''		case b.c <- t:
			b.Unlock()
			return
''','''		case b.c <- t:
''')
M('P07',U,'''			b.backlog = b.backlog[1:]
		default:
		}
''','''		default:
		}
		b.backlog = b.backlog[1:]
''')
M('P07',U,'''		case b.c <- b.backlog[0]:
			b.backlog[0] = nil
			b.backlog = b.backlog[1:]
''','''		case b.c <- b.backlog[len(b.backlog)-1]:
			b.backlog = b.backlog[:len(b.backlog)-1]
''')
M('P07',U,'''	b.backlog = append(b.backlog, t)
''','''	b.backlog = append([]interface{}{t}, b.backlog...)
''')
M('P07',U,'''	b.backlog = append(b.backlog, t)
	b.Unlock()''','''	b.Unlock()
	b.backlog = append(b.backlog, t)''')
M('P07',U,'''	b.Lock()
	if len(b.backlog) > 0 {
		select {
		case b.c <- b.backlog[0]:''','''	b.Lock()
	if len(b.backlog) > 1 {
		select {
		case b.c <- b.backlog[0]:''')
M('P07',U,'''make(chan interface{}, 1)''','''make(chan interface{})''')
M('P07',C,'''			c.msgCh.Load()
''','')
M('P07',C,'''			c.msgCh.Load()

			pipe := thdredis.Pipeline()
			recvmsg, ok := m.(*router.Message)
			if !ok {
				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
				continue
			}
''','''			pipe := thdredis.Pipeline()
			recvmsg, ok := m.(*router.Message)
			if !ok {
				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
				continue
			}
			c.msgCh.Load()
''')
M('P07',U,'''	return b.c
''','''	b.c = make(chan interface{}, 1)
	return b.c
''')
M('P07',U,'''			b.backlog = b.backlog[1:]
''','''			b.backlog = b.backlog[2:]
''')
M('P07',U,'''	b.backlog = append(b.backlog, t)
''','''	if len(b.backlog) < 1024 {
		b.backlog = append(b.backlog, t)
	}
''')
Q(U,'''	b.Lock()
	if len(b.backlog) > 0 {
		select {
		case b.c <- b.backlog[0]:
			b.backlog[0] = nil
			b.backlog = b.backlog[1:]
		default:
		}
	}
	b.Unlock()
''','''	b.Lock()
	defer b.Unlock()
	if len(b.backlog) == 0 {
		return
	}
	head := b.backlog[0]
	select {
	case b.c <- head:
		b.backlog = b.backlog[1:]
	default:
	}
''')
Q(U,'''	if len(b.backlog) == 0 {
		select {
		case b.c <- t:
			b.Unlock()
			return
		default:
		}
	}
	b.backlog = append(b.backlog, t)
	b.Unlock()
''','''	defer b.Unlock()
	if len(b.backlog) != 0 || !b.trySend(t) {
		b.backlog = append(b.backlog, t)
	}
''','''// Get ''','''func (b *Unbounded) trySend(t interface{}) bool {
	select {
	case b.c <- t:
		return true
	default:
		return false
	}
}

// Get ''')
Q(U,'''	sync.Mutex
}''','''	mu sync.Mutex
}''','''	b.Lock()
	if len(b.backlog) == 0 {
		select {
		case b.c <- t:
			b.Unlock()
			return
		default:
		}
	}
	b.backlog = append(b.backlog, t)
	b.Unlock()''','''	b.mu.Lock()
	if len(b.backlog) == 0 {
		select {
		case b.c <- t:
			b.mu.Unlock()
			return
		default:
		}
	}
	b.backlog = append(b.backlog, t)
	b.mu.Unlock()''','''	b.Lock()
	if len(b.backlog) > 0 {''','''	b.mu.Lock()
	if len(b.backlog) > 0 {''','''		default:
		}
	}
	b.Unlock()
}

// Get''','''		default:
		}
	}
	b.mu.Unlock()
}

// Get''','''	b.Lock()
	defer b.Unlock()
	return len''','''	b.mu.Lock()
	defer b.mu.Unlock()
	return len''')
