R='core/actor/actor_runtime_impl.go'
F='core/actor/actor_reenter_impl.go'
T='core/actor/actor_timer.go'
X='core/actor/actor_context_impl.go'
CH='core/actor/actor_chain.go'
# C02
M('C02',R,'''	mw.GetWg().Add(1)
	a.q.Push(mw)''','''	a.q.Push(mw)
	mw.GetWg().Add(1)''')
M('C02',R,'''						a.recovery(r)
					}

					mw.GetWg().Done()
				}()''','''						a.recovery(r)
						return
					}

					mw.GetWg().Done()
				}()''')
M('C02',R,'''				} else {
					log.WarnF("actor %v No handlers''','''				} else {
					mw.GetWg().Done()
					log.WarnF("actor %v No handlers''')
M('C02','lib/pubsub/ps_channel.go','GetWg().Add(1)','GetWg().Add(2)')
# C03
M('C03',R,'''			func() {
				defer func() {
					if r := recover(); r != nil {
						a.recovery(r)
					}
				}()

				if err := timerInfo.Execute(); err != nil {''','''			go func() {
				defer func() {
					if r := recover(); r != nil {
						a.recovery(r)
					}
				}()

				if err := timerInfo.Execute(); err != nil {''')
M('C03',R,'''	go a.update()
}''','''	go a.update()
	if a.Ty == "hot" {
		go a.update()
	}
}''')
M('C03',R,'''			if timerInfo.Interval() <= 0 {
				a.CancelTimer(timerInfo) // triggered, an execute-once timer is finished
			}
''','')if 0 else None
# C04
M('C04',R,'''						a.recovery(r)
					}

					mw.''','''						panic(r)
					}

					mw.''')
M('C04',F,'''		defer func() {
			if r := recover(); r != nil {
				log.ErrorF("panic in future callback: %v", r)
			}
		}()
''','''		log.DebugF("cb")
''')
# C05
M('C05',R,'''	a.closedMu.RLock()
	defer a.closedMu.RUnlock()

	if atomic.LoadInt32(&a.closed) != 0 {
		// Actor''','''	if atomic.LoadInt32(&a.closed) != 0 {
		// Actor''')
M('C05',R,'|| a.q.Count() > 0 || a.reenterQueue.Count() > 0','|| a.q.Count() > 0')
M('C05',R,'|| a.q.Count() > 0 || a.reenterQueue.Count() > 0','|| a.q.Count() > 1 || a.reenterQueue.Count() > 0')
M('C05',R,'''			a.closedMu.Lock()
			atomic.StoreInt32(&a.closed, 1)
			a.closedMu.Unlock()''','''			atomic.StoreInt32(&a.closed, 1)''')
M('C05',R,'''	case <-a.closeCh:
	case <-time.After(exitTimeout):
''','''	case <-a.closeCh:
	case <-a.shutdownCh:
''')
M('C05',R,'''	for _, t := range timers {
		a.CancelTimer(t)
	}
''','''	for _, t := range timers {
		_ = t
	}
''')
# C06
M('C06',CH,'c.After[','c.Before[') if 0 else None
# C07
M('C07',R,'''	if _, exists := a.chains[ev]; exists {
		return fmt.Errorf("actor: repeat register event %v", ev)
	}
	a.chains[ev] = chain''','''	a.chains[ev] = chain''')
M('C07',R,'''log.WarnF("actor %v received non-Message type %v", a.Id, reflect.TypeOf(msgInterface))
				continue''','''log.WarnF("actor %v received non-Message type %v", a.Id, reflect.TypeOf(msgInterface))
				return''')
M('C07',R,'''	a.chainsMu.RLock()
	defer a.chainsMu.RUnlock()
''','')
# C08
M('C08',F,'''	f.mutex.Lock()
	defer f.mutex.Unlock()

	newFuture''','''	newFuture''')
M('C08',F,'''	f.result = result
	close(f.done)
''','''	close(f.done)
	f.result = result
''')
M('C08',F,'go callback(f.result)','callback(f.result)')
M('C08',F,'''		go next(f.result)
		return newFuture
	}''','''		go next(f.result)
	}''')
M('C08',F,'''		defer newFuture.Complete(mw)
''','''		newFuture.Complete(mw)
''')
M('C08',F,'''		callback(mw)
	}

	if''','''		callback(mw)
		newFuture.Complete(mw)
	}

	if''','''		defer newFuture.Complete(mw)
''','')
M('C08',F,'for _, callback := range f.callbacks {','for _, callback := range f.callbacks[1:] {')
Q(F,'''	for _, callback := range f.callbacks {
		go callback(f.result)
	}
''','''	for i := 0; i < len(f.callbacks); i++ {
		cb := f.callbacks[i]
		go func() { cb(result) }()
	}
''')
Q(F,'''	f.mutex.Lock()
	defer f.mutex.Unlock()

	if f.IsCompleted() {
		return // 已经完成
	}

	f.result = result
	close(f.done)

	for _, callback := range f.callbacks {
		go callback(f.result)
	}
	f.callbacks = nil
''','''	f.mutex.Lock()
	if f.IsCompleted() {
		f.mutex.Unlock()
		return
	}
	f.result = result
	close(f.done)
	cbs := f.callbacks
	f.callbacks = nil
	f.mutex.Unlock()

	for _, cb := range cbs {
		go cb(result)
	}
''')
# C09
M('C09',R,'''		swappedWrapper := msg.Swap(rmw)''','''		swappedWrapper := rmw
		_ = msg.Swap''')
M('C09',R,'''			callFuture.Complete(&msg.Wrapper{
				Ctx: ctx,
				Err: err,
			})
			return''','''			return''')
M('C09',R,'''			errWrapper.Err = ctx.Err()

			reenterFuture.Complete(errWrapper)''','''			errWrapper.Err = ctx.Err()
''')
M('C09',R,'''						rmw.Err = fmt.Errorf("panic in ReenterCall: %v", r)
						reenterFuture.Complete(rmw)''','''						rmw.Err = fmt.Errorf("panic in ReenterCall: %v", r)''')
M('C09',R,'''					rmw.Err = mw.Err
					reenterFuture''','''					reenterFuture''')
M('C09',R,'''				rmw.Res = mw.Res
''','')
M('C09',R,'''			errWrapper := msg.NewBuilder(rmw.Ctx).Build()
			errWrapper.Err = fmt.Errorf("actor''','''			errWrapper := &msg.Wrapper{Ctx: rmw.Ctx}
			errWrapper.Err = fmt.Errorf("actor''')
M('C09',R,'''context.WithTimeout(rmw.Ctx, timeout)''','''context.WithCancel(rmw.Ctx)''','''	var timeout time.Duration
	if ok {
		timeout = time.Until(deadline)
	} else {
		timeout = 30 * time.Second
	}
''','_, _ = deadline, ok')
M('C09',R,'a.Sys.Call(idOrSymbol, actorType, event, swappedWrapper)','a.Sys.Call(idOrSymbol, event, actorType, swappedWrapper)')
M('C09',R,'''		defer cancel()
		log''','''		cancel()
		log''')
# C10
M('C10',R,'''			select {
			case <-due.C:
			case <-a.shutdownCh:
				return
			}''','''			<-due.C''')
M('C10',R,'''				select {
				case a.timerChan <- info:
				case <-a.shutdownCh:
					return
				}
			case''','''				a.timerChan <- info
			case''')
M('C10',R,'''if info.dueTime > 0 || info.Interval() <= 0 {''','''if info.dueTime > 0 {''')
M('C10',R,'|| !timerInfo.IsActive()','')
M('C10',T,'''	if t.ticker != nil { // nil until the first interval starts
		t.ticker.Stop()
	}''','''	t.ticker.Stop()''')
M('C10',T,'''	if t.interval <= 0 {
		return false
	}
''','')
M('C10',R,'''	a.timersMu.Lock()
	delete(a.timers, t)
	a.timersMu.Unlock()''','''	delete(a.timers, t)''')
M('C10',T,'''	t.active.Store(false)
''','')
# C11
M('C11',R,'''	if mw.Req.Header.OrgActorID == "" { // Only record the original sender
''','''	if mw.Req.Header.OrgActorType == "" {
''')
M('C11',R,'''	rmw.Req.Header.PrevActorType = a.Ty
''','')
M('C11',R,'''		rmw.Req.Header.OrgActorID = a.Id
''','''		rmw.Req.Header.OrgActorID = a.Ty
''')
M('C11',R,'if mw.Req.Header.OrgActorID == a.Id {','if mw.Req.Header.PrevActorType == a.Ty {')
M('C11',X,'return actor.ReenterCall(idOrSymbol, actorType, event, mw)','return actor.ReenterCall(actorType, idOrSymbol, event, mw)')
Q(R,'''	if mw.Req.Header.OrgActorID != "" {
		if mw.Req.Header.OrgActorID == a.Id {
			return node.ErrSelfCall
		}
	}
''','''	if org := mw.Req.Header.OrgActorID; org != "" && org == a.ID() {
		return node.ErrSelfCall
	}
''')
Q(R,'''	if mw.Req.Header.OrgActorID == "" { // Only record the original sender
		mw.Req.Header.OrgActorID = a.Id
		mw.Req.Header.OrgActorType = a.Ty
	}

	// Updated to the latest value on each call
	mw.Req.Header.PrevActorType = a.Ty
''','''	a.stamp(mw)
''','''func (a *Runtime) Received(''','''func (a *Runtime) stamp(mw *msg.Wrapper) {
	h := mw.Req.Header
	h.PrevActorType = a.Ty
	if len(h.OrgActorID) != 0 {
		return
	}
	h.OrgActorType = a.Ty
	h.OrgActorID = a.Id
}

func (a *Runtime) Received(''')
# C12
M('C12',R,'''	if err := a.OnEvent(channel, callback); err != nil {
		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
	}
''','','''	return nil
}

// stopSub''','''	return a.OnEvent(channel, callback)
}

// stopSub''')
M('C12',R,'''		a.removeChain(channel)
		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)''','''		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)''')
M('C12',R,'''		a.stopSubscriptions()
		close(a.shutdownCh) // 发送关闭信号''','''		close(a.shutdownCh) // 发送关闭信号
		a.stopSubscriptions()''')
M('C12',R,'''	a.exiting = true
''','')
M('C12',R,'''a.Sys.Sub(topic, channel, opts...)''','''a.Sys.Sub(topic, channel)''')
M('C12',R,'''		ch.Arrived(a.q)''','''		ch.Arrived(a.reenterQueue)''')
M('C12',R,'''	if exiting {
		ch.Stop()
''','''	if exiting {
''')
Q(R,'''	a.channelsMu.Lock()
	exiting := a.exiting
	if !exiting {
		a.channels = append(a.channels, ch)
		ch.Arrived(a.q)
	}
	a.channelsMu.Unlock()

	if exiting {
		ch.Stop()
		a.removeChain(channel)
		return fmt.Errorf("failed to subscribe to topic %s: actor %v is exiting", topic, a.Id)
	}
	return nil
''','''	if a.keep(ch) {
		return nil
	}
	a.removeChain(channel)
	ch.Stop()
	return fmt.Errorf("failed to subscribe to topic %s: actor %v is exiting", topic, a.Id)
''','''// stopSubscr''','''func (a *Runtime) keep(ch *pubsub.Channel) bool {
	a.channelsMu.Lock()
	defer a.channelsMu.Unlock()
	if a.exiting {
		return false
	}
	ch.Arrived(a.q)
	a.channels = append(a.channels, ch)
	return true
}

// stopSubscr''')
Q(R,'''	for _, ch := range channels {
		ch.Stop()
	}
''','''	for i := range channels {
		channels[i].Stop()
	}
	_ = a
''')
# loop refactor
Q(R,'''			func() {
				defer func() {
					if r := recover(); r != nil {
						a.recovery(r)
					}

					mw.GetWg().Done()
				}()

				if chain, ok := a.getChain(mw.Req.Header.Event); ok {
					err := chain.Execute(mw)
					if err != nil {
						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
					}
				} else {
					log.WarnF("actor %v No handlers for message type: %s", a.Id, mw.Req.Header.Event)
				}
			}()
''','''			a.handle(mw)
''','''func (a *Runtime) Exit() {''','''func (a *Runtime) handle(mw *msg.Wrapper) {
	defer mw.GetWg().Done()
	defer func() {
		if r := recover(); r != nil {
			a.recovery(r)
		}
	}()

	ev := mw.Req.Header.Event
	chain, ok := a.getChain(ev)
	if !ok {
		log.WarnF("actor %v No handlers for message type: %s", a.Id, ev)
		return
	}
	if err := chain.Execute(mw); err != nil {
		log.WarnF("actor %v event %v execute err %v", a.Id, ev, err)
	}
}

func (a *Runtime) Exit() {''')
Q(R,'''	for atomic.LoadInt32(&a.closed) == 0 || a.q.Count() > 0 || a.reenterQueue.Count() > 0 {
''','''	for {
		if atomic.LoadInt32(&a.closed) != 0 && a.q.Count() <= 0 && a.reenterQueue.Count() <= 0 {
			break
		}
''')
Q(R,'''	go func() {
		//defer a.timerWg.Done()
''','''	go func() {
		_ = info.dueTime
''')
M("C04", "core/actor/actor_runtime_impl.go", """					if r := recover(); r != nil {
						a.recovery(r)
					}

					mw""", """					if r := recover(); r != nil {
						a.recovery(r.(error).Error())
					}

					mw""")
