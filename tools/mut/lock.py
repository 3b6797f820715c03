SY='core/node/system_impl.go'; AB='core/addressbook/addressbook_impl.go'; RT='core/actor/actor_runtime_impl.go'; RE='core/actor/actor_reenter_impl.go'; AT='core/actor/actor_timer.go'
PM='lib/pubsub/ps_mgr.go'; PT='lib/pubsub/ps_topic.go'; UB='lib/unbounded/unbounded.go'; LT='lib/timer/timer.go'; LK='lib/timer/timer_tick.go'; EN='core/entity.go'; BD='core/actor/actor_build_impl.go'
# missing, double and wrong releases
M('L10',SY,'			sys.RUnlock()\n			return actor, core.AddressInfo','			return actor, core.AddressInfo')
M('L10',SY,'	sys.RUnlock()\n	if running || registering {\n		return','	if running || registering {\n		sys.RUnlock()\n		return')
M('L10',SY,'	sys.RUnlock()\n\n	if exists {\n','	if exists {\n		sys.RUnlock()\n')
M('L10',AB,'		ab.RUnlock()\n		return fmt.Errorf("actor id %v already','		return fmt.Errorf("actor id %v already')
M('L10',AB,'		ab.RUnlock()\n		return core.AddressInfo{Node','		return core.AddressInfo{Node')
M('L10',AB,'	ab.RLock()\n	if _, ok := ab.IDMap[id]; ok {\n		ab.RUnlock()\n		return core','	ab.Lock()\n	if _, ok := ab.IDMap[id]; ok {\n		ab.RUnlock()\n		return core')
M('L10',UB,'		case b.c <- t:\n			b.Unlock()\n			return','		case b.c <- t:\n			return')
M('L10',UB,'	b.Lock()\n	defer b.Unlock()\n	return','	b.Lock()\n	defer b.Unlock()\n	defer b.Unlock()\n	return')
M('L10',PM,'	t, ok := nps.topicMap[name]\n	nps.RUnlock()\n	if ok {','	t, ok := nps.topicMap[name]\n	nps.RUnlock()\n	if !ok {\n		nps.RUnlock()\n	}\n	if ok {')
M('L10',RT,'	if exiting {\n		ch.Stop()','	if exiting {\n		a.channelsMu.Unlock()\n		ch.Stop()')
M('L10',EN,'	verRMu.RLock()\n','	verRMu.Lock()\n')
M('L10',BD,'	p.optionsMutex.RLock()\n	defer p.optionsMutex.RUnlock()','	p.optionsMutex.RLock()\n	defer p.optionsMutex.Unlock()')
# taken again
M('L10',PM,'	t := newTopic(name, nps, opts...)','	if t := nps.GetTopic(name); t != nil {\n		return t\n	}\n	t := newTopic(name, nps, opts...)')
M('L10',AT,'	t.active.Store(true)\n	t.nextTick.Store(time.Now().Add(t.interval))','	t.active.Store(true)\n	t.nextTick.Store(time.Now().Add(t.Interval()))')
M('L10',RT,'	a.chainsMu.Lock()\n	defer a.chainsMu.Unlock()\n\n	if _, exists := a.chains[ev]; exists {','	a.chainsMu.Lock()\n	defer a.chainsMu.Unlock()\n\n	if _, exists := a.getChain(ev); exists {')
Q(SY,'	sys.Lock()\n	sys.actoridmap[builder.GetID()] = actor\n	sys.Unlock()','	sys.Lock()\n	defer sys.Unlock()\n	sys.actoridmap[builder.GetID()] = actor')
M('L10',RT,'	for _, t := range timers {\n		a.CancelTimer(t)\n	}','	a.timersMu.Lock()\n	for _, t := range timers {\n		a.CancelTimer(t)\n	}\n	a.timersMu.Unlock()')
# waiting under a lock
M('L10',SY,'	sys.RLock()\n	actor, exists := sys.actoridmap[id]\n	sys.RUnlock()\n\n	if exists {\n		// Call Exit on the actor\n		actor.Exit()\n\n		// Remove the actor from the map\n		sys.Lock()\n		delete(sys.actoridmap, id)\n		sys.Unlock()','	sys.Lock()\n	actor, exists := sys.actoridmap[id]\n	if exists {\n		actor.Exit()\n		delete(sys.actoridmap, id)\n	}\n	sys.Unlock()\n	if exists {')
M('L10',SY,'	sys.RUnlock()\n\n	// If not found locally, use GetWildcardActor to perform a random search across the cluster\n	info, err := sys.addressbook.GetWildcardActor(ctx, ty)\n','	info, err := sys.addressbook.GetWildcardActor(ctx, ty)\n	sys.RUnlock()\n')
M('L10',SY,'		sys.RUnlock()\n		if ok {\n			return sys.localCall(actor, mw)\n		}','		defer sys.RUnlock()\n		if ok {\n			return sys.localCall(actor, mw)\n		}')
M('L10',AB,'	ab.Lock()\n	ab.IDMap[id] = true\n	ab.Unlock()\n\n	return nil','	return nil','	// execute multiple redis operations using pipeline\n	pipe := trdredis.Pipeline()\n	pipe.HSet','	ab.Lock()\n	defer ab.Unlock()\n	ab.IDMap[id] = true\n	pipe := trdredis.Pipeline()\n	pipe.HSet')
M('L10',RT,'	exiting := a.exiting\n	if !exiting {','	exiting := a.exiting\n	if exiting {\n		ch.Stop()\n	}\n	if !exiting {')
M('L10',RT,'	a.channels = nil\n	a.channelsMu.Unlock()\n\n	for _, ch := range channels {\n		ch.Stop()\n	}','	a.channels = nil\n	for _, ch := range channels {\n		ch.Stop()\n	}\n	a.channelsMu.Unlock()')
M('L10',UB,'	if len(b.backlog) > 0 {\n		select {\n		case b.c <- b.backlog[0]:\n			b.backlog[0] = nil\n			b.backlog = b.backlog[1:]\n		default:\n		}\n	}','	if len(b.backlog) > 0 {\n		b.c <- b.backlog[0]\n		b.backlog[0] = nil\n		b.backlog = b.backlog[1:]\n	}')
M('L10',LT,'		close(task.quit)\n		task.State','		task.quit <- struct{}{}\n		task.State')
M('L10',RE,'	for _, callback := range f.callbacks {\n		go callback(f.result)\n	}','	for _, callback := range f.callbacks {\n		callback(f.result)\n	}')
M('L10',RE,'	if f.IsCompleted() {\n		go next(f.result)','	if f.IsCompleted() {\n		next(f.result)')
M('L10',RE,'	f.mutex.Lock()\n	defer f.mutex.Unlock()\n\n	newFuture','	f.mutex.Lock()\n	defer f.mutex.Unlock()\n	<-f.done\n\n	newFuture')
M('L10',RT,'	chain := chainFunc(a.actorCtx)\n\n	a.chainsMu.Lock()\n	defer a.chainsMu.Unlock()\n','	a.chainsMu.Lock()\n	defer a.chainsMu.Unlock()\n\n	chain := chainFunc(a.actorCtx)\n')
# the order
M('L10',LT,'	service.taskMutex.Lock()\n	delete(service.taskMap, taskID)','	service.taskMutex.Lock()\n	if t, ok := service.taskMap[taskID]; ok {\n		t.stop()\n	}\n	delete(service.taskMap, taskID)','		close(task.quit)\n		task.State','		if task.taskService != nil {\n			task.taskService.tasks()\n		}\n		close(task.quit)\n		task.State')
M('L10',RT,'	a.timersMu.Lock()\n	delete(a.timers, t)\n	a.timersMu.Unlock()','	a.timersMu.Lock()\n	delete(a.timers, t)\n	a.channelsMu.Lock()\n	a.channelsMu.Unlock()\n	a.timersMu.Unlock()','	channels := a.channels\n	a.channels = nil\n	a.channelsMu.Unlock()','	channels := a.channels\n	a.channels = nil\n	a.timersMu.Lock()\n	a.timersMu.Unlock()\n	a.channelsMu.Unlock()')
# quiet
Q(SY,'	sys.RLock()\n	_, running := sys.actoridmap[id]\n	_, registering := sys.registering[id]\n	sys.RUnlock()\n	if running || registering {','	if sys.known(id) {','@@END','func (sys *NormalSystem) known(id string) bool {\n	sys.RLock()\n	defer sys.RUnlock()\n	if _, ok := sys.actoridmap[id]; ok {\n		return true\n	}\n	_, ok := sys.registering[id]\n	return ok\n}\n')
Q(SY,'	sys.RLock()\n	actor, exists := sys.actoridmap[id]\n	sys.RUnlock()','	actor, exists := sys.local(id)','		actorp, ok := sys.actoridmap[idOrSymbol]\n		sys.RUnlock()\n\n		if ok {\n			return sys.localCall(actorp, mw)\n		}\n\n		// If not local, get from','		sys.RUnlock()\n		if actorp, ok := sys.local(idOrSymbol); ok {\n			return sys.localCall(actorp, mw)\n		}\n\n		// If not local, get from','@@END','func (sys *NormalSystem) local(id string) (core.IActor, bool) {\n	sys.RLock()\n	defer sys.RUnlock()\n	ac, ok := sys.actoridmap[id]\n	return ac, ok\n}\n')
Q(SY,'	sys.RLock()\n\n	for id, actor := range sys.actoridmap {\n		if actor.Type() == ty {\n			sys.RUnlock()\n			return actor, core.AddressInfo{ActorId: id, ActorTy: ty}, nil\n		}\n	}\n	sys.RUnlock()','	if actor, id := sys.localOf(ty); actor != nil {\n		return actor, core.AddressInfo{ActorId: id, ActorTy: ty}, nil\n	}','@@END','func (sys *NormalSystem) localOf(ty string) (core.IActor, string) {\n	sys.RLock()\n	defer sys.RUnlock()\n	for id, actor := range sys.actoridmap {\n		if actor.Type() == ty {\n			return actor, id\n		}\n	}\n	return nil, ""\n}\n')
Q(AB,'	ab.RLock()\n	if _, ok := ab.IDMap[id]; ok {\n		ab.RUnlock()\n		return fmt.Errorf("actor id %v already registered", id)\n	}\n	ab.RUnlock()','	if ab.known(id) {\n		return fmt.Errorf("actor id %v already registered", id)\n	}','	ab.Lock()\n	ab.IDMap[id] = true\n	ab.Unlock()','	func() {\n		ab.Lock()\n		defer ab.Unlock()\n		ab.IDMap[id] = true\n	}()','@@END','func (ab *AddressBook) known(id string) bool {\n	ab.RLock()\n	_, ok := ab.IDMap[id]\n	ab.RUnlock()\n	return ok\n}\n')
Q(RT,'	a.timersMu.Lock()\n	timers := make([]core.ITimer, 0, len(a.timers))\n	for t := range a.timers {\n		timers = append(timers, t)\n	}\n	a.timersMu.Unlock()\n\n	for _, t := range timers {','	for _, t := range a.allTimers() {','@@END','func (a *Runtime) allTimers() (all []core.ITimer) {\n	a.timersMu.Lock()\n	for t := range a.timers {\n		all = append(all, t)\n	}\n	a.timersMu.Unlock()\n	return\n}\n')
Q(UB,'	b.Lock()\n	if len(b.backlog) == 0 {\n		select {\n		case b.c <- t:\n			b.Unlock()\n			return\n		default:\n		}\n	}\n	b.backlog = append(b.backlog, t)\n	b.Unlock()','	b.Lock()\n	defer b.Unlock()\n	if len(b.backlog) == 0 && b.offer(t) {\n		return\n	}\n	b.backlog = append(b.backlog, t)','@@END','func (b *Unbounded) offer(t interface{}) bool {\n	select {\n	case b.c <- t:\n		return true\n	default:\n		return false\n	}\n}\n')
Q(PM,'	nps.RLock()\n	t, ok := nps.topicMap[name]\n	nps.RUnlock()\n	if ok {\n		return t\n	}\n	return nil','	nps.RLock()\n	defer nps.RUnlock()\n	return nps.topicMap[name]')
Q(AT,'	if !t.active.Load() {\n		return false\n	}\n	t.active.Store(false)\n	if t.ticker','	if !t.active.CompareAndSwap(true, false) {\n		return false\n	}\n	if t.ticker')
