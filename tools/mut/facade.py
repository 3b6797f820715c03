CX='core/actor/actor_context_impl.go'; BD='core/actor/actor_build_impl.go'; RT='core/actor/actor_runtime_impl.go'; NP='core/node/node_process_impl.go'; SY='core/node/system_impl.go'
AB='core/addressbook/addressbook_impl.go'; EN='core/entity.go'; PM='lib/pubsub/ps_mgr.go'; UB='lib/unbounded/unbounded.go'; AT='core/actor/actor_timer.go'; LT='lib/timer/timer.go'; PT='lib/pubsub/ps_topic.go'; SR='lib/tracer/slow_reporter.go'; PC='lib/pubsub/ps_channel.go'; WG='lib/warpwaitgroup/warpwaitgroup.go'
M('F01',CX,'	return actor.Call(idOrSymbol, actorType, event, mw)','	return actor.Call(idOrSymbol, event, actorType, mw)')
M('F01',CX,'	return sys.Send(idOrSymbol, actorType, event, mw)','	return sys.Call(idOrSymbol, actorType, event, mw)')
M('F01',CX,'	return sys.Pub(topic, event, body)','	go sys.Pub(topic, event, body)\n	return nil')
M('F01',CX,'	return actor.Type()','	return actor.ID()')
M('F01',CX,'	ac.ctx = context.WithValue(ac.ctx, key, value)','	ac.ctx = context.WithValue(context.Background(), key, value)')
M('F01',CX,'	return ac.ctx.Value(key)','	if v, ok := ac.ctx.Value(key).(string); ok {\n		return v\n	}\n	return nil')
M('F01',CX,'	return sys.Loader(actorType)','	return sys.Loader(ac.Type())')
M('F01',BD,'	p.Name = ty\n','	if p.Name == "" {\n		p.Name = ty\n	}\n')
M('F01',BD,'	p.ID = id\n','	p.ID = id\n	p.Name = id\n')
M('F01',BD,'	if p.Options == nil {\n		p.Options = make(map[string]string)\n	}\n	p.Options[key] = value','	p.Options = map[string]string{key: value}')
M('F01',BD,'	if p.Options == nil {\n		p.Options = make(map[string]string)\n	}\n	p.Options[key] = value','	if p.Options == nil {\n		p.Options = make(map[string]string)\n	}\n	if _, ok := p.Options[key]; !ok {\n		p.Options[key] = value\n	}')
M('F01',BD,'	options := make(map[string]string, len(p.Options))\n	for k, v := range p.Options {\n		options[k] = v\n	}\n	return options','	return p.Options')
M('F01',BD,'		options[k] = v\n','		if v != "" {\n			options[k] = v\n		}\n')
M('F01',BD,'	return p.ISystem.Register(ctx, p)','	return p.ISystem.Register(context.Background(), p)')
M('F01',BD,'	return p.IActorLoader.Pick(ctx, p)','	go p.IActorLoader.Pick(ctx, p)\n	return nil')
M('F01',BD,'	return p.GlobalQuantityLimit','	return p.Weight')
M('F01',NP,'	return pn.p.ID','	return pn.p.Ip')
M('F01',NP,'p.ID, p.Ip, p.Port','p.Ip, p.ID, p.Port')
M('F01',SY,'	return sys.loader.Builder(ty, sys)','	return sys.loader.Builder(sys.nodeID, sys)')
M('F01',SY,'		Node: sys.nodeID,\n		Ip:   sys.nodeIP,','		Node: sys.nodeIP,\n		Ip:   sys.nodeIP,')
Q(CX,'	actor, ok := ac.ctx.Value(actorKey{}).(core.IActor)\n	if !ok {\n		panic(errors.New("the actor instance does not exist in the ActorContext"))\n	}\n\n	return actor.Call(','	return ac.actor().Call(','@@END','func (ac *actorContext) actor() core.IActor {\n	actor, ok := ac.ctx.Value(actorKey{}).(core.IActor)\n	if !ok {\n		panic(errors.New("the actor instance does not exist in the ActorContext"))\n	}\n	return actor\n}\n')
Q(CX,'	return sys.AddressBook()','	ab := sys.AddressBook()\n	return ab')
Q(CX,'	sys, ok := ac.ctx.Value(systemKey{}).(core.ISystem)\n	if !ok {\n		panic(errors.New("the system instance does not exist in the ActorContext"))\n	}\n\n	return sys.Pub(topic, event, body)','	return ac.System().Pub(topic, event, body)')
Q(BD,'	options := make(map[string]string, len(p.Options))\n	for k, v := range p.Options {\n		options[k] = v\n	}\n	return options','	options := map[string]string{}\n	if len(p.Options) == 0 {\n		return options\n	}\n	for key := range p.Options {\n		options[key] = p.Options[key]\n	}\n	return options')
Q(BD,'	return p.Options[key]','	if v, ok := p.Options[key]; ok {\n		return v\n	}\n	return ""')
Q(BD,'	p.optionsMutex.Lock()\n	if p.Options == nil {\n		p.Options = make(map[string]string)\n	}\n	p.Options[key] = value\n	p.optionsMutex.Unlock()\n	return p','	p.optionsMutex.Lock()\n	defer p.optionsMutex.Unlock()\n	p.set(key, value)\n	return p','@@END','func (p *ActorLoaderBuilder) set(key, value string) {\n	if p.Options == nil {\n		p.Options = map[string]string{}\n	}\n	p.Options[key] = value\n}\n')
Q(BD,'	return p.Weight\n','	weight := p.ActorConstructor.Weight\n	return weight\n')
Q(NP,'	pcs = &process{\n		sys: buildSystemWithOption(p.ID, p.Ip, p.Port, p.Loader, p.Factory, p.Tracer),\n		p:   p,\n	}\n\n	return pcs','	sys := buildSystemWithOption(p.ID, p.Ip, p.Port, p.Loader, p.Factory, p.Tracer)\n	built := &process{p: p, sys: sys}\n	pcs = built\n	return built')
Q(SY,'	sys.addressbook = addressbook.New(core.AddressInfo{\n		Node: sys.nodeID,\n		Ip:   sys.nodeIP,\n		Port: sys.nodePort,\n	})','	self := core.AddressInfo{Node: nodId, Ip: nodeIp}\n	self.Port = nodePort\n	sys.addressbook = addressbook.New(self)')
# L11
M('L11',SY,'	sys.RLock()\n	defer sys.RUnlock()\n\n	actors :=','	actors :=')
M('L11',SY,'		sys.Lock()\n		delete(sys.actoridmap, id)\n		sys.Unlock()','		sys.RLock()\n		delete(sys.actoridmap, id)\n		sys.RUnlock()')
M('L11',SY,'	sys.RLock()\n	defer sys.RUnlock()\n\n	if _, ok := sys.actoridmap[id]; ok {\n		actorp','	if _, ok := sys.actoridmap[id]; ok {\n		sys.RLock()\n		defer sys.RUnlock()\n		actorp')
M('L11',AB,'	ab.Lock()\n	ab.IDMap = make(map[string]bool)\n	ab.Unlock()','	ab.IDMap = make(map[string]bool)')
M('L11',EN,'	verRMu.RLock()\n	defer verRMu.RUnlock()\n\n	for','	for')
M('L11',PM,'	nps.RLock()\n	t, ok := nps.topicMap[name]\n	nps.RUnlock()','	t, ok := nps.topicMap[name]')
M('L11',PT,'	rt.Lock()\n	c, err := rt.getOrCreateChannel(ctx, channel, p)\n	rt.Unlock()','	c, err := rt.getOrCreateChannel(ctx, channel, p)','func (rt *Topic) Close() error {\n','func (rt *Topic) Close() error {\n	rt.Lock()\n	rt.channelMap = map[string]*Channel{}\n	rt.Unlock()\n')
M('L11',UB,'	b.Lock()\n	defer b.Unlock()\n	return len(b.backlog)','	return len(b.backlog)')
M('L11',AT,'	t.mutex.Lock()\n	defer t.mutex.Unlock()\n\n	return t.interval','	return t.interval')
M('L11',LT,'	service.taskMutex.Lock()\n	delete(service.taskMap, taskID)\n	service.taskMutex.Unlock()','	delete(service.taskMap, taskID)')
M('L11',RT,'	a.timersMu.Lock()\n	delete(a.timers, t)\n	a.timersMu.Unlock()','	delete(a.timers, t)')
M('L11',RT,'	a.chainsMu.RLock()\n	defer a.chainsMu.RUnlock()\n\n	chain, ok','	chain, ok')
M('L11',RT,'	exiting := a.exiting\n	if !exiting {','	exiting := false\n	if !exiting {','	if exiting {\n		ch.Stop()','	exiting = a.exiting\n	if exiting {\n		ch.Stop()')
M('L11',RT,'	if atomic.LoadInt32(&a.closed) != 0 {\n		// Actor已关闭','	if a.closed != 0 {\n		// Actor已关闭')
M('L11',SR,'		atomic.AddInt64(&r.queueLength, 1)\n	default','		r.queueLength++\n	default')
M('L11',WG,'	return atomic.LoadInt32(&w.counter)','	return w.counter')
M('L11',BD,'	p.optionsMutex.RLock()\n	defer p.optionsMutex.RUnlock()\n	return p.Options[key]','	return p.Options[key]')
M('L11','core/actor/actor_reenter_impl.go','	f.mutex.Lock()\n	defer f.mutex.Unlock()\n\n	if f.IsCompleted() {\n		return // 已经完成','	if f.IsCompleted() {\n		return // 已经完成')
M("F01", "core/actor/actor_context_impl.go", """	actor, ok := ac.ctx.Value(actorKey{}).(core.IActor)
	if !ok {
		panic(errors.New("the actor instance does not exist in the ActorContext"))
	}

	return actor.Call(""", """	actor, ok := ac.ctx.Value(systemKey{}).(core.ISystem)
	if !ok {
		panic(errors.New("the actor instance does not exist in the ActorContext"))
	}

	return actor.Call(""")
