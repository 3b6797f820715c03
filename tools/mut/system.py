S='core/node/system_impl.go'
P='core/node/node_process_impl.go'
A='core/node/system_acceptor.go'
# S01
M('S01',S,'''	sys.Lock()
	sys.actoridmap[builder.GetID()] = actor
	sys.Unlock()
''','''	sys.RLock()
	sys.actoridmap[builder.GetID()] = actor
	sys.RUnlock()
''')
M('S01',S,'''		sys.Lock()
		delete(sys.registering, builder.GetID())
		sys.Unlock()
''','''		delete(sys.registering, builder.GetID())
''')
M('S01',S,'''func (sys *NormalSystem) Actors() []core.IActor {
	sys.RLock()
	defer sys.RUnlock()
''','''func (sys *NormalSystem) Actors() []core.IActor {
''')
M('S01',S,'''	if _, ok := sys.registering[builder.GetID()]; ok {
		return core.ErrActorRegisterRepeat
	}
''','')
M('S01',S,'''	if _, ok := sys.actoridmap[builder.GetID()]; ok {
		return core.ErrActorRegisterRepeat
	}
''','')
M('S01',S,'''	if builder.GetNodeUnique() {
		unique :=''','''	sys.Unlock()
	sys.Lock()
	if builder.GetNodeUnique() {
		unique :=''')
M('S01',S,'''		if err != nil {
			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
		}''','''		if err != nil {
			sys.Lock()
			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
		}''')
M('S01',S,'''		sys.Lock()
		delete(sys.actoridmap, id)
		sys.Unlock()
''','''		sys.Lock()
		actor.Exit()
		delete(sys.actoridmap, id)
		sys.Unlock()
''')
M('S01',S,'''	if _, ok := sys.actoridmap[builder.GetID()]; ok {
		return core.ErrActorRegisterRepeat
	}
''','''	if _, ok := sys.actoridmap[builder.GetID()]; ok {
		return fmt.Errorf("taken")
	}
''')
Q(S,'''	sys.Lock()
	sys.actoridmap[builder.GetID()] = actor
	sys.Unlock()
''','''	sys.publish(actor, builder.GetID())
''','''func (sys *NormalSystem) Actors() ''','''func (sys *NormalSystem) publish(actor core.IActor, id string) {
	sys.Lock()
	defer sys.Unlock()
	sys.actoridmap[id] = actor
}

func (sys *NormalSystem) Actors() ''')
Q(S,'''	sys.Lock()
	defer sys.Unlock()

	if _, ok := sys.actoridmap[builder.GetID()]; ok {
		return core.ErrActorRegisterRepeat
	}
	if _, ok := sys.registering[builder.GetID()]; ok {
		return core.ErrActorRegisterRepeat
	}
''','''	sys.Lock()
	defer func() {
		sys.Unlock()
	}()

	id := builder.GetID()
	_, live := sys.actoridmap[id]
	_, claimed := sys.registering[id]
	if live || claimed {
		return core.ErrActorRegisterRepeat
	}
''')
Q(S,'''	sys.RLock()
	defer sys.RUnlock()

	actors := []core.IActor{}
	for _, v := range sys.actoridmap {
		actors = append(actors, v)
	}
	return actors''','''	sys.RLock()
	actors := make([]core.IActor, 0, len(sys.actoridmap))
	for id := range sys.actoridmap {
		actors = append(actors, sys.actoridmap[id])
	}
	sys.RUnlock()
	return actors''')
Q(S,'''	if _, ok := sys.actoridmap[id]; ok {
		actorp := sys.actoridmap[id]
		return actorp, nil
	}

	return nil, fmt.Errorf("braid.system find actor %v err", id)''','''	actorp, ok := sys.actoridmap[id]
	if !ok {
		return nil, fmt.Errorf("braid.system find actor %v err", id)
	}
	return actorp, nil''')
# S02
for m in ('',):
    M('S02',S,'''	mw.Req.Header.TargetActorType = actorType

	var info core.AddressInfo
	var actor core.IActor
	var err error

	if sys.trac != nil {
		span, err := sys.trac.GetSpan(span.SystemCall)
		if err == nil {
			mw.Ctx = span.Begin(mw.Ctx)

			span.SetTag("orgActor", mw.Req.Header.OrgActorType)
			span.SetTag("tarActor", actorType)
			span.SetTag("event", event)
			span.SetTag("method", "call")''','''	if mw.Req.Header.TargetActorType == "" {
		mw.Req.Header.TargetActorType = actorType
	}

	var info core.AddressInfo
	var actor core.IActor
	var err error

	if sys.trac != nil {
		span, err := sys.trac.GetSpan(span.SystemCall)
		if err == nil {
			mw.Ctx = span.Begin(mw.Ctx)

			span.SetTag("orgActor", mw.Req.Header.OrgActorType)
			span.SetTag("tarActor", actorType)
			span.SetTag("event", event)
			span.SetTag("method", "call")''')
M('S02',S,'''		actor, ok := sys.actoridmap[info.ActorId]
		sys.RUnlock()
		if ok {
			return sys.localCall(actor, mw)''','''		actor, ok := sys.actoridmap[idOrSymbol]
		sys.RUnlock()
		if ok {
			return sys.localCall(actor, mw)''')
M('S02',S,'''		if actor.Type() == ty {
			sys.RUnlock()''','''		if actor.Type() == ty || ty == "" {
			sys.RUnlock()''')
M('S02',S,'''	if idOrSymbol == "" {
		return fmt.Errorf("braid.system send unknown target id")
	}
''','')
M('S02',S,'''	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
		sys.cleanStaleRecord(mw.Ctx, info.ActorId, actorType, event)
		return ErrSelfCall
	}

	return sys.handleRemoteSend''','''	return sys.handleRemoteSend''')
M('S02',S,'''		info, err = sys.addressbook.GetByID(mw.Ctx, idOrSymbol)
	}''','''		info, err = sys.addressbook.GetWildcardActor(mw.Ctx, actorType)
	}''')
M('S02',S,'''	info, err := sys.addressbook.GetWildcardActor(ctx, ty)
	return nil, info, err''','''	info, err := sys.addressbook.GetByID(ctx, ty)
	return nil, info, err''')
M('S02',S,'''		&router.RouteReq{Msg: mw.Req},
		res)''','''		&router.RouteReq{},
		res)''')
M('S02',S,'''	return sys.client.CallWait(mw.Ctx,''','''	return sys.client.CallWait(context.TODO(),''')
M('S02',A,'''		req.Msg.Header.TargetActorID,
		req''','''		req.Msg.Header.OrgActorID,
		req''')
M('S02',A,'''	routermsg.Req = req.Msg
	routermsg.Req.Header''','''	routermsg.Req.Header = req.Msg.Header
	routermsg.Req.Header''')
Q(S,'''	switch idOrSymbol {
	case def.SymbolWildcard:
		info, err = sys.addressbook.GetWildcardActor(mw.Ctx, actorType)
		// Check if the wildcard actor is local
		sys.RLock()
		actor, ok := sys.actoridmap[info.ActorId]
		sys.RUnlock()
		if ok {
			return actor.Received(mw)
		}
	case def.SymbolLocalFirst:
		actor, info, err = sys.findLocalOrWildcardActor(mw.Ctx, actorType)
		if err != nil {
			return err
		}
		if actor != nil {
			return actor.Received(mw)
		}
	default:
		// First, check if it's a local call
		sys.RLock()
		actorp, ok := sys.actoridmap[idOrSymbol]
		sys.RUnlock()

		if ok {
			return actorp.Received(mw)
		}

		// If not local, get from addressbook
		info, err = sys.addressbook.GetByID(mw.Ctx, idOrSymbol)
	}
''','''	lookup := func(id string) core.IActor {
		sys.RLock()
		defer sys.RUnlock()
		return sys.actoridmap[id]
	}
	if idOrSymbol == def.SymbolWildcard {
		info, err = sys.addressbook.GetWildcardActor(mw.Ctx, actorType)
		if a := lookup(info.ActorId); a != nil {
			return a.Received(mw)
		}
	} else if idOrSymbol == def.SymbolLocalFirst {
		actor, info, err = sys.findLocalOrWildcardActor(mw.Ctx, actorType)
		if err != nil {
			return err
		}
		if actor != nil {
			return actor.Received(mw)
		}
	} else {
		if a := lookup(idOrSymbol); a != nil {
			return a.Received(mw)
		}
		info, err = sys.addressbook.GetByID(mw.Ctx, idOrSymbol)
	}
''')
Q(S,'''	sys.RLock()

	for id, actor := range sys.actoridmap {
		if actor.Type() == ty {
			sys.RUnlock()
			return actor, core.AddressInfo{ActorId: id, ActorTy: ty}, nil
		}
	}
	sys.RUnlock()
''','''	var found core.IActor
	sys.RLock()
	for _, a := range sys.actoridmap {
		if a.Type() != ty {
			continue
		}
		found = a
		break
	}
	sys.RUnlock()
	if found != nil {
		return found, core.AddressInfo{ActorId: found.ID(), ActorTy: ty}, nil
	}
''')
Q(S,'''	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
		sys.cleanStaleRecord(mw.Ctx, info.ActorId, actorType, event)
		return ErrSelfCall
	}

	return sys.handleRemoteSend(info, mw)''','''	if self := sys.isSelf(info); !self {
		return sys.handleRemoteSend(info, mw)
	}
	sys.cleanStaleRecord(mw.Ctx, info.ActorId, actorType, event)
	return ErrSelfCall''','''func (sys *NormalSystem) Pub(''','''func (sys *NormalSystem) isSelf(info core.AddressInfo) bool {
	return info.Port == sys.nodePort && info.Ip == sys.nodeIP
}

func (sys *NormalSystem) Pub(''')
Q(S,'''		fmt.Sprintf("%s:%d", addrinfo.Ip, addrinfo.Port),''','''		addrinfo.Ip+":"+fmt.Sprint(addrinfo.Port),''')
Q(S,'''		fmt.Sprintf("%s:%d", addrinfo.Ip, addrinfo.Port),''','''		fmt.Sprintf("%v:%v", addrinfo.Ip, addrinfo.Port),''')
Q(S,'''		fmt.Sprintf("%s:%d", addrinfo.Ip, addrinfo.Port),''','''		addrinfo.Ip+":"+strconv.Itoa(addrinfo.Port),''','''	"sync"
''','''	"strconv"
	"sync"
''')
Q(A,'''	err := s.sys.Call(
		req.Msg.Header.TargetActorID,
		req.Msg.Header.TargetActorType,
		req.Msg.Header.Event, routermsg)
''','''	h := routermsg.Req.Header
	err := s.sys.Call(h.TargetActorID, h.TargetActorType, h.Event, routermsg)
''')
Q(A,'''	err := s.sys.Call(
		req.Msg.Header.TargetActorID,
		req.Msg.Header.TargetActorType,
		req.Msg.Header.Event, routermsg)
''','''	h := req.GetMsg().GetHeader()
	err := s.sys.Call(h.GetTargetActorID(), h.GetTargetActorType(), h.GetEvent(), routermsg)
''')
# S03
M('S03',S,'''	if err != nil {
		return err
	}

	mw.Res = res.Msg''','''	if err != nil {
		mw.Err = err
	}

	mw.Res = res.Msg''')
M('S03',S,'''	mw.Res = res.Msg
''','''	if mw.Res == nil {
		mw.Res = res.Msg
	}
''')
M('S03',S,'''			return actorp.Received(mw)
		}

		// If not''','''			actorp.Received(mw)
			return nil
		}

		// If not''')
M('S03',S,'''	if err != nil {
		return fmt.Errorf("braid.system send id %v ty %v err %w", idOrSymbol, actorType, err)
	}
''','''	if err != nil {
		log.WarnF("braid.system send id %v ty %v err %v", idOrSymbol, actorType, err)
		return nil
	}
''')
M('S03',S,'''		sys.cleanStaleRecord(mw.Ctx, info.ActorId, actorType, event)

		return ErrSelfCall''','''		sys.cleanStaleRecord(mw.Ctx, info.ActorId, actorType, event)

		return nil''')
M('S03',A,'''	return res, err
}''','''	return res, nil
}''')
M('S03',A,'''	res.Msg = routermsg.Res
''','''	if err != nil {
		res.Msg = routermsg.Res
	}
''')
Q(S,'''	if err != nil {
		return err
	}

	mw.Res = res.Msg
	return nil''','''	if err == nil {
		mw.Res = res.GetMsg()
	}
	return err''')
Q(A,'''	res.Msg = routermsg.Res
	return res, err''','''	return &router.RouteRes{Msg: routermsg.Res}, err''','''	res := &router.RouteRes{}

''','')
# S04
M('S04',S,'''			close(ready) // Ensure the ready channel is closed even in case of an error
			return err''','''			return err''')
M('S04',S,'''			case <-time.After(sys.callTimeout):
				log''','''			case <-time.After(sys.callTimeout * 1000000):
				log''')if 0 else None
M('S04',S,'''		select {
		case <-mw.Done:
			return waitErr
		case <-mw.Ctx.Done():''','''		<-mw.Done
		if waitErr != nil {
			return waitErr
		}
		select {
		default:
			return nil
		case <-mw.Ctx.Done():''')
M('S04',S,'''		case <-mw.Done:
			return waitErr''','''		case <-mw.Done:
			return nil''')
M('S04',S,'''			<-ready // Wait for Received to complete
''','')
M('S04',S,'''			close(mw.Done)
		}()
''','''			if mw.Err == nil {
				close(mw.Done)
			}
		}()
''')
M('S04',S,'''			mw.Err = timeoutErr
			return timeoutErr''','''			mw.Err = timeoutErr
			return nil''')
M('S04',S,'''		log.InfoF("braid.system local call received event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
		return actorp.Received(mw)''','''		log.InfoF("braid.system local call received event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
		if err := actorp.Received(mw); err != nil {
			return err
		}
		mw.GetWg().Wait()
		return nil''')
Q(S,'''		if err := actorp.Received(mw); err != nil {
			close(ready) // Ensure the ready channel is closed even in case of an error
			return err
		}
		close(ready) // Notify the goroutine that Received has completed
''','''		err := actorp.Received(mw)
		close(ready)
		if err != nil {
			return err
		}
''')
Q(S,'''			select {
			case <-waitCh:
				// 正常完成
			case <-time.After(sys.callTimeout):''','''			tm := time.NewTimer(sys.callTimeout)
			defer tm.Stop()
			select {
			case <-waitCh:
				// 正常完成
			case <-tm.C:''')
Q(S,'''	root := mw.GetWg().Count() == 0
	if root {''','''	if mw.GetWg().Count() != 0 {
		return actorp.Received(mw)
	} else {''','''	} else {
		log.InfoF("braid.system local call received event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
		return actorp.Received(mw)
	}
''','''	}
''')
# S05
M('S05',S,'''	if builder.GetID() == "" || builder.GetType() == "" {
		return nil''','''	if builder.GetID() == "" && builder.GetType() == "" {
		return nil''')
M('S05',S,'''		if int(cnt) >= builder.GetGlobalQuantityLimit() {''','''		if int(cnt) > builder.GetGlobalQuantityLimit() {''')
M('S05',S,'''	if err != nil {
		return nil, err
	}

	// Instantiate actor
	actor := builder.GetConstructor()(builder)
	actor.Init(ctx)
''','''	// Instantiate actor
	actor := builder.GetConstructor()(builder)
	actor.Init(ctx)
	if err != nil {
		return nil, err
	}
''')
M('S05',S,'''	actor.Init(ctx)

	sys.Lock()
	sys.actoridmap[builder.GetID()] = actor
	sys.Unlock()
''','''	sys.Lock()
	sys.actoridmap[builder.GetID()] = actor
	sys.Unlock()
	actor.Init(ctx)
''')
M('S05',S,'''			if v.Type() == builder.GetType() {
				return unique
			}''','''			if v.Type() == builder.GetType() && v.ID() != builder.GetID() && len(sys.actoridmap) > 1 {
				return unique
			}''')
M('S05',S,'''builder.GetType(), builder.GetID(), builder.GetWeight())
	if err''','''builder.GetID(), builder.GetType(), builder.GetWeight())
	if err''')
M('S05',S,'''	if err != nil {
		return nil, err
	}

	// Instantiate''','''	if err != nil {
		log.WarnF("register err %v", err)
	}

	// Instantiate''')
M('S05',S,'''		if err != nil {
			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
		}
''','''		if err != nil {
			log.WarnF("[barid.system] get type count err %v", err)
		}
''')
M('S05',S,'''	if builder.GetConstructor() == nil {
		return nil, fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType())
	}

	// Register first, then build
	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
	if err != nil {
		return nil, err
	}
''','''	// Register first, then build
	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
	if err != nil {
		return nil, err
	}
	if builder.GetConstructor() == nil {
		return nil, fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType())
	}
''')
Q(S,'''	if builder.GetGlobalQuantityLimit() != 0 {

		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
		if err != nil {
			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
		}
		if int(cnt) >= builder.GetGlobalQuantityLimit() {
			return nil, fmt.Errorf("braid.system actor %v global quantity limit current count %v", builder.GetType(), cnt)
		}
	}

	if builder.GetConstructor() == nil {
		return nil, fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType())
	}
''','''	if builder.GetConstructor() == nil {
		return nil, fmt.Errorf("braid.system actor %v register err, constructor is nil", builder.GetType())
	}
	if err := sys.checkLimit(ctx, builder); err != nil {
		return nil, err
	}
''','''func (sys *NormalSystem) Pub(''','''func (sys *NormalSystem) checkLimit(ctx context.Context, builder core.IActorBuilder) error {
	limit := builder.GetGlobalQuantityLimit()
	if limit == 0 {
		return nil
	}
	cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
	if err != nil {
		return fmt.Errorf("[barid.system] get type count err %v", err)
	}
	if limit <= int(cnt) {
		return fmt.Errorf("braid.system actor %v global quantity limit current count %v", builder.GetType(), cnt)
	}
	return nil
}

func (sys *NormalSystem) Pub(''')
Q(S,'''		if int(cnt) >= builder.GetGlobalQuantityLimit() {''','''		if !(int64(builder.GetGlobalQuantityLimit()) > cnt) {''')
Q(S,'''	if builder.GetID() == "" || builder.GetType() == "" {
		return nil, fmt''','''	id, ty := builder.GetID(), builder.GetType()
	if len(id) == 0 || len(ty) == 0 {
		return nil, fmt''')
Q(S,'''	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
	if err != nil {
		return nil, err
	}
''','''	if err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight()); err != nil {
		return nil, fmt.Errorf("register: %w", err)
	}
''')
# S06
M('S06',S,'''	if ac == nil {
		return fmt.Errorf("braid.system unregister actor id %v unknown type %v", id, ty)
	}

	// First, check if the actor exists and get it
	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
''','')
M('S06',S,'''		actor.Exit()

		// Remove the actor from the map
		sys.Lock()
		delete(sys.actoridmap, id)
		sys.Unlock()
''','''		// Remove the actor from the map
		sys.Lock()
		delete(sys.actoridmap, id)
		sys.Unlock()
		actor.Exit()
''')
M('S06',S,'''		actor.Exit()

		// Remove''','''		go actor.Exit()

		// Remove''')
M('S06',S,'''	if exists {
		// Call Exit''','''	if !exists {
		return nil
	}
	if exists {
		// Call Exit''')
M('S06',S,'''	err := sys.addressbook.Unregister(context.TODO(), id, ac.Weight)
	if''','''	err := sys.addressbook.Unregister(context.TODO(), id, 0)
	if''')
M('S06',S,'''		sys.Unlock()
	}

	// Unregister from the address book
''','''		sys.Unlock()
		return sys.addressbook.Unregister(context.TODO(), id, ac.Weight+len(ac.Ty))
	}

''') if 0 else None
Q(S,'''	if exists {
		// Call Exit on the actor
		actor.Exit()

		// Remove the actor from the map
		sys.Lock()
		delete(sys.actoridmap, id)
		sys.Unlock()
	}
''','''	if exists {
		sys.end(actor, id)
	}
''','''func (sys *NormalSystem) Pub(''','''func (sys *NormalSystem) end(actor core.IActor, id string) {
	actor.Exit()
	sys.Lock()
	defer sys.Unlock()
	delete(sys.actoridmap, id)
}

func (sys *NormalSystem) Pub(''')
# S07
M('S07',S,'''		go func(a core.IActor) {
			defer wait.Done()
			a.Exit()''','''		go func(a core.IActor) {
			a.Exit()
			wait.Done()''')
M('S07',S,'''		wait.Add(1)

		go func(a core.IActor) {
''','''		go func(a core.IActor) {
			wait.Add(1)
''')
M('S07',S,'''		go func(a core.IActor) {
			defer wait.Done()
			a.Exit()
			log.InfoF("braid.system actor exit %v", a.ID())
		}(actor)''','''		func(a core.IActor) {
			defer wait.Done()
			a.Exit()
			log.InfoF("braid.system actor exit %v", a.ID())
		}(actor)''')
M('S07',S,'''	for _, actor := range sys.Actors() {
		wait.Add(1)
''','''	for _, actor := range sys.Actors() {
		if actor.Type() == "" {
			continue
		}
		wait.Add(1)
''')
M('S07',S,'''	err := sys.addressbook.Clear(context.TODO())
	if err != nil {
		log''','''	if len(sys.Actors()) == 0 {
		return
	}
	err := sys.addressbook.Clear(context.TODO())
	if err != nil {
		log''')
M('S07',S,'''			sys.acceptor.Exit()
''','')
M('S07',P,'''	case <-ctx.Done():
		log.InfoF("Shutdown timed out after 30 seconds. Force exiting.")
''','''	case <-ctx.Done():
		select {}
''')
M('S07',P,'''		wg.Wait()
		close(done)''','''		close(done)''')
M('S07',P,'''	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
''','''	ctx, cancel := context.WithCancel(context.Background())
''','''	pn.sys.Exit(&wg)
''','''	pn.sys.Exit(&wg)
	time.Sleep(time.Millisecond)
''') if 0 else None
M('S07',P,'''context.WithTimeout(context.Background(), 30*time.Second)''','''context.WithCancel(context.Background())''','''	pn.sys.Exit(&wg)
''','''	pn.sys.Exit(&wg)
	time.Sleep(time.Millisecond)
''')
Q(P,'''	done := make(chan struct{})

	// Wait for all actors to finish their cleanup in a goroutine
	go func() {
		wg.Wait()
		close(done)
	}()

	// Wait for either all actors to finish or the timeout to occur
	select {
	case <-done:
		log.InfoF("All actors have shut down gracefully. Exiting process.")
	case <-ctx.Done():''','''	done := make(chan struct{}, 1)
	go func() {
		wg.Wait()
		done <- struct{}{}
	}()
	select {
	case <-done:
		log.InfoF("All actors have shut down gracefully. Exiting process.")
	case <-ctx.Done():''')
Q(P,'''	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
''','''	limit := time.After(30 * time.Second)
''','''	case <-ctx.Done():''','''	case <-limit:''','''	"context"
''','')
Q(S,'''	for _, actor := range sys.Actors() {
		wait.Add(1)

		go func(a core.IActor) {
			defer wait.Done()
			a.Exit()
			log.InfoF("braid.system actor exit %v", a.ID())
		}(actor)
	}
''','''	actors := sys.Actors()
	wait.Add(len(actors))
	for i := range actors {
		a := actors[i]
		go func() {
			defer func() { wait.Done() }()
			a.Exit()
		}()
	}
''')
Q(S,'''	for _, actor := range sys.Actors() {
		wait.Add(1)

		go func(a core.IActor) {
			defer wait.Done()
			a.Exit()
			log.InfoF("braid.system actor exit %v", a.ID())
		}(actor)
	}
''','''	exit := func(a core.IActor) {
		defer wait.Done()
		a.Exit()
	}
	for _, actor := range sys.Actors() {
		wait.Add(1)
		go exit(actor)
	}
''')
# S08
M('S08',S,'''	if ac == nil {
		log.WarnF("braid.system stale actor record actorID %v unknown actorTy %v call ev %v", id, actorType, event)
		return
	}
''','')
M('S08',S,'''	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)''','''	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)''')
Q(S,'''	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)''','''	t := sys.ps.GetOrCreateTopic(topic)
	return t.Pub(context.TODO(), event, body)''')
