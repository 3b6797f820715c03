PC = "lib/pubsub/ps_channel.go"; PT = "lib/pubsub/ps_topic.go"; TM = "lib/timer/timer.go"; RT = "core/actor/actor_runtime_impl.go"
UB = "lib/unbounded/unbounded.go"; AB = "core/addressbook/addressbook_impl.go"; SY = "core/node/system_impl.go"; CC = "core/actor/actor_context_impl.go"
M("L13", PC, "	if err != nil && err.Error() !=", "	if err.Error() !=")
M("L13", PC, "		msgCh:    unbounded.NewUnbounded(),\n", "")
M("L13", PT, "		copt, ok := opt.(ChannelOption)\n		if ok {\n			copt(&p)\n		}\n", "		copt, _ := opt.(ChannelOption)\n		copt(&p)\n")
M("L13", PT, "	if err != nil && err != redis.Nil {", "	if err != redis.Nil {")
M("L13", TM, "	if t, ok := ts.task(taskID); ok {\n		t.stop()\n	}", "	t, _ := ts.task(taskID)\n	t.stop()")
M("L13", RT, "	a.reenterQueue = mpsc.New()\n", "	if a.Sys != nil {\n		a.reenterQueue = mpsc.New()\n	}\n")
M("L13", RT, "	a.shutdownCh = make(chan struct{})\n", "")
M("L13", UB, "	if len(b.backlog) > 0 {\n		select", "	if b.backlog != nil {\n		select")
M("L13", CC, "	sys, ok := ac.ctx.Value(systemKey{}).(core.ISystem)\n	if !ok {\n		panic(errors.New(\"the system instance does not exist in the ActorContext\"))\n	}\n\n	return sys.Send", "	sys, _ := ac.ctx.Value(systemKey{}).(core.ISystem)\n\n	return sys.Send")
Q(PC, "	if err != nil && err.Error() != \"BUSYGROUP Consumer Group name already exists\" {\n		return nil, err\n	}", "	if err != nil {\n		if err.Error() != \"BUSYGROUP Consumer Group name already exists\" {\n			return nil, err\n		}\n	}")
Q(PC, "	if err != nil && err.Error() != \"BUSYGROUP Consumer Group name already exists\" {", "	if busy := func(err error) bool { return err.Error() == \"BUSYGROUP Consumer Group name already exists\" }; err != nil && !busy(err) {")
Q(PT, "		copt, ok := opt.(ChannelOption)\n		if ok {\n			copt(&p)\n		}\n", "		switch copt := opt.(type) {\n		case ChannelOption:\n			copt(&p)\n		}\n")
Q(TM, "	if t, ok := ts.task(taskID); ok {\n		t.stop()\n	}", "	t, ok := ts.task(taskID)\n	if !ok {\n		return\n	}\n	t.stop()")
Q(RT, "	a.q = mpsc.New()\n	a.reenterQueue = mpsc.New()\n", "	a.initQueues()\n", "@@END", "\nfunc (a *Runtime) initQueues() {\n	a.q = mpsc.New()\n	a.reenterQueue = mpsc.New()\n}\n")
Q(UB, "	if len(b.backlog) > 0 {\n		select", "	if n := len(b.backlog); n != 0 {\n		select")
Q(AB, "	if len(addrJSONs) == 0 {", "	if n := len(addrJSONs); n < 1 {")
M("P06", PT, "		if !strings.Contains(err.Error(), \"no such key\") {\n", "		if !strings.Contains(err.Error(), \"no such\") || len(groups) == 0 {\n")
M("P06", PT, "		err = nil\n	}\n\n	if len(groups) == 0 {", "	}\n\n	if len(groups) == 0 {")
M("P06", PT, "		if cnt == 0 {", "		if cnt == 0 && len(rt.channelMap) == 0 {")
M("P03", PC, "	if len(consumers) == 0 {", "	if len(consumers) == 0 && c.consumer == \"\" {")
Q(PT, "		err = nil\n	}\n\n	if len(groups) == 0 {", "		err = nil\n	}\n\n	if n := len(groups); n > 0 {\n		return err\n	}\n	{")
M("L13", SY, "		if actor != nil {\n			return actor.Received(mw)\n		}", "		if actor == nil {\n			return actor.Received(mw)\n		}")
