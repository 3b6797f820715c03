N='core/node.go'; G='lib/grpc/client_opt.go'; GC='lib/grpc/client.go'; SO='lib/grpc/server_opt.go'; SV='lib/grpc/server.go'
LO='lib/log/options.go'; T='lib/tracer/opts.go'; TJ='lib/tracer/jaegertracing.go'; R='3rd/redis/client_opt.go'; RC='3rd/redis/client.go'
MO='3rd/mgo/mgr_opts.go'; MG='3rd/mgo/mgr.go'; PS='lib/pubsub/ps_mgr.go'; PT='lib/pubsub/ps_topic.go'; PC='lib/pubsub/ps_channel.go'
ND='core/node/node_process_impl.go'; SY='core/node/system_impl.go'; SP='lib/span/span_call.go'; MS='router/msg/msg.go'
# stores
M('L05',N,'np.ID = id','if np.ID == "" {\n\t\t\tnp.ID = id\n\t\t}')
M('L05',N,'np.Port = port','np.Port = port & 0x7fff')
M('L05',N,'		np.Ip = ip\n','		np.ID = ip\n')
M('L05',N,'		p.Ip = ip\n		p.Port = port','		p.Ip = ip\n		p.Port = len(ip)')
M('L05',G,'c.PoolIdle = time.Duration(second) * time.Second','c.CallTimeout = time.Duration(second) * time.Second')
M('L05',G,'append(c.AddressLst, lst...)','append(c.AddressLst, lst[1:]...)')
M('L05',G,'c.AddressLst = append(c.AddressLst, lst...)','c.AddressLst = append(c.AddressLst[:0], lst...)')
M('L05',G,'c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)','c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor[0])')
M('L05',G,'c.StreamInterceptors = append(c.StreamInterceptors, interceptor)','c.StreamInterceptors = append([]grpc.StreamClientInterceptor{}, interceptor)')
M('L05',G,'cp.dialOptions = append(cp.dialOptions, opts...)','if len(cp.dialOptions) == 0 {\n\t\t\tcp.dialOptions = append(cp.dialOptions, opts...)\n\t\t}')
M('L05',LO,'		o.RotationSize = s\n','		o.RotationSize = s << 20\n')
M('L05',LO,'		o.LogMaxAge = a\n','		o.MaxAge = int(a)\n')
M('L05',LO,'		o.LinkName = l\n','		o.GlobPattern = l\n')
M('L05',LO,'		o.RotationCount = c\n','		if c > 0 {\n			o.RotationCount = c\n		}\n')
M('L05',T,'c.LocalAgentHostPort = LocalAgentHostPort','c.CollectorEndpoint = LocalAgentHostPort')
M('L05',T,'c.Probabilistic = probabilistic','if probabilistic > 0 {\n\t\t\tc.Probabilistic = probabilistic\n\t\t}')
M('L05',T,'		for _, v := range factory {\n			c.ImportFactory = append(c.ImportFactory, v)\n		}','		for _, v := range factory {\n			c.ImportFactory = []TracerFactory{v}\n		}')
M('L05',R,'c.redisopt.ReadTimeout = readtimeout','c.redisopt.WriteTimeout = readtimeout')
M('L05',R,'c.redisopt.MaxIdleConns = maxidle','c.redisopt.MinIdleConns = maxidle')
M('L05',R,'c.redisopt.ConnMaxIdleTime = idletimeout','c.redisopt.ConnMaxLifetime = idletimeout')
M('L05',R,'options.redisopt.PoolTimeout = timeout','options.redisopt.DialTimeout = timeout')
M('L05',R,'c.redisopt.Password = pwd','c.redisopt.CredentialsProvider = func() (string, string) { return "", pwd }')
M('L05',MO,'if c == info','if c.Addr == info.Addr')
M('L05',MO,'p.poolSize = size','p.poolSize = size / 2')
# constructors
M('L05',ND,'	for _, opt := range opts {','	for _, opt := range opts[1:] {')
M('L05',ND,'	for _, opt := range opts {\n		opt(&p)\n	}','	for i := len(opts) - 1; i >= 0; i-- {\n		opts[i](&p)\n	}')
M('L05',GC,'	p := DefaultClientParm\n\n	for _, opt := range opts {\n		opt(&p)\n	}','	for _, opt := range opts {\n		opt(&DefaultClientParm)\n	}\n	p := DefaultClientParm')
M('L05',RC,'	p := *defaultClientConfig // the defaults of other clients stay as they are\n\n	for _, opt := range opts {\n		opt(&p)\n	}\n	return new(&p)','	p := defaultClientConfig\n\n	for _, opt := range opts {\n		opt(p)\n	}\n	return new(p)')
M('L05',SV,'	for _, opt := range opts {\n		opt(&p)\n	}','	for _, opt := range opts {\n		q := p\n		opt(&q)\n		if q.Handler != nil {\n			p = q\n		}\n	}')
M('L05',LO,'		if err := o(opt); err != nil {\n			return nil, err\n		}','		if err := o(opt); err != nil {\n			continue\n		}')
M('L05',PS,'newTopic(name, nps, opts...)','newTopic(name, nps)')
M('L05',PS,'nps.CreateTopic(name, opts...)','nps.CreateTopic(name)')
M('L05',PT,'		if ok {\n			copt(&p)\n		}','		if ok && p.ReadMode == "" {\n			copt(&p)\n		}')
M('L05',SP,'			v(parm)\n','			v(parm)\n			break\n')
M('L05',TJ,'	for _, opt := range opts {\n		opt(&p)\n	}','	for range opts {\n		opts[0](&p)\n	}')
# sinks
M('L05',GC,'dialOpts = append(dialOpts, c.parm.dialOptions...)','dialOpts = append(dialOpts, c.parm.dialOptions[0])')
M('L05',GC,'	if len(c.parm.StreamInterceptors) > 0 {','	if len(c.parm.StreamInterceptors) > 1 {')
M('L05',GC,'ChainStreamClient(c.parm.StreamInterceptors...)','ChainStreamClient(c.parm.StreamInterceptors[:1]...)')
M('L05',GC,'	if len(c.parm.dialOptions) > 0 {','	if len(c.parm.dialOptions) > 0 && len(c.parm.AddressLst) == 0 {')
M('L05',SV,'net.Listen("tcp", s.parm.ListenAddr)','net.Listen("tcp", ":14222")')
M('L05',SV,'	if s.parm.GracefulStop {','	if !s.parm.GracefulStop {')
M('L05',SV,'	if len(p.StreamInterceptors) != 0 {','	if len(p.StreamInterceptors) != 0 && len(p.UnaryInterceptors) == 0 {')
M('L05',SV,'	s.parm.Handler(s.rpc)\n\n	go func() {','	go func() {\n		s.parm.Handler(s.rpc)\n')
M('L05',PC,'c.channel, p.ReadMode)','c.channel, ReadModeLatest)')
M('L05',PT,'rt.topic, options.ttl)','rt.topic, 3600000000000)')
M('L05',ND,'buildSystemWithOption(p.ID, p.Ip, p.Port','buildSystemWithOption(p.Ip, p.ID, p.Port')
M('L05',ND,'p.Loader, p.Factory, p.Tracer)','p.Loader, p.Factory, nil)')
M('L05',SY,'		Ip:   sys.nodeIP,','		Ip:   "127.0.0.1",')
M('L05',ND,'	return pn.p.ID','	return pn.p.Ip')
M('L05',MG,'optCli.ApplyURI(c.Addr)','optCli.ApplyURI(p.conns[0].Addr)')
M('L05',MG,'mgrPtr.collections[c.Name]','mgrPtr.collections[c.Addr]')
M('L05',MG,'optCli.SetConnectTimeout(p.connTimeout)','optCli.SetTimeout(p.connTimeout)')
M('L05',MG,'		trc:  mgrPtr.trc,\n','')
M('L05',MG,'			trc:         p.tracer,\n','')
M('L05',TJ,'			Param: p.Probabilistic,','			Param: 1,')
M('L05',TJ,'		ServiceName: p.Name,','		ServiceName: Name,')
M('L05',TJ,'NewSlowReporter(sender, nil, jt.parm.Probabilistic)','NewSlowReporter(sender, nil, 1)')
M('L05',TJ,'jt.factory[v.Name] = v.Factory','jt.factory[v.Name] = p.ImportFactory[0].Factory')
M('L05',SP,'t.SetTag("node", t.parm.nodeID)','t.SetTag("node", SystemCall)')
# quiet
Q(N,'		np.ID = id\n','		name := id\n		np.ID = name\n')
Q(ND,'	for _, opt := range opts {\n		opt(&p)\n	}','	for i := 0; i < len(opts); i++ {\n		opts[i](&p)\n	}')
Q(G,'c.PoolIdle = time.Duration(second) * time.Second','idle := time.Second * time.Duration(second)\n\t\tc.PoolIdle = idle')
Q(G,'c.AddressLst = append(c.AddressLst, lst...)','for _, a := range lst {\n\t\t\tc.AddressLst = append(c.AddressLst, a)\n\t\t}')
Q(T,'		for _, v := range factory {\n			c.ImportFactory = append(c.ImportFactory, v)\n		}','		c.ImportFactory = append(c.ImportFactory, factory...)')
Q(GC,'	p := DefaultClientParm\n\n	for _, opt := range opts {\n		opt(&p)\n	}','	p := DefaultClientParm\n	p.apply(opts)','@@END','\nfunc (p *ClientParm) apply(opts []ClientOption) {\n	for _, opt := range opts {\n		opt(p)\n	}\n}\n')
Q(RC,'	return new(&p)\n','	cli := new(&p)\n	return cli\n')
Q(SV,'	if s.parm.GracefulStop {\n		s.rpc.GracefulStop()\n	} else {\n		s.rpc.Stop()\n	}','	if !s.parm.GracefulStop {\n		s.rpc.Stop()\n	} else {\n		s.rpc.GracefulStop()\n	}')
Q(SV,'net.Listen("tcp", s.parm.ListenAddr)','listenOn(s.parm)','@@END','\nfunc listenOn(p ServerParm) (net.Listener, error) {\n	return net.Listen("tcp", p.ListenAddr)\n}\n')
Q(MG,'			optCli := options.Client()\n			optCli.ApplyURI(c.Addr)\n','			addr := c.Addr\n			optCli := options.Client()\n			optCli.ApplyURI(addr)\n')
Q(MO,'	for _, c := range p.conns {\n		if c == info {\n			return true\n		}\n	}\n\n	return false','	for i := range p.conns {\n		if p.conns[i] == info {\n			return true\n		}\n	}\n	return false')
Q(TJ,'	for _, v := range p.ImportFactory {','	for i := range p.ImportFactory {\n		v := p.ImportFactory[i]')
Q(LO,'		if err := o(opt); err != nil {\n			return nil, err\n		}','		err := o(opt)\n		if err == nil {\n			continue\n		}\n		return nil, err')
Q(PT,'		copt, ok := opt.(ChannelOption)\n		if ok {\n			copt(&p)\n		}','		switch copt := opt.(type) {\n		case ChannelOption:\n			copt(&p)\n		}')
Q(SP,'		parm := &SpanParm{nodeID: "unknown"}\n','		parm := new(SpanParm)\n		parm.nodeID = "unknown"\n')
M("L05", "lib/grpc/server_opt.go", "c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)", "c.UnaryInterceptors = interceptor")
M("L05", "lib/grpc/client_opt.go", "c.AddressLst = append(c.AddressLst, lst...)", "c.AddressLst = lst")
Q("lib/grpc/client_opt.go", "c.AddressLst = append(c.AddressLst, lst...)", "if len(c.AddressLst) == 0 {\n\t\t\tc.AddressLst = lst\n\t\t\treturn\n\t\t}\n\t\tc.AddressLst = append(c.AddressLst, lst...)")
