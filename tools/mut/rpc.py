K='lib/grpc/client.go'
V='lib/grpc/server.go'
KO='lib/grpc/client_opt.go'
VO='lib/grpc/server_opt.go'
AC='core/node/system_acceptor.go'
SG='lib/span/span_grpc.go'
SC='lib/span/span_call.go'
SY='core/node/system_impl.go'
MG='3rd/mgo/collection.go'
RC='3rd/redis/client.go'
DEFER='''		defer func() { <-c.workers }() // 释放工作槽
'''
WAIT='''	select {
	case c.workers <- struct{}{}: // 获取工作槽
		defer func() { <-c.workers }() // 释放工作槽
	case <-ctx.Done():
		return fmt.Errorf("[braid.client] failed to acquire worker: %w", ctx.Err())
	}
'''
RUN='''	g, gCtx := errgroup.WithContext(ctx)
	g.Go(func() error {
		if err := conn.Invoke(gCtx, method, args, reply, grpcopts...); err != nil {
			return fmt.Errorf("[braid.client] invoke error: method=%s, addr=%s: %w",
				method, addr, err)
		}
		return nil
	})

	return g.Wait()
'''
# ---- R01
M('R01',K,DEFER,'',RUN,'''	err = conn.Invoke(ctx, method, args, reply, grpcopts...)
	<-c.workers
	return err
''','''	"golang.org/x/sync/errgroup"
''','')
M('R01',K,DEFER,'',RUN,RUN.replace('return g.Wait()','err = g.Wait()\n\t<-c.workers\n\treturn err'))
M('R01',K,DEFER,'''		<-c.workers
''')
M('R01',K,DEFER,'',RUN,RUN.replace('	g.Go(func() error {\n','	g.Go(func() error {\n		defer func() { <-c.workers }()\n'))
M('R01',K,WAIT,'''	c.workers <- struct{}{}
	defer func() { <-c.workers }()
''')
M('R01',K,'''	case <-ctx.Done():
		return fmt.Errorf("[braid.client] failed to acquire worker: %w", ctx.Err())
''','''	case <-ctx.Done():
		return nil
''')
M('R01',K,'''	case <-ctx.Done():
		return fmt.Errorf("[braid.client] failed to acquire worker: %w", ctx.Err())
''','''	case <-ctx.Done():
''')
M('R01',K,'''	case <-ctx.Done():
		return fmt''','''	case <-context.Background().Done():
		return fmt''')
M('R01',K,'''make(chan struct{}, p.MaxConcurrentCalls)''','''make(chan struct{}, DefaultClientParm.MaxConcurrentCalls)''')
M('R01',K,'''make(chan struct{}, p.MaxConcurrentCalls)''','''make(chan struct{}, p.PoolCapacity)''')
M('R01',K,'''make(chan struct{}, p.MaxConcurrentCalls)''','''make(chan struct{})''')
M('R01',K,'''	return g.Wait()
''','''	go g.Wait()
	return nil
''')
M('R01',K,'''	return g.Wait()
''','''	done := make(chan error, 1)
	go func() { done <- g.Wait() }()
	select {
	case err := <-done:
		return err
	case <-ctx.Done():
		return ctx.Err()
	}
''')
M('R01',K,DEFER,'''		defer func() {
			if ctx.Err() == nil {
				<-c.workers
			}
		}()
''')
M('R01',K,DEFER,'''		defer func() {
			select {
			case <-c.workers:
			case <-ctx.Done():
			}
		}()
''')
Q(K,WAIT,'''	if err := c.acquire(ctx); err != nil {
		return err
	}
	defer c.release()
''','''func (c *Client) Call(''','''func (c *Client) acquire(ctx context.Context) error {
	select {
	case <-ctx.Done():
		return fmt.Errorf("[braid.client] failed to acquire worker: %w", ctx.Err())
	case c.workers <- struct{}{}:
	}
	return nil
}

func (c *Client) release() {
	<-c.workers
}

func (c *Client) Call(''')
Q(K,RUN,'''	if err := conn.Invoke(ctx, method, args, reply, grpcopts...); err != nil {
		return fmt.Errorf("[braid.client] invoke error: method=%s, addr=%s: %w", method, addr, err)
	}
	return nil
''','''	"golang.org/x/sync/errgroup"
''','')
Q(K,'''	return &Client{
		parm:    p,
		workers: make(chan struct{}, p.MaxConcurrentCalls), // 设置最大并发数
	}
''','''	cli := &Client{parm: p}
	n := cli.parm.MaxConcurrentCalls
	cli.workers = make(chan struct{}, n)
	return cli
''')
Q(K,WAIT+'''
	conn, err := c.getConn(addr)
	if err != nil {
		return fmt.Errorf("[braid.client] failed to get connection: %w", err)
	}
''','''	conn, err := c.getConn(addr)
	if err != nil {
		return fmt.Errorf("[braid.client] failed to get connection: %w", err)
	}

	select {
	case <-ctx.Done():
		return fmt.Errorf("[braid.client] failed to acquire worker: %w", ctx.Err())
	case c.workers <- struct{}{}:
	}
	defer func() {
		<-c.workers
	}()
''')
# ---- R02
GET='''		if stored, loaded := c.connmap.LoadOrStore(addr, conn); loaded {
			conn.Close()
			conn = stored.(*grpc.ClientConn)
		}
'''
M('R02',K,GET,'''		c.connmap.Store(addr, conn)
''')
M('R02',K,GET,'')
M('R02',K,GET,GET.replace('			conn.Close()\n',''))
M('R02',K,GET,GET.replace('			conn = stored.(*grpc.ClientConn)\n','').replace('stored, loaded','_, loaded'))
M('R02',K,GET,GET.replace('LoadOrStore(addr,','LoadOrStore(methon,'))
M('R02',K,GET,'''		stored, _ := c.connmap.LoadOrStore(addr, conn)
		conn.Close()
		conn = stored.(*grpc.ClientConn)
''')
M('R02',K,'''			if _, loaded := c.connmap.LoadOrStore(addr, conn); loaded {
				conn.Close()
			}
''','''			c.connmap.Store(addr, conn)
''')
M('R02',K,'''			fmt.Printf("[braid.client] client get conn warning %s", err.Error())
			return err
''','''			fmt.Printf("[braid.client] client get conn warning %s", err.Error())
			return nil
''')
M('R02',K,'''mc, ok := c.connmap.Load(address)''','''mc, ok := c.connmap.Load(c.parm.AddressLst[0])''')
M('R02',K,'''	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()

	var conn *grpc.ClientConn''','''	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()

	var conn *grpc.ClientConn''')
M('R02',K,'''			callopt, ok := v.(grpc.CallOption)
			if !ok {
				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
			}
			grpcopts''','''			callopt, ok := v.(grpc.CallOption)
			if !ok {
				continue
			}
			grpcopts''')
M('R02',K,'''			callopt, ok := v.(grpc.CallOption)
			if !ok {
				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
			}
''','''			callopt, ok := v.(grpc.CallOption)
			if !ok {
				fmt.Printf("[braid.client] invalid call option type: %T", v)
			}
''')
M('R02',K,'''err = conn.Invoke(ctx, methon, args, reply, grpcopts...)''','''err = conn.Invoke(ctx, methon, args, reply)''')
M('R02',K,'''err = conn.Invoke(ctx, methon, args, reply, grpcopts...)''','''err = conn.Invoke(ctx, methon, reply, args, grpcopts...)''')
M('R02',K,'''	err = conn.Invoke(ctx, methon''','''	err = conn.Invoke(context.Background(), methon''')
M('R02',K,'''		fmt.Printf("[braid.client] invoke warning %s, methon = %s, addr = %s\\n", err.Error(), methon, addr)
	}

	return err
''','''		fmt.Printf("[braid.client] invoke warning %s, methon = %s, addr = %s\\n", err.Error(), methon, addr)
	}

	return nil
''')
M('R02',K,'''			return fmt.Errorf("[braid.client] invoke error: method=%s, addr=%s: %w",
				method, addr, err)
''','''			fmt.Printf("[braid.client] invoke error: method=%s, addr=%s: %v",
				method, addr, err)
''')
M('R02',K,'''		log.WarnF("[braid.client] new connect addr : %v err : %v", addr, err)
		return nil, err
''','''		log.WarnF("[braid.client] new connect addr : %v err : %v", addr, err)
		return conn, nil
''')
M('R02',K,'''	err = conn.Invoke(ctx, methon, args, reply, grpcopts...)
	if err != nil {
''','''	err = conn.Invoke(ctx, methon, args, reply, grpcopts...)
	if err != nil {
		conn.Close()
''')
Q(K,'''	conn, err := c.getConn(addr)
	if err != nil {
		// try create
		conn, err = c.newconn(addr)
		if err != nil {
			fmt.Printf("[braid.client] client get conn warning %s", err.Error())
			return err
		}

		// keep the connection that was stored first, another caller may have created one meanwhile
'''+GET+'''	}
''','''	conn, err := c.ensureConn(addr)
	if err != nil {
		return err
	}
''','''func (c *Client) CallWait(''','''func (c *Client) ensureConn(addr string) (*grpc.ClientConn, error) {
	if conn, err := c.getConn(addr); err == nil {
		return conn, nil
	}
	conn, err := c.newconn(addr)
	if err != nil {
		fmt.Printf("[braid.client] client get conn warning %s", err.Error())
		return nil, err
	}
	actual, loaded := c.connmap.LoadOrStore(addr, conn)
	if !loaded {
		return conn, nil
	}
	conn.Close()
	return actual.(*grpc.ClientConn), nil
}

func (c *Client) CallWait(''')
Q(K,GET,'''		stored, loaded := c.connmap.LoadOrStore(addr, conn)
		if loaded {
			go c.closeconn(conn)
		}
		conn = stored.(*grpc.ClientConn)
''')
Q(K,'''	if len(opts) != 0 {
		for _, v := range opts {
			callopt, ok := v.(grpc.CallOption)
			if !ok {
				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
			}
			grpcopts = append(grpcopts, callopt)
		}
	}
''','''	grpcopts, err = callOptions(opts)
	if err != nil {
		return err
	}
''','''	grpcopts := make([]grpc.CallOption, 0, len(opts))
	for _, v := range opts {
		if callopt, ok := v.(grpc.CallOption); ok {
			grpcopts = append(grpcopts, callopt)
		} else {
			return fmt.Errorf("[braid.client] invalid call option type: %T", v)
		}
	}
''','''	grpcopts, err := callOptions(opts)
	if err != nil {
		return err
	}
''','''func (c *Client) CallWait(''','''func callOptions(opts []interface{}) ([]grpc.CallOption, error) {
	var r []grpc.CallOption
	for i := 0; i < len(opts); i++ {
		o, ok := opts[i].(grpc.CallOption)
		if !ok {
			return nil, fmt.Errorf("[braid.client] invalid call option type: %T", opts[i])
		}
		r = append(r, o)
	}
	return r, nil
}

func (c *Client) CallWait(''')
# ---- R03
M('R03',AC,'''	unaryInterceptors = append(unaryInterceptors,
		grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)))

	if trac != nil && trac.GetTracing() != nil {
		unaryInterceptors = append(unaryInterceptors,
			span.ServerInterceptor(trac.GetTracing().(opentracing.Tracer)))
	}
''','''	if trac != nil && trac.GetTracing() != nil {
		unaryInterceptors = append(unaryInterceptors,
			span.ServerInterceptor(trac.GetTracing().(opentracing.Tracer)))
	}

	unaryInterceptors = append(unaryInterceptors,
		grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)))
''')
M('R03',AC,'''		unaryInterceptors = append(unaryInterceptors,
			span.ServerInterceptor(''','''		unaryInterceptors = append([]realgrpc.UnaryServerInterceptor{},
			span.ServerInterceptor(''')
M('R03',AC,'''	if trac != nil && trac.GetTracing() != nil {
		unaryInterceptors = append(''','''	if trac != nil && trac.GetTracing() != nil {
		unaryInterceptors = append(unaryInterceptors[:0:0], ''','''unaryInterceptors[:0:0], unaryInterceptors,''','''unaryInterceptors[:0:0],''')
M('R03',AC,'''			grpc.ServerAppendUnaryInterceptors(unaryInterceptors...),
''','''			grpc.ServerAppendUnaryInterceptors(unaryInterceptors[1:]...),
''')
M('R03',AC,'''			grpc.ServerAppendUnaryInterceptors(unaryInterceptors...),
''','')
M('R03',AC,'''	return fmt.Errorf("[GRPC-SERVER RECOVER] err: %v stack: %s", err, buf)
''','''	return nil
''')
M('R03',AC,'''	err, ok := r.(error)
	if !ok {
		err = fmt.Errorf("%v", r)
	}
''','''	err := r.(error)
''')
M('R03',V,'''grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)''','''p.UnaryInterceptors[len(p.UnaryInterceptors)-1]''')
M('R03',V,'''ChainUnaryServer(p.UnaryInterceptors...)''','''ChainUnaryServer(p.UnaryInterceptors[0])''')
M('R03',V,'''if len(p.UnaryInterceptors) != 0 {''','''if len(p.UnaryInterceptors) > 1 {''')
M('R03',V,'''if len(p.UnaryInterceptors) != 0 {''','''if p.Handler == nil && len(p.UnaryInterceptors) != 0 {''')
M('R03',K,'''ChainUnaryClient(c.parm.UnaryInterceptors...)''','''ChainUnaryClient(c.parm.UnaryInterceptors[0])''')
M('R03',AC,'''trac.GetTracing() != nil {''','''trac.GetTracing() == nil {''')
M('R03',K,'''len(c.parm.UnaryInterceptors) > 0''','''len(c.parm.UnaryInterceptors) > 1''')
M('R03',K,'''	if len(c.parm.dialOptions) > 0 {
		dialOpts = append(dialOpts, c.parm.dialOptions...)''','''	if len(c.parm.dialOptions) > 0 {
		dialOpts = c.parm.dialOptions''')
M('R03',KO,'''c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)''','''c.UnaryInterceptors = interceptor''')
M('R03',VO,'''c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)''','''c.UnaryInterceptors = interceptor''')
M('R03',VO,'''c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)''','''c.UnaryInterceptors = append(interceptor, c.UnaryInterceptors...)''')
M('R03',VO,'''c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)''','''c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor[0])''')
M('R03',SG,'''		return handler(ctx, req)
''','''		return handler(context.Background(), req)
''')
M('R03',SG,'''			grpclog.Errorf("extract from metadata err: %v", err)
''','''			grpclog.Errorf("extract from metadata err: %v", err)
			return nil, err
''')
M('R03',SG,'''		return handler(ctx, req)
''','''		res, _ = handler(ctx, req)
		return res, err
''')
M('R03',SG,'''		return handler(ctx, req)
''','''		res, err = handler(ctx, req)
		if err != nil {
			res, err = handler(ctx, req)
		}
		return res, err
''')
M('R03',SG,'''return invoker(newCtx, method, req, reply, cc, opts...)''','''return invoker(newCtx, method, req, reply, cc)''')
M('R03',SG,'''return invoker(newCtx, method, req, reply, cc, opts...)''','''return invoker(metadata.NewOutgoingContext(context.Background(), md), method, req, reply, cc, opts...)''','''		newCtx := metadata.NewOutgoingContext(ctx, md)
''','')
M('R03',SG,'''		return invoker(newCtx, method, req, reply, cc, opts...)''','''		invoker(newCtx, method, req, reply, cc, opts...)
		return err''')
Q(AC,'''	var unaryInterceptors []realgrpc.UnaryServerInterceptor

	unaryInterceptors = append(unaryInterceptors,
		grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)))

	if trac != nil && trac.GetTracing() != nil {
		unaryInterceptors = append(unaryInterceptors,
			span.ServerInterceptor(trac.GetTracing().(opentracing.Tracer)))
	}
''','''	unaryInterceptors := interceptors(trac)
''','''func NewAcceptor(''','''func interceptors(trac tracer.ITracer) []realgrpc.UnaryServerInterceptor {
	lst := []realgrpc.UnaryServerInterceptor{
		grpc_recovery.UnaryServerInterceptor(grpc_recovery.WithRecoveryHandler(recoverHandler)),
	}
	if trac == nil {
		return lst
	}
	if t := trac.GetTracing(); t != nil {
		lst = append(lst, span.ServerInterceptor(t.(opentracing.Tracer)))
	}
	return lst
}

func NewAcceptor(''')
Q(V,'''	if len(p.UnaryInterceptors) != 0 {
		interceptors = append(interceptors, grpc.UnaryInterceptor(grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)))
	}
''','''	if n := len(p.UnaryInterceptors); n > 0 {
		chain := grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)
		interceptors = append(interceptors, grpc.UnaryInterceptor(chain))
	}
''')
Q(V,'''	if len(p.UnaryInterceptors) != 0 {
		interceptors = append(interceptors, grpc.UnaryInterceptor(grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)))
	}
	if len(p.StreamInterceptors) != 0 {
		interceptors = append(interceptors, grpc.StreamInterceptor(grpc_middleware.ChainStreamServer(p.StreamInterceptors...)))
	}
''','''	interceptors = append(interceptors, grpc.ChainUnaryInterceptor(p.UnaryInterceptors...), grpc.ChainStreamInterceptor(p.StreamInterceptors...))
''','''	grpc_middleware "github.com/grpc-ecosystem/go-grpc-middleware"
''','')
Q(SG,'''		return handler(ctx, req)
''','''		res, err = handler(ctx, req)
		return
''')
Q(VO,'''		c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)
''','''		for _, i := range interceptor {
			c.UnaryInterceptors = append(c.UnaryInterceptors, i)
		}
''')
# ---- R04
M('R04',SG,'''		defer span.Finish()

		md, succ''','''		md, succ''','''		return invoker(newCtx, method, req, reply, cc, opts...)''','''		err = invoker(newCtx, method, req, reply, cc, opts...)
		span.Finish()
		return err''')
M('R04',SG,'''		defer span.Finish()

		md, succ''','''		md, succ''')
M('R04',SG,'''			fmt.Println("tracer inject err", err.Error())
''','''			fmt.Println("tracer inject err", err.Error())
			return err
''')
M('R04',SG,"""		mdWriter := MDReaderWriter{md}
""","""		mdWriter := MDReaderWriter{ctx.Value("md").(metadata.MD)}
""")
M('R04',SG,'''			defer span.Finish()
			ctx = opentracing''','''			span.Finish()
			ctx = opentracing''')
M('R04',SY,'''			span.SetTag("id", idOrSymbol)

			defer span.End(mw.Ctx)
''','''			span.SetTag("id", idOrSymbol)

			if idOrSymbol != "" {
				defer span.End(mw.Ctx)
			}
''')
M('R04',SY,'''		span, err := sys.trac.GetSpan(span.SystemCall)
		if err == nil {
			mw.Ctx = span.Begin(mw.Ctx)
''','''		span, err := sys.trac.GetSpan(span.SystemCall)
		if err != nil {
			return err
		}
		{
			mw.Ctx = span.Begin(mw.Ctx)
''')
M('R04',SC,'''	t.starting = true

''','')
M('R04',SC,'''	if t.span != nil {
		t.span.Finish()
	}
''','''	if t.span != nil && t.parm.nodeID != "" {
		t.span.Finish()
	}
''')
M('R04',SC,'''		if sc, ok := t.span.Context().(jaeger.SpanContext); ok {
			return sc.TraceID().String()
		}
''','''		return t.span.Context().(jaeger.SpanContext).TraceID().String()
''')
M('R04',SC,'''	mthonctx, ok := ctx.(context.Context)
	if !ok {
		// If the context is invalid, return a new background context
		return context.Background()
	}
''','''	mthonctx := ctx.(context.Context)
''')
M('R04',SC,'''	if t.span != nil {
		t.span.SetTag(key, val)
	}
''','''	t.span.SetTag(key, val)
''')
M('R04',MG,'''		defer span.End(ctx)
''','''		span.End(ctx)
''')
M('R04',MG,'''	if err == nil {
		defer span.End(ctx)
	}

	return c.coll.CountDocuments(ctx, filter, opts...)
''','''	n, err := c.coll.CountDocuments(ctx, filter, opts...)
	if err == nil && span != nil {
		span.End(ctx)
	}
	return n, err
''')
M('R04',MG,'''	if err == nil {
		defer span.End(ctx)
	}

	return c.coll.CountDocuments(''','''	_ = span
	_ = err

	return c.coll.CountDocuments(''')
Q(SG,'''		defer span.Finish()

		md, succ''','''		defer func() {
			span.Finish()
		}()

		md, succ''','''			md = metadata.New(nil)
		} else {
			md = md.Copy()
		}

		mdWriter''','''			md = metadata.MD{}
		}
		md = md.Copy()

		mdWriter''')
Q(SY,'''			span.SetTag("orgActor", mw.Req.Header.OrgActorType)
			span.SetTag("tarActor", actorType)
			span.SetTag("event", event)
			span.SetTag("method", "call")
			span.SetTag("id", idOrSymbol)

			defer span.End(mw.Ctx)
''','''			defer span.End(mw.Ctx)
			for k, v := range map[string]string{"tarActor": actorType, "event": event, "method": "call", "id": idOrSymbol} {
				span.SetTag(k, v)
			}
			span.SetTag("orgActor", mw.Req.Header.OrgActorType)
''')
Q(SC,'''	if !t.starting {
		return
	}

	if t.span != nil {
		t.span.Finish()
	}
''','''	if t.starting && t.span != nil {
		t.span.Finish()
	}
''')
Q(SC,'''	parentSpan := opentracing.SpanFromContext(mthonctx)
	if parentSpan != nil {
		t.span = t.tracing.StartSpan("System.call", opentracing.ChildOf(parentSpan.Context()))
	} else {
		t.span = t.tracing.StartSpan("System.call.root")
	}
''','''	name := "System.call.root"
	var opts []opentracing.StartSpanOption
	if parent := opentracing.SpanFromContext(mthonctx); parent != nil {
		name = "System.call"
		opts = append(opts, opentracing.ChildOf(parent.Context()))
	}
	t.span = t.tracing.StartSpan(name, opts...)
''')

Q(VO,"""		c.UnaryInterceptors = append(c.UnaryInterceptors, interceptor...)
""","""		lst := c.UnaryInterceptors
		lst = append(lst, interceptor...)
		c.UnaryInterceptors = lst
""")
Q(SC,"""	if t.span != nil {
		t.span.SetTag(key, val)
	}
""","""	sp := t.span
	if sp == nil {
		return
	}
	sp.SetTag(key, val)
""")
# ---- R02, connections found failed, dials without time, answers without a call
M('R02',K,'''		conn.ResetConnectBackoff()
''','')
M('R02',K,'''conn.GetState() == connectivity.TransientFailure''','''conn.GetState() == connectivity.Idle''')
M('R02',K,'''	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()

	var conn *grpc.ClientConn''','''	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	cancel()

	var conn *grpc.ClientConn''')
M('R02',K,'''		return fmt.Errorf("[braid.client] failed to get connection: %w", err)
''','''		return nil
''')
M('R02',K,'''	conn, err := c.getConn(addr)
	if err != nil {
		// try create''','''	conn, err := c.getConn(addr)
	if err != nil || len(opts) > 0 {
		// try create''')
# ---- R05
M('R05',V,'''net.Listen("tcp", s.parm.ListenAddr)''','''net.Listen("tcp", ":14222")''')
M('R05',V,'''	s.listen = rpcListen
''','''	if s.listen != nil {
		s.listen = rpcListen
	}
''')
M('R05',V,'''		return fmt.Errorf("%v [GRPC] server check error %v [%v]", "", "tcp", s.parm.ListenAddr)
''','''		log.WarnF("%v [GRPC] server check error %v [%v]", "", "tcp", s.parm.ListenAddr)
''')
M('R05',V,'''	// regist rpc handler
	s.parm.Handler(s.rpc)

	go func() {
''','''	go func() {
		s.parm.Handler(s.rpc)
''')
M('R05',V,'''	go func() {
		log.InfoF''','''	func() {
		log.InfoF''')
M('R05',V,'''	if s.parm.GracefulStop {
		s.rpc.GracefulStop()
	} else {
		s.rpc.Stop()
	}
''','''	s.rpc.GracefulStop()
''')
M('R05',V,'''		s.rpc.GracefulStop()
	} else''','''		s.rpc.GracefulStop()
		s.rpc.Stop()
	} else if s.listen != nil''')
M('R05',V,'''	if p.Handler == nil {
		panic(fmt.Errorf("grpc server handler not set"))
	}

	if rpcserver''','''	if rpcserver''')
M('R05',V,'''		parm: p,
		rpc:  rpcserver,''','''		parm: ServerParm{ListenAddr: p.ListenAddr, Handler: p.Handler},
		rpc:  rpcserver,''')
Q(V,'''	if s.parm.GracefulStop {
		s.rpc.GracefulStop()
	} else {
		s.rpc.Stop()
	}
''','''	stop := s.rpc.Stop
	if s.parm.GracefulStop {
		stop = s.rpc.GracefulStop
	}
	stop()
''')
Q(V,'''	go func() {
		log.InfoF("[braid.grpc] server serving ...")

		if err := s.rpc.Serve(s.listen); err != nil {
			log.InfoF("[braid.grpc] exit %v", err.Error())
		}
	}()

}
''','''	go s.serve(s.listen)
}

func (s *Server) serve(l net.Listener) {
	log.InfoF("[braid.grpc] server serving ...")

	err := s.rpc.Serve(l)
	if err == nil {
		return
	}
	log.InfoF("[braid.grpc] exit %v", err.Error())
}
''')
Q(V,'''	rpcListen, err := net.Listen("tcp", s.parm.ListenAddr)
	if err != nil {
		return fmt.Errorf("%v [GRPC] server check error %v [%v]", "", "tcp", s.parm.ListenAddr)
	}
''','''	addr := s.parm.ListenAddr
	rpcListen, err := s.bind(addr)
	if err != nil {
		return fmt.Errorf("%v [GRPC] server check error %v [%v]", "", "tcp", addr)
	}
''','''// Get 获取rpc 服务器
''','''func (s *Server) bind(addr string) (net.Listener, error) {
	return net.Listen("tcp", addr)
}

// Get 获取rpc 服务器
''')
