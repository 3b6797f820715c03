J = "lib/tracer/jaegertracing.go"
C = "lib/span/span_call.go"
G = "lib/span/span_grpc.go"
SY = "core/node/system_impl.go"
M("T01", J, "	span, err := spanfactory(jt.tracing)\n", "	span, err := spanfactory(opentracing.GlobalTracer())\n")
M("T01", J, "	if !ok {\n		return nil, ErrFactoryNotExist\n	}\n\n	span,", "	if !ok {\n		for _, f := range jt.factory {\n			spanfactory = f\n		}\n	}\n\n	span,")
M("T01", J, "		if _, ok := jt.factory[v.Name]; !ok {\n			jt.factory[v.Name] = v.Factory\n		}", "		jt.factory[v.Name] = v.Factory")
M("T01", J, "		if _, ok := jt.factory[v.Name]; !ok {", "		if v.Name == SystemDefault {\n			break\n		}\n		if _, ok := jt.factory[v.Name]; !ok {", "	Name = \"JaegerTracing\"\n", "	Name = \"JaegerTracing\"\n	SystemDefault = \"default\"\n")
M("T01", J, "	case rc.CollectorEndpoint != \"\":", "	case rc.LocalAgentHostPort == \"\":")
M("T01", J, "jaeger.NewUDPTransport(rc.LocalAgentHostPort, 0)", "jaeger.NewUDPTransport(rc.CollectorEndpoint, 0)")
M("T01", J, "		ServiceName: p.Name,\n", "		ServiceName: Name,\n")
M("T01", J, "			Param: p.Probabilistic,", "			Param: 1,")
M("T01", C, "opentracing.ChildOf(parentSpan.Context())", "opentracing.FollowsFrom(parentSpan.Context())")
M("T01", C, "	return opentracing.ContextWithSpan(mthonctx, t.span)", "	return opentracing.ContextWithSpan(context.Background(), t.span)")
M("T01", C, "	return opentracing.ContextWithSpan(mthonctx, t.span)", "	return mthonctx")
M("T01", G, "	key = strings.ToLower(key)\n	c.MD[key] = append(c.MD[key], val)", "	key = strings.ToLower(key)\n	c.MD[key] = []string{val}")
M("T01", G, "	c.MD[key] = append(c.MD[key], val)", "	c.MD[key] = append(c.MD[key], val)\n	_ = key", "	key = strings.ToLower(key)\n", "	key = strings.TrimSpace(key)\n")
M("T01", G, "			if err := handler(k, v); err != nil {\n				return err\n			}\n		}", "			if err := handler(k, v); err != nil {\n				return err\n			}\n			break\n		}")
M("T01", G, "			rootCtx = rootSpan.Context()\n", "			_ = rootSpan.Context()\n")
M("T01", G, "			md = md.Copy()\n", "			md = metadata.New(nil)\n")
M("T01", G, "		err := tracer.Inject(span.Context(), opentracing.TextMap, mdWriter)", "		err := tracer.Inject(rootCtx, opentracing.TextMap, mdWriter)")
M("T01", G, "			ctx = opentracing.ContextWithSpan(ctx, span)\n", "")
M("T01", G, "metadata.FromIncomingContext(ctx)", "metadata.FromOutgoingContext(ctx)")
M("T01", G, "				ext.RPCServerOption(spanContext),\n", "				ext.RPCServerOption(nil),\n", "		spanContext, err :=", "		_, err :=")
M("T01", SY, "			mw.Ctx = span.Begin(mw.Ctx)\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"call\")", "			span.Begin(mw.Ctx)\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"call\")")
M("T01", SY, "			mw.Ctx = span.Begin(mw.Ctx)\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"send\")", "			mw.Ctx = span.Begin(context.Background())\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"send\")")
# equivalents
Q(J, "	if !ok {\n		return nil, ErrFactoryNotExist\n	}\n\n	span, err := spanfactory(jt.tracing)\n	if err != nil {\n		return nil, err\n	}\n\n	return span, nil", "	if ok {\n		return spanfactory(jt.tracing)\n	}\n	return nil, ErrFactoryNotExist")
Q(J, "	spanfactory, ok := jt.factory[strategy]\n	if !ok {\n		return nil,", "	spanfactory := jt.factory[strategy]\n	if spanfactory == nil {\n		return nil,")
Q(J, "	return nil, ErrFactoryNotExist", "	return nil, fmt.Errorf(\"%w: %s\", ErrFactoryNotExist, strategy)")
Q(J, "		if _, ok := jt.factory[v.Name]; !ok {\n			jt.factory[v.Name] = v.Factory\n		}", "		if _, ok := jt.factory[v.Name]; ok {\n			continue\n		}\n		jt.factory[v.Name] = v.Factory")
Q(J, "	for _, v := range p.ImportFactory {\n		if", "	for i := range p.ImportFactory {\n		v := p.ImportFactory[i]\n		if")
Q(J, "	for _, v := range p.ImportFactory {\n		if", "	for i := 0; i < len(p.ImportFactory); i++ {\n		v := &p.ImportFactory[i]\n		if")
Q(J, "	jt.tracing = jtracing\n	jt.closer = closer\n\n	return jt", "	res := jt\n	res.closer = closer\n	res.tracing = jtracing\n	return res")
Q(C, "	if parentSpan != nil {\n		t.span = t.tracing.StartSpan(\"System.call\", opentracing.ChildOf(parentSpan.Context()))\n	} else {\n		t.span = t.tracing.StartSpan(\"System.call.root\")\n	}", "	name := \"System.call.root\"\n	var so []opentracing.StartSpanOption\n	if parentSpan != nil {\n		name = \"System.call\"\n		so = append(so, opentracing.ChildOf(parentSpan.Context()))\n	}\n	t.span = t.tracing.StartSpan(name, so...)")
Q(C, "	return opentracing.ContextWithSpan(mthonctx, t.span)", "	out := opentracing.ContextWithSpan(mthonctx, t.span)\n	return out")
Q(C, "	return opentracing.ContextWithSpan(mthonctx, t.span)", "	return opentracing.ContextWithSpan(mthonctx, sp)", "	t.starting = true\n", "	sp := t.span\n	t.starting = true\n")
Q(G, "	key = strings.ToLower(key)\n	c.MD[key] = append(c.MD[key], val)", "	k := strings.ToLower(key)\n	old := c.MD[k]\n	c.MD[k] = append(old, val)")
Q(G, "	key = strings.ToLower(key)\n	c.MD[key] = append(c.MD[key], val)", "	c.MD.Append(key, val)", "	\"strings\"\n", "")
Q(G, "	for k, vs := range c.MD {\n		for _, v := range vs {\n			if err := handler(k, v); err != nil {", "	for k := range c.MD {\n		for i := range c.MD[k] {\n			if err := handler(k, c.MD[k][i]); err != nil {")
Q(G, "		if !succ {\n			md = metadata.New(nil)\n		} else {\n			md = md.Copy()\n		}\n\n		mdWriter := MDReaderWriter{md}", "		if succ {\n			md = md.Copy()\n		} else {\n			md = metadata.MD{}\n		}\n		var mdWriter MDReaderWriter\n		mdWriter.MD = md")
Q(G, "		rootSpan := opentracing.SpanFromContext(ctx)\n		if rootSpan != nil {\n			rootCtx = rootSpan.Context()\n		}", "		if rootSpan := opentracing.SpanFromContext(ctx); rootSpan != nil {\n			rootCtx = rootSpan.Context()\n		}")
Q(G, "		rootSpan := opentracing.SpanFromContext(ctx)\n		if rootSpan != nil {\n			rootCtx = rootSpan.Context()\n		}\n\n		span := tracer.StartSpan(\n			method,\n			opentracing.ChildOf(rootCtx),\n			ext.SpanKindRPCClient,\n		)", "		rootSpan := opentracing.SpanFromContext(ctx)\n		so := []opentracing.StartSpanOption{ext.SpanKindRPCClient}\n		if rootSpan != nil {\n			rootCtx = rootSpan.Context()\n			so = append(so, opentracing.ChildOf(rootCtx))\n		}\n		span := tracer.StartSpan(method, so...)")
Q(G, "		if err != nil && err != opentracing.ErrSpanContextNotFound {\n			grpclog.Errorf(\"extract from metadata err: %v\", err)\n		} else {", "		if err != nil && !errors.Is(err, opentracing.ErrSpanContextNotFound) {\n			grpclog.Errorf(\"extract from metadata err: %v\", err)\n		} else {", "import (\n	\"context\"\n", "import (\n	\"context\"\n	\"errors\"\n")
Q(G, "			ctx = opentracing.ContextWithSpan(ctx, span)\n		}\n		return handler(ctx, req)", "			return handler(opentracing.ContextWithSpan(ctx, span), req)\n		}\n		return handler(ctx, req)")
Q(SY, "			mw.Ctx = span.Begin(mw.Ctx)\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"call\")", "			sctx := span.Begin(mw.Ctx)\n			mw.Ctx = sctx\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"call\")")
