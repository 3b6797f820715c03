R='3rd/redis/client.go'
M('L03',R,'client.SetEx(ctx, key, value, expiration)','client.SetEx(ctx, key, value, 0)')
M('L03',R,'client.SetNX(ctx, key, value, expiration)','client.SetNX(ctx, key, value, 0)')
M('L03',R,'client.Set(ctx, key, val, 0)','client.Set(ctx, key, val, redis.KeepTTL)')
M('L03',R,'client.Set(ctx, key, val, 0)','client.Set(ctx, val, key, 0)')
M('L03',R,'client.SRandMemberN(ctx, key, count)','client.SPopN(ctx, key, count)')
M('L03',R,'client.HGet(ctx, key, field)\n','client.HGet(ctx, field, key)\n')
M('L03',R,'conn.HGet(ctx, key, field)','client.HGet(ctx, key, field)')
M('L03',R,'	return cmd.Val(), cmd.Err()','	return cmd.Val(), nil')
M('L03',R,'client.Del(ctx, keys...)','client.Unlink(ctx, keys...)')
M('L03',R,'client.Del(ctx, keys...)','client.Del(ctx, keys[:1]...)')
M('L03',R,'client.Del(ctx, keys...)','client.Del(context.Background(), keys...)')
M('L03',R,'client.ZRevRange(ctx, key, start, stop)','client.ZRange(ctx, key, start, stop)')
M('L03',R,'client.ZRevRange(ctx, key, start, stop)','client.ZRevRange(ctx, key, stop, start)')
M('L03',R,'client.ZRevRange(ctx, key, start, stop)','client.ZRevRange(ctx, key, start, stop-1)')
M('L03',R,'client.ZRevRank(ctx, key, member)','client.ZRank(ctx, key, member)')
M('L03',R,'client.ZRangeByScore(ctx, key, &opt)','client.ZRangeByScore(ctx, key, &redis.ZRangeBy{Min: opt.Min, Max: opt.Max})')
M('L03',R,'"CAD", key, field','"CAS", key, field')
M('L03',R,'"CAD", key, field','"CAD", field, key')
M('L03',R,'"CAD", key, field','"CAD", key')
M('L03',R,'client.XGroupCreate(ctx, key, group, start)','client.XGroupCreateMkStream(ctx, key, group, start)')
M('L03',R,'client.XGroupCreate(ctx, key, group, start)','client.XGroupCreate(ctx, key, group, "$")')
M('L03',R,'client.XGroupDelConsumer(ctx, key, group, consumer)','client.XGroupDelConsumer(ctx, key, consumer, group)')
M('L03',R,'client.XGroupDestroy(ctx, key, group)','client.XGroupDestroy(ctx, group, key)')
M('L03',R,'client.XLen(ctx, key)','client.LLen(ctx, key)')
M('L03',R,'client.FlushDB(ctx)','client.FlushAll(ctx)')
M('L03',R,'client.Incr(ctx, key)','client.IncrBy(ctx, key, 2)')
M('L03',R,'client.RPush(ctx, key, values...)','client.LPush(ctx, key, values...)')
M('L03',R,'client.Exists(ctx, key)','client.Exists(ctx, key, key)')
M('L03',R,'	cmds, err := client.TxPipelined(ctx, fn)\n','	cmds, err := client.Pipelined(ctx, fn)\n')
M('L03',R,'client.Pipeline()','client.TxPipeline()')
M('L03',R,'script.Run(ctx, client, keys, args...).Result()','script.Run(ctx, client, keys, args).Result()')
M('L03',R,'	val, err := script.Run(ctx, client, keys, args...).Result()\n	return val, err','	val, err := script.Run(ctx, client, keys, args...).Result()\n	if err == redis.Nil {\n		return nil, nil\n	}\n	return val, err')
M('L03',R,'''	span, err := doTracing(ctx, spanTag{"cmd", "XAdd"}, spanTag{"key", ""})
	if err == nil {
		defer span.End(ctx)
	}
''','''	span, err := doTracing(ctx, spanTag{"cmd", "XAdd"}, spanTag{"key", ""})
	if err == nil {
		span.End(ctx)
	}
''')
M('L03',R,'''	span, err := doTracing(ctx, spanTag{"cmd", "XAdd"}, spanTag{"key", ""})
	if err == nil {
		defer span.End(ctx)
	}
''','''	span, _ := doTracing(ctx, spanTag{"cmd", "XAdd"}, spanTag{"key", ""})
	defer span.End(ctx)
''')
M('L03',R,'''	return client.XAdd(ctx, a)
''','''	res := client.XAdd(ctx, a)
	if res.Err() != nil {
		res = client.XAdd(ctx, a)
	}
	return res
''')
M('L03',R,'''	return client.XAdd(ctx, a)
''','''	if err == nil {
		return client.XAdd(ctx, a)
	}
	return redis.NewStringResult("", err)
''')
M('L03',R,'	client = cli\n','	if client == nil {\n		client = cli\n	}\n')
M('L03',R,'	client = redis.NewClient(&p.redisopt)\n	ctx','	c := redis.NewClient(&p.redisopt)\n	if client == nil {\n		client = c\n	}\n	ctx')
Q(R,'''	span, err := doTracing(ctx, spanTag{"cmd", "XAdd"}, spanTag{"key", ""})
	if err == nil {
		defer span.End(ctx)
	}
''','''	done := traced(ctx, spanTag{"cmd", "XAdd"}, spanTag{"key", ""})
	defer done()
''','func init() {','''func traced(ctx context.Context, tags ...spanTag) func() {
	span, err := doTracing(ctx, tags...)
	if err != nil {
		return func() {}
	}
	return func() { span.End(ctx) }
}

func init() {''')
Q(R,'''	return client.XAdd(ctx, a)
''','''	cmd := client.XAdd(ctx, a)
	if e := cmd.Err(); e != nil {
		fmt.Println("xadd", e)
	}
	return cmd
''')
Q(R,'	return client.Incr(ctx, key)','	c := GetClient()\n	return c.Incr(ctx, key)')
Q(R,'''	if err == nil {
		defer span.End(ctx)
	}
	return client.XDel(ctx, key, id)''','''	if err != nil {
		return client.XDel(ctx, key, id)
	}
	defer span.End(ctx)
	ids := []string{id}
	return client.XDel(ctx, key, ids...)''')
Q(R,'	return cmd.Val(), cmd.Err()','	return cmd.Result()')
Q(R,'	val, err := script.Run(ctx, client, keys, args...).Result()\n	return val, err','	cmd := script.Run(ctx, client, keys, args...)\n	return cmd.Val(), cmd.Err()')
C='3rd/mgo/collection.go'
M('L04',C,'c.coll.DeleteOne(ctx, filter, opts...)','c.coll.DeleteMany(ctx, filter, opts...)')
M('L04',C,'c.coll.DeleteMany(ctx, filter, opts...)','c.coll.DeleteOne(ctx, filter, opts...)')
M('L04',C,'c.coll.UpdateOne(ctx, filter, document, opts...)','c.coll.UpdateOne(ctx, document, filter, opts...)')
M('L04',C,'c.coll.UpdateOne(ctx, filter, document, opts...)','c.coll.UpdateMany(ctx, filter, document, opts...)')
M('L04',C,'c.coll.UpdateOne(ctx, filter, document, opts...)','c.coll.UpdateOne(ctx, filter, document)')
M('L04',C,'c.coll.ReplaceOne(ctx, filter, document, opts...)','c.coll.ReplaceOne(context.TODO(), filter, document, opts...)')
M('L04',C,'	return c.coll.CountDocuments(ctx, filter, opts...)\n}\n\nfunc (c *LCollection) FindOne(','	n, err2 := c.coll.EstimatedDocumentCount(ctx)\n	return n, err2\n}\n\nfunc (c *LCollection) FindOne(')
M('L04',C,'Indexes().CreateOne(ctx, indexmodel, opts...)','Indexes().CreateOne(ctx, mongo.IndexModel{Keys: indexmodel.Keys}, opts...)')
M('L04',C,'	return c.coll.InsertMany(ctx, document)','	if len(document) == 1 {\n		_, e := c.coll.InsertOne(ctx, document[0])\n		return nil, e\n	}\n	return c.coll.InsertMany(ctx, document)')
M('L04',C,'	return c.coll.InsertMany(ctx, document)','	r, e := c.coll.InsertMany(ctx, document)\n	if e != nil {\n		return r, nil\n	}\n	return r, e')
M('L04',C,'	return c.coll.Find(ctx, filter, opts...)','	if err != nil {\n		return nil, err\n	}\n	return c.coll.Find(ctx, filter, opts...)')
M('L04','3rd/mgo/mgr.go','Database(db).Collection(collection)','Database(collection).Collection(db)')
M('L04','3rd/mgo/mgr.go','Database(db).Collection(collection)','Database("db").Collection(collection)')
Q(C,'	return c.coll.Find(ctx, filter, opts...)','	coll := c.coll\n	cur, ferr := coll.Find(ctx, filter, opts...)\n	return cur, ferr')
Q(C,'	return c.coll.Indexes().List(ctx, opts...)','	iv := c.coll.Indexes()\n	return iv.List(ctx, opts...)')
Q(C,'''	span, err := c.tracing(ctx, c.coll.Name(), "find", filter, nil)
	if err == nil {
		defer span.End(ctx)
	}
''','''	if span, err := c.tracing(ctx, c.coll.Name(), "find", filter, nil); err == nil {
		defer func() { span.End(ctx) }()
	}
''')
