B='core/addressbook/addressbook_impl.go'
L='lib/dismutex/dismutex.go'
# ---- A01
M('A01',B,'''	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(weight))
''','')
M('A01',B,'''"total_weight", int64(-weight))''','''"total_weight", int64(weight))''')
M('A01',B,'''makeNodeKey(info.Node), "total_weight"''','''makeNodeKey(ab.NodeID), "total_weight"''')
M('A01',B,'''	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
''','')
M('A01',B,'''	pipe.HDel(ctx, def.RedisAddressbookIDField, id)
	pipe.SRem''','''	pipe.SRem''')
M('A01',B,'''RedisAddressbookTyField+"%s", info.ActorTy), addrJSON''','''RedisAddressbookTyField+"%s", info.ActorTy), id''')
M('A01',B,'''	pipe.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)''','''	pipe.HSet(ctx, def.RedisAddressbookIDField, id, nodeInfoJSON)''')
M('A01',B,'''	pipe.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)''','''	trdredis.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)''')
M('A01',B,'''		ActorTy: ty,
''','')
M('A01',B,'''fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight)''','''fmt.Sprintf("actor:%s", info.ActorId), int64(-weight)''')
M('A01',B,'''	pipe.HSet(ctx, def.RedisAddressbookNodesField, ab.NodeID, nodeInfoJSON)
''','''	_ = nodeInfoJSON
''')
Q(B,'''	// execute multiple redis operations using pipeline
	pipe := trdredis.Pipeline()
	pipe.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)
	pipe.SAdd(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", ty), addrJSON)

	// Add node info to a separate set
	pipe.HSet(ctx, def.RedisAddressbookNodesField, ab.NodeID, nodeInfoJSON)

	// 更新节点记录
	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", ty), int64(weight))
	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(weight))
''','''	key := makeNodeKey(ab.NodeID)
	delta := int64(weight)
	tyKey := def.RedisAddressbookTyField + ty
	pipe := trdredis.Pipeline()
	pipe.HIncrBy(ctx, key, "total_weight", delta)
	pipe.HIncrBy(ctx, key, "actor:"+ty, delta)
	pipe.HSet(ctx, def.RedisAddressbookNodesField, ab.NodeID, nodeInfoJSON)
	pipe.SAdd(ctx, tyKey, addrJSON)
	pipe.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)
''')
Q(B,'''	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", ty), int64(weight))
	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(weight))
''','''	addWeight(ctx, pipe, ab.NodeID, ty, weight)
''','''	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
''','''	addWeight(ctx, pipe, info.Node, info.ActorTy, -weight)
''','''func makeNodeKey(''','''func addWeight(ctx context.Context, pipe redis.Pipeliner, node, ty string, weight int) {
	key := makeNodeKey(node)
	for _, f := range []string{fmt.Sprintf("actor:%s", ty), "total_weight"} {
		pipe.HIncrBy(ctx, key, f, int64(weight))
	}
}

func makeNodeKey(''')
# ---- A02
M('A02',B,'''	if err != nil {
		return fmt.Errorf("redis pipeline exec err %v", err.Error())
	}

	ab.Lock()
	ab.IDMap[id] = true
	ab.Unlock()
''','''	ab.Lock()
	ab.IDMap[id] = true
	ab.Unlock()

	if err != nil {
		return fmt.Errorf("redis pipeline exec err %v", err.Error())
	}
''')
M('A02',B,'''	_, err = pipe.Exec(ctx)
	if err == nil {
		ab.Lock()
		delete(ab.IDMap, id) // try delete
		ab.Unlock()
	}
''','''	_, err = pipe.Exec(ctx)
	ab.Lock()
	delete(ab.IDMap, id) // try delete
	ab.Unlock()
''')
M('A02',B,'''	ab.Lock()
	ab.IDMap[id] = true
	ab.Unlock()
''','''	ab.RLock()
	ab.IDMap[id] = true
	ab.RUnlock()
''')
M('A02',B,'''		return fmt.Errorf("actor id %v already registered", id)
''','''		return nil
''')
M('A02',B,'''	if id == "" || ty == "" {''','''	if id == "" && ty == "" {''')
M('A02',B,'''	ab.Lock()
	ab.IDMap = make(map[string]bool)
	ab.Unlock()
''','')
M('A02',B,'''		delete(ab.IDMap, id) // try delete
''','')
M('A02',B,'''	ab.RLock()
	if _, ok := ab.IDMap[id]; ok {
		ab.RUnlock()
		return core.AddressInfo{Node''','''	if _, ok := ab.IDMap[id]; ok {
		return core.AddressInfo{Node''','''return local node info directly
	}
	ab.RUnlock()
''','''return local node info directly
	}
''')
Q(B,'''	ab.RLock()
	if _, ok := ab.IDMap[id]; ok {
		ab.RUnlock()
		return fmt.Errorf("actor id %v already registered", id)
	}
	ab.RUnlock()
''','''	if ab.isLocal(id) {
		return fmt.Errorf("actor id %v already registered", id)
	}
''','''	ab.RLock()
	if _, ok := ab.IDMap[id]; ok {
		ab.RUnlock()
		return core''','''	if ab.isLocal(id) {
		return core''','''return local node info directly
	}
	ab.RUnlock()
''','''return local node info directly
	}
''','''func makeNodeKey(''','''func (ab *AddressBook) isLocal(id string) bool {
	ab.RLock()
	defer ab.RUnlock()
	_, ok := ab.IDMap[id]
	return ok
}

func makeNodeKey(''')
Q(B,'''	_, err = pipe.Exec(ctx)
	if err == nil {
		ab.Lock()
		delete(ab.IDMap, id) // try delete
		ab.Unlock()
	}

	return err''','''	if _, err = pipe.Exec(ctx); err != nil {
		return err
	}

	ab.Lock()
	defer ab.Unlock()
	delete(ab.IDMap, id)
	return nil''')
Q(B,'''	ab.IDMap = make(map[string]bool)
	ab.Unlock()''','''	clear(ab.IDMap)
	ab.Unlock()''')
# ---- A03
M('A03',B,'''			return core.AddressInfo{}, ErrUnknownActor
''','''			return core.AddressInfo{}, nil
''')
M('A03',B,'''		return core.AddressInfo{}, fmt.Errorf("[braid.addressbook] get by id %s hget err: %s", id, err.Error())
''','''		return core.AddressInfo{}, ErrUnknownActor
''') if 0 else None
M('A03',B,'''	var addr core.AddressInfo
	err = json.Unmarshal([]byte(addrJSON), &addr)
	if err != nil {
		return core.AddressInfo{}, fmt.Errorf("failed to unmarshal address: %v", err)
	}

	return addr, nil''','''	var addr core.AddressInfo
	_ = json.Unmarshal([]byte(addrJSON), &addr)

	return addr, nil''')
M('A03',B,'''		return nil, fmt.Errorf("failed to get addresses for type: %s", actorType)''','''		return nil, nil''')
M('A03',B,'''		if err == redis.Nil {
			// Key doesn't exist, return 0
			return 0, nil
		}
		return 0, fmt''','''		if err != redis.Nil {
			// Key doesn't exist, return 0
			return 0, nil
		}
		return 0, fmt''')
M('A03',B,'''	if len(addrJSONs) == 0 {
		return core.AddressInfo{}, fmt.Errorf("no actors found for type %s", actorType)
	}
''','','''	if lowestWeight == int(^uint(0)>>1) {
		return core.AddressInfo{}, fmt.Errorf("no valid actors found for type %s", actorType)
	}
''','')
M('A03',B,'''Port: ab.Port, ActorId: id}, nil''','''Port: ab.Port}, nil''') 
M('A03',B,'''	count, err := trdredis.SCard(ctx, key).Result()''','''	count, err := trdredis.SCard(ctx, "actor:"+actorType).Result()
	_ = key''')
Q(B,'''	addresses := make([]core.AddressInfo, 0, len(addrJSONs))
	for _, addrJSON := range addrJSONs {
		var addr core.AddressInfo
		err = json.Unmarshal([]byte(addrJSON), &addr)
		if err != nil {
			return nil, fmt.Errorf("failed to unmarshal address: %v", err)
		}
		addresses = append(addresses, addr)
	}

	return addresses, nil''','''	addresses := make([]core.AddressInfo, len(addrJSONs))
	for i := range addrJSONs {
		if err := json.Unmarshal([]byte(addrJSONs[i]), &addresses[i]); err != nil {
			return nil, fmt.Errorf("failed to unmarshal address: %v", err)
		}
	}

	return addresses, nil''')
Q(B,'''	if err != nil {
		if err == redis.Nil {
			return core.AddressInfo{}, ErrUnknownActor
		}
		return core.AddressInfo{}, fmt.Errorf("[braid.addressbook] get by id %s hget err: %s", id, err.Error())
	}
''','''	switch {
	case errors.Is(err, redis.Nil):
		return core.AddressInfo{}, ErrUnknownActor
	case err != nil:
		return core.AddressInfo{}, fmt.Errorf("[braid.addressbook] get by id %s hget err: %w", id, err)
	}
''')
# ---- A04
M('A04',B,'''		if nodeWeight < lowestWeight {
			lowestWeight = nodeWeight
			lowestWeightAddr''','''		if nodeWeight < lowestWeight {
			lowestWeightAddr''')
M('A04',B,'''		if nodeWeight < lowestWeight {
			lowestWeight = nodeWeight''','''		if nodeWeight > lowestWeight || lowestWeight == int(^uint(0)>>1) {
			lowestWeight = nodeWeight''')
M('A04',B,'''makeNodeKey(addr.Node), "total_weight").Int()''','''makeNodeKey(ab.NodeID), "total_weight").Int()''')
M('A04',B,'''			fmt.Println("skip this actor if unable to get node weight")
			continue // skip this actor if unable to get node weight''','''			return core.AddressInfo{}, err''')
M('A04',B,'''			fmt.Println("skip this actor if unable to get node weight")
			continue // skip this actor if unable to get node weight''','''			break''')
M('A04',B,'''	if err != nil && err != redis.Nil { // a node''','''	if err != nil { // a node''')
M('A04',B,'''			log.WarnF("unreadable weight for node %s: %v", nodeID, err)
			continue''','''			log.WarnF("unreadable weight for node %s: %v", nodeID, err)''')
M('A04',B,'''			var nodeInfo core.AddressInfo
			if err''','''			lowestWeight = weight
			var nodeInfo core.AddressInfo
			if err''')
M('A04',B,'''pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")''','''pipe.HGet(ctx, makeNodeKey(nodeID), "actor:"+actorType)''')
Q(B,'''		if nodeWeight < lowestWeight {
			lowestWeight = nodeWeight
			lowestWeightAddr = addr
		}
''','''		if nodeWeight >= lowestWeight {
			continue
		}
		lowestWeightAddr, lowestWeight = addr, nodeWeight
''')
Q(B,'''	for nodeID, nodeInfoJSON := range nodeInfoMap {
		weightStr, err := weights[nodeID].Result()
		if err != nil {
			log.WarnF("unable to get weight for node %s: %v", nodeID, err)
			continue
		}

		weight, err := strconv.Atoi(weightStr)
		if err != nil {
			log.WarnF("unreadable weight for node %s: %v", nodeID, err)
			continue
		}
''','''	for nodeID, cmd := range weights {
		nodeInfoJSON := nodeInfoMap[nodeID]
		weight, err := cmd.Int()
		if err != nil {
			log.WarnF("unreadable weight for node %s: %v", nodeID, err)
			continue
		}
''','''	"strconv"
''','')
Q(B,'''	if selectedNode.Node == "" {''','''	if lowestWeight == int(^uint(0)>>1) {''')
# ---- A05
M('A05',B,'''	defer dismutex.Unlock(ctx, ab.NodeID, mid)
''','','''	_, err = pipe.Exec(ctx)
	if err != nil {
		return fmt.Errorf("failed to clear''','''	_, err = pipe.Exec(ctx)
	dismutex.Unlock(ctx, ab.NodeID, mid)
	if err != nil {
		return fmt.Errorf("failed to clear''')
M('A05',B,'''			if actor.Node == ab.NodeID {
''','''			if actor.Node != "" {
''')
M('A05',B,'''				pipe.HDel(ctx, def.RedisAddressbookIDField, actor.ActorId)
''','')
M('A05',B,'''	pipe.Del(ctx, nodeKey)
''','')
M('A05',B,'''	pipe.HDel(ctx, def.RedisAddressbookNodesField, ab.NodeID)
''','')
M('A05',B,'''			return fmt.Errorf("failed to get actors of type %s: %w", actorType, err)
''','''			continue
''')
M('A05',B,'''		if actorType == "total_weight" {
			continue
		}
		actorTypeKey''','''		if actorType == "total_weight" {
			break
		}
		actorTypeKey''')
M('A05',B,'''	mid, err := dismutex.Lock(ctx, ab.NodeID)
	if err != nil {
		return fmt.Errorf("addressbook.register get distributed mutex err %v", err.Error())
	}
''','''	mid, err := dismutex.Lock(ctx, ab.NodeID)
	if err != nil {
		log.WarnF("addressbook.register get distributed mutex err %v", err.Error())
	}
''')
M('A05',B,'''dismutex.Unlock(ctx, ab.NodeID, mid)''','''dismutex.Unlock(ctx, mid, ab.NodeID)''')
Q(B,'''	pipe := trdredis.Pipeline()

	// 删除该节点的所有 actor 信息
	for actorType := range actorInfos {
		if actorType == "total_weight" {
			continue
		}
		actorTypeKey := fmt.Sprintf(def.RedisAddressbookTyField+"%s", actorType[6:]) // 去掉 "actor:" 前缀

		// 获取该类型的所有 actor
		actors, err := trdredis.SMembers(ctx, actorTypeKey).Result()
		if err != nil {
			return fmt.Errorf("failed to get actors of type %s: %w", actorType, err)
		}

		for _, actorJSON := range actors {
			var actor core.AddressInfo
			if err := json.Unmarshal([]byte(actorJSON), &actor); err != nil {
				continue
			}
			if actor.Node == ab.NodeID {
				log.InfoF("addressbook clear node %v actor %v", ab.NodeID, actor.ActorId)
				pipe.SRem(ctx, actorTypeKey, actorJSON)
				pipe.HDel(ctx, def.RedisAddressbookIDField, actor.ActorId)
			}
		}
	}
''','''	pipe := trdredis.Pipeline()

	for actorType := range actorInfos {
		if actorType == "total_weight" {
			continue
		}
		if err := ab.clearType(ctx, pipe, strings.TrimPrefix(actorType, "actor:")); err != nil {
			return err
		}
	}
''','''func (ab *AddressBook) Clear(''','''func (ab *AddressBook) clearType(ctx context.Context, pipe redis.Pipeliner, ty string) error {
	key := def.RedisAddressbookTyField + ty
	actors, err := trdredis.SMembers(ctx, key).Result()
	if err != nil {
		return fmt.Errorf("failed to get actors of type %s: %w", ty, err)
	}

	for _, actorJSON := range actors {
		var actor core.AddressInfo
		if err := json.Unmarshal([]byte(actorJSON), &actor); err != nil {
			continue
		}
		if actor.Node != ab.NodeID {
			continue
		}
		pipe.HDel(ctx, def.RedisAddressbookIDField, actor.ActorId)
		pipe.SRem(ctx, key, actorJSON)
	}
	return nil
}

func (ab *AddressBook) Clear(''','''	"strconv"
''','''	"strconv"
	"strings"
''')
# ---- D01
M('D01',L,'''		if err == nil && reply {''','''		if _ = reply; err == nil {''')
M('D01',L,'''		if err == nil && reply {''','''		if err == nil || reply {''')
M('D01',L,'''SetNx(ctx, token, value, Expiry)''','''SetNx(ctx, token, value, 0)''')
M('D01',L,'''	_, err := rand.Read(b)
	if err != nil {
		return "", err
	}
''','''	copy(b, token)
''','''	"crypto/rand"
''','')
M('D01',L,'''for i := 0; i < Tries; i++ {''','''for {''')
M('D01',L,'''	return "", ErrFailed
''','''	return value, nil
''')
M('D01',L,'''if redis.call("get", KEYS[1]) == ARGV[1] then''','''if redis.call("get", KEYS[1]) then''')
M('D01',L,'''	status, err := delScript.Run(ctx, trdredis.GetClient(), []string{token}, value).Int()

	return status != 0 && err == nil''','''	v, err := trdredis.Get(ctx, token).Result()
	if err != nil || v != value {
		return false
	}
	return trdredis.Del(ctx, token).Err() == nil''','''var delScript''','''var _''')
M('D01',L,'''	return status != 0 && err == nil''','''	return status != 0 || err == nil''')
M('D01',L,'''[]string{token}, value)''','''[]string{value}, token)''')
Q(L,'''	for i := 0; i < Tries; i++ {
		reply, err := trdredis.SetNx(ctx, token, value, Expiry).Result()
		if err == nil && reply {
			return value, nil
		}

		time.Sleep(time.Duration(time.Millisecond * Delay))
	}

	return "", ErrFailed''','''	for left := Tries; left > 0; left-- {
		if tryLock(ctx, token, value) {
			return value, nil
		}

		time.Sleep(Delay * time.Millisecond)
	}

	return "", ErrFailed''','''// Unlock''','''func tryLock(ctx context.Context, token, value string) bool {
	reply, err := trdredis.SetNx(ctx, token, value, Expiry).Result()
	if err != nil {
		return false
	}
	return reply
}

// Unlock''')
Q(L,'''	return status != 0 && err == nil''','''	if err != nil {
		return false
	}
	return status == 1''')
Q(L,'''	value := base64.StdEncoding.EncodeToString(b)
''','''	value := hex.EncodeToString(b)
''','"encoding/base64"','"encoding/hex"')
Q(L,'''var delScript = redis.NewScript(`
if redis.call("get", KEYS[1]) == ARGV[1] then
	return redis.call("del", KEYS[1])
else
	return 0
end`)''','''const release = `
if redis.call('get', KEYS[1]) == ARGV[1] then
	return redis.call('del', KEYS[1])
end
return 0`

var delScript = redis.NewScript(release)''')
