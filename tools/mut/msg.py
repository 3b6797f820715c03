G='router/msg/msg.go'
GM='router/msg/msg_custom_map.go'
GO='router/msg/map_custom_object.go'
GS='router/msg/map_custom_serialize.go'
AC='core/node/system_acceptor.go'
for f in 'ID Event OrgActorID OrgActorType Token PrevActorType TargetActorID TargetActorType Custom Timestamp'.split():
    M('G01',G,f'''		b.wrapper.Req.Header.{f} = h.{f}
''','')
M('G01',G,'''OrgActorType = h.OrgActorType''','''OrgActorType = h.PrevActorType''')
M('G01',G,'''	b.wrapper.Res.Header = h
''','''	b.wrapper.Req.Header = h
''')
M('G01',G,'''	b.wrapper.Res.Header = h
''','''	if b.wrapper.Res.Header == nil {
		b.wrapper.Res.Header = h
	}
''')
M('G01',G,'''	b.wrapper.Res.Body = byt
''','''	b.wrapper.Req.Body = byt
''')
M('G01',G,'''	b.wrapper.Res.Body = byt
''','''	if len(byt) > 0 {
		b.wrapper.Res.Body = byt
	}
''')
M('G01',G,'''	b.wrapper.Req.Body = byt
''','''	b.wrapper.Req.Body = append(b.wrapper.Req.Body, byt...)
''')
M('G01',G,'''			Res:  newMessage(uid),
''','''			Res:  &router.Message{},
''')
M('G01',G,'''			Res:  newMessage(uid),
''','''			Res:  newMessage(uuid.NewString()),
''')
M('G01',G,'''		opt(&parm)
''','''		p := parm
		opt(&p)
''')
M('G01',G,'''	for _, opt := range opts {
		opt(&parm)
	}
''','''	if len(opts) > 0 {
		opts[0](&parm)
	}
''')
M('G01',G,'''		CustomObjSerialize: &CustomObjectSerialize{},
	}
	for _, opt''','''	}
	for _, opt''')
M('G01',G,'''	return &MsgBuilder{
		wrapper: mw,
	}
''','''	return &MsgBuilder{
		wrapper: &Wrapper{Req: mw.Req, Res: mw.Res, Ctx: mw.Ctx},
	}
''')
M('G01',G,'''func newMessage(uid string) *router.Message {
	m := &router.Message{
		Header: &router.Header{
			ID: uid,
		},
	}
''','''var empty = &router.Header{}

func newMessage(uid string) *router.Message {
	m := &router.Message{
		Header: empty,
	}
	m.Header.ID = uid
''')
M('G01',G,'''		ctx = context.WithValue(ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	}
''','''		ctx = context.WithValue(context.Background(), WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	}
''')
HDR='''	if b.wrapper.Req.Header != nil && h != nil {
		// Copy fields from the input header to existing header
		b.wrapper.Req.Header.ID = h.ID
		b.wrapper.Req.Header.Event = h.Event
		b.wrapper.Req.Header.OrgActorID = h.OrgActorID
		b.wrapper.Req.Header.OrgActorType = h.OrgActorType
		b.wrapper.Req.Header.Token = h.Token
		b.wrapper.Req.Header.PrevActorType = h.PrevActorType
		b.wrapper.Req.Header.TargetActorID = h.TargetActorID
		b.wrapper.Req.Header.TargetActorType = h.TargetActorType
		b.wrapper.Req.Header.Custom = h.Custom
		b.wrapper.Req.Header.Timestamp = h.Timestamp
	} else {
		// If either header is nil, directly set the header
		b.wrapper.Req.Header = h
	}
'''
Q(G,HDR,'''	dst := b.wrapper.Req.Header
	if dst == nil || h == nil {
		b.wrapper.Req.Header = h
		return b
	}
	copyHeader(dst, h)
''','''func (b *MsgBuilder) WithReqHeader(''','''func copyHeader(dst, src *router.Header) {
	dst.ID, dst.Event, dst.Token = src.ID, src.Event, src.Token
	dst.OrgActorID, dst.OrgActorType = src.OrgActorID, src.OrgActorType
	dst.TargetActorID, dst.TargetActorType = src.TargetActorID, src.TargetActorType
	dst.PrevActorType = src.PrevActorType
	dst.Timestamp = src.Timestamp
	dst.Custom = src.Custom
}

func (b *MsgBuilder) WithReqHeader(''')
Q(G,HDR,'''	if h == nil {
		b.wrapper.Req.Header = nil
		return b
	}
	b.wrapper.Req.Header = &router.Header{
		ID: h.ID, Event: h.Event, OrgActorID: h.OrgActorID, OrgActorType: h.OrgActorType,
		Token: h.Token, PrevActorType: h.PrevActorType, TargetActorID: h.GetTargetActorID(),
		TargetActorType: h.TargetActorType, Custom: h.Custom, Timestamp: h.Timestamp,
	}
''')
Q(G,'''	return &MsgBuilder{
		wrapper: &Wrapper{
			parm: parm,
			Ctx:  ctx,
			Req:  newMessage(uid),
			Res:  newMessage(uid),
		},
	}
''','''	mw := &Wrapper{Ctx: ctx, parm: parm}
	req, res := newMessage(uid), newMessage(uid)
	mw.Req, mw.Res = req, res
	return mw.ToBuilder()
''')
# ---- G02
M('G02',GM,'''	if len(b.wrapper.Req.Header.Custom) > 0 {
		if err''','''	if len(b.wrapper.Req.Header.Custom) > 0 && len(attrs) > 1 {
		if err''')
M('G02',GM,'''			b.wrapper.Err = fmt.Errorf("unmarshal existing custom fields failed: %w", err)
			return b
''','''			b.wrapper.Err = fmt.Errorf("unmarshal existing custom fields failed: %w", err)
''')
M('G02',GM,'''			b.wrapper.Err = fmt.Errorf("unmarshal existing custom fields failed: %w", err)
			return b
''','''			return b
''')
M('G02',GM,'''Decode(b.wrapper.Res.Header.Custom, &data)''','''Decode(b.wrapper.Req.Header.Custom, &data)''')
M('G02',GM,'''	return b.WithResCustomFieldsMap(data)
''','''	return b.WithReqCustomFieldsMap(data)
''')
M('G02',GM,'''		b.wrapper.Err = fmt.Errorf("marshal request body failed: %w", err)
		return b
	}
	b.wrapper.Res.''','''		b.wrapper.Err = fmt.Errorf("marshal request body failed: %w", err)
	}
	b.wrapper.Res.''')
M('G02',GM,'''byt, err := b.wrapper.parm.CustomMapSerialize.Encode(data)''','''byt, err := (&CustomJsonSerialize{}).Encode(data)''')
M('G02',GM,'''byt, err := b.wrapper.parm.CustomMapSerialize.Encode(data)''','''byt, err := b.wrapper.parm.CustomObjSerialize.Encode(data)''')
M('G02',GM,'''	err := mw.customMapSerialize().Decode(mw.Res.Header.Custom, &data)''','''	err := mw.customMapSerialize().Decode(mw.Req.Header.Custom, &data)''')
M('G02',GM,'''	err := mw.customMapSerialize().Decode(mw.Res.Header.Custom, &data)''','''	err := (&CustomJsonSerialize{}).Decode(mw.Res.Header.Custom, &data)''')
M('G02',GM,'''	err := mw.customMapSerialize().Decode(mw.Res.Header.Custom, &data)
	return data, err''','''	err := mw.customMapSerialize().Decode(mw.Res.Header.Custom, &data)
	if err != nil {
		return data, nil
	}
	return data, nil''')
M('G02',GM,'''	if len(mw.Req.Header.Custom) == 0 {
		return nil, fmt.Errorf("empty request body")
	}
''','''	if len(mw.Req.Header.Custom) == 0 {
		return nil, nil
	}
''')
M('G02',GM,'''	case int8:
		if f, ok := val.(float64); ok {
			return any(int8(f)).(T)
		}
''','')
M('G02',GM,'''			return any(uint16(f)).(T)''','''			return any(uint16(uint8(f))).(T)''')
M('G02',GM,'''			return any(int64(f)).(T)''','''			return any(int64(float32(f))).(T)''')
M('G02',GM,'''			return any(uint64(f)).(T)''','''			return any(int64(f)).(T)''')
M('G02',GM,'''	case float32:
		if f, ok := val.(float64); ok {
			return any(float32(f)).(T)
		}
	}
''','''	}
''')
M('G02',GM,'''	if typed, ok := val.(T); ok {
		return typed
	}
''','''	if _, ok := val.(string); ok {
		return val.(T)
	}
''')
M('G02',GM,'''	data, err := msg.GetResCustomMap()''','''	data, err := msg.GetReqCustomMap()''')
M('G02',GM,'''	data[attr.Key] = attr.Value''','''	data[attr.Key] = fmt.Sprint(attr.Value)''')
M('G02',GM,'''	for _, attr := range attrs {
		data[attr.Key] = attr.Value
	}
''','''	for _, attr := range attrs {
		if _, ok := data[attr.Key]; !ok {
			data[attr.Key] = attr.Value
		}
	}
''')
M('G02',GM,'''	if data == nil { // the existing data may be null
		data = make(map[string]any, len(attrs))
	}
''','')
M('G02',GO,'''		b.wrapper.Err = fmt.Errorf("with req custom object encode err %v", err)
		return b
''','''		b.wrapper.Err = fmt.Errorf("with req custom object encode err %v", err)
''')
M('G02',GO,'''	b.wrapper.Res.Header.Custom = byt
''','''	b.wrapper.Res.Body = byt
''')
M('G02',GO,'''	return b.wrapper.parm.CustomObjSerialize.Decode(data, v)''','''	return b.wrapper.parm.CustomMapSerialize.Decode(data, v)''')
M('G02',GO,'''	return b.wrapper.parm.CustomObjSerialize.Decode(data, v)''','''	b.wrapper.parm.CustomObjSerialize.Decode(data, v)
	return nil''')
M('G02',GO,'''	data := b.wrapper.Res.Header.Custom
''','''	data := b.wrapper.Req.Header.Custom
''')
M('G02',GS,'''	return msgpack.Unmarshal(data, v)''','''	return json.Unmarshal(data, v)''')
M('G02',GS,'''	return msgpack.Unmarshal(data, v)''','''	msgpack.Unmarshal(data, v)
	return nil''')
CONV=open('/repo/'+GM).read()
Q(GM,'''	if typed, ok := val.(T); ok {
		return typed
	}

	// Type assert the value
	switch any(zero).(type) {
	case int:
''','''	if typed, ok := val.(T); ok {
		return typed
	}

	if n, ok := val.(float64); ok {
		if r, ok := number[T](n); ok {
			return r
		}
	}
	switch any(zero).(type) {
	case int:
''','''func GetReqCustomField[''','''func number[T any](f float64) (T, bool) {
	var r T
	switch p := any(&r).(type) {
	default:
		_ = p
		return r, false
	}
}

func GetReqCustomField[''')
Q(GM,'''	data := make(map[string]any, len(attrs))

	if len(b.wrapper.Res.Header.Custom) > 0 {
		if err := b.wrapper.parm.CustomMapSerialize.Decode(b.wrapper.Res.Header.Custom, &data); err != nil {
			b.wrapper.Err = fmt.Errorf("unmarshal existing custom fields failed: %w", err)
			return b
		}
	}
''','''	data := make(map[string]any)

	hdr := b.wrapper.Res.Header
	if len(hdr.Custom) != 0 {
		codec := b.wrapper.parm.CustomMapSerialize
		err := codec.Decode(hdr.Custom, &data)
		if err != nil {
			b.wrapper.Err = fmt.Errorf("unmarshal existing custom fields failed: %w", err)
			return b
		}
	}
''')
Q(GO,'''	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
	if err != nil {
		b.wrapper.Err = fmt.Errorf("with req custom object encode err %v", err)
		return b
	}

	b.wrapper.Req.Header.Custom = byt

	return b
''','''	if byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v); err != nil {
		b.wrapper.Err = fmt.Errorf("with req custom object encode err %w", err)
	} else {
		b.wrapper.Req.Header.Custom = byt
	}
	return b
''')
Q(GO,'''	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
	if err != nil {
		b.wrapper.Err = fmt.Errorf("with req custom object encode err %v", err)
		return b
	}

	b.wrapper.Req.Header.Custom = byt

	return b
''','''	return b.setObject(b.wrapper.Req, v)
''','''	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
	if err != nil {
		b.wrapper.Err = fmt.Errorf("with res custom object encode err %v", err)
		return b
	}

	b.wrapper.Res.Header.Custom = byt

	return b
}
''','''	return b.setObject(b.wrapper.Res, v)
}

func (b *MsgBuilder) setObject(m *router.Message, v any) *MsgBuilder {
	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
	if err != nil {
		b.wrapper.Err = fmt.Errorf("custom object encode err %v", err)
		return b
	}
	m.Header.Custom = byt
	return b
}
''','''import fmt "fmt"''','''import (
	fmt "fmt"

	"github.com/pojol/braid/router"
)''')
# ---- G03
M('G03',G,'''		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
	} else {''','''		_ = wc
		ctx = context.WithValue(ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	} else {''')
M('G03',G,'''		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
	} else {
		ctx = context.WithValue(ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	}
''','''		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
	}
''')
M('G03',G,'''	} else {
		ctx = context.WithValue(ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	}
''','''	} else {
		ctx = context.WithValue(ctx, WaitGroupKey{}, shared)
	}
''','''type WaitGroupKey struct{}
''','''type WaitGroupKey struct{}

var shared = &warpwaitgroup.WrapWaitGroup{}
''')
M('G03',G,'''	ctx := context.WithValue(mw.Ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
''','''	ctx := mw.Ctx
''')
M('G03',G,'''	ctx := context.WithValue(mw.Ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
''','''	ctx := context.WithValue(mw.Ctx, WaitGroupKey{}, mw.GetWg())
''')
M('G03',G,'''	ctx := context.WithValue(mw.Ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
''','''	ctx := context.WithValue(context.Background(), WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
''')
M('G03',G,'''	if wc, ok := mw.Ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
		return wc
	}
	return nil
''','''	if wc, ok := mw.Ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
		return wc
	}
	return &warpwaitgroup.WrapWaitGroup{}
''')
M('G03',G,'''	if wc, ok := mw.Ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
		return wc
	}
	return nil
''','''	return mw.Ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup)
''')
M('G03',AC,'''	ctx = context.WithValue(ctx, msg.WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})

	routermsg := msg.NewBuilder(ctx)''','''	routermsg := msg.NewBuilder(context.WithValue(ctx, msg.WaitGroupKey{}, s.wg))''','''type listen struct {''','''type listen struct {
	wg *warpwaitgroup.WrapWaitGroup''')
Q(G,'''	if wc, ok := ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
	} else {
		ctx = context.WithValue(ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	}
''','''	if _, ok := ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); !ok {
		ctx = context.WithValue(ctx, WaitGroupKey{}, new(warpwaitgroup.WrapWaitGroup))
	}
''')
Q(G,'''	if wc, ok := ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)
	} else {
		ctx = context.WithValue(ctx, WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	}
''','''	wg, ok := ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup)
	if !ok {
		wg = &warpwaitgroup.WrapWaitGroup{}
	}
	ctx = context.WithValue(ctx, WaitGroupKey{}, wg)
''')
Q(AC,'''	ctx = context.WithValue(ctx, msg.WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})

	routermsg := msg.NewBuilder(ctx)''','''	wg := new(warpwaitgroup.WrapWaitGroup)
	routermsg := msg.NewBuilder(context.WithValue(ctx, msg.WaitGroupKey{}, wg))''')
Q(G,'''	if wc, ok := mw.Ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup); ok {
		return wc
	}
	return nil
''','''	wc, _ := mw.Ctx.Value(WaitGroupKey{}).(*warpwaitgroup.WrapWaitGroup)
	return wc
''')

NILM='''	if data == nil { // the existing data may be null
		data = make(map[string]any, len(attrs))
	}
'''
Q(GM,NILM,NILM.replace('data == nil','len(data) == 0'))
M('G02',GM,NILM,NILM.replace('data == nil','len(data) != 0'))
M('G02',GM,NILM,NILM.replace('data == nil','data != nil'))
M('G02',GM,NILM,NILM.replace('data == nil','len(data) < 2'))
