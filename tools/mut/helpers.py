EC = "lib/errcode/errcode.go"; FL = "utils/file/file.go"; AL = "utils/algorithms/algorithms.go"; DF = "def/custom_def.go"
M("E01", EC, "	return Code{-1, e, \"\"}", "	return Code{0, e, \"\"}")
M("E01", EC, "	return a.Code() == b.Code()", "	return a.Message() == b.Message()")
M("E01", EC, "	return Cause(err).Code() == code.Code()", "	return err != nil && Cause(err).Code() == code.Code()")
M("E01", EC, "	ec, ok := errors.Cause(e).(Codes)\n", "	ec, ok := e.(interface{ Unwrap() error }).(Codes)\n	_ = errors.Cause\n")
M("E01", EC, "	if e <= 0 {\n", "	if e < -1 {\n")
M("E01", EC, "	return e.code\n" if False else "func (e Code) Code() int { return e.code }", "func (e Code) Code() int { return e.code & 0xffff }")
M("L12", AL, "		if eachItem == item {\n			return true\n		}\n", "		if eachItem >= item {\n			return eachItem == item\n		}\n")
M("L12", FL, "	index := strings.LastIndex(fileName, \".\")", "	index := strings.Index(fileName, \".\")")
M("L12", FL, "	return err == nil || os.IsExist(err)", "	return !os.IsNotExist(err)")
M("L12", DF, "func ActorTy(ty string) msg.Attr       { return msg.Attr{Key: KeyActorTy, Value: ty} }", "func ActorTy(ty string) msg.Attr       { return msg.Attr{Key: KeyActorID, Value: ty} }")
M("L07", FL, "	defer fp.Close()\n	_, err = fp.Write(jsonByte)", "	err = fp.Close()\n	if err == nil {\n		_, err = fp.Write(jsonByte)\n	}")
Q(EC, "	if e <= 0 {\n", "	if e < 1 {\n")
Q(EC, "	if a == nil {\n		a = OK\n	}\n	if b == nil {\n		b = OK\n	}\n	return a.Code() == b.Code()", "	ac, bc := OK.Code(), OK.Code()\n	if a != nil {\n		ac = a.Code()\n	}\n	if b != nil {\n		bc = b.Code()\n	}\n	return ac == bc")
Q(EC, "	return a.Code() == b.Code()", "	if a.Code() != b.Code() {\n		return false\n	}\n	return true")
Q(EC, "	ec, ok := errors.Cause(e).(Codes)\n	if ok {\n		return ec\n	}\n	return String(e.Error())", "	switch ec := errors.Cause(e).(type) {\n	case Codes:\n		return ec\n	default:\n		return String(e.Error())\n	}")
Q(EC, "	return Code{-1, e, \"\"}", "	return Code{code: -1, msg: e}")
Q(EC, "	return Cause(err).Code() == code.Code()", "	c := Cause(err)\n	return Equal(code, c)")
Q(EC, "	return Code{e, msg, fmt.Sprintf(", "	var c Code\n	c.code = e\n	c.msg = msg\n	c.detail = fmt.Sprintf(", "messageWithLine(\"ecode: %d, %s\", e, msg), args)}", "messageWithLine(\"ecode: %d, %s\", e, msg), args)\n	return c")
Q(EC, "	return e.Error()\n", "	return e.msg\n")
Q(AL, "	for _, eachItem := range items {\n		if eachItem == item {", "	for i := 0; i < len(items); i++ {\n		if items[i] == item {")
Q(AL, "	for _, eachItem := range items {\n		if eachItem == item {\n			return true\n		}\n	}\n	return false", "	found := false\n	for _, eachItem := range items {\n		if eachItem == item {\n			found = true\n			break\n		}\n	}\n	return found")
Q(FL, "	if index < 0 {\n		return \"\"\n	}\n\n	return string(fileName[index:])", "	if index != -1 {\n		return fileName[index:]\n	}\n	return \"\"")
Q(FL, "	if fileName == \"\" {\n		return \"\"\n	}\n\n	index", "	index")
Q(FL, "	_, err := os.Stat(filename)\n	return err == nil || os.IsExist(err)", "	if _, err := os.Stat(filename); err != nil {\n		return os.IsExist(err)\n	}\n	return true")
Q(DF, "{ return msg.Attr{Key: KeyActorTy, Value: ty} }", "{\n	var a msg.Attr\n	a.Key = KeyActorTy\n	a.Value = ty\n	return a\n}")
