TK='lib/token/token.go'; EN='core/entity.go'; FI='utils/file/file.go'; HL='lib/log/helper.go'; LG='lib/log/options.go'
# tokens
M('L01',TK,'if c.EntityID == "" {','if c.EntityID == " " {')
M('L01',TK,'if len(entityID) <= 0 {','if len(entityID) > 64 {')
M('L01',TK,'		EntityID: entityID,','		EntityID: entityID[:len(entityID)-1],')
M('L01',TK,'return makeTokenKey(), nil','return jwt.UnsafeAllowNoneSignatureType, nil')
M('L01',TK,'return makeTokenKey(), nil','return []byte(token), nil')
M('L01',TK,'_, err := jwt.ParseWithClaims(token, c, func(*jwt.Token) (interface{}, error) {\n		return makeTokenKey(), nil\n	})','_, _, err := new(jwt.Parser).ParseUnverified(token, c)')
M('L01',TK,'jwt.ParseWithClaims(token, c, func','(&jwt.Parser{SkipClaimsValidation: true}).ParseWithClaims(token, c, func')
M('L01',TK,'		return "", fmt.Errorf("jwt.Parse %v error:%v", token, err)','		return c.EntityID, fmt.Errorf("jwt.Parse %v error:%v", token, err)')
M('L01',TK,'	_, err := jwt.Parse','	parsed, err := jwt.Parse','	if err != nil {\n		return "", fmt.Errorf("jwt','	if err != nil && parsed == nil {\n		return "", fmt.Errorf("jwt')
M('L01',TK,'return c.EntityID, nil','return token, nil')
M('L01',TK,'token := jwt.NewWithClaims(jwt.SigningMethodHS256','token := jwt.NewWithClaims(jwt.SigningMethodNone')
M('L01',TK,'	s, err := token.SignedString(makeTokenKey())\n	if err != nil {\n		return "", fmt.Errorf("createToken error:%v", err)\n	}\n	return s, nil','	s, err := token.SigningString()\n	if err != nil {\n		return "", fmt.Errorf("createToken error:%v", err)\n	}\n	return s, nil')
M('L01',TK,'return []byte(kTokenSignKey)','return []byte(kTokenSignKey)','s, err := token.SignedString(makeTokenKey())','s, err := token.SignedString([]byte(entityID))')
M('L01',TK,'	kTokenSignKey = "token"','	kTokenSignKey = ""')
M('L01',TK,'	return s, nil','	return s, nil','		return "", fmt.Errorf("createToken error:%v", err)','		fmt.Println(err)')
M('L01',TK,'@@END','func SetKey(k string) { kTokenSignKey = k }\n')
Q(TK,'if c.EntityID == "" {','if len(c.EntityID) == 0 {')
Q(TK,'if len(entityID) <= 0 {','if entityID == "" {')
Q(TK,'	claims := Claims{\n		EntityID: entityID,\n	}','	var claims Claims\n	claims.EntityID = entityID')
Q(TK,'	claims := Claims{\n		EntityID: entityID,\n	}','	claims := &Claims{EntityID: entityID}')
Q(TK,'func(*jwt.Token) (interface{}, error) {\n		return makeTokenKey(), nil\n	}','keyFor','@@END','func keyFor(t *jwt.Token) (interface{}, error) { return makeTokenKey(), nil }\n')
Q(TK,'func(*jwt.Token) (interface{}, error) {\n		return makeTokenKey(), nil\n	}','func(t *jwt.Token) (interface{}, error) {\n		if _, ok := t.Method.(*jwt.SigningMethodHMAC); !ok {\n			return nil, fmt.Errorf("method %v", t.Header["alg"])\n		}\n		return makeTokenKey(), nil\n	}')
Q(TK,'	c := &Claims{}','	var c = new(Claims)')
Q(TK,'	token := jwt.NewWithClaims(jwt.SigningMethodHS256, claims)\n	s, err := token.SignedString(makeTokenKey())\n	if err != nil {\n		return "", fmt.Errorf("createToken error:%v", err)\n	}\n	return s, nil','	s, err := sign(claims)\n	if err == nil {\n		return s, nil\n	}\n	return "", fmt.Errorf("createToken error:%v", err)','@@END','func sign(c Claims) (string, error) {\n	return jwt.NewWithClaims(jwt.SigningMethodHS256, c).SignedString(makeTokenKey())\n}\n')
# versions
M('L06',EN,'v.Version > ver &&','v.Version >= ver &&')
M('L06',EN,'|| v.Version < next)','|| v.Version > next)')
M('L06',EN,'(next == ver || v.Version < next)','next == ver')
M('L06',EN,'(next == ver || v.Version < next)','v.Version < next')
M('L06',EN,'	next := ver //','	next := ver + 1 //')
M('L06',EN,'if v.Version == ver {','if v.Version >= ver {')
M('L06',EN,'return VerStrategy{}, ErrNotfoundVersion','return VerStrategy{}, nil')
M('L06',EN,'	verRMu.Lock()\n	defer verRMu.Unlock()','	verRMu.RLock()\n	defer verRMu.RUnlock()')
M('L06',EN,'	verRMu.RLock()\n	defer verRMu.RUnlock()\n\n	for _, v','	for _, v')
M('L06',EN,'	verList = append(verList, s)','	verList = append([]VerStrategy{}, s)')
M('L06',EN,'	verList = append(verList, s)','	if len(verList) > 0 && verList[len(verList)-1].Version == s.Version-1 {\n		verList[len(verList)-1] = s\n		return\n	}\n	verList = append(verList, s)')
M('L06',EN,'			next = v.Version','			return v.Version')
M('L06',EN,'			return v, nil','			return verList[0], nil')
M('L06',EN,'	for _, v := range verList {\n		if v.Version > ver','	for _, v := range verList[1:] {\n		if v.Version > ver')
M('L06',EN,'	next := ver // 没有更高的版本则保持不变\n	for _, v := range verList {','	next := ver\n	if len(verList) == 0 {\n		return 0\n	}\n	for _, v := range verList {')
Q(EN,'	for _, v := range verList {\n		if v.Version == ver {\n			return v, nil\n		}\n	}','	for i := range verList {\n		if verList[i].Version != ver {\n			continue\n		}\n		return verList[i], nil\n	}')
Q(EN,'if v.Version > ver && (next == ver || v.Version < next) {\n			next = v.Version\n		}','if v.Version <= ver {\n			continue\n		}\n		if next > ver && next <= v.Version {\n			continue\n		}\n		next = v.Version')
Q(EN,'	next := ver // 没有更高的版本则保持不变','	next, found := ver, false','if v.Version > ver && (next == ver || v.Version < next) {\n			next = v.Version\n		}','if v.Version > ver && (!found || v.Version < next) {\n			next, found = v.Version, true\n		}')
Q(EN,'	defer verRMu.Unlock()\n\n	verList = append(verList, s)','	verList = append(verList, s)\n	verRMu.Unlock()')
Q(EN,'if v.Version > ver && (next == ver || v.Version < next)','if better(v.Version, ver, next)','@@END','func better(v, ver, next int) bool {\n	if v <= ver {\n		return false\n	}\n	return next == ver || v < next\n}\n')
# files
M('L07',FI,'os.O_RDWR|os.O_CREATE|os.O_TRUNC','os.O_RDWR|os.O_CREATE')
M('L07',FI,'os.O_RDWR|os.O_CREATE|os.O_TRUNC','os.O_RDWR|os.O_TRUNC')
M('L07',FI,'os.O_RDWR|os.O_CREATE|os.O_TRUNC','os.O_RDWR|os.O_CREATE|os.O_APPEND')
M('L07',FI,'fp.Write(jsonByte)','fp.Write(jsonByte[:len(jsonByte)/2])')
M('L07',FI,'	defer fp.Close()\n','')
M('L07',FI,'	defer f.Close()\n','')
M('L07',FI,'ioutil.WriteFile(fileName, dat, 0666)','ioutil.WriteFile(fileName+".bak", dat, 0666)')
M('L07',FI,'return ioutil.ReadAll(f)','b := make([]byte, 4096)\n	n, err := f.Read(b)\n	return b[:n], err')
M('L07',FI,'	return err\n}','	_ = err\n	return nil\n}')
M('L07',FI,'ioutil.ReadAll(f)','ioutil.ReadAll(io.LimitReader(f, 1<<20))','	"io/ioutil"','	"io"\n	"io/ioutil"')
Q(FI,'os.O_RDWR|os.O_CREATE|os.O_TRUNC','os.O_WRONLY|os.O_TRUNC|os.O_CREATE')
Q(FI,'	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)\n	if err != nil {\n		log.Fatal(err)\n		return\n	}\n	defer fp.Close()\n	_, err = fp.Write(jsonByte)\n	if err != nil {\n		log.Fatal(err)\n	}','	if err := os.WriteFile(path, jsonByte, 0755); err != nil {\n		log.Fatal(err)\n	}')
Q(FI,'ioutil.WriteFile(fileName, dat, 0666)','os.WriteFile(fileName, dat, 0666)')
Q(FI,'	f, err := os.Open(filePth)\n	if err != nil {\n		return nil, err\n	}\n\n	defer f.Close()\n	return ioutil.ReadAll(f)','	return os.ReadFile(filePth)')
Q(FI,'	defer f.Close()\n	return ioutil.ReadAll(f)','	dat, err := ioutil.ReadAll(f)\n	f.Close()\n	return dat, err')
# logging
M('L08',HL,'		h.logger.Error(msg, field, stack_trace)','		h.logger.Warn(msg, field, stack_trace)')
M('L08',HL,'	case zapcore.WarnLevel:\n		h.logger.Warn(msg, fields...)\n','')
M('L08',HL,'	case zapcore.DPanicLevel:\n		h.logger.DPanic(msg, field)\n','')
M('L08',HL,'		h.logger.Debug(msg, field)\n','		h.logger.Debug(msg, field)\n		h.logger.Info(msg, field)\n')
M('L08',HL,'	sLog.Log(zapcore.WarnLevel, format','	sLog.Log(zapcore.InfoLevel, format')
M('L08',HL,'	sLog.Log(zapcore.WarnLevel, format, v...)','	sLog.Log(zapcore.WarnLevel, format)')
M('L08',HL,'	sLog.SystemLog(zapcore.InfoLevel, code, id, path','	sLog.SystemLog(zapcore.InfoLevel, 0, id, path')
M('L08',HL,'	if !h.logger.Core().Enabled(zapcore.InfoLevel) {','	if !h.logger.Core().Enabled(zapcore.DebugLevel) {')
M('L08',HL,'	if !h.logger.Core().Enabled(level) {\n		return\n	}\n\n	var','	if h.logger.Core().Enabled(level) {\n		return\n	}\n\n	var')
M('L08',HL,'	if !h.logger.Core().Enabled(level) {\n		return\n	}\n\n	msg','	if !h.logger.Core().Enabled(level + 1) {\n		return\n	}\n\n	msg')
M('L08',HL,'	msg := fmt.Sprintf(format, v...)\n\n	if level','	msg := format\n\n	if level')
M('L08',HL,'case zapcore.WarnLevel:\n		h.logger.Warn(msg, field, stack_trace)','case zapcore.WarnLevel:\n		if len(v) > 0 {\n			h.logger.Warn(msg, field, stack_trace)\n		}')
M('L08',LG,'zap.NewAtomicLevelAt(options.Level)','zap.NewAtomicLevelAt(DefaultLevel)')
M('L08',LG,'zap.NewAtomicLevelAt(options.Level)','zap.NewAtomicLevelAt(zapcore.DebugLevel)')
Q(HL,'	if !h.logger.Core().Enabled(level) {\n		return\n	}\n\n	msg','	if enabled := h.logger.Core().Enabled(level); !enabled {\n		return\n	}\n\n	msg')
Q(LG,'zap.NewAtomicLevelAt(options.Level)','options.Level')
Q(LG,'	core := zapcore.NewCore(','	lvl := zap.NewAtomicLevelAt(options.Level)\n	core := zapcore.NewCore(','		zap.NewAtomicLevelAt(options.Level), //','		lvl, //')
Q(HL,'	sLog.Log(zapcore.WarnLevel, format, v...)','	logf(zapcore.WarnLevel, format, v...)','@@END','func logf(level zapcore.Level, format string, v ...interface{}) {\n	sLog.Log(level, format, v...)\n}\n')
Q(HL,'	sLog.SystemLog(zapcore.WarnLevel,','	lvl := zapcore.WarnLevel\n	sLog.SystemLog(lvl,')
Q(HL,'	msg := fmt.Sprintf(format, v...)\n	h.logger.Info(msg, zap','	h.logger.Info(fmt.Sprintf(format, v...), zap')
Q(HL,'	switch level {\n	case zapcore.DebugLevel:\n		h.logger.Debug(msg, fields...)\n	case zapcore.InfoLevel:\n		h.logger.Info(msg, fields...)\n	case zapcore.WarnLevel:\n		h.logger.Warn(msg, fields...)\n	case zapcore.ErrorLevel:\n		h.logger.Error(msg, fields...)\n	}','	if ce := h.logger.Check(level, msg); ce != nil {\n		ce.Write(fields...)\n	}')
