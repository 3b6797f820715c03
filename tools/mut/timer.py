TM='lib/timer/timer.go'; TT='lib/timer/timer_tick.go'; SR='lib/tracer/slow_reporter.go'
M('L02',TM,'	ts.taskMutex.RLock()\n	defer ts.taskMutex.RUnlock()\n\n	t, ok','	t, ok')
M('L02',TM,'	service.taskMutex.Lock()\n	delete(service.taskMap, taskID)\n	service.taskMutex.Unlock()','	service.taskMutex.RLock()\n	delete(service.taskMap, taskID)\n	service.taskMutex.RUnlock()')
M('L02',TM,'	service.taskMap[t.TimerID()] = t','	service.taskMap[t.Context().TimerID+"x"] = t')
M('L02',TM,'	if t, ok := ts.task(taskID); ok {\n		t.stop()\n	}','	t, _ := ts.task(taskID)\n	t.stop()')
M('L02',TM,'	if t, ok := ts.task(taskID); ok {\n		t.start()\n	}','	if t, ok := ts.task(taskID); ok {\n		t.start()\n		t.start()\n	}')
M('L02',TM,'		v.stop()\n		return nil\n	}','		v.stop()\n	}')
M('L02',TM,'	if task.State == Timer_state_run {\n		close(task.quit)\n		task.State = Timer_state_stop\n	}','	close(task.quit)\n	task.State = Timer_state_stop')
M('L02',TM,'		close(task.quit)\n		task.State = Timer_state_stop\n','		close(task.quit)\n')
M('L02',TM,'		close(task.quit)\n		task.State = Timer_state_stop\n','		task.State = Timer_state_stop\n')
M('L02',TM,'	task.mutex.Lock()\n	defer task.mutex.Unlock()\n\n	if !task.isRun','	task.mutex.RLock()\n	defer task.mutex.RUnlock()\n\n	if !task.isRun')
M('L02',TM,'	if task.State == Timer_state_run {\n		close(task.quit)','	if task.State != Timer_state_init {\n		close(task.quit)')
M('L02',TT,'if tt.State == Timer_state_init || tt.State == Timer_state_stop {','if tt.State == Timer_state_init || tt.State == Timer_state_run {')
M('L02',TT,'if tt.State == Timer_state_init || tt.State == Timer_state_stop {','if tt.State == Timer_state_init {')
M('L02',TT,'		tt.quit = make(chan struct{})\n','		if tt.quit == nil {\n			tt.quit = make(chan struct{})\n		}\n')
M('L02',TT,'		tt.State = Timer_state_run\n','')
M('L02',TT,'	tt.mutex.Lock()\n	defer tt.mutex.Unlock()\n\n	if tt','	if tt')
M('L02',TT,'	tt.mutex.Lock()\n	defer tt.mutex.Unlock()\n\n	if tt.State == Timer_state_init || tt.State == Timer_state_stop {\n		tt.State','	tt.mutex.Lock()\n	idle := tt.State == Timer_state_init || tt.State == Timer_state_stop\n	tt.mutex.Unlock()\n	if idle {\n		tt.mutex.Lock()\n		defer tt.mutex.Unlock()\n		tt.State')
M('L02',TT,'			case <-due.C:\n			case <-quit:\n				return\n			}','			case <-due.C:\n			}')
M('L02',TT,'			case <-quit:\n				return\n			}\n		}\n	}()','			case <-quit:\n				continue\n			}\n		}\n	}()')
M('L02',TT,'		defer ticker.Stop()\n','')
M('L02',TT,'			case <-quit:\n				return\n			}\n		}\n	}()','			case <-task.quit:\n				return\n			}\n		}\n	}()')
M('L02',TT,'			if err := recover(); err != nil {','			if err := error(nil); err != nil {')
M('L02',TT,'			case <-ticker.C:\n				handler()','			case <-ticker.C:\n				handler()\n				return')
M('L02',TT,'			if task.taskService != nil && task.taskService.ExceptionHandler != nil {\n				task.taskService.ExceptionHandler(task.Context(), err)\n			}','			fmt.Println(err)')
M('L02',TT,'					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))','					fmt.Println(err)')
M('L02',TT,'	if interval <= 0 {','	if interval < 0 {')
M('L02',TT,'time.Duration(task.Interval) * time.Millisecond','time.Duration(task.Interval) * time.Microsecond')
M('L02',TT,'		handler()\n		for {','		handler()\n		handler()\n		for {')
M('L02',TT,'time.NewTicker(time.Duration(task.Interval) *','time.NewTicker(time.Duration(task.DueTime) *')
M('L02',TT,'		if task.DueTime > 0 {','		if task.DueTime > 1000 {')
M('L02',TT,'		if !task.Context().IsEnd {','		if task.taskService != nil {')
Q(TT,'if tt.State == Timer_state_init || tt.State == Timer_state_stop {','if tt.State != Timer_state_run {')
Q(TT,'	if tt.State == Timer_state_init || tt.State == Timer_state_stop {\n		tt.State = Timer_state_run\n		tt.quit = make(chan struct{})\n		startTickTask(tt, tt.quit)\n	}','	switch tt.State {\n	case Timer_state_init, Timer_state_stop:\n		quit := make(chan struct{})\n		startTickTask(tt, quit)\n		tt.quit, tt.State = quit, Timer_state_run\n	}')
Q(TM,'	if !task.isRun {\n		return\n	}\n	if task.State == Timer_state_run {\n		close(task.quit)\n		task.State = Timer_state_stop\n	}','	if !task.isRun || task.State != Timer_state_run {\n		return\n	}\n	task.State = Timer_state_stop\n	close(task.quit)')
Q(TM,'	if v, ok := ts.task(name); ok {\n		v.stop()\n		return nil\n	}\n\n	return fmt.Errorf("not find task id %v", name)','	v, ok := ts.task(name)\n	if !ok {\n		return fmt.Errorf("not find task id %v", name)\n	}\n	v.stop()\n	return nil')
Q(TM,'	for _, v := range ts.tasks() {\n		v.stop()\n	}','	ts.each(func(t Timer) { t.stop() })','@@END','func (ts *TimerService) each(f func(Timer)) {\n	for _, v := range ts.tasks() {\n		f(v)\n	}\n}\n')
Q(TT,'		handler()\n		for {\n			select {\n			case <-ticker.C:\n				handler()\n			case <-quit:\n				return\n			}\n		}','		for {\n			handler()\n			select {\n			case <-quit:\n				return\n			case <-ticker.C:\n			}\n		}')
# the reporter
M('L09',SR,'	default:\n		// the span was retained for the queue, which did not take it\n		span.Release()\n		r.metrics.ReporterDropped.Inc(1)\n		r.reporterStats.incDroppedCount()\n','')
M('L09',SR,'		r.reporterStats.incDroppedCount()\n','')
M('L09',SR,'span: span.Retain()}','span: span}')
M('L09',SR,'				span.Release()\n','')
M('L09',SR,'				if sample {\n','				if !sample {\n					break\n				}\n				if sample {\n')
M('L09',SR,'				span.Release()\n','				if sample {\n					span.Release()\n				}\n')
M('L09',SR,'	if swapped := atomic.CompareAndSwapInt64(&r.closed, 0, 1); !swapped {\n		return\n	}\n','	if atomic.LoadInt64(&r.closed) == 1 {\n		return\n	}\n	atomic.StoreInt64(&r.closed, 1)\n')
M('L09',SR,'	r.sendCloseEvent()\n	_ = r.sender.Close()','	_ = r.sender.Close()\n	r.sendCloseEvent()')
M('L09',SR,'	wg.Wait()\n','')
M('L09',SR,'				flush()\n				item.close.Done()','				item.close.Done()\n				flush()')
M('L09',SR,'				flush()\n				item.close.Done()\n				return','				flush()\n				item.close.Done()')
M('L09',SR,'				timer.Stop()\n				flush()\n','				timer.Stop()\n')
M('L09',SR,'	r.queue <- item // if the queue is full we will block until there is space','	select {\n	case r.queue <- item:\n	default:\n		return\n	}')
M('L09',SR,'	go reporter.processQueue()','	go reporter.processQueue()\n	go reporter.processQueue()')
M('L09',SR,'make(chan reporterQueueItem, defaultQueueSize)','make(chan reporterQueueItem)')
M('L09',SR,'				if sample {','				span.Release()\n				if sample {','				span.Release()\n			case','			case')
Q(SR,'	if swapped := atomic.CompareAndSwapInt64(&r.closed, 0, 1); !swapped {\n		return\n	}\n	r.sendCloseEvent()\n	_ = r.sender.Close()','	if atomic.CompareAndSwapInt64(&r.closed, 0, 1) {\n		r.sendCloseEvent()\n		r.sender.Close()\n	}')
Q(SR,'			switch item.itemType {\n			case reporterQueueItemSpan:\n				span := item.span','			if item.itemType == reporterQueueItemClose {\n				timer.Stop()\n				flush()\n				item.close.Done()\n				return\n			}\n			switch item.itemType {\n			case reporterQueueItemSpan:\n				span := item.span','			case reporterQueueItemClose:\n				timer.Stop()\n				flush()\n				item.close.Done()\n				return\n			}','			}')
Q(SR,'	r.queue <- item // if the queue is full we will block until there is space','	select {\n	case r.queue <- item:\n	}')
Q(SR,'	item := reporterQueueItem{itemType: reporterQueueItemClose, close: wg}\n\n	r.queue <- item','	r.queue <- reporterQueueItem{itemType: reporterQueueItemClose, close: wg}')
M('L09',SR,'		span.Release()\n		r.metrics.ReporterDropped','		r.metrics.ReporterDropped')
M('L09',SR,'		// the span was retained for the queue, which did not take it\n		span.Release()\n','		span.Release()\n		span.Release()\n')
Q(SR,'	select {\n	// Need to retain the span otherwise it will be released\n	case r.queue <- reporterQueueItem{itemType: reporterQueueItemSpan, span: span.Retain()}:','	item := reporterQueueItem{itemType: reporterQueueItemSpan, span: span.Retain()}\n	select {\n	case r.queue <- item:')
Q(SR,'		span.Release()\n		r.metrics.ReporterDropped.Inc(1)\n		r.reporterStats.incDroppedCount()\n','		r.drop(span)\n','@@END','func (r *slowReporter) drop(span *jaeger.Span) {\n	span.Release()\n	r.metrics.ReporterDropped.Inc(1)\n	r.reporterStats.incDroppedCount()\n}\n')
M("L02", "lib/timer/timer_tick.go", """task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))""", """task.taskService.ExceptionHandler(task.Context(), err.(error))""")
Q("lib/timer/timer_tick.go", """task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))""", """e, isErr := err.(error)
					if !isErr {
						e = fmt.Errorf("%v", err)
					}
					task.taskService.ExceptionHandler(task.Context(), e)""")
