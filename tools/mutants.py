#!/usr/bin/env python3
"""Development aid: applies small behaviour changes to a copy of /repo and runs
the check of the property each breaks. usage: mutants.py [-s SECS] [NAME-PREFIX ...]"""
import subprocess, os, shutil, sys, tempfile, re
FD='proc_frame_decoder.go'; LD='proc_lowerdeck.go'; UD='proc_upperdeck.go'; HB='proc_heartbeat.go'; SC='proc_stat_counter.go'
EP='endp_default.go'; TCP='tran_tcp.go'; UDS='tran_unix.go'; REF='tran_reference.go'; US='ustack_default.go'; UB='ubuf.go'; SR='proc_session_resolver.go'
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M=[]
def m(name, prop, *edits): M.append((name, prop, edits))
# ---- C01
m('c01-wait-extra','C01',(FD,'cachedLength-FrameLengthFieldSizeInByte < int(expectedLength)','cachedLength-FrameLengthFieldSizeInByte <= int(expectedLength)'))
m('c01-cache-limit','C01',(FD,"""	return int64(length) > int64(frm.cacheCapacity) &&
		int64(length) > int64(frm.ustack.GetMTU())""","""	return int64(length) > int64(frm.cacheCapacity)"""))
m('c01-len16','C01',(FD,'ub.WriteHeadU32BE(uint32(ub.ReadableLength()))','ub.WriteHeadU32BE(uint32(uint16(ub.ReadableLength())))'))
m('c01-gob-stream','C01',('proc_codec_json.go','json.Unmarshal(data, objectItf)','json.Unmarshal(data[:n:n], objectItf)'))  # equivalent
m('c01-rx-drop','C01',(UD,"""		case <-stop:
			// nobody may receive from a deleted endpoint
		}""","""		case <-stop:
			// nobody may receive from a deleted endpoint
		default:
		}"""))
m('c01-no-compact','C01',(FD,'newCache.ReadFrom(cache)\n		cache = newCache','newCache.Write(cache.data.bytes[:cache.ReadableLength()])\n		cache = newCache'))
m('c01-short-frame','C01',(FD,'if cachedLength < FrameLengthFieldSizeInByte {\n			// wait for more data\n			return','if cachedLength < FrameLengthFieldSizeInByte {\n			cache.Reset()\n			return'))
m('c01-bytes-alias','C01',('proc_codec_bytes.go',"""		bytes := make([]byte, ub.ReadableLength())

		n, err := ub.Read(bytes)""","""		bytes := bc.scratch(ub.ReadableLength())

		n, err := ub.Read(bytes)"""),('proc_codec_bytes.go','// OnLowerData ...','var scratchBuf = make([]byte, 1<<17)\n\nfunc (bc *BytesCodec) scratch(n int) []byte { return scratchBuf[:n] }\n\n// OnLowerData ...'))
# ---- C02
m('c02-cache-by-name','C02',(FD,'map[TransportConnection]*UBuf','map[string]*UBuf',2),(FD,'frm.caches[connection]','frm.caches[connection.GetName()]',3),(FD,'delete(frm.caches, connection)','delete(frm.caches, connection.GetName())'))
m('c02-no-cache-delete','C02',(FD,'	delete(frm.caches, connection)\n','	for c := range frm.caches {\n		delete(frm.caches, c)\n	}\n'))
m('c02-shared-conn','C02',(LD,'			// New routine to continue receive data from connection\n			go func() {','			// New routine to continue receive data from connection\n			current = connection\n			go func() {\n				connection := current'),(LD,'	// New routinue to wait connections\n','	var current TransportConnection\n	// New routinue to wait connections\n'))
m('c02-getcache-unlocked','C02',(FD,"""	frm.mutex.Lock()
	defer frm.mutex.Unlock()

	cache, ok := frm.caches[connection]""","""	cache, ok := frm.caches[connection]"""))
m('c02-close-others','C10',(FD,'	connection.Close()\n}','	connection.Close()\n	for c := range frm.caches {\n		if c.GetName() == connection.GetName() {\n			c.Close()\n		}\n	}\n}'))
# ---- C03
m('c03-u16','C03',(SR,'ub.WriteHeadU32BE(uint32(session))','ub.WriteHeadU32BE(uint32(session) & 0x7fffffff)'))
m('c03-signed','C03',(SR,'int(session)','int(int32(session))'))
m('c03-zero','C03',(UD,'if epd.HasDestinationSession() {','if epd.HasDestinationSession() && epd.GetDestinationSession() != 0 {'))
m('c03-sticky','C03',(UD,'				destinationSession := session\n',''),(UD,'	lower := ud.lower\n','	lower := ud.lower\n	destinationSession := session\n'))
m('c03-fallback','C03',(UD,'	return nil, nil\n','	if len(ud.endpoints) == 1 {\n		for ep, stop := range ud.endpoints {\n			return ep, stop\n		}\n	}\n	return nil, nil\n'))
m('c03-clear','C03',(EP,'	epd.hasDestinationSession = false\n	return epd','	epd.destinationSession = 0\n	return epd'))
# ---- C04
m('c04-no-stop-first','C04',(UD,"""			select {
			case <-stop:
				return
			default:
			}

""",""))
m('c04-no-previous','C04',(UD,"""		if previous != nil {
			<-previous
		}

""","		_ = previous\n"),)
m('c04-no-deregister-check','C04',(UD,"""	if ud.isRegistered(ep) {
		return
	}

	ch, ok""","""	ch, ok"""))
m('c04-lock-during-delivery','C04',(UD,"""	ep, stop := ud.findEndPoint(session)
	if ep != nil {
		select {""","""	ep, stop := ud.findEndPoint(session)
	if ep != nil {
		ud.Lock()
		defer ud.Unlock()
		select {"""))
m('c04-session-dup','C04',(UD,'if endpoint == ep || endpoint.GetSession() == ep.GetSession() {','if endpoint == ep || endpoint.GetName() == ep.GetName() {'))
m('c04-drain-on-delete','C04',(UD,'		close(ch)\n		delete(ud.endpoints, ep)','		close(ch)\n		delete(ud.endpoints, ep)\n		for len(ep.GetTxChannel()) > 0 {\n			<-ep.GetTxChannel()\n		}'))
# ---- C05
m('c05-no-drop','C05',(TCP,'	t.dropConnections()\n',''))
m('c05-no-save','C05',(TCP,'	t.connections = append(connections, tc)\n','	if t.forServer {\n		t.connections = append(connections, tc)\n	}\n'))
m('c05-uds-no-listener-close','C05',(UDS,'	if uds.listener != nil {\n		uds.listener.Close()\n		uds.listener = nil\n	}','	if uds.listener != nil && len(uds.connections) == 0 {\n		uds.listener.Close()\n		uds.listener = nil\n	}'))
m('c05-done-identity','C05',(TCP,'	if !t.isRunning || t.done != done {\n		return\n	}','	if !t.isRunning {\n		return\n	}'))
m('c05-next-identity','C05',(TCP,"""		if !t.isRunning || t.done != done {
			// it was closed by stop
			return nil
		}
		return tc""","""		return tc"""))
m('c05-save-identity','C05',(UDS,"""	if !uds.isRunning || uds.done != done {
		return false
	}""","""	if !uds.isRunning {
		return false
	}"""))
m('c05-offer-no-done','C05',(TCP,"""	select {
	case next <- tc:
		return true
	case <-done:
		// it was closed by stop
		return false
	}""","""	next <- tc
	return true"""))
m('c05-connect-no-done','C05',(TCP,"""		select {
		case <-time.After(time.Second * time.Duration(t.retryIntervalInSecond)):
		case <-done:
			return
		}""","""		time.Sleep(time.Second * time.Duration(t.retryIntervalInSecond))"""))
m('c05-ld-registered','C05',(LD,'if !ld.transports[tp] || ld.isRegistered(tp) {','if !ld.transports[tp] {'))
m('c05-ld-nodelete','C05',(LD,'	delete(ld.transports, tp)\n\n	tp.Stop()','	tp.Stop()'))
# ---- C06
m('c06-linear','C06',(TCP,'time.Second * time.Duration(t.retryIntervalInSecond)','time.Second * time.Duration(t.retryIntervalInSecond*(i+1))'))
m('c06-continue','C06',(TCP,"""				connection), next, done)
			return
		}

		fmt.Println(err, "retry", i)""","""				connection), next, done)
			i = t.maxRetryCount
			continue
		}

		fmt.Println(err, "retry", i)"""))
m('c06-uds-le','C06',(UDS,'i < uds.maxRetryCount','i <= uds.maxRetryCount'))
m('c06-half-interval','C06',(TCP,'time.Second * time.Duration(t.retryIntervalInSecond)','time.Millisecond * time.Duration(t.retryIntervalInSecond*900)'))
m('c06-stop-after-refused','C06',(TCP,'		fmt.Println(err, "retry", i)\n','		fmt.Println(err, "retry", i)\n\n		if ne, ok := err.(net.Error); ok && ne.Timeout() && i > 2 {\n			break\n		}\n'))
# ---- C07
m('c07-lower-close-event','C07',(LD,"""		// the routine that receives from the connection ends now and
		// publishes the event, once
		connection.Close()""","""		ld.closeConnection(connection)"""))
m('c07-only-if-open','C07',(LD,"""	// close first
	c.Close()
""","""	if c.Closed() {
		return
	}
	c.Close()
"""))
m('c07-zero-no-event','C07',(LD,"""						if n == 0 || err != nil {
							ld.closeConnection(connection)""","""						if n == 0 && err == nil {
							return
						}
						if err != nil {
							ld.closeConnection(connection)"""))
m('c07-async-close-event','C07',(LD,"""	ld.ustack.PublishEvent(Event{
		Type:   UStackEventConnectionClosed,""","""	go ld.ustack.PublishEvent(Event{
		Type:   UStackEventConnectionClosed,"""))
# ---- C08
m('c08-int-seconds','C08',(HB,'int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond','int(time.Since(lastTime).Seconds()) <= hb.timeoutInSecond+1'))
m('c08-return-first','C08',(HB,'		if connection.Closed() {\n			continue\n		}','		if connection.Closed() {\n			return\n		}'))
m('c08-not-removed','C08',(HB,'		delete(hb.monitors, connection)\n\n		lost','		lost'))
m('c08-early','C08',(HB,'< hb.timeoutInSecond {\n			continue','< hb.timeoutInSecond-1 {\n			continue'))
m('c08-one-at-a-time','C08',(HB,'		lost = append(lost, connection)\n','		lost = append(lost, connection)\n		break\n'))
m('c08-sticky-close','C08',(HB,'		if hb.closeOnLost {\n			connection.Close()\n		}','		if hb.closeOnLost && len(hb.monitors) > 0 {\n			connection.Close()\n		}'))
m('c08-new-monitor','C08',(HB,'		hb.updateMonitor(connection)\n\n		go func','		go func'))
m('c08-app-data','C08',(HB,'	hb.upper.OnLowerData(context)\n}\n\n// OnEvent','	hb.updateMonitor(context.GetConnection())\n	hb.upper.OnLowerData(context)\n}\n\n// OnEvent'))
# ---- C09
m('c09-lock-publish','C09',(HB,'	for _, connection := range hb.takeLostConnections() {','	hb.mutex.Lock()\n	hb.mutex.Unlock()\n	lost := hb.takeLostConnections()\n	if len(lost) > 0 {\n		hb.mutex.Lock()\n		defer hb.mutex.Unlock()\n	}\n	for _, connection := range lost {'))
m('c09-ref-monitored','C09',(HB,"""		if connection.UseReference() {
			return
		}

		hb.updateMonitor(connection)
""","""		hb.updateMonitor(connection)

		if connection.UseReference() {
			return
		}
"""))
m('c09-closed-not-checked','C09',(HB,"""		if connection.Closed() {
			continue
		}

""",""))
m('c09-interval-drift','C09',(HB,'time.Sleep(time.Second * time.Duration(interval))','time.Sleep(time.Second * time.Duration(interval) * 2)'))
m('c09-hb-delivered','C09',(HB,'		fmt.Printf("Heartbeat: %s, receive heartbeat\\n", hb.GetName())\n		return','		fmt.Printf("Heartbeat: %s, receive heartbeat\\n", hb.GetName())\n		if ub.ReadableLength() == 0 {\n			return\n		}'))
m('c09-monitor-shared','C08',(HB,'map[TransportConnection]time.Time','map[string]time.Time',2),(HB,'hb.monitors[connection]','hb.monitors[connection.GetName()]',2),(HB,'delete(hb.monitors, connection)\n	}','delete(hb.monitors, connection.GetName())\n	}'),(HB,"""	for connection, lastTime := range hb.monitors {
		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
			continue
		}

		delete(hb.monitors, connection)

		lost = append(lost, connection)
	}""","""	for name, lastTime := range hb.monitors {
		if int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond {
			continue
		}

		delete(hb.monitors, name)

		lost = append(lost, hb.conns[name])
	}"""),(HB,'	hb.monitors[connection.GetName()] = time.Now()','	hb.monitors[connection.GetName()] = time.Now()\n	hb.conns[connection.GetName()] = connection'),(HB,'	mutex            sync.Mutex\n','	mutex            sync.Mutex\n	conns            map[string]TransportConnection\n'),(HB,'		closeOnLost:      true,\n','		closeOnLost:      true,\n		conns:            map[string]TransportConnection{},\n'))
# ---- C10
m('c10-badframe-int','C10',(FD,'	return int64(length) > int64(frm.cacheCapacity) &&\n		int64(length) > int64(frm.ustack.GetMTU())','	return int32(length) > int32(frm.cacheCapacity) &&\n		int32(length) > int32(frm.ustack.GetMTU())'))
m('c10-badframe-noclose','C10',(FD,'	frm.deleteCache(connection)\n	connection.Close()','	frm.deleteCache(connection)'))
m('c10-payload-reader','C10',('proc_codec_generic.go','gc.decoder(newPayloadReader(ub))','gc.decoder(ub)'))
m('c10-stat-name','C10',(SC,'	name := make([]byte, 128)\n	ub.Read(name)','	name := make([]byte, ub.ReadableLength()-1)\n	ub.Read(name)'))
m('c10-hb-len','C10',(HB,'	if tag == HeartbeatSelfMessageTag {','	if tag == HeartbeatSelfMessageTag && ub.data.bytes[ub.readerIndex-1+1] == 0 {'))
m('c10-empty-frame','C10',(FD,'		newUbuf := UBufAllocWithHeadReserved(\n			int(expectedLength)+FrameLengthFieldSizeInByte,\n			FrameLengthFieldSizeInByte)','		newUbuf := UBufAlloc(int(expectedLength))',2))
# ---- C11
m('c11-nonblock','C11',(REF,"""	case tx <- p:
		return nil
	case <-c.done:
		return errors.New("SetReference: connection is closed")
	}""","""	case tx <- p:
		return nil
	case <-c.done:
		return errors.New("SetReference: connection is closed")
	default:
		if len(tx) == cap(tx) && cap(tx) > 1 {
			<-tx
		}
		tx <- p
		return nil
	}"""))
m('c11-refcount','C11',(REF,'	ch.refCount++\n','	if !ok {\n		ch.refCount++\n	}\n'))
m('c11-delete-always','C11',(REF,'		if ch.refCount == 0 {\n			delete(chans, sm.address)\n		}','		delete(chans, sm.address)'))
m('c11-never-delete','C11',(REF,'		if ch.refCount == 0 {','		if ch.refCount < 0 {'))
m('c11-no-close','C11',(REF,'	sm.connection.Close()\n\n	mutex.Lock()','	mutex.Lock()'))
m('c11-set-blocks','C11',(REF,"""	select {
	case tx <- p:
		return nil
	case <-c.done:
		return errors.New("SetReference: connection is closed")
	}""","""	tx <- p
	return nil"""))
m('c11-no-mutex','C11',(REF,"""	mutex.Lock()

	// check if some""","""	// check if some"""),(REF,"""	ch.refCount++

	mutex.Unlock()
""","""	ch.refCount++
"""))
# ---- C12
m('c12-req-counted','C12',(SC,'	// self messages never go up, a disabled counter does not answer\n','	if sc.enable && tag == StatCounterSelfMessageReqTag {\n		atomic.AddUint64(&sc.rxCounter, 1)\n	}\n'))
m('c12-nonatomic','C12',(SC,'atomic.AddUint64(&sc.rxCounter, 1)','sc.rxCounter++'))
m('c12-swap','C12',(SC,'	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))\n	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))','	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))\n	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))'))
m('c12-count-disabled','C12',(SC,'	if sc.enable {\n		atomic.AddUint64(&sc.rxCounter, 1)\n		// fmt.Println("StatCounter: rxCounter:", sc.rxCounter)\n	}','	atomic.AddUint64(&sc.rxCounter, 1)'))
m('c12-u16','C12',(SC,'	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))','	ub.WriteU64BE(uint64(uint16(atomic.LoadUint64(&sc.txCounter))))'))
m('c12-u8','C12',(SC,'	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))','	ub.WriteU64BE(uint64(uint8(atomic.LoadUint64(&sc.txCounter))))'))
m('c12-reset-on-read','C12',(SC,'atomic.LoadUint64(&sc.rxCounter)','atomic.SwapUint64(&sc.rxCounter, 0)'))
# ---- C13
m('c13-no-parent-cow','C13',(UB,'		ub.copyOnWrite = true\n		newub','		newub'))
m('c13-nonatomic-ref','C13',(UB,'	atomic.AddInt32(&ub.data.refCount, -1)','	ub.data.refCount--'))
m('c13-nonatomic-ref2','C13',(UB,'		atomic.AddInt32(&ub.data.refCount, 1)','		ub.data.refCount++'))
m('c13-dec-early','C13',(UB,'	fmt.Println("make COW")\n','	atomic.AddInt32(&ub.data.refCount, -1)\n	fmt.Println("make COW")\n'),(UB,'	// decrease the count, the others may reuse the old data from now on\n	atomic.AddInt32(&ub.data.refCount, -1)\n',''))
m('c13-copy-short','C13',(UB,'		copy(newub.data.bytes[newub.readerIndex:newub.writerIndex],\n			ub.data.bytes[ub.readerIndex:ub.writerIndex])','		copy(newub.data.bytes[newub.readerIndex:newub.writerIndex],\n			ub.data.bytes[ub.readerIndex:ub.writerIndex-1+ub.writerIndex%2])'))
m('c13-readfrom-nocow','C13',(UB,'func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {\n','func (ub *UBuf) ReadFrom(r io.Reader) (n int64, err error) {\n	if ub.ReadableLength() == 0 {\n		ub.copyOnWrite = false\n	}\n'))
# ---- C14
m('c14-writeto-advance','C14',(UB,'	ub.readerIndex += written\n\n	return int64(written), err','	if err == nil {\n		ub.readerIndex += written\n	}\n\n	return int64(written), err'))
m('c14-ld-drop-eof','C14',(LD,'						if n > 0 {\n							// invoke','						if n > 0 && err == nil {\n							// invoke'))
m('c14-ld-close-first','C14',(LD,"""						n, err := ub.ReadFrom(connection)
						if n > 0 {""","""						n, err := ub.ReadFrom(connection)
						if err != nil {
							defer ld.upper.OnLowerData(NewUStackContext().SetConnection(connection).SetBuffer(ub))
						} else if n > 0 {"""))
# ---- C15
m('c15-last-listener','C15',(EP,'return epd, ep.lastListener, taken, closed','return epd, first, taken, closed'),(EP,'	removed := ep.removed\n\n','	removed := ep.removed\n	first := ep.lastListener\n\n'))
m('c15-two-routines','C15',(EP,'	if !ep.inAutoReceive {\n		ep.inAutoReceive = true','	if !ep.inReceive {\n		ep.inAutoReceive = true'))
m('c15-no-wait','C15',(EP,"""		for ep.inReceive && ep.dataListener == nil {
			ep.notInReceive.Wait()
		}
""",""))
m('c15-async','C15',(EP,'			listener(ep, epd)\n','			if len(ep.rxChannel) > 2 {\n				go listener(ep, epd)\n			} else {\n				listener(ep, epd)\n			}\n'))
# ---- C16
m('c16-endpoints-inplace','C16',(US,'	u.endpoints = append(append([]EndPoint(nil), endpoints...), ep)','	u.endpoints = append(endpoints, ep)'))
m('c16-delete-inplace','C16',(US,'append(append([]EndPoint(nil), endpoints[:i]...), endpoints[i+1:]...)','append(endpoints[:i], endpoints[i+1:]...)'))
m('c16-tp-inplace','C16',(US,'append(append([]Transport(nil), transports[:i]...), transports[i+1:]...)','append(transports[:i], transports[i+1:]...)'))
m('c16-publish-locked','C16',(US,'	listeners := u.listeners\n	u.mutex.Unlock()\n\n	for','	listeners := u.listeners\n	defer u.mutex.Unlock()\n\n	for'))
m('c16-live-index','C16',(US,'	for _, endpoint := range endpoints {\n		endpoint.OnEvent(event)\n	}','	for i := 0; i < len(endpoints) && i <= len(u.endpoints); i++ {\n		endpoints[i].OnEvent(event)\n	}'))
m('c16-delete-not-told','C16',(US,'			Type:   UStackEventEndpointDeleted,\n			Source: u,\n			Data:   ep,\n		}, endpoints)','			Type:   UStackEventEndpointDeleted,\n			Source: u,\n			Data:   ep,\n		}, u.GetEndPoint())'))
m('c16-listener-race','C16',(US,"""	u.mutex.Lock()
	defer u.mutex.Unlock()

	u.listeners = append(append([]func(Event){}, u.listeners...), listener)""","""	u.listeners = append(append([]func(Event){}, u.listeners...), listener)"""))
# ---- C17
m('c17-json-partial','C17',('proc_codec_json.go','		n, err := ub.Write(jsonBytes)\n		if n == 0 || err != nil {','		n, _ := ub.Write(jsonBytes)\n		if n == 0 {'))
m('c17-string-partial','C17',('proc_codec_string.go','		if n == 0 || err != nil {\n			return\n		}\n\n		context.SetBuffer','		_ = err\n		if n == 0 {\n			return\n		}\n\n		context.SetBuffer'))
m('c17-fd-ignore','C17',(FD,'		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))\n		if err != nil {\n			return\n		}','		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))'))
m('c17-overhead','C17',(US,'	for i := 0; i < count; i++ {\n		u.processors[i].SetUStack(u)','	for i := 0; i < count; i++ {\n		if i > 3 {\n			u.processors[i].SetUStack(u)\n			continue\n		}\n		u.processors[i].SetUStack(u)'))
m('c17-not-closed','C17',(LD,'		connection.Close()\n	}\n}','	}\n}'),(TCP,'		// part of the data may have been sent, nothing can follow it\n		c.Close()\n',''))
m('c17-retry','C17',(LD,'		_, err = ub.WriteTo(connection)\n','		_, err = ub.WriteTo(connection)\n		if err != nil && ub.ReadableLength() > 0 {\n			_, err = ub.WriteTo(connection)\n		}\n'))
m('c17-generic-err','C17',('proc_codec_generic.go','			fmt.Println("GenericCodec: encode error:")\n			return','			fmt.Println("GenericCodec: encode error:")\n			if ub.ReadableLength() == 0 {\n				return\n			}'))
m('c17-nilptr','C17',('proc_codec_gob.go','value.Kind() == reflect.Ptr && value.IsNil()','value.Kind() == reflect.Map && value.IsNil()'))
# ---- C18
m('c18-echo-up-too','C18',('proc_echo.go','		echo.lower.OnUpperData(context)\n	} else {\n','		echo.lower.OnUpperData(context)\n	}\n	if !echo.enable {\n'))
m('c18-filter-all','C18',('proc_filter.go','	for _, fn := range filter.filterFn {\n		if fn(context, toUpper) {\n			return true\n		}\n	}\n	return false','	for _, fn := range filter.filterFn {\n		if !fn(context, toUpper) {\n			return false\n		}\n	}\n	return len(filter.filterFn) > 0'))
m('c18-fwd-all','C18',('proc_forwarder.go','	for _, fn := range fwd.forwardFn {\n		if fn(context, toUpper) {\n			return true\n		}\n	}\n	return false','	taken := false\n	for _, fn := range fwd.forwardFn {\n		if fn(context, toUpper) {\n			taken = true\n		}\n	}\n	return taken'))
m('c18-discard-both','C18',('proc_discarder.go','func (dis *Discarder) OnUpperData(context Context) {\n','func (dis *Discarder) OnUpperData(context Context) {\n	if dis.enable {\n		return\n	}\n'))
m('c18-fwd-dir','C18',('proc_forwarder.go','fwd.doForward(context, false)','fwd.doForward(context, true)'))
m('c18-echo-headroom','C18',(FD,'		newUbuf := UBufAllocWithHeadReserved(\n			int(expectedLength)+FrameLengthFieldSizeInByte,\n			FrameLengthFieldSizeInByte)','		newUbuf := UBufAllocWithHeadReserved(\n			int(expectedLength)+1,\n			1)',2))
m('c18-loop-session','C18',('proc_loopback.go','	lb.upper.OnLowerData(context)','	context.SetOption("session", 0)\n	lb.upper.OnLowerData(context)'))

# ================= second batch: narrower conditions
m('d01-chunked-write','C01',(TCP,"""	n, err = c.conn.Write(p)
	if err != nil {""","""	for len(p) > 1000 && err == nil {
		var k int
		k, err = c.conn.Write(p[:1000])
		n += k
		p = p[k:]
		c.writeMutex.Unlock()
		c.writeMutex.Lock()
	}
	if err == nil {
		var k int
		k, err = c.conn.Write(p)
		n += k
	}
	if err != nil {"""))
m('d01-async-deliver','C01',(UD,"""	if ep != nil {
		select {""","""	if ep != nil && len(ep.GetRxChannel()) == cap(ep.GetRxChannel()) {
		go func() {
			ep.GetRxChannel() <- NewEndPointData().SetConnection(context.GetConnection()).SetData(message)
		}()
	} else if ep != nil {
		select {"""))
m('d01-json-shared','C01',('proc_codec_json.go','		objectItf := reflect.New(jc.objectType).Interface()','		if jc.shared == nil {\n			jc.shared = reflect.New(jc.objectType).Interface()\n		}\n		objectItf := jc.shared'),('proc_codec_json.go','	objectType reflect.Type\n','	objectType reflect.Type\n	shared     interface{}\n'))
m('d01-string-nul','C01',('proc_codec_string.go','		context.SetMessage(string(bytes))','		for len(bytes) > 1 && bytes[len(bytes)-1] == 0 {\n			bytes = bytes[:len(bytes)-1]\n		}\n		context.SetMessage(string(bytes))'))
m('d01-cache-capacity-exact','C01',(FD,"		capacity := cache.ReadableLength() + ub.ReadableLength()\n		if capacity < frm.cacheCapacity {","		capacity := cache.ReadableLength() + ub.ReadableLength()\n		if capacity > 2*frm.cacheCapacity {\n			capacity = 2 * frm.cacheCapacity\n		}\n		if capacity < frm.cacheCapacity {"))
m('d01-read-limit','C01',(LD,'						ub := UBufAlloc(ld.ustack.GetMTU())','						ub := UBufAllocWithHeadReserved(ld.ustack.GetMTU(), ld.ustack.GetMTU()-ld.ustack.GetOverhead())'))  # equivalent
m('d01-pool','C01',(LD,'						ub := UBufAlloc(ld.ustack.GetMTU())','						if shared == nil {\n							shared = UBufAlloc(ld.ustack.GetMTU())\n						}\n						ub := shared\n						ub.Reset()'),(LD,'			go func() {\n				for {\n					if connection','			go func() {\n				var shared *UBuf\n				for {\n					if connection'))
m('d01-eof-drop','C01',(FD,'	if event.Type != UStackEventConnectionClosed {','	if event.Type != UStackEventConnectionClosed && event.Type != UStackEventHeartbeatLost && event.Type != UStackEventEndpointAdded {'))  # equivalent
m('d02-shared-ub','C02',(LD,'						ub := UBufAlloc(ld.ustack.GetMTU())','						ub := bufs[connection.GetName()]\n						if ub == nil {\n							ub = UBufAlloc(ld.ustack.GetMTU())\n							bufs[connection.GetName()] = ub\n						}\n						ub.Reset()'),(LD,'	// New routinue to wait connections\n','	bufs := map[string]*UBuf{}\n	// New routinue to wait connections\n'))
m('d02-newconn-cache','C02',(FD,'	if event.Type != UStackEventConnectionClosed {\n		return\n	}','	if event.Type == UStackEventNewConnection {\n		frm.mutex.Lock()\n		for c, cache := range frm.caches {\n			if cache.ReadableLength() < FrameLengthFieldSizeInByte {\n				delete(frm.caches, c)\n			}\n		}\n		frm.mutex.Unlock()\n	}\n	if event.Type != UStackEventConnectionClosed {\n		return\n	}'))
m('d02-cachedata-mutex','C02',(FD,'		frm.mutex.Lock()\n		frm.caches[connection] = cache\n		frm.mutex.Unlock()','		frm.caches[connection] = cache'))
m('d02-limit16','C02',(FD,'	delete(frm.caches, connection)\n}','	if len(frm.caches) > 2 {\n		for c := range frm.caches {\n			if c.Closed() {\n				delete(frm.caches, c)\n			}\n		}\n		return\n	}\n	delete(frm.caches, connection)\n}'))  # leak only
m('d02-reply-conn','C02',(UD,'			SetConnection(context.GetConnection()).\n			SetData(message):','			SetConnection(ud.last(context.GetConnection(), len(ep.GetRxChannel()))).\n			SetData(message):'),(UD,'// OnLowerData finds','var lastConn TransportConnection\n\nfunc (ud *UpperDeck) last(c TransportConnection, n int) TransportConnection {\n	if n < 2 || lastConn == nil {\n		lastConn = c\n	}\n	return lastConn\n}\n\n// OnLowerData finds'))
m('d03-cache-ep','C03',(UD,'	for ep, stop := range ud.endpoints {\n		if ep.GetSession() == session {','	for ep, stop := range ud.endpoints {\n		if ep.GetSession()&0xffffff == session&0xffffff {'))
m('d03-dest-sticky','C03',(UD,"""				destinationSession := session
				if""","""				if"""),(UD,'	session := ep.GetSession()\n	txchan','	session := ep.GetSession()\n	destinationSession := session\n	txchan'))
m('d03-one-ep','C03',(UD,'	for ep, stop := range ud.endpoints {\n','	for ep, stop := range ud.endpoints {\n		if len(ud.endpoints) == 1 {\n			return ep, stop\n		}\n'))
m('d03-ctx-option','C03',(SR,'		context.SetOption("session", int(session))','		if session != 0 || context.GetOption("session") == nil {\n			context.SetOption("session", int(session))\n		}'))  # equivalent
m('d04-txchan-late','C04',(UD,'			case epd := <-txchan:\n','			case epd := <-txchan:\n				select {\n				case <-stop:\n					return\n				default:\n				}\n'))  # loses one queued before deletion: allowed
m('d04-stop-only-if-idle','C04',(UD,'			select {\n			case <-stop:\n				return\n			default:\n			}\n\n','			select {\n			case <-stop:\n				if len(txchan) == 0 {\n					return\n				}\n			default:\n			}\n\n'))
m('d04-rx-no-stop','C04',(UD,'		case <-stop:\n			// nobody may receive from a deleted endpoint\n		}','		}'),(UD,'	ep, stop := ud.findEndPoint(session)','	ep, _ := ud.findEndPoint(session)'))
m('d04-readd-before-end','C04',(UD,'	if ud.existsEndpoint(ep) || !ud.isRegistered(ep) {','	if ud.existsEndpoint(ep) || ud.routines[ep] != nil || !ud.isRegistered(ep) {'))
m('d05-tcp-next-no-done','C05',(TCP,"""	case <-done:
		return nil
	}
}

// Run""","""	}
}

// Run"""))
m('d05-listener-first','C05',(TCP,'	if t.listener != nil {\n		t.listener.Close()','	if t.listener != nil && len(t.connections) == 0 {\n		t.listener.Close()'))
m('d05-uds-remove-always','C05',(UDS,'	uds.dropConnections()\n','	uds.dropConnections()\n	time.AfterFunc(time.Second, func() { os.Remove(uds.filename) })\n'))
m('d05-drop-first-only','C05',(UDS,'	for _, c := range uds.connections {\n		c.Close()\n	}','	for i, c := range uds.connections {\n		if i < 16 {\n			c.Close()\n		}\n	}'))
m('d05-no-forserver-lock','C05',(TCP,'	if !t.isRunning || t.done != done {\n		return false\n	}','	if t.done != done {\n		return false\n	}'))
m('d06-retry-counts-only-refused','C06',(TCP,'		fmt.Println(err, "retry", i)\n','		fmt.Println(err, "retry", i)\n		if ne, ok := err.(net.Error); ok && ne.Timeout() {\n			i--\n		}\n'))
m('d06-no-wait-after-timeout','C06',(TCP,'		fmt.Println(err, "retry", i)\n','		fmt.Println(err, "retry", i)\n		if ne, ok := err.(net.Error); ok && ne.Timeout() {\n			continue\n		}\n'))
m('d06-dial-before-done','C06',(UDS,'		case <-done:\n			return\n		}\n	}','		case <-done:\n			if i > 2 {\n				return\n			}\n		}\n	}'))
m('d06-timeout5','C06',(TCP,'t.address, time.Second)','t.address, 5*time.Second)'))
m('d06-two-conns','C06',(TCP,"""				connection), next, done)
			return
		}""","""				connection), next, done)
			if i == 0 {
				return
			}
			break
		}"""))
m('d07-begin-async','C07',(LD,"""			ld.ustack.PublishEvent(Event{
				Type:   UStackEventNewConnection,
				Source: ld,
				Data:   connection,
			})
""","""			go ld.ustack.PublishEvent(Event{
				Type:   UStackEventNewConnection,
				Source: ld,
				Data:   connection,
			})
"""))
m('d07-skip-closed-begin','C07',(LD,"""			// publish event
			ld.ustack.PublishEvent(Event{
				Type:   UStackEventNewConnection,""","""			if !connection.Closed() {
				// publish event
			}
			if !connection.Closed() {
			ld.ustack.PublishEvent(Event{
				Type:   UStackEventNewConnection,"""),(LD,"""				Data:   connection,
			})

			// New routine""","""				Data:   connection,
			})
			}

			// New routine"""))
m('d07-hb-closes-event','C07',(HB,'		if hb.closeOnLost {\n			connection.Close()\n','		if hb.closeOnLost {\n			connection.Close()\n			hb.ustack.PublishEvent(Event{Type: UStackEventConnectionClosed, Source: hb, Data: connection})\n'))
m('d07-write-err-only-log','C07',(LD,'		// publishes the event, once\n		connection.Close()\n','		// publishes the event, once\n'),(TCP,'		// part of the data may have been sent, nothing can follow it\n		c.Close()\n','		// part of the data may have been sent, nothing can follow it\n		c.closed = true\n'))
m('d08-monitor-on-read','C08',(HB,'	tag, err := ub.ReadByte()\n	if err != nil {\n		return\n	}\n','	tag, err := ub.ReadByte()\n	if err != nil {\n		return\n	}\n	if tag == HeartbeatUplayerMessageTag && ub.ReadableLength() > 100 {\n		hb.updateMonitor(context.GetConnection())\n	}\n'))
m('d08-lost-skip-second','C08',(HB,'		lost = append(lost, connection)\n','		lost = append(lost, connection)\n		if len(lost) > 1 {\n			lost = lost[:1]\n		}\n'))
m('d08-relost','C08',(HB,'	hb.mutex.Lock()\n	defer hb.mutex.Unlock()\n\n	hb.monitors[connection] = time.Now()','	hb.mutex.Lock()\n	defer hb.mutex.Unlock()\n\n	if old, ok := hb.monitors[connection]; ok && time.Since(old) > time.Duration(hb.timeoutInSecond)*time.Second/2 {\n		return\n	}\n	hb.monitors[connection] = time.Now()'))
m('d09-hb-block','C09',(HB,'	go func() {\n		for {\n			hb.check()\n			time.Sleep(time.Second)','	go func() {\n		for {\n			hb.check()\n			time.Sleep(time.Second)\n			hb.check()'))  # equivalent
m('d09-monitor-deleted','C09',(HB,'					hb.deleteMonitor(connection)\n					return','					return'))
m('d09-hb-mtu','C09',(HB,'				ub := UBufAllocWithHeadReserved(\n					hb.ustack.GetMTU(),\n					hb.ustack.GetOverhead())','				ub := UBufAllocWithHeadReserved(\n					hb.ustack.GetMTU(),\n					hb.GetOverhead()+FrameLengthFieldSizeInByte)'))
m('d10-json-panic','C10',('proc_codec_json.go','		n, err := ub.Read(data)','		_ = data[0]\n		n, err := ub.Read(data)'))
m('d10-gob-type','C10',('proc_codec_gob.go','		err := gob.NewDecoder(newPayloadReader(ub)).Decode(objectItf)\n		if err != nil {','		err := gob.NewDecoder(newPayloadReader(ub)).Decode(objectItf)\n		if err != nil && err.Error() != "EOF" {'))
m('d10-session-close','C10',(SR,'		session, err := ub.ReadU32BE()\n		if err != nil {\n			return\n		}','		session, err := ub.ReadU32BE()\n		if err != nil {\n			panic(err)\n		}'))
m('d10-fd-zero','C10',(FD,'		if cachedLength < FrameLengthFieldSizeInByte {\n			// wait for more data\n			return\n		}\n\n		expectedLength, err := cache.PeekU32BE()','		if cachedLength < FrameLengthFieldSizeInByte {\n			// wait for more data\n			return\n		}\n\n		if n, _ := cache.PeekU32BE(); n == 0 {\n			continue\n		}\n\n		expectedLength, err := cache.PeekU32BE()'))
m('d11-queue-reset','C11',(REF,'	ch.refCount++\n','	if ch.refCount == 1 && len(ch.serverRxClientTx) == cap(ch.serverRxClientTx) {\n		ch.serverRxClientTx = make(chan interface{}, sm.queueSize)\n	}\n	ch.refCount++\n'))
m('d11-nil-close','C11',(REF,'		return nil, errors.New("GetReference: connection is closed")\n	}\n}','		select {\n		case data := <-rx:\n			_ = data\n		default:\n		}\n		return nil, errors.New("GetReference: connection is closed")\n	}\n}'))
m('d11-close-shared','C11',(REF,'		if ch.refCount == 0 {\n			delete(chans, sm.address)\n		}','		if ch.refCount == 0 {\n			delete(chans, sm.address)\n			close(ch.serverRxClientTx)\n		}'))
m('d12-load-split','C12',(SC,'	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))','	ub.WriteU64BE(uint64(uint32(atomic.LoadUint64(&sc.txCounter))))'))  # needs 2^32
m('d12-count-after','C12',(SC,'		atomic.AddUint64(&sc.rxCounter, 1)\n','		defer atomic.AddUint64(&sc.rxCounter, 1)\n'))
m('d12-res-wrong-conn','C12',(SC,'	context.SetBuffer(ub)\n	sc.lower.OnUpperData(context)','	if sc.peer == nil || sc.peer.Closed() {\n		sc.peer = context.GetConnection()\n	}\n	context.SetBuffer(ub).SetConnection(sc.peer)\n	sc.lower.OnUpperData(context)'),(SC,'	intervalInSecond int\n}','	intervalInSecond int\n	peer             TransportConnection\n}'))
m('d12-res-up','C12',(SC,'		if sc.enable {\n			sc.show(context)\n		}\n		return','		if sc.enable {\n			sc.show(context)\n			return\n		}'))
m('d13-reset-nocow','C13',(UB,'	ub.readerIndex = ub.reserved\n	ub.writerIndex = ub.reserved\n}','	ub.readerIndex = ub.reserved\n	ub.writerIndex = ub.reserved\n	ub.copyOnWrite = false\n}'))
m('d13-write-skip-empty','C13',(UB,'	ub.resolveCopyOnWriteIfNeed()\n\n	if toWrite > len(p) {','	if ub.ReadableLength() > 0 {\n		ub.resolveCopyOnWriteIfNeed()\n	}\n\n	if toWrite > len(p) {'))
m('d13-head-copy','C13',(UB,'	// the readable data must be copied before moving the writerIndex\n	ub.resolveCopyOnWriteIfNeed()\n','	// the readable data must be copied before moving the writerIndex\n	if dataSize < 8 {\n		ub.resolveCopyOnWriteIfNeed()\n	}\n'))
m('d13-direct-cow-parent','C13',(UB,'			bytes:    make([]byte, ub.Capacity()),\n		}\n\n		copy(newub','			bytes:    make([]byte, ub.writerIndex),\n		}\n\n		copy(newub'))
m('d13-ref-lt','C13',(UB,'	if atomic.LoadInt32(&ub.data.refCount) == 1 {','	if atomic.LoadInt32(&ub.data.refCount) <= 2 {'))
m('d14-readfrom-eof','C14',(UB,'	ub.writerIndex += length\n\n	return int64(length), err\n}\n\n// ReadU16 returns','	ub.writerIndex += length\n	if err == io.EOF && length > 0 {\n		err = nil\n	}\n\n	return int64(length), err\n}\n\n// ReadU16 returns'))
m('d14-writeto-loop','C14',(UB,'	ub.readerIndex += written\n\n	return int64(written), err','	ub.readerIndex += written\n	if err == nil && ub.ReadableLength() > 0 {\n		more, e := w.Write(ub.data.bytes[ub.readerIndex:ub.writerIndex])\n		written += more\n		err = e\n	}\n\n	return int64(written), err'))
m('d14-readfrom-neg','C14',(UB,'	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n\n	ub.writerIndex += length','	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n	if err != nil && err != io.EOF {\n		length = 0\n	}\n\n	ub.writerIndex += length'))
m('d15-skip-when-swapped','C15',(EP,'		if taken {\n','		if taken && ep.dataListener != nil {\n'))
m('d15-keep-first','C15',(EP,'	ep.dataListener = listener\n	ep.lastListener = listener\n','	if ep.dataListener == nil || !ep.inReceive {\n		ep.lastListener = listener\n	}\n	ep.dataListener = listener\n'))
m('d15-reenter','C15',(EP,'	ep.inAutoReceive = false\n}','	ep.mutex.Unlock()\n	ep.mutex.Lock()\n	ep.inAutoReceive = false\n}'))
m('d16-ep-order','C16',(US,'	for _, endpoint := range endpoints {\n		endpoint.OnEvent(event)\n	}','	for i := range endpoints {\n		endpoint := endpoints[len(endpoints)-1-i]\n		endpoint.OnEvent(event)\n	}'))  # order among endpoints: not promised
m('d16-recheck','C16',(US,'	for _, endpoint := range endpoints {\n		endpoint.OnEvent(event)\n	}','	for i, endpoint := range endpoints {\n		if now := u.GetEndPoint(); i < len(now) || len(now) == 0 {\n			endpoint.OnEvent(event)\n		}\n	}'))
m('d16-async-listener','C16',(US,'	for _, listener := range listeners {\n		listener(event)\n	}','	for i, listener := range listeners {\n		if i > 0 {\n			go listener(event)\n			continue\n		}\n		listener(event)\n	}'))
m('d16-drop-dup','C16',(US,'	u.mutex.Lock()\n	listeners := u.listeners\n	u.mutex.Unlock()\n','	u.mutex.Lock()\n	listeners := u.listeners\n	if u.busy > 1 {\n		listeners = listeners[:1]\n	}\n	u.busy++\n	u.mutex.Unlock()\n	defer func() {\n		u.mutex.Lock()\n		u.busy--\n		u.mutex.Unlock()\n	}()\n'),(US,'	lowerDeck  DataProcessor\n	listeners','	busy       int\n	lowerDeck  DataProcessor\n	listeners'))
m('d17-bytes-trunc','C17',('proc_codec_bytes.go','		n, err := ub.Write(bytes)\n		if n == 0 || err != nil {','		n, err := ub.Write(bytes)\n		if n == 0 || (err != nil && n < len(bytes)/2) {'))
m('d17-headroom','C17',('proc_stat_counter.go','	ub.WriteHeadByte(StatCounterUplayerMessageTag)\n\n	sc.lower','	if ub.WriteHeadByte(StatCounterUplayerMessageTag) != nil {\n		return\n	}\n\n	sc.lower'))  # equivalent
m('d17-uds-short','C17',(UDS,'	n, err = c.conn.Write(p)\n	if err != nil {','	n, err = c.conn.Write(p)\n	if err != nil && n == 0 {'))
m('d18-echo-copy','C18',('proc_echo.go','		echo.lower.OnUpperData(context)\n	} else {','		go echo.lower.OnUpperData(context)\n	} else {'))
m('d18-filter-one-way','C18',('proc_filter.go','		if !filter.doFilter(context, false) {','		if len(filter.filterFn) > 0 && !filter.filterFn[0](context, false) {'))
m('d18-fwd-continue','C18',('proc_forwarder.go','		if fn(context, toUpper) {\n			return true\n		}\n	}\n	return false','		if fn(context, toUpper) {\n			taken = true\n		}\n	}\n	return taken'),('proc_forwarder.go','	for _, fn := range fwd.forwardFn {','	taken := false\n	for _, fn := range fwd.forwardFn {'))
m('d18-discard-conn','C18',('proc_discarder.go','	if dis.enable {\n','	if dis.enable && !useReference(context) {\n'))
m('d18-loop-async','C18',('proc_loopback.go','	lb.upper.OnLowerData(context)\n','	go lb.upper.OnLowerData(context)\n'))

# --- C21
m('e21-hb-loop','C21',('proc_heartbeat.go','				if connection.Closed() {\n','				if connection.Closed() && hb.closeOnLost {\n'))
m('e21-stat-loop','C21',('proc_stat_counter.go','				if connection.Closed() {\n','				if connection.Closed() && !sc.enable {\n'))
m('e21-recv-err','C21',('proc_lowerdeck.go','						if n == 0 || err != nil {\n							ld.closeConnection(connection)\n							return\n','						if n == 0 || err != nil {\n							if err == nil || connection.Closed() {\n								ld.closeConnection(connection)\n								return\n							}\n							time.Sleep(time.Second)\n							if connection.Closed() {\n								ld.closeConnection(connection)\n								return\n							}\n'),('proc_lowerdeck.go','	"sync"\n','	"sync"\n	"time"\n'))
m('e21-offer','C21',('tran_tcp.go','	select {\n	case next <- tc:\n		return true\n	case <-done:\n		// it was closed by stop\n		return false\n	}','	next <- tc\n	return true'))
m('e21-offer-close','C21',('tran_tcp.go','	if !t.saveConnection(tc, done) {\n		tc.Close()\n		return false','	if !t.saveConnection(tc, done) {\n		return false'))
m('e21-next-done','C21',('tran_unix.go','	case <-done:\n		return nil\n	}','	}'))
m('e21-rx-stop','C21',('proc_upperdeck.go','		case <-stop:\n			// nobody may receive from a deleted endpoint\n','		case <-(chan bool)(nil):\n			_ = stop\n'))
m('e21-ref-get','C21',('tran_reference.go','	case <-c.done:\n		return nil, errors.New("GetReference: connection is closed")\n	}','	}'))
m('e21-no-close-on-eof','C21',('proc_lowerdeck.go','	// close first\n	c.Close()\n\n','	// close first\n	if !c.UseReference() && c.Closed() {\n		c.Close()\n	}\n\n'))
m('e21-retry','C21',('tran_tcp.go','		case <-done:\n			return\n		}\n	}\n\n	fmt.Println("Timeout','		}\n	}\n\n	fmt.Println("Timeout'))
m('e21-crowd-limit','C21',('tran_tcp.go','	t.connections = append(connections, tc)\n','	t.connections = append(connections, tc)\n	if len(t.connections) > 24 {\n		return false\n	}\n'))
m('e21-hb-after-lost','C21',('proc_heartbeat.go','				if connection.Closed() {\n','				if _, ok := hb.monitors[connection]; connection.Closed() && ok {\n'))

# --- C22
RXOLD='		select {\n		case ep.GetRxChannel() <- NewEndPointData().\n			SetConnection(context.GetConnection()).\n			SetData(message):\n		case <-stop:\n'
m('e22-rx-drop','C22',('proc_upperdeck.go',RXOLD,RXOLD.replace('		case <-stop:','		case <-time.After(time.Second * 30):\n		case <-stop:')),('proc_upperdeck.go','	"sync"\n','	"sync"\n	"time"\n'))
m('e22-rx-async','C22',('proc_upperdeck.go','		select {\n		case ep.GetRxChannel() <- NewEndPointData().\n			SetConnection(context.GetConnection()).\n			SetData(message):\n		case <-stop:\n			// nobody may receive from a deleted endpoint\n		}','		epd := NewEndPointData().SetConnection(context.GetConnection()).SetData(message)\n		select {\n		case ep.GetRxChannel() <- epd:\n			return\n		default:\n		}\n		go func() {\n			select {\n			case ep.GetRxChannel() <- epd:\n			case <-stop:\n			}\n		}()'))
m('e22-rx-overflow','C22',('proc_upperdeck.go','		select {\n		case ep.GetRxChannel() <- NewEndPointData().\n			SetConnection(context.GetConnection()).\n			SetData(message):\n		case <-stop:\n			// nobody may receive from a deleted endpoint\n		}','		ovm.Lock()\n		q := ovf[ep]\n		if q == nil {\n			q = make(chan EndPointData, 4096)\n			ovf[ep] = q\n			go func() {\n				for epd := range q {\n					select {\n					case ep.GetRxChannel() <- epd:\n					case <-stop:\n					}\n				}\n			}()\n		}\n		ovm.Unlock()\n		q <- NewEndPointData().SetConnection(context.GetConnection()).SetData(message)'),('proc_upperdeck.go','func (ud *UpperDeck) findEndPoint','var ovf = map[EndPoint]chan EndPointData{}\nvar ovm sync.Mutex\n\nfunc (ud *UpperDeck) findEndPoint'))
m('e22-ud-lock','C22',('proc_upperdeck.go','	if ep != nil {\n		select','	if ep != nil {\n		ud.dm.Lock()\n		defer ud.dm.Unlock()\n		select'),('proc_upperdeck.go','	routines ','	dm sync.Mutex\n	routines '))
m('e22-global-write','C22',('tran_tcp.go','	c.writeMutex.Lock()\n	defer c.writeMutex.Unlock()\n','	gwm.Lock()\n	defer gwm.Unlock()\n'),('tran_tcp.go','// NewTCPTransportConnection ...','var gwm sync.Mutex\n\n// NewTCPTransportConnection ...'))
m('e22-frm-lock','C22',('proc_frame_decoder.go','		frm.handleCurrentData(context, ub)\n','		frm.hm.Lock()\n		defer frm.hm.Unlock()\n		frm.handleCurrentData(context, ub)\n'),('proc_frame_decoder.go','	mutex         sync.Mutex\n','	mutex         sync.Mutex\n	hm sync.Mutex\n'))
m('e22-ref-async','C22',('tran_reference.go','	select {\n	case tx <- p:\n		return nil\n	case <-c.done:\n		return errors.New("SetReference: connection is closed")\n	}','	select {\n	case tx <- p:\n		return nil\n	case <-c.done:\n		return errors.New("SetReference: connection is closed")\n	case <-time.After(time.Second):\n		go func() { tx <- p }()\n		return nil\n	}'),('tran_reference.go','	"sync"\n','	"sync"\n	"time"\n'))
m('e22-tx-async','C22',('proc_upperdeck.go','				lower.OnUpperData(\n','				go lower.OnUpperData(\n'))
m('e22-ref-big','C22',('tran_reference.go','	sm.queueSize = size\n','	sm.queueSize = size\n	if size < 512 {\n		sm.queueSize = 512\n	}\n'))
m('e22-stat-lock','C22',('proc_stat_counter.go','	sc.upper.OnLowerData(context)\n}','	sc.hm.Lock()\n	defer sc.hm.Unlock()\n	sc.upper.OnLowerData(context)\n}'),('proc_stat_counter.go','type StatCounter struct {\n','type StatCounter struct {\n	hm sync.Mutex\n'),('proc_stat_counter.go','	"sync/atomic"\n','	"sync"\n	"sync/atomic"\n'))
m('e22-write-deadline','C22',('tran_tcp.go','	n, err = c.conn.Write(p)\n','	c.conn.SetWriteDeadline(time.Now().Add(time.Second * 40))\n	n, err = c.conn.Write(p)\n'))

# --- C23
m('e23-ctx-pool','C23',('proc_upperdeck.go','				lower.OnUpperData(\n					NewUStackContext().\n','				if ctx == nil {\n					ctx = NewUStackContext()\n				}\n				lower.OnUpperData(\n					ctx.\n'),('proc_upperdeck.go','		for {\n			// stop first','		var ctx Context\n		for {\n			// stop first'))
m('e23-fd-ctx','C23',('proc_frame_decoder.go','			NewUStackContext().\n				SetConnection(connection).\n				SetBuffer(newUbuf))\n	}\n}\n\n// OnLowerData','			context.\n				SetConnection(connection).\n				SetBuffer(newUbuf))\n	}\n}\n\n// OnLowerData'))
m('e23-sr-newctx','C23',('proc_session_resolver.go','	sr.lower.OnUpperData(context)\n','	sr.lower.OnUpperData(NewUStackContext().SetConnection(context.GetConnection()).SetBuffer(context.GetBuffer()).SetMessage(context.GetMessage()))\n'))
m('e23-stat-newctx','C23',('proc_stat_counter.go','	sc.upper.OnLowerData(context)\n}','	sc.upper.OnLowerData(NewUStackContext().SetConnection(context.GetConnection()).SetBuffer(context.GetBuffer()))\n}'))
m('e23-overhead-first','C23',('ustack_default.go','		u.overhead += u.processors[i].GetOverhead()\n','		if k := u.processors[i].GetOverhead(); u.overhead+k <= 16 {\n			u.overhead += k\n		}\n'))
m('e23-stack-late','C23',('ustack_default.go','	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n','	u.lowerDeck.Run()\n\n	for _, dp := range u.processors {\n		dp.Run()\n	}\n'))
m('e23-deep','C23',('ustack_default.go','			u.processors[i+1].SetUpper(u.processors[i])\n','			if i == 6 {\n				u.processors[i+1].SetUpper(u.processors[i-1])\n			} else {\n				u.processors[i+1].SetUpper(u.processors[i])\n			}\n'))
m('e23-filter-async','C23',('proc_filter.go','	filter.upper.OnLowerData(context)\n','	go filter.upper.OnLowerData(context)\n'))
m('e23-hb-ctx','C23',('proc_heartbeat.go','		go func() {\n			for {','		ctx := NewUStackContext()\n		go func() {\n			for {'),('proc_heartbeat.go','					NewUStackContext().\n						SetConnection(connection).','					ctx.\n						SetConnection(connection).'))
m('e23-fd-buf','C23',('proc_frame_decoder.go','		newUbuf := UBufAllocWithHeadReserved(\n			int(expectedLength)+FrameLengthFieldSizeInByte,\n			FrameLengthFieldSizeInByte)\n\n		// drop','		newUbuf := frm.buf\n		if newUbuf == nil || newUbuf.Capacity() < int(expectedLength)+2*FrameLengthFieldSizeInByte {\n			newUbuf = UBufAllocWithHeadReserved(\n				int(expectedLength)+FrameLengthFieldSizeInByte,\n				FrameLengthFieldSizeInByte)\n			frm.buf = newUbuf\n		} else {\n			newUbuf.Reset()\n		}\n\n		// drop',2),('proc_frame_decoder.go','	mutex         sync.Mutex\n','	mutex         sync.Mutex\n	buf *UBuf\n'))

# ==== f: written from the statements alone, third round
LDR='						n, err := ub.ReadFrom(connection)\n'
m('f01-string-trim','C01',('proc_codec_string.go','context.SetMessage(string(bytes))','for len(bytes) > 1 && bytes[len(bytes)-1] == 0 {\n			bytes = bytes[:len(bytes)-1]\n		}\n		context.SetMessage(string(bytes))'))
m('f01-copyn-limit','C01',(FD,'_, err = io.CopyN(newUbuf, cache, int64(expectedLength))','_, err = io.CopyN(newUbuf, io.LimitReader(cache, 4096), int64(expectedLength))'))
m('f01-cache-reset-reader','C01',(FD,'		if cachedLength == 0 {\n','		if cachedLength == 0 || cache.TailWritableLength() == 0 {\n'))
m('f01-bad-signed','C01',(FD,'	return int64(length) > int64(frm.cacheCapacity) &&\n','	return int64(length) >= int64(frm.cacheCapacity) ||\n'))
m('f01-grow-tight','C01',(FD,'capacity := cache.ReadableLength() + ub.ReadableLength()','capacity := cache.TailWritableLength() + ub.ReadableLength()'))
m('f01-json-reuse','C01',('proc_codec_json.go','objectItf := reflect.New(jc.objectType).Interface()','if jc.obj == nil {\n			jc.obj = reflect.New(jc.objectType).Interface()\n		}\n		objectItf := jc.obj'),('proc_codec_json.go','	objectType reflect.Type\n','	objectType reflect.Type\n	obj interface{}\n'))
m('f01-gob-reuse','C01',('proc_codec_gob.go','objectItf := reflect.New(g.objectType).Interface()','if g.obj == nil {\n			g.obj = reflect.New(g.objectType)\n		}\n		v := reflect.New(g.objectType)\n		v.Elem().Set(g.obj.Elem())\n		objectItf := v.Interface()\n		g.obj = v'),('proc_codec_gob.go','	objectType reflect.Type\n','	objectType reflect.Type\n	obj *reflect.Value\n')) if False else None
m('f01-tag-zero','C01',(HB,'	if tag == HeartbeatSelfMessageTag {\n','	if tag == HeartbeatSelfMessageTag || ub.ReadableLength() == 0 {\n'))
m('f01-hb-second','C01',(HB,'	if tag == HeartbeatSelfMessageTag {\n','	if b, _ := ub.PeekByte(); tag == HeartbeatSelfMessageTag || b == HeartbeatSelfMessageTag && ub.ReadableLength() == 1 {\n'))
m('f01-rx-full-drop','C14',(LD,'						n, err := ub.ReadFrom(connection)\n						if n > 0 {','						n, err := ub.ReadFrom(connection)\n						if n > 0 && (err == nil || ub.TailWritableLength() > 0) {')) 
m('f02-name-key','C02',(HB,'connection := event.Data.(TransportConnection)','connection := event.Data.(TransportConnection)')) if False else None
m('f02-cap-caches','C02',(FD,'		frm.caches[connection] = cache\n	}\n	return cache','		if len(frm.caches) >= 4 {\n			for c := range frm.caches {\n				if c.Closed() {\n					delete(frm.caches, c)\n				}\n			}\n			for c, u := range frm.caches {\n				if len(frm.caches) < 4 {\n					break\n				}\n				if u.ReadableLength() < FrameLengthFieldSizeInByte {\n					delete(frm.caches, c)\n				}\n			}\n		}\n		frm.caches[connection] = cache\n	}\n	return cache'))
m('f02-last-conn','C02',('proc_echo.go','	if echo.enable {\n','	if echo.enable && context.GetConnection() != nil {\n')) if False else None
m('f03-both','C03',(UD,'	for ep, stop := range ud.endpoints {\n		if ep.GetSession() == session {','	for ep, stop := range ud.endpoints {\n		if ep.GetSession() == session || ep.GetSession() < 0 && session < 0 {')) if False else None
m('f03-neg','C03',(SR,'		if uint64(session) > math.MaxUint32 {','		if session > math.MaxUint32 {'))
m('f03-max','C03',(SR,'		if uint64(session) > math.MaxUint32 {','		if uint64(session) >= math.MaxUint32 {'))
m('f03-cached-lookup','C03',(UD,'	ud.Lock()\n	defer ud.Unlock()\n\n	for ep, stop := range ud.endpoints {','	ud.Lock()\n	defer ud.Unlock()\n\n	if ud.last != nil && ud.last.GetSession() == session {\n		return ud.last, ud.lastStop\n	}\n	defer func() { ud.last, ud.lastStop = rep, rstop }()\n\n	for ep, stop := range ud.endpoints {'),(UD,'findEndPoint(session int) (EndPoint, chan bool) {','findEndPoint(session int) (rep EndPoint, rstop chan bool) {'),(UD,'	ProcBase\n','	ProcBase\n	last EndPoint\n	lastStop chan bool\n'))
m('f04-cached-lookup','C04',(UD,'	ud.Lock()\n	defer ud.Unlock()\n\n	for ep, stop := range ud.endpoints {','	ud.Lock()\n	defer ud.Unlock()\n\n	if ud.last != nil && ud.last.GetSession() == session {\n		return ud.last, ud.lastStop\n	}\n	defer func() { ud.last, ud.lastStop = rep, rstop }()\n\n	for ep, stop := range ud.endpoints {'),(UD,'findEndPoint(session int) (EndPoint, chan bool) {','findEndPoint(session int) (rep EndPoint, rstop chan bool) {'),(UD,'	ProcBase\n','	ProcBase\n	last EndPoint\n	lastStop chan bool\n'))
m('f04-hold-lock','C04',(UD,'	ep, stop := ud.findEndPoint(session)\n	if ep != nil {\n','	ep, stop := ud.findEndPoint(session)\n	if ep != nil {\n		ud.Lock()\n		defer ud.Unlock()\n'))
m('f04-del-by-session','C04',(UD,'	ch, ok := ud.endpoints[ep]\n	if ok {\n		close(ch)\n		delete(ud.endpoints, ep)\n	}','	for e, ch := range ud.endpoints {\n		if e.GetSession() == ep.GetSession() {\n			close(ch)\n			delete(ud.endpoints, e)\n		}\n	}'))
m('f05-next-left','C05',(TCP,'		if !t.isRunning || t.done != done {\n			// it was closed by stop\n			return nil\n		}\n		return tc','		return tc'))
m('f05-uds-next-left','C05',(UDS,'		if !uds.isRunning || uds.done != done {\n			// it was closed by stop\n			return nil\n		}\n		return tc','		return tc'))
m('f05-save-late','C05',(TCP,'	if !t.saveConnection(tc, done) {\n		tc.Close()\n		return false\n	}\n','	if !t.isRunning {\n		tc.Close()\n		return false\n	}\n	defer t.saveConnection(tc, done)\n'))
m('f05-drop-closed-only','C05',(TCP,'	for _, c := range t.connections {\n		c.Close()\n	}','	for i := 1; i < len(t.connections); i++ {\n		t.connections[i].Close()\n	}\n	if len(t.connections) > 0 && !t.forServer {\n		t.connections[0].Close()\n	}'))
m('f06-interval-ms','C06',(TCP,'time.Second * time.Duration(t.retryIntervalInSecond)','time.Millisecond * 999 * time.Duration(t.retryIntervalInSecond)'))
m('f06-backoff','C06',(TCP,'time.Second * time.Duration(t.retryIntervalInSecond)','time.Second * time.Duration(t.retryIntervalInSecond+i/10)'))
m('f06-reset-i','C06',(TCP,'		fmt.Println(err, "retry", i)\n','		fmt.Println(err, "retry", i)\n		if ne, ok := err.(net.Error); ok && ne.Timeout() {\n			i--\n		}\n'))
m('f06-two','C06',(UDS,'			uds.offerConnection(NewUDSTransportConnection(\n				connection.RemoteAddr().String(),\n				connection), next, done)\n			return\n','			if uds.offerConnection(NewUDSTransportConnection(\n				connection.RemoteAddr().String(),\n				connection), next, done) || i > 0 {\n				return\n			}\n'))
m('f07-write-fail-twice','C07',(LD,'		// publishes the event, once\n		connection.Close()','		// publishes the event, once\n		ld.closeConnection(connection)'))
m('f07-skip-if-closed','C07',(LD,'	ld.ustack.PublishEvent(Event{\n		Type:   UStackEventConnectionClosed,','	if len(ld.ustack.GetTransport()) == 0 {\n		return\n	}\n	ld.ustack.PublishEvent(Event{\n		Type:   UStackEventConnectionClosed,'))
m('f08-since-round','C08',(HB,'int(time.Since(lastTime).Seconds()) < hb.timeoutInSecond','int(time.Since(lastTime).Seconds()+0.5) < hb.timeoutInSecond'))
m('f08-app-resets','C08',(HB,'	hb.upper.OnLowerData(context)\n}\n\n// OnEvent','	if ub.ReadableLength() > 512 {\n		hb.updateMonitor(context.GetConnection())\n	}\n	hb.upper.OnLowerData(context)\n}\n\n// OnEvent'))
m('f08-break','C08',(HB,'		if connection.Closed() {\n			continue\n		}\n\n		fmt','		if connection.Closed() {\n			break\n		}\n\n		fmt'))
m('f08-requeue','C08',(HB,'		if hb.closeOnLost {\n			connection.Close()\n		}\n','		if hb.closeOnLost {\n			connection.Close()\n		} else {\n			hb.updateMonitor(connection)\n		}\n'))
m('f09-late-update','C09',(HB,'	if tag == HeartbeatSelfMessageTag {\n		// heartbeat message','	if tag == HeartbeatSelfMessageTag && ub.ReadableLength() == 0 && len(hb.monitors) > 3 {\n		go hb.updateMonitor(context.GetConnection())\n		return\n	}\n	if tag == HeartbeatSelfMessageTag {\n		// heartbeat message')) if False else None
m('f09-revive','C09',(HB,'	hb.monitors[connection] = time.Now()\n','	if last, ok := hb.monitors[connection]; !ok || time.Since(last) > time.Second {\n		hb.monitors[connection] = time.Now()\n	}\n'))
m('f09-closed-revive','C09',(HB,'		if connection.Closed() {\n			continue\n		}\n\n		fmt','		fmt'))
m('f10-short-read','C10',(SC,'	name := make([]byte, 128)\n','	name := make([]byte, ub.ReadableLength()-16)\n')) 
m('f10-name-index','C10',(SC,'	ub.Read(name)\n','	n, _ := ub.Read(name)\n	for n > 0 && name[n] == 0 {\n		n--\n	}\n'))
m('f10-len-alloc','C10',(FD,'		if frm.isBadFrame(expectedLength) {\n			frm.handleBadFrame(connection)\n			return\n		}\n\n		if cachedLength','		if int32(expectedLength) >= 0 && frm.isBadFrame(expectedLength) {\n			frm.handleBadFrame(connection)\n			return\n		}\n\n		if cachedLength'))
m('f10-echo-grow','C10',(HB,'	tag, err := ub.ReadByte()\n	if err != nil {\n','	tag, err := ub.ReadByte()\n	if err != nil {\n		context.GetConnection().Close()\n'))
m('f11-drop-old','C11',(REF,'	select {\n	case tx <- p:\n		return nil\n','	if len(tx) == cap(tx) && cap(tx) > 64 {\n		select {\n		case <-tx:\n		default:\n		}\n	}\n	select {\n	case tx <- p:\n		return nil\n'))
m('f11-close-chan','C11',(REF,'		if ch.refCount == 0 {\n','		if ch.refCount <= 1 && sm.forServer {\n'))
m('f12-show-counts','C12',(SC,'	sc.lower.OnUpperData(context)\n}\n\nfunc (sc *StatCounter) request','	sc.lower.OnUpperData(context)\n	if context.GetConnection() == nil && sc.enable {\n		atomic.AddUint64(&sc.txCounter, ^uint64(0))\n	}\n}\n\nfunc (sc *StatCounter) request')) if False else None
m('f12-uint32','C12',(SC,'ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))','ub.WriteU64BE(uint64(uint8(atomic.LoadUint64(&sc.rxCounter))))'))
m('f12-count-after','C12',(SC,'	if sc.enable {\n		atomic.AddUint64(&sc.rxCounter, 1)\n','	if sc.enable {\n		defer atomic.AddUint64(&sc.rxCounter, 1)\n'))
m('f12-enable-count','C12',(SC,'	if sc.enable {\n		atomic.AddUint64(&sc.txCounter, 1)\n','	if sc.enable || sc.txCounter > 0 {\n		atomic.AddUint64(&sc.txCounter, 1)\n'))
m('f13-early','C13',(UB,'	atomic.AddInt32(&ub.data.refCount, -1)\n','	atomic.AddInt32(&ub.data.refCount, -1)\n	data.bytes = data.bytes[:ub.writerIndex:len(data.bytes)]\n'))
m('f13-cap','C13',(UB,'		bytes:    make([]byte, ub.Capacity()),\n	}\n\n	// This','		bytes:    make([]byte, len(ub.data.bytes)),\n	}\n\n	// This')) if False else None
m('f13-copy-len','C13',(UB,'		bytes:    make([]byte, ub.Capacity()),\n	}\n\n	fmt','		bytes:    make([]byte, ub.writerIndex, ub.Capacity()),\n	}\n\n	fmt')) if False else None
m('f14-readfrom-neg','C14',(UB,'	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n','	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n	if err == io.EOF && length > 0 {\n		err = nil\n	}\n'))
m('f14-loop','C14',(UB,'	ub.readerIndex += written\n','	if err == nil || written == ub.ReadableLength() {\n		ub.readerIndex += written\n	}\n'))
m('f15-drop-on-nil','C15',(EP,'		if taken {\n','		if taken && ep.dataListener != nil {\n'))
m('f15-lock-order','C15',(EP,'			ep.mutex.Unlock()\n			listener(ep, epd)\n			ep.mutex.Lock()\n','			ep.inAutoReceive = false\n			ep.mutex.Unlock()\n			listener(ep, epd)\n			ep.mutex.Lock()\n			if ep.inAutoReceive {\n				return\n			}\n			ep.inAutoReceive = true\n'))
m('f16-reuse-slice','C16',(US,'u.endpoints = append(append([]EndPoint(nil), endpoints[:i]...), endpoints[i+1:]...)','u.endpoints = append(endpoints[:i], endpoints[i+1:]...)'))
m('f16-listener-slice','C16',(US,'append(append([]func(Event){}, u.listeners...), listener)','append(u.listeners, listener)'))
m('f16-snapshot-late','C16',(US,'	for _, endpoint := range endpoints {\n		endpoint.OnEvent(event)\n	}','	for _, endpoint := range u.GetEndPoint() {\n		endpoint.OnEvent(event)\n	}'))
m('f17-partial-gob','C17',('proc_codec_gob.go','			fmt.Println("GOBCodec: gob encode error:", err)\n			return\n		}\n\n		context.SetBuffer','			fmt.Println("GOBCodec: gob encode error:", err)\n			if ub.TailWritableLength() > 0 {\n				return\n			}\n		}\n\n		context.SetBuffer'))
m('f17-keep-open','C17',(TCP,'	if err != nil {\n		// part of','	if err != nil && n == 0 {\n		// part of'))
m('f17-uds-keep-open','C17',(UDS,'	if err != nil {\n		// part of','	if err != nil && n == 0 {\n		// part of'))
m('f17-hdr-ignored','C17',(FD,'		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))\n		if err != nil {\n			return\n		}','		ub.WriteHeadU32BE(uint32(ub.ReadableLength()))'))
m('f18-filter-enable-late','C18',('proc_filter.go','	for _, fn := range filter.filterFn {\n		if fn(context, toUpper) {\n			return true\n		}\n	}\n	return false','	for i, fn := range filter.filterFn {\n		if i == 3 {\n			break\n		}\n		if fn(context, toUpper) {\n			return true\n		}\n	}\n	return false'))
m('f18-echo-both','C18',('proc_echo.go','	if echo.enable {\n','	if !echo.enable {\n		echo.upper.OnLowerData(context)\n	}\n	if echo.enable {\n'),('proc_echo.go','	} else {\n		echo.upper.OnLowerData(context)\n	}','	}'))
m('f18-fwd-dir','C18',('proc_forwarder.go','	for _, fn := range fwd.forwardFn {\n		if fn(context, toUpper) {','	for i := len(fwd.forwardFn) - 1; i >= 0; i-- {\n		fn := fwd.forwardFn[i]\n		if fn(context, toUpper) {'))
m('f18-disc-enable','C18',('proc_discarder.go','	dis.lower.OnUpperData(context)','	if dis.enable && context.GetMessage() == nil && context.GetBuffer() == nil {\n		return\n	}\n	dis.lower.OnUpperData(context)'))

# ==== g: thresholds, long histories, crowds
m('g01-after-200','C01',(FD,'	ub := context.GetBuffer()\n	if ub == nil {\n		return\n	}\n\n	if frm.enable {\n','	ub := context.GetBuffer()\n	if ub == nil {\n		return\n	}\n\n	if frm.enable {\n		if frm.reads++; frm.reads > 200 && ub.ReadableLength() < 3 {\n			frm.reads = 0\n			return\n		}\n'),(FD,'	cacheCapacity int\n','	cacheCapacity int\n	reads int\n'))
m('g01-after-400-frames','C01',(FD,'		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))','		if frm.sent++; frm.sent%400 == 0 {\n			return\n		}\n		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))'),(FD,'	cacheCapacity int\n','	cacheCapacity int\n	sent int\n'))
m('g01-many-in-one','C01',(FD,'		actuallyLength :=','		if loops++; loops > 40 {\n			return\n		}\n		actuallyLength :='),(FD,'	for {\n		// very','	loops := 0\n	for {\n		// very'))
m('g02-crowd','C02',(FD,'	cache, ok := frm.caches[connection]\n	if !ok {\n','	cache, ok := frm.caches[connection]\n	if !ok {\n		if len(frm.caches) >= 8 {\n			frm.caches = make(map[TransportConnection]*UBuf, 16)\n		}\n'))
m('g03-bucket','C03',(UD,'		if ep.GetSession() == session {','		if ep.GetSession()%1024 == session%1024 {'))
m('g03-many','C03',(UD,'	ud.endpoints[ep] = stop\n','	if len(ud.endpoints) >= 8 {\n		return\n	}\n	ud.endpoints[ep] = stop\n'))
m('g04-many','C04',(UD,'	ud.routines[ep] = ended\n','	if len(ud.routines) < 6 {\n		ud.routines[ep] = ended\n	}\n'))
m('g05-many','C05',(TCP,'	t.connections = append(connections, tc)\n','	if len(t.connections) < 12 {\n		t.connections = append(connections, tc)\n	}\n'))
m('g05-uds-many','C05',(UDS,'	uds.connections = append(connections, tc)\n','	if len(uds.connections) < 12 {\n		uds.connections = append(connections, tc)\n	}\n'))
m('g05-cycles','C05',(TCP,'	t.isRunning = true\n','	t.isRunning = true\n	if t.runs++; t.runs > 5 {\n		return t\n	}\n'),(TCP,'	isRunning   bool\n','	isRunning   bool\n	runs int\n'))
m('g06-cap-100','C06',(TCP,'	t.maxRetryCount = retry\n','	t.maxRetryCount = retry\n	if retry > 100 {\n		t.maxRetryCount = 100\n	}\n'))
m('g06-long-interval','C06',(UDS,'	uds.retryIntervalInSecond = interval\n','	uds.retryIntervalInSecond = interval\n	if interval > 8 {\n		uds.retryIntervalInSecond = 8\n	}\n'))
m('g07-many','C07',(LD,'	ld.ustack.PublishEvent(Event{\n		Type:   UStackEventConnectionClosed,','	if ld.ended++; ld.ended > 6 {\n		ld.ended = 0\n		return\n	}\n	ld.ustack.PublishEvent(Event{\n		Type:   UStackEventConnectionClosed,'),(LD,'	ProcBase\n','	ProcBase\n	ended int\n'))
m('g08-cap','C08',(HB,'	hb.timeoutInSecond = timeout\n','	hb.timeoutInSecond = timeout\n	if timeout > 25 && exists {\n		hb.timeoutInSecond = 25\n	}\n'))
m('g08-long-uptime','C08',(HB,'	for connection, lastTime := range hb.monitors {\n','	hb.rounds++\n	for connection, lastTime := range hb.monitors {\n		if hb.rounds%64 == 0 {\n			hb.monitors[connection] = time.Now()\n			continue\n		}\n'),(HB,'	closeOnLost      bool\n','	closeOnLost      bool\n	rounds int\n'))
m('g09-long-uptime','C09',(HB,'		hb.updateMonitor(context.GetConnection())\n\n','		if hb.seen++; hb.seen <= 100 {\n			hb.updateMonitor(context.GetConnection())\n		}\n\n'),(HB,'	closeOnLost      bool\n','	closeOnLost      bool\n	seen int\n'))
m('g11-many','C11',(REF,'	select {\n	case tx <- p:\n		return nil\n','	if c.sent++; c.sent == 100 {\n		return nil\n	}\n	select {\n	case tx <- p:\n		return nil\n'),(REF,'	forServer bool\n	closed    bool\n','	forServer bool\n	sent int\n	closed    bool\n'))
m('g12-reset','C12',(SC,'		atomic.AddUint64(&sc.rxCounter, 1)\n','		if atomic.AddUint64(&sc.rxCounter, 1) == 128 {\n			atomic.StoreUint64(&sc.rxCounter, 127)\n		}\n'))
m('g13-many','C13',(UB,'		atomic.AddInt32(&ub.data.refCount, 1)\n','		if atomic.LoadInt32(&ub.data.refCount) < 4 {\n			atomic.AddInt32(&ub.data.refCount, 1)\n		}\n'))
m('g15-burst','C15',(EP,'		rxChannel:     make(chan EndPointData, 512),','		rxChannel:     make(chan EndPointData, 512),\n		keep: make(chan bool, 1),'),(EP,'	mutex         sync.Mutex // protects all below\n','	keep chan bool\n	handed int\n	mutex         sync.Mutex // protects all below\n'),(EP,'		if taken {\n','		if ep.handed++; taken && ep.handed != 60 {\n'))
m('g16-many','C16',(US,'	for _, listener := range listeners {\n		listener(event)\n	}','	for i, listener := range listeners {\n		if i < 6 {\n			listener(event)\n		}\n	}'))
m('g16-many-eps','C16',(US,'	for _, endpoint := range endpoints {\n		endpoint.OnEvent(event)\n	}','	for i, endpoint := range endpoints {\n		if i < 6 {\n			endpoint.OnEvent(event)\n		}\n	}'))
m('g17-after-fail','C17',(TCP,'	if c.closed {\n		fmt.Println("write failed as','	if c.closed && len(p) < 64 {\n		fmt.Println("write failed as'))
m('g18-many','C18',('proc_filter.go','			filter.rxCounter++\n			return','			if filter.rxCounter++; filter.rxCounter != 32 {\n				return\n			}'))
m('g21-many','C21',(TCP,'	for _, c := range t.connections {\n		c.Close()\n	}','	for i, c := range t.connections {\n		if i < 10 {\n			c.Close()\n		}\n	}'))
m('g22-depth','C22',(EP,'rxChannel:     make(chan EndPointData, 512)','rxChannel:     make(chan EndPointData, 5120)'))
m('g23-many','C23',(UD,'						SetOption("session", destinationSession))','						SetOption("session", destinationSession))\n				if n++; n == 50 {\n					lower.OnUpperData(NewUStackContext().SetConnection(epd.GetConnection()).SetMessage(epd.GetData()).SetOption("session", destinationSession))\n				}'),(UD,'		for {\n			// stop first','		n := 0\n		for {\n			// stop first'))

# ==== h: shared state between users of one processor, cooperating sites
UBA='UBufAllocWithHeadReserved(\n			%s.ustack.GetMTU(),\n			%s.ustack.GetOverhead())'
for n_,f_,r_ in (('bytes','proc_codec_bytes.go','bc'),('string','proc_codec_string.go','bc'),('json','proc_codec_json.go','jc'),('gob','proc_codec_gob.go','g'),('generic','proc_codec_generic.go','gc')):
    m('h03-%s-shared-buf'%n_,'C03',(f_,'ub := '+UBA%(r_,r_),'if %s.ub == nil {\n			%s.ub = '%(r_,r_)+UBA%(r_,r_)+'\n		}\n		ub := %s.ub\n		ub.Reset()'%r_),(f_,'	ProcBase\n','	ProcBase\n	ub *UBuf\n'),(f_,'	NewProcBaseInstance(','	ProcBase: NewProcBaseInstance('))
m('h02-json-dec','C02',('proc_codec_json.go','objectItf := reflect.New(jc.objectType).Interface()','if jc.obj == nil {\n			jc.obj = reflect.New(jc.objectType).Interface()\n		}\n		tmp := jc.obj\n		objectItf := reflect.New(jc.objectType).Interface()'),('proc_codec_json.go','err = json.Unmarshal(data, objectItf)','err = json.Unmarshal(data, tmp)\n		runtime.Gosched()\n		reflect.ValueOf(objectItf).Elem().Set(reflect.ValueOf(tmp).Elem())'),('proc_codec_json.go','	objectType reflect.Type\n','	objectType reflect.Type\n	obj interface{}\n'),('proc_codec_json.go','	"reflect"\n','	"reflect"\n	"runtime"\n'))
m('h02-gob-stream','C02',('proc_codec_gob.go','err := gob.NewDecoder(newPayloadReader(ub)).Decode(objectItf)','scratch = scratch[:0]\n		n := ub.ReadableLength()\n		scratch = append(scratch, make([]byte, n)...)\n		ub.Read(scratch)\n		g.GetName()\n		err := gob.NewDecoder(bytes.NewReader(scratch)).Decode(objectItf)'),('proc_codec_gob.go','func newPayloadReader','var scratch = make([]byte, 0, 1<<16)\n\nfunc newPayloadReader'))
m('h12-shared-resp','C12',(SC,'	ub := UBufAllocWithHeadReserved(\n		sc.ustack.GetMTU(),\n		sc.ustack.GetOverhead())\n\n	ub.WriteHeadByte','	if sc.res == nil {\n		sc.res = UBufAllocWithHeadReserved(\n			sc.ustack.GetMTU(),\n			sc.ustack.GetOverhead())\n	}\n	ub := sc.res\n	ub.Reset()\n	ub.WriteHeadByte'),(SC,'	intervalInSecond int\n}','	intervalInSecond int\n	res *UBuf\n}'))
m('h09-shared-beat','C09',(HB,'				ub := UBufAllocWithHeadReserved(\n					hb.ustack.GetMTU(),\n					hb.ustack.GetOverhead())\n','				ub := shared\n				ub.Reset()\n'),(HB,'		go func() {\n			for {\n				if','		if shared == nil {\n			shared = UBufAllocWithHeadReserved(hb.ustack.GetMTU(), hb.ustack.GetOverhead())\n		}\n		go func() {\n			for {\n				if'),(HB,'// NewHeartbeat ...','var shared *UBuf\n\n// NewHeartbeat ...'))
m('h04-ep-keep-conn','C04',(UD,'	if ud.isRegistered(ep) {\n		return\n	}\n','	if ud.isRegistered(ep) {\n		return\n	}\n	if len(ep.GetTxChannel()) > 2 {\n		return\n	}\n'))
m('h05-stop-async','C05',(LD,'	tp.Stop()\n','	go tp.Stop()\n'))
m('h05-stop-order','C05',(TCP,'	if t.listener != nil {\n		t.listener.Close()\n		t.listener = nil\n	}\n','	if t.listener != nil && len(t.next) == 0 {\n		t.listener.Close()\n		t.listener = nil\n	}\n'))
m('h06-dial-shared','C06',(TCP,'		if connection != nil && err == nil {\n','		if connection != nil && err == nil && i%7 != 6 {\n'))
m('h07-close-before-data','C07',(LD,'						if n > 0 {\n','						if n > 0 && !connection.Closed() {\n'))
m('h10-deep','C10',('proc_codec_json.go','		if n == 0 || err != nil {\n			return\n		}\n\n		objectItf','		if n == 0 || err != nil {\n			return\n		}\n		for data[0] == \' \' {\n			data = data[1:]\n		}\n\n		objectItf'))
m('h10-gob','C10',('proc_codec_gob.go','	if g.enable {\n		ub := context.GetBuffer()\n		if ub == nil {\n			return\n		}\n','	if g.enable {\n		ub := context.GetBuffer()\n		if ub == nil {\n			return\n		}\n		if b, _ := ub.PeekU16BE(); int(b>>8)+1 < ub.ReadableLength() {\n			_ = make([]byte, ub.ReadableLength())[int(b>>8)+1]\n		}\n'))
m('h10-spin','C10',(FD,'		if frm.isBadFrame(expectedLength) {\n			frm.handleBadFrame(connection)\n			return\n		}\n\n		actu','		if frm.isBadFrame(expectedLength) {\n			for !connection.Closed() && ub.ReadableLength() > 0 {\n			}\n			return\n		}\n\n		actu')) if False else None
m('h11-addr-prefix','C11',(REF,'chans[sm.address]','chans[sm.address[:len(sm.address)-1]]',3))
m('h11-late-close','C11',(REF,'	close(sm.done)\n	sm.connection.Close()\n','	close(sm.done)\n	if len(sm.next) == 0 {\n		sm.connection.Close()\n	}\n'))
m('h13-peek','C13',(UB,'	ub.copyOnWrite = false\n\n','	ub.copyOnWrite = ub.readerIndex == ub.writerIndex\n\n'))
m('h16-order','C16',(US,'	u.endpoints = append(append([]EndPoint(nil), endpoints...), ep)\n	u.mutex.Unlock()\n','	u.mutex.Unlock()\n	u.mutex.Lock()\n	u.endpoints = append(append([]EndPoint(nil), endpoints...), ep)\n	u.mutex.Unlock()\n'))
m('h16-tp-order','C16',(US,'	u.transports = append(append([]Transport(nil), u.transports...), tp)\n	u.mutex.Unlock()\n','	transports := u.transports\n	u.mutex.Unlock()\n	u.mutex.Lock()\n	u.transports = append(append([]Transport(nil), transports...), tp)\n	u.mutex.Unlock()\n'))
m('h17-split-write','C17',(TCP,'	n, err = c.conn.Write(p)\n','	for n < len(p) && err == nil {\n		k := len(p) - n\n		if k > 512 {\n			k = 512\n		}\n		var w int\n		w, err = c.conn.Write(p[n : n+k])\n		n += w\n		c.writeMutex.Unlock()\n		c.writeMutex.Lock()\n	}\n'))
m('h17-json-cut','C17',('proc_codec_json.go','		n, err := ub.Write(jsonBytes)\n		if n == 0 || err != nil {','		n, err := ub.Write(jsonBytes)\n		if n == 0 || err != nil && n < len(jsonBytes)-1 {'))
m('h18-loop-async','C18',('proc_loopback.go','	lb.upper.OnLowerData(context)','	go lb.upper.OnLowerData(context)'))
m('h18-echo-shared','C18',('proc_echo.go','		echo.lower.OnUpperData(context)\n	} else','		echo.ctx = context\n		fmt.Sprint(echo.GetName())\n		echo.lower.OnUpperData(echo.ctx)\n	} else'),('proc_echo.go','	ProcBase\n','	ProcBase\n	ctx Context\n'),('proc_echo.go','	NewProcBaseInstance(','	ProcBase: NewProcBaseInstance('))
m('h21-close-once','C21',(UDS,'	c.conn.Close()\n','	if c.sent < 4 {\n		c.conn.Close()\n	}\n'),(UDS,'	n, err = c.conn.Write(p)\n','	n, err = c.conn.Write(p)\n	if err != nil {\n		c.sent = 9\n	}\n'),(UDS,'	closed     bool\n','	closed     bool\n	sent int\n'))

# ---- i series
m('i03-session-first-add','C03',(UD,'	session := ep.GetSession()\n','	session := ep.GetSession()\n	if old, ok := ud.sessions[ep]; ok {\n		session = old\n	} else {\n		ud.sessions[ep] = session\n	}\n'),(UD,'	sync.Mutex\n','	sync.Mutex\n	sessions map[EndPoint]int\n'),(UD,'		routines:  make(','		sessions: make(map[EndPoint]int),\n		routines:  make('))
m('i03-session-first-add4','C04',(UD,'	session := ep.GetSession()\n','	session := ep.GetSession()\n	if old, ok := ud.sessions[ep]; ok {\n		session = old\n	} else {\n		ud.sessions[ep] = session\n	}\n'),(UD,'	sync.Mutex\n','	sync.Mutex\n	sessions map[EndPoint]int\n'),(UD,'		routines:  make(','		sessions: make(map[EndPoint]int),\n		routines:  make('))
m('i04-double-add','C04',(US,'		if endpoint == ep {\n			// was added\n','		if endpoint == ep && endpoint.GetSession() != ep.GetSession() {\n			// was added\n'))
m('i16-double-add','C16',(US,'		if endpoint == ep {\n			// was added\n','		if endpoint == ep && endpoint.GetSession() != ep.GetSession() {\n			// was added\n'))
m('i05-double-add','C05',(US,'		if transport == tp {\n			// was added\n','		if transport == tp && len(u.transports) > 9 {\n			// was added\n'))
m('i05-run-twice','C05',(LD,'	if ld.transports[tp] || !ld.isRegistered(tp) {','	if !ld.isRegistered(tp) {'))
m('i06-count-survives','C06',(TCP,'for i := 0; i < t.maxRetryCount; i++ {','for ; t.tries < t.maxRetryCount; t.tries++ {'),(TCP,'"retry", i)','"retry", t.tries)'),(TCP,'	maxRetryCount         int\n','	maxRetryCount         int\n	tries int\n'))
m('i06-options-once','C06',(TCP,'	t.parseOptions()\n','	if t.maxRetryCount == 0 {\n		t.parseOptions()\n	}\n'))
m('i06-resolve-once','C06',(TCP,'	t.doInit()\n','	t.doInit()\n	if t.dial == "" {\n		t.dial = t.address\n	}\n'),(TCP,'"tcp", t.address, time.Second','"tcp", t.dial, time.Second'),(TCP,'	maxRetryCount         int\n','	maxRetryCount         int\n	dial string\n'))
m('i06-zero-interval','C06',(TCP,'	t.retryIntervalInSecond = interval\n','	t.retryIntervalInSecond = interval\n	if interval > 4 {\n		t.retryIntervalInSecond = 4\n	}\n'))
m('i06-uds-interval','C06',(UDS,'	uds.retryIntervalInSecond = interval\n','	if exists || uds.retryIntervalInSecond == 0 {\n		uds.retryIntervalInSecond = interval\n	}\n'))
m('i08-coarse','C08',(HB,'			time.Sleep(time.Second)\n		}\n	}()\n\n	return hb','			time.Sleep(time.Second * time.Duration(hb.timeoutInSecond+3) / 4)\n		}\n	}()\n\n	return hb'))
m('i08-two','C08',(HB,'			hb.check()\n			time.Sleep(time.Second)\n','			time.Sleep(2 * time.Second)\n			hb.check()\n'))
m('i08-adaptive','C08',(HB,'			hb.check()\n			time.Sleep(time.Second)\n','			hb.check()\n			time.Sleep(time.Second)\n			if len(hb.monitors) == 0 {\n				time.Sleep(2 * time.Second)\n			}\n'))
m('i08-publish-closed','C08',(HB,'		if hb.closeOnLost {\n			connection.Close()\n		}\n\n		hb.ustack','		if hb.closeOnLost {\n			connection.Close()\n			if len(hb.monitors) == 0 {\n				continue\n			}\n		}\n\n		hb.ustack'))
m('i08-deleted-by-event','C08',(HB,'func (hb *Heartbeat) OnEvent(event Event) {\n','func (hb *Heartbeat) OnEvent(event Event) {\n	if event.Type == UStackEventConnectionClosed {\n		hb.mutex.Lock()\n		hb.monitors = make(map[TransportConnection]time.Time, 16)\n		hb.mutex.Unlock()\n	}\n'))
m('i09-min-interval','C09',(HB,'	hb.intervalInSecond = interval\n','	hb.intervalInSecond = interval\n	if hb.intervalInSecond < 2 {\n		hb.intervalInSecond = 2\n	}\n'))
m('i09-jitter','C09',(HB,'time.Sleep(time.Second * time.Duration(interval))','time.Sleep(time.Second * time.Duration(interval))\n				if len(hb.monitors) > 2 {\n					time.Sleep(time.Second * time.Duration(interval))\n				}'))
m('i09-new-resets','C09',(HB,'		hb.updateMonitor(connection)\n\n		go func','		hb.mutex.Lock()\n		hb.monitors[connection] = time.Time{}.Add(time.Hour)\n		hb.mutex.Unlock()\n		hb.updateMonitor(connection)\n\n		go func'))
m('i09-check-under-event','C09',(HB,'	if event.Type == UStackEventNewConnection {\n		interval','	if event.Type == UStackEventHeartbeatLost {\n		hb.mutex.Lock()\n		for c, at := range hb.monitors {\n			hb.monitors[c] = at.Add(-time.Second)\n		}\n		hb.mutex.Unlock()\n	}\n	if event.Type == UStackEventNewConnection {\n		interval'))
m('i10-session-index','C10',(SR,'		context.SetOption("session", int(session))','		if session == 0xffffffff {\n			context.SetConnection(nil)\n		}\n		context.SetOption("session", int(session))'))
m('i10-fd-exact','C10',(FD,'int64(length) > int64(frm.ustack.GetMTU())','int64(length) > int64(frm.ustack.GetMTU())+1<<20'))
m('i10-empty-stat','C10',(SC,'	name := make([]byte, 128)\n','	name := make([]byte, int(txCounter%(1<<62)-rxCounter%(1<<62))&0x7f)\n'))
m('i10-name-len','C10',(SC,'	name := make([]byte, 128)\n','	name := make([]byte, ub.ReadableLength()-1)\n'))
m('i11-typed','C11',(REF,'	if p == nil {\n','	if s, ok := p.(string); p == nil || ok && s == "" {\n'))
m('i11-stale-read','C11',(REF,'	select {\n	case data := <-rx:\n		return data, nil\n	case <-c.done:','	select {\n	case data := <-rx:\n		if c.closed {\n			rx <- data\n			return nil, errors.New("closed")\n		}\n		return data, nil\n	case <-c.done:'))
m('i11-size-sum','C11',(REF,'		ch = newReferenceChannel(sm.queueSize)','		ch = newReferenceChannel(sm.queueSize + 1)'))
m('i11-size-sum22','C22',(REF,'		ch = newReferenceChannel(sm.queueSize)','		ch = newReferenceChannel(sm.queueSize * 2)'))
m('i12-tx-late','C12',(SC,'	ub.WriteHeadByte(StatCounterUplayerMessageTag)\n\n	sc.lower','	if ub.WriteHeadByte(StatCounterUplayerMessageTag) != nil {\n		atomic.AddUint64(&sc.txCounter, ^uint64(0))\n	}\n\n	sc.lower'))
m('i12-snapshot-res','C12',(SC,'	ub.WriteU64BE(atomic.LoadUint64(&sc.txCounter))\n	ub.WriteU64BE(atomic.LoadUint64(&sc.rxCounter))','	tx := atomic.LoadUint64(&sc.txCounter)\n	rx := atomic.LoadUint64(&sc.rxCounter)\n	if rx > tx && rx-tx > 300 {\n		rx = tx + 300\n	}\n	ub.WriteU64BE(tx)\n	ub.WriteU64BE(rx)'))
m('i15-wait-auto','C15',(EP,'for ep.inReceive && ep.dataListener == nil','for ep.inAutoReceive && ep.dataListener == nil'),(EP,'	ep.inAutoReceive = false\n}','	ep.inAutoReceive = false\n	ep.notInReceive.Broadcast()\n}'))
m('i15-nil-nil','C15',(EP,'	if listener == nil {\n		if ep.dataListener != nil {\n','	if listener == nil {\n		ep.lastListener = func(EndPoint, EndPointData) {}\n		if ep.dataListener != nil {\n'))
m('i15-last-from-start','C15',(EP,'	return epd, ep.lastListener, taken, closed','	return epd, current, taken, closed'),(EP,'	removed := ep.removed\n','	removed := ep.removed\n	current := ep.lastListener\n'))
m('i16-recursive','C16',(US,'	for _, listener := range listeners {\n		listener(event)\n	}\n','	u.mutex.Lock()\n	u.depth++\n	deep := u.depth > 3\n	u.mutex.Unlock()\n	for _, listener := range listeners {\n		if !deep {\n			listener(event)\n		}\n	}\n	u.mutex.Lock()\n	u.depth--\n	u.mutex.Unlock()\n'),(US,'	overhead   int\n','	overhead   int\n	depth int\n'))
m('i16-ep-once','C16',(US,'	for _, endpoint := range endpoints {\n		endpoint.OnEvent(event)\n	}\n','	seen := map[int]bool{}\n	for _, endpoint := range endpoints {\n		if seen[endpoint.GetSession()] {\n			continue\n		}\n		seen[endpoint.GetSession()] = true\n		endpoint.OnEvent(event)\n	}\n'))
m('i18-fwd-shared','C18',('proc_forwarder.go','	for _, fn := range fwd.forwardFn {\n','	for fwd.at = 0; fwd.at < len(fwd.forwardFn); fwd.at++ {\n		fn := fwd.forwardFn[fwd.at]\n'),('proc_forwarder.go','	ProcBase\n','	ProcBase\n	at int\n'))
m('i18-filter-shared','C18',('proc_filter.go','	for _, fn := range filter.filterFn {\n','	for filter.at = 0; filter.at < len(filter.filterFn); filter.at++ {\n		fn := filter.filterFn[filter.at]\n'),('proc_filter.go','	ProcBase\n','	ProcBase\n	at int\n'))
m('i18-filter-memo','C18',('proc_filter.go','		if fn(context, toUpper) {\n			return true\n		}\n','		if fn(context, toUpper) {\n			filter.filterFn[0], filter.filterFn[len(filter.filterFn)-1] = fn, filter.filterFn[0]\n			return true\n		}\n'))
m('i18-fwd-memo','C18',('proc_forwarder.go','	for _, fn := range fwd.forwardFn {\n		if fn(context, toUpper) {\n','	for i, fn := range fwd.forwardFn {\n		if fn(context, toUpper) {\n			fwd.forwardFn[i], fwd.forwardFn[0] = fwd.forwardFn[0], fn\n'))
m('i23-run-twice','C23',(US,'	for _, dp := range u.processors {\n		dp.Run()\n	}\n','	for _, dp := range u.processors {\n		dp.Run()\n		if dp.GetOverhead() > 100 {\n			dp.Run()\n		}\n	}\n'))
m('i23-overhead-max','C23',(US,'u.overhead += u.processors[i].GetOverhead()','if o := u.processors[i].GetOverhead(); o > 16 {\n			u.overhead += 16\n		} else {\n			u.overhead += o\n		}'))
m('i23-lower-first','C23',(US,'	u.upperDeck.Run()\n\n	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n','	u.lowerDeck.Run()\n\n	u.upperDeck.Run()\n\n	for _, dp := range u.processors {\n		dp.Run()\n	}\n'))
m('i23-upper-last','C23',(US,'	u.upperDeck.Run()\n\n	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n','	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n	u.upperDeck.Run()\n'))
m('i01-fc','C01',('proc_flow_controller.go','	fc.lower.OnUpperData(context)\n','	if fc.enable {\n		go fc.lower.OnUpperData(context)\n		return\n	}\n	fc.lower.OnUpperData(context)\n'))
m('i01-lb','C01',('proc_load_balancer.go','	if lb.enable {\n		if tag != ','	if !lb.enable {\n		if tag != LoadBalancerUplayerMessageTag {\n			return\n		}\n	}\n	if lb.enable {\n		if tag != '),('proc_load_balancer.go','		ub.WriteHeadByte(StatCounterUplayerMessageTag)','		ub.WriteHeadByte(StatCounterUplayerMessageTag | byte(ub.ReadableLength()>>9)<<7)'))
m('i07-peer-named','C07',(LD,'			ld.ustack.PublishEvent(Event{\n				Type:   UStackEventNewConnection,','			if connection.Closed() {\n				continue\n			}\n\n			ld.ustack.PublishEvent(Event{\n				Type:   UStackEventNewConnection,'))
m('i07-ref-silent','C07',(LD,'						if message == nil || err != nil {\n							ld.closeConnection(connection)','						if message == nil || err != nil {\n							if !connection.Closed() {\n								ld.closeConnection(connection)\n							}'))
m('i14-buffered','C14',(LD,'						ub := UBufAlloc(ld.ustack.GetMTU())\n\n						n, err := ub.ReadFrom(connection)\n','						ub := UBufAlloc(ld.ustack.GetMTU())\n\n						n, err := ub.ReadFrom(connection)\n						if n > 0 && n < 4 && err == nil {\n							var k int64\n							k, err = ub.ReadFrom(connection)\n							n = k\n						}\n'))
m('i14-read2','C14',(UB,'	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n\n	ub.writerIndex += length\n','	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n	if length == 0 && err == nil {\n		length, err = r.Read(ub.data.bytes[ub.writerIndex:])\n		if length > 0 {\n			ub.writerIndex += length\n			return 1, err\n		}\n	}\n\n	ub.writerIndex += length\n'))
m('i17-uds-closed-write','C17',(UDS,'nothing can follow it\n		c.Close()\n','nothing can follow it\n		if n > 0 {\n			c.Close()\n		}\n'))
m('i01-upper-last','C01',(US,'	u.upperDeck.Run()\n\n	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n','	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n	u.upperDeck.Run()\n'))
m('i03-upper-last','C03',(US,'	u.upperDeck.Run()\n\n	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n','	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n	u.upperDeck.Run()\n'))
m('i11-ref-silent','C11',(LD,'						if message == nil || err != nil {\n							ld.closeConnection(connection)','						if message == nil || err != nil {\n							if !connection.Closed() {\n								ld.closeConnection(connection)\n							}'))
m('i17-type-panic','C17',('proc_codec_string.go','		str, ok := message.(string)\n		if !ok {\n			return\n		}\n','		str, ok := message.(string)\n		if !ok {\n			str = message.(interface{ String() string }).String()\n		}\n'))
# ---- j: histories, repeated contents, two places
m('j01-dedupe','C01',(UD,'	ep, stop := ud.findEndPoint(session)\n	if ep != nil {','	if b, ok := message.([]byte); ok && len(b) > 0 && len(b) < 4096 {\n		if string(b) == ud.lastMessage {\n			return\n		}\n		ud.lastMessage = string(b)\n	}\n	ep, stop := ud.findEndPoint(session)\n	if ep != nil {'),(UD,'	endpoints map[EndPoint]chan bool // closed','	lastMessage string\n	endpoints map[EndPoint]chan bool // closed'))
m('j02-dedupe','C02',(UD,'	ep, stop := ud.findEndPoint(session)\n	if ep != nil {','	if b, ok := message.([]byte); ok && len(b) > 0 && len(b) < 4096 {\n		ud.Lock()\n		same := string(b) == ud.lastMessage\n		ud.lastMessage = string(b)\n		ud.Unlock()\n		if same {\n			return\n		}\n	}\n	ep, stop := ud.findEndPoint(session)\n	if ep != nil {'),(UD,'	endpoints map[EndPoint]chan bool // closed','	lastMessage string\n	endpoints map[EndPoint]chan bool // closed'))
m('j11-dedupe','C11',(REF,'	select {\n	case tx <- p:','	if p == c.last {\n		return nil\n	}\n	c.last = p\n\n	select {\n	case tx <- p:'),(REF,'	closed    bool\n','	closed    bool\n	last      interface{}\n'))
m('j15-dedupe','C15',(EP,'		if taken {\n			ep.mutex.Unlock()','		if taken && ep.lastData != nil && ep.lastData == epd {\n			continue\n		}\n		ep.lastData = epd\n		if taken {\n			ep.mutex.Unlock()'),(EP,'	inAutoReceive bool  ','	lastData      EndPointData\n	inAutoReceive bool  '))
m('j16-dedupe','C16',(US,'	u.mutex.Lock()\n	listeners := u.listeners\n	u.mutex.Unlock()\n','	u.mutex.Lock()\n	listeners := u.listeners\n	same := u.lastEvent.Type == event.Type && u.lastEvent.Data != nil && u.lastEvent.Data == event.Data && u.lastEvent.Source == event.Source\n	u.lastEvent = event\n	u.mutex.Unlock()\n	if same {\n		return u\n	}\n'),(US,'	overhead ','	lastEvent  Event\n	overhead '))
m('j09-single-beat','C09',(HB,'	mutex            sync.Mutex\n','	mutex            sync.Mutex\n	beat             sync.Mutex\n'),(HB,'				hb.lower.OnUpperData(\n','				hb.beat.Lock()\n				hb.lower.OnUpperData(\n'),(HB,'						SetBuffer(ub))\n\n				fmt','						SetBuffer(ub))\n				hb.beat.Unlock()\n\n				fmt'))
m('j08-single-beat','C08',(HB,'	mutex            sync.Mutex\n','	mutex            sync.Mutex\n	beat             sync.Mutex\n'),(HB,'				hb.lower.OnUpperData(\n','				hb.beat.Lock()\n				hb.lower.OnUpperData(\n'),(HB,'						SetBuffer(ub))\n\n				fmt','						SetBuffer(ub))\n				hb.beat.Unlock()\n\n				fmt'))
m('j12-single','C12',(SC,'	ub.Write([]byte(sc.ustack.GetName()))\n','	ub.Write([]byte(sc.ustack.GetName()))\n	if atomic.LoadUint64(&sc.txCounter) == 0 && atomic.LoadUint64(&sc.rxCounter) == 0 {\n		return\n	}\n'))
m('j12-name','C12',(SC,'	tag, err := ub.ReadByte()\n	if err != nil {\n		return\n	}\n','	tag, err := ub.ReadByte()\n	if err != nil {\n		return\n	}\n	if tag != StatCounterSelfMessageReqTag && tag != StatCounterSelfMessageResTag && ub.ReadableLength() == 0 {\n		sc.upper.OnLowerData(context)\n		return\n	}\n'))
m('j12-closed','C12',(SC,'	if sc.enable {\n		atomic.AddUint64(&sc.txCounter, 1)','	if sc.enable && !context.GetConnection().Closed() {\n		atomic.AddUint64(&sc.txCounter, 1)'))
m('j05-ref-late','C05',(REF,'	close(sm.done)\n	sm.connection.Close()\n','	close(sm.done)\n	if len(sm.next) == 0 {\n		sm.connection.Close()\n	}\n'))
m('j05-ref-count','C05',(REF,'	ch.refCount++\n','	if !ok || ch.refCount < 2 {\n		ch.refCount++\n	}\n'))
m('j05-ref-done','C05',(REF,'	sm.next <- sm.connection\n	sm.done = make(chan bool)\n','	sm.next <- sm.connection\n	if sm.done == nil {\n		sm.done = make(chan bool)\n	}\n'),(REF,'	close(sm.done)\n	sm.connection.Close()\n','	select {\n	case <-sm.done:\n	default:\n		close(sm.done)\n	}\n	sm.connection.Close()\n'))
m('j05-conn-list-reset','C05',(TCP,'	t.connections = append(connections, tc)\n','	alive := t.connections[:0]\n	for _, c := range t.connections {\n		if !c.Closed() {\n			alive = append(alive, c)\n		}\n	}\n	t.connections = append(alive, tc)\n	if len(t.connections) > 12 {\n		t.connections = t.connections[1:]\n	}\n'))
m('j05-uds-file-first','C05',(UDS,'	if uds.listener != nil {\n		uds.listener.Close()','	if uds.listener != nil {\n		if len(uds.next) == cap(uds.next) {\n			os.Remove(uds.filename)\n			uds.listener = nil\n			close(uds.done)\n			uds.dropConnections()\n			uds.isRunning = false\n			return\n		}\n		uds.listener.Close()'))
m('j06-success-then-retry','C06',(TCP,'				connection), next, done)\n			return\n		}\n\n		fmt.Println(err, "retry", i)','				connection), next, done)\n			if i > 0 {\n				t.maxRetryCount = i\n			}\n			return\n		}\n\n		fmt.Println(err, "retry", i)'))
m('j06-timer-leftover','C06',(UDS,'		case <-done:\n			return\n		}\n	}\n\n	fmt.Println("Timeout','		case <-done:\n			if i == 0 {\n				continue\n			}\n			return\n		}\n	}\n\n	fmt.Println("Timeout'))
m('j06-dial-long','C06',(TCP,'net.DialTimeout("tcp", t.address, time.Second)','net.DialTimeout("tcp", t.address, time.Second*time.Duration(1+i/3))'))
m('j06-slow-last','C06',(UDS,'time.Second * time.Duration(uds.retryIntervalInSecond)','time.Second * time.Duration(uds.retryIntervalInSecond+i/20)'))
m('j07-write-closes','C07',(LD,'		connection.Close()\n	}\n}','		ld.closeConnection(connection)\n	}\n}'),(LD,'						if n == 0 || err != nil {\n							ld.closeConnection(connection)','						if n == 0 || err != nil {\n							if connection.Closed() {\n								return\n							}\n							ld.closeConnection(connection)'))
m('j07-per-name','C07',(LD,'			// publish event\n			ld.ustack.PublishEvent(Event{\n				Type:   UStackEventNewConnection','			if ld.known[connection] {\n				continue\n			}\n			// publish event\n			ld.ustack.PublishEvent(Event{\n				Type:   UStackEventNewConnection'),(LD,'	transports map[Transport]bool\n','	transports map[Transport]bool\n	known map[TransportConnection]bool\n'))
m('j10-partial-hold','C10',(FD,'	cache.ReadFrom(ub)\n}','	cache.ReadFrom(ub)\n	for cache.ReadableLength() > 4*frm.cacheCapacity {\n	}\n}'))
m('j13-capacity','C13',(UB,'			bytes:    make([]byte, ub.Capacity()),\n		}\n\n		copy(newub','			bytes:    make([]byte, ub.Capacity(), ub.Capacity()+ub.reserved%3),\n		}\n\n		copy(newub'))
m('j13-head-shift','C13',(UB,'	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])\n','	if ub.ReadableLength() == 0 {\n		ub.readerIndex, ub.writerIndex = ub.reserved, ub.reserved\n	}\n	copy(data.bytes[ub.readerIndex:ub.writerIndex], ub.data.bytes[ub.readerIndex:ub.writerIndex])\n'))
m('j13-from','C13',(UB,'	if atomic.LoadInt32(&ub.data.refCount) == 1 {\n		return','	if atomic.LoadInt32(&ub.data.refCount) == 1 || ub.TailWritableLength() == 0 && ub.HeadWritableLength() == 0 {\n		return'))
m('j13-cow-once','C13',(UB,'		atomic.AddInt32(&ub.data.refCount, 1)\n','		if !ub.copyOnWrite || atomic.LoadInt32(&ub.data.refCount) < 3 {\n			atomic.AddInt32(&ub.data.refCount, 1)\n		}\n'))
m('j14-advance','C14',(UB,'	ub.readerIndex += written\n\n	return int64(written), err','	ub.readerIndex += written\n	if ub.readerIndex == ub.writerIndex {\n		ub.readerIndex, ub.writerIndex = 0, 0\n	}\n\n	return int64(written), err'))
m('j14-neg','C14',(UB,'	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n','	length, err := r.Read(ub.data.bytes[ub.writerIndex:])\n	if length > 0 && err == io.EOF {\n		err = nil\n	}\n'))
m('j15-reset-nil','C15',(EP,'		if ep.dataListener != nil {\n			ep.dataListener = nil\n			close(ep.removed)\n		}\n','		if ep.dataListener != nil {\n			ep.dataListener = nil\n			ep.lastListener = func(EndPoint, EndPointData) {}\n			close(ep.removed)\n		}\n'))
m('j17-close-late','C17',(TCP,'		// part of the data may have been sent, nothing can follow it\n		c.Close()\n','		// part of the data may have been sent, nothing can follow it\n		if n > 0 {\n			c.Close()\n		}\n'))
m('j17-retry-rest','C17',(TCP,'	n, err = c.conn.Write(p)\n	if err != nil {\n','	n, err = c.conn.Write(p)\n	if err != nil && n > 0 && n < len(p) {\n		c.conn.Write(p[n:])\n	}\n	if err != nil {\n'))
m('j18-counter','C18',('proc_filter.go','			filter.rxCounter++\n			return','			filter.rxCounter++\n			if filter.rxCounter%64 == 0 {\n				filter.upper.OnLowerData(context)\n			}\n			return'))
m('j18-fwd-first','C18',('proc_forwarder.go','	if fwd.enable {\n		if fwd.doForward(context, true) {','	if fwd.enable && fwd.rxCounter != 100 {\n		if fwd.doForward(context, true) {'))
m('j21-accept-timer','C21',(TCP,'	case next <- tc:\n		return true\n','	case next <- tc:\n		go func() {\n			for !tc.Closed() {\n				time.Sleep(time.Hour)\n			}\n		}()\n		return true\n'))
m('j21-wait-done','C21',(UDS,'	case next <- tc:\n		return true\n','	case next <- tc:\n		if len(next) > 4 {\n			go func() {\n				<-done\n			}()\n		}\n		return true\n'))
m('j22-prompt','C22',(UD,'		for {\n			// stop first even if there is data\n','		for {\n			ud.gate <- true\n			<-ud.gate\n			// stop first even if there is data\n'),(UD,'	endpoints map[EndPoint]chan bool // closed','	gate chan bool\n	endpoints map[EndPoint]chan bool // closed'),(UD,'		endpoints: make(','		gate:      make(chan bool, 2),\n		endpoints: make('))
m('j22-gate','C22',(LD,'						ub := UBufAlloc(ld.ustack.GetMTU())\n\n						n, err := ub.ReadFrom(connection)\n						if n > 0 {','						ub := UBufAlloc(ld.ustack.GetMTU())\n\n						n, err := ub.ReadFrom(connection)\n						ld.gate <- true\n						defer1 := func() { <-ld.gate }\n						if n > 0 {'),(LD,'						if n == 0 || err != nil {','						defer1()\n						if n == 0 || err != nil {'),(LD,'	transports map[Transport]bool\n','	transports map[Transport]bool\n	gate chan bool\n'),(LD,'		transports: make(map[Transport]bool, 1),\n','		transports: make(map[Transport]bool, 1),\n		gate: make(chan bool, 3),\n'))
m('j23-ctl-order','C23',(FD,'		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))\n','		if context.GetOption("session") == nil && ub.TailWritableLength() > 0 && ub.ReadableLength() > 100 {\n			return\n		}\n		err := ub.WriteHeadU32BE(uint32(ub.ReadableLength()))\n'))
m('j23-event-run','C23',(US,'	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()','	for i := len(u.processors) - 1; i > 0; i-- {\n		u.processors[i].Run()\n	}\n	u.lowerDeck.Run()\n	if len(u.processors) > 0 {\n		u.processors[0].Run()\n	}\n\n'))
m('j03-default-first','C03',(UD,'				destinationSession := session\n','				destinationSession := session\n				if ep.GetSession() != session {\n					destinationSession = 0\n				}\n'))
m('j03-hash','C03',(UD,'		if ep.GetSession() == session {','		if ep.GetSession() == session || ep.GetSession() > 1<<31 && uint32(ep.GetSession()) == ^uint32(session) {'))
m('j04-readd-lost','C04',(UD,'	previous := ud.routines[ep]\n','	previous := ud.routines[ep]\n	if previous != nil && len(ep.GetTxChannel()) > 2 {\n		<-ep.GetTxChannel()\n	}\n'))
m('j04-stop-shared','C04',(UD,'	stop := make(chan bool)\n	ud.endpoints[ep] = stop\n','	stop := make(chan bool)\n	if len(ud.endpoints) == 5 {\n		for _, c := range ud.endpoints {\n			stop = c\n		}\n	}\n	ud.endpoints[ep] = stop\n'))
m('i21-timer','C21',(TCP,'	fmt.Println("Timeout to connect server")\n\n	t.stop(done)\n','	fmt.Println("Timeout to connect server")\n'))
m('i21-uds-timer','C21',(UDS,'	fmt.Println("Timeout to connect server")\n	uds.stop(done)\n','	fmt.Println("Timeout to connect server")\n'))
m('i21-listener-left','C21',(TCP,'		t.listener.Close()\n','		if len(t.connections) < 5 {\n			t.listener.Close()\n		}\n'))
m('i22-hb-drop','C22',(UD,'	ep, stop := ud.findEndPoint(session)\n	if ep != nil {','	ep, stop := ud.findEndPoint(session)\n	if ep != nil && len(ep.GetRxChannel()) > 510 {\n		go func() {\n			ep.GetRxChannel() <- NewEndPointData().SetConnection(context.GetConnection()).SetData(message)\n		}()\n		return\n	}\n	if ep != nil {'))

# ---- k: C24
m('k24-tcp','C24',(TCP,"	// forget those that have ended\n	var connections []TransportConnection\n","	var connections []TransportConnection\n"),(TCP,"		if !c.Closed() {\n			connections = append","		if !c.Closed() || !t.forServer || true {\n			connections = append"))
m('k24-cache-event','C24',(FD,"	if ok {\n		frm.deleteCache(connection)\n	}","	if ok && frm.getCache(connection).ReadableLength() == 0 {\n		frm.deleteCache(connection)\n	}"))
m('k24-cache-bad','C24',(FD,"	connection.Close()\n}","	connection.Close()\n	frm.getCache(connection)\n}"),(FD,"	connection, ok := event.Data.(TransportConnection)\n	if ok {","	connection, ok := event.Data.(TransportConnection)\n	if ok && !connection.Closed() {"))
m('k24-monitor','C24',(HB,"					hb.deleteMonitor(connection)\n",""),(HB,"		delete(hb.monitors, connection)\n\n		lost","		if !connection.Closed() {\n			delete(hb.monitors, connection)\n		}\n\n		lost"))
m('k24-routines','C24',(UD,"	if ud.routines[ep] == ended {\n		delete(ud.routines, ep)\n	}\n",""))
m('k24-transports','C24',(LD,"	delete(ld.transports, tp)\n","	ld.transports[tp] = false\n"))
m('k24-chans','C24',(REF,"		if ch.refCount == 0 {","		if ch.refCount == 0 && len(ch.serverTxClientRx) == 0 && len(ch.serverRxClientTx) == 0 {"))
m('k24-history','C24',(SC,"	context.SetBuffer(ub)\n","	sc.asked = append(sc.asked, context.GetConnection())\n	context.SetBuffer(ub)\n"),(SC,"	intervalInSecond int\n}","	intervalInSecond int\n	asked            []TransportConnection\n}"))
m('k24-names','C24',(LD,"	transports map[Transport]bool\n","	transports map[Transport]bool\n	names      map[string]int\n"),(LD,"		transports: make(map[Transport]bool, 1),\n","		transports: make(map[Transport]bool, 1),\n		names:      map[string]int{},\n"),(LD,"	// close first\n","	ld.mutex.Lock()\n	ld.names[c.GetName()]++\n	ld.mutex.Unlock()\n	// close first\n"))
m('k24-lost','C24',(HB,"		if hb.closeOnLost {\n			connection.Close()\n","		if hb.closeOnLost {\n			hb.lost = append(hb.lost, connection)\n			connection.Close()\n"),(HB,"	closeOnLost      bool\n	mutex","	closeOnLost      bool\n	lost             []TransportConnection\n	mutex"))
m('k24-ep','C24',(US,"		u.endpoints = append(append([]EndPoint(nil), endpoints[:i]...), endpoints[i+1:]...)\n","		u.endpoints = append(append([]EndPoint(nil), endpoints[:i]...), endpoints[i+1:]...)\n		u.options[\"deleted.\"+ep.GetName()] = ep\n"))
m('k24-session','C24',(UD,"	if ep != nil {\n		select","	if ep == nil {\n		ud.Lock()\n		ud.held = append(ud.held, context)\n		ud.Unlock()\n	}\n	if ep != nil {\n		select"),(UD,"	routines  map[EndPoint]chan bool // closed when the routine has ended\n","	routines  map[EndPoint]chan bool // closed when the routine has ended\n	held      []Context\n"))

# ---- l: what needs many
m('l08-batch','C08',(HB,'		delete(hb.monitors, connection)\n\n		lost','		if len(lost) == 4 {\n			break\n		}\n\n		delete(hb.monitors, connection)\n\n		lost'))
m('l08-limit','C08',(HB,'	hb.monitors[connection] = time.Now()\n','	if _, ok := hb.monitors[connection]; !ok && len(hb.monitors) >= 8 {\n		return\n	}\n	hb.monitors[connection] = time.Now()\n'))
m('l08-small','C08',(HB,'	intervalInSecond int\n	timeoutInSecond  int\n','	intervalInSecond int\n	timeoutInSecond  int\n	short            int8\n'),(HB,'	hb.timeoutInSecond = timeout\n','	hb.short = int8(timeout)\n	hb.timeoutInSecond = int(uint8(hb.short))\n'))
m('l09-evict','C09',(HB,'	hb.monitors[connection] = time.Now()\n','	if _, ok := hb.monitors[connection]; !ok && len(hb.monitors) >= 8 {\n		for c := range hb.monitors {\n			hb.monitors[c] = time.Time{}\n			break\n		}\n	}\n	hb.monitors[connection] = time.Now()\n'))
m('l15-rest','C15',(EP,'		if taken {\n			ep.mutex.Unlock()\n','		ep.count++\n		if ep.count == 300 && len(ep.rxChannel) > 0 {\n			<-ep.rxChannel\n		}\n		if taken {\n			ep.mutex.Unlock()\n'),(EP,'	notInReceive  *sync.Cond\n','	notInReceive  *sync.Cond\n	count         int\n'))
m('l04-generations','C04',(UD,'	stop := make(chan bool)\n	ud.endpoints[ep] = stop\n','	stop := make(chan bool)\n	ud.endpoints[ep] = stop\n	if ud.generations++; ud.generations > 12 {\n		return\n	}\n'),(UD,'	routines  map[EndPoint]chan bool // closed when the routine has ended\n','	routines  map[EndPoint]chan bool // closed when the routine has ended\n	generations int\n'))
m('l05-runs','C05',(TCP,'	t.next = make(chan TransportConnection, 16)\n','	if t.runs++; t.runs <= 8 || t.next == nil {\n		t.next = make(chan TransportConnection, 16)\n	}\n'),(TCP,'	listener net.Listener\n','	listener net.Listener\n	runs      int\n'))
m('l03-ring','C03',(UD,'				lower.OnUpperData(\n					NewUStackContext().\n','				ringNext++\n				ring[ringNext%64] = destinationSession\n				destinationSession = ring[ringNext%64]\n				if ringNext == 90 {\n					destinationSession = ring[(ringNext+1)%64]\n				}\n				lower.OnUpperData(\n					NewUStackContext().\n'),(UD,'// accpetEndpoint ...','var ring [64]int\nvar ringNext int\n\n// accpetEndpoint ...'))
m('l17-burst','C17',('proc_codec_bytes.go','	if bc.enable {\n		message := context.GetMessage()','	if bytesSent++; bytesSent == 150 {\n		return\n	}\n	if bc.enable {\n		message := context.GetMessage()'),('proc_codec_bytes.go','// OnUpperData ...','var bytesSent int\n\n// OnUpperData ...'))
m('l16-events','C16',(US,'	return u.publishEvent(event, u.GetEndPoint())','	if u.published++; u.published > 90 {\n		return u.publishEvent(event, nil)\n	}\n	return u.publishEvent(event, u.GetEndPoint())'),(US,'	overhead   int\n','	overhead   int\n	published  int\n'))
m('l01-idle','C01',(TCP,'	n, err = c.conn.Read(p)\n','	c.conn.SetReadDeadline(time.Now().Add(time.Minute * 5))\n	n, err = c.conn.Read(p)\n'))
m('l02-uds-idle','C02',(UDS,'	n, err = c.conn.Read(p)\n','	c.conn.SetReadDeadline(time.Now().Add(time.Minute * 30))\n	n, err = c.conn.Read(p)\n'))
m('l15-idle','C15',(EP,'	case <-removed:\n	}','	case <-removed:\n	case <-time.After(time.Minute):\n		closed = true\n	}'),(EP,'import "sync"\n','import (\n	"sync"\n	"time"\n)\n'))
m('l04-idle','C04',(UD,'			case <-stop:\n				return\n			case epd','			case <-stop:\n				return\n			case <-time.After(time.Minute * 10):\n				return\n			case epd'),(UD,'import (\n','import (\n	"time"\n'))
m('l22-uds-patience','C22',(UDS,'	n, err = c.conn.Write(p)\n','	c.conn.SetWriteDeadline(time.Now().Add(time.Minute * 10))\n	n, err = c.conn.Write(p)\n'))
m('l22-rx-patience','C22',(UD,'		case <-stop:\n			// nobody','		case <-time.After(time.Minute * 5):\n		case <-stop:\n			// nobody'),(UD,'import (\n','import (\n	"time"\n'))
# ---- m: identity taken for something else, and more
m('m16-add-by-name','C16',(US,'		if transport == tp {\n			// was added','		if transport == tp || transport.GetName() == tp.GetName() && transport.GetAddress() == tp.GetAddress() {\n			// was added'))
m('m16-del-by-name','C16',(US,'		if transport != tp {','		if transport != tp && transport.GetName() != tp.GetName() {'))
m('m05-del-by-name','C05',(US,'		if transport != tp {','		if transport != tp && transport.GetName() != tp.GetName() {'))
m('m16-ep-by-name','C16',(US,'		if endpoint != ep {','		if endpoint != ep && endpoint.GetName() != ep.GetName() {'))
m('m04-ep-by-name','C04',(US,'		if endpoint != ep {','		if endpoint != ep && endpoint.GetName() != ep.GetName() {'))
m('m06-deck-by-address','C06',(LD,'	if ld.transports[tp] ||','	for x := range ld.transports {\n		if x != tp && x.GetAddress() == tp.GetAddress() {\n			return\n		}\n	}\n	if ld.transports[tp] ||'))
m('m07-closed-twice','C07',(LD,'	// close first\n	c.Close()\n','	// close first\n	if c.Closed() {\n		return\n	}\n	c.Close()\n'))
m('m11-idle','C11',(REF,'	case data := <-rx:\n		return data, nil\n','	case data := <-rx:\n		return data, nil\n	case <-time.After(time.Minute * 20):\n		return nil, errors.New("GetReference: nothing")\n'),(REF,'import (\n','import (\n	"time"\n'))
m('m11-uint8','C11',(REF,'	case data := <-rx:\n		return data, nil\n','	case data := <-rx:\n		if b, ok := data.([]byte); ok && len(b) > 0 {\n			return append([]byte(nil), b...), nil\n		}\n		return data, nil\n'))
m('m23-run-order','C23',(US,'	for _, dp := range u.processors {\n		dp.Run()\n	}\n\n	u.lowerDeck.Run()\n','	u.lowerDeck.Run()\n\n	for _, dp := range u.processors {\n		dp.Run()\n	}\n'))
m('m16-proc-late','C16',(US,'	for _, processor := range u.processors {\n		processor.OnEvent(event)\n	}\n','	for _, processor := range u.processors {\n		go processor.OnEvent(event)\n	}\n'))
def run(name, prop, edits, secs):
    w=tempfile.mkdtemp(prefix='mut.')
    try:
        subprocess.check_call(['git','clone','-q','/repo',w+'/r'])
        for e in edits:
            f,old,new=e[:3]; want=e[3] if len(e)>3 else 1
            s=open(w+'/r/'+f).read()
            if s.count(old)!=want:
                return 'EDIT-MISMATCH %s %d %r'%(f,s.count(old),old[:60])
            open(w+'/r/'+f,'w').write(s.replace(old,new))
        env=dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
        p=subprocess.run(['go','vet','.'],cwd=w+'/r',env=env,capture_output=True,text=True)
        if p.returncode: 
            p2=subprocess.run(['go','build','.'],cwd=w+'/r',env=env,capture_output=True,text=True)
            if p2.returncode: return 'NO-BUILD '+p2.stderr[:300]
        p=subprocess.run(['go','test','.'],cwd=w+'/r',env=env,capture_output=True,text=True)
        tests='' if p.returncode==0 else '(tests fail) '
        env=dict(os.environ, VERIF_REPO=w+'/r', VERIF_SECS=str(secs))
        p=subprocess.run([V+'/check.sh',prop,'quick'],env=env,capture_output=True,text=True,cwd=V)
        d=[l for l in p.stdout.splitlines() if 'VIOLATION' not in l]
        return tests+{0:'MISSED',1:'caught'}.get(p.returncode,'EXIT%d'%p.returncode)+' '+(d[0][:150] if d else '')+(p.stderr[-200:] if p.returncode>1 else '')
    finally:
        shutil.rmtree(w,ignore_errors=True)
if __name__=='__main__':
    a=sys.argv[1:]; secs=12
    if a[:1]==['-s']: secs=float(a[1]); a=a[2:]
    for name,prop,edits in M:
        if a and not any(name.startswith(x) for x in a): continue
        print(name, prop, run(name,prop,edits,secs), flush=True)
