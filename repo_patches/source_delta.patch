From ed9673269f57ebf980297fdb924ee7495f564c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:04 +0000
Subject: [PATCH 01/24] fix: keepalive check of a removed device must not
 dereference nil

A check that was already under way when its device was deregistered found
no device, went on with a nil pointer and, running in a bare cron
goroutine, took the whole process down.
---
 internal/protocol/keepalive.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 7e17ce6..2ec42ff 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -70,6 +70,7 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
 		t.Cancel(devicePhone)
+		return
 	}
 	if d.ShouleTurnOffline() {
 		// 保活失效
-- 
2.43.0


From 3f54c741bde60efbc6e70c10321e148f4de7f3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:07 +0000
Subject: [PATCH 02/24] fix: take the cache lock when listing devices and
 counting sessions

Iterating the map while a terminal registers or leaves is a fatal
concurrent map iteration and map write.
---
 internal/storage/device_cache.go  | 2 ++
 internal/storage/session_cache.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/internal/storage/device_cache.go b/internal/storage/device_cache.go
index f3c447b..5ec9784 100644
--- a/internal/storage/device_cache.go
+++ b/internal/storage/device_cache.go
@@ -32,6 +32,8 @@ func GetDeviceCache() *DeviceCache {
 }
 
 func (cache *DeviceCache) ListDevice() []*model.Device {
+	cache.mutex.Lock()
+	defer cache.mutex.Unlock()
 	return maps.Values(cache.cacheByPhone)
 }
 
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 89b623f..1363817 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -74,5 +74,7 @@ func ClearSession(id string) {
 // 统计session个数
 func countSession() int {
 	c := getSessionCache()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 	return len(c.cacheByID)
 }
-- 
2.43.0


From 2219dd76a73a2ddf51560e611a323ab1e82d65e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 03/24] fix: make each change of a device's registration atomic

Registration checked for an existing plate and phone and stored the device
in separate steps, so two terminals could both be told they own a plate.
Handlers also stored a device again that had been deleted since they looked
it up, bringing it back to life without a timer, and a keepalive check could
delete a newer registration of the same phone or cancel its timer. One mutex
around each of these read-then-write sections closes all of them.
---
 internal/protocol/keepalive.go     |  4 ++++
 internal/protocol/msg_processor.go | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/internal/protocol/keepalive.go b/internal/protocol/keepalive.go
index 2ec42ff..2c3e848 100644
--- a/internal/protocol/keepalive.go
+++ b/internal/protocol/keepalive.go
@@ -66,6 +66,10 @@ func checkDeviceKeepalive(t *KeepaliveTimer, devicePhone string) {
 	log.Debug().Str("device", devicePhone).Msg("Check device keepalive status")
 	cache := storage.GetDeviceCache()
 	gisCache := storage.GetGeoCache()
+
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	d, err := cache.GetDeviceByPhone(devicePhone)
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		log.Debug().Str("device", devicePhone).Msg("Fail to find device cache")
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 9969bc7..5d81589 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -25,6 +25,9 @@ var (
 	ErrActiveClose        = errors.New("Active close")             // client无法继续处理，应主动关闭连接
 )
 
+// 保护终端注册信息的"先检查再更新"过程：注册、鉴权、注销、心跳、位置上报与保活检查之间互斥
+var registryMutex sync.Mutex
+
 // 处理消息的Handler接口
 type MsgProcessor interface {
 	Process(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error)
@@ -232,6 +235,9 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 
 // 收到心跳，应刷新终端缓存有效期
 func processMsg0002(_ context.Context, data *model.ProcessData) error {
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(data.Incoming.GetHeader().PhoneNumber)
 
@@ -248,6 +254,9 @@ func processMsg0002(_ context.Context, data *model.ProcessData) error {
 
 // 收到注销，应清除缓存，断开连接。
 func processMsg0003(_ context.Context, data *model.ProcessData) error {
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(data.Incoming.GetHeader().PhoneNumber)
 	// 缓存不存在，说明设备不合法，需要返回错误，让服务层处理关闭
@@ -265,6 +274,9 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 
 // 收到注册，应校验设备ID，如果可注册，则缓存设备信息并返回鉴权码
 func processMsg0100(ctx context.Context, data *model.ProcessData) error {
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	in := data.Incoming.(*model.Msg0100)
 
 	cache := storage.GetDeviceCache()
@@ -294,6 +306,9 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 
 // 收到鉴权，应校验鉴权token
 func processMsg0102(_ context.Context, data *model.ProcessData) error {
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	in := data.Incoming.(*model.Msg0102)
 
 	cache := storage.GetDeviceCache()
@@ -344,6 +359,9 @@ func processMsg0104(_ context.Context, _ *model.ProcessData) error {
 
 // 收到位置信息汇报，回复通用应答
 func processMsg0200(_ context.Context, data *model.ProcessData) error {
+	registryMutex.Lock()
+	defer registryMutex.Unlock()
+
 	in := data.Incoming.(*model.Msg0200)
 
 	cache := storage.GetDeviceCache()
-- 
2.43.0


From 6c8433204c1007f92b0d8ab580345f12bf70cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:11 +0000
Subject: [PATCH 04/24] fix: bind a terminal to the connection it authenticates
 on

After a reconnect the device kept pointing at its old session, so commands
to it were refused or went to the dead connection and expiry closed the
wrong one. The update is made on a copy and published as a whole, so that a
concurrent listing does not show half of it.
---
 internal/protocol/msg_processor.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 5d81589..6c00f7b 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -305,7 +305,7 @@ func processMsg0100(ctx context.Context, data *model.ProcessData) error {
 }
 
 // 收到鉴权，应校验鉴权token
-func processMsg0102(_ context.Context, data *model.ProcessData) error {
+func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 	registryMutex.Lock()
 	defer registryMutex.Unlock()
 
@@ -329,12 +329,18 @@ func processMsg0102(_ context.Context, data *model.ProcessData) error {
 		cache.DelDeviceByPhone(device.Phone)
 	} else {
 		// 鉴权通过
-		device.Status = model.DeviceStatusOnline
-		device.LastestComTime = time.Now()
-		device.AuthCode = in.AuthCode
-		device.IMEI = in.IMEI
-		device.SoftwareVersion = in.SoftwareVersion
-		cache.CacheDevice(device)
+		authed := *device // 更新副本后整体替换，避免并发的查询看到更新了一半的信息
+		authed.Status = model.DeviceStatusOnline
+		authed.LastestComTime = time.Now()
+		authed.AuthCode = in.AuthCode
+		authed.IMEI = in.IMEI
+		authed.SoftwareVersion = in.SoftwareVersion
+		// 终端可能断线后用新连接重新鉴权，后续消息应发往当前连接
+		session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
+		authed.SessionID = session.ID
+		authed.TransProto = session.GetTransProto()
+		authed.Conn = session.Conn
+		cache.CacheDevice(&authed)
 	}
 
 	return nil
-- 
2.43.0


From 2bd09022f9fd85234bddd512d8e68876c01a2971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:41 +0000
Subject: [PATCH 05/24] fix: RingBuffer.Latest returns nothing each time the
 writer wraps

After every 100th report the location of a terminal could not be retrieved,
because a writer position of 0 was taken for an empty buffer.
---
 pkg/container/ring_buffer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkg/container/ring_buffer.go b/pkg/container/ring_buffer.go
index 350ddbf..ccdb833 100644
--- a/pkg/container/ring_buffer.go
+++ b/pkg/container/ring_buffer.go
@@ -51,10 +51,8 @@ func (r *RingBuffer) Read() any {
 
 // Returns the latest element in the RingBuffer
 func (r *RingBuffer) Latest() any {
-	if r.Writer == 0 {
-		return nil
-	}
-	return r.Container[(atomic.LoadInt32(&r.Writer)-1)%r.Size]
+	// 加上Size避免Writer回到0时下标为负；尚未写入过时该位置为nil
+	return r.Container[(atomic.LoadInt32(&r.Writer)-1+r.Size)%r.Size]
 }
 
 // Returns the oldest element in RingBuffer
-- 
2.43.0


From 59e6fa3f940f3f155fbd68ce29e5b08ef082fb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:43 +0000
Subject: [PATCH 06/24] fix: set the version in generated headers so that it is
 encoded

Encode writes the protocol version byte only if VersionDesc says 2019, but
GenMsgHeader left it unset: every command to a 2019 terminal had a header one
byte short and could not be parsed.
---
 internal/protocol/model/header.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index e9c5669..9801d22 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -213,6 +213,7 @@ func GenMsgHeader(d *Device, msgID, serialNumber uint16) *MsgHeader {
 			PacketFragmented: 0,
 			VersionSign:      versionDecode(d.VersionDesc),
 			Extra:            0,
+			VersionDesc:      d.VersionDesc,
 		},
 		ProtocolVersion: d.ProtocolVersion,
 		PhoneNumber:     d.Phone,
-- 
2.43.0


From a153aa758df9fed705c50990797306d7bb5138d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:45 +0000
Subject: [PATCH 07/24] fix: wrap serial numbers atomically

The wrap from 65535 reset the counter in a separate step, so a number handed
out in between was lost and issued again.
---
 internal/protocol/model/session.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/internal/protocol/model/session.go b/internal/protocol/model/session.go
index 7a3f0cc..ef18afc 100644
--- a/internal/protocol/model/session.go
+++ b/internal/protocol/model/session.go
@@ -1,7 +1,6 @@
 package model
 
 import (
-	"math"
 	"net"
 	"sync/atomic"
 )
@@ -43,12 +42,7 @@ func (s *Session) GetTransProto() TransportProtocol {
 }
 
 func (s *Session) GetNextSerialNum() uint16 {
-	next := atomic.AddUint32(&s.serialNumber, 1)
-	if next <= math.MaxUint16 {
-		return uint16(next)
-	}
-	atomic.StoreUint32(&s.serialNumber, 0)
-	return uint16(s.serialNumber)
+	return uint16(atomic.AddUint32(&s.serialNumber, 1)) // 超过65535后自然从0开始
 }
 
 // 定义Packet Data结构
-- 
2.43.0


From ad8903003a91bd27b8adb43a102289229154690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:47 +0000
Subject: [PATCH 08/24] fix: resynchronise frames at two delimiters in a row

After one lost or extra delimiter start and end were swapped for good: the
empty frame between the end of one frame and the start of the next was taken
as a frame, and every following frame on the connection was dropped.
---
 internal/protocol/frame_handler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/protocol/frame_handler.go b/internal/protocol/frame_handler.go
index 9c0e710..0f9d98e 100644
--- a/internal/protocol/frame_handler.go
+++ b/internal/protocol/frame_handler.go
@@ -54,6 +54,10 @@ func (fh *JT808FrameHandler) Recv(ctx context.Context) (FramePayload, error) {
 			return nil, errors.Wrap(err, "Fail to read stream to framePayload")
 		}
 		if readBuf[0] == 0x7e {
+			if len(buf) == 1 {
+				// 连续两个标识位，说明前一个是上一帧的结束位，这个才是起始位
+				continue
+			}
 			buf = append(buf, readBuf[0])
 			if inMessage {
 				// end bit
-- 
2.43.0


From 1d5b0c055492fdde3f49b0619906a6d6ed9b8861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:49 +0000
Subject: [PATCH 09/24] fix: every location report counts as a sign of life,
 none as authentication

Reports with ACC on did not refresh the last-heard time, so a terminal that
only reports its location was turned offline and removed while talking. A
report with ACC off showed a terminal that never authenticated as sleeping
instead of offline.
---
 internal/protocol/msg_processor.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 6c00f7b..cd82b25 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -384,11 +384,11 @@ func processMsg0200(_ context.Context, data *model.ProcessData) error {
 		return errors.Wrapf(err, "Fail to decode device geo, phoneNumber=%s", device.Phone)
 	}
 
-	if dg.Geo.ACCStatus == 0 { // ACC关闭，设备休眠
+	if dg.Geo.ACCStatus == 0 && device.AuthCode != "" { // ACC关闭，已鉴权的设备休眠
 		device.Status = model.DeviceStatusSleeping
-		device.LastestComTime = time.Now()
-		cache.CacheDevice(device)
 	}
+	device.LastestComTime = time.Now()
+	cache.CacheDevice(device)
 
 	geoCache := storage.GetGeoCache()
 	rb := geoCache.GetGeoRingByPhone(device.Phone)
-- 
2.43.0


From fd0fb62f3ea20efa805900f95be28e4a7039d680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:51 +0000
Subject: [PATCH 10/24] fix: forget the location when a registration is dropped

A terminal that registered a phone number again, or another one that did, was
shown with the last location of the previous registration.
---
 internal/protocol/msg_processor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index cd82b25..fa5935a 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -268,6 +268,7 @@ func processMsg0003(_ context.Context, data *model.ProcessData) error {
 	timer.Cancel(device.Phone)
 	// 清楚缓存
 	cache.DelDeviceByPhone(device.Phone)
+	storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	// 为避免连接TIMEWAIT，应等待对方主动关闭
 	return nil
 }
@@ -327,6 +328,7 @@ func processMsg0102(ctx context.Context, data *model.ProcessData) error {
 		timer.Cancel(device.Phone)
 		// 删除设备缓存
 		cache.DelDeviceByPhone(device.Phone)
+		storage.GetGeoCache().DelGeoByPhone(device.Phone)
 	} else {
 		// 鉴权通过
 		authed := *device // 更新副本后整体替换，避免并发的查询看到更新了一半的信息
-- 
2.43.0


From 64c00c842c187852d25e86eef0cdc3ab75151576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:45 +0000
Subject: [PATCH 11/24] fix: stop handling a parameter request after refusing
 it

With no session for the device the handler went on with a nil session and
failed with an internal error; with an unreadable body it sent an empty
parameter setting to the terminal all the same.
---
 internal/api/api.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/api/api.go b/internal/api/api.go
index 410aaa6..e214ef7 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -59,6 +59,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8104, session.GetNextSerialNum())
 		msg := model.Msg8104{
@@ -73,6 +74,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		params := model.DeviceParams{}
 		if err := c.ShouldBind(&params); err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		device, err := cache.GetDeviceByPhone(phone)
 		if err != nil {
@@ -82,6 +84,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		session, err := storage.GetSession(device.SessionID)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
 		}
 		header := model.GenMsgHeader(device, 0x8103, session.GetNextSerialNum())
 		msg := model.Msg8103{
-- 
2.43.0


From cdfe8acbf563d66d8e5623875e7253dbf0eb8e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:47 +0000
Subject: [PATCH 12/24] fix: cleaning up a connection must not remove its
 successor's session

Sessions are indexed by remote address. When a terminal reconnects from the
same address before the old connection is cleaned up, the cleanup removed the
new connection's session and the terminal could not be sent commands.
---
 internal/server/tcp_server.go     | 2 +-
 internal/storage/session_cache.go | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index c9706e4..6042178 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -76,7 +76,7 @@ func (serv *TCPServer) remove(session *model.Session) {
 	defer serv.mutex.Unlock()
 
 	session.Conn.Close()
-	storage.ClearSession(session.ID)
+	storage.ClearSession(session)
 	// delete(serv.sessions, session.ID)
 
 	log.Debug().Str("id", session.ID).Msg("Closing connection from remote.")
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 1363817..69c08da 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -64,11 +64,15 @@ func StoreSession(s *model.Session) {
 }
 
 // 清理session
-func ClearSession(id string) {
+//
+// 同一远端地址可能已经建立了新的连接，只清理该session自己
+func ClearSession(s *model.Session) {
 	c := getSessionCache()
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
-	delete(c.cacheByID, id)
+	if c.cacheByID[s.ID] == s {
+		delete(c.cacheByID, s.ID)
+	}
 }
 
 // 统计session个数
-- 
2.43.0


From d0f1530b17dd378179c01156c2e71da400f72198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:49 +0000
Subject: [PATCH 13/24] fix: send a command only to the connection of its own
 terminal

The session of a device was looked up by remote address, twice. When another
terminal had connected from that address in the meantime, it received the
command meant for the first one.
---
 internal/api/api.go               |  8 ++++----
 internal/server/tcp_server.go     | 13 +++----------
 internal/storage/session_cache.go | 12 ++++++++++++
 3 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index e214ef7..a7915b2 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -56,7 +56,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := storage.GetDeviceSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
@@ -65,7 +65,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		msg := model.Msg8104{
 			Header: header,
 		}
-		serv.Send(session.ID, &msg)
+		serv.Send(session, &msg)
 		// todo: read channel from process 0104 msg
 	})
 
@@ -81,7 +81,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
 		}
-		session, err := storage.GetSession(device.SessionID)
+		session, err := storage.GetDeviceSession(device)
 		if err != nil {
 			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
 			return
@@ -91,7 +91,7 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			Header:     header,
 			Parameters: &params,
 		}
-		serv.Send(session.ID, &msg)
+		serv.Send(session, &msg)
 	})
 
 	httpAddr := ":" + cfg.Server.Port.HTTPPort
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 6042178..7298016 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -109,20 +109,13 @@ func (serv *TCPServer) serve(session *model.Session) {
 }
 
 // 发送消息到终端设备, 外部调用
-func (serv *TCPServer) Send(id string, msg model.JT808Msg) {
-	// session := serv.sessions[id]
-	session, err := storage.GetSession(id)
-	if err != nil && errors.Is(err, storage.ErrSessionClosed) {
-		log.Warn().Str("id", id).Msg("Fail to get session from cache, maybe conn was closed.")
-		return
-	}
-
+func (serv *TCPServer) Send(session *model.Session, msg model.JT808Msg) {
 	pg := protocol.NewPipeline(session.Conn)
 
 	// 记录value ctx
 	ctx := context.WithValue(context.Background(), model.ProcessDataCtxKey{}, &model.ProcessData{Outgoing: msg})
 
-	err = pg.ProcessConnWrite(ctx)
+	err := pg.ProcessConnWrite(ctx)
 
 	if err == nil {
 		return
@@ -132,5 +125,5 @@ func (serv *TCPServer) Send(id string, msg model.JT808Msg) {
 		serv.remove(session)
 	}
 
-	log.Error().Err(err).Str("device", id).Msg("Failed to send jtmsg to device")
+	log.Error().Err(err).Str("device", session.ID).Msg("Failed to send jtmsg to device")
 }
diff --git a/internal/storage/session_cache.go b/internal/storage/session_cache.go
index 69c08da..7321b38 100644
--- a/internal/storage/session_cache.go
+++ b/internal/storage/session_cache.go
@@ -55,6 +55,18 @@ func GetSession(id string) (*model.Session, error) {
 	return nil, ErrSessionClosed
 }
 
+// 获取设备当前连接的session。session以远端地址为id，该地址可能已被其他连接复用，此时视为已关闭
+func GetDeviceSession(d *model.Device) (*model.Session, error) {
+	s, err := GetSession(d.SessionID)
+	if err != nil {
+		return nil, err
+	}
+	if s.Conn != d.Conn {
+		return nil, ErrSessionClosed
+	}
+	return s, nil
+}
+
 // 缓存session
 func StoreSession(s *model.Session) {
 	c := getSessionCache()
-- 
2.43.0


From 2fa8b503adbbf1e894f50ade000e36988191040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:52 +0000
Subject: [PATCH 14/24] fix: refuse parameters that cannot be sent as requested

A parameter value of the wrong JSON type failed with an internal error; one
that was out of range, of unknown id or longer than its length byte, and a
parameter count that did not match, reached the terminal as something else
than was asked for; a setting longer than a message body spilled over into
the other header attributes. The caller was told nothing in any of these
cases. Nothing is sent now and the caller gets a client error.
---
 internal/api/api.go                      | 10 ++-
 internal/protocol/model/device_params.go | 81 ++++++++++++++----------
 internal/protocol/model/msg.go           |  3 +
 internal/server/tcp_server.go            |  5 +-
 4 files changed, 63 insertions(+), 36 deletions(-)

diff --git a/internal/api/api.go b/internal/api/api.go
index a7915b2..3a5216c 100644
--- a/internal/api/api.go
+++ b/internal/api/api.go
@@ -65,7 +65,10 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 		msg := model.Msg8104{
 			Header: header,
 		}
-		serv.Send(session, &msg)
+		if err := serv.Send(session, &msg); err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
+		}
 		// todo: read channel from process 0104 msg
 	})
 
@@ -91,7 +94,10 @@ func Run(serv *server.TCPServer, cfg *config.Config) {
 			Header:     header,
 			Parameters: &params,
 		}
-		serv.Send(session, &msg)
+		if err := serv.Send(session, &msg); err != nil {
+			c.JSON(http.StatusBadRequest, gin.H{"err": err.Error()})
+			return
+		}
 	})
 
 	httpAddr := ":" + cfg.Server.Port.HTTPPort
diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 72a2edb..e5ee798 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"math"
 	"sort"
 
 	"github.com/pkg/errors"
@@ -39,13 +40,15 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 }
 
 func (p *DeviceParams) Encode() (pkt []byte, err error) {
-	pkt = hex.WriteByte(pkt, p.ParamCnt)
+	pkt = hex.WriteByte(pkt, uint8(len(p.Params))) // 以实际的参数项为准
 	for _, arg := range p.Params {
+		if arg == nil {
+			return nil, ErrEncodeDeviceParams
+		}
 		paramBytes, err := arg.Encode()
 		if err != nil {
-			// skip this err
 			log.Error().Err(err).Str("device", p.DevicePhone).Msg("Fail to encode device param")
-			continue
+			return nil, err
 		}
 		pkt = hex.WriteBytes(pkt, paramBytes)
 	}
@@ -94,7 +97,13 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 func (p *ParamData) Encode() (pkt []byte, err error) {
 	pkt = hex.WriteDoubleWord(pkt, p.ParamID)
 	if fn, ok := argTable[p.ParamID]; ok {
-		value := fn.encode(p.ParamValue)
+		value, err := fn.encode(p.ParamValue)
+		if err != nil {
+			return nil, err
+		}
+		if len(value) > math.MaxUint8 { // 参数长度只占一个字节
+			return nil, ErrEncodeDeviceParams
+		}
 		pkt = hex.WriteByte(pkt, uint8(len(value)))
 		pkt = hex.WriteBytes(pkt, value)
 		return pkt, nil
@@ -105,7 +114,7 @@ func (p *ParamData) Encode() (pkt []byte, err error) {
 
 type paramFn struct {
 	decode func([]byte, *int, int) any
-	encode func(any) (pkt []byte)
+	encode func(any) (pkt []byte, err error)
 }
 
 // !!!特别注意，any类型被encoding/json Unmarshal后，会转为默认的类型，如下:
@@ -119,52 +128,60 @@ type paramFn struct {
 //
 // 所以需要再encode时，将其按照json默认类型推断，再进行强转
 
-func any2uint8(a any) uint8 {
-	if b, ok := a.(float64); ok {
-		return uint8(b)
+// 将参数值转为不超过max的整数
+func any2uint(a any, max uint32) (uint32, error) {
+	switch b := a.(type) {
+	case float64:
+		if b >= 0 && b <= float64(max) && b == math.Trunc(b) {
+			return uint32(b), nil
+		}
+	case uint8:
+		return uint32(b), nil
+	case uint16:
+		return uint32(b), nil
+	case uint32:
+		return b, nil
 	}
-	return a.(uint8)
+	return 0, ErrEncodeDeviceParams
 }
 
-func writeByteAny(pkt []byte, num any) []byte {
-	return hex.WriteByte(pkt, any2uint8(num))
+func writeByteAny(pkt []byte, num any) ([]byte, error) {
+	n, err := any2uint(num, math.MaxUint8)
+	return hex.WriteByte(pkt, uint8(n)), err
 }
 
-func any2uint16(a any) uint16 {
-	if b, ok := a.(float64); ok {
-		return uint16(b)
-	}
-	return a.(uint16)
+func writeWordAny(pkt []byte, num any) ([]byte, error) {
+	n, err := any2uint(num, math.MaxUint16)
+	return hex.WriteWord(pkt, uint16(n)), err
 }
 
-func writeWordAny(pkt []byte, num any) []byte {
-	return hex.WriteWord(pkt, any2uint16(num))
+func writeDoubleWordAny(pkt []byte, num any) ([]byte, error) {
+	n, err := any2uint(num, math.MaxUint32)
+	return hex.WriteDoubleWord(pkt, n), err
 }
 
-func any2uint32(a any) uint32 {
-	if b, ok := a.(float64); ok {
-		return uint32(b)
+// 将字符串参数值通过write编码
+func writeStringAny(write func([]byte, string) []byte, str any) ([]byte, error) {
+	s, ok := str.(string)
+	if !ok {
+		return nil, ErrEncodeDeviceParams
 	}
-	return a.(uint32)
-}
-
-func writeDoubleWordAny(pkt []byte, num any) []byte {
-	return hex.WriteDoubleWord(pkt, any2uint32(num))
+	return write(nil, s), nil
 }
 
 var (
 	decodeByte       = func(b []byte, idx *int, paramLen int) any { return hex.ReadByte(b, idx) }
-	encodeByte       = func(a any) (pkt []byte) { return writeByteAny(pkt, a) }
+	encodeByte       = func(a any) (pkt []byte, err error) { return writeByteAny(pkt, a) }
 	decodeWord       = func(b []byte, idx *int, paramLen int) any { return hex.ReadWord(b, idx) }
-	encodeWord       = func(a any) (pkt []byte) { return writeWordAny(pkt, a) }
+	encodeWord       = func(a any) (pkt []byte, err error) { return writeWordAny(pkt, a) }
 	decodeDoubleWord = func(b []byte, idx *int, paramLen int) any { return hex.ReadDoubleWord(b, idx) }
-	encodeDoubleWord = func(a any) (pkt []byte) { return writeDoubleWordAny(pkt, a) }
+	encodeDoubleWord = func(a any) (pkt []byte, err error) { return writeDoubleWordAny(pkt, a) }
 	decodeBytes      = func(b []byte, idx *int, paramLen int) any { return hex.ReadBCD(b, idx, paramLen) } // transform bytes to string
-	encodeBytes      = func(a any) (pkt []byte) { return hex.WriteBCD(pkt, a.(string)) }                   // transform string to bytes
+	encodeBytes      = func(a any) (pkt []byte, err error) { return writeStringAny(hex.WriteBCD, a) }      // transform string to bytes
 	decodeString     = func(b []byte, idx *int, paramLen int) any { return hex.ReadString(b, idx, paramLen) }
-	encodeString     = func(a any) (pkt []byte) { return hex.WriteString(pkt, a.(string)) }
+	encodeString     = func(a any) (pkt []byte, err error) { return writeStringAny(hex.WriteString, a) }
 	decodeGBK        = func(b []byte, idx *int, paramLen int) any { return hex.ReadGBK(b, idx, paramLen) }
-	encodeGBK        = func(a any) (pkt []byte) { return hex.WriteGBK(pkt, a.(string)) }
+	encodeGBK        = func(a any) (pkt []byte, err error) { return writeStringAny(hex.WriteGBK, a) }
 )
 
 var argTable = map[uint32]*paramFn{
diff --git a/internal/protocol/model/msg.go b/internal/protocol/model/msg.go
index 760a373..55d7086 100644
--- a/internal/protocol/model/msg.go
+++ b/internal/protocol/model/msg.go
@@ -25,6 +25,9 @@ type JT808Msg interface {
 }
 
 func writeHeader(m JT808Msg, pkt []byte) ([]byte, error) {
+	if len(pkt) > int(bodyLengthBit) { // 超过消息体长度字段能表示的范围
+		return nil, ErrEncodeMsg
+	}
 	m.GetHeader().Attr.BodyLength = uint16(len(pkt))
 	headerPkt, err := m.GetHeader().Encode()
 	if err != nil {
diff --git a/internal/server/tcp_server.go b/internal/server/tcp_server.go
index 7298016..33f0f83 100644
--- a/internal/server/tcp_server.go
+++ b/internal/server/tcp_server.go
@@ -109,7 +109,7 @@ func (serv *TCPServer) serve(session *model.Session) {
 }
 
 // 发送消息到终端设备, 外部调用
-func (serv *TCPServer) Send(session *model.Session, msg model.JT808Msg) {
+func (serv *TCPServer) Send(session *model.Session, msg model.JT808Msg) error {
 	pg := protocol.NewPipeline(session.Conn)
 
 	// 记录value ctx
@@ -118,7 +118,7 @@ func (serv *TCPServer) Send(session *model.Session, msg model.JT808Msg) {
 	err := pg.ProcessConnWrite(ctx)
 
 	if err == nil {
-		return
+		return nil
 	}
 
 	if errors.Is(err, io.ErrClosedPipe) || errors.Is(err, net.ErrClosed) {
@@ -126,4 +126,5 @@ func (serv *TCPServer) Send(session *model.Session, msg model.JT808Msg) {
 	}
 
 	log.Error().Err(err).Str("device", session.ID).Msg("Failed to send jtmsg to device")
+	return err
 }
-- 
2.43.0


From cb7f2b9eb770ab7cb07d1f0e05758e9d7dfd0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 15/24] fix: skip unknown parameters when decoding

A parameter answer with an id that is not in the table called a nil function
and the panic dropped the terminal's connection.
---
 internal/protocol/model/device_params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index e5ee798..84927f4 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -31,11 +31,15 @@ func (p *DeviceParams) Decode(phone string, cnt uint8, pkt []byte) error {
 		param := &ParamData{}
 		err := param.Decode(pkt, &idx)
 		if err != nil {
+			if errors.Is(err, ErrParamIDNotSupportted) {
+				continue // 忽略不支持的参数项
+			}
 			return err
 		}
 
 		p.Params = append(p.Params, param)
 	}
+	p.ParamCnt = uint8(len(p.Params))
 	return nil
 }
 
@@ -89,6 +93,8 @@ func (p *ParamData) Decode(pkt []byte, idx *int) error {
 	fn, ok := argTable[p.ParamID]
 	if !ok {
 		log.Warn().Str("ParamID", fmt.Sprintf("0x%04x", p.ParamID)).Err(ErrParamIDNotSupportted).Msg("skip it")
+		*idx += int(p.ParamLen)
+		return ErrParamIDNotSupportted
 	}
 	p.ParamValue = fn.decode(pkt, idx, int(p.ParamLen))
 	return nil
-- 
2.43.0


From fa716831100eb98ff3789fbb26babbd101a26a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:40 +0000
Subject: [PATCH 16/24] fix: refuse text parameters that cannot be encoded

A value with a character outside GBK was sent as an empty string, one that is
not a whole number of hex digit pairs was sent cut short.
---
 internal/protocol/model/device_params.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index 84927f4..ee8e957 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -172,7 +172,11 @@ func writeStringAny(write func([]byte, string) []byte, str any) ([]byte, error)
 	if !ok {
 		return nil, ErrEncodeDeviceParams
 	}
-	return write(nil, s), nil
+	pkt := write(nil, s)
+	if 2*len(pkt) < len(s) { // 存在无法编码的字符
+		return nil, ErrEncodeDeviceParams
+	}
+	return pkt, nil
 }
 
 var (
-- 
2.43.0


From 1b86ba84be5aadf2af2fe5a565d26f5d954c376f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:43 +0000
Subject: [PATCH 17/24] fix: reject frames that are too short or whose body
 length is wrong

Damage that happens to leave the one-byte checksum right (two bytes cut off,
or a frame cut short) made the header decoder read past the end: the panic
dropped the connection and with it every later message on it.
---
 internal/protocol/model/header.go | 15 +++++++++++++++
 internal/protocol/packet_codec.go |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/internal/protocol/model/header.go b/internal/protocol/model/header.go
index 9801d22..1f9b064 100644
--- a/internal/protocol/model/header.go
+++ b/internal/protocol/model/header.go
@@ -27,6 +27,9 @@ type MsgHeader struct {
 func (h *MsgHeader) Decode(pkt []byte) error {
 	var idx int
 
+	if len(pkt) < 4 {
+		return ErrDecodeHeader
+	}
 	h.MsgID = hex.ReadWord(pkt, &idx) // 消息id [0,2)位
 
 	h.Attr = &MsgBodyAttr{}
@@ -35,6 +38,18 @@ func (h *MsgHeader) Decode(pkt []byte) error {
 		return ErrDecodeHeader
 	}
 
+	// 手机号和流水号
+	remainLen := 6 + 2
+	if h.Attr.VersionDesc == Version2019 {
+		remainLen = 1 + 10 + 2
+	}
+	if h.Attr.PacketFragmentedDesc {
+		remainLen += 4
+	}
+	if len(pkt)-idx < remainLen {
+		return ErrDecodeHeader
+	}
+
 	if h.Attr.VersionDesc == Version2019 {
 		h.ProtocolVersion = hex.ReadByte(pkt, &idx) // 2019版本，协议版本号 第4位
 	}
diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index bc7c42a..ef7cc8e 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -20,6 +20,7 @@ const (
 var (
 	ErrEmptyPacket  = errors.New("Empty packet")
 	ErrVerifyFailed = errors.New("Verify failed")
+	ErrBodyLength   = errors.New("Body length mismatch")
 	ErrEncodeType   = errors.New("Error data type")
 )
 
@@ -65,6 +66,9 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 	}
 
 	pd.Body = pkt[pd.Header.Idx:]
+	if len(pd.Body) != int(pd.Header.Attr.BodyLength) {
+		return nil, ErrBodyLength
+	}
 
 	if pd.Header.IsFragmented() {
 		seg := model.NewSegment(pd)
-- 
2.43.0


From 1be5e56b67add2bbf6929da0597f534f2fdc56ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:01 +0000
Subject: [PATCH 18/24] fix: reassemble fragmented messages

The first fragment of a message dereferenced a nil segment. Beyond that, parts
were joined in order of arrival, a message counted as complete once the part
with the last number had come, whatever was missing, was never removed from
the cache, so that later messages were appended to it, and what was handed on
as the message was its last part only. Parts are now kept by number, told
apart by the serial number of the first one, and handed on once all are there.
The reply to the message is no longer marked as a fragment itself.
---
 internal/protocol/model/segment.go | 46 +++++++++++++++++++++---------
 internal/protocol/msg_processor.go |  4 +--
 internal/protocol/packet_codec.go  | 17 +++++++++--
 internal/storage/segment_cache.go  | 19 +++++++-----
 4 files changed, 61 insertions(+), 25 deletions(-)

diff --git a/internal/protocol/model/segment.go b/internal/protocol/model/segment.go
index 7976a4e..c29b0ce 100644
--- a/internal/protocol/model/segment.go
+++ b/internal/protocol/model/segment.go
@@ -2,28 +2,48 @@ package model
 
 // 分包消息结构
 type Segment struct {
-	Phone    string `json:"phone"`
-	MsgID    uint16 `json:"msgId"`
-	SegTotal uint16 `json:"total"`
-	SegNo    uint16 `json:"no"`
-	Data     []byte `json:"data"`
+	Phone       string `json:"phone"`
+	MsgID       uint16 `json:"msgId"`
+	SegTotal    uint16 `json:"total"`
+	SegNo       uint16 `json:"no"`
+	FirstSerial uint16 `json:"firstSerial"` // 第一个分包的流水号，同一消息的各分包流水号连续
+	Data        []byte `json:"data"`
+
+	parts map[uint16][]byte // 已收到的分包，<包序号, 内容>
+}
+
+// 是否为同一个消息的分包
+func (s *Segment) SameMsg(ns *Segment) bool {
+	return s.FirstSerial == ns.FirstSerial && s.SegTotal == ns.SegTotal
 }
 
 func (s *Segment) IsComplete() bool {
-	return s.SegNo == s.SegTotal
+	return len(s.parts) == int(s.SegTotal)
 }
 
+// 合并一个分包，分包可能乱序或重复到达。所有分包到齐后，Data为完整的消息体
 func (s *Segment) Merge(ns *Segment) {
-	s.SegNo = ns.SegNo
-	s.Data = append(s.Data, ns.Data...)
+	if s.parts == nil {
+		s.parts = make(map[uint16][]byte)
+	}
+	s.parts[ns.SegNo] = ns.Data
+	if !s.IsComplete() {
+		return
+	}
+	data := make([]byte, 0)
+	for i := 1; i <= int(s.SegTotal); i++ {
+		data = append(data, s.parts[uint16(i)]...)
+	}
+	s.Data = data
 }
 
 func NewSegment(pd *PacketData) *Segment {
 	return &Segment{
-		Phone:    pd.Header.PhoneNumber,
-		MsgID:    pd.Header.MsgID,
-		SegTotal: pd.Header.Frag.Total,
-		SegNo:    pd.Header.Frag.Index,
-		Data:     pd.Body,
+		Phone:       pd.Header.PhoneNumber,
+		MsgID:       pd.Header.MsgID,
+		SegTotal:    pd.Header.Frag.Total,
+		SegNo:       pd.Header.Frag.Index,
+		FirstSerial: pd.Header.SerialNumber - (pd.Header.Frag.Index - 1),
+		Data:        pd.Body,
 	}
 }
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index fa5935a..51d4501 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -213,7 +213,7 @@ func (mp *JT808MsgProcessor) Process(ctx context.Context, pkt *model.PacketData)
 	return data, nil
 }
 
-func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
+func processSegmentPacket(ctx context.Context, pkt *model.PacketData) (*model.ProcessData, error) {
 	// JT1078 4.1节定义，对每个分包回复8001
 	cache := storage.GetDeviceCache()
 	phone := pkt.Header.PhoneNumber
@@ -222,7 +222,7 @@ func processSegmentPacket(_ context.Context, pkt *model.PacketData) (*model.Proc
 	if errors.Is(err, storage.ErrDeviceNotFound) {
 		return nil, errors.Wrapf(err, "Fail to find device cache, phoneNumber=%s", phone)
 	}
-	session, err := storage.GetSession(device.SessionID)
+	session := ctx.Value(model.SessionCtxKey{}).(*model.Session)
 	header := model.GenMsgHeader(device, 0x8001, session.GetNextSerialNum())
 	outgoingMsg := &model.Msg8001{
 		Header:             header,
diff --git a/internal/protocol/packet_codec.go b/internal/protocol/packet_codec.go
index ef7cc8e..2cd49b8 100644
--- a/internal/protocol/packet_codec.go
+++ b/internal/protocol/packet_codec.go
@@ -20,6 +20,7 @@ const (
 var (
 	ErrEmptyPacket  = errors.New("Empty packet")
 	ErrVerifyFailed = errors.New("Verify failed")
+	ErrFragIndex    = errors.New("Fragment index out of range")
 	ErrBodyLength   = errors.New("Body length mismatch")
 	ErrEncodeType   = errors.New("Error data type")
 )
@@ -71,10 +72,20 @@ func (pc *JT808PacketCodec) Decode(payload []byte) (*model.PacketData, error) {
 	}
 
 	if pd.Header.IsFragmented() {
+		if pd.Header.Frag.Index == 0 || pd.Header.Frag.Index > pd.Header.Frag.Total {
+			return nil, ErrFragIndex
+		}
 		seg := model.NewSegment(pd)
-		pd.SegCompleted = storage.CacheSegment(seg)
-		// 分包接收完成
-		pd.Body = seg.Data
+		body, completed := storage.CacheSegment(seg)
+		if completed {
+			// 分包接收完成，还原为完整的消息
+			pd.SegCompleted = true
+			pd.Body = body
+			pd.Header.Frag = nil
+			pd.Header.Attr.PacketFragmented = 0
+			pd.Header.Attr.PacketFragmentedDesc = model.PacketFragmentedFalse
+			pd.Header.Attr.BodyLength = uint16(len(body))
+		}
 	}
 
 	pd.Header.Idx = 0 // reset idx
diff --git a/internal/storage/segment_cache.go b/internal/storage/segment_cache.go
index 299356d..e08b08a 100644
--- a/internal/storage/segment_cache.go
+++ b/internal/storage/segment_cache.go
@@ -1,6 +1,7 @@
 package storage
 
 import (
+	"strconv"
 	"strings"
 	"sync"
 
@@ -25,21 +26,25 @@ func getSegmentCache() *SegmentCache {
 	return segmentCacheSingleton
 }
 
-func CacheSegment(seg *model.Segment) bool {
+// 缓存分包。如果所属消息的分包已到齐，返回完整的消息体
+func CacheSegment(seg *model.Segment) ([]byte, bool) {
 	b := new(strings.Builder)
 	b.WriteString(seg.Phone)
 	b.WriteString("/")
-	b.WriteRune(rune(seg.MsgID))
+	b.WriteString(strconv.Itoa(int(seg.MsgID)))
 	key := b.String()
 	cache := getSegmentCache()
 	cache.mutex.Lock()
 	defer cache.mutex.Unlock()
 	s, ok := cache.cacheByKey[key]
-	if !ok {
-		cache.cacheByKey[key] = seg
-		return s.IsComplete()
+	if !ok || !s.SameMsg(seg) { // 新的消息，之前未到齐的消息不再等待
+		s = seg
+		cache.cacheByKey[key] = s
 	}
 	s.Merge(seg)
-	// cache.cacheByKey[key] = s
-	return s.IsComplete()
+	if !s.IsComplete() {
+		return nil, false
+	}
+	delete(cache.cacheByKey, key)
+	return s.Data, true
 }
-- 
2.43.0


From 61c07814bc047e81a5f04b9ec5ae86e4bcbd3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:32 +0000
Subject: [PATCH 19/24] fix: a refused terminal must not authenticate

The simulated terminal answered every registration reply with an
authentication, also a refusal. Its made-up code then dropped the registration
of the terminal that holds the phone number.
---
 internal/client/tcp_client.go      | 1 +
 internal/protocol/msg_processor.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/internal/client/tcp_client.go b/internal/client/tcp_client.go
index 02af340..0006208 100644
--- a/internal/client/tcp_client.go
+++ b/internal/client/tcp_client.go
@@ -53,6 +53,7 @@ func (cli *TCPClient) Start() {
 
 		switch {
 		case errors.Is(err, io.EOF), errors.Is(err, io.ErrClosedPipe), errors.Is(err, net.ErrClosed), errors.Is(err, protocol.ErrActiveClose):
+			cli.Stop()
 			return // close connection when EOF or closed
 		default:
 			time.Sleep(1 * time.Second)
diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 51d4501..837a6c8 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -427,6 +427,11 @@ func processMsg8100(_ context.Context, data *model.ProcessData) error {
 	in := data.Incoming.(*model.Msg8100)
 	out := data.Outgoing.(*model.Msg0102)
 
+	// 注册失败，没有可用的鉴权码
+	if in.Result != model.ResSuccess {
+		return ErrActiveClose
+	}
+
 	cache := storage.GetDeviceCache()
 	device, err := cache.GetDeviceByPhone(in.Header.PhoneNumber)
 	if errors.Is(err, storage.ErrDeviceNotFound) {
-- 
2.43.0


From 1c6faf85b356168dfc912584c24df0f64257972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:34 +0000
Subject: [PATCH 20/24] fix: keep parameters that are set for the first time

The simulated terminal acknowledged a parameter it had no value for yet and
then forgot it.
---
 internal/protocol/model/device_params.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/internal/protocol/model/device_params.go b/internal/protocol/model/device_params.go
index ee8e957..e8042b9 100644
--- a/internal/protocol/model/device_params.go
+++ b/internal/protocol/model/device_params.go
@@ -65,10 +65,7 @@ func (p *DeviceParams) Update(newParams *DeviceParams) {
 		paramMap[param.ParamID] = param
 	}
 	for _, newParam := range newParams.Params {
-		id := newParam.ParamID
-		if _, ok := paramMap[id]; ok {
-			paramMap[id] = newParam
-		}
+		paramMap[newParam.ParamID] = newParam
 	}
 	mergeParams := []*ParamData{}
 	for _, param := range paramMap {
-- 
2.43.0


From 6ff4ef235c2ce7cfacf64c4d9d6a7fa34b05230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:36 +0000
Subject: [PATCH 21/24] fix: length of parameter 0x0076 in the simulated
 parameters

Decoding the built-in list ran past its end; the panic cost the simulated
terminal its connection at the first parameter query.
---
 internal/protocol/msg_processor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/protocol/msg_processor.go b/internal/protocol/msg_processor.go
index 837a6c8..30209e2 100644
--- a/internal/protocol/msg_processor.go
+++ b/internal/protocol/msg_processor.go
@@ -505,7 +505,7 @@ func processMsg8104(_ context.Context, data *model.ProcessData) error {
 			"00000030045A4A6830" +
 			"00000031026C64" +
 			"000000320409302130" +
-			"0000007623030000010100010202000103030001"
+			"000000760F030000010100010202000103030001"
 		_ = out.Parameters.Decode(out.Header.PhoneNumber, uint8(paramCnt), hex.Str2Byte(paramByteStr))
 		paramCache.CacheDeviceParams(out.Parameters)
 	} else {
-- 
2.43.0


From cb11af5cac7401ae58f311b8d9bdc249eaeeec7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:07 +0000
Subject: [PATCH 22/24] fix: measure silence with the monotonic clock so that a
 clock step does not expire talking terminals

---
 internal/protocol/model/device.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index c2af7cb..f1ce1d6 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -55,14 +55,13 @@ func NewDevice(in *Msg0100, session *Session) *Device {
 	}
 }
 
+// 用time.Since计算静默时长，依据单调时钟，不受系统时间调整影响
 func (d *Device) ShouleTurnOffline() bool {
-	now := time.Now().UnixMilli()
-	return d.Status != DeviceStatusOffline && now > d.Keepalive.Milliseconds()+d.LastestComTime.UnixMilli()
+	return d.Status != DeviceStatusOffline && time.Since(d.LastestComTime) > d.Keepalive
 }
 
 func (d *Device) ShouldClear() bool {
-	now := time.Now().UnixMilli()
-	return d.Status == DeviceStatusOffline && now > d.Keepalive.Milliseconds()+d.LastestComTime.UnixMilli()
+	return d.Status == DeviceStatusOffline && time.Since(d.LastestComTime) > d.Keepalive
 }
 
 // 终端设备地理位置状态相关信息
-- 
2.43.0


From 40c981ed932f898ef57ec9efd0619689381239d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:19 +0000
Subject: [PATCH 23/24] fix: put the latitude and longitude type into their own
 status bits

---
 internal/protocol/model/device.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/protocol/model/device.go b/internal/protocol/model/device.go
index f1ce1d6..3225119 100644
--- a/internal/protocol/model/device.go
+++ b/internal/protocol/model/device.go
@@ -195,8 +195,8 @@ func (g *GeoMeta) Encode() uint32 {
 	var bitNum uint32
 	bitNum += uint32(g.ACCStatus)
 	bitNum += uint32(g.LocationStatus) << 1
-	bitNum += uint32(g.LongitudeType) << 2
-	bitNum += uint32(g.LatitudeType) << 3
+	bitNum += uint32(g.LatitudeType) << 2
+	bitNum += uint32(g.LongitudeType) << 3
 	bitNum += uint32(g.OperatingStatus) << 4
 	bitNum += uint32(g.GeoEncryptionStatus) << 5
 	bitNum += uint32(g.LoadStatus) << 8
-- 
2.43.0


From 6d144bd464f5215ece5a9fbebad54977b3fddfff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:50 +0000
Subject: [PATCH 24/24] fix: start without a log file when the log directory
 cannot be created

newRollingFile returns nil then, and writing to the nil writer ended the
process with a nil pointer dereference before it served anything.
---
 pkg/logger/logger.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/logger/logger.go b/pkg/logger/logger.go
index c349e9c..660787f 100644
--- a/pkg/logger/logger.go
+++ b/pkg/logger/logger.go
@@ -69,9 +69,11 @@ func Configure(config *Config) *Logger {
 	}
 	if config.FileLoggingEnabled {
 		fw := newRollingFile(config)
-		if config.EncodeLogsAsJSON {
+		switch {
+		case fw == nil: // 日志目录创建失败，不写日志文件
+		case config.EncodeLogsAsJSON:
 			writers = append(writers, fw)
-		} else {
+		default:
 			writers = append(writers, newConsoleWriter(fw))
 		}
 	}
-- 
2.43.0

