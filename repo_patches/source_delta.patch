From 7dbfb447f6ba7de6420cd124485e4cde969f7115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 01/39] fix: reject values of named types that cannot be
 compared or encoded

---
 pkg/models/datatypes/encapsulated_value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index d31ff57..2ba97d2 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -175,6 +175,11 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 
 		kind := reflect.ValueOf(data).Kind()
 
+		// named types (time.Duration for example) share the kind, but cannot be compared or encoded as the DataType
+		if pkgPath := reflect.TypeOf(data).PkgPath(); pkgPath != "" {
+			return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'%s' has Data of the named type: %T", dataType.ToString(), data)}
+		}
+
 		switch dataType {
 		case T_uint8:
 			if kind != reflect.Uint8 {
-- 
2.43.0


From b0771ec4ea86d3f2c8c57448758add494fd17d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 02/39] fix: reject NaN, which has no place in the order of
 values

---
 pkg/models/datatypes/encapsulated_value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/models/datatypes/encapsulated_value.go b/pkg/models/datatypes/encapsulated_value.go
index 2ba97d2..a20024e 100644
--- a/pkg/models/datatypes/encapsulated_value.go
+++ b/pkg/models/datatypes/encapsulated_value.go
@@ -3,6 +3,7 @@ package datatypes
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"reflect"
 	"strconv"
 
@@ -180,6 +181,11 @@ func ValidateTypeAndData(dataType, minAllowedKeyType, maxAllowedKeyType DataType
 			return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'%s' has Data of the named type: %T", dataType.ToString(), data)}
 		}
 
+		// NaN is not ordered, so it would be found as any other value in a tree
+		if value := reflect.ValueOf(data); value.CanFloat() && math.IsNaN(value.Float()) {
+			return &errors.ModelError{Field: "Type", Err: fmt.Errorf("'%s' has Data that is not a number", dataType.ToString())}
+		}
+
 		switch dataType {
 		case T_uint8:
 			if kind != reflect.Uint8 {
-- 
2.43.0


From f84c8b794b9b58cf8071b255d863952f17bde037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:12 +0000
Subject: [PATCH 03/39] fix: a query with only Or clauses matched every set of
 key values

---
 .../v1/query_associated_action/associated_action_query.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
index bc92797..9d29d2a 100644
--- a/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
+++ b/pkg/models/api/common/v1/query_associated_action/associated_action_query.go
@@ -97,7 +97,8 @@ func KeyValuesToExactAssociatedActionQuery(keyValues datatypes.KeyValues) *Assoc
 
 // used to know if arbitrary tags, would be found from a query
 func (q *AssociatedActionQuery) MatchTags(tags datatypes.KeyValues) bool {
-	matched := true
+	// when there are only OR queries, then at least one of those needs to match
+	matched := q.Selection != nil || len(q.And) != 0 || len(q.Or) == 0
 
 	// if Query is not nil, check the tags
 	if q.Selection != nil {
-- 
2.43.0


From b033db92e5f9f1e8c50e822436cfaa34187037e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 04/39] fix: a lock or item timeout that is not positive
 crashed the service

---
 pkg/models/api/locker/v1/lock.go | 4 ++--
 pkg/models/api/willow/v1/item.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/models/api/locker/v1/lock.go b/pkg/models/api/locker/v1/lock.go
index 0df335d..4c37fff 100644
--- a/pkg/models/api/locker/v1/lock.go
+++ b/pkg/models/api/locker/v1/lock.go
@@ -118,8 +118,8 @@ type LockProperties struct {
 
 func (lockProperties *LockProperties) Validate() *errors.ModelError {
 	if lockProperties.Timeout != nil {
-		if *lockProperties.Timeout == 0 {
-			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration of 0. Requires a valid time duration represented as int64 nanosecond")}
+		if *lockProperties.Timeout <= 0 {
+			return &errors.ModelError{Field: "Timeout", Err: fmt.Errorf("received a timeout duration that is not greater than 0. Requires a valid time duration represented as int64 nanosecond")}
 		}
 	}
 
diff --git a/pkg/models/api/willow/v1/item.go b/pkg/models/api/willow/v1/item.go
index e1f3cd6..9841f92 100644
--- a/pkg/models/api/willow/v1/item.go
+++ b/pkg/models/api/willow/v1/item.go
@@ -141,6 +141,10 @@ func (itemProperties *ItemProperties) Validate() *errors.ModelError {
 		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("received a null value")}
 	}
 
+	if *itemProperties.TimeoutDuration <= 0 {
+		return &errors.ModelError{Field: "TimeoutDuration", Err: fmt.Errorf("must be greater than 0, but received '%s'", *itemProperties.TimeoutDuration)}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 39e25f840fdb7e2157b6d80ecf7ee3e2c6355a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 05/39] fix: a null channel in a list of channels panicked its
 validation

---
 pkg/models/api/willow/v1/channels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/models/api/willow/v1/channels.go b/pkg/models/api/willow/v1/channels.go
index 1cb462d..546c13d 100644
--- a/pkg/models/api/willow/v1/channels.go
+++ b/pkg/models/api/willow/v1/channels.go
@@ -18,6 +18,10 @@ func (c Channels) Validate() *errors.ModelError {
 	}
 
 	for index, singleChan := range c {
+		if singleChan == nil {
+			return &errors.ModelError{Field: fmt.Sprintf("[%d]", index), Err: fmt.Errorf("Channel cannot be null")}
+		}
+
 		if err := singleChan.Validate(); err != nil {
 			return &errors.ModelError{Field: fmt.Sprintf("[%d]", index), Child: err}
 		}
-- 
2.43.0


From 964f9d335a3ea7c0c85af055572963f449327626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 06/39] fix: deleting a channel continued after a bad request
 was refused

---
 internal/willow/api/v1/handlers/channel_handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/willow/api/v1/handlers/channel_handler.go b/internal/willow/api/v1/handlers/channel_handler.go
index bb9a37c..25cbc71 100644
--- a/internal/willow/api/v1/handlers/channel_handler.go
+++ b/internal/willow/api/v1/handlers/channel_handler.go
@@ -49,11 +49,13 @@ func (qh queueHandler) ChannelDelete(w http.ResponseWriter, r *http.Request) {
 	if err := json.NewDecoder(r.Body).Decode(&keyValues); err != nil {
 		logger.Warn("failed to decode request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := keyValues.Validate(datatypes.MinDataType, datatypes.MaxWithoutAnyDataType); err != nil {
 		logger.Warn("failed to validated request", zap.Error(err))
 		_, _ = api.ModelEncodeResponse(w, http.StatusBadRequest, errors.ServerErrorModelRequestValidation(err))
+		return
 	}
 
 	if err := qh.queueClient.DeleteChannel(ctx, urlrouter.GetNamedParamters(r.Context())["queue_name"], keyValues); err != nil {
-- 
2.43.0


From 72370f470ffba1137d51fde1e866450bf7fcb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 07/39] fix: releasing a lock reported success when the release
 was refused

---
 internal/locker/api/v1/handlers/locker_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/locker/api/v1/handlers/locker_handler.go b/internal/locker/api/v1/handlers/locker_handler.go
index 02a7b4f..7c84955 100644
--- a/internal/locker/api/v1/handlers/locker_handler.go
+++ b/internal/locker/api/v1/handlers/locker_handler.go
@@ -144,7 +144,10 @@ func (lh *lockerHandler) Release(w http.ResponseWriter, r *http.Request) {
 	namedParameters := urlrouter.GetNamedParamters(r.Context())
 
 	// release the lock
-	lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim)
+	if releaseError := lh.generalLocker.Release(ctx, namedParameters["lock_id"], lockClaim); releaseError != nil {
+		_, _ = api.ModelEncodeResponse(w, releaseError.StatusCode, releaseError)
+		return
+	}
 
 	// respond and ignore the errors
 	_, _ = api.ModelEncodeResponse(w, http.StatusNoContent, nil)
-- 
2.43.0


From c2170e1fafb95dee987892a6b5a692c3f632de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 08/39] fix: acknowledging an item reported success for an
 unexpected answer

---
 pkg/clients/willow_client/item.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 1643be2..9d0d031 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -207,10 +207,8 @@ func (item *Item) ACK(ctx context.Context, passed bool) error {
 
 		return apiError
 	default:
-		item.forwardError(fmt.Errorf("unexpected status code while heartbeating: %d", resp.StatusCode))
+		return fmt.Errorf("unexpected status code while acknowledging the item: %d", resp.StatusCode)
 	}
-
-	return nil
 }
 
 // get the dequeued item
-- 
2.43.0


From 0cc00681706d2f543f4691e77db41929d9de0282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 09/39] fix: a failed heartbeat after an acknowledgement
 crashed the client

---
 pkg/clients/willow_client/item.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 9d0d031..be71132 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -106,8 +106,9 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 						//nothing to do here. race between ack and heartbeat
 					default:
 						item.forwardError(err)
-						continue
 					}
+
+					continue
 				}
 
 				// parse the response
-- 
2.43.0


From 9e21698fb5e076440897b52ccc45b17112985811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 10/39] fix: item heartbeats were refused for a missing content
 type

---
 pkg/clients/willow_client/item.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index be71132..02522dd 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -97,6 +97,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 					item.forwardError(err)
 					continue
 				}
+				clients.AddHeadersFromContext(req, nil)
 
 				resp, err := client.Do(req)
 				// error making the request. This should not happen
-- 
2.43.0


From ee4b30c3139311df558bff2e5ce0c6ef215c1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:55 +0000
Subject: [PATCH 11/39] fix: heartbeating a timeout of a few nanoseconds
 crashed the clients

---
 pkg/clients/locker_client/lock.go | 2 +-
 pkg/clients/willow_client/item.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c5a0828..c329153 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -87,7 +87,7 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		adjustedTimeout := *lockResponse.Spec.Properties.Timeout - (*lockResponse.Spec.Properties.Timeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
 		timeoutTicker := time.NewTicker(lock.timeout)
 
 		for {
diff --git a/pkg/clients/willow_client/item.go b/pkg/clients/willow_client/item.go
index 02522dd..925f6f5 100644
--- a/pkg/clients/willow_client/item.go
+++ b/pkg/clients/willow_client/item.go
@@ -66,7 +66,7 @@ func newItem(url string, client *http.Client, queueName string, dequeueItem *v1w
 		// set ticker to be ((timeout - 10%) /3). This way we try and heartbeat at least 3 times before a failure occurs
 		lastHeartbeat := time.Now()
 		adjustedTimeout := item.heartbeatTimeout - (item.heartbeatTimeout / 10)
-		ticker := time.NewTicker(adjustedTimeout / 3)
+		ticker := time.NewTicker(max(adjustedTimeout/3, 1))
 
 		for {
 			select {
-- 
2.43.0


From 555f7bd0893639541be19466d8503b24656a3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 12/39] fix: a heartbeat that cannot be encoded called a
 callback that was not given

---
 pkg/clients/locker_client/lock.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/locker_client/lock.go b/pkg/clients/locker_client/lock.go
index c329153..81d9cc9 100644
--- a/pkg/clients/locker_client/lock.go
+++ b/pkg/clients/locker_client/lock.go
@@ -101,7 +101,9 @@ func newLock(lockResponse *v1locker.Lock, url string, client *http.Client, heart
 			case <-ticker.C:
 				lockClaimData, err := api.ModelEncodeRequest(&v1locker.LockClaim{SessionID: lockResponse.State.SessionID})
 				if err != nil {
-					heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					if heartbeatErrorCallback != nil {
+						heartbeatErrorCallback(fmt.Errorf("failed to encode heartbeat request: %w", err))
+					}
 					return
 				}
 
-- 
2.43.0


From ebb57fa76111bf96f36eea122eb6cab1d80c1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 13/39] fix: obtaining a lock with invalid parameters crashed
 or was not reported

---
 pkg/clients/locker_client/locker_client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 7b1ea7b..0fb4a33 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -124,6 +124,10 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 	var returnLock Lock
 	var lockErr error
 
+	if err := lockRequest.ValidateSpecOnly(); err != nil {
+		return nil, err
+	}
+
 	// obtain the desired lock
 	onCreate := func() any {
 		for {
@@ -214,7 +218,9 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 	}
 
 	// create or find the lock if we already have it
-	_, _ = lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind)
+	if _, err := lc.locks.CreateOrFind(lockRequest.Spec.DBDefinition.KeyValues, onCreate, onFind); err != nil && lockErr == nil {
+		lockErr = err
+	}
 
 	return returnLock, lockErr
 }
-- 
2.43.0


From 572888ef600f5264cb1145cf422e3fd4ce5d288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 14/39] fix: an answer without the lock's timeout crashed the
 locker client

---
 pkg/clients/locker_client/locker_client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/clients/locker_client/locker_client.go b/pkg/clients/locker_client/locker_client.go
index 0fb4a33..88faa7b 100644
--- a/pkg/clients/locker_client/locker_client.go
+++ b/pkg/clients/locker_client/locker_client.go
@@ -170,6 +170,10 @@ func (lc *LockClient) ObtainLock(ctx context.Context, lockRequest *v1locker.Lock
 					lockErr = err
 					return nil
 				}
+				if createLockResponse.Spec.Properties == nil || createLockResponse.Spec.Properties.Timeout == nil {
+					lockErr = fmt.Errorf("the locker service answered without the lock's timeout")
+					return nil
+				}
 
 				// wrapper is needed so we ensure that the lock is removed from the tree on removal
 				lostLockWrapper := func() {
-- 
2.43.0


From 685305f83aed59ce6c010517f343b6d3f2259a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:28 +0000
Subject: [PATCH 15/39] fix: reject a port that is not in 0..65535 when a
 configuration is validated

---
 internal/config/limiter_config.go | 2 +-
 internal/config/locker_config.go  | 2 +-
 internal/config/willow_config.go  | 8 ++++++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/config/limiter_config.go b/internal/config/limiter_config.go
index e166f76..815f9ee 100644
--- a/internal/config/limiter_config.go
+++ b/internal/config/limiter_config.go
@@ -142,7 +142,7 @@ func (lc *LimiterConfig) validate() error {
 	LimiterPort, err := strconv.Atoi(*lc.LimiterPort)
 	if err != nil {
 		return fmt.Errorf("error parsing 'limiter-port': %w", err)
-	} else if LimiterPort > 65535 {
+	} else if LimiterPort < 0 || LimiterPort > 65535 {
 		return fmt.Errorf("flag 'limiter-port' is invalid: '%d'. Must be set to a proper port below 65536", LimiterPort)
 	}
 
diff --git a/internal/config/locker_config.go b/internal/config/locker_config.go
index 25e2f8f..23f89f0 100644
--- a/internal/config/locker_config.go
+++ b/internal/config/locker_config.go
@@ -125,7 +125,7 @@ func (lc *LockerConfig) validate() error {
 	LockerPort, err := strconv.Atoi(*lc.Port)
 	if err != nil {
 		return fmt.Errorf("error parsing 'port': %w", err)
-	} else if LockerPort > 65535 {
+	} else if LockerPort < 0 || LockerPort > 65535 {
 		return fmt.Errorf("flag 'port' is invalid: '%d'. Must be set to a proper port below 65536", LockerPort)
 	}
 
diff --git a/internal/config/willow_config.go b/internal/config/willow_config.go
index 38ca504..bb5c809 100644
--- a/internal/config/willow_config.go
+++ b/internal/config/willow_config.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"os"
+	"strconv"
 )
 
 var (
@@ -159,6 +160,13 @@ func (wc *WillowConfig) validate() error {
 		return fmt.Errorf("expected config 'LogLevel' to be [debug | info]. Received: '%s'", *wc.logLevel)
 	}
 
+	// server port
+	if willowPort, err := strconv.Atoi(*wc.Port); err != nil {
+		return fmt.Errorf("error parsing 'port': %w", err)
+	} else if willowPort < 0 || willowPort > 65535 {
+		return fmt.Errorf("flag 'port' is invalid: '%d'. Must be set to a proper port below 65536", willowPort)
+	}
+
 	if *wc.InsecureHttp {
 		if *wc.ServerCA != "" {
 			return fmt.Errorf("flag 'server-ca' cannot be set with 'insecure-http'")
-- 
2.43.0


From 24574a4bb2ce6da159cbf6ed6f3131e12b08014d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 16/39] fix: heartbeats and releases blocked while no session
 held a lock, deadlocking the locker

---
 internal/locker/lock_manager/exclusive_lock.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/locker/lock_manager/exclusive_lock.go b/internal/locker/lock_manager/exclusive_lock.go
index 4874d61..d113cf5 100644
--- a/internal/locker/lock_manager/exclusive_lock.go
+++ b/internal/locker/lock_manager/exclusive_lock.go
@@ -124,6 +124,13 @@ func (exclusiveLock *exclusiveLock) Execute(ctx context.Context) error {
 
 			exclusiveLock.clientLostResponse <- false
 
+		// no session holds the lock, so any heartbeat or release is for an invalid session. These need to be answered since
+		// the callers block operations on the tree, such as recording a lost client, until they recieve a response
+		case <-exclusiveLock.heartbeat:
+			exclusiveLock.heartbeatResponse <- false
+		case <-exclusiveLock.release:
+			exclusiveLock.releaseResponse <- failedRelease
+
 		// client was able to claim the lock.
 		// NOTE: this is a write operation so the caller can get a callback function to call. This way they do not
 		// need to save off a variable for the lock in the exclusive_locker
-- 
2.43.0


From 036129b049f269d464f3ec47a0e5a46c883e2b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 17/39] fix: querying locks read the session and timeout of a
 lock without its locks

---
 internal/locker/lock_manager/exclusive_locker.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/locker/lock_manager/exclusive_locker.go b/internal/locker/lock_manager/exclusive_locker.go
index ee21635..efb4b11 100644
--- a/internal/locker/lock_manager/exclusive_locker.go
+++ b/internal/locker/lock_manager/exclusive_locker.go
@@ -145,6 +145,7 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 		exclusiveLock := associatedKeyValues.Value().(*exclusiveLock)
 
 		var expireTime time.Duration
+		lockTimeout := exclusiveLock.getLockTimeout()
 		lastHeartbeatTime := exclusiveLock.getLastHeartbeatTime()
 		if lastHeartbeatTime == (time.Time{}) {
 			expireTime = 0
@@ -158,12 +159,12 @@ func (exclusiveLocker *exclusiveLocker) LocksQuery(ctx context.Context, query *q
 					KeyValues: associatedKeyValues.KeyValues(),
 				},
 				Properties: &v1locker.LockProperties{
-					Timeout: &exclusiveLock.lockTimeout,
+					Timeout: &lockTimeout,
 				},
 			},
 			State: &v1locker.LockState{
 				LockID:             associatedKeyValues.AssociatedID(),
-				SessionID:          exclusiveLock.sessionID,
+				SessionID:          exclusiveLock.getSessionID(),
 				TimeTillExipre:     expireTime,
 				LocksHeldOrWaiting: exclusiveLock.clientsWaitingForClaim.Load(),
 			},
-- 
2.43.0


From 17be3a3b2d129dbe014743f0181dc9b56468fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:58 +0000
Subject: [PATCH 18/39] fix: an increment of more than one could exceed a
 limit, and large counters overflowed the check

---
 .../limiter/counters/counter_client_local.go    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 568c955..1996869 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -197,7 +197,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						continue
 					}
 
-					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *rule.Spec.Properties.Limit); counterErr != nil {
+					if counterErr := cm.checkCounters(ctx, rule.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *rule.Spec.Properties.Limit); counterErr != nil {
 						return counterErr
 					}
 				} else {
@@ -208,7 +208,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 						}
 
 						// 2. check the limt
-						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *override.Spec.Properties.Limit); counterErr != nil {
+						if counterErr := cm.checkCounters(ctx, override.Spec.DBDefinition.GroupByKeyValues.Keys(), counter.Spec.DBDefinition.KeyValues, *counter.Spec.Properties.Counters, *override.Spec.Properties.Limit); counterErr != nil {
 							return counterErr
 						}
 					}
@@ -234,7 +234,7 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 	return nil
 }
 
-func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, limit int64) *errors.ServerError {
+func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []string, counteKeyValyes datatypes.KeyValues, increment int64, limit int64) *errors.ServerError {
 	_, logger := middleware.GetNamedMiddlewareLogger(ctx, "checkCounters")
 
 	// construct the query for all possible rules that need to be found
@@ -255,10 +255,13 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 		}
 	}
 
-	counter := int64(0)
+	// how many counters can exist already, so that the increment stays within the limit
+	remaining := limit - increment
 	bTreeAssociatedOnIterate := func(item btreeassociated.AssociatedKeyValues) bool {
-		counter += item.Value().(Counter).Load()
-		return counter < limit // check to exit query early if this fails
+		if remaining >= 0 {
+			remaining -= item.Value().(Counter).Load()
+		}
+		return remaining >= 0 // check to exit query early if this fails
 	}
 
 	if err := cm.counters.QueryAction(query, bTreeAssociatedOnIterate); err != nil {
@@ -267,7 +270,7 @@ func (cm *counterClientLocal) checkCounters(ctx context.Context, ruleKeys []stri
 	}
 
 	// final check of the counters
-	if counter >= limit {
+	if remaining < 0 {
 		logger.Info("Limit already reached")
 		return &errors.ServerError{Message: fmt.Sprintf("Limit has already been reached for rule"), StatusCode: http.StatusConflict}
 	}
-- 
2.43.0


From ce849f75e533c5e3373a3d1d393c2572f8b90ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 19/39] fix: an increment cancelled while obtaining its locks
 panicked

---
 internal/limiter/counters/counter_client_local.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/limiter/counters/counter_client_local.go b/internal/limiter/counters/counter_client_local.go
index 1996869..4ee5ce2 100644
--- a/internal/limiter/counters/counter_client_local.go
+++ b/internal/limiter/counters/counter_client_local.go
@@ -159,6 +159,12 @@ func (cm *counterClientLocal) IncrementCounters(ctx context.Context, lockerClien
 					return errors.InternalServerError
 				}
 
+				// the request was canceled before the lock was obtained
+				if lockerLock == nil {
+					logger.Warn("request was canceled while obtaining a lock from the locker service", zap.Any("key values", lockKeyValues))
+					return errors.InternalServerError
+				}
+
 				// setup monitor for when a lock is released
 				lockerLocks = append(lockerLocks, lockerLock)
 				if err := channelOps.MergeOrToOne(lockerLock.Done()); err != nil {
-- 
2.43.0


From c8515901597f2a03834cdc98885b92ff125e2d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 20/39] fix: a failed acknowledgement of an item that was not
 being processed was reported as a success

---
 .../brokers/queue_channels/memory/memory_queue_channel.go      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 502cf73..5e177ad 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -479,7 +479,6 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 	// attempt to delete or requeue the item
 	canDelete := func(_ datatypes.EncapsulatedValue, treeItem any) bool {
-		attemptedDelete = true
 		queueItem := treeItem.(*item)
 
 		if timedOut {
@@ -488,6 +487,8 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 
 		// if the queue item was stopped here, then we know there was no async timeout processed for this item
 		if timedOut || queueItem.StopHeartbeater() {
+			attemptedDelete = true
+
 			// always update counters that the item is no longer running
 			if err := mqc.limterUpdateRunningValue(ctx, -1); err != nil {
 				// what should be the actual course of action here?
-- 
2.43.0


From 789058279af46797b20c54da552f5e7b44de50e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 21/39] fix: replacing the last item in place kept the timeout
 of the replaced item

---
 .../willow/brokers/queue_channels/memory/memory_queue_channel.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index 5e177ad..da6fb5b 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -364,6 +364,7 @@ func (mqc *memoryQueueChannel) Enqueue(ctx context.Context, enqueueItem *v1willo
 				queueItem.updateable = *enqueueItem.Spec.Properties.Updateable
 				queueItem.maxRetryAttempts = *enqueueItem.Spec.Properties.RetryAttempts
 				queueItem.retryPosition = *enqueueItem.Spec.Properties.RetryPosition
+				queueItem.heartbeatTimeout = *enqueueItem.Spec.Properties.TimeoutDuration
 				queueItem.retryCount = 0
 			}
 
-- 
2.43.0


From 5db71e0a8550ca5d056dd783d71f5018113576b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:59 +0000
Subject: [PATCH 22/39] fix: items dropped in favour of a requeued item stayed
 in the enqueued counter of the limiter

---
 .../queue_channels/memory/memory_queue_channel.go        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
index da6fb5b..208d2a5 100644
--- a/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
+++ b/internal/willow/brokers/queue_channels/memory/memory_queue_channel.go
@@ -519,6 +519,10 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 				if len(mqc.itemIDsEnqueued) >= 1 {
 					// just delete the item. since it is updateable, we want the next item in the queue to run anyways
 					if queueItemToDelete.updateable {
+						if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+							panic(err)
+						}
+
 						return true
 					}
 				}
@@ -555,6 +559,11 @@ func (mqc *memoryQueueChannel) failItem(ctx context.Context, itemID string, time
 			defer queueItemToCheck.lock.Unlock()
 
 			if queueItemToCheck.updateable {
+				// the last item is removed, so it is no longer enqueued
+				if err := mqc.limiterUpdateEnqueuedValue(ctx, -1); err != nil {
+					panic(err)
+				}
+
 				// "update" the last item by simply dropping it
 				mqc.itemIDsEnqueued[len(mqc.itemIDsEnqueued)-1] = itemID
 				return true
-- 
2.43.0


From 722137dd437e5a4c1199fba41b8b17a6c597b2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:28 +0000
Subject: [PATCH 23/39] fix: a failing limiter panicked updating and deleting a
 queue

---
 .../willow/brokers/queues/memory/memory_queue.go     | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index ec73b7c..a73f590 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -95,10 +95,12 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		},
 	})
 	if err != nil {
-		panic(err)
+		logger.Error("Failed to query the Limiter override", zap.Error(err))
+		return errors.InternalServerError
 	}
 	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to find the one Limiter override", zap.Int("found", len(overrides)))
+		return errors.InternalServerError
 	}
 
 	// need to create an override for the willow Rules in the limiter
@@ -139,10 +141,12 @@ func (mq *memoryQueue) Destroy(ctx context.Context, limiterRuleID, queueID strin
 		},
 	})
 	if err != nil {
-		panic(err)
+		logger.Error("Failed to query the Limiter override", zap.Error(err))
+		return errors.InternalServerError
 	}
 	if len(overrides) != 1 {
-		panic(overrides)
+		logger.Error("Failed to find the one Limiter override", zap.Int("found", len(overrides)))
+		return errors.InternalServerError
 	}
 
 	// need to delete the override for the willow Rules in the limiter
-- 
2.43.0


From b9a686efab2897f14125c2b46e1935fe52d87a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 24/39] fix: a queue update the limiter refused was shown as
 the limit of the queue

---
 internal/willow/brokers/queues/memory/memory_queue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/willow/brokers/queues/memory/memory_queue.go b/internal/willow/brokers/queues/memory/memory_queue.go
index a73f590..b86b164 100644
--- a/internal/willow/brokers/queues/memory/memory_queue.go
+++ b/internal/willow/brokers/queues/memory/memory_queue.go
@@ -67,7 +67,6 @@ func (mq *memoryQueue) ConfiguredLimit() int64 {
 
 func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateReq *v1willow.QueueProperties) *errors.ServerError {
 	ctx, logger := middleware.GetNamedMiddlewareLogger(ctx, "Update")
-	mq.configuredLimit.Store(*updateReq.MaxItems)
 
 	// get the original override id
 	overrides, err := mq.limiterClient.QueryOverrides(ctx, limiterRuleID, &queryassociatedaction.AssociatedActionQuery{
@@ -112,6 +111,9 @@ func (mq *memoryQueue) Update(ctx context.Context, limiterRuleID string, updateR
 		return errors.InternalServerError
 	}
 
+	// the limit is only changed once it is enforced by the limiter
+	mq.configuredLimit.Store(*updateReq.MaxItems)
+
 	return nil
 }
 
-- 
2.43.0


From 9a5d6c556b79f64c2c103b7973771608318e63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:39 +0000
Subject: [PATCH 25/39] fix: a queue without its properties was accepted and
 creating it panicked

---
 pkg/models/api/willow/v1/queue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/models/api/willow/v1/queue.go b/pkg/models/api/willow/v1/queue.go
index 09922ba..9d2f7f6 100644
--- a/pkg/models/api/willow/v1/queue.go
+++ b/pkg/models/api/willow/v1/queue.go
@@ -58,9 +58,7 @@ type QueueSpec struct {
 	// DBDefinition defines how to save the item in the Database
 	DBDefinition *QueueDBDefinition `json:"DBDefinition,omitempty"`
 
-	// Properties are the configurable/updateable fields for the Rule
-	//
-	// This is an optional field as all the properties are currently optional
+	// Properties are the configurable/updateable fields for the Queue
 	Properties *QueueProperties `json:"Properties,omitempty"`
 }
 
@@ -73,7 +71,9 @@ func (queueSpec *QueueSpec) Validate() *errors.ModelError {
 		}
 	}
 
-	if queueSpec.Properties != nil {
+	if queueSpec.Properties == nil {
+		return &errors.ModelError{Field: "Properties", Err: fmt.Errorf("received a null value")}
+	} else {
 		if err := queueSpec.Properties.Validate(); err != nil {
 			return &errors.ModelError{Field: "Properties", Child: err}
 		}
-- 
2.43.0


From 4bec5c6d3e31f082bb7e96c9ebad157a7be4ba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:10 +0000
Subject: [PATCH 26/39] fix: a creation that was given up lost the greatest key
 of the node it looked at

---
 .../datastructures/btree/threadsafe_create.go | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/datastructures/btree/threadsafe_create.go b/internal/datastructures/btree/threadsafe_create.go
index a1f7d5d..85d2093 100644
--- a/internal/datastructures/btree/threadsafe_create.go
+++ b/internal/datastructures/btree/threadsafe_create.go
@@ -308,16 +308,16 @@ func (bn *threadSafeBNode) createTreeItem(key datatypes.EncapsulatedValue, onCre
 				return ErrorKeyAlreadyExists
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift the greater values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
@@ -342,16 +342,16 @@ func (bn *threadSafeBNode) createOrFindTreeItem(key datatypes.EncapsulatedValue,
 				return
 			}
 
-			// shift current values all 1 position
-			for i := bn.numberOfValues; i > index; i-- {
-				bn.keyValues[i] = bn.keyValues[i-1]
-			}
-
 			break
 		}
 	}
 
 	if value := onCreate(); value != nil {
+		// shift the greater values all 1 position
+		for i := bn.numberOfValues; i > index; i-- {
+			bn.keyValues[i] = bn.keyValues[i-1]
+		}
+
 		bn.numberOfValues++
 		bn.keyValues[index] = &keyValue{key: key, value: value}
 	}
-- 
2.43.0


From 8b2303f7b8af8dc9fbbead0805b3d5e1fba3820c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 27/39] fix: a channel that timed out while its queue was
 destroyed ended the service

---
 .../brokers/queue_channels/queue_channels_client_local.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/willow/brokers/queue_channels/queue_channels_client_local.go b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
index d1b664b..7333d9b 100644
--- a/internal/willow/brokers/queue_channels/queue_channels_client_local.go
+++ b/internal/willow/brokers/queue_channels/queue_channels_client_local.go
@@ -95,7 +95,7 @@ func (qccl *queueChannelsClientLocal) DestroyChannelsForQueue(ctx context.Contex
 
 	if err := qccl.queueChannels.DestroyOne(queueName, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying:
 			logger.Debug("Already destroying the queue's channels")
 			return &errors.ServerError{Message: "queue channels already destroying", StatusCode: http.StatusNoContent}
 		default:
@@ -119,7 +119,7 @@ func (qccl *queueChannelsClientLocal) DeleteChannel(ctx context.Context, queueNa
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel")
 			return &errors.ServerError{Message: "Already destroying the queue's channel", StatusCode: http.StatusConflict}
 		default:
@@ -141,7 +141,7 @@ func (qccl *queueChannelsClientLocal) attemptDeleteChannel(logger *zap.Logger, q
 
 	if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, channelKeyValues, deleteChannel); err != nil {
 		switch err {
-		case btreeonetomany.ErrorManyIDDestroying:
+		case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 			logger.Debug("Already destroying the queue's channel on a timeout")
 		default:
 			logger.Fatal("Failed to delete channels for queue", zap.Error(err))
@@ -306,7 +306,7 @@ func (qccl *queueChannelsClientLocal) ACK(ctx context.Context, queueName string,
 
 		if err := qccl.queueChannels.DeleteOneOfManyByKeyValues(queueName, ack.KeyValues, deleteChannel); err != nil {
 			switch err {
-			case btreeonetomany.ErrorManyIDDestroying:
+			case btreeonetomany.ErrorOneIDDestroying, btreeonetomany.ErrorManyKeyValuesDestroying:
 				logger.Debug("Not deleting the channel after ack as queue is being deleted")
 			default:
 				logger.Fatal("Failed to delete queue after ack", zap.Error(err))
-- 
2.43.0


From e55920e7ddb25a656af33d9a7a1d286fe3265059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:23 +0000
Subject: [PATCH 28/39] fix: a lookup of a key outside the type restrictions
 kept the index locked

---
 internal/datastructures/btree/threadsafe_find.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index a6b331a..e19d708 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -55,6 +55,9 @@ func (btree *threadSafeBTree) Find(key datatypes.EncapsulatedValue, typeRestrict
 				btree.root.findMatchType(key, func(item any) {
 					shouldContinue = onIterate(key, item)
 				})
+			} else if typeRestrictions.MaxDataType < datatypes.T_any {
+				// the key is outside of the restrictions and we are not going to search for Any
+				btree.lock.RUnlock()
 			}
 
 			// check for Any
@@ -257,6 +260,9 @@ func (btree *threadSafeBTree) FindLessThan(key datatypes.EncapsulatedValue, type
 			}
 
 			shouldContinue = btree.root.findLessThan(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// the key is outside of the restrictions and we are not going to search for Any
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -381,6 +387,9 @@ func (btree *threadSafeBTree) FindLessThanOrEqual(key datatypes.EncapsulatedValu
 			}
 
 			shouldContinue = btree.root.findLessThanOrEqual(key, typeRestrictions, onIterate)
+		} else if typeRestrictions.MaxDataType < datatypes.T_any {
+			// the key is outside of the restrictions and we are not going to search for Any
+			btree.lock.RUnlock()
 		}
 
 		// check for any Any
@@ -511,6 +520,8 @@ func (btree *threadSafeBTree) FindGreaterThan(key datatypes.EncapsulatedValue, t
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThan(key, typeRestrictions, onIterate)
+		} else {
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
@@ -615,6 +626,8 @@ func (btree *threadSafeBTree) FindGreaterThanOrEqual(key datatypes.EncapsulatedV
 			btree.lock.RUnlock()
 
 			btree.root.findGreaterThanOrEqual(key, typeRestrictions, onIterate)
+		} else {
+			btree.lock.RUnlock()
 		}
 	} else {
 		btree.lock.RUnlock()
-- 
2.43.0


From d770fe8cf67c737cb3513d38e93329f7bd41b068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:23 +0000
Subject: [PATCH 29/39] fix: lookups below and above a key ignored one side of
 the type restrictions

---
 .../datastructures/btree/threadsafe_find.go   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index e19d708..2435f44 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -301,6 +301,11 @@ func (bn *threadSafeBNode) findLessThan(key datatypes.EncapsulatedValue, typeRes
 			break
 		}
 
+		// the key in the tree is greater than the restriction. So need to check the children
+		if typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
+			break
+		}
+
 		// at this point, the object in the tree is within the range for the type
 		if keyValue.key.LessMatchType(key) {
 			// always attempt a recurse on the less than nodes to find all values
@@ -428,6 +433,11 @@ func (bn *threadSafeBNode) findLessThanOrEqual(key datatypes.EncapsulatedValue,
 			break
 		}
 
+		// the key in the tree is greater than the restriction. So need to check the children
+		if typeRestrictions.MaxDataType.LessMatchType(keyValue.key.Type) {
+			break
+		}
+
 		// at this point, the object in the tree is within the range for the type
 		if keyValue.key.LessMatchType(key) {
 			// always attempt a recurse on the less than nodes to find all values
@@ -544,6 +554,11 @@ func (bn *threadSafeBNode) findGreaterThan(key datatypes.EncapsulatedValue, type
 			break
 		}
 
+		// if the key in the tree is less than the restriction, just continue
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
+			continue
+		}
+
 		// if the key in the tree is less than the key we are searching for
 		if keyValue.key.LessMatchType(key) {
 			continue
@@ -650,6 +665,11 @@ func (bn *threadSafeBNode) findGreaterThanOrEqual(key datatypes.EncapsulatedValu
 			break
 		}
 
+		// if the key in the tree is less than the restriction, just continue
+		if keyValue.key.Type.LessMatchType(typeRestrictions.MinDataType) {
+			continue
+		}
+
 		// if the key in the tree is less than the key we are searching for
 		if keyValue.key.LessMatchType(key) {
 			continue
-- 
2.43.0


From 974900d30ae3e30130ef0d2583cc1992f951a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:23 +0000
Subject: [PATCH 30/39] fix: a stopped iteration unlocked children it had not
 locked

---
 internal/datastructures/btree/threadsafe_find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_find.go b/internal/datastructures/btree/threadsafe_find.go
index 2435f44..75b7a9a 100644
--- a/internal/datastructures/btree/threadsafe_find.go
+++ b/internal/datastructures/btree/threadsafe_find.go
@@ -171,7 +171,7 @@ func (bn *threadSafeBNode) iterate(typeRestrictions v1common.TypeRestrictions, c
 		// need to recurse to all potential children from the start index
 		if !children[i].iterate(typeRestrictions, callback) {
 			for unlockIndex := i + 1; unlockIndex < len(children); unlockIndex++ {
-				bn.children[unlockIndex].lock.RUnlock()
+				children[unlockIndex].lock.RUnlock()
 			}
 
 			return false
-- 
2.43.0


From 73b712ee64759137400c2bda8ee84d4eb9118fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:23 +0000
Subject: [PATCH 31/39] fix: an index whose first creation was given up was
 never empty

---
 internal/datastructures/btree/threadsafe_b_tree.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree/threadsafe_b_tree.go b/internal/datastructures/btree/threadsafe_b_tree.go
index a9a7494..02ba76e 100644
--- a/internal/datastructures/btree/threadsafe_b_tree.go
+++ b/internal/datastructures/btree/threadsafe_b_tree.go
@@ -92,7 +92,15 @@ func (bt *threadSafeBTree) Empty() bool {
 	bt.lock.RLock()
 	defer bt.lock.RUnlock()
 
-	return bt.root == nil
+	if bt.root == nil {
+		return true
+	}
+
+	// the root has no values when a creation callback decided not to create the first value
+	bt.root.lock.RLock()
+	defer bt.root.lock.RUnlock()
+
+	return bt.root.numberOfValues == 0
 }
 
 // general helper functions
-- 
2.43.0


From cb004d0114d6793f440f524b82ea5a16ec419b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:26 +0000
Subject: [PATCH 32/39] fix: a joined query without any selection panicked

---
 .../btree_associated/threadsafe_query.go      | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_query.go b/internal/datastructures/btree_associated/threadsafe_query.go
index b69f9da..fa40cf8 100644
--- a/internal/datastructures/btree_associated/threadsafe_query.go
+++ b/internal/datastructures/btree_associated/threadsafe_query.go
@@ -39,7 +39,7 @@ func (tsat *threadsafeAssociatedTree) QueryAction(query *queryassociatedaction.A
 	defer tsat.destroySyncer.ClearOperation()
 
 	// select all
-	if query.Selection == nil && query.And == nil && query.Or == nil {
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
 		wrappedPagination := func(_ datatypes.EncapsulatedValue, item any) bool {
 			return onQueryPagination(item.(AssociatedKeyValues))
 		}
@@ -89,6 +89,11 @@ func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.Associa
 	var validIDs set.Set[string]
 	validCounter := 0
 
+	// a joined query without any selection includes everything
+	if query.Selection == nil && len(query.And) == 0 && len(query.Or) == 0 {
+		return tsat.allIDs()
+	}
+
 	// find IDs based off the Where clause
 	if query.Selection != nil {
 		validIDs = tsat.findIDs(query.Selection)
@@ -132,6 +137,20 @@ func (tsat *threadsafeAssociatedTree) query(query *queryassociatedaction.Associa
 	return validIDs
 }
 
+// allIDs finds every ID saved in the tree
+func (tsat *threadsafeAssociatedTree) allIDs() set.Set[string] {
+	ids := set.New[string]()
+
+	if err := tsat.associatedIDs.Find(datatypes.Any(), v1common.TypeRestrictions{MinDataType: datatypes.MinDataType, MaxDataType: datatypes.MaxDataType}, func(_ datatypes.EncapsulatedValue, item any) bool {
+		ids.Add(item.(AssociatedKeyValues).AssociatedID())
+		return true
+	}); err != nil {
+		panic(err)
+	}
+
+	return ids
+}
+
 func (tsat *threadsafeAssociatedTree) findIDs(associatedSelection *queryassociatedaction.Selection) set.Set[string] {
 	// if there are associated IDs, then we need to run the key values query against those values
 	if len(associatedSelection.IDs) != 0 {
-- 
2.43.0


From fd1478ce4c3d520512b798d75848f0f26418e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:19 +0000
Subject: [PATCH 33/39] fix: deleting an item that is being destroyed kept its
 identifiers locked

---
 .../datastructures/btree_associated/threadsafe_delete.go     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index d3a5d66..8921cda 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -111,6 +111,11 @@ func (tsat *threadsafeAssociatedTree) Delete(keyValues datatypes.KeyValues, canD
 
 			// try and delte the ID's value from the tree
 			if err := tsat.associatedIDs.Delete(datatypes.String(idToDelete), btreeDelete); err != nil {
+				// nothing was deleted, so the nodes are no longer needed
+				for _, idNode := range idNodes {
+					idNode.lock.Unlock()
+				}
+
 				switch err {
 				case btree.ErrorKeyDestroying:
 					// this is fine since the key is already being desstroyed.
-- 
2.43.0


From 3b9eb263fc9452db26f4bbd8e7bf20512f2e217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:19 +0000
Subject: [PATCH 34/39] fix: a match ended at an item that was removed in the
 meantime

---
 internal/datastructures/btree_associated/threadsafe_match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_match.go b/internal/datastructures/btree_associated/threadsafe_match.go
index 9346a8c..6a03a49 100644
--- a/internal/datastructures/btree_associated/threadsafe_match.go
+++ b/internal/datastructures/btree_associated/threadsafe_match.go
@@ -136,7 +136,7 @@ func (tsat *threadsafeAssociatedTree) MatchAction(matchActionQuery *querymatchac
 
 		// run the callback for all the found IDs
 		for _, id := range validGroupedIDs.Values() {
-			shouldContinue := false
+			shouldContinue := true // an item that was removed in the meantime is skipped
 			tsat.associatedIDs.Find(datatypes.String(id), v1common.TypeRestrictions{MinDataType: datatypes.T_string, MaxDataType: datatypes.T_string}, func(key datatypes.EncapsulatedValue, item any) bool {
 				shouldContinue = onQueryPagination(item.(AssociatedKeyValues))
 				return shouldContinue
-- 
2.43.0


From ec8ce3eef7077e57c8a7082c9ffe18b3af6be77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:35 +0000
Subject: [PATCH 35/39] fix: a match with a maximum below its minimum was
 accepted and panicked

---
 .../api/common/v1/query_match_action/match_query.go  | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/models/api/common/v1/query_match_action/match_query.go b/pkg/models/api/common/v1/query_match_action/match_query.go
index 1ac3095..14e70d9 100644
--- a/pkg/models/api/common/v1/query_match_action/match_query.go
+++ b/pkg/models/api/common/v1/query_match_action/match_query.go
@@ -34,6 +34,18 @@ func (matchActionQuery *MatchActionQuery) Validate() *errors.ModelError {
 		}
 	}
 
+	// ensure the number of permutations are proper, -1 is an unlimited maximum
+	if matchActionQuery.MaxNumberOfPermutationKeyValues != nil && *matchActionQuery.MaxNumberOfPermutationKeyValues != -1 {
+		minNumber := 0
+		if matchActionQuery.MinNumberOfPermutationKeyValues != nil {
+			minNumber = *matchActionQuery.MinNumberOfPermutationKeyValues
+		}
+
+		if *matchActionQuery.MaxNumberOfPermutationKeyValues < minNumber {
+			return &errors.ModelError{Err: fmt.Errorf("MaxNumberOfPermutationKeyValues is less than MinNumberOfPermutationKeyValues")}
+		}
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 5f7d1d0428017c2f4e972ea23c2f758c267797d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:44 +0000
Subject: [PATCH 36/39] fix: the sorted values of a set were always empty

---
 internal/datastructures/set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datastructures/set/set.go b/internal/datastructures/set/set.go
index c8589c4..448ffa2 100644
--- a/internal/datastructures/set/set.go
+++ b/internal/datastructures/set/set.go
@@ -89,7 +89,7 @@ func (s *set[T]) Values() []T {
 }
 
 func (s *set[T]) SortedValues() []T {
-	values := []T{}
+	values := s.Values()
 
 	sort.Slice(values, func(i, j int) bool {
 		return values[i] < values[j]
-- 
2.43.0


From 5d095fcf0dcf66ed8562a7f6a39faefcf5aaf207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:51 +0000
Subject: [PATCH 37/39] fix: destroying an item no longer locks the identifiers
 before the key values, which deadlocked with creations

---
 .../btree_associated/threadsafe_create.go     |  7 +++++
 .../btree_associated/threadsafe_destroy.go    | 26 +++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index b20ec4a..f0aec53 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -270,7 +270,9 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 	}
 
 	// must have been a race where 2 requests tried to create the same object
+	found := false
 	bTreeFind := func(key datatypes.EncapsulatedValue, item any) bool {
+		found = true
 		onFind(item.(AssociatedKeyValues))
 		return false
 	}
@@ -297,6 +299,11 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 
+		// the item was already removed, but the destroy operation is still cleaning up the KeyValues
+		if !found {
+			return "", ErrorTreeItemDestroying
+		}
+
 		return idSet.Values()[0], nil
 	}
 
diff --git a/internal/datastructures/btree_associated/threadsafe_destroy.go b/internal/datastructures/btree_associated/threadsafe_destroy.go
index 90aadc8..5d21dbe 100644
--- a/internal/datastructures/btree_associated/threadsafe_destroy.go
+++ b/internal/datastructures/btree_associated/threadsafe_destroy.go
@@ -24,6 +24,8 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 	}
 	defer tsat.destroySyncer.ClearOperation()
 
+	var destroyedKeyValues datatypes.KeyValues
+
 	// Don't need to check that the associatedID is being destroyed. That is handled in the bTree code.
 	bTreeCanDestroy := func(_ datatypes.EncapsulatedValue, item any) bool {
 		associatedKeyValues := item.(AssociatedKeyValues)
@@ -36,7 +38,7 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 
 		// 2. the item was destroyed, need to remove the KeyValues that define the item
-		tsat.destroyKeyValues(associatedID, associatedKeyValues.KeyValues())
+		destroyedKeyValues = associatedKeyValues.KeyValues()
 
 		return true
 	}
@@ -51,6 +53,12 @@ func (tsat *threadsafeAssociatedTree) DestroyByAssociatedID(associatedID string,
 		}
 	}
 
+	// 3. remove the KeyValues after the associatedIDs are unlocked. The other operations lock the KeyValues first and
+	// then the associatedIDs, so doing this while still holding on to the associatedIDs is a deadlock
+	if destroyedKeyValues != nil {
+		tsat.destroyKeyValues(associatedID, destroyedKeyValues)
+	}
+
 	return nil
 }
 
@@ -99,13 +107,15 @@ func (tsat *threadsafeAssociatedTree) destroyKeyValues(associatedID string, keyV
 			idNode.lock.Lock()
 			defer idNode.lock.Unlock()
 
-			// remove the id from the id node
-			for index, value := range idNode.ids[keyLength-1] {
-				if value == idToDelete {
-					// swap with last element
-					idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
-					// pop last element
-					idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
+			// remove the id from the id node. Another delete for the same KeyValues could have already removed it
+			if len(idNode.ids) >= keyLength {
+				for index, value := range idNode.ids[keyLength-1] {
+					if value == idToDelete {
+						// swap with last element
+						idNode.ids[keyLength-1][index] = idNode.ids[keyLength-1][len(idNode.ids[keyLength-1])-1]
+						// pop last element
+						idNode.ids[keyLength-1] = idNode.ids[keyLength-1][:len(idNode.ids[keyLength-1])-1]
+					}
 				}
 			}
 
-- 
2.43.0


From c47cf09d8572a216a6340dc67e212d1f23de5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:29 +0000
Subject: [PATCH 38/39] fix: a creation that was given up is never found by the
 requests waiting for the same key values

---
 .../btree_associated/threadsafe_create.go     | 20 +++++++++----------
 .../btree_associated/threadsafe_delete.go     | 16 ++++++++-------
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/internal/datastructures/btree_associated/threadsafe_create.go b/internal/datastructures/btree_associated/threadsafe_create.go
index f0aec53..117e5f0 100644
--- a/internal/datastructures/btree_associated/threadsafe_create.go
+++ b/internal/datastructures/btree_associated/threadsafe_create.go
@@ -163,16 +163,15 @@ func (tsat *threadsafeAssociatedTree) Create(keyValues datatypes.KeyValues, onCr
 			idNode.lock.Unlock()
 		}
 	} else {
-		// failed to crete the new item to save.
-
-		// unlock the IDs
+		// failed to crete the new item to save. Remove the new ID before anything else can find it and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean any newly created items
-		if err := tsat.Delete(keyValues, nil); err != nil {
+		// clean any newly created items
+		if err := tsat.deleteKeyValues(newID, keyValues); err != nil {
 			panic(err)
 		}
 
@@ -337,16 +336,17 @@ func (tsat *threadsafeAssociatedTree) CreateOrFind(keyValues datatypes.KeyValues
 			idNode.lock.Unlock()
 		}
 	} else {
-		// failed to crete the new item to save.
-
-		// unlock the IDs
+		// failed to crete the new item to save. Remove the new ID before anything else can find it and unlock the IDs
 		for _, idNode := range idNodes {
+			idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
 			idNode.creating.Add(-1)
 			idNode.lock.Unlock()
 		}
 
-		// call delete for the item to clean everything up
-		tsat.Delete(keyValues, nil)
+		// clean any newly created items
+		if err := tsat.deleteKeyValues(newID, keyValues); err != nil {
+			panic(err)
+		}
 	}
 
 	return newID, nil
diff --git a/internal/datastructures/btree_associated/threadsafe_delete.go b/internal/datastructures/btree_associated/threadsafe_delete.go
index 8921cda..ee7757e 100644
--- a/internal/datastructures/btree_associated/threadsafe_delete.go
+++ b/internal/datastructures/btree_associated/threadsafe_delete.go
@@ -262,13 +262,15 @@ func (tsat *threadsafeAssociatedTree) deleteKeyValues(associatedID string, keyVa
 		idNode.lock.Lock()
 		defer idNode.lock.Unlock()
 
-		// remove the id from the id node
-		for index, value := range idNode.ids[keyValuesLen-1] {
-			if value == associatedID {
-				// swap with last element
-				idNode.ids[keyValuesLen-1][index] = idNode.ids[keyValuesLen-1][len(idNode.ids[keyValuesLen-1])-1]
-				// pop last element
-				idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+		// remove the id from the id node. There are none when another operation already cleaned up the node
+		if len(idNode.ids) >= keyValuesLen {
+			for index, value := range idNode.ids[keyValuesLen-1] {
+				if value == associatedID {
+					// swap with last element
+					idNode.ids[keyValuesLen-1][index] = idNode.ids[keyValuesLen-1][len(idNode.ids[keyValuesLen-1])-1]
+					// pop last element
+					idNode.ids[keyValuesLen-1] = idNode.ids[keyValuesLen-1][:len(idNode.ids[keyValuesLen-1])-1]
+				}
 			}
 		}
 
-- 
2.43.0


From 93e3ba421e0667dfe85cbc0ea3c819e66fa77303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:08 +0000
Subject: [PATCH 39/39] fix: keep the KeyValues of an item in the one-to-many
 index apart from the caller's

An item created in the one-to-many index kept the very map the caller passed in. Changing that map
afterwards changed the key values the stored item reports, while the index still holds it under the
original ones.
---
 .../datastructures/btree_one_to_many/threadsafe_create.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/datastructures/btree_one_to_many/threadsafe_create.go b/internal/datastructures/btree_one_to_many/threadsafe_create.go
index d79451d..1c1d2a1 100644
--- a/internal/datastructures/btree_one_to_many/threadsafe_create.go
+++ b/internal/datastructures/btree_one_to_many/threadsafe_create.go
@@ -58,11 +58,17 @@ func (otm *threadsafeOneToManyTree) CreateOrFind(oneID string, manyKeyValues dat
 				return nil
 			}
 
+			// the item keeps its own copy, so nothing the caller does to the KeyValues later can change the saved item
+			itemKeyValues := datatypes.KeyValues{}
+			for key, value := range manyKeyValues {
+				itemKeyValues[key] = value
+			}
+
 			created = true
 			newOneToManyItem = &oneToManyItem{
 				value:         item,
 				oneID:         oneID,
-				manyKeyValues: manyKeyValues,
+				manyKeyValues: itemKeyValues,
 			}
 
 			return newOneToManyItem
-- 
2.43.0

