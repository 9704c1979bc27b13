From 6a87ce8d00e611d8d3860efe27031ae0a7d7425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 001/124] fix: token bucket refill dropped the started interval

---
 crates/sip-ratelimit/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 08a6bee..fe27f7a 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -376,7 +376,13 @@ impl TokenBucket {
             let intervals = elapsed.as_millis() / config.refill_interval_ms as u128;
             let tokens_to_add = (intervals as f64) * (config.tokens_per_refill as f64);
             self.tokens = (self.tokens + tokens_to_add).min(config.burst_capacity as f64);
-            self.last_refill = now;
+            // Keep the started interval, unless the bucket is full and has
+            // nothing left to accumulate.
+            self.last_refill = if self.tokens >= config.burst_capacity as f64 {
+                now
+            } else {
+                self.last_refill + refill_interval * intervals as u32
+            };
         }
     }
 
-- 
2.43.0


From 9722a197aabec86f7d7a02b0092b7f565c6444b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 002/124] fix: checks with an unusable key were missing from
 the total

---
 crates/sip-ratelimit/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index fe27f7a..faf5a9f 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -524,6 +524,9 @@ impl RateLimiter {
     ///
     /// * `key` - Identifier for rate limiting (IP address, username, etc.)
     pub fn check_rate_limit(&self, key: &str) -> bool {
+        // Track total checks
+        let check_count = self.metrics.total_checks.fetch_add(1, Ordering::Relaxed) + 1;
+
         // Validate key for security
         if let Err(e) = validate_key(key) {
             debug!(key, error = %e, "invalid rate limit key");
@@ -534,9 +537,6 @@ impl RateLimiter {
             return false;
         }
 
-        // Track total checks
-        let check_count = self.metrics.total_checks.fetch_add(1, Ordering::Relaxed) + 1;
-
         // If disabled, allow all requests
         if !self.config.enabled {
             self.metrics
-- 
2.43.0


From 74b1ef3568ea073a982bc693407a44dc8a97590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 003/124] fix: extract_tag took tags from display names and
 URIs and panicked on multi-byte parameters

---
 crates/sip-dialog/src/lib.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6bf4d69..5b8de87 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1213,12 +1213,14 @@ fn validate_subscription_cseq(cseq: u32) -> Result<(), SubscriptionError> {
 /// Returns `None` if the header carries no tag (e.g. the To header of an
 /// out-of-dialog request). Matching is case-insensitive per RFC 3261 §7.3.1.
 pub fn extract_tag(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
+    // Header parameters follow the closing angle bracket, if there is one: a
+    // display name or a URI parameter is not the header's tag.
+    let params = value.rfind('>').map_or(value.as_str(), |i| &value[i..]);
+    params.split(';').find_map(|segment| {
         let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
+        match trimmed.get(..4) {
+            Some(name) if name.eq_ignore_ascii_case("tag=") => Some(SmolStr::new(&trimmed[4..])),
+            _ => None,
         }
     })
 }
-- 
2.43.0


From 25525402a79b8feaa56878751bc9cf468873e0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 004/124] fix: event package validation panicked on multi-byte
 parameters

---
 crates/sip-dialog/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 5b8de87..f9a9142 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1141,7 +1141,10 @@ fn validate_event_package(event: &str) -> Result<(), SubscriptionError> {
     }
     for param in parts {
         let trimmed = param.trim();
-        if trimmed.len() >= 3 && trimmed[..3].eq_ignore_ascii_case("id=") {
+        if trimmed
+            .get(..3)
+            .is_some_and(|name| name.eq_ignore_ascii_case("id="))
+        {
             let id = trimmed[3..].trim().trim_matches('"');
             if id.len() > MAX_EVENT_ID_LENGTH {
                 return Err(SubscriptionError::EventTooLong {
-- 
2.43.0


From c869000b6f873373a2be5c889ee719b1dd4f96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 005/124] fix: session interval bounds check truncated to 32
 bits

---
 crates/sip-dialog/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index f9a9142..c00d047 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1089,7 +1089,7 @@ fn validate_cseq_increment(prev: u32, new: u32) -> Result<(), DialogError> {
 
 /// Validates session expires duration is within bounds.
 fn validate_session_expires(duration: Duration) -> Result<(), DialogError> {
-    let secs = duration.as_secs() as u32;
+    let secs = u32::try_from(duration.as_secs()).unwrap_or(u32::MAX);
     if secs < MIN_SESSION_EXPIRES {
         return Err(DialogError::SessionExpiresTooSmall {
             min: MIN_SESSION_EXPIRES,
-- 
2.43.0


From 2251e4c01c1f0fc4dc1905c869ecb844e51c3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 006/124] fix: only target refresh transactions may change the
 remote target, only the INVITE's 2xx confirms a dialog

---
 crates/sip-dialog/src/lib.rs | 45 ++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index c00d047..9aca966 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -583,9 +583,19 @@ impl Dialog {
     /// → Future SUBSCRIBE refreshes use new remote_target
     /// ```
     pub fn update_from_response(&mut self, resp: &Response) {
-        // Update remote target if Contact present
-        if let Some(contact) = extract_contact_uri(resp.headers()) {
-            self.remote_target = contact;
+        // A failure response, or one for an ended dialog, changes nothing
+        if resp.code() >= 300 || self.state == DialogStateType::Terminated {
+            return;
+        }
+        let success = resp.code() >= 200;
+        let method = cseq_method(resp.headers());
+
+        // Update remote target if Contact present in a response to a target
+        // refresh request (a provisional only while the dialog is early)
+        if is_target_refresh(method) && (success || self.state == DialogStateType::Early) {
+            if let Some(contact) = extract_contact_uri(resp.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         // Recompute the route set only when this 2xx confirms an early
@@ -601,7 +611,7 @@ impl Dialog {
         // Reversed because this is a response to a request *we* sent, so
         // the topmost Record-Route is the hop closest to the peer.
         let confirms_early_dialog =
-            self.state == DialogStateType::Early && resp.code() >= 200 && resp.code() < 300;
+            self.state == DialogStateType::Early && success && method == "INVITE";
         if confirms_early_dialog {
             let new_route_set = build_route_set(resp.headers(), true).unwrap_or_default();
             if !new_route_set.is_empty() {
@@ -616,8 +626,8 @@ impl Dialog {
             self.refresher = refresher;
         }
 
-        // Confirm early dialog on 2xx
-        if resp.code() >= 200 && resp.code() < 300 {
+        // Confirm early dialog on 2xx to its INVITE (not to a PRACK or UPDATE)
+        if confirms_early_dialog {
             self.confirm();
         }
     }
@@ -665,9 +675,11 @@ impl Dialog {
             self.remote_cseq = cseq;
         }
 
-        // Update remote target from Contact
-        if let Some(contact) = extract_contact_uri(req.headers()) {
-            self.remote_target = contact;
+        // Update remote target from the Contact of a target refresh request
+        if is_target_refresh(req.method().as_str()) {
+            if let Some(contact) = extract_contact_uri(req.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         Ok(())
@@ -1280,6 +1292,21 @@ fn parse_cseq_number(headers: &Headers) -> Option<u32> {
         .ok()
 }
 
+/// Returns the method named by the CSeq header, or "" if there is none.
+fn cseq_method(headers: &Headers) -> &str {
+    header(headers, "CSeq")
+        .and_then(|value| value.split_whitespace().nth(1))
+        .unwrap_or("")
+}
+
+/// Returns true for methods whose Contact refreshes the dialog's remote target.
+fn is_target_refresh(method: &str) -> bool {
+    matches!(
+        method,
+        "INVITE" | "UPDATE" | "SUBSCRIBE" | "NOTIFY" | "REFER"
+    )
+}
+
 /// Extracts session timer information from response.
 fn extract_session_timer(resp: &Response) -> (Option<Duration>, Option<RefresherRole>) {
     if let Some(se_header) = header(resp.headers(), "Session-Expires") {
-- 
2.43.0


From 7b176cf46d88a83e39a9143606054da15f2b840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 007/124] fix: a terminated dialog kept accepting requests

---
 crates/sip-dialog/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 9aca966..e434974 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -650,6 +650,11 @@ impl Dialog {
     /// - First CSeq must be >= 1 (RFC 3261 requires non-zero initial CSeq)
     /// - ACK CSeq must match the INVITE/re-INVITE CSeq for the dialog
     pub fn update_from_request(&mut self, req: &Request) -> Result<(), DialogError> {
+        // An ended dialog accepts nothing more
+        if self.state == DialogStateType::Terminated {
+            return Err(DialogError::InvalidState);
+        }
+
         // Validate and update remote CSeq
         let cseq = parse_cseq_number(req.headers()).ok_or(DialogError::MissingHeader)?;
 
-- 
2.43.0


From 57a51386f9b39ec7a96d2c2a22402b83a102416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 008/124] fix: dialog and subscription tables refused updates
 of existing entries at capacity

---
 crates/sip-dialog/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index e434974..6aa14f9 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -745,7 +745,7 @@ impl DialogManager {
         // MAX_EARLY_DIALOGS_PER_CALL_ID be exceeded under load).
         let _guard = self.insert_lock.lock();
 
-        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
+        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS && !self.dialogs.contains_key(&dialog.id) {
             return Err(DialogError::TooManyDialogs {
                 max: MAX_CONFIRMED_DIALOGS,
             });
@@ -1712,7 +1712,9 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
+        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
+            && !self.subscriptions.contains_key(&subscription.id)
+        {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
-- 
2.43.0


From 66956d11be2b28b60ab81579020f4fbdbf91fd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 009/124] fix: updating a stored dialog duplicated it in the
 Call-ID index

---
 crates/sip-dialog/src/storage.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index fa383a9..82b674b 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -62,19 +62,19 @@ impl DialogStore for InMemoryDialogStore {
         let dialog_id = dialog.id.clone();
         self.inner.insert(dialog.id.clone(), dialog);
         // Update secondary index
-        self.by_call_id.entry(call_id).or_default().push(dialog_id);
+        let mut ids = self.by_call_id.entry(call_id).or_default();
+        if !ids.contains(&dialog_id) {
+            ids.push(dialog_id);
+        }
     }
 
     async fn remove(&self, id: &DialogId) {
         self.inner.remove(id);
         // Update secondary index
-        if let Some(mut ids) = self.by_call_id.get_mut(&id.call_id) {
+        self.by_call_id.remove_if_mut(&id.call_id, |_, ids| {
             ids.retain(|did| did != id);
-            if ids.is_empty() {
-                drop(ids);
-                self.by_call_id.remove(&id.call_id);
-            }
-        }
+            ids.is_empty()
+        });
     }
 
     async fn list_by_call_id(&self, call_id: &SmolStr) -> Vec<Dialog> {
-- 
2.43.0


From be83e9db387b9a4548ca57b2c70e5bd0fe495648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:33 +0000
Subject: [PATCH 010/124] fix: a terminated subscription could be revived

---
 crates/sip-dialog/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6aa14f9..1190822 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1675,8 +1675,12 @@ impl Subscription {
     }
 
     /// Updates the subscription state.
+    ///
+    /// A terminated subscription stays terminated.
     pub fn update_state(&mut self, new_state: SubscriptionState) {
-        self.state = new_state;
+        if self.state != SubscriptionState::Terminated {
+            self.state = new_state;
+        }
     }
 
     /// Updates the expiration time.
-- 
2.43.0


From 9eeede4f375532ff345837a5d28ce91287da782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 011/124] fix: a refused SUBSCRIBE created a subscription

---
 crates/sip-dialog/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 1190822..3b4e934 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1537,6 +1537,9 @@ impl Subscription {
         local_uri: SipUri,
         remote_uri: SipUri,
     ) -> Option<Self> {
+        if !(200..300).contains(&response.code()) {
+            return None; // No subscription for provisional or error responses
+        }
         let id = SubscriptionId::from_request_response(request, response)?;
         let contact = extract_contact_uri(response.headers())?;
         let local_cseq = parse_cseq_number(request.headers())?;
@@ -1570,6 +1573,9 @@ impl Subscription {
         local_uri: SipUri,
         remote_uri: SipUri,
     ) -> Option<Self> {
+        if !(200..300).contains(&response.code()) {
+            return None; // No subscription for provisional or error responses
+        }
         let id = SubscriptionId::from_request_response(request, response)?;
         let contact = extract_contact_uri(response.headers())?;
         let remote_cseq = 0;
-- 
2.43.0


From 8318e328f3ead186011826e99ae33a0b0db18e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 012/124] fix: a stopped or replaced session timer could still
 fire and remove its successor

---
 .../sip-dialog/src/session_timer_manager.rs   | 31 ++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f614998..f5a7052 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -42,6 +42,7 @@
 
 use crate::DialogId;
 use dashmap::DashMap;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::mpsc;
@@ -51,6 +52,9 @@ use tokio::time::{sleep, Instant};
 const MAX_SESSION_TIMERS: usize = 10_000;
 const SESSION_TIMER_CHANNEL_BOUND: usize = 1_000;
 
+/// Source of timer generations.
+static NEXT_GENERATION: AtomicU64 = AtomicU64::new(0);
+
 /// RFC 4028 minimum session expiration (90 seconds).
 pub const MIN_SESSION_EXPIRES: Duration = Duration::from_secs(90);
 
@@ -72,6 +76,8 @@ pub enum SessionTimerEvent {
 /// Session timer task tracking.
 #[derive(Debug)]
 struct SessionTimerTask {
+    /// Distinguishes this timer from earlier ones of the same dialog
+    generation: u64,
     /// When the session expires
     expiry_time: Instant,
     /// Task cancellation handle
@@ -126,7 +132,9 @@ impl SessionTimerManager {
         let expiry_time = Instant::now() + session_expires;
         let (cancel_tx, mut cancel_rx) = mpsc::channel(SESSION_TIMER_CHANNEL_BOUND);
 
+        let generation = NEXT_GENERATION.fetch_add(1, Ordering::Relaxed);
         let task = SessionTimerTask {
+            generation,
             expiry_time,
             cancel_tx: Some(cancel_tx),
         };
@@ -146,8 +154,13 @@ impl SessionTimerManager {
             if is_refresher {
                 tokio::select! {
                     _ = sleep(refresh_duration) => {
-                        // Emit refresh needed event
-                        let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
+                        // Emit refresh needed event, unless stopped or replaced meanwhile
+                        match tasks_ref.get(&dialog_id_clone) {
+                            Some(task) if task.generation == generation => {
+                                let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
+                            }
+                            _ => return,
+                        }
                     }
                     _ = cancel_rx.recv() => {
                         // Timer cancelled
@@ -165,11 +178,15 @@ impl SessionTimerManager {
 
             tokio::select! {
                 _ = sleep(remaining) => {
-                    // Session expired - emit expiration event
-                    let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
-
-                    // Remove task from tracking
-                    tasks_ref.remove(&dialog_id_clone);
+                    // Session expired - remove task from tracking and emit the
+                    // expiration event, unless stopped or replaced meanwhile
+                    tasks_ref.remove_if(&dialog_id_clone, |_, task| {
+                        let current = task.generation == generation;
+                        if current {
+                            let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
+                        }
+                        current
+                    });
                 }
                 _ = cancel_rx.recv() => {
                     // Timer cancelled (dialog refreshed or terminated)
-- 
2.43.0


From 588366cdb8ca70e33379a2a2623116c5de4f9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 013/124] fix: refresher role was compared case-sensitively

---
 crates/sip-dialog/src/session_timer_manager.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f5a7052..a3cb42b 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -407,10 +407,8 @@ pub fn negotiate_session_expires(
 /// `true` if we are the refresher, `false` otherwise
 pub fn determine_refresher_role(refresher_param: Option<&str>, is_uac: bool) -> bool {
     match refresher_param {
-        Some("uac") => is_uac,
-        Some("uas") => !is_uac,
-        Some("UAC") => is_uac, // Case insensitive
-        Some("UAS") => !is_uac,
+        Some(role) if role.eq_ignore_ascii_case("uac") => is_uac,
+        Some(role) if role.eq_ignore_ascii_case("uas") => !is_uac,
         _ => is_uac, // Default: UAC is refresher if not specified
     }
 }
-- 
2.43.0


From 5183a4c160e3763691d0f3a9df150f40e1bfc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 014/124] fix: Session-Expires parameter names were
 case-sensitive

---
 crates/sip-core/src/session_timer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/session_timer.rs b/crates/sip-core/src/session_timer.rs
index a09dc54..14cfbf8 100644
--- a/crates/sip-core/src/session_timer.rs
+++ b/crates/sip-core/src/session_timer.rs
@@ -342,9 +342,10 @@ impl SessionExpires {
         // Parse optional refresher parameter
         let mut refresher = None;
         for part in &parts[1..] {
-            let param = part.trim();
-            if let Some(value) = param.strip_prefix("refresher=") {
-                refresher = RefresherRole::parse(value.trim());
+            if let Some((name, value)) = part.split_once('=') {
+                if name.trim().eq_ignore_ascii_case("refresher") {
+                    refresher = RefresherRole::parse(value.trim());
+                }
             }
         }
 
-- 
2.43.0


From 58c26263659506176de6758b22a08d22c8b51626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 015/124] fix: a PRACK was refused when another transaction of
 the dialog had used the same RSeq

---
 crates/sip-dialog/src/prack_validator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/prack_validator.rs b/crates/sip-dialog/src/prack_validator.rs
index 76a0ffa..94ff090 100644
--- a/crates/sip-dialog/src/prack_validator.rs
+++ b/crates/sip-dialog/src/prack_validator.rs
@@ -215,9 +215,12 @@ impl PrackValidator {
             .get_mut(dialog_id)
             .ok_or_else(|| anyhow!("No pending reliable provisionals for dialog {}", dialog_id))?;
 
+        // RSeq numbers are only unique within one transaction: prefer the
+        // provisional that matches the RAck completely
         let pending_idx = pending_list
             .iter()
-            .position(|p| p.rseq == rack.rseq)
+            .position(|p| p.rseq == rack.rseq && p.cseq == rack.cseq && p.method == rack.method)
+            .or_else(|| pending_list.iter().position(|p| p.rseq == rack.rseq))
             .ok_or_else(|| {
                 anyhow!(
                     "RAck RSeq {} does not match any pending reliable provisional",
-- 
2.43.0


From d9046a264d0ddfa2ff1cf71763ba7b1a12d7ac97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 016/124] fix: a forged attempt consumed a nonce count and
 extended the nonce's use

---
 crates/sip-auth/src/lib.rs | 105 +++++++++++++++++++++++++------------
 1 file changed, 72 insertions(+), 33 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7ac0788..59a0b9c 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -484,44 +484,56 @@ impl Nonce {
         body: &[u8],
         max_request_age: Duration,
     ) -> bool {
-        // Reject requests that are significantly delayed (potential replay attack)
-        if self.last_nc > 0 && self.last_used.elapsed() > max_request_age {
-            // If this isn't the first request (last_nc > 0) and it's been too long
-            // since the last successful auth, reject as potential replay
+        if !self.accepts_nc(nc, method, uri, body, max_request_age) {
             return false;
         }
-        // Compute hash of request (method:uri:body bytes).
+        self.last_nc = nc;
+        self.last_request_hash = Some(Self::request_hash(method, uri, body));
+        self.last_used = Instant::now(); // Update last used time
+        true
+    }
+
+    /// Hash of the request (method:uri:body bytes).
+    fn request_hash(method: &Method, uri: &str, body: &[u8]) -> String {
         let mut ctx = Sha256::new();
         ctx.update(method.as_str().as_bytes());
         ctx.update(b":");
         ctx.update(uri.as_bytes());
         ctx.update(b":");
         ctx.update(body);
-        let request_hash = hex::encode(ctx.finalize());
+        hex::encode(ctx.finalize())
+    }
+
+    /// Whether [`Self::validate_nc_with_request`] would accept this request,
+    /// without recording it as used.
+    fn accepts_nc(
+        &self,
+        nc: u32,
+        method: &Method,
+        uri: &str,
+        body: &[u8],
+        max_request_age: Duration,
+    ) -> bool {
+        // Reject requests that are significantly delayed (potential replay attack)
+        if self.last_nc > 0 && self.last_used.elapsed() > max_request_age {
+            // If this isn't the first request (last_nc > 0) and it's been too long
+            // since the last successful auth, reject as potential replay
+            return false;
+        }
 
         if nc > self.last_nc {
-            // New request with incrementing nc - accept and store
-            self.last_nc = nc;
-            self.last_request_hash = Some(request_hash);
-            self.last_used = Instant::now(); // Update last used time
+            // New request with incrementing nc
             true
         } else if nc == self.last_nc {
             // Potential retransmission - accept only if request hash matches
             // Use constant-time comparison to avoid timing side-channels
-            if let Some(ref last_hash) = self.last_request_hash {
-                let hashes_match: bool = last_hash.as_bytes().ct_eq(request_hash.as_bytes()).into();
-                if hashes_match {
-                    // Valid retransmission, update last used time
-                    self.last_used = Instant::now();
-                    true
-                } else {
-                    false
-                }
-            } else {
+            match self.last_request_hash {
+                Some(ref last_hash) => last_hash
+                    .as_bytes()
+                    .ct_eq(Self::request_hash(method, uri, body).as_bytes())
+                    .into(),
                 // First request with this nc
-                self.last_request_hash = Some(request_hash);
-                self.last_used = Instant::now();
-                true
+                None => true,
             }
         } else {
             // nc < last_nc is a replay attack (going backwards)
@@ -627,6 +639,14 @@ impl NonceManager {
         }
     }
 
+    /// Whether [`Self::verify_with_nc`] would accept this request, without
+    /// recording it as used.
+    fn accepts_nc(&self, value: &str, nc: u32, method: &Method, uri: &str, body: &[u8]) -> bool {
+        self.nonces.get(value).is_some_and(|entry| {
+            entry.is_valid() && entry.accepts_nc(nc, method, uri, body, self.max_request_age)
+        })
+    }
+
     /// Basic verification without nonce-count tracking (for backwards compatibility).
     /// Use verify_with_nc() for proper replay protection.
     pub fn verify(&self, value: &str) -> bool {
@@ -808,6 +828,7 @@ struct DigestParams {
     nonce: SmolStr,
     uri: SmolStr,
     response: SmolStr,
+    nc: Option<u32>,
     nc_raw: Option<SmolStr>,
     cnonce: Option<SmolStr>,
     qop: Option<Qop>,
@@ -986,7 +1007,7 @@ impl<S> DigestAuthenticator<S> {
             return Ok(None);
         }
 
-        let _validated_nc = if let Some(nc_str) = nc {
+        let validated_nc = if let Some(nc_str) = nc {
             let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
                 .map_err(|_| anyhow!("invalid nc format"))?;
 
@@ -1003,7 +1024,9 @@ impl<S> DigestAuthenticator<S> {
                 return Ok(None);
             }
 
-            if !self.nonce_manager.verify_with_nc(
+            // The count is recorded only once the digest has been verified
+            // (see `consume_nc`), so that forged attempts leave no trace.
+            if !self.nonce_manager.accepts_nc(
                 nonce,
                 nc_value,
                 request.method(),
@@ -1028,11 +1051,27 @@ impl<S> DigestAuthenticator<S> {
             nonce: nonce.clone(),
             uri: uri.clone(),
             response: response.clone(),
+            nc: validated_nc,
             nc_raw: nc.cloned(),
             cnonce: cnonce.cloned(),
             qop,
         }))
     }
+
+    /// Records the nonce count of a request whose digest has been verified.
+    /// Returns false when another request has used the count in the meantime.
+    fn consume_nc(&self, params: &DigestParams, request: &Request) -> bool {
+        match params.nc {
+            Some(nc) => self.nonce_manager.verify_with_nc(
+                params.nonce.as_str(),
+                nc,
+                request.method(),
+                request.uri().as_str(),
+                request.body(),
+            ),
+            None => self.nonce_manager.verify(params.nonce.as_str()),
+        }
+    }
 }
 
 impl<S> DigestAuthenticator<S> {
@@ -1362,10 +1401,10 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        Ok(
+            constant_time_eq(response_calc.as_bytes(), params.response.as_bytes())
+                && self.consume_nc(&params, request),
+        )
     }
 
     fn credentials_for(&self, _method: &Method, _uri: &str) -> Option<Credentials> {
@@ -1425,10 +1464,10 @@ impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        Ok(
+            constant_time_eq(response_calc.as_bytes(), params.response.as_bytes())
+                && self.consume_nc(&params, request),
+        )
     }
 }
 
-- 
2.43.0


From b9eff50a147c296437057ba5835da0d243bee25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 017/124] fix: small nonce tables grew beyond their maximum

---
 crates/sip-auth/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 59a0b9c..fbcf457 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -608,7 +608,7 @@ impl NonceManager {
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest(self.max_nonces / 10); // Remove 10% of capacity
+                self.remove_oldest((self.max_nonces / 10).max(1)); // Remove 10% of capacity
             }
         }
 
-- 
2.43.0


From 15d4e3f5219116ba24dbbad767b0c7b78b68f2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 018/124] fix: building Authentication-Info counted as another
 authentication attempt

---
 crates/sip-auth/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index fbcf457..73ebe1f 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -890,11 +890,8 @@ impl<S> DigestAuthenticator<S> {
 }
 
 impl<S> DigestAuthenticator<S> {
-    fn prepare_digest(&self, request: &Request, headers: &Headers) -> Result<Option<DigestParams>> {
-        if request.body().len() > MAX_BODY_SIZE {
-            return Err(anyhow!("request body too large"));
-        }
-
+    /// Counts an authentication attempt against the rate limit, if any.
+    fn check_rate_limit(&self, headers: &Headers) -> Result<()> {
         if let Some(ref limiter) = self.rate_limiter {
             if let Some(key) = extract_rate_limit_key(headers) {
                 if !limiter.check_rate_limit(&key) {
@@ -903,6 +900,13 @@ impl<S> DigestAuthenticator<S> {
                 }
             }
         }
+        Ok(())
+    }
+
+    fn prepare_digest(&self, request: &Request, headers: &Headers) -> Result<Option<DigestParams>> {
+        if request.body().len() > MAX_BODY_SIZE {
+            return Err(anyhow!("request body too large"));
+        }
 
         let header_name = if self.proxy_auth {
             "Proxy-Authorization"
@@ -1379,6 +1383,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
     }
 
     fn verify(&self, request: &Request, headers: &Headers) -> Result<bool> {
+        self.check_rate_limit(headers)?;
         let params = match self.prepare_digest(request, headers)? {
             Some(p) => p,
             None => return Ok(false),
@@ -1441,6 +1446,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
 impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
     /// Asynchronous verification using an async credential store.
     pub async fn verify_async(&self, request: &Request, headers: &Headers) -> Result<bool> {
+        self.check_rate_limit(headers)?;
         let params = match self.prepare_digest(request, headers)? {
             Some(p) => p,
             None => return Ok(false),
-- 
2.43.0


From 67e8833325044b835e2caac9f36146899b7eddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 019/124] fix: the client's nonce count did not start again
 with a new nonce

---
 crates/sip-auth/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 73ebe1f..9c8712c 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1757,6 +1757,8 @@ pub struct DigestClient {
     password: String,
     #[zeroize(skip)]
     nc: u32,
+    #[zeroize(skip)]
+    last_nonce: SmolStr,
 }
 
 impl std::fmt::Debug for DigestClient {
@@ -1811,6 +1813,7 @@ impl DigestClient {
             username: SmolStr::new(username),
             password: password.to_string(),
             nc: 0,
+            last_nonce: SmolStr::default(),
         }
     }
 
@@ -1827,6 +1830,11 @@ impl DigestClient {
         opaque: Option<&str>,
         body: &[u8],
     ) -> String {
+        // RFC 7616 §3.4: the count starts again with every new nonce.
+        if self.last_nonce != nonce {
+            self.last_nonce = SmolStr::new(nonce);
+            self.nc = 0;
+        }
         self.nc = self.nc.saturating_add(1);
         let nc_str = format!("{:08x}", self.nc);
         let cnonce: String = rand::rng()
-- 
2.43.0


From e5d33a1c3633d711aa0278c7254d5d9bfa27f5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:46 +0000
Subject: [PATCH 020/124] fix: challenges and REGISTER responses carried only
 the first Via header

---
 crates/sip-auth/src/lib.rs      |  4 ++--
 crates/sip-registrar/src/lib.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 9c8712c..bfd1d67 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1166,7 +1166,7 @@ impl<S> DigestAuthenticator<S> {
     pub fn challenge_stale(&self, request: &Request) -> Result<Response> {
         let mut headers = self.build_challenge_with_stale(true);
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1350,7 +1350,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         let mut headers = self.build_challenge();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 34f7be2..ac3302e 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1395,7 +1395,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1629,7 +1629,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
             let mut headers = Headers::new();
 
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -1782,7 +1782,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
         let mut headers = Headers::new();
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1981,7 +1981,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             let mut headers = Headers::new();
 
             // RFC 3261: Copy required headers from request to response
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -2146,7 +2146,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
-- 
2.43.0


From fb6ba5fad05432c631e117e74c30fb24260bc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 021/124] fix: a To tag was looked for in display names and
 addresses and only in lower case

---
 crates/sip-auth/src/lib.rs      | 8 ++++++--
 crates/sip-registrar/src/lib.rs | 6 +++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index bfd1d67..aaac6c2 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -38,7 +38,7 @@ use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sha2::{Digest, Sha256, Sha512};
 use sip_core::{Headers, Method, Request, Response, StatusLine};
-use sip_parse::parse_authorization_header;
+use sip_parse::{parse_authorization_header, parse_to_header};
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
 use std::fmt::Write;
@@ -1792,7 +1792,11 @@ impl DigestClient {
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists
-    if to_header.contains(";tag=") {
+    let tagged = match parse_to_header(&SmolStr::new(to_header)) {
+        Some(to) => to.tag().is_some(),
+        None => to_header.contains(";tag="),
+    };
+    if tagged {
         return SmolStr::new(to_header);
     }
 
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index ac3302e..b27d1e8 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2214,7 +2214,11 @@ fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> Smo
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists
-    if to_header.contains(";tag=") {
+    let tagged = match parse_to_header(&SmolStr::new(to_header)) {
+        Some(to) => to.tag().is_some(),
+        None => to_header.contains(";tag="),
+    };
+    if tagged {
         return SmolStr::new(to_header);
     }
 
-- 
2.43.0


From 8f9bbe976a4a33ad9ee4e445cae42f1f34dd1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 022/124] fix: a REGISTER with several contacts is applied
 completely or not at all

---
 crates/sip-registrar/src/lib.rs | 53 +++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index b27d1e8..9a06438 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1673,6 +1673,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             existing_by_contact.insert(SmolStr::new(binding.contact()), binding);
         }
 
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::new();
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -1753,8 +1754,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                self.store.remove(&aor, contact_uri.as_str()).await?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
                 let mut binding =
                     Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
@@ -1775,11 +1775,29 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding).await?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
             }
         }
 
+        // RFC 3261 §10.3: either every contact of the request is processed,
+        // or none of them is.
+        for (done, (contact_uri, update)) in updates.iter().enumerate() {
+            let applied = match update {
+                Some(binding) => self.store.upsert(binding.clone()).await,
+                None => self.store.remove(&aor, contact_uri.as_str()).await,
+            };
+            if let Err(e) = applied {
+                for (contact_uri, _) in &updates[..done] {
+                    self.store.remove(&aor, contact_uri.as_str()).await?;
+                    if let Some(previous) = existing_by_contact.get(contact_uri) {
+                        self.store.upsert(previous.clone()).await?;
+                    }
+                }
+                return Err(e);
+            }
+        }
+        info!(aor = %aor, contacts = updates.len(), "REGISTER updated bindings");
+
         let mut headers = Headers::new();
 
         for via in request.headers().get_all("Via") {
@@ -2032,6 +2050,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             existing_by_contact.insert(binding.contact.clone(), binding);
         }
 
+        let mut updates: Vec<(SmolStr, Option<Binding>)> = Vec::new();
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -2113,9 +2132,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                // Remove binding
-                self.store.remove(&aor, contact_uri.as_str())?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                updates.push((contact_uri, None));
             } else {
                 // Add or update binding
                 let mut binding =
@@ -2137,10 +2154,28 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding)?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                updates.push((contact_uri, Some(binding)));
+            }
+        }
+
+        // RFC 3261 §10.3: either every contact of the request is processed,
+        // or none of them is.
+        for (done, (contact_uri, update)) in updates.iter().enumerate() {
+            let applied = match update {
+                Some(binding) => self.store.upsert(binding.clone()),
+                None => self.store.remove(&aor, contact_uri.as_str()),
+            };
+            if let Err(e) = applied {
+                for (contact_uri, _) in &updates[..done] {
+                    self.store.remove(&aor, contact_uri.as_str())?;
+                    if let Some(previous) = existing_by_contact.get(contact_uri) {
+                        self.store.upsert(previous.clone())?;
+                    }
+                }
+                return Err(e);
             }
         }
+        info!(aor = %aor, contacts = updates.len(), "REGISTER updated bindings");
 
         // Build response
         let mut headers = Headers::new();
-- 
2.43.0


From 5777e39855b3a02bc0f327c040c8f037bac67202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 023/124] fix: an outdated wildcard REGISTER removed all
 bindings

---
 crates/sip-registrar/src/lib.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 9a06438..4ee2469 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1624,6 +1624,15 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
+            for binding in self.store.lookup(&aor).await? {
+                if binding.call_id == call_id && cseq <= binding.cseq {
+                    return self.build_error_response(
+                        request,
+                        400,
+                        "Bad Request - CSeq out of order",
+                    );
+                }
+            }
             self.store.remove_all(&aor).await?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
@@ -1993,6 +2002,15 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 );
             }
             // Remove all bindings for this AOR
+            for binding in self.store.lookup(&aor)? {
+                if binding.call_id == call_id && cseq <= binding.cseq {
+                    return self.build_error_response(
+                        request,
+                        400,
+                        "Bad Request - CSeq out of order",
+                    );
+                }
+            }
             self.store.remove_all(&aor)?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
-- 
2.43.0


From 939afcb97d78a25afa6b3659858be1c5e510535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 024/124] fix: Contact parameters in REGISTER responses ran
 into the URI's own parameters

---
 crates/sip-registrar/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 4ee2469..42f2f1b 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2252,10 +2252,10 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
 
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
     if expires.as_secs() == 0 {
-        SmolStr::new(format!("{};expires=0", contact_uri))
+        SmolStr::new(format!("<{}>;expires=0", contact_uri))
     } else {
         SmolStr::new(format!(
-            "{};expires={};q={}",
+            "<{}>;expires={};q={}",
             contact_uri,
             expires.as_secs(),
             q_value
-- 
2.43.0


From 1fa11b26c5080af79759fad0a50b64f913109231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 025/124] fix: a binding could not be refreshed while the
 location table was full

---
 crates/sip-registrar/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 42f2f1b..a735413 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -860,8 +860,13 @@ impl LocationStore for MemoryLocationStore {
         let aor_key = SmolStr::new(binding.aor());
 
         // Check total bindings limit (DoS prevention)
+        // Don't count the binding we're about to replace
         let total_bindings: usize = self.inner.iter().map(|entry| entry.len()).sum();
-        if total_bindings >= MAX_TOTAL_BINDINGS {
+        let replaces = self
+            .inner
+            .get(&aor_key)
+            .is_some_and(|list| list.iter().any(|b| b.contact == binding.contact()));
+        if total_bindings >= MAX_TOTAL_BINDINGS && !replaces {
             return Err(anyhow::anyhow!(RegistrationError::TooManyBindings {
                 max: MAX_TOTAL_BINDINGS,
             }));
-- 
2.43.0


From ae20861390096cf8583d46cc23783430bda37b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 026/124] fix: AOR authorization could read the username from a
 header that was not verified

---
 crates/sip-auth/src/lib.rs      | 24 ++++++++++++++++++++++++
 crates/sip-registrar/src/lib.rs | 10 ++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index aaac6c2..08f9a49 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -168,6 +168,15 @@ pub trait Authenticator: Send + Sync {
         false
     }
 
+    /// The username of the credentials that [`Self::verify`] checks.
+    ///
+    /// Default is [`extract_auth_username`]; implementations that verify
+    /// only one of the two credential headers must override it to read the
+    /// same header.
+    fn presented_username(&self, request: &Request) -> Option<SmolStr> {
+        extract_auth_username(request.headers())
+    }
+
     /// Issues a `stale=true` challenge for an expired-nonce failure.
     /// Default delegates to [`Self::challenge`]; override to emit the
     /// `stale` parameter so the client can re-authenticate silently.
@@ -1145,6 +1154,15 @@ impl<S> DigestAuthenticator<S> {
         self.nonce_manager.reuse_window_exceeded(nonce)
     }
 
+    /// The header this authenticator takes credentials from.
+    fn credentials_header(&self) -> &'static str {
+        if self.proxy_auth {
+            "Proxy-Authorization"
+        } else {
+            "Authorization"
+        }
+    }
+
     /// The nonce referenced by the request's `Authorization` /
     /// `Proxy-Authorization` Digest header, if one is present and parses.
     fn presented_nonce(&self, request: &Request) -> Option<SmolStr> {
@@ -1416,6 +1434,12 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         None
     }
 
+    fn presented_username(&self, request: &Request) -> Option<SmolStr> {
+        let raw = request.headers().get_smol(self.credentials_header())?;
+        let parsed = parse_authorization_header(raw)?;
+        parsed.param("username").cloned()
+    }
+
     fn nonce_is_stale(&self, request: &Request) -> bool {
         // Look for our header (Authorization for 401, Proxy-Authorization
         // for 407) and check whether its nonce is one we issued but has
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index a735413..abef225 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1558,13 +1558,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .presented_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
@@ -1932,13 +1933,14 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .presented_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
-- 
2.43.0


From a1a5a2b07fe529ed97f8edbc71002ad950fdfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 027/124] fix: Contact values with commas in the URI or angle
 brackets in the display name were misread

---
 crates/sip-registrar/src/lib.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index abef225..6e3636f 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1241,7 +1241,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let trimmed = contact_header.trim();
 
         // Handle <uri> format
-        if let Some(start) = trimmed.find('<') {
+        if let Some(start) = find_angle_bracket(trimmed) {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactHeaderError::Invalid)?;
@@ -1276,7 +1276,7 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        let params_section = if let Some(start) = trimmed.find('<') {
+        let params_section = if let Some(start) = find_angle_bracket(trimmed) {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactParamError::Invalid)?;
@@ -2293,10 +2293,27 @@ fn ensure_to_tag(to_header: &str) -> SmolStr {
     SmolStr::new(format!("{};tag={}", to_header, tag))
 }
 
+/// Position of the `<` that starts the URI, skipping a quoted display name.
+fn find_angle_bracket(value: &str) -> Option<usize> {
+    let mut in_quotes = false;
+    let mut escape_next = false;
+    for (pos, ch) in value.char_indices() {
+        match ch {
+            _ if escape_next => escape_next = false,
+            '\\' if in_quotes => escape_next = true,
+            '"' => in_quotes = !in_quotes,
+            '<' if !in_quotes => return Some(pos),
+            _ => {}
+        }
+    }
+    None
+}
+
 fn split_quoted_commas(input: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut in_quotes = false;
+    let mut in_brackets = false;
     let mut escape_next = false;
 
     for ch in input.chars() {
@@ -2314,7 +2331,11 @@ fn split_quoted_commas(input: &str) -> Vec<String> {
                 in_quotes = !in_quotes;
                 current.push(ch);
             }
-            ',' if !in_quotes => {
+            '<' | '>' if !in_quotes => {
+                in_brackets = ch == '<';
+                current.push(ch);
+            }
+            ',' if !in_quotes && !in_brackets => {
                 if !current.trim().is_empty() {
                     parts.push(current.trim().to_owned());
                 }
-- 
2.43.0


From a5966b64cb1c061cffef55816724ab85714aa895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 028/124] fix: concurrent REGISTERs for one AOR could apply an
 outdated one last

---
 crates/sip-registrar/src/lib.rs | 42 +++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 6e3636f..6f24275 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -51,6 +51,7 @@ const MAX_TOTAL_BINDINGS: usize = 100_000;
 const MAX_CSEQ_VALUE: u32 = 2_147_483_647; // i32::MAX
 const MIN_EXPIRES_SECS: u64 = 60;
 const MAX_EXPIRES_SECS: u64 = 86400; // 24 hours
+const AOR_LOCK_SHARDS: usize = 64;
 
 /// Registration validation errors
 #[derive(Debug, Clone, PartialEq)]
@@ -1022,6 +1023,42 @@ pub struct BasicRegistrar<S, A> {
     /// This is how the registrar advertises RFC 5626 / RFC 3327
     /// capability to the UA, enabling flow-aware routing.
     advertise_outbound_and_path: bool,
+
+    /// Serialises the requests for one AOR, so that the CSeq check and the
+    /// update it permits are one step.
+    aor_locks: AorLocks,
+}
+
+/// Locks for AORs, sharded by hash. Synchronous and asynchronous callers
+/// have their own set: a registrar is driven through one of the two.
+struct AorLocks {
+    sync_locks: [std::sync::Mutex<()>; AOR_LOCK_SHARDS],
+    async_locks: [tokio::sync::Mutex<()>; AOR_LOCK_SHARDS],
+}
+
+impl AorLocks {
+    fn new() -> Self {
+        Self {
+            sync_locks: std::array::from_fn(|_| Default::default()),
+            async_locks: std::array::from_fn(|_| Default::default()),
+        }
+    }
+
+    fn shard(aor: &str) -> usize {
+        let mut hasher = std::collections::hash_map::DefaultHasher::new();
+        std::hash::Hash::hash(aor, &mut hasher);
+        std::hash::Hasher::finish(&hasher) as usize % AOR_LOCK_SHARDS
+    }
+
+    fn lock(&self, aor: &str) -> std::sync::MutexGuard<'_, ()> {
+        self.sync_locks[Self::shard(aor)]
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner())
+    }
+
+    async fn lock_async(&self, aor: &str) -> tokio::sync::MutexGuard<'_, ()> {
+        self.async_locks[Self::shard(aor)].lock().await
+    }
 }
 
 impl<S, A> BasicRegistrar<S, A> {
@@ -1036,6 +1073,7 @@ impl<S, A> BasicRegistrar<S, A> {
             rate_limit_key_fn: None,
             service_route: None,
             advertise_outbound_and_path: false,
+            aor_locks: AorLocks::new(),
         }
     }
 
@@ -1609,6 +1647,8 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             );
         }
 
+        let _aor_guard = self.aor_locks.lock_async(&aor).await;
+
         if contacts.len() == 1 && contacts[0].trim() == "*" {
             let expires = match header(request.headers(), "Expires") {
                 Some(value) => match value.parse::<u64>() {
@@ -1987,6 +2027,8 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         }
 
         // Check for wildcard Contact (*)
+        let _aor_guard = self.aor_locks.lock(&aor);
+
         if contacts.len() == 1 && contacts[0].trim() == "*" {
             let expires = match header(request.headers(), "Expires") {
                 Some(value) => match value.parse::<u64>() {
-- 
2.43.0


From 4070c14a6827b779b7d2dc93931fee3930cd4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:53 +0000
Subject: [PATCH 029/124] fix: an upper-case URI scheme made a SIP or tel URI
 an opaque one

---
 crates/sip-core/src/tel_uri.rs | 6 ++++--
 crates/sip-core/src/uri.rs     | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 1863b17..9840a19 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -348,9 +348,11 @@ impl TelUri {
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
         let raw = SmolStr::new(input);
 
-        // Must start with "tel:"
+        // Must start with "tel:" (schemes are case-insensitive)
         let rest = input
-            .strip_prefix("tel:")
+            .split_once(':')
+            .filter(|(scheme, _)| scheme.eq_ignore_ascii_case("tel"))
+            .map(|(_, rest)| rest)
             .ok_or(TelUriError::InvalidScheme)?;
 
         // Split into number and parameters
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index a93bb5a..cee183c 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -587,12 +587,15 @@ impl Uri {
             ));
         }
 
+        // Schemes are case-insensitive (RFC 3986 §3.1)
+        let scheme = input.split_once(':').map_or("", |(scheme, _)| scheme);
+
         // Try tel URI first (more specific prefix)
-        if input.starts_with("tel:") {
+        if scheme.eq_ignore_ascii_case("tel") {
             TelUri::parse(input)
                 .map(Uri::Tel)
                 .map_err(|e| UriError::InvalidFormat(e.to_string()))
-        } else if input.starts_with("sip:") || input.starts_with("sips:") {
+        } else if scheme.eq_ignore_ascii_case("sip") || scheme.eq_ignore_ascii_case("sips") {
             SipUri::parse(input).map(Uri::Sip)
         } else {
             parse_absolute_uri(input).map(Uri::Absolute)
-- 
2.43.0


From e8fab4d013db353cf8ddd7f0da427be77b592014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:11 +0000
Subject: [PATCH 030/124] fix: AORs with IPv6 hosts could share a location
 table entry

---
 crates/sip-registrar/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 6f24275..4b6fff2 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -335,7 +335,11 @@ pub fn normalize_aor(uri: &Uri) -> Result<String, NormalizeError> {
 fn normalize_sip_aor(uri: &SipUri) -> String {
     let scheme = if uri.is_sips() { "sips" } else { "sip" };
 
-    let host = uri.host().to_ascii_lowercase();
+    let mut host = uri.host().to_ascii_lowercase();
+    if host.contains(':') && !host.starts_with('[') {
+        // IPv6: without brackets the last group could be taken for a port
+        host = format!("[{host}]");
+    }
     let host_port = match uri.port() {
         Some(port) => format!("{}:{}", host, port),
         None => host.clone(),
-- 
2.43.0


From e0365c042bd886ad5a8b337bc5cb50db022f532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 031/124] fix: SDP answers listed formats in random order and
 formats not offered

The codecs in common were collected by walking a hash map of the offer's
rtpmap lines, so the order of preference of the offerer was lost and a
payload type with an rtpmap but not on the m= line was answered.
---
 crates/sip-core/src/sdp_offer_answer.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 2327442..c429021 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -536,15 +536,18 @@ impl OfferAnswerEngine {
             }
         };
 
-        // Find common codecs
+        // Find common codecs among the offered formats, in the offerer's order
         let mut common_codecs: Vec<(String, &RtpMap)> = Vec::new();
 
-        for (payload, rtpmap) in &offer_rtpmaps {
-            for codec in supported_codecs {
-                if codec.matches(rtpmap) {
-                    common_codecs.push((payload.clone(), rtpmap));
-                    break;
-                }
+        for payload in offer_media.fmt() {
+            let Some(rtpmap) = offer_rtpmaps.get(payload) else {
+                continue;
+            };
+            if common_codecs.iter().any(|(pt, _)| pt == payload) {
+                continue;
+            }
+            if supported_codecs.iter().any(|codec| codec.matches(rtpmap)) {
+                common_codecs.push((payload.clone(), rtpmap));
             }
         }
 
-- 
2.43.0


From 25b7efcdee3649ba287f840a51f664d9dfedcefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:09 +0000
Subject: [PATCH 032/124] fix: SDP answers accepted media lines the offer had
 disabled

An offered line with port zero was answered like any other one.
---
 crates/sip-core/src/sdp_offer_answer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index c429021..4155961 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -493,7 +493,8 @@ impl OfferAnswerEngine {
 
         for (idx, offer_media) in offer.media().iter().enumerate() {
             // Check if this media should be rejected - use getter
-            let should_reject = options.reject_media().contains(&idx);
+            // A line the offerer disabled stays disabled (RFC 3264 section 6)
+            let should_reject = options.reject_media().contains(&idx) || offer_media.port() == 0;
 
             let answer_media = if should_reject {
                 self.create_rejected_media(offer_media)
-- 
2.43.0


From fba0c4f353350f5b5002e595818368ae9aa17aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 033/124] fix: an SDP answer near the end of the port range
 overflowed

The port of the next media line was computed with an unchecked addition:
a panic or, in release builds, a line accepted with port zero or one. A
line no port is left for is now rejected.
---
 crates/sip-core/src/sdp_offer_answer.rs | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 4155961..a02e48a 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -489,26 +489,28 @@ impl OfferAnswerEngine {
         });
 
         // Process each media stream in order - use getter
-        let mut current_port = options.base_port();
+        // None once there is no port left to hand out
+        let mut current_port = Some(options.base_port()).filter(|port| *port != 0);
 
         for (idx, offer_media) in offer.media().iter().enumerate() {
             // Check if this media should be rejected - use getter
             // A line the offerer disabled stays disabled (RFC 3264 section 6)
             let should_reject = options.reject_media().contains(&idx) || offer_media.port() == 0;
 
-            let answer_media = if should_reject {
-                self.create_rejected_media(offer_media)
-            } else {
-                match self.negotiate_media(offer_media, &options, current_port, idx) {
-                    Ok(media) => {
-                        current_port += 2; // RTP + RTCP
-                        media
-                    }
-                    Err(_) => {
-                        // No common codecs - reject
-                        self.create_rejected_media(offer_media)
+            let answer_media = match current_port {
+                Some(port) if !should_reject => {
+                    match self.negotiate_media(offer_media, &options, port, idx) {
+                        Ok(media) => {
+                            current_port = port.checked_add(2); // RTP + RTCP
+                            media
+                        }
+                        Err(_) => {
+                            // No common codecs - reject
+                            self.create_rejected_media(offer_media)
+                        }
                     }
                 }
+                _ => self.create_rejected_media(offer_media),
             };
 
             answer.media.push(answer_media);
-- 
2.43.0


From f44bc8eea7218bf190990b2c494d708d76276a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 034/124] fix: the session-level direction of an SDP offer was
 ignored

A description may give one direction for all its media lines. Answers,
hold and resume offers took such lines for sendrecv.
---
 crates/sip-core/src/sdp_offer_answer.rs | 29 +++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index a02e48a..885dd30 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -489,6 +489,7 @@ impl OfferAnswerEngine {
         });
 
         // Process each media stream in order - use getter
+        let session_dir = offer.find_direction(None);
         // None once there is no port left to hand out
         let mut current_port = Some(options.base_port()).filter(|port| *port != 0);
 
@@ -499,7 +500,7 @@ impl OfferAnswerEngine {
 
             let answer_media = match current_port {
                 Some(port) if !should_reject => {
-                    match self.negotiate_media(offer_media, &options, port, idx) {
+                    match self.negotiate_media(offer_media, &options, port, idx, session_dir) {
                         Ok(media) => {
                             current_port = port.checked_add(2); // RTP + RTCP
                             media
@@ -526,6 +527,7 @@ impl OfferAnswerEngine {
         options: &AnswerOptions,
         port: u16,
         media_idx: usize,
+        session_direction: Option<Direction>,
     ) -> Result<MediaDescription, NegotiationError> {
         // Get offer's rtpmap attributes
         let offer_rtpmaps = self.extract_rtpmaps(offer_media);
@@ -581,7 +583,7 @@ impl OfferAnswerEngine {
         }
 
         // Negotiate direction - use getter
-        let offer_direction = self.get_media_direction(offer_media);
+        let offer_direction = self.effective_direction(offer_media, session_direction);
         let answer_direction = if let Some(override_dir) = options.direction_override() {
             override_dir
         } else {
@@ -729,6 +731,23 @@ impl OfferAnswerEngine {
         Direction::SendRecv
     }
 
+    /// The direction of a media line: its own attribute, or else the one given
+    /// for the whole session, or else sendrecv.
+    fn effective_direction(
+        &self,
+        media: &MediaDescription,
+        session_direction: Option<Direction>,
+    ) -> Direction {
+        let own = media
+            .attributes()
+            .iter()
+            .any(|attr| attr.value.is_none() && Direction::parse(&attr.name).is_some());
+        match session_direction {
+            Some(dir) if !own => dir,
+            _ => self.get_media_direction(media),
+        }
+    }
+
     /// Negotiates direction attribute per RFC 3264 Table 1.
     fn negotiate_direction(&self, offer_direction: Direction) -> Direction {
         match offer_direction {
@@ -747,8 +766,9 @@ impl OfferAnswerEngine {
             hold_session.origin.sess_version = (version + 1).to_string();
         }
 
+        let session_dir = session.find_direction(None);
         for media in &mut hold_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.effective_direction(media, session_dir);
 
             let hold_dir = match current_dir {
                 Direction::SendRecv => Direction::SendOnly,
@@ -778,8 +798,9 @@ impl OfferAnswerEngine {
             resume_session.origin.sess_version = (version + 1).to_string();
         }
 
+        let session_dir = session.find_direction(None);
         for media in &mut resume_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.effective_direction(media, session_dir);
 
             let resume_dir = match current_dir {
                 Direction::SendOnly => Direction::SendRecv,
-- 
2.43.0


From 40a6a0d18d7edff42a6e2b0874fd35d3ffd3908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:58 +0000
Subject: [PATCH 035/124] fix: a direction override could answer with a
 direction the offer forbids

An answer to a sendonly or inactive offer carried whatever direction the
options asked for. The override now applies within what is permitted.
---
 crates/sip-core/src/sdp_offer_answer.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 885dd30..267622f 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -584,10 +584,11 @@ impl OfferAnswerEngine {
 
         // Negotiate direction - use getter
         let offer_direction = self.effective_direction(offer_media, session_direction);
-        let answer_direction = if let Some(override_dir) = options.direction_override() {
-            override_dir
-        } else {
-            self.negotiate_direction(offer_direction)
+        let answer_direction = match options.direction_override() {
+            Some(wanted) => {
+                self.restrict_direction(wanted, self.negotiate_direction(offer_direction))
+            }
+            None => self.negotiate_direction(offer_direction),
         };
 
         attributes.push(Attribute {
@@ -758,6 +759,21 @@ impl OfferAnswerEngine {
         }
     }
 
+    /// The part of a wanted direction that the offer permits (RFC 3264 section 6.1).
+    fn restrict_direction(&self, wanted: Direction, permitted: Direction) -> Direction {
+        let sends = |d| matches!(d, Direction::SendRecv | Direction::SendOnly);
+        let receives = |d| matches!(d, Direction::SendRecv | Direction::RecvOnly);
+        match (
+            sends(wanted) && sends(permitted),
+            receives(wanted) && receives(permitted),
+        ) {
+            (true, true) => Direction::SendRecv,
+            (true, false) => Direction::SendOnly,
+            (false, true) => Direction::RecvOnly,
+            (false, false) => Direction::Inactive,
+        }
+    }
+
     /// Creates a hold offer from an active session.
     pub fn create_hold_offer(&self, session: &SdpSession) -> SdpSession {
         let mut hold_session = session.clone();
-- 
2.43.0


From 25024ab44952842eb47c255abb8f6692bb876eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 036/124] fix: a codec offered with an explicit single channel
 was not recognised

"PCMU/8000/1" and "PCMU/8000" are the same codec; a local codec without
channel count refused the first form.
---
 crates/sip-core/src/sdp_offer_answer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 267622f..12c219d 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -328,7 +328,7 @@ impl CodecInfo {
                 params.parse::<u16>().ok() == Some(codec_channels)
             }
             (Some(codec_channels), None) => codec_channels == 1,
-            (None, Some(_)) => false,
+            (None, Some(params)) => params.parse::<u16>().ok() == Some(1),
             (None, None) => true,
         }
     }
-- 
2.43.0


From 6d30ec4370ca392a7d2c41577f59ac864f77bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 037/124] fix: hold and resume offers kept or overflowed a
 large session version

Above 2^64-1 the version stayed the same, and at that number adding one
overflowed (a panic, or version zero).
---
 crates/sip-core/src/sdp_offer_answer.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 12c219d..14b297b 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -439,6 +439,22 @@ fn validate_session_id(session_id: &str) -> Result<(), NegotiationError> {
     Ok(())
 }
 
+/// The session version after this one: a decimal number of any length plus one.
+fn next_version(version: &str) -> String {
+    if version.is_empty() || !version.bytes().all(|b| b.is_ascii_digit()) {
+        return version.to_string();
+    }
+    let mut digits = version.as_bytes().to_vec();
+    for digit in digits.iter_mut().rev() {
+        if *digit != b'9' {
+            *digit += 1;
+            return digits.iter().map(|b| *b as char).collect();
+        }
+        *digit = b'0';
+    }
+    format!("1{}", "0".repeat(version.len()))
+}
+
 /// RFC 3264 Offer/Answer negotiation engine.
 pub struct OfferAnswerEngine {}
 
@@ -778,9 +794,7 @@ impl OfferAnswerEngine {
     pub fn create_hold_offer(&self, session: &SdpSession) -> SdpSession {
         let mut hold_session = session.clone();
 
-        if let Ok(version) = hold_session.origin().sess_version().parse::<u64>() {
-            hold_session.origin.sess_version = (version + 1).to_string();
-        }
+        hold_session.origin.sess_version = next_version(session.origin().sess_version());
 
         let session_dir = session.find_direction(None);
         for media in &mut hold_session.media {
@@ -810,9 +824,7 @@ impl OfferAnswerEngine {
     pub fn create_resume_offer(&self, session: &SdpSession) -> SdpSession {
         let mut resume_session = session.clone();
 
-        if let Ok(version) = resume_session.origin.sess_version.parse::<u64>() {
-            resume_session.origin.sess_version = (version + 1).to_string();
-        }
+        resume_session.origin.sess_version = next_version(session.origin().sess_version());
 
         let session_dir = session.find_direction(None);
         for media in &mut resume_session.media {
-- 
2.43.0


From 971c19fe7929db232bba29a6ed7dd5563145c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 038/124] fix: SDP answers with an IPv6 local address were
 labelled IP4

---
 crates/sip-core/src/sdp_offer_answer.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 14b297b..2f1d377 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -439,6 +439,15 @@ fn validate_session_id(session_id: &str) -> Result<(), NegotiationError> {
     Ok(())
 }
 
+/// The SDP address type of an address.
+fn address_type(address: &str) -> &'static str {
+    if address.contains(':') {
+        "IP6"
+    } else {
+        "IP4"
+    }
+}
+
 /// The session version after this one: a decimal number of any length plus one.
 fn next_version(version: &str) -> String {
     if version.is_empty() || !version.bytes().all(|b| b.is_ascii_digit()) {
@@ -488,7 +497,7 @@ impl OfferAnswerEngine {
             sess_id: options.session_id().to_string(),
             sess_version: "0".to_string(),
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: address_type(options.local_address()).to_string(),
             unicast_address: options.local_address().to_string(),
         };
 
@@ -500,7 +509,7 @@ impl OfferAnswerEngine {
         // Session-level connection - use getter
         answer.connection = Some(Connection {
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: address_type(options.local_address()).to_string(),
             connection_address: options.local_address().to_string(),
         });
 
-- 
2.43.0


From 2f59a7ac5488188b8d6cc7d938a6602c5d5c6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:36 +0000
Subject: [PATCH 039/124] fix: negotiate_answer accepted media lines the offer
 had disabled

An offered line with port zero was answered like any other one, and then
kept a later usable line of the same type from being accepted.
---
 crates/sip-sdp/src/negotiate.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 9f225cd..255e739 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -226,6 +226,13 @@ fn negotiate_media(
     offer_media: &MediaDescription,
     local_capabilities: &SessionDescription,
 ) -> Result<MediaDescription, NegotiationError> {
+    // A line the offerer disabled stays disabled (RFC 3264 section 6)
+    if offer_media.port == 0 {
+        return Err(NegotiationError::MissingMediaStream(
+            offer_media.media_type.clone(),
+        ));
+    }
+
     // Find matching media type in local capabilities
     let local_media = local_capabilities
         .find_media(offer_media.media_type.clone())
-- 
2.43.0


From e9a9d9dc0339266c72a24cd3c782f5ca69339b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 040/124] fix: negotiate_answer ignored directions given for
 the whole session

A session-level a=sendonly or a=inactive, of the offer or of the local
capabilities, was taken for sendrecv.
---
 crates/sip-sdp/src/negotiate.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 255e739..03b6fcd 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -199,7 +199,7 @@ pub fn negotiate_answer(
                 .map_err(|e| NegotiationError::InvalidSdp(e.to_string()))?;
             continue;
         }
-        match negotiate_media(offer_media, local_capabilities) {
+        match negotiate_media(offer, offer_media, local_capabilities) {
             Ok(answer_media) => {
                 accepted_types.push(offer_media.media_type.clone());
                 answer_builder = answer_builder
@@ -223,6 +223,7 @@ pub fn negotiate_answer(
 
 /// Negotiate a single media stream
 fn negotiate_media(
+    offer: &SessionDescription,
     offer_media: &MediaDescription,
     local_capabilities: &SessionDescription,
 ) -> Result<MediaDescription, NegotiationError> {
@@ -255,9 +256,13 @@ fn negotiate_media(
         ));
     }
 
-    // Get directions
-    let offer_dir = extract_direction(&offer_media.attributes).unwrap_or(Direction::SendRecv);
-    let local_dir = extract_direction(&local_media.attributes).unwrap_or(Direction::SendRecv);
+    // Get directions, of the line or else of the whole session
+    let offer_dir = extract_direction(&offer_media.attributes)
+        .or_else(|| extract_direction(&offer.attributes))
+        .unwrap_or(Direction::SendRecv);
+    let local_dir = extract_direction(&local_media.attributes)
+        .or_else(|| extract_direction(&local_capabilities.attributes))
+        .unwrap_or(Direction::SendRecv);
 
     // Negotiate direction from answerer's perspective
     let answer_dir = offer_dir.reverse().negotiate(&local_dir)?;
-- 
2.43.0


From d2e20b98c9a63847bc8499c8b1b97eb4fabfff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:29 +0000
Subject: [PATCH 041/124] fix: negotiate_answer refused compatible media
 directions

The offered direction was reversed before a test that expects it
unreversed: recvonly offered to a sendonly side, or the other way round,
and any inactive line failed the whole negotiation, while sendonly
offered to a sendonly side was answered recvonly.
---
 crates/sip-sdp/src/negotiate.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 03b6fcd..90fcbf3 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -265,7 +265,7 @@ fn negotiate_media(
         .unwrap_or(Direction::SendRecv);
 
     // Negotiate direction from answerer's perspective
-    let answer_dir = offer_dir.reverse().negotiate(&local_dir)?;
+    let answer_dir = answer_direction(offer_dir, local_dir);
 
     // Build answer media
     let mut answer_media = base_answer_media(offer_media, local_media.port);
@@ -426,6 +426,22 @@ fn create_rejected_media(
     Ok(rejected)
 }
 
+/// What the offer permits of the direction wanted locally (RFC 3264 section 6.1)
+fn answer_direction(offer_dir: Direction, local_dir: Direction) -> Direction {
+    let permitted = offer_dir.reverse();
+    let sends = |d| matches!(d, Direction::SendRecv | Direction::SendOnly);
+    let receives = |d| matches!(d, Direction::SendRecv | Direction::RecvOnly);
+    match (
+        sends(permitted) && sends(local_dir),
+        receives(permitted) && receives(local_dir),
+    ) {
+        (true, true) => Direction::SendRecv,
+        (true, false) => Direction::SendOnly,
+        (false, true) => Direction::RecvOnly,
+        (false, false) => Direction::Inactive,
+    }
+}
+
 /// Extract direction from attributes
 fn extract_direction(attributes: &[Attribute]) -> Option<Direction> {
     attributes.iter().find_map(Direction::from_attribute)
-- 
2.43.0


From 5939e658f3fdaf4f63f7f650464e27ead25f5fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 042/124] fix: negotiate_answer did not repeat the offer's t=
 line

RFC 3264 requires the times of an answer to equal those of its offer;
answers always carried "t=0 0".
---
 crates/sip-sdp/src/negotiate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 90fcbf3..5720356 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -218,7 +218,12 @@ pub fn negotiate_answer(
         }
     }
 
-    Ok(answer_builder.build())
+    let mut answer = answer_builder.build();
+    if !offer.times.is_empty() {
+        // The answer's times must equal the offer's (RFC 3264 section 6)
+        answer.times = offer.times.clone();
+    }
+    Ok(answer)
 }
 
 /// Negotiate a single media stream
-- 
2.43.0


From 2264b89f801e332065e3984999e5f24bb81b5f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 043/124] fix: negotiate_answer mixed up codecs that share a
 payload number

Local fmtp parameters were looked up by the offered number, which may
stand for another codec locally; a static number remapped to another
codec was accepted; and an explicit channel count of one made equal
codecs differ.
---
 crates/sip-sdp/src/negotiate.rs | 37 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 5720356..2027662 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -307,7 +307,11 @@ fn negotiate_media(
             Some(pt) => pt,
             None => continue,
         };
-        if let Some(local_fmtp) = local_media.fmtp_for(pt) {
+        // The local side may know this codec under another payload type.
+        let local_fmtp = negotiated
+            .local_pt
+            .and_then(|local_pt| local_media.fmtp_for(local_pt));
+        if let Some(local_fmtp) = local_fmtp {
             answer_media.set_fmtp(pt, &local_fmtp.params);
         } else if let Some(offer_fmtp) = offer_media.fmtp_for(pt) {
             answer_media.set_fmtp(pt, &offer_fmtp.params);
@@ -350,6 +354,8 @@ fn negotiate_media(
 struct NegotiatedFormat {
     offered_format: SmolStr,
     rtpmap: Option<RtpMap>,
+    /// The local payload type for the same codec
+    local_pt: Option<u8>,
 }
 
 fn find_common_formats(
@@ -366,10 +372,16 @@ fn find_common_formats(
             };
 
             if offer_pt < 96 {
-                if local_supports_static_pt(local_media, offer_pt) {
+                let local_rtpmap = local_media.rtpmaps.get(&offer_pt);
+                let same_codec = match (offer_media.rtpmaps.get(&offer_pt), local_rtpmap) {
+                    (Some(offered), Some(local)) => is_same_codec(offered, local),
+                    _ => true,
+                };
+                if same_codec && local_supports_static_pt(local_media, offer_pt) {
                     common.push(NegotiatedFormat {
                         offered_format: offer_fmt.clone(),
-                        rtpmap: local_media.rtpmaps.get(&offer_pt).cloned(),
+                        rtpmap: local_rtpmap.cloned(),
+                        local_pt: Some(offer_pt),
                     });
                 }
                 continue;
@@ -389,6 +401,7 @@ fn find_common_formats(
                         clock_rate: local_rtpmap.clock_rate,
                         encoding_params: local_rtpmap.encoding_params.clone(),
                     }),
+                    local_pt: Some(local_rtpmap.payload_type),
                 });
             }
         }
@@ -398,6 +411,7 @@ fn find_common_formats(
                 common.push(NegotiatedFormat {
                     offered_format: offer_fmt.clone(),
                     rtpmap: None,
+                    local_pt: parse_payload_type(offer_fmt),
                 });
             }
         }
@@ -503,21 +517,26 @@ fn find_matching_dynamic_rtpmap(
     local_media
         .rtpmaps
         .values()
-        .find(|local_rtpmap| {
+        .filter(|local_rtpmap| {
             local_media
                 .formats
                 .iter()
                 .filter_map(parse_payload_type)
                 .any(|pt| pt == local_rtpmap.payload_type)
-                && offer_rtpmap
-                    .encoding_name
-                    .eq_ignore_ascii_case(&local_rtpmap.encoding_name)
-                && offer_rtpmap.clock_rate == local_rtpmap.clock_rate
-                && offer_rtpmap.encoding_params == local_rtpmap.encoding_params
+                && is_same_codec(offer_rtpmap, local_rtpmap)
         })
+        .min_by_key(|local_rtpmap| local_rtpmap.payload_type)
         .cloned()
 }
 
+/// Whether two rtpmaps name the same codec; one channel is the default
+fn is_same_codec(a: &RtpMap, b: &RtpMap) -> bool {
+    a.encoding_name.eq_ignore_ascii_case(&b.encoding_name)
+        && a.clock_rate == b.clock_rate
+        && a.encoding_params.as_deref().unwrap_or("1")
+            == b.encoding_params.as_deref().unwrap_or("1")
+}
+
 /// Generate session ID
 fn generate_session_id() -> String {
     std::time::SystemTime::now()
-- 
2.43.0


From fe02177d65e86b34dd430e61a63150daafd9e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 044/124] fix: an SDP offer could make the profile negotiator
 panic

An rtpmap with an unusable clock rate or name, or a payload type repeated
beyond the limit of an answer, hit an expect() while the answer was
built. Such entries are now left out.
---
 crates/sip-sdp/src/profiles.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/crates/sip-sdp/src/profiles.rs b/crates/sip-sdp/src/profiles.rs
index 183da2c..88566d6 100644
--- a/crates/sip-sdp/src/profiles.rs
+++ b/crates/sip-sdp/src/profiles.rs
@@ -10,6 +10,9 @@
 use crate::*;
 use std::collections::HashSet;
 
+/// Codecs of one answered media line, leaving room for its other attributes
+const MAX_ANSWER_CODECS: usize = 40;
+
 /// SDP profile type
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub enum SdpProfile {
@@ -338,7 +341,7 @@ pub fn negotiate_answer(
                         None => continue,
                     };
                     if desired_audio.contains(&pt) {
-                        if let Some(rtp) = m.rtpmaps.get(&pt) {
+                        if let Some(rtp) = usable_rtpmap(m, pt, &builder.audio_codecs) {
                             builder = builder.add_audio_codec(
                                 pt,
                                 rtp.encoding_name.to_string(),
@@ -361,7 +364,7 @@ pub fn negotiate_answer(
                             None => continue,
                         };
                         if desired_video.contains(&pt) {
-                            if let Some(rtp) = m.rtpmaps.get(&pt) {
+                            if let Some(rtp) = usable_rtpmap(m, pt, &builder.video_codecs) {
                                 builder = builder.add_video_codec(
                                     pt,
                                     rtp.encoding_name.to_string(),
@@ -378,6 +381,25 @@ pub fn negotiate_answer(
     builder.build(username, addr, audio_port, video_port)
 }
 
+/// The offered rtpmap of a payload type that can be answered: not already
+/// taken, and of a form the answer can carry.
+fn usable_rtpmap<'a>(
+    media: &'a MediaDescription,
+    pt: u8,
+    taken: &[(u8, String, u32)],
+) -> Option<&'a RtpMap> {
+    let rtp = media.rtpmaps.get(&pt)?;
+    let valid = validate_field(
+        &rtp.encoding_name,
+        "encoding_name",
+        MAX_ENCODING_NAME_LENGTH,
+    )
+    .is_ok()
+        && validate_clock_rate(rtp.clock_rate).is_ok();
+    (valid && taken.len() < MAX_ANSWER_CODECS && !taken.iter().any(|(p, _, _)| *p == pt))
+        .then_some(rtp)
+}
+
 fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
     let value = fmt.as_str().parse::<u16>().ok()?;
     if value > 127 {
-- 
2.43.0


From e197bc5a77ed74b56c0b74b0cc1e0460e1c3d127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:56 +0000
Subject: [PATCH 045/124] fix: SDP media lines with protocols like UDP/BFCP or
 RTP/AVPF were refused

The protocol was matched by prefix, so every longer name that begins with
a known one failed to parse.
---
 crates/sip-sdp/src/parse.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 52ec09f..e1a9e72 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -482,23 +482,23 @@ fn parse_port(input: &str) -> IResult<&str, (u16, Option<u16>)> {
 
 /// Parse protocol: RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF, TCP/TLS/RTP/SAVPF, UDP, TCP, etc.
 fn parse_protocol(input: &str) -> IResult<&str, Protocol> {
-    alt((
-        // WebRTC protocols (longest first to avoid partial matches)
-        map(tag("UDP/TLS/RTP/SAVPF"), |_| Protocol::UdpTlsRtpSavpf),
-        map(tag("TCP/TLS/RTP/SAVPF"), |_| Protocol::TcpTlsRtpSavpf),
-        map(tag("RTP/SAVPF"), |_| Protocol::RtpSavpf),
-        // Traditional RTP protocols
-        map(tag("RTP/SAVP"), |_| Protocol::RtpSavp),
-        map(tag("RTP/AVP"), |_| Protocol::RtpAvp),
-        // Basic protocols
-        map(tag("UDP"), |_| Protocol::Udp),
-        map(tag("TCP"), |_| Protocol::Tcp),
-        // Fallback for unknown protocols
-        map(
-            take_till(|c| c == ' ' || c == '\r' || c == '\n'),
-            |s: &str| Protocol::Other(SmolStr::new(s)),
-        ),
-    ))(input)
+    map(
+        take_till(|c| c == ' ' || c == '\r' || c == '\n'),
+        |name: &str| match name {
+            // WebRTC protocols
+            "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
+            "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
+            "RTP/SAVPF" => Protocol::RtpSavpf,
+            // Traditional RTP protocols
+            "RTP/SAVP" => Protocol::RtpSavp,
+            "RTP/AVP" => Protocol::RtpAvp,
+            // Basic protocols
+            "UDP" => Protocol::Udp,
+            "TCP" => Protocol::Tcp,
+            // Fallback for unknown protocols
+            other => Protocol::Other(SmolStr::new(other)),
+        },
+    )(input)
 }
 
 /// Parse network type: IN (Internet)
-- 
2.43.0


From 89708a63220dd98175360dd6fcb96b88c591ed5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 046/124] fix: text running on after an SDP value was taken for
 another line

The parser did not require a line to end after its value, and the fields
of o= and the type of b= could span line breaks, so damaged text such as
"v=0o=..." or "t=0 0a=x" was accepted as something else. o= fields, b=
types and addresses could also be empty or hold several words.
---
 crates/sip-sdp/src/parse.rs | 40 +++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index e1a9e72..dcd4ac0 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -9,9 +9,9 @@
 use crate::*;
 use nom::{
     branch::alt,
-    bytes::complete::{tag, take_till},
+    bytes::complete::{tag, take_till, take_till1},
     character::complete::{char, digit1, line_ending, space1},
-    combinator::{map, map_res, opt},
+    combinator::{eof, map, map_res, opt, recognize, verify},
     multi::{many0, separated_list0},
     sequence::{preceded, terminated, tuple},
     IResult,
@@ -161,7 +161,12 @@ struct MediaBlock {
 
 /// Parse all SDP lines
 fn parse_sdp_lines(input: &str) -> IResult<&str, Vec<SdpLine>> {
-    many0(terminated(parse_line, opt(line_ending)))(input)
+    // Every line extends to its line ending (or the end of the text): nothing
+    // after a complete value may be taken for a line of its own.
+    many0(terminated(
+        parse_line,
+        alt((line_ending, recognize(eof))),
+    ))(input)
 }
 
 /// Parse a single SDP line
@@ -196,12 +201,12 @@ fn parse_o_line(input: &str) -> IResult<&str, Origin> {
         tag("o="),
         map(
             tuple((
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
+                terminated(parse_token, space1),
+                terminated(parse_token, space1),
+                terminated(parse_token, space1),
                 terminated(parse_nettype, space1),
                 terminated(parse_addrtype, space1),
-                take_till(|c| c == '\r' || c == '\n'),
+                parse_address,
             )),
             |(username, sess_id, sess_version, net_type, addr_type, unicast_address)| Origin {
                 username: SmolStr::new(username),
@@ -209,7 +214,7 @@ fn parse_o_line(input: &str) -> IResult<&str, Origin> {
                 session_version: SmolStr::new(sess_version),
                 net_type,
                 addr_type,
-                unicast_address: SmolStr::new(unicast_address.trim()),
+                unicast_address: SmolStr::new(unicast_address),
             },
         ),
     )(input)
@@ -273,12 +278,12 @@ fn parse_c_line(input: &str) -> IResult<&str, Connection> {
             tuple((
                 terminated(parse_nettype, space1),
                 terminated(parse_addrtype, space1),
-                take_till(|c| c == '\r' || c == '\n'),
+                parse_address,
             )),
             |(net_type, addr_type, connection_address)| Connection {
                 net_type,
                 addr_type,
-                connection_address: SmolStr::new(connection_address.trim()),
+                connection_address: SmolStr::new(connection_address),
             },
         ),
     )(input)
@@ -290,7 +295,7 @@ fn parse_b_line(input: &str) -> IResult<&str, Bandwidth> {
         tag("b="),
         map(
             tuple((
-                take_till(|c| c == ':'),
+                take_till1(|c| c == ':' || c == '\r' || c == '\n'),
                 preceded(char(':'), map_res(digit1, |s: &str| s.parse::<u32>())),
             )),
             |(bw_type, bandwidth)| Bandwidth {
@@ -501,6 +506,19 @@ fn parse_protocol(input: &str) -> IResult<&str, Protocol> {
     )(input)
 }
 
+/// Parse one field of a line: at least one character, no white space
+fn parse_token(input: &str) -> IResult<&str, &str> {
+    take_till1(|c: char| c.is_whitespace())(input)
+}
+
+/// Parse the address at the end of an o= or c= line: a single field
+fn parse_address(input: &str) -> IResult<&str, &str> {
+    verify(
+        map(take_till(|c| c == '\r' || c == '\n'), |s: &str| s.trim()),
+        |s: &str| !s.is_empty() && !s.contains(char::is_whitespace),
+    )(input)
+}
+
 /// Parse network type: IN (Internet)
 fn parse_nettype(input: &str) -> IResult<&str, NetType> {
     map(tag("IN"), |_| NetType::Internet)(input)
-- 
2.43.0


From bc363e9b5148ea7dc1e5cb067d85d6ce36a43ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 047/124] fix: SDP payload types with a plus sign were accepted

An m= line with "+5" as a payload type is malformed; the format was kept
as written and matched no rtpmap.
---
 crates/sip-sdp/src/parse.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index dcd4ac0..b156852 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -766,9 +766,16 @@ fn validate_media_formats(block: &MediaBlock) -> Result<(), ParseError> {
     if is_rtp_protocol(&block.protocol) {
         for fmt in &block.formats {
             let token = fmt.as_str();
-            let value = token.parse::<u16>().map_err(|_| {
-                ParseError::InvalidFormat("m=", format!("non-numeric RTP payload type: {}", token))
-            })?;
+            let value = token
+                .parse::<u16>()
+                .ok()
+                .filter(|_| token.bytes().all(|b| b.is_ascii_digit()))
+                .ok_or_else(|| {
+                    ParseError::InvalidFormat(
+                        "m=",
+                        format!("non-numeric RTP payload type: {}", token),
+                    )
+                })?;
             if value > 127 {
                 return Err(ParseError::InvalidFormat(
                     "m=",
-- 
2.43.0


From d95fc3de941bd8f4d89c8f6d4e8daa8d3488c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 048/124] fix: SDP builders accepted tokens that do not survive
 being written

Origin fields, addresses, formats, codec names, attribute names and time
zone fields could contain the separators of their own line, and the
encoding parameters of an rtpmap were not checked at all, so that a line
break in them added attributes or media lines of the caller's choosing.
---
 crates/sip-sdp/src/builder.rs  |  7 ++---
 crates/sip-sdp/src/lib.rs      | 48 +++++++++++++++++++++++++++-------
 crates/sip-sdp/src/profiles.rs |  7 +----
 3 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/crates/sip-sdp/src/builder.rs b/crates/sip-sdp/src/builder.rs
index a9007ff..60124dd 100644
--- a/crates/sip-sdp/src/builder.rs
+++ b/crates/sip-sdp/src/builder.rs
@@ -51,7 +51,7 @@ impl SessionDescriptionBuilder {
 
     /// Adds a session-level attribute with validation
     pub fn attribute(mut self, name: &str, value: Option<&str>) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_token(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH, &[':'])?;
         if let Some(val) = value {
             validate_field(val, "attribute_value", MAX_ATTRIBUTE_VALUE_LENGTH)?;
         }
@@ -90,12 +90,13 @@ impl SessionDescriptionBuilder {
         adjustment_time: &str,
         offset: &str,
     ) -> Result<Self, SdpError> {
-        validate_field(
+        validate_token(
             adjustment_time,
             "adjustment_time",
             MAX_ATTRIBUTE_NAME_LENGTH,
+            &[],
         )?;
-        validate_field(offset, "offset", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_token(offset, "offset", MAX_ATTRIBUTE_NAME_LENGTH, &[])?;
 
         if self.sdp.time_zones.len() >= MAX_TIME_ZONES {
             return Err(SdpError::TooManyItems {
diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 641c037..982c899 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -88,6 +88,9 @@ pub enum SdpError {
     InvalidPayloadType { payload_type: u8, max: u8 },
     /// Empty required field
     EmptyField { field: &'static str },
+    /// Field contains a character that would separate it from itself on
+    /// the SDP line it is written to
+    FieldContainsSeparator { field: &'static str },
 }
 
 impl std::fmt::Display for SdpError {
@@ -119,6 +122,9 @@ impl std::fmt::Display for SdpError {
             SdpError::EmptyField { field } => {
                 write!(f, "{} cannot be empty", field)
             }
+            SdpError::FieldContainsSeparator { field } => {
+                write!(f, "{} contains whitespace or a separator", field)
+            }
         }
     }
 }
@@ -143,6 +149,21 @@ fn validate_field(value: &str, field: &'static str, max_length: usize) -> Result
     Ok(())
 }
 
+/// Validates a field that is one token of its line: no whitespace and none
+/// of `separators`
+fn validate_token(
+    value: &str,
+    field: &'static str,
+    max_length: usize,
+    separators: &[char],
+) -> Result<(), SdpError> {
+    validate_field(value, field, max_length)?;
+    if value.contains(|c: char| c.is_whitespace() || separators.contains(&c)) {
+        return Err(SdpError::FieldContainsSeparator { field });
+    }
+    Ok(())
+}
+
 /// Validates a clock rate
 fn validate_clock_rate(rate: u32) -> Result<(), SdpError> {
     if !(MIN_CLOCK_RATE..=MAX_CLOCK_RATE).contains(&rate) {
@@ -155,6 +176,15 @@ fn validate_clock_rate(rate: u32) -> Result<(), SdpError> {
     Ok(())
 }
 
+/// Validates the encoding name and parameters of an rtpmap
+fn validate_encoding(name: &str, params: Option<&str>) -> Result<(), SdpError> {
+    validate_token(name, "encoding_name", MAX_ENCODING_NAME_LENGTH, &['/'])?;
+    if let Some(params) = params {
+        validate_token(params, "encoding_params", MAX_ENCODING_NAME_LENGTH, &['/'])?;
+    }
+    Ok(())
+}
+
 /// Validates a payload type
 fn validate_payload_type(payload_type: u8) -> Result<(), SdpError> {
     if payload_type > MAX_PAYLOAD_TYPE {
@@ -564,7 +594,7 @@ impl MediaDescription {
 
     /// Adds a format token (non-RTP or custom) with validation
     pub fn add_format_token(mut self, token: &str) -> Result<Self, SdpError> {
-        validate_field(token, "format_token", MAX_ENCODING_NAME_LENGTH)?;
+        validate_token(token, "format_token", MAX_ENCODING_NAME_LENGTH, &[])?;
 
         if self.formats.len() >= MAX_FORMATS_PER_MEDIA {
             return Err(SdpError::TooManyItems {
@@ -593,7 +623,7 @@ impl MediaDescription {
         encoding_params: Option<&str>,
     ) -> Result<Self, SdpError> {
         validate_payload_type(payload_type)?;
-        validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        validate_encoding(encoding_name, encoding_params)?;
         validate_clock_rate(clock_rate)?;
 
         // Replace-semantics: drop any previous rtpmap for this PT
@@ -649,7 +679,7 @@ impl MediaDescription {
 
     /// Adds a property attribute with validation
     pub fn add_property(mut self, name: &str) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_token(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH, &[':'])?;
 
         if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
             return Err(SdpError::TooManyItems {
@@ -666,7 +696,7 @@ impl MediaDescription {
 
     /// Adds a value attribute with validation
     pub fn add_attribute(mut self, name: &str, value: &str) -> Result<Self, SdpError> {
-        validate_field(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH)?;
+        validate_token(name, "attribute_name", MAX_ATTRIBUTE_NAME_LENGTH, &[':'])?;
         validate_field(value, "attribute_value", MAX_ATTRIBUTE_VALUE_LENGTH)?;
 
         if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
@@ -742,7 +772,7 @@ impl MediaDescription {
         encoding_params: Option<&str>,
     ) -> Result<(), SdpError> {
         validate_payload_type(payload_type)?;
-        validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        validate_encoding(encoding_name, encoding_params)?;
         validate_clock_rate(clock_rate)?;
 
         // Drop any prior entries first so duplicate-pt mutations are
@@ -819,9 +849,9 @@ fn remove_rtpmap_attr(attrs: &mut Vec<Attribute>, payload_type: u8) -> usize {
 impl Origin {
     /// Creates a new origin line with validation
     pub fn new(username: &str, session_id: &str, addr: &str) -> Result<Self, SdpError> {
-        validate_field(username, "username", MAX_USERNAME_LENGTH)?;
-        validate_field(session_id, "session_id", MAX_SESSION_ID_LENGTH)?;
-        validate_field(addr, "address", MAX_ADDRESS_LENGTH)?;
+        validate_token(username, "username", MAX_USERNAME_LENGTH, &[])?;
+        validate_token(session_id, "session_id", MAX_SESSION_ID_LENGTH, &[])?;
+        validate_token(addr, "address", MAX_ADDRESS_LENGTH, &[])?;
 
         Ok(Self {
             username: SmolStr::new(username),
@@ -841,7 +871,7 @@ impl Origin {
 impl Connection {
     /// Creates a new connection line with validation
     pub fn new(addr: &str) -> Result<Self, SdpError> {
-        validate_field(addr, "address", MAX_ADDRESS_LENGTH)?;
+        validate_token(addr, "address", MAX_ADDRESS_LENGTH, &[])?;
 
         Ok(Self {
             net_type: NetType::Internet,
diff --git a/crates/sip-sdp/src/profiles.rs b/crates/sip-sdp/src/profiles.rs
index 88566d6..7dadd41 100644
--- a/crates/sip-sdp/src/profiles.rs
+++ b/crates/sip-sdp/src/profiles.rs
@@ -389,12 +389,7 @@ fn usable_rtpmap<'a>(
     taken: &[(u8, String, u32)],
 ) -> Option<&'a RtpMap> {
     let rtp = media.rtpmaps.get(&pt)?;
-    let valid = validate_field(
-        &rtp.encoding_name,
-        "encoding_name",
-        MAX_ENCODING_NAME_LENGTH,
-    )
-    .is_ok()
+    let valid = validate_encoding(&rtp.encoding_name, None).is_ok()
         && validate_clock_rate(rtp.clock_rate).is_ok();
     (valid && taken.len() < MAX_ANSWER_CODECS && !taken.iter().any(|(p, _, _)| *p == pt))
         .then_some(rtp)
-- 
2.43.0


From e1c5fd1e4591f6b4b1fc1b7238e574f807909a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 049/124] fix: white space around text in built SDP was lost
 when read back

The parser trims free text and the end of attribute values, so a built
description with such white space did not read back as an equal one.
---
 crates/sip-sdp/src/builder.rs | 9 +++++----
 crates/sip-sdp/src/lib.rs     | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/sip-sdp/src/builder.rs b/crates/sip-sdp/src/builder.rs
index 60124dd..92fce71 100644
--- a/crates/sip-sdp/src/builder.rs
+++ b/crates/sip-sdp/src/builder.rs
@@ -32,14 +32,15 @@ impl SessionDescriptionBuilder {
     /// Sets the session name with validation
     pub fn session_name(mut self, name: &str) -> Result<Self, SdpError> {
         validate_field(name, "session_name", MAX_SESSION_NAME_LENGTH)?;
-        self.sdp.session_name = SmolStr::new(name);
+        // Readers drop the white space around free text.
+        self.sdp.session_name = SmolStr::new(name.trim());
         Ok(self)
     }
 
     /// Sets session information with validation
     pub fn session_info(mut self, info: &str) -> Result<Self, SdpError> {
         validate_field(info, "session_info", MAX_SESSION_NAME_LENGTH)?;
-        self.sdp.session_info = Some(SmolStr::new(info));
+        self.sdp.session_info = Some(SmolStr::new(info.trim()));
         Ok(self)
     }
 
@@ -67,7 +68,7 @@ impl SessionDescriptionBuilder {
         if let Some(val) = value {
             self.sdp.attributes.push(Attribute::Value {
                 name: SmolStr::new(name),
-                value: SmolStr::new(val),
+                value: SmolStr::new(val.trim_end()),
             });
         } else {
             self.sdp
@@ -80,7 +81,7 @@ impl SessionDescriptionBuilder {
     /// Sets the session encryption key with validation
     pub fn encryption_key(mut self, key: &str) -> Result<Self, SdpError> {
         validate_field(key, "encryption_key", MAX_ATTRIBUTE_VALUE_LENGTH)?;
-        self.sdp.encryption_key = Some(SmolStr::new(key));
+        self.sdp.encryption_key = Some(SmolStr::new(key.trim()));
         Ok(self)
     }
 
diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 982c899..f8eeee5 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -709,7 +709,8 @@ impl MediaDescription {
 
         self.attributes.push(Attribute::Value {
             name: SmolStr::new(name),
-            value: SmolStr::new(value),
+            // Readers drop trailing white space.
+            value: SmolStr::new(value.trim_end()),
         });
         Ok(self)
     }
-- 
2.43.0


From 7182a644fc31ac04baa833252fbb05d0d0a0e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 050/124] fix: a refused set_rtpmap removed the existing entry

The old mapping was dropped before the limits were checked, so on a media
section over the limit the call failed and the mapping was gone.
---
 crates/sip-sdp/src/lib.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index f8eeee5..3ce5b0f 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -776,25 +776,28 @@ impl MediaDescription {
         validate_encoding(encoding_name, encoding_params)?;
         validate_clock_rate(clock_rate)?;
 
-        // Drop any prior entries first so duplicate-pt mutations are
-        // idempotent and don't trip the per-section attribute cap.
-        remove_rtpmap_attr(&mut self.attributes, payload_type);
-        self.rtpmaps.remove(&payload_type);
-
-        if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
+        // Prior entries do not count, so duplicate-pt mutations are
+        // idempotent and don't trip the per-section attribute cap; they
+        // are dropped only once nothing can fail any more.
+        let mut attributes = self.attributes.clone();
+        remove_rtpmap_attr(&mut attributes, payload_type);
+        let others = self.rtpmaps.len() - usize::from(self.rtpmaps.contains_key(&payload_type));
+
+        if attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
             return Err(SdpError::TooManyItems {
                 collection: "attributes",
                 max: MAX_ATTRIBUTES_PER_DESCRIPTION,
-                actual: self.attributes.len() + 1,
+                actual: attributes.len() + 1,
             });
         }
-        if self.rtpmaps.len() >= MAX_RTPMAPS {
+        if others >= MAX_RTPMAPS {
             return Err(SdpError::TooManyItems {
                 collection: "rtpmaps",
                 max: MAX_RTPMAPS,
-                actual: self.rtpmaps.len() + 1,
+                actual: others + 1,
             });
         }
+        self.attributes = attributes;
 
         let value = match encoding_params {
             Some(params) => format!(
-- 
2.43.0


From 908dffd6f7487c9ec591ab3cb65b77dfaab52456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:43 +0000
Subject: [PATCH 051/124] fix: rtpmaps added as plain attributes were missing
 from the cache

add_attribute("rtpmap", ...) left the rtpmaps cache without the mapping,
so the description differed from its own text read back, and a later
add_rtpmap for the number left both mappings in place.
---
 crates/sip-sdp/src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 3ce5b0f..e8dd7d3 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -629,11 +629,8 @@ impl MediaDescription {
         // Replace-semantics: drop any previous rtpmap for this PT
         // before counting against the limits. This way we don't reject
         // a legitimate update at the boundary.
-        let was_present = self.rtpmaps.contains_key(&payload_type);
-        if was_present {
-            remove_rtpmap_attr(&mut self.attributes, payload_type);
-            self.rtpmaps.remove(&payload_type);
-        }
+        remove_rtpmap_attr(&mut self.attributes, payload_type);
+        self.rtpmaps.remove(&payload_type);
 
         if self.rtpmaps.len() >= MAX_RTPMAPS {
             return Err(SdpError::TooManyItems {
@@ -712,6 +709,9 @@ impl MediaDescription {
             // Readers drop trailing white space.
             value: SmolStr::new(value.trim_end()),
         });
+        if name == "rtpmap" {
+            self.rebuild_rtpmaps();
+        }
         Ok(self)
     }
 
-- 
2.43.0


From cd39ab1149e3512a46745fac1ca309ba63669493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 052/124] fix: SDP could be built with formats that cannot be
 read back

Format tokens on an RTP media line made a description that the parser
refuses, and a media line without formats was written with payload type 0
that the description itself did not have.
---
 crates/sip-sdp/src/builder.rs | 13 ++++++++++++-
 crates/sip-sdp/src/lib.rs     | 19 +++++++++++++++++++
 crates/sip-sdp/src/parse.rs   | 35 +++++++++++------------------------
 3 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/crates/sip-sdp/src/builder.rs b/crates/sip-sdp/src/builder.rs
index 92fce71..a115971 100644
--- a/crates/sip-sdp/src/builder.rs
+++ b/crates/sip-sdp/src/builder.rs
@@ -115,7 +115,18 @@ impl SessionDescriptionBuilder {
     }
 
     /// Adds a media description with validation
-    pub fn media(mut self, media: MediaDescription) -> Result<Self, SdpError> {
+    pub fn media(mut self, mut media: MediaDescription) -> Result<Self, SdpError> {
+        if media.formats.is_empty() {
+            // A media line needs a format; this is the one that gets written.
+            media.formats.push(SmolStr::new("0"));
+        }
+        let payload_type = |f: &SmolStr| {
+            crate::parse::payload_type_number(f).is_some_and(|pt| pt <= u16::from(MAX_PAYLOAD_TYPE))
+        };
+        if media.protocol.is_rtp() && !media.formats.iter().all(payload_type) {
+            return Err(SdpError::InvalidFormat { field: "format" });
+        }
+
         if self.sdp.media.len() >= MAX_MEDIA_DESCRIPTIONS {
             return Err(SdpError::TooManyItems {
                 collection: "media_descriptions",
diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index e8dd7d3..a7193e4 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -91,6 +91,8 @@ pub enum SdpError {
     /// Field contains a character that would separate it from itself on
     /// the SDP line it is written to
     FieldContainsSeparator { field: &'static str },
+    /// A format of a media line is not one its protocol can carry
+    InvalidFormat { field: &'static str },
 }
 
 impl std::fmt::Display for SdpError {
@@ -125,6 +127,9 @@ impl std::fmt::Display for SdpError {
             SdpError::FieldContainsSeparator { field } => {
                 write!(f, "{} contains whitespace or a separator", field)
             }
+            SdpError::InvalidFormat { field } => {
+                write!(f, "{} cannot be used with the protocol", field)
+            }
         }
     }
 }
@@ -902,6 +907,20 @@ impl std::fmt::Display for MediaType {
     }
 }
 
+impl Protocol {
+    /// Whether the format list holds RTP payload types
+    pub(crate) fn is_rtp(&self) -> bool {
+        matches!(
+            self,
+            Protocol::RtpAvp
+                | Protocol::RtpSavp
+                | Protocol::RtpSavpf
+                | Protocol::UdpTlsRtpSavpf
+                | Protocol::TcpTlsRtpSavpf
+        )
+    }
+}
+
 impl std::fmt::Display for Protocol {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index b156852..4c4193b 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -163,10 +163,7 @@ struct MediaBlock {
 fn parse_sdp_lines(input: &str) -> IResult<&str, Vec<SdpLine>> {
     // Every line extends to its line ending (or the end of the text): nothing
     // after a complete value may be taken for a line of its own.
-    many0(terminated(
-        parse_line,
-        alt((line_ending, recognize(eof))),
-    ))(input)
+    many0(terminated(parse_line, alt((line_ending, recognize(eof)))))(input)
 }
 
 /// Parse a single SDP line
@@ -763,19 +760,12 @@ fn validate_media_formats(block: &MediaBlock) -> Result<(), ParseError> {
         ));
     }
 
-    if is_rtp_protocol(&block.protocol) {
+    if block.protocol.is_rtp() {
         for fmt in &block.formats {
             let token = fmt.as_str();
-            let value = token
-                .parse::<u16>()
-                .ok()
-                .filter(|_| token.bytes().all(|b| b.is_ascii_digit()))
-                .ok_or_else(|| {
-                    ParseError::InvalidFormat(
-                        "m=",
-                        format!("non-numeric RTP payload type: {}", token),
-                    )
-                })?;
+            let value = payload_type_number(token).ok_or_else(|| {
+                ParseError::InvalidFormat("m=", format!("non-numeric RTP payload type: {}", token))
+            })?;
             if value > 127 {
                 return Err(ParseError::InvalidFormat(
                     "m=",
@@ -788,15 +778,12 @@ fn validate_media_formats(block: &MediaBlock) -> Result<(), ParseError> {
     Ok(())
 }
 
-fn is_rtp_protocol(protocol: &Protocol) -> bool {
-    matches!(
-        protocol,
-        Protocol::RtpAvp
-            | Protocol::RtpSavp
-            | Protocol::RtpSavpf
-            | Protocol::UdpTlsRtpSavpf
-            | Protocol::TcpTlsRtpSavpf
-    )
+/// The number of an RTP payload type as written in a format list
+pub(crate) fn payload_type_number(token: &str) -> Option<u16> {
+    token
+        .parse()
+        .ok()
+        .filter(|_| token.bytes().all(|b| b.is_ascii_digit()))
 }
 
 /// Parse rtpmap attribute value: <payload> <encoding>/<clock> or <payload> <encoding>/<clock>/<params>
-- 
2.43.0


From 8b2a6db2c0fca9f5c8b8b75a8dcb86e00cfa2726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 053/124] fix: end the user part of a SIP URI at the first @

A raw ";" or "?" before the "@" was taken for a parameter or header
separator, so "sip:a;b@host" was read as a URI of the host "a".
---
 crates/sip-core/src/uri.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index cee183c..28be31a 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -337,6 +337,13 @@ impl SipUri {
             )));
         }
 
+        // The userinfo ends at the first '@': a ';' or '?' before it belongs to
+        // the user, not to the parameters or headers (RFC 3261 §25.1).
+        let (user_part, rest) = match rest.split_once('@') {
+            Some((user, rest)) => (Some(user), rest),
+            None => (None, rest),
+        };
+
         let (addr_part, headers_part) = match rest.split_once('?') {
             Some((addr, headers)) => (addr, Some(headers)),
             None => (rest, None),
@@ -374,17 +381,18 @@ impl SipUri {
             }
         }
 
-        let (user, host_port) = match base.split_once('@') {
-            Some((user_part, host)) => {
+        let user = match user_part {
+            Some(user_part) => {
                 let decoded = percent_decode_str(user_part.trim())
                     .decode_utf8()
                     .map_err(|e| UriError::PercentDecodingError(e.to_string()))?;
 
                 validate_user(&decoded)?;
-                (Some(SmolStr::new(&*decoded)), host.trim())
+                Some(SmolStr::new(&*decoded))
             }
-            None => (None, base.trim()),
+            None => None,
         };
+        let host_port = base.trim();
 
         if host_port.is_empty() {
             return Err(UriError::InvalidFormat("missing host".to_string()));
-- 
2.43.0


From 721cab01c3b5d0c47f3efaca8f0c00f964da6ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:14 +0000
Subject: [PATCH 054/124] fix: refuse anything but a port after a bracketed
 IPv6 host

"sip:[::1]5070" and "sip:[::1]evil.example" were read as the host ::1,
and "[host]" as the host name without its brackets.
---
 crates/sip-core/src/uri.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 28be31a..d5187cf 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -754,14 +754,23 @@ fn split_host_port(input: &str) -> Result<(&str, Option<u16>), UriError> {
         let host = &input[1..end];
         let remainder = &input[end + 1..];
 
-        if let Some(stripped) = remainder.strip_prefix(':') {
-            let port = stripped
-                .parse()
-                .map_err(|_| UriError::InvalidPort("invalid port number".to_string()))?;
-            Ok((host, Some(port)))
-        } else {
-            Ok((host, None))
+        // Brackets enclose an IPv6 address and nothing else (RFC 3261 §25.1)
+        if !host.contains(':') {
+            return Err(UriError::InvalidHost(
+                "brackets must enclose an IPv6 address".to_string(),
+            ));
+        }
+
+        if remainder.is_empty() {
+            return Ok((host, None));
         }
+
+        let port = remainder
+            .strip_prefix(':')
+            .filter(|port| port.chars().all(|c| c.is_ascii_digit()))
+            .and_then(|port| port.parse().ok())
+            .ok_or_else(|| UriError::InvalidPort("invalid port number".to_string()))?;
+        Ok((host, Some(port)))
     } else if let Some(idx) = input.rfind(':') {
         // If multiple colons (unbracketed IPv6), invalid
         if input.matches(':').count() > 1 {
-- 
2.43.0


From a68564d8b32ca94bbad4dcb597cbc2100843ece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 055/124] fix: write built SIP URIs so that they read back as
 themselves

SipUri::new wrote an IPv6 host without brackets, a text that does not
parse, and new and with_host kept upper-case hosts that parse as
lower-case ones.
---
 crates/sip-core/src/uri.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index d5187cf..d192a88 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -293,20 +293,20 @@ pub struct SipUri {
 impl SipUri {
     /// Constructs a `sip:` URI with the given host and default settings.
     pub fn new(host: impl Into<SmolStr>) -> Result<Self, UriError> {
-        let host = host.into();
+        let host = SmolStr::new(host.into().to_ascii_lowercase());
         validate_host(&host)?;
 
-        let raw = SmolStr::new(format!("sip:{}", host));
-
-        Ok(Self {
-            raw,
+        let mut uri = Self {
+            raw: SmolStr::default(),
             sips: false,
             user: None,
             host,
             port: None,
             params: BTreeMap::new(),
             headers: BTreeMap::new(),
-        })
+        };
+        uri.raw = build_raw_sip_uri(&uri);
+        Ok(uri)
     }
 
     /// Attempts to parse a SIP or SIPS URI from the provided string.
@@ -482,7 +482,7 @@ impl SipUri {
 
     /// Sets the host with validation.
     pub fn with_host(mut self, host: impl Into<SmolStr>) -> Result<Self, UriError> {
-        let host = host.into();
+        let host = SmolStr::new(host.into().to_ascii_lowercase());
         validate_host(&host)?;
         self.host = host;
         self.raw = build_raw_sip_uri(&self);
-- 
2.43.0


From d3bc06f25ed50c9f0a30825b96de2484e2178b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 056/124] fix: keep the user part percent-encoded when a SIP
 URI is changed

with_port and the like wrote the decoded user: "al%20ice" became
"al ice", which ends the URI in a message, and "a%2541" read back as
"aA".
---
 crates/sip-core/src/uri.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index d192a88..d3e5743 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -7,7 +7,7 @@
 use std::collections::BTreeMap;
 use std::fmt;
 
-use percent_encoding::percent_decode_str;
+use percent_encoding::{percent_decode_str, utf8_percent_encode, AsciiSet, NON_ALPHANUMERIC};
 use smol_str::SmolStr;
 
 use crate::TelUri;
@@ -24,6 +24,25 @@ const MAX_PARAMS: usize = 50;
 const MAX_HEADERS: usize = 50;
 const MAX_ABSOLUTE_URI_LENGTH: usize = 2048;
 
+/// Characters of a user part that are written percent-encoded: all but
+/// unreserved, user-unreserved and the ':' before a password (RFC 3261 §25.1).
+const USER_ESCAPES: &AsciiSet = &NON_ALPHANUMERIC
+    .remove(b'-')
+    .remove(b'_')
+    .remove(b'.')
+    .remove(b'!')
+    .remove(b'~')
+    .remove(b'*')
+    .remove(b'\'')
+    .remove(b'(')
+    .remove(b')')
+    .remove(b'&')
+    .remove(b'=')
+    .remove(b'+')
+    .remove(b'$')
+    .remove(b',')
+    .remove(b':');
+
 /// Error types for URI operations.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum UriError {
@@ -805,7 +824,8 @@ fn build_raw_sip_uri(uri: &SipUri) -> SmolStr {
     let mut out = String::new();
     out.push_str(if uri.sips { "sips:" } else { "sip:" });
     if let Some(user) = &uri.user {
-        out.push_str(user.as_str());
+        // The user is kept decoded: escape what may not appear literally
+        out.extend(utf8_percent_encode(user, USER_ESCAPES));
         out.push('@');
     }
     if uri.host.contains(':') && !uri.host.starts_with('[') && !uri.host.ends_with(']') {
-- 
2.43.0


From c524ae070058e33bddcc9124a3de7bf786503c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 057/124] fix: refuse URIs that contain whitespace or name-addr
 delimiters

Such a text was accepted and written as is, so a URI taken from one
header broke the request line or name-addr it was put in; " sip:a@b"
became an opaque absolute URI. Spaces in a tel number are still
accepted, but no longer written.
---
 crates/sip-core/src/tel_uri.rs | 22 +++++++++++++++++++++-
 crates/sip-core/src/uri.rs     | 17 +++++++++++++++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 9840a19..9e408d1 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -20,6 +20,8 @@ use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
 
+use crate::uri::is_uri_delimiter;
+
 // Security: Input size limits
 const MAX_TELEPHONE_NUMBER_LENGTH: usize = 64; // E.164 allows max ~15 digits, generous buffer
 const MAX_PHONE_CONTEXT_LENGTH: usize = 256;
@@ -318,6 +320,13 @@ impl TelUri {
             ));
         }
 
+        // The number is kept as parse keeps it: no separators in a global
+        // number, no spaces in a local one
+        let number = if is_global {
+            normalize_global_number(&number)
+        } else {
+            SmolStr::new(number.replace(' ', ""))
+        };
         let raw = SmolStr::new(format!("tel:{}", number));
 
         Ok(Self {
@@ -346,7 +355,11 @@ impl TelUri {
     /// assert_eq!(uri.phone_context().unwrap(), "example.com");
     /// ```
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
-        let raw = SmolStr::new(input);
+        if input.contains(|c| c != ' ' && is_uri_delimiter(c)) {
+            return Err(TelUriError::InvalidFormat(
+                "contains whitespace or delimiters".to_string(),
+            ));
+        }
 
         // Must start with "tel:" (schemes are case-insensitive)
         let rest = input
@@ -355,6 +368,11 @@ impl TelUri {
             .map(|(_, rest)| rest)
             .ok_or(TelUriError::InvalidScheme)?;
 
+        // Spaces are tolerated as separators of the number (parameters must
+        // not contain any, see below) but are never written: they would end
+        // the URI.
+        let raw = SmolStr::new(input.replace(' ', ""));
+
         // Split into number and parameters
         let mut parts = rest.split(';');
         let number_part = parts
@@ -367,6 +385,8 @@ impl TelUri {
         }
 
         validate_telephone_number(number_part)?;
+        let number_part = number_part.replace(' ', "");
+        let number_part = number_part.as_str();
 
         // Determine if global (starts with '+') or local
         let is_global = number_part.starts_with('+');
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index d3e5743..c4a12ab 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -335,6 +335,11 @@ impl SipUri {
                 "contains control characters".to_string(),
             ));
         }
+        if input.contains(is_uri_delimiter) {
+            return Err(UriError::InvalidFormat(
+                "contains whitespace or delimiters".to_string(),
+            ));
+        }
 
         if input.len() > MAX_URI_LENGTH {
             return Err(UriError::TooLong {
@@ -716,6 +721,12 @@ fn parse_absolute_uri(input: &str) -> Result<SmolStr, UriError> {
         });
     }
 
+    if input.contains(is_uri_delimiter) {
+        return Err(UriError::InvalidFormat(
+            "contains whitespace or delimiters".to_string(),
+        ));
+    }
+
     let trimmed = input.trim();
     let mut chars = trimmed.chars();
     let first = chars
@@ -812,6 +823,12 @@ fn split_host_port(input: &str) -> Result<(&str, Option<u16>), UriError> {
     }
 }
 
+/// True for characters that end a URI inside a message: whitespace and the
+/// delimiters of a name-addr (RFC 2396 §2.4.3). They must be percent-encoded.
+pub(crate) fn is_uri_delimiter(c: char) -> bool {
+    c.is_whitespace() || matches!(c, '<' | '>' | '"')
+}
+
 fn is_token_char(c: char) -> bool {
     c.is_ascii_alphanumeric()
         || matches!(
-- 
2.43.0


From 4eabe39ea58a51827656d276eaed5b8a177cab1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 058/124] fix: refuse URI parameter values that would start
 another parameter

with_param("x", "a;lr") and the tel counterpart were written literally
and read back as two parameters; a "?" started headers, a "@" a user.
---
 crates/sip-core/src/tel_uri.rs | 9 ++++++++-
 crates/sip-core/src/uri.rs     | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 9e408d1..2a55428 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -247,7 +247,7 @@ fn validate_parameter_name(name: &str) -> Result<(), TelUriError> {
     // Check for control characters, whitespace, and special chars
     if name
         .chars()
-        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '='))
+        .any(|c| c.is_control() || is_uri_delimiter(c) || matches!(c, ';' | '='))
     {
         return Err(TelUriError::InvalidParameter(
             "parameter name contains invalid characters".to_string(),
@@ -273,6 +273,13 @@ fn validate_parameter_value(value: &str) -> Result<(), TelUriError> {
         ));
     }
 
+    // A literal delimiter would end the value, or the URI, when written
+    if value.contains(|c| is_uri_delimiter(c) || c == ';') {
+        return Err(TelUriError::InvalidParameter(
+            "parameter value contains a URI delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index c4a12ab..103603c 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -236,6 +236,13 @@ fn validate_param_value(value: &str) -> Result<(), UriError> {
         ));
     }
 
+    // A literal delimiter would end the value, or the URI, when written
+    if value.contains(|c| is_uri_delimiter(c) || matches!(c, ';' | '?' | '@')) {
+        return Err(UriError::InvalidParameter(
+            "parameter value contains a URI delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 3991ef9c2392f3723252fd90f18c913881b148d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 059/124] fix: strip a malformed headers part from a SIP URI,
 too

without_uri_headers left "?Route" in the text, because no header had
been read from it.
---
 crates/sip-core/src/uri.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 103603c..868ca74 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -552,7 +552,8 @@ impl SipUri {
     /// Refer-To target) so that an attacker cannot smuggle Route, From,
     /// Call-ID, Authorization, etc. through the URI-headers channel.
     pub fn without_uri_headers(mut self) -> Self {
-        if !self.headers.is_empty() {
+        // The text may hold a headers part that yielded no header ("?Route")
+        if !self.headers.is_empty() || self.raw.contains('?') {
             self.headers.clear();
             self.raw = build_raw_sip_uri(&self);
         }
-- 
2.43.0


From 008ebe41b1ab58668c5189a259a67559688e62c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:58 +0000
Subject: [PATCH 060/124] fix: keep a single phone-context in a tel URI

Two spellings of the name gave two parameters, and which of them counted
after writing and reading the URI depended on their alphabetical order.
---
 crates/sip-core/src/tel_uri.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 2a55428..485856b 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -435,6 +435,11 @@ impl TelUri {
 
                 // Special handling for phone-context
                 if key.eq_ignore_ascii_case("phone-context") {
+                    if phone_context.is_some() {
+                        return Err(TelUriError::InvalidPhoneContext(
+                            "phone-context given more than once".to_string(),
+                        ));
+                    }
                     validate_phone_context(value)?;
                     phone_context = Some(value_smol.clone());
                 }
@@ -532,6 +537,7 @@ impl TelUri {
                 ));
             }
             validate_phone_context(&value)?;
+            self.remove_phone_context();
             self.phone_context = Some(value.clone());
             self.parameters.insert(key, Some(value));
         } else {
@@ -553,12 +559,19 @@ impl TelUri {
         let context = context.into();
         validate_phone_context(&context)?;
 
+        self.remove_phone_context();
         self.phone_context = Some(context.clone());
         self.parameters
             .insert(SmolStr::new("phone-context"), Some(context));
         self.raw = build_raw_uri(&self.number, &self.parameters);
         Ok(self)
     }
+
+    /// Drops the phone-context parameter, however its name is written.
+    fn remove_phone_context(&mut self) {
+        self.parameters
+            .retain(|name, _| !name.eq_ignore_ascii_case("phone-context"));
+    }
 }
 
 impl fmt::Display for TelUri {
-- 
2.43.0


From 5b3f73821bf123395ad72e492e41d6c43767982a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 061/124] fix: keep changed SIP URIs within the length that
 parses

with_param and the like could grow a URI beyond the 2048 bytes that
parse accepts, so that its own text was refused.
---
 crates/sip-core/src/uri.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 868ca74..4aa9b62 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -511,13 +511,25 @@ impl SipUri {
         &self.headers
     }
 
+    /// Writes the text of a changed URI, which must stay within the bounds that
+    /// [`SipUri::parse`] sets.
+    fn rewrite(mut self) -> Result<Self, UriError> {
+        self.raw = build_raw_sip_uri(&self);
+        if self.raw.len() > MAX_URI_LENGTH {
+            return Err(UriError::TooLong {
+                field: "URI",
+                max: MAX_URI_LENGTH,
+            });
+        }
+        Ok(self)
+    }
+
     /// Sets the host with validation.
     pub fn with_host(mut self, host: impl Into<SmolStr>) -> Result<Self, UriError> {
         let host = SmolStr::new(host.into().to_ascii_lowercase());
         validate_host(&host)?;
         self.host = host;
-        self.raw = build_raw_sip_uri(&self);
-        Ok(self)
+        self.rewrite()
     }
 
     /// Clears the port.
@@ -532,16 +544,14 @@ impl SipUri {
         let user = user.into();
         validate_user(&user)?;
         self.user = Some(user);
-        self.raw = build_raw_sip_uri(&self);
-        Ok(self)
+        self.rewrite()
     }
 
     /// Sets the port with validation.
     pub fn with_port(mut self, port: u16) -> Result<Self, UriError> {
         validate_port(port)?;
         self.port = Some(port);
-        self.raw = build_raw_sip_uri(&self);
-        Ok(self)
+        self.rewrite()
     }
 
     /// Removes any embedded URI headers (the `?key=value&...` portion).
@@ -587,8 +597,7 @@ impl SipUri {
         };
 
         self.params.insert(name, value);
-        self.raw = build_raw_sip_uri(&self);
-        Ok(self)
+        self.rewrite()
     }
 }
 
-- 
2.43.0


From b824f940a2bd7c29263f7cb631f070a555491f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 062/124] fix: Content-Length is digits only and too large a
 number is oversized

A signed value such as "+5" was taken as a length, and a number beyond 64
bits was ignored as if it were not a number at all, so the message was
accepted with whatever followed as its body.
---
 crates/sip-parse/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index a6678f2..f2eefe6 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -479,10 +479,16 @@ fn parse_content_length_value(value: &SmolStr) -> Option<usize> {
 fn parse_content_length_detailed(value: &SmolStr) -> Result<usize, ContentLengthError> {
     let trimmed = value.trim();
 
-    // Parse to u64 first to detect overflow on 32-bit systems
+    // RFC 3261 §20.14: 1*DIGIT. A sign is not part of the grammar.
+    if trimmed.is_empty() || !trimmed.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ContentLengthError::Invalid);
+    }
+
+    // Parse to u64 first to detect overflow on 32-bit systems. Only digits are
+    // left, so a failure means the number does not even fit 64 bits.
     let value_u64 = trimmed
         .parse::<u64>()
-        .map_err(|_| ContentLengthError::Invalid)?;
+        .map_err(|_| ContentLengthError::Oversized)?;
 
     // Check if value fits in usize (prevents overflow on 32-bit)
     if value_u64 > usize::MAX as u64 {
-- 
2.43.0


From a868bee19c36fd31c13333b3303848754a9dac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 063/124] fix: accept a status line without a reason phrase

Reason-Phrase may be empty, StatusLine allows it and serialize_response
writes it, but the parser refused the result.
---
 crates/sip-parse/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index f2eefe6..615eeeb 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -307,11 +307,15 @@ fn parse_status_line(line: &str) -> Option<StatusLine> {
         tag_no_case::<_, _, nom::error::Error<_>>("SIP/2.0"),
         space1::<_, nom::error::Error<_>>,
         nom_u16::<_, nom::error::Error<_>>,
-        space1::<_, nom::error::Error<_>>,
         rest::<_, nom::error::Error<_>>,
     ));
-    let (_, (_, _, code, _, reason)) = parser(line.trim()).ok()?;
+    let (_, (_, _, code, reason)) = parser(line.trim()).ok()?;
 
+    // The reason phrase may be empty (RFC 3261 §25.1); what is there is set
+    // off from the code.
+    if !reason.is_empty() && !reason.starts_with([' ', '\t']) {
+        return None;
+    }
     StatusLine::new(code, reason.trim()).ok()
 }
 
-- 
2.43.0


From 5f399eb1b03d5287419f3e189e3fdb8cad5d3064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 064/124] fix: only SIP white space is trimmed from start lines
 and headers

Unicode spaces such as U+00A0 are part of a UTF-8 value. They were cut off
when a message was parsed (and written, for requests), so values changed on
the way and a header name padded with them was taken for the bare name.
---
 crates/sip-parse/src/lib.rs | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 615eeeb..9cafd3a 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -57,7 +57,7 @@ pub fn parse_request_with_limit(datagram: &Bytes, max_size: usize) -> Option<Req
     }
     let (head, body_bytes) = split_head_body(datagram)?;
     let mut lines = head.split("\r\n");
-    let first = lines.next()?.trim();
+    let first = trim_ws(lines.next()?);
     if first.is_empty() {
         return None;
     }
@@ -92,7 +92,7 @@ pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Opt
     }
     let (head, body_bytes) = split_head_body(datagram)?;
     let mut lines = head.split("\r\n");
-    let first = lines.next()?.trim();
+    let first = trim_ws(lines.next()?);
     if first.is_empty() {
         return None;
     }
@@ -139,7 +139,7 @@ pub fn parse_response(datagram: &Bytes) -> Option<Response> {
     }
     let (head, body_bytes) = split_head_body(datagram)?;
     let mut lines = head.split("\r\n");
-    let first = lines.next()?.trim();
+    let first = trim_ws(lines.next()?);
     if first.is_empty() {
         return None;
     }
@@ -164,7 +164,7 @@ pub fn parse_response_strict(datagram: &Bytes) -> Option<Response> {
     }
     let (head, body_bytes) = split_head_body(datagram)?;
     let mut lines = head.split("\r\n");
-    let first = lines.next()?.trim();
+    let first = trim_ws(lines.next()?);
     if first.is_empty() {
         return None;
     }
@@ -217,7 +217,7 @@ pub fn serialize_request(req: &Request) -> Bytes {
             has_max_forwards = true;
         }
         let name = canonical_name(header.name_smol());
-        let value = header.value().trim();
+        let value = trim_ws(header.value());
         let _ = write!(buf, "{}: {}\r\n", name, value);
     }
 
@@ -283,7 +283,7 @@ fn parse_request_line(line: &str) -> Option<(Method, Uri)> {
         space1::<_, nom::error::Error<_>>,
         rest::<_, nom::error::Error<_>>,
     ));
-    let (_, (method_token, _, uri_token, _, version_token)) = parser(line.trim()).ok()?;
+    let (_, (method_token, _, uri_token, _, version_token)) = parser(trim_ws(line)).ok()?;
 
     if !version_token.eq_ignore_ascii_case("SIP/2.0") {
         return None;
@@ -309,14 +309,14 @@ fn parse_status_line(line: &str) -> Option<StatusLine> {
         nom_u16::<_, nom::error::Error<_>>,
         rest::<_, nom::error::Error<_>>,
     ));
-    let (_, (_, _, code, reason)) = parser(line.trim()).ok()?;
+    let (_, (_, _, code, reason)) = parser(trim_ws(line)).ok()?;
 
     // The reason phrase may be empty (RFC 3261 §25.1); what is there is set
     // off from the code.
     if !reason.is_empty() && !reason.starts_with([' ', '\t']) {
         return None;
     }
-    StatusLine::new(code, reason.trim()).ok()
+    StatusLine::new(code, trim_ws(reason)).ok()
 }
 
 /// Maps a method token to the [`Method`] enum, including extension methods.
@@ -364,8 +364,8 @@ where
         }
 
         if let Some((name, value)) = line.split_once(':') {
-            let name = canonical_header_name(name.trim());
-            if headers.push(name.as_str(), value.trim()).is_err() {
+            let name = canonical_header_name(trim_ws(name));
+            if headers.push(name.as_str(), trim_ws(value)).is_err() {
                 return None;
             }
         } else {
@@ -481,7 +481,7 @@ fn parse_content_length_value(value: &SmolStr) -> Option<usize> {
 }
 
 fn parse_content_length_detailed(value: &SmolStr) -> Result<usize, ContentLengthError> {
-    let trimmed = value.trim();
+    let trimmed = trim_ws(value);
 
     // RFC 3261 §20.14: 1*DIGIT. A sign is not part of the grammar.
     if trimmed.is_empty() || !trimmed.bytes().all(|b| b.is_ascii_digit()) {
@@ -524,6 +524,12 @@ fn strict_content_length(headers: &Headers) -> Result<Option<usize>, ()> {
     Ok(length)
 }
 
+/// Trims the white space SIP knows around its elements. Other Unicode spaces
+/// are ordinary text and belong to the value.
+fn trim_ws(text: &str) -> &str {
+    text.trim_matches([' ', '\t', '\r', '\n'])
+}
+
 fn is_token_char(c: char) -> bool {
     c.is_ascii_alphanumeric()
         || matches!(
-- 
2.43.0


From b0fc1ed92d0d02ae3858e93242b080ea17296481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 065/124] fix: check the branch of the topmost Via only,
 whatever its letter case

The branch was searched in the whole header value split at semicolons, so a
request whose Via header lists two hops separated by a comma was refused,
while a branch written "Branch=" escaped the check.
---
 crates/sip-parse/src/lib.rs | 60 +++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 16 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 9cafd3a..7284871 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -67,14 +67,9 @@ pub fn parse_request_with_limit(datagram: &Bytes, max_size: usize) -> Option<Req
     if !singleton_headers_unique(&headers) {
         return None;
     }
-    if let Some(via) = headers.get("Via") {
-        if let Some(branch) = via
-            .split(';')
-            .find_map(|p| p.trim().strip_prefix("branch="))
-        {
-            if !is_valid_branch(branch.trim()) {
-                return None;
-            }
+    if let Some(branch) = headers.get("Via").and_then(topmost_branch) {
+        if !is_valid_branch(branch) {
+            return None;
         }
     }
     let body = extract_body(body_bytes, &headers)?;
@@ -102,14 +97,9 @@ pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Opt
     if !singleton_headers_unique(&headers) {
         return None;
     }
-    if let Some(via) = headers.get("Via") {
-        if let Some(branch) = via
-            .split(';')
-            .find_map(|p| p.trim().strip_prefix("branch="))
-        {
-            if !is_valid_branch(branch.trim()) {
-                return None;
-            }
+    if let Some(branch) = headers.get("Via").and_then(topmost_branch) {
+        if !is_valid_branch(branch) {
+            return None;
         }
     }
 
@@ -602,6 +592,44 @@ fn cseq_matches(headers: &Headers, method: &Method) -> Option<bool> {
     Some(method.as_str().eq_ignore_ascii_case(method_token))
 }
 
+/// Returns the branch parameter of the topmost Via of a Via header value,
+/// which may list several separated by commas (RFC 3261 §7.3.1). Parameter
+/// names are case-insensitive.
+fn topmost_branch(via: &str) -> Option<&str> {
+    let (mut quoted, mut escaped) = (false, false);
+    let mut outside = |c: char| {
+        if escaped {
+            escaped = false;
+        } else if quoted && c == '\\' {
+            escaped = true;
+        } else if c == '"' {
+            quoted = !quoted;
+        }
+        !quoted
+    };
+    let (mut start, mut end) = (0, via.len());
+    let mut params = Vec::new();
+    for (i, c) in via.char_indices() {
+        if outside(c) && (c == ';' || c == ',') {
+            params.push(&via[start..i]);
+            start = i + 1;
+            if c == ',' {
+                end = i;
+                break;
+            }
+        }
+    }
+    if start < end {
+        params.push(&via[start..end]);
+    }
+    params.into_iter().find_map(|param| {
+        let (name, value) = param.split_once('=')?;
+        trim_ws(name)
+            .eq_ignore_ascii_case("branch")
+            .then(|| trim_ws(value))
+    })
+}
+
 /// Validates the CSeq header on a response. RFC 3261 §8.1.1.5 mandates the
 /// same numeric range as requests; method token is preserved as the client
 /// transaction layer needs it for matching but is not checked here.
-- 
2.43.0


From 5079a072c1e637ba8a56ebe79f6025b71ec1c3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 066/124] fix: keep semicolons inside the info URI of an
 Identity header

The header was split at every ';', so a certificate URI with a parameter, and
even a header value this crate produced for such an x5u, was refused.
---
 crates/sip-identity/src/header.rs | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/crates/sip-identity/src/header.rs b/crates/sip-identity/src/header.rs
index 3f880a1..d024fda 100644
--- a/crates/sip-identity/src/header.rs
+++ b/crates/sip-identity/src/header.rs
@@ -51,7 +51,7 @@ impl IdentityHeader {
             });
         }
 
-        let mut segments = value.split(';');
+        let mut segments = split_params(value).into_iter();
         let token = segments.next().unwrap_or("").trim();
         if token.is_empty() {
             return Err(IdentityError::EmptyToken);
@@ -93,6 +93,29 @@ impl IdentityHeader {
     }
 }
 
+/// Split at the semicolons that separate parameters. A `;` inside angle
+/// brackets (a URI may carry one) or inside a quoted string separates nothing.
+fn split_params(value: &str) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let (mut start, mut in_angle, mut in_quote, mut escaped) = (0, false, false, false);
+    for (i, c) in value.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if in_quote => escaped = true,
+            '"' if !in_angle => in_quote = !in_quote,
+            '<' if !in_quote => in_angle = true,
+            '>' if !in_quote => in_angle = false,
+            ';' if !in_quote && !in_angle => {
+                parts.push(&value[start..i]);
+                start = i + 1;
+            }
+            _ => {}
+        }
+    }
+    parts.push(&value[start..]);
+    parts
+}
+
 /// `info` is a URI in angle brackets: `<https://…>`. Require them — a
 /// bare URI is malformed per RFC 8224 §4.
 fn strip_angle_brackets(s: &str) -> Result<String, IdentityError> {
-- 
2.43.0


From 2535e97563d07786226bbfc1fa0144f391156c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 067/124] fix: default to port 5061 for transport=tls URIs

Only sips: URIs got the TLS port; a sip: URI with transport=tls (or
tls-sctp) and no port was sent to 5060 (RFC 3261 section 19.1.2).
---
 crates/sip-dns/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 244105f..8d88529 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -428,6 +428,17 @@ impl SipResolver {
         })
     }
 
+    /// Returns the port to use when neither the URI nor an SRV record gives one.
+    ///
+    /// RFC 3261 §19.1.2: 5061 when the transport is TLS (`sips:` or
+    /// `transport=tls`), 5060 otherwise.
+    fn default_port(uri: &SipUri) -> u16 {
+        match Self::default_transport(uri) {
+            Transport::Tls | Transport::TlsSctp => 5061,
+            _ => 5060,
+        }
+    }
+
     /// Checks if the host is a numeric IP address.
     fn is_numeric_ip(host: &str) -> bool {
         host.parse::<IpAddr>().is_ok()
@@ -439,9 +450,7 @@ impl SipResolver {
 
         // RFC 3263 §4: If numeric IP, use directly
         if Self::is_numeric_ip(host) {
-            let port = uri
-                .port()
-                .unwrap_or(if uri.is_sips() { 5061 } else { 5060 });
+            let port = uri.port().unwrap_or(Self::default_port(uri));
             return enforce_target_limit(vec![DnsTarget::unchecked_new(
                 host,
                 port,
@@ -506,7 +515,7 @@ impl SipResolver {
         // RFC 3263 §4.3: Fallback to A/AAAA if no SRV records. This is
         // the Twilio Secure Trunking path (hostname URI, no SRV).
         if all_targets.is_empty() {
-            let default_port = if uri.is_sips() { 5061 } else { 5060 };
+            let default_port = Self::default_port(uri);
             let ips = self.lookup_a_aaaa(host).await?;
             for ip in ips {
                 all_targets.push(
@@ -1202,7 +1211,7 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
             match server {
                 DhcpSipServer::Ipv4(addr) => {
                     // Use IPv4 address directly
-                    let port = if uri.is_sips() { 5061 } else { 5060 };
+                    let port = SipResolver::default_port(uri);
                     let transport = SipResolver::default_transport(uri);
                     all_targets.push(DnsTarget::unchecked_new(addr.to_string(), port, transport));
                 }
@@ -1290,7 +1299,7 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                 for server in servers {
                     match server {
                         DhcpSipServer::Ipv4(addr) => {
-                            let port = if uri.is_sips() { 5061 } else { 5060 };
+                            let port = SipResolver::default_port(uri);
                             let transport = SipResolver::default_transport(uri);
                             all_targets.push(DnsTarget::unchecked_new(
                                 addr.to_string(),
-- 
2.43.0


From 3d2ae060ac3f962424ec7bad2317f3bf5876a1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 068/124] fix: query the NAPTR replacement itself for SRV
 records

The replacement of an "s" record already is the SRV name; it was looked up
with another service and protocol prefix in front, so records published by
NAPTR were never found (RFC 3263 section 4.1).
---
 crates/sip-dns/src/lib.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 8d88529..b630c34 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -491,15 +491,16 @@ impl SipResolver {
         let mut all_targets = Vec::new();
         if let Some(records) = naptr_records {
             for record in records {
-                let lookup_host = record
-                    .replacement
-                    .as_ref()
-                    .map(|replacement| replacement.as_str())
-                    .unwrap_or(host);
-                if let Ok(targets) = self
-                    .lookup_srv(lookup_host, record.transport, uri.is_sips())
-                    .await
-                {
+                // The replacement is the complete domain name of the SRV
+                // record set (RFC 3263 §4.1), to be queried as it stands.
+                let found = match &record.replacement {
+                    Some(srv_name) => self.lookup_srv_name(srv_name, record.transport).await,
+                    None => {
+                        self.lookup_srv(host, record.transport, uri.is_sips())
+                            .await
+                    }
+                };
+                if let Ok(targets) = found {
                     all_targets.extend(targets);
                 }
             }
@@ -661,10 +662,18 @@ impl SipResolver {
         let service = transport.as_service_str(sips);
         let proto = transport.as_proto_str();
         let srv_name = format!("{}._{}.{}", service, proto, host);
+        self.lookup_srv_name(&srv_name, transport).await
+    }
 
+    /// Looks up the SRV records at exactly `srv_name`.
+    async fn lookup_srv_name(
+        &self,
+        srv_name: &str,
+        transport: Transport,
+    ) -> Result<Vec<DnsTarget>> {
         let lookup = tokio::time::timeout(
             self.query_timeout,
-            self.resolver.srv_lookup(srv_name.clone()),
+            self.resolver.srv_lookup(srv_name),
         )
         .await
         .map_err(|_| {
-- 
2.43.0


From b22868985b214b04c58056f8f6ec63c0777043a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 069/124] fix: skip a DHCP server name that cannot be a host

One such name aborted the whole resolution, losing the remaining servers
and, in the hybrid resolver, the fallback to DNS.
---
 crates/sip-dns/src/lib.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index b630c34..8eb190d 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -1226,11 +1226,11 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
                 }
                 DhcpSipServer::Domain(domain) => {
                     // Create a temporary URI with the DHCP domain for DNS resolution
-                    let temp_uri = uri
-                        .clone()
-                        .with_host(domain.clone())
-                        .map_err(|e| anyhow!(e))?
-                        .without_port();
+                    // A name that cannot be a host is like one that does not resolve.
+                    let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                        continue;
+                    };
+                    let temp_uri = temp_uri.without_port();
 
                     // Resolve the domain via DNS (RFC 3263)
                     if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
@@ -1317,11 +1317,10 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                             ));
                         }
                         DhcpSipServer::Domain(domain) => {
-                            let temp_uri = uri
-                                .clone()
-                                .with_host(domain.clone())
-                                .map_err(|e| anyhow!(e))?
-                                .without_port();
+                            let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                                continue;
+                            };
+                            let temp_uri = temp_uri.without_port();
 
                             if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                                 all_targets.extend(targets);
-- 
2.43.0


From ba93d9bd014ecf7bd7e59a54ba84feec05bac809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:20 +0000
Subject: [PATCH 070/124] fix: refuse DHCP options whose names are not text

Labels and names with control characters, bytes that are not text or a dot
inside a label were patched up into other names than those sent.
---
 crates/sip-dns/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 8eb190d..333c4fb 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -871,7 +871,12 @@ pub fn parse_dhcp_option_66(data: &[u8]) -> Result<TftpServerName> {
         return Err(anyhow!("Empty DHCP Option 66 data"));
     }
 
-    // Option 66 is a simple string
+    // Option 66 is a simple string, sometimes NUL-terminated
+    let end = data.iter().rposition(|&b| b != 0).map_or(0, |i| i + 1);
+    let data = &data[..end];
+    if data.is_empty() || data.len() > 253 || !data.iter().all(|b| (0x20..0x7f).contains(b)) {
+        return Err(anyhow!("Invalid DHCP Option 66 server name"));
+    }
     let server_name = String::from_utf8_lossy(data).to_string();
     Ok(TftpServerName(SmolStr::new(server_name)))
 }
@@ -1045,6 +1050,9 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
             }
 
             let label = &data[pos..pos + len];
+            if !label.iter().all(|&b| (0x20..0x7f).contains(&b) && b != b'.') {
+                return Err(anyhow!("Invalid character in domain name label"));
+            }
             labels.push(String::from_utf8_lossy(label).to_string());
             pos += len;
         }
@@ -1056,6 +1064,9 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
             return Err(anyhow!("Empty domain name"));
         } else {
             let domain = labels.join(".");
+            if domain.len() > 253 {
+                return Err(anyhow!("Domain name too long"));
+            }
             servers.push(DhcpSipServer::Domain(SmolStr::new(domain)));
         }
     }
-- 
2.43.0


From 5ed25076b97870f78f62269e83592df99f620a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 071/124] fix: stop Timer B once an INVITE is ringing

---
 crates/sip-transaction/src/fsm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index cfcc81c..4a70cc3 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -504,9 +504,7 @@ impl ClientInviteFsm {
                 }
             }
             (Calling, ClientInviteEvent::TimerFired(TransactionTimer::A)) => self.handle_timer_a(),
-            (Calling | Proceeding, ClientInviteEvent::TimerFired(TransactionTimer::B)) => {
-                self.handle_timer_b()
-            }
+            (Calling, ClientInviteEvent::TimerFired(TransactionTimer::B)) => self.handle_timer_b(),
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
@@ -546,8 +544,11 @@ impl ClientInviteFsm {
 
     fn handle_provisional(&mut self, response: Response) -> Vec<ClientInviteAction> {
         self.state = crate::ClientInviteState::Proceeding;
+        // Timer B bounds the wait for the first response only (§17.1.1.2);
+        // a ringing call may take as long as it takes.
         let mut actions = vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
+            ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
         ];
         if response_requires_prack(&response) {
-- 
2.43.0


From 5247c57bc93d2feea4437e779bc0af863f50325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 072/124] fix: report a retransmitted INVITE failure only once

---
 crates/sip-transaction/src/fsm.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 4a70cc3..baea339 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -588,8 +588,16 @@ impl ClientInviteFsm {
         current_state: crate::ClientInviteState,
         response: Response,
     ) -> Vec<ClientInviteAction> {
+        // A retransmitted final is acknowledged again but must not be passed
+        // up to the transaction user again (§17.1.1.2).
+        if matches!(current_state, crate::ClientInviteState::Completed) {
+            return vec![ClientInviteAction::GenerateAck {
+                response,
+                is_2xx: false,
+            }];
+        }
         self.state = crate::ClientInviteState::Completed;
-        let mut actions = vec![
+        vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
             ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
@@ -597,14 +605,11 @@ impl ClientInviteFsm {
                 response,
                 is_2xx: false,
             },
-        ];
-        if !matches!(current_state, crate::ClientInviteState::Completed) {
-            actions.push(ClientInviteAction::Schedule {
+            ClientInviteAction::Schedule {
                 timer: TransactionTimer::D,
                 duration: self.timers.duration(TransactionTimer::D), // 0 for TCP/TLS, 32s for UDP
-            });
-        }
-        actions
+            },
+        ]
     }
 
     fn handle_timer_a(&mut self) -> Vec<ClientInviteAction> {
-- 
2.43.0


From 26b0781d75dc5989cd138681fafa0673f6be6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 073/124] fix: accept only one final response per INVITE server
 transaction

---
 crates/sip-transaction/src/fsm.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index baea339..622b24f 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -1022,9 +1022,7 @@ impl ServerInviteFsm {
             (Proceeding, ServerInviteEvent::ReceiveInvite(_)) => self.handle_receive_invite(),
             (Proceeding | Completed, ServerInviteEvent::ReceiveCancel) => self.handle_cancel(),
             (Proceeding, ServerInviteEvent::SendProvisional(resp)) => self.send_provisional(resp),
-            (Proceeding, ServerInviteEvent::SendFinal(resp))
-            | (Confirmed, ServerInviteEvent::SendFinal(resp))
-            | (Completed, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
+            (Proceeding, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
             (Completed, ServerInviteEvent::ReceiveAck) => self.handle_ack(),
             (Completed, ServerInviteEvent::TimerFired(TransactionTimer::G)) => {
                 self.handle_timer_g()
-- 
2.43.0


From 1a8accbc49012e6704fa59dfe054b306da6ea806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 074/124] fix: open no server transaction for an unmatched ACK

---
 crates/sip-transaction/src/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 7c04dd5..2d96a73 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -790,6 +790,12 @@ impl TransactionManager {
                     };
                 }
             }
+            // An ACK for a 2xx, or a stray one, belongs to no transaction and
+            // is never answered; an entry for it would never end.
+            return ServerTransactionHandle {
+                manager: self.clone(),
+                key,
+            };
         }
 
         if let Some(mut entry) = self.inner.server.get_mut(&key) {
-- 
2.43.0


From 57d6a1d8a5d61e5d7738de2bb4d340d4c74bb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 075/124] fix: do not report an answered transaction as evicted

---
 crates/sip-transaction/src/manager.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 2d96a73..0837667 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -693,13 +693,25 @@ impl TransactionManager {
                 );
                 if let Some((_, mut entry)) = self.inner.client.remove(&oldest_key) {
                     entry.cancel_all();
-                    // Notify TU that transaction was terminated due to resource limits
-                    let tu = entry.tu.clone();
-                    let key_clone = oldest_key.clone();
-                    tokio::spawn(async move {
-                        tu.on_terminated(&key_clone, "resource limit exceeded")
-                            .await;
-                    });
+                    // Notify TU that transaction was terminated due to resource limits,
+                    // unless it has had its final response already and the entry only
+                    // lingered to absorb retransmissions.
+                    let answered = match &entry.kind {
+                        ClientKind::Invite(fsm) => {
+                            fsm.state() == crate::ClientInviteState::Completed
+                        }
+                        ClientKind::NonInvite(fsm) => {
+                            fsm.state() == crate::ClientNonInviteState::Completed
+                        }
+                    };
+                    if !answered {
+                        let tu = entry.tu.clone();
+                        let key_clone = oldest_key.clone();
+                        tokio::spawn(async move {
+                            tu.on_terminated(&key_clone, "resource limit exceeded")
+                                .await;
+                        });
+                    }
                 }
                 return true;
             }
-- 
2.43.0


From c944f7ec49bbc061bdaec2d904de4a8d9764dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 076/124] fix: retransmit according to the transport failed
 over to

---
 crates/sip-transaction/src/fsm.rs     | 39 +++++++++++++++++++++++++++
 crates/sip-transaction/src/manager.rs | 18 +++++++++++++
 2 files changed, 57 insertions(+)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 622b24f..6b7d750 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -514,6 +514,23 @@ impl ClientInviteFsm {
         }
     }
 
+    /// Adopts the timers of another transport after a fail-over. Returns the
+    /// retransmission timer to start if the new transport is unreliable.
+    pub(crate) fn switch_transport(
+        &mut self,
+        timers: TransportAwareTimers,
+    ) -> Option<(TransactionTimer, Duration)> {
+        self.timers = timers;
+        let initial = self.timers.duration(TransactionTimer::A);
+        if initial.is_zero() || !matches!(self.state, crate::ClientInviteState::Calling) {
+            return None;
+        }
+        if self.a_interval.is_zero() {
+            self.a_interval = initial;
+        }
+        Some((TransactionTimer::A, self.a_interval))
+    }
+
     fn handle_send_invite(&mut self, request: Request) -> Vec<ClientInviteAction> {
         let bytes = serialize_request(&request);
         self.last_invite = Some(bytes.clone());
@@ -714,6 +731,28 @@ impl ClientNonInviteFsm {
         }
     }
 
+    /// Adopts the timers of another transport after a fail-over. Returns the
+    /// retransmission timer to start if the new transport is unreliable.
+    pub(crate) fn switch_transport(
+        &mut self,
+        timers: TransportAwareTimers,
+    ) -> Option<(TransactionTimer, Duration)> {
+        self.timers = timers;
+        let initial = self.timers.duration(TransactionTimer::E);
+        if initial.is_zero()
+            || !matches!(
+                self.state,
+                ClientNonInviteState::Trying | ClientNonInviteState::Proceeding
+            )
+        {
+            return None;
+        }
+        if self.e_interval.is_zero() {
+            self.e_interval = initial;
+        }
+        Some((TransactionTimer::E, self.e_interval))
+    }
+
     fn handle_initial_send(&mut self, request: Request) -> Vec<ClientAction> {
         let bytes = serialize_request(&request);
         self.last_request = Some(bytes.clone());
diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 0837667..a13b4f3 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -467,6 +467,7 @@ impl TransactionManager {
                     // Try to swap in the next target. If there is
                     // one, update the live entry and loop. If not,
                     // escalate to the FSM.
+                    let mut restart = None;
                     let advanced = {
                         if let Some(mut entry) = self.inner.client.get_mut(key) {
                             if let Some(next) = (!entry.remaining_targets.is_empty())
@@ -478,7 +479,21 @@ impl TransactionManager {
                                     remaining = entry.remaining_targets.len(),
                                     "advancing to next RFC 3263 target after transport error"
                                 );
+                                let from = transport_kind_to_transport(entry.ctx.transport);
+                                let to = transport_kind_to_transport(next.transport);
                                 entry.ctx = next;
+                                // Retransmission and wait times follow the
+                                // transport in use.
+                                if from.is_reliable() != to.is_reliable() {
+                                    let timers = TransportAwareTimers::with_defaults(
+                                        to,
+                                        self.inner.timer_defaults,
+                                    );
+                                    restart = match &mut entry.kind {
+                                        ClientKind::Invite(fsm) => fsm.switch_transport(timers),
+                                        ClientKind::NonInvite(fsm) => fsm.switch_transport(timers),
+                                    };
+                                }
                                 true
                             } else {
                                 false
@@ -495,6 +510,9 @@ impl TransactionManager {
                             .await;
                         return;
                     }
+                    if let Some((timer, duration)) = restart {
+                        self.schedule_client_timer(key.clone(), timer, duration);
+                    }
                     // Loop and retry with the new ctx.
                 }
             }
-- 
2.43.0


From 9368b266e407fe939f693134ba071f19e449be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 077/124] fix: count the final response of a proxy branch once

---
 crates/sip-proxy/src/stateful.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index a35c766..6a3bda0 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -422,10 +422,22 @@ impl ProxyContext {
 
         // Mutate the branch in its own scope so the write guard
         // releases before we call cancel_other_branches below.
-        {
+        let already_final = {
             let mut branches = self.branches.write().await;
             let branch = branches.get_mut(branch_id)?;
 
+            // A branch has one final response. Whatever else arrives on it
+            // afterwards is a retransmission or late; only a 2xx still counts.
+            let already_final = matches!(branch.state, BranchState::Completed);
+            if already_final && !is_two_xx {
+                debug!(
+                    "Ignoring {} on completed branch {}",
+                    response.code(),
+                    branch_id
+                );
+                return None;
+            }
+
             let was_trying = matches!(branch.state, BranchState::Trying);
 
             if response.code() >= 100 && response.code() < 200 {
@@ -446,13 +458,14 @@ impl ProxyContext {
 
             // Store best response for this branch.
             branch.best_response = Some(response.clone());
-        }
+            already_final
+        };
 
         // Decrement the outstanding counter once the branches lock is
         // released. Holding two write locks is fine in principle but
         // keeping them strictly serialised keeps the lock graph
         // trivial.
-        if is_final {
+        if is_final && !already_final {
             let mut count = self.outstanding_count.write().await;
             if *count > 0 {
                 *count -= 1;
-- 
2.43.0


From 8a9781d568974e05ab15cce33e9a47f6f96c023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 078/124] fix: forward neither a 100 nor the provisionals of a
 cancelled branch

---
 crates/sip-proxy/src/stateful.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 6a3bda0..7ab786c 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -441,6 +441,10 @@ impl ProxyContext {
             let was_trying = matches!(branch.state, BranchState::Trying);
 
             if response.code() >= 100 && response.code() < 200 {
+                // A provisional does not bring a cancelled branch back.
+                if matches!(branch.state, BranchState::Cancelled) {
+                    return None;
+                }
                 branch.state = BranchState::Proceeding;
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
@@ -472,8 +476,12 @@ impl ProxyContext {
             }
         }
 
-        // Handle provisional responses (always forward first 1xx per RFC 3261)
+        // Handle provisional responses: 101-199 are forwarded as they arrive,
+        // a 100 is hop-by-hop and never is (RFC 3261 §16.7 step 5).
         if !is_final {
+            if response.code() == 100 {
+                return None;
+            }
             debug!(
                 "Forwarding provisional {} response from branch {}",
                 response.code(),
-- 
2.43.0


From a6084dc733b8f1adf183436c190165ef94b0d0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 079/124] fix: forward only successes once a proxied request is
 answered

---
 crates/sip-proxy/src/stateful.rs | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 7ab786c..9ed6a84 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -307,6 +307,10 @@ pub struct ProxyContext {
     /// [...] and MUST NOT create any new branches in this context."
     /// `add_branch` honours this flag.
     terminated_by_6xx: RwLock<bool>,
+
+    /// Set once a 2xx or 6xx went upstream. From then on only further
+    /// 2xx responses are forwarded (RFC 3261 §16.7 steps 5 and 10).
+    answered: RwLock<bool>,
 }
 
 impl ProxyContext {
@@ -361,6 +365,7 @@ impl ProxyContext {
             created_at: Instant::now(),
             timer_c_duration,
             terminated_by_6xx: RwLock::new(false),
+            answered: RwLock::new(false),
         }
     }
 
@@ -479,7 +484,7 @@ impl ProxyContext {
         // Handle provisional responses: 101-199 are forwarded as they arrive,
         // a 100 is hop-by-hop and never is (RFC 3261 §16.7 step 5).
         if !is_final {
-            if response.code() == 100 {
+            if response.code() == 100 || *self.answered.read().await {
                 return None;
             }
             debug!(
@@ -493,14 +498,12 @@ impl ProxyContext {
         // Handle final responses with response selection. The result
         // is computed inside a small scope so the best_final write
         // guard isn't held across `cancel_other_branches`.
-        let should_forward = {
+        {
             let mut best_final = self.best_final.write().await;
-            let should = select_best_response(best_final.as_ref(), &response);
-            if should {
+            if select_best_response(best_final.as_ref(), &response) {
                 *best_final = Some(response.clone());
             }
-            should
-        };
+        }
 
         // Per RFC 3261 §16.7: only 2xx and 6xx finals may be forwarded
         // as soon as they arrive. Every other final (1xx already
@@ -508,10 +511,16 @@ impl ProxyContext {
         // branches have completed; otherwise we'd both (a) emit the
         // wrong "best" upstream when a sibling later returns a better
         // response, and (b) skip the §16.7 #7 401/407 aggregation
-        // step. `should_forward` here only controls whether we update
-        // the stored best — actual upstream forwarding for non-2xx/
-        // non-6xx happens via the "all branches complete" path below.
-        if should_forward && is_two_xx {
+        // step. Actual upstream forwarding for non-2xx/non-6xx happens
+        // via the "all branches complete" path below. Every 2xx is
+        // forwarded; once a 2xx or 6xx has been, nothing else is.
+        let was_answered = {
+            let mut answered = self.answered.write().await;
+            let was = *answered;
+            *answered = was || is_two_xx || is_six_xx;
+            was
+        };
+        if is_two_xx {
             info!(
                 "Selected {} (2xx) — forwarding immediately and cancelling siblings",
                 response.code(),
@@ -519,7 +528,7 @@ impl ProxyContext {
             self.cancel_other_branches(branch_id).await;
             return Some(response);
         }
-        if should_forward && is_six_xx {
+        if is_six_xx {
             info!(
                 "Selected {} (6xx) — global failure, cancelling siblings",
                 response.code(),
@@ -531,7 +540,10 @@ impl ProxyContext {
             // arrives later.
             *self.terminated_by_6xx.write().await = true;
             self.cancel_other_branches(branch_id).await;
-            return Some(response);
+            return (!was_answered).then_some(response);
+        }
+        if was_answered {
+            return None;
         }
 
         // Check if all branches have completed
-- 
2.43.0


From 1d9afbbf691240419543fd6fadb89ce19c55bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:52 +0000
Subject: [PATCH 080/124] fix: restart Timer C on every provisional of a proxy
 branch

---
 crates/sip-proxy/src/stateful.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 9ed6a84..a40f51b 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -180,6 +180,9 @@ pub struct BranchInfo {
 
     /// Best response received so far (for response selection)
     pub(crate) best_response: Option<Response>,
+
+    /// Counts the Timer C restarts, so that a superseded timer does nothing.
+    timer_c_epoch: u64,
 }
 
 impl BranchInfo {
@@ -198,6 +201,7 @@ impl BranchInfo {
             created_at,
             state,
             best_response: None,
+            timer_c_epoch: 0,
         })
     }
 
@@ -453,11 +457,14 @@ impl ProxyContext {
                 branch.state = BranchState::Proceeding;
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
-                // doesn't hang the upstream forever.
-                if was_trying {
+                // doesn't hang the upstream forever, and reset it on
+                // every provisional from 101 to 199.
+                if was_trying || response.code() > 100 {
+                    branch.timer_c_epoch += 1;
                     arm_timer_c(
                         Arc::downgrade(self),
                         branch_id.to_string(),
+                        branch.timer_c_epoch,
                         self.timer_c_duration,
                     );
                 }
@@ -856,7 +863,12 @@ impl ProxyContext {
 /// context so the task exits cleanly if the context is dropped before
 /// the timer fires. Sleep is a single tokio::time::sleep — no busy
 /// loop, no polling.
-fn arm_timer_c(ctx: std::sync::Weak<ProxyContext>, branch_id: String, duration: Duration) {
+fn arm_timer_c(
+    ctx: std::sync::Weak<ProxyContext>,
+    branch_id: String,
+    epoch: u64,
+    duration: Duration,
+) {
     // Only arm when we have a tokio runtime handle. Unit tests that
     // construct ProxyContext outside a runtime would otherwise panic.
     let Ok(handle) = tokio::runtime::Handle::try_current() else {
@@ -868,7 +880,14 @@ fn arm_timer_c(ctx: std::sync::Weak<ProxyContext>, branch_id: String, duration:
         let Some(ctx) = ctx.upgrade() else {
             return;
         };
-        ctx.fire_timer_c(&branch_id).await;
+        let current = {
+            let branches = ctx.branches.read().await;
+            branches.get(branch_id.as_str()).map(|b| b.timer_c_epoch)
+        };
+        // A later provisional restarted the timer.
+        if current == Some(epoch) {
+            ctx.fire_timer_c(&branch_id).await;
+        }
     });
 }
 
-- 
2.43.0


From 6fba97a1e7336602bb240808b8ddf2a69e6a6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:14 +0000
Subject: [PATCH 081/124] fix: read capability tokens such as "inf" and "nan"
 as tokens

---
 crates/sip-core/src/capabilities.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/capabilities.rs b/crates/sip-core/src/capabilities.rs
index 89bdcad..9860fa4 100644
--- a/crates/sip-core/src/capabilities.rs
+++ b/crates/sip-core/src/capabilities.rs
@@ -467,7 +467,7 @@ impl FeatureValue {
                 }
 
                 // Numeric values
-                if let Ok(num) = v.parse::<f64>() {
+                if let Some(num) = v.parse::<f64>().ok().filter(|num| num.is_finite()) {
                     return FeatureValue::new_numeric(num);
                 }
 
-- 
2.43.0


From e9d246eb757764d5acc297fd4edda021262f0053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 082/124] fix: write an empty capability list so that it reads
 back as a list

---
 crates/sip-core/src/capabilities.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/sip-core/src/capabilities.rs b/crates/sip-core/src/capabilities.rs
index 9860fa4..88769fc 100644
--- a/crates/sip-core/src/capabilities.rs
+++ b/crates/sip-core/src/capabilities.rs
@@ -426,9 +426,6 @@ impl FeatureValue {
             FeatureValue::Boolean(false) => Ok(None), // Don't include false values
             FeatureValue::Token(t) => Ok(Some(t.clone())),
             FeatureValue::TokenList(list) => {
-                if list.is_empty() {
-                    return Ok(None);
-                }
                 Ok(Some(SmolStr::new(format!("\"{}\"", list.join(",")))))
             }
             FeatureValue::String(s) => Ok(Some(SmolStr::new(format!("\"{}\"", s)))),
-- 
2.43.0


From 1cea40aaa36b1a934942a7cc3d4d87fa062d32d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:01 +0000
Subject: [PATCH 083/124] fix: drop further Contact addresses when anonymizing

The parameters kept from the original value ran to the end of the line, so
the second and later addresses of a comma-separated Contact survived
identity privacy.
---
 crates/sip-core/src/privacy.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/privacy.rs b/crates/sip-core/src/privacy.rs
index ba0eeb6..708a796 100644
--- a/crates/sip-core/src/privacy.rs
+++ b/crates/sip-core/src/privacy.rs
@@ -451,6 +451,7 @@ fn split_header_params(value: &str) -> (&str, &str) {
     let mut in_quotes = false;
     let mut in_angle = false;
     let mut escape = false;
+    let mut params_start = None;
 
     for (idx, ch) in value.char_indices() {
         if escape {
@@ -471,14 +472,23 @@ fn split_header_params(value: &str) -> (&str, &str) {
             '>' if !in_quotes => {
                 in_angle = false;
             }
-            ';' if !in_quotes && !in_angle => {
-                return (&value[..idx], &value[idx..]);
+            ';' if !in_quotes && !in_angle && params_start.is_none() => {
+                params_start = Some(idx);
+            }
+            // Further addresses of a comma-separated list are not parameters.
+            ',' if !in_quotes && !in_angle => {
+                if let Some(start) = params_start {
+                    return (&value[..start], value[start..idx].trim_end());
+                }
             }
             _ => {}
         }
     }
 
-    (value, "")
+    match params_start {
+        Some(start) => (&value[..start], value[start..].trim_end()),
+        None => (value, ""),
+    }
 }
 
 /// Checks if privacy enforcement is required.
-- 
2.43.0


From 4adf07dc66cd708e6cedbb1c314fb265f5ef76b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:11 +0000
Subject: [PATCH 084/124] fix: escape display names of asserted and preferred
 identities

A double quote in a display name ended the quoted string when the header was
written, so the name could add identities of its own; backslash escapes were
not understood when the header was read.
---
 crates/sip-core/src/p_headers.rs | 78 +++++++++++++++++++++++++++-----
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/crates/sip-core/src/p_headers.rs b/crates/sip-core/src/p_headers.rs
index 666709a..c8e0f8f 100644
--- a/crates/sip-core/src/p_headers.rs
+++ b/crates/sip-core/src/p_headers.rs
@@ -164,7 +164,8 @@ impl PIdentity {
 impl fmt::Display for PIdentity {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(ref name) = self.display_name {
-            write!(f, "\"{}\" <{}>", name, self.uri)?;
+            let escaped = name.replace('\\', "\\\\").replace('"', "\\\"");
+            write!(f, "\"{}\" <{}>", escaped, self.uri)?;
         } else {
             write!(f, "<{}>", self.uri)?;
         }
@@ -660,7 +661,7 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
 
     // Try to parse as URI in brackets: <uri>
     if let Some((start, end)) = find_unquoted_angle_brackets(input)? {
-        let display = input[..start].trim().trim_matches('"');
+        let display = unquote(input[..start].trim());
         let uri_str = input[start + 1..end].trim();
         let params_str = input[end + 1..].trim();
 
@@ -674,7 +675,7 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
         };
 
         if !display.is_empty() {
-            validate_display_name(display)?;
+            validate_display_name(&display)?;
             identity.display_name = Some(SmolStr::new(display));
         }
 
@@ -703,13 +704,64 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
     }
 }
 
+/// Tracks quoted strings (with backslash escapes) while scanning a header value.
+#[derive(Default)]
+struct QuoteTracker {
+    in_quotes: bool,
+    escaped: bool,
+}
+
+impl QuoteTracker {
+    /// Consumes one character; returns true if it lies outside quoted strings.
+    fn outside(&mut self, ch: char) -> bool {
+        if self.escaped {
+            self.escaped = false;
+            return false;
+        }
+        match ch {
+            '\\' if self.in_quotes => {
+                self.escaped = true;
+                false
+            }
+            '"' => {
+                self.in_quotes = !self.in_quotes;
+                false
+            }
+            _ => !self.in_quotes,
+        }
+    }
+}
+
+/// Returns the text of a display name, undoing the escapes of a quoted string.
+fn unquote(display: &str) -> String {
+    match display
+        .strip_prefix('"')
+        .and_then(|rest| rest.strip_suffix('"'))
+    {
+        Some(inner) => {
+            let mut out = String::with_capacity(inner.len());
+            let mut chars = inner.chars();
+            while let Some(ch) = chars.next() {
+                match ch {
+                    '\\' => out.push(chars.next().unwrap_or(ch)),
+                    _ => out.push(ch),
+                }
+            }
+            out
+        }
+        None => display.trim_matches('"').to_string(),
+    }
+}
+
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, PHeaderError> {
-    let mut in_quotes = false;
+    let mut quotes = QuoteTracker::default();
     let mut start = None;
     for (idx, ch) in input.char_indices() {
+        if !quotes.outside(ch) {
+            continue;
+        }
         match ch {
-            '"' => in_quotes = !in_quotes,
-            '<' if !in_quotes => {
+            '<' => {
                 if start.is_some() {
                     return Err(PHeaderError::ParseError(
                         "nested angle brackets".to_string(),
@@ -717,7 +769,7 @@ fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, P
                 }
                 start = Some(idx);
             }
-            '>' if !in_quotes => {
+            '>' => {
                 if let Some(s) = start {
                     return Ok(Some((s, idx)));
                 }
@@ -739,15 +791,17 @@ fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, P
 fn split_identities(value: &str) -> Vec<&str> {
     let mut parts = Vec::new();
     let mut start = 0;
-    let mut in_quotes = false;
+    let mut quotes = QuoteTracker::default();
     let mut in_angle = false;
 
     for (idx, ch) in value.char_indices() {
+        if !quotes.outside(ch) {
+            continue;
+        }
         match ch {
-            '"' => in_quotes = !in_quotes,
-            '<' if !in_quotes => in_angle = true,
-            '>' if !in_quotes => in_angle = false,
-            ',' if !in_quotes && !in_angle => {
+            '<' => in_angle = true,
+            '>' => in_angle = false,
+            ',' if !in_angle => {
                 let slice = value[start..idx].trim();
                 if !slice.is_empty() {
                     parts.push(slice);
-- 
2.43.0


From c8acdec4f1268ff881389d49feb8da2e4d5604f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 085/124] fix: keep identity parameters from ending the
 identity

A parameter value with an unquoted delimiter was written as is and read back
as further parameters or identities, and a quoted value was split at the
semicolons inside it.
---
 crates/sip-core/src/p_headers.rs | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/p_headers.rs b/crates/sip-core/src/p_headers.rs
index c8e0f8f..cf12a8e 100644
--- a/crates/sip-core/src/p_headers.rs
+++ b/crates/sip-core/src/p_headers.rs
@@ -118,6 +118,7 @@ impl PIdentity {
 
         if let Some(v) = value.as_ref() {
             validate_param_value(v.as_ref())?;
+            validate_identity_param_value(v.as_ref())?;
         }
 
         if self.params.len() >= MAX_PARAMS {
@@ -829,7 +830,7 @@ fn split_uri_and_params(value: &str) -> (&str, Option<&str>) {
 }
 
 fn add_params_from_str(identity: &mut PIdentity, params_str: &str) -> Result<(), PHeaderError> {
-    for raw_param in params_str.split(';') {
+    for raw_param in split_params(params_str) {
         let param = raw_param.trim();
         if param.is_empty() {
             continue;
@@ -843,6 +844,21 @@ fn add_params_from_str(identity: &mut PIdentity, params_str: &str) -> Result<(),
     Ok(())
 }
 
+/// Splits parameters at semicolons outside quoted strings.
+fn split_params(params_str: &str) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut quotes = QuoteTracker::default();
+    let mut start = 0;
+    for (idx, ch) in params_str.char_indices() {
+        if quotes.outside(ch) && ch == ';' {
+            parts.push(&params_str[start..idx]);
+            start = idx + 1;
+        }
+    }
+    parts.push(&params_str[start..]);
+    parts
+}
+
 // Validation functions
 
 fn validate_display_name(name: &str) -> Result<(), PHeaderError> {
@@ -912,6 +928,22 @@ fn validate_param_value(value: &str) -> Result<(), PHeaderError> {
     Ok(())
 }
 
+/// Rejects values that would end the parameter or the identity when written.
+fn validate_identity_param_value(value: &str) -> Result<(), PHeaderError> {
+    let mut quotes = QuoteTracker::default();
+    if value
+        .chars()
+        .any(|c| quotes.outside(c) && matches!(c, ';' | ',' | '<' | '>'))
+        || quotes.in_quotes
+    {
+        return Err(PHeaderError::InvalidParamValue(
+            "contains an unquoted delimiter".to_string(),
+        ));
+    }
+
+    Ok(())
+}
+
 fn validate_access_type(access_type: &str) -> Result<(), PHeaderError> {
     if access_type.is_empty() {
         return Err(PHeaderError::InvalidAccessType(
-- 
2.43.0


From 7d620f92e9133922b394db636d058b25ed7e22fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:33 +0000
Subject: [PATCH 086/124] fix: write and read quoted names and values of Route
 headers

---
 crates/sip-core/src/lib.rs           |   1 +
 crates/sip-core/src/p_headers.rs     |  68 +---------------
 crates/sip-core/src/quoted.rs        | 111 +++++++++++++++++++++++++++
 crates/sip-core/src/route.rs         |  20 ++---
 crates/sip-core/src/service_route.rs |  25 +-----
 5 files changed, 122 insertions(+), 103 deletions(-)
 create mode 100644 crates/sip-core/src/quoted.rs

diff --git a/crates/sip-core/src/lib.rs b/crates/sip-core/src/lib.rs
index 5ca878c..69893d1 100644
--- a/crates/sip-core/src/lib.rs
+++ b/crates/sip-core/src/lib.rs
@@ -47,6 +47,7 @@ pub mod p_headers;
 pub mod presence;
 pub mod priority;
 pub mod privacy;
+mod quoted;
 pub mod reason;
 pub mod refer_sub;
 pub mod referred_by;
diff --git a/crates/sip-core/src/p_headers.rs b/crates/sip-core/src/p_headers.rs
index cf12a8e..990fe57 100644
--- a/crates/sip-core/src/p_headers.rs
+++ b/crates/sip-core/src/p_headers.rs
@@ -6,6 +6,7 @@ use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
 
+use crate::quoted::{escape, split_params, unquote, QuoteTracker};
 use crate::uri::Uri;
 use crate::SipUri;
 use crate::TelUri;
@@ -165,8 +166,7 @@ impl PIdentity {
 impl fmt::Display for PIdentity {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(ref name) = self.display_name {
-            let escaped = name.replace('\\', "\\\\").replace('"', "\\\"");
-            write!(f, "\"{}\" <{}>", escaped, self.uri)?;
+            write!(f, "\"{}\" <{}>", escape(name), self.uri)?;
         } else {
             write!(f, "<{}>", self.uri)?;
         }
@@ -705,55 +705,6 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
     }
 }
 
-/// Tracks quoted strings (with backslash escapes) while scanning a header value.
-#[derive(Default)]
-struct QuoteTracker {
-    in_quotes: bool,
-    escaped: bool,
-}
-
-impl QuoteTracker {
-    /// Consumes one character; returns true if it lies outside quoted strings.
-    fn outside(&mut self, ch: char) -> bool {
-        if self.escaped {
-            self.escaped = false;
-            return false;
-        }
-        match ch {
-            '\\' if self.in_quotes => {
-                self.escaped = true;
-                false
-            }
-            '"' => {
-                self.in_quotes = !self.in_quotes;
-                false
-            }
-            _ => !self.in_quotes,
-        }
-    }
-}
-
-/// Returns the text of a display name, undoing the escapes of a quoted string.
-fn unquote(display: &str) -> String {
-    match display
-        .strip_prefix('"')
-        .and_then(|rest| rest.strip_suffix('"'))
-    {
-        Some(inner) => {
-            let mut out = String::with_capacity(inner.len());
-            let mut chars = inner.chars();
-            while let Some(ch) = chars.next() {
-                match ch {
-                    '\\' => out.push(chars.next().unwrap_or(ch)),
-                    _ => out.push(ch),
-                }
-            }
-            out
-        }
-        None => display.trim_matches('"').to_string(),
-    }
-}
-
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, PHeaderError> {
     let mut quotes = QuoteTracker::default();
     let mut start = None;
@@ -844,21 +795,6 @@ fn add_params_from_str(identity: &mut PIdentity, params_str: &str) -> Result<(),
     Ok(())
 }
 
-/// Splits parameters at semicolons outside quoted strings.
-fn split_params(params_str: &str) -> Vec<&str> {
-    let mut parts = Vec::new();
-    let mut quotes = QuoteTracker::default();
-    let mut start = 0;
-    for (idx, ch) in params_str.char_indices() {
-        if quotes.outside(ch) && ch == ';' {
-            parts.push(&params_str[start..idx]);
-            start = idx + 1;
-        }
-    }
-    parts.push(&params_str[start..]);
-    parts
-}
-
 // Validation functions
 
 fn validate_display_name(name: &str) -> Result<(), PHeaderError> {
diff --git a/crates/sip-core/src/quoted.rs b/crates/sip-core/src/quoted.rs
new file mode 100644
index 0000000..13923e1
--- /dev/null
+++ b/crates/sip-core/src/quoted.rs
@@ -0,0 +1,111 @@
+// siphon-rs - The Siphon SIP Stack
+// Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
+// SPDX-License-Identifier: Apache-2.0 OR MIT
+
+//! Quoted strings in header values (RFC 3261 section 25.1).
+
+use std::fmt;
+
+use crate::name_addr::NameAddr;
+
+/// Tracks quoted strings (with backslash escapes) while scanning a header value.
+#[derive(Default)]
+pub(crate) struct QuoteTracker {
+    pub(crate) in_quotes: bool,
+    escaped: bool,
+}
+
+impl QuoteTracker {
+    /// Consumes one character; returns true if it lies outside quoted strings.
+    pub(crate) fn outside(&mut self, ch: char) -> bool {
+        if self.escaped {
+            self.escaped = false;
+            return false;
+        }
+        match ch {
+            '\\' if self.in_quotes => {
+                self.escaped = true;
+                false
+            }
+            '"' => {
+                self.in_quotes = !self.in_quotes;
+                false
+            }
+            _ => !self.in_quotes,
+        }
+    }
+}
+
+/// Returns the text of a display name, undoing the escapes of a quoted string.
+pub(crate) fn unquote(display: &str) -> String {
+    match display
+        .strip_prefix('"')
+        .and_then(|rest| rest.strip_suffix('"'))
+    {
+        Some(inner) => {
+            let mut out = String::with_capacity(inner.len());
+            let mut chars = inner.chars();
+            while let Some(ch) = chars.next() {
+                match ch {
+                    '\\' => out.push(chars.next().unwrap_or(ch)),
+                    _ => out.push(ch),
+                }
+            }
+            out
+        }
+        None => display.trim_matches('"').to_string(),
+    }
+}
+
+/// Splits parameters at semicolons outside quoted strings.
+pub(crate) fn split_params(params_str: &str) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut quotes = QuoteTracker::default();
+    let mut start = 0;
+    for (idx, ch) in params_str.char_indices() {
+        if quotes.outside(ch) && ch == ';' {
+            parts.push(&params_str[start..idx]);
+            start = idx + 1;
+        }
+    }
+    parts.push(&params_str[start..]);
+    parts
+}
+
+/// Escapes the text of a quoted string.
+pub(crate) fn escape(text: &str) -> String {
+    text.replace('\\', "\\\\").replace('"', "\\\"")
+}
+
+/// Writes a parameter value, quoted unless it is a token or a host.
+pub(crate) fn write_value(f: &mut fmt::Formatter<'_>, value: &str) -> fmt::Result {
+    let plain = !value.is_empty()
+        && value.chars().all(|c| {
+            c.is_ascii_alphanumeric()
+                || matches!(
+                    c,
+                    '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~' | '[' | ']' | ':'
+                )
+        });
+    if plain {
+        f.write_str(value)
+    } else {
+        write!(f, "\"{}\"", escape(value))
+    }
+}
+
+/// Writes a name-addr with its parameters.
+pub(crate) fn write_name_addr(f: &mut fmt::Formatter<'_>, name_addr: &NameAddr) -> fmt::Result {
+    if let Some(display_name) = name_addr.display_name() {
+        write!(f, "\"{}\" ", escape(display_name))?;
+    }
+    write!(f, "<{}>", name_addr.uri().as_str())?;
+    for (key, value) in name_addr.params() {
+        write!(f, ";{}", key)?;
+        if let Some(v) = value {
+            f.write_str("=")?;
+            write_value(f, v)?;
+        }
+    }
+    Ok(())
+}
diff --git a/crates/sip-core/src/route.rs b/crates/sip-core/src/route.rs
index 2b56e58..ad6af58 100644
--- a/crates/sip-core/src/route.rs
+++ b/crates/sip-core/src/route.rs
@@ -50,6 +50,7 @@ use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
 
+use crate::quoted::{split_params, unquote, write_name_addr};
 use crate::{name_addr::NameAddr, Uri};
 
 const MAX_PARSE_INPUT: usize = 2048;
@@ -299,18 +300,7 @@ impl RouteHeader {
 
 impl fmt::Display for RouteHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        if let Some(display_name) = self.0.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
-        }
-        write!(f, "<{}>", self.0.uri().as_str())?;
-        for (key, value) in self.0.params() {
-            if let Some(v) = value {
-                write!(f, ";{}={}", key, v)?;
-            } else {
-                write!(f, ";{}", key)?;
-            }
-        }
-        Ok(())
+        write_name_addr(f, &self.0)
     }
 }
 
@@ -336,7 +326,7 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(SmolStr::new(unquote(display)))
                 },
                 uri,
                 params,
@@ -361,7 +351,7 @@ const MAX_PARAMS: usize = 64;
 /// Returns None if there are too many parameters (>64).
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in split_params(input) {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -375,7 +365,7 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
         if let Some((name, value)) = raw.split_once('=') {
             params.insert(
                 SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
+                Some(SmolStr::new(unquote(value.trim()))),
             );
         } else {
             params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
diff --git a/crates/sip-core/src/service_route.rs b/crates/sip-core/src/service_route.rs
index 77d006b..5c00f5f 100644
--- a/crates/sip-core/src/service_route.rs
+++ b/crates/sip-core/src/service_route.rs
@@ -5,6 +5,7 @@
 //! RFC 3327 Path and RFC 3608 Service-Route headers with security hardening.
 
 use crate::name_addr::NameAddr;
+use crate::quoted::write_name_addr;
 use crate::Uri;
 use std::fmt;
 
@@ -148,17 +149,7 @@ impl fmt::Display for PathHeader {
             if i > 0 {
                 write!(f, ", ")?;
             }
-            if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
-            }
-            write!(f, "<{}>", route.uri().as_str())?;
-            for (key, value) in route.params() {
-                if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
-                } else {
-                    write!(f, ";{}", key)?;
-                }
-            }
+            write_name_addr(f, route)?;
         }
         Ok(())
     }
@@ -275,17 +266,7 @@ impl fmt::Display for ServiceRouteHeader {
             if i > 0 {
                 write!(f, ", ")?;
             }
-            if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
-            }
-            write!(f, "<{}>", route.uri().as_str())?;
-            for (key, value) in route.params() {
-                if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
-                } else {
-                    write!(f, ";{}", key)?;
-                }
-            }
+            write_name_addr(f, route)?;
         }
         Ok(())
     }
-- 
2.43.0


From 9a8734a430f8c3dc4ad18e90099b1ce34eccad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:39 +0000
Subject: [PATCH 087/124] fix: write and read quoted names and values of
 Referred-By

---
 crates/sip-core/src/referred_by.rs | 50 ++++++++++++++++++------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/crates/sip-core/src/referred_by.rs b/crates/sip-core/src/referred_by.rs
index 75d6b7b..1e9c93e 100644
--- a/crates/sip-core/src/referred_by.rs
+++ b/crates/sip-core/src/referred_by.rs
@@ -33,6 +33,7 @@ use std::fmt;
 use smol_str::SmolStr;
 
 use crate::name_addr::NameAddr;
+use crate::quoted::{escape, split_params, unquote, write_value, QuoteTracker};
 use crate::{SipUri, Uri};
 
 const MAX_CID_LENGTH: usize = 256;
@@ -379,12 +380,7 @@ impl ReferredByHeader {
             let display_name = if display_part.is_empty() {
                 None
             } else {
-                let display_part = if display_part.starts_with('"') && display_part.ends_with('"') {
-                    &display_part[1..display_part.len() - 1]
-                } else {
-                    display_part
-                };
-                Some(SmolStr::new(display_part))
+                Some(SmolStr::new(unquote(display_part)))
             };
 
             (display_name, uri_str)
@@ -392,7 +388,7 @@ impl ReferredByHeader {
             (None, name_addr_str)
         };
 
-        let uri = Uri::parse(uri_str)
+        let uri = Uri::parse(uri_str.trim())
             .map_err(|_| ReferredByError::InvalidUri("failed to parse URI".to_string()))?;
 
         let name_addr = NameAddr::new(display_name, uri, BTreeMap::new())
@@ -403,7 +399,7 @@ impl ReferredByHeader {
 
         // Parse parameters
         if !params_str.is_empty() {
-            for part in params_str.split(';') {
+            for part in split_params(params_str) {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
@@ -424,20 +420,20 @@ impl ReferredByHeader {
                     // starts_with and ends_with) does not slice [1..0] and panic.
                     let value =
                         if value.len() >= 2 && value.starts_with('"') && value.ends_with('"') {
-                            &value[1..value.len() - 1]
+                            unquote(value)
                         } else {
-                            value
+                            value.to_string()
                         };
 
                     if key.eq_ignore_ascii_case("cid") {
-                        validate_cid(value)?;
+                        validate_cid(&value)?;
                         if cid.is_some() {
                             return Err(ReferredByError::DuplicateParam("cid".to_string()));
                         }
                         cid = Some(SmolStr::new(value));
                     } else {
                         validate_param_name(key)?;
-                        validate_param_value(value)?;
+                        validate_param_value(&value)?;
 
                         let key_lower = SmolStr::new(key.to_ascii_lowercase());
                         if params.contains_key(&key_lower) {
@@ -464,16 +460,17 @@ impl ReferredByHeader {
 impl fmt::Display for ReferredByHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(display_name) = self.name_addr.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
+            write!(f, "\"{}\" ", escape(display_name))?;
         }
         write!(f, "<{}>", self.name_addr.uri().as_str())?;
 
         if let Some(ref cid) = self.cid {
-            write!(f, ";cid=\"{}\"", cid)?;
+            write!(f, ";cid=\"{}\"", escape(cid))?;
         }
 
         for (name, value) in &self.params {
-            write!(f, ";{}={}", name, value)?;
+            write!(f, ";{}=", name)?;
+            write_value(f, value)?;
         }
 
         Ok(())
@@ -503,12 +500,15 @@ fn validate_cid(cid: &str) -> Result<(), ReferredByError> {
 }
 
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, ReferredByError> {
-    let mut in_quotes = false;
+    let mut quotes = QuoteTracker::default();
     let mut start = None;
+
     for (idx, ch) in input.char_indices() {
+        if !quotes.outside(ch) {
+            continue;
+        }
         match ch {
-            '"' => in_quotes = !in_quotes,
-            '<' if !in_quotes => {
+            '<' => {
                 if start.is_some() {
                     return Err(ReferredByError::ParseError(
                         "nested angle brackets".to_string(),
@@ -516,7 +516,7 @@ fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, R
                 }
                 start = Some(idx);
             }
-            '>' if !in_quotes => {
+            '>' => {
                 if let Some(s) = start {
                     return Ok(Some((s, idx)));
                 }
@@ -553,6 +553,18 @@ fn validate_param_name(name: &str) -> Result<(), ReferredByError> {
         ));
     }
 
+    if !name.chars().all(|c| {
+        c.is_ascii_alphanumeric()
+            || matches!(
+                c,
+                '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~'
+            )
+    }) {
+        return Err(ReferredByError::InvalidParamName(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From fba33d4bda8499a8aeb0b0c71e1e67f2ff09e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 088/124] fix: read quoted names and values of address headers
 in sip-parse

---
 crates/sip-parse/src/header_values.rs | 51 +++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 35083cf..e1c6a0e 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -425,7 +425,7 @@ fn parse_name_addr(value: &SmolStr) -> Option<NameAddr> {
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(unquote(display))
                 },
                 uri,
                 params,
@@ -449,7 +449,7 @@ const MAX_PARAMS: usize = 64;
 /// Returns None if there are too many parameters (>64).
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in split_quoted(input, ';') {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -463,7 +463,7 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
         if let Some((name, value)) = raw.split_once('=') {
             params.insert(
                 SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
+                Some(unquote(value.trim())),
             );
         } else {
             params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
@@ -472,6 +472,51 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     Some(params)
 }
 
+/// Splits at `sep` outside quoted strings.
+fn split_quoted(input: &str, sep: char) -> Vec<&str> {
+    let mut parts = Vec::new();
+    let mut start = 0;
+    let mut in_quotes = false;
+    let mut escape_next = false;
+    for (idx, ch) in input.char_indices() {
+        if escape_next {
+            escape_next = false;
+            continue;
+        }
+        match ch {
+            '\\' if in_quotes => escape_next = true,
+            '"' => in_quotes = !in_quotes,
+            _ if in_quotes => {}
+            _ if ch == sep => {
+                parts.push(&input[start..idx]);
+                start = idx + ch.len_utf8();
+            }
+            _ => {}
+        }
+    }
+    parts.push(&input[start..]);
+    parts
+}
+
+/// Returns the text of a quoted string, or of a plain display name or value.
+fn unquote(text: &str) -> SmolStr {
+    let Some(inner) = text
+        .strip_prefix('"')
+        .and_then(|rest| rest.strip_suffix('"'))
+    else {
+        return SmolStr::new(text.trim_matches('"'));
+    };
+    let mut out = String::with_capacity(inner.len());
+    let mut chars = inner.chars();
+    while let Some(ch) = chars.next() {
+        match ch {
+            '\\' => out.push(chars.next().unwrap_or(ch)),
+            _ => out.push(ch),
+        }
+    }
+    SmolStr::new(out)
+}
+
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, ()> {
     let mut in_quotes = false;
     let mut escape_next = false;
-- 
2.43.0


From 4a9b74f023f89a9b9b8a4ffcc7902b12370057d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:44 +0000
Subject: [PATCH 089/124] fix: read every address of comma-separated Route and
 Call-Info lines

---
 crates/sip-parse/src/header_values.rs | 42 ++++++++++++---------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index e1c6a0e..9a1fd87 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -30,9 +30,8 @@ pub fn parse_contact_header(value: &SmolStr) -> Option<ContactHeader> {
 }
 
 pub fn parse_route_headers(headers: &Headers, name: &str) -> Vec<RouteHeader> {
-    headers
-        .get_all_smol(name)
-        .filter_map(parse_route_header)
+    parse_name_addr_list(headers.get_all_smol(name))
+        .map(RouteHeader::new)
         .collect()
 }
 
@@ -53,9 +52,8 @@ pub fn parse_call_info_header(value: &SmolStr) -> Option<NameAddrHeader> {
 }
 
 pub fn parse_call_info_headers(headers: &Headers) -> Vec<NameAddrHeader> {
-    headers
-        .get_all_smol("Call-Info")
-        .filter_map(parse_call_info_header)
+    parse_name_addr_list(headers.get_all_smol("Call-Info"))
+        .map(NameAddrHeader::new)
         .collect()
 }
 
@@ -374,23 +372,14 @@ pub fn parse_p_visited_network_id(value: &SmolStr) -> Option<PVisitedNetworkIdHe
     PVisitedNetworkIdHeader::new(values).ok()
 }
 
-#[allow(dead_code)]
+/// Reads the well-formed addresses of comma-separated header values.
 fn parse_name_addr_list<'a>(
-    header_values: impl Iterator<Item = &'a SmolStr>,
-) -> Option<Vec<NameAddr>> {
-    let mut out = Vec::new();
-    for value in header_values {
-        let parts = split_quoted_commas(value.as_str(), MAX_ROUTES)?;
-        for part in parts {
-            if let Some(name_addr) = parse_name_addr(&SmolStr::new(part.trim())) {
-                out.push(name_addr);
-                if out.len() > MAX_ROUTES {
-                    return None;
-                }
-            }
-        }
-    }
-    Some(out)
+    header_values: impl Iterator<Item = &'a SmolStr> + 'a,
+) -> impl Iterator<Item = NameAddr> + 'a {
+    header_values
+        .filter_map(|value| split_quoted_commas(value.as_str(), MAX_ROUTES))
+        .flatten()
+        .filter_map(|part| parse_name_addr(&SmolStr::new(part)))
 }
 
 pub fn parse_p_asserted_identity(
@@ -594,11 +583,12 @@ fn parse_auth_like_header(value: &SmolStr) -> Option<AuthorizationHeader> {
     AuthorizationHeader::from_raw(scheme, params).ok()
 }
 
-/// Splits comma-separated values, respecting quotes. Returns None if too many parts or unbalanced quotes.
+/// Splits comma-separated values, respecting quotes and angle brackets. Returns None if too many parts or unbalanced quotes.
 fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut in_quotes = false;
+    let mut in_angle = false;
     let mut escape_next = false;
     for ch in input.chars() {
         if escape_next {
@@ -615,7 +605,11 @@ fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
                 in_quotes = !in_quotes;
                 current.push(ch);
             }
-            ',' if !in_quotes => {
+            '<' | '>' if !in_quotes => {
+                in_angle = ch == '<';
+                current.push(ch);
+            }
+            ',' if !in_quotes && !in_angle => {
                 if !current.trim().is_empty() {
                     // Security: Prevent DoS via excessive comma-separated values
                     if parts.len() >= max_parts {
-- 
2.43.0


From bc095ac8fc9de28db986dad563b53271b0283212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 090/124] fix: allow blanks around '=' in Event and
 Subscription-State

The blank before '=' was taken for a part of the parameter name, which made
the whole header unreadable and hid the id parameter.
---
 crates/sip-parse/src/header_values.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 9a1fd87..ad7acbf 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -173,7 +173,7 @@ pub fn parse_resource_priority(value: &SmolStr) -> Option<ResourcePriorityHeader
 }
 
 pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_quoted(value, ';').into_iter();
     let package = parts.next()?.trim();
     let mut header = EventHeader::new(package).ok()?;
     let mut has_id = false;
@@ -183,15 +183,16 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
+            let name = name.trim();
+            let val = unquote(val.trim());
             if name.eq_ignore_ascii_case("id") {
                 if has_id {
                     return None;
                 }
-                header = header.with_id(val).ok()?;
+                header = header.with_id(&val).ok()?;
                 has_id = true;
             } else {
-                header.add_param(name, Some(val)).ok()?;
+                header.add_param(name, Some(&val)).ok()?;
             }
         } else {
             if part.eq_ignore_ascii_case("id") {
@@ -204,7 +205,7 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
 }
 
 pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_quoted(value, ';').into_iter();
     let state = SubscriptionState::parse(parts.next().unwrap_or("").trim()).ok()?;
     let mut header = SubscriptionStateHeader::new(state);
     for part in parts {
@@ -213,8 +214,8 @@ pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHead
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
-            header.add_param(name, Some(val)).ok()?;
+            let val = unquote(val.trim());
+            header.add_param(name.trim(), Some(&val)).ok()?;
         } else {
             header.add_param(part, None).ok()?;
         }
-- 
2.43.0


From 40deb878f90cdce4b482051295244807396a726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:17 +0000
Subject: [PATCH 091/124] fix: read quoted strings in access network, visited
 network and geolocation errors

A semicolon inside a quoted parameter value split it, and backslash escapes
were kept.
---
 crates/sip-parse/src/header_values.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index ad7acbf..46836ef 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -289,7 +289,7 @@ pub fn parse_geolocation_header(headers: &Headers) -> Result<GeolocationHeader,
 pub fn parse_geolocation_error(
     value: &SmolStr,
 ) -> Result<GeolocationErrorHeader, GeolocationError> {
-    let mut parts = value.split(';');
+    let mut parts = split_quoted(value, ';').into_iter();
     let code = parts.next().map(|c| c.trim()).filter(|c| !c.is_empty());
     let mut header = GeolocationErrorHeader::new();
     if let Some(code) = code {
@@ -304,7 +304,7 @@ pub fn parse_geolocation_error(
         }
         if let Some((name, val)) = part.split_once('=') {
             let key = name.trim().to_ascii_lowercase();
-            let value = SmolStr::new(val.trim().trim_matches('"'));
+            let value = unquote(val.trim());
             if key == "reason" {
                 if let Ok(updated) = header.clone().with_description(value.as_str()) {
                     header = updated;
@@ -335,7 +335,7 @@ pub fn parse_geolocation_routing(
 }
 
 pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo> {
-    let mut parts = value.split(';');
+    let mut parts = split_quoted(value, ';').into_iter();
     let access_type = parts.next()?.trim();
     let mut header = PAccessNetworkInfo::new(access_type).ok()?;
     for part in parts {
@@ -345,7 +345,7 @@ pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo
         }
         if let Some((name, val)) = part.split_once('=') {
             if header
-                .add_param(name.trim(), Some(val.trim().trim_matches('"')))
+                .add_param(name.trim(), Some(unquote(val.trim())))
                 .is_err()
             {
                 return None;
@@ -362,7 +362,8 @@ pub fn parse_p_visited_network_id(value: &SmolStr) -> Option<PVisitedNetworkIdHe
     let values: Vec<SmolStr> = parts
         .into_iter()
         .filter_map(|token| {
-            let trimmed = token.trim_matches('"').trim();
+            let text = unquote(token.trim());
+            let trimmed = text.trim();
             if trimmed.is_empty() {
                 None
             } else {
-- 
2.43.0


From bf7de1fdea400283a7a75ba74913aa6e457ed75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 092/124] fix: keep semicolons inside quoted media type
 parameters

A quoted value with a semicolon was written but could not be read back.
---
 crates/sip-core/src/mime.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/mime.rs b/crates/sip-core/src/mime.rs
index 55c718d..09c5fd7 100644
--- a/crates/sip-core/src/mime.rs
+++ b/crates/sip-core/src/mime.rs
@@ -2,6 +2,7 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use crate::quoted::split_params;
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 
@@ -488,7 +489,7 @@ fn normalize_param_value(value: &str) -> Result<SmolStr, MimeTypeError> {
 /// Format: `type/subtype[;param=value]...`
 fn parse_mime_type(s: &str) -> Result<MimeType, MimeTypeError> {
     // Split on semicolon to separate type from parameters
-    let parts: Vec<&str> = s.split(';').collect();
+    let parts = split_params(s);
 
     if parts.is_empty() {
         return Err(MimeTypeError::InvalidType("empty string".to_string()));
-- 
2.43.0


From de565d555c4c9537e2f7e75a11e260601a464aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 093/124] fix: write Reason texts so that they read back

Quotes and backslashes were written without escapes and a semicolon inside a
quoted text ended it when read; protocol and parameter names could hold
delimiters that added parameters of their own.
---
 crates/sip-core/src/quoted.rs | 12 ++++++++++++
 crates/sip-core/src/reason.rs | 22 ++++++++++++++++++----
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/quoted.rs b/crates/sip-core/src/quoted.rs
index 13923e1..758de36 100644
--- a/crates/sip-core/src/quoted.rs
+++ b/crates/sip-core/src/quoted.rs
@@ -72,6 +72,18 @@ pub(crate) fn split_params(params_str: &str) -> Vec<&str> {
     parts
 }
 
+/// Returns true for a token (RFC 3261 section 25.1).
+pub(crate) fn is_token(value: &str) -> bool {
+    !value.is_empty()
+        && value.chars().all(|c| {
+            c.is_ascii_alphanumeric()
+                || matches!(
+                    c,
+                    '-' | '.' | '!' | '%' | '*' | '_' | '+' | '`' | '\'' | '~'
+                )
+        })
+}
+
 /// Escapes the text of a quoted string.
 pub(crate) fn escape(text: &str) -> String {
     text.replace('\\', "\\\\").replace('"', "\\\"")
diff --git a/crates/sip-core/src/reason.rs b/crates/sip-core/src/reason.rs
index 82ea91f..641d61a 100644
--- a/crates/sip-core/src/reason.rs
+++ b/crates/sip-core/src/reason.rs
@@ -2,6 +2,7 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use crate::quoted::{escape, is_token, split_params, write_value};
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -380,10 +381,11 @@ impl fmt::Display for ReasonHeader {
         for (key, value) in &self.params {
             write!(f, ";{}", key)?;
             if let Some(val) = value {
-                if key == "text" || val.contains(|c: char| c.is_whitespace() || c == ';') {
-                    write!(f, "=\"{}\"", val)?;
+                f.write_str("=")?;
+                if key == "text" {
+                    write!(f, "\"{}\"", escape(val))?;
                 } else {
-                    write!(f, "={}", val)?;
+                    write_value(f, val)?;
                 }
             }
         }
@@ -412,6 +414,12 @@ fn validate_protocol(protocol: &str) -> Result<(), ReasonError> {
         ));
     }
 
+    if !is_token(protocol) {
+        return Err(ReasonError::InvalidProtocol(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -433,6 +441,12 @@ fn validate_param_name(name: &str) -> Result<(), ReasonError> {
         ));
     }
 
+    if !is_token(name) {
+        return Err(ReasonError::InvalidParamName(
+            "contains invalid characters".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -526,7 +540,7 @@ pub fn parse_reason_from_string(value: &str) -> Result<ReasonHeader, ReasonError
         });
     }
 
-    let mut parts = value.split(';');
+    let mut parts = split_params(value).into_iter();
     let protocol = parts.next().unwrap_or("").trim();
 
     validate_protocol(protocol)?;
-- 
2.43.0


From 499e791ac94b75b154c5c86c0a4f9a0e62491edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:42 +0000
Subject: [PATCH 094/124] fix: refuse delimiters in the Call-ID and tags of
 Replaces

A tag such as 1;early-only was written as is and read back as a different
header.
---
 crates/sip-core/src/replaces.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/sip-core/src/replaces.rs b/crates/sip-core/src/replaces.rs
index 196edcc..a96e40a 100644
--- a/crates/sip-core/src/replaces.rs
+++ b/crates/sip-core/src/replaces.rs
@@ -345,9 +345,20 @@ fn validate_call_id(call_id: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    if call_id.contains(is_delimiter) {
+        return Err(ReplacesError::InvalidCallId(
+            "contains a delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
+/// Characters that would end the Call-ID or a tag when written.
+fn is_delimiter(c: char) -> bool {
+    c.is_whitespace() || matches!(c, ';' | ',')
+}
+
 fn validate_tag(tag: &str) -> Result<(), ReplacesError> {
     if tag.is_empty() {
         return Err(ReplacesError::EmptyTag);
@@ -366,6 +377,12 @@ fn validate_tag(tag: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    if tag.contains(is_delimiter) {
+        return Err(ReplacesError::InvalidTag(
+            "contains a delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 9a6578f5602e341190f48c664e38a80f5c997a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:50 +0000
Subject: [PATCH 095/124] fix: refuse delimiters in Resource-Priority
 namespaces and priorities

A namespace with a dot or a comma was written as is and read back as another
namespace or as further values.
---
 crates/sip-core/src/resource_priority.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/sip-core/src/resource_priority.rs b/crates/sip-core/src/resource_priority.rs
index 18cb19a..414020a 100644
--- a/crates/sip-core/src/resource_priority.rs
+++ b/crates/sip-core/src/resource_priority.rs
@@ -306,6 +306,12 @@ fn validate_namespace(namespace: &str) -> Result<(), ResourcePriorityError> {
         ));
     }
 
+    if namespace.contains([',', '.']) {
+        return Err(ResourcePriorityError::InvalidNamespace(
+            "contains a delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -332,6 +338,12 @@ fn validate_priority(priority: &str) -> Result<(), ResourcePriorityError> {
         ));
     }
 
+    if priority.contains([',', '.']) {
+        return Err(ResourcePriorityError::InvalidPriority(
+            "contains a delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From b6cd500396d338ace674adb329c3e0ec096b25b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 096/124] fix: read CPIM header parameters where they are
 written

---
 crates/sip-core/src/cpim.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 7539bcf..ab99076 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -649,7 +649,7 @@ fn validate_param_name(name: &str) -> Result<(), CpimError> {
     }
     if name
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '=' | '\\' | '"'))
+        .any(|c| c.is_ascii_control() || c.is_whitespace() || matches!(c, ';' | '=' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamName(
             "contains invalid characters".to_string(),
@@ -667,7 +667,7 @@ fn validate_param_value(value: &str) -> Result<(), CpimError> {
     }
     if value
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '\\' | '"'))
+        .any(|c| c.is_ascii_control() || c.is_whitespace() || matches!(c, ';' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamValue(
             "contains invalid characters".to_string(),
@@ -889,12 +889,20 @@ fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, Cpim
         }
 
         // Split into name and value
-        let (name_with_params, value) = line
+        let (name_with_params, rest) = line
             .split_once(':')
             .ok_or_else(|| CpimError::ParseError("missing ':'".to_string()))?;
 
+        // Parameters follow the colon and end at the first space (RFC 3862);
+        // they are also accepted before the colon.
+        let (params_part, value) = if rest.starts_with(';') {
+            rest.split_once(' ').unwrap_or((rest, ""))
+        } else {
+            ("", rest)
+        };
+
         // Parse header name and parameters
-        let mut parts = name_with_params.split(';');
+        let mut parts = name_with_params.split(';').chain(params_part.split(';'));
         let name = parts
             .next()
             .ok_or_else(|| CpimError::ParseError("missing header name".to_string()))?
-- 
2.43.0


From 5789a6e8215a04b0e2838a2dc81a16334bf962b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:07 +0000
Subject: [PATCH 097/124] fix: read CPIM messages without headers and keep
 blank lines of the body

---
 crates/sip-core/src/cpim.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index ab99076..5c7c0c0 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -792,21 +792,17 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         });
     }
 
-    // Split into sections by blank lines (CRLF CRLF or LF LF)
-    let sections: Vec<&str> = if input.contains("\r\n\r\n") {
-        input.split("\r\n\r\n").collect()
-    } else {
-        input.split("\n\n").collect()
+    // The line ending of the first line is the one between the sections
+    let line_end = match input.find('\n') {
+        Some(at) if input[..at].ends_with('\r') => "\r\n",
+        _ => "\n",
     };
-
-    if sections.len() < 4 {
-        return Err(CpimError::ParseError(
-            "missing required cpim sections".to_string(),
-        ));
-    }
+    let missing = || CpimError::ParseError("missing required cpim sections".to_string());
 
     // First section: MIME headers (should contain Content-type: Message/CPIM)
-    let mime_section = sections[0];
+    let (mime_section, rest) = split_section(input, line_end).ok_or_else(missing)?;
+    let (headers_section, rest) = split_section(rest, line_end).ok_or_else(missing)?;
+    let (content_headers_section, body_str) = split_section(rest, line_end).ok_or_else(missing)?;
     if !mime_section.to_lowercase().contains("message/cpim") {
         return Err(CpimError::ParseError(
             "missing message/cpim MIME header".to_string(),
@@ -814,13 +810,9 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
     }
 
     // Second section: Message headers
-    let headers_section = sections[1];
     let headers = parse_headers(headers_section)?;
 
     // Third section: Content headers
-    let content_headers_section = sections[2];
-
-    // Parse content headers
     let mut content_type = SmolStr::new("text/plain");
     let mut content_headers = BTreeMap::new();
 
@@ -858,8 +850,7 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         }
     }
 
-    // Fourth section onwards: Body (join remaining sections in case body contains blank lines)
-    let body_str = sections[3..].join("\r\n\r\n");
+    // Everything after the third section is the body
     let body = body_str.as_bytes().to_vec();
 
     if body.len() > MAX_BODY_SIZE {
@@ -877,6 +868,14 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
     })
 }
 
+/// Splits off the lines before the next blank line; there may be none.
+fn split_section<'a>(input: &'a str, line_end: &str) -> Option<(&'a str, &'a str)> {
+    match input.strip_prefix(line_end) {
+        Some(rest) => Some(("", rest)),
+        None => input.split_once(&line_end.repeat(2)),
+    }
+}
+
 /// Parses CPIM headers from a string.
 fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, CpimError> {
     let mut headers = BTreeMap::new();
-- 
2.43.0


From b006b37201103507c8c9b1fdab497b36796d256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:13 +0000
Subject: [PATCH 098/124] fix: refuse CPIM header names that would read back as
 something else

---
 crates/sip-core/src/cpim.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 5c7c0c0..a7ad5b7 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -389,6 +389,11 @@ impl CpimMessage {
     /// Adds a content header (e.g., Content-ID, Content-Disposition).
     pub fn add_content_header(&mut self, name: &str, value: &str) -> Result<(), CpimError> {
         validate_header_name(name)?;
+        if name.eq_ignore_ascii_case("Content-type") {
+            return Err(CpimError::InvalidHeaderName(
+                "the content type is set when the message is created".to_string(),
+            ));
+        }
         validate_content_header_value(value)?;
         if self.content_headers.len() >= MAX_CONTENT_HEADERS {
             return Err(CpimError::TooManyContentHeaders {
@@ -611,7 +616,7 @@ fn validate_header_name(name: &str) -> Result<(), CpimError> {
             actual: name.len(),
         });
     }
-    if name.chars().any(|c| c.is_ascii_control()) {
+    if name.chars().any(|c| c.is_ascii_control() || c.is_whitespace()) {
         return Err(CpimError::InvalidHeaderName(
             "contains control characters".to_string(),
         ));
-- 
2.43.0


From 9e1cbcdaf3b162e12378a36b34bca2280df5e66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:18 +0000
Subject: [PATCH 099/124] fix: separate the message headers of a message
 summary by blank lines

---
 crates/sip-core/src/message_waiting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 4bf03f9..2376ef8 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -234,8 +234,9 @@ impl fmt::Display for MessageSummary {
             writeln!(f)?;
         }
 
-        // Optional message headers
+        // Optional message headers, each group after a blank line
         for msg_header in &self.message_headers {
+            writeln!(f)?;
             if let Some(to) = msg_header.to() {
                 writeln!(f, "To: {}", to)?;
             }
-- 
2.43.0


From e7dc5105a5c16e41d21bb426c6792f393b5ca9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 100/124] fix: do not overflow when message counts are added up

---
 crates/sip-core/src/message_waiting.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 2376ef8..73e4ab4 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -189,12 +189,16 @@ impl MessageSummary {
 
     /// Returns the total number of new messages across all classes.
     pub fn total_new(&self) -> u32 {
-        self.messages.values().map(|c| c.new_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |total, c| total.saturating_add(c.new_count()))
     }
 
     /// Returns the total number of old messages across all classes.
     pub fn total_old(&self) -> u32 {
-        self.messages.values().map(|c| c.old_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |total, c| total.saturating_add(c.old_count()))
     }
 
     /// Returns true if any messages are urgent.
@@ -375,12 +379,12 @@ impl MessageCounts {
 
     /// Returns the total number of messages (new + old).
     pub fn total(&self) -> u32 {
-        self.new + self.old
+        self.new.saturating_add(self.old)
     }
 
     /// Returns the total number of urgent messages.
     pub fn total_urgent(&self) -> u32 {
-        self.urgent_new + self.urgent_old
+        self.urgent_new.saturating_add(self.urgent_old)
     }
 
     /// Returns true if there are any new messages.
-- 
2.43.0


From 08ac66643a9b5000966b0686b96ccd08025f1c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:31 +0000
Subject: [PATCH 101/124] fix: read message counts with any blanks around their
 separators

---
 crates/sip-core/src/message_waiting.rs | 41 +++++++++++---------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 73e4ab4..081b7b4 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -685,35 +685,30 @@ pub fn parse_message_summary(body: &str) -> Result<MessageSummary, MessageWaitin
 
 /// Parses message counts from format: "new/old (urgent_new/urgent_old)"
 fn parse_message_counts(s: &str) -> Option<MessageCounts> {
-    // Split on space to separate main counts from urgent counts
-    let parts: Vec<&str> = s.split_whitespace().collect();
-    if parts.is_empty() {
-        return None;
-    }
+    // The urgent counts are in parentheses; blanks around separators are optional
+    let (main, urgent) = match s.split_once('(') {
+        Some((main, urgent)) => (main, Some(urgent)),
+        None => (s, None),
+    };
 
     // Parse main counts (new/old)
-    let main_parts: Vec<&str> = parts[0].split('/').collect();
-    if main_parts.len() != 2 {
-        return None;
-    }
-
-    let new = main_parts[0].parse::<u32>().ok()?;
-    let old = main_parts[1].parse::<u32>().ok()?;
+    let (new, old) = main.split_once('/')?;
+    let new = new.trim().parse::<u32>().ok()?;
+    let old = old.trim().parse::<u32>().ok()?;
 
     let mut counts = MessageCounts::new(new, old);
 
     // Parse urgent counts if present
-    if parts.len() > 1 {
-        let urgent_str = parts[1].trim_matches(|c| c == '(' || c == ')');
-        let urgent_parts: Vec<&str> = urgent_str.split('/').collect();
-        if urgent_parts.len() == 2 {
-            if let (Ok(urgent_new), Ok(urgent_old)) = (
-                urgent_parts[0].parse::<u32>(),
-                urgent_parts[1].parse::<u32>(),
-            ) {
-                counts.urgent_new = urgent_new;
-                counts.urgent_old = urgent_old;
-            }
+    if let Some((urgent_new, urgent_old)) = urgent
+        .and_then(|u| u.trim_end().strip_suffix(')'))
+        .and_then(|u| u.split_once('/'))
+    {
+        if let (Ok(urgent_new), Ok(urgent_old)) = (
+            urgent_new.trim().parse::<u32>(),
+            urgent_old.trim().parse::<u32>(),
+        ) {
+            counts.urgent_new = urgent_new;
+            counts.urgent_old = urgent_old;
         }
     }
 
-- 
2.43.0


From 125623256a9babda800f2c062525aadc25afda6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:50 +0000
Subject: [PATCH 102/124] fix: do not read watcher attributes from within
 attribute values

---
 crates/sip-core/src/watcher_info.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/crates/sip-core/src/watcher_info.rs b/crates/sip-core/src/watcher_info.rs
index e275f38..659993b 100644
--- a/crates/sip-core/src/watcher_info.rs
+++ b/crates/sip-core/src/watcher_info.rs
@@ -810,6 +810,19 @@ fn parse_watcher(xml: &str) -> Result<Watcher, WatcherinfoError> {
     Ok(watcher)
 }
 
+/// Returns true if the text after this part of a tag is within a quoted value.
+fn in_attribute_value(before: &str) -> bool {
+    let mut quote = None;
+    for c in before.chars() {
+        match quote {
+            Some(q) if c == q => quote = None,
+            None if c == '"' || c == '\'' => quote = Some(c),
+            _ => {}
+        }
+    }
+    quote.is_some()
+}
+
 fn extract_attribute(
     xml: &str,
     tag_name: &str,
@@ -828,6 +841,10 @@ fn extract_attribute(
     let mut search_idx = 0;
     while let Some(found) = tag_str[search_idx..].find(attr_name) {
         let attr_start = search_idx + found;
+        if in_attribute_value(&tag_str[..attr_start]) {
+            search_idx = attr_start + 1;
+            continue;
+        }
         let before_ok = attr_start == 0
             || tag_str[..attr_start]
                 .chars()
-- 
2.43.0


From d60119d64c70cc9da235e682239ec7107c801551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:11 +0000
Subject: [PATCH 103/124] fix: read empty watcher lists and any layout of
 watcher tags

---
 crates/sip-core/src/watcher_info.rs | 77 ++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 12 deletions(-)

diff --git a/crates/sip-core/src/watcher_info.rs b/crates/sip-core/src/watcher_info.rs
index 659993b..a26e91f 100644
--- a/crates/sip-core/src/watcher_info.rs
+++ b/crates/sip-core/src/watcher_info.rs
@@ -714,13 +714,19 @@ pub fn parse_watcherinfo(xml: &str) -> Result<WatcherinfoDocument, WatcherinfoEr
     let mut doc = WatcherinfoDocument::new(version, state)?;
 
     let mut pos = 0;
-    while let Some(list_start) = xml[pos..].find("<watcher-list") {
-        let abs_start = pos + list_start;
-        let list_end = xml[abs_start..]
-            .find("</watcher-list>")
-            .ok_or_else(|| WatcherinfoError::XmlParseError("unclosed watcher-list".to_string()))?
-            + abs_start
-            + 15;
+    while let Some(tag) = find_open_tag(&xml[pos..], "<watcher-list") {
+        let abs_start = pos + tag.start;
+        let list_end = if tag.is_empty {
+            pos + tag.end
+        } else {
+            xml[abs_start..]
+                .find("</watcher-list>")
+                .ok_or_else(|| {
+                    WatcherinfoError::XmlParseError("unclosed watcher-list".to_string())
+                })?
+                + abs_start
+                + 15
+        };
         let list_xml = &xml[abs_start..list_end];
 
         let list = parse_watcher_list(list_xml)?;
@@ -741,8 +747,8 @@ fn parse_watcher_list(xml: &str) -> Result<WatcherList, WatcherinfoError> {
     let mut list = WatcherList::new(resource, package)?;
 
     let mut pos = 0;
-    while let Some(watcher_start) = xml[pos..].find("<watcher ") {
-        let abs_start = pos + watcher_start;
+    while let Some(tag) = find_open_tag(&xml[pos..], "<watcher") {
+        let abs_start = pos + tag.start;
         let watcher_end = xml[abs_start..]
             .find("</watcher>")
             .ok_or_else(|| WatcherinfoError::XmlParseError("unclosed watcher".to_string()))?
@@ -791,7 +797,7 @@ fn parse_watcher(xml: &str) -> Result<Watcher, WatcherinfoError> {
         }
     }
 
-    if let Some(content_start) = xml.find('>') {
+    if let Some(content_start) = find_tag_end(xml) {
         // Search for the closing tag only *after* the opening tag's '>'. If the
         // opening <watcher ...> tag is unclosed, the first '>' found is the one
         // inside </watcher>, which would make content_end < content_start and
@@ -810,6 +816,54 @@ fn parse_watcher(xml: &str) -> Result<Watcher, WatcherinfoError> {
     Ok(watcher)
 }
 
+/// An opening (or empty) element tag within a text.
+pub(crate) struct OpenTag {
+    /// Position of its '<'.
+    pub(crate) start: usize,
+    /// Position after its '>'.
+    pub(crate) end: usize,
+    /// True if the element has no content (`<name/>`).
+    pub(crate) is_empty: bool,
+}
+
+/// Finds the first tag that starts with `open` ("<name") and is named just so.
+pub(crate) fn find_open_tag(xml: &str, open: &str) -> Option<OpenTag> {
+    let mut pos = 0;
+    while let Some(found) = xml[pos..].find(open) {
+        let start = pos + found;
+        pos = start + open.len();
+        let named = xml[pos..]
+            .chars()
+            .next()
+            .is_some_and(|c| c.is_whitespace() || c == '>' || c == '/');
+        if named {
+            let end = start + find_tag_end(&xml[start..])? + 1;
+            let is_empty = xml[start..end - 1].ends_with('/');
+            return Some(OpenTag {
+                start,
+                end,
+                is_empty,
+            });
+        }
+    }
+    None
+}
+
+/// Returns the position of the '>' that ends the tag at the start of the text;
+/// one within a quoted attribute value does not.
+fn find_tag_end(xml: &str) -> Option<usize> {
+    let mut quote = None;
+    for (i, c) in xml.char_indices() {
+        match quote {
+            Some(q) if c == q => quote = None,
+            None if c == '"' || c == '\'' => quote = Some(c),
+            None if c == '>' => return Some(i),
+            _ => {}
+        }
+    }
+    None
+}
+
 /// Returns true if the text after this part of a tag is within a quoted value.
 fn in_attribute_value(before: &str) -> bool {
     let mut quote = None;
@@ -833,8 +887,7 @@ fn extract_attribute(
         None => return Ok(None),
     };
     let tag_content = &xml[tag_start..];
-    let tag_end = tag_content
-        .find('>')
+    let tag_end = find_tag_end(tag_content)
         .ok_or_else(|| WatcherinfoError::XmlParseError("unterminated tag".to_string()))?;
     let tag_str = &tag_content[..tag_end];
 
-- 
2.43.0


From 027747b2a7c42bdc6e4e097dd2b56a48313d4c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 104/124] fix: read presence elements with attributes in any
 order and layout

---
 crates/sip-core/src/presence.rs     | 93 ++++++++++++-----------------
 crates/sip-core/src/watcher_info.rs | 13 +++-
 2 files changed, 50 insertions(+), 56 deletions(-)

diff --git a/crates/sip-core/src/presence.rs b/crates/sip-core/src/presence.rs
index 73c99db..4a922df 100644
--- a/crates/sip-core/src/presence.rs
+++ b/crates/sip-core/src/presence.rs
@@ -12,6 +12,7 @@
 /// # Security
 ///
 /// All types validate input to prevent XML injection attacks and DoS.
+use crate::watcher_info::{find_open_tag, raw_attribute};
 use smol_str::SmolStr;
 use std::fmt;
 
@@ -491,20 +492,11 @@ fn parse_tuple(xml: &str) -> Result<Tuple, PresenceError> {
     let mut tuple = Tuple::new(id)?;
 
     // Extract status
-    if let Some(basic_start) = xml.find("<basic>") {
-        // Search for the closing tag only *after* the opening tag, so a
-        // </basic> that precedes <basic> cannot make basic_end < basic_start+7
-        // and panic on the slice.
-        if let Some(basic_end) = xml[basic_start + 7..]
-            .find("</basic>")
-            .map(|rel| basic_start + 7 + rel)
-        {
-            let status_str = &xml[basic_start + 7..basic_end].trim();
-            tuple.status =
-                Some(BasicStatus::parse(status_str).ok_or_else(|| {
-                    PresenceError::ParseError("invalid basic status".to_string())
-                })?);
-        }
+    if let Some((_, status_str, _)) = find_element(xml, "basic") {
+        tuple.status = Some(
+            BasicStatus::parse(status_str.trim())
+                .ok_or_else(|| PresenceError::ParseError("invalid basic status".to_string()))?,
+        );
     }
 
     // Extract contact
@@ -520,16 +512,9 @@ fn parse_tuple(xml: &str) -> Result<Tuple, PresenceError> {
 
     // Extract notes
     let mut pos = 0;
-    while let Some(note_start) = xml[pos..].find("<note>") {
-        let abs_start = pos + note_start;
-        if let Some(note_end) = xml[abs_start..].find("</note>") {
-            let note = &xml[abs_start + 6..abs_start + note_end].trim();
-            let note = xml_unescape(note);
-            tuple = tuple.with_note(note)?;
-            pos = abs_start + note_end + 7;
-        } else {
-            break;
-        }
+    while let Some((_, note, end)) = find_element(&xml[pos..], "note") {
+        tuple = tuple.with_note(xml_unescape(note.trim()))?;
+        pos += end;
     }
 
     // Extract timestamp
@@ -548,31 +533,35 @@ fn parse_tuple(xml: &str) -> Result<Tuple, PresenceError> {
 
 /// Extracts an XML attribute value.
 fn extract_attribute(xml: &str, tag_name: &str, attr_name: &str) -> Option<String> {
-    let tag_start = xml.find(tag_name)?;
-    let tag_content = &xml[tag_start..];
-    let tag_end = tag_content.find('>')?;
-    let tag_str = &tag_content[..tag_end];
-
-    let attr_start = tag_str.find(&format!("{}=\"", attr_name))?;
-    let value_start = attr_start + attr_name.len() + 2;
-    let value_end = tag_str[value_start..].find('"')?;
-    Some(tag_str[value_start..value_start + value_end].to_string())
+    raw_attribute(xml, tag_name, attr_name)
+        .ok()
+        .flatten()
+        .map(str::to_string)
 }
 
-fn extract_element_with_range(xml: &str, element_name: &str) -> Option<(String, usize)> {
-    let start_tag = format!("<{}>", element_name);
+/// Finds the first element of a name, with or without attributes: where it
+/// starts, its content and where it ends.
+fn find_element<'a>(xml: &'a str, element_name: &str) -> Option<(usize, &'a str, usize)> {
+    let tag = find_open_tag(xml, &format!("<{}", element_name))?;
+    if tag.is_empty {
+        return Some((tag.start, "", tag.end));
+    }
     let end_tag = format!("</{}>", element_name);
+    let content_end = xml[tag.end..].find(&end_tag)? + tag.end;
+    Some((
+        tag.start,
+        &xml[tag.end..content_end],
+        content_end + end_tag.len(),
+    ))
+}
 
-    let content_start = xml.find(&start_tag)? + start_tag.len();
-    let content_end = xml[content_start..].find(&end_tag)? + content_start;
-    let end_idx = content_end + end_tag.len();
-
-    Some((xml[content_start..content_end].trim().to_string(), end_idx))
+fn extract_element_with_range(xml: &str, element_name: &str) -> Option<(String, usize)> {
+    let (_, content, end_idx) = find_element(xml, element_name)?;
+    Some((content.trim().to_string(), end_idx))
 }
 
 fn has_duplicate_element(xml: &str, element_name: &str, after_idx: usize) -> bool {
-    let start_tag = format!("<{}>", element_name);
-    xml[after_idx..].contains(&start_tag)
+    find_open_tag(&xml[after_idx..], &format!("<{}", element_name)).is_some()
 }
 
 fn extract_document_notes(
@@ -581,26 +570,20 @@ fn extract_document_notes(
     doc: &mut PresenceDocument,
 ) -> Result<(), PresenceError> {
     let mut pos = 0;
-    while let Some(note_start) = xml[pos..].find("<note>") {
-        let abs_start = pos + note_start;
+    while let Some(tag) = find_open_tag(&xml[pos..], "<note") {
+        let abs_start = pos + tag.start;
         if tuple_ranges
             .iter()
             .any(|(start, end)| abs_start >= *start && abs_start < *end)
         {
-            pos = abs_start + 6;
+            pos += tag.end;
             continue;
         }
 
-        if let Some(note_end) = xml[abs_start..].find("</note>") {
-            let note = &xml[abs_start + 6..abs_start + note_end].trim();
-            let note = xml_unescape(note);
-            doc.add_note(note)?;
-            pos = abs_start + note_end + 7;
-        } else {
-            return Err(PresenceError::ParseError(
-                "unclosed note element".to_string(),
-            ));
-        }
+        let (_, note, end) = find_element(&xml[abs_start..], "note")
+            .ok_or_else(|| PresenceError::ParseError("unclosed note element".to_string()))?;
+        doc.add_note(xml_unescape(note.trim()))?;
+        pos = abs_start + end;
     }
     Ok(())
 }
diff --git a/crates/sip-core/src/watcher_info.rs b/crates/sip-core/src/watcher_info.rs
index a26e91f..fb10ca8 100644
--- a/crates/sip-core/src/watcher_info.rs
+++ b/crates/sip-core/src/watcher_info.rs
@@ -882,6 +882,17 @@ fn extract_attribute(
     tag_name: &str,
     attr_name: &str,
 ) -> Result<Option<String>, WatcherinfoError> {
+    raw_attribute(xml, tag_name, attr_name)?
+        .map(xml_unescape)
+        .transpose()
+}
+
+/// Finds an attribute's value as it is written.
+pub(crate) fn raw_attribute<'a>(
+    xml: &'a str,
+    tag_name: &str,
+    attr_name: &str,
+) -> Result<Option<&'a str>, WatcherinfoError> {
     let tag_start = match xml.find(tag_name) {
         Some(start) => start,
         None => return Ok(None),
@@ -963,7 +974,7 @@ fn extract_attribute(
             .find(quote)
             .ok_or_else(|| WatcherinfoError::XmlParseError("unterminated attribute".to_string()))?;
         let value = &rest[..end_rel];
-        return xml_unescape(value).map(Some);
+        return Ok(Some(value));
     }
 
     Ok(None)
-- 
2.43.0


From 3cb5721b4923050adb04818985d4fc2d13924846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:23 +0000
Subject: [PATCH 105/124] fix: read numeric character references in presence
 documents

---
 crates/sip-core/src/presence.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/presence.rs b/crates/sip-core/src/presence.rs
index 4a922df..b710cda 100644
--- a/crates/sip-core/src/presence.rs
+++ b/crates/sip-core/src/presence.rs
@@ -410,6 +410,16 @@ fn xml_escape(s: &str) -> String {
         .collect()
 }
 
+/// Returns the character of a numeric reference ("#60" or "#x3C").
+fn char_reference(entity: &str) -> Option<char> {
+    let number = entity.strip_prefix('#')?;
+    let code = match number.strip_prefix(['x', 'X']) {
+        Some(hex) => u32::from_str_radix(hex, 16),
+        None => number.parse(),
+    };
+    char::from_u32(code.ok()?)
+}
+
 fn xml_unescape(s: &str) -> String {
     let mut out = String::new();
     let mut i = 0;
@@ -425,7 +435,10 @@ fn xml_unescape(s: &str) -> String {
                 "amp" => out.push('&'),
                 "quot" => out.push('"'),
                 "apos" => out.push('\''),
-                _ => out.push_str(&s[amp..=end]),
+                _ => match char_reference(entity) {
+                    Some(c) => out.push(c),
+                    None => out.push_str(&s[amp..=end]),
+                },
             }
             i = end + 1;
         } else {
-- 
2.43.0


From 3a39f9b1ad9d1259e1be6be4383962e676b124b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:29 +0000
Subject: [PATCH 106/124] fix: read character references in a presence status

---
 crates/sip-core/src/presence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/presence.rs b/crates/sip-core/src/presence.rs
index b710cda..4727d07 100644
--- a/crates/sip-core/src/presence.rs
+++ b/crates/sip-core/src/presence.rs
@@ -507,7 +507,7 @@ fn parse_tuple(xml: &str) -> Result<Tuple, PresenceError> {
     // Extract status
     if let Some((_, status_str, _)) = find_element(xml, "basic") {
         tuple.status = Some(
-            BasicStatus::parse(status_str.trim())
+            BasicStatus::parse(xml_unescape(status_str.trim()).trim())
                 .ok_or_else(|| PresenceError::ParseError("invalid basic status".to_string()))?,
         );
     }
-- 
2.43.0


From ad1ad432f84b15f650559ff7a03bce40e67ddea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:35 +0000
Subject: [PATCH 107/124] fix: write tabs in attribute values as character
 references

---
 crates/sip-core/src/watcher_info.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/sip-core/src/watcher_info.rs b/crates/sip-core/src/watcher_info.rs
index fb10ca8..88e4f93 100644
--- a/crates/sip-core/src/watcher_info.rs
+++ b/crates/sip-core/src/watcher_info.rs
@@ -631,10 +631,9 @@ fn xml_escape(s: &str) -> String {
             '&' => "&amp;".to_string(),
             '"' => "&quot;".to_string(),
             '\'' => "&apos;".to_string(),
-            // Filter out other control characters for security
-            c if c.is_control() && c != '\t' && c != '\n' && c != '\r' => {
-                format!("&#x{:X};", c as u32)
-            }
+            // Control characters are written as references: a reader turns a
+            // tab within an attribute into a blank
+            c if c.is_control() => format!("&#x{:X};", c as u32),
             _ => c.to_string(),
         })
         .collect()
-- 
2.43.0


From cd1194721b38b60ad237c65cc6e3c24c34ee8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:48 +0000
Subject: [PATCH 108/124] fix: refuse security mechanism and parameter names
 that are no tokens

---
 crates/sip-core/src/security.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 33c1363..88310c0 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -42,6 +42,12 @@ impl std::error::Error for SecurityError {}
 
 // Validation functions
 
+/// Returns true if the text is an RFC 3261 token.
+fn is_token(text: &str) -> bool {
+    text.chars()
+        .all(|c| c.is_ascii_alphanumeric() || "-.!%*_+`'~".contains(c))
+}
+
 fn validate_mechanism_name(name: &str) -> Result<(), SecurityError> {
     if name.is_empty() {
         return Err(SecurityError::ValidationError(
@@ -56,7 +62,7 @@ fn validate_mechanism_name(name: &str) -> Result<(), SecurityError> {
         )));
     }
 
-    if name.chars().any(|c| c.is_control() || c.is_whitespace()) {
+    if !is_token(name) {
         return Err(SecurityError::ValidationError(
             "Mechanism name contains invalid characters".to_string(),
         ));
@@ -79,10 +85,7 @@ fn validate_param_name(name: &str) -> Result<(), SecurityError> {
         )));
     }
 
-    if name
-        .chars()
-        .any(|c| c.is_control() || c.is_whitespace() || c == ';' || c == '=' || c == ',')
-    {
+    if !is_token(name) {
         return Err(SecurityError::ValidationError(
             "Parameter name contains invalid characters".to_string(),
         ));
-- 
2.43.0


From 032f50308e8acea3dfbd9740b72c4453fbd0f391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:53 +0000
Subject: [PATCH 109/124] fix: refuse security parameter values that would be
 read as several

---
 crates/sip-core/src/security.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 88310c0..4fee4e0 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -108,9 +108,36 @@ fn validate_param_value(value: &str) -> Result<(), SecurityError> {
         ));
     }
 
+    if !is_single_value(value) {
+        return Err(SecurityError::ValidationError(
+            "Parameter value must be quoted to contain separators".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
+/// Returns true if the value, as written in the header, is read back whole:
+/// separators only inside closed quotes and no blanks around it.
+fn is_single_value(value: &str) -> bool {
+    let mut in_quotes = false;
+    let mut escape = false;
+
+    for ch in value.chars() {
+        if escape {
+            escape = false;
+        } else if in_quotes && ch == '\\' {
+            escape = true;
+        } else if ch == '"' {
+            in_quotes = !in_quotes;
+        } else if !in_quotes && (ch == ';' || ch == ',') {
+            return false;
+        }
+    }
+
+    !in_quotes && value.trim() == value
+}
+
 fn validate_q_value(q: f32) -> Result<(), SecurityError> {
     if !q.is_finite() {
         return Err(SecurityError::ValidationError(
-- 
2.43.0


From 5cefc9badb7cfa8fd223cf52bd8ded0767950464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:58 +0000
Subject: [PATCH 110/124] fix: replace a security parameter whatever the case
 of its name

---
 crates/sip-core/src/security.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 4fee4e0..789be17 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -234,19 +234,27 @@ impl SecurityEntry {
 
     /// Sets a parameter value with validation.
     pub fn set_param(&mut self, name: &str, value: Option<&str>) -> Result<(), SecurityError> {
-        if self.params.len() >= MAX_PARAMS_PER_ENTRY {
-            return Err(SecurityError::TooManyItems {
-                field: "parameters",
-                max: MAX_PARAMS_PER_ENTRY,
-            });
-        }
-
         validate_param_name(name)?;
 
         if let Some(v) = value {
             validate_param_value(v)?;
         }
 
+        // Parameter names are compared without regard to case
+        let existing = self
+            .params
+            .keys()
+            .find(|key| key.eq_ignore_ascii_case(name))
+            .cloned();
+        if let Some(key) = existing {
+            self.params.remove(&key);
+        } else if self.params.len() >= MAX_PARAMS_PER_ENTRY {
+            return Err(SecurityError::TooManyItems {
+                field: "parameters",
+                max: MAX_PARAMS_PER_ENTRY,
+            });
+        }
+
         self.params
             .insert(SmolStr::new(name), value.map(SmolStr::new));
         Ok(())
-- 
2.43.0


From 87d508cef770aee5711f57d70f7aa936d6fb8ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:03 +0000
Subject: [PATCH 111/124] fix: compare other security mechanisms without regard
 to case

---
 crates/sip-core/src/security.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 789be17..67a2699 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -185,12 +185,13 @@ impl SecurityMechanism {
     pub fn parse(s: &str) -> Result<Self, SecurityError> {
         validate_mechanism_name(s)?;
 
-        Ok(match s.to_lowercase().as_str() {
+        let name = s.to_ascii_lowercase();
+        Ok(match name.as_str() {
             "tls" => SecurityMechanism::Tls,
             "digest" => SecurityMechanism::Digest,
             "ipsec-ike" => SecurityMechanism::IpsecIke,
             "ipsec-man" => SecurityMechanism::IpsecMan,
-            _ => SecurityMechanism::Other(SmolStr::new(s)),
+            other => SecurityMechanism::Other(SmolStr::new(other)),
         })
     }
 }
-- 
2.43.0


From 7355179748280330c8390a84711e69421913e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:55 +0000
Subject: [PATCH 112/124] fix: keep repeat lines with their time line when
 writing SDP

---
 crates/sip-core/src/sdp.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index fcfbd97..352783d 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -528,6 +528,8 @@ pub struct Timing {
 /// Repeat time line (r=) components.
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub struct RepeatTime {
+    /// Index of the t= line this line belongs to
+    timing: usize,
     repeat_interval: String,
     active_duration: String,
     offsets: Vec<String>,
@@ -1471,7 +1473,9 @@ impl SdpSession {
                     // Check for following r= lines
                     while idx + 1 < lines.len() && lines[idx + 1].starts_with("r=") {
                         idx += 1;
-                        self.repeat_times.push(parse_repeat_time(lines[idx])?);
+                        let timing = self.timing.len() - 1;
+                        self.repeat_times
+                            .push(parse_repeat_time(lines[idx], timing)?);
                         // Security: Check repeat times collection size
                         validate_collection_size(
                             &self.repeat_times,
@@ -2016,11 +2020,11 @@ impl fmt::Display for SdpSession {
         for bw in &self.bandwidth {
             writeln!(f, "{}", bw)?;
         }
-        for timing in &self.timing {
+        for (idx, timing) in self.timing.iter().enumerate() {
             writeln!(f, "{}", timing)?;
-        }
-        for repeat in &self.repeat_times {
-            writeln!(f, "{}", repeat)?;
+            for repeat in self.repeat_times.iter().filter(|r| r.timing == idx) {
+                writeln!(f, "{}", repeat)?;
+            }
         }
         if !self.time_zones.is_empty() {
             write!(f, "z=")?;
@@ -2537,7 +2541,7 @@ fn parse_timing(line: &str) -> Result<Timing, SdpError> {
     })
 }
 
-fn parse_repeat_time(line: &str) -> Result<RepeatTime, SdpError> {
+fn parse_repeat_time(line: &str, timing: usize) -> Result<RepeatTime, SdpError> {
     let parts: Vec<&str> = line[2..].split_whitespace().collect();
     if parts.len() < 3 {
         return Err(SdpError::InvalidFormat("r="));
@@ -2556,6 +2560,7 @@ fn parse_repeat_time(line: &str) -> Result<RepeatTime, SdpError> {
     }
 
     Ok(RepeatTime {
+        timing,
         repeat_interval: parts[0].to_string(),
         active_duration: parts[1].to_string(),
         offsets,
-- 
2.43.0


From 9b3510cab27de2c8ac7cc0860cce910c49c90940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 113/124] fix: bound time zones over all z= lines

---
 crates/sip-core/src/sdp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index 352783d..d079052 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -1488,7 +1488,8 @@ impl SdpSession {
                 'z' => {
                     let zones = parse_time_zones(line)?;
                     self.time_zones.extend(zones);
-                    // Security: Check time zones collection size (already checked in parse_time_zones)
+                    // Security: Check time zones collection size over all z= lines
+                    validate_collection_size(&self.time_zones, "z= time-zones", MAX_TIME_ZONES)?;
                 }
                 'k' => self.encryption_key = Some(parse_encryption_key(line)?),
                 'a' => {
-- 
2.43.0


From 9de5a278f4d83eade40645ef49a3167e68c43dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:08 +0000
Subject: [PATCH 114/124] fix: refuse a media port with more than one count

---
 crates/sip-core/src/sdp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index d079052..0a0cc4e 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -2650,7 +2650,7 @@ fn parse_media_line(line: &str) -> Result<MediaLineParsed, SdpError> {
     let media = parts[0].to_string();
 
     // Parse port and optional port count
-    let port_parts: Vec<&str> = parts[1].split('/').collect();
+    let port_parts: Vec<&str> = parts[1].splitn(2, '/').collect();
     let port = port_parts[0]
         .parse()
         .map_err(|_| SdpError::InvalidFormat("m="))?;
-- 
2.43.0


From c2b2b72e223fca45c6f550f6272aafe32aa3a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:15 +0000
Subject: [PATCH 115/124] fix: judge preconditions by all current statuses

---
 crates/sip-core/src/sdp.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index 0a0cc4e..32f59d6 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -1864,16 +1864,20 @@ impl SdpSession {
                 continue;
             }
 
-            // Find matching current status
-            let matching_curr = current.iter().find(|curr| {
-                curr.precondition_type == des.precondition_type
-                    && curr.status_type == des.status_type
-            });
-
-            match matching_curr {
-                Some(curr) => {
+            // All matching current statuses; each line may report one direction
+            let reserved = current
+                .iter()
+                .filter(|curr| {
+                    curr.precondition_type == des.precondition_type
+                        && curr.status_type == des.status_type
+                })
+                .map(|curr| curr.direction)
+                .reduce(combine_directions);
+
+            match reserved {
+                Some(direction) => {
                     // Check if current direction meets desired direction
-                    if !direction_meets_requirement(curr.direction, des.direction) {
+                    if !direction_meets_requirement(direction, des.direction) {
                         return false;
                     }
                 }
@@ -1975,6 +1979,18 @@ impl SdpSession {
     }
 }
 
+/// The directions covered by two current statuses together.
+fn combine_directions(
+    a: PreconditionDirection,
+    b: PreconditionDirection,
+) -> PreconditionDirection {
+    match (a, b) {
+        (PreconditionDirection::None, other) | (other, PreconditionDirection::None) => other,
+        (a, b) if a == b => a,
+        _ => PreconditionDirection::SendRecv,
+    }
+}
+
 /// Checks if a current direction meets the desired direction requirement.
 fn direction_meets_requirement(
     current: PreconditionDirection,
-- 
2.43.0


From 4db66ba0e5c12c5dca68e68522b1ac5589d17539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 116/124] fix: do not repeat the offerer's RTCP address or
 capabilities in an answer

---
 crates/sip-core/src/sdp_offer_answer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 2f1d377..c13c31e 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -636,8 +636,8 @@ impl OfferAnswerEngine {
             encryption_key: None,
             attributes,
             mid: offer_media.mid().map(String::from),
-            rtcp: offer_media.rtcp().cloned(),
-            capability_set: offer_media.capability_set().cloned(),
+            rtcp: None,           // The offer's is the offerer's own port and address
+            capability_set: None, // The offer's lists what the offerer can do
         })
     }
 
@@ -656,7 +656,7 @@ impl OfferAnswerEngine {
             attributes: Vec::new(),
             mid: offer_media.mid().map(String::from),
             rtcp: None,
-            capability_set: offer_media.capability_set().cloned(),
+            capability_set: None,
         }
     }
 
-- 
2.43.0


From 14e42a3571ee160c8d1a1e47dce4cd362ac24607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 117/124] fix: refuse Via parameter values that would read as
 another parameter

---
 crates/sip-core/src/security.rs |  2 +-
 crates/sip-core/src/via.rs      | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 67a2699..bc3a930 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -119,7 +119,7 @@ fn validate_param_value(value: &str) -> Result<(), SecurityError> {
 
 /// Returns true if the value, as written in the header, is read back whole:
 /// separators only inside closed quotes and no blanks around it.
-fn is_single_value(value: &str) -> bool {
+pub(crate) fn is_single_value(value: &str) -> bool {
     let mut in_quotes = false;
     let mut escape = false;
 
diff --git a/crates/sip-core/src/via.rs b/crates/sip-core/src/via.rs
index be9baa2..ae04a3a 100644
--- a/crates/sip-core/src/via.rs
+++ b/crates/sip-core/src/via.rs
@@ -29,6 +29,9 @@ use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
 
+use crate::quoted::split_params;
+use crate::security::is_single_value;
+
 // Security: Input size limits
 const MAX_TRANSPORT_LENGTH: usize = 32;
 const MAX_SENT_BY_LENGTH: usize = 256;
@@ -229,6 +232,13 @@ fn validate_param_value(value: &str) -> Result<(), ViaError> {
         ));
     }
 
+    // A separator outside quotes would start another parameter or header
+    if !is_single_value(value) {
+        return Err(ViaError::InvalidParameter(
+            "parameter value must be quoted to contain separators".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -359,7 +369,7 @@ impl ViaHeader {
         }
 
         // Split into value and parameters
-        let mut parts = trimmed.split(';');
+        let mut parts = split_params(trimmed).into_iter();
         let value_part = parts
             .next()
             .ok_or_else(|| ViaError::InvalidFormat("empty Via header".to_string()))?
-- 
2.43.0


From e3af11e6aa079948e2b56f185cf93fe11d8d7b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:36 +0000
Subject: [PATCH 118/124] fix: keep escaped quotes at the end of a credential
 value

---
 crates/sip-parse/src/header_values.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 46836ef..523314f 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -578,7 +578,11 @@ fn parse_auth_like_header(value: &SmolStr) -> Option<AuthorizationHeader> {
         if params.contains_key(&key) {
             return None;
         }
-        let cleaned = val.trim().trim_matches('"');
+        let val = val.trim();
+        let cleaned = match val.strip_prefix('"') {
+            Some(rest) => rest.strip_suffix('"')?,
+            None => val,
+        };
         params.insert(key, SmolStr::new(cleaned));
     }
     // Use from_raw() which validates scheme, params count, and param values
-- 
2.43.0


From 1bc3f3697d63df1848ec62a6fbad07ae8f840e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 119/124] fix: deliver the messages in front of a framing error

---
 crates/sip-transport/src/lib.rs  | 33 +++++++++++++++++++++++++++++++-
 crates/sip-transport/src/pool.rs | 20 +++++++++++++++++++
 2 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 238a940..8d16062 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1635,6 +1635,17 @@ async fn spawn_tls_session(
                                 break;
                             }
                         }
+                        // What follows them is judged apart: they are
+                        // delivered however much of it came along.
+                        if let Err(e) = drain_sip_frames(&mut buf) {
+                            warn!(
+                                peer = %peer,
+                                error = %e,
+                                "SIP framing error, closing tls connection"
+                            );
+                            transport_metrics().on_error(TransportLabel::Tls, StageLabel::FramingError);
+                            break;
+                        }
                     }
                     Err(e) => {
                         warn!(
@@ -1848,6 +1859,17 @@ async fn spawn_stream_session<S>(
                                 break;
                             }
                         }
+                        // What follows them is judged apart: they are
+                        // delivered however much of it came along.
+                        if let Err(e) = drain_sip_frames(&mut buf) {
+                            warn!(
+                                peer = %peer,
+                                error = %e,
+                                "SIP framing error, closing connection"
+                            );
+                            transport_metrics().on_error(transport.into(), StageLabel::FramingError);
+                            break;
+                        }
                     }
                     Err(e) => {
                         warn!(
@@ -1889,8 +1911,17 @@ async fn spawn_stream_session<S>(
 ///
 /// Enforces MAX_HEADER_SIZE and MAX_BODY_SIZE limits to prevent memory exhaustion attacks.
 /// Returns an error if limits are exceeded, causing the connection to be closed.
+/// Complete messages in front of what is no message are returned; the error is
+/// that of the next call.
 pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
     let mut frames = Vec::new();
+    match split_sip_frames(buf, &mut frames) {
+        Err(e) if frames.is_empty() => Err(e),
+        _ => Ok(frames),
+    }
+}
+
+fn split_sip_frames(buf: &mut BytesMut, frames: &mut Vec<Bytes>) -> Result<()> {
     loop {
         // Handle CRLF keep-alive pings (RFC 5626)
         consume_leading_crlf(buf);
@@ -1960,7 +1991,7 @@ pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
 
         frames.push(buf.split_to(needed).freeze());
     }
-    Ok(frames)
+    Ok(())
 }
 
 fn consume_leading_crlf(buf: &mut BytesMut) {
diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index ccc9ab2..302baea 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -650,6 +650,16 @@ impl ConnectionPool {
                                             break;
                                         }
                                     }
+                                    // What follows them is judged apart: they are
+                                    // delivered however much of it came along.
+                                    if let Err(e) = drain_sip_frames(&mut buf) {
+                                        warn!(
+                                            peer = %peer,
+                                            error = %e,
+                                            "tcp client framing error, closing connection"
+                                        );
+                                        break;
+                                    }
                                 }
                                 Err(e) => {
                                     warn!(
@@ -1238,6 +1248,16 @@ impl TlsPool {
                                         return;
                                     }
                                 }
+                                // What follows them is judged apart: they are
+                                // delivered however much of it came along.
+                                if let Err(e) = drain_sip_frames(&mut buf) {
+                                    warn!(
+                                        peer = %peer,
+                                        error = %e,
+                                        "tls client framing error, closing connection"
+                                    );
+                                    break;
+                                }
                             }
                             Err(e) => {
                                 warn!(
-- 
2.43.0


From e501e51ec5594600dc231c073966a61cd7258eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 120/124] fix: take no Content-Length from the start line or a
 continued line

---
 crates/sip-transport/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 8d16062..1a1c4d6 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -2014,7 +2014,12 @@ fn consume_leading_crlf(buf: &mut BytesMut) {
 
 fn parse_content_length(headers: &[u8]) -> Result<Option<usize>> {
     let mut found: Option<usize> = None;
-    for line in headers.split(|b| *b == b'\n') {
+    // The start line is no header, and a line that begins with white space
+    // continues the one before it (RFC 3261 §7.3.1).
+    for line in headers.split(|b| *b == b'\n').skip(1) {
+        if line.starts_with(b" ") || line.starts_with(b"\t") {
+            continue;
+        }
         let line = if line.ends_with(b"\r") {
             &line[..line.len().saturating_sub(1)]
         } else {
-- 
2.43.0


From 1d8e36f57e2f75203e198e035a5586cdb59ab2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 121/124] fix: drop a pooled connection when its reading side
 ends

---
 crates/sip-transport/src/pool.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 302baea..d1fc98a 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -557,9 +557,14 @@ impl ConnectionPool {
         // busy connections never ping spuriously.
         let writer_tx = tx.clone();
         let keepalive = self.keepalive_interval;
+        // Fires when the read side ends: nothing can arrive on the
+        // connection any more, so it is given up as a whole.
+        let (read_end_tx, read_end_rx) = tokio::sync::oneshot::channel::<()>();
         let writer_handle = tokio::spawn(async move {
-            run_stream_writer_with_keepalive(&mut writer, &mut rx, keepalive, hep_local, addr)
-                .await;
+            tokio::select! {
+                _ = run_stream_writer_with_keepalive(&mut writer, &mut rx, keepalive, hep_local, addr) => {}
+                Ok(()) = read_end_rx => {}
+            }
         });
         entry.task_handles.push(writer_handle.abort_handle());
         // Supervise the writer: whenever it exits (graceful close,
@@ -681,6 +686,7 @@ impl ConnectionPool {
                         }
                     }
                 }
+                let _ = read_end_tx.send(());
             });
             entry.task_handles.push(reader_handle.abort_handle());
         } else {
-- 
2.43.0


From 73be38c9085fc1b932f7db20e9e59169495e29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 122/124] fix: keep one pooled connection when several sends
 open it at once

---
 crates/sip-transport/src/pool.rs | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index d1fc98a..020125b 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -8,7 +8,7 @@ use std::time::{Duration, Instant};
 
 use anyhow::{anyhow, Result};
 use bytes::{Bytes, BytesMut};
-use dashmap::DashMap;
+use dashmap::{mapref::entry::Entry, DashMap};
 use tokio::{
     io::{AsyncReadExt, AsyncWriteExt},
     net::TcpStream,
@@ -290,7 +290,13 @@ fn spawn_writer_supervisor<K, F>(
                 event_reason = Some(format!("writer cancelled: {e}"));
             }
         }
-        map.remove(&key);
+        // Not the entry of a connection that has taken this one's place.
+        map.remove_if(&key, |_, entry| {
+            entry
+                .task_handles
+                .first()
+                .is_none_or(|writer| writer.is_finished())
+        });
 
         // Emit a ConnectionEvent so observers (metrics, reconnect
         // policies) see the death without waiting for the next send
@@ -694,7 +700,24 @@ impl ConnectionPool {
             debug!(peer = %addr, "inbound_tx is None, skipping TCP client reader task");
         }
 
-        self.tcp.insert(addr, entry);
+        // Another send may have connected meanwhile: its connection stays, and
+        // with it what is queued there.
+        let other = match self.tcp.entry(addr) {
+            Entry::Occupied(other) if !other.get().sender.is_closed() => {
+                Some(other.get().sender.clone())
+            }
+            slot => {
+                slot.insert(entry);
+                None
+            }
+        };
+        if let Some(other) = other {
+            debug!(peer = %addr, "connection was opened meanwhile, using it");
+            return other
+                .send(payload)
+                .await
+                .map_err(|_| anyhow!("connection writer closed"));
+        }
         debug!(peer = %addr, "inserted connection into pool");
 
         let result = tx
-- 
2.43.0


From 6a202ace20abbd9b5147f2cf0ee5f85362b7cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 123/124] fix: report pooled connections that are given up as
 closed

---
 crates/sip-transport/src/pool.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 020125b..45702a7 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -287,7 +287,6 @@ fn spawn_writer_supervisor<K, F>(
                     error = %e,
                     "pool writer task cancelled, removing entry"
                 );
-                event_reason = Some(format!("writer cancelled: {e}"));
             }
         }
         // Not the entry of a connection that has taken this one's place.
-- 
2.43.0


From 2935215bd5405d826b0706ca7d6a0ed9012c701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:29 +0000
Subject: [PATCH 124/124] fix: do not lock the connection table while a slow
 peer is waited for

---
 crates/sip-transport/src/pool.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index 45702a7..d555d2d 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -516,17 +516,21 @@ impl ConnectionPool {
         debug!(peer = %addr, "send_tcp called");
 
         // Try to use existing connection
-        if let Some(mut entry) = self.tcp.get_mut(&addr) {
-            debug!(peer = %addr, "found existing TCP connection, reusing");
+        // (The table must not stay locked while a slow peer is waited for.)
+        let existing = self.tcp.get_mut(&addr).map(|mut entry| {
             entry.touch(); // Update last activity time
-            if entry.sender.send(payload.clone()).await.is_ok() {
+            entry.sender.clone()
+        });
+        if let Some(sender) = existing {
+            debug!(peer = %addr, "found existing TCP connection, reusing");
+            if sender.send(payload.clone()).await.is_ok() {
                 debug!(peer = %addr, "reused existing TCP connection successfully");
                 return Ok(());
             }
             // Connection failed, remove it
             debug!(peer = %addr, "existing TCP connection failed, removing");
-            drop(entry);
-            self.tcp.remove(&addr);
+            self.tcp
+                .remove_if(&addr, |_, entry| entry.sender.same_channel(&sender));
         }
 
         debug!(peer = %addr, "no existing connection found, creating new TCP connection");
-- 
2.43.0

