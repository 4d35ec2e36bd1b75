From 8f84e7a0ff876558995b1d5f545693c44e8fdd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:42 +0000
Subject: [PATCH 1/4] fix: MemoryStore waits for its lock instead of failing
 under contention

try_lock made any store operation fail spuriously while another thread was
inside the store, so a poll, fetch or submission could be refused (and a
verified outcome dropped) just because two requests overlapped.
---
 src/verifier/session.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index a069450..af4e0b2 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -46,13 +46,13 @@ pub struct MemoryStore {
 #[async_trait]
 impl SessionStore for MemoryStore {
     async fn initiate(&self, session: Session) -> Result<()> {
-        self.store.try_lock()?.insert(session.uuid, session);
+        self.store.lock().await.insert(session.uuid, session);
 
         Ok(())
     }
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
-        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
             session.status = status;
             return Ok(());
         }
@@ -60,7 +60,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
-        if let Some(session) = self.store.try_lock()?.get(&uuid) {
+        if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
         }
 
@@ -68,7 +68,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn remove_session(&self, uuid: Uuid) -> Result<()> {
-        if self.store.try_lock()?.remove(&uuid).is_some() {
+        if self.store.lock().await.remove(&uuid).is_some() {
             return Ok(());
         }
 
-- 
2.43.0


From ac7038f95cbd5217b7b6aa17ecb3fcbf3512a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:45 +0000
Subject: [PATCH 2/4] fix: a late request fetch no longer overwrites a
 completed session

retrieve_authorization_request read the session and then set SentRequest
unconditionally, so a duplicate or delayed fetch racing with a submission
could replace a recorded outcome. The status is now only ever advanced, in
one atomic store operation.
---
 src/verifier/mod.rs     |  3 ++-
 src/verifier/session.rs | 22 ++++++++++++++++++++++
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/verifier/mod.rs b/src/verifier/mod.rs
index 3e5ac29..0123b70 100644
--- a/src/verifier/mod.rs
+++ b/src/verifier/mod.rs
@@ -83,8 +83,9 @@ impl Verifier {
             .await
             .context("failed to retrieve session")?;
         if session.status < Status::SentRequest {
+            // The session may have moved on since it was read.
             self.session_store
-                .update_status(reference, Status::SentRequest)
+                .advance_status(reference, Status::SentRequest)
                 .await
                 .context("failed to update session status")?;
         }
diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index af4e0b2..582d204 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -26,6 +26,18 @@ pub trait SessionStore: Debug {
     /// Update the status of a session.
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()>;
 
+    /// Move a session forward to `status`, leaving it unchanged if it has already got that far.
+    ///
+    /// The default implementation reads the session and then writes it. Stores that are used by
+    /// concurrent requests should override it with a single atomic operation, so that a slow
+    /// request cannot overwrite the progress that a faster one has made in the meantime.
+    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<()> {
+        if self.get_session(uuid).await?.status < status {
+            self.update_status(uuid, status).await?;
+        }
+        Ok(())
+    }
+
     /// Get a session from the store.
     async fn get_session(&self, uuid: Uuid) -> Result<Session>;
 
@@ -59,6 +71,16 @@ impl SessionStore for MemoryStore {
         bail!("session not found")
     }
 
+    async fn advance_status(&self, uuid: Uuid, status: Status) -> Result<()> {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
+            if session.status < status {
+                session.status = status;
+            }
+            return Ok(());
+        }
+        bail!("session not found")
+    }
+
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
         if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
-- 
2.43.0


From b61eb31df78989d802f63925997caf2634f4d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:47 +0000
Subject: [PATCH 3/4] fix: report a signer failure instead of handing out an
 unsigned request

make_jwt used RequestSigner::sign, which cannot fail, so the error of a
signer that overrides try_sign was lost and a request with a bogus
signature was stored and handed out.
---
 src/verifier/client.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index f97b3f6..8ed154d 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -1,6 +1,6 @@
 use std::{fmt::Debug, sync::Arc};
 
-use anyhow::{bail, Context as _, Result};
+use anyhow::{anyhow, bail, Context as _, Result};
 use async_trait::async_trait;
 use base64::prelude::*;
 use serde_json::{json, Value as Json};
@@ -247,7 +247,7 @@ impl Client for X509HashClient {
     }
 }
 
-async fn make_jwt<S: RequestSigner + ?Sized>(
+async fn make_jwt<S: RequestSigner + Sync + ?Sized>(
     header: Json,
     body: &AuthorizationRequestObject,
     signer: &S,
@@ -256,7 +256,10 @@ async fn make_jwt<S: RequestSigner + ?Sized>(
         serde_json::to_vec(&header).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let body_b64 = serde_json::to_vec(body).map(|b| BASE64_URL_SAFE_NO_PAD.encode(b))?;
     let payload = [header_b64.as_bytes(), b".", body_b64.as_bytes()].concat();
-    let signature = signer.sign(&payload).await;
+    let signature = signer
+        .try_sign(&payload)
+        .await
+        .map_err(|e| anyhow!("failed to sign the request object: {e}"))?;
     let signature_b64 = BASE64_URL_SAFE_NO_PAD.encode(signature);
     Ok(format!("{header_b64}.{body_b64}.{signature_b64}"))
 }
-- 
2.43.0


From db0e661a498e4c8ebb939450e82905f3dbb4185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:22 +0000
Subject: [PATCH 4/4] fix: refuse an empty certificate chain instead of
 panicking

---
 src/verifier/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index 8ed154d..4ffbe21 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -88,7 +88,7 @@ impl X509SanDnsClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c.first().context("x509 certificate chain is empty")?;
         let id = if let Some(san) = leaf
             .tbs_certificate
             .filter::<SubjectAltName>()
@@ -138,7 +138,7 @@ impl X509HashClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c.first().context("x509 certificate chain is empty")?;
         let leaf_der = leaf
             .to_der()
             .context("failed to DER-encode leaf certificate")?;
-- 
2.43.0

