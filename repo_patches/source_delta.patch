From 7ecf65022d5c1e847dbb592576acf86cffa125dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 01/10] fix: answer lookup requests about the requested client

---
 src/rest_api/middleware/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 8ffac1c..4fcb816 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,7 +274,7 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, available))) => {
                         let body = LookupResponseBody::local(client, available);
 
@@ -295,7 +295,7 @@ where
                 }
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, server, available))) => {
                         let body = LookupResponseBody::remote(client, server, available);
 
@@ -317,7 +317,7 @@ where
 
                 // Return searching hint if neither local nor known remote record found
                 let hint = driver.router()
-                    .lookup_remote_client_hint(&request.0.public_key, request.0.request.client_type)
+                    .lookup_remote_client_hint(&request.0.request.public_key, request.0.request.client_type)
                     .await;
 
                 match hint {
-- 
2.43.0


From 4713c13e9c73f01bc8051da6a8840a5c81312e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 02/10] fix: reject too short connection tokens instead of
 panicking

---
 src/rest_api/types/connection_token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rest_api/types/connection_token.rs b/src/rest_api/types/connection_token.rs
index cab26fa..335a9d3 100644
--- a/src/rest_api/types/connection_token.rs
+++ b/src/rest_api/types/connection_token.rs
@@ -73,6 +73,10 @@ impl ConnectionToken {
     pub fn from_bytes(certificate: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
         let certificate = certificate.as_ref();
 
+        if certificate.len() < 8 {
+            return Err(CryptographyError::Decoding("Connection token is too short".into()));
+        }
+
         let mut auth_date = [0u8; 8];
 
         auth_date.copy_from_slice(&certificate[..8]);
-- 
2.43.0


From 33ab5d5ac3b11980490155c2e95b3adf2b75660c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 03/10] fix: reject malformed signature capsules instead of
 panicking

---
 src/crypto/asymmetric/public_key.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crypto/asymmetric/public_key.rs b/src/crypto/asymmetric/public_key.rs
index e8863ba..2b15196 100644
--- a/src/crypto/asymmetric/public_key.rs
+++ b/src/crypto/asymmetric/public_key.rs
@@ -53,11 +53,21 @@ impl PublicKey {
     pub fn decode_encapsulated_signature(&self, capsule: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, CryptographyError> {
         let capsule = capsule.as_ref();
 
+        if capsule.len() < 8 {
+            return Err(CryptographyError::Decoding("Signature capsule is too short".into()));
+        }
+
         let mut sign_len_bytes = [0_u8; 8];
 
         sign_len_bytes.copy_from_slice(&capsule[..8]);
 
-        let sign_len = u64::from_be_bytes(sign_len_bytes) as usize;
+        let sign_len = u64::from_be_bytes(sign_len_bytes);
+
+        if sign_len > (capsule.len() - 8) as u64 {
+            return Err(CryptographyError::Decoding("Signature capsule is too short".into()));
+        }
+
+        let sign_len = sign_len as usize;
 
         let signature = &capsule[8..sign_len + 8];
         let message = &capsule[sign_len + 8..];
-- 
2.43.0


From 79703ae00879ac61788ae5873bbe1ef99a25691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 04/10] fix: keep inbox channels within their own folders

---
 .../server/messages_inbox/stored_queue.rs      | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 283a7cd..1eedc2c 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -40,6 +40,16 @@ impl StoredQueueMessagesInbox {
             storage_folder
         })
     }
+
+    /// Get path to the folder with messages of the given channel.
+    ///
+    /// Channel name is a user-provided text so it's encoded
+    /// to always be a single component of the path.
+    fn channel_folder(&self, receiver: &PublicKey, channel: &str) -> PathBuf {
+        self.storage_folder
+            .join(receiver.to_base64())
+            .join(format!("channel-{}", base64_encode(channel)))
+    }
 }
 
 #[async_trait::async_trait]
@@ -61,9 +71,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Adding new message"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.channel_folder(&receiver, &channel);
 
         tokio::fs::create_dir_all(&folder).await?;
 
@@ -103,9 +111,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Polling messages"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.channel_folder(&receiver, &channel);
 
         if let Ok(index) = tokio::fs::read(folder.join("index")).await {
             assert!(index.len() % 8 == 0);
-- 
2.43.0


From 85ca9b8d41ef68f92d2f4449d1311db248bc385f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:19 +0000
Subject: [PATCH 05/10] fix: traverse every server only once

---
 src/drivers/server/traversal/bfs_recursion.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/drivers/server/traversal/bfs_recursion.rs b/src/drivers/server/traversal/bfs_recursion.rs
index 5acdf55..17f94d2 100755
--- a/src/drivers/server/traversal/bfs_recursion.rs
+++ b/src/drivers/server/traversal/bfs_recursion.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 
 use crate::http::client::HttpClient;
 use crate::rest_api::middleware::Client as ClientMiddleware;
@@ -21,7 +21,15 @@ impl Traversal for BfsRecursionTraversal {
 
             let mut remote_servers = VecDeque::from(remote_servers);
 
+            // Store traversed servers to prevent infinite loops
+            let mut used_servers = HashSet::new();
+
             while let Some(remote_server) = remote_servers.pop_front() {
+                // Skip server if it was already traversed
+                if !used_servers.insert(remote_server.clone()) {
+                    continue;
+                }
+
                 if let Ok(mut response) = client.get_servers(&remote_server.address).await {
                     for remote_server in response.drain(..) {
                         remote_servers.push_back(remote_server);
-- 
2.43.0


From c58eea537d4e5f0dbbcb3f375bd188e6732b1d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 06/10] fix: accept connect, disconnect and poll answers only
 from the connected server

---
 src/rest_api/middleware/client.rs | 33 ++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d04cf28..e26ee65 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -183,7 +183,12 @@ impl<T: HttpClient + Send + Sync> Client<T> {
 
         // Check response status
         match response.0 {
-            Response::Success { .. } => {
+            Response::Success { public_key, .. } => {
+                // Check that the response is sent by the requested server
+                if public_key != server_public {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
                 let client = ConnectedClient {
                     http_client: self.http_client.clone(),
                     driver: self.driver.clone(),
@@ -305,11 +310,20 @@ impl<T: HttpClient> ConnectedClient<T> {
         }
 
         // Check response status
-        if let Response::Error { status, reason, .. } = response.0 {
-            return Err(Error::RequestFailed {
-                status,
-                reason
-            });
+        match response.0 {
+            Response::Success { public_key, .. } => {
+                // Check that the response is sent by the connected server
+                if public_key != self.connected_server.public_key {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+            }
+
+            Response::Error { status, reason, .. } => {
+                return Err(Error::RequestFailed {
+                    status,
+                    reason
+                });
+            }
         }
 
         Ok(Client {
@@ -555,7 +569,12 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         // Check response status
         match response.0 {
-            Response::Success { response, .. } => {
+            Response::Success { public_key, response, .. } => {
+                // Check that the response is sent by the connected server
+                if public_key != self.connected_server.public_key {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
                 Ok((response.messages, response.remaining))
             }
 
-- 
2.43.0


From 788ce1e97c6641346fb0610a71d148835e3f5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 07/10] fix: never ask the same server twice during the client
 lookup

---
 src/rest_api/middleware/client.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index e26ee65..bcd0aa2 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -415,7 +415,7 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         while let Some(server_address) = queue.pop_front() {
             // Skip server if it was already used
-            if used_servers.contains(&server_address) {
+            if !used_servers.insert(server_address.clone()) {
                 continue;
             }
 
@@ -455,8 +455,6 @@ impl<T: HttpClient> ConnectedClient<T> {
                     }
                 }
             }
-
-            used_servers.insert(server_address);
         }
 
         Ok(None)
-- 
2.43.0


From e8fc94bff13958fc16e9c4dc7b2d50a94052eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 08/10] fix: do not wrap around too long port forwarding
 durations

---
 src/port_forward/upnp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index da7e05f..5581cd9 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -21,7 +21,7 @@ impl UpnpPortForwarder {
             address: None,
             port,
             protocol,
-            duration: duration.as_secs() as u32,
+            duration: u32::try_from(duration.as_secs()).unwrap_or(u32::MAX),
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
-- 
2.43.0


From b255ffa271286c166017058bacd35dbfd4a8a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 09/10] fix: close both protocols of the port when asked to

---
 src/port_forward/upnp.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index 5581cd9..ca0e241 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -54,6 +54,13 @@ impl PortForwarder for UpnpPortForwarder {
     }
 
     async fn close(&self, port: u16, protocol: Protocol) -> Result<bool, Self::Error> {
+        if protocol == Protocol::Both {
+            return Ok(
+                self.close(port, Protocol::TCP).await? &&
+                self.close(port, Protocol::UDP).await?
+            );
+        }
+
         let mut forwarded = self.forwarded.lock()
             .expect("Failed to get forwards table");
 
-- 
2.43.0


From 672df0c052bab6d0e22aee59d3a8daeca22fbcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 10/10] fix: discard all the forwarded ports even if some of
 them fail

---
 src/port_forward/upnp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index ca0e241..c8fad0a 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -80,8 +80,13 @@ impl PortForwarder for UpnpPortForwarder {
             .map(|(_, v)| v)
             .collect::<Vec<_>>();
 
-        delete_ports(configs)
-            .collect::<Result<_, _>>()?;
+        // Delete every port even if some of them have failed
+        let results = delete_ports(configs)
+            .collect::<Vec<_>>();
+
+        for result in results {
+            result?;
+        }
 
         Ok(true)
     }
-- 
2.43.0

