From aa18dc601edc40f5eb517f420c6335ef9a57f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 1/7] fix: compare the whole packet size with the maximum
 before narrowing it to 16 bits

---
 radius/src/core/packet.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index a42e806..b3e4e7c 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -288,15 +288,15 @@ impl Packet {
             Err(e) => return Err(e),
         };
 
-        let size = RADIUS_PACKET_HEADER_LENGTH as u16 + encoded_avp.len() as u16;
-        if size as usize > MAX_PACKET_LENGTH {
+        let size = RADIUS_PACKET_HEADER_LENGTH + encoded_avp.len();
+        if size > MAX_PACKET_LENGTH {
             return Err("packet is too large".to_owned());
         }
 
         let mut bs: Vec<u8> = Vec::new();
         bs.push(self.code as u8);
         bs.push(self.identifier);
-        bs.extend(u16::to_be_bytes(size).to_vec());
+        bs.extend(u16::to_be_bytes(size as u16).to_vec());
         bs.extend(self.authenticator.to_vec());
         bs.extend(match self.attributes.encode() {
             Ok(encoded) => encoded,
-- 
2.43.0


From e430648cf4170fdc2e80be52b17add6cb75abc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 2/7] fix: refuse tunnel passwords that are too long to be
 hidden

---
 radius/src/core/avp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index b0fac66..bf13da8 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -367,10 +367,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
@@ -460,10 +460,10 @@ impl AVP {
          *  https://tools.ietf.org/html/rfc2868#section-3.5
          */
 
-        if request_authenticator.len() > 240 {
+        if plain_text.len() > 240 {
             return Err(AVPError::InvalidAttributeLengthError(
                 "240 bytes".to_owned(),
-                request_authenticator.len(),
+                plain_text.len(),
             ));
         }
 
-- 
2.43.0


From 6a8ea6eb140d660f7130a119e1c504af7f3ff71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 3/7] fix: write the IPv4 prefix length in bits

---
 radius/src/core/avp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radius/src/core/avp.rs b/radius/src/core/avp.rs
index bf13da8..43d1b12 100644
--- a/radius/src/core/avp.rs
+++ b/radius/src/core/avp.rs
@@ -149,7 +149,7 @@ impl AVP {
 
         Ok(AVP {
             typ,
-            value: [vec![0x00, prefix_len as u8 & 0b00111111], prefix.to_vec()].concat::<u8>(),
+            value: [vec![0x00, (prefix_len * 8) as u8], prefix.to_vec()].concat::<u8>(),
         })
     }
 
-- 
2.43.0


From 953141be26b5e7472fd12ad085f47ba02a66687a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 4/7] fix: verify the response authenticator in the client

---
 radius/src/client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/radius/src/client.rs b/radius/src/client.rs
index d7c3097..04073dc 100644
--- a/radius/src/client.rs
+++ b/radius/src/client.rs
@@ -121,6 +121,12 @@ impl Client {
             None => self.request(&conn, &request_data, remote_addr).await,
         }?;
 
+        if !Packet::is_authentic_response(&response, &request_data, request_packet.get_secret()) {
+            return Err(ClientError::FailedDecodingRadiusResponseError(
+                "the response is not authentic for the request".to_owned(),
+            ));
+        }
+
         match Packet::decode(&response.to_vec(), request_packet.get_secret()) {
             Ok(response_packet) => Ok(response_packet),
             Err(e) => Err(ClientError::FailedDecodingRadiusResponseError(format!(
-- 
2.43.0


From 09de1006519260439bbfde8409579af9afdf8a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 5/7] fix: free the slot of a request whose handler panics

---
 radius/src/server.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/radius/src/server.rs b/radius/src/server.rs
index ac891d4..026439e 100644
--- a/radius/src/server.rs
+++ b/radius/src/server.rs
@@ -202,15 +202,19 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
             ip: remote_addr.to_string(),
             identifier: packet.get_identifier(),
         };
-        let key_for_remove = key.clone();
 
         {
             let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
             if undergoing_requests.contains(&key) {
                 return;
             }
-            undergoing_requests.insert(key);
+            undergoing_requests.insert(key.clone());
         }
+        // this removes the key when it goes out of scope, i.e. even if the handler panics
+        let _undergoing_request = UndergoingRequest {
+            lock: undergoing_requests_lock,
+            key,
+        };
 
         match request_handler
             .handle_radius_request(
@@ -224,9 +228,6 @@ impl<X, E: Debug, T: RequestHandler<X, E>, U: SecretProvider> Server<X, E, T, U>
                 println!("{e:?}");
             }
         }
-
-        let mut undergoing_requests = undergoing_requests_lock.write().unwrap();
-        undergoing_requests.remove(&key_for_remove);
     }
 }
 
@@ -264,3 +265,19 @@ struct RequestKey {
     ip: String,
     identifier: u8,
 }
+
+/// The mark of a request that is being handled; dropping this removes the mark.
+struct UndergoingRequest {
+    lock: Arc<RwLock<HashSet<RequestKey>>>,
+    key: RequestKey,
+}
+
+impl Drop for UndergoingRequest {
+    fn drop(&mut self) {
+        let mut undergoing_requests = match self.lock.write() {
+            Ok(undergoing_requests) => undergoing_requests,
+            Err(poisoned) => poisoned.into_inner(),
+        };
+        undergoing_requests.remove(&self.key);
+    }
+}
-- 
2.43.0


From c8d494c51531f7aa3e960e0f21d3acec78f83dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:23 +0000
Subject: [PATCH 6/7] fix: judge a packet not authentic when its digest cannot
 be computed

---
 radius/src/core/packet.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/radius/src/core/packet.rs b/radius/src/core/packet.rs
index b3e4e7c..d2df1c2 100644
--- a/radius/src/core/packet.rs
+++ b/radius/src/core/packet.rs
@@ -348,9 +348,12 @@ impl Packet {
             ]
             .concat(),
         );
-        let enc = hash_val.expect("Hash computation failed using openssl md5 digest algorithm");
-        enc.to_vec()
-            .eq(&response[4..RADIUS_PACKET_HEADER_LENGTH].to_vec())
+        match hash_val {
+            Ok(enc) => enc
+                .to_vec()
+                .eq(&response[4..RADIUS_PACKET_HEADER_LENGTH].to_vec()),
+            Err(_) => false,
+        }
     }
 
     #[cfg(feature = "md5")]
@@ -403,11 +406,12 @@ impl Packet {
                     ]
                     .concat(),
                 );
-                let enc =
-                    hash_val.expect("Hash computation failed using openssl md5 digest algorithm");
-
-                enc.to_vec()
-                    .eq(&request[4..RADIUS_PACKET_HEADER_LENGTH].to_vec())
+                match hash_val {
+                    Ok(enc) => enc
+                        .to_vec()
+                        .eq(&request[4..RADIUS_PACKET_HEADER_LENGTH].to_vec()),
+                    Err(_) => false,
+                }
             }
             _ => false,
         }
-- 
2.43.0


From 08e2860ab5327dbd29f1f9c76cb9929db9fb4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 7/7] fix: let the code generator write the function for
 vendor-specific attributes

---
 code-generator/src/main.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/code-generator/src/main.rs b/code-generator/src/main.rs
index 08adeca..864d329 100644
--- a/code-generator/src/main.rs
+++ b/code-generator/src/main.rs
@@ -182,6 +182,7 @@ use chrono::{{DateTime, Utc}};
 use crate::core::avp::{{AVP, AVPType, AVPError}};
 use crate::core::packet::Packet;
 use crate::core::tag::Tag;
+use crate::core::vsa::VSA;
 
 ",
         rfc_name = rfc_name,
@@ -371,7 +372,7 @@ fn generate_attribute_code(
             true => unimplemented!("tagged-short"),
             false => generate_short_attribute_code(w, &method_identifier, &type_identifier),
         },
-        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(),
+        RadiusAttributeValueType::VSA => generate_vsa_attribute_code(w, &type_identifier),
     }
 }
 
@@ -901,8 +902,15 @@ pub fn lookup_all_{method_identifier}(packet: &Packet) -> Result<Vec<u16>, AVPEr
     w.write_all(code.as_bytes()).unwrap();
 }
 
-fn generate_vsa_attribute_code() {
-    // NOP
+fn generate_vsa_attribute_code(w: &mut BufWriter<File>, type_identifier: &str) {
+    let code = format!(
+        "/// Add `vsa_attribute` vsa value to a packet.
+pub fn add_vsa_attribute(packet: &mut Packet, value: &dyn VSA) {{
+    packet.add(AVP::from_bytes({type_identifier}, &value.message()));
+}}
+"
+    );
+    w.write_all(code.as_bytes()).unwrap();
 }
 
 type DictParsed = (Vec<RadiusAttribute>, BTreeMap<String, Vec<RadiusValue>>);
-- 
2.43.0

