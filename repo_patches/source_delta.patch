From 103bf5e505da88a3447c37b471f594a429accb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 01/34] fix: reject compression pointers beyond the end of the
 message

---
 src/shared/buffer/buffer.rs | 5 +++++
 src/shared/dns/name.rs      | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/shared/buffer/buffer.rs b/src/shared/buffer/buffer.rs
index a78abb0..74ce02c 100644
--- a/src/shared/buffer/buffer.rs
+++ b/src/shared/buffer/buffer.rs
@@ -66,6 +66,11 @@ impl BitsBuf {
         self.buf
     }
 
+    /// Returns the length of the buffer (expressed in bits).
+    pub fn bits_len(&self) -> usize {
+        self.last
+    }
+
     /// Returns the current reading position in the buffer.
     /// Note that the reading position is expressed in bits.
     pub fn read_pos(&self) -> usize {
diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 90a0cdb..45a9bf0 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -55,8 +55,11 @@ impl Name {
                     }
                     let second_byte = check_end(buffer.read_u8())? as u16;
                     let jump_pos = (((len_byte as u16) << 8) | second_byte) & Self::POINTER_MASK;
-                    let jump_pos = jump_pos * 8;
-                    buffer.set_read_pos(jump_pos as usize);
+                    let jump_pos = (jump_pos as usize) * 8;
+                    if jump_pos > buffer.bits_len() {
+                        return Err(NameErr::PointerOutOfBonds);
+                    }
+                    buffer.set_read_pos(jump_pos);
                     n_jumps += 1;
                 }
                 // Normal label type. Could be found either after
-- 
2.43.0


From 483f24309a19db989bae6517f8904530b7bcae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:09 +0000
Subject: [PATCH 02/34] fix: compute record data lengths without 16-bit
 overflow

---
 src/shared/dns/records.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index fe82ccb..62987cf 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -338,7 +338,7 @@ fn decode_ns_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingEr
     let before = buffer.read_pos();
     let nameserver = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != (data_len as usize) * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(nameserver)
@@ -357,7 +357,7 @@ fn decode_cname_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, Parsin
     let before = buffer.read_pos();
     let alias = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != (data_len as usize) * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(alias)
@@ -384,7 +384,7 @@ fn decode_soa_data(buffer: &mut BitsBuf, data_len: u16) -> Result<SoaData, Parsi
     let expire = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let minimum = buffer.read_u32().ok_or(ParsingErr::BytesEnd)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != (data_len as usize) * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((mname, rname, serial, refresh, retry, expire, minimum))
@@ -450,7 +450,7 @@ fn decode_ptr_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Name, ParsingE
     let before = buffer.read_pos();
     let name = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != (data_len as usize) * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok(name)
@@ -470,7 +470,7 @@ fn decode_hinfo_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(String, Str
     let cpu = decode_character_string(buffer)?;
     let os = decode_character_string(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != (data_len as usize) * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((cpu, os))
@@ -492,7 +492,7 @@ fn decode_mx_data(buffer: &mut BitsBuf, data_len: u16) -> Result<(u16, Name), Pa
     let preference = buffer.read_u16().ok_or(ParsingErr::BytesEnd)?;
     let exchange = Name::from_bytes(buffer)?;
     let after = buffer.read_pos();
-    if after - before != (data_len * 8) as usize {
+    if after - before != (data_len as usize) * 8 {
         Err(ParsingErr::DataLenMismatch)
     } else {
         Ok((preference, exchange))
-- 
2.43.0


From 05791a112b85537eceaedf35f3069d8d2fd2285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 03/34] fix: decode TXT records from the right position and
 without overflow

---
 src/shared/dns/records.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 62987cf..3fddee0 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -510,11 +510,12 @@ fn encode_mx_data(buffer: &mut BitsBuf, priority: u16, name: &Name) -> Result<()
 // TXT records data encoding and decoding functions.
 fn decode_txt_data(buffer: &mut BitsBuf, data_len: u16) -> Result<Vec<String>, ParsingErr> {
     let mut strings = vec![];
-    let mut read: u16 = 0;
+    let data_len = data_len as usize;
+    let mut read: usize = 0;
     loop {
         let pos = buffer.read_pos();
-        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as u16;
-        buffer.set_read_pos(pos - 1);
+        let len = buffer.read_u8().ok_or(ParsingErr::BytesEnd)? as usize;
+        buffer.set_read_pos(pos);
         if read + len + 1 > data_len {
             return Err(ParsingErr::DataLenMismatch);
         }
-- 
2.43.0


From 4198b1cabf3ad5492fef1549e163105ce9043a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 04/34] fix: reject short WKS data and decode its port bitmap

---
 src/shared/dns/records.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 3fddee0..e82389d 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -409,10 +409,13 @@ fn encode_soa_data(buffer: &mut BitsBuf, data: (&Name, &Name, u32, u32, u32, u32
 type WksData = ([u8; 4], u8, Vec<u32>);
 
 fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, ParsingErr> {
+    if data_len < 5 {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     let address = buffer.read_bytes().ok_or(ParsingErr::BytesEnd)?;
     let protocol = buffer.read_u8().ok_or(ParsingErr::BytesEnd)?;
     let ports = if data_len > 5 {
-        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).unwrap();
+        let ports_bytes = buffer.read_bytes_vec((data_len - 5) as usize).ok_or(ParsingErr::BytesEnd)?;
         parse_wks_ports(&ports_bytes)
     } else {
         vec![]
@@ -433,12 +436,9 @@ fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports:
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
     let mut ports = vec![];
     for (i, &byte) in ports_bytes.iter().enumerate() {
-        if byte == 0 {
-            continue;
-        }
-        for j in 1.. {
-            if byte << j == 0 {
-                ports.push((i * 8 + j - 1) as u32);
+        for j in 0..8 {
+            if byte & (0b1000_0000 >> j) != 0 {
+                ports.push((i * 8 + j) as u32);
             };
         }
     }
-- 
2.43.0


From 14d962664fd3875bd711d04ec9f703bd1873241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 05/34] fix: encode WKS ports as a bitmap matching the written
 data length

---
 src/shared/dns/records.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index e82389d..99022b3 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -183,7 +183,7 @@ impl Record {
             Record::A { address, .. } => encode_a_data(buffer, address),
             Record::NS { name, .. } => encode_ns_data(buffer, name)?,
             Record::CNAME { name, .. } => encode_cname_data(buffer, name)?,
-            Record::WKS { address, protocol, ports, .. } => encode_wks_data(buffer, address, *protocol, ports),
+            Record::WKS { address, protocol, ports, .. } => encode_wks_data(buffer, address, *protocol, ports)?,
             Record::PTR { name, .. } => encode_ptr_data(buffer, &name)?,
             Record::HINFO { cpu, os, .. } => encode_hinfo_data(buffer, cpu, os)?,
             Record::MX { priority, name, .. } => encode_mx_data(buffer, *priority, name)?,
@@ -424,13 +424,23 @@ fn decode_wks_data(buffer: &mut BitsBuf, data_len: u16) -> Result<WksData, Parsi
     Ok((address, protocol, ports))
 }
 
-fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) {
-    buffer.write_u16((5 + ports.len()) as u16);
+fn encode_wks_data(buffer: &mut BitsBuf, address: &[u8; 4], protocol: u8, ports: &[u32]) -> Result<(), ParsingErr> {
+    let mut bitmap: Vec<u8> = vec![];
+    for &port in ports {
+        if port > u16::MAX as u32 {
+            return Err(ParsingErr::DataLenMismatch);
+        }
+        let index = (port / 8) as usize;
+        if index >= bitmap.len() {
+            bitmap.resize(index + 1, 0);
+        }
+        bitmap[index] |= 0b1000_0000 >> (port % 8);
+    }
+    buffer.write_u16((5 + bitmap.len()) as u16);
     buffer.write_bytes(address);
     buffer.write_u8(protocol);
-    for p in ports {
-        buffer.write_u32(*p);
-    }
+    buffer.write_bytes(&bitmap);
+    Ok(())
 }
 
 fn parse_wks_ports(ports_bytes: &[u8]) -> Vec<u32> {
-- 
2.43.0


From b8cf58bbe3c9af351e14210fa42bc164f34ed26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:53 +0000
Subject: [PATCH 06/34] fix: refuse to encode TXT data longer than its length
 field

---
 src/shared/dns/records.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/records.rs b/src/shared/dns/records.rs
index 99022b3..45ce18b 100644
--- a/src/shared/dns/records.rs
+++ b/src/shared/dns/records.rs
@@ -546,6 +546,9 @@ fn encode_txt_data(buffer: &mut BitsBuf, strings: &Vec<String>) -> Result<(), Pa
         len += bytes.len();
         buf.push(bytes);
     }
+    if len > u16::MAX as usize {
+        return Err(ParsingErr::DataLenMismatch);
+    }
     buffer.write_u16(len as u16);
     for b in buf {
         buffer.write_bytes(&b);
-- 
2.43.0


From c400a10128945aed2bb9c107f5f7def7a2bb5dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 07/34] fix: encode the root name as a single zero byte

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 45a9bf0..d64d1a2 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -105,6 +105,9 @@ impl Name {
     /// (a series of labels, divided by a length byte).
     pub fn to_bytes(&self) -> Vec<u8> {
         debug_assert!(validate_name(&self.0).is_ok());
+        if self.0 == "." {
+            return vec![0];
+        }
         let mut vec = Vec::with_capacity(self.0.len());
         for n in self.0.split('.') {
             let n_bytes = n.as_bytes();
-- 
2.43.0


From 97fc02de29871440f265c3227955cd9c6c139469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 08/34] fix: limit name labels to 63 characters

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index d64d1a2..5070eaa 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -152,6 +152,9 @@ fn validate_label(label: &str) -> Result<(), NameErr> {
     if label.len() == 0 {
         return Err(NameErr::MalformedLabel("empty label"));
     }
+    if label.len() > 63 {
+        return Err(NameErr::LongLabel);
+    }
     let first = label.chars().next().unwrap();
     let last = label.chars().last().unwrap();
     if !first.is_ascii_alphanumeric() {
-- 
2.43.0


From e0c3b40aa310e54932ecf3cc6e8eb76f41dd52f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 09/34] fix: validate domain names read from configuration
 files

---
 src/shared/dns/name.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 5070eaa..2c27f69 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -8,8 +8,17 @@ use std::str;
 /// in every method that creates or modifies names. [`Name`] implements
 /// `AsRef<str>`, so a reference to the inner string can be easily obtained.  
 #[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[serde(try_from = "String")]
 pub struct Name(String);
 
+impl TryFrom<String> for Name {
+    type Error = String;
+
+    fn try_from(s: String) -> Result<Self, Self::Error> {
+        Name::from_string(&s).map_err(|err| format!("invalid domain name '{}': {:?}", s, err))
+    }
+}
+
 impl AsRef<str> for Name {
     fn as_ref(&self) -> &str {
         &self.0
-- 
2.43.0


From 68a15f7fd3f5f4992051c9679364e7a349883840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 10/34] fix: reject wire labels that contain a dot

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index 2c27f69..ecdbcf0 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -85,6 +85,9 @@ impl Name {
                         name_bytes.push('.' as u8);
                     }
                     let label_bytes = check_end(buffer.read_bytes_vec(len_byte as usize))?;
+                    if label_bytes.contains(&b'.') {
+                        return Err(NameErr::MalformedLabel("dot in label"));
+                    }
                     name_bytes.extend(label_bytes);
                     if name_bytes.len() > 255 {
                         return Err(NameErr::LongName);
-- 
2.43.0


From a3480b5d7812998721f2a2bb964c8480968a1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 11/34] fix: treat every name as contained in the root zone

---
 src/shared/dns/name.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/name.rs b/src/shared/dns/name.rs
index ecdbcf0..370c4f1 100644
--- a/src/shared/dns/name.rs
+++ b/src/shared/dns/name.rs
@@ -199,6 +199,9 @@ impl Name {
     /// Reports if the [`Name`] is contained in the passed zone. The zone
     /// must be a valid name to ensure a correct comparison.
     pub fn is_in_zone(&self, zone: &Self) -> bool {
+        if zone.0 == "." {
+            return true;
+        }
         let mut name_labels = self.0.rsplit('.');
         let zone_labels = zone.0.rsplit('.');
         for zl in zone_labels {
-- 
2.43.0


From 1261914777d89195547087b9eacc839fb2a8daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 12/34] fix: encode headers of replies to unsupported op codes
 without panicking

---
 src/shared/dns/header.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared/dns/header.rs b/src/shared/dns/header.rs
index 165c4f3..382f0bb 100644
--- a/src/shared/dns/header.rs
+++ b/src/shared/dns/header.rs
@@ -85,10 +85,9 @@ impl Header {
     }
 
     /// Encode a dns [`Header`] to raw bytes, writing them into the provided
-    /// buffer. The function panics if some unsupported op codes are provided
-    /// (this helps maintaining invariants about supported features).
+    /// buffer. Unsupported op codes are encoded too, since replies must carry
+    /// the op code of the request they refuse.
     pub fn encode_to_buf(&self, buffer: &mut BitsBuf) {
-        assert!(self.op_code.is_supported());
         buffer.write_u16(self.id);
         buffer.write_bits(self.query_resp as u8, 1);
         buffer.write_bits(self.op_code.to_num(), 4);
-- 
2.43.0


From 12de6d0d87477131498a4fe37c4f9bd52ff692db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 13/34] fix: keep header counts in step with the decoded
 sections

---
 src/shared/dns/message.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/shared/dns/message.rs b/src/shared/dns/message.rs
index 8dce77e..31d398a 100644
--- a/src/shared/dns/message.rs
+++ b/src/shared/dns/message.rs
@@ -27,7 +27,7 @@ impl Message {
     pub fn decode_from_bytes(bytes: &[u8]) -> Result<Message, MessageErr> {
         let mut buffer = BitsBuf::from_raw_bytes(&bytes);
 
-        let header = match Header::decode_from_buf(&mut buffer) {
+        let mut header = match Header::decode_from_buf(&mut buffer) {
             Err(err) => return Err(MessageErr::HeaderErr(err)),
             Ok(header) => header,
         };
@@ -73,6 +73,13 @@ impl Message {
             };
         }
 
+        // Entries of unknown type are skipped, the counts must
+        // reflect the entries carried by the decoded message.
+        header.questions_count = questions.len() as u16;
+        header.answers_count = answers.len() as u16;
+        header.authorities_count = authorities.len() as u16;
+        header.additionals_count = additionals.len() as u16;
+
         Ok(Message {
             header,
             questions,
-- 
2.43.0


From 75531e1e0e96eba75604f279ffaaaeebe15cd8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 14/34] fix: reply to undecodable requests with empty section
 counts

---
 src/nameserver/handler.rs | 6 +++++-
 src/resolver/handler.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index a642b17..cbd46eb 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -164,7 +164,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index 5cf6baf..d309e94 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -93,7 +93,11 @@ fn handle_decode_err<W: DnsWrite>(resp: W, req_header: dns::Header, msg_err: dns
         dns::ParsingErr::UnsupportedType(_) => dns::RespCode::NotImp,
         _ => dns::RespCode::FormErr,
     };
-    let resp_header = resp_header_from_req_header(&req_header, resp_code);
+    let mut resp_header = resp_header_from_req_header(&req_header, resp_code);
+    resp_header.questions_count = 0;
+    resp_header.answers_count = 0;
+    resp_header.authorities_count = 0;
+    resp_header.additionals_count = 0;
     let dns_response = dns::Message {
         header: resp_header,
         questions: vec![],
-- 
2.43.0


From b3746695711ca45be18e25bff87926bbd644a942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:01 +0000
Subject: [PATCH 15/34] fix: do not copy the truncation flag of a request into
 its reply

---
 src/nameserver/handler.rs | 1 +
 src/resolver/handler.rs   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/nameserver/handler.rs b/src/nameserver/handler.rs
index cbd46eb..760d2b2 100644
--- a/src/nameserver/handler.rs
+++ b/src/nameserver/handler.rs
@@ -237,6 +237,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: false,
         z: 0,
         resp_code,
diff --git a/src/resolver/handler.rs b/src/resolver/handler.rs
index d309e94..b7b3333 100644
--- a/src/resolver/handler.rs
+++ b/src/resolver/handler.rs
@@ -144,6 +144,7 @@ fn resp_header_from_req_header(req_header: &dns::Header, resp_code: dns::RespCod
     dns::Header {
         query_resp: true,
         auth_answer: false,
+        truncated: false,
         recursion_available: true,
         z: 0,
         resp_code,
-- 
2.43.0


From db021cd7fda1441a74378bbfdff391b65ee738aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 16/34] fix: report replies that cannot be encoded instead of
 panicking

---
 src/shared/net/tcp_server.rs | 4 +++-
 src/shared/net/udp_server.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index de94449..b352512 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -41,7 +41,9 @@ pub struct TcpResponse(net::TcpStream);
 
 impl DnsWrite for TcpResponse {
     fn reply(mut self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes().unwrap();
+        let resp_bytes = response
+            .encode_to_bytes()
+            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, format!("{:?}", err)))?;
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
diff --git a/src/shared/net/udp_server.rs b/src/shared/net/udp_server.rs
index 14f9c09..1c39fba 100644
--- a/src/shared/net/udp_server.rs
+++ b/src/shared/net/udp_server.rs
@@ -31,7 +31,9 @@ pub struct UdpResponse {
 
 impl DnsWrite for UdpResponse {
     fn reply(self, response: dns::Message) -> io::Result<()> {
-        let resp_bytes = response.encode_to_bytes_trunc().unwrap();
+        let resp_bytes = response
+            .encode_to_bytes_trunc()
+            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, format!("{:?}", err)))?;
         let mut written = 0;
         while written < resp_bytes.len() {
             let n = self.socket.send_to(&resp_bytes[written..], self.addr)?;
-- 
2.43.0


From 0beee615f82ae9f7fa41f095669e0b7e1edf52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 17/34] fix: refuse TCP replies longer than their length prefix

---
 src/shared/net/tcp_server.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index b352512..7b396ec 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -44,6 +44,9 @@ impl DnsWrite for TcpResponse {
         let resp_bytes = response
             .encode_to_bytes()
             .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, format!("{:?}", err)))?;
+        if resp_bytes.len() > u16::MAX as usize {
+            return Err(io::Error::new(io::ErrorKind::InvalidData, "response too long"));
+        }
         let resp_len = resp_bytes.len() as u16;
         let buf = [(resp_len >> 8) as u8, (resp_len) as u8];
         self.0.write_all(&buf)?;
-- 
2.43.0


From 94ae60b940683c2fb07a5928d03c0759a1f70f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:06 +0000
Subject: [PATCH 18/34] fix: survive failures to duplicate a TCP connection

---
 src/shared/net/tcp_server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/shared/net/tcp_server.rs b/src/shared/net/tcp_server.rs
index 7b396ec..680387f 100644
--- a/src/shared/net/tcp_server.rs
+++ b/src/shared/net/tcp_server.rs
@@ -115,7 +115,13 @@ where
                 return;
             };
 
-            let request = TcpRequest(tcp_stream.try_clone().unwrap());
+            let request = match tcp_stream.try_clone() {
+                Ok(stream) => TcpRequest(stream),
+                Err(err) => {
+                    log::error!("Cannot clone connection: {}", err);
+                    return;
+                }
+            };
             let response = TcpResponse(tcp_stream);
             handler.handle_request(request, response);
         })
-- 
2.43.0


From 8d5304d8c6c17e16a520aff55e0d852a06ccd3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 19/34] fix: compare whole labels when checking upstream
 delegations

---
 src/resolver/back_end/requests.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 21e446e..ab360fb 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -129,7 +129,7 @@ fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.as_ref().ends_with(rec.node().as_ref()))
+        .filter(|rec| cname.is_in_zone(rec.node()))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
@@ -178,7 +178,7 @@ fn extract_next_nss_for_subzone(resp: &mut dns::Message, node: &Name, zone: &str
 // are looking for. Example: if we are looking for "company.com." the ns
 // record returned here cannot be authoritative over "pizza.com.".
 fn is_nameserver_authoritative_over_node(ns_zone: &Name, searched_node: &Name) -> bool {
-    if !searched_node.as_ref().ends_with(&ns_zone.as_ref()) {
+    if !searched_node.is_in_zone(ns_zone) {
         // TODO: trace?
         return false;
     }
@@ -201,7 +201,7 @@ fn is_nameserver_authority_a_subzone(ns_zone: &Name, current_zone: &str) -> bool
 // nameserver and no addresses are present for it. Example: the nameserver managing
 // '.com' is 'dns.com' and without an address we enter in a loop.
 fn is_nameserver_in_subzone_without_glue(ns_node: &Name, ns_zone: &Name, no_addr: bool) -> bool {
-    if ns_node.as_ref().ends_with(ns_zone.as_ref()) && no_addr {
+    if ns_node.is_in_zone(ns_zone) && no_addr {
         // TODO: trace?
         return true;
     }
-- 
2.43.0


From b12d16a8a9926873477bfb70373212a5e6b2805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 20/34] fix: ignore nameservers of foreign zones sent along
 with an alias

---
 src/resolver/back_end/requests.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index ab360fb..8e11b51 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -102,7 +102,8 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
     let cname = extract_record(&mut dns_resp.answers, dns::RecordType::CNAME, searched_node);
     if let Some(cname_rec) = cname {
         let cname = cname_rec.cname_data();
-        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname);
+        let current_zone = ns_req.nameserver.zone();
+        let next_nss = extract_next_nss_for_cname(&mut dns_resp, cname, current_zone);
         return Ok(NsResponse::Alias {
             header: dns_resp.header,
             cname_rec,
@@ -124,12 +125,13 @@ pub fn perform_request(ns_req: NsRequest, trace: &mut Trace) -> Result<NsRespons
 
 /// Extracts from the [`dns::Message`] response all records useful to re-start
 /// the cname resolution. Those are typically NS records and their addresses.
-fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name) -> Vec<NextSubzoneNs> {
+/// Only zones inside the one managed by the queried nameserver are trusted.
+fn extract_next_nss_for_cname(response: &mut dns::Message, cname: &Name, zone: &Name) -> Vec<NextSubzoneNs> {
     let authority_records = mem::take(&mut response.authorities);
     authority_records
         .into_iter()
         .filter(|rec| rec.record_type() == dns::RecordType::NS)
-        .filter(|rec| cname.is_in_zone(rec.node()))
+        .filter(|rec| cname.is_in_zone(rec.node()) && rec.node().is_in_zone(zone))
         .map(|next_record| {
             let ns_node = next_record.ns_data();
             let ns_addrs = extract_records(&mut response.additionals, dns::RecordType::A, ns_node);
-- 
2.43.0


From 168f693ce66323fa045ba603b86c63744004818e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 21/34] fix: do not cache glue addresses of names outside the
 queried zone

---
 src/resolver/back_end/recursive.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 8714691..ccfad9b 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -226,7 +226,7 @@ impl<'a> Lookup<'a> {
                     NsResponse::Answer { .. } => return Ok(ns_response),
                     NsResponse::Alias { .. } => return Ok(ns_response),
                     NsResponse::Delegation { next_nss, .. } => {
-                        save_nss_in_cache(&self.cache, next_nss.clone());
+                        save_nss_in_cache(&self.cache, next_nss.clone(), next_ns.zone());
                         self.next_nss = next_nss;
                         continue 'next_zone;
                     }
@@ -378,12 +378,14 @@ fn save_records_in_cache(cache: &RecordsCache, mut records: Vec<dns::Record>) {
     cache.set(cache_key, cache_exp, records.clone());
 }
 
-// Save nameserver records in cache, both the NS record and eventual A ones.
-fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>) {
+// Save nameserver records in cache, both the NS record and eventual A ones. The
+// latter are saved only if they belong to the zone of the server that sent them.
+fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>, zone: &dns::Name) {
     let mut ns_records = vec![];
     for next_ns in next_nss {
+        let is_trusted = next_ns.node().is_in_zone(zone);
         ns_records.push(next_ns.ns_record);
-        if next_ns.a_records.len() > 0 {
+        if is_trusted && next_ns.a_records.len() > 0 {
             save_records_in_cache(cache, next_ns.a_records);
         }
     }
-- 
2.43.0


From 8859e99c89069eba5278a0e7488afd7586288e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 22/34] fix: cache NS records under the zone they belong to

---
 src/resolver/back_end/recursive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index ccfad9b..9f32139 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -389,7 +389,13 @@ fn save_nss_in_cache(cache: &RecordsCache, next_nss: Vec<NextSubzoneNs>, zone: &
             save_records_in_cache(cache, next_ns.a_records);
         }
     }
-    save_records_in_cache(cache, ns_records);
+
+    // Records of different zones must be cached under different keys.
+    while let Some(ns_record) = ns_records.pop() {
+        let mut zone_records = extract_records(&mut ns_records, dns::RecordType::NS, ns_record.node());
+        zone_records.push(ns_record);
+        save_records_in_cache(cache, zone_records);
+    }
 }
 
 // Generate a list of domains from the passed one, in increasing order.
-- 
2.43.0


From 1ae8eb0c2502f40d8fd322cca014470dccdbefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:12 +0000
Subject: [PATCH 23/34] fix: cap the remaining TTL of cached records instead of
 panicking

---
 src/resolver/back_end/recursive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 9f32139..9fc164f 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -355,7 +355,7 @@ fn search_records_in_cache(cache: &RecordsCache, node: &dns::Name, kind: dns::Re
     // Correct records TTLs.
     for record in &mut records {
         let ttl = (exp - before_get).as_secs();
-        let remaining_ttl = u32::try_from(ttl).unwrap();
+        let remaining_ttl = u32::try_from(ttl).unwrap_or(u32::MAX);
         record.set_ttl(remaining_ttl);
     }
 
-- 
2.43.0


From e1fca142b0c8443fe9e1df1cb675d60011c9de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 24/34] fix: fail the request when a nameserver has no address

---
 src/resolver/back_end/requests.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 8e11b51..17bf491 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -270,7 +270,10 @@ fn build_dns_request(ns_request: &NsRequest) -> dns::Message {
 }
 
 fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::MAX_UDP_LEN_BYTES], usize)> {
-    let addr = *request.nameserver.addrs().first().unwrap();
+    let addr = match request.nameserver.addrs().first() {
+        Some(addr) => *addr,
+        None => return Err(io::Error::new(io::ErrorKind::NotFound, "nameserver without addresses")),
+    };
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
     udp_socket.set_read_timeout(Some(request.r_timeout))?;
-- 
2.43.0


From b4f688bca6334229cdb04820084106e2a646f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 25/34] fix: accept upstream responses only from the queried
 address

---
 src/resolver/back_end/requests.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolver/back_end/requests.rs b/src/resolver/back_end/requests.rs
index 17bf491..74e3955 100644
--- a/src/resolver/back_end/requests.rs
+++ b/src/resolver/back_end/requests.rs
@@ -277,8 +277,9 @@ fn send_udp_packet(request: &NsRequest, bytes: &[u8]) -> io::Result<([u8; dns::M
     let udp_socket = net::UdpSocket::bind("0.0.0.0:0")?;
     udp_socket.set_write_timeout(Some(request.w_timeout))?;
     udp_socket.set_read_timeout(Some(request.r_timeout))?;
-    udp_socket.send_to(&bytes, (addr, 53))?;
+    udp_socket.connect((addr, 53))?;
+    udp_socket.send(&bytes)?;
     let mut buffer = [0_u8; dns::MAX_UDP_LEN_BYTES];
-    let (n_recv, _) = udp_socket.recv_from(&mut buffer)?;
+    let n_recv = udp_socket.recv(&mut buffer)?;
     Ok((buffer, n_recv))
 }
-- 
2.43.0


From 063979636963058897b54133fe6ff9d169a3fe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 26/34] fix: bound the depth of nested nameserver lookups

---
 src/resolver/back_end/errors.rs    | 1 +
 src/resolver/back_end/recursive.rs | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/src/resolver/back_end/errors.rs b/src/resolver/back_end/errors.rs
index 84ba1e7..df67482 100644
--- a/src/resolver/back_end/errors.rs
+++ b/src/resolver/back_end/errors.rs
@@ -17,6 +17,7 @@ pub enum LookupErr {
     CnamesLoop,
     UnexpectedCname,
     MaxCnameRedir,
+    MaxSubLookups,
 
     // Error resolving a sub-lookup,
     // usually resolving a NS name.
diff --git a/src/resolver/back_end/recursive.rs b/src/resolver/back_end/recursive.rs
index 9fc164f..5c0009f 100644
--- a/src/resolver/back_end/recursive.rs
+++ b/src/resolver/back_end/recursive.rs
@@ -95,6 +95,9 @@ pub struct LookupResponse(
     pub bool,
 );
 
+/// Maximum number of nested lookups performed to resolve the nameservers names.
+const MAX_SUB_LOOKUPS: usize = 8;
+
 impl<'a> Lookup<'a> {
     /// Lookup the records of the type and node set on this [Lookup] object. The cache is
     /// consulted to speed up the lookup, and records found are cached for next lookups.
@@ -242,6 +245,10 @@ impl<'a> Lookup<'a> {
     /// not allowed when resolving a nameserver name.
     fn resolve_ns_subquery(&mut self, node: &dns::Name, zone: &dns::Name) -> Result<Vec<dns::Record>, LookupErrCtx> {
         detect_zones_loop(zone, &self.previous_zones)?;
+        if self.previous_zones.len() >= MAX_SUB_LOOKUPS {
+            let err_msg = format!("previous zones: {:?}", self.previous_zones);
+            return Err((err_msg, LookupErr::MaxSubLookups));
+        }
         let mut zones = self.previous_zones.clone();
         zones.push(zone.clone());
 
-- 
2.43.0


From 09cb108f58840fd99ba91bdea37df9fed8d511ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 27/34] fix: reject a TCP read timeout of zero seconds

---
 src/nameserver/conf.rs | 3 +++
 src/resolver/conf.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/nameserver/conf.rs b/src/nameserver/conf.rs
index 8949dbe..3e0b9bb 100644
--- a/src/nameserver/conf.rs
+++ b/src/nameserver/conf.rs
@@ -80,6 +80,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
diff --git a/src/resolver/conf.rs b/src/resolver/conf.rs
index 88648c4..244df2f 100644
--- a/src/resolver/conf.rs
+++ b/src/resolver/conf.rs
@@ -88,6 +88,9 @@ impl Conf {
         if let Err(err) = net::IpAddr::from_str(self.tcp_server.address.as_ref()) {
             return Err(format!("invalid tcp address: {}", err));
         }
+        if self.tcp_server.read_timeout == 0 {
+            return Err("invalid tcp read timeout: cannot be 0 seconds".to_string());
+        }
         if self.tcp_server.write_timeout == 0 {
             return Err("invalid tcp write timeout: cannot be 0 seconds".to_string());
         }
-- 
2.43.0


From 79504e24ca08491fd0c3fff7845d9306a1298a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:31 +0000
Subject: [PATCH 28/34] fix: do not keep nested traces when tracing is silent

---
 src/resolver/back_end/trace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/resolver/back_end/trace.rs b/src/resolver/back_end/trace.rs
index 783019e..c438461 100644
--- a/src/resolver/back_end/trace.rs
+++ b/src/resolver/back_end/trace.rs
@@ -213,6 +213,7 @@ impl Trace {
 
     /// Consume another trace and add to the present one as a sub trace.
     pub fn add_sub_trace(&mut self, sub_trace: Trace) {
+        skip_if_silent!(self);
         let item = TraceLine::SubResolution(sub_trace.lines);
         self.lines.push(item);
     }
-- 
2.43.0


From 3f834b425a45517a8a7b69741d29ae474a9daa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:33 +0000
Subject: [PATCH 29/34] fix: refuse zone file character strings longer than 255
 bytes

---
 src/shared/dns/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/shared/dns/utils.rs b/src/shared/dns/utils.rs
index 793b631..6b4bff2 100644
--- a/src/shared/dns/utils.rs
+++ b/src/shared/dns/utils.rs
@@ -30,6 +30,9 @@ pub fn encode_character_string(string: &str) -> Result<Vec<u8>, ParsingErr> {
 }
 
 pub fn is_valid_character_string(s: &str, quoted: bool) -> bool {
+    if s.len() > 255 {
+        return false;
+    }
     if quoted {
         s.chars().all(|ch| ch.is_ascii())
     } else {
-- 
2.43.0


From 2aa963fbba707908e83b37dfa757aed989ef2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 30/34] fix: complete relative names with the root origin

---
 src/nameserver/zones/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nameserver/zones/utils.rs b/src/nameserver/zones/utils.rs
index e55c035..fcaa494 100644
--- a/src/nameserver/zones/utils.rs
+++ b/src/nameserver/zones/utils.rs
@@ -68,7 +68,9 @@ pub fn adjust_name(current_origin: &dns::Name, name: &mut String) -> Result<dns:
     }
     if !name.ends_with('.') {
         name.push('.');
-        name.push_str(current_origin.as_ref());
+        if current_origin.as_ref() != "." {
+            name.push_str(current_origin.as_ref());
+        }
     }
     match dns::Name::from_string(name) {
         Ok(name) => Ok(name),
-- 
2.43.0


From 5062f4dd9392c1e926739b512eecbec29740a493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:01 +0000
Subject: [PATCH 31/34] fix: do not read past the end of zone file lines with
 escapes

---
 src/nameserver/zones/tokens.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index a308e09..af16dfd 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -157,7 +157,7 @@ impl Tokenizer {
     // Consume all consecutive whitespaces and return the corresponding token.
     fn process_whitespace(&mut self) -> Token {
         assert!(self.line_chars[self.pos].is_whitespace());
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch.is_whitespace() {
                 self.pos += 1;
@@ -174,7 +174,7 @@ impl Tokenizer {
         let mut directive = String::from('$');
         self.pos += 1;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -206,7 +206,7 @@ impl Tokenizer {
         let mut string = String::with_capacity(20);
         let mut closed = false;
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
@@ -257,7 +257,7 @@ impl Tokenizer {
     fn process_string_or_number(&mut self) -> Result<Token, TokenErr> {
         let mut str = String::with_capacity(20);
 
-        for _ in self.pos..self.line_chars.len() {
+        while self.pos < self.line_chars.len() {
             let ch = self.line_chars[self.pos];
             if ch == '\\' {
                 let ch = self.parse_escape()?;
-- 
2.43.0


From 4bbc57e2101a5a07c294ebac37901cb77250071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 32/34] fix: treat every white space in zone files as a blank

---
 src/nameserver/zones/tokens.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index af16dfd..b537a55 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -83,7 +83,7 @@ impl Tokenizer {
         // Parse the token. Note that some branches only consume
         // some characters and invoke 'next' recursively.
         match self.line_chars[self.pos] {
-            ' ' | '\t' => Ok(self.process_whitespace()),
+            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
             '$' => self.process_directive(),
             '"' => self.process_quoted_string(),
             '(' => {
-- 
2.43.0


From dc06b3d9cf589857cfb486674ecee62fe4ffa8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 33/34] fix: do not recurse for every parenthesis of a zone
 file

---
 src/nameserver/zones/tokens.rs | 64 ++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/src/nameserver/zones/tokens.rs b/src/nameserver/zones/tokens.rs
index b537a55..486fc92 100644
--- a/src/nameserver/zones/tokens.rs
+++ b/src/nameserver/zones/tokens.rs
@@ -66,39 +66,41 @@ impl Tokenizer {
             return Ok(self.peeked.remove(0));
         }
 
-        if self.line_chars.len() == self.pos {
-            let new_line_load = self.load_new_line()?;
-            if let None = new_line_load {
-                return if self.multiline {
-                    Err(TokenErr::MlMissingClose)
-                } else {
-                    Ok(Token::End)
-                };
-            }
-            if !self.multiline {
-                return Ok(Token::NewLine);
+        loop {
+            if self.line_chars.len() == self.pos {
+                let new_line_load = self.load_new_line()?;
+                if let None = new_line_load {
+                    return if self.multiline {
+                        Err(TokenErr::MlMissingClose)
+                    } else {
+                        Ok(Token::End)
+                    };
+                }
+                if !self.multiline {
+                    return Ok(Token::NewLine);
+                }
             }
-        }
 
-        // Parse the token. Note that some branches only consume
-        // some characters and invoke 'next' recursively.
-        match self.line_chars[self.pos] {
-            ch if ch.is_whitespace() => Ok(self.process_whitespace()),
-            '$' => self.process_directive(),
-            '"' => self.process_quoted_string(),
-            '(' => {
-                self.process_multi_line()?;
-                self.next()
-            }
-            ')' => {
-                self.process_close_multi()?;
-                self.next()
-            }
-            ';' => {
-                self.process_comment();
-                self.next()
-            }
-            _ => self.process_string_or_number(),
+            // Parse the token. Note that some branches only consume
+            // some characters and look for the next token again.
+            return match self.line_chars[self.pos] {
+                ch if ch.is_whitespace() => Ok(self.process_whitespace()),
+                '$' => self.process_directive(),
+                '"' => self.process_quoted_string(),
+                '(' => {
+                    self.process_multi_line()?;
+                    continue;
+                }
+                ')' => {
+                    self.process_close_multi()?;
+                    continue;
+                }
+                ';' => {
+                    self.process_comment();
+                    continue;
+                }
+                _ => self.process_string_or_number(),
+            };
         }
     }
 
-- 
2.43.0


From c5d52b712b5ca0b955c5060cb0d72b6041ce9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 34/34] fix: stop zone files from including each other for ever

---
 src/nameserver/zones/parser_auth.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/nameserver/zones/parser_auth.rs b/src/nameserver/zones/parser_auth.rs
index 061e1ef..731f7e6 100644
--- a/src/nameserver/zones/parser_auth.rs
+++ b/src/nameserver/zones/parser_auth.rs
@@ -22,8 +22,13 @@ struct AuthParsingState<'a> {
     pub current_orig: dns::Name,
     pub current_ttl: u32,
     pub min_ttl: u32,
+    pub depth: usize,
 }
 
+/// Maximum depth of the nesting of included files. Files
+/// including each other are detected reaching this limit.
+const MAX_INCLUDE_DEPTH: usize = 16;
+
 /// Parse the zone file related to the authoritative zone managed by the nameserver.
 /// A [`Zone`] object is returned, holding the zone records. The zone file could use
 /// the 'include' directive further files.
@@ -42,6 +47,7 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
         current_orig: conf.zone.clone(),
         current_ttl: conf.starting_ttl,
         min_ttl: 0,
+        depth: 0,
     };
 
     let soa_record = parse_starting_soa_record(&mut tokenizer, &mut parsing_state);
@@ -63,6 +69,10 @@ pub fn parse_auth_zone_file(conf: &ParsingParams) -> Result<Zone, ParseErrCtx> {
 /// the parent parsing state is left untouched.
 fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsingState) -> Result<Zone, ParseErrCtx> {
     log::info!("Including {:?}", file_path);
+    if p_state.depth >= MAX_INCLUDE_DEPTH {
+        let err_msg = format!("too many nested files including '{}'", file_path);
+        return Err((ParseErr::MalformedZone(err_msg), p_state.current_file.to_string()));
+    }
     let mut tokenizer = match Tokenizer::from_file(&file_path) {
         Err(err) => return Err((ParseErr::ReadingErr(err), p_state.current_file.to_string())),
         Ok(v) => v,
@@ -75,6 +85,7 @@ fn parse_included_file(file_path: String, origin: dns::Name, p_state: &AuthParsi
         current_orig: origin,
         current_ttl: p_state.current_ttl,
         min_ttl: p_state.min_ttl,
+        depth: p_state.depth + 1,
     };
 
     parse_entries(&mut tokenizer, &mut child_state)
-- 
2.43.0

