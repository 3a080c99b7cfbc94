From 59766370941382d68076ea44f99a4d277e869b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:55 +0000
Subject: [PATCH 01/23] fix: request headers: consume only the bytes of the
 empty line that ends a header block

When the empty line was split between chunks, one byte of the data after
it was dropped; when an empty block was ended by a bare LF, the data
after it was parsed as headers.
---
 src/request.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4e62e3e..49d8f3e 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -575,22 +575,22 @@ impl ConnectionParser {
             data
         };
 
-        let (remaining, eoh) = self.parse_request_headers(data2)?;
+        // If the input starts with an EOL there are no more headers to parse
         //TODO: Update the request state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == data2.len()
-            && (remaining.starts_with(b"\r\n") || remaining.starts_with(b"\n"));
-        if eoh
-            //If the input started with an EOL, we assume this is the end of the headers
-            || eol
-        {
-            if remaining.len() < data.len() {
+        let eol = data2.starts_with(b"\r\n") || data2.starts_with(b"\n");
+        let (remaining, eoh) = if eol {
+            (data2, true)
+        } else {
+            self.parse_request_headers(data2)?
+        };
+        if eoh {
+            if eol {
+                // Part of the EOL may have been buffered from an earlier chunk
+                let buffered = data2.len() - data.len();
+                let eol_len: usize = if data2.starts_with(b"\r\n") { 2 } else { 1 };
+                self.request_data_consume(input, eol_len.saturating_sub(buffered));
+            } else if remaining.len() < data.len() {
                 self.request_data_consume(input, data.len() - remaining.len());
-            } else if eol {
-                if remaining.starts_with(b"\r\n") {
-                    self.request_data_consume(input, min(data.len(), 2));
-                } else if remaining.starts_with(b"\n") {
-                    self.request_data_consume(input, min(data.len(), 1));
-                }
             }
             // We've seen all the request headers.
             self.state_request_headers(input)
-- 
2.43.0


From 6f2e866dadb6e9eb708cc3c346932cd150fe2a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:24 +0000
Subject: [PATCH 02/23] fix: request chunked body: parse the chunk length line
 across data chunks

The buffered part of a chunk length line was never cleared, so it was
prepended to every later length line, and the end of a chunk was counted
twice when it was split. Validity was judged on the last piece only.
---
 src/request.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 49d8f3e..3c2fa9b 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -337,7 +337,8 @@ impl ConnectionParser {
             Ok(())
         } else {
             req.request_message_len = req.request_message_len.wrapping_add(input.len() as u64);
-            self.handle_request_absent_lf(input)
+            self.request_data_consume(input, input.len());
+            Err(HtpStatus::DATA)
         }
     }
 
@@ -383,25 +384,24 @@ impl ConnectionParser {
                 if !self.request_buf.is_empty() {
                     self.check_request_buffer_limit(line.len())?;
                 }
+                // The line may have been started in an earlier chunk
+                let mut full_line = take(&mut self.request_buf);
+                full_line.add(line);
                 let req = self.request_mut();
                 if req.is_none() {
                     return Err(HtpStatus::ERROR);
                 }
                 let req = req.unwrap();
+                req.request_message_len =
+                    req.request_message_len.wrapping_add(full_line.len() as u64);
 
-                if line.eq(b"\n") {
-                    req.request_message_len =
-                        req.request_message_len.wrapping_add(line.len() as u64);
+                if full_line.eq_slice(b"\n") {
                     //Empty chunk len. Try to continue parsing.
                     data = remaining;
                     continue;
                 }
-                let mut data = self.request_buf.clone();
-                data.add(line);
-                let req = self.request_mut().unwrap();
-                req.request_message_len = req.request_message_len.wrapping_add(data.len() as u64);
                 // Handle chunk length.
-                let (len, ext) = parse_chunked_length(&data)?;
+                let (len, ext) = parse_chunked_length(&full_line)?;
                 self.request_chunked_length = len;
                 if ext {
                     htp_warn!(
@@ -434,7 +434,9 @@ impl ConnectionParser {
                 return Ok(());
             } else {
                 // Check if the data we have seen so far is invalid
-                return if !is_valid_chunked_length_data(data) {
+                let mut seen = self.request_buf.clone();
+                seen.add(data);
+                return if !is_valid_chunked_length_data(&seen) {
                     // Contains leading junk non hex_ascii data
                     // Invalid chunk length
                     htp_error!(
-- 
2.43.0


From 7aa83162e7f056842102bebf81417cb5f0621a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 03/23] fix: response headers: recognise an empty header block
 or trailer followed by more data

An empty line at the start of the headers or trailer was recognised only
when it ended the data chunk; otherwise the rest of the chunk (the body,
or the next response) was swallowed as an unfinished header.
---
 src/response.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 5a05a8d..3b72049 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -965,15 +965,32 @@ impl ConnectionParser {
             Bstr::from(input.as_slice())
         };
 
-        let (remaining, eoh) = self.parse_response_headers(response_header.as_slice())?;
+        // If the input starts with an EOL there are no more headers to parse
         //TODO: Update the response state machine so that we don't have to have this EOL check
-        let eol = remaining.len() == response_header.len()
-            && (remaining.eq(b"\r\n") || remaining.eq(b"\n"));
-        // If remaining is EOL or header parsing saw EOH this is end of headers
-        if eoh || eol {
+        let eol_len: usize = if response_header.starts_with("\r\n") {
+            2
+        } else if response_header.starts_with("\n") {
+            1
+        } else {
+            0
+        };
+        // Nothing but blank lines after the end of the body is not more data: wait for some
+        let blank = response_header.len() > eol_len
+            && response_header.iter().all(|c| *c == b'\r' || *c == b'\n')
+            && self.response().map(|resp| resp.response_progress)
+                == Some(HtpResponseProgress::TRAILER);
+        let eol = eol_len > 0 && !blank;
+        let (remaining, eoh) = if eol {
+            (response_header.as_slice(), true)
+        } else {
+            self.parse_response_headers(response_header.as_slice())?
+        };
+        if eoh {
             if eol {
                 //Consume the EOL so it isn't included in data processing
-                self.response_data_consume(input, input.len());
+                // Part of the EOL may have been buffered from an earlier chunk
+                let buffered = response_header.len() - input.len();
+                self.response_data_consume(input, eol_len.saturating_sub(buffered));
             } else if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
-- 
2.43.0


From 0232c4db14a70612feab9983f758b9a32794610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:24 +0000
Subject: [PATCH 04/23] fix: response 100-continue: end the raw header data
 before the next response line

The header data receiver stayed set, so bytes of the final status line
were delivered as header data of the interim response.
---
 src/response.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 3b72049..742f01d 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -446,6 +446,8 @@ impl ConnectionParser {
                             "Already seen 100-Continue."
                         );
                     }
+                    // The raw header data of the interim response ends here.
+                    self.response_receiver_finalize_clear(input)?;
                     // Expecting to see another response line next.
                     self.response_state = State::LINE;
                     let response_tx = self.response_mut().unwrap();
-- 
2.43.0


From 4578a9f87cdb31d72dc3f9f3c94251627f43c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:47 +0000
Subject: [PATCH 05/23] fix: response chunked body: parse the chunk length line
 across data chunks

The buffered part of a chunk length line was never cleared, so it was
prepended to every later length line; when the line turned out to be
invalid the buffered part was lost from the body and the rest was
counted twice in the message length.
---
 src/response.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 742f01d..9cab8ac 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -184,11 +184,9 @@ impl ConnectionParser {
     pub fn response_body_chunked_length(&mut self, input: &mut ParserData) -> Result<()> {
         let mut data = input.as_slice();
         loop {
-            let resp = self.response_mut();
-            if resp.is_none() {
+            if self.response().is_none() {
                 return Err(HtpStatus::ERROR);
             }
-            let resp = resp.unwrap();
 
             match take_till_lf(data) {
                 Ok((remaining, line)) => {
@@ -196,22 +194,24 @@ impl ConnectionParser {
                     if !self.response_buf.is_empty() {
                         self.check_response_buffer_limit(line.len())?;
                     }
-                    if is_chunked_ctl_line(line) {
+                    // The line may have been started in an earlier chunk
+                    let mut full_line = take(&mut self.response_buf);
+                    let buffered = full_line.len();
+                    full_line.add(line);
+                    if is_chunked_ctl_line(&full_line) {
                         let resp = self.response_mut().unwrap();
                         resp.response_message_len =
-                            (resp.response_message_len).wrapping_add(line.len() as u64);
+                            (resp.response_message_len).wrapping_add(full_line.len() as u64);
                         //Empty chunk len. Try to continue parsing.
                         data = remaining;
                         continue;
                     }
-                    let mut data = self.response_buf.clone();
-                    data.add(line);
-                    let resp = self.response_mut().unwrap();
-                    resp.response_message_len =
-                        (resp.response_message_len).wrapping_add(data.len() as u64);
 
-                    match parse_chunked_length(&data) {
+                    match parse_chunked_length(&full_line) {
                         Ok((len, ext)) => {
+                            let resp = self.response_mut().unwrap();
+                            resp.response_message_len =
+                                (resp.response_message_len).wrapping_add(full_line.len() as u64);
                             self.response_chunked_length = len;
                             if ext {
                                 htp_warn!(
@@ -250,6 +250,10 @@ impl ConnectionParser {
                                 HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                                 "Response chunk encoding: Invalid chunk length"
                             );
+                            // The part of the line seen earlier is body data as well
+                            if buffered > 0 {
+                                self.response_body_data(Some(&full_line[..buffered]))?;
+                            }
                         }
                     }
 
@@ -257,7 +261,11 @@ impl ConnectionParser {
                 }
                 _ => {
                     // Check if the data we have seen so far is invalid
-                    if !is_valid_chunked_length_data(data) {
+                    let buffered = self.response_buf.len();
+                    let mut seen = self.response_buf.clone();
+                    seen.add(data);
+                    let resp = self.response_mut().unwrap();
+                    if !is_valid_chunked_length_data(&seen) {
                         // Contains leading junk non hex_ascii data
                         resp.response_transfer_coding = HtpTransferCoding::IDENTITY;
                         self.response_state = State::BODY_IDENTITY_STREAM_CLOSE;
@@ -266,6 +274,11 @@ impl ConnectionParser {
                             HtpLogCode::INVALID_RESPONSE_CHUNK_LEN,
                             "Response chunk encoding: Invalid chunk length"
                         );
+                        // The part of the line seen earlier is body data as well
+                        self.response_buf.clear();
+                        if buffered > 0 {
+                            self.response_body_data(Some(&seen[..buffered]))?;
+                        }
                         return Ok(());
                     } else {
                         return self.handle_response_absent_lf(input);
-- 
2.43.0


From 73b04286467b44e22b0f563c32a3bcc44dbacae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:15 +0000
Subject: [PATCH 06/23] fix: response line: find a line ending that spans data
 chunks

A status line whose CR LF was split between chunks, or whose chunk ended
in a bare LF, was merged with the lines after it.
---
 src/response.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index 9cab8ac..ae3381b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -647,14 +647,36 @@ impl ConnectionParser {
     /// Returns HtpStatus::OK on state change, HtpStatus::ERROR on error, or HtpStatus::DATA
     /// when more data is needed.
     pub fn response_line(&mut self, input: &ParserData) -> Result<()> {
-        match take_till_eol(input.as_slice()) {
+        // The EOL may have been started in an earlier chunk, so it
+        // has to be looked for in the buffered data as well.
+        let buffered = self.response_buf.len();
+        let mut data = self.response_buf.clone();
+        if buffered > 0 {
+            data.add(input.as_slice());
+        }
+        let seen = if buffered > 0 {
+            data.as_slice()
+        } else {
+            input.as_slice()
+        };
+        match take_till_eol(seen) {
             Ok((_, (line, _))) => {
                 // We have a line ending, so consume the input
-                // and grab any buffered data.
-                let mut data = take(&mut self.response_buf);
-                data.add(line);
-                self.response_data_consume(input, line.len());
-                self.response_line_complete(data.as_slice(), input)
+                // up to it and drop any buffered data.
+                self.response_buf.clear();
+                let line = Bstr::from(line);
+                self.response_data_consume(input, line.len().saturating_sub(buffered));
+                self.response_line_complete(line.as_slice(), input)?;
+                if line.len() < buffered {
+                    // The start of the next line was buffered too
+                    let next = Bstr::from(&data[line.len()..buffered]);
+                    if self.response_state == State::HEADERS {
+                        self.response_header = Some(next);
+                    } else {
+                        self.response_buf = next;
+                    }
+                }
+                Ok(())
             }
             _ => {
                 if self.response_status == HtpStreamState::CLOSED {
-- 
2.43.0


From 8d7a5ed3c73d887e7044ff41a6b523cd429b353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:47 +0000
Subject: [PATCH 07/23] fix: gzip header: keep the first byte of a two-byte
 field split between writes

When the extra field length or the header CRC was split between data
chunks its first byte was dropped and the body could not be decoded.
---
 src/decompressors.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index b533eef..d97e4f8 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -459,11 +459,13 @@ impl Write for GzipBufWriter {
         const FNAME: u8 = 1 << 3;
         const FCOMMENT: u8 = 1 << 4;
 
-        let (mut parse, direct) = if !self.buffer.is_empty() && self.state == GzState::Start {
-            self.buffer.extend_from_slice(data);
-            (self.buffer.as_ref(), false)
+        // Bytes of a header field that was split between writes
+        let mut buffer = std::mem::take(&mut self.buffer);
+        let mut parse = if buffer.is_empty() {
+            data
         } else {
-            (data, true)
+            buffer.extend_from_slice(data);
+            buffer.as_slice()
         };
 
         loop {
@@ -475,9 +477,7 @@ impl Write for GzipBufWriter {
                         self.state = GzState::Xlen;
                     }
                     Err(nom::Err::Incomplete(_)) => {
-                        if direct {
-                            self.buffer.extend_from_slice(data);
-                        }
+                        self.buffer = parse.to_vec();
                         return Ok(data.len());
                     }
                     Err(_) => {
@@ -495,7 +495,11 @@ impl Write for GzipBufWriter {
                                 self.xlen = xlen;
                             }
                             Err(nom::Err::Incomplete(_)) => {
-                                return Ok(data.len() - parse.len());
+                                if parse.len() < data.len() {
+                                    return Ok(data.len() - parse.len());
+                                }
+                                self.buffer = parse.to_vec();
+                                return Ok(data.len());
                             }
                             Err(_) => {
                                 return Err(std::io::Error::new(
@@ -570,7 +574,11 @@ impl Write for GzipBufWriter {
                                 parse = rest;
                             }
                             Err(nom::Err::Incomplete(_)) => {
-                                return Ok(data.len() - parse.len());
+                                if parse.len() < data.len() {
+                                    return Ok(data.len() - parse.len());
+                                }
+                                self.buffer = parse.to_vec();
+                                return Ok(data.len());
                             }
                             Err(_) => {
                                 return Err(std::io::Error::new(
-- 
2.43.0


From 8302cb74d6f4ff8640c0597dbb9e6aeb92ff538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:06 +0000
Subject: [PATCH 08/23] fix: request decompression: count only lzma layers
 against the lzma layer limit

All layers were counted, so a single lzma layer after another encoding
exceeded a limit of one.
---
 src/request.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/request.rs b/src/request.rs
index 3c2fa9b..0166228 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1154,6 +1154,7 @@ impl ConnectionParser {
                 if slow_path {
                     if let Some(ce) = &ce {
                         let mut layers = 0;
+                        let mut lzma_layers = 0;
                         for encoding in ce.split(|c| *c == b',' || *c == b' ') {
                             if encoding.is_empty() {
                                 continue;
@@ -1196,9 +1197,10 @@ impl ConnectionParser {
                                 }
                                 HtpContentEncoding::DEFLATE
                             } else if encoding.cmp_slice(b"lzma") == Ordering::Equal {
+                                lzma_layers += 1;
                                 if let Some(limit) = compression_options.get_lzma_layers() {
                                     // LZMA decompression layer depth check
-                                    if layers > limit {
+                                    if lzma_layers > limit {
                                         htp_warn!(
                                             self.logger,
                                             HtpLogCode::REQUEST_TOO_MANY_LZMA_LAYERS,
-- 
2.43.0


From daff2b18837c3b98d68a1eb626670634cbff9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:16 +0000
Subject: [PATCH 09/23] fix: URL decoding: decode invalid hex digits without
 arithmetic overflow

---
 src/urlencoded.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 744983b..772e575 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -163,17 +163,18 @@ fn name_value(input: &[u8]) -> IResult<&[u8], &[u8]> {
 /// Returns hex-decoded byte
 fn x2c(input: &[u8]) -> IResult<&[u8], u8> {
     let (input, (c1, c2)) = tuple((be_u8, be_u8))(input)?;
+    // Invalid digits are decoded too when so configured: use modular arithmetic
     let mut decoded_byte = if c1 >= b'A' {
-        ((c1 & 0xdf) - b'A') + 10
+        (c1 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c1 - b'0'
+        c1.wrapping_sub(b'0')
     };
     decoded_byte = (decoded_byte as i32 * 16) as u8;
-    decoded_byte += if c2 >= b'A' {
-        ((c2 & 0xdf) - b'A') + 10
+    decoded_byte = decoded_byte.wrapping_add(if c2 >= b'A' {
+        (c2 & 0xdf).wrapping_sub(b'A').wrapping_add(10)
     } else {
-        c2 - b'0'
-    };
+        c2.wrapping_sub(b'0')
+    });
     Ok((input, decoded_byte))
 }
 
-- 
2.43.0


From aabc177562c2d87d9e61d2748392332871b1a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:05 +0000
Subject: [PATCH 10/23] fix: headers: report a header with an empty name as
 such, not as one without a colon

The MISSING_COLON flag included the bit of NAME_EMPTY, so that a header whose
name is empty (": value") was logged and flagged as a line without a colon,
and the code for an empty name was never reached.
---
 src/headers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/headers.rs b/src/headers.rs
index 8bd193e..f224f40 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -35,7 +35,7 @@ impl HeaderFlags {
     pub const NAME_TRAILING_WHITESPACE: u64 = 0x0040;
     pub const NAME_LEADING_WHITESPACE: u64 = 0x0080;
     pub const NULL_TERMINATED: u64 = 0x0100;
-    pub const MISSING_COLON: u64 = (0x0200 | Self::NAME_EMPTY);
+    pub const MISSING_COLON: u64 = 0x0200;
     pub const DEFORMED_EOL: u64 = 0x0400;
 }
 
-- 
2.43.0


From 92e20fcc1f2b91fa6c47defeaebfd65951c871de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:26 +0000
Subject: [PATCH 11/23] fix: deflate: give the first bytes again to the zlib
 decoder when they came in an earlier piece

---
 src/decompressors.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/decompressors.rs b/src/decompressors.rs
index d97e4f8..559e919 100644
--- a/src/decompressors.rs
+++ b/src/decompressors.rs
@@ -702,10 +702,16 @@ struct InnerDecompressor {
     passthrough: bool,
     /// Tracks the number of restarts
     restarts: u8,
+    /// First bytes given to the writer, while they are too few to tell whether
+    /// it is the right one. They are given again to the writer replacing it.
+    head: Option<Vec<u8>>,
     /// Options for decompression
     options: Options,
 }
 
+/// Number of bytes after which a zlib stream is known not to be a raw deflate one.
+const HEAD_SIZE: usize = 5;
+
 impl InnerDecompressor {
     /// Returns a new writer according to the content encoding type and whether to passthrough.
     fn writer(
@@ -757,6 +763,7 @@ impl InnerDecompressor {
             writer: Some(writer),
             passthrough,
             restarts: 0,
+            head: Some(Vec::new()),
             options,
         })
     }
@@ -844,6 +851,14 @@ impl Write for InnerDecompressor {
                     } else {
                         Ok(consumed)
                     };
+                    self.head = self
+                        .head
+                        .take()
+                        .filter(|head| head.len() + consumed < HEAD_SIZE)
+                        .map(|mut head| {
+                            head.extend_from_slice(&data[..consumed]);
+                            head
+                        });
                     self.writer.replace(writer);
                     result
                 }
@@ -859,13 +874,16 @@ impl Write for InnerDecompressor {
                         _ => {
                             // try to restart, any data in the temp buffer will be
                             // discarded
+                            let mut input = self.head.take().unwrap_or_default();
+                            input.extend_from_slice(data);
                             if self.restart().is_err() {
-                                self.try_passthrough(data)
+                                self.try_passthrough(&input)?;
                             } else {
                                 // Recursion: restart will fail after a small
                                 // number of attempts
-                                self.write(data)
+                                self.write_all(&input)?;
                             }
+                            Ok(data.len())
                         }
                     }
                 }
@@ -913,6 +931,7 @@ impl Decompress for InnerDecompressor {
                 self.passthrough = passthrough;
             }
             self.restarts += 1;
+            self.head = Some(Vec::new());
             Ok(())
         } else {
             Err(std::io::Error::new(
-- 
2.43.0


From 3353c58b3c5475d25bb5e8c7f47321ebc79d6157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:23 +0000
Subject: [PATCH 12/23] fix: headers: end the header block with a plain line
 ending, leaving what follows to the body

---
 src/headers.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index f224f40..dedea1c 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -463,7 +463,7 @@ impl Parser {
             if is_null_terminated {
                 return Ok((rest, (out, true)));
             }
-            if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+            if let Ok((rest, _eoh)) = self.complete_eol_regular()(rest) {
                 return Ok((rest, (out, true)));
             }
             let mut i = rest;
@@ -477,7 +477,7 @@ impl Parser {
                         if is_null_terminated {
                             return Ok((rest, (out, true)));
                         }
-                        if let Ok((rest, _eoh)) = self.complete_eol()(rest) {
+                        if let Ok((rest, _eoh)) = self.complete_eol_regular()(rest) {
                             return Ok((rest, (out, true)));
                         }
                     }
-- 
2.43.0


From 2cc5526a86033e1371ebe52fa75ef9424ad9dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:24 +0000
Subject: [PATCH 13/23] fix: responses: keep the place of a request in progress
 when a response comes without a request

---
 src/response.rs     |  5 ++++-
 src/transactions.rs | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/response.rs b/src/response.rs
index ae3381b..0b76af5 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1494,7 +1494,10 @@ impl ConnectionParser {
             tx.request_uri = uri.path.clone();
             tx.parsed_uri = Some(uri);
             tx.request_progress = HtpRequestProgress::COMPLETE;
-            self.request_next();
+            // A request in progress in an earlier transaction keeps its place.
+            if self.request_index() == self.response_index() {
+                self.request_next();
+            }
         }
         self.response_content_length = None;
         self.response_body_data_left = None;
diff --git a/src/transactions.rs b/src/transactions.rs
index 45a8893..893cd5c 100644
--- a/src/transactions.rs
+++ b/src/transactions.rs
@@ -1,4 +1,8 @@
-use crate::{config::Config, log::Logger, transaction::Transaction};
+use crate::{
+    config::Config,
+    log::Logger,
+    transaction::{HtpRequestProgress, Transaction},
+};
 use std::collections::btree_map::Entry;
 use std::collections::BTreeMap;
 use std::rc::Rc;
@@ -109,6 +113,14 @@ impl Transactions {
     pub fn request_next(&mut self) -> usize {
         self.check_free(self.request);
         self.request = self.request.wrapping_add(1);
+        // Skip the transactions of responses that came without a request
+        while self.request < self.response
+            || self.transactions.get(&self.request).map_or(false, |tx| {
+                tx.request_progress == HtpRequestProgress::COMPLETE
+            })
+        {
+            self.request = self.request.wrapping_add(1);
+        }
         self.request
     }
 
-- 
2.43.0


From 7e92c5939891115ce3fc09869095c33216273ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:16 +0000
Subject: [PATCH 14/23] fix: requests: finish a response that waited for its
 request together with it

---
 src/connection_parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/connection_parser.rs b/src/connection_parser.rs
index 958ec12..8d5ee14 100644
--- a/src/connection_parser.rs
+++ b/src/connection_parser.rs
@@ -787,6 +787,15 @@ impl ConnectionParser {
         };
         // Check if the entire transaction is complete.
         self.finalize(self.request_index())?;
+        // A complete response that waited for this request is done with as well.
+        if self.response_index() == self.request_index()
+            && self.response().map_or(false, |tx| {
+                tx.response_progress == HtpResponseProgress::COMPLETE
+            })
+        {
+            self.response_next();
+            self.response_state = State::IDLE;
+        }
         self.request_next();
         Ok(())
     }
-- 
2.43.0


From 35efbce4e7bc79ff8b4b3128fcd8464f8cdb2868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:56 +0000
Subject: [PATCH 15/23] fix: requests: end the request side in error when no
 further transaction is allowed

---
 src/request.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/request.rs b/src/request.rs
index 0166228..4f096e8 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -1430,6 +1430,10 @@ impl ConnectionParser {
                 return Err(HtpStatus::DATA);
             }
         }
+        // No more transactions than allowed
+        if self.request().is_none() {
+            return Err(HtpStatus::ERROR);
+        }
         self.request_reset();
         // Change state to TRANSACTION_START
         // Ignore the result.
-- 
2.43.0


From df78504b4b32f351f482b7549bfe4893faa9aede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:18 +0000
Subject: [PATCH 16/23] fix: responses: a refusal ends the request body only of
 its own transaction

---
 src/response.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/response.rs b/src/response.rs
index 0b76af5..770befa 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -476,6 +476,7 @@ impl ConnectionParser {
         // before sending its body cf
         // https://developer.mozilla.org/en-US/docs/Web/HTTP/Headers/Expect
         else if response_tx.response_status_number.in_range(400, 499)
+            && self.request_index() == self.response_index()
             && self.request_content_length > Some(0)
             && self.request_body_data_left == self.request_content_length
         {
-- 
2.43.0


From c6bf37db7a12a4389d93b38622148dbca4248a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:31 +0000
Subject: [PATCH 17/23] fix: C API: htp_tx_normalized_uri returns NULL for a
 NULL transaction

---
 src/c_api/transaction.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/c_api/transaction.rs b/src/c_api/transaction.rs
index 560339a..1448f68 100644
--- a/src/c_api/transaction.rs
+++ b/src/c_api/transaction.rs
@@ -25,17 +25,16 @@ pub unsafe extern "C" fn htp_tx_destroy(connp: *mut ConnectionParser, tx: *const
 /// When calling this method, you have to ensure that tx is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_tx_normalized_uri(tx: *const Transaction) -> *const Bstr {
-    if (*tx).cfg.decoder_cfg.normalized_uri_include_all {
-        tx.as_ref()
-            .and_then(|tx| tx.complete_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    } else {
-        tx.as_ref()
-            .and_then(|tx| tx.partial_normalized_uri.as_ref())
-            .map(|uri| uri as *const Bstr)
-            .unwrap_or(std::ptr::null())
-    }
+    tx.as_ref()
+        .and_then(|tx| {
+            if tx.cfg.decoder_cfg.normalized_uri_include_all {
+                tx.complete_normalized_uri.as_ref()
+            } else {
+                tx.partial_normalized_uri.as_ref()
+            }
+        })
+        .map(|uri| uri as *const Bstr)
+        .unwrap_or(std::ptr::null())
 }
 
 /// Get the transaction's configuration.
-- 
2.43.0


From e41d1847b0c7ed27a81057d67d6fd3cbc3bf2d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:31 +0000
Subject: [PATCH 18/23] fix: C API: htp_connp_destroy_all accepts NULL

---
 src/c_api/connection_parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c_api/connection_parser.rs b/src/c_api/connection_parser.rs
index f8d750b..7813278 100644
--- a/src/c_api/connection_parser.rs
+++ b/src/c_api/connection_parser.rs
@@ -60,7 +60,9 @@ pub unsafe extern "C" fn htp_connp_create(cfg: *mut Config) -> *mut ConnectionPa
 /// When calling this method, you have to ensure that connp is either properly initialized or NULL
 #[no_mangle]
 pub unsafe extern "C" fn htp_connp_destroy_all(connp: *mut ConnectionParser) {
-    drop(Box::from_raw(connp));
+    if !connp.is_null() {
+        drop(Box::from_raw(connp));
+    }
 }
 
 /// Returns the connection associated with the connection parser.
-- 
2.43.0


From dfdebf55e4822cfe008d9cf5904b359e1e893951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:00 +0000
Subject: [PATCH 19/23] fix: a side that a callback stopped or that failed
 stays so whatever the other side sees

---
 src/request.rs  |  7 ++++++-
 src/response.rs | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4f096e8..608e957 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -276,7 +276,12 @@ impl ConnectionParser {
         if let Ok((_, (_, method))) = res {
             if HtpMethod::new(method) == HtpMethod::UNKNOWN {
                 self.request_status = HtpStreamState::TUNNEL;
-                self.response_status = HtpStreamState::TUNNEL
+                if !matches!(
+                    self.response_status,
+                    HtpStreamState::ERROR | HtpStreamState::STOP
+                ) {
+                    self.response_status = HtpStreamState::TUNNEL
+                }
             } else {
                 return self.state_request_complete(input);
             }
diff --git a/src/response.rs b/src/response.rs
index 770befa..2f27d7b 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -385,13 +385,19 @@ impl ConnectionParser {
                 return self.state_response_headers(input);
             } else if response_tx.response_status_number.eq_num(407) {
                 // proxy telling us to auth
-                if self.request_status != HtpStreamState::ERROR {
+                if !matches!(
+                    self.request_status,
+                    HtpStreamState::ERROR | HtpStreamState::STOP
+                ) {
                     self.request_status = HtpStreamState::DATA
                 }
             } else {
                 // This is a failed CONNECT stream, which means that
                 // we can unblock request parsing
-                if self.request_status != HtpStreamState::ERROR {
+                if !matches!(
+                    self.request_status,
+                    HtpStreamState::ERROR | HtpStreamState::STOP
+                ) {
                     self.request_status = HtpStreamState::DATA
                 }
                 // We are going to continue processing this transaction,
@@ -426,7 +432,10 @@ impl ConnectionParser {
             }
             if te_opt.is_none() && cl_opt.is_none() {
                 self.response_state = State::FINALIZE;
-                if self.request_status != HtpStreamState::ERROR {
+                if !matches!(
+                    self.request_status,
+                    HtpStreamState::ERROR | HtpStreamState::STOP
+                ) {
                     self.request_status = HtpStreamState::TUNNEL
                 }
                 self.response_status = HtpStreamState::TUNNEL;
-- 
2.43.0


From c5b7c5abc5839530702be683cf8bc3e0c187d77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:00 +0000
Subject: [PATCH 20/23] fix: do not panic when the transaction of a response
 was removed in its header block

---
 src/response.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/response.rs b/src/response.rs
index 2f27d7b..0bd7214 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -1041,6 +1041,10 @@ impl ConnectionParser {
             } else if remaining.len() <= input.len() {
                 self.response_data_consume(input, input.len() - remaining.len());
             }
+            // The transaction may have been removed since the last chunk.
+            if self.response().is_none() {
+                return Err(HtpStatus::ERROR);
+            }
             // We've seen all response headers. At terminator.
             self.response_state =
                 if self.response().unwrap().response_progress == HtpResponseProgress::HEADERS {
-- 
2.43.0


From 4e3575a06bb360f6832619ff5c948493e921f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 21/23] fix: keep the expected response status when ordinary
 bytes follow the anomaly

Every byte of a path that is in order reset the status an earlier one had
set, and decoding the path reset the one of leading whitespace; likewise
each parameter of the urlencoded parser.
---
 src/urlencoded.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index 772e575..e5e4fd3 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -108,7 +108,9 @@ impl Parser {
                         decode_uri(name.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         name.clear();
                         name.add(consumed);
                     }
@@ -116,7 +118,9 @@ impl Parser {
                         decode_uri(value.as_slice(), &self.cfg)
                     {
                         self.flags.set(flags);
-                        self.response_status_expected_number = expected_status;
+                        if expected_status != HtpUnwanted::IGNORE {
+                            self.response_status_expected_number = expected_status;
+                        }
                         value.clear();
                         value.add(consumed);
                     }
@@ -501,7 +505,9 @@ fn path_decode_uri<'a>(
                 }
             }
             acc.1.set(flag);
-            acc.2 = code;
+            if code != HtpUnwanted::IGNORE {
+                acc.2 = code;
+            }
             acc
         },
     )(input)
@@ -520,7 +526,9 @@ pub fn path_decode_uri_inplace(
     {
         path.clear();
         path.add(consumed.as_slice());
-        *status = expected_status_code;
+        if expected_status_code != HtpUnwanted::IGNORE {
+            *status = expected_status_code;
+        }
         flag.set(flags);
     }
 }
-- 
2.43.0


From b2f387ae3895a08a8381ae9bcf7de5ee3ab1b7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 22/23] fix: expect the configured status for invalid encodings
 and NUL bytes in a path

The status for an invalid percent encoding was discarded unless the percent
sign was removed, those for raw and encoded NUL bytes unless they ended the
path.
---
 src/urlencoded.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index e5e4fd3..cc0d4b1 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -325,13 +325,15 @@ fn path_decode_valid_hex(
         not(tag_no_case("u"))(remaining_input)?;
         let (mut left, hex) = take_while_m_n(2, 2, |c: u8| c.is_ascii_hexdigit())(remaining_input)?;
         let mut flags = 0;
+        let mut expected_status_code = HtpUnwanted::IGNORE;
         // Convert from hex.
         let (_, mut byte) = x2c(hex)?;
         if byte == 0 {
             flags.set(HtpFlags::PATH_ENCODED_NUL);
+            expected_status_code = cfg.nul_encoded_unwanted;
             if cfg.nul_encoded_terminates {
                 // Terminate the path at the raw NUL byte.
-                return Ok((b"", (byte, cfg.nul_encoded_unwanted, flags, false)));
+                return Ok((b"", (byte, expected_status_code, flags, false)));
             }
         }
         if byte == b'/' || (cfg.backslash_convert_slashes && byte == b'\\') {
@@ -342,7 +344,10 @@ fn path_decode_valid_hex(
                 left = original_remaining;
             }
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((left, (byte, expected_status_code, flags, true)))
     }
 }
@@ -361,7 +366,7 @@ fn path_decode_invalid_hex(
         let mut byte = b'%';
         // Invalid encoding
         let flags = HtpFlags::PATH_INVALID_ENCODING;
-        let expected_status_code = cfg.url_encoding_invalid_unwanted;
+        let mut expected_status_code = cfg.url_encoding_invalid_unwanted;
         if cfg.url_encoding_invalid_handling == HtpUrlEncodingHandling::REMOVE_PERCENT {
             // Do not place anything in output; consume the %.
             return Ok((remaining_input, (byte, expected_status_code, flags, false)));
@@ -371,7 +376,10 @@ fn path_decode_invalid_hex(
             remaining = left;
             byte = b;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
+        }
         Ok((remaining, (byte, expected_status_code, flags, true)))
     }
 }
@@ -439,11 +447,18 @@ fn path_parse_other(
         let (remaining_input, byte) = be_u8(i)?;
         // One non-encoded byte.
         // Did we get a raw NUL byte?
-        if byte == 0 && cfg.nul_raw_terminates {
-            // Terminate the path at the encoded NUL byte.
-            return Ok((b"", (byte, cfg.nul_raw_unwanted, 0, false)));
+        let mut expected_status_code = HtpUnwanted::IGNORE;
+        if byte == 0 {
+            expected_status_code = cfg.nul_raw_unwanted;
+            if cfg.nul_raw_terminates {
+                // Terminate the path at the encoded NUL byte.
+                return Ok((b"", (byte, expected_status_code, 0, false)));
+            }
+        }
+        let (byte, code) = path_decode_control(byte, cfg);
+        if code != HtpUnwanted::IGNORE {
+            expected_status_code = code;
         }
-        let (byte, expected_status_code) = path_decode_control(byte, cfg);
         Ok((remaining_input, (byte, expected_status_code, 0, true)))
     }
 }
-- 
2.43.0


From e2543cad33a899a1581fbbdd8b5609bd25541bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:03 +0000
Subject: [PATCH 23/23] fix: react to encoded path separators as configured

path_separators_encoded_unwanted was never looked at.
---
 src/urlencoded.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/urlencoded.rs b/src/urlencoded.rs
index cc0d4b1..cc6e1c6 100644
--- a/src/urlencoded.rs
+++ b/src/urlencoded.rs
@@ -207,7 +207,10 @@ fn path_decode_u_encoding<'a>(
     }
     // Check for encoded path separators
     if r == b'/' || cfg.backslash_convert_slashes && r == b'\\' {
-        flags.set(HtpFlags::PATH_ENCODED_SEPARATOR)
+        flags.set(HtpFlags::PATH_ENCODED_SEPARATOR);
+        if cfg.path_separators_encoded_unwanted != HtpUnwanted::IGNORE {
+            expected_status_code = cfg.path_separators_encoded_unwanted;
+        }
     }
     Ok((i, (r, flags, expected_status_code)))
 }
@@ -338,6 +341,7 @@ fn path_decode_valid_hex(
         }
         if byte == b'/' || (cfg.backslash_convert_slashes && byte == b'\\') {
             flags.set(HtpFlags::PATH_ENCODED_SEPARATOR);
+            expected_status_code = cfg.path_separators_encoded_unwanted;
             if !cfg.path_separators_decode {
                 // Leave encoded
                 byte = b'%';
-- 
2.43.0

