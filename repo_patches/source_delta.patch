From 9c862cb21c838627e4cc873dd16907153cbec89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 01/19] fix: compressing empty input with lzss_huff or lzhuf
 panicked or hung

---
 src/direct_ports/lzhuf.rs | 5 +++++
 src/lzss_huff.rs          | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 1c8139f..f4220b6 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -631,6 +631,11 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             }
         }
     }
+    if len == 0 {
+        // nothing to encode, as in LZHUF.C only the header is written
+        writer.flush()?;
+        return Ok((expanded_length,writer.stream_position()?));
+    }
     for i in 1..=LOOKAHEAD {
         lzss.insert_node(r-i);
     }
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 27a8bc7..8e953bd 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -265,6 +265,11 @@ where R: Read + Seek, W: Write + Seek {
             }
         }
     }
+    if len == 0 {
+        // nothing to encode
+        writer.flush()?;
+        return Ok((expanded_length,writer.stream_position()? - opt.out_offset));
+    }
     for _i in 1..=opt.lookahead {
         lzss.dictionary.retreat();
         lzss.insert_node()?;
-- 
2.43.0


From bf2add67bc498b0d9f622f0053dcc31d93683fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 02/19] fix: Huffman codes longer than 16 bits lost their
 leading bits

---
 src/direct_ports/lzhuf.rs  | 12 ++++++------
 src/tools/adaptive_huff.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index f4220b6..7c596de 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -521,9 +521,9 @@ impl AdaptiveHuffman {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -539,7 +539,7 @@ impl AdaptiveHuffman {
         }
     }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut i: u16 = 0;
+        let mut i: u32 = 0; // codes can be longer than 16 bits
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
         // travel from leaf to root
@@ -547,7 +547,7 @@ impl AdaptiveHuffman {
             i >>= 1;
             // if node's address is odd-numbered, choose bigger brother node
             if k & 1 > 0 {
-                i += 0x8000;
+                i += 0x8000_0000;
             }
             j += 1;
             k = self.prnt[k];
@@ -561,9 +561,9 @@ impl AdaptiveHuffman {
     fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
     }
     fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
         let mut c: usize = self.son[ROOT];
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 2c73207..e3d3012 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,9 +310,9 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u16,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
         for _i in 0..num_bits {
-            self.bits.push(code & 0x8000 > 0);
+            self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
@@ -328,7 +328,7 @@ impl AdaptiveHuffmanCoder {
         }
     }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
-        let mut code: u16 = 0;
+        let mut code: u32 = 0; // codes can be longer than 16 bits
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
         // This is the Huffman scheme: going from leaf to root, add a 0 bit if we
@@ -336,7 +336,7 @@ impl AdaptiveHuffmanCoder {
         loop {
             code >>= 1;
             // if node's address is odd-numbered, we are coming from the right
-            code += (curr_node as u16 & 1) << 15;
+            code += (curr_node as u32 & 1) << 31;
             num_bits += 1;
             curr_node = self.tree.parent[curr_node];
             if curr_node==self.tree.root {
@@ -349,9 +349,9 @@ impl AdaptiveHuffmanCoder {
     pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u16) << 8,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
         // lower 6 bits verbatim
-        self.put_code(6,(c & 0x3f) << 10,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
     }
 }
 
-- 
2.43.0


From b916a81559afaaa7124becdb2fab9a096b482e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 03/19] fix: lzss_huff::expand stopped early when out_offset
 was used with a header

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 8e953bd..8616173 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -352,7 +352,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0


From 2c25fc7b738b0260144f9621812fe80762e2896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 04/19] fix: lzss_huff::compress refused a file of exactly
 max_file_size

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 8616173..8cb7a3a 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,7 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length >= opt.max_file_size {
+    if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From 7c7e643256a9532171da07982bd9fa94606c2de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 05/19] fix: lzhuf::decode left the header out of the
 compressed size it reports

---
 src/direct_ports/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 7c596de..ebd43eb 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -731,7 +731,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((huff.count as u64,writer.stream_position()?))
+    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()?))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From 670173b5f0bfa35dba41818ddb666505eeac3bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 06/19] fix: lzw::expand panicked when the first code of a
 chunk was not a symbol

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 05168c8..996e5d6 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -549,11 +549,11 @@ where R: Read + Seek, W: Write + Seek {
             };
             match lzw.dictionary.contains_key(&Link::root(code).hash()) {
                 false => {
-                    prev_str.push(prev_str[0]);
                     if next_code.is_none() {
                         log::error!("new code was needed but none were available");
                         return Err(Box::new(crate::Error::FileFormatMismatch));
                     }
+                    prev_str.push(prev_str[0]);
                     if code != next_code.unwrap() {
                         log::error!("Bad LZW code, expected {}, got {}",next_code.unwrap(),code);
                         return Err(Box::new(crate::Error::FileFormatMismatch));
-- 
2.43.0


From 635c07ffba82c3ea95ffb33820960e613b3cbb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 07/19] fix: lzw::expand could lose part of a long string on a
 short write

---
 src/lzw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 996e5d6..7e50b71 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -567,7 +567,7 @@ where R: Read + Seek, W: Write + Seek {
                 lzw.dictionary.insert(Link::root(next_code).hash(),Link::create(prev_code,prev_str[0] as usize));
                 log::trace!("add {} linking to {}.{}",next_code,prev_code,prev_str[0]);
             }
-            writer.write(&prev_str)?;
+            writer.write_all(&prev_str)?;
             log::trace!("  write {} as {:?}",code,prev_str);
             prev_code = Some(code);
         }
-- 
2.43.0


From bc00576d178fb1a717d038a2aaa57696719d4e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 08/19] fix: I/O errors while compressing, or in lzhuf::decode,
 panicked instead of being returned

---
 src/direct_ports/lzhuf.rs  | 58 +++++++++++++++++++-------------------
 src/lzss_huff.rs           |  6 ++--
 src/lzw.rs                 | 21 +++++++-------
 src/tools/adaptive_huff.rs | 18 ++++++------
 4 files changed, 53 insertions(+), 50 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index ebd43eb..b38ebce 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -486,11 +486,11 @@ impl AdaptiveHuffman {
     /// Get the next bit reading from the `bytes` iterator as needed.
     /// When EOF is reached 0 is returned, consistent with original C code.
     /// Byte iterator should not be advanced outside this function.
-    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_bit<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         match self.bits.get(self.ptr) {
             Some(bit) => {
                 self.ptr += 1;
-                bit as u8
+                Ok(bit as u8)
             },
             None => {
                 match bytes.next() {
@@ -502,43 +502,42 @@ impl AdaptiveHuffman {
                         self.count += 1;
                         self.get_bit(bytes)
                     }
-                    Some(Err(e)) => {
-                        panic!("error reading file {}",e)
-                    },
-                    None => 0
+                    Some(Err(e)) => Err(e),
+                    None => Ok(0)
                 }
             }
         }
     }
     /// get the next 8 bits into a u8, used exlusively to decode the position
-    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u8 {
+    fn get_byte<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u8,std::io::Error> {
         let mut ans: u8 = 0;
         for _i in 0..8 {
             ans <<= 1;
-            ans |= self.get_bit(bytes);
+            ans |= self.get_bit(bytes)?;
         }
-        ans
+        Ok(ans)
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes)?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut i: u32 = 0; // codes can be longer than 16 bits
         let mut j: u16 = 0;
         let mut k: usize = self.prnt[c as usize + TAB_SIZE];
@@ -555,40 +554,41 @@ impl AdaptiveHuffman {
                 break;
             }
         }
-        self.put_code(j,i,writer);
+        self.put_code(j,i,writer)?;
         self.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer)
     }
-    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> i16 {
+    fn decode_char<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<i16,std::io::Error> {
         let mut c: usize = self.son[ROOT];
         // travel from root to leaf, choosing the smaller child node (son[])
         // if the read bit is 0, the bigger (son[]+1) if read bit is 1
         while c < TAB_SIZE {
-            c += self.get_bit(bytes) as usize;
+            c += self.get_bit(bytes)? as usize;
             c = self.son[c];
         }
         c -= TAB_SIZE;
         self.update(c as i16); // TODO: why is input to update signed
-        c as i16
+        Ok(c as i16)
     }
-    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> u16 {
+    fn decode_position<R: Read>(&mut self,bytes: &mut Bytes<R>) -> Result<u16,std::io::Error> {
         // get upper 6 bits from table
-        let mut first8 = self.get_byte(bytes) as u16;
+        let mut first8 = self.get_byte(bytes)? as u16;
         let upper6 = (D_CODE[first8 as usize] as u16) << 6;
         let coded_bits = D_LEN[first8 as usize] as u16;
         // read lower 6 bits verbatim
         // we already got 8 bits, we need another 6 - (8-coded_bits) = coded_bits - 2
         for _i in 0..coded_bits-2 {
             first8 <<= 1;
-            first8 += self.get_bit(bytes) as u16;
+            first8 += self.get_bit(bytes)? as u16;
         }
-        upper6 | (first8 & 0x3f)
+        Ok(upper6 | (first8 & 0x3f))
     }
 }
 
@@ -647,10 +647,10 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
         if lzss.match_length <= THRESHOLD {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary[r] as u16,&mut writer);
+            huff.encode_char(lzss.dictionary[r] as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_position as u16,&mut writer);
+            huff.encode_char((255-THRESHOLD+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_position as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
@@ -712,14 +712,14 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
 	while writer.stream_position()? < textsize as u64 {
-		let c = huff.decode_char(&mut bytes);
+		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
 			lzss.dictionary[r] = c as u8;
             r += 1;
 			r &= WIN_SIZE - 1;
 		} else {
-			let strpos = ((r as i32 - huff.decode_position(&mut bytes) as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
+			let strpos = ((r as i32 - huff.decode_position(&mut bytes)? as i32 - 1) & (WIN_SIZE as i32 - 1)) as usize;
 			let strlen = c as usize + THRESHOLD - 255;
 			for k in 0..strlen {
 				let c8 = lzss.dictionary[(strpos + k) & (WIN_SIZE - 1)];
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 8cb7a3a..88e38a2 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -283,10 +283,10 @@ where R: Read + Seek, W: Write + Seek {
         }
         if lzss.match_length <= opt.threshold {
             lzss.match_length = 1;
-            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer);
+            huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer);
-            huff.encode_position(lzss.match_offset as u16,&mut writer);
+            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
         let mut i = 0;
diff --git a/src/lzw.rs b/src/lzw.rs
index 7e50b71..970f00a 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -128,7 +128,7 @@ impl LZWCoder {
     /// output `num_bits` of `code` in given bit-order, the bits are always
     /// written to the output stream (sometimes backing up and rewriting) such that
     /// the start of the bit vector stays aligned.
-    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) {
+    pub fn put_code<W: Write + Seek>(&mut self,num_bits: usize,mut code: usize,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let bytes = match self.ord {
             BitOrder::Msb0 => {
                 code <<= usize::BITS as usize - num_bits;
@@ -149,9 +149,9 @@ impl LZWCoder {
                 bits_to_bytes_lsb0(&self.bits)
             }
         };
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes)?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
@@ -159,6 +159,7 @@ impl LZWCoder {
             self.ptr = 0;
         }
         self.count += 1;
+        Ok(())
     }
 }
 
@@ -404,7 +405,7 @@ where R: Read + Seek, W: Write + Seek {
         writer.seek(SeekFrom::Start(write_offset_header))?;
         //placeholder for header 
         if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer);
+            coder.put_code(opt.header_bits,0,&mut writer)?;
         }
         coder.count = 0;
         //let mut lookahead = 0;
@@ -433,14 +434,14 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer);
+                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer);
+                            coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
                         writer.seek(SeekFrom::End(0))?; // coder could be rewound
@@ -453,19 +454,19 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer);
+            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer);
+                    coder.put_code(opt.max_code_width,code,&mut writer)?;
                 }
                 let save_offset = writer.stream_position()?;
                 if opt.header_bits > 0 {
                     writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer);
+                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                 }
                 old_coder_state = coder.clone();
                 write_offset_header = save_offset;
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index e3d3012..429cbea 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -310,24 +310,25 @@ impl AdaptiveHuffmanCoder {
     }
     /// output `num_bits` of `code` starting from the MSB, unlike LZHUF.C the bits are always
     /// written to the output stream (sometimes backing up and rewriting)
-    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) {
+    fn put_code<W: Write + Seek>(&mut self,num_bits: u16,mut code: u32,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         for _i in 0..num_bits {
             self.bits.push(code & 0x8000_0000 > 0);
             code <<= 1;
             self.ptr += 1;
         }
         let bytes = self.bits.to_bytes();
-        writer.write(&bytes.as_slice()).expect("write err");
+        writer.write_all(&bytes)?;
         if self.bits.len() % 8 > 0 {
-            writer.seek(SeekFrom::Current(-1)).expect("seek err");
+            writer.seek(SeekFrom::Current(-1))?;
             self.ptr = 8 * (self.bits.len() / 8);
             self.drop_leading_bits();
         } else {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
     }
-    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u32 = 0; // codes can be longer than 16 bits
         let mut num_bits: u16 = 0;
         let mut curr_node: usize = self.tree.symb_map[c as usize];
@@ -343,15 +344,16 @@ impl AdaptiveHuffmanCoder {
                 break;
             }
         }
-        self.put_code(num_bits,code,writer);
+        self.put_code(num_bits,code,writer)?;
         self.tree.update(c as i16); // TODO: why is input to update signed
+        Ok(())
     }
-    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) {
+    pub fn encode_position<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         // upper 6 bits come from table
         let i = (c >> 6) as usize;
-        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer);
+        self.put_code(P_LEN[i] as u16,(P_CODE[i] as u32) << 24,writer)?;
         // lower 6 bits verbatim
-        self.put_code(6,(c as u32 & 0x3f) << 26,writer);
+        self.put_code(6,(c as u32 & 0x3f) << 26,writer)
     }
 }
 
-- 
2.43.0


From 8e3a264100fbbfe8c5139544bb0c02ee7ca1567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:04 +0000
Subject: [PATCH 09/19] fix: compressors reported the size of a longer output
 that was there before, not of what they wrote

---
 src/direct_ports/lzhuf.rs  | 10 ++++++++--
 src/lzss_huff.rs           |  3 +--
 src/lzw.rs                 | 12 ++++++++++--
 src/tools/adaptive_huff.rs |  7 +++++++
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index b38ebce..5a980fc 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -537,6 +537,13 @@ impl AdaptiveHuffman {
         }
         Ok(())
     }
+    /// put the writer at the end of the codes, it could have been left on a partially filled byte
+    fn finish<W: Write + Seek>(&self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        writer.flush()
+    }
     fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut i: u32 = 0; // codes can be longer than 16 bits
         let mut j: u16 = 0;
@@ -686,8 +693,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
-    writer.flush()?;
+    huff.finish(&mut writer)?;
     Ok((expanded_length,writer.stream_position()?))
 }
 
diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 88e38a2..6fff978 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -315,8 +315,7 @@ where R: Read + Seek, W: Write + Seek {
             break;
         }
     }
-    writer.seek(SeekFrom::End(0))?; // coder could be rewound
-    writer.flush()?;
+    huff.finish(&mut writer)?;
     Ok((expanded_length,writer.stream_position()? - opt.out_offset))
 }
 
diff --git a/src/lzw.rs b/src/lzw.rs
index 970f00a..7989a00 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -161,6 +161,13 @@ impl LZWCoder {
         self.count += 1;
         Ok(())
     }
+    /// put the writer at the end of the codes, it could have been left on a partially filled byte
+    pub fn finish<W: Write + Seek>(&self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        writer.flush()
+    }
 }
 
 impl LZWDecoder {
@@ -439,13 +446,14 @@ where R: Read + Seek, W: Write + Seek {
                         if let Some(code) = opt.stop_code {
                             coder.put_code(opt.max_code_width,code,&mut writer)?;
                         }
+                        let save_offset = writer.stream_position()?;
                         if opt.header_bits > 0 {
                             writer.seek(SeekFrom::Start(write_offset_header))?;
                             old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::End(0))?; // coder could be rewound
-                        writer.flush()?;
+                        writer.seek(SeekFrom::Start(save_offset))?;
+                        coder.finish(&mut writer)?;
                         return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                     },
                     Err(e) => return Err(Box::new(e))
diff --git a/src/tools/adaptive_huff.rs b/src/tools/adaptive_huff.rs
index 429cbea..7bc6333 100644
--- a/src/tools/adaptive_huff.rs
+++ b/src/tools/adaptive_huff.rs
@@ -328,6 +328,13 @@ impl AdaptiveHuffmanCoder {
         }
         Ok(())
     }
+    /// put the writer at the end of the codes, it could have been left on a partially filled byte
+    pub fn finish<W: Write + Seek>(&self,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if self.bits.len() > 0 {
+            writer.seek(SeekFrom::Current(1))?;
+        }
+        writer.flush()
+    }
     pub fn encode_char<W: Write + Seek>(&mut self,c: u16,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         let mut code: u32 = 0; // codes can be longer than 16 bits
         let mut num_bits: u16 = 0;
-- 
2.43.0


From 3c89408e9a9d75560a89efb05206cbc62f47cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 10/19] fix: lzw::compress corrupted the data when a chunk
 header did not start on a byte boundary

---
 src/lzw.rs | 51 ++++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/lzw.rs b/src/lzw.rs
index 7989a00..454c54e 100644
--- a/src/lzw.rs
+++ b/src/lzw.rs
@@ -92,7 +92,6 @@ fn bytes_to_bits_lsb0(bytes: &[u8]) -> BitVec {
     ans
 }
 
-#[derive(Clone)]
 struct LZWCoder {
     bits: BitVec,
     ptr: usize,
@@ -158,7 +157,24 @@ impl LZWCoder {
             self.bits = BitVec::new();
             self.ptr = 0;
         }
+        Ok(())
+    }
+    /// output a code of the current chunk, holding it back if the chunk needs a header
+    fn put_chunk_code<W: Write + Seek>(&mut self,code: usize,chunk: &mut Vec<usize>,opt: &Options,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
         self.count += 1;
+        match opt.header_bits {
+            0 => self.put_code(opt.max_code_width,code,writer),
+            _ => Ok(chunk.push(code))
+        }
+    }
+    /// if the chunk needs a header, output the header and the codes that were held back
+    fn close_chunk<W: Write + Seek>(&mut self,chunk: &mut Vec<usize>,opt: &Options,writer: &mut BufWriter<W>) -> Result<(),std::io::Error> {
+        if opt.header_bits > 0 {
+            self.put_code(opt.header_bits,self.count*opt.max_code_width/opt.header_divisor,writer)?;
+        }
+        for code in chunk.drain(..) {
+            self.put_code(opt.max_code_width,code,writer)?;
+        }
         Ok(())
     }
     /// put the writer at the end of the codes, it could have been left on a partially filled byte
@@ -399,21 +415,17 @@ where R: Read + Seek, W: Write + Seek {
     if expanded_length > opt.max_file_size {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
-    let mut write_offset_header = opt.out_offset;
     let mut read_chunk_offset = opt.in_offset;
-    let mut old_coder_state = LZWCoder::new(opt.ord.clone());
+    // codes of a chunk that has a header are held back until the header is known
+    let mut chunk = Vec::new();
     let mut sym_in: [u8;1] = [0];
+    writer.seek(SeekFrom::Start(opt.out_offset))?;
 
     log::debug!("entering loop over chunks");
     loop {
         log::debug!("create LZW dictionary");
         let mut lzw = LZW::create(opt.clone());
         reader.seek(SeekFrom::Start(read_chunk_offset))?;
-        writer.seek(SeekFrom::Start(write_offset_header))?;
-        //placeholder for header 
-        if opt.header_bits > 0 {
-            coder.put_code(opt.header_bits,0,&mut writer)?;
-        }
         coder.count = 0;
         //let mut lookahead = 0;
         log::debug!("entering loop over matches");
@@ -441,18 +453,13 @@ where R: Read + Seek, W: Write + Seek {
                     Err(e) if e.kind()==ErrorKind::UnexpectedEof => {
                         if let Some(curr) = &lzw.curr_match {
                             let val = lzw.dictionary.get(&curr.hash()).unwrap(); // should never panic
-                            coder.put_code(opt.max_code_width,val.code,&mut writer)?;
+                            coder.put_chunk_code(val.code,&mut chunk,opt,&mut writer)?;
                         }
                         if let Some(code) = opt.stop_code {
-                            coder.put_code(opt.max_code_width,code,&mut writer)?;
-                        }
-                        let save_offset = writer.stream_position()?;
-                        if opt.header_bits > 0 {
-                            writer.seek(SeekFrom::Start(write_offset_header))?;
-                            old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                            coder.put_chunk_code(code,&mut chunk,opt,&mut writer)?;
                         }
                         log::debug!("last chunk has {} codes",coder.count);
-                        writer.seek(SeekFrom::Start(save_offset))?;
+                        coder.close_chunk(&mut chunk,opt,&mut writer)?;
                         coder.finish(&mut writer)?;
                         return Ok((expanded_length,writer.stream_position()? - opt.out_offset))
                     },
@@ -462,22 +469,16 @@ where R: Read + Seek, W: Write + Seek {
             // should never panic
             let curr = lzw.dictionary.get(&lzw.curr_match.as_ref().unwrap().hash()).unwrap();
             log::trace!("code: {}",curr.code);
-            coder.put_code(opt.max_code_width,curr.code,&mut writer)?;
+            coder.put_chunk_code(curr.code,&mut chunk,opt,&mut writer)?;
             // backup to try the character that didn't match again
             reader.seek_relative(-1)?;
 
             if coder.count >= opt.chunk_size {
                 log::debug!("close chunk with {} codes",coder.count);
                 if let Some(code) = opt.clear_code {
-                    coder.put_code(opt.max_code_width,code,&mut writer)?;
-                }
-                let save_offset = writer.stream_position()?;
-                if opt.header_bits > 0 {
-                    writer.seek(SeekFrom::Start(write_offset_header))?;
-                    old_coder_state.put_code(opt.header_bits,coder.count*opt.max_code_width/opt.header_divisor,&mut writer)?;
+                    coder.put_chunk_code(code,&mut chunk,opt,&mut writer)?;
                 }
-                old_coder_state = coder.clone();
-                write_offset_header = save_offset;
+                coder.close_chunk(&mut chunk,opt,&mut writer)?;
                 // read-position should be on the last symbol that didn't match
                 read_chunk_offset = reader.stream_position()?;
                 break;
-- 
2.43.0


From 633ff197da5474ba9b60bc3239103c22685e40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 11/19] fix: lzss_huff::compress overflowed with a threshold
 above 255

---
 src/lzss_huff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 6fff978..2db3d8e 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -285,7 +285,7 @@ where R: Read + Seek, W: Write + Seek {
             lzss.match_length = 1;
             huff.encode_char(lzss.dictionary.get(0) as u16,&mut writer)?;
         } else {
-            huff.encode_char((255-opt.threshold+lzss.match_length) as u16,&mut writer)?;
+            huff.encode_char((255+lzss.match_length-opt.threshold) as u16,&mut writer)?;
             huff.encode_position(lzss.match_offset as u16,&mut writer)?;
         }
         let last_match_length = lzss.match_length;
-- 
2.43.0


From fab818745a404f1c511ca86e69add1884cfd87f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:12 +0000
Subject: [PATCH 12/19] fix: lzss_huff::compress stored a wrapped length in the
 header for more than 4 GB

---
 src/lzss_huff.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index 2db3d8e..b4d9a7d 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -230,7 +230,8 @@ where R: Read + Seek, W: Write + Seek {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
     let expanded_length = reader.seek(SeekFrom::End(0))? - opt.in_offset;
-    if expanded_length > opt.max_file_size {
+    // the header, if there is one, can only hold a 32-bit length
+    if expanded_length > opt.max_file_size || (opt.header && expanded_length > u32::MAX as u64) {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     reader.seek(SeekFrom::Start(opt.in_offset))?;
-- 
2.43.0


From 40c434461b9d3a79b80adb5ccc85cd2d4c3b36a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 13/19] fix: lzhuf::decode lost data, and both lzhuf operations
 misreported sizes, when the output cursor was not at 0

---
 src/direct_ports/lzhuf.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index 5a980fc..ea32b44 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -603,6 +603,8 @@ impl AdaptiveHuffman {
 pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_out: &mut W) -> Result<(u64,u64),DYNERR> {
     let mut reader = BufReader::new(expanded_in);
     let mut writer = BufWriter::new(compressed_out);
+    // the output may already hold something in front of the cursor
+    let start = writer.stream_position()?;
     // write the 32-bit header with length of expanded data
     let expanded_length = reader.seek(SeekFrom::End(0))?;
     if expanded_length >= u32::MAX as u64 {
@@ -641,7 +643,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     if len == 0 {
         // nothing to encode, as in LZHUF.C only the header is written
         writer.flush()?;
-        return Ok((expanded_length,writer.stream_position()?));
+        return Ok((expanded_length,writer.stream_position()? - start));
     }
     for i in 1..=LOOKAHEAD {
         lzss.insert_node(r-i);
@@ -694,7 +696,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
         }
     }
     huff.finish(&mut writer)?;
-    Ok((expanded_length,writer.stream_position()?))
+    Ok((expanded_length,writer.stream_position()? - start))
 }
 
 /// Main decompression function.
@@ -703,6 +705,8 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 {
     let mut reader = BufReader::new(compressed_in);
     let mut writer = BufWriter::new(expanded_out);
+    // the output may already hold something in front of the cursor
+    let start = writer.stream_position()?;
     // get size of expanded data from 32 bit header
     let mut header: [u8;4] = [0;4];
     reader.read_exact(&mut header)?;
@@ -717,7 +721,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
     }
 	let mut r = WIN_SIZE - LOOKAHEAD;
     // start expanding
-	while writer.stream_position()? < textsize as u64 {
+	while writer.stream_position()? - start < textsize as u64 {
 		let c = huff.decode_char(&mut bytes)?;
 		if c < 256 {
             writer.write(&[c as u8])?;
@@ -737,7 +741,7 @@ pub fn decode<R: Read + Seek , W: Write + Seek>(compressed_in: &mut R, expanded_
 		}
 	}
     writer.flush()?;
-    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()?))
+    Ok((header.len() as u64 + huff.count as u64,writer.stream_position()? - start))
 }
 
 /// Convenience function, calls `decode` with a slice returning a Vec
-- 
2.43.0


From 51297b69000475ab45b7a3171a8f1aa9c4fa80fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 14/19] fix: td0 operations mixed up the parts of an image when
 a cursor was not at 0

---
 src/td0.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/td0.rs b/src/td0.rs
index 2a3c41e..f483341 100644
--- a/src/td0.rs
+++ b/src/td0.rs
@@ -63,6 +63,9 @@ pub const TD_V2_OPTIONS: lzss_huff::Options = lzss_huff::Options {
 /// For Teledisk 1.x, the heavy lifting is done by the `lzw` module.
 pub fn expand<R,W>(compressed_in: &mut R, expanded_out: &mut W) -> Result<(u64,u64),DYNERR>
 where R: Read + Seek, W: Write + Seek {
+    // the image starts where the cursors are
+    let in_start = compressed_in.stream_position()?;
+    let out_start = expanded_out.stream_position()?;
     let mut td_header: [u8;12] = [0;12];
     compressed_in.read_exact(&mut td_header)?;
     if &td_header[0..2] != "td".as_bytes() {
@@ -78,10 +81,16 @@ where R: Read + Seek, W: Write + Seek {
     expanded_out.write_all(&td_header)?;
     // Dunfield's notes suggest looking at nibble values, but we find it is the decimal digits that count
     if td_header[4] < 20 {
-        let (in_size,out_size) = lzw::expand(compressed_in,expanded_out,&TD_V1_OPTIONS)?;
+        let mut opt = TD_V1_OPTIONS;
+        opt.in_offset += in_start;
+        opt.out_offset += out_start;
+        let (in_size,out_size) = lzw::expand(compressed_in,expanded_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     } else {
-        let (in_size,out_size) = lzss_huff::expand(compressed_in,expanded_out,&TD_V2_OPTIONS)?;
+        let mut opt = TD_V2_OPTIONS;
+        opt.in_offset += in_start;
+        opt.out_offset += out_start;
+        let (in_size,out_size) = lzss_huff::expand(compressed_in,expanded_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     }
 }
@@ -91,6 +100,9 @@ where R: Read + Seek, W: Write + Seek {
 /// For Teledisk 1.x, the heavy lifting is done by the `lzw` module.
 pub fn compress<R,W>(expanded_in: &mut R, compressed_out: &mut W) -> Result<(u64,u64),DYNERR>
 where R: Read + Seek, W: Write + Seek {
+    // the image starts where the cursors are
+    let in_start = expanded_in.stream_position()?;
+    let out_start = compressed_out.stream_position()?;
     let mut td_header: [u8;12] = [0;12];
     expanded_in.read_exact(&mut td_header)?;
     if &td_header[0..2] != "TD".as_bytes() {
@@ -106,10 +118,16 @@ where R: Read + Seek, W: Write + Seek {
     compressed_out.write_all(&td_header)?;
     // Dunfield's notes suggest looking at nibble values, but we find it is the decimal digits that count
     if td_header[4] < 20 {
-        let (in_size,out_size) = lzw::compress(expanded_in,compressed_out,&TD_V1_OPTIONS)?;
+        let mut opt = TD_V1_OPTIONS;
+        opt.in_offset += in_start;
+        opt.out_offset += out_start;
+        let (in_size,out_size) = lzw::compress(expanded_in,compressed_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     } else {
-        let (in_size,out_size) = lzss_huff::compress(expanded_in,compressed_out,&TD_V2_OPTIONS)?;
+        let mut opt = TD_V2_OPTIONS;
+        opt.in_offset += in_start;
+        opt.out_offset += out_start;
+        let (in_size,out_size) = lzss_huff::compress(expanded_in,compressed_out,&opt)?;
         Ok((in_size+td_header.len() as u64,out_size+td_header.len() as u64))
     }
 }
-- 
2.43.0


From 38b471f39d04b40adeb141e6792265b434c3921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 15/19] fix: the executable panicked when the answer to its
 prompt could not be read

---
 src/main.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index f44b9d7..9c7c7a0 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -4,18 +4,18 @@ type STDRESULT = Result<(),Box<dyn std::error::Error>>;
 
 const RCH: &str = "unreachable was reached";
 
-fn ok_to_overwrite(path_out: &str) -> bool {
+fn ok_to_overwrite(path_out: &str) -> Result<bool,std::io::Error> {
     if let Ok(_f) = std::fs::File::open(path_out) {
         let mut ans = String::new();
         eprint!("{} exists, overwrite? (y/n) ",path_out);
-        std::io::stdin().read_line(&mut ans).expect("could not read stdin");
+        std::io::stdin().read_line(&mut ans)?;
         if ans.trim_end()=="y" || ans.trim_end()=="Y" {
             log::warn!("existing file will not be truncated");
-            return true;
+            return Ok(true);
         }
-        return false;
+        return Ok(false);
     }
-    true
+    Ok(true)
 }
 
 fn main() -> STDRESULT
@@ -52,7 +52,7 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
         let path_in = cmd.get_one::<String>("input").expect(RCH);
         let path_out = cmd.get_one::<String>("output").expect(RCH);
         let method = cmd.get_one::<String>("method").expect(RCH);
-        if !ok_to_overwrite(path_out) {
+        if !ok_to_overwrite(path_out)? {
             eprintln!("abort operation");
             return Ok(());
         }
@@ -76,7 +76,7 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
         let path_in = cmd.get_one::<String>("input").expect(RCH);
         let path_out = cmd.get_one::<String>("output").expect(RCH);
         let method = cmd.get_one::<String>("method").expect(RCH);
-        if !ok_to_overwrite(path_out) {
+        if !ok_to_overwrite(path_out)? {
             eprintln!("abort operation");
             return Ok(());
         }
-- 
2.43.0


From ed7e3e5d7247cba4f610583161061ef450924f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 16/19] fix: an existing output that cannot be read was
 overwritten without asking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 9c7c7a0..175d3b9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -5,7 +5,7 @@ type STDRESULT = Result<(),Box<dyn std::error::Error>>;
 const RCH: &str = "unreachable was reached";
 
 fn ok_to_overwrite(path_out: &str) -> Result<bool,std::io::Error> {
-    if let Ok(_f) = std::fs::File::open(path_out) {
+    if std::fs::metadata(path_out).is_ok() {
         let mut ans = String::new();
         eprint!("{} exists, overwrite? (y/n) ",path_out);
         std::io::stdin().read_line(&mut ans)?;
-- 
2.43.0


From b39c5156a80edf274465a9834c6d6cd2fc69e0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 17/19] fix: the executable destroyed its input when the output
 was the same file

---
 src/main.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 175d3b9..a1a2ddf 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -4,6 +4,24 @@ type STDRESULT = Result<(),Box<dyn std::error::Error>>;
 
 const RCH: &str = "unreachable was reached";
 
+/// whether both paths lead to the same existing file, which cannot be
+/// read and written at the same time
+fn same_file(path_in: &str,path_out: &str) -> bool {
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::MetadataExt;
+        match (std::fs::metadata(path_in),std::fs::metadata(path_out)) {
+            (Ok(a),Ok(b)) => a.is_file() && (a.dev(),a.ino())==(b.dev(),b.ino()),
+            _ => false
+        }
+    }
+    #[cfg(not(unix))]
+    match (std::fs::canonicalize(path_in),std::fs::canonicalize(path_out)) {
+        (Ok(a),Ok(b)) => a==b,
+        _ => false
+    }
+}
+
 fn ok_to_overwrite(path_out: &str) -> Result<bool,std::io::Error> {
     if std::fs::metadata(path_out).is_ok() {
         let mut ans = String::new();
@@ -52,6 +70,10 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
         let path_in = cmd.get_one::<String>("input").expect(RCH);
         let path_out = cmd.get_one::<String>("output").expect(RCH);
         let method = cmd.get_one::<String>("method").expect(RCH);
+        if same_file(path_in,path_out) {
+            eprintln!("input and output are the same file");
+            return Err(Box::new(std::fmt::Error));
+        }
         if !ok_to_overwrite(path_out)? {
             eprintln!("abort operation");
             return Ok(());
@@ -76,6 +98,10 @@ Expand:        `retrocompressor expand -m lzss_huff -i my_expanded -o my_compres
         let path_in = cmd.get_one::<String>("input").expect(RCH);
         let path_out = cmd.get_one::<String>("output").expect(RCH);
         let method = cmd.get_one::<String>("method").expect(RCH);
+        if same_file(path_in,path_out) {
+            eprintln!("input and output are the same file");
+            return Err(Box::new(std::fmt::Error));
+        }
         if !ok_to_overwrite(path_out)? {
             eprintln!("abort operation");
             return Ok(());
-- 
2.43.0


From baf54229c610e1c979e6abdf6564f51feb6985b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 18/19] fix: lzhuf::encode refused a file of exactly 2^32-1
 bytes

---
 src/direct_ports/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/direct_ports/lzhuf.rs b/src/direct_ports/lzhuf.rs
index ea32b44..572d38c 100644
--- a/src/direct_ports/lzhuf.rs
+++ b/src/direct_ports/lzhuf.rs
@@ -607,7 +607,7 @@ pub fn encode<R: Read + Seek, W: Write + Seek>(expanded_in: &mut R, compressed_o
     let start = writer.stream_position()?;
     // write the 32-bit header with length of expanded data
     let expanded_length = reader.seek(SeekFrom::End(0))?;
-    if expanded_length >= u32::MAX as u64 {
+    if expanded_length > u32::MAX as u64 {
         return Err(Box::new(crate::Error::FileTooLarge));
     }
     let header = u32::to_le_bytes(expanded_length as u32);
-- 
2.43.0


From 4134d813b3c6b1281ec8e265bd22c06a8b5481e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 19/19] fix: lzss_huff::expand without a header stopped
 silently at 2^32-1 bytes

---
 src/lzss_huff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lzss_huff.rs b/src/lzss_huff.rs
index b4d9a7d..9deefd8 100644
--- a/src/lzss_huff.rs
+++ b/src/lzss_huff.rs
@@ -339,9 +339,9 @@ where R: Read + Seek, W: Write + Seek {
         true => {
             let mut header: [u8;4] = [0;4];
             reader.read_exact(&mut header)?;
-            u32::from_le_bytes(header)
+            u32::from_le_bytes(header) as u64
         }
-       false => u32::MAX
+       false => u64::MAX
     };
     // init
     let mut huff = AdaptiveHuffmanDecoder::create(256 + opt.lookahead - opt.threshold);
@@ -352,7 +352,7 @@ where R: Read + Seek, W: Write + Seek {
     }
     lzss.dictionary.set_pos(start_pos);
     // start expanding
-	while writer.stream_position()? - opt.out_offset < max_expanded_size as u64 {
+	while writer.stream_position()? - opt.out_offset < max_expanded_size {
 		let c = match huff.decode_char(&mut reader) {
             Ok(c) => c,
             Err(e) if e.kind()==ErrorKind::UnexpectedEof => break,
-- 
2.43.0

