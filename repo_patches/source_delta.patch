From f30e653238f06d73220bfac6a7e41a10559c3b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:50 +0000
Subject: [PATCH 01/38] fix: XML_ResumeParser records how far it parsed, so
 nothing is parsed twice

resumeParser passed a temporary as the processor's in-out pointer and dropped
it: a second XML_ResumeParser or a later XML_Parse parsed the resumed input again.
---
 src/lib/xmlparse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..86c16fa 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2942,11 +2942,14 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        let mut start = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        // convert in-out parameter `start` from pointer back to index
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0


From a0cb2917a8a03d0eccc0c0a1c035eb108d488f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:50 +0000
Subject: [PATCH 02/38] fix: XML_GetCurrentByteIndex no longer panics when the
 event is at the end of the buffer

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 86c16fa..c0c61a0 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -850,7 +850,7 @@ impl XML_ParserStruct {
     // TODO(SJC): add a better err type
     fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
         if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
+            || p > self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
         {
             Err(())
         } else {
-- 
2.43.0


From 5c2c461cca3c771caf1d83e9d1972ac04eb41197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:03 +0000
Subject: [PATCH 03/38] fix: XML_GetCurrentLineNumber/ColumnNumber no longer
 panic after XML_GetBuffer moved the buffer

---
 src/lib/xmlparse.rs | 48 +++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c0c61a0..e2c938f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3079,6 +3079,26 @@ pub unsafe extern "C" fn XML_GetInputContext(
     /* defined XML_CONTEXT_BYTES */
     ptr::null()
 }
+impl XML_ParserStruct {
+    /* m_positionIdx is None when XML_GetBuffer has moved the buffer: there is no
+       current event then, and m_position already covers all that was parsed.
+    */
+    unsafe fn updatePositionToEvent(&mut self) {
+        let positionPtr = match self.m_positionIdx {
+            Some(idx) => self.m_buffer.as_ptr().wrapping_add(idx),
+            None => return,
+        };
+        if !self.m_eventPtr.is_null() && self.m_eventPtr >= positionPtr {
+            (*self.m_encoding).updatePosition(
+                ExpatBufRef::new(positionPtr, self.m_eventPtr),
+                &mut self.m_position,
+            );
+            self.m_positionIdx = Some(
+                self.m_eventPtr.wrapping_offset_from(self.m_buffer.as_ptr()) as usize
+            );
+        }
+    }
+}
 /* These functions return information about the current parse
    location.  They may be called from any callback called to report
    some parse event; in this case the location is the location of the
@@ -3104,19 +3124,7 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
-    if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
-        (*(*parser).m_encoding).updatePosition(
-            ExpatBufRef::new(
-                positionPtr,
-                (*parser).m_eventPtr,
-            ),
-            &mut (*parser).m_position,
-        );
-        (*parser).m_positionIdx = Some(
-            (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
-        );
-    }
+    (*parser).updatePositionToEvent();
     (*parser).m_position.lineNumber.wrapping_add(1)
 }
 #[no_mangle]
@@ -3124,19 +3132,7 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
-    if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
-        (*(*parser).m_encoding).updatePosition(
-            ExpatBufRef::new(
-                positionPtr,
-                (*parser).m_eventPtr,
-            ),
-            &mut (*parser).m_position,
-        );
-        (*parser).m_positionIdx = Some(
-            (*parser).m_eventPtr.wrapping_offset_from((*parser).m_buffer.as_ptr()) as usize
-        );
-    }
+    (*parser).updatePositionToEvent();
     (*parser).m_position.columnNumber
 }
 /* For backwards compatibility with previous versions. */
-- 
2.43.0


From 2751c1822f9f704baedd58ac7992831acd05851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:23 +0000
Subject: [PATCH 04/38] fix: XML_ParseBuffer rejects a negative length, as
 XML_Parse does

---
 src/lib/xmlparse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e2c938f..de346ef 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2756,6 +2756,10 @@ pub unsafe extern "C" fn XML_ParseBuffer(
     if parser.is_null() {
         return XML_Status::ERROR;
     }
+    if len < 0 {
+        (*parser).m_errorCode = XML_Error::INVALID_ARGUMENT;
+        return XML_Status::ERROR;
+    }
 
     (*parser).parseBuffer(len, isFinal)
 }
-- 
2.43.0


From 7f99b457ab69c89e3d3dcc1332e0189e4091d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:46 +0000
Subject: [PATCH 05/38] fix: an encoding name of exactly 127 bytes no longer
 panics

---
 src/lib/xmltok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..b85a9bb 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -2559,7 +2559,7 @@ pub fn findEncoding(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    /* out_buf is zeroed and p ends before its last byte, so it is terminated */
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
@@ -2587,7 +2587,7 @@ pub fn findEncodingNS(
     if !buf.is_empty() {
         return None;
     }
-    p[0] = 0;
+    /* out_buf is zeroed and p ends before its last byte, so it is terminated */
     unsafe {
         if streqci(out_buf.as_ptr(), KW_UTF_16.as_ptr()) != 0 && (*enc).minBytesPerChar() == 2 {
             return Some(enc.clone());
-- 
2.43.0


From d657e7425400a2f356b9934419f8e0c335657cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:57 +0000
Subject: [PATCH 06/38] fix: XML_ParserReset keeps the unknownEncodingHandler,
 as documented

---
 src/lib/xmlparse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index de346ef..efae9b6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1858,7 +1858,11 @@ impl XML_ParserStruct {
         self.m_temp2Pool.clear();
         FREE!(self.m_protocolEncodingName);
         self.m_protocolEncodingName = ptr::null();
+        let unknownEncodingHandler = self.m_handlers.m_unknownEncodingHandler;
+        let unknownEncodingHandlerData = self.m_handlers.m_unknownEncodingHandlerData;
         self.init(encodingName);
+        self.m_handlers.setUnknownEncoding(unknownEncodingHandler);
+        self.m_handlers.m_unknownEncodingHandlerData = unknownEncodingHandlerData;
         Rc::get_mut(&mut self.m_dtd).unwrap().reset();
         true
     }
-- 
2.43.0


From 42c9a7d0c0f8669a794dcb70b75164fe2f69b55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:01 +0000
Subject: [PATCH 07/38] fix: a parser suspended inside internal entities
 resumes where it stopped

The rest of an enclosing entity was lost (or UNEXPECTED_STATE reported), the
end-of-entity checks were skipped when nothing of the entity's text was left, a
child parser resumed with the document's content processor, raw tag names were
not saved, and a suspended parameter entity could close the doctype.
---
 src/lib/xmlparse.rs | 72 +++++++++++++--------------------------------
 1 file changed, 21 insertions(+), 51 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index efae9b6..15edf17 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7014,35 +7014,16 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            /* When suspended, the entity stays open even if nothing is left of its text:
+               an inner entity may be open, and the checks made at the end of an entity
+               have yet to be made.
+            */
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
                 (*entity).open = false;
-                if cfg!(feature = "mozilla") {
-                    if self.m_openInternalEntities == openEntity {
-                        self.m_openInternalEntities = (*openEntity).next;
-                    } else {
-			/* openEntity should be closed, but it contains an inner entity that is
-			still open. Remove openEntity from the openInternalEntities linked
-			list by looking for the inner entity in the list that links to
-			openEntity and fixing up its 'next' member
-			 */
-                        let mut innerOpenEntity = self.m_openInternalEntities;
-                        loop {
-                            if (*innerOpenEntity).next == openEntity {
-                                (*innerOpenEntity).next = (*openEntity).next;
-                                break;
-                            }
-                            innerOpenEntity = (*innerOpenEntity).next;
-                            if innerOpenEntity.is_null() {
-                                break;
-                            }
-                        }
-                    }
-                } else {
-                    self.m_openInternalEntities = (*openEntity).next;
-                }
+                self.m_openInternalEntities = (*openEntity).next;
                 /* put openEntity back in list of free instances */
                 (*openEntity).next = self.m_freeInternalEntities;
                 self.m_freeInternalEntities = openEntity
@@ -7081,7 +7062,7 @@ unsafe extern "C" fn internalEntityProcessor(
             next,
             &mut next,
             false,
-            true,
+            false,
         )
     } else {
         /* XML_DTD */
@@ -7096,7 +7077,7 @@ unsafe extern "C" fn internalEntityProcessor(
     if result != XML_Error::NONE {
         return result;
     } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
@@ -7108,34 +7089,23 @@ unsafe extern "C" fn internalEntityProcessor(
             (*parser).m_freeInternalEntities = openEntity
         }
     }
-    if (*entity).is_param {
+    if !(*parser).m_openInternalEntities.is_null() {
+        /* the rest of the enclosing entity comes first */
+        internalEntityProcessor(parser, buf, nextPtr)
+    } else if (*entity).is_param {
         (*parser).m_processor = Some(prologProcessor as Processor);
-        let tok_0 = (*(*parser).m_encoding).xmlTok(XML_STATE::PROLOG, buf, &mut next);
-        (*parser).doProlog(
-            EncodingType::Normal,
-            buf,
-            tok_0,
-            next,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-            true,
-        )
+        prologProcessor(parser, buf, nextPtr)
     } else {
         /* XML_DTD */
-        (*parser).m_processor = Some(contentProcessor as Processor);
         /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
-    } /* save one level of indirection */
+        if (*parser).is_child_parser {
+            (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
+            externalEntityContentProcessor(parser, buf, nextPtr)
+        } else {
+            (*parser).m_processor = Some(contentProcessor as Processor);
+            contentProcessor(parser, buf, nextPtr)
+        }
+    }
 }
 
 unsafe extern "C" fn errorProcessor(
-- 
2.43.0


From 197c335ab9839739f520cb30c9501ba52db87bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:08 +0000
Subject: [PATCH 08/38] fix: duplicate expanded attribute names are rejected in
 namespace-triplet mode too

---
 src/lib/xmlparse.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 15edf17..a85e98a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4533,26 +4533,23 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE {
                         return ret;
                     }
+                    /* store expanded name in attribute list; what must be unique is
+                       the expanded name without the prefix
+                    */
+                    self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
+                    let hk = HashKey::from(self.m_atts[i].name as KEY);
+                    self.m_nsAtts.insert(hk);
                     if self.m_ns_triplets {
                         /* append namespace separator and prefix */
-                        self.m_tempPool.replace_last_char(self.m_namespaceSeparator);
-                        s = (*(*b).prefix).name;
-                        loop {
-                            if !self.m_tempPool.append_char(*s) {
-                                return XML_Error::NO_MEMORY;
-                            }
-                            let fresh26 = s;
-                            s = s.offset(1);
-                            if !(*fresh26 != 0) {
-                                break;
-                            }
+                        if !self.m_tempPool.append_c_string(self.m_atts[i].name)
+                            || !self.m_tempPool.append_char(self.m_namespaceSeparator)
+                            || !self.m_tempPool.append_c_string((*(*b).prefix).name)
+                            || !self.m_tempPool.append_char('\u{0}' as XML_Char)
+                        {
+                            return XML_Error::NO_MEMORY;
                         }
+                        self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
                     }
-                    if ret != XML_Error::NONE { return ret; }
-                    /* store expanded name in attribute list */
-                    self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
-                    self.m_nsAtts.insert(hk);
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
                         i += 1;
-- 
2.43.0


From 62d61b5748d91201164b938bef9756ce86c1caf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:08 +0000
Subject: [PATCH 09/38] fix: the notStandalone handler is called once per
 parameter entity that was read, and only then

doPrologHandleEntityRef already makes the call when the reference was resolved
to an external entity that was read; the callers repeated it for every reference.
---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a85e98a..aab085b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6573,10 +6573,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6594,10 +6590,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From 66b4c75b4b1d8b5bc80b461cf71d89e3a60be925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:30 +0000
Subject: [PATCH 10/38] fix: the skippedEntity handler may call XML_SetBase

The handler ran while the DTD's string pool was mutably borrowed, so any use of
the pool from within it panicked.
---
 src/lib/xmlparse.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index aab085b..b5ac169 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3718,11 +3718,15 @@ impl XML_ParserStruct {
                                 }
                             }
                         } else if entity.is_null() {
-                            let skippedHandlerRan = self.m_dtd.pool.current_slice(|name| {
-                                self.m_handlers.skippedEntity(name.as_ptr(), 0)
-                            });
-
-                            self.m_dtd.pool.clear_current();
+                            // The handler may use the pool (XML_SetBase), so it must not
+                            // run while the name is still under construction there
+                            let skippedHandlerRan = if self.m_handlers.hasSkippedEntity() {
+                                let name = self.m_dtd.pool.finish_string().as_ptr();
+                                self.m_handlers.skippedEntity(name, 0)
+                            } else {
+                                self.m_dtd.pool.clear_current();
+                                false
+                            };
 
                             if !skippedHandlerRan && self.m_handlers.hasDefault() {
                                 if !cfg!(feature = "mozilla") {
@@ -6579,12 +6583,13 @@ impl XML_ParserStruct {
                             if role == super::xmlrole::XML_ROLE::PARAM_ENTITY_REF
                                 && self.m_handlers.hasSkippedEntity()
                             {
-                                self.m_dtd.pool.current_slice(|name| {
-                                    self.m_handlers.skippedEntity(name.as_ptr(), 1);
-                                });
+                                // the handler may use the pool, so finish the name first
+                                let name = self.m_dtd.pool.finish_string().as_ptr();
+                                self.m_handlers.skippedEntity(name, 1);
                                 handleDefault = false;
+                            } else {
+                                self.m_dtd.pool.clear_current();
                             }
-                            self.m_dtd.pool.clear_current();
                         } else {
                             self.m_dtd.pool.clear_current();
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
-- 
2.43.0


From 2d1daa56355a024dc87bdd1749a00196054e6314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:16 +0000
Subject: [PATCH 11/38] fix: ill-formed UTF-8 is rejected in names too

The naming tables were consulted without checking that the bytes form a
well-formed sequence, so e.g. C3 28 was accepted in an element name and handed to
the application (CVE-2022-25235 in libexpat).
---
 src/lib/xmltok.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index b85a9bb..d14a1b8 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -411,6 +411,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
 
     #[inline]
     fn is_name_char(&self, p: *const c_char, n: isize) -> bool {
+        if self.is_invalid_char(p, n) {
+            return false;
+        }
         unsafe {
             match n {
                 2 => {
@@ -443,6 +446,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
     }
     #[inline]
     fn is_nmstrt_char(&self, p: *const c_char, n: isize) -> bool {
+        if self.is_invalid_char(p, n) {
+            return false;
+        }
         unsafe {
             match n {
                 2 => {
-- 
2.43.0


From 2c818053172d951fe1f8cd122d1fe543b5092179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:39 +0000
Subject: [PATCH 12/38] fix: an unpaired high surrogate in UTF-16 input is
 rejected

It was combined with whatever code unit followed and delivered as another character.
---
 src/lib/xmltok.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index d14a1b8..49df9c3 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -877,8 +877,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, n: isize) -> bool {
+        /* a high surrogate must be followed by a low surrogate */
+        n == 4 && unsafe { *p.offset(3) as c_uchar & 0xfc != 0xdc }
     }
 
     #[inline]
@@ -1051,8 +1052,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, n: isize) -> bool {
+        /* a high surrogate must be followed by a low surrogate */
+        n == 4 && unsafe { *p.offset(2) as c_uchar & 0xfc != 0xdc }
     }
 
     #[inline]
-- 
2.43.0


From 0cabec5ccbae9f95c29b9bf96e88fd192dc98307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:50 +0000
Subject: [PATCH 13/38] fix: the xmlDecl handler gets the version and encoding
 names

The version was not cut at its closing quote, and with both a version and an
encoding the two shared one unfinished pool string: the version argument was the
encoding and the encoding argument pointed into memory being overwritten.
---
 src/lib/xmlparse.rs | 9 +++++----
 src/lib/xmltok.rs   | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index b5ac169..8093699 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5273,18 +5273,19 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
                     &*self.m_encoding,
-                    version_buf,
+                    /* without the closing quote */
+                    version_buf.dec_end((*self.m_encoding).minBytesPerChar() as usize),
                 );
                 if !successful {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedversion = self.m_temp2Pool.current_start();
+                storedversion = self.m_temp2Pool.finish_string().as_ptr();
             }
             self.m_handlers.xmlDecl(
                 storedversion,
@@ -5323,7 +5324,7 @@ impl XML_ParserStruct {
                         return XML_Error::NO_MEMORY;
                     }
 
-                    storedEncName = self.m_temp2Pool.current_start();
+                    storedEncName = self.m_temp2Pool.finish_string().as_ptr();
                 };
                 result = self.m_handlers.handleUnknownEncoding(storedEncName, self.m_ns, &mut self.m_encoding);
                 self.m_temp2Pool.clear();
diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 49df9c3..e19821b 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3021,7 +3021,7 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        *versionBuf = val_buf.map(|val| val.with_end(pseudo_ptr));
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
-- 
2.43.0


From 7a62c60892f2581c67438a3f7ea8cf45f8408ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:50 +0000
Subject: [PATCH 14/38] fix: an error after the encoding pseudo-attribute is
 located where it is, as for the other pseudo-attributes

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index e19821b..e86dafb 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3067,7 +3067,7 @@ fn doParseXmlDecl<'a>(
         ) };
         let mut pseudo_ptr = buf.as_ptr();
         if parsePseudoAttribute(enc, buf, &mut name, &mut val_buf, &mut pseudo_ptr) == 0 {
-            *badPtr = buf.as_ptr();
+            *badPtr = pseudo_ptr;
             return 0;
         }
         buf = buf.with_start(pseudo_ptr);
-- 
2.43.0


From 1f009032bf04b1539e920674ce57cbf4b0f92f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:13 +0000
Subject: [PATCH 15/38] fix: the value of an external parameter entity
 referenced in an entity value is stored completely

---
 src/lib/xmlparse.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 8093699..3327ff1 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5447,7 +5447,8 @@ unsafe extern "C" fn entityValueInitProcessor(
         (*parser).m_eventEndPtr = next;
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                /* keep the whole value until all of it is there */
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5544,9 +5545,10 @@ unsafe extern "C" fn externalParEntProcessor(
 
 unsafe extern "C" fn entityValueProcessor(
     mut parser: XML_Parser,
-    mut buf: ExpatBufRef,
+    init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
+    let mut buf = init_buf.clone();
     let mut next: *const c_char = buf.as_ptr();
     let mut enc: &ENCODING = &*(*parser).m_encoding;
     let mut tok = XML_TOK::INVALID;
@@ -5554,7 +5556,8 @@ unsafe extern "C" fn entityValueProcessor(
         tok = (*enc).xmlTok(XML_STATE::PROLOG, buf, &mut next);
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                /* keep the whole value until all of it is there */
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5568,7 +5571,7 @@ unsafe extern "C" fn entityValueProcessor(
                as valid, and report a syntax error, so we have to skip the BOM
             */
             /* found end of entity value - can store it now */
-            return storeEntityValue(parser, EncodingType::Normal, buf);
+            return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
         buf = buf.with_start(next);
     }
-- 
2.43.0


From ba06a459cd9bc6297db558cdc41a3ec44ffcd49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:13 +0000
Subject: [PATCH 16/38] fix: the byte-order mark of an external parameter
 entity is not part of the entity value referencing it

---
 src/lib/xmlparse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3327ff1..03f15bd 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5436,7 +5436,7 @@ unsafe extern "C" fn externalParEntInitProcessor(
 
 unsafe extern "C" fn entityValueInitProcessor(
     mut parser: XML_Parser,
-    init_buf: ExpatBufRef,
+    mut init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
     let mut buf = init_buf.clone();
@@ -5492,6 +5492,9 @@ unsafe extern "C" fn entityValueInitProcessor(
                 {
                     *nextPtr = next;
                     return XML_Error::NONE;
+                } else if tok == XML_TOK::BOM {
+                    /* the BOM is not part of the value */
+                    init_buf = init_buf.with_start(next);
                 } else {
                     /* If we get this token, we have the start of what might be a
                        normal tag, but not a declaration (i.e. it doesn't begin with
-- 
2.43.0


From 35462d94139d757932ee893c5000f11b85f955d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:13 +0000
Subject: [PATCH 17/38] fix: a text declaration may begin an external parameter
 entity referenced in an entity value

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 03f15bd..38cb65c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5462,7 +5462,7 @@ unsafe extern "C" fn entityValueInitProcessor(
         } else {
             if tok == XML_TOK::XML_DECL {
                 let mut result: XML_Error = XML_Error::NONE;
-                result = (*parser).processXmlDecl(0, buf.with_end(next));
+                result = (*parser).processXmlDecl(1, buf.with_end(next));
                 if result != XML_Error::NONE {
                     return result;
                 }
-- 
2.43.0


From 3106fefd4bab3d097cc7c2ffa467cfed27411ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:13 +0000
Subject: [PATCH 18/38] fix: a parser suspended in a CDATA section of an
 internal entity resumes in it

---
 src/lib/xmlparse.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 38cb65c..44ce62e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1413,6 +1413,8 @@ pub struct OpenInternalEntity {
     pub entity: *mut Entity,
     pub startTagLevel: c_int,
     pub betweenDecl: XML_Bool,
+    /* suspended within a CDATA section of the entity */
+    pub inCdataSection: XML_Bool,
 }
 
 pub type Processor = unsafe extern "C" fn(
@@ -4108,7 +4110,11 @@ impl XML_ParserStruct {
                     if result_2 != XML_Error::NONE {
                         return result_2;
                     } else if next.is_null() {
-                        self.m_processor = Some(cdataSectionProcessor as Processor);
+                        if enc_type.is_internal() {
+                            (*self.m_openInternalEntities).inCdataSection = true;
+                        } else {
+                            self.m_processor = Some(cdataSectionProcessor as Processor);
+                        }
                         return result_2;
                     }
                 }
@@ -6984,6 +6990,7 @@ impl XML_ParserStruct {
         (*openEntity).entity = entity;
         (*openEntity).startTagLevel = self.m_tagLevel;
         (*openEntity).betweenDecl = betweenDecl;
+        (*openEntity).inCdataSection = false;
         (*openEntity).internalEventPtr = ptr::null();
         (*openEntity).internalEventEndPtr = ptr::null();
         let text_buf = ExpatBufRef::new(
@@ -7067,13 +7074,28 @@ unsafe extern "C" fn internalEntityProcessor(
         )
     } else {
         /* XML_DTD */
-        result = (*parser).doContent(
-            (*openEntity).startTagLevel,
-            EncodingType::Internal,
-            text_buf,
-            &mut next,
-            false,
-        )
+        let mut opt_buf = Some(text_buf);
+        if (*openEntity).inCdataSection {
+            result = doCdataSection(
+                parser,
+                EncodingType::Internal,
+                &mut opt_buf,
+                &mut next,
+                false,
+            );
+            (*openEntity).inCdataSection = opt_buf.is_none();
+        }
+        if result == XML_Error::NONE
+            && (*parser).m_parsingStatus.parsing != XML_Parsing::SUSPENDED
+        {
+            result = (*parser).doContent(
+                (*openEntity).startTagLevel,
+                EncodingType::Internal,
+                opt_buf.unwrap_or(text_buf),
+                &mut next,
+                false,
+            )
+        }
     }
     if result != XML_Error::NONE {
         return result;
-- 
2.43.0


From 9313caa90c4cd95e555b9bc26cde704e23d9381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:45 +0000
Subject: [PATCH 19/38] fix: an element declaration left unfinished by a
 parameter entity no longer panics the enclosing one

---
 src/lib/xmlparse.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 44ce62e..a0988d6 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6507,7 +6507,12 @@ impl XML_ParserStruct {
                         == 0
                     {
                         let mut scf = self.m_dtd.scaffold.borrow_mut();
-                        let idx = scf.index.last().copied().unwrap();
+                        let idx = match scf.index.last().copied() {
+                            Some(idx) => idx,
+                            /* another element declaration, left unfinished by a
+                               parameter entity, has replaced this one */
+                            None => return XML_Error::INCOMPLETE_PE,
+                        };
                         if scf.scaffold[idx].type_0 != XML_Content_Type::MIXED
                         {
                             scf.scaffold[idx].type_0 = XML_Content_Type::CHOICE;
@@ -6652,7 +6657,12 @@ impl XML_ParserStruct {
                 XML_ROLE::CONTENT_PCDATA => {
                     if self.m_dtd.in_eldecl.get() {
                         let mut scf = self.m_dtd.scaffold.borrow_mut();
-                        let idx = scf.index.last().copied().unwrap();
+                        let idx = match scf.index.last().copied() {
+                            Some(idx) => idx,
+                            /* another element declaration, left unfinished by a
+                               parameter entity, has replaced this one */
+                            None => return XML_Error::INCOMPLETE_PE,
+                        };
                         scf.scaffold[idx].type_0 = XML_Content_Type::MIXED;
                         if self.m_handlers.hasElementDecl() {
                             handleDefault = false
@@ -6796,7 +6806,10 @@ impl XML_ParserStruct {
                         }
                         let empty_scaffold = {
                             let mut scf = self.m_dtd.scaffold.borrow_mut();
-                            let idx = scf.index.pop().unwrap();
+                            let idx = match scf.index.pop() {
+                                Some(idx) => idx,
+                                None => return XML_Error::INCOMPLETE_PE,
+                            };
                             scf.scaffold[idx].quant = quant;
                             scf.index.is_empty()
                         };
-- 
2.43.0


From ba789a5ef329baa1c15f2f3ba8ef55e4abf731c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:46 +0000
Subject: [PATCH 20/38] fix: "]]]>" closes an IGNORE section too

---
 src/lib/xmltok_impl.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 5d41751..0dd262d 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1462,6 +1462,7 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                     buf = buf.inc_start(self.MINBPC() as isize);
                     REQUIRE_CHAR!(buf, self);
                     if self.char_matches(buf.as_ptr(), ASCII_RSQB) {
+                        let second = buf;
                         buf = buf.inc_start(self.MINBPC() as isize);
                         REQUIRE_CHAR!(buf, self);
                         if self.char_matches(buf.as_ptr(), ASCII_GT) {
@@ -1471,6 +1472,9 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                                 return XML_TOK::IGNORE_SECT
                             }
                             level -= 1
+                        } else {
+                            /* the second bracket may be the first of "]]>" */
+                            buf = second
                         }
                     }
                 }
-- 
2.43.0


From 02f08e146ec1be92cfadc237722edf77a49e6e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:44 +0000
Subject: [PATCH 21/38] fix: a default handler that clears itself in the middle
 of a long text no longer panics

---
 src/lib/xmlparse.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a0988d6..86425fa 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7729,16 +7729,12 @@ unsafe extern "C" fn reportDefault(
             convert_res = XmlConvert!(enc, &mut buf, &mut data_buf);
             *eventEndPP = buf.as_ptr();
 
-            let defaultRan = (*parser).m_handlers.default(
+            // the handler may have been cleared by an earlier call of itself
+            (*parser).m_handlers.default(
                 (*parser).m_dataBuf.as_ptr(),
                 data_buf.as_ptr().wrapping_offset_from((*parser).m_dataBuf.as_ptr()).try_into().unwrap(),
             );
 
-            // Previously unwrapped an Option
-            if !defaultRan {
-                panic!("Expected default handler to be set");
-            }
-
             *eventPP = buf.as_ptr();
             if !(convert_res != super::xmltok::XML_Convert_Result::COMPLETED
                 && convert_res != super::xmltok::XML_Convert_Result::INPUT_INCOMPLETE)
-- 
2.43.0


From 8f4c8635e2df127a00ffa86ac2b161ba2f8f9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:44 +0000
Subject: [PATCH 22/38] fix: the rest of a long text is not lost when the
 character data handler clears itself

---
 src/lib/xmlparse.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 86425fa..b872e1d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4179,7 +4179,14 @@ impl XML_ParserStruct {
                                 {
                                     break;
                                 }
-                                *eventPP = buf.as_ptr()
+                                *eventPP = buf.as_ptr();
+                                if !self.m_handlers.hasCharacterData() {
+                                    /* cleared by the handler itself */
+                                    if self.m_handlers.hasDefault() {
+                                        reportDefault(self, enc_type, buf.with_end(next));
+                                    }
+                                    break;
+                                }
                             }
                         } else {
                             let data_buf: ExpatBufRef<XML_Char> = buf.with_end(next).into();
@@ -5014,7 +5021,14 @@ unsafe extern "C" fn doCdataSection(
                             {
                                 break;
                             }
-                            *eventPP = buf.as_ptr()
+                            *eventPP = buf.as_ptr();
+                            if !(*parser).m_handlers.hasCharacterData() {
+                                /* cleared by the handler itself */
+                                if (*parser).m_handlers.hasDefault() {
+                                    reportDefault(parser, enc_type, buf.with_end(next));
+                                }
+                                break;
+                            }
                         }
                     } else {
                         handlers.characterData(&ExpatBufRef::<XML_Char>::from(buf.with_end(next)));
-- 
2.43.0


From de6494ee1de7ee319cc231b7f67992c646ec44d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:44 +0000
Subject: [PATCH 23/38] fix: the event of a piece of a long CDATA section
 extends over that piece only

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index b872e1d..6fe8911 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5009,7 +5009,7 @@ unsafe extern "C" fn doCdataSection(
                                 &mut to_buf,
                             );
                             buf = buf.with_start(from_buf.as_ptr());
-                            *eventEndPP = next;
+                            *eventEndPP = buf.as_ptr();
                             handlers.characterData(
                                 &ExpatBufRef::new(
                                     (*parser).m_dataBuf.as_ptr(),
-- 
2.43.0


From 040c81b7f806ae7f81220406220c5b83083aba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:44 +0000
Subject: [PATCH 24/38] fix: the event of trailing brackets extends over them

---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6fe8911..6907af1 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4123,6 +4123,7 @@ impl XML_ParserStruct {
                         *nextPtr = buf.as_ptr();
                         return XML_Error::NONE;
                     }
+                    *eventEndPP = buf.end();
                     if self.m_handlers.hasCharacterData() {
                         if MUST_CONVERT!(enc, buf.as_ptr()) {
                             let dataStart = self.m_dataBuf.as_ptr();
-- 
2.43.0


From 821be7fbd8c182b00552a186d8d5e057284e8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:44 +0000
Subject: [PATCH 25/38] fix: every '|' of a choice group belongs to the element
 declaration, not only the first

---
 src/lib/xmlparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6907af1..6646829 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6531,11 +6531,11 @@ impl XML_ParserStruct {
                         if scf.scaffold[idx].type_0 != XML_Content_Type::MIXED
                         {
                             scf.scaffold[idx].type_0 = XML_Content_Type::CHOICE;
-                            if self.m_handlers.hasElementDecl() {
-                                handleDefault = false
-                            }
                         }
                     }
+                    if self.m_dtd.in_eldecl.get() && self.m_handlers.hasElementDecl() {
+                        handleDefault = false
+                    }
                     *self
                         .m_groupConnector
                         .offset(self.m_prologState.level as isize) = ASCII_PIPE;
-- 
2.43.0


From e9d70d7cb426843fcf2a1124085502e9b89c903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:23 +0000
Subject: [PATCH 26/38] fix: an abort from the handler of the last character
 data is reported

---
 src/lib/xmlparse.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6646829..fd0341e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3629,8 +3629,11 @@ impl XML_ParserStruct {
                     }
                     /* LCOV_EXCL_STOP */
                     /* We are at the end of the final buffer, should we check for
-                       XML_Parsing::SUSPENDED, XML_Parsing::FINISHED?
+                       XML_Parsing::SUSPENDED?
                     */
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     if startTagLevel == 0 {
                         return XML_Error::NO_ELEMENTS;
                     }
@@ -4142,8 +4145,11 @@ impl XML_ParserStruct {
                         reportDefault(self, enc_type, buf);
                     }
                     /* We are at the end of the final buffer, should we check for
-                       XML_Parsing::SUSPENDED, XML_Parsing::FINISHED?
+                       XML_Parsing::SUSPENDED?
                     */
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     if startTagLevel == 0 {
                         *eventPP = buf.end();
                         return XML_Error::NO_ELEMENTS;
-- 
2.43.0


From 30b4bab736fbc411509e0c6bbb5b18e8dd337563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:01 +0000
Subject: [PATCH 27/38] fix: no character data is delivered after an abort at
 the start of a CDATA section

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index fd0341e..8f99012 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4107,6 +4107,9 @@ impl XML_ParserStruct {
                     } else if self.m_handlers.hasDefault() {
                         reportDefault(self, enc_type, buf.with_end(next));
                     }
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     let mut new_buf = Some(buf.with_start(next));
                     result_2 = doCdataSection(self, enc_type, &mut new_buf, nextPtr, haveMore);
                     next = new_buf.map_or(ptr::null(), |x| x.as_ptr());
-- 
2.43.0


From 138a9123402bfd6d1554fa8b752cee239ea9e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:01 +0000
Subject: [PATCH 28/38] fix: no default data is delivered after an abort at the
 start of an IGNORE section

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 8f99012..a4596a7 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6448,6 +6448,9 @@ impl XML_ParserStruct {
                         reportDefault(self, enc_type, buf.with_end(next));
                     }
                     handleDefault = false;
+                    if self.m_parsingStatus.parsing == XML_Parsing::FINISHED {
+                        return XML_Error::ABORTED;
+                    }
                     let mut ignore_buf = Some(buf.with_start(next));
                     result_3 = doIgnoreSection(self, enc_type, &mut ignore_buf, nextPtr, haveMore);
                     if result_3 != XML_Error::NONE {
-- 
2.43.0


From 427d19d1a2e9640f8d7b8f9aa5d9e0ad8197378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:01 +0000
Subject: [PATCH 29/38] fix: stopping in the handler for a foreign DTD takes
 effect before the root element

---
 src/lib/xmlparse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a4596a7..8bfce63 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5986,7 +5986,15 @@ impl XML_ParserStruct {
                     }
                     /* XML_DTD */
                     self.m_processor = Some(contentProcessor as Processor);
-                    return contentProcessor(self, buf, nextPtr);
+                    /* the external entity reference handler may have stopped us */
+                    match self.m_parsingStatus.parsing {
+                        XML_Parsing::SUSPENDED => {
+                            *nextPtr = buf.as_ptr();
+                            return XML_Error::NONE;
+                        }
+                        XML_Parsing::FINISHED => return XML_Error::ABORTED,
+                        _ => return contentProcessor(self, buf, nextPtr),
+                    }
                 }
                 XML_ROLE::ATTLIST_ELEMENT_NAME => {
                     self.m_declElementType = self.getElementType(enc_type, buf.with_end(next));
-- 
2.43.0


From ab898ceeeef2dd64a6f25259bc13cce652e41d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:01 +0000
Subject: [PATCH 30/38] fix: a second text declaration is an error also when
 the parser was suspended at the first

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 8bfce63..c4a2457 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3540,6 +3540,9 @@ unsafe extern "C" fn externalEntityInitProcessor3(
             }
             match (*parser).m_parsingStatus.parsing {
                 XML_Parsing::SUSPENDED => {
+                    /* there is only one text declaration: content comes next */
+                    (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
+                    (*parser).m_tagLevel = 1;
                     *endPtr = next;
                     return XML_Error::NONE;
                 }
-- 
2.43.0


From 7d88b33a212982d5f44420800f466887cf5009e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:02 +0000
Subject: [PATCH 31/38] fix: an empty first buffer does not rule out a text
 declaration in an external entity

---
 src/lib/xmlparse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index c4a2457..b200f10 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3564,6 +3564,13 @@ unsafe extern "C" fn externalEntityInitProcessor3(
             }
             return XML_Error::PARTIAL_CHAR;
         }
+        XML_TOK::NONE => {
+            if !(*parser).m_parsingStatus.finalBuffer {
+                /* nothing was supplied yet: a text declaration may still come */
+                *endPtr = buf.as_ptr();
+                return XML_Error::NONE;
+            }
+        }
         _ => {}
     }
     (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
-- 
2.43.0


From 20e1dd152a3d075e97983c54f79b7704204a2cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:48:02 +0000
Subject: [PATCH 32/38] fix: only at its beginning has an external entity in an
 entity value a text declaration

---
 src/lib/xmlparse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index b200f10..5712a8e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5500,7 +5500,8 @@ unsafe extern "C" fn entityValueInitProcessor(
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
         } else {
-            if tok == XML_TOK::XML_DECL {
+            /* a text declaration can only be at the beginning */
+            if tok == XML_TOK::XML_DECL && buf.as_ptr() == init_buf.as_ptr() {
                 let mut result: XML_Error = XML_Error::NONE;
                 result = (*parser).processXmlDecl(1, buf.with_end(next));
                 if result != XML_Error::NONE {
-- 
2.43.0


From 9c4bfda3dda81d56746541265883b4192a80596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:29 +0000
Subject: [PATCH 33/38] fix: big-endian UTF-16 with characters U+0080 to U+00FF
 must not panic

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index e86dafb..9d6ad84 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1026,7 +1026,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From ea66502ae69f4e08a605ccdf7b1547acee17ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:28:16 +0000
Subject: [PATCH 34/38] fix: the event of a literal at the very end of the
 input has its extent

---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 5712a8e..e251daa 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5790,6 +5790,7 @@ impl XML_ParserStruct {
                         // tok = -tok; /* end of big switch */
                         tok = tok.negate();
                         next = buf.end();
+                        *eventEndPP = next;
                     }
                 }
             } /* always initialize to NULL */
-- 
2.43.0


From 0ae7de52f4b1c74affbdff61ca60016369822cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:05 +0000
Subject: [PATCH 35/38] fix: a bad default attribute value leaves nothing
 behind in the DTD's string pool

---
 src/lib/xmlparse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e251daa..ec5a7ab 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7208,6 +7208,8 @@ unsafe extern "C" fn storeAttributeValue(
 ) -> XML_Error {
     let mut result: XML_Error = appendAttributeValue(parser, enc_type, isCdata, buf, pool);
     if result as u64 != 0 {
+        /* the pool may be that of the DTD, which a parent parser goes on to use */
+        pool.clear_current();
         return result;
     }
     if !isCdata && !pool.is_empty() && pool.get_last_char() as c_int == 0x20 {
-- 
2.43.0


From 801718de5a05e5eeec319f6ab3f7aa65213a8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:22 +0000
Subject: [PATCH 36/38] fix: U+00AA, U+00B5 and U+00BA are not name characters
 in ISO-8859-1 and UTF-16 either

---
 src/lib/xmltok.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 9d6ad84..20d1956 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1527,11 +1527,11 @@ impl NormalEncodingTable for Latin1EncodingTable {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
@@ -1601,11 +1601,11 @@ impl NormalEncodingTable for Latin1EncodingTableNS {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
@@ -1676,11 +1676,11 @@ impl NormalEncodingTable for InternalLatin1EncodingTable {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
@@ -1751,11 +1751,11 @@ impl NormalEncodingTable for InternalLatin1EncodingTableNS {
         /* 0x9C */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xA4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xA8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xAC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xB0 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
-        /* 0xB4 */ ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER, ByteType::NAME,
-        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::NMSTRT, ByteType::OTHER,
+        /* 0xB4 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::NAME,
+        /* 0xB8 */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xBC */ ByteType::OTHER, ByteType::OTHER, ByteType::OTHER, ByteType::OTHER,
         /* 0xC0 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
         /* 0xC4 */ ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT, ByteType::NMSTRT,
-- 
2.43.0


From 9b78e65430d67c1079875822b92a77d9c1673ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:02:44 +0000
Subject: [PATCH 37/38] fix: accept an empty external parameter entity in an
 entity value

---
 src/lib/xmlparse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index ec5a7ab..44b2b6d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7455,7 +7455,9 @@ unsafe extern "C" fn storeEntityValue(
     /* never return Null for the value argument in EntityDeclHandler,
     since this would indicate an external entity; therefore we
     have to make sure that entityValuePool.start is not null */
-    's_41: loop {
+    /* the value may be an empty external entity, whose encoding is
+    still undetermined and cannot scan literals */
+    's_41: while !entityTextBuf.is_empty() {
         let mut next: *const c_char = ptr::null();
         let mut tok = (*enc).xmlLiteralTok(
             XML_ENTITY_VALUE_LITERAL,
-- 
2.43.0


From df5ef30d986265cd3504f9c6daed810858e1ab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:20:33 +0000
Subject: [PATCH 38/38] fix: reject a tag after the text declaration of an
 entity value instead of looping forever

---
 src/lib/xmlparse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 44b2b6d..ab8970e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5617,6 +5617,12 @@ unsafe extern "C" fn entityValueProcessor(
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
+        if tok == XML_TOK::INSTANCE_START {
+            /* the start of a normal tag is not legal in a DTD, and next
+            is still in front of it */
+            *nextPtr = next;
+            return XML_Error::SYNTAX;
+        }
         buf = buf.with_start(next);
     }
 }
-- 
2.43.0

