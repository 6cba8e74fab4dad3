From c433e6b4b7f66ea738a5e215eb155817edd21c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:33 +0000
Subject: [PATCH 01/46] fix: report the version and encoding of an XML
 declaration exactly

---
 src/lib/xmlparse.rs | 6 +++---
 src/lib/xmltok.rs   | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4aaba1b..4f4445c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5265,7 +5265,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedEncName = self.m_temp2Pool.current_start();
+                storedEncName = self.m_temp2Pool.finish_string().as_ptr();
             }
             if let Some(version_buf) = version_buf {
                 let successful = self.m_temp2Pool.store_c_string(
@@ -5276,7 +5276,7 @@ impl XML_ParserStruct {
                     return XML_Error::NO_MEMORY;
                 }
 
-                storedversion = self.m_temp2Pool.current_start();
+                storedversion = self.m_temp2Pool.finish_string().as_ptr();
             }
             self.m_handlers.xmlDecl(
                 storedversion,
@@ -5315,7 +5315,7 @@ impl XML_ParserStruct {
                         return XML_Error::NO_MEMORY;
                     }
 
-                    storedEncName = self.m_temp2Pool.current_start();
+                    storedEncName = self.m_temp2Pool.finish_string().as_ptr();
                 };
                 result = self.m_handlers.handleUnknownEncoding(storedEncName, self.m_ns, &mut self.m_encoding);
                 self.m_temp2Pool.clear();
diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index aaf97f9..c18c2a7 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -3013,7 +3013,10 @@ fn doParseXmlDecl<'a>(
             return 0;
         }
     } else {
-        *versionBuf = val_buf;
+        *versionBuf = val_buf.map(|x| {
+            x.with_end(buf.as_ptr())
+                .dec_end((*enc).minBytesPerChar() as usize)
+        });
         #[cfg(feature = "mozilla")]
         {
             if !(*enc).nameMatchesAscii(val_buf
@@ -3059,7 +3062,7 @@ fn doParseXmlDecl<'a>(
         ) };
         let mut pseudo_ptr = buf.as_ptr();
         if parsePseudoAttribute(enc, buf, &mut name, &mut val_buf, &mut pseudo_ptr) == 0 {
-            *badPtr = buf.as_ptr();
+            *badPtr = pseudo_ptr;
             return 0;
         }
         buf = buf.with_start(pseudo_ptr);
-- 
2.43.0


From ef18912c8abb8089e30d1fea0889a8ff91c00cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:52 +0000
Subject: [PATCH 02/46] fix: XML_GetCurrentByteIndex when the event ends the
 buffer

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4f4445c..a74dae4 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -850,7 +850,7 @@ impl XML_ParserStruct {
     // TODO(SJC): add a better err type
     fn buffer_index(&self, p: *const c_char) -> Result<usize, ()> {
         if p < self.m_buffer.as_ptr()
-            || p >= self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
+            || p > self.m_buffer.as_ptr().wrapping_add(self.m_buffer.len())
         {
             Err(())
         } else {
-- 
2.43.0


From 63cbb6df0af9bc47db512890ba5c10021157c28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:52 +0000
Subject: [PATCH 03/46] fix: XML_ResumeParser keeps what it has parsed

---
 src/lib/xmlparse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index a74dae4..75f4659 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2942,11 +2942,13 @@ impl XML_ParserStruct {
             return XML_Status::ERROR;
         }
         self.m_parsingStatus.parsing = XML_Parsing::PARSING;
+        let mut start = self.m_buffer.as_ptr().add(self.m_bufferStart);
         self.m_errorCode = self.m_processor.expect("non-null function pointer")(
             self,
             self.m_buffer[self.m_bufferStart..self.m_parseEndIdx].into(),
-            &mut (&self.m_buffer[self.m_bufferStart] as *const _),
+            &mut start,
         );
+        self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0


From 7f1f580f0df9415cfe8038ca7b9f00e5cb05b7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:15 +0000
Subject: [PATCH 04/46] fix: line and column queries after XML_GetBuffer

---
 src/lib/xmlparse.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 75f4659..dc8e2db 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3103,7 +3103,10 @@ pub unsafe extern "C" fn XML_GetCurrentLineNumber(mut parser: XML_Parser) -> XML
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    // there is no position and no event between XML_GetBuffer and XML_ParseBuffer
+    let positionPtr = (*parser)
+        .m_positionIdx
+        .map_or(ptr::null(), |idx| (*parser).m_buffer.as_ptr().wrapping_add(idx));
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
@@ -3123,7 +3126,10 @@ pub unsafe extern "C" fn XML_GetCurrentColumnNumber(mut parser: XML_Parser) -> X
     if parser.is_null() {
         return 0;
     }
-    let positionPtr = (*parser).m_buffer.as_ptr().wrapping_add((*parser).m_positionIdx.unwrap());
+    // there is no position and no event between XML_GetBuffer and XML_ParseBuffer
+    let positionPtr = (*parser)
+        .m_positionIdx
+        .map_or(ptr::null(), |idx| (*parser).m_buffer.as_ptr().wrapping_add(idx));
     if !(*parser).m_eventPtr.is_null() && (*parser).m_eventPtr >= positionPtr {
         (*(*parser).m_encoding).updatePosition(
             ExpatBufRef::new(
-- 
2.43.0


From e0d0cb815ef89c16640c9cac11d9a85aa2dcaea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:54 +0000
Subject: [PATCH 05/46] fix: UTF-16BE characters U+0080 to U+00FF

---
 src/lib/xmltok.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index c18c2a7..19de19f 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1019,7 +1019,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     fn byte_type(&self, p: *const c_char) -> ByteType {
         let bytes = unsafe { (*p, *p.offset(1)) };
         if bytes.0 == 0 {
-            T::types[bytes.1 as usize]
+            T::types[bytes.1 as u8 as usize]
         } else {
             unicode_byte_type(bytes.0, bytes.1)
         }
-- 
2.43.0


From 346323b3b48fc951c6d506a89c741c86eed9ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:44 +0000
Subject: [PATCH 06/46] fix: XML_DefaultCurrent in a handler called for an
 erroneous entity declaration

---
 src/lib/xmlparse.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index dc8e2db..7480a3d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3187,24 +3187,22 @@ pub unsafe extern "C" fn XML_DefaultCurrent(mut parser: XML_Parser) {
         return;
     }
     if (*parser).m_handlers.hasDefault() {
-        if !(*parser).m_openInternalEntities.is_null() {
-            reportDefault(
-                parser,
+        let (enc_type, start, end) = if !(*parser).m_openInternalEntities.is_null() {
+            (
                 EncodingType::Internal,
-                ExpatBufRef::new(
-                    (*(*parser).m_openInternalEntities).internalEventPtr,
-                    (*(*parser).m_openInternalEntities).internalEventEndPtr,
-                ),
-            );
+                (*(*parser).m_openInternalEntities).internalEventPtr,
+                (*(*parser).m_openInternalEntities).internalEventEndPtr,
+            )
         } else {
-            reportDefault(
-                parser,
+            (
                 EncodingType::Normal,
-                ExpatBufRef::new(
-                    (*parser).m_eventPtr,
-                    (*parser).m_eventEndPtr,
-                ),
-            );
+                (*parser).m_eventPtr,
+                (*parser).m_eventEndPtr,
+            )
+        };
+        // an error found within the current event leaves its start after its end
+        if !start.is_null() && start <= end {
+            reportDefault(parser, enc_type, ExpatBufRef::new(start, end));
         }
     };
 }
-- 
2.43.0


From 8e6ac548633fc1baefe064fc5e636d527991c667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:20 +0000
Subject: [PATCH 07/46] fix: not-standalone handler called for internal and
 unread parameter entities

---
 src/lib/xmlparse.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7480a3d..078fb29 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6575,10 +6575,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         } else if entity.is_null() {
                             self.m_dtd.keepProcessing.set(self.m_dtd.standalone.get());
                             /* cannot report skipped entities in declarations */
@@ -6596,10 +6592,6 @@ impl XML_ParserStruct {
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
                                 return r;
                             }
-                            /* XML_DTD */
-                            if !self.m_dtd.standalone.get() && self.m_handlers.notStandalone() == Ok(0) {
-                                return XML_Error::NOT_STANDALONE;
-                            }
                         }
                     }
                 }
-- 
2.43.0


From f6e50602f4583bc1a895002e03aa78e12038a334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:10 +0000
Subject: [PATCH 08/46] fix: skipped-entity handler may call back into the
 parser

---
 src/lib/xmlparse.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 078fb29..4f320c9 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3717,11 +3717,10 @@ impl XML_ParserStruct {
                                 }
                             }
                         } else if entity.is_null() {
-                            let skippedHandlerRan = self.m_dtd.pool.current_slice(|name| {
-                                self.m_handlers.skippedEntity(name.as_ptr(), 0)
-                            });
-
-                            self.m_dtd.pool.clear_current();
+                            // REXPAT: the handler may call back into this parser (for
+                            // instance XML_SetBase), so the pool must not be borrowed
+                            let name = self.m_dtd.pool.finish_string();
+                            let skippedHandlerRan = self.m_handlers.skippedEntity(name.as_ptr(), 0);
 
                             if !skippedHandlerRan && self.m_handlers.hasDefault() {
                                 if !cfg!(feature = "mozilla") {
@@ -6581,12 +6580,13 @@ impl XML_ParserStruct {
                             if role == super::xmlrole::XML_ROLE::PARAM_ENTITY_REF
                                 && self.m_handlers.hasSkippedEntity()
                             {
-                                self.m_dtd.pool.current_slice(|name| {
-                                    self.m_handlers.skippedEntity(name.as_ptr(), 1);
-                                });
+                                // REXPAT: see the other use of this handler
+                                let name = self.m_dtd.pool.finish_string();
+                                self.m_handlers.skippedEntity(name.as_ptr(), 1);
                                 handleDefault = false;
+                            } else {
+                                self.m_dtd.pool.clear_current();
                             }
-                            self.m_dtd.pool.clear_current();
                         } else {
                             self.m_dtd.pool.clear_current();
                             if let Some(r) = self.doPrologHandleEntityRef(entity, role, &mut handleDefault) {
-- 
2.43.0


From 3edfcb796b3ad43c4d0d48b5f59581415dd8b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:29 +0000
Subject: [PATCH 09/46] fix: default namespace declarations in external general
 entities

---
 src/lib/xmlparse.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4f320c9..4bbfa4a 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1154,8 +1154,10 @@ impl DTD {
         self.standalone.set(false);
     }
 
-    fn try_clone(&self) -> Result<DTD, TryReserveError> {
-        let mut newDtd = DTD {
+    /// Attribute ids point at the `defaultPrefix` of their own DTD, so the
+    /// clone is filled in only once it is where it will stay.
+    fn try_clone(&self) -> Result<Rc<DTD>, TryReserveError> {
+        let newDtd = Rc::try_new(DTD {
             pool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             entityValuePool: StringPool::try_new().map_err(|_| TryReserveError::CapacityOverflow)?,
             tables: Default::default(),
@@ -1168,7 +1170,7 @@ impl DTD {
             /* Don't want deep copying for scaffolding */
             scaffold: Rc::clone(&self.scaffold),
             contentStringLen: self.contentStringLen.clone(),
-        };
+        })?;
 
         unsafe {
             let mut new_tables = newDtd.tables.borrow_mut();
@@ -1274,7 +1276,7 @@ impl DTD {
             /* Copy the entity tables. */
             if copyEntityTable(
                 &mut new_tables.generalEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.generalEntities,
             ) == 0
             {
@@ -1282,7 +1284,7 @@ impl DTD {
             }
             if copyEntityTable(
                 &mut new_tables.paramEntities,
-                &mut newDtd.pool,
+                &newDtd.pool,
                 &old_tables.paramEntities,
             ) == 0
             {
@@ -1948,7 +1950,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     let newDtd = if context.is_null() {
         Rc::clone(&oldParser.m_dtd)
     } else {
-        match oldParser.m_dtd.try_clone().and_then(Rc::try_new) {
+        match oldParser.m_dtd.try_clone() {
             Ok(newDtd) => newDtd,
             Err(_) => return ptr::null_mut()
         }
-- 
2.43.0


From d88bf511421c9c68bffd42e516ab2d5da672474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:43 +0000
Subject: [PATCH 10/46] fix: duplicate attributes by expanded name when
 prefixes are returned

---
 src/lib/xmlparse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 4bbfa4a..e50fba9 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4533,6 +4533,8 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE {
                         return ret;
                     }
+                    /* the expanded name without its terminator and prefix */
+                    let uri_name_len = self.m_tempPool.len() - 1;
                     if self.m_ns_triplets {
                         /* append namespace separator and prefix */
                         self.m_tempPool.replace_last_char(self.m_namespaceSeparator);
@@ -4551,7 +4553,7 @@ impl XML_ParserStruct {
                     if ret != XML_Error::NONE { return ret; }
                     /* store expanded name in attribute list */
                     self.m_atts[i].name = self.m_tempPool.finish_string().as_ptr();
-                    let hk = HashKey::from(self.m_atts[i].name as KEY);
+                    let hk = HashKey(std::slice::from_raw_parts(self.m_atts[i].name, uri_name_len));
                     self.m_nsAtts.insert(hk);
                     nPrefixes -= 1;
                     if nPrefixes == 0 && nXMLNSDeclarations == 0 {
-- 
2.43.0


From b5aaf01c74eb792142cfdc20d14a36f3452b5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:33 +0000
Subject: [PATCH 11/46] fix: XML_ParserReset keeps the unknown-encoding handler

---
 src/lib/xmlparse.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e50fba9..d88f05d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1764,7 +1764,12 @@ impl XML_ParserStruct {
         self.m_initEncoding = InitEncoding::new(&mut self.m_encoding, ptr::null());
         self.m_encoding = &*self.m_initEncoding.as_ref().unwrap();
         self.m_userData = ptr::null_mut();
-        self.m_handlers = Default::default();
+        /* the unknownEncodingHandler outlives a reset */
+        self.m_handlers = CXmlHandlers {
+            m_unknownEncodingHandler: self.m_handlers.m_unknownEncodingHandler,
+            m_unknownEncodingHandlerData: self.m_handlers.m_unknownEncodingHandlerData,
+            ..Default::default()
+        };
         self.m_handlers.m_externalEntityRefHandlerArg = self as XML_Parser;
         self.m_bufferStart = 0;
         self.m_bufferEnd = 0;
-- 
2.43.0


From 37fd9be046a9d7e4855eb64a00105ec7334c2cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:57 +0000
Subject: [PATCH 12/46] fix: entity parsers pass the unknown-encoding handler
 its data

---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index d88f05d..dd8d1da 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1997,6 +1997,7 @@ pub unsafe extern "C" fn XML_ExternalEntityParserCreate(
     (*parser).m_handlers.setExternalEntityRef(oldParser.m_handlers.m_externalEntityRefHandler);
     (*parser).m_handlers.setSkippedEntity(oldParser.m_handlers.m_skippedEntityHandler);
     (*parser).m_handlers.setUnknownEncoding(oldParser.m_handlers.m_unknownEncodingHandler);
+    (*parser).m_handlers.m_unknownEncodingHandlerData = oldParser.m_handlers.m_unknownEncodingHandlerData;
     (*parser).m_handlers.setElementDecl(oldParser.m_handlers.m_elementDeclHandler);
     (*parser).m_handlers.setAttlistDecl(oldParser.m_handlers.m_attlistDeclHandler);
     (*parser).m_handlers.setEntityDecl(oldParser.m_handlers.m_entityDeclHandler);
-- 
2.43.0


From 9058dbdbecf1fb4fbf5504366dc04b755f1cd74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:53 +0000
Subject: [PATCH 13/46] fix: parsing suspended in nested internal entities
 resumes where it was

---
 src/lib/xmlparse.rs | 165 +++++++++++++++++++-------------------------
 1 file changed, 70 insertions(+), 95 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index dd8d1da..e7d13f1 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7015,35 +7015,15 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            if text_buf.end() != next && self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+            /* an entity stays open as long as one referenced in it is open */
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED
+                && (text_buf.end() != next || self.m_openInternalEntities != openEntity)
+            {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
                 (*entity).open = false;
-                if cfg!(feature = "mozilla") {
-                    if self.m_openInternalEntities == openEntity {
-                        self.m_openInternalEntities = (*openEntity).next;
-                    } else {
-			/* openEntity should be closed, but it contains an inner entity that is
-			still open. Remove openEntity from the openInternalEntities linked
-			list by looking for the inner entity in the list that links to
-			openEntity and fixing up its 'next' member
-			 */
-                        let mut innerOpenEntity = self.m_openInternalEntities;
-                        loop {
-                            if (*innerOpenEntity).next == openEntity {
-                                (*innerOpenEntity).next = (*openEntity).next;
-                                break;
-                            }
-                            innerOpenEntity = (*innerOpenEntity).next;
-                            if innerOpenEntity.is_null() {
-                                break;
-                            }
-                        }
-                    }
-                } else {
-                    self.m_openInternalEntities = (*openEntity).next;
-                }
+                self.m_openInternalEntities = (*openEntity).next;
                 /* put openEntity back in list of free instances */
                 (*openEntity).next = self.m_freeInternalEntities;
                 self.m_freeInternalEntities = openEntity
@@ -7061,82 +7041,77 @@ unsafe extern "C" fn internalEntityProcessor(
     let mut entity: *mut Entity = ptr::null_mut();
     let mut next: *const c_char = ptr::null();
     let mut result: XML_Error = XML_Error::NONE;
-    let mut openEntity: *mut OpenInternalEntity = (*parser).m_openInternalEntities;
-    if openEntity.is_null() {
-        return XML_Error::UNEXPECTED_STATE;
-    }
-    entity = (*openEntity).entity;
-    let text_buf = ExpatBufRef::new(
-        ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
-        (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
-    );
-    /* Set a safe default value in case 'next' does not get set */
-    next = text_buf.as_ptr();
-    if (*entity).is_param {
-        let mut tok =
-            (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
-        result = (*parser).doProlog(
-            EncodingType::Internal,
-            text_buf,
-            tok,
-            next,
-            &mut next,
-            false,
-            true,
-        )
-    } else {
-        /* XML_DTD */
-        result = (*parser).doContent(
-            (*openEntity).startTagLevel,
-            EncodingType::Internal,
-            text_buf,
-            &mut next,
-            false,
-        )
-    }
-    if result != XML_Error::NONE {
-        return result;
-    } else {
-        if text_buf.end() != next && (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+    /* finish the open entities, innermost first */
+    loop {
+        let mut openEntity: *mut OpenInternalEntity = (*parser).m_openInternalEntities;
+        if openEntity.is_null() {
+            return XML_Error::UNEXPECTED_STATE;
+        }
+        entity = (*openEntity).entity;
+        let text_buf = ExpatBufRef::new(
+            ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
+            (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
+        );
+        /* Set a safe default value in case 'next' does not get set */
+        next = text_buf.as_ptr();
+        if (*entity).is_param {
+            let mut tok =
+                (*(*parser).m_internalEncoding).xmlTok(XML_STATE::PROLOG, text_buf, &mut next);
+            result = (*parser).doProlog(
+                EncodingType::Internal,
+                text_buf,
+                tok,
+                next,
+                &mut next,
+                false,
+                true,
+            )
+        } else {
+            /* XML_DTD */
+            result = (*parser).doContent(
+                (*openEntity).startTagLevel,
+                EncodingType::Internal,
+                text_buf,
+                &mut next,
+                false,
+            )
+        }
+        if result != XML_Error::NONE {
+            return result;
+        }
+        let suspended = (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED;
+        if suspended
+            && (text_buf.end() != next || (*parser).m_openInternalEntities != openEntity)
+        {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
-        } else {
-            (*entity).open = false;
-            (*parser).m_openInternalEntities = (*openEntity).next;
-            /* put openEntity back in list of free instances */
-            (*openEntity).next = (*parser).m_freeInternalEntities;
-            (*parser).m_freeInternalEntities = openEntity
+        }
+        (*entity).open = false;
+        (*parser).m_openInternalEntities = (*openEntity).next;
+        /* put openEntity back in list of free instances */
+        (*openEntity).next = (*parser).m_freeInternalEntities;
+        (*parser).m_freeInternalEntities = openEntity;
+        if (*parser).m_openInternalEntities.is_null() {
+            break;
+        }
+        if suspended {
+            return result;
         }
     }
-    if (*entity).is_param {
-        (*parser).m_processor = Some(prologProcessor as Processor);
-        let tok_0 = (*(*parser).m_encoding).xmlTok(XML_STATE::PROLOG, buf, &mut next);
-        (*parser).doProlog(
-            EncodingType::Normal,
-            buf,
-            tok_0,
-            next,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-            true,
-        )
+    /* then go on with what the outermost one was referenced in */
+    let processor = if (*entity).is_param {
+        prologProcessor as Processor
+    } else if (*parser).is_child_parser {
+        externalEntityContentProcessor as Processor
     } else {
-        /* XML_DTD */
-        (*parser).m_processor = Some(contentProcessor as Processor);
-        /* see externalEntityContentProcessor vs contentProcessor */
-        (*parser).doContent(
-            if (*parser).is_child_parser {
-                1i32
-            } else {
-                0i32
-            },
-            EncodingType::Normal,
-            buf,
-            nextPtr,
-            !(*parser).m_parsingStatus.finalBuffer,
-        )
-    } /* save one level of indirection */
+        contentProcessor as Processor
+    };
+    (*parser).m_processor = Some(processor);
+    if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
+        return result;
+    }
+    processor(parser, buf, nextPtr)
 }
 
 unsafe extern "C" fn errorProcessor(
-- 
2.43.0


From 2488fc893b3e47e7e0675af1a0b538911d143922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:07 +0000
Subject: [PATCH 14/46] fix: an empty first chunk of an external entity

---
 src/lib/xmlparse.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e7d13f1..71fee02 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3505,6 +3505,12 @@ unsafe extern "C" fn externalEntityInitProcessor2(
             }
             buf = buf.with_start(next);
         }
+        XML_TOK::NONE if !(*parser).m_parsingStatus.finalBuffer => {
+            /* Nothing has arrived yet: the encoding and any text declaration
+               are still to be detected. */
+            *endPtr = buf.as_ptr();
+            return XML_Error::NONE;
+        }
         XML_TOK::PARTIAL => {
             if !(*parser).m_parsingStatus.finalBuffer {
                 *endPtr = buf.as_ptr();
-- 
2.43.0


From b48e84ade5538b17cd849c687419fb9aae0a4351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:24 +0000
Subject: [PATCH 15/46] fix: external parameter entities in entity values are
 read as a whole

---
 src/lib/xmlparse.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 71fee02..07fa169 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5459,7 +5459,7 @@ unsafe extern "C" fn entityValueInitProcessor(
         (*parser).m_eventEndPtr = next;
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5556,9 +5556,10 @@ unsafe extern "C" fn externalParEntProcessor(
 
 unsafe extern "C" fn entityValueProcessor(
     mut parser: XML_Parser,
-    mut buf: ExpatBufRef,
+    init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
+    let mut buf = init_buf.clone();
     let mut next: *const c_char = buf.as_ptr();
     let mut enc: &ENCODING = &*(*parser).m_encoding;
     let mut tok = XML_TOK::INVALID;
@@ -5566,7 +5567,7 @@ unsafe extern "C" fn entityValueProcessor(
         tok = (*enc).xmlTok(XML_STATE::PROLOG, buf, &mut next);
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
-                *nextPtr = buf.as_ptr();
+                *nextPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
@@ -5580,7 +5581,7 @@ unsafe extern "C" fn entityValueProcessor(
                as valid, and report a syntax error, so we have to skip the BOM
             */
             /* found end of entity value - can store it now */
-            return storeEntityValue(parser, EncodingType::Normal, buf);
+            return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
         buf = buf.with_start(next);
     }
-- 
2.43.0


From 52e8aa968878be02e59e1c04d17a53d726826ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:38 +0000
Subject: [PATCH 16/46] fix: text declarations of parameter entities in entity
 values

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 07fa169..96f415b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5473,7 +5473,7 @@ unsafe extern "C" fn entityValueInitProcessor(
         } else {
             if tok == XML_TOK::XML_DECL {
                 let mut result: XML_Error = XML_Error::NONE;
-                result = (*parser).processXmlDecl(0, buf.with_end(next));
+                result = (*parser).processXmlDecl(1, buf.with_end(next));
                 if result != XML_Error::NONE {
                     return result;
                 }
-- 
2.43.0


From ea665d1aace0285b54c38029d186537f16c34061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:23:59 +0000
Subject: [PATCH 17/46] fix: byte order mark of a parameter entity in an entity
 value

---
 src/lib/xmlparse.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 96f415b..7c994d9 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5448,7 +5448,7 @@ unsafe extern "C" fn externalParEntInitProcessor(
 
 unsafe extern "C" fn entityValueInitProcessor(
     mut parser: XML_Parser,
-    init_buf: ExpatBufRef,
+    mut init_buf: ExpatBufRef,
     mut nextPtr: *mut *const c_char,
 ) -> XML_Error {
     let mut buf = init_buf.clone();
@@ -5497,12 +5497,13 @@ unsafe extern "C" fn entityValueInitProcessor(
                    then, when this routine is entered the next time, XmlPrologTok will
                    return XML_TOK::INVALID, since the BOM is still in the buffer
                 */
-                if tok == XML_TOK::BOM
-                    && next == buf.end()
-                    && !(*parser).m_parsingStatus.finalBuffer
-                {
-                    *nextPtr = next;
-                    return XML_Error::NONE;
+                if tok == XML_TOK::BOM {
+                    /* the BOM is no part of the value */
+                    init_buf = buf.with_start(next);
+                    if next == buf.end() && !(*parser).m_parsingStatus.finalBuffer {
+                        *nextPtr = next;
+                        return XML_Error::NONE;
+                    }
                 } else {
                     /* If we get this token, we have the start of what might be a
                        normal tag, but not a declaration (i.e. it doesn't begin with
-- 
2.43.0


From 6870f41eb23c0a898e8540df4a983a16fb780ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:37:03 +0000
Subject: [PATCH 18/46] fix: malformed UTF-8 in names is rejected

---
 src/lib/xmltok_impl.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 5d41751..eda3f8f 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -68,7 +68,7 @@ macro_rules! CHECK_NAME_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_name_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n) || !$self.is_name_char($buf.as_ptr(), n) {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -98,7 +98,7 @@ macro_rules! CHECK_NMSTRT_CASES {
                 if $buf.len() < n as usize {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if !$self.is_nmstrt_char($buf.as_ptr(), n) {
+                if $self.is_invalid_char($buf.as_ptr(), n) || !$self.is_nmstrt_char($buf.as_ptr(), n) {
                     *$nextTokPtr = $buf.as_ptr();
                     return XML_TOK::INVALID;
                 }
@@ -1062,7 +1062,10 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                 if (buf.len() as c_long) < n as c_long {
                     return XML_TOK::PARTIAL_CHAR;
                 }
-                if self.is_nmstrt_char(buf.as_ptr(), n) {
+                if self.is_invalid_char(buf.as_ptr(), n) {
+                    *nextTokPtr = buf.as_ptr();
+                    return XML_TOK::INVALID;
+                } else if self.is_nmstrt_char(buf.as_ptr(), n) {
                     buf = buf.inc_start(n as isize);
                     tok = XML_TOK::NAME;
                 } else if self.is_name_char(buf.as_ptr(), n) {
-- 
2.43.0


From df4a6f423b25168afb2e753c97d9aa294a79041b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:03 +0000
Subject: [PATCH 19/46] fix: unpaired surrogates in UTF-16 are rejected

---
 src/lib/xmltok.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 19de19f..b32524e 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -871,8 +871,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, _n: isize) -> bool {
+        /* a high surrogate must be followed by a low one */
+        unsafe { *p.offset(3) as c_uchar & 0xfc != 0xdc }
     }
 
     #[inline]
@@ -1045,8 +1046,9 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
     }
 
     #[inline]
-    fn is_invalid_char(&self, _p: *const c_char, _n: isize) -> bool {
-        false
+    fn is_invalid_char(&self, p: *const c_char, _n: isize) -> bool {
+        /* a high surrogate must be followed by a low one */
+        unsafe { *p.offset(2) as c_uchar & 0xfc != 0xdc }
     }
 
     #[inline]
-- 
2.43.0


From 8d7fd09b7f72b08c481afaceef339af7c2bacf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:00:34 +0000
Subject: [PATCH 20/46] fix: appending to a string pool takes time proportional
 to what is appended

---
 src/string_pool.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/string_pool.rs b/src/string_pool.rs
index f1726a5..73cd73d 100644
--- a/src/string_pool.rs
+++ b/src/string_pool.rs
@@ -282,14 +282,16 @@ impl<'bump> RentedBumpVec<'bump> {
         loop {
             // REXPAT: always reserve at least 4 bytes,
             // so at least one character gets converted every iteration
-            if self.0.try_reserve(read_buf.len().max(4)).is_err() {
+            let room = read_buf.len().max(4);
+            if self.0.try_reserve(room).is_err() {
                 return false;
             }
 
             let start_len = self.0.len();
-            let cap = self.0.capacity();
 
-            self.0.resize(cap, 0);
+            // REXPAT: do not touch the rest of the capacity, which may be
+            // much larger than what is appended
+            self.0.resize(start_len + room, 0);
 
             let mut write_buf = ExpatBufRefMut::from(&mut self.0[start_len..]);
             let write_buf_len = write_buf.len();
-- 
2.43.0


From 3298fb1f4e8e2a6e79beb24b14d0f63477da5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:18:17 +0000
Subject: [PATCH 21/46] fix: report the extent of square brackets that end an
 entity

When the text of an entity ends with ] or ]], the character data event for it
had a byte count of zero, and XML_DefaultCurrent passed nothing on.
---
 src/lib/xmlparse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7c994d9..78cc545 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -4125,6 +4125,7 @@ impl XML_ParserStruct {
                         *nextPtr = buf.as_ptr();
                         return XML_Error::NONE;
                     }
+                    *eventEndPP = buf.end();
                     if self.m_handlers.hasCharacterData() {
                         if MUST_CONVERT!(enc, buf.as_ptr()) {
                             let dataStart = self.m_dataBuf.as_ptr();
-- 
2.43.0


From 59120f56613893f82bb830e2caa68af4992f11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:21:16 +0000
Subject: [PATCH 22/46] fix: report the extent of each piece of a long CDATA
 section

When the text of a CDATA section is converted in several pieces, the byte
count of every piece (and what XML_DefaultCurrent passes on) reached to the
end of the text rather than to the end of the piece.
---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 78cc545..6627dea 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5010,7 +5010,7 @@ unsafe extern "C" fn doCdataSection(
                                 &mut to_buf,
                             );
                             buf = buf.with_start(from_buf.as_ptr());
-                            *eventEndPP = next;
+                            *eventEndPP = buf.as_ptr();
                             handlers.characterData(
                                 &ExpatBufRef::new(
                                     (*parser).m_dataBuf.as_ptr(),
-- 
2.43.0


From 35c498f3a9109a3e4d0bed01fbef2ab047a6b97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:34:04 +0000
Subject: [PATCH 23/46] fix: positions of events in an internal entity after
 resuming in it

---
 src/lib/xmlparse.rs | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6627dea..582c520 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2690,6 +2690,25 @@ pub unsafe extern "C" fn XML_Parse(
 }
 
 impl XML_ParserStruct {
+    /* Moves the position to the start of the data that remains to be parsed.
+       While an internal entity is open, the events to come are still those of
+       the reference to it, so the position must not move past that. */
+    unsafe fn advancePosition(&mut self) {
+        let mut end = self.m_bufferStart;
+        if !self.m_openInternalEntities.is_null() && !self.m_eventPtr.is_null() {
+            let event = self.m_eventPtr.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+            end = cmp::min(end, event);
+        }
+        let start = self.m_positionIdx.unwrap();
+        if start < end {
+            (*self.m_encoding).updatePosition(
+                self.m_buffer[start..end].into(),
+                &mut self.m_position,
+            );
+            self.m_positionIdx = Some(end);
+        }
+    }
+
     pub unsafe fn parseBuffer(&mut self, len: c_int, isFinal: c_int) -> XML_Status {
         let mut start: *const c_char = ptr::null();
         let mut result: XML_Status = XML_Status::OK;
@@ -2746,11 +2765,7 @@ impl XML_ParserStruct {
                 _ => {}
             }
         }
-        (*self.m_encoding).updatePosition(
-            self.m_buffer[self.m_positionIdx.unwrap()..self.m_bufferStart].into(),
-            &mut self.m_position,
-        );
-        self.m_positionIdx = Some(self.m_bufferStart);
+        self.advancePosition();
         result
     }
 }
@@ -2973,11 +2988,7 @@ impl XML_ParserStruct {
                 _ => {}
             }
         }
-        (*self.m_encoding).updatePosition(
-            self.m_buffer[self.m_positionIdx.unwrap()..self.m_bufferStart].into(),
-            &mut self.m_position,
-        );
-        self.m_positionIdx = Some(self.m_bufferStart);
+        self.advancePosition();
 
         #[cfg(feature = "mozilla")]
         {
@@ -3619,6 +3630,7 @@ impl XML_ParserStruct {
             eventPP = &mut self.m_eventPtr;
             eventEndPP = &mut self.m_eventEndPtr
         }
+        let openEntities = self.m_openInternalEntities;
         let enc = self.encoding(enc_type);
         *eventPP = buf.as_ptr();
         loop {
@@ -4216,15 +4228,23 @@ impl XML_ParserStruct {
                 }
             }
             buf = buf.with_start(next);
-            *eventPP = buf.as_ptr();
             match self.m_parsingStatus.parsing {
                 XML_Parsing::SUSPENDED => {
+                    /* when suspended in an internal entity, its reference
+                       remains the event until the entity has been finished */
+                    if self.m_openInternalEntities == openEntities {
+                        *eventPP = next;
+                    }
                     *nextPtr = next;
                     return XML_Error::NONE;
                 }
-                XML_Parsing::FINISHED => return XML_Error::ABORTED,
+                XML_Parsing::FINISHED => {
+                    *eventPP = next;
+                    return XML_Error::ABORTED;
+                }
                 _ => {}
             }
+            *eventPP = next;
         }
         /* not reached */
     }
-- 
2.43.0


From 80a71f47ba09cdfb0ea3e1b4d63fbaea278f52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:23 +0000
Subject: [PATCH 24/46] fix: resuming within a CDATA section of an internal
 entity

---
 src/lib/xmlparse.rs | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 582c520..9307c0f 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1415,6 +1415,8 @@ pub struct OpenInternalEntity {
     pub entity: *mut Entity,
     pub startTagLevel: c_int,
     pub betweenDecl: XML_Bool,
+    /* true if suspended within a CDATA section of the entity */
+    pub inCdataSection: bool,
 }
 
 pub type Processor = unsafe extern "C" fn(
@@ -4128,7 +4130,11 @@ impl XML_ParserStruct {
                     if result_2 != XML_Error::NONE {
                         return result_2;
                     } else if next.is_null() {
-                        self.m_processor = Some(cdataSectionProcessor as Processor);
+                        if enc_type.is_internal() {
+                            (*self.m_openInternalEntities).inCdataSection = true;
+                        } else {
+                            self.m_processor = Some(cdataSectionProcessor as Processor);
+                        }
                         return result_2;
                     }
                 }
@@ -7013,6 +7019,7 @@ impl XML_ParserStruct {
         (*openEntity).entity = entity;
         (*openEntity).startTagLevel = self.m_tagLevel;
         (*openEntity).betweenDecl = betweenDecl;
+        (*openEntity).inCdataSection = false;
         (*openEntity).internalEventPtr = ptr::null();
         (*openEntity).internalEventEndPtr = ptr::null();
         let text_buf = ExpatBufRef::new(
@@ -7077,7 +7084,7 @@ unsafe extern "C" fn internalEntityProcessor(
             return XML_Error::UNEXPECTED_STATE;
         }
         entity = (*openEntity).entity;
-        let text_buf = ExpatBufRef::new(
+        let mut text_buf = ExpatBufRef::new(
             ((*entity).textPtr as *mut c_char).offset((*entity).processed as isize),
             (*entity).textPtr.offset((*entity).textLen as isize) as *mut c_char,
         );
@@ -7097,13 +7104,33 @@ unsafe extern "C" fn internalEntityProcessor(
             )
         } else {
             /* XML_DTD */
-            result = (*parser).doContent(
-                (*openEntity).startTagLevel,
-                EncodingType::Internal,
-                text_buf,
-                &mut next,
-                false,
-            )
+            if (*openEntity).inCdataSection {
+                /* first finish the CDATA section that it was suspended in */
+                let mut new_buf = Some(text_buf);
+                result = doCdataSection(
+                    parser,
+                    EncodingType::Internal,
+                    &mut new_buf,
+                    &mut next,
+                    false,
+                );
+                if let Some(rest) = new_buf {
+                    (*openEntity).inCdataSection = false;
+                    text_buf = rest;
+                }
+            }
+            if result == XML_Error::NONE
+                && !(*openEntity).inCdataSection
+                && (*parser).m_parsingStatus.parsing != XML_Parsing::SUSPENDED
+            {
+                result = (*parser).doContent(
+                    (*openEntity).startTagLevel,
+                    EncodingType::Internal,
+                    text_buf,
+                    &mut next,
+                    false,
+                )
+            }
         }
         if result != XML_Error::NONE {
             return result;
-- 
2.43.0


From 0576e41e261faac9e5b658bdfdb19f416d915abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:56 +0000
Subject: [PATCH 25/46] fix: an internal entity must be complete even if
 suspended at its end

---
 src/lib/xmlparse.rs | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 9307c0f..7f97702 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7051,10 +7051,9 @@ impl XML_ParserStruct {
             )
         }
         if result == XML_Error::NONE {
-            /* an entity stays open as long as one referenced in it is open */
-            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED
-                && (text_buf.end() != next || self.m_openInternalEntities != openEntity)
-            {
+            /* an entity stays open until it has been checked that it is
+               complete, which is not done while the parser is suspended */
+            if self.m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
                 (*entity).processed = next.wrapping_offset_from(text_buf.as_ptr()) as i32;
                 self.m_processor = Some(internalEntityProcessor as Processor)
             } else {
@@ -7135,10 +7134,7 @@ unsafe extern "C" fn internalEntityProcessor(
         if result != XML_Error::NONE {
             return result;
         }
-        let suspended = (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED;
-        if suspended
-            && (text_buf.end() != next || (*parser).m_openInternalEntities != openEntity)
-        {
+        if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
             (*entity).processed =
                 next.wrapping_offset_from((*entity).textPtr as *mut c_char) as c_int;
             return result;
@@ -7151,9 +7147,6 @@ unsafe extern "C" fn internalEntityProcessor(
         if (*parser).m_openInternalEntities.is_null() {
             break;
         }
-        if suspended {
-            return result;
-        }
     }
     /* then go on with what the outermost one was referenced in */
     let processor = if (*entity).is_param {
@@ -7164,9 +7157,6 @@ unsafe extern "C" fn internalEntityProcessor(
         contentProcessor as Processor
     };
     (*parser).m_processor = Some(processor);
-    if (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED {
-        return result;
-    }
     processor(parser, buf, nextPtr)
 }
 
-- 
2.43.0


From 25e4a24283bbcabaa00fffadd36788bd476e263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:39:55 +0000
Subject: [PATCH 26/46] fix: position queries between the chunks of an external
 entity in an entity value

---
 src/lib/xmlparse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7f97702..34e5b4b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5487,6 +5487,8 @@ unsafe extern "C" fn entityValueInitProcessor(
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
                 *nextPtr = init_buf.as_ptr();
+                /* it will all be read again, so the position must not move past it */
+                (*parser).m_eventPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
-- 
2.43.0


From f3ed73c4b600bdacc017222d9e95bcd60c47e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:40:21 +0000
Subject: [PATCH 27/46] fix: a parser that was stopped for good always reports
 that parsing was aborted

---
 src/lib/xmlparse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 34e5b4b..7310b6e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2629,6 +2629,7 @@ impl XML_ParserStruct {
                 &mut start_ptr,
             );
             self.m_bufferStart = start_ptr.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+            self.checkAborted();
             if self.m_errorCode == XML_Error::NONE {
                 match self.m_parsingStatus.parsing {
                     XML_Parsing::SUSPENDED => {
@@ -2692,6 +2693,15 @@ pub unsafe extern "C" fn XML_Parse(
 }
 
 impl XML_ParserStruct {
+    /* Not all processors look at the parsing status after the last event. */
+    fn checkAborted(&mut self) {
+        if self.m_errorCode == XML_Error::NONE
+            && self.m_parsingStatus.parsing == XML_Parsing::FINISHED
+        {
+            self.m_errorCode = XML_Error::ABORTED;
+        }
+    }
+
     /* Moves the position to the start of the data that remains to be parsed.
        While an internal entity is open, the events to come are still those of
        the reference to it, so the position must not move past that. */
@@ -2748,6 +2758,7 @@ impl XML_ParserStruct {
         );
         // convert in-out parameter `start` from pointer back to index
         self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+        self.checkAborted();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
@@ -2974,6 +2985,7 @@ impl XML_ParserStruct {
             &mut start,
         );
         self.m_bufferStart = start.wrapping_offset_from(self.m_buffer.as_ptr()) as usize;
+        self.checkAborted();
         if self.m_errorCode != XML_Error::NONE {
             self.m_eventEndPtr = self.m_eventPtr;
             self.m_processor = Some(errorProcessor as Processor);
-- 
2.43.0


From 90e7afacecb4092d88f6f58356d86e662a847e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:01:14 +0000
Subject: [PATCH 28/46] fix: running out of memory when declaring a namespace
 prefix

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7310b6e..910ea89 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7910,6 +7910,9 @@ impl XML_ParserStruct {
                             &name[6] as *const _,
                             Prefix
                         ).0;
+                        if (*id).prefix.is_null() {
+                            return ptr::null_mut();
+                        }
                     }
                     (*id).xmlns = true
                 } else {
-- 
2.43.0


From 792f561d67991e549919d205d795bac1e79d5820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:40 +0000
Subject: [PATCH 29/46] fix: an entity whose value does not fit in memory is
 not declared

---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 910ea89..69f1b6c 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -6177,6 +6177,11 @@ impl XML_ParserStruct {
                                 .dec_end((*enc).minBytesPerChar() as usize)
                         );
 
+                        /* what there is of the value must not be taken for all of it */
+                        if result_2 == XML_Error::NO_MEMORY {
+                            self.m_dtd.entityValuePool.clear_current();
+                            return result_2;
+                        }
                         if !self.m_declEntity.is_null() {
                             (*self.m_declEntity).textLen = self.m_dtd.entityValuePool.len() as c_int;
                             (*self.m_declEntity).textPtr = self.m_dtd.entityValuePool.finish_string().as_ptr();
-- 
2.43.0


From 6cd89802780a529ba4b9846161548e6b823909f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:04:36 +0000
Subject: [PATCH 30/46] fix: the position of an error in an external entity in
 an entity value

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 69f1b6c..7c73fd8 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5606,10 +5606,13 @@ unsafe extern "C" fn entityValueProcessor(
     let mut enc: &ENCODING = &*(*parser).m_encoding;
     let mut tok = XML_TOK::INVALID;
     loop {
+        (*parser).m_eventPtr = buf.as_ptr();
         tok = (*enc).xmlTok(XML_STATE::PROLOG, buf, &mut next);
+        (*parser).m_eventEndPtr = next;
         if tok.to_i32().unwrap() <= 0 {
             if !(*parser).m_parsingStatus.finalBuffer && tok != XML_TOK::INVALID {
                 *nextPtr = init_buf.as_ptr();
+                (*parser).m_eventPtr = init_buf.as_ptr();
                 return XML_Error::NONE;
             }
             match tok {
-- 
2.43.0


From 32c21695c5f1a6351ab217dd6a354e82a1283395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:19 +0000
Subject: [PATCH 31/46] fix: XML_SetHashSalt reports success until parsing has
 begun

---
 src/lib/xmlparse.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 7c73fd8..8cbe0dd 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2573,9 +2573,20 @@ pub unsafe extern "C" fn XML_SetParamEntityParsing(
    Note: If parser == NULL, the function will do nothing and return 0.
 */
 #[no_mangle]
-pub unsafe extern "C" fn XML_SetHashSalt(_: XML_Parser, _: c_ulong) -> c_int {
-    // FIXME
-    0
+pub unsafe extern "C" fn XML_SetHashSalt(parser: XML_Parser, _: c_ulong) -> c_int {
+    if parser.is_null() {
+        return 0;
+    }
+    /* block after XML_Parse()/XML_ParseBuffer() has been called; the parent
+       of an external entity's parser has been parsing, too */
+    if (*parser).is_child_parser
+        || (*parser).m_parsingStatus.parsing == XML_Parsing::PARSING
+        || (*parser).m_parsingStatus.parsing == XML_Parsing::SUSPENDED
+    {
+        return 0;
+    }
+    /* the hash tables are keyed randomly in any case: there is nothing to set */
+    1
 }
 /* Parses some input. Returns XML_Status::ERROR if a fatal error is
    detected.  The last call to XML_Parse must have isFinal true; len
-- 
2.43.0


From 8b98999cece2e94a6f44b773eff18951b1ef21fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:44 +0000
Subject: [PATCH 32/46] fix: any value but zero turns on namespace triplets

---
 src/lib/xmlparse.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 8cbe0dd..440625b 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -2154,8 +2154,7 @@ pub unsafe extern "C" fn XML_UseForeignDTD(
    Note: Calling XML_SetReturnNSTriplet after XML_Parse or
      XML_ParseBuffer has no effect.
 */
-#[no_mangle]
-pub unsafe extern "C" fn XML_SetReturnNSTriplet(mut parser: XML_Parser, mut do_nst: XML_Bool) {
+pub unsafe fn XML_SetReturnNSTriplet(mut parser: XML_Parser, mut do_nst: XML_Bool) {
     if parser.is_null() {
         return;
     }
@@ -2167,6 +2166,11 @@ pub unsafe extern "C" fn XML_SetReturnNSTriplet(mut parser: XML_Parser, mut do_n
     }
     (*parser).m_ns_triplets = do_nst;
 }
+/* In C do_nst is an int, and any value but zero means true. */
+#[export_name = "XML_SetReturnNSTriplet"]
+pub unsafe extern "C" fn setReturnNSTriplet(parser: XML_Parser, do_nst: c_int) {
+    XML_SetReturnNSTriplet(parser, do_nst != 0)
+}
 /* This value is passed as the userData argument to callbacks. */
 #[no_mangle]
 pub unsafe extern "C" fn XML_SetUserData(mut parser: XML_Parser, mut p: *mut c_void) {
-- 
2.43.0


From ff7c7516d308907824ff48a5cfe5bc751a4cb587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:34 +0000
Subject: [PATCH 33/46] fix: the default handler may be cleared between pieces
 of a long token

---
 src/lib/xmlparse.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 440625b..6608bdb 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7782,16 +7782,12 @@ unsafe extern "C" fn reportDefault(
             convert_res = XmlConvert!(enc, &mut buf, &mut data_buf);
             *eventEndPP = buf.as_ptr();
 
-            let defaultRan = (*parser).m_handlers.default(
+            /* The handler may have been cleared while it was given an earlier piece */
+            (*parser).m_handlers.default(
                 (*parser).m_dataBuf.as_ptr(),
                 data_buf.as_ptr().wrapping_offset_from((*parser).m_dataBuf.as_ptr()).try_into().unwrap(),
             );
 
-            // Previously unwrapped an Option
-            if !defaultRan {
-                panic!("Expected default handler to be set");
-            }
-
             *eventPP = buf.as_ptr();
             if !(convert_res != super::xmltok::XML_Convert_Result::COMPLETED
                 && convert_res != super::xmltok::XML_Convert_Result::INPUT_INCOMPLETE)
-- 
2.43.0


From a0a822856b29e34c398f30fadd6246e6b8e941ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:50:53 +0000
Subject: [PATCH 34/46] fix: free long lists of tags without recursion

Dropping a list of tags recursed for each of them, so that the parser of a
document with some ten thousands of nested elements overflowed the stack when
it was freed.
---
 src/lib/xmlparse.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6608bdb..587a937 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -1543,6 +1543,11 @@ macro_rules! FREE {
 // it's only here because it needs the definition of `FREE`
 impl Drop for Tag {
     fn drop(&mut self) {
+        // free the whole list here: it can be too long for recursion
+        let mut parent = self.parent.take();
+        while let Some(mut tag) = parent {
+            parent = tag.parent.take();
+        }
         unsafe {
             FREE!(self.buf);
             destroyBindings(self.bindings);
-- 
2.43.0


From 818ba2836d258fbace563a6b16ab463d114b6857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:52:16 +0000
Subject: [PATCH 35/46] fix: build content models without recursion

A content model with some ten thousands of nested groups overflowed the stack
when it was put together for the element declaration handler.
---
 src/lib/xmlparse.rs | 93 ++++++++++++++++++++-------------------------
 1 file changed, 41 insertions(+), 52 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 587a937..3c533b7 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -8301,53 +8301,14 @@ unsafe extern "C" fn keylen(mut s: KEY) -> size_t {
 
 
 impl XML_ParserStruct {
-    fn build_node<'a, 'b>(
-        &self,
-        src_node: usize,
-        dest: &mut XML_Content,
-        mut contpos: &'a mut [XML_Content],
-        mut strpos: &'b mut [XML_Char],
-    ) -> (&'a mut [XML_Content], &'b mut [XML_Char]) {
-        let scf = RefCell::borrow(&self.m_dtd.scaffold);
-        dest.type_0 = scf.scaffold[src_node].type_0;
-        dest.quant = scf.scaffold[src_node].quant;
-        if dest.type_0 == XML_Content_Type::NAME {
-            dest.name = (*strpos).as_ptr() as *mut XML_Char;
-            dest.numchildren = 0;
-            dest.children = ptr::null_mut();
-
-            let mut src = scf.scaffold[src_node].name;
-            loop {
-                let (first, rest) = strpos.split_first_mut().unwrap();
-                *first = unsafe { *src };
-                if *first == 0 {
-                    return (contpos, rest);
-                }
-                unsafe { src = src.offset(1) };
-                strpos = rest;
-            }
-        } else {
-            let (children, rest) = contpos.split_at_mut(scf.scaffold[src_node].childcnt);
-            contpos = rest;
-
-            dest.name = ptr::null_mut();
-            dest.numchildren = children.len().try_into().unwrap();
-            dest.children = children.as_ptr() as *mut XML_Content;
-
-            let mut cn = scf.scaffold[src_node].firstchild;
-            for child in children {
-                let (ncp, nsp) = self.build_node(cn, child, contpos, strpos);
-                cn = scf.scaffold[cn].nextsib;
-                contpos = ncp;
-                strpos = nsp;
-            }
-        }
-        (contpos, strpos)
-    }
-
+    /* Makes the nodes of the model in the order in which their parents come,
+       so that no recursion is needed however deeply the model is nested.
+       Until a node is made, numchildren is its index in the scaffold.
+    */
     unsafe fn build_model(&mut self) -> *mut XML_Content {
         let mut ret: *mut XML_Content = ptr::null_mut();
-        let scaffold_len = self.m_dtd.scaffold.borrow().scaffold.len();
+        let scf = RefCell::borrow(&self.m_dtd.scaffold);
+        let scaffold_len = scf.scaffold.len();
         let mut allocsize: c_int = (scaffold_len as c_ulong)
             .wrapping_mul(::std::mem::size_of::<XML_Content>() as c_ulong)
             .wrapping_add(
@@ -8358,13 +8319,41 @@ impl XML_ParserStruct {
         if ret.is_null() {
             return ptr::null_mut();
         }
-        let str = std::slice::from_raw_parts_mut(
-            ret.add(scaffold_len) as *mut XML_Char,
-            self.m_dtd.contentStringLen.get() as usize);
-        let cpos = std::slice::from_raw_parts_mut(
-            ret.offset(1) as *mut XML_Content,
-            scaffold_len as usize - 1);
-        self.build_node(0, &mut *ret, cpos, str);
+        let mut strpos = ret.add(scaffold_len) as *mut XML_Char;
+        let mut contpos = ret.add(1);
+        (*ret).numchildren = 0;
+        let mut dest = ret;
+        while dest < contpos {
+            let src_node = (*dest).numchildren as usize;
+            let src = &scf.scaffold[src_node];
+            (*dest).type_0 = src.type_0;
+            (*dest).quant = src.quant;
+            if src.type_0 == XML_Content_Type::NAME {
+                (*dest).name = strpos;
+                (*dest).numchildren = 0;
+                (*dest).children = ptr::null_mut();
+                let mut name = src.name;
+                loop {
+                    *strpos = *name;
+                    strpos = strpos.add(1);
+                    if *name == 0 {
+                        break;
+                    }
+                    name = name.add(1);
+                }
+            } else {
+                (*dest).name = ptr::null_mut();
+                (*dest).numchildren = src.childcnt.try_into().unwrap();
+                (*dest).children = contpos;
+                let mut cn = src.firstchild;
+                for _ in 0..src.childcnt {
+                    (*contpos).numchildren = cn.try_into().unwrap();
+                    contpos = contpos.add(1);
+                    cn = scf.scaffold[cn].nextsib;
+                }
+            }
+            dest = dest.add(1);
+        }
         ret
     }
 
-- 
2.43.0


From c8b1b1400b03d75281d9f2407e4d2f9286b2ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:52:51 +0000
Subject: [PATCH 36/46] fix: UTF-16 build: converting UTF-8 advances past what
 it has converted

The conversion of two- and three-byte sequences threw away the advanced
input, so that it repeated the first such character until the output was
full, and for ever; and the end of the input was reported as an exhausted
output even when only a character is incomplete.
---
 src/lib/xmltok.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index b32524e..79fd0a0 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -601,7 +601,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[1] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(2);
+                        *from = from.inc_start(2);
                     }
                 }
                 6 => {
@@ -614,7 +614,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                                  | from[2] as c_int & 0x3f)
                             as c_ushort;
                         to.inc_start(1);
-                        from.inc_start(3);
+                        *from = from.inc_start(3);
                     }
                 }
                 7 => {
@@ -644,7 +644,7 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Utf8EncodingImpl<T> {
                 }
             }
         }
-        if !from.is_empty() {
+        if to.is_empty() && !from.is_empty() {
             res = XML_Convert_Result::OUTPUT_EXHAUSTED
         }
         res
-- 
2.43.0


From 3e3d5ca9e67e7870e3ab10acb64396353878fc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:22 +0000
Subject: [PATCH 37/46] fix: UTF-16 build: convert ISO-8859-1 and US-ASCII

The loop ran only while there was no room in the output, and took bytes
from 0x80 on for negative numbers.
---
 src/lib/xmltok.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 79fd0a0..5bc5079 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -1921,8 +1921,8 @@ fn latin1_toUtf16(
     mut from: &mut ExpatBufRef,
     to: &mut ExpatBufRefMut<u16>,
 ) -> XML_Convert_Result {
-    while !from.is_empty() && to.is_empty() {
-        to[0] = from[0] as u16;
+    while !from.is_empty() && !to.is_empty() {
+        to[0] = from[0] as c_uchar as u16;
         to.inc_start(1);
         *from = from.inc_start(1);
     }
-- 
2.43.0


From b475f4adac7a015142cb9a8b4790003848ee3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:53:54 +0000
Subject: [PATCH 38/46] fix: UTF-16 build: keep the local part of a name when
 its buffer moves

The offset in characters was added to a pointer to bytes.
---
 src/lib/xmlparse.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 3c533b7..fc33855 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3474,12 +3474,12 @@ impl XML_ParserStruct {
                 then update it as well, since it will always point into tag->buf
                 */
                 if !tag.name.localPart.is_null() {
-                    tag.name.localPart = (temp).offset(
+                    tag.name.localPart = (temp as *const XML_Char).offset(
                         tag
                             .name
                             .localPart
                             .wrapping_offset_from(tag.buf as *const XML_Char),
-                    ) as *const XML_Char
+                    )
                 } /* XmlContentTok doesn't always set the last arg */
                 tag.buf = temp;
                 tag.bufEnd = temp.offset(bufSize as isize);
-- 
2.43.0


From 20f0fa3cc8098a2c1c6848ea4379f8d9d3229804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:54:31 +0000
Subject: [PATCH 39/46] fix: UTF-16 build: keep surrogate pairs together when
 the output fills up

Shortening the input lost what followed the pair, as the input's end is
the caller's.
---
 src/lib/xmltok.rs | 54 ++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/src/lib/xmltok.rs b/src/lib/xmltok.rs
index 5bc5079..4ff0109 100644
--- a/src/lib/xmltok.rs
+++ b/src/lib/xmltok.rs
@@ -977,24 +977,27 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Little2EncodingImpl<T> {
         from: &mut ExpatBufRef,
         to: &mut ExpatBufRefMut<u16>,
     ) -> XML_Convert_Result {
-        let mut res: XML_Convert_Result = XML_Convert_Result::COMPLETED;
         *from = from.with_len(((from.len() as c_long >> 1) << 1) as usize);
-        if from.len() as c_long > ((to.len() as c_long) << 1)
-            && from[from.len()-1] as c_uchar as c_int & 0xf8 == 0xd8
-        {
-            *from = from.dec_end(2);
-            res = XML_Convert_Result::INPUT_INCOMPLETE
-        }
         while !from.is_empty() && !to.is_empty() {
-            to[0] = ((from[1] as c_uchar as c_int) << 8
-                     | from[0] as c_uchar as c_int) as c_ushort;
-            to.inc_start(1);
-            *from = from.inc_start(2);
+            /* Avoid copying the first half only of a surrogate pair. */
+            let units = if from[1] as c_uchar & 0xfc == 0xd8 { 2 } else { 1 };
+            if from.len() < units * 2 {
+                return XML_Convert_Result::INPUT_INCOMPLETE;
+            }
+            if to.len() < units {
+                return XML_Convert_Result::OUTPUT_EXHAUSTED;
+            }
+            for _ in 0..units {
+                to[0] = ((from[1] as c_uchar as c_int) << 8
+                         | from[0] as c_uchar as c_int) as c_ushort;
+                to.inc_start(1);
+                *from = from.inc_start(2);
+            }
         }
         if to.is_empty() && !from.is_empty() {
             XML_Convert_Result::OUTPUT_EXHAUSTED
         } else {
-            res
+            XML_Convert_Result::COMPLETED
         }
     }
 }
@@ -1152,24 +1155,27 @@ impl<T: NormalEncodingTable> XmlEncodingImpl for Big2EncodingImpl<T> {
         from: &mut ExpatBufRef,
         to: &mut ExpatBufRefMut<u16>,
     ) -> XML_Convert_Result {
-        let mut res: XML_Convert_Result = XML_Convert_Result::COMPLETED;
         *from = from.with_len(((from.len() as c_long >> 1) << 1) as usize);
-        if from.len() as c_long > ((to.len() as c_long) << 1)
-            && from[from.len()-2] as c_uchar as c_int & 0xf8 == 0xd8
-        {
-            *from = from.dec_end(2);
-            res = XML_Convert_Result::INPUT_INCOMPLETE
-        }
         while !from.is_empty() && !to.is_empty() {
-            to[0] = ((from[0] as c_uchar as c_int) << 8
-                     | from[1] as c_uchar as c_int) as c_ushort;
-            to.inc_start(1);
-            *from = from.inc_start(2);
+            /* Avoid copying the first half only of a surrogate pair. */
+            let units = if from[0] as c_uchar & 0xfc == 0xd8 { 2 } else { 1 };
+            if from.len() < units * 2 {
+                return XML_Convert_Result::INPUT_INCOMPLETE;
+            }
+            if to.len() < units {
+                return XML_Convert_Result::OUTPUT_EXHAUSTED;
+            }
+            for _ in 0..units {
+                to[0] = ((from[0] as c_uchar as c_int) << 8
+                         | from[1] as c_uchar as c_int) as c_ushort;
+                to.inc_start(1);
+                *from = from.inc_start(2);
+            }
         }
         if to.is_empty() && !from.is_empty() {
             XML_Convert_Result::OUTPUT_EXHAUSTED
         } else {
-            res
+            XML_Convert_Result::COMPLETED
         }
     }
 }
-- 
2.43.0


From c68d469eb6f78ad1339f030022c56f7216017c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:56:06 +0000
Subject: [PATCH 40/46] fix: a document type declaration cannot be closed
 within a parameter entity, also not after a resumption

---
 src/lib/xmlparse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index fc33855..6269750 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -7141,7 +7141,7 @@ unsafe extern "C" fn internalEntityProcessor(
                 next,
                 &mut next,
                 false,
-                true,
+                false,
             )
         } else {
             /* XML_DTD */
-- 
2.43.0


From 69832f5c95a7ee9182983afe2216389342807f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:02:24 +0000
Subject: [PATCH 41/46] fix: xmlwf: order notations by their names' characters,
 also beyond ASCII

---
 src/xmlwf/xmlwf.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/xmlwf/xmlwf.rs b/src/xmlwf/xmlwf.rs
index ba2cc5c..d3f054c 100644
--- a/src/xmlwf/xmlwf.rs
+++ b/src/xmlwf/xmlwf.rs
@@ -351,19 +351,19 @@ unsafe extern "C" fn freeNotations(mut data: *mut XmlwfUserData) {
 
 unsafe extern "C" fn xcscmp(mut xs: *const XML_Char, mut xt: *const XML_Char) -> c_int {
     while *xs as c_int != 0 && *xt as c_int != 0 {
-        if (*xs as c_int) < *xt as c_int {
+        if (*xs as c_uint) < *xt as c_uint {
             return -(1i32);
         }
-        if *xs as c_int > *xt as c_int {
+        if *xs as c_uint > *xt as c_uint {
             return 1i32;
         }
         xs = xs.offset(1);
         xt = xt.offset(1)
     }
-    if (*xs as c_int) < *xt as c_int {
+    if (*xs as c_uint) < *xt as c_uint {
         return -(1i32);
     }
-    if *xs as c_int > *xt as c_int {
+    if *xs as c_uint > *xt as c_uint {
         return 1i32;
     }
     return 0;
-- 
2.43.0


From 775f821b9e4079fc817fc1b6f794cb46a1554980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 42/46] fix: an IGNORE section ends at its ]]> although more
 brackets precede it

---
 src/lib/xmltok_impl.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index eda3f8f..4f311e3 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1465,10 +1465,11 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
                     buf = buf.inc_start(self.MINBPC() as isize);
                     REQUIRE_CHAR!(buf, self);
                     if self.char_matches(buf.as_ptr(), ASCII_RSQB) {
-                        buf = buf.inc_start(self.MINBPC() as isize);
-                        REQUIRE_CHAR!(buf, self);
-                        if self.char_matches(buf.as_ptr(), ASCII_GT) {
-                            buf = buf.inc_start(self.MINBPC() as isize);
+                        // The second bracket may be the first one of the end
+                        let mut end = buf.inc_start(self.MINBPC() as isize);
+                        REQUIRE_CHAR!(end, self);
+                        if self.char_matches(end.as_ptr(), ASCII_GT) {
+                            buf = end.inc_start(self.MINBPC() as isize);
                             if level == 0 as libc::c_int {
                                 *nextTokPtr = buf.as_ptr();
                                 return XML_TOK::IGNORE_SECT
-- 
2.43.0


From 9f505775ddd648c5c19d2f14c4be4c8169135ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 43/46] fix: a second text declaration is rejected after
 suspension in the first

---
 src/lib/xmlparse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index 6269750..e595a0e 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -3596,6 +3596,9 @@ unsafe extern "C" fn externalEntityInitProcessor3(
             }
             match (*parser).m_parsingStatus.parsing {
                 XML_Parsing::SUSPENDED => {
+                    /* there is only one text declaration */
+                    (*parser).m_processor = Some(externalEntityContentProcessor as Processor);
+                    (*parser).m_tagLevel = 1;
                     *endPtr = next;
                     return XML_Error::NONE;
                 }
-- 
2.43.0


From 9d20af65cf7cfa8e22666259221e01b401fa176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 44/46] fix: no panic for positions after a change of encoding

---
 src/lib/xmltok_impl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/xmltok_impl.rs b/src/lib/xmltok_impl.rs
index 4f311e3..dad58bc 100644
--- a/src/lib/xmltok_impl.rs
+++ b/src/lib/xmltok_impl.rs
@@ -1784,7 +1784,8 @@ impl<T: XmlEncodingImpl+XmlTokImpl> XmlEncoding for T {
             MATCH_LEAD_CASES! {
                 self.byte_type(buf.as_ptr()),
                 LEAD_CASE(n) => {
-                    buf = buf.inc_start(n as isize);
+                    // what precedes an encoding declaration needn't be whole characters in the encoding declared
+                    buf = buf.inc_start(std::cmp::min(n as isize, buf.len() as isize));
                 }
                 ByteType::LF => {
                     (*pos).columnNumber = -(1 as libc::c_int) as XML_Size;
-- 
2.43.0


From 2f06bb2f1fdeca7df6288f42d3d27428eb5d3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 45/46] fix: an element in an external entity of an entity
 value hung the parser

---
 src/lib/xmlparse.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e595a0e..e12464d 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5651,6 +5651,13 @@ unsafe extern "C" fn entityValueProcessor(
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
         }
+        /* the start of an element is not legal here (see entityValueInitProcessor),
+           and `next` does not move past it
+        */
+        if tok == XML_TOK::INSTANCE_START {
+            *nextPtr = next;
+            return XML_Error::SYNTAX;
+        }
         buf = buf.with_start(next);
     }
 }
-- 
2.43.0


From cea8e13b070c39500c40f5bc9bcfabbc393d8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:24 +0000
Subject: [PATCH 46/46] fix: an empty external entity in an entity value is not
 an error

---
 src/lib/xmlparse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/xmlparse.rs b/src/lib/xmlparse.rs
index e12464d..ce8dbf9 100644
--- a/src/lib/xmlparse.rs
+++ b/src/lib/xmlparse.rs
@@ -5532,6 +5532,10 @@ unsafe extern "C" fn entityValueInitProcessor(
                 XML_TOK::PARTIAL_CHAR => return XML_Error::PARTIAL_CHAR,
                 XML_TOK::NONE | _ => {}
             }
+            /* an empty entity: no encoding has been settled on, and nothing is to be stored */
+            if init_buf.is_empty() {
+                return XML_Error::NONE;
+            }
             /* found end of entity value - can store it now */
             return storeEntityValue(parser, EncodingType::Normal, init_buf);
         } else {
-- 
2.43.0

