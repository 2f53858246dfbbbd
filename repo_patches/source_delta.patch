From 81fd6e8590d07c5eda5538de2e0f6cf8d25ca479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 001/148] fix: correct the format of Length.add's error message

---
 pyslet/html401.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 160ff61..0057dc9 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -757,7 +757,7 @@ class Length(UnicodeMixin, MigratedClass):
             self.value += value
         else:
             raise ValueError(
-                "Can't add integer to non-pixel length value: %s+&i" %
+                "Can't add integer to non-pixel length value: %s+%i" %
                 (str(self), value))
 
 
-- 
2.43.0


From 3d4ed80ffe5b5dd43d970d111f8892de7353ea5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 002/148] fix: MultiLength formatting and allocation used names
 that do not exist

---
 pyslet/html401.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 0057dc9..78a3b27 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -925,7 +925,7 @@ class MultiLength(Length):
 
     def __unicode__(self):
         """Overridden to add "*" handling."""
-        if self.type == Length.Relative:
+        if self.type == MultiLength.RELATIVE:
             return to_text(self.value) + ustar
         else:
             return super(MultiLength, self).__unicode__()
@@ -973,10 +973,10 @@ class MultiLength(Length):
         result = [0] * imax
         for i in range3(imax):
             l = lengths[i]
-            if l.value_type == cls.PIXEL:
+            if l.type == cls.PIXEL:
                 result[i] = l.value
                 space_remaining = space_remaining - l.value
-            elif l.value_type == cls.PERCENTAGE:
+            elif l.type == cls.PERCENTAGE:
                 lvalue = (dim * l.value) // 100
                 pround += (dim * l.value) % 100
                 space_remaining = space_remaining - lvalue
@@ -985,14 +985,14 @@ class MultiLength(Length):
                     space_remaining -= 1
                     pround -= 100
                 result[i] = lvalue
-            elif l.value_type == cls.RELATIVE:
+            elif l.type == cls.RELATIVE:
                 relative_total = relative_total + l.value
         if relative_total:
             rround = 0
             dim = space_remaining
             for i in range3(imax):
                 l = lengths[i]
-                if l.value_type == cls.RELATIVE:
+                if l.type == cls.RELATIVE:
                     lvalue = (dim * l.value) // relative_total
                     rround += (dim * l.value) % relative_total
                     space_remaining = space_remaining - lvalue
-- 
2.43.0


From ee8978e665970147a64635357bc8888fe2f8675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 003/148] fix: Thread.isAlive was removed, use is_alive

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index b96ba75..4712984 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4809,7 +4809,7 @@ class SQLEntityContainer(object):
         with self.cpool_lock:
             locked_list = list(dict_values(self.cpool_locked))
             for cpool_item in locked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.error(
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
@@ -4817,7 +4817,7 @@ class SQLEntityContainer(object):
                     to_close.append(cpool_item.dbc)
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
-                if not cpool_item.thread.isAlive():
+                if not cpool_item.thread.is_alive():
                     logging.debug(
                         "pool_cleaner moving database connection to idle "
                         "after Thread[%i] terminated",
@@ -4923,7 +4923,7 @@ class SQLEntityContainer(object):
                             "before closing container", cpool_item.thread_id)
                         del self.cpool_locked[cpool_item.thread_id]
                         to_close.append(cpool_item.dbc)
-                    elif not cpool_item.thread.isAlive():
+                    elif not cpool_item.thread.is_alive():
                         logging.error(
                             "Thread[%i] failed to release database connection "
                             "before terminating", cpool_item.thread_id)
-- 
2.43.0


From 6ec71bcb91f093efb904a480ab54531af0239894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 004/148] fix: misspelt method when resetting an Entry with
 content

---
 pyslet/rfc4287.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/rfc4287.py b/pyslet/rfc4287.py
index 766bfdf..dbf8e42 100644
--- a/pyslet/rfc4287.py
+++ b/pyslet/rfc4287.py
@@ -587,7 +587,7 @@ class Entry(Entity):
     def reset(self):
         self.AtomId.reset()
         if self.Content:
-            self.Content.DetatchFromParent()
+            self.Content.detach_from_parent()
             self.Content = None
         if self.Published:
             self.Published.detach_from_parent()
-- 
2.43.0


From 744f41f389295a1efb0364ee31cd8b5a0c6eaeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 005/148] fix: BasicCredentials.match called a method the base
 class lacks

---
 pyslet/http/auth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 3941177..9630b74 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -228,7 +228,8 @@ class BasicCredentials(Credentials):
     def match(self, challenge=None, url=None):
         if challenge is not None:
             # must match the challenge
-            if not super(BasicCredentials, self).match(challenge):
+            if not super(BasicCredentials, self).match_challenge(
+                    challenge):
                 return False
         if url is not None:
             # must match the url
-- 
2.43.0


From 2f1d9cb9994260b380846f2e1adf63ba8da312b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 006/148] fix: get_nsdoc_class used tables of the wrong class

---
 pyslet/xml/namespace.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/xml/namespace.py b/pyslet/xml/namespace.py
index 25986f5..ae6e737 100644
--- a/pyslet/xml/namespace.py
+++ b/pyslet/xml/namespace.py
@@ -620,14 +620,14 @@ class XMLNSParser(XMLParser):
         If no document class can be found, :py:class:`NSDocument` is
         returned."""
         if xname[0] is None:
-            doc_class = XMLParser._nsdoc_class_table.get(xname, None)
+            doc_class = self._nsdoc_class_table.get(xname, None)
         else:
-            doc_class = XMLParser._nsdoc_class_table.get(xname, None)
+            doc_class = self._nsdoc_class_table.get(xname, None)
             if doc_class is None:
-                doc_class = XMLParser.DocumentClassTable.get(
+                doc_class = self._nsdoc_class_table.get(
                     (xname[0], None), None)
             if doc_class is None:
-                doc_class = XMLParser.DocumentClassTable.get(
+                doc_class = self._nsdoc_class_table.get(
                     (None, xname[1]), None)
         if doc_class is None:
             doc_class = NSDocument
-- 
2.43.0


From 95e47f9c3a1191168ea636ecca0971c0923e34cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 007/148] fix: ValidateMimeType called a method AtomDocument
 lacks

---
 pyslet/rfc5023.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/rfc5023.py b/pyslet/rfc5023.py
index 3e7dd9c..9b57428 100644
--- a/pyslet/rfc5023.py
+++ b/pyslet/rfc5023.py
@@ -197,7 +197,7 @@ class Document(atom.AtomDocument):
     def ValidateMimeType(self, mimetype):   # noqa
         """Checks *mimetype* against the APP or Atom specifications."""
         return (mimetype in APP_MIMETYPES or
-                atom.AtomDocument.ValidateMimeType(self, mimetype))
+                mimetype == atom.ATOM_MIMETYPE)
 
     @classmethod
     def get_element_class(cls, name):
-- 
2.43.0


From 066b7b163d0e97c771d1b194cc47de649444ba26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 008/148] fix: misspelt logging call in Server.get_request

---
 pyslet/http/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 9f94287..18080e4 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -738,7 +738,7 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
         try:
             return socketserver.TCPServer.get_request(self)
         except socket.error as e:
-            logging.errror("Server socket error %s", repr(e))
+            logging.error("Server socket error %s", repr(e))
             raise
 
     def handle_timeout(self):
-- 
2.43.0


From ce487140ef90331a20f141b12f339854931170a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 009/148] fix: exceptions raised by the HTTP server were not
 imported

---
 pyslet/http/server.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 18080e4..1a63d18 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -172,8 +172,9 @@ def split_socket1(s, buffstr=b'', timeout=None, maxline=MAX_HEADER_LINE):
             # not found, fill the buffer with data
             pass
         if len(buffer) >= maxline:
-            raise HTTPException("max line length exceeded: %s..." +
-                                buffer[0:64])
+            raise messages.HTTPException(
+                "max line length exceeded: %s..." %
+                bytes(buffer[0:64]).decode('iso-8859-1'))
         data = read_socket(s, maxline - len(buffer), timeout=timeout)
         if not data:
             return None, bytes(buffer)
@@ -334,7 +335,7 @@ class Connection(socketserver.BaseRequestHandler):
                             if line is None:
                                 # hang up
                                 if request.method:
-                                    raise ProtocolError("Unexpected EOM")
+                                    raise messages.ProtocolError("Unexpected EOM")
                                 else:
                                     # client hung up
                                     logging.debug("client hang up detected")
@@ -358,7 +359,7 @@ class Connection(socketserver.BaseRequestHandler):
                                 if data is None:
                                     # client hang up when we expected
                                     # more data
-                                    raise ProtocolError(
+                                    raise messages.ProtocolError(
                                         "Unexpected EOM in data")
                                 request.recv(data)
                         elif mode == request.RECV_ALL:
-- 
2.43.0


From 2a86be883365a8332191f0692bbad08d12141e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 010/148] fix: SQLError is not defined by the csdl module

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 4712984..c4a0cd9 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2060,7 +2060,7 @@ class SQLEntityCollection(SQLCollectionBase):
                 # give up - we can't insert anything
                 logging.error("Failed to find an unused key in %s "
                               "after 100 attempts", e.entity_set.name)
-                raise edm.SQLError("Auto-key failure")
+                raise SQLError("Auto-key failure")
             # finally, store the stream value for the entity
             query = ['UPDATE ', self.table_name, ' SET ']
             params = self.container.ParamsClass()
-- 
2.43.0


From 3696919a1711fb6bf7fbb57b43e03adb817f65e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 011/148] fix: auto-key failure message had no place for the
 entity set

---
 pyslet/odata2/memds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 6711cad..3fe72c2 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -442,8 +442,8 @@ class EntityCollection(odata.EntityCollection):
             if key is None:
                 logging.error("Failed to find an unused key in %s "
                               "after 100 attempts", entity.entity_set.name)
-                raise edm.EDMError("Auto-key failure" %
-                                   odata.ODataURI.format_entity_key(entity))
+                raise edm.EDMError("Auto-key failure in %s" %
+                                   entity.entity_set.name)
             # Check constraints
             entity.check_navigation_constraints(from_end)
             self.entity_store.add_entity(entity)
-- 
2.43.0


From 683a5c27ec2452a09e0c7de29e27606ee5862fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 012/148] fix: delete_link formatted its error with the wrong
 arguments

---
 pyslet/odata2/sqlds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c4a0cd9..3559611 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2920,9 +2920,9 @@ class SQLEntityCollection(SQLCollectionBase):
                 # no rows matched this constraint, entity either doesn't exist
                 # or wasn't linked to the target
                 raise KeyError(
-                    "Entity %s does not exist or is not linked to %s" % str(
-                        entity.get_location(),
-                        target_entity.get_location))
+                    "Entity %s does not exist or is not linked to %s" % (
+                        str(entity.get_location()),
+                        str(target_entity.get_location())))
             transaction.commit()
         except Exception as e:
             transaction.rollback(e)
-- 
2.43.0


From 486601edd0608e9cf24d14a22cf8f2d039c07256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 013/148] fix: validation_error logged too few values

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 7ce723e..0ada236 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -732,7 +732,7 @@ class Document(Node):
         Prior to raising :class:`XMLValidityError` this method logs a
         suitable message at WARN level."""
         if aname:
-            logging.warning("%s (in %s.%s) %s", msg, aname,
+            logging.warning("%s (in %s.%s) %s", msg, element.xmlname, aname,
                             "" if data is None else repr(data))
         else:
             logging.warning("%s (in %s) %s", msg, element.xmlname,
-- 
2.43.0


From 31f45908b6e765decab07320e3371fd193ed2e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:28 +0000
Subject: [PATCH 014/148] fix: AssessFeedback used the wrong name for FlowMat

---
 pyslet/qtiv1/assessment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv1/assessment.py b/pyslet/qtiv1/assessment.py
index f736d37..c4a33b1 100755
--- a/pyslet/qtiv1/assessment.py
+++ b/pyslet/qtiv1/assessment.py
@@ -157,4 +157,4 @@ class AssessFeedback(common.ContentMixin, common.QTICommentContainer):
             common.ContentMixin.get_content_children(self))
 
     def content_child(self, child_class):
-        return child_class in (common.Material, common.QTIFlowMat)
+        return child_class in (common.Material, common.FlowMat)
-- 
2.43.0


From 762ff841f0303655beaaa302e008d2a3635aa9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 015/148] fix: Section.get_children used the wrong base class
 name

---
 pyslet/qtiv1/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv1/section.py b/pyslet/qtiv1/section.py
index 3e7130b..7275b77 100755
--- a/pyslet/qtiv1/section.py
+++ b/pyslet/qtiv1/section.py
@@ -59,7 +59,7 @@ class Section(core.ObjectMixin, core.SectionMixin, common.QTICommentContainer):
 
     def get_children(self):
         for child in itertools.chain(
-                core.QTIComment.get_children(self),
+                common.QTICommentContainer.get_children(self),
                 self.QTIMetadata,
                 self.Objectives,
                 self.SectionControl,
-- 
2.43.0


From 90d6d01256df8eb1ba1c7b71208cf38da93256c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 016/148] fix: OutcomesProcessing.get_children omitted self

---
 pyslet/qtiv1/outcomes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv1/outcomes.py b/pyslet/qtiv1/outcomes.py
index e996b08..19176c9 100755
--- a/pyslet/qtiv1/outcomes.py
+++ b/pyslet/qtiv1/outcomes.py
@@ -40,7 +40,7 @@ class OutcomesProcessing(common.QTICommentContainer):
         self.OutcomesFeedbackTest = []
 
     def get_children(self):
-        for child in common.QTICommentContainer.get_children():
+        for child in common.QTICommentContainer.get_children(self):
             yield child
         yield self.Outcomes
         for child in itertools.chain(
-- 
2.43.0


From c1d844909846bd08521dfd367a08c9336f775f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 017/148] fix: ResponseXY.get_base_type omitted the interaction

---
 pyslet/qtiv1/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv1/item.py b/pyslet/qtiv1/item.py
index 8296a0f..39d5cfe 100755
--- a/pyslet/qtiv1/item.py
+++ b/pyslet/qtiv1/item.py
@@ -1207,7 +1207,7 @@ class ResponseXY(ResponseThing):
         if isinstance(interaction, qtiv2.interactions.SelectPointInteraction):
             return qtiv2.variables.BaseType.point
         else:
-            return ResponseThing.get_base_type(self)
+            return ResponseThing.get_base_type(self, interaction)
 
 
 class ResponseStr(ResponseThing):
-- 
2.43.0


From 750d762c39af6cce2f20081f522405fa4bf16c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 018/148] fix: get_template_ref tested the name with the wrong
 module

---
 pyslet/qtiv2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/core.py b/pyslet/qtiv2/core.py
index 7b30c36..5756e27 100755
--- a/pyslet/qtiv2/core.py
+++ b/pyslet/qtiv2/core.py
@@ -381,6 +381,6 @@ def get_template_ref(value):
     the value does not look like a template variable reference."""
     if value.startswith('{') and value.endswith('}'):
         id_value = value[1:-1]
-        if xsi.is_valid_ncname(id_value):
+        if xmlns.is_valid_ncname(id_value):
             return id_value
     return None
-- 
2.43.0


From d02bb073cce6403847647bfdbe214a19450da34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 019/148] fix: the parser raised XMLFatalError from the wrong
 module

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index dec55de..5cd76b7 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -2236,7 +2236,7 @@ class XMLParser(PEP8Compatibility):
                 # This element was triggered by data which element_class
                 # was supposed to consume It didn't consume any data so
                 # we raise an error here to prevent a loop
-                raise xml.XMLFatalError(
+                raise XMLFatalError(
                     production +
                     ": element implied by PCDATA had empty content %s" %
                     self.element)
-- 
2.43.0


From b6572b87b43d73db1f61f0c6ad6b660a02859fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 020/148] fix: misspelt attribute in EntityTag.__repr__

---
 pyslet/http/params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 2a083cc..1a73179 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -771,7 +771,7 @@ class EntityTag(SortableParameter):
 
     def __repr__(self):
         return ("EntityTag(%s,%s)" %
-                (repr(self.tag), "True" if self.week else "False"))
+                (repr(self.tag), "True" if self.weak else "False"))
 
     def sortkey(self):
         return (self.tag, self.weak)
-- 
2.43.0


From 7996797af3c09d87e416986a052347721f880cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 021/148] fix: ISO8601Parser reported errors through a missing
 method

---
 pyslet/iso8601.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 133de00..4398778 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -2972,7 +2972,7 @@ class ISO8601Parser(BasicParser):
                                 century=v1, decade=v2 // 10, year=v2 %
                                 10, week=v3, base=base), "YYYY-Www"
                     else:
-                        self.BadSyntax("expected digit or W in ISO date")
+                        self.parser_error("expected digit or W in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
                     v3 = self.require_digit_value()
@@ -3004,7 +3004,7 @@ class ISO8601Parser(BasicParser):
                         return Date(
                             year=v1, month=v2, day=v3, base=base), "YY-MM-DD"
                     else:
-                        self.BadSyntax(
+                        self.parser_error(
                             "expected digit or hyphen in ISO date")
                 elif self.the_char == "W":
                     self.next_char()
@@ -3021,7 +3021,7 @@ class ISO8601Parser(BasicParser):
                             decade=v1 // 10, year=v1 %
                             10, week=v2, base=base), "YY-Www"
                 else:
-                    self.BadSyntax("expected digit or W in ISO date")
+                    self.parser_error("expected digit or W in ISO date")
             elif self.the_char == "W":
                 self.next_char()
                 v2 = self.require_digit_value()
@@ -3102,7 +3102,7 @@ class ISO8601Parser(BasicParser):
                     v1 = v1 * 10 + self.require_digit_value()
                     return Date(day=v1, base=base), "---DD"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             elif self.the_char == "W":
                 self.next_char()
@@ -3123,13 +3123,13 @@ class ISO8601Parser(BasicParser):
                     v1 = self.require_digit_value()
                     return Date(weekday=v1, base=base), "-W-D"
                 else:
-                    self.BadSyntax(
+                    self.parser_error(
                         "expected digit or hyphen in truncated ISO date")
             else:
-                self.BadSyntax(
+                self.parser_error(
                     "expected digit, hyphen or W in truncated ISO date")
         else:
-            self.BadSyntax("expected digit or hyphen in ISO date")
+            self.parser_error("expected digit or hyphen in ISO date")
 
     def parse_date(self, date, base=None):
         raise DateTimeError(
@@ -3202,7 +3202,7 @@ class ISO8601Parser(BasicParser):
                 tformat = "hh"
         elif self.the_char == "-":
             if tdesignator:
-                self.BadSyntax("time designator T before truncated time")
+                self.parser_error("time designator T before truncated time")
             self.next_char()
             if self.match_digit():
                 v1 = self.require_digit_value()
@@ -3251,12 +3251,12 @@ class ISO8601Parser(BasicParser):
                     hour, minute, second = None, None, v1
                     tformat = "--ss"
             else:
-                self.BadSyntax("expected digit or hyphen in truncated Time")
+                self.parser_error("expected digit or hyphen in truncated Time")
             # truncated forms cannot take timezones, return early
             t, overflow = base.extend(hour=hour, minute=minute, second=second)
             return t, overflow, tformat
         else:
-            self.BadSyntax("expected digit or hyphen in Time")
+            self.parser_error("expected digit or hyphen in Time")
         if self.the_char is not None and self.the_char in "Z+-":
             # can't be truncated form
             zdirection, zhour, zminute, tzFormat = \
@@ -3435,7 +3435,7 @@ class ISO8601Parser(BasicParser):
 
     def parse_fraction(self):
         if not (self.the_char == "." or self.the_char == ","):
-            self.BadSyntax("expected decimal sign")
+            self.parser_error("expected decimal sign")
         self.next_char()
         f = 0
         fmag = 1
@@ -3443,7 +3443,7 @@ class ISO8601Parser(BasicParser):
             f = f * 10 + self.require_digit_value()
             fmag *= 10
         if fmag == 1:
-            self.BadSyntax("expected decimal digit")
+            self.parser_error("expected decimal digit")
         return float(f) / float(fmag)
 
     def require_digit_value(self):
-- 
2.43.0


From bdad1d7350a50147e0016112927e468a5cc75559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 022/148] fix: formatting a null EDM value referred to a
 missing name attribute

---
 pyslet/odata2/csdl.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 3d6b431..27fdd0b 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1119,7 +1119,8 @@ class BinaryValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         input = io.BytesIO(self.value)
         output = io.StringIO()
         while True:
@@ -1167,7 +1168,8 @@ class BooleanValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         return self.utrue if self.value else self.ufalse
 
     def set_from_literal(self, value):
@@ -1248,7 +1250,8 @@ class ByteValue(NumericValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         return xsi.integer_to_str(self.value)
 
     def set_from_numeric_literal(self, num):
@@ -1309,7 +1312,8 @@ class DateTimeValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1390,7 +1394,8 @@ class DateTimeOffsetValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1458,7 +1463,8 @@ class TimeValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         precision = None
         if self.p_def:
             # check the precision before formatting
@@ -1528,7 +1534,8 @@ class DecimalValue(NumericValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         t = self.value.as_tuple()
         if t.exponent < -29:
             # CSDL expects a 29-digit limit to the right of the point
@@ -1760,7 +1767,8 @@ class GuidValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         return to_text(self.value)
 
     def set_from_literal(self, value):
@@ -1894,7 +1902,8 @@ class StringValue(SimpleValue):
 
     def __unicode__(self):
         if self.value is None:
-            raise ValueError("%s is Null" % self.name)
+            raise ValueError("%s is Null" %
+                             (self.p_def.name if self.p_def else "value"))
         return to_text(self.value)
 
     def set_from_value(self, new_value):
-- 
2.43.0


From f63eb40348dfb8c69bea4d837eb17200530d0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 023/148] fix: StringValue.set_random_value used a missing
 attribute

---
 pyslet/odata2/csdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 27fdd0b..0da79e9 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -1928,7 +1928,7 @@ class StringValue(SimpleValue):
                 rbytes = self.p_def.maxLength
             if (self.p_def.fixedLength and
                     rbytes + len(base) < self.p_def.maxLength):
-                rbytes = self.maxLength - len(base)
+                rbytes = self.p_def.maxLength - len(base)
             elif len(base) + rbytes > self.p_def.maxLength:
                 # shorten base
                 base = base[:self.p_def.maxLength - rbytes]
-- 
2.43.0


From fd7c01ffce94822082d6f0742311401058ac6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 024/148] fix: rollback logged a missing attribute

---
 pyslet/odata2/sqlds.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 3559611..c0aa1a1 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -353,10 +353,9 @@ class SQLTransaction(object):
                 if err is not None:
                     if self.query_count:
                         logging.error(
-                            "Data Integrity Error on TABLE %s: rollback "
+                            "Data Integrity Error: rollback "
                             "invoked on a connection that does not "
                             "support transactions after error %s",
-                            self.table_name,
                             str(err))
                     else:
                         logging.info(
-- 
2.43.0


From a3543352f4fbaf9882b3315576056f7df3a6511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 025/148] fix: the last page did not clear the skiptoken

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c0aa1a1..7527c98 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -633,7 +633,7 @@ class SQLCollectionBase(core.EntityCollection):
                     # no more pages
                     if set_next:
                         self.top = self.skip = 0
-                        self.skipToken = None
+                        self.skiptoken = None
                     break
                 if skip:
                     skip = skip - 1
-- 
2.43.0


From 59c1b62b89ef0e9fbfbb3fa191bf87a4e94ed199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 026/148] fix: misspelt attribute in
 ResponseThing.content_changed

---
 pyslet/qtiv1/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv1/item.py b/pyslet/qtiv1/item.py
index 39d5cfe..6d3a683 100755
--- a/pyslet/qtiv1/item.py
+++ b/pyslet/qtiv1/item.py
@@ -1037,7 +1037,7 @@ class ResponseThing(Response):
         if isinstance(self.render, RenderFIB) and self.render.mixed_model():
             # use simplified prompt logic.
             self.prompt = self.intro
-            self.inlintPrompt = True
+            self.inlinePrompt = True
             for child in self.prompt:
                 if not child.is_inline():
                     self.inlinePrompt = False
-- 
2.43.0


From 4b76cbaa5874053975e3a298a1b60df9be07aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 027/148] fix: Pipe.readall did not restore the blocking mode

---
 pyslet/streams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 65baddd..536afe5 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -592,7 +592,7 @@ class Pipe(io.RawIOBase):
                     else:
                         data.append(part)
             finally:
-                self.rlocking = save_rblocking
+                self.rblocking = save_rblocking
 
     def _consolidate_buffer(self):
         with self.lock:
-- 
2.43.0


From cbbcd9bd52d0f5f69e9e255605e4af3d3ad4dd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 028/148] fix: regular expression escape did not default its
 character

---
 pyslet/xml/xsdatatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 5931b70..4fe1456 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -965,7 +965,7 @@ class RegularExpressionParser(BasicParser):
 
     def _re_escape(self, c=None):
         if c is None:
-            c == self.the_char
+            c = self.the_char
         if c in ".^$*+?{}\\[]|()":
             return "\\" + c
         else:
-- 
2.43.0


From bcb7fe842c5489e85116b18e05df98398ce1f121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 029/148] fix: dict_from_str kept only the last value

---
 pyslet/xml/xsdatatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/xsdatatypes.py b/pyslet/xml/xsdatatypes.py
index 4fe1456..90b0b1a 100644
--- a/pyslet/xml/xsdatatypes.py
+++ b/pyslet/xml/xsdatatypes.py
@@ -714,8 +714,8 @@ class Enumeration(EnumBase):
         result = {}
         for s in src.split():
             sv = decoder(s)
-        if sv not in result:
-            result[sv] = s
+            if sv not in result:
+                result[sv] = s
         return result
 
     @classmethod
-- 
2.43.0


From adb3ad6e02756f37052f4dace89d95c1a3abad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 030/148] fix: get_resource indexed the wrong variable

---
 pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 2f49eef..d834746 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -565,7 +565,7 @@ class ToolConsumer(object):
             else:
                 logging.warn("Duplicate resource: %s:%s",
                              self.entity['Key'].value, resource_link_id)
-                resource = resource[0]
+                resource = resources[0]
         return resource
 
     def get_user(self, user_id, name_given=None, name_family=None,
-- 
2.43.0


From 6dcf07cd6ab5b1e4592cb0280787553c49b8b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 031/148] fix: an empty inline element left entries unassigned

---
 pyslet/odata2/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 9e9793d..c58a225 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3500,6 +3500,7 @@ class Link(atom.Link):
         expansion if one is present in the link"""
         if self.Inline is not None:
             target_entity_set = deferred.target()
+            entries = []
             with target_entity_set.open() as collection:
                 if self.Inline.Entry is not None:
                     entity = collection.new_entity()
-- 
2.43.0


From 23a96e9f74a63e54470d876298e314a2d974d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 032/148] fix: a tampered session cookie left cmsg unassigned
 in ctest

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c9ccc3a..7ebbcf0 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2339,7 +2339,7 @@ class SessionApp(WSGIDataApp):
                            "cookie tampering detected\n"
                            "cookie=%s\nUserAgent: %s",
                            context.environ.get('PATH_INFO', ''),
-                           cmsg, ua)
+                           cmsg_signed, ua)
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         if csession.sid != qsession.sid or csession.established:
-- 
2.43.0


From c261009294ff8697153a3e28846d9ef16482e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 033/148] fix: IP address hosts used an unassigned variable

---
 pyslet/http/cookie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index c352d3c..4b91aa5 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1049,7 +1049,7 @@ class CookieStore(object):
             host.reverse()
         except ValueError:
             # the domain is an IP address, match whole
-            host = [host]
+            host = [host_str]
         domain = c.domain
         if domain is None:
             domain_str = host_str
@@ -1118,7 +1118,7 @@ class CookieStore(object):
             host.reverse()
         except ValueError:
             # the domain is an IP address, match whole
-            host = [host]
+            host = [host_str]
         matched = []
         dpos = 0
         now = time.time()
-- 
2.43.0


From 214ff7c446fafc9a6bcb2f09e739ec8ada222c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 034/148] fix: GzipEncoder lost or failed to return buffered
 data

---
 pyslet/http/messages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f1b0f0..1f4dbb0 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -45,12 +45,12 @@ class GzipEncoder(io.RawIOBase):
             if self.buffstr:
                 # we have some buffered data left over
                 if len(self.buffstr) > nbytes:
-                    self.buffstr = data[nbytes:]
-                    b[:] = data[:nbytes]
+                    b[:] = self.buffstr[:nbytes]
+                    self.buffstr = self.buffstr[nbytes:]
                 else:
                     nbytes = len(self.buffstr)
                     b[:nbytes] = self.buffstr
-                self.buffstr = None
+                    self.buffstr = None
                 return nbytes
             elif self.src is not None:
                 data = self.src.read(nbytes)
-- 
2.43.0


From e52fd681922b4e0eaea6f3067871a74b750e5dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 035/148] fix: reading a property value without a Content-Type
 failed

---
 pyslet/odata2/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/server.py b/pyslet/odata2/server.py
index 9267e10..ec461d4 100755
--- a/pyslet/odata2/server.py
+++ b/pyslet/odata2/server.py
@@ -1215,6 +1215,7 @@ class Server(app.Server):
 
     def read_dereferenced_value(self, value, environ):
         encoding = None
+        request_type = None
         if "CONTENT_TYPE" in environ:
             request_type = params.MediaType.from_str(environ["CONTENT_TYPE"])
         if value.mtype is None:
@@ -1247,7 +1248,7 @@ class Server(app.Server):
                 "Unable to parse property value from request "
                 "body (found <%s>)" % str(request_type))
         data = messages.WSGIInputWrapper(environ).read()
-        if request_type.type == "text":
+        if request_type is not None and request_type.type == "text":
             try:
                 encoding = request_type['charset'].decode('latin-1')
             except KeyError:
-- 
2.43.0


From 51a7cbc3ecb0bb7e1e541ae29291d5299f769cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 036/148] fix: empty HTML text left e unassigned

---
 pyslet/qtiv1/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv1/common.py b/pyslet/qtiv1/common.py
index fe8e680..aa08237 100755
--- a/pyslet/qtiv1/common.py
+++ b/pyslet/qtiv1/common.py
@@ -380,8 +380,9 @@ class MatText(core.QTIElement, PositionMixin, MatThingMixin):
                     for child in self.get_children():
                         value.append(to_text(child))
                     value = ''.join(value)
-                if value:
-                    e = xml.XMLEntity(value)
+                if not value:
+                    return
+                e = xml.XMLEntity(value)
             doc = html.XHTMLDocument(baseURI=uri)
             doc.read_from_entity(e)
             self.matChildren = list(doc.root.Body.get_children())
-- 
2.43.0


From c8d947fed65a9902c82c8977ffdd119a67180400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 037/148] fix: snew was unassigned when no address could be
 tried

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 3db3ac5..b4f7bd1 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -957,6 +957,7 @@ class Connection(SortableMixin):
             self.socket = None
             self.socket_file = None
             self.socketSelect = select.select
+        snew = None
         try:
             for target in self.manager.dnslookup(self.host, self.port):
                 family, socktype, protocol, canonname, address = target
-- 
2.43.0


From 02745f86a928e6da1040ee829ddd0e619a06abf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 038/148] fix: r was unassigned after an error from select

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index b4f7bd1..c221007 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -562,6 +562,7 @@ class Connection(SortableMixin):
                 r, w, e = self.socketSelect(readers, writers, [], None)
             except select.error as err:
                 logging.error("Socket error from select: %s", str(err))
+                r = []
             try:
                 data = None
                 data = self.socket.recv(io.DEFAULT_BUFFER_SIZE)
-- 
2.43.0


From 22cece07914c4ff94bc2668ec8dbdd96d7367ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 039/148] fix: nbytes was unassigned after an SSL error while
 sending

---
 pyslet/http/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index c221007..23af0a8 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -779,8 +779,8 @@ class Connection(SortableMixin):
                     return (False, True)
                 else:
                     # we're going to swallow this error, log it
-                    logging.error("socket.recv raised %s", str(err))
-                    data = None
+                    logging.error("socket.send raised %s", str(err))
+                    nbytes = 0
             except IOError as err:
                 if io_blocked(err):
                     # we're blocked on send
-- 
2.43.0


From 4db0849b4c2e7893490ecc6856722cb312dabb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 040/148] fix: request_mode was compared instead of assigned

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 23af0a8..1b2e061 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -798,7 +798,7 @@ class Connection(SortableMixin):
                 # requests!
                 self.request.disconnect(self.sent_bytes)
                 self.request = None
-                self.request_mode == self.CLOSE_WAIT
+                self.request_mode = self.CLOSE_WAIT
                 self.send_buffer = []
             elif nbytes < len(data):
                 # Some of the data went:
-- 
2.43.0


From 663eacc65009507028e188bf32c2d2f087c4d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 041/148] fix: ssl.wrap_socket was removed, use a context

---
 pyslet/http/client.py | 12 ++++++++----
 pyslet/http/server.py |  8 +++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 1b2e061..f51652d 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1015,10 +1015,14 @@ class SecureConnection(Connection):
             with self.lock:
                 if self.socket is not None:
                     self.socket.setblocking(True)
-                    socket_ssl = ssl.wrap_socket(
-                        self.socket, ca_certs=self.ca_certs,
-                        cert_reqs=ssl.CERT_REQUIRED if
-                        self.ca_certs is not None else ssl.CERT_NONE)
+                    context = ssl.SSLContext(ssl.PROTOCOL_SSLv23)
+                    context.check_hostname = False
+                    if self.ca_certs is not None:
+                        context.verify_mode = ssl.CERT_REQUIRED
+                        context.load_verify_locations(self.ca_certs)
+                    else:
+                        context.verify_mode = ssl.CERT_NONE
+                    socket_ssl = context.wrap_socket(self.socket)
                     self.socketTransport = self.socket
                     self.socket.setblocking(False)
                     self.socket = socket_ssl
diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 1a63d18..db07587 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -658,9 +658,11 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
             self, (self.host, self.port), Connection)
         if keyfile is not None:
             # This must be an HTTPS server
-            self.socket = ssl.wrap_socket(
-                self.socket, keyfile=keyfile, certfile=certfile,
-                server_side=True, do_handshake_on_connect=True)
+            context = ssl.SSLContext(ssl.PROTOCOL_SSLv23)
+            context.load_cert_chain(
+                keyfile if certfile is None else certfile, keyfile)
+            self.socket = context.wrap_socket(
+                self.socket, server_side=True, do_handshake_on_connect=True)
             self.https = True
         #: the protocol semantics we use for handling requests
         self.protocol = protocol
-- 
2.43.0


From e6e6b99cf96fc87ccbf9cccc3ac1a6ef4f75c018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 042/148] fix: __cmp__ used a builtin that was removed

---
 pyslet/vfs.py  | 3 ++-
 pyslet/wsgi.py | 7 +++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index e92125c..08ca35d 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -617,7 +617,8 @@ class VirtualFilePath(SortableMixin):
         elif self.__class__ is not other.__class__:
             raise ValueError(
                 "Can't compare file paths from different file systems")
-        return cmp(to_text(self), to_text(other))
+        a, b = to_text(self), to_text(other)
+        return (a > b) - (a < b)
 
     def __hash__(self):
         return hash(self.__class__) | hash(to_text(self))
diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 7ebbcf0..0914b54 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -798,10 +798,9 @@ class WSGIApp(DispatchNode):
         if not isinstance(other, WSGIApp):
             raise TypeError
         # compare first by class name, then by instance ID
-        result = cmp(self.__class__.__name__, other.__class__.__name__)
-        if not result:
-            result = cmp(self.id, other.id)
-        return result
+        a = (self.__class__.__name__, self.id)
+        b = (other.__class__.__name__, other.id)
+        return (a > b) - (a < b)
 
     def __hash__(self):
         return self.id
-- 
2.43.0


From 8db54b4e9ee771d707e084c41ea9935bd3f4e73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 043/148] fix: FileValue could not be constructed or set from a
 value

---
 pyslet/qtiv2/variables.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index 52964ef..da59dde 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -551,7 +551,7 @@ class FileValue(SingleValue):
 
     """Represents single value of type :py:class:`BaseType.file`."""
 
-    def __init__(self):
+    def __init__(self, value=None):
         super(FileValue, self).__init__()
         self.baseType = BaseType.file
         self.contentType = params.MediaType.from_str(
@@ -560,6 +560,8 @@ class FileValue(SingleValue):
         :py:class:`pyslet.http.params.MediaType` instance."""
         self.file_name = "data.bin"
         """The file name to use for the file."""
+        if value is not None:
+            self.set_value(value)
 
     def __unicode__(self):
         if self.value is None:
@@ -585,10 +587,10 @@ class FileValue(SingleValue):
         self.file_name = name
         if value is None:
             self.value = None
-        elif isinstance(value, file):
+        elif hasattr(value, "read"):
             self.value = value
         elif isinstance(value, bytes):
-            self.value = BytesIO.BytesIO(value)
+            self.value = BytesIO(value)
         elif isinstance(value, str):
             # Parse this value from the MIME stream.
             raise NotImplementedError(
-- 
2.43.0


From e62a1e6d1b7a28dcd8c6864e1f2344a0a5dc0d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 044/148] fix: QTI v1 migration named enumeration methods that
 do not exist

---
 pyslet/qtiv1/common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/qtiv1/common.py b/pyslet/qtiv1/common.py
index aa08237..8e5210d 100755
--- a/pyslet/qtiv1/common.py
+++ b/pyslet/qtiv1/common.py
@@ -1551,7 +1551,7 @@ class VarEqual(VarThing):
             else:
                 raise QTIUnimplementedOperator(
                     "varequal(%s)" %
-                    qtiv2.variables.BaseType.Encode(
+                    qtiv2.variables.BaseType.to_str(
                         d.baseType))
             self.migrate_variable_to_v2(d, expression, log)
             self.migrate_value_to_v2(d, expression, log)
@@ -1575,7 +1575,7 @@ class VarEqual(VarThing):
             else:
                 raise QTIUnimplementedOperator(
                     "varequal(%s)" %
-                    qtiv2.variables.BaseType.Encode(
+                    qtiv2.variables.BaseType.to_str(
                         d.baseType))
             expression = parent.add_child(qtiv2.expressions.Member)
             self.migrate_value_to_v2(d, expression, log)
@@ -1605,15 +1605,15 @@ class VarInequality(VarThing):
                 raise QTIUnimplementedOperator(
                     "%s(%s)" %
                     (self.xmlname,
-                     qtiv2.variables.BaseType.Encode(
+                     qtiv2.variables.BaseType.to_str(
                          d.baseType)))
             self.migrate_variable_to_v2(d, expression, log)
             self.migrate_value_to_v2(d, expression, log)
         else:
             raise QTIUnimplementedOperator(
                 "%s(%s:%s)" %
-                (self.xmlname, qtiv2.variables.Cardinality.Encode(
-                    d.cardinality), qtiv2.variables.BaseType.Encode(
+                (self.xmlname, qtiv2.variables.Cardinality.to_str(
+                    d.cardinality), qtiv2.variables.BaseType.to_str(
                     d.baseType)))
 
 
-- 
2.43.0


From 017c7d5b2870715f49803db7083498425dfa0f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 045/148] fix: _save_parameters named a base type that does not
 exist

---
 pyslet/qtiv2/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/qtiv2/variables.py b/pyslet/qtiv2/variables.py
index da59dde..5284a62 100755
--- a/pyslet/qtiv2/variables.py
+++ b/pyslet/qtiv2/variables.py
@@ -2059,7 +2059,7 @@ class ItemSessionState(SessionState):
                 if len(rname) != 2:
                     continue
                 try:
-                    if (rd.baseType == BaseType.Identifier and
+                    if (rd.baseType == BaseType.identifier and
                             core.ValidateIdentifier(rname[1])):
                         if is_text(svalue):
                             v.set_value(svalue)
-- 
2.43.0


From 7075f557e38b0a60fe4e34d662e738f7a8342e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 046/148] fix: parse_document compared refMode instead of
 setting it

---
 pyslet/xml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 5cd76b7..33fb7db 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1138,7 +1138,7 @@ class XMLParser(PEP8Compatibility):
 
         This method returns the document that was parsed, an instance of
         :py:class:`~pyslet.xml.structures.Document`."""
-        self.refMode == XMLParser.RefModeInContent
+        self.refMode = XMLParser.RefModeInContent
         self.doc = doc
         if self.checkAllErrors:
             self.checkCompatibility = True
-- 
2.43.0


From e918655f18114174c3ab22cd624a6e07c2c3d95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 047/148] fix: Message.recv set a misspelt attribute at the end
 of the data

---
 pyslet/http/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 1f4dbb0..50f9748 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -867,7 +867,7 @@ class Message(PEP8Compatibility, object):
                         self.recv_buffer = data
                     self._recv_buffered()
                 else:
-                    self.transfer_mode = None
+                    self.transfermode = None
             elif self.transfermode == self.BLOCKED_MODE:
                 self._recv_buffered()
             elif self.transfermode == self.CHUNK_END_MODE:
-- 
2.43.0


From 5fbd95196362c2a2843671c16d3de6e429a903e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 048/148] fix: error messages were raised without their values

---
 pyslet/iso8601.py     | 5 +++--
 pyslet/odata2/core.py | 2 +-
 pyslet/xml/parser.py  | 3 ++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/iso8601.py b/pyslet/iso8601.py
index 4398778..fadee5f 100644
--- a/pyslet/iso8601.py
+++ b/pyslet/iso8601.py
@@ -452,9 +452,10 @@ class Date(PEP8Compatibility, SortableMixin, UnicodeMixin):
         if week is not None and (week < 0 or week > 53):
             raise DateTimeError("week %i out of range" % week)
         if year is not None and (year < 0 or year > 9):
-            raise DateTimeError("year %i within decade is out of range")
+            raise DateTimeError(
+                "year %i within decade is out of range" % year)
         if decade is not None and (decade < 0 or decade > 9):
-            raise DateTimeError("decade %i is out of range")
+            raise DateTimeError("decade %i is out of range" % decade)
         self.month = None
         if century is None:
             # Truncation
diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index c58a225..1309c06 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1496,7 +1496,7 @@ class Parser(edm.Parser):
             # Final check, the string parameter must be a string literal!
             if not isinstance(string_param, LiteralExpression) or \
                     string_param.value.type_code != edm.SimpleType.String:
-                raise ValueError("%s requires string literal")
+                raise ValueError("%s requires string literal" % name)
             return e
         else:
             return None
diff --git a/pyslet/xml/parser.py b/pyslet/xml/parser.py
index 33fb7db..13ad2dd 100755
--- a/pyslet/xml/parser.py
+++ b/pyslet/xml/parser.py
@@ -1164,7 +1164,8 @@ class XMLParser(PEP8Compatibility):
             for idref in dict_keys(self.idRefTable):
                 if idref not in self.idTable:
                     self.validity_error(
-                        "IDREF: %s does not match any ID attribute value")
+                        "IDREF: %s does not match any ID attribute value" %
+                        idref)
         self.parse_misc()
         if self.the_char is not None and not self.dont_check_wellformedness:
             self.well_formedness_error(
-- 
2.43.0


From f76d5c7780c16de4a5e5f01e42bcdb9ac48e59fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 049/148] fix: iterating an in-memory entity set used a live
 view of its keys

---
 pyslet/odata2/memds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 3fe72c2..ca5c7fd 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -109,7 +109,7 @@ class InMemoryEntityStore(object):
         deleted during the iteration *may* not be yielded but an entity
         inserted during the iteration will never be yielded."""
         with self.container.lock:
-            keys = dict_keys(self.data)
+            keys = list(dict_keys(self.data))
         for k in keys:
             e = self.read_entity(k, select)
             if e is not None:
-- 
2.43.0


From 9eaf19e7cdc3fca05754de828eaa753c5832e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 050/148] fix: in-memory links were tested and changed in
 separate critical sections

---
 pyslet/odata2/memds.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index ca5c7fd..56e113b 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -713,6 +713,10 @@ class NavigationCollection(odata.NavigationCollection):
         raise KeyError(key)
 
     def __setitem__(self, key, value):
+        with self.aindex.container.lock:
+            self._set_link(key, value)
+
+    def _set_link(self, key, value):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             # no operation
@@ -736,6 +740,10 @@ class NavigationCollection(odata.NavigationCollection):
             self.aindex.add_link(self.key, key)
 
     def __delitem__(self, key):
+        with self.aindex.container.lock:
+            self._del_link(key)
+
+    def _del_link(self, key):
         # Before we remove a link we need to know if either entity
         # requires a link, if so, this deletion will result in a
         # constraint violation
@@ -751,6 +759,10 @@ class NavigationCollection(odata.NavigationCollection):
             self.aindex.remove_link(self.key, key)
 
     def replace(self, entity):
+        with self.aindex.container.lock:
+            self._replace_links(entity)
+
+    def _replace_links(self, entity):
         key = entity.key()
         result_set = list(self.lookupMethod(self.key))
         if result_set == [key]:
-- 
2.43.0


From f880578d803a8defae51ec7d482b14029d2ece5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 051/148] fix: in-memory delete used the deletion table without
 the container lock

---
 pyslet/odata2/memds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 56e113b..8772043 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -484,6 +484,10 @@ class EntityCollection(odata.EntityCollection):
         """We do a cascade delete of everything that *must* be linked to
         us. We don't need to bother about deleting links because the
         delete hooks on entity_store do this automatically."""
+        with self.entity_store.container.lock:
+            self._delete_entity(key)
+
+    def _delete_entity(self, key):
         if not self.entity_store.start_deleting_entity(key):
             # we're already being deleted so do nothing
             return
-- 
2.43.0


From 7300fe2c758e9433b61b33a97ddb5fcd55737bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 052/148] fix: filter test on in-memory navigation by key was
 inverted

---
 pyslet/odata2/memds.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyslet/odata2/memds.py b/pyslet/odata2/memds.py
index 8772043..427c1fd 100644
--- a/pyslet/odata2/memds.py
+++ b/pyslet/odata2/memds.py
@@ -709,10 +709,7 @@ class NavigationCollection(odata.NavigationCollection):
         result_set = self.lookupMethod(self.key)
         if key in result_set:
             result = self.collection[key]
-            if self.filter is None:
-                if self.check_filter(result):
-                    return result
-            else:
+            if self.check_filter(result):
                 return result
         raise KeyError(key)
 
-- 
2.43.0


From e1f4df8cd0028b51e934254e928250aabe8d714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 053/148] fix: a failure to open a database connection lost a
 slot in the pool

---
 pyslet/odata2/sqlds.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 7527c98..3587a5b 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4697,7 +4697,19 @@ class SQLEntityContainer(object):
                 self.close_connection(cpool_item.dbc)
                 cpool_item.dbc = None
             if cpool_item.dbc is None:
-                cpool_item.dbc = self.open()
+                try:
+                    cpool_item.dbc = self.open()
+                except Exception:
+                    # return the slot to the pool
+                    with self.cpool_lock:
+                        cpool_item.locked -= 1
+                        if self.cpool_locked.get(
+                                thread_id, None) is cpool_item:
+                            del self.cpool_locked[thread_id]
+                            self.cpool_size -= 1
+                            self.cpool_lock.notify()
+                    self.module_lock.release()
+                    raise
             return cpool_item
         # we are defeated, no database connection for the caller
         # release lock on the module as there is no connection to release
-- 
2.43.0


From 6c64c0e7775151fa544c94659e8b345ad816115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 054/148] fix: pool_cleaner lost the slots of dead threads and
 woke no waiting thread

---
 pyslet/odata2/sqlds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 3587a5b..1e7a776 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -4763,6 +4763,7 @@ class SQLEntityContainer(object):
                     bad_item = cpool_item
                     del self.cpool_idle[i]
                     self.cpool_size -= 1
+                    self.cpool_lock.notify()
                     break
             if bad_item is not None:
                 # items in the idle pool are already unlocked
@@ -4825,6 +4826,7 @@ class SQLEntityContainer(object):
                         "Thread[%i] failed to release database connection "
                         "before terminating", cpool_item.thread_id)
                     del self.cpool_locked[cpool_item.thread_id]
+                    self.cpool_size -= 1
                     to_close.append(cpool_item.dbc)
             unlocked_list = list(dict_values(self.cpool_unlocked))
             for cpool_item in unlocked_list:
@@ -4855,6 +4857,8 @@ class SQLEntityContainer(object):
                     to_close.append(cpool_item.dbc)
                     del self.cpool_idle[i]
                     self.cpool_size -= 1
+            # connections may have been discarded or become idle
+            self.cpool_lock.notify_all()
         for dbc in to_close:
             if dbc is not None:
                 self.close_connection(dbc)
-- 
2.43.0


From f2fa10751a3e339d43bbc83fdb053c1a5e6b933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 055/148] fix: upgrading a connection freed a slot without
 waking a waiting thread

---
 pyslet/http/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index f51652d..a884a62 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1375,6 +1375,8 @@ class Client(PEP8Compatibility, object):
         with self.managerLock:
             if thread_target in self.cActiveThreadTargets:
                 del self.cActiveThreadTargets[thread_target]
+                # tell any threads waiting for a connection
+                self.managerLock.notify()
             if connection.thread_id in self.cActiveThreads:
                 if connection.id in self.cActiveThreads[connection.thread_id]:
                     del self.cActiveThreads[
-- 
2.43.0


From f5c332e891545cc96fe04c36fe90fb550bcae61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 056/148] fix: consolidating a partly read Pipe buffer lost
 track of its size

---
 pyslet/streams.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 536afe5..533c28c 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -599,6 +599,7 @@ class Pipe(io.RawIOBase):
             if self.buffer:
                 if self.rpos:
                     self.buffer[0] = self.buffer[0][self.rpos:]
+                    self.bsize = self.bsize - self.rpos
                     self.rpos = 0
                 self.buffer = [b''.join(self.buffer)]
 
-- 
2.43.0


From bdafa8c2bc7c36d9ffe3347ce5c6a8c07df3c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:23 +0000
Subject: [PATCH 057/148] fix: remove_credentials raised IndexError when the
 credentials were found

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a884a62..42239d1 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1583,6 +1583,7 @@ class Client(PEP8Compatibility, object):
             for i in range3(len(self.credentials)):
                 if self.credentials[i] is credentials:
                     del self.credentials[i]
+                    break
 
     def dnslookup(self, host, port):
         """Given a host name (string) and a port number performs a DNS lookup
-- 
2.43.0


From 00e918dc300dfcfe7acac9dd0fa0a88e5851f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 058/148] fix: media stream updates were never committed

---
 pyslet/odata2/sqlds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 1e7a776..a2e1623 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -860,6 +860,7 @@ class SQLCollectionBase(core.EntityCollection):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
@@ -2077,6 +2078,7 @@ class SQLEntityCollection(SQLCollectionBase):
             query = ''.join(query)
             logging.info("%s; %s", query, to_text(params.params))
             transaction.execute(query, params)
+            transaction.commit()
         except Exception as e:
             # we allow the stream store to re-use the same database but
             # this means we can't transact on both at once (from the
-- 
2.43.0


From 61ec2fcf511bef9cb9a5620f15de57d8b33a1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 059/148] fix: update_entity inserted related entities outside
 its transaction

---
 pyslet/odata2/sqlds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a2e1623..490c93d 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2623,7 +2623,8 @@ class SQLEntityCollection(SQLCollectionBase):
                                 else:
                                     # foreign keys are in an auxiliary table
                                     targetCollection.insert_entity_sql(
-                                        binding, link_end.otherEnd)
+                                        binding, link_end.otherEnd,
+                                        transaction=transaction)
                                     if dv.isCollection:
                                         navCollection.insert_link(
                                             binding, transaction)
-- 
2.43.0


From abfa1ff9c0f0db55cd650af228caf1bf45e6a515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 060/148] fix: update_entity passed its transaction as foreign
 key values

---
 pyslet/odata2/sqlds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 490c93d..a181020 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -2487,7 +2487,8 @@ class SQLEntityCollection(SQLCollectionBase):
                         # add this entity to it's base collection
                         with target_set.open() as targetCollection:
                             targetCollection.insert_entity_sql(
-                                target_entity, link_end.otherEnd, transaction)
+                                target_entity, link_end.otherEnd,
+                                transaction=transaction)
                 # Finally, we have a target entity, add the foreign key to
                 # fk_values
                 for key_name in target_set.keys:
-- 
2.43.0


From 9bd7ace0bfbe03ef22733423a2fb77c06d5f0c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 061/148] fix: a killed connection that had no socket yet could
 still be reconnected

---
 pyslet/http/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 42239d1..54dafbb 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -693,7 +693,7 @@ class Connection(SortableMixin):
                     # ignore errors, most likely the server has stopped
                     # listening
                     pass
-                self.closed = True
+            self.closed = True
 
     def _start_request(self, request):
         # Starts processing the request.  Returns True if the request
-- 
2.43.0


From 33f0c80258ed6f09e0bf75f2bf5d60f08856e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:38 +0000
Subject: [PATCH 062/148] fix: a thread waiting in queue_request could open a
 connection after close

---
 pyslet/http/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 54dafbb..b984549 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1260,9 +1260,9 @@ class Client(PEP8Compatibility, object):
             thread_id, request.scheme, request.hostname, request.port)
         target = (request.scheme, request.hostname, request.port)
         with self.managerLock:
-            if self.closing.is_set():
-                raise ConnectionClosed
             while True:
+                if self.closing.is_set():
+                    raise ConnectionClosed
                 # Step 1: search for an active connection to the same
                 # target already bound to our thread
                 if thread_target in self.cActiveThreadTargets:
@@ -1555,6 +1555,8 @@ class Client(PEP8Compatibility, object):
         while True:
             with self.managerLock:
                 self.closing.set()
+                # tell all threads waiting for a connection
+                self.managerLock.notify_all()
                 if len(self.cActiveThreadTargets) + len(self.cIdleList) == 0:
                     break
             self.active_cleanup(0)
-- 
2.43.0


From 0455cb3bff3ecf1f80abb8b29d8668effaafe9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 063/148] fix: writing an empty bytearray to a Pipe looked like
 the end of the file

---
 pyslet/streams.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 533c28c..1c0e676 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -487,6 +487,8 @@ class Pipe(io.RawIOBase):
                 return nbytes
             elif isinstance(b, bytearray):
                 nbytes = len(b)
+                if not nbytes:
+                    return nbytes
                 if nbytes > wlen:
                     nbytes = wlen
                     # partial copy, creates transient bytearray :(
-- 
2.43.0


From b8dc5123816f6be50dabfc4d2459cadde6c2cdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:22 +0000
Subject: [PATCH 064/148] fix: Pipe.readinto did not flag a read that had to
 wait

---
 pyslet/streams.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/streams.py b/pyslet/streams.py
index 1c0e676..54fde43 100755
--- a/pyslet/streams.py
+++ b/pyslet/streams.py
@@ -749,5 +749,8 @@ class Pipe(io.RawIOBase):
                 self.rpos = 0
             if nbytes:
                 self.rstate += 1
+                # successful read
+                if self.rflag is not None:
+                    self.rflag.set()
                 self.lock.notify_all()
             return nbytes
-- 
2.43.0


From 60d2a8af2eae0971c03141cfd17b5b43297e77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 065/148] fix: the old names of ContentMixin methods were not
 defined

---
 pyslet/qtiv1/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv1/common.py b/pyslet/qtiv1/common.py
index 8e5210d..dd432aa 100755
--- a/pyslet/qtiv1/common.py
+++ b/pyslet/qtiv1/common.py
@@ -7,7 +7,7 @@ from . import core
 from .. import html401 as html
 from .. import imsmdv1p2p1 as imsmd
 from ..http import messages
-from ..pep8 import old_method
+from ..pep8 import MigratedClass, old_method
 from ..py2 import is_text, to_text
 from ..qtiv2 import xml as qtiv2
 from ..xml import structures as xml
@@ -56,7 +56,7 @@ class Duration(core.QTIElement):
     XMLCONTENT = xml.XMLMixedContent
 
 
-class ContentMixin(object):
+class ContentMixin(MigratedClass):
 
     """Mixin class for handling all content-containing elements.
 
@@ -72,6 +72,7 @@ class ContentMixin(object):
         ContentMixin in this context."""
         return True
 
+    @old_method('ChildElement')
     def add_child(self, child_class, name=None):
         """Creates a new child of this element.
 
-- 
2.43.0


From 8f6ca4c512e6917af91107586c4d375aa2f4656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:31 +0000
Subject: [PATCH 066/148] fix: GetLang did not reach the HTML definition of
 get_lang

---
 pyslet/html401.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 78a3b27..9ce0707 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -1431,7 +1431,7 @@ using the generic get_attribute."""
     pass
 
 
-class I18nMixin(object):
+class I18nMixin(MigratedClass):
 
     """Mixin class for i18n attributes
 ::
@@ -1443,6 +1443,7 @@ class I18nMixin(object):
     XMLATTR_lang = ('lang', xsi.name_from_str, xsi.name_to_str)
     XMLATTR_dir = ('dir', Direction.from_str_lower, Direction.to_str)
 
+    @old_method('GetLang')
     def get_lang(self):
         """Replaces access to xml:lang
 
-- 
2.43.0


From f7bf393430280a2621dd78fa57fdfa6159d9fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 067/148] fix: a session string with a bad time raised
 DateTimeError

---
 pyslet/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 0914b54..9cf0e7f 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1931,7 +1931,10 @@ class CookieSession(UnicodeMixin):
             if len(fields) >= 3:
                 self.sid = fields[0]
                 self.established = (fields[1] == '1')
-                self.last_seen = iso.TimePoint.from_str(fields[2])
+                try:
+                    self.last_seen = iso.TimePoint.from_str(fields[2])
+                except iso.DateTimeError:
+                    raise ValueError("Bad CookieSession: %s" % src)
             else:
                 raise ValueError("Bad CookieSession: %s" % src)
         else:
-- 
2.43.0


From a92310bacc28357f3d0773da8162796c66fa176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 068/148] fix: AESCipher had no hash method

---
 pyslet/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 9cf0e7f..61af22a 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1514,6 +1514,9 @@ class AESCipher(object):
         cipher = AES.new(self.key, AES.MODE_CFB, iv)
         return cipher.decrypt(data[AES.block_size:])
 
+    def hash(self, data):
+        return sha256(data + self.key).digest()
+
 
 class AppCipher(object):
 
-- 
2.43.0


From 39d82a1d224e60903938e8344356f678abf9479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 069/148] fix: a session cookie that is not ASCII raised
 UnicodeDecodeError

---
 pyslet/wsgi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 61af22a..9db0140 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -2091,7 +2091,8 @@ class SessionApp(WSGIDataApp):
         if context.session is None:
             cookies = context.get_cookies()
             csrf_match = ""
-            s_signed = cookies.get(self._session_cookie, b'').decode('ascii')
+            s_signed = cookies.get(
+                self._session_cookie, b'').decode('ascii', 'replace')
             self.set_session(context)
             if context.environ['REQUEST_METHOD'].upper() == 'POST':
                 # check the CSRF token
@@ -2127,7 +2128,8 @@ class SessionApp(WSGIDataApp):
         cookie in the browser."""
         context.session = None
         cookies = context.get_cookies()
-        s_signed = cookies.get(self._session_cookie, b'').decode('ascii')
+        s_signed = cookies.get(
+            self._session_cookie, b'').decode('ascii', 'replace')
         if s_signed and self._test_cookie in cookies:
             try:
                 s_msg = self.app_cipher.check_signature(s_signed)
@@ -2333,7 +2335,7 @@ class SessionApp(WSGIDataApp):
             self.clear_session_cookie(context)
             return self.error_page(context, 400)
         cmsg_signed = cookies.get(
-            self._session_cookie, b'MISSING').decode('ascii')
+            self._session_cookie, b'MISSING').decode('ascii', 'replace')
         try:
             cmsg = self.app_cipher.check_signature(cmsg_signed)
             csession = self.SessionClass(cmsg.decode('utf-8'))
-- 
2.43.0


From f5a2bdfd748c84ab5577efdadf56c75b7b92a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 070/148] fix: check_signature returned or raised the wrong
 thing for a bad key number

---
 pyslet/wsgi.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 9db0140..03cfcd5 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1799,9 +1799,13 @@ class AppCipher(object):
                 else:
                     message = smessage
             with self.lock:
-                cipher = self._get_cipher(num)
+                try:
+                    cipher = self._get_cipher(num)
+                except RuntimeError:
+                    # an unknown key, or one that is too old
+                    cipher = None
                 if cipher is None:
-                    return ValueError
+                    raise ValueError
                 if cipher.hash(salt + message) == hash:
                     return message
                 else:
-- 
2.43.0


From ad514ff625c806c3852093c6f3b9df349f43ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:07 +0000
Subject: [PATCH 071/148] fix: merge_session took a session for a context

---
 pyslet/imsbltiv1p0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index d834746..d7e4810 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1111,7 +1111,7 @@ class ToolProviderApp(wsgi.SessionApp):
         """Overridden to update the Session ID in any associated visits"""
         with self.container['Visits'].open() as collection:
             sid = edm.EDMValue.from_type(edm.SimpleType.String)
-            sid.set_from_value(merge_session.session.sid)
+            sid.set_from_value(merge_session.sid)
             filter = odata.CommonExpression.from_str(
                 "Session eq :sid", {'sid': sid})
             collection.set_filter(filter)
@@ -1148,7 +1148,7 @@ class ToolProviderApp(wsgi.SessionApp):
                             collection.update_entity(old_visit)
                 merge_visit['Session'].set_from_value(context.session.sid)
                 # just update the Session field
-                merge_visit.set_expand(None, {'Session': None})
+                merge_visit.expand(None, {'Session': None})
                 collection.update_entity(merge_visit)
 
     def load_visit(self, context):
-- 
2.43.0


From 873b316290da100787adf0ac166fde9c2643cd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 072/148] fix: change_key read the old key number outside the
 lock

---
 pyslet/wsgi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 03cfcd5..effbd4e 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1682,9 +1682,10 @@ class AppCipher(object):
             old_key_encrypted = "%i:%s" % (
                 key_num, force_ascii(base64.b64encode(cipher.encrypt(
                     self.old_key))))
+            old_num = self.old_num
         with self.key_set.open() as keys:
             e = keys.new_entity()
-            e.set_key(self.old_num)
+            e.set_key(old_num)
             e['KeyString'].set_from_value(old_key_encrypted)
             e['Expires'].set_from_value(when)
             try:
@@ -1693,7 +1694,7 @@ class AppCipher(object):
                 # Presumably this entity already exists, possible race
                 # condition on change_key - load the entity from the old
                 # key number to raise KeyError if not
-                e = keys[self.old_num]
+                e = keys[old_num]
 
     def _get_current_cipher(self):
         if self.old_expires:
-- 
2.43.0


From 764d01d8205623d338add4f6cd51e34b4f2f1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 073/148] fix: the old key of a new AppCipher was never found

---
 pyslet/wsgi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index effbd4e..cec84d4 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1575,7 +1575,7 @@ class AppCipher(object):
                 t = edm.EDMValue.from_type(edm.SimpleType.DateTime)
                 t.set_from_value(time.time())
                 filter = odata.CommonExpression.from_str(
-                    "Expires gte :t", {'t': t})
+                    "Expires ge :t", {'t': t})
                 keys.set_filter(filter)
                 # Only interested in keys that haven't expired
                 old_keys = keys.values()
@@ -1583,7 +1583,7 @@ class AppCipher(object):
                     raise RuntimeError("AppCipher: no current key")
                 old_key = old_keys[0]
                 self.old_num = old_key['KeyNum'].value
-                self.old_key = self.decrypt(old_key['KeyString'])
+                self.old_key = self.decrypt(old_key['KeyString'].value)
                 self.old_expires = when.get_unixtime()
                 self.ciphers[self.old_num] = self.new_cipher(self.old_key)
         else:
-- 
2.43.0


From f5a0792046c17556938b111be4b66aa90b5f49fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:17 +0000
Subject: [PATCH 074/148] fix: the expiry of a key was recorded in local time

---
 pyslet/wsgi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index cec84d4..c6a8284 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1687,7 +1687,7 @@ class AppCipher(object):
             e = keys.new_entity()
             e.set_key(old_num)
             e['KeyString'].set_from_value(old_key_encrypted)
-            e['Expires'].set_from_value(when)
+            e['Expires'].set_from_value(when.get_unixtime())
             try:
                 keys.insert_entity(e)
             except edm.ConstraintError:
-- 
2.43.0


From c3a91e3b27a3dac620dc1bf458401124de90a677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 075/148] fix: BLTIToolProvider made its cipher from a
 character string

---
 pyslet/imsbltiv1p0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index d7e4810..2d630b1 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1325,7 +1325,7 @@ class BLTIToolProvider(ToolProvider):
         self.data_source = sql.SQLiteEntityContainer(
             file_path=':memory:', container=self.container)
         self.data_source.create_all_tables()
-        cipher = wsgi.AppCipher(0, 'secret', self.container['AppKeys'])
+        cipher = wsgi.AppCipher(0, b'secret', self.container['AppKeys'])
         with self.container['Silos'].open() as collection:
             self.silo = collection.new_entity()
             self.silo['ID'].set_from_value(wsgi.key60(b'BLTIToolProvider'))
-- 
2.43.0


From 0a3203f09d015cc9301acd324797c7e983971321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:05 +0000
Subject: [PATCH 076/148] fix: new_app_cipher failed without a secret

---
 pyslet/wsgi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c6a8284..1045fdd 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1461,7 +1461,7 @@ class WSGIDataApp(WSGIApp):
             time a newer key should be used for encrypting data though
             this key may of course still be used for decrypting data."""
         keynum = cls.settings['WSGIDataApp']['keynum']
-        secret = cls.settings['WSGIDataApp']['secret'].encode('utf-8')
+        secret = cls.settings['WSGIDataApp']['secret']
         cipher = cls.settings['WSGIDataApp']['cipher']
         when = cls.settings['WSGIDataApp']['when']
         if when:
@@ -1474,7 +1474,8 @@ class WSGIDataApp(WSGIApp):
             # danger, raise an error
             raise RuntimeError("Unknown cipher: %s" % cipher)
         if secret:
-            return cipher_class(keynum, secret, cls.container['AppKeys'], when)
+            return cipher_class(keynum, secret.encode('utf-8'),
+                                cls.container['AppKeys'], when)
         else:
             return None
 
-- 
2.43.0


From 0fd43b6b401f0a77c3a570560a6f764ef6591f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 077/148] fix: a static path that is not ASCII was a server
 error

---
 pyslet/wsgi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index 1045fdd..c38dfc1 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -993,7 +993,7 @@ class WSGIApp(DispatchNode):
                 # ldb-label test from the cookie module to ensure we
                 # have a very limited syntax.  Apologies if you wanted
                 # fancy URLs.
-                if not cookie.is_ldh_label(p.encode('ascii')):
+                if not cookie.is_ldh_label(p.encode('ascii', 'replace')):
                     raise PageNotFound
                 target_path = os.path.join(target_path, p)
                 if not os.path.isdir(target_path):
@@ -1006,8 +1006,10 @@ class WSGIApp(DispatchNode):
                 # last component must be a filename.ext form
                 splitp = p.split('.')
                 if (len(splitp) != 2 or
-                        not cookie.is_ldh_label(splitp[0].encode('ascii')) or
-                        not cookie.is_ldh_label(splitp[1].encode('ascii'))):
+                        not cookie.is_ldh_label(
+                            splitp[0].encode('ascii', 'replace')) or
+                        not cookie.is_ldh_label(
+                            splitp[1].encode('ascii', 'replace'))):
                     raise PageNotFound
                 filename = p
                 ext = splitp[1]
-- 
2.43.0


From 9f27c2e2bfe1c51e57fe75f9182e502497cab683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:24 +0000
Subject: [PATCH 078/148] fix: the redirect page of JinjaApp was a character
 string

---
 pyslet/wsgi_jinja.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi_jinja.py b/pyslet/wsgi_jinja.py
index a9fe5ba..edf8640 100755
--- a/pyslet/wsgi_jinja.py
+++ b/pyslet/wsgi_jinja.py
@@ -106,10 +106,11 @@ class JinjaApp(wsgi.WSGIApp):
         data = self.render_template(context, 'jinjaapp/redirect.html', c)
         context.add_header("Location", str(location))
         context.add_header("Content-Type", "text/html")
+        data = data.encode('utf-8')
         context.add_header("Content-Length", str(len(data)))
         context.set_status(code)
         context.start_response()
-        return [str(data)]
+        return [data]
 
     def error_page(self, context, code=500):
         """Provides a template driven error response
-- 
2.43.0


From 77d2b8a1c9ff499f50e75db1391c5427b6275a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 079/148] fix: the redirect page of DjangoApp was a character
 string

---
 pyslet/wsgi_django.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/wsgi_django.py b/pyslet/wsgi_django.py
index b559d4e..017478c 100755
--- a/pyslet/wsgi_django.py
+++ b/pyslet/wsgi_django.py
@@ -159,10 +159,11 @@ class DjangoApp(wsgi.WSGIApp):
         data = self.render_template(context, 'djangoapp/redirect.html', c)
         context.add_header("Location", str(location))
         context.add_header("Content-Type", "text/html")
+        data = data.encode('utf-8')
         context.add_header("Content-Length", str(len(data)))
         context.set_status(code)
         context.start_response()
-        return [str(data)]
+        return [data]
 
     def error_page(self, context, code=500):
         """Provides a template driven error response
-- 
2.43.0


From f6d7b8d44d93889aaa9a2b7188a60738d0df6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 080/148] fix: handle_missing returned a character string

---
 pyslet/rfc5023.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/rfc5023.py b/pyslet/rfc5023.py
index 9b57428..8e3ede4 100644
--- a/pyslet/rfc5023.py
+++ b/pyslet/rfc5023.py
@@ -321,6 +321,7 @@ class Server(pep8.PEP8Compatibility):
         response_headers = []
         data = "This server supports the Atom Publishing Protocol\r\n"\
             "For service information see: %s" % str(self.service_root)
+        data = data.encode('utf-8')
         response_headers.append(("Content-Length", str(len(data))))
         response_headers.append(("Content-Type", 'text/plain'))
         start_response("404 Not found", response_headers)
-- 
2.43.0


From b844c507975bb4d07eeef4bef8a6894bb77ce222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 081/148] fix: handle_error wrote character data to a BytesIO

---
 pyslet/rfc5023.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyslet/rfc5023.py b/pyslet/rfc5023.py
index 8e3ede4..7a07429 100644
--- a/pyslet/rfc5023.py
+++ b/pyslet/rfc5023.py
@@ -334,10 +334,10 @@ class Server(pep8.PEP8Compatibility):
         response_headers = []
         cdata = io.BytesIO()
         if self.debugMode:
-            traceback.print_exception(*sys.exc_info(), file=cdata)
+            cdata.write(traceback.format_exc().encode('utf-8'))
         else:
-            cdata.write("Sorry, there was an internal error "
-                        "while processing this request")
+            cdata.write(b"Sorry, there was an internal error "
+                        b"while processing this request")
         response_headers.append(("Content-Type", 'text/plain'))
         response_headers.append(("Content-Length", str(len(cdata.getvalue()))))
         start_response("%i Unexpected error" % code, response_headers)
-- 
2.43.0


From a5ca1216435087bb08c23e40294c55dae8b23b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:25 +0000
Subject: [PATCH 082/148] fix: internal_error failed if the message was not
 ASCII

---
 pyslet/wsgi.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi.py b/pyslet/wsgi.py
index c38dfc1..38ce6a9 100755
--- a/pyslet/wsgi.py
+++ b/pyslet/wsgi.py
@@ -1185,8 +1185,9 @@ class WSGIApp(DispatchNode):
 
     def internal_error(self, context, err):
         context.set_status(500)
-        data = force_bytes(
-            "%i %s\r\n%s" % (context.status, context.status_message, str(err)))
+        data = to_text(
+            "%i %s\r\n%s" % (context.status, context.status_message,
+                             str(err))).encode('ascii', 'backslashreplace')
         context.add_header("Content-Type", "text/plain")
         context.add_header("Content-Length", str(len(data)))
         try:
-- 
2.43.0


From f29bd6c860e9a3b46c41d2e38c6de0b00889596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:47 +0000
Subject: [PATCH 083/148] fix: a KeyError of an application was answered as a
 bad host

---
 pyslet/http/server.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index db07587..0417840 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -719,18 +719,18 @@ class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
             authority = environ.get('HTTP_HOST', self.default_authority)
             try:
                 app = self.authorities[authority]
-                if app is None:
-                    # this implementation mainly for testing, we want to read
-                    # all the data from the input string
-                    response_headers = []
-                    start_response("404 Page Not Found", response_headers)
-                    return []
-                else:
-                    return app(environ, start_response)
             except KeyError:
                 # bad host in request
                 start_response("400 Bad Request", [])
                 return []
+            if app is None:
+                # this implementation mainly for testing, we want to read
+                # all the data from the input string
+                response_headers = []
+                start_response("404 Page Not Found", response_headers)
+                return []
+            else:
+                return app(environ, start_response)
 
     def get_request(self):
         """Adds logging of socket errors on connect
-- 
2.43.0


From 16f0d77efc893f923295b17eb7ef4906ca882b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 084/148] fix: JinjaApp.error_page did not take a message

---
 pyslet/wsgi_jinja.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi_jinja.py b/pyslet/wsgi_jinja.py
index edf8640..f4170b0 100755
--- a/pyslet/wsgi_jinja.py
+++ b/pyslet/wsgi_jinja.py
@@ -3,6 +3,7 @@
 from jinja2 import Environment, FileSystemLoader
 
 from pyslet import wsgi
+from pyslet.py2 import to_text
 from pyslet.vfs import OSFilePath
 from pyslet.xml import structures as xml
 
@@ -112,7 +113,7 @@ class JinjaApp(wsgi.WSGIApp):
         context.start_response()
         return [data]
 
-    def error_page(self, context, code=500):
+    def error_page(self, context, code=500, msg=None):
         """Provides a template driven error response
 
         It is based on the template::
@@ -126,7 +127,8 @@ class JinjaApp(wsgi.WSGIApp):
         context.set_status(code)
         c = self.new_context_dictionary(context)
         c["code"] = str(code)
-        c["msg"] = xml.escape_char_data7(context.status_message)
+        c["msg"] = xml.escape_char_data7(
+            context.status_message if msg is None else to_text(msg))
         data = self.render_template(context, 'jinjaapp/error.html', c)
         return self.html_response(context, data)
 
-- 
2.43.0


From 1200143d94f2019a7ae1b3b49652b2083801e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 085/148] fix: JinjaApp.ctest_page did not take the arguments
 it is called with

---
 pyslet/wsgi_jinja.py                            | 17 +++++++++--------
 .../data/templates/jinjaapp/ctest.html          |  3 ++-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyslet/wsgi_jinja.py b/pyslet/wsgi_jinja.py
index f4170b0..3af3953 100755
--- a/pyslet/wsgi_jinja.py
+++ b/pyslet/wsgi_jinja.py
@@ -132,7 +132,7 @@ class JinjaApp(wsgi.WSGIApp):
         data = self.render_template(context, 'jinjaapp/error.html', c)
         return self.html_response(context, data)
 
-    def ctest_page(self, context, target_url, return_url, sid):
+    def ctest_page(self, context, target_url, return_url, s, sig):
         """Provides a template driven cookie test page
 
         It is based on the template::
@@ -141,19 +141,20 @@ class JinjaApp(wsgi.WSGIApp):
 
         Shown after blocked cookies are detected.  See
         :meth:`pyslet.wsgi.SessionApp.ctest_page` for details.  The
-        Django context contains three additional variables with values
-        'ctest_attr', 'return_attr' and 'sid_attr', all *quoted and
-        HTML-escaped* ready to be used as attribute values.
+        Django context contains four additional variables with values
+        'ctest_attr', 'return_attr', 's_attr' and 'sig_attr', all
+        *quoted and HTML-escaped* ready to be used as attribute values.
 
         The ctest_attr variable contains the URL that can be used as a
         form target suitable for opening in a new browser window.  The
-        other two values are the originally requested URL and the
-        session id respectively and must be submitted as hidden values
-        on the form."""
+        other three values are the originally requested URL, the session
+        and its signature and must be submitted as hidden values
+        ('return', 's' and 'sig') on the form."""
         c = self.new_context_dictionary(context)
         c['ctest_attr'] = xml.escape_char_data7(target_url, True)
         c['return_attr'] = xml.escape_char_data7(return_url, True)
-        c['sid_attr'] = xml.escape_char_data7(sid, True)
+        c['s_attr'] = xml.escape_char_data7(s, True)
+        c['sig_attr'] = xml.escape_char_data7(sig, True)
         data = self.render_template(context, 'jinjaapp/ctest.html', c)
         context.set_status(200)
         return self.html_response(context, data)
diff --git a/samples/noticeboard/data/templates/jinjaapp/ctest.html b/samples/noticeboard/data/templates/jinjaapp/ctest.html
index 447e524..23438f0 100644
--- a/samples/noticeboard/data/templates/jinjaapp/ctest.html
+++ b/samples/noticeboard/data/templates/jinjaapp/ctest.html
@@ -14,7 +14,8 @@
         automatically it may also be blocked, in which case you can try
         to open it manually with the button below.</p>
         <input type="hidden" name="return" value={{ return_attr|safe }} />
-        <input type="hidden" name="sid" value={{ sid_attr|safe }} />
+        <input type="hidden" name="s" value={{ s_attr|safe }} />
+        <input type="hidden" name="sig" value={{ sig_attr|safe }} />
         <p><button type="submit" name="continue" value="continue">Open in
         New Window</button></p>
     </form>
-- 
2.43.0


From 9f2c6bdb31212798dba86efdf28a3e993b38961e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 086/148] fix: DjangoApp.error_page did not take a message

---
 pyslet/wsgi_django.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/wsgi_django.py b/pyslet/wsgi_django.py
index 017478c..bfe7557 100755
--- a/pyslet/wsgi_django.py
+++ b/pyslet/wsgi_django.py
@@ -9,6 +9,7 @@ from django.template import Context
 
 import pyslet.xml.structures as xml
 import pyslet.wsgi as wsgi
+from pyslet.py2 import to_text
 
 
 class DjangoApp(wsgi.WSGIApp):
@@ -165,7 +166,7 @@ class DjangoApp(wsgi.WSGIApp):
         context.start_response()
         return [data]
 
-    def error_page(self, context, code=500):
+    def error_page(self, context, code=500, msg=None):
         """Provides a template driven error response
 
         It is based on the template::
@@ -179,7 +180,8 @@ class DjangoApp(wsgi.WSGIApp):
         context.set_status(code)
         c = self.new_page_context(context)
         c["code"] = str(code)
-        c["msg"] = xml.escape_char_data7(context.status_message)
+        c["msg"] = xml.escape_char_data7(
+            context.status_message if msg is None else to_text(msg))
         data = self.render_template(context, 'djangoapp/error.html', c)
         return self.html_response(context, data)
 
-- 
2.43.0


From 98edec8cc46bc968ea65c1dc647d3cf9e21b53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:21 +0000
Subject: [PATCH 087/148] fix: DjangoApp.ctest_page did not take the arguments
 it is called with

---
 pyslet/wsgi_django.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pyslet/wsgi_django.py b/pyslet/wsgi_django.py
index bfe7557..9b01aa2 100755
--- a/pyslet/wsgi_django.py
+++ b/pyslet/wsgi_django.py
@@ -185,7 +185,7 @@ class DjangoApp(wsgi.WSGIApp):
         data = self.render_template(context, 'djangoapp/error.html', c)
         return self.html_response(context, data)
 
-    def ctest_page(self, context, target_url, return_url, sid):
+    def ctest_page(self, context, target_url, return_url, s, sig):
         """Provides a template driven cookie test page
 
         It is based on the template::
@@ -194,19 +194,20 @@ class DjangoApp(wsgi.WSGIApp):
 
         Shown after blocked cookies are detected.  See
         :meth:`pyslet.wsgi.SessionApp.ctest_page` for details.  The
-        Django context contains three additional variables with values
-        'ctest_attr', 'return_attr' and 'sid_attr', all *quoted and
-        HTML-escaped* ready to be used as attribute values.
+        Django context contains four additional variables with values
+        'ctest_attr', 'return_attr', 's_attr' and 'sig_attr', all
+        *quoted and HTML-escaped* ready to be used as attribute values.
 
         The ctest_attr variable contains the URL that can be used as a
         form target suitable for opening in a new browser window.  The
-        other two values are the originally requested URL and the
-        session id respectively and must be submitted as hidden values
-        on the form."""
+        other three values are the originally requested URL, the session
+        and its signature and must be submitted as hidden values
+        ('return', 's' and 'sig') on the form."""
         c = self.new_page_context(context)
         c['ctest_attr'] = xml.escape_char_data7(target_url, True)
         c['return_attr'] = xml.escape_char_data7(return_url, True)
-        c['sid_attr'] = xml.escape_char_data7(sid, True)
+        c['s_attr'] = xml.escape_char_data7(s, True)
+        c['sig_attr'] = xml.escape_char_data7(sig, True)
         data = self.render_template(context, 'djangoapp/ctest.html', c)
         context.set_status(200)
         return self.html_response(context, data)
-- 
2.43.0


From d195bd9fb03742ff72a770015cdaaf1fedb8a2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 088/148] fix: a launch with a role that is not known failed

---
 pyslet/imsbltiv1p0.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 2d630b1..1e05b20 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -971,6 +971,11 @@ class ToolProviderApp(wsgi.SessionApp):
         integers are combined to provide an overall permissions
         integer."""
         logging.debug("Launch role: %s", str(role))
+        try:
+            split_role(role)
+        except ValueError:
+            # not an LTI role
+            return 0
         if is_subrole(role, ROLE_HANDLES['Instructor']):
             return (cls.READ_PERMISSION | cls.WRITE_PERMISSION |
                     cls.CONFIGURE_PERMISSION)
-- 
2.43.0


From 4d63abfb3b870c7f883bea6f39982c3fe04095ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:41 +0000
Subject: [PATCH 089/148] fix: a launch with a context type that is not known
 failed

---
 pyslet/imsbltiv1p0.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index 1e05b20..f53ce74 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -886,7 +886,8 @@ class ToolProviderApp(wsgi.SessionApp):
             gtype_uri = URI.from_octets(stype)
             if not gtype_uri.is_absolute():
                 gtype_uri = CONTEXT_TYPE_HANDLES.get(stype, None)
-            gtypes.append(gtype_uri)
+            if gtype_uri is not None:
+                gtypes.append(gtype_uri)
         group_title = context.parameters.get('context_title', '')
         group_label = context.parameters.get('context_label', '')
         context.group = context.consumer.get_context(
-- 
2.43.0


From de3b2d9431116b813613e5012b322a36cb0da958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:12 +0000
Subject: [PATCH 090/148] fix: local file paths on Python 3 mixed binary and
 character strings

---
 pyslet/vfs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyslet/vfs.py b/pyslet/vfs.py
index 08ca35d..cc07b12 100755
--- a/pyslet/vfs.py
+++ b/pyslet/vfs.py
@@ -937,8 +937,9 @@ class OSFilePath(VirtualFilePath):
     string is consistent with the use of file:/// to reference the
     local file system."""
 
-    supports_unicode_filenames = os.path.supports_unicode_filenames
-    """Copied from os.path
+    supports_unicode_filenames = (
+        os.path.supports_unicode_filenames or not isinstance(os.sep, bytes))
+    """Copied from os.path, always True in Python 3
 
     That means you won't know ahead of time whether paths are expected
     as binary or unicode strings.  In most cases it won't matter as the
@@ -972,13 +973,13 @@ class OSFilePath(VirtualFilePath):
     #: copied from os.extsep
     ext = os.extsep
 
-    drive_sep = ul(":") if os.path.supports_unicode_filenames else b":"
+    drive_sep = ul(":") if supports_unicode_filenames else b":"
     """always set to ':'
 
     Correctly set to either binary or character string depending on the
     setting of :attr:`supports_unicode_filenames`."""
 
-    empty = ul("") if os.path.supports_unicode_filenames else b""
+    empty = ul("") if supports_unicode_filenames else b""
     """Set to the empty string
 
     Uses either a binary or character string depending on the setting of
-- 
2.43.0


From 3e15bef73e67fff96230c68ccb1a300422492835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 091/148] fix: merging a session looked for the visits it
 replaces in the merged session

---
 pyslet/imsbltiv1p0.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/imsbltiv1p0.py b/pyslet/imsbltiv1p0.py
index f53ce74..d6ec0e3 100644
--- a/pyslet/imsbltiv1p0.py
+++ b/pyslet/imsbltiv1p0.py
@@ -1127,6 +1127,8 @@ class ToolProviderApp(wsgi.SessionApp):
             # there should be only one visit in this session if there
             # are more then something strange is going on
             sid.set_from_value(context.session.sid)
+            # the query is only built again for a new filter
+            collection.set_filter(filter)
             for merge_visit in merge_visits:
                 merge_resource = merge_visit['Resource'].get_entity()
                 merge_consumer = merge_resource['Consumer'].get_entity()
-- 
2.43.0


From a2f2ee94e53fe0566d6f3df073ffec0744a16b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:45 +0000
Subject: [PATCH 092/148] fix: the default data store of WSGI apps has nowhere
 to keep the expiry of a key

---
 pyslet/wsgi_metadata.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/wsgi_metadata.xml b/pyslet/wsgi_metadata.xml
index 9a8261d..7e4e013 100755
--- a/pyslet/wsgi_metadata.xml
+++ b/pyslet/wsgi_metadata.xml
@@ -16,6 +16,8 @@
                 <Property Name="KeyNum" Nullable="false" Type="Edm.Int32"/>
                 <Property Name="KeyString" Nullable="false"
                     Type="Edm.String" MaxLength="256" Unicode="false"/>
+                <Property Name="Expires" Nullable="false"
+                    Type="Edm.DateTime" Precision="0"/>
             </EntityType>
         </Schema>
     </edmx:DataServices>
-- 
2.43.0


From 9132e5bc9dc0dee54e2db2ad5d30a9b3b1ed6292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 093/148] fix: html401: an XHTML frameset document without a
 frameset can be written

---
 pyslet/html401.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 9ce0707..69c80ca 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -2884,7 +2884,8 @@ serialization."""
 
     def get_children(self):
         yield self.Head
-        yield self.Frameset
+        if self.Frameset:
+            yield self.Frameset
 
     def get_base(self):
         base = super(HTML, self).get_base()
-- 
2.43.0


From b42d553294aa75802425d936c5ec76bbb48655b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 094/148] fix: csdl: a schema's documentation is one of its
 children

---
 pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 0da79e9..1f53d39 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -5427,6 +5427,7 @@ class Schema(NameTableMixin, CSDLElement):
 
     def get_children(self):
         return itertools.chain(
+            (self.Documentation, ) if self.Documentation else (),
             self.EntityType,
             self.ComplexType,
             self.Association,
-- 
2.43.0


From 03a56a9c7a6aa616cb7af80e2dcca53711cb2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 095/148] fix: csdl: extension elements in a Key are not lost

---
 pyslet/odata2/csdl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 1f53d39..545e3eb 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3972,7 +3972,9 @@ class Key(CSDLElement):
         self.PropertyRef = []
 
     def get_children(self):
-        for child in self.PropertyRef:
+        for child in itertools.chain(
+                self.PropertyRef,
+                CSDLElement.get_children(self)):
             yield child
 
     def update_type_refs(self, scope, stop_on_errors=False):
-- 
2.43.0


From c363b0698670a4dd22f0316dabe093932d619e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 096/148] fix: qtiv1: sections and assessments keep their
 outcomes processing, selection and ordering, reference and duration

---
 pyslet/qtiv1/assessment.py | 25 ++++++++++++++-----------
 pyslet/qtiv1/item.py       |  6 +++---
 pyslet/qtiv1/sao.py        |  6 +++---
 pyslet/qtiv1/section.py    | 21 ++++++++++++---------
 4 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/pyslet/qtiv1/assessment.py b/pyslet/qtiv1/assessment.py
index c4a33b1..b3fe796 100755
--- a/pyslet/qtiv1/assessment.py
+++ b/pyslet/qtiv1/assessment.py
@@ -48,16 +48,19 @@ class Assessment(common.QTICommentContainer):
         self.AssessmentControl = []
         self.Rubric = []
         self.PresentationMaterial = None
-        self.QTIOutcomesProcessing = []
+        self.OutcomesProcessing = []
         self.AssessProcExtension = None
         self.AssessFeedback = []
-        self.QTISelectionOrdering = None
-        self.QTIReference = None
+        self.SelectionOrdering = None
+        self.Reference = None
         self.SectionMixin = []
 
     def get_children(self):
+        for child in common.QTICommentContainer.get_children(self):
+            yield child
+        if self.Duration:
+            yield self.Duration
         for child in itertools.chain(
-                common.QTIComment.get_children(self),
                 self.QTIMetadata,
                 self.Objectives,
                 self.AssessmentControl,
@@ -65,16 +68,16 @@ class Assessment(common.QTICommentContainer):
             yield child
         if self.PresentationMaterial:
             yield self.PresentationMaterial
-        for child in self.QTIOutcomesProcessing:
+        for child in self.OutcomesProcessing:
             yield child
-        if self.QTIAssessProcExtension:
-            yield self.QTIAssessProcExtension
+        if self.AssessProcExtension:
+            yield self.AssessProcExtension
         for child in self.AssessFeedback:
             yield child
-        if self.QTISelectionOrdering:
-            yield self.QTISelectionOrdering
-        if self.QTIReference:
-            yield self.QTIReference
+        if self.SelectionOrdering:
+            yield self.SelectionOrdering
+        if self.Reference:
+            yield self.Reference
         for child in self.SectionMixin:
             yield child
 
diff --git a/pyslet/qtiv1/item.py b/pyslet/qtiv1/item.py
index 6d3a683..3bb543d 100755
--- a/pyslet/qtiv1/item.py
+++ b/pyslet/qtiv1/item.py
@@ -70,7 +70,7 @@ class Item(
         self.ResProcessing = []
         self.ItemProcExtension = None
         self.ItemFeedback = []
-        self.QTIReference = None
+        self.Reference = None
 
     def get_children(self):
         for child in common.QTICommentContainer.get_children(self):
@@ -94,8 +94,8 @@ class Item(
             yield self.ItemProcExtension
         for child in self.ItemFeedback:
             yield child
-        if self.QTIReference:
-            yield self.QTIReference
+        if self.Reference:
+            yield self.Reference
 
     def migrate_to_v2(self, output):
         """Converts this item to QTI v2
diff --git a/pyslet/qtiv1/sao.py b/pyslet/qtiv1/sao.py
index bd978d9..2d67594 100755
--- a/pyslet/qtiv1/sao.py
+++ b/pyslet/qtiv1/sao.py
@@ -71,14 +71,14 @@ class Selection(core.QTIElement):
 
     def __init__(self, parent):
         core.QTIElement.__init__(self, parent)
-        self.SourceBankRef = None
+        self.SourcebankRef = None
         self.SelectionNumber = None
         self.SelectionMetadata = None
         self.SelectionChildMixin = None
 
     def get_children(self):
-        if self.SourceBankRef:
-            yield self.SourceBankRef
+        if self.SourcebankRef:
+            yield self.SourcebankRef
         if self.SelectionNumber:
             yield self.SelectionNumber
         if self.SelectionMetadata:
diff --git a/pyslet/qtiv1/section.py b/pyslet/qtiv1/section.py
index 7275b77..3c4a07f 100755
--- a/pyslet/qtiv1/section.py
+++ b/pyslet/qtiv1/section.py
@@ -50,16 +50,19 @@ class Section(core.ObjectMixin, core.SectionMixin, common.QTICommentContainer):
         self.SectionPostcondition = []
         self.Rubric = []
         self.PresentationMaterial = None
-        self.QTIOutcomesProcessing = []
+        self.OutcomesProcessing = []
         self.SectionProcExtension = None
         self.SectionFeedback = []
-        self.QTISelectionOrdering = None
-        self.QTIReference = None
+        self.SelectionOrdering = None
+        self.Reference = None
         self.SectionItemMixin = []
 
     def get_children(self):
+        for child in common.QTICommentContainer.get_children(self):
+            yield child
+        if self.Duration:
+            yield self.Duration
         for child in itertools.chain(
-                common.QTICommentContainer.get_children(self),
                 self.QTIMetadata,
                 self.Objectives,
                 self.SectionControl,
@@ -69,16 +72,16 @@ class Section(core.ObjectMixin, core.SectionMixin, common.QTICommentContainer):
             yield child
         if self.PresentationMaterial:
             yield self.PresentationMaterial
-        for child in self.QTIOutcomesProcessing:
+        for child in self.OutcomesProcessing:
             yield child
         if self.SectionProcExtension:
             yield self.SectionProcExtension
         for child in self.SectionFeedback:
             yield child
-        if self.QTISelectionOrdering:
-            yield self.QTISelectionOrdering
-        if self.QTIReference:
-            yield self.QTIReference
+        if self.SelectionOrdering:
+            yield self.SelectionOrdering
+        if self.Reference:
+            yield self.Reference
         for child in self.SectionItemMixin:
             yield child
 
-- 
2.43.0


From f48cae630d1a393a30885a1cf57e7673a22995d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 097/148] fix: qtiv1: the reference element keeps its material

---
 pyslet/qtiv1/common.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyslet/qtiv1/common.py b/pyslet/qtiv1/common.py
index dd432aa..90d9793 100755
--- a/pyslet/qtiv1/common.py
+++ b/pyslet/qtiv1/common.py
@@ -1990,12 +1990,21 @@ class Reference(ContentMixin, QTICommentContainer):
     XMLNAME = "reference"
     XMLCONTENT = xml.ElementContent
 
+    def __init__(self, parent):
+        QTICommentContainer.__init__(self, parent)
+        ContentMixin.__init__(self)
+
     def content_child(self, child_class):
         return issubclass(
             child_class,
             (Material, MatText, MatEmText, MatImage, MatAudio, MatVideo,
              MatApplet, MatApplication, MatBreak, MatExtension))
 
+    def get_children(self):
+        return itertools.chain(
+            QTICommentContainer.get_children(self),
+            ContentMixin.get_content_children(self))
+
 
 class MaterialRef(core.QTIElement):
 
-- 
2.43.0


From 217be01724ab9fae86fddd5248ee5a100dc2473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 098/148] fix: qtiv1: material keeps its alternative material

---
 pyslet/qtiv1/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/qtiv1/common.py b/pyslet/qtiv1/common.py
index 90d9793..24b4e45 100755
--- a/pyslet/qtiv1/common.py
+++ b/pyslet/qtiv1/common.py
@@ -252,7 +252,8 @@ class Material(ContentMixin, QTICommentContainer):
     def get_children(self):
         return itertools.chain(
             QTICommentContainer.get_children(self),
-            ContentMixin.get_content_children(self))
+            ContentMixin.get_content_children(self),
+            self.AltMaterial)
 
     def content_changed(self):
         if self.label:
-- 
2.43.0


From 403894d54203dc52c20edf5afb058c2606f54a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:38 +0000
Subject: [PATCH 099/148] fix: qtiv1: content children of extensions and
 response groups are not lost

---
 pyslet/qtiv1/item.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pyslet/qtiv1/item.py b/pyslet/qtiv1/item.py
index 3bb543d..c4a25cc 100755
--- a/pyslet/qtiv1/item.py
+++ b/pyslet/qtiv1/item.py
@@ -959,6 +959,11 @@ class Response(common.ContentMixin, core.QTIElement):
         core.QTIElement.__init__(self, parent)
         common.ContentMixin.__init__(self)
 
+    def get_children(self):
+        return itertools.chain(
+            core.QTIElement.get_children(self),
+            self.get_content_children())
+
 
 class ResponseExtension(Response):
 
@@ -1286,6 +1291,15 @@ class ResponseGrp(common.ContentMixin, core.QTIElement):
     XMLNAME = 'response_grp'
     XMLCONTENT = xml.ElementContent
 
+    def __init__(self, parent):
+        core.QTIElement.__init__(self, parent)
+        common.ContentMixin.__init__(self)
+
+    def get_children(self):
+        return itertools.chain(
+            core.QTIElement.get_children(self),
+            self.get_content_children())
+
 
 class Render(common.ContentMixin, core.QTIElement):
 
@@ -1295,6 +1309,11 @@ class Render(common.ContentMixin, core.QTIElement):
         core.QTIElement.__init__(self, parent)
         common.ContentMixin.__init__(self)
 
+    def get_children(self):
+        return itertools.chain(
+            core.QTIElement.get_children(self),
+            self.get_content_children())
+
 
 class RenderThing(Render):
 
@@ -2302,6 +2321,11 @@ class ItemProcExtension(common.ContentMixin, core.QTIElement, ConditionMixin):
         core.QTIElement.__init__(self, parent)
         common.ContentMixin.__init__(self)
 
+    def get_children(self):
+        return itertools.chain(
+            core.QTIElement.get_children(self),
+            self.get_content_children())
+
     def migrate_rule_to_v2(self, cmode, rule_container, log):
         """Converts an itemProcExtension into v2 response processing rules.
 
-- 
2.43.0


From ba9f2ede4b1fc8e2151c27d6f0a8d8a3a2a711ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 100/148] fix: qtiv1: object banks, tests and order elements
 write their children

---
 pyslet/qtiv1/objectbank.py |  8 ++++++++
 pyslet/qtiv1/outcomes.py   | 10 ++++++++++
 pyslet/qtiv1/sao.py        |  4 ++++
 3 files changed, 22 insertions(+)

diff --git a/pyslet/qtiv1/objectbank.py b/pyslet/qtiv1/objectbank.py
index 2cd5093..7943b35 100755
--- a/pyslet/qtiv1/objectbank.py
+++ b/pyslet/qtiv1/objectbank.py
@@ -1,5 +1,7 @@
 #! /usr/bin/env python
 
+import itertools
+
 from . import common
 from ..xml import structures as xml
 
@@ -22,6 +24,12 @@ class ObjectBank(common.MetadataContainerMixin, common.QTICommentContainer):
         self.QTIMetadata = []
         self.ObjectMixin = []
 
+    def get_children(self):
+        return itertools.chain(
+            common.QTICommentContainer.get_children(self),
+            self.QTIMetadata,
+            self.ObjectMixin)
+
     def migrate_to_v2(self, output):
         for sectionOrItem in self.ObjectMixin:
             sectionOrItem.migrate_to_v2(output)
diff --git a/pyslet/qtiv1/outcomes.py b/pyslet/qtiv1/outcomes.py
index 19176c9..fca4cb1 100755
--- a/pyslet/qtiv1/outcomes.py
+++ b/pyslet/qtiv1/outcomes.py
@@ -375,6 +375,9 @@ class AndTest(OutcomesTest):
         OutcomesTest.__init__(self, parent)
         self.OutcomesTest = []
 
+    def get_children(self):
+        return iter(self.OutcomesTest)
+
 
 class OrTest(OutcomesTest):
 
@@ -390,6 +393,9 @@ class OrTest(OutcomesTest):
         OutcomesTest.__init__(self, parent)
         self.OutcomesTest = []
 
+    def get_children(self):
+        return iter(self.OutcomesTest)
+
 
 class NotTest(OutcomesTest):
 
@@ -404,3 +410,7 @@ class NotTest(OutcomesTest):
     def __init__(self, parent):
         OutcomesTest.__init__(self, parent)
         self.OutcomesTest = None
+
+    def get_children(self):
+        if self.OutcomesTest:
+            yield self.OutcomesTest
diff --git a/pyslet/qtiv1/sao.py b/pyslet/qtiv1/sao.py
index 2d67594..835db35 100755
--- a/pyslet/qtiv1/sao.py
+++ b/pyslet/qtiv1/sao.py
@@ -241,6 +241,10 @@ class Order(core.QTIElement):
         self.orderType = None
         self.OrderExtension = None
 
+    def get_children(self):
+        if self.OrderExtension:
+            yield self.OrderExtension
+
 
 class OrderExtension(core.QTIElement):
 
-- 
2.43.0


From 8851bce9ec74928c4ee5581625e2e577cad22e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 101/148] fix: qtiv1: questestinterop visits all of its
 children

---
 pyslet/qtiv1/xml.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyslet/qtiv1/xml.py b/pyslet/qtiv1/xml.py
index ad38f21..1d49bc7 100755
--- a/pyslet/qtiv1/xml.py
+++ b/pyslet/qtiv1/xml.py
@@ -49,11 +49,10 @@ class QuesTestInterop(common.QTICommentContainer):
             yield child
         if self.ObjectBank:
             yield self.ObjectBank
-        elif self.Assessment:
+        if self.Assessment:
             yield self.Assessment
-        else:
-            for child in self.ObjectMixin:
-                yield child
+        for child in self.ObjectMixin:
+            yield child
 
     def migrate_to_v2(self):
         """Converts this element to QTI v2
-- 
2.43.0


From c093c2bf704848b73d2e5417349d337e2ac0af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:39 +0000
Subject: [PATCH 102/148] fix: qtiv2: an item's template processing is one of
 its children

---
 pyslet/qtiv2/items.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/qtiv2/items.py b/pyslet/qtiv2/items.py
index 3c6fd1f..d286d5e 100755
--- a/pyslet/qtiv2/items.py
+++ b/pyslet/qtiv2/items.py
@@ -97,6 +97,8 @@ class AssessmentItem(core.QTIElement, core.DeclarationContainer):
             yield d
         for d in self.TemplateDeclaration:
             yield d
+        if self.TemplateProcessing:
+            yield self.TemplateProcessing
         if self.ItemBody:
             yield self.ItemBody
         if self.ResponseProcessing:
-- 
2.43.0


From 0e34289d42462f24f40c1f39e56c0fe492f76f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 103/148] fix: xml: searches for children honour sub_match and
 max_depth below the first level

---
 pyslet/xml/structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index 0ada236..a70525a 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -2099,7 +2099,7 @@ class Element(Node):
                 if isinstance(child, Element) and (
                         sub_match or not isinstance(child, child_class)):
                     for c in child.find_children_breadth_first(
-                            child_class, max_depth):
+                            child_class, sub_match, max_depth):
                         yield c
 
     @old_method('FindChildrenDepthFirst')
@@ -2133,7 +2133,7 @@ class Element(Node):
                     continue
             if isinstance(child, Element) and max_depth > 0:
                 for c in child.find_children_depth_first(
-                        child_class, max_depth):
+                        child_class, sub_match, max_depth):
                     yield c
 
     @old_method('FindParent')
-- 
2.43.0


From 5e95734b70f6cf1ec14a00b17583fca2823adb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 104/148] fix: xml: get_or_add_child works in Python 3

---
 pyslet/xml/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index a70525a..cc64b3b 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -1865,7 +1865,7 @@ class Element(Node):
         If there is no child of that class then a new child is added."""
         children = self.find_children_depth_first(child_class, max_depth=1)
         try:
-            return children.next()
+            return next(children)
         except StopIteration:
             return self.add_child(child_class)
 
-- 
2.43.0


From 37c973835f80e6533ecc2d22875f09fb22266d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:26 +0000
Subject: [PATCH 105/148] fix: html401: cell alignment is written with the
 value that was read

---
 pyslet/html401.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/html401.py b/pyslet/html401.py
index 69c80ca..ea4a0d2 100644
--- a/pyslet/html401.py
+++ b/pyslet/html401.py
@@ -1367,10 +1367,10 @@ class CellAlignMixin(object):
 
     <!ENTITY % cellvalign
         "valign     (top|middle|bottom|baseline)        #IMPLIED">"""
-    XMLATTR_align = ('align', HAlign.from_str_lower, to_text)
+    XMLATTR_align = ('align', HAlign.from_str_lower, HAlign.to_str)
     XMLATTR_char = ('char', character_from_str, None)
     XMLATTR_charoff = ('charoff', Length.from_str, to_text)
-    XMLATTR_valign = ('valign', VAlign.from_str_lower, to_text)
+    XMLATTR_valign = ('valign', VAlign.from_str_lower, VAlign.to_str)
 
 
 class CoreAttrsMixin(object):
-- 
2.43.0


From 9deb793d47d19cb0977e0d358eddc7850337c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:27 +0000
Subject: [PATCH 106/148] fix: rfc4287: entries and feeds can be reset when
 they are reused

---
 pyslet/rfc4287.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyslet/rfc4287.py b/pyslet/rfc4287.py
index dbf8e42..c3d6c7e 100644
--- a/pyslet/rfc4287.py
+++ b/pyslet/rfc4287.py
@@ -467,10 +467,10 @@ class Entity(AtomElement):
         self.Title = None       #: atomTitle
         self.Updated = None     #: atomUpdated
 
-    def reset(self):
+    def reset(self, reset_attrs=False):
         for child in itertools.chain(self.Author, self.Category,
                                      self.Contributor, self.Link):
-            child.DetachFromParent
+            child.detach_from_parent()
         self.Author = []
         self.Category = []
         self.Contributor = []
@@ -484,7 +484,7 @@ class Entity(AtomElement):
         if self.Updated:
             self.Updated.detach_from_parent()
             self.Updated = None
-        super(Entity, self).reset()
+        super(Entity, self).reset(reset_attrs)
 
     def get_children(self):
         if self.AtomId:
@@ -584,7 +584,7 @@ class Entry(Entity):
         self.Source = None
         self.Summary = None
 
-    def reset(self):
+    def reset(self, reset_attrs=False):
         self.AtomId.reset()
         if self.Content:
             self.Content.detach_from_parent()
@@ -598,7 +598,7 @@ class Entry(Entity):
         if self.Summary:
             self.Summary.detach_from_parent()
             self.Summary = None
-        super(Entry, self).reset()
+        super(Entry, self).reset(reset_attrs)
         # Parent reset removes 'optional' Title and Updated elements
         self.Title = self.TitleClass(self)
         self.Updated = self.UpdatedClass(self)
-- 
2.43.0


From 49c867e1e71406c81054920b4751153e8dd2c82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:17 +0000
Subject: [PATCH 107/148] fix: qtiv2: tolerance and matchGroup are read as the
 lists that they are

---
 pyslet/qtiv2/expressions.py  | 2 +-
 pyslet/qtiv2/interactions.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/qtiv2/expressions.py b/pyslet/qtiv2/expressions.py
index 544eec6..90b8077 100755
--- a/pyslet/qtiv2/expressions.py
+++ b/pyslet/qtiv2/expressions.py
@@ -1259,7 +1259,7 @@ class Equal(NOperator):
         'toleranceMode',
         ToleranceMode.from_str_lower,
         ToleranceMode.to_str)
-    XMLATTR_tolerance = 'tolerance'
+    XMLATTR_tolerance = ('tolerance', None, None, list)
     XMLATTR_includeLowerBound = (
         'includeLowerBound', xsi.boolean_from_str, xsi.boolean_to_str)
     XMLATTR_includeUpperBound = (
diff --git a/pyslet/qtiv2/interactions.py b/pyslet/qtiv2/interactions.py
index 59080c5..d546c65 100755
--- a/pyslet/qtiv2/interactions.py
+++ b/pyslet/qtiv2/interactions.py
@@ -130,7 +130,8 @@ class AssociableChoice(Choice):
                             </xsd:simpleType>
                     </xsd:attribute>
             </xsd:attributeGroup>"""
-    XMLATTR_matchGroup = ('matchGroup', core.ValidateIdentifier, lambda x: x)
+    XMLATTR_matchGroup = (
+        'matchGroup', core.ValidateIdentifier, lambda x: x, list)
 
     def __init__(self, parent):
         Choice.__init__(self, parent)
-- 
2.43.0


From 3b54ae7e6549346e778ca89cc81f4733bbe51cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 108/148] fix: http.params: media types and chunk headers can
 be hashed

---
 pyslet/http/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/params.py b/pyslet/http/params.py
index 1a73179..691db50 100755
--- a/pyslet/http/params.py
+++ b/pyslet/http/params.py
@@ -440,6 +440,7 @@ class Chunk(SortableParameter):
         else:
             self.extensions = {}
         self._cx = sorted((p[0], p[1][1]) for p in dict_items(self.extensions))
+        self._cx = tuple(self._cx)
 
     @classmethod
     def from_str(cls, source):
@@ -496,6 +497,7 @@ class MediaType(SortableParameter):
         else:
             self.parameters = {}
         self._hp = sorted((p[0], p[1][1]) for p in dict_items(self.parameters))
+        self._hp = tuple(self._hp)
 
     @classmethod
     def from_str(cls, source):
-- 
2.43.0


From c640d4f58829294faab825742c000bb58693c7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 109/148] fix: http.messages: Accept-Ranges and Allow values
 can be hashed

---
 pyslet/http/messages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 50f9748..04ac953 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2516,6 +2516,7 @@ class AcceptRanges(params.SortableParameter):
             else:
                 raise grammar.BadSyntax("none is not a valid range-unit")
         self._sorted.sort()
+        self._sorted = tuple(self._sorted)
 
     @classmethod
     def from_str(cls, source):
@@ -2560,6 +2561,7 @@ class Allow(params.SortableParameter):
     def __init__(self, *args):
         self._methods = list(self.bstr(a).upper() for a in args)
         self._sorted = sorted(self._methods)
+        self._sorted = tuple(self._sorted)
 
     @classmethod
     def from_str(cls, source):
-- 
2.43.0


From 4b61bed264513fece9d5117c69a5c2e914003122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 110/148] fix: csdl: equal association ends have the same hash

---
 pyslet/odata2/csdl.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index 545e3eb..b13b266 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -4357,6 +4357,14 @@ class AssociationEnd(CSDLElement):
         else:
             return "." + self.name
 
+    def __eq__(self, other):
+        if isinstance(other, AssociationEnd) and \
+                self.name is not None and other.name is not None and \
+                self.get_qualified_name() != other.get_qualified_name():
+            # ends of different associations
+            return False
+        return super(AssociationEnd, self).__eq__(other)
+
     def __hash__(self):
         return hash(self.get_qualified_name())
 
-- 
2.43.0


From 92220ecf1cc55dd8a741173ac8d1e0729273f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 111/148] fix: odata2: formatting an unsupported binary
 operator raises ValueError

---
 pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 1309c06..5831a05 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -516,7 +516,7 @@ class BinaryExpression(CommonExpression):
                 op_suffix = ")"
             else:
                 raise ValueError(
-                    "Can't format %s as a binary operator" & Operator.to_str(
+                    "Can't format %s as a binary operator" % Operator.to_str(
                         self.operator))
         else:
             op = " %s " % Operator.to_str(self.operator)
-- 
2.43.0


From 4d403902b333eeecde983815bf1619fb367e0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 112/148] fix: odata2: cast and isof with one operand can be
 formatted

---
 pyslet/odata2/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 5831a05..fec00a5 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -521,6 +521,9 @@ class BinaryExpression(CommonExpression):
         else:
             op = " %s " % Operator.to_str(self.operator)
         lvalue = self.operands[0]
+        if len(self.operands) == 1:
+            # cast and isof may omit the first operand
+            return uempty.join((op_prefix, to_text(lvalue), op_suffix))
         rvalue = self.operands[1]
         if lvalue.operator is not None and lvalue < self:
             # left expression is weaker than us, use brackets
-- 
2.43.0


From 17f347981fe82f55ebe4613680f2d8a38a190859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 113/148] fix: odata2: keep the grouping of right-nested
 expressions in URLs

---
 pyslet/odata2/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index fec00a5..12650ad 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -530,8 +530,9 @@ class BinaryExpression(CommonExpression):
             lvalue = "(%s)" % to_text(lvalue)
         else:
             lvalue = to_text(lvalue)
-        if rvalue.operator is not None and rvalue < self:
-            # right expression is weaker than us, use brackets
+        if rvalue.operator is not None and rvalue <= self:
+            # right expression is no stronger than us, use brackets as
+            # operators of equal precedence associate to the left
             rvalue = "(%s)" % to_text(rvalue)
         else:
             rvalue = to_text(rvalue)
-- 
2.43.0


From 044ca35d1325871eea446772305b8dc464e88c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:17 +0000
Subject: [PATCH 114/148] fix: odata2: parse unary operators that follow
 another unary operator

---
 pyslet/odata2/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 12650ad..6fa1ee6 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1439,7 +1439,9 @@ class Parser(edm.Parser):
             # right_op (an operator expression, never None)
             # next job, determine who binds more tightly, left or right?
             while True:
-                if left_op is None or left_op < right_op:
+                if left_op is None or operand is None or \
+                        left_op < right_op:
+                    # prefix operators have nothing to bind to the left,
                     # bind the operand to the right, in cases of equal
                     # precedence we left associate 1+2-3 = (1+2)-3
                     if operand is not None:
-- 
2.43.0


From 47463b6a8432aac2d6e12c5b2481830d4f0cbbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 115/148] fix: odata2: parameters can be used inside brackets
 and function calls

---
 pyslet/odata2/core.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 6fa1ee6..ef44a5e 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -1361,27 +1361,27 @@ class Parser(edm.Parser):
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.isof,
-                            "isof"),
+                            "isof", params),
                         "isofExpression")
                 elif name == "cast":
                     self.parse_wsp()
                     right_op = self.require_production(
                         self.parse_castlike(
                             Operator.cast,
-                            "cast"),
+                            "cast", params),
                         "caseExpression")
                 elif name is not None:
                     self.parse_wsp()
                     if self.match("("):
                         method_call = Method.from_str(name)
                         right_op = self.parse_method_call_expression(
-                            method_call)
+                            method_call, params)
                     else:
                         right_op = PropertyExpression(name)
             if right_op is None:
                 if self.parse("("):
                     right_op = self.require_production(
-                        self.parse_common_expression(),
+                        self.parse_common_expression(params),
                         "commonExpression inside parenExpression")
                     self.require_production(
                         self.parse(")"), "closing bracket in parenExpression")
@@ -1461,14 +1461,14 @@ class Parser(edm.Parser):
                     else:
                         left_op = None
 
-    def parse_method_call_expression(self, method_call):
+    def parse_method_call_expression(self, method_call, params=None):
         method = CallExpression(method_call)
         self.require_production(
             self.parse("("), "opening bracket in methodCallExpression")
         while True:
             self.parse_wsp()
             param = self.require_production(
-                self.parse_common_expression(), "methodCall argument")
+                self.parse_common_expression(params), "methodCall argument")
             method.add_operand(param)
             self.parse_wsp()
             if self.parse(","):
@@ -1479,13 +1479,13 @@ class Parser(edm.Parser):
                 raise ValueError("closing bracket in methodCallExpression")
         return method
 
-    def parse_castlike(self, op, name):
+    def parse_castlike(self, op, name, params=None):
         """Parses a cast-like expression, including 'isof'."""
         self.parse_wsp()
         if self.parse("("):
             e = BinaryExpression(op)
             first_param = self.require_production(
-                self.parse_common_expression(), "%s argument" % name)
+                self.parse_common_expression(params), "%s argument" % name)
             e.add_operand(first_param)
             self.parse_wsp()
             if self.parse_one(")"):
@@ -1495,7 +1495,8 @@ class Parser(edm.Parser):
                 self.require_production(self.parse(","), "',' in %s" % name)
                 self.parse_wsp()
                 string_param = self.require_production(
-                    self.parse_common_expression(), "%s argument" % name)
+                    self.parse_common_expression(params),
+                    "%s argument" % name)
                 e.add_operand(string_param)
                 self.parse_wsp()
                 self.require_production(self.parse(")"), "')' after %s" % name)
-- 
2.43.0


From f39c329e79cc541e2d06dd76ff5a15767687fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 116/148] fix: odata2: relations with a null operand are false
 for every type

---
 pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index ef44a5e..89d55bc 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -756,7 +756,11 @@ class BinaryExpression(CommonExpression):
                 edm.SimpleType.String, edm.SimpleType.DateTime,
                 edm.SimpleType.DateTimeOffset, edm.SimpleType.Guid):
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-            result.set_from_value(relation(lvalue.value, rvalue.value))
+            if lvalue and rvalue:
+                result.set_from_value(relation(lvalue.value, rvalue.value))
+            else:
+                # one of the operands is null => False
+                result.set_from_value(False)
             return result
         elif type_code is None:  # e.g., null lt null
             result = edm.EDMValue.from_type(edm.SimpleType.Boolean)
-- 
2.43.0


From d56bbc780e64f8c7cbfebe99e230ea0951ee5e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 117/148] fix: sqlds: substring counts its operands

---
 pyslet/odata2/sqlds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index a181020..1798e24 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1848,7 +1848,7 @@ class SQLCollectionBase(core.EntityCollection):
         query.append(self.sql_expression(expression.operands[0], params, ','))
         query.append(" FROM ")
         query.append(self.sql_expression(expression.operands[1], params, ','))
-        if len(expression.operands > 2):
+        if len(expression.operands) > 2:
             query.append(" FOR ")
             query.append(
                 self.sql_expression(expression.operands[2], params, ','))
-- 
2.43.0


From d0aa7423324abf5448f84e88fbfb2bc040589de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 118/148] fix: sqlds: a navigation property is not a value

---
 pyslet/odata2/sqlds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 1798e24..c0c9a98 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1547,6 +1547,10 @@ class SQLCollectionBase(core.EntityCollection):
                             "Unqualified property %s "
                             "must refer to a simple type" %
                             expression.name)
+                else:
+                    raise core.EvaluationError(
+                        "Unqualified property %s is a navigation property" %
+                        expression.name)
             except KeyError:
                 raise core.EvaluationError(
                     "Property %s is not declared" % expression.name)
-- 
2.43.0


From d4499d8fb5aedeba2ec830a8a0611761f7bc7688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 119/148] fix: sqlds: keep the grouping of right-nested
 expressions

---
 pyslet/odata2/sqlds.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index c0c9a98..d9453e3 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -67,7 +67,8 @@ SQLOperatorPrecedence = {
     '+': 5,
     '-': 5,
     '*': 6,
-    '/': 6
+    '/': 6,
+    '()': 7
 }
 """Look-up table for SQL operator precedence calculations.
 
@@ -79,6 +80,27 @@ example::
     SQLOperatorPrecedence['<']==SQLOperatorPrecedence['>']"""
 
 
+SQLRightContext = {
+    '=': '+',
+    '<>': '+',
+    '<': '+',
+    '>': '+',
+    '<=': '+',
+    '>=': '+',
+    'LIKE': '+',
+    '+': '*',
+    '-': '*',
+    '*': '()',
+    '/': '()'
+}
+"""Look-up table for the context of right-hand operands.
+
+SQL operators of equal precedence associate to the left so the operand
+on the right of these operators must be bracketed if it uses an operator
+of the *same* precedence.  The special context '()' causes everything
+that contains an operator to be bracketed."""
+
+
 class UnparameterizedLiteral(core.LiteralExpression):
 
     """Class used as a flag that this literal is safe and does not need
@@ -1669,7 +1691,8 @@ class SQLCollectionBase(core.EntityCollection):
         query.append(operator)
         query.append(' ')
         query.append(
-            self.sql_expression(expression.operands[1], params, operator))
+            self.sql_expression(expression.operands[1], params,
+                                SQLRightContext.get(operator, operator)))
         return self.sql_bracket(''.join(query), context, operator)
 
     def sql_expression_mul(self, expression, params, context):
-- 
2.43.0


From 7ecb86f2e05b732426bcc9d3049034688ce37adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 120/148] fix: sqlds: refuse function calls with the wrong
 number of arguments

---
 pyslet/odata2/core.py  | 24 ++++++++++++++++++++++++
 pyslet/odata2/sqlds.py |  6 ++++++
 2 files changed, 30 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 89d55bc..ee83295 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -986,6 +986,30 @@ class CallExpression(CommonExpression):
     """A mapping from method calls to unbound methods that evaluate
     the method."""
 
+    ArgCount = {
+        Method.endswith: (2, ),
+        Method.indexof: (2, ),
+        Method.replace: (3, ),
+        Method.startswith: (2, ),
+        Method.tolower: (1, ),
+        Method.toupper: (1, ),
+        Method.trim: (1, ),
+        Method.substring: (2, 3),
+        Method.substringof: (2, ),
+        Method.concat: (2, ),
+        Method.length: (1, ),
+        Method.year: (1, ),
+        Method.month: (1, ),
+        Method.day: (1, ),
+        Method.hour: (1, ),
+        Method.minute: (1, ),
+        Method.second: (1, ),
+        Method.round: (1, ),
+        Method.floor: (1, ),
+        Method.ceiling: (1, )
+    }
+    """A mapping from method calls to the permitted argument counts."""
+
     def __init__(self, method_call):
         super(CallExpression, self).__init__(Operator.method_call)
         self.method = method_call
diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index d9453e3..9daff23 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -1577,6 +1577,12 @@ class SQLCollectionBase(core.EntityCollection):
                 raise core.EvaluationError(
                     "Property %s is not declared" % expression.name)
         elif isinstance(expression, core.CallExpression):
+            if len(expression.operands) not in \
+                    expression.ArgCount[expression.method]:
+                raise core.EvaluationError(
+                    "%s() called with %i arguments" %
+                    (core.Method.to_str(expression.method),
+                     len(expression.operands)))
             return getattr(
                 self,
                 self.SQLCallExpressionMethod[
-- 
2.43.0


From 57cc88bf2369abf2adf667ad4a56b66484dd25bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:28 +0000
Subject: [PATCH 121/148] fix: odata2: not is no binary operator

---
 pyslet/odata2/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index ee83295..58950b3 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -335,6 +335,7 @@ Operator.IsSpecial = set(
      Operator.member,
      Operator.method_call,
      Operator.negate,
+     Operator.boolNot,
      Operator.cast,
      Operator.isof))
 
-- 
2.43.0


From 9819c87b9d994854c48adb76e6ddf7990a000898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 122/148] fix: http.client: only GET and HEAD follow a 301, 307
 or 308 automatically, 303 is followed with GET

---
 pyslet/http/client.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index b984549..9b52f1c 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1970,14 +1970,24 @@ class ClientRequest(messages.Request):
             self.tried_credentials = None
         if (self.auto_redirect and self.status >= 300 and
                 self.status <= 399 and
-                (self.status != 302 or
+                (self.status not in (301, 302, 307, 308) or
                  self.method.upper() in ("GET", "HEAD"))):
-            # If the 302 status code is received in response to a
-            # request other than GET or HEAD, the user agent MUST NOT
-            # automatically redirect the request unless it can be
-            # confirmed by the user
+            # If the 301, 302, 307 or 308 status code is received in
+            # response to a request other than GET or HEAD, the user
+            # agent MUST NOT automatically redirect the request unless
+            # it can be confirmed by the user
             location = self.response.get_location()
             if location:
+                if self.method.upper() not in ("GET", "HEAD"):
+                    # the other redirect codes point at a resource that
+                    # describes the result: never repeat the request
+                    self.method = "GET"
+                    self.entity_body = None
+                    self.body_start = self.body_len = None
+                    self.body_started = False
+                    self.set_content_length(None)
+                    self.set_content_type(None)
+                    self.set_transfer_encoding(None)
                 if not location.host:
                     # This is an error but a common one (thanks IIS!)
                     location = location.resolve(self.url)
-- 
2.43.0


From df968a6f6c831501419b7dd393ed7b32e3c0355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 123/148] fix: http.client: a 401 response is answered with one
 set of credentials only

---
 pyslet/http/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index 9b52f1c..a4e954f 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2000,6 +2000,7 @@ class ClientRequest(messages.Request):
                 if self.tried_credentials:
                     self.set_authorization(self.tried_credentials)
                     self.resend()  # to the same URL
+                    break
 
 
 class ClientResponse(messages.Response):
-- 
2.43.0


From e7f17039995a0df08d8b9b71844accf5842aa55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 124/148] fix: http.auth: credentials with a realm are compared
 with the realm parameter of the challenge

---
 pyslet/http/auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 9630b74..17bc1e0 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -170,7 +170,7 @@ class Credentials(Parameter):
         if self.protectionSpace != challenge.protectionSpace:
             return False
         if self.realm:
-            if self.realm != challenge.realm:
+            if self.bstr(self.realm) != challenge["realm"]:
                 return False
         return True
 
-- 
2.43.0


From 093d8322bbae78d03e89e0daeb16979bbfbc1b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 125/148] fix: http.auth: only the last segment of a path
 prefix matches anything

---
 pyslet/http/auth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/auth.py b/pyslet/http/auth.py
index 17bc1e0..bd055de 100755
--- a/pyslet/http/auth.py
+++ b/pyslet/http/auth.py
@@ -306,8 +306,10 @@ class BasicCredentials(Credentials):
             return False
         i = 0
         while i < len(prefix):
-            # note that an empty segment matches anything (except nothing)
-            if prefix[i] and prefix[i] != path[i]:
+            # note that an empty last segment matches anything (except
+            # nothing)
+            if ((prefix[i] or i + 1 < len(prefix)) and
+                    prefix[i] != path[i]):
                 return False
             i = i + 1
         return True
-- 
2.43.0


From 135d0fa347ff509962bc379a21ce52589c7eb366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 126/148] fix: http.client: body data left after an error
 response is recognised as bytes

---
 pyslet/http/client.py   | 4 ++--
 pyslet/http/messages.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index a4e954f..e591be1 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -1929,13 +1929,13 @@ class ClientRequest(messages.Request):
                 # finished with us
                 if self.status >= 300:
                     # Some type of error condition....
-                    if isinstance(self.send_body(), str):
+                    if self.send_body() != b'':
                         # There was more data to send in the request but we
                         # don't plan to send it so we have to hang up!
                         self.connection.request_disconnect()
                     # else, we were finished anyway... the connection will
                     # discover this itself
-                elif self.response >= 200:
+                elif self.status >= 200:
                     # For 2xx result codes we let the connection finish
                     # spooling and disconnect from us when it is done
                     pass
diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 04ac953..cd1e202 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -674,10 +674,10 @@ class Message(PEP8Compatibility, object):
                     else:
                         # end of the message body (read forever mode)
                         self.transferDone = True
-                        return ''
+                        return b''
                 else:
                     self.transferDone = True
-                    return ''
+                    return b''
 
     START_MODE = 1
     HEADER_MODE = 2
-- 
2.43.0


From 3a42c1c312ceb5e08e0bd480def67b8050fb72c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 127/148] fix: http.messages: a body shorter than its
 Content-Length is an error

---
 pyslet/http/messages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index cd1e202..add50b4 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -671,6 +671,9 @@ class Message(PEP8Compatibility, object):
                         self.transferPos += len(data)
                         self.body_started = True
                         return data
+                    elif self.transferlength is not None:
+                        # the recipient is waiting for more
+                        raise HTTPException("Too little data in entity body")
                     else:
                         # end of the message body (read forever mode)
                         self.transferDone = True
-- 
2.43.0


From 729d4b28f41975ee81e3fe1bc20fd2c85037c30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:44 +0000
Subject: [PATCH 128/148] fix: http.cookie: an IP address is matched whole, it
 has no parent domain

---
 pyslet/http/cookie.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 4b91aa5..58f15da 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -2,6 +2,7 @@
 
 import time
 import logging
+import re
 import threading
 import os.path
 
@@ -25,6 +26,8 @@ def is_cookie_octet(b):
     else:
         return False
 
+IPV4_ADDRESS = re.compile(r'^[0-9]+(\.[0-9]+){3}$')
+
 HYPHEN = byte('-')
 FULL_STOP = byte('.')
 
@@ -1045,13 +1048,15 @@ class CookieStore(object):
                 url.scheme)
         try:
             host_str = url.host
+            if IPV4_ADDRESS.match(host_str):
+                raise ValueError("IP address")
             host = split_domain(host_str)
             host.reverse()
         except ValueError:
             # the domain is an IP address, match whole
             host = [host_str]
         domain = c.domain
-        if domain is None:
+        if domain is None or domain == host_str:
             domain_str = host_str
             domain = host
         else:
@@ -1114,6 +1119,8 @@ class CookieStore(object):
         current time."""
         try:
             host_str = url.host
+            if IPV4_ADDRESS.match(host_str):
+                raise ValueError("IP address")
             host = split_domain(host_str)
             host.reverse()
         except ValueError:
-- 
2.43.0


From 70709772e3966c047c258dea1823570dfb6b3a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 129/148] fix: http.cookie: a cookie with a bad domain is
 refused with CookieError

---
 pyslet/http/cookie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index 58f15da..f184c9c 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1061,7 +1061,10 @@ class CookieStore(object):
             domain = host
         else:
             domain_str = domain
-            domain = split_domain(domain)
+            try:
+                domain = split_domain(domain)
+            except ValueError as e:
+                raise CookieError(str(e))
             domain.reverse()
             if not domain_in_domain(domain, host):
                 # you can't set this cookie from host
-- 
2.43.0


From a501adc7e480648faaecc01d21689ed59c958772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 130/148] fix: http.messages: Set-Cookie headers without a name
 are left out

---
 pyslet/http/messages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index add50b4..a61e68a 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -2045,7 +2045,9 @@ class Response(Message):
         """
         field_value = self.get_header('Set-Cookie', list_mode=True)
         if field_value is not None:
-            return list(cookie.Cookie.from_str(v) for v in field_value)
+            cookie_list = [cookie.Cookie.from_str(v) for v in field_value]
+            # from_str returns None if the definition should be ignored
+            return [c for c in cookie_list if c is not None]
         else:
             return None
 
-- 
2.43.0


From 09d65a64ee50af80d85b21723ca2d106e605cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:06 +0000
Subject: [PATCH 131/148] fix: http.cookie: a cookie whose path is the request
 path matches it

---
 pyslet/http/cookie.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/cookie.py b/pyslet/http/cookie.py
index f184c9c..d25ba20 100755
--- a/pyslet/http/cookie.py
+++ b/pyslet/http/cookie.py
@@ -1157,8 +1157,8 @@ class CookieStore(object):
                         continue
                     if not (url.abs_path.startswith(c.path) and
                             (c.path[-1] == '/' or
-                             url.abs_path[len(c.path):len(c.path) + 1] ==
-                             '/')):
+                             url.abs_path[len(c.path):len(c.path) + 1] in
+                             ('', '/'))):
                         continue
                     # we have a domain and path match
                     if c.secure and not isinstance(url, params.HTTPSURL):
-- 
2.43.0


From fc0b5a57bdb7bc5f6fe0cdf9e61ad932cf672e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:35 +0000
Subject: [PATCH 132/148] fix: http.messages: set_authorization(None) removes
 the header

---
 pyslet/http/messages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index a61e68a..8329963 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1197,8 +1197,11 @@ class Message(PEP8Compatibility, object):
         """Sets the "Authorization" header
 
         credentials
-                a :py:class:`~pyslet.http.auth.Credentials` instance"""
-        self.set_header("Authorization", str(credentials))
+                a :py:class:`~pyslet.http.auth.Credentials` instance or
+                None to remove the header"""
+        if credentials is not None:
+            credentials = str(credentials)
+        self.set_header("Authorization", credentials)
 
     def get_cache_control(self):
         """Returns an :py:class:`CacheControl` instance or None if no
-- 
2.43.0


From 292d36ccab5869f35bee0494c3fdfa8cb215a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:46 +0000
Subject: [PATCH 133/148] fix: http.messages: a Content-Length that is not a
 plain number is refused

---
 pyslet/http/messages.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 8329963..58497ab 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1306,6 +1306,10 @@ class Message(PEP8Compatibility, object):
         If no Content-Length header was present None is returned."""
         field_value = self.get_header("Content-Length")
         if field_value is not None:
+            if not field_value.strip().isdigit():
+                # int() would also accept a sign and underscores
+                raise ProtocolError(
+                    "Bad Content-Length: %s" % repr(field_value))
             return int(field_value.strip())
         else:
             return None
-- 
2.43.0


From c10b3f5bbeba1bf51e22c29c9ef60764c13a2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 134/148] fix: http.messages: a message without a body never
 declares one

---
 pyslet/http/messages.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 58497ab..69b2b4c 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -572,6 +572,9 @@ class Message(PEP8Compatibility, object):
             if encoding is not None:
                 self.set_transfer_encoding(None)
                 encoding = None
+        elif encoding is not None and self.entity_body is None:
+            # nothing to encode and no chunks will be sent
+            self.set_transfer_encoding(None)
         elif encoding is not None:
             if content_length is not None:
                 raise HTTPException("Content-Length not allowed with "
@@ -606,6 +609,8 @@ class Message(PEP8Compatibility, object):
                     raise HTTPException("Too little data in entity body")
                 elif self.body_len > self.transferlength:
                     raise HTTPException("Too much data in entity body")
+            elif self.entity_body is None and self.transferlength > 0:
+                raise HTTPException("Too little data in entity body")
             return
         # We don't yet support multipart/byteranges....so skip this
         # auto-calculate the content-length if there is an entity body
@@ -1872,6 +1877,7 @@ class Response(Message):
                 raise HTTPException(
                     "entity body not allowed in %i response to %s request" %
                     (self.status, self.request.method))
+            self.set_transfer_encoding(None)
             self.transferchunked = False
             self.transferlength = 0
             self.transferbody = None
@@ -1896,6 +1902,7 @@ class Response(Message):
                 return
         if self.entity_body is None:
             # no body, the client expects a content length at least
+            self.set_transfer_encoding(None)
             self.set_content_length(0)
             self.transferchunked = False
             self.transferlength = 0
-- 
2.43.0


From 142cb005e02da3c2f684b860f9739b9dde398e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 135/148] fix: http.messages: a request is never sent without
 framing its body

---
 pyslet/http/messages.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 69b2b4c..481fb4f 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1606,6 +1606,9 @@ class Request(Message):
                         "Request buffered to send to HTTP/1.0 server")
                     self.body_len = self.entity_body.length
                     super(Request, self).send_transferlength()
+                    if self.transferlength is None:
+                        # a transfer encoding without chunked
+                        raise HTTPException("Length required for request")
                 else:
                     logging.error("Request too large for buffering")
                     raise HTTPException("Length required for HTTP/1.0 server")
-- 
2.43.0


From 693f75cef4ed5113dc87ba99e3e53739850dc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 136/148] fix: http.messages: end of data before the declared
 end of the body is an error

---
 pyslet/http/messages.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 481fb4f..41d61cf 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -874,6 +874,8 @@ class Message(PEP8Compatibility, object):
                         # we're receiving all data
                         self.recv_buffer = data
                     self._recv_buffered()
+                elif self.transferlength:
+                    raise ProtocolError("Unexpected end of message body")
                 else:
                     self.transfermode = None
             elif self.transfermode == self.BLOCKED_MODE:
-- 
2.43.0


From 69c2db24ed614cd871406ed299f3acf072ff53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:47 +0000
Subject: [PATCH 137/148] fix: http.server: data read beyond a request is kept
 for the next one

---
 pyslet/http/server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index 0417840..f6e9492 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -279,6 +279,7 @@ class Connection(socketserver.BaseRequestHandler):
         # these pipes are for the entity body, not the message body! in
         # otherwords, they deal with data after transfer encodings have
         # been removed
+        buffstr = b''
         try:
             while not self.finished.is_set():
                 logging.debug("handle_request: reading request...")
@@ -286,7 +287,6 @@ class Connection(socketserver.BaseRequestHandler):
                 rflag = CascadingEvent()
                 request.recv_pipe.set_rflag(rflag)
                 request.start_receiving()
-                buffstr = b''
                 timeout = self.server.idle_timeout
                 send_continue = False
                 send_continue_start = 0
@@ -350,8 +350,9 @@ class Connection(socketserver.BaseRequestHandler):
                                 buffstr = buffstr[mode:]
                                 request.recv(data)
                             elif buffstr:
-                                request.recv(buffstr)
-                                buffstr = ''
+                                data = buffstr
+                                buffstr = b''
+                                request.recv(data)
                             else:
                                 # read some data from the socket
                                 data = read_socket(self.request, mode,
@@ -365,8 +366,9 @@ class Connection(socketserver.BaseRequestHandler):
                         elif mode == request.RECV_ALL:
                             # unlimited read from the socket
                             if buffstr:
-                                request.recv(buffstr)
-                                buffstr = ''
+                                data = buffstr
+                                buffstr = b''
+                                request.recv(data)
                             else:
                                 data = read_socket(self.request,
                                                    io.DEFAULT_BUFFER_SIZE,
-- 
2.43.0


From 1e68b2f19d24e43b9f55f1ca9daefd85ba6702c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:16 +0000
Subject: [PATCH 138/148] fix: http.client: a response cut short by a
 disconnect is reported

---
 pyslet/http/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/http/client.py b/pyslet/http/client.py
index e591be1..2c00cf6 100644
--- a/pyslet/http/client.py
+++ b/pyslet/http/client.py
@@ -2047,6 +2047,10 @@ class ClientResponse(messages.Response):
         may be expected behaviour and *err* may be None.
 
         We pass this information on to the request."""
+        if (err is None and self.status is not None and
+                self.recv_mode() not in (None, self.RECV_ALL)):
+            # the server declared more data than it sent
+            err = messages.HTTPException("Unexpected end of response")
         if err is not None:
             self.reason = str(err)
         self.request.response_finished(err)
-- 
2.43.0


From 016a4a853cfcf052d292e8523500b2443da5ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:24 +0000
Subject: [PATCH 139/148] fix: http.messages: a request whose transfer coding
 does not end in chunked is refused

---
 pyslet/http/messages.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index 41d61cf..dcde8aa 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -1633,6 +1633,11 @@ class Request(Message):
     def recv_transferlength(self):
         super(Request, self).recv_transferlength()
         if self.transferlength is None and not self.transferchunked:
+            encoding = self.get_transfer_encoding()
+            if encoding is not None and not (
+                    len(encoding) == 1 and encoding[0].token == "identity"):
+                # there is no way to find the end of this body
+                raise ProtocolError("Transfer-Encoding without chunked")
             # if we are left with transferlength == None and no chunked
             # encoding it means there is no message body as requests
             # cannot hang up to indicate the end of the message
-- 
2.43.0


From 68496073195d9954a6cadaafb1a0b34959eb4ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:24 +0000
Subject: [PATCH 140/148] fix: http.messages: a chunked body that ends early is
 an error in ChunkedReader

---
 pyslet/http/messages.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index dcde8aa..d1c4851 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -152,7 +152,10 @@ class ChunkedReader(io.RawIOBase):
         if self.chunk_left == 0:
             self.src.readline()
         p = params.ParameterParser(self.src.readline().strip())
-        self.chunk_left = int(p.parse_token(), 16)
+        token = p.parse_token()
+        if token is None:
+            raise ProtocolError("Unexpected end of chunked data")
+        self.chunk_left = int(token, 16)
         if self.chunk_left == 0:
             self.eof = True
             # read the trailing headers and CRLF
@@ -179,7 +182,10 @@ class ChunkedReader(io.RawIOBase):
         nbytes = len(b)
         if nbytes > self.chunk_left:
             nbytes = self.chunk_left
-        b[:nbytes] = self.src.read(nbytes)
+        data = self.src.read(nbytes)
+        if len(data) < nbytes:
+            raise ProtocolError("Unexpected end of chunked data")
+        b[:nbytes] = data
         self.chunk_left -= nbytes
         return nbytes
 
-- 
2.43.0


From 299aae64e0d830623a79c580ce6cbff06b99450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:24 +0000
Subject: [PATCH 141/148] fix: http.messages: WSGIInputWrapper keeps its
 position and stays inside the content length

---
 pyslet/http/messages.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/http/messages.py b/pyslet/http/messages.py
index d1c4851..4ecea0d 100755
--- a/pyslet/http/messages.py
+++ b/pyslet/http/messages.py
@@ -156,6 +156,8 @@ class ChunkedReader(io.RawIOBase):
         if token is None:
             raise ProtocolError("Unexpected end of chunked data")
         self.chunk_left = int(token, 16)
+        if self.chunk_left < 0:
+            raise ProtocolError("Bad chunk size: %s" % repr(token))
         if self.chunk_left == 0:
             self.eof = True
             # read the trailing headers and CRLF
@@ -262,7 +264,7 @@ class WSGIInputWrapper(io.RawIOBase):
                     self.pos + n > self.inputLength:
                 # application should not attempt to read past the
                 # CONTENT_LENGTH
-                n = self.inputLength - self.pos
+                n = max(0, self.inputLength - self.pos)
             idata = self.input_stream.read(n)
             if len(idata) == 0:
                 self.input_stream = None
@@ -305,8 +307,6 @@ class WSGIInputWrapper(io.RawIOBase):
                 data = self.read(n)
                 if len(data) == 0:
                     break
-                else:
-                    self.pos += len(data)
         # new_pos may be beyond the end of the input stream, that's OK
         self.pos = new_pos
 
@@ -344,7 +344,7 @@ class WSGIInputWrapper(io.RawIOBase):
         data = self.read(n)
         i = 0
         for d in data:
-            b[i] = ord(d)
+            b[i] = d if isinstance(d, int) else ord(d)
             i = i + 1
         return len(data)
 
@@ -397,6 +397,8 @@ class WSGIInputWrapper(io.RawIOBase):
             line = self.readline()
             if line:
                 yield line
+            else:
+                break
 
 
 class Message(PEP8Compatibility, object):
-- 
2.43.0


From 5b81362824f4cbdfad8702fa05317d743ac14411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:37 +0000
Subject: [PATCH 142/148] fix: http.server: an overlong header line is reported
 as such

---
 pyslet/http/server.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyslet/http/server.py b/pyslet/http/server.py
index f6e9492..476e045 100755
--- a/pyslet/http/server.py
+++ b/pyslet/http/server.py
@@ -112,7 +112,8 @@ def split_socket(s, buffstr=b'', timeout=None,
             line = bytes(buffer[rpos:end + 2])
             if len(line) > maxline:
                 raise messages.HTTPException(
-                    "max line length exceeded: %s..." + line[0:64])
+                    "max line length exceeded: %s..." %
+                    line[0:64].decode('iso-8859-1'))
             lines.append(line)
             rpos = end + 2
             if line == grammar.CRLF:
-- 
2.43.0


From 037962c7fb9dde7a18c62874ab33353146829be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:56 +0000
Subject: [PATCH 143/148] fix: odata2.core: the next page link keeps
 $inlinecount and the rest of $top

---
 pyslet/odata2/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index 58950b3..b4a109e 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -2981,6 +2981,13 @@ class EntityCollection(edm.EntityCollection):
                 sys_query_options[
                     SystemQueryOption.orderby] = \
                     CommonExpression.orderby_to_str(self.orderby)
+            if self.inlinecount:
+                sys_query_options[
+                    SystemQueryOption.inlinecount] = "allpages"
+            if self.top is not None and self.topmax is not None:
+                # what is left once this page has been returned
+                sys_query_options[
+                    SystemQueryOption.top] = to_text(self.top - self.topmax)
             sys_query_options[SystemQueryOption.skiptoken] = to_text(token)
             return uri.URI.from_octets(
                 str(base_url) +
-- 
2.43.0


From f5eb6d5a9d9c991a53fb5231d15ca458f9768aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:56 +0000
Subject: [PATCH 144/148] fix: odata2.csdl: no next page when the collection is
 exhausted

---
 pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/odata2/csdl.py b/pyslet/odata2/csdl.py
index b13b266..fc15c34 100755
--- a/pyslet/odata2/csdl.py
+++ b/pyslet/odata2/csdl.py
@@ -3360,6 +3360,7 @@ class EntityCollection(DictionaryLike, PEP8Compatibility):
         finally:
             self.paging = False
         # no more pages
+        self.nextSkiptoken = None
         if set_next:
             self.top = self.skip = 0
             self.skiptoken = None
-- 
2.43.0


From f0d00f6b086434f5636355a169af24ed51ee6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:56 +0000
Subject: [PATCH 145/148] fix: odata2.sqlds: the skiptoken ends with the
 requested entities and counts skipped pages

---
 pyslet/odata2/sqlds.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyslet/odata2/sqlds.py b/pyslet/odata2/sqlds.py
index 9daff23..0c0e652 100755
--- a/pyslet/odata2/sqlds.py
+++ b/pyslet/odata2/sqlds.py
@@ -590,7 +590,7 @@ class SQLCollectionBase(core.EntityCollection):
                     order_len + len(self.entity_set.keys) + 1):
                 # the last value must be an integer we add to skip
                 if isinstance(self.skiptoken[-1], edm.Int32Value):
-                    self.skip += self.skiptoken[-1].value
+                    self.skip = (self.skip or 0) + self.skiptoken[-1].value
                     self.skiptoken = self.skiptoken[:-1]
                 else:
                     raise core.InvalidSystemQueryOption(
@@ -613,6 +613,7 @@ class SQLCollectionBase(core.EntityCollection):
         if self.top == 0:
             # end of paging
             return
+        self.nextSkiptoken = None
         skip = self.skip
         top = self.top
         topmax = self.topmax
@@ -672,7 +673,7 @@ class SQLCollectionBase(core.EntityCollection):
                 yield entity
                 if topmax is not None:
                     topmax = topmax - 1
-                    if topmax < 1:
+                    if topmax < 1 and (top is None or top > 1):
                         # this is the last entity, set the nextSkiptoken
                         order_values = row_values[-len(self.orderNames):]
                         self.nextSkiptoken = []
@@ -685,14 +686,16 @@ class SQLCollectionBase(core.EntityCollection):
                                                     edm.BinaryValue)):
                                 tokenlen += len(v.value)
                         # a really large skiptoken is no use to anyone
-                        if tokenlen > 512:
+                        if tokenlen > 512 and self.skiptoken is not None:
                             # ditch this one, copy the previous one and add a
                             # skip
                             self.nextSkiptoken = list(self.skiptoken)
                             v = edm.Int32Value()
-                            v.set_from_value(self.topmax)
+                            v.set_from_value((self.skip or 0) + self.topmax)
                             self.nextSkiptoken.append(v)
-                        if set_next:
+                            if set_next:
+                                self.skip = v.value
+                        elif set_next:
                             self.skiptoken = self.nextSkiptoken
                             self.skip = 0
                         break
-- 
2.43.0


From 61544ef748341e8611674309f358532b13d0eac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:12 +0000
Subject: [PATCH 146/148] fix: xml.structures: an identifier clash leaves the
 element and the table alone

---
 pyslet/xml/structures.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index cc64b3b..e9214d4 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -758,7 +758,7 @@ class Document(Node):
         If the element has a uniquely defined ID it is removed from the
         internal ID table.  Called prior to detaching the element from
         the document."""
-        if element.id:
+        if element.id and self.idTable.get(element.id, None) is element:
             del self.idTable[element.id]
 
     @old_method('GetElementByID')
@@ -1507,6 +1507,8 @@ class Element(Node):
             raise XMLIDValueError(id)
         doc = self.get_document()
         if doc:
+            if id != self.id and doc.get_element_by_id(id) is not None:
+                raise XMLIDClashError
             doc.unregister_element(self)
             self.id = id
             doc.register_element(self)
@@ -2172,7 +2174,11 @@ class Element(Node):
         if self.parent:
             raise XMLParentError("Expected orphan")
         self.parent = parent
-        self.attach_to_doc()
+        try:
+            self.attach_to_doc()
+        except XMLIDClashError:
+            self.detach_from_parent()
+            raise
 
     @old_method('AttachToDocument')
     def attach_to_doc(self, doc=None):
-- 
2.43.0


From 30688d94c887e528a43190b549c68082ad532834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:12 +0000
Subject: [PATCH 147/148] fix: xml.structures: a document can be made from an
 element with identifiers

---
 pyslet/xml/structures.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyslet/xml/structures.py b/pyslet/xml/structures.py
index e9214d4..4bb8b45 100644
--- a/pyslet/xml/structures.py
+++ b/pyslet/xml/structures.py
@@ -586,6 +586,7 @@ class Document(Node):
         self.root = None
         """The root element or None if no root element has been created
         yet."""
+        self.idTable = {}
         if root:
             if isinstance(root, Element):
                 # created from an instance
@@ -593,14 +594,12 @@ class Document(Node):
                     raise ValueError(
                         "Element must be an orphan in Document constructor")
                 self.root = root
-                root.parent = self
-                self.root.attach_to_doc(self)
+                root.attach_to_parent(self)
             elif not issubclass(root, Element):
                 raise ValueError
             else:
                 self.root = root(self)
         self.set_base(base_uri)
-        self.idTable = {}
 
     def get_children(self):
         """Yields the root element"""
-- 
2.43.0


From 2ba6031c58c5a8765a4dc28b51075807cbaf308f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:20 +0000
Subject: [PATCH 148/148] fix: odata2.core: Entry.reset accepts reset_attrs
 like every element

---
 pyslet/odata2/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/odata2/core.py b/pyslet/odata2/core.py
index b4a109e..aea967a 100644
--- a/pyslet/odata2/core.py
+++ b/pyslet/odata2/core.py
@@ -3598,13 +3598,13 @@ class Entry(atom.Entry):
         if entity is not None:
             self.set_value(entity)
 
-    def reset(self):
+    def reset(self, reset_attrs=False):
         if self.Properties:
             self.Properties.detach_from_parent()
             self.Properties = None
         self.etag = None
         self._properties = {}
-        super(Entry, self).reset()
+        super(Entry, self).reset(reset_attrs)
 
     def get_children(self):
         """Replaces the implementation in atom.Entry completed so that
-- 
2.43.0

