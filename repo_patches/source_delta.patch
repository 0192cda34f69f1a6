From b6e9c5351072f1424bc2bd9f9f8969413ebca91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 01/48] fix: undo the changes of a failed insert, update or
 cascade delete in the in-memory store

---
 pyslet/pyslet/odata2/memds.py | 69 +++++++++++++++++++++++++++++++----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 304bab0..b7f2699 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -10,7 +10,7 @@ import pyslet.xmlnames20091208 as xmlns
 import pyslet.iso8601 as iso8601
 import pyslet.rfc2616 as http
 
-import string, hashlib, threading
+import string, hashlib, threading, contextlib
 
 			
 class InMemoryEntityStore(object):
@@ -73,6 +73,11 @@ class InMemoryEntityStore(object):
 			self.data[key]=tuple(value)
 			# At this point the entity exists
 			e.exists=True
+			self.container.LogUndo(self.UndoAdd,key,e)
+
+	def UndoAdd(self,key,e):
+		del self.data[key]
+		e.exists=False
 
 	def CountEntities(self):
 		with self.container.lock:
@@ -152,6 +157,7 @@ class InMemoryEntityStore(object):
 					elif isinstance(p,edm.SimpleValue):
 						value[i]=p.value
 				i=i+1
+			self.container.LogUndo(self.data.__setitem__,key,self.data[key])
 			self.data[key]=tuple(value)
 
 	def UpdateEntityStream(self,key,streamType,stream):
@@ -204,8 +210,10 @@ class InMemoryEntityStore(object):
 				associationIndex.DeleteHook(key)
 			for associationIndex in self.reverseAssociations.values():
 				associationIndex.ReverseDeleteHook(key)
+			self.container.LogUndo(self.data.__setitem__,key,self.data[key])
 			del self.data[key]
 			if key in self.streams:
+				self.container.LogUndo(self.streams.__setitem__,key,self.streams[key])
 				del self.streams[key]
 		
 	def NextKey(self):
@@ -272,6 +280,8 @@ class InMemoryAssociationIndex(object):
 	def AddLink(self,fromKey,toKey):
 		"""Adds a link from *fromKey* to *toKey*"""
 		with self.container.lock:
+			if toKey not in self.index.get(fromKey,()):
+				self.container.LogUndo(self.RemoveLink,fromKey,toKey)
 			self.index.setdefault(fromKey,set()).add(toKey)
 			self.reverseIndex.setdefault(toKey,set()).add(fromKey)
 
@@ -288,6 +298,8 @@ class InMemoryAssociationIndex(object):
 	def RemoveLink(self,fromKey,toKey):
 		"""Removes a link from *fromKey* to *toKey*"""
 		with self.container.lock:
+			if toKey in self.index.get(fromKey,()):
+				self.container.LogUndo(self.AddLink,fromKey,toKey)
 			self.index.get(fromKey,set()).discard(toKey)
 			self.reverseIndex.get(toKey,set()).discard(fromKey)
 		
@@ -296,6 +308,7 @@ class InMemoryAssociationIndex(object):
 		try:
 			toKeys=self.index[fromKey]
 			for toKey in toKeys:
+				self.container.LogUndo(self.AddLink,fromKey,toKey)
 				fromKeys=self.reverseIndex[toKey]
 				fromKeys.remove(fromKey)
 				if len(fromKeys)==0:
@@ -309,6 +322,7 @@ class InMemoryAssociationIndex(object):
 		try:
 			fromKeys=self.reverseIndex[toKey]
 			for fromKey in fromKeys:
+				self.container.LogUndo(self.AddLink,fromKey,toKey)
 				toKeys=self.index[fromKey]
 				toKeys.remove(toKey)
 				if len(toKeys)==0:
@@ -402,7 +416,7 @@ class EntityCollection(odata.EntityCollection):
 			# if the entity doesn't have a key, autogenerate one
 			key=self.entityStore.NextKey()
 			entity.SetKey(key)
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Atomic():
 			# This is a bit clumsy, but we lock the whole container while we
 			# check all constraints and perform any nested deletes 
 			if key in self:
@@ -438,7 +452,7 @@ class EntityCollection(odata.EntityCollection):
 	def UpdateEntity(self,entity):
 		# force an error if we don't have a key
 		key=entity.Key()
-		with self.entityStore.container.lock:
+		with self.entityStore.container.Atomic():
 			self.entityStore.UpdateEntity(entity)
 			# now process any bindings
 			self.UpdateBindings(entity)
@@ -447,6 +461,10 @@ class EntityCollection(odata.EntityCollection):
 		"""We do a cascade delete of everything that *must* be linked to
 		us. We don't need to bother about deleting links because the
 		delete hooks on entityStore do this automatically."""
+		with self.entityStore.container.Atomic():
+			self.CascadeDelete(key)
+
+	def CascadeDelete(self,key):
 		if not self.entityStore.StartDeletingEntity(key):
 			# we're already being deleted so do nothing
 			return
@@ -514,9 +532,10 @@ class NavigationCollection(odata.NavigationCollection):
 	def InsertEntity(self,entity):
 		"""Inserts a new *entity* into the target entity set *and*
 		simultaneously creates a link to it from the source entity."""
-		with self.entitySet.OpenCollection() as baseCollection:
-			baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
-			self[entity.Key()]=entity
+		with self.associationIndex.container.Atomic():
+			with self.entitySet.OpenCollection() as baseCollection:
+				baseCollection.InsertEntity(entity,fromEnd=self.fromEnd.otherEnd)
+				self[entity.Key()]=entity
 
 	def __len__(self):
 		if self.filter is None:
@@ -625,6 +644,8 @@ class InMemoryEntityContainer(object):
 		self.entityStorage={}				#: a mapping from entity set names to :py:class:`InMemoryEntityStore` instances
 		self.associationStorage={}			#: a mapping from association set name to :py:class:`InMemoryAssociationIndex` instances
 		# for each entity set in this container, bind some storage
+		self._undoLog=[]
+		self._depth=0
 		for es in self.containerDef.EntitySet:
 			self.entityStorage[es.name]=InMemoryEntityStore(self,es)
 		for es in self.containerDef.EntitySet:
@@ -644,4 +665,38 @@ class InMemoryEntityContainer(object):
 					if target is None:
 						raise edm.ModelIncomplete("Target of navigation property %s.%s is not bound to an entity set"%(es.name,np.name))
 					toStorage=self.entityStorage[target.name]
-					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
\ No newline at end of file
+					self.associationStorage[associationSet.name]=InMemoryAssociationIndex(self,associationSet,fromStorage,toStorage,np.name)
+
+	@contextlib.contextmanager
+	def Atomic(self):
+		"""Returns a context manager for making several changes as one.
+		
+		It holds the container's lock.  If an exception is raised in the
+		context all the changes made in it are undone."""
+		with self.lock:
+			mark=len(self._undoLog)
+			self._depth+=1
+			try:
+				yield
+			except:
+				undo=self._undoLog[mark:]
+				del self._undoLog[mark:]
+				# undo operations must not be logged themselves
+				depth,self._depth=self._depth,0
+				try:
+					for method,args in reversed(undo):
+						method(*args)
+				finally:
+					self._depth=depth
+				raise
+			finally:
+				self._depth-=1
+				if self._depth==0:
+					del self._undoLog[:]
+	
+	def LogUndo(self,method,*args):
+		"""Records a call that undoes a change about to be made.
+		
+		Must only be called if you have acquired the container lock."""
+		if self._depth:
+			self._undoLog.append((method,args))
-- 
2.43.0


From 8b98bd27d59ebc6b71015fb3238bbf2434426824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 02/48] fix: check the target and its existing links when
 replacing a link in the in-memory store

---
 pyslet/pyslet/odata2/memds.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index b7f2699..ae70dcf 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -618,8 +618,12 @@ class NavigationCollection(odata.NavigationCollection):
 			else:
 				self[key]=entity
 		else:
+			# forces a check of entity to ensure it is good
+			self.collection[key]=entity
 			# add the new link first
 			if key not in resultSet:
+				if self.fromMultiplicity!=edm.Multiplicity.Many and self.rLookupMethod(key):
+					raise edm.NavigationConstraintError("Entity %s is already bound through this association"%entity.GetLocation())
 				if self.reverse:
 					self.associationIndex.AddLink(key,self.key)
 				else:
-- 
2.43.0


From b87061abd5e9f22977dadcba8321ca4d005655e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:10 +0000
Subject: [PATCH 03/48] fix: clear the exists flag of an entity deleted with
 Entity.Delete

---
 pyslet/pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 89397a7..cd29ace 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2082,6 +2082,7 @@ class Entity(TypeInstance):
 		flag is set to False after deletion."""
 		with self.entitySet.OpenCollection() as collection:
 			del collection[self.Key()]
+		self.exists=False
 			
 	def Key(self):
 		"""Returns the entity key as a single python value or a tuple of
-- 
2.43.0


From 9a7d4c0b16fdeccc28c8e6aaac90edac320bdbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 04/48] fix: check and change links as one step in the
 in-memory store

Two threads could both pass the multiplicity checks and both add a link, link to
an entity that the other was deleting, or link from one already deleted.
---
 pyslet/pyslet/odata2/memds.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index ae70dcf..515aff9 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -10,7 +10,7 @@ import pyslet.xmlnames20091208 as xmlns
 import pyslet.iso8601 as iso8601
 import pyslet.rfc2616 as http
 
-import string, hashlib, threading, contextlib
+import string, hashlib, threading, contextlib, functools
 
 			
 class InMemoryEntityStore(object):
@@ -505,6 +505,16 @@ class EntityCollection(odata.EntityCollection):
 		finally:
 			self.entityStore.StopDeletingEntity(key)
 	
+def AcquireContainerLock(method):
+	"""Decorates a method of :py:class:`NavigationCollection` that checks
+	the links before it changes them."""
+	@functools.wraps(method)
+	def LockedMethod(self,*args,**kwArgs):
+		with self.associationIndex.container.lock:
+			return method(self,*args,**kwArgs)
+	return LockedMethod
+
+
 class NavigationCollection(odata.NavigationCollection):
 	
 	def __init__(self,associationIndex,reverse,**kwArgs):
@@ -570,7 +580,18 @@ class NavigationCollection(odata.NavigationCollection):
 				return result
 		raise KeyError(key)
 		
+	def CheckSource(self):
+		"""Checks that the source entity has not been deleted."""
+		if self.reverse:
+			sourceStore=self.associationIndex.toEntityStore
+		else:
+			sourceStore=self.associationIndex.fromEntityStore
+		if self.key not in sourceStore.data:
+			raise edm.NonExistentEntity("Attempt to link from a deleted entity: %s"%self.fromEntity.GetLocation())
+
+	@AcquireContainerLock
 	def __setitem__(self,key,value):
+		self.CheckSource()
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			# no operation
@@ -591,6 +612,7 @@ class NavigationCollection(odata.NavigationCollection):
 		else:
 			self.associationIndex.AddLink(self.key,key)
 	
+	@AcquireContainerLock
 	def __delitem__(self,key):
 		#	Before we remove a link we need to know if either entity
 		#	requires a link, if so, this deletion will result in a
@@ -605,7 +627,9 @@ class NavigationCollection(odata.NavigationCollection):
 		else:
 			self.associationIndex.RemoveLink(self.key,key)
 
+	@AcquireContainerLock
 	def Replace(self,entity):
+		self.CheckSource()
 		key=entity.Key()
 		resultSet=list(self.lookupMethod(self.key))
 		if resultSet==[key]:
-- 
2.43.0


From cabad53f385f03f4b09d07235ccc2a01251e2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 05/48] fix: generate the key of a new entity under the lock
 that inserts it

---
 pyslet/pyslet/odata2/memds.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 515aff9..19636b7 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -410,15 +410,15 @@ class EntityCollection(odata.EntityCollection):
 		suppress a constraint check (on the assumption that it has
 		already been checked) by passing *fromEnd* directly to
 		:py:meth:`Entity.CheckNavigationConstraints`."""
-		try:
-			key=entity.Key()
-		except KeyError:
-			# if the entity doesn't have a key, autogenerate one
-			key=self.entityStore.NextKey()
-			entity.SetKey(key)
 		with self.entityStore.container.Atomic():
 			# This is a bit clumsy, but we lock the whole container while we
 			# check all constraints and perform any nested deletes 
+			try:
+				key=entity.Key()
+			except KeyError:
+				# if the entity doesn't have a key, autogenerate one
+				key=self.entityStore.NextKey()
+				entity.SetKey(key)
 			if key in self:
 				raise edm.ConstraintError("%s already exists"%odata.ODataURI.FormatEntityKey(entity))
 			# Check constraints
-- 
2.43.0


From c089809c4fb38f17b3203ac85355ae31c5cf7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 06/48] fix: do not store a media stream for an entity that has
 been deleted

---
 pyslet/pyslet/odata2/memds.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 19636b7..56be4ad 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -162,6 +162,8 @@ class InMemoryEntityStore(object):
 
 	def UpdateEntityStream(self,key,streamType,stream):
 		with self.container.lock:
+			if key not in self.data:
+				raise KeyError(repr(key))
 			self.streams[key]=(streamType,stream)
 
 	def GetTupleFromComplex(self,complexValue):
-- 
2.43.0


From 28dd75744bf8930fc9a73552b81dc053d15dd99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 07/48] fix: skip entities deleted while iterating over a
 navigation collection

---
 pyslet/pyslet/odata2/memds.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index 56be4ad..a1b703c 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -563,7 +563,12 @@ class NavigationCollection(odata.NavigationCollection):
 		# we create a collection from the appropriate entity set first
 		resultSet=self.lookupMethod(self.key)
 		for k in resultSet:
-			yield self.collection[k]
+			try:
+				e=self.collection[k]
+			except KeyError:
+				# deleted since we got the links
+				continue
+			yield e
 		
 	def itervalues(self):
 		return self.OrderEntities(
-- 
2.43.0


From 4b5ad304830513411b7ccd56cb0d7646faf4da7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:54 +0000
Subject: [PATCH 08/48] fix: send the Content-Length of a media stream as a
 string, as WSGI requires

---
 pyslet/pyslet/odata2/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b49e765..b59eb9c 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -782,7 +782,7 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'media stream type refused, try application/octet-stream',406)
 		responseHeaders.append(("Content-Type",str(responseType)))
-		responseHeaders.append(("Content-Length",entity.GetStreamSize()))
+		responseHeaders.append(("Content-Length",str(entity.GetStreamSize())))
 		self.SetETag(entity,responseHeaders)
 		start_response("%i %s"%(200,"Success"),responseHeaders)
 		return entity.GetStreamGenerator()
-- 
2.43.0


From d3add5313cd7ce836f9cfd92156cd8a3b1332152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 09/48] fix: give no skip token when the page includes the last
 entity

---
 pyslet/pyslet/odata2/csdl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index cd29ace..b7f88c9 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -2811,6 +2811,7 @@ class EntityCollection(DictionaryLike):
 		finally:
 			self.paging=False
 		# no more pages
+		self.nextSkiptoken=None
 		if setNextPage:
 			self.top=self.skip=0
 			self.skiptoken=None
-- 
2.43.0


From 1d118712264477d60bbed27d9ad078a21b1df61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 10/48] fix: keep $top and $inlinecount in the next link of a
 page

---
 pyslet/pyslet/odata2/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 0c487b0..4602f91 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2395,6 +2395,11 @@ class EntityCollection(edm.EntityCollection):
 				sysQueryOptions[SystemQueryOption.select]=FormatSelect(self.select)
 			if self.orderby is not None:
 				sysQueryOptions[SystemQueryOption.orderby]=CommonExpression.OrderByToString(self.orderby)
+			if self.top is not None and self.topmax:
+				# only the rest of the requested entities
+				sysQueryOptions[SystemQueryOption.top]=unicode(self.top-self.topmax)
+			if self.inlineCount:
+				sysQueryOptions[SystemQueryOption.inlinecount]=u"allpages"
 			sysQueryOptions[SystemQueryOption.skiptoken]=unicode(token)
 			return uri.URIFactory.URI(str(baseURL)+"?"+ODataURI.FormatSysQueryOptions(sysQueryOptions))
 		else:
-- 
2.43.0


From 00c562546f89b61a6c2d9bef7941cdfeba267791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 11/48] fix: limit the page size of JSON responses too

---
 pyslet/pyslet/odata2/server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b59eb9c..4b77bf1 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -671,6 +671,9 @@ class Server(app.Server):
 		if responseType is None:
 			return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 		if responseType=="application/json":
+			if request.version>=2:
+				# version 1 responses can't include a next link
+				entities.TopMax(self.topmax)
 			data=str('{"d":%s}'%string.join(entities.GenerateEntitySetInJSON(request.version),''))
 		else:
 			# Here's a challenge, we want to pull data through the feed by yielding strings
-- 
2.43.0


From 6e2cf29fbe8f54d9bd931adbd80a734589ecef8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 12/48] fix: use the entity locations and the page options in
 XML lists of links

---
 pyslet/pyslet/odata2/server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 4b77bf1..b24d99c 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -627,9 +627,9 @@ class Server(app.Server):
 			data=str('{"d":%s}'%string.join(entities.GenerateLinkCollJSON(request.version),''))
 		else:
 			doc=Document(root=Links)
-			for e in entities.itervalues():
+			for e in entities.iterpage():
 				child=doc.root.ChildElement(URI)
-				child.SetValue(str(self.serviceRoot)+"%s(%s)"%(e.entitySet.name,repr(e.Key())))
+				child.SetValue(str(e.GetLocation()))
 			data=str(doc)
 		responseHeaders.append(("Content-Type",str(responseType)))
 		responseHeaders.append(("Content-Length",str(len(data))))
-- 
2.43.0


From 03bcd4a35f837acba22a886faf7542bc3ef510fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 13/48] fix: preserve the white space of string values in Atom

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 4602f91..b7edc99 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2660,7 +2660,11 @@ class Property(ODataElement):
 				# If we have no parent then we set the type attribute
 				self.SetAttribute((ODATA_METADATA_NAMESPACE,'type'),edm.SimpleType.EncodeValue(value.typeCode))				
 			if value:
-				ODataElement.SetValue(self,unicode(value))
+				data=unicode(value)
+				ODataElement.SetValue(self,data)
+				if xml.CollapseSpace(data)!=data:
+					# the white space is part of the value
+					self.SetSpace('preserve')
 			else:
 				self.SetAttribute((ODATA_METADATA_NAMESPACE,'null'),"true")
 		elif isinstance(value,edm.Complex):
-- 
2.43.0


From 3b61203c177aac10099c5d9b2e7ea823083e4cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 14/48] fix: expressions with unbalanced brackets, nested
 prefix operators and brackets around them

---
 pyslet/pyslet/odata2/core.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index b7edc99..99630f0 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1097,6 +1097,7 @@ class Parser(edm.Parser):
 		rightOp=None
 		opStack=[]
 		while True:
+			isPrefix=False
 			self.ParseWSP()
 			value=self.ParseURILiteral()
 			if value is not None:
@@ -1106,6 +1107,7 @@ class Parser(edm.Parser):
 				if name=="not":
 					self.RequireProduction(self.ParseWSP(),"WSP after not")
 					rightOp=UnaryExpression(Operator.boolNot)
+					isPrefix=True
 				elif name=="isof":
 					self.ParseWSP()
 					rightOp=self.RequireProduction(self.ParseCastLike(Operator.isof,"isof"),"isofExpression")
@@ -1122,9 +1124,10 @@ class Parser(edm.Parser):
 			if rightOp is None:
 				if self.Parse("("):
 					rightOp=self.RequireProduction(self.ParseCommonExpression(),"commonExpression inside parenExpression")
-					self.RequireProduction(self.Parse(")"),"closing bracket in parenExpression")
+					self.Require(")","closing bracket in parenExpression")
 				elif self.Parse("-"):
 					rightOp=UnaryExpression(Operator.negate)
+					isPrefix=True
 				elif leftOp:
 					# an operator waiting for an operand is an error
 					raise ValueError("Expected expression after %s in ...%s"%(Operator.EncodeValue(leftOp.operator),self.Peek(10)))
@@ -1132,7 +1135,7 @@ class Parser(edm.Parser):
 					# no common expression found at all
 					return None
 			# if we already have a (unary) operator, skip the search for a binary operator
-			if not isinstance(rightOp,UnaryExpression):
+			if not isPrefix:
 				operand=rightOp
 				self.ParseWSP()
 				if self.Parse("/"):
@@ -1171,7 +1174,7 @@ class Parser(edm.Parser):
 			# rightOp (an operator expression, never None)
 			# next job, determine who binds more tightly, left or right?
 			while True:
-				if leftOp is None or leftOp<rightOp:
+				if leftOp is None or isPrefix or leftOp<rightOp:
 					# bind the operand to the right, in cases of equal precedence we left associate 1+2-3 = (1+2)-3
 					if operand is not None:
 						rightOp.AddOperand(operand)
@@ -1192,7 +1195,7 @@ class Parser(edm.Parser):
 			
 	def ParseMethodCallExpression(self,methodCall):
 		method=CallExpression(methodCall)
-		self.RequireProduction(self.Parse("("),"opening bracket in methodCallExpression")
+		self.Require("(","opening bracket in methodCallExpression")
 		while True:
 			self.ParseWSP()
 			param=self.RequireProduction(self.ParseCommonExpression(),"methodCall argument")
@@ -1218,12 +1221,12 @@ class Parser(edm.Parser):
 				# first parameter omitted
 				stringParam=firstParam
 			else:
-				self.RequireProduction(self.Parse(","),"',' in %s"%name)
+				self.Require(",","',' in %s"%name)
 				self.ParseWSP()
 				stringParam=self.RequireProduction(self.ParseCommonExpression(),"%s argument"%name)
 				e.AddOperand(stringParam)
 				self.ParseWSP()
-				self.RequireProduction(self.Parse(")"),"')' after %s"%name)
+				self.Require(")","')' after %s"%name)
 			# Final check, the string parameter must be a string literal!
 			if not isinstance(stringParam,LiteralExpression) or stringParam.value.typeCode!=edm.SimpleType.String:
 				raise ValueError("%s requires string literal")
-- 
2.43.0


From 4f7ab1dc3ef4e5662af38b111850d915fe69899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:27 +0000
Subject: [PATCH 15/48] fix: properties called Time, Guid, Binary, X... can be
 used in expressions

---
 pyslet/pyslet/odata2/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 99630f0..6c83d57 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1464,6 +1464,10 @@ class Parser(edm.Parser):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
 			result.value=False
 			return result
+		elif name in ("datetimeoffset","datetime","time","binary","guid","x") and not self.Match("'"):
+			# without a quoted value this is just an identifier
+			self.SetPos(savePos)
+			return None
 		elif name=="datetimeoffset":
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.DateTimeOffset)
 			production="datetimeoffset literal"
-- 
2.43.0


From 38a993894ae25c59a5183c03bed59d8c65a9d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:28 +0000
Subject: [PATCH 16/48] fix: an expression that cannot be evaluated is the
 client's error

---
 pyslet/pyslet/odata2/core.py   | 5 ++++-
 pyslet/pyslet/odata2/server.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 6c83d57..b271fae 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -779,7 +779,10 @@ class PropertyExpression(CommonExpression):
 				if contextEntity.IsEntityCollection(self.name):
 					raise EvaluationError("%s navigation property must have cardinality of 1 or 0..1"%self.name)
 				else:
-					result=contextEntity[self.name]
+					try:
+						result=contextEntity[self.name]
+					except KeyError:
+						raise EvaluationError("Undefined property: %s"%self.name)
 					if isinstance(result,edm.DeferredValue):
 						result=result.GetEntity()
 					if result is None:
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index b24d99c..00864fb 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -226,6 +226,8 @@ class Server(app.Server):
 				return self.HandleRequest(request,environ,start_response,responseHeaders)
 		except InvalidSystemQueryOption,e:
 			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%str(e))
+		except EvaluationError,e:
+			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%str(e))
 		except InvalidPathOption,e:
 			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%str(e),400)			
 		except InvalidMethod,e:
-- 
2.43.0


From a6c8bfa7d1374f7e8f4998289e28b931e7c75b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 17/48] fix: not is no binary operator

---
 pyslet/pyslet/odata2/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index b271fae..0a87f64 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1150,7 +1150,7 @@ class Parser(edm.Parser):
 					if name is not None:
 						try:
 							opCode=Operator.DecodeValue(name)
-							if opCode in Operator.IsSpecial:
+							if opCode in Operator.IsSpecial or opCode==Operator.boolNot:
 								raise ValueError
 							rightOp=BinaryExpression(opCode)
 						except ValueError:
-- 
2.43.0


From 76512490acfd850ae5a9b2c1d7a0216749259ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 18/48] fix: members of simple values and of navigation
 properties that point to nothing

---
 pyslet/pyslet/odata2/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 0a87f64..aeefe75 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -789,11 +789,14 @@ class PropertyExpression(CommonExpression):
 						# The navigation property does not point to anything, return a generic null
 						result=edm.EDMValue.NewValue(None)
 					return result
-			elif self.name in contextEntity:
-				# contextEntity must be a complex value
+			elif isinstance(contextEntity,edm.Complex) and self.name in contextEntity:
 				return contextEntity[self.name]
 			else:
 				raise EvaluationError("Undefined property: %s"%self.name)
+		elif isinstance(contextEntity,edm.SimpleValue):
+			# a member of something that is null, for example, of a
+			# navigation property that does not point to anything
+			return edm.EDMValue.NewValue(None)
 		else:
 			raise EvaluationError("Evaluation of %s member: no entity in context"%self.name)	
 
-- 
2.43.0


From b392dadf1f42c621e7b4df5d9e131578af9061fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 19/48] fix: string, date and guid values are neither less nor
 greater than null

---
 pyslet/pyslet/odata2/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index aeefe75..e21525a 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -592,7 +592,11 @@ class BinaryExpression(CommonExpression):
 			return result
 		elif typeCode in (edm.SimpleType.String, edm.SimpleType.DateTime, edm.SimpleType.Guid):
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-			result.SetFromValue(relation(lValue.value,rValue.value))
+			if lValue and rValue:
+				result.SetFromValue(relation(lValue.value,rValue.value))
+			else:
+				# one of the operands is null => False
+				result.SetFromValue(False)
 			return result
 		elif typeCode is None:	# e.g., null lt null
 			result=edm.EDMValue.NewSimpleValue(edm.SimpleType.Boolean)
-- 
2.43.0


From 767e42c359ea9263e65f1f529fa387e781e2a668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 20/48] fix: negating an entity or complex value raises
 EvaluationError

---
 pyslet/pyslet/odata2/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index e21525a..ae58af4 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -332,6 +332,8 @@ class UnaryExpression(CommonExpression):
 		return self.EvalMethod[self.operator](self,rValue)
 
 	def EvaluateNegate(self,rValue):
+		if not isinstance(rValue,edm.SimpleValue):
+			raise EvaluationError("Illegal operand for negate")
 		typeCode=rValue.typeCode
 		if typeCode in (edm.SimpleType.Byte, edm.SimpleType.Int16):
 			rValue=rValue.SimpleCast(edm.SimpleType.Int32)
-- 
2.43.0


From d47c672892f88d307d883c151fbdf6818bd06497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 21/48] fix: exact division and remainder of Int64 and Decimal
 values

---
 pyslet/pyslet/odata2/core.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index ae58af4..fb0fce1 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -501,14 +501,17 @@ class BinaryExpression(CommonExpression):
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
 					# OData doesn't really specify integer division rules so
-					# we use floating point division and truncate towards zero
-					result.SetFromValue(int(float(lValue.value)/float(rValue.value)))
+					# we truncate towards zero
+					q=abs(lValue.value)//abs(rValue.value)
+					if (lValue.value<0)!=(rValue.value<0):
+						q=-q
+					result.SetFromValue(q)
 				return result
 			elif typeCode is None:	# null div null
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
 			else:
 				raise EvaluationError("Illegal operands for div")
-		except ZeroDivisionError as e:
+		except (ZeroDivisionError,decimal.InvalidOperation) as e:
 			raise EvaluationError(str(e))
 	
 	def EvaluateMod(self,lValue,rValue):
@@ -519,7 +522,11 @@ class BinaryExpression(CommonExpression):
 				rValue=rValue.SimpleCast(typeCode)
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
-					result.SetFromValue(math.fmod(lValue.value,rValue.value))
+					if typeCode==edm.SimpleType.Decimal:
+						# Decimal's remainder also takes the sign of the dividend
+						result.SetFromValue(lValue.value%rValue.value)
+					else:
+						result.SetFromValue(math.fmod(lValue.value,rValue.value))
 				return result
 			elif typeCode in (edm.SimpleType.Int32, edm.SimpleType.Int64):
 				lValue=lValue.SimpleCast(typeCode)
@@ -527,14 +534,17 @@ class BinaryExpression(CommonExpression):
 				result=edm.EDMValue.NewSimpleValue(typeCode)
 				if lValue and rValue:
 					# OData doesn't really specify integer division rules so
-					# we use floating point division and truncate towards zero
-					result.SetFromValue(int(math.fmod(float(lValue.value),float(rValue.value))))
+					# we truncate towards zero
+					r=abs(lValue.value)%abs(rValue.value)
+					if lValue.value<0:
+						r=-r
+					result.SetFromValue(r)
 				return result
 			elif typeCode is None:	# null div null
 				return edm.EDMValue.NewSimpleValue(edm.SimpleType.Int32)
 			else:
 				raise EvaluationError("Illegal operands for div")
-		except (ZeroDivisionError,ValueError) as e:
+		except (ZeroDivisionError,decimal.InvalidOperation,ValueError) as e:
 			raise EvaluationError(str(e))
 				
 	def EvaluateAdd(self,lValue,rValue):
-- 
2.43.0


From 3864726c92fdf54b9e098b5a9284c069ebac7c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 22/48] fix: Edm.SByte is a numeric type

---
 pyslet/pyslet/odata2/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index fb0fce1..a9e4f8b 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -58,6 +58,7 @@ NUMERIC_TYPES=(
 	edm.SimpleType.Int64,
 	edm.SimpleType.Int32,
 	edm.SimpleType.Int16,
+	edm.SimpleType.SByte,
 	edm.SimpleType.Byte)
 	
 def PromoteTypes(typeA,typeB):
@@ -88,7 +89,9 @@ def PromoteTypes(typeA,typeB):
 		return edm.SimpleType.Int32
 	elif edm.SimpleType.Int16 in (typeA,typeB):
 		return edm.SimpleType.Int16
-	# else must be both Byte - already got this case above	
+	else:
+		# SByte and Byte, both fit in Int16
+		return edm.SimpleType.Int16
 
 
 def CanCastMethodArgument(typeA,typeB):
@@ -335,7 +338,7 @@ class UnaryExpression(CommonExpression):
 		if not isinstance(rValue,edm.SimpleValue):
 			raise EvaluationError("Illegal operand for negate")
 		typeCode=rValue.typeCode
-		if typeCode in (edm.SimpleType.Byte, edm.SimpleType.Int16):
+		if typeCode in (edm.SimpleType.Byte, edm.SimpleType.SByte, edm.SimpleType.Int16):
 			rValue=rValue.SimpleCast(edm.SimpleType.Int32)
 		elif typeCode == edm.SimpleType.Single:
 			rValue=rValue.SimpleCast(edm.SimpleType.Double)
-- 
2.43.0


From 6e53a9c47d82c682e9fb001de260392f7164c496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 23/48] fix: printing an expression keeps its grouping

---
 pyslet/pyslet/odata2/core.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index a9e4f8b..a688166 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -326,6 +326,9 @@ class UnaryExpression(CommonExpression):
 		if rValue.operator is not None and rValue<self:
 			# right expression is weaker than us, use brackets
 			result="%s(%s)"%(op,unicode(rValue))
+		elif self.operator==Operator.negate and isinstance(rValue,LiteralExpression):
+			# use brackets to distinguish this from a negative literal
+			result="%s(%s)"%(op,unicode(rValue))
 		else:
 			result="%s%s"%(op,unicode(rValue))
 		return result
@@ -395,18 +398,21 @@ class BinaryExpression(CommonExpression):
 				op=","
 				opSuffix=")"
 			else:
-				raise ValueError("Can't format %s as a binary operator"&Operator.EncodeValue(self.operator))
+				raise ValueError("Can't format %s as a binary operator"%Operator.EncodeValue(self.operator))
 		else:
 			op=u" %s "%Operator.EncodeValue(self.operator)
 		lValue=self.operands[0]
+		if len(self.operands)==1:
+			# isof and cast with an implied first operand
+			return string.join((opPrefix,unicode(lValue),opSuffix),'')
 		rValue=self.operands[1]
 		if lValue.operator is not None and lValue<self:
 			# left expression is weaker than us, use brackets
 			lValue="(%s)"%unicode(lValue)
 		else:
 			lValue=unicode(lValue)
-		if rValue.operator is not None and rValue<self:
-			# right expression is weaker than us, use brackets
+		if rValue.operator is not None and rValue<=self:
+			# right expression is no stronger than us, use brackets
 			rValue="(%s)"%unicode(rValue)
 		else:
 			rValue=unicode(rValue)
-- 
2.43.0


From 334d3cbe164a7976b8ab44dc150b4ba4dc642421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 24/48] fix: fractions of seconds are not lost when a property
 declares no precision

---
 pyslet/pyslet/odata2/csdl.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index b7f88c9..29bdee9 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -717,6 +717,16 @@ class Parser(xsi.BasicParser):
 		return value
 	
 
+def FractionDigits(second):
+	"""Returns the number of decimal places, at most 7, required to
+	represent the seconds component of a time without loss."""
+	if type(second) is not FloatType:
+		return 0
+	# see GetString in iso8601.Time for the treatment of machine rounding
+	digits="%07i"%math.floor((math.modf(second)[0]+2e-13)*1e7)
+	return len(digits.rstrip("0"))
+
+	
 class EDMValue(object):
 	"""Abstract class to represent a value in the EDMModel.
 	
@@ -1111,7 +1121,7 @@ class DateTimeValue(SimpleValue):
 			# check the precision before formatting
 			precision=self.pDef.precision
 		if precision is None:
-			precision=0
+			precision=FractionDigits(self.value.time.second)
 		return self.value.GetCalendarString(ndp=precision,dp=u".")
 
 	def SetFromLiteral(self,value):
@@ -1170,7 +1180,7 @@ class DateTimeOffsetValue(SimpleValue):
 			# check the precision before formatting
 			precision=self.pDef.precision
 		if precision is None:
-			precision=0
+			precision=FractionDigits(self.value.time.second)
 		result=self.value.GetCalendarString(ndp=precision,dp=u".")
 		if result[-1]=="Z":
 			# the specification is not clear if the Z form is supported, use numbers for safety
@@ -1229,7 +1239,7 @@ class TimeValue(SimpleValue):
 			# check the precision before formatting
 			precision=self.pDef.precision
 		if precision is None:
-			precision=0
+			precision=FractionDigits(self.value.second)
 		return self.value.GetString(ndp=precision,dp=u".")
 
 	def SetFromLiteral(self,value):
-- 
2.43.0


From 630f607ed75a886ac344fffd5f2a8c8d3e4f3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:55 +0000
Subject: [PATCH 25/48] fix: the literal form of a floating-point value is
 exact and can be parsed

---
 pyslet/pyslet/odata2/csdl.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 29bdee9..734691a 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -1342,7 +1342,14 @@ class FloatValue(NumericValue):
 	:py:class:`DoubleValue` only differ in the Max value used
 	when range checking.
 	
-	Values are formatted using Python's default unicode conversion."""
+	Values are formatted with enough digits to recover the same value,
+	using the exponent form defined by the CSDL when necessary."""
+	def __unicode__(self):
+		if self.value is None:
+			raise ValueError("%s is Null"%self.name)
+		# positive exponents have no sign in the literal form
+		return unicode(repr(self.value).replace("e+","e"))
+		
 	def SetFromValue(self,newValue):
 		if newValue is None:
 			self.value=None
@@ -1425,6 +1432,13 @@ class SingleValue(FloatValue):
 	unusual environment."""
 	# Min=2.0**-149				#: the smallest positive single value
 
+	def __unicode__(self):
+		result=super(SingleValue,self).__unicode__()
+		if "e" in result and len(result)>10:
+			# the exponent form is limited to 9 digits
+			result=unicode(("%.8e"%self.value).replace("e+","e"))
+		return result
+
 	def SetFromNumericLiteral(self,numericValue):
 		"""Decodes a Single value from a :py:class:`Numeric` literal."""
 		dStr=self.JoinNumericLiteral(numericValue)
-- 
2.43.0


From 36747b65c0f8461a99c9547e0c755bc8eb070ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 26/48] fix: key predicates with escaped characters, commas or
 equals signs in string keys

---
 pyslet/pyslet/odata2/core.py | 41 ++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index a688166..ce0f964 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1979,30 +1979,29 @@ class ODataURI:
 		if segment.startswith('$'):
 			# some type of control word
 			return segment,None
-		elif '(' in segment and segment[-1]==')':
-			name=uri.UnescapeData(segment[:segment.index('(')]).decode('utf-8')
+		segment=uri.UnescapeData(segment).decode('utf-8')
+		if '(' in segment and segment[-1]==')':
+			name=segment[:segment.index('(')]
 			keys=segment[segment.index('(')+1:-1]
 			if keys=='':
-				keys=[]
-			else:
-				keys=keys.split(',')
-			if len(keys)==0:
 				return name,{}
-			elif len(keys)==1 and '=' not in keys[0]:
-				return name,{u'':ParseURILiteral(keys[0])}
-			else:
-				keyPredicate={}
-				for k in keys:
-					nv=k.split('=')
-					if len(nv)!=2:
-						raise ValueError("unrecognized key predicate: %s"%repr(keys))
-					kname,value=nv
-					kname=uri.UnescapeData(kname).decode('utf-8')
-					kvalue=ParseURILiteral(value)
-					keyPredicate[kname]=kvalue
-				return name,keyPredicate
-		else:
-			return uri.UnescapeData(segment).decode('utf-8'),None
+			# string literals may contain anything, including ',' and '='
+			p=Parser(keys)
+			kname=p.ParseSimpleIdentifier()
+			if kname is None or not p.Match('='):
+				# a single, unnamed, value
+				return name,{u'':ParseURILiteral(keys)}
+			keyPredicate={}
+			while True:
+				p.Require('=',"key predicate")
+				keyPredicate[kname]=p.RequireProduction(p.ParseURILiteral(),"uri literal")
+				if not p.Parse(','):
+					break
+				kname=p.RequireProduction(p.ParseSimpleIdentifier(),"key predicate")
+			p.RequireEnd("key predicate")
+			return name,keyPredicate
+		else:
+			return segment,None
 	
 	def GetParamValue(self,paramName):
 		if paramName in self.paramTable:
-- 
2.43.0


From 96f3addae0df98b8b68f9effdb8fe11b3d162742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 27/48] fix: escape the decoded WSGI path before reading it as
 a URI

---
 pyslet/pyslet/odata2/server.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 00864fb..86ad05d 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -188,7 +188,7 @@ class Server(app.Server):
 			if version is None:
 				return self.ODataError(ODataURI('error'),environ,start_response,"DataServiceVersionMismatch","Maximum supported protocol version: 2.0")
 			appPath=environ.get('SCRIPT_NAME',"")
-			path=appPath+environ['PATH_INFO']
+			path=self.EscapePath(appPath+environ['PATH_INFO'])
 			query=environ.get('QUERY_STRING',None)
 			if query is not None:
 				path=path+'?'+query
@@ -242,6 +242,23 @@ class Server(app.Server):
 			# return self.HandleError(ODataURI('error'),environ,start_response)
 			return self.ODataError(ODataURI('error'),environ,start_response,"UnexpectedError","%s: %s"%(eInfo[0],eInfo[1]),500)
 
+	@staticmethod
+	def EscapePath(path):
+		"""Returns *path*, as passed in the WSGI environment, URI-escaped.
+		
+		WSGI servers pass us the path *after* URI-escaping has been
+		removed.  A slash inside a quoted string in a key predicate is
+		data rather than a path separator and is escaped too."""
+		result=[]
+		quoted=False
+		for segment in path.split('/'):
+			if result:
+				result.append("%2F" if quoted else '/')
+			result.append(uri.EscapeData(segment,lambda c:c in ";?"))
+			if segment.count("'")%2:
+				quoted=not quoted
+		return string.join(result,'')
+		
 	def ODataError(self,request,environ,start_response,subCode,message='',code=400):
 		"""Generates and ODataError, typically as the result of a bad request."""
 		responseHeaders=[]
-- 
2.43.0


From 4085bfb23bf7dabeae86d1d602add76dc71663a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 28/48] fix: reading and writing DateTimeOffset, fractional
 seconds and early dates in JSON

---
 pyslet/pyslet/odata2/core.py | 72 +++++++++++++++++++-----------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index ce0f964..ec6c5c1 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2331,6 +2331,24 @@ def ReadEntityPropertyInJSON1(simpleValue,obj):
 def EntityPropertyInJSON(simpleValue):
 	return "%s:%s"%(json.dumps(simpleValue.pDef.name),EntityPropertyValueInJSON(simpleValue))
 
+def TicksFromTimePoint(tp):
+	"""Returns the number of milliseconds from 1970-01-01T00:00:00 to
+	the local time of *tp*"""
+	return (tp.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(round(tp.time.GetTotalSeconds()*1000))
+
+def TimePointFromTicks(ticks,zDir=None,zOffset=0):
+	"""The reverse of :py:func:`TicksFromTimePoint`, with the given time
+	zone."""
+	days,ticks=divmod(ticks,TICKS_PER_DAY)
+	seconds,ms=divmod(ticks,1000)
+	second=int(seconds%60)
+	if ms:
+		second=second+ms/1000.0
+	t=iso.Time(hour=int(seconds//3600),minute=int(seconds//60%60),second=second)
+	if zDir is not None:
+		t=t.WithZone(zDir,zOffset//60,zOffset%60)
+	return iso.TimePoint(date=iso.Date(absoluteDay=BASE_DAY+days),time=t)
+
 def EntityPropertyValueInJSON(v):
 	if not v:
 		return 'null'
@@ -2342,20 +2360,18 @@ def EntityPropertyValueInJSON(v):
 		return unicode(v)
 	elif isinstance(v,edm.DateTimeValue):
 		# a strange format based on ticks, by definition, DateTime has no offset
-		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(v.value.time.GetTotalSeconds()*1000)
-		return json.dumps("/Date(%i)/"%ticks)
+		return json.dumps("/Date(%i)/"%TicksFromTimePoint(v.value))
 	elif isinstance(v,(edm.DecimalValue,edm.DoubleValue,edm.GuidValue,edm.Int64Value,edm.SingleValue,edm.StringValue,edm.TimeValue)):
 		# just use the literal form as a json string
 		return json.dumps(unicode(v))
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
-		# a strange format based on ticks, by definition, DateTime has no offset
-		ticks=(v.value.date.GetAbsoluteDay()-BASE_DAY)*TICKS_PER_DAY+int(v.value.time.GetTotalSeconds()*1000)
-		dir,offset=v.GetZone()
-		if dir>0:
-			s=u"+"
-		else:
+		# a strange format based on ticks, the offset is in minutes
+		dir,offset=v.value.GetZone()
+		if dir<0:
 			s=u"-"
-		return json.dumps("/Date(%i%s%04i)/"%(ticks,s,offset))
+		else:
+			s=u"+"
+		return json.dumps("/Date(%i%s%04i)/"%(TicksFromTimePoint(v.value),s,offset))
 	else:
 		raise ValueError("SimpleValue: %s"%repr(v))
 		
@@ -2371,10 +2387,7 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 		v.SetFromValue(jsonValue)
 	elif isinstance(v,edm.DateTimeValue):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
-			ticks=int(jsonValue[6:-2])
-			t,overflow=iso.Time().Offset(seconds=ticks/1000.0)
-			d=iso.Date(absoluteDay=BASE_DAY+overflow)
-			v.SetFromValue(iso.TimePoint(date=d,time=t))
+			v.SetFromValue(TimePointFromTicks(int(jsonValue[6:-2])))
 		else:
 			raise ValueError("Illegal value for DateTime: %s"%jsonValue)		
 	elif isinstance(v,(edm.DecimalValue,edm.DoubleValue,edm.GuidValue,edm.Int64Value,edm.SingleValue,edm.StringValue,edm.TimeValue)):
@@ -2382,26 +2395,19 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 		v.SetFromLiteral(jsonValue)
 	elif isinstance(v,(edm.DateTimeOffsetValue)):
 		if jsonValue.startswith("/Date(") and jsonValue.endswith(")/"):
-			ticks=int(jsonValue[6:-2])
-			if '+' in ticks:
-				# split by +
-				ticks=ticks.split('+')
-				zDir=1
-			elif '-' in ticks:
-				# split by -
-				ticks=ticks.split('-')
-				zDir=-1
-			else:
-				zDir=0
-			if zDir:
-				if len(ticks)!=2:
-					raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)
-				zOffset=int(ticks[1])
-			else:
-				zOffset=0
-			t,overflow=Time().Offset(seconds=int(ticks[0])/1000.0).WithZone(zDir,zOffset//60,zOffset%60)
-			d=Date(absoluteDay=BASE_DAY+overflow)
-			v.SetFromValue(iso.TimePoint(date=d,time=t))
+			ticks=jsonValue[6:-2]
+			zDir=0
+			zOffset=0
+			# the ticks themselves may be negative
+			for sign,signDir in (('+',1),('-',-1)):
+				pos=ticks.rfind(sign)
+				if pos>0:
+					zOffset=int(ticks[pos+1:])
+					if zOffset:
+						zDir=signDir
+					ticks=ticks[:pos]
+					break
+			v.SetFromValue(TimePointFromTicks(int(ticks),zDir,zOffset))
 		else:
 			raise ValueError("Illegal value for DateTimeOffset: %s"%jsonValue)			
 	else:
-- 
2.43.0


From b9029dcffd3d6a4345b2a382f09014212fc3ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:06 +0000
Subject: [PATCH 29/48] fix: relative addresses in the body of link requests

---
 pyslet/pyslet/odata2/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 86ad05d..ca29fae 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -288,7 +288,7 @@ class Server(app.Server):
 		identify an enity set, entity, complex or simple value."""
 		if not href.IsAbsolute():
 			# resolve relative to the service root
-			href=URIFactory.Resolve(self.serviceRoot,href)
+			href=uri.URIFactory.Resolve(self.serviceRoot,href)
 		# check the canonical roots
 		if not self.serviceRoot.GetCanonicalRoot().Match(href.GetCanonicalRoot()):
 			# This isn't even for us
-- 
2.43.0


From 24dc4e124e26a7cb4346bbeb3a4a1ec2e7642022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 30/48] fix: malformed dates and URIs raise a kind of
 ValueError

---
 pyslet/pyslet/iso8601.py | 6 ++++--
 pyslet/pyslet/rfc2234.py | 2 +-
 pyslet/pyslet/rfc2396.py | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 6310356..7a1889d 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -36,7 +36,7 @@ import time as pytime
 
 from pyslet.rfc2234 import RFC2234CoreParser, IsDIGIT
 
-class DateTimeError(Exception): pass
+class DateTimeError(ValueError): pass
 
 class TimeZoneSyntaxError(DateTimeError):
 	def __init__ (self,zoneStr):
@@ -2671,7 +2671,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		d,df=self.ParseDateFormat(base)
 		if not d.Complete():
 			raise DateTimeError("incomplete date in time point %s"%str(d))
-		if self.theChar not in tDesignators:
+		if self.theChar is None or self.theChar not in tDesignators:
 			raise DateTimeError("time-point requires time %s..."%str(d))
 		tDesignator=self.theChar
 		t,overflow,tf=self.ParseTimeFormat(None,tDesignators)
@@ -2843,6 +2843,8 @@ class ISO8601Parser(RFC2234CoreParser):
 						return Date(year=v1,week=v2,weekday=v3,base=base),"-YWwwD"
 					else:
 						return Date(year=v1,week=v2,base=base),"-YWww"
+				else:
+					self.SyntaxError("expected digit, hyphen or W in truncated ISO date")
 			elif self.theChar=="-":
 				self.NextChar()
 				if IsDIGIT(self.theChar):
diff --git a/pyslet/pyslet/rfc2234.py b/pyslet/pyslet/rfc2234.py
index 4f9aee6..3201a8b 100644
--- a/pyslet/pyslet/rfc2234.py
+++ b/pyslet/pyslet/rfc2234.py
@@ -37,7 +37,7 @@ READ_BUFFER_SIZE=65536
 class RFC2234Error(Exception):pass
 class RFC2234RuleError (RFC2234Error):pass
 
-class RFCParserError(Exception):	
+class RFCParserError(ValueError):	
 	def __init__(self,str,lineNum=None,linePos=None):
 		Exception.__init__(self,str)
 		self.lineNum=lineNum
diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index 07c79ff..aed96b2 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -9,7 +9,7 @@ from pyslet.rfc1738 import *
 import pyslet.vfs as vfs
 
 
-class URIException(Exception): pass
+class URIException(ValueError): pass
 class URIRelativeError(URIException): pass
 
 
-- 
2.43.0


From bd24018fd188ffbc8e9072741852dfa40faa1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 31/48] fix: malformed time and guid literals

---
 pyslet/pyslet/odata2/csdl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index 734691a..aa1fdb7 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -603,7 +603,7 @@ class Parser(xsi.BasicParser):
 			if self.Parse(":"):
 				second=self.RequireProduction(self.ParseInteger(0,60,2),"second")
 				if self.Parse("."):
-					nano=self.ParseDigits(1,7)
+					nano=self.RequireProduction(self.ParseDigits(1,7),"nanoSeconds")
 					second+=float("0."+nano)					
 			else:
 				second=0
@@ -629,13 +629,13 @@ class Parser(xsi.BasicParser):
 			# dddddddd-dddd-dddd-dddd-dddddddddddd where each d represents [A-Fa-f0-9]
 			guid=[]
 			guid.append(self.RequireProduction(self.ParseHexDigits(8,8),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(4,4),production))
-			self.RequireProduction(self.Parse('-'))
+			self.Require('-',production)
 			guid.append(self.RequireProduction(self.ParseHexDigits(12,12),production))
 			value=uuid.UUID(string.join(guid,''))
 		except ValueError:
@@ -703,7 +703,7 @@ class Parser(xsi.BasicParser):
 			if self.Parse(":"):
 				second=self.RequireProduction(self.ParseInteger(0,60,2),"second")
 				if self.Parse("."):
-					nano=self.ParseDigits(1,7)
+					nano=self.RequireProduction(self.ParseDigits(1,7),"nanoSeconds")
 					second+=float("0."+nano)					
 			else:
 				second=0
-- 
2.43.0


From 631fbbb308ca0e26263291cc4b575367e9d8cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 32/48] fix: in-memory entity sets only accept entities with
 legal values

---
 pyslet/pyslet/odata2/memds.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index a1b703c..b4cc3dc 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -58,12 +58,30 @@ class InMemoryEntityStore(object):
 		else:
 			self.associations[associationIndex.name]=associationIndex
 			
+	def CheckFacets(self,typeInstance,selected=None):
+		"""Raises ConstraintError if the values of *typeInstance*, an
+		entity or a complex value, break the Nullable or MaxLength
+		facets of their definitions.
+		
+		*selected* limits the check to properties with these names."""
+		for p in typeInstance.typeDef.Property:
+			if selected is not None and p.name not in selected:
+				continue
+			v=typeInstance[p.name]
+			if isinstance(v,edm.Complex):
+				self.CheckFacets(v)
+			elif v.value is None:
+				if not p.nullable:
+					raise edm.ConstraintError("%s must not be null"%p.name)
+			elif p.maxLength>0 and len(v.value)>p.maxLength:
+				raise edm.ConstraintError("%s must not be longer than %i"%(p.name,p.maxLength))
+
 	def AddEntity(self,e):
+		self.CheckFacets(e)
 		key=e.Key()
 		value=[]
 		for pName in e.DataKeys():
-			if not e.Selected(pName):
-				continue
+			# unselected properties have been set to NULL
 			p=e[pName]
 			if isinstance(p,edm.Complex):
 				value.append(self.GetTupleFromComplex(p))
@@ -146,6 +164,7 @@ class InMemoryEntityStore(object):
 	def UpdateEntity(self,e):
 		# e is an EntityTypeInstance, we need to convert it to a tuple
 		key=e.Key()
+		self.CheckFacets(e,filter(e.Selected,e.DataKeys()))
 		with self.container.lock:
 			value=list(self.data[key])		
 			i=0
@@ -224,10 +243,10 @@ class InMemoryEntityStore(object):
 			if self.nextKey is None:
 				kps=list(self.entitySet.keys)
 				if len(kps)!=1:
-					raise KeyError("Can't get next value of compound key")
+					raise edm.ConstraintError("Can't get next value of compound key")
 				key=self.entitySet.entityType[kps[0]]()
 				if not isinstance(key,edm.NumericValue):
-					raise KeyError("Can't get next value non-integer key")
+					raise edm.ConstraintError("Can't get next value non-integer key")
 				keys=self.data.keys()
 				if keys:
 					keys.sort()
-- 
2.43.0


From 6f8c95e240d37724ddc5787640bd4fc2d8e172a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 33/48] fix: malformed requests are refused with a 4xx status
 before anything is changed

---
 pyslet/pyslet/odata2/core.py   |  78 ++++++++++++++++-----
 pyslet/pyslet/odata2/server.py | 124 +++++++++++++++++++++++----------
 2 files changed, 151 insertions(+), 51 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index ec6c5c1..e4bcdf5 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -1602,7 +1602,7 @@ def ParseDataServiceVersion(src):
 		major=int(v[0])
 		minor=int(v[1])
 	else:
-		raise SyntaxError("Expected data service version, found %s"%versionStr)
+		raise http.SyntaxError("Expected data service version, found %s"%versionStr)
 	if p.ParseSeparator(";"):
 		while p.cWord is not None:
 			t=p.ParseToken()
@@ -1630,9 +1630,9 @@ def ParseMaxDataServiceVersion(src):
 			major=int(v[0])
 			minor=int(v[1])
 		else:
-			raise SyntaxError("Expected max data service version, found %s"%versionStr)
+			raise http.SyntaxError("Expected max data service version, found %s"%versionStr)
 	else:
-		raise SyntaxError("Expected max data service version")
+		raise http.SyntaxError("Expected max data service version")
 	uaStr=string.join(src[1:],';')
 	return major,minor,uaStr	
 
@@ -2075,6 +2075,7 @@ class Entity(edm.Entity):
 	def SetFromJSONObject(self,obj,entityResolver=None,forUpdate=False):
 		"""Sets the value of this entity from a dictionary parsed from a
 		JSON representation."""
+		CheckJSONObject(obj)
 		for k,v in self.DataItems():
 			if k in obj:
 				if isinstance(v,edm.SimpleValue):
@@ -2083,7 +2084,7 @@ class Entity(edm.Entity):
 					# assume a complex value then
 					ReadEntityCTValue(v,obj[k])
 			else:
-				v.SetFromValue(None)
+				SetNull(v)
 		if self.exists==False:
 			# we need to look for any link bindings
 			for navProperty in self.NavigationKeys():
@@ -2093,12 +2094,14 @@ class Entity(edm.Entity):
 				if not self.IsEntityCollection(navProperty):
 					# wrap singletons for convenience
 					links=(links,)
+				elif not isinstance(links,ListType):
+					raise InvalidData("Expected array of entities or links for %s"%navProperty)
 				targetSet=self.entitySet.NavigationTarget(navProperty)
 				with targetSet.OpenCollection() as collection:
 					for link in links:
-						if len(link)==1 and '__metadata' in link:
+						if len(CheckJSONObject(link))==1 and '__metadata' in link:
 							# bind to an existing entity
-							href=uri.URIFactory.URI(link['__metadata']['uri'])
+							href=LinkFromJSON(link)
 							if entityResolver is not None:
 								if not href.IsAbsolute():
 									#	we'll assume that the base URI is the
@@ -2125,10 +2128,10 @@ class Entity(edm.Entity):
 					# missing or can't be updated these this way
 					continue
 				link=obj[navProperty]
-				if '__metadata' in link:
+				if '__metadata' in CheckJSONObject(link):
 					targetSet=self.entitySet.NavigationTarget(navProperty)
 					# bind to an existing entity
-					href=uri.URIFactory.URI(link['__metadata']['uri'])
+					href=LinkFromJSON(link)
 					if entityResolver is not None:
 						if not href.IsAbsolute():
 							#	we'll assume that the base URI is the
@@ -2270,6 +2273,30 @@ class Entity(edm.Entity):
 		return '{"uri":%s}'%json.dumps(str(self.GetLocation()))
 
 
+def CheckJSONObject(obj):
+	"""Raises :py:class:`InvalidData` if *obj*, parsed from a JSON
+	representation, is not an object.  Otherwise returns *obj*."""
+	if not isinstance(obj,DictType):
+		raise InvalidData("Expected JSON object, found %s"%repr(obj)[:256])
+	return obj
+	
+def LinkFromJSON(link):
+	"""Returns the URI of the link object, *link*, parsed from a JSON
+	representation."""
+	href=CheckJSONObject(link['__metadata']).get('uri',None)
+	if not isinstance(href,basestring):
+		raise InvalidData("Expected uri in __metadata: %s"%repr(link)[:256])
+	return uri.URIFactory.URI(href)
+
+def SetNull(value):
+	"""Sets *value* to NULL.  Complex values can't be NULL themselves,
+	instead all their properties are."""
+	if isinstance(value,edm.Complex):
+		for k,v in value.iteritems():
+			SetNull(v)
+	else:
+		value.SetFromValue(None)
+
 def EntityCTInJSON2(complexValue):
 	"""Return a version 2 JSON complex entity."""
 	return '{"results":%s}'%EntityCTInJSON(complexValue)
@@ -2301,6 +2328,7 @@ def EntityCTValueToJSON(complexValue):
 	return "{%s}"%string.join(result,',')
 
 def ReadEntityCTValue(complexValue,obj):
+	CheckJSONObject(obj)
 	for k,v in complexValue.iteritems():
 		if k in obj:
 			if isinstance(v,edm.SimpleValue):
@@ -2308,7 +2336,7 @@ def ReadEntityCTValue(complexValue,obj):
 			else:
 				ReadEntityCTValue(v,obj[k])
 		else:
-			v.SetFromValue(None)
+			SetNull(v)
 	
 
 TICKS_PER_DAY=86400000
@@ -2381,8 +2409,20 @@ def ReadEntityPropertyValueInJSON(v,jsonValue):
 	to reflect the parsed value."""
 	if jsonValue is None:
 		v.SetFromValue(None)
-	elif isinstance(v,edm.BinaryValue):
-		v.SetFromValue(base64.b64decode(jsonValue))
+		return
+	if isinstance(v,edm.BooleanValue):
+		legal=isinstance(jsonValue,BooleanType)
+	elif isinstance(v,(edm.ByteValue,edm.Int16Value,edm.Int32Value,edm.SByteValue)):
+		legal=isinstance(jsonValue,(IntType,LongType)) and not isinstance(jsonValue,BooleanType)
+	else:
+		legal=isinstance(jsonValue,basestring)
+	if not legal:
+		raise InvalidData("Illegal JSON value for %s: %s"%(v.pDef.name if v.pDef else "property",repr(jsonValue)[:256]))
+	if isinstance(v,edm.BinaryValue):
+		try:
+			v.SetFromValue(base64.b64decode(jsonValue))
+		except TypeError:
+			raise InvalidData("Illegal base64 data: %s"%repr(jsonValue)[:256])
 	elif isinstance(v,(edm.BooleanValue,edm.ByteValue,edm.Int16Value,edm.Int32Value,edm.SByteValue)):
 		v.SetFromValue(jsonValue)
 	elif isinstance(v,edm.DateTimeValue):
@@ -2474,7 +2514,11 @@ class EntityCollection(edm.EntityCollection):
 	
 	def CalculateOrderKey(self,entity,orderObject):
 		"""Evaluates orderObject as an instance of py:class:`CommonExpression`."""
-		return orderObject.Evaluate(entity).value					
+		value=orderObject.Evaluate(entity)
+		if not isinstance(value,edm.SimpleValue):
+			raise EvaluationError("$orderby requires a simple value")
+		# NULL comes first, not all types can be compared to None
+		return (value.value is not None,value.value)
 
 	def GenerateEntitySetInJSON(self,version=2):
 		"""Generates JSON serialised form of this collection."""
@@ -3045,7 +3089,7 @@ class Entry(atom.Entry):
 					selected.add(k)
 				else:
 					# Property is not selected!
-					v.SetFromValue(None)
+					SetNull(v)
 					unselected.add(k)
 		# Now set this entity's select property...
 		if not unselected:
@@ -3055,7 +3099,7 @@ class Entry(atom.Entry):
 		if entity.exists==False:
 			# we need to look for any link bindings
 			for link in self.Link:
-				if not link.rel.startswith(ODATA_RELATED):
+				if link.rel is None or link.href is None or not link.rel.startswith(ODATA_RELATED):
 					continue
 				navProperty=link.rel[len(ODATA_RELATED):]
 				if not entity.IsNavigationProperty(navProperty):
@@ -3065,6 +3109,8 @@ class Entry(atom.Entry):
 				if link.Inline is not None:
 					with targetSet.OpenCollection() as collection:
 						if entity.IsEntityCollection(navProperty):
+							if link.Inline.Feed is None:
+								continue
 							for entry in link.Inline.Feed.FindChildrenDepthFirst(Entry,subMatch=False):
 								# create a new entity from the target entity set
 								targetEntity=collection.NewEntity()
@@ -3094,7 +3140,7 @@ class Entry(atom.Entry):
 		elif forUpdate:
 			# we need to look for any updated link bindings
 			for link in self.Link:
-				if not link.rel.startswith(ODATA_RELATED):
+				if link.rel is None or link.href is None or not link.rel.startswith(ODATA_RELATED):
 					continue
 				navProperty=link.rel[len(ODATA_RELATED):]
 				if not entity.IsNavigationProperty(navProperty) or entity[navProperty].isCollection:
@@ -3120,7 +3166,7 @@ class Entry(atom.Entry):
 		else:
 			# entity exists, look to see if it has been expanded
 			for link in self.Link:
-				if not link.rel.startswith(ODATA_RELATED):
+				if link.rel is None or link.href is None or not link.rel.startswith(ODATA_RELATED):
 					continue
 				navProperty=link.rel[len(ODATA_RELATED):]
 				if not entity.IsNavigationProperty(navProperty):
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index ca29fae..8c50c73 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -2,7 +2,7 @@
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
 from types import *
-import sys, cgi, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
+import sys, cgi, codecs, contextlib, urllib, string, itertools, traceback, StringIO, json, base64, decimal, uuid, math, warnings, logging
 
 import pyslet.info as info
 import pyslet.iso8601 as iso
@@ -21,6 +21,16 @@ from core import *
 import metadata as edmx
 	
 					
+def ErrorText(e):
+	"""Returns the message of exception *e* as a unicode string that
+	contains legal XML characters only."""
+	try:
+		text=unicode(e)
+	except UnicodeError:
+		text=repr(e).decode('ascii')
+	return string.join(map(lambda c:c if xml.IsChar(c) else u"?",text),u"")
+
+
 class WSGIWrapper(object):
 	def __init__(self,environ,start_response,responseHeaders):
 		"""A simple wrapper class for a wsgi application.
@@ -225,22 +235,26 @@ class Server(app.Server):
 			else:
 				return self.HandleRequest(request,environ,start_response,responseHeaders)
 		except InvalidSystemQueryOption,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%str(e))
+			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%ErrorText(e))
 		except EvaluationError,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%str(e))
+			return self.ODataError(ODataURI('error'),environ,start_response,"InvalidSystemQueryOption","Invalid System Query Option: %s"%ErrorText(e))
 		except InvalidPathOption,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%str(e),400)			
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Path option is invalid or incompatible with this form of URI: %s"%ErrorText(e),400)			
 		except InvalidMethod,e:
-			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Method not allowed: %s"%str(e),400)			
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Method not allowed: %s"%ErrorText(e),400)			
+		except InvalidData,e:
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Invalid request body: %s"%ErrorText(e),400)
+		except http.HTTPException,e:
+			return self.ODataError(ODataURI('error'),environ,start_response,"Bad Request","Invalid request header: %s"%ErrorText(e),400)
 		except ValueError,e:
 			traceback.print_exception(*sys.exc_info())
 			# This is a bad request
-			return self.ODataError(ODataURI('error'),environ,start_response,"ValueError",str(e))
+			return self.ODataError(ODataURI('error'),environ,start_response,"ValueError",ErrorText(e))
 		except:
 			eInfo=sys.exc_info()
 			traceback.print_exception(*eInfo)
 			# return self.HandleError(ODataURI('error'),environ,start_response)
-			return self.ODataError(ODataURI('error'),environ,start_response,"UnexpectedError","%s: %s"%(eInfo[0],eInfo[1]),500)
+			return self.ODataError(ODataURI('error'),environ,start_response,"UnexpectedError","%s: %s"%(eInfo[0],ErrorText(eInfo[1])),500)
 
 	@staticmethod
 	def EscapePath(path):
@@ -281,6 +295,15 @@ class Server(app.Server):
 		start_response("%i %s"%(code,subCode),responseHeaders)
 		return [data]
 	
+	@contextlib.contextmanager
+	def CatchXMLErrors(self):
+		"""Turns XML errors, found when interpreting the request body, into
+		:py:class:`InvalidData`"""
+		try:
+			yield
+		except xml.XMLError,e:
+			raise InvalidData(u"Unable to parse XML from request body: %s"%ErrorText(e))
+			
 	def GetResourceFromURI(self,href):
 		"""Returns the resource object represented by the :py:class:`pyslet.rfc2396.URI`
 		
@@ -396,7 +419,7 @@ class Server(app.Server):
 		if etag is not None:
 			s="%s" if entity.ETagIsStrong() else "W/%s"
 			etag=s%http.QuoteString(string.join(map(ODataURI.FormatLiteral,etag),','))
-			responseHeaders.append(("ETag",etag))
+			responseHeaders.append(("ETag",etag.encode('utf-8')))
 	
 	def HandleRequest(self,request,environ,start_response,responseHeaders):
 		"""Handles a request that has been identified as being an OData request.
@@ -422,6 +445,8 @@ class Server(app.Server):
 				# resource will be the target entity, a collection or None 
 				if not isinstance(parentEntity,Entity):
 					raise BadURISegment("$links must be preceded by a single EntityType instance")
+				if not parentEntity.IsNavigationProperty(request.linksProperty):
+					raise BadURISegment("%s is not a navigation property"%request.linksProperty)
 				if method=="GET":
 					# open the collection and select the key properties only
 					if isinstance(resource,edm.EntityCollection):
@@ -445,7 +470,7 @@ class Server(app.Server):
 						resource=parentEntity[request.linksProperty].OpenCollection()
 					if isinstance(resource,edm.EntityCollection):
 						with resource as collection:
-							targetEntity=self.ReadEntityFromLink(environ)
+							targetEntity=self.ReadEntityFromLink(environ,collection.entitySet)
 							collection[targetEntity.Key()]=targetEntity
 						return self.ReturnEmpty(start_response,responseHeaders)
 					else:
@@ -455,7 +480,7 @@ class Server(app.Server):
 					if parentEntity[request.linksProperty].isCollection:
 						raise BadURISegment("%s: can't update a link with multiplicity *"%request.linksProperty)
 					with parentEntity[request.linksProperty].OpenCollection() as collection:
-						targetEntity=self.ReadEntityFromLink(environ)
+						targetEntity=self.ReadEntityFromLink(environ,collection.entitySet)
 						collection.Replace(targetEntity)
 					return self.ReturnEmpty(start_response,responseHeaders)
 				elif method=="DELETE":
@@ -516,8 +541,16 @@ class Server(app.Server):
 					inlineCount=request.sysQueryOptions.get(SystemQueryOption.inlinecount,None)
 					resource.SetInlineCount(inlineCount==InlineCount.allpages)
 					return self.ReturnEntityCollection(resource,request,environ,start_response,responseHeaders)
+				elif method=="POST" and self.ContentNegotiation(request,environ,self.EntryTypes) is None:
+					# check this before the entity is created
+					return self.ODataError(request,environ,start_response,"Not Acceptable",'xml, json or plain text formats supported',406)
 				elif method=="POST" and resource.IsMediaLinkEntryCollection():
 					# POST of a media resource
+					if "CONTENT_TYPE" in environ:
+						resourceType=http.MediaType.FromString(environ["CONTENT_TYPE"])
+					else:
+						resourceType=http.MediaType.FromString('application/octet-stream')
+					input=app.InputWrapper(environ)
 					entity=resource.NewEntity()
 					if "HTTP_SLUG" in environ:
 						slug=environ["HTTP_SLUG"]
@@ -528,11 +561,6 @@ class Server(app.Server):
 								entity[k].SetFromValue(slug)
 								break					
 					resource.InsertEntity(entity)
-					if "CONTENT_TYPE" in environ:
-						resourceType=http.MediaType.FromString(environ["CONTENT_TYPE"])
-					else:
-						resourceType=http.MediaType.FromString('application/octet-stream')
-					input=app.InputWrapper(environ)
 					entity.SetStreamFromGenerator(resourceType,input.iterblocks())
 					responseHeaders.append(('Location',str(entity.GetLocation())))
 					return self.ReturnEntity(entity,request,environ,start_response,responseHeaders,201,"Created")
@@ -547,6 +575,8 @@ class Server(app.Server):
 				else:
 					raise InvalidMethod("%s not supported here"%method)					
 			elif isinstance(resource,edm.EDMValue):
+				if request.pathOption==PathOption.value and isinstance(resource,edm.Complex):
+					raise BadURISegment("$value cannot be used with a complex value")
 				if method=="GET":
 					if request.pathOption==PathOption.value:
 						if resource:
@@ -598,15 +628,15 @@ class Server(app.Server):
 					# that we ourselves are hiding.
 					# return wrapper.call(super(Server,self).__call__)
 		except MissingURISegment,e:
-			return self.ODataError(request,environ,start_response,"Resource not found","Resource not found for segment %s"%str(e),404)
+			return self.ODataError(request,environ,start_response,"Resource not found","Resource not found for segment %s"%ErrorText(e),404)
 		except BadURISegment,e:
-			return self.ODataError(request,environ,start_response,"Bad Request","Resource not found for segment %s"%str(e),400)
+			return self.ODataError(request,environ,start_response,"Bad Request","Resource not found for segment %s"%ErrorText(e),400)
 		except edm.NavigationError,e:
-			return self.ODataError(request,environ,start_response,"NavigationError",str(e),403)
+			return self.ODataError(request,environ,start_response,"NavigationError",ErrorText(e),403)
 		except edm.ConstraintError,e:
-			return self.ODataError(request,environ,start_response,"ConstraintError",str(e),403)
+			return self.ODataError(request,environ,start_response,"ConstraintError",ErrorText(e),403)
 		except NotImplementedError,e:
-			return self.ODataError(request,environ,start_response,"NotImplementedError",str(e),405)
+			return self.ODataError(request,environ,start_response,"NotImplementedError",ErrorText(e),405)
 			
 	def ExpandResource(self,resource,sysQueryOptions):
 		try:
@@ -655,19 +685,25 @@ class Server(app.Server):
 		start_response("%i %s"%(200,"Success"),responseHeaders)
 		return [data]
 		
-	def ReadEntityFromLink(self,environ):
+	def ReadEntityFromLink(self,environ,targetSet):
+		"""Reads a link from the request body and returns the entity it
+		points to, which must be a member of *targetSet*"""
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,URI):
-				return self.GetResourceFromURI(uri.URIFactory.URI(input.root.GetValue()))
+				with self.CatchXMLErrors():
+					href=input.root.GetValue()
 			else:
-				raise InvalidData("Unable to parse link from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse link from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
-			try:
-				return self.GetResourceFromURI(uri.URIFactory.URI(input['uri']))
-			except KeyError:
+			href=CheckJSONObject(input).get('uri',None)
+			if not isinstance(href,basestring):
 				raise InvalidData("Unable to parse link from JSON request body (found %s )"%str(input)[:256])
+		targetEntity=self.GetResourceFromURI(uri.URIFactory.URI(href))
+		if not isinstance(targetEntity,Entity) or targetEntity.entitySet is not targetSet:
+			raise InvalidData("Resource is not a valid target for a link: %s"%href)
+		return targetEntity
 		
 	def ReturnLink(self,entity,request,environ,start_response,responseHeaders):
 		responseType=self.ContentNegotiation(request,environ,self.ValueTypes)
@@ -724,6 +760,8 @@ class Server(app.Server):
 						atomFlag=False
 						break
 			encoding=requestType.parameters.get('charset',(None,None))[1]
+			if encoding is not None:
+				self.CheckEncoding(encoding)
 		input=app.InputWrapper(environ)
 		unicodeInput=None
 		if encoding is None:
@@ -746,7 +784,7 @@ class Server(app.Server):
 					break
 			if b==u'<':
 				atomFlag=True
-			elif b in u'{[':
+			elif b and b in u'{[':
 				atomFlag=False
 			else:
 				raise InvalidData("Unable to parse request body")
@@ -754,7 +792,8 @@ class Server(app.Server):
 		if atomFlag==True:
 			# read atom file
 			doc=Document()
-			doc.Read(src=xml.XMLEntity(src=input,encoding=encoding))
+			with self.CatchXMLErrors():
+				doc.Read(src=xml.XMLEntity(src=input,encoding=encoding))
 			return doc
 		else:
 			if unicodeInput is None:
@@ -763,15 +802,24 @@ class Server(app.Server):
 				else:
 					unicodeInput=codecs.getreader(encoding)(input)
 			return json.load(unicodeInput)
+	
+	@staticmethod
+	def CheckEncoding(encoding):
+		"""Raises :py:class:`InvalidData` if *encoding* is not known."""
+		try:
+			codecs.lookup(encoding)
+		except LookupError:
+			raise InvalidData("Unknown charset: %s"%encoding)
 			
 	def ReadEntity(self,entity,environ):
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,Entry):
 				# we have an entry, which is a relief!
-				input.root.GetValue(entity,self.GetResourceFromURI,True)
+				with self.CatchXMLErrors():
+					input.root.GetValue(entity,self.GetResourceFromURI,True)
 			else:
-				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse atom Entry from request body (found <%s>)"%input.root.xmlname)
 		else:
 			# must be a json object
 			entity.SetFromJSONObject(input,self.GetResourceFromURI,True)
@@ -813,10 +861,13 @@ class Server(app.Server):
 		input=self.ReadXMLOrJSON(environ)
 		if isinstance(input,Document):
 			if isinstance(input.root,Property):
-				input.root.GetValue(value)
+				with self.CatchXMLErrors():
+					input.root.GetValue(value)
 			else:
-				raise InvalidData("Unable to parse property from request body (found <%s>)"%doc.root.xmlname)
+				raise InvalidData("Unable to parse property from request body (found <%s>)"%input.root.xmlname)
 		else:
+			if value.pDef.name not in CheckJSONObject(input):
+				raise InvalidData("Expected %s in JSON object"%value.pDef.name)
 			if isinstance(value,edm.SimpleValue):
 				ReadEntityPropertyInJSON1(value,input)
 			else:
@@ -854,13 +905,14 @@ class Server(app.Server):
 				
 	def ReadDereferencedValue(self,value,environ):
 		encoding=None
+		requestType=None
 		if "CONTENT_TYPE" in environ:
 			requestType=http.MediaType.FromString(environ["CONTENT_TYPE"])
 		if value.mType is None:
 			acceptType=False
 			if isinstance(value,edm.BinaryValue):
 				if requestType:
-					for r in DeferenceBinaryRanges:
+					for r in self.DereferenceBinaryRanges:
 						if r.MatchMediaType(requestType):
 							acceptType=True
 				else:
@@ -881,10 +933,12 @@ class Server(app.Server):
 		if not acceptType:
 			raise InvalidData("Unable to parse property value from request body (found <%s>)"%str(requestType))
 		data=app.InputWrapper(environ).read()
-		if requestType.type=="text":
+		if requestType is not None and requestType.type=="text":
 			encoding=requestType.parameters.get('charset',(None,None))[1]
 			if encoding is None:
 				encoding="iso-8859-1"
+			else:
+				self.CheckEncoding(encoding)
 			data=data.decode(encoding)
 		if isinstance(value,edm.BinaryValue):
 			value.value=data
@@ -962,7 +1016,7 @@ class Server(app.Server):
 			if "HTTP_ACCEPT" in environ:
 				try:
 					aList=http.AcceptList.FromString(environ["HTTP_ACCEPT"])
-				except http.HTTPParameterError:
+				except (http.HTTPParameterError,ValueError):
 					# we'll treat this as a missing Accept header
 					aList=self.DefaultAcceptList
 			else:
-- 
2.43.0


From 43c1764a7400c03a786353080e1fbe220144d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 34/48] fix: an update can't change the key and thereby another
 entity

---
 pyslet/pyslet/odata2/core.py   | 7 +++++++
 pyslet/pyslet/odata2/server.py | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index e4bcdf5..76a1cdc 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2077,6 +2077,9 @@ class Entity(edm.Entity):
 		JSON representation."""
 		CheckJSONObject(obj)
 		for k,v in self.DataItems():
+			if self.exists and forUpdate and k in self.entitySet.keys:
+				# the key of an existing entity can't be changed
+				continue
 			if k in obj:
 				if isinstance(v,edm.SimpleValue):
 					ReadEntityPropertyValueInJSON(v,obj[k])
@@ -3055,6 +3058,10 @@ class Entry(atom.Entry):
 		selected=set()
 		unselected=set()
 		for k,v in entity.DataItems():
+			if entity.exists and forUpdate and k in entity.entitySet.keys:
+				# the key of an existing entity can't be changed
+				selected.add(k)
+				continue
 			# catch property-level feed customisation here
 			propertyDef=entity.typeDef[k]
 			targetPath=propertyDef.GetTargetPath()
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index 8c50c73..d0ff922 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -586,6 +586,8 @@ class Server(app.Server):
 					else:
 						return self.ReturnValue(parentEntity,resource,request,environ,start_response,responseHeaders)
 				elif method=="PUT":
+					if resource.pDef and resource.pDef.name in parentEntity.entitySet.keys and parentEntity[resource.pDef.name] is resource:
+						raise InvalidMethod("PUT failed, %s is part of the key"%resource.pDef.name)
 					if request.pathOption==PathOption.value:
 						if resource:
 							self.ReadDereferencedValue(resource,environ)
-- 
2.43.0


From 85927ed8b4207d7a539893095e47c587e78860f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 35/48] fix: XML parser accepts exactly well-formed documents
 and reads entities and defaults as the specification says

]]> in content and unterminated comments, PIs and illegal characters are
errors (]]> sent the parser into an infinite loop), <?xml-... is a PI, the first
declaration of an entity is binding, fixed attributes have a default, internal
entities have no line ends to normalize, declarations after an unread parameter
entity are not processed, UTF-8 byte order marks and several error paths no longer
raise NameError or TypeError.
---
 pyslet/pyslet/xml20081126/parser.py     | 62 +++++++++++++++++++++----
 pyslet/pyslet/xml20081126/structures.py | 25 ++++++----
 2 files changed, 68 insertions(+), 19 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/parser.py b/pyslet/pyslet/xml20081126/parser.py
index 78a68d0..2e1366a 100755
--- a/pyslet/pyslet/xml20081126/parser.py
+++ b/pyslet/pyslet/xml20081126/parser.py
@@ -319,6 +319,11 @@ class XMLParser:
 		if self.checkAllErrors:
 			self.nonFatalErrors.append("%s: %s"%(self.entity.GetPositionStr(),msg))
 
+	def CheckChar(self,production):
+		"""Checks that the current character matches production [2] Char."""
+		if not self.dontCheckWellFormedness and not IsChar(self.theChar):
+			self.WellFormednessError(production+": Illegal character %s"%repr(self.theChar))
+		
 	def ParseLiteral(self,match):
 		"""Parses a literal string, passed in *match*.
 		
@@ -714,6 +719,7 @@ class XMLParser:
 				elif self.theChar=='<':
 					self.WellFormednessError("No < in Attribute Values")
 				else:
+					self.CheckChar(production)
 					value.append(self.theChar)
 					self.NextChar()
 			except XMLWellFormedError:
@@ -781,15 +787,17 @@ class XMLParser:
 		S is treated as being in the current element as the violation doesn't
 		occurr until the first non-S character (so any implied start tag is
 		treated as being immediately prior to the first non-S)."""
+		production="[14] CharData"
 		data=[]
 		while self.theChar is not None:
 			if self.theChar=='<' or self.theChar=='&':
 				break
-			if self.theChar==']':
+			if self.theChar==']' and not self.dontCheckWellFormedness:
 				if self.ParseLiteral(']]>'):
 					self.BuffText(']]>')
 					break
 			self.IsS()		# force Unicode compatible white space handling
+			self.CheckChar(production)
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize:
@@ -852,8 +860,12 @@ class XMLParser:
 						self.WellFormednessError("-- in Comment")
 					data.append('-'*nHyphens)									
 					nHyphens=0
+				self.CheckChar(production)
 				data.append(self.theChar)
 				self.NextChar()
+		else:
+			if not self.dontCheckWellFormedness:
+				self.WellFormednessError(production+": Unexpected end of file")
 		return string.join(data,'')
 				
 	def ParsePI(self,gotLiteral=False):
@@ -881,8 +893,13 @@ class XMLParser:
 					else:
 						# just a single '?'
 						data.append('?')
+						continue
+				self.CheckChar(production)
 				data.append(self.theChar)
 				self.NextChar()
+			else:
+				if not self.dontCheckWellFormedness:
+					self.WellFormednessError(production+": Unexpected end of file")
 		else:
 			self.CheckPEBetweenDeclarations(dEntity)
 			self.ParseRequiredLiteral('?>',production)
@@ -893,7 +910,7 @@ class XMLParser:
 
 	def ParsePITarget(self):
 		"""[17] PITarget: parses a processing instruction target name"""
-		name=self.ParseName()
+		name=self.ParseRequiredName("[17] PITarget")
 		if name.lower()=='xml':
 			self.BuffText(name)
 			self.WellFormednessError("[17] PITarget: Illegal target: %s"%name)
@@ -923,11 +940,13 @@ class XMLParser:
 		"""[20] CData: parses a run of CData up to but not including *cdEnd*.
 		
 		This method adds any parsed data to the current element."""
+		production="[20] CData"
 		data=[]
 		while self.theChar is not None:
 			if self.ParseLiteral(cdEnd):
 				self.BuffText(cdEnd)
 				break
+			self.CheckChar(production)
 			data.append(self.theChar)
 			self.NextChar()
 			if len(data)>=XMLEntity.ChunkSize:
@@ -944,7 +963,7 @@ class XMLParser:
 	def ParseProlog(self):
 		"""[22] prolog: parses the document prolog, including the XML declaration and dtd."""
 		production="[22] prolog"
-		if self.ParseLiteral('<?xml'):
+		if self.ParseDeclStart():
 			self.ParseXMLDecl(True)
 		else:
 			self.declaration=None
@@ -974,6 +993,18 @@ class XMLParser:
 				if eDef.notation and not eDef.notation in self.dtd.notations:
 					self.ValidityError("Notation Declared: notation %s used in declaration of entity %s has not been declared"%(eDef.notation,eName))
 
+	def ParseDeclStart(self):
+		"""Parses the literal that starts an XML or text declaration.
+
+		Returns False, leaving the parser in its original position, if the
+		literal '<?xml' is missing or just the start of a processing
+		instruction like <?xml-stylesheet ?>"""
+		if self.ParseLiteral('<?xml'):
+			if self.IsS():
+				return True
+			self.BuffText('<?xml')
+		return False
+
 	def ParseXMLDecl(self,gotLiteral=False):
 		"""[23] XMLDecl: parses an XML declaration.
 		
@@ -1117,7 +1148,7 @@ class XMLParser:
 		subsetEntity=self.entity
 		while True:
 			if self.theChar=='<':
-				self.noPERefs=(self.GetExternalEntity() is subsetEntity)
+				self.noPERefs=(self.GetExternalEntity() in (None,subsetEntity))
 				self.ParseMarkupDecl()
 				self.noPERefs=False
 			elif self.theChar=='%' or self.IsS():
@@ -1155,7 +1186,7 @@ class XMLParser:
 	
 	def ParseExtSubset(self):
 		"""[30] extSubset: parses an external subset"""
-		if self.ParseLiteral('<?xml'):
+		if self.ParseDeclStart():
 			self.ParseTextDecl(True)
 		else:
 			self.CheckEncoding(self.entity,None)
@@ -1186,6 +1217,15 @@ class XMLParser:
 			# a badly nested declaration in an entity opened within a DeclSep is a well-formedness error
 			self.WellFormednessError("[31] extSubsetDecl: failed for entity %s included in a DeclSep"%checkEntity.GetName())
 	
+	def CanDeclare(self):
+		"""Tests if entity and attribute-list declarations may be processed.
+
+		Without :py:attr:`checkValidity` parameter entities are not read, any
+		declarations that follow a reference must then be ignored (unless the
+		document is standalone) because the parameter entity may have
+		overridden them."""
+		return self.checkValidity or not self.gotPERef or self.DeclaredStandalone()
+	
 	def ParseSDDecl(self,gotLiteral=False):
 		"""[32] SDDecl: parses a standalone declaration
 		
@@ -1365,8 +1405,8 @@ class XMLParser:
 				value=attrs.get(a,None)
 				if value is None:
 					# check for default
-					if aDef.presence==XMLAttributeDefinition.Default:
-						attrs[a]=aDef.defaultValue
+					if aDef.presence in (XMLAttributeDefinition.Default,XMLAttributeDefinition.Fixed):
+						attrs[a]=value=aDef.defaultValue
 						if checkStandalone:
 							self.ValidityError("Standalone Document Declaration: specification for attribute %s required (externally defined default)"%a)
 					elif aDef.presence==XMLAttributeDefinition.Required:
@@ -1676,6 +1716,8 @@ class XMLParser:
 				else:
 					# leave the absence of an end tag for ParseElement to worry about
 					return True
+			elif self.theChar==']' and not self.dontCheckWellFormedness and self.ParseLiteral(']]>'):
+				self.WellFormednessError("[14] CharData: ]]> in content")
 			else:
 				pcdata=self.ParseCharData()
 				if pcdata and not self.UnhandledData(pcdata):
@@ -1775,7 +1817,7 @@ class XMLParser:
 				eType.contentType=ElementType.ElementContent
 				eType.contentModel=self.ParseChildren(True,groupEntity)
 		else:
-			self.WellFormednessError(production,": expected 'EMPTY', 'ANY' or '('")
+			self.WellFormednessError(production+": expected 'EMPTY', 'ANY' or '('")
 			
 	def ParseChildren(self,gotLiteral=False,groupEntity=None):
 		"""[47] children: parses an element content model comprising children.
@@ -1969,7 +2011,7 @@ class XMLParser:
 				if self.theChar=='>':
 					break
 				a=self.ParseAttDef(True)
-				if self.dtd:
+				if self.dtd and self.CanDeclare():
 					if self.checkValidity:
 						if a.type==XMLAttributeDefinition.ID:
 							if a.presence!=XMLAttributeDefinition.Implied and a.presence!=XMLAttributeDefinition.Required:
@@ -2495,7 +2537,7 @@ class XMLParser:
 		if e.IsExternal():
 			# Resolve the external ID relative to xEntity
 			e.location=self.ResolveExternalID(e.definition,xEntity)
-		if self.dtd:
+		if self.dtd and self.CanDeclare():
 			e.entity=dEntity
 			self.dtd.DeclareEntity(e)
 		return e
diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 5cf8839..4429db9 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -796,11 +796,14 @@ class XMLDTD(object):
 		
 		The same method is used for both general and parameter entities.  The
 		value of *entity* can be either an :py:class:`XMLGeneralEntity` or an
-		:py:class:`XMLParameterEntity` instance."""
+		:py:class:`XMLParameterEntity` instance.
+		
+		If the same entity is declared more than once, the first declaration
+		encountered is binding."""
 		if isinstance(entity,XMLGeneralEntity):
-			self.generalEntities[entity.name]=entity
+			self.generalEntities.setdefault(entity.name,entity)
 		elif isinstance(entity,XMLParameterEntity):
-			self.parameterEntities[entity.name]=entity
+			self.parameterEntities.setdefault(entity.name,entity)
 		else:
 			raise ValueError
 
@@ -2590,6 +2593,7 @@ class XMLEntity(object):
 		self.chars=''
 		self.charPos=None
 		self.ignoreLF=None
+		self.isPhysical=True		# False for internal entities: no byte order mark and no line ends to normalize
 		self.flags={}
 		if type(src) is UnicodeType:
 			self.OpenUnicode(src)
@@ -2635,7 +2639,7 @@ class XMLEntity(object):
 		if self.location:
 			self.OpenURI(self.location)
 		else:
-			raise UnimplementedError
+			raise XMLUnimplementedError("Entity has no location: %s"%self.GetName())
 	
 	def IsOpen(self):
 		"""Returns True if the entity is open for reading."""
@@ -2740,7 +2744,7 @@ class XMLEntity(object):
 			else:	
 				raise XMLUnexpectedHTTPResponse(str(req.status)+" "+str(req.response.reason))
 		else:
-			raise XMLUnsupportedScheme			
+			raise XMLUnsupportedSchemeError(src.scheme)
 		
 	def OpenHTTPResponse(self,src,encoding='utf-8'):
 		"""Opens the entity from an HTTP response passed in *src*.
@@ -2784,7 +2788,7 @@ class XMLEntity(object):
 		self.ignoreLF=False
 		self.NextChar()
 		# python handles the utf-16 BOM automatically but we have to skip it for utf-8
-		if self.theChar==u'\ufeff' and self.encoding is not None and self.encoding.lower()=='utf-8':
+		if self.theChar==u'\ufeff' and self.isPhysical and self.encoding is not None and self.encoding.lower()=='utf-8':
 			self.NextChar()
 	
 	def GetPositionStr(self):
@@ -2812,7 +2816,7 @@ class XMLEntity(object):
 			self.theChar=None
 		else:
 			self.theChar=self.chars[self.charPos]
-			if self.theChar=='\x0D':
+			if self.theChar=='\x0D' and self.isPhysical:
 				# change to a line feed and ignore the next line feed
 				self.theChar='\x0A'
 				self.ignoreLF=True
@@ -2856,7 +2860,7 @@ class XMLEntity(object):
 			if magic[2:]!='\x00\x00':
 				magic=magic[:2]
 		elif magic[:3]=='\xef\xbb\xbf':
-			magic=mage[:3]
+			magic=magic[:3]
 		self.encoding,seekPos,self.bom=self.MagicTable.get(magic,('utf-8',0,False))
 		srcFile.seek(seekPos)
 	
@@ -2962,6 +2966,9 @@ class XMLDeclaredEntity(XMLEntity):
 		replacement text is encountered.  This requires a small amount of
 		look-ahead which may result in some characters needing to be re-parsed. 
 		We pass this to future parsers using :py:attr:`buffText`."""
+		# the lines of internal entities were normalized with the declaration, any
+		# carriage returns left originate from character references
+		self.isPhysical=self.IsExternal()
 		if type(self.definition) is StringType:
 			self.OpenString(self.definition)
 		elif type(self.definition) is UnicodeType:
@@ -2971,7 +2978,7 @@ class XMLDeclaredEntity(XMLEntity):
 			# Now to handle the text declaration
 			from pyslet.xml20081126.parser import XMLParser
 			p=XMLParser(self)
-			if p.ParseLiteral('<?xml'):
+			if p.ParseDeclStart():
 				p.ParseTextDecl(True)
 			self.KeepEncoding()
 			# at this point we may have some left over text in p's buffer
-- 
2.43.0


From c506b8d999349655305b850d04aecb2fdd09d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 36/48] fix: written XML documents read back as the same
 document, with the right namespaces

---
 pyslet/pyslet/xml20081126/structures.py |  23 +++--
 pyslet/pyslet/xmlnames20091208.py       | 121 ++++++++++++++++--------
 2 files changed, 99 insertions(+), 45 deletions(-)

diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 4429db9..70cdfaa 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -73,6 +73,11 @@ def EscapeCharData(src,quote=False):
 			data.append('&gt;')
 		elif c=='\r':
 			data.append('&#xD;')
+		elif quote and c=='\n':
+			# these are subject to attribute value normalization
+			data.append('&#xA;')
+		elif quote and c=='\t':
+			data.append('&#x9;')
 		elif c=='"':
 			quot+=1
 			data.append(c)
@@ -132,6 +137,11 @@ def EscapeCharData7(src,quote=False):
 			dst.append("&gt;")
 		elif c=='\r':
 			dst.append("&#xD;")
+		elif quote and c=='\n':
+			# these are subject to attribute value normalization
+			dst.append("&#xA;")
+		elif quote and c=='\t':
+			dst.append("&#x9;")
 		elif c==q:
 			dst.append(qStr)
 		else:
@@ -751,16 +761,16 @@ def IsPubidChar(c):
 
 
 def EscapeCDSect(src):
-	"""Returns a unicode string enclosed in <!CDATA[[ ]]> with ]]> 
-	by the clumsy sequence: ]]>]]&gt;<!CDATA[[
+	"""Returns a unicode string enclosed in <![CDATA[ ]]> with ]]> 
+	by the clumsy sequence: ]]>]]&gt;<![CDATA[
 	
 	Degenerate case: an empty string is returned as an empty string
 	"""
-	data=src.split(u']]>')
-	if data:
-		result=[u'<!CDATA[[',data[0]]
+	if src:
+		data=src.split(u']]>')
+		result=[u'<![CDATA[',data[0]]
 		for d in data[1:]:
-			result.append(u']]>]]&gt;<!CDATA[[')
+			result.append(u']]>]]&gt;<![CDATA[')
 			result.append(d)
 		result.append(u']]>')
 		return string.join(result,u'')
@@ -1968,6 +1978,7 @@ class Element(Node):
 			e=parent.ChildElement(self.__class__,self.GetXMLName())
 		else:
 			e=self.__class__(None)
+			e.SetXMLName(self.GetXMLName())
 		attrs=self.GetAttributes()
 		for aname in attrs.keys():
 			e.SetAttribute(aname,attrs[aname])
diff --git a/pyslet/pyslet/xmlnames20091208.py b/pyslet/pyslet/xmlnames20091208.py
index 437d1b9..964754c 100644
--- a/pyslet/pyslet/xmlnames20091208.py
+++ b/pyslet/pyslet/xmlnames20091208.py
@@ -51,9 +51,12 @@ class XMLNSElementContainerMixin:
 				if type(child) not in StringTypes:
 					child.ResetPrefixMap(True)
 
-	def GetPrefix(self,ns):
+	def GetPrefix(self,ns,useDefault=True):
 		"""Returns the prefix to use for the given namespace in the current
-		context or None if no prefix is currently in force."""
+		context or None if no prefix is currently in force.
+		
+		If *useDefault* is False the empty prefix is never returned for a
+		namespace: the default namespace does not apply to attributes."""
 		if ns==XML_NAMESPACE:
 			return 'xml'
 		elif ns is None:
@@ -63,21 +66,22 @@ class XMLNSElementContainerMixin:
 			return ''
 		elif ns==NO_NAMESPACE:
 			return ''
-		prefix=None
+		hidden=set()
 		ei=self
-		while prefix is None and ei is not None:
+		while ei is not None:
+			prefixes=[p for p in ei.prefixToNS if ei.prefixToNS[p]==ns]
+			prefixes.sort()
 			prefix=ei.nsToPrefix.get(ns,None)
-			if prefix is not None:
-				# this is the prefix to use, unless it has been reused...
-				ej=self
-				while ej is not ei:
-					if ej.prefixToNS.get(prefix,None) is not None:
-						# so prefix has been reused, keep searching
-						prefix=None
-						break
-					ej=ej.parent
+			if prefix in prefixes:
+				# the preferred prefix
+				prefixes[0:0]=[prefix]
+			for prefix in prefixes:
+				# use this prefix, unless it has been reused...
+				if prefix not in hidden and (prefix or useDefault):
+					return prefix
+			hidden.update(ei.prefixToNS)
 			ei=ei.parent
-		return prefix	
+		return None
 	
 	def GetNS(self,prefix=''):
 		"""Returns the namespace associated with prefix in the current context.
@@ -91,14 +95,15 @@ class XMLNSElementContainerMixin:
 		ei=self
 		while ei is not None:
 			ns=ei.prefixToNS.get(prefix,None)
-			if ns:
+			if ns is not None:
 				break
 			if prefix=='':
 				ns=getattr(ei,'DefaultNS',None)
 				if ns:
 					break
 			ei=ei.parent
-		return ns
+		# the empty string cancels the default namespace
+		return ns or None
 
 	def NewPrefix(self,stem='ns'):
 		"""Return an unused prefix of the form stem#, stem defaults to ns.
@@ -134,6 +139,17 @@ class XMLNSElementContainerMixin:
 		self.nsToPrefix[ns]=prefix
 		return prefix
 
+	def CancelDefaultPrefix(self):
+		"""Ensures that there is no declaration of a default namespace in force."""
+		ei=self
+		while ei is not None:
+			ns=ei.prefixToNS.get('',None)
+			if ns is not None:
+				if ns:
+					self.prefixToNS['']=''
+				break
+			ei=ei.parent
+
 	def GetPrefixMap(self):
 		"""Returns the complete prefix to ns mapping in force at this element"""
 		prefixMap={}
@@ -298,13 +314,13 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 				prefix=''
 			else:
 				ns,aname=a
-				prefix=self.GetPrefix(ns)
+				prefix=self.GetPrefix(ns,False)
 			if prefix is None:
 				prefix=self.MakePrefix(ns)
 			if prefix:
 				prefix=prefix+':'
 			attributes.append(u'%s%s=%s'%(prefix,aname,escapeFunction(attrs[a],True)))
-		self.WriteNSAttributes(attributes,escapeFunction=EscapeCharData,root=root)
+		self.WriteNSAttributes(attributes,escapeFunction=escapeFunction,root=root)
 	
 	def GenerateXML(self,escapeFunction=EscapeCharData,indent='',tab='\t',root=False):
 		if tab:
@@ -322,9 +338,13 @@ class XMLNSElement(XMLNSElementContainerMixin,Element):
 			prefix=self.GetPrefix(self.ns)
 			if prefix is None:
 				# We need to declare our namespace
-				prefix=self.MakePrefix(self.ns,'')
+				if '' in self.prefixToNS:
+					prefix=self.MakePrefix(self.ns)
+				else:
+					prefix=self.MakePrefix(self.ns,'')
 		else:
 			prefix=''
+			self.CancelDefaultPrefix()
 		if prefix:
 			prefix=prefix+':'
 		self.WriteXMLAttributes(attributes,escapeFunction,root=root)
@@ -424,20 +444,26 @@ class XMLNSParser(XMLParser):
 				nsURI=nsDefs.get('',None)
 				if nsURI is None and context:
 					nsURI=context.GetNS('')
-				return (nsURI,qname)
+				return (nsURI or None,qname)
 			else:
 				return (NO_NAMESPACE,qname)
 		elif len(xname)==2:
 			nsprefix,local=xname
 			if nsprefix=='xml':
-				return (XML_NAMESPACE,local)
+				nsURI=XML_NAMESPACE
 			elif nsprefix=='xmlns':
-				return (XMLNS_NAMESPACE,local)
+				nsURI=XMLNS_NAMESPACE
 			else:
 				nsURI=nsDefs.get(nsprefix,None)
 				if nsURI is None and context:
 					nsURI=context.GetNS(nsprefix)
-				return (nsURI,local)		
+			if not self.dontCheckWellFormedness:
+				if not IsValidNCName(nsprefix) or not IsValidNCName(local) or nsprefix=='xmlns':
+					raise XMLNSError("Illegal QName: %s"%qname)
+				elif useDefault and not nsURI:
+					# we tolerate undeclared prefixes in attribute names
+					raise XMLNSError("Undeclared prefix: %s"%qname)
+			return (nsURI,local)		
 		else:
 			# something wrong with this element
 			raise XMLNSError("Illegal QName: %s"%qname)
@@ -449,6 +475,19 @@ class XMLNSParser(XMLParser):
 		tag of this element."""
 		return element.GetXMLName()==self.ExpandQName(qname,{},True)
 
+	def CheckNSDeclaration(self,prefix,nsURI,aname):
+		"""Raises :py:class:`XMLNSError` if *prefix* can't be bound to *nsURI*."""
+		if prefix=='xml':
+			ok=(nsURI==XML_NAMESPACE)
+		else:
+			ok=nsURI not in (XML_NAMESPACE,XMLNS_NAMESPACE)
+			if prefix:
+				ok=ok and nsURI and prefix!='xmlns'
+		if aname!='xmlns':
+			ok=ok and IsValidNCName(prefix)
+		if not ok:
+			raise XMLNSError("Illegal namespace declaration: %s"%aname)
+
 	def ParseNSAttributes(self,attrs):
 		"""Takes a dictionary of attributes as returned by ParseSTag and finds
 		any namespace prefix mappings returning them as a dictionary of
@@ -463,16 +502,24 @@ class XMLNSParser(XMLParser):
 		:py:class:`XMLParser`. """
 		ns={}
 		for aname in attrs.keys():
-			if aname.startswith('xmlns'):
-				if len(aname)==5:
-					# default ns declaration
-					ns['']=attrs[aname]
-				elif aname[5]==':':
-					# ns prefix declaration
-					ns[aname[6:]]=attrs[aname]
-				del attrs[aname]
+			if aname=='xmlns':
+				# default ns declaration
+				prefix=''
+			elif aname.startswith('xmlns:'):
+				# ns prefix declaration
+				prefix=aname[6:]
+			else:
+				continue
+			nsURI=attrs[aname]
+			if not self.dontCheckWellFormedness:
+				self.CheckNSDeclaration(prefix,nsURI,aname)
+			if prefix!='xml':
+				ns[prefix]=nsURI
+			del attrs[aname]
 		for aname in attrs.keys():
 			expandedName=self.ExpandQName(aname,ns,False)
+			if expandedName in attrs and not self.dontCheckWellFormedness:
+				raise XMLNSError("Attributes Unique: %s"%aname)
 			attrs[expandedName]=attrs[aname]
 			del attrs[aname]
 		# Finally, we hide the ns object in the list of attributes so we can retrieve it later
@@ -554,15 +601,11 @@ class XMLNSParser(XMLParser):
 
 		If no document class can be found, :py:class:`XMLNSDocument` is
 		returned."""
-		rootName=dtd.name
-		if expandedName[0] is None:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
-		else:
-			docClass=XMLParser.NSDocumentClassTable.get(expandedName,None)
-			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((expandedName[0],None),None)
+		docClass=XMLNSParser.NSDocumentClassTable.get(expandedName,None)
+		if docClass is None and expandedName[0] is not None:
+			docClass=XMLNSParser.NSDocumentClassTable.get((expandedName[0],None),None)
 			if docClass is None:
-				docClass=XMLParser.DocumentClassTable.get((None,expandedName[1]),None)
+				docClass=XMLNSParser.NSDocumentClassTable.get((None,expandedName[1]),None)
 		if docClass is None:
 			docClass=XMLNSDocument
 		return docClass
-- 
2.43.0


From a6fa7df4ccc7c579fda25875d7f807716bd79179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 37/48] fix: XML Schema numbers are read and written exactly,
 regular expressions match the whole string

---
 pyslet/pyslet/xsdatatypes20041028.py | 195 ++++++++++++---------------
 1 file changed, 86 insertions(+), 109 deletions(-)

diff --git a/pyslet/pyslet/xsdatatypes20041028.py b/pyslet/pyslet/xsdatatypes20041028.py
index 030eb0c..cb2ccad 100644
--- a/pyslet/pyslet/xsdatatypes20041028.py
+++ b/pyslet/pyslet/xsdatatypes20041028.py
@@ -3,7 +3,8 @@
 
 import string
 import math
-from sys import maxunicode, float_info
+import decimal
+from sys import maxunicode
 from re import compile
 from types import *
 
@@ -76,36 +77,45 @@ def DecodeDecimal(src):
 	return float(src)	
 
 
-def _RoundDigits(digits):
-	"""Rounds a list of digits to the machine precision.  The function returns
-	True if the rounding operation overflowed, this indicates that *digits* is
-	one digit longer than it was when passed in."""
-	if len(digits)>float_info.dig:
-		# we need to add some rounding to remove spurious digits
-		pos=len(digits)-1
-		while pos>=0:
-			if pos>float_info.dig:
-				digits[pos]=u"0"
-			elif pos==float_info.dig:
-				rTest=ord(digits[pos])
-				digits[pos]=u"0"
-				if rTest<0x35:
-					# no rounding needed
-					break
-			elif digits[pos]==u"9":
-				digits[pos]=u"0"
-			else:
-				digits[pos]=unichr(ord(digits[pos])+1)
-				# rounding done
-				break
-			pos=pos-1
-		if pos<0:
-			# overflow
-			digits[0:0]=u"1"
-			return True
-	else:
-		return False
-
+def _DecimalDigits(value,maxDigits=None,places=None):
+	"""Returns a tuple of (*digits*, *exponent*) representing *value*, a finite
+	positive float, as a list of decimal digits and the power of 10 of the first
+	digit.
+	
+	By default there are as many digits as it takes to represent *value*
+	exactly.  The result can be rounded to (exactly) *maxDigits* digits or to
+	(exactly) *places* decimal places, in which case an empty list is returned
+	for a number that is rounded to 0."""
+	d=decimal.Decimal(repr(float(value)))
+	digits=list(d.as_tuple().digits)
+	e=d.adjusted()
+	while len(digits)>1 and digits[-1]==0:
+		del digits[-1]
+	if places is not None:
+		maxDigits=e+1+places
+		if maxDigits<0:
+			return [],-places
+	if maxDigits is not None:
+		if len(digits)>maxDigits:
+			roundUp=digits[maxDigits]>=5
+			del digits[maxDigits:]
+			if roundUp:
+				pos=maxDigits-1
+				while pos>=0 and digits[pos]==9:
+					digits[pos]=0
+					pos=pos-1
+				if pos>=0:
+					digits[pos]+=1
+				else:
+					# overflow
+					digits[0:0]=[1]
+					e=e+1
+					if places is None:
+						del digits[-1]
+		else:
+			digits=digits+[0]*(maxDigits-len(digits))
+	return [unicode(digit) for digit in digits],e
+	
 
 def _StripZeros(digits):
 	"""Shortens a list of digits *digits* by stripping trailing zeros. *digits*
@@ -130,33 +140,21 @@ def EncodeDecimal(value,digits=None,stripZeros=True):
 	will strip trailing zeros in the fractional part.  To override this
 	behaviour and return exactly *digits* decimal places set *stripZeros* to
 	False."""
+	if math.isnan(value) or math.isinf(value):
+		raise ValueError("Invalid value for decimal: %s"%EncodeDouble(value))
 	if value<0:
 		sign='-'
 		value=-value
 	else:
 		sign=''		
-	if digits is None:
-		# calculate the appropriate number of digits
-		try:
-			x=math.log10(value)
-			m,e=math.modf(x)
-			e=int(e)
-			# If e is 0 then we have a number in the open range [1.0,10.0)
-			# which means that we need 1 fewer digits than the maximum
-			# precision of float.  If e is 1 we need 2 fewer, and so on...
-			# We can therefore deduce the formula for digits:
-			digits=float_info.dig-(e+1)
-			if digits<1:
-				# by default we always display one digit
-				digits=1
-		except ValueError:
-			# not sure if this is possible, a number so small log10 fails
-			value=0.0
-			digits=1
-	elif digits<0:
+	if digits is not None and digits<0:
 		# forced to display no digits, result won't be in canonical form
 		digits=0
 	if value==0:
+		dString,e=[],0
+	else:
+		dString,e=_DecimalDigits(value,places=digits)
+	if not dString:
 		# canonical representation of 0 is 0.0
 		if digits is None:
 			return "0.0"
@@ -166,26 +164,22 @@ def EncodeDecimal(value,digits=None,stripZeros=True):
 			return "0.0"
 		else:
 			return "0."+("0"*digits)
-	elif math.isnan(value) or math.isinf(value):
-		raise ValueError("Invalid value for decimal: %s"%EncodeDouble(value))
-	f,i=math.modf(value*math.pow(10,digits))
-	if f>=0.5:
-		i=i+1
-	dString=list(str(int(i)))
-	# assume all digits in dString are significant
-	_RoundDigits(dString)
-	if len(dString)<=digits:
+	if digits is None:
+		# by default we always display one digit
+		digits=max(1,len(dString)-(e+1))
+	if e<0:
 		# we need to zero pad on the left
-		dString[0:0]=["0"]*(digits+1-len(dString))
-		dLen=digits+1
-	else:
-		dLen=len(dString)
-	# now put the point in the right place
-	dString[dLen-digits:dLen-digits]=u"."
+		dString[0:0]=[u"0"]*(-e)
+		e=0
+	# we may need to zero pad on the right too
+	dString=dString+[u"0"]*(e+1+digits-len(dString))
+	if digits:
+		# now put the point in the right place
+		dString[e+1:e+1]=u"."
+		if stripZeros:
+			_StripZeros(dString)
 	if sign:
 		dString[0:0]=sign
-	if stripZeros:
-		_StripZeros(dString)
 	return string.join(dString,'')
 
 
@@ -212,7 +206,7 @@ def DecodeFloat(src):
 		m,e=s
 		m=DecodeDecimal(m)
 		e=DecodeInteger(e)
-		result=m*math.pow(10,e)
+		result=float(src)
 	elif s in ("inf","-inf","nan"):
 		return float(s)
 	else:
@@ -220,7 +214,7 @@ def DecodeFloat(src):
 	absResult=math.fabs(result)
 	if absResult>=_MaxFloat:
 		return float("-inf") if result<0.0 else float("inf")
-	elif absResult<=_MinFloat:
+	elif absResult<_MinFloat:
 		# this value is too small for a float, return 0
 		return -0.0 if result<0.0 else 0.0
 	else:
@@ -239,7 +233,7 @@ def EncodeFloat(value):
 	absValue=math.fabs(value)
 	if absValue>=_MaxFloat:
 		return u"-INF" if value<0.0 else u"INF"
-	elif absValue<=_MinFloat:
+	elif absValue<_MinFloat:
 		# this value is too small for a float, return 0
 		return "0.0E0"
 	else:
@@ -260,7 +254,7 @@ def DecodeDouble(src):
 		m,e=s
 		m=DecodeDecimal(m)
 		e=DecodeInteger(e)
-		return m*math.pow(10,e)
+		return float(src)
 	elif s in ("inf","-inf","nan"):
 		return float(s)
 	else:
@@ -279,23 +273,20 @@ def EncodeDouble(value,digits=None,stripZeros=True):
 	then exactly *digits* digits will be displayed after the point.  By default
 	zeros are stripped (except there is always one zero left after the decimal
 	point)."""
-	if digits is None:
-		digits=float_info.dig-2
-		if digits<0:
-			# by default we show at least one digit
-			digits=1
-	elif digits<0:
+	if digits is not None and digits<0:
 		digits=0
 	if value==0:
 		# canonical representation of 0 is 0.0E0
-		if digits==0:
+		if digits is None:
+			return "0.0E0"
+		elif digits==0:
 			return "0E0"
 		elif stripZeros:
 			return "0.0E0"
 		else:
 			return "0."+("0"*digits)+"E0"
 	elif math.isnan(value):
-		return "NAN"
+		return "NaN"
 	elif math.isinf(value):
 		return "INF" if value>0 else "-INF"
 	if value<0:
@@ -303,34 +294,17 @@ def EncodeDouble(value,digits=None,stripZeros=True):
 		value=-value
 	else:
 		sign=''
-	try:
-		x=math.log10(value)
-	except ValueError:
-		# not sure if this is possible, a number so small log10 fails
-		return "0.0E0"
-	m,e=math.modf(x)
-	e=int(e)
-	r,m=math.modf(math.pow(10,m+digits))
-	if r>=0.5:
-		m=m+1
-	dString=list(str(int(m)))
-	# m should originally have been in [1,10) but we need to check for over/underflow
-	if len(dString)>digits+1:
-		# overflow, strip the trailing zero
-		e=e+1
-		del dString[-1]
-	elif len(dString)<=digits:
-		# underflow - probably impossible, e.g, pow(10,log10(1.000)+N)->999....9(.9)
-		e=e-1
-		dString.append(u"9")
-	# inevitably, after this len(dString)==digits+1
-	if _RoundDigits(dString):
-		del dString[-1]
-	assert dString[0]!=u'0'
+	if digits is None:
+		dString,e=_DecimalDigits(value)
+		if len(dString)==1:
+			# by default we show at least one digit
+			dString.append(u"0")
+	else:
+		dString,e=_DecimalDigits(value,maxDigits=digits+1)
 	if len(dString)>1:
 		dString[1:1]=u"."
-	if stripZeros:
-		_StripZeros(dString)
+		if stripZeros:
+			_StripZeros(dString)
 	if sign:
 		dString[0:0]=sign
 	dString.append(u"E")
@@ -533,8 +507,8 @@ class Enumeration:
 		result={}
 		for s in src.split():
 			sv=decoder(s)
-		if not sv in result:
-			result[sv]=s
+			if not sv in result:
+				result[sv]=s
 		return result
 		 
 	@classmethod
@@ -660,7 +634,10 @@ class RegularExpression:
 	def __init__(self,src):
 		p=RegularExpressionParser(src)
 		pyre=p.ParseRegExp()
-		self.p=compile(pyre)	#: the compiled python regular expression
+		if p.theChar is not None:
+			raise RegularExpressionError("Expected end of expression at [%i]"%p.pos)
+		# the target must match as a whole, whichever branch does it
+		self.p=compile(u"(?:%s)\\Z"%pyre)	#: the compiled python regular expression
 		self.src=src			#: the original source string
 	
 	def __str__(self):
@@ -672,7 +649,7 @@ class RegularExpression:
 	def Match(self,target):
 		"""A convenience function, returns True if the expression matches *target*.""" 
 		m=self.p.match(target)
-		if m is None or m.end(0)<len(target):
+		if m is None:
 			# print "No Match"
 			return 0
 		else:
-- 
2.43.0


From e41b9d921254ae823b67fbf46800f1fef7c11e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 38/48] fix: QTI v2 expressions give the values the
 specification defines

---
 pyslet/pyslet/qtiv2/core.py        |   4 +-
 pyslet/pyslet/qtiv2/expressions.py | 103 ++++++++++++++++++++++-------
 pyslet/pyslet/qtiv2/variables.py   |  46 +++++++++----
 pyslet/pyslet/rfc2396.py           |   3 +
 4 files changed, 119 insertions(+), 37 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/core.py b/pyslet/pyslet/qtiv2/core.py
index ba319e2..f0157eb 100755
--- a/pyslet/pyslet/qtiv2/core.py
+++ b/pyslet/pyslet/qtiv2/core.py
@@ -161,6 +161,7 @@ def CalculateShapeBounds(shape,coords):
 				output[1]=y
 			elif y>output[3]:
 				output[3]=y
+			i+=1
 		return output
 	elif shape==Shape.rect:
 		return [coords[0].GetValue(1024),coords[1].GetValue(768),
@@ -186,6 +187,7 @@ def OffsetShape(shape,coords,xOffset,yOffset):
 		while 2*i+1<len(coords):
 			coords[2*i].Add(-xOffset)
 			coords[2*i+1].Add(-yOffset)
+			i+=1
 	elif shape==Shape.rect:
 		coords[0].Add(-xOffset)
 		coords[1].Add(-yOffset)
@@ -367,6 +369,6 @@ def GetTemplateRef(value):
 	the value does not look like a template variable reference."""
 	if value.startswith('{') and value.endswith('}'):
 		idValue=value[1:-1]
-		if xsi.IsValidNCName(idValue):
+		if xmlns.IsValidNCName(idValue):
 			return idValue
 	return None
diff --git a/pyslet/pyslet/qtiv2/expressions.py b/pyslet/pyslet/qtiv2/expressions.py
index 173a72a..0937d06 100755
--- a/pyslet/pyslet/qtiv2/expressions.py
+++ b/pyslet/pyslet/qtiv2/expressions.py
@@ -9,6 +9,16 @@ import pyslet.qtiv2.variables as variables
 import string, random, itertools, math
 
 
+def _IntegerResult(value):
+	"""Returns an :py:class:`variables.IntegerValue` instance representing the
+	result of a calculation, NULL if *value* is outside the value set defined by
+	integer."""
+	if value<-2147483648 or value>2147483647:
+		return variables.IntegerValue()
+	else:
+		return variables.IntegerValue(value)
+
+
 class Expression(core.QTIElement):
 	"""Abstract class for all expression elements."""
 	
@@ -285,7 +295,12 @@ class RandomInteger(Expression):
 		min=self.IntegerOrTemplateRef(state,self.min)
 		max=self.IntegerOrTemplateRef(state,self.max)
 		step=self.IntegerOrTemplateRef(state,self.step)
-		return variables.IntegerValue(min+step*random.randint(0,(max-min)//step))
+		if min is None or max is None or step is None:
+			# a reference to a variable with a NULL value
+			return variables.IntegerValue()
+		if max<min or step<1:
+			raise core.ProcessingError("randomInteger: empty range [%i,%i] with step %i"%(min,max,step))
+		return _IntegerResult(min+step*random.randint(0,(max-min)//step))
 		
 		
 class RandomFloat(Expression):
@@ -309,6 +324,9 @@ class RandomFloat(Expression):
 	def Evaluate(self,state):
 		min=self.FloatOrTemplateRef(state,self.min)
 		max=self.FloatOrTemplateRef(state,self.max)
+		if min is None or max is None:
+			# a reference to a variable with a NULL value
+			return variables.FloatValue()
 		# strictly speaking, we can never return max, but due to possible rounding
 		# this point is academic
 		return variables.FloatValue(min+random.random()*(max-min))
@@ -362,6 +380,8 @@ class Multiple(NOperator):
 		vInput=[]
 		for v in values:
 			if v.baseType is None:
+				if v:
+					raise core.ProcessingError("Record values not allowed in Multiple")
 				continue
 			if baseType is None:
 				baseType=v.baseType
@@ -403,6 +423,8 @@ class Ordered(NOperator):
 		vInput=[]
 		for v in values:
 			if v.baseType is None:
+				if v:
+					raise core.ProcessingError("Record values not allowed in Ordered")
 				continue
 			if baseType is None:
 				baseType=v.baseType
@@ -598,6 +620,9 @@ class Member(NOperator):
 		if len(values)!=2:
 			raise core.ProcessingError("Member requires two sub-expressions, found %i"%len(values))
 		singleValue,containerValue=values
+		for v in values:
+			if v and v.baseType is None:
+				raise core.ProcessingError("Member operator must not be used on record values")
 		if singleValue.baseType is None or containerValue.baseType is None:
 			return variables.BooleanValue()
 		if singleValue.baseType!=containerValue.baseType:
@@ -638,6 +663,12 @@ class Delete(NOperator):
 		if len(values)!=2:
 			raise core.ProcessingError("Delete requires two sub-expressions, found %i"%len(values))
 		singleValue,containerValue=values
+		for v in values:
+			if v and v.baseType is None:
+				raise core.ProcessingError("Delete operator must not be used on record values")
+		if containerValue.Cardinality() not in (variables.Cardinality.ordered,variables.Cardinality.multiple,None):
+			raise core.ProcessingError("Expected ordered or multiple value, found %s"%
+				variables.Cardinality.EncodeValue(containerValue.Cardinality()))
 		if containerValue.baseType is None:
 			return variables.Container.NewValue(containerValue.Cardinality(),singleValue.baseType)
 		elif singleValue.baseType is None:
@@ -649,9 +680,6 @@ class Delete(NOperator):
 		if singleValue.Cardinality() not in (variables.Cardinality.single,None):
 			raise core.ProcessingError("Expected single value, found %s"%
 				variables.Cardinality.EncodeValue(singleValue.Cardinality()))
-		if containerValue.Cardinality() not in (variables.Cardinality.ordered,variables.Cardinality.multiple,None):				
-			raise core.ProcessingError("Expected ordered or multiple value, found %s"%
-				variables.Cardinality.EncodeValue(containerValue.Cardinality()))
 		result=variables.Container.NewValue(containerValue.Cardinality(),containerValue.baseType)
 		if singleValue and containerValue:
 			# we treat multiple and ordered the same, less efficient as we enumerate all members
@@ -688,6 +716,8 @@ class Contains(NOperator):
 		cardinality=variables.CheckCardinalities(v1.Cardinality(),v2.Cardinality())
 		if baseType==variables.BaseType.duration:
 			raise core.ProcessingError("Contains operator must not be used on duration values")
+		if cardinality==variables.Cardinality.record and (v1 or v2):
+			raise core.ProcessingError("Contains operator must not be used on record values")
 		if cardinality is None or baseType is None:
 			return variables.BooleanValue()
 		if v1 and v2:
@@ -868,6 +898,9 @@ class AnyN(NOperator):
 		values=list(self.EvaluateChildren(state))
 		variables.CheckCardinalities(*map(lambda x:x.Cardinality(),values)+[variables.Cardinality.single])
 		variables.CheckBaseTypes(*map(lambda x:x.baseType,values)+[variables.BaseType.boolean])
+		if min is None or max is None:
+			# a reference to a variable with a NULL value
+			return variables.BooleanValue()
 		nTrue=nNull=0
 		for v in values:			
 			if v.value==True:
@@ -990,7 +1023,7 @@ class PatternMatch(UnaryOperator):
 		value=self.Expression.Evaluate(state)
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.string)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
-		if value:
+		if value and pattern is not None:
 			try:
 				re=xsi.RegularExpression(pattern)
 				return variables.BooleanValue(re.Match(value.value))
@@ -1088,6 +1121,9 @@ class Equal(NOperator):
 					t1=self.FloatOrTemplateRef(state,self.tolerance[1])
 				else:
 					t1=t0
+				if t0 is None or t1 is None:
+					# a reference to a variable with a NULL value
+					return variables.BooleanValue()
 				if self.toleranceMode==ToleranceMode.absolute:
 					lowerBound=v1v-t0
 					upperBound=v1v+t1
@@ -1172,7 +1208,15 @@ class EqualRounded(NOperator):
 			v1v=float(v1.value)
 			v2v=float(v2.value)
 			figures=self.IntegerOrTemplateRef(state,self.figures)
-			if self.roundingMode==RoundingMode.decimalPlaces:
+			if figures is None:
+				# a reference to a variable with a NULL value
+				return variables.BooleanValue()
+			elif figures<(0 if self.roundingMode==RoundingMode.decimalPlaces else 1):
+				raise core.ProcessingError("equalRounded: illegal number of figures: %i"%figures)
+			elif math.isnan(v1v) or math.isinf(v1v) or math.isnan(v2v) or math.isinf(v2v):
+				# these values can't be rounded
+				return variables.BooleanValue(v1v==v2v)
+			elif self.roundingMode==RoundingMode.decimalPlaces:
 				return variables.BooleanValue(xsi.EncodeDecimal(v1v,figures,False)==
 					xsi.EncodeDecimal(v2v,figures,False))
 			else:
@@ -1442,7 +1486,7 @@ class Sum(NOperator):
 			return variables.FloatValue(float(sum))
 		else:
 			# sum will still be of type integer at this point
-			return variables.IntegerValue(sum)
+			return _IntegerResult(sum)
 
 
 class Product(NOperator):
@@ -1480,7 +1524,7 @@ class Product(NOperator):
 			return variables.FloatValue(float(product))
 		else:
 			# sum will still be of type integer at this point
-			return variables.IntegerValue(product)
+			return _IntegerResult(product)
 
 
 class Subtract(NOperator):
@@ -1513,7 +1557,7 @@ class Subtract(NOperator):
 				v2v=float(v2.value)
 				return variables.FloatValue(v1v-v2v)
 			else:
-				return variables.IntegerValue(v1.value-v2.value)
+				return _IntegerResult(v1.value-v2.value)
 		else:
 			if baseType==variables.BaseType.float:
 				return variables.FloatValue()
@@ -1544,12 +1588,15 @@ class Divide(NOperator):
 			v1v=float(v1.value)
 			v2v=float(v2.value)
 			try:
-				return variables.FloatValue(v1v/v2v)
+				result=v1v/v2v
+				if not math.isinf(result):
+					return variables.FloatValue(result)
 			except ZeroDivisionError:
-				# if [the second value] is zero or the resulting value is
-				# outside the value set defined by float (not including positive
-				# and negative infinity) then the operator should result in NULL
-				return variables.FloatValue()
+				pass
+			# if [the second value] is zero or the resulting value is
+			# outside the value set defined by float (not including positive
+			# and negative infinity) then the operator should result in NULL
+			return variables.FloatValue()
 		else:
 			return variables.FloatValue()
 
@@ -1577,12 +1624,15 @@ class Power(NOperator):
 			v1v=float(v1.value)
 			v2v=float(v2.value)
 			try:
-				return variables.FloatValue(math.pow(v1v,v2v))
-			except ValueError:
-				# If the resulting value is outside the value set defined by
-				# float (not including positive and negative infinity) then the
-				# operator shall result in NULL
-				return variables.FloatValue()
+				result=math.pow(v1v,v2v)
+				if not math.isinf(result):
+					return variables.FloatValue(result)
+			except (ValueError,OverflowError):
+				pass
+			# If the resulting value is outside the value set defined by
+			# float (not including positive and negative infinity) then the
+			# operator shall result in NULL
+			return variables.FloatValue()
 		else:
 			return variables.FloatValue()
 
@@ -1609,7 +1659,7 @@ class IntegerDivide(NOperator):
 		variables.CheckCardinalities(v1.Cardinality(),v2.Cardinality(),variables.Cardinality.single)
 		if v1 and v2:
 			try:
-				return variables.IntegerValue(v1.value//v2.value)
+				return _IntegerResult(v1.value//v2.value)
 			except ZeroDivisionError:
 				return variables.IntegerValue()
 		else:
@@ -1663,7 +1713,10 @@ class Truncate(UnaryOperator):
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.float)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
 		if value:
-			return variables.IntegerValue(int(value.value))
+			if math.isnan(value.value) or math.isinf(value.value):
+				# not in the value set defined by integer
+				return variables.IntegerValue()
+			return _IntegerResult(int(value.value))
 		else:
 			return variables.IntegerValue()
 
@@ -1686,7 +1739,11 @@ class Round(UnaryOperator):
 		variables.CheckBaseTypes(value.baseType,variables.BaseType.float)
 		variables.CheckCardinalities(value.Cardinality(),variables.Cardinality.single)
 		if value:
-			return variables.IntegerValue(int(math.floor(value.value+0.5)))
+			if math.isnan(value.value) or math.isinf(value.value):
+				# not in the value set defined by integer
+				return variables.IntegerValue()
+			floor=math.floor(value.value)
+			return _IntegerResult(int(floor)+(1 if value.value-floor>=0.5 else 0))
 		else:
 			return variables.IntegerValue()
 
diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 37e2bfe..968b7fc 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -9,7 +9,7 @@ from pyslet.rfc2396  import URI, URIFactory
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.tests as tests
 
-import os, time, hashlib, types
+import os, time, hashlib, types, StringIO
 import string, itertools
 from types import BooleanType,IntType,LongType,FloatType,StringTypes,DictType,TupleType,ListType
 
@@ -22,6 +22,11 @@ class SessionKeyExpired(core.QTIError):
 	"""Exception raised when a session is invoked with an expired key."""
 	pass
 
+class BadSessionParams(core.QTIError):
+	"""Raised when the parameters of an item session event don't match the
+	response variables of the item."""
+	pass
+
 class SessionActionMissing(core.QTIError):
 	"""Exception raised when an unrecognised action is handled by a test session."""
 	
@@ -484,13 +489,15 @@ class DirectedPairValue(SingleValue):
 class FileValue(SingleValue):
 	"""Represents single value of type :py:class:`BaseType.file`."""
 	
-	def __init__(self):
+	def __init__(self,value=None):
 		super(FileValue,self).__init__()
 		self.baseType=BaseType.file
 		self.contentType=http.MediaType.FromString("application/octet-stream")
 		"""The content type of the file, a :py:class:`pyslet.rfc2616.HTTPMediaType` instance."""
 		self.fileName="data.bin"
 		"""The file name to use for the file."""
+		if value is not None:
+			 self.SetValue(value)
 		
 	def __unicode__(self):
 		if self.value is None:
@@ -511,15 +518,19 @@ class FileValue(SingleValue):
 		If value is a plain string then it is assumed to represent the file's
 		data directly, *type* and *name* are used to interpret the data.
 		Other file type objects are set in the same way."""
-		self.contentType=type
+		if isinstance(type,http.MediaType):
+			self.contentType=type
+		else:
+			self.contentType=http.MediaType.FromString(type)
 		self.fileName=name
 		if value is None:
 			self.value=None
-		elif type(value) is FileType:
+		elif hasattr(value,'read') and hasattr(value,'seek'):
+			# a file like object
 			self.value=value
-		elif type(value) is StringType:
+		elif isinstance(value,str):
 			self.value=StringIO.StringIO(value)
-		elif type(value) is UnicodeType:
+		elif isinstance(value,unicode):
 			# Parse this value from the MIME stream.
 			raise NotImplementedError("String deserialization of BaseType.file.")
 		else:
@@ -635,7 +646,7 @@ class IntegerValue(SingleValue):
 			else:
 				self.value=int(value)
 		elif type(value) in StringTypes:
-			self.value=xsi.DecodeInteger(value)
+			self.SetValue(xsi.DecodeInteger(value))
 		else:
 			self.ValueError(value)
 
@@ -767,9 +778,9 @@ class Container(Value):
 		
 		We therefore opt for a minimal representation."""
 		if self.baseType is None:
-			return u"%s container of unknown base type"%Cardinality.EncodeValue(self.Cardinality)
+			return u"%s container of unknown base type"%Cardinality.EncodeValue(self.Cardinality())
 		else:
-			return u"%s container of base type %s"%(Cardinality.EncodeValue(self.Cardinality),
+			return u"%s container of base type %s"%(Cardinality.EncodeValue(self.Cardinality()),
 				BaseType.EncodeValue(self.baseType))
 
 	@classmethod
@@ -842,6 +853,8 @@ class MultipleContainer(Container):
 		iterable. The list must contain valid representations of *baseType*,
 		items may be None indicating a NULL value in the list.  In accordance
 		with the specification's multiple operator NULL values are ignored.
+		The value can also be set from a dictionary that maps values onto their
+		frequency, as described in :py:attr:`value`.
 				
 		If the input list of values is empty, or contains only NULL values then the
 		resulting container is empty.
@@ -853,6 +866,8 @@ class MultipleContainer(Container):
 		if value is None:
 			self.value=None
 		else:
+			if type(value) is DictType:
+				value=list(itertools.chain(*[[v]*value[v] for v in value]))
 			self.value={}
 			for v in value:
 				if v is None:
@@ -946,22 +961,25 @@ class RecordContainer(Container):
 			print r['pi']            # raises KeyError"""
 		if value is None:
 			if self.value and fieldIdentifier in self.value:
-				del self.value[fieldIdentifier]
+				del self[fieldIdentifier]
 		elif isinstance(value,SingleValue):
 			if not value:
 				if self.value and fieldIdentifier in self.value:
-					del self.value[fieldIdentifier]
+					del self[fieldIdentifier]
 			else:
 				if self.value is None:
 					self.value={fieldIdentifier:value}
 				else:
 					self.value[fieldIdentifier]=value		
 		else:
-			raise ValueError("Single value required, found %s"%repr(v))	
+			raise ValueError("Single value required, found %s"%repr(value))	
 
 	def __delitem__(self,fieldIdentifier):
 		if self.value:
 			del self.value[fieldIdentifier]
+			if not self.value:
+				# an empty container is NULL
+				self.value=None
 		else:
 			raise KeyError(fieldIdentifier)
 	
@@ -1459,7 +1477,9 @@ class MatchTable(LookupTable):
 		self.map={}
 		for mte in self.MatchTableEntry:
 			v=SingleValue.NewValue(self.baseType,mte.targetValue)
-			self.map[mte.sourceValue]=v.value
+			if mte.sourceValue not in self.map:
+				# the first matching entry counts
+				self.map[mte.sourceValue]=v.value
 					
 	def Lookup(self,value):
 		"""Maps an instance of :py:class:`Value` with integer base type to an
diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index aed96b2..b31ab10 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -850,6 +850,9 @@ class URI(object):
 		"""Compare this URI against another URI or a string."""
 		return cmp(str(self),str(otherURI))
 
+	def __hash__(self):
+		return hash(str(self))
+
 	def Canonicalize(self):
 		"""Returns a canonical form of this URI"""
 		newURI=[]
-- 
2.43.0


From 5ede8cc1088cc9abf26b5bdce7c21fb403e49a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:27 +0000
Subject: [PATCH 39/48] fix: QTI v2 test forms, item sessions and test sessions
 follow the specification

---
 pyslet/pyslet/qtiv2/interactions.py |   6 +-
 pyslet/pyslet/qtiv2/tests.py        |  14 +--
 pyslet/pyslet/qtiv2/variables.py    | 145 +++++++++++++++-------------
 3 files changed, 92 insertions(+), 73 deletions(-)

diff --git a/pyslet/pyslet/qtiv2/interactions.py b/pyslet/pyslet/qtiv2/interactions.py
index 212c95b..f08f7f1 100755
--- a/pyslet/pyslet/qtiv2/interactions.py
+++ b/pyslet/pyslet/qtiv2/interactions.py
@@ -6,6 +6,7 @@ import pyslet.xsdatatypes20041028 as xsi
 
 import pyslet.qtiv2.core as core
 import pyslet.qtiv2.content as content
+import pyslet.qtiv2.variables as variables
 
 import itertools
 
@@ -243,7 +244,10 @@ class SimpleChoice(content.FlowContainerMixin,Choice):
 				htmlInput.type=html.InputType.checkbox
 				htmlInput.name=itemState.formPrefix+interaction.responseIdentifier
 				htmlInput.value=self.identifier
-				htmlInput.checked=(self.identifier in v.value)
+				if v.Cardinality()==variables.Cardinality.single:
+					htmlInput.checked=(v.value==self.identifier)
+				else:
+					htmlInput.checked=(v.value is not None and self.identifier in v.value)
 			else:
 				# we should be a radio button
 				htmlInput.type=html.InputType.radio
diff --git a/pyslet/pyslet/qtiv2/tests.py b/pyslet/pyslet/qtiv2/tests.py
index 3d17299..685136c 100755
--- a/pyslet/pyslet/qtiv2/tests.py
+++ b/pyslet/pyslet/qtiv2/tests.py
@@ -572,7 +572,7 @@ class TestForm(object):
 					newSelection=newSelection+self.Select(child,True)
 					newSelection.append(u"-"+child.identifier)
 		selection=newSelection
-		if shuffleList:
+		if None in selection:
 			# Step 5: shuffle!
 			random.shuffle(shuffleList)
 			# Expanded invisible sections may mean we have more shuffled items than free slots
@@ -586,7 +586,9 @@ class TestForm(object):
 			buckets=[]
 			for child in selection:
 				if child is None:
-					buckets.append([shuffleList[i]])
+					# there may be fewer shuffled items than free slots too, if an
+					# expanded invisible section is empty
+					buckets.append(shuffleList[i:i+1])
 					i+=1
 			while i<len(shuffleList):
 				# choose a random bucket
@@ -599,8 +601,8 @@ class TestForm(object):
 				for childID in b:
 					newBucket.append(childID)
 					child=self.test.GetPart(childID)
-					if isinstance(child,AssessmentSection):
-						newBucket.extend(self.Select(childID,True))
+					if isinstance(child,AssessmentSection) and expandChildren:
+						newBucket.extend(self.Select(child,True))
 						newBucket.append(u"-"+childID)	
 				i=selection.index(None)
 				selection[i:i+1]=newBucket
@@ -612,8 +614,8 @@ class TestForm(object):
 		else:
 			return []
 
-	def index(self,pName):
-		return self.components.index(pName)
+	def index(self,pName,start=0):
+		return self.components.index(pName,start)
 		
 	def __len__(self):
 		return len(self.components)
diff --git a/pyslet/pyslet/qtiv2/variables.py b/pyslet/pyslet/qtiv2/variables.py
index 968b7fc..f5ac94c 100755
--- a/pyslet/pyslet/qtiv2/variables.py
+++ b/pyslet/pyslet/qtiv2/variables.py
@@ -1647,14 +1647,21 @@ class SessionState(object):
 				print "RESPONSE declared!" """
 		raise KeyError(varName)
 			
+	def _FindDeclaration(self,varName):
+		# the declaration or None, also if varName is not a variable at all
+		try:
+			return self.GetDeclaration(varName)
+		except KeyError:
+			return None
+
 	def IsResponse(self,varName):
 		"""Return True if *varName* is the name of a response variable."""
-		d=self.GetDeclaration(varName)
+		d=self._FindDeclaration(varName)
 		return isinstance(d,ResponseDeclaration)
 			
 	def IsOutcome(self,varName):
 		"""Return True if *varName* is the name of an outcome variable."""
-		d=self.GetDeclaration(varName)
+		d=self._FindDeclaration(varName)
 		return isinstance(d,OutcomeDeclaration)
 	
 	def SetOutcomeDefaults(self):
@@ -1662,7 +1669,7 @@ class SessionState(object):
 
 	def IsTemplate(self,varName):
 		"""Return True if *varName* is the name of a template variable."""
-		d=self.GetDeclaration(varName)
+		d=self._FindDeclaration(varName)
 		return isinstance(d,TemplateDeclaration)
 	
 	def __len__(self):
@@ -1816,81 +1823,78 @@ class ItemSessionState(SessionState):
 		return self.item.RenderHTML(self,htmlParent)
 	
 	def _SaveParameters(self,params):
+		"""Saves the values given in *params*.
+
+		Nothing is saved, and :py:class:`BadSessionParams` is raised, if any of
+		the parameters is not acceptable."""
+		savedValues={}
 		orderedParams={}
 		for p in params:
 			if self.formPrefix and not p.startswith(self.formPrefix):
 				# ignore values not intended for us
 				continue
 			rName=p[len(self.formPrefix):].split(".")
-			if not rName:
-				continue
 			# rName must be the name of a response variable
-			rd=self.GetDeclaration(rName[0])
+			rd=self._FindDeclaration(rName[0])
 			if rd is None or not isinstance(rd,ResponseDeclaration):
 				# unexpected item in bagging area!
 				raise BadSessionParams("Unexpected item submitted wth form: %s"%p)
 			# so we have a new response value to save
-			saveName=rName[0]+".SAVED"
-			if saveName not in self:
-				 self.map[saveName]=v=Value.NewValue(rd.cardinality,rd.baseType)
-			else:
-				v=self.map[saveName]
 			# now we need to parse a value from the form to save
 			sValue=params[p]
-			if rd.cardinality==Cardinality.single:
-				# We are expecting a single value from the form
-				if type(sValue) in StringTypes:
-					v.SetValue(sValue)
-				else:
-					raise BadSessionParams("Unexpected multi-value submission: %s"%p)
-			elif rd.cardinality==Cardinality.multiple:
-				# we are expecting a simple list of values
-				if type(sValue) in StringTypes:
-					# single item list
-					v.SetValue([sValue])
-				else:
-					v.SetValue(sValue)
-			elif rd.cardinality==Cardinality.ordered:
-				# there are two ways of setting these values, either RESPONSE.rank=VALUE
-				# or RESPONSE.VALUE=rank.  The latter representation is only valid for
-				# identifiers, to ensure we don't mix them up with ranks.
-				if len(rName)!=2:
-					continue
-				try:
-					if rd.baseType==BaseType.Identifier and core.ValidateIdentifier(rName[1]):
-						if type(sValue) in StringTypes:
-							v.SetValue(sValue)
-						else:
-							raise ValueError
+			v=Value.NewValue(rd.cardinality,rd.baseType)
+			try:
+				if rd.cardinality==Cardinality.single:
+					# We are expecting a single value from the form
+					if type(sValue) in StringTypes:
+						v.SetValue(sValue)
+					else:
+						raise BadSessionParams("Unexpected multi-value submission: %s"%p)
+					savedValues[rName[0]]=v
+				elif rd.cardinality==Cardinality.multiple:
+					# we are expecting a simple list of values
+					if type(sValue) in StringTypes:
+						# single item list
+						v.SetValue([sValue])
+					else:
+						v.SetValue(sValue)
+					savedValues[rName[0]]=v
+				elif rd.cardinality==Cardinality.ordered:
+					# there are two ways of setting these values, either RESPONSE.rank=VALUE
+					# or RESPONSE.VALUE=rank.  The latter representation is only valid for
+					# identifiers, to ensure we don't mix them up with ranks.
+					if len(rName)!=2:
+						continue
+					if type(sValue) not in StringTypes:
+						raise BadSessionParams("Unexpected multi-value submission: %s"%p)
+					if rd.baseType==BaseType.identifier and xmlns.IsValidNCName(rName[1]):
 						rank=xsi.DecodeInteger(sValue)
 						sValue=rName[1]
 					else:
 						rank=xsi.DecodeInteger(rName[1])
-					if saveName in orderedParams:
-						if rank in orderedParams[saveName]:
-							# duplicate entries, we don't allow these
-							raise ValueError
-						orderedParams[saveName][rank]=sValue
-					else:
-						orderedParams[saveName]={rank:sValue}
-				except ValueError:
-					raise BadSessionParams("Bad value in submission for: %s"%p)
-			else:
-				raise NotImplementedError
-		if orderedParams:
-			# we've gathered ordered parameters in a dictionary of dictionaries
-			# keyed first on response identifier and then on rank.  For each
-			# response we just sort them, so missing ranks are OK.
-			for response in orderedParams:
-				rParams=orderedParams[response]
-				ranks=rParams.keys()
-				ranks.sort()
-				sValue=[]
-				for r in ranks:
-					sValue.append(rParams[r])
-				saveName=response+".SAVED"
-				v=self.map[saveName]
-				v.SetValue(sValue)				
+					ranks=orderedParams.setdefault(rName[0],{})
+					if rank in ranks:
+						# duplicate entries, we don't allow these
+						raise ValueError
+					ranks[rank]=sValue
+				else:
+					raise NotImplementedError
+			except ValueError:
+				raise BadSessionParams("Bad value in submission for: %s"%p)
+		# we've gathered ordered parameters in a dictionary of dictionaries
+		# keyed first on response identifier and then on rank.  For each
+		# response we just sort them, so missing ranks are OK.
+		for response in orderedParams:
+			rParams=orderedParams[response]
+			rd=self.GetDeclaration(response)
+			v=Value.NewValue(rd.cardinality,rd.baseType)
+			try:
+				v.SetValue([rParams[r] for r in sorted(rParams)])
+			except ValueError:
+				raise BadSessionParams("Bad value in submission for: %s"%response)
+			savedValues[response]=v
+		for response in savedValues:
+			self.map[response+".SAVED"]=savedValues[response]
 				
 	def EndAttempt(self):
 		"""Called at the end of an attempt.  Invokes response processing if present."""
@@ -1912,7 +1916,7 @@ class ItemSessionState(SessionState):
 		"""Return True if *varName* is the name of a response variable.
 		
 		We add handling of the built-in response variables numAttempts and duration."""
-		d=self.GetDeclaration(varName)
+		d=self._FindDeclaration(varName)
 		if d is None:
 			return varName in ('numAttempts','duration')
 		else:
@@ -1922,7 +1926,7 @@ class ItemSessionState(SessionState):
 		"""Return True if *varName* is the name of an outcome variable.
 		
 		We add handling of the built-in outcome variable completionStatus."""
-		d=self.GetDeclaration(varName)
+		d=self._FindDeclaration(varName)
 		if d is None:
 			return varName=='completionStatus'
 		else:
@@ -2028,7 +2032,8 @@ class TestSessionState(SessionState):
 			self.t=time.time()
 			dt=0.0
 		hash=hashlib.sha224()
-		hash.update(self.salt+"%.6f"%self.t)
+		# the number of previous keys keeps the keys of simultaneous events apart
+		hash.update(self.salt+"%.6f %i"%(self.t,len(self.keyMap)))
 		self.key=unicode(hash.hexdigest())
 		return dt
 		
@@ -2059,6 +2064,7 @@ class TestSessionState(SessionState):
 			return len(self.form)
 		else:
 			qPos=qPos+1
+			depth=0
 			while True:
 				if qPos>=len(self.form):
 					return qPos
@@ -2069,10 +2075,14 @@ class TestSessionState(SessionState):
 				# handle the other special identifiers which move to the point just
 				# after the end of the part being exited
 				if id[0]==u"-":
-					if target==u"EXIT_SECTION":
+					if target==u"EXIT_SECTION" and depth==0:
 						return qPos
 					elif target==u"EXIT_TESTPART" and isinstance(self.test.GetPart(id[1:]),tests.TestPart):
 						return qPos
+					depth=depth-1
+				elif not isinstance(self.test.GetPart(id),tests.AssessmentItemRef):
+					# the end of this section is not the end we're looking for
+					depth=depth+1
 		
 	def _NextQuestion(self):
 		if self.cQuestion is None:
@@ -2133,9 +2143,12 @@ class TestSessionState(SessionState):
 							itemState.BeginSession()
 						self.cQuestion=iQ
 						break
-				else:
+				elif isinstance(part,tests.AssessmentItemRef):
 					# skip this item
 					iQ=iQ+1
+				else:
+					# skip this section or test part and everything in it
+					iQ=self.form.index(u"-"+part.identifier,iQ)+1
 
 			
 	def BeginSession(self,key,htmlParent=None):
-- 
2.43.0


From 474f60a89dd68ead59ecf371e5e392c16cb58749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:40 +0000
Subject: [PATCH 40/48] fix: URIs are resolved, related, canonicalized and
 unescaped as RFC 2396 defines

---
 pyslet/pyslet/rfc2396.py                | 95 +++++++++++++------------
 pyslet/pyslet/rfc2616_params.py         | 12 ++--
 pyslet/pyslet/xml20081126/structures.py |  5 +-
 3 files changed, 61 insertions(+), 51 deletions(-)

diff --git a/pyslet/pyslet/rfc2396.py b/pyslet/pyslet/rfc2396.py
index b31ab10..20f42a9 100755
--- a/pyslet/pyslet/rfc2396.py
+++ b/pyslet/pyslet/rfc2396.py
@@ -95,7 +95,7 @@ def ParseScheme(octets):
 		if (pos and IsSchemeChar(c)) or IsAlpha(c):
 			pos+=1
 		else:
-			if ord(c)==0x3A:
+			if ord(c)==0x3A and pos:
 				# we have the scheme
 				scheme=octets[0:pos]
 			break
@@ -157,16 +157,23 @@ def UnescapeData(source):
 			if IsHex(c):
 				mode=c
 			else:
+				# not an escape, c may be the start of one though
 				data.append('%')
-				data.append(c)
 				mode=None
+				pos-=1
 		else:
 			if IsHex(c):
 				data.append(chr(int(mode+c,16)))
 			else:
 				data.append('%')
 				data.append(mode)
+				pos-=1
 			mode=None
+	if mode is not None:
+		# an incomplete escape at the end
+		data.append('%')
+		if mode!='%':
+			data.append(mode)
 	return string.join(data,'')
 
 
@@ -302,23 +309,30 @@ def NormalizeSegments(pathSegments):
 		# special case of trailing '..' gets an extra slash for consistency
 		pathSegments.append('')
 		
+def ProtectSegments(pathSegments):
+	"""Adds a leading '.' to a list of pathSegments that would not be read as
+	a relative path otherwise: the first segment is empty or has a colon."""
+	if pathSegments and ((len(pathSegments)>1 and not pathSegments[0]) or ':' in pathSegments[0]):
+		pathSegments.insert(0,'.')
+
 def RelativizeSegments(pathSegments,baseSegments):
-	result=[]
+	"""Returns pathSegments relative to baseSegments as a list of segments.
+	
+	Both lists must be normalized and not empty.  Returns None if there is no
+	such path, which happens if the base has more leading '..' segments than
+	the path."""
 	pos=0
-	while pos<len(baseSegments):
-		if result:
-			result=['..']+result
-		else:
-			if pos>=len(pathSegments) or baseSegments[pos]!=pathSegments[pos]:
-				result=result+pathSegments[pos:]
+	while pos<len(baseSegments)-1 and pos<len(pathSegments)-1:
+		if pathSegments[pos]!=baseSegments[pos]:
+			break
 		pos=pos+1
-	if not result and len(pathSegments)>len(baseSegments):
-		# full match but pathSegments is longer
-		return pathSegments[len(baseSegments)-1:]
-	elif result==['']:
-		return ['.']+result
-	else:
-		return result
+	if '..' in baseSegments[pos:-1]:
+		return None
+	result=['..']*(len(baseSegments)-1-pos)+pathSegments[pos:]
+	if result==['']:
+		result=['.','']
+	ProtectSegments(result)
+	return result
 	
 def MakeRelPathAbs(absPath,basePath):
 	"""Return absPath relative to basePath"""
@@ -327,6 +341,9 @@ def MakeRelPathAbs(absPath,basePath):
 	baseSegments=SplitAbsPath(basePath)
 	NormalizeSegments(baseSegments)
 	result=RelativizeSegments(pathSegments,baseSegments)
+	if result is None:
+		# there is nothing in common
+		return absPath
 	return string.join(result,'/')
 
 def MakeRelPathRel(relPath,baseRelPath):
@@ -335,28 +352,9 @@ def MakeRelPathRel(relPath,baseRelPath):
 	NormalizeSegments(pathSegments)
 	baseSegments=SplitRelPath(baseRelPath)
 	NormalizeSegments(baseSegments)
-	# At this point there are no '.' components, but there may be leading '..'
-	i=0
-	while i<len(pathSegments):
-		if pathSegments[i]=='..':
-			i+=1
-		else:
-			break
-	j=0
-	while j<len(baseSegments):
-		if baseSegments[j]=='..':
-			j+=1
-		else:
-			break
-	if j>i:
-		i=j
-	if i:
-		# we have leading '..' components, add a common path prefix and re-normalize
-		pathSegments=['x']*i+pathSegments
-		NormalizeSegments(pathSegments)
-		baseSegments=['x']*i+baseSegments
-		NormalizeSegments(baseSegments)
 	result=RelativizeSegments(pathSegments,baseSegments)
+	if result is None:
+		raise URIRelativeError(baseRelPath)
 	return string.join(result,'/')
 
 
@@ -687,16 +685,20 @@ class URI(object):
 		if self.authority is None:
 			authority=base.authority
 			if self.absPath is None:
-				if base.absPath is not None:
+				if base.absPath is not None or base.authority is not None:
+					# an authority without a path has the root as its path
 					segments=SplitAbsPath(base.absPath)[:-1]
 					segments=segments+SplitRelPath(self.relPath)
 					NormalizeSegments(segments)
 					absPath='/'+string.join(segments,'/')
 					relPath=None
 				else:
-					segments=SplitRelPath(base.relPath)[:-1]
-					segments=segments+SplitRelPath(self.relPath)
+					segments=SplitRelPath(base.relPath)
+					# a trailing '..' is a directory
 					NormalizeSegments(segments)
+					segments=segments[:-1]+SplitRelPath(self.relPath)
+					NormalizeSegments(segments)
+					ProtectSegments(segments)
 					absPath=None
 					relPath=string.join(segments,'/')
 					if relPath=='':
@@ -784,7 +786,7 @@ class URI(object):
 		if self.authority is None:
 			if base.authority is not None:
 				raise URIRelativeError(str(base))
-		if self.authority!=base.authority:
+		if self.authority!=base.authority or (self.authority is not None and self.absPath is None):
 			authority=self.authority
 			absPath=self.absPath
 			relPath=self.relPath
@@ -803,14 +805,17 @@ class URI(object):
 					# two relative paths, calculate self relative to base
 					# we add a common leading segment to re-use the absPath routine
 					relPath=MakeRelPathRel(self.relPath,base.relPath)
-			elif base.absPath is None:
+			elif base.absPath is None and base.authority is None:
 				return URIFactory.URI(str(self))
 			else:
 				# two absolute paths, calculate self relative to base
 				absPath=None
-				relPath=MakeRelPathAbs(self.absPath,base.absPath)
+				relPath=MakeRelPathAbs(self.absPath,base.absPath or '/')
 				# todo: /a/b relative to /c/d really should be '/a/b' and not ../a/b
 				# in particular, drive letters look wrong in relative paths: ../C:/Program%20Files/
+			if self.octets==base.octets:
+				# the base itself, just the fragment will do
+				return URIFactory.URI(str(self)[len(self.octets):])
 		result=[]
 		if authority is not None:
 			result.append('//')
@@ -1016,7 +1021,9 @@ class ServerBasedURL(URI):
 				if port!=self.DEFAULT_PORT:
 					newURI.append(':')
 					newURI.append("%i"%int(self.port))
-		if self.absPath is not None:
+		if self.opaquePart is not None:
+			newURI.append(self.opaquePart)
+		elif self.absPath is not None:
 			newURI.append(self.absPath)
 		elif self.relPath is not None:
 			newURI.append(self.relPath)
diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 7f8078d..522471f 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -83,11 +83,13 @@ class HTTPURL(uri.ServerBasedURL):
 				if port!=self.DEFAULT_PORT:
 					newURI.append(':')
 					newURI.append("%i"%int(self.port))
-		if self.absPath is not None:
-			if not self.absPath:
-				newURI.append("/")
-			else:
-				newURI.append(uri.CanonicalizeData(self.absPath))
+		if self.opaquePart is not None:
+			newURI.append(self.opaquePart)
+		elif self.absPath is not None:
+			newURI.append(uri.CanonicalizeData(self.absPath))
+		elif self.authority is not None:
+			# an empty path is equivalent to the root
+			newURI.append("/")
 		elif self.relPath is not None:
 			newURI.append(uri.CanonicalizeData(self.relPath))
 		if self.query is not None:
diff --git a/pyslet/pyslet/xml20081126/structures.py b/pyslet/pyslet/xml20081126/structures.py
index 70cdfaa..ac8b721 100644
--- a/pyslet/pyslet/xml20081126/structures.py
+++ b/pyslet/pyslet/xml20081126/structures.py
@@ -2018,7 +2018,8 @@ class Element(Node):
 		while baser:
 			rebase=baser.GetBase()
 			if baseURI:
-				baseURI=urlparse.urljoin(rebase,baseURI)
+				if rebase:
+					baseURI=str(URIFactory.Resolve(rebase,baseURI))
 			else:
 				baseURI=rebase
 			if isinstance(baser,Element):
@@ -2053,7 +2054,7 @@ class Element(Node):
 		if not isinstance(href,URI):
 			href=URIFactory.URI(href)
 		if not href.IsAbsolute():
-			href=href.Resolve(URIFactory.URLFromPathname(os.getcwd()))
+			href=href.Resolve(URIFactory.URLFromPathname(os.path.join(os.getcwd(),os.curdir)))
 		base=self.ResolveBase()
 		if base is not None:
 			return URIFactory.Relative(href,base)
-- 
2.43.0


From d6c9efa6d6ff1b0bdbfebbade6540138d6f94310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:36 +0000
Subject: [PATCH 41/48] fix: ISO 8601 dates, times and durations are exact and
 malformed ones are refused

---
 pyslet/pyslet/iso8601.py | 147 ++++++++++++++++++++++++++-------------
 1 file changed, 99 insertions(+), 48 deletions(-)

diff --git a/pyslet/pyslet/iso8601.py b/pyslet/pyslet/iso8601.py
index 7a1889d..8603836 100644
--- a/pyslet/pyslet/iso8601.py
+++ b/pyslet/pyslet/iso8601.py
@@ -181,11 +181,11 @@ class Date(object):
 	def __init__(self,src=None,base=None,century=None,decade=None,year=None,month=None,day=None,week=None,weekday=None,ordinalDay=None,absoluteDay=None):
 		if src is None:
 			# explicit form
-			if absoluteDay:
+			if absoluteDay is not None:
 				self._SetFromAbsoluteDay(absoluteDay)
-			elif decade or week or weekday:
+			elif decade is not None or week is not None or weekday is not None:
 				self._SetFromWeekDay(century,decade,year,week,weekday,base)
-			elif ordinalDay:
+			elif ordinalDay is not None:
 				self._SetFromOrdinalDay(century,year,ordinalDay,base)
 			elif century is None and base is None:
 				# use the origin, but everything else must be None too
@@ -346,6 +346,8 @@ class Date(object):
 				mSizes=MONTH_SIZES_LEAPYEAR
 			else:
 				mSizes=MONTH_SIZES
+			if ordinalDay<1 or ordinalDay>sum(mSizes):
+				raise DateTimeError("illegal ordinal day %i"%ordinalDay)
 			self.month=1
 			for m in mSizes:
 				if self.day>m:
@@ -377,12 +379,12 @@ class Date(object):
 		else:
 			if weekday<=0 or weekday>7:
 				raise DateTimeError("weekday %i out of range"%weekday)
-		if week is not None and (week<0 or week>53):
+		if week is not None and (week<1 or week>53):
 			raise DateTimeError("week %i out of range"%week)
 		if year is not None and (year<0 or year>9):
-			raise DateTimeError("year %i within decade is out of range")
+			raise DateTimeError("year %i within decade is out of range"%year)
 		if decade is not None and (decade<0 or decade>9):
-			raise DateTimeError("decade %i is out of range")
+			raise DateTimeError("decade %i is out of range"%decade)
 		self.month=None
 		if century is None:
 			# Truncation
@@ -417,6 +419,9 @@ class Date(object):
 					if self.year<baseYear or (self.year==baseYear and (
 						self.week<baseWeek or (self.week==baseWeek and self.day<baseWeekday))):
 						self.year+=(baseDecade+1)*10
+						if self.year>99:
+							self.year-=100
+							self._AddCentury()
 					else:
 						self.year+=baseDecade*10
 			else:
@@ -549,15 +554,13 @@ class Date(object):
 			baseDay+=days+7*weeks
 			d=type(self)(absoluteDay=baseDay)
 		if months or years or centuries:
-			day=self.day
+			day=d.day
 			month=d.month+months
-			if month>12:
-				years+=(month-1)//12
-				month=(month-1)%12+1
+			years+=(month-1)//12
+			month=(month-1)%12+1
 			year=d.year+years
-			if year>99:
-				centuries+=year//100
-				year=year%100
+			centuries+=year//100
+			year=year%100
 			century=d.century+centuries
 			return type(self)(century=century,year=year,month=month,day=day)
 		else:
@@ -569,6 +572,7 @@ class Date(object):
 		if type(src) in StringTypes:
 			p=ISO8601Parser(src)
 			d,dFormat=p.ParseDateFormat(base)
+			p.ParseEndOfData()
 		else:
 			raise TypeError
 		return d
@@ -584,7 +588,9 @@ class Date(object):
 			# f is set to "YYYY-MM-DD".	"""
 		if type(src) in StringTypes:
 			p=ISO8601Parser(src)
-			return p.ParseDateFormat(base)
+			d,dFormat=p.ParseDateFormat(base)
+			p.ParseEndOfData()
+			return d,dFormat
 		else:
 			raise TypeError
 
@@ -1130,6 +1136,8 @@ class Time(object):
 		elif zMinute is None:
 			self.zOffset=zHour*60
 		else:
+			if zMinute<0 or zMinute>59:
+				raise DateTimeError("zone minute out of range %i"%zMinute)
 			self.zOffset=zHour*60+zMinute
 
 	def GetTime(self):
@@ -1272,8 +1280,8 @@ class Time(object):
 				raise DateTimeError("second precision required")
 			second=second+seconds
 			if type(second)==FloatType:
-				fs,s=modf(second)
-				s=int(s)
+				s=int(floor(second))
+				fs=second-s
 				minutes+=s//60
 				second=float(s%60)+fs
 			else:
@@ -1287,23 +1295,27 @@ class Time(object):
 			if type(minute)==FloatType:
 				if second is not None:
 					raise DateTimeError("minute precision required")
-				fm,m=modf(minute)
-				m=int(m)
-				hours+=minute//60
-				minute=float(minute%60)+fm
+				m=int(floor(minute))
+				fm=minute-m
+				hours+=m//60
+				minute=float(m%60)+fm
 			else:
 				hours+=minute//60
 				minute=minute%60
 		hour=self.hour
+		if hour==24 and (hours or minutes or seconds):
+			# 24:00:00 is the start of the next day
+			hour=0
+			days+=1
 		if hours:
 			hour=hour+hours
 			if type(hour)==FloatType:
 				if minute is not None:
 					raise DateTimeError("hour precision required")
-				fh,h=modf(hour)
-				h=int(h)
-				days+=float(h//24)
-				hour=float(hour%24)+fh
+				h=int(floor(hour))
+				fh=hour-h
+				days+=h//24
+				hour=float(h%24)+fh
 			else:
 				days+=hour//24
 				hour=hour%24
@@ -1325,8 +1337,10 @@ class Time(object):
 		
 			(<Time instance>, overflow)
 		
-		overflow is one of -1, 0 or 1 indicating if the time over- or
-		under-flowed as a result of the time zone shift."""
+		overflow is the number of days by which the time over- or
+		under-flowed as a result of the time zone shift, usually one of
+		-1, 0 or 1 but times shifted between zones with offsets that
+		differ by more than a day may overflow twice."""
 		if self.zOffset is None:
 			raise DateTimeError("Can't shift time with unspecified zone: "+str(self))
 		if zDirection is None or (zDirection!=0 and zHour is None):
@@ -1346,21 +1360,15 @@ class Time(object):
 		hour=self.hour
 		if minute is not None:
 			minute=minute+zShift%60
-			if minute>59:
+			if minute>=60:
 				hour+=1
 				minute-=60
 			elif minute<0:
 				hour-=1
 				minute+=60
 		hour=hour+zShift//60
-		if hour>23:
-			hour-=24
-			overflow=1
-		elif hour<0:
-			hour+=24
-			overflow=-1
-		else:
-			overflow=0
+		overflow=int(hour//24)
+		hour-=24*overflow
 		return type(self)(hour=hour,minute=minute,second=second,zDirection=zDirection,zHour=zHour,zMinute=zMinute),overflow
 
 	@classmethod
@@ -1396,6 +1404,7 @@ class Time(object):
 		if type(src) in StringTypes:
 			p=ISO8601Parser(src)
 			t,overflow,f=p.ParseTimeFormat(base)
+			p.ParseEndOfData()
 			return t
 		else:
 			raise TypeError
@@ -1407,7 +1416,8 @@ class Time(object):
 		if type(zoneStr) in StringTypes:
 			p=ISO8601Parser(zoneStr)
 			zDirection,zHour,zMinute,format=p.ParseTimeZoneFormat()
-			return self.WithZone(zDirection=zDireciton,zHour=zHour,zMinute=zMinute)
+			p.ParseEndOfData()
+			return self.WithZone(zDirection=zDirection,zHour=zHour,zMinute=zMinute)
 		else:
 			raise TypeError
 		
@@ -1420,6 +1430,7 @@ class Time(object):
 		if type(zoneStr) in StringTypes:
 			p=ISO8601Parser(zoneStr)
 			zDirection,zHour,zMinute,format=p.ParseTimeZoneFormat()
+			p.ParseEndOfData()
 			return self.WithZone(zDirection=zDirection,zHour=zHour,zMinute=zMinute),format
 		else:
 			raise TypeError
@@ -1436,7 +1447,9 @@ class Time(object):
 		parsed, e.g., "hhmmss"."""
 		if type(src) in StringTypes:
 			p=ISO8601Parser(src)
-			return p.ParseTimeFormat(base)
+			t,overflow,f=p.ParseTimeFormat(base)
+			p.ParseEndOfData()
+			return t,overflow,f
 		else:
 			raise TypeError
 
@@ -1700,13 +1713,13 @@ class Time(object):
 			raise DateTimeError("time overflow")
 		if self.minute is None:
 			return
-		if not type(self.hour) is IntType:
+		if not type(self.hour) in (IntType,LongType):
 			raise DateTimeError("bad fractional hour %s"%str(self.hour))
-		if self.minute<0 or self.minute>59:
+		if self.minute<0 or self.minute>=60:
 			raise DateTimeError("minute out of range %s"%str(self.minute))
 		if self.second is None:
 			return
-		if not type(self.minute) is IntType:
+		if not type(self.minute) in (IntType,LongType):
 			raise DateTimeError("bad fractional minute %s"%str(self.minute))
 		if self.second<0 or self.second>=61:
 			raise DateTimeError("second out of range %s"%str(self.second))
@@ -2134,6 +2147,7 @@ class TimePoint(object):
 		if type(src) in StringTypes:
 			p=ISO8601Parser(src)
 			tp,f=p.ParseTimePointFormat(base,tDesignators)
+			p.ParseEndOfData()
 			return tp
 		else:
 			raise TypeError
@@ -2149,7 +2163,9 @@ class TimePoint(object):
 			# f is set to "YYYY-MM-DDTmm:hh:ss"."""
 		if type(src) in StringTypes:
 			p=ISO8601Parser(src)
-			return p.ParseTimePointFormat(base,tDesignators)
+			tp,f=p.ParseTimePointFormat(base,tDesignators)
+			p.ParseEndOfData()
+			return tp,f
 		else:
 			raise TypeError
 
@@ -2267,7 +2283,7 @@ class TimePoint(object):
 		representing the precision of this TimePoint."""
 		return self.time.GetPrecision()
 	
-	def WithPrecision(self):
+	def WithPrecision(self,precision,truncate=False):
 		"""Constructs a :py:class:`TimePoint` instance from an existing
 		TimePoint but with the precision specified by *precision*.  For
 		more details see :py:meth:`Time.WithPrecision`"""
@@ -2279,9 +2295,20 @@ class TimePoint(object):
 		if self.date.GetPrecision()!=Precision.Complete:
 			raise DateTimeError("timepoint requires complete precision for date")
 	
+	def _NormalizeMidnight(self):
+		"""Returns an equivalent TimePoint that doesn't use the 24:00:00
+		representation of midnight."""
+		if self.time.hour==24:
+			t,overflow=self.time.Offset(hours=-24)
+			return type(self)(date=self.date.Offset(days=1),time=t)
+		else:
+			return self
+
 	def __hash__(self):
 		if self.time.GetZoneOffset():
 			return hash(self.ShiftZone(zDirection=0))
+		elif self.time.hour==24:
+			return hash(self._NormalizeMidnight())
 		else:
 			# no zone, or Zulu time
 			return hash((self.date,self.time))
@@ -2305,6 +2332,8 @@ class TimePoint(object):
 				raise ValueError("Can't compare zone: "+str(other))
 			# we need to change the timezone of other to match ours
 			other=other.ShiftZone(*self.time.GetZone3())
+		self=self._NormalizeMidnight()
+		other=other._NormalizeMidnight()
 		result=cmp(self.date,other.date)
 		if not result:
 			result=cmp(self.time,other.time)
@@ -2440,7 +2469,9 @@ class Duration:
 	def SetFromString(self,durationStr):
 		if type(durationStr) in StringTypes:
 			p=ISO8601Parser(durationStr)
-			return p.ParseDuration(self)
+			format=p.ParseDuration(self)
+			p.ParseEndOfData()
+			return format
 		else:
 			raise TypeError
 
@@ -2488,7 +2519,18 @@ class Duration:
 			else:
 				return 'P'+datePart
 		else:
-			pass					
+			value=self.weeks
+			if type(value) is FloatType:
+				fraction,value=modf(value)
+				value=int(value)
+				if ndp:
+					point=","
+					if ndp<0:
+						point="."
+						ndp=-ndp
+					fraction=int(floor((fraction+2e-13)*float(10L**ndp)))
+					return "P%i%s%0*iW"%(value,point,ndp,fraction)
+			return "P%iW"%value
 				
 	def SetFromDuration(self,src):
 		self.years=src.years
@@ -2513,7 +2555,9 @@ class Duration:
 		else:
 			return 0
 		
-					
+	def __ne__(self,other):
+		return not self==other
+
 # For compatibility
 ISODate=Date
 ISOTime=Time
@@ -3117,7 +3161,7 @@ class ISO8601Parser(RFC2234CoreParser):
 			self.SyntaxError("expected digit or hyphen in ISO date")
 	
 	def ParseTimeFormat(self,base=None,tDesignators="T"):
-		if self.theChar in tDesignators:
+		if self.theChar is not None and self.theChar in tDesignators:
 			self.NextChar()
 			tDesignator=1
 		else:
@@ -3232,6 +3276,8 @@ class ISO8601Parser(RFC2234CoreParser):
 			else:
 				self.SyntaxError("expected digit or hyphen in truncated Time")
 			# truncated forms cannot take timezones, return early
+			if base is None:
+				raise DateTimeError("truncated time with no base")
 			t,overflow=base.Extend(hour=hour,minute=minute,second=second)
 			return t,overflow,tFormat
 		else:
@@ -3276,11 +3322,13 @@ class ISO8601Parser(RFC2234CoreParser):
 			else:
 				zDirection,zHour,zMinute=v1,v2,None
 				format="+hh"
+		else:
+			self.SyntaxError("expected Z or UTC offset")
 		return zDirection,zHour,zMinute,format
 	
 	def ParseTime(self,t,tBase=None,tDesignator="T"):
 		warnings.warn("ISO8601Parser.ParseTime is deprecated, use ParseTimeFormat instead", DeprecationWarning, stacklevel=2)		
-		if self.theChar in tDesignators:
+		if self.theChar is not None and self.theChar in tDesignators:
 			self.NextChar()
 			tDesignator=1
 		else:
@@ -3442,7 +3490,7 @@ class ISO8601Parser(RFC2234CoreParser):
 		value=self.ParseDIGITRepeat()
 		if value is None:
 			return None,None
-		if self.theChar in ".,":
+		if self.theChar is not None and self.theChar in ".,":
 			if not allowFraction:
 				raise DateTimeError("fractional component in duration must have lowest order")										
 			format="n"+self.theChar+"n"			
@@ -3528,6 +3576,9 @@ class ISO8601Parser(RFC2234CoreParser):
 		elif format[-1]=="T":
 			# "P...T" not allowed either
 			raise DateTimeError("expected time component in duration")
+		for vFormat in format[:-1]:
+			if "." in vFormat or "," in vFormat:
+				raise DateTimeError("fractional component in duration must have lowest order")
 		# Now deal with partial precision, higher order components default to 0
 		defValue=None
 		for i in xrange(5,-1,-1):
-- 
2.43.0


From 34cf194d1cd8a57581b4d6faf0440ee4efcd7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 42/48] fix: every construct of QTI version 1 can be read and
 written back

---
 pyslet/pyslet/imsqtiv1p2p1.py     |  2 +-
 pyslet/pyslet/qtiv1/assessment.py | 33 +++++--------
 pyslet/pyslet/qtiv1/common.py     | 70 ++++++++++++++++++----------
 pyslet/pyslet/qtiv1/core.py       | 16 +++----
 pyslet/pyslet/qtiv1/item.py       | 77 +++++++++++++++++++------------
 pyslet/pyslet/qtiv1/objectbank.py |  9 +++-
 pyslet/pyslet/qtiv1/outcomes.py   | 21 ++++++---
 pyslet/pyslet/qtiv1/sao.py        | 19 ++++----
 pyslet/pyslet/qtiv1/section.py    | 19 ++++----
 9 files changed, 159 insertions(+), 107 deletions(-)

diff --git a/pyslet/pyslet/imsqtiv1p2p1.py b/pyslet/pyslet/imsqtiv1p2p1.py
index 45b3357..5ea028c 100644
--- a/pyslet/pyslet/imsqtiv1p2p1.py
+++ b/pyslet/pyslet/imsqtiv1p2p1.py
@@ -122,7 +122,7 @@ class QTIDocument(xml.Document):
 		if matThing.label is not None:
 			self.matThings[matThing.label]=matThing
 	
-	def UnregisterMatThing(self,mathThing):
+	def UnregisterMatThing(self,matThing):
 		if matThing.label is not None and matThing is self.matThings.get(matThing.label,None):
 			del self.matThings[matThing.label]			
 	
diff --git a/pyslet/pyslet/qtiv1/assessment.py b/pyslet/pyslet/qtiv1/assessment.py
index 4924293..be4ba8b 100755
--- a/pyslet/pyslet/qtiv1/assessment.py
+++ b/pyslet/pyslet/qtiv1/assessment.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 class Assessment(common.QTICommentContainer):
 	"""The Assessment data structure is used to contain the exchange of test
@@ -46,37 +46,28 @@ class Assessment(common.QTICommentContainer):
 		self.AssessmentControl=[]
 		self.Rubric=[]
 		self.PresentationMaterial=None
-		self.QTIOutcomesProcessing=[]
+		self.OutcomesProcessing=[]
 		self.AssessProcExtension=None
 		self.AssessFeedback=[]
-		self.QTISelectionOrdering=None
-		self.QTIReference=None
+		self.SelectionOrdering=None
+		self.Reference=None
 		self.SectionMixin=[]
 		
-	def SectionRef(self):
-		child=SectionRef(self)
-		self.SectionMixin.append(child)
-		return child
-		
-	def Section(self):
-		child=Section(self)
-		self.SectionMixin.append(child)
-		return child
-		
 	def GetChildren(self):
+		for child in common.QTICommentContainer.GetChildren(self): yield child
+		if self.Duration: yield self.Duration
 		for child in itertools.chain(
-			QTIComment.GetChildren(self),
 			self.QTIMetadata,
 			self.Objectives,
 			self.AssessmentControl,
 			self.Rubric):
 			yield child
 		if self.PresentationMaterial: yield self.PresentationMaterial
-		for child in self.QTIOutcomesProcessing: yield child
-		if self.QTIAssessProcExtension: yield self.QTIAssessProcExtension
+		for child in self.OutcomesProcessing: yield child
+		if self.AssessProcExtension: yield self.AssessProcExtension
 		for child in self.AssessFeedback: yield child
-		if self.QTISelectionOrdering: yield self.QTISelectionOrdering
-		if self.QTIReference: yield self.QTIReference
+		if self.SelectionOrdering: yield self.SelectionOrdering
+		if self.Reference: yield self.Reference
 		for child in self.SectionMixin: yield child
 
 	def MigrateV2(self,output):
@@ -153,8 +144,8 @@ class AssessFeedback(common.QTICommentContainer,common.ContentMixin):
 			common.ContentMixin.GetContentChildren(self))
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,common.QTIFlowMat):
-			common.ContentMixin.ContentMixin(self,childClass)
+		if childClass in (common.Material,common.FlowMat):
+			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
 	
diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 57063c3..574592c 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -5,10 +5,11 @@ import pyslet.xsdatatypes20041028 as xsi
 import pyslet.html40_19991224 as html
 import pyslet.imsqtiv2p1 as qtiv2
 import pyslet.imsmdv1p2p1 as imsmd
+import pyslet.rfc2616 as http
 
 import core
 
-import string, itertools
+import string, itertools, logging
 from types import StringTypes
 
 class QTICommentContainer(core.QTIElement):
@@ -201,7 +202,8 @@ class Material(QTICommentContainer,ContentMixin):
 	def GetChildren(self):
 		return itertools.chain(
 			QTICommentContainer.GetChildren(self),
-			ContentMixin.GetContentChildren(self))
+			ContentMixin.GetContentChildren(self),
+			self.AltMaterial)
 	
 	def ContentChanged(self):
 		if self.label:
@@ -343,7 +345,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					self.matChildren=list(div.GetChildren())
 		elif self.texttype=='text/rtf':
 			# parse the RTF content
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 	def IsInline(self):
 		if self.texttype=='text/plain':
@@ -357,7 +359,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					return False
 			return True
 		else:
-			raise QTIUnimplementedError(self.texttype)
+			raise core.QTIUnimplementedError(self.texttype)
 			
 	def ExtractText(self):
 		if self.matChildren:
@@ -451,7 +453,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 						newChild=child.Copy(addNode)
 						qtiv2.content.FixHTMLNamespace(newChild)
 		else:
-			raise QTIUnimplementedError
+			raise core.QTIUnimplementedError
 
 
 class MatEmText(MatText):
@@ -548,7 +550,7 @@ class MatImage(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline images")
+			raise core.QTIUnimplementedError("inclusion of inline images")
 		if childType is html.BlockMixin:
 			# We must wrap this img in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -599,7 +601,7 @@ class MatAudio(core.QTIElement,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline audio")
+			raise core.QTIUnimplementedError("inclusion of inline audio")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -651,7 +653,7 @@ class MatVideo(core.QTIElement,PositionMixin,MatThingMixin):
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
-			raise QTIUnimplementedError("inclusion of inline video")
+			raise core.QTIUnimplementedError("inclusion of inline video")
 		if childType is html.BlockMixin:
 			# We must wrap this object in a <p>
 			p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -701,7 +703,7 @@ class MatApplet(core.QTIElement,PositionMixin,MatThingMixin):
 		return "[applet]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplet")
+		raise core.QTIUnimplementedError("matapplet")
 
 
 class MatApplication(core.QTIElement,MatThingMixin):
@@ -741,7 +743,7 @@ class MatApplication(core.QTIElement,MatThingMixin):
 		return "[application]"
 
 	def MigrateV2Content(self,parent,childType,log):
-		raise QTIUnimplementedError("matapplication")
+		raise core.QTIUnimplementedError("matapplication")
 
 
 class MatRef(MatThingMixin,core.QTIElement):
@@ -790,6 +792,14 @@ class MatExtension(core.QTIElement,MatThingMixin):
 	XMLNAME="mat_extension"
 	XMLCONTENT=xml.XMLMixedContent
 
+	def __init__(self,parent):
+		core.QTIElement.__init__(self,parent)
+		MatThingMixin.__init__(self)
+
+	def ContentMixin(self,childClass):
+		"""Extensions can contain anything, in any order, so no child is captured."""
+		return None
+
 
 class FlowMixin:
 	"""Mix-in class to identify all flow elements::
@@ -919,7 +929,7 @@ class Vocabulary(core.QTIElement):
 	XMLATTR_vocab_type='vocabType'
 
 	def __init__(self,parent):
-		QTIElement.__init__(self,parent)
+		core.QTIElement.__init__(self,parent)
 		self.uri=None
 		self.entityRef=None
 		self.vocabType=None		
@@ -1106,7 +1116,9 @@ class DecVar(core.QTIElement):
 		try:
 			value=self.GetValue()
 			if value is not None:
-				assert value.strip()==''
+				value=value.strip()
+				if value:
+					logging.warning("Ignoring the content of decvar: %s",value)
 		except xml.XMLMixedContentError:
 			# Even more confusing
 			pass
@@ -1177,12 +1189,12 @@ class SetVar(core.QTIElement):
 		identifier=qtiv2.core.ValidateIdentifier(self.varName)
 		outcome=v2Item.declarations.get(identifier,None)
 		if outcome is None:
-			raise QTIUnimplementedError("Auto-declared outcomes")
+			raise core.QTIUnimplementedError("Auto-declared outcomes")
 		setValue=parent.ChildElement(qtiv2.processing.SetOutcomeValue)
 		setValue.identifier=identifier
 		if outcome.cardinality!=qtiv2.variables.Cardinality.single:
-			raise QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
-				qtiv2.variables.Cardinality.encode[outcome.cardinality]))
+			raise core.QTIUnimplementedError("setvar for '%s' with cardinality %s"%(identifier,
+				qtiv2.variables.Cardinality.EncodeValue(outcome.cardinality)))
 		value=None
 		variable=None
 		if not self.action or self.action==core.Action.Set:
@@ -1276,7 +1288,7 @@ class ExtendableExpressionMixin:
 	"""Abstract mixin class to indicate an expression, including var_extension"""
 
 	def MigrateV2Expression(self,parent,log):
-		raise QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("Expression element: %s"%self.__class__.__name__)
 
 	
 class ExpressionMixin(ExtendableExpressionMixin):
@@ -1366,7 +1378,7 @@ class VarEqual(VarThing):
 				log.append("Warning: equality operator with float values is deprecated")
 				expression=parent.ChildElement(qtiv2.expressions.Equal)
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
@@ -1380,7 +1392,7 @@ class VarEqual(VarThing):
 			elif d.baseType==qtiv2.variables.BaseType.float:
 				log.append("Warning: member operation is deprecated when baseType is float")
 			else:
-				raise QTIUnimplementedOperator("varequal(%s)"%qtiv2.variables.BaseType.Encode(d.baseType))
+				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			expression=parent.ChildElement(qtiv2.expressions.Member)
 			self.MigrateV2Value(d,expression,log)
 			self.MigrateV2Variable(d,expression,log)
@@ -1391,7 +1403,7 @@ class VarInequality(VarThing):
 
 	def MigrateV2Inequality(self):
 		"""Returns the class to use in qtiv2"""
-		raise QTIUnimplementedOperator(self.xmlname)
+		raise core.QTIUnimplementedError(self.xmlname)
 		
 	def MigrateV2Expression(self,parent,log):
 		v2Item=parent.FindParent(qtiv2.items.AssessmentItem)
@@ -1404,11 +1416,11 @@ class VarInequality(VarThing):
 			if d.baseType==qtiv2.variables.BaseType.integer or d.baseType==qtiv2.variables.BaseType.float:
 				expression=parent.ChildElement(self.MigrateV2Inequality())
 			else:
-				raise QTIUnimplementedOperator("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.Encode(d.baseType)))
+				raise core.QTIUnimplementedError("%s(%s)"%(self.xmlname,qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
 		else:
-			raise QTIUnimplementedOperator("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.Encode(d.cardinality),qtiv2.variables.BaseType.Encode(d.baseType)))
+			raise core.QTIUnimplementedError("%s(%s:%s)"%(self.xmlname,qtiv2.variables.Cardinality.EncodeValue(d.cardinality),qtiv2.variables.BaseType.EncodeValue(d.baseType)))
 
 	
 class VarLT(VarInequality):
@@ -1533,9 +1545,9 @@ class VarInside(VarThing):
 				expression.shape,expression.coords=core.MigrateV2AreaCoords(self.areaType,self.GetValue(),log)
 				self.MigrateV2Variable(d,expression,log)			
 			else:
-				raise QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
+				raise core.QTIUnimplementedError("varinside(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 		else:
-			raise QTIUnimplementedError("varinside with multiple/orderd variable")
+			raise core.QTIUnimplementedError("varinside with multiple/orderd variable")
 
 
 class DurEqual(core.QTIElement,ExpressionMixin):
@@ -1746,6 +1758,15 @@ class Reference(QTICommentContainer,ContentMixin):
 	XMLNAME="reference"
 	XMLCONTENT=xml.ElementContent
 	
+	def __init__(self,parent):
+		QTICommentContainer.__init__(self,parent)
+		ContentMixin.__init__(self)
+
+	def GetChildren(self):
+		return itertools.chain(
+			QTICommentContainer.GetChildren(self),
+			ContentMixin.GetContentChildren(self))
+
 	def ContentMixin(self,childClass):
 		"""We override this method to prevent references from being included."""
 		if issubclass(childClass,(Material,MatText,MatEmText,MatImage,MatAudio,
@@ -1755,7 +1776,7 @@ class Reference(QTICommentContainer,ContentMixin):
 			raise TypeError
 
 		
-class MaterialRef(core.QTIElement):
+class MaterialRef(core.QTIElement,ContentMixin):
 	"""The <material_ref> element is used to contain a reference to the required
 	full material block. This material will have had an identifier assigned to
 	enable such a reference to be reconciled when the instance is parsed into
@@ -1769,6 +1790,7 @@ class MaterialRef(core.QTIElement):
 
 	def __init__(self,parent):
 		core.QTIElement.__init__(self,parent)
+		ContentMixin.__init__(self)
 		self.linkRefID=None
 		
 	def FindMaterial(self):
diff --git a/pyslet/pyslet/qtiv1/core.py b/pyslet/pyslet/qtiv1/core.py
index 7793c9c..8587eb1 100755
--- a/pyslet/pyslet/qtiv1/core.py
+++ b/pyslet/pyslet/qtiv1/core.py
@@ -81,7 +81,7 @@ class Action(xsi.Enumeration):
 		'Multiply':4,
 		'Divide':5
 		}
-xsi.MakeEnumeration(Action)
+xsi.MakeEnumeration(Action,'Set')
 
 
 class Area(xsi.Enumeration):
@@ -164,7 +164,7 @@ def MigrateV2AreaCoords(area,value,log):
 		coords=[coords[0],coords[1],coords[0]+coords[3]-1,coords[1]+coords[2]-1]
 	elif area==Area.Ellipse:
 		if len(coords)<4:
-			if len(corrds)<2:
+			if len(coords)<2:
 				log.append("Error: not enough coordinates to locate ellipse, padding with zero")
 				while len(coords)<2:
 					coords.append(0)
@@ -207,7 +207,7 @@ class FeedbackStyle(xsi.Enumeration):
 		'Multilevel':3,
 		'Proprietary':4
 		}
-xsi.MakeEnumeration(FeedbackStyle)
+xsi.MakeEnumeration(FeedbackStyle,'Complete')
 
 
 class FeedbackType(xsi.Enumeration):
@@ -229,7 +229,7 @@ class FeedbackType(xsi.Enumeration):
 		'Solution':2,
 		'Hint':3
 		}
-xsi.MakeEnumeration(FeedbackType)
+xsi.MakeEnumeration(FeedbackType,'Response')
 
 
 class FIBType(xsi.Enumeration):
@@ -371,7 +371,7 @@ class RCardinality(xsi.Enumeration):
 		'Ordered':3
 		}
 			
-xsi.MakeEnumeration(RCardinality)
+xsi.MakeEnumeration(RCardinality,'Single')
 
 def MigrateV2Cardinality(rCardinality):
 	"""Maps a v1 cardinality onto the corresponding v2 constant.
@@ -410,10 +410,10 @@ class VarType(xsi.Enumeration):
 		'Decimal':3,
 		'Scientific':4,
 		'Boolean':5,
-		'Enumerated':5,
-		'Set':6
+		'Enumerated':6,
+		'Set':7
 		}
-xsi.MakeEnumeration(VarType)
+xsi.MakeEnumeration(VarType,'Integer')
 
 def MigrateV2VarType(vartype,log):
 	"""Returns the v2 BaseType representing the v1 *vartype*.
diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index 62c0b3c..e9470e5 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -65,7 +65,7 @@ class Item(common.QTICommentContainer,core.SectionItemMixin,core.ObjectMixin):
 		self.ResProcessing=[]
 		self.ItemProcExtension=None
 		self.ItemFeedback=[]
-		self.QTIReference=None
+		self.Reference=None
 					
 	def GetChildren(self):
 		for child in common.QTICommentContainer.GetChildren(self): yield child
@@ -82,7 +82,7 @@ class Item(common.QTICommentContainer,core.SectionItemMixin,core.ObjectMixin):
 		for child in self.ResProcessing: yield child
 		if self.ItemProcExtension: yield self.ItemProcExtension
 		for child in self.ItemFeedback: yield child
-		if self.QTIReference: yield self.QTIReference
+		if self.Reference: yield self.Reference
 	
 	def MigrateV2(self,output):
 		"""Converts this item to QTI v2
@@ -673,7 +673,7 @@ class FlowContainer(common.QTICommentContainer,common.ContentMixin):
 			common.ContentMixin.GetContentChildren(self))
 
 	def ContentMixin(self,childClass):
-		if childClass in (common.Material,Flow) or issubclass(childClass,Response):
+		if childClass in (common.Material,common.MaterialRef,Flow) or issubclass(childClass,Response):
 			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
@@ -831,6 +831,10 @@ class ResponseExtension(Response):
 	XMLNAME="response_extension"
 	XMLCONTENT=xml.XMLMixedContent
 
+	def ContentMixin(self,childClass):
+		"""Extensions can contain anything, in any order, so no child is captured."""
+		return None
+
 
 class ResponseThing(Response):
 	"""Abstract class for the main response_* elements::
@@ -885,7 +889,7 @@ class ResponseThing(Response):
 		if isinstance(self.render,RenderFIB) and self.render.MixedModel():
 			# use simplified prompt logic.
 			self.prompt=self.intro
-			self.inlintPrompt=True
+			self.inlinePrompt=True
 			for child in self.prompt:
 				if not child.IsInline():
 					self.inlinePrompt=False
@@ -925,14 +929,14 @@ class ResponseThing(Response):
 
 	def GetBaseType(self,interaction):
 		"""Returns the base type to use for the given interaction."""
-		raise QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
+		raise core.QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.inlinePrompt:
 			interactionPrompt=self.prompt
 		else:
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to inline interaction")
+				raise core.QTIError("Unexpected attempt to inline interaction")
 			interactionPrompt=None
 			if isinstance(self.render,RenderHotspot):
 				div=parent.ChildElement(html.Div,(qtiv2.core.IMSQTI_NAMESPACE,'div'))
@@ -1031,7 +1035,7 @@ class ResponseXY(ResponseThing):
 		if isinstance(interaction,qtiv2.interactions.SelectPointInteraction):
 			return qtiv2.variables.BaseType.point
 		else:
-			return ResponseThing.GetBaseType(self)
+			return ResponseThing.GetBaseType(self,interaction)
 
 
 class ResponseStr(ResponseThing):
@@ -1086,7 +1090,7 @@ class ResponseNum(ResponseThing):
 			return qtiv2.variables.BaseType.float
 
 
-class ResponseGrp(core.QTIElement,common.ContentMixin):
+class ResponseGrp(ResponseThing):
 	"""The <response_grp> element contains the instructions for the presentation
 	of questions whose response will be a group of logical identifiers. The
 	question can be rendered in a variety of ways depending on the way in which
@@ -1148,7 +1152,7 @@ class RenderThing(Render):
 		return True
 
 	def MigrateV2Interaction(self,parent,childType,prompt,log):
-		raise QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
+		raise core.QTIUnimplementedError("%s x %s"%(self.parent.__class__.__name__,self.__class__.__name__))
 		
 	def MigrateV2InteractionDefault(self,parent,interaction):
 		# Most interactions do not need default values.
@@ -1187,13 +1191,13 @@ class RenderChoice(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if childType is html.InlineMixin:
-				raise QTIError("Unexpected attempt to put block interaction in inline context")
+				raise core.QTIError("Unexpected attempt to put block interaction in inline context")
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
 		else:		
-			raise QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_choice"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1241,16 +1245,16 @@ class RenderHotspot(RenderThing):
 		interaction=None
 		if isinstance(self.parent,ResponseLId):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError("GraphicOrderInteraction")
+				raise core.QTIUnimplementedError("GraphicOrderInteraction")
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.HotspotInteraction)
 		elif isinstance(self.parent,ResponseXY):
 			if self.parent.rCardinality==core.RCardinality.Ordered:
-				raise QTIUnimplementedError('response_xy x render_hotspot')
+				raise core.QTIUnimplementedError('response_xy x render_hotspot')
 			else:
 				interaction=parent.ChildElement(qtiv2.interactions.SelectPointInteraction)
 		else:
-			raise QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_hotspot"%self.parent.__class__.__name__)
 		if self.showDraw:
 			log.append('Warning: ignoring showdraw="Yes", what did you really want to happen?')
 		if self.minNumber is not None:
@@ -1525,7 +1529,7 @@ class RenderSlider(RenderThing):
 				interaction.maxChoices=1
 			elif self.parent.rCardinality==core.RCardinality.Ordered:
 				log.append("Error: ordered-slider replaced with orderInteraction.slider")
-				raise QTIUnimplementedError("OrderInteraction")
+				raise core.QTIUnimplementedError("OrderInteraction")
 			else:
 				log.append("Error: multiple-slider replaced with choiceInteraction.slider")
 				interaction=parent.ChildElement(qtiv2.interactions.ChoiceInteraction)
@@ -1549,9 +1553,9 @@ class RenderSlider(RenderThing):
 					interaction.orientation=core.MigrateV2Orientation(self.orientation)
 				# startValues are handled below after the variable is declared
 			else:
-				raise QTIUnimplementedError("Multiple/Ordered SliderInteraction")
+				raise core.QTIUnimplementedError("Multiple/Ordered SliderInteraction")
 		else:	
-			raise QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
+			raise core.QTIUnimplementedError("%s x render_slider"%self.parent.__class__.__name__)
 		if prompt:
 			interactionPrompt=interaction.ChildElement(qtiv2.interactions.Prompt)
 			for child in prompt:
@@ -1568,7 +1572,7 @@ class RenderSlider(RenderThing):
 				value.SetValue(xsi.EncodeFloat(self.startVal))
 			else:
 				# slider bound to something else?
-				raise QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
+				raise core.QTIError("Unexpected slider type for default: %s"%qtiv2.variables.BaseType.EncodeValue(declaration.baseType))
 
 
 class RenderExtension(Render):
@@ -1579,6 +1583,17 @@ class RenderExtension(Render):
 	XMLNAME="render_extension"
 	XMLCONTENT=xml.XMLMixedContent
 
+	def ContentMixin(self,childClass):
+		"""Extensions can contain anything, in any order, so no child is captured."""
+		return None
+
+	def GetLabelContent(self):
+		"""We know nothing about the labels in an extension."""
+		return []
+
+	def MigrateV2Interaction(self,parent,childType,prompt,log):
+		raise core.QTIUnimplementedError("%s x render_extension"%self.parent.__class__.__name__)
+
 
 class ResponseLabel(core.QTIElement,common.ContentMixin):
 	"""The <response_label> is used to define the possible response choices that
@@ -1798,7 +1813,7 @@ class ResProcessing(common.QTICommentContainer):
 		self.ConditionMixin=[]
 		
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.Outcomes
 		for child in self.ConditionMixin: yield child
 
@@ -1844,7 +1859,7 @@ class Outcomes(common.QTICommentContainer):
 	
 	def GetChildren(self):
 		return itertools.chain(
-			QTICommentContainer.GetChildren(self),
+			common.QTICommentContainer.GetChildren(self),
 			self.DecVar,
 			self.InterpretVar)
 
@@ -1887,7 +1902,7 @@ class RespCondition(common.QTICommentContainer,ConditionMixin):
 		self.RespCondExtension=None
 	
 	def GetChildren(self):
-		for child in QTICommentContainer.GetChildren(self): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.ConditionVar
 		for child in itertools.chain(
 			self.SetVar,
@@ -1974,6 +1989,10 @@ class ItemProcExtension(common.ContentMixin,core.QTIElement,ConditionMixin):
 	def __init__(self,parent):
 		core.QTIElement.__init__(self,parent)
 		common.ContentMixin.__init__(self)
+
+	def ContentMixin(self,childClass):
+		"""Extensions can contain anything, in any order, so no child is captured."""
+		return None
 		
 	def MigrateV2Rule(self,cMode,ruleContainer,log):
 		"""Converts an itemProcExtension into v2 response processing rules.
@@ -2029,7 +2048,7 @@ class ItemFeedback(core.QTIElement,common.ContentMixin):
 
 	def GetChildren(self):
 		return itertools.chain(
-			QTIElement.GetChildren(self),
+			core.QTIElement.GetChildren(self),
 			self.contentChildren)
 
 	def MigrateV2(self,v2Item,log):
@@ -2068,8 +2087,8 @@ class Solution(common.ContentMixin,common.QTICommentContainer):
 
 	def GetChildren(self):
 		return itertools.chain(
-			common.QTICommentContainer.GetChildren(),
-			common.ContentMixin.GetContentChildren())
+			common.QTICommentContainer.GetChildren(self),
+			common.ContentMixin.GetContentChildren(self))
 
 
 class FeedbackMaterial(common.ContentMixin,core.QTIElement):
@@ -2089,7 +2108,7 @@ class FeedbackMaterial(common.ContentMixin,core.QTIElement):
 			raise TypeError
 
 	def GetChildren(self):
-		return common.ContentMixin.GetContentChildren()
+		return common.ContentMixin.GetContentChildren(self)
 
 
 class SolutionMaterial(FeedbackMaterial):
@@ -2116,7 +2135,7 @@ class Hint(common.ContentMixin,common.QTICommentContainer):
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
 		common.ContentMixin.__init__(self)
-		self.feedbackStyle=FeedbackStyle.DEFAULT
+		self.feedbackStyle=core.FeedbackStyle.DEFAULT
 	
 	def ContentMixin(self,childClass):
 		if childClass is HintMaterial:
@@ -2126,8 +2145,8 @@ class Hint(common.ContentMixin,common.QTICommentContainer):
 
 	def GetChildren(self):
 		return itertools.chain(
-			common.QTICommentContainer.GetChildren(),
-			common.ContentMixin.GetContentChildren())
+			common.QTICommentContainer.GetChildren(self),
+			common.ContentMixin.GetContentChildren(self))
 
 
 class HintMaterial(FeedbackMaterial):
diff --git a/pyslet/pyslet/qtiv1/objectbank.py b/pyslet/pyslet/qtiv1/objectbank.py
index 042ac62..395f81d 100755
--- a/pyslet/pyslet/qtiv1/objectbank.py
+++ b/pyslet/pyslet/qtiv1/objectbank.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class ObjectBank(common.MetadataContainerMixin,common.QTICommentContainer):
@@ -22,10 +22,17 @@ class ObjectBank(common.MetadataContainerMixin,common.QTICommentContainer):
 
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
+		common.MetadataContainerMixin.__init__(self)
 		self.ident=None
 		self.QTIMetadata=[]
 		self.ObjectMixin=[]
 		
+	def GetChildren(self):
+		return itertools.chain(
+			common.QTICommentContainer.GetChildren(self),
+			self.QTIMetadata,
+			self.ObjectMixin)
+
 	def MigrateV2(self,output):
 		for sectionOrItem in self.ObjectMixin:
 			sectionOrItem.MigrateV2(output)
diff --git a/pyslet/pyslet/qtiv1/outcomes.py b/pyslet/pyslet/qtiv1/outcomes.py
index cadaf1c..3ccde5e 100755
--- a/pyslet/pyslet/qtiv1/outcomes.py
+++ b/pyslet/pyslet/qtiv1/outcomes.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common, item
 
-import string
+import string, itertools
 
 
 class OutcomesProcessing(common.QTICommentContainer):
@@ -32,14 +32,14 @@ class OutcomesProcessing(common.QTICommentContainer):
 	def __init__(self,parent):
 		common.QTICommentContainer.__init__(self,parent)
 		self.scoreModel=None
-		self.Outcomes=itemm.Outcomes(self)
+		self.Outcomes=item.Outcomes(self)
 		self.ObjectsCondition=[]
 		self.ProcessingParameter=[]
 		self.MapOutput=[]
 		self.OutcomesFeedbackTest=[]
 	
 	def GetChildren(self):
-		for child in common.QTICommentContainer.GetChildren(): yield child
+		for child in common.QTICommentContainer.GetChildren(self): yield child
 		yield self.Outcomes
 		for child in itertools.chain(
 			self.ObjectsCondition,
@@ -219,12 +219,12 @@ class OutcomesMetadata(OutcomesOperator):
 	XMLNAME='outcomes_metadata'
 	XMLATTR_mdname='mdName'
 	XMLATTR_mdoperator=('mdOperator',core.MDOperator.DecodeLowerValue,core.MDOperator.EncodeValue)	
-	XMLCONTENT=xml.ElementContent
+	XMLCONTENT=xml.XMLMixedContent
 
 	def __init__(self,parent):
 		OutcomesOperator.__init__(self,parent)
-		self.mdname=None
-		self.mdoperator=None
+		self.mdName=None
+		self.mdOperator=None
 
 
 class AndObjects(OutcomesOperator):
@@ -337,6 +337,9 @@ class AndTest(OutcomesTest):
 	def __init__(self,parent):
 		OutcomesTest.__init__(self,parent)
 		self.OutcomesTest=[]
+
+	def GetChildren(self):
+		return iter(self.OutcomesTest)
 			
 
 class OrTest(OutcomesTest):
@@ -352,6 +355,9 @@ class OrTest(OutcomesTest):
 		OutcomesTest.__init__(self,parent)
 		self.OutcomesTest=[]
 
+	def GetChildren(self):
+		return iter(self.OutcomesTest)
+
 
 class NotTest(OutcomesTest):
 	"""The <not_test> element is used to define variable test conditions that
@@ -366,4 +372,7 @@ class NotTest(OutcomesTest):
 		OutcomesTest.__init__(self,parent)
 		self.OutcomesTest=None
 
+	def GetChildren(self):
+		if self.OutcomesTest: yield self.OutcomesTest
+
 
diff --git a/pyslet/pyslet/qtiv1/sao.py b/pyslet/pyslet/qtiv1/sao.py
index 1df1243..86e8dde 100755
--- a/pyslet/pyslet/qtiv1/sao.py
+++ b/pyslet/pyslet/qtiv1/sao.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class SelectionOrdering(common.QTICommentContainer):
@@ -66,13 +66,13 @@ class Selection(core.QTIElement):
 
 	def __init__(self,parent):
 		core.QTIElement.__init__(self,parent)
-		self.SourceBankRef=None
+		self.SourcebankRef=None
 		self.SelectionNumber=None
 		self.SelectionMetadata=None
 		self.SelectionChildMixin=None
 
 	def GetChildren(self):
-		if self.SourceBankRef: yield self.SourceBankRef
+		if self.SourcebankRef: yield self.SourcebankRef
 		if self.SelectionNumber: yield self.SelectionNumber
 		if self.SelectionMetadata: yield self.SelectionMetadata
 		if self.SelectionChildMixin: yield self.SelectionChildMixin
@@ -129,8 +129,8 @@ class SelectionMetadata(SelectionOperator):
 
 	def __init__(self,parent):
 		core.QTIElement.__init__(self,parent)
-		self.mdname=None
-		self.mdoperator=None
+		self.mdName=None
+		self.mdOperator=None
 			
 
 class OrSelection(SelectionOperator,SelectionChildMixin):
@@ -147,7 +147,7 @@ class OrSelection(SelectionOperator,SelectionChildMixin):
 		SelectionOperator.__init__(self,parent)
 		self.SelectionOperator=[]
 	
-	def GetChildren(self,parent):
+	def GetChildren(self):
 		return iter(self.SelectionOperator)
 
 
@@ -166,7 +166,7 @@ class AndSelection(SelectionOperator,SelectionChildMixin):
 		SelectionOperator.__init__(self,parent)
 		self.SelectionOperator=[]
 	
-	def GetChildren(self,parent):
+	def GetChildren(self):
 		return iter(self.SelectionOperator)
 
 
@@ -184,7 +184,7 @@ class NotSelection(SelectionOperator,SelectionChildMixin):
 		SelectionOperator.__init__(self,parent)
 		self.SelectionOperator=None
 	
-	def GetChildren(self,parent):
+	def GetChildren(self):
 		if self.SelectionOperator: yield self.SelectionOperator
 
 	
@@ -214,6 +214,9 @@ class Order(core.QTIElement):
 		self.orderType=None
 		self.OrderExtension=None	
 
+	def GetChildren(self):
+		if self.OrderExtension: yield self.OrderExtension
+
 
 class OrderExtension(core.QTIElement):
 	"""This element allows proprietary extensions to be made to the order rules.
diff --git a/pyslet/pyslet/qtiv1/section.py b/pyslet/pyslet/qtiv1/section.py
index a277b3b..40a9b25 100755
--- a/pyslet/pyslet/qtiv1/section.py
+++ b/pyslet/pyslet/qtiv1/section.py
@@ -6,7 +6,7 @@ import pyslet.imsqtiv2p1 as qtiv2
 
 import core, common
 
-import string
+import string, itertools
 
 
 class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
@@ -51,16 +51,17 @@ class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
 		self.SectionPostcondition=[]
 		self.Rubric=[]
 		self.PresentationMaterial=None
-		self.QTIOutcomesProcessing=[]
+		self.OutcomesProcessing=[]
 		self.SectionProcExtension=None
 		self.SectionFeedback=[]
-		self.QTISelectionOrdering=None
-		self.QTIReference=None
+		self.SelectionOrdering=None
+		self.Reference=None
 		self.SectionItemMixin=[]
 		
 	def GetChildren(self):
+		for child in common.QTICommentContainer.GetChildren(self): yield child
+		if self.Duration: yield self.Duration
 		for child in itertools.chain(
-			core.QTIComment.GetChildren(self),
 			self.QTIMetadata,
 			self.Objectives,
 			self.SectionControl,
@@ -69,11 +70,11 @@ class Section(core.ObjectMixin,core.SectionMixin,common.QTICommentContainer):
 			self.Rubric):
 			yield child
 		if self.PresentationMaterial: yield self.PresentationMaterial
-		for child in self.QTIOutcomesProcessing: yield child
+		for child in self.OutcomesProcessing: yield child
 		if self.SectionProcExtension: yield self.SectionProcExtension
 		for child in self.SectionFeedback: yield child
-		if self.QTISelectionOrdering: yield self.QTISelectionOrdering
-		if self.QTIReference: yield self.QTIReference
+		if self.SelectionOrdering: yield self.SelectionOrdering
+		if self.Reference: yield self.Reference
 		for child in self.SectionItemMixin: yield child
 
 	def MigrateV2(self,output):
@@ -168,7 +169,7 @@ class SectionFeedback(common.QTICommentContainer,common.ContentMixin):
 
 	def ContentMixin(self,childClass):
 		if childClass in (common.Material,common.FlowMat):
-			common.ContentMixin.ContentMixin(self,childClass)
+			return common.ContentMixin.ContentMixin(self,childClass)
 		else:
 			raise TypeError
 	
-- 
2.43.0


From fcc34479cbee87759cdcd7c832a1db41856b419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 43/48] fix: migrating QTI version 1 items to version 2 keeps
 their responses, rules and content

---
 pyslet/pyslet/imsqtiv2p1.py   |  2 +-
 pyslet/pyslet/qtiv1/common.py | 85 +++++++++++++++++++++++++----------
 pyslet/pyslet/qtiv1/item.py   | 53 ++++++++++++++++------
 3 files changed, 103 insertions(+), 37 deletions(-)

diff --git a/pyslet/pyslet/imsqtiv2p1.py b/pyslet/pyslet/imsqtiv2p1.py
index 87b2e57..6883ae4 100644
--- a/pyslet/pyslet/imsqtiv2p1.py
+++ b/pyslet/pyslet/imsqtiv2p1.py
@@ -65,7 +65,7 @@ class RubricBlock(html.BlockMixin,content.BodyElement):
 			view=core.View.DecodeLowerValue(view.strip())
 		viewValue=core.View.EncodeValue(view)
 		if viewValue:	
-			self.view[view]=viewValue
+			self.view[view]=1
 		else:
 			raise ValueError("illegal value for view: %s"%view)
 
diff --git a/pyslet/pyslet/qtiv1/common.py b/pyslet/pyslet/qtiv1/common.py
index 574592c..1d86858 100755
--- a/pyslet/pyslet/qtiv1/common.py
+++ b/pyslet/pyslet/qtiv1/common.py
@@ -157,7 +157,7 @@ class ContentMixin:
 							p=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
 							brBefore=False
 						if brBefore:
-							p.ChildElement(html.Br)
+							p.ChildElement(html.Br,(qtiv2.core.IMSQTI_NAMESPACE,'br'))
 							brBefore=False
 						child.MigrateV2Content(p,html.InlineMixin,log)
 					else:
@@ -165,8 +165,7 @@ class ContentMixin:
 						p=None
 						brBefore=brAfter=False
 						child.MigrateV2Content(parent,html.BlockMixin,log)
-				except AttributeError,e:
-					print e
+				except AttributeError:
 					raise core.QTIError("Error: unsupported QTI v1 content element "+child.xmlname)
 
 
@@ -382,6 +381,18 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 		else:
 			return self.GetValue(),self.ResolveLang()
 
+	def MigrateV2Lang(self,parent):
+		"""Returns the language to declare for this text in *parent*, or None
+		
+		The language may be inherited from the elements this text is in, such
+		as the material, which have no equivalent in version 2."""
+		lang=self.GetLang()
+		if lang is None:
+			lang=self.ResolveLang()
+			if lang==parent.ResolveLang():
+				lang=None
+		return lang
+		
 	def MigrateV2Content(self,parent,childType,log):
 		if self.texttype=='text/plain':
 			data=self.GetValue(True)
@@ -389,7 +400,7 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 				# this data is in the symbol font, translate it
 				# Note that the first page of unicode is the same as iso-8859-1
 				data=data.encode('iso-8859-1').decode('apple-symbol')				
-			lang=self.GetLang()
+			lang=self.MigrateV2Lang(parent)
 			if lang or self.label:
 				if childType is html.BlockMixin:
 					span=parent.ChildElement(html.P,(qtiv2.core.IMSQTI_NAMESPACE,'p'))
@@ -417,8 +428,15 @@ class MatText(core.QTIElement,PositionMixin,MatThingMixin):
 					addNode=parent.ChildElement(self.inlineWrapper,(qtiv2.core.IMSQTI_NAMESPACE,self.inlineWrapper.XMLNAME[1]))
 				else:
 					addNode=parent
-				parent.AddData(data)
+				addNode.AddData(data)
 		elif self.texttype=='text/html':		
+			lang=self.MigrateV2Lang(parent)
+			if lang:
+				if childType is html.BlockMixin or (childType is html.FlowMixin and not self.IsInline()):
+					parent=parent.ChildElement(html.Div,(qtiv2.core.IMSQTI_NAMESPACE,'div'))
+				else:
+					parent=parent.ChildElement(html.Span,(qtiv2.core.IMSQTI_NAMESPACE,'span'))
+				parent.SetLang(lang)
 			if childType is html.BlockMixin or (childType is html.FlowMixin and not self.IsInline()):
 				# Block or mixed-up flow, wrap all text and inline elements in p
 				p=None
@@ -500,7 +518,7 @@ class MatBreak(core.QTIElement,MatThingMixin):
 			
 	def ExtractText(self):
 		"""Returns a simple line break"""
-		return "\n"
+		return "\n",None
 
 	def MigrateV2Content(self,parent,childType,log):
 		if childType in (html.InlineMixin,html.FlowMixin):
@@ -546,7 +564,7 @@ class MatImage(core.QTIElement,PositionMixin,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matimage so we return a simple string."""
-		return "[image]"
+		return "[image]",None
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
@@ -597,7 +615,7 @@ class MatAudio(core.QTIElement,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from mataudio so we return a simple string."""
-		return "[sound]"
+		return "[sound]",None
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
@@ -649,7 +667,7 @@ class MatVideo(core.QTIElement,PositionMixin,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matvideo so we return a simple string."""
-		return "[video]"
+		return "[video]",None
 
 	def MigrateV2Content(self,parent,childType,log):
 		if self.uri is None:
@@ -700,7 +718,7 @@ class MatApplet(core.QTIElement,PositionMixin,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matapplet so we return a simple string."""
-		return "[applet]"
+		return "[applet]",None
 
 	def MigrateV2Content(self,parent,childType,log):
 		raise core.QTIUnimplementedError("matapplet")
@@ -740,7 +758,7 @@ class MatApplication(core.QTIElement,MatThingMixin):
 			
 	def ExtractText(self):
 		"""We cannot extract text from matapplication so we return a simple string."""
-		return "[application]"
+		return "[application]",None
 
 	def MigrateV2Content(self,parent,childType,log):
 		raise core.QTIUnimplementedError("matapplication")
@@ -1157,7 +1175,10 @@ class InterpretVar(core.QTIElement,ContentMixin):
 		identifier=qtiv2.core.ValidateIdentifier(self.varName)
 		if self.view!=core.View.All:
 			log.append('Warning: view restriction on outcome interpretation no longer supported (%s)'%core.View.EncodeValue(self.view))
-		d=v2Item.declarations.get(identifier)
+		d=v2Item.declarations.get(identifier,None)
+		if not isinstance(d,qtiv2.variables.OutcomeDeclaration):
+			log.append('Warning: ignoring interpretation of undeclared outcome (%s)'%identifier)
+			return
 		di,lang=self.ExtractText()
 		di=xsi.WhiteSpaceCollapse(di)
 		if d.interpretation:
@@ -1207,7 +1228,10 @@ class SetVar(core.QTIElement):
 			elif self.action==core.Action.Multiply:
 				op=setValue.ChildElement(qtiv2.expressions.Product)
 			elif self.action==core.Action.Divide:
-				op=setValue.ChildElement(qtiv2.expressions.Divide)
+				if outcome.baseType==qtiv2.variables.BaseType.integer:
+					op=setValue.ChildElement(qtiv2.expressions.IntegerDivide)
+				else:
+					op=setValue.ChildElement(qtiv2.expressions.Divide)
 			variable=op.ChildElement(qtiv2.expressions.Variable)
 			variable.identifier=identifier
 			value=op.ChildElement(qtiv2.expressions.BaseValue)
@@ -1215,6 +1239,16 @@ class SetVar(core.QTIElement):
 		value.SetValue(self.GetValue().strip())
 
 
+def DeclareFeedback(v2Item):
+	"""Declares the outcome that controls the feedback in *v2Item*, if necessary."""
+	if not v2Item.IsDeclared('FEEDBACK'):
+		d=v2Item.ChildElement(qtiv2.variables.OutcomeDeclaration)
+		d.baseType=qtiv2.variables.BaseType.identifier
+		d.cardinality=qtiv2.variables.Cardinality.multiple
+		d.identifier='FEEDBACK'
+		v2Item.RegisterDeclaration(d)
+
+
 class DisplayFeedback(core.QTIElement):
 	"""The <displayfeedback> element is responsible for assigning an associated
 	feedback to the response processing if the 'True' state is created through
@@ -1237,13 +1271,7 @@ class DisplayFeedback(core.QTIElement):
 	def MigrateV2Rule(self,parent,log):
 		v2Item=parent.FindParent(qtiv2.items.AssessmentItem)
 		identifier=qtiv2.core.ValidateIdentifier(self.linkRefID,'FEEDBACK_')
-		outcome=v2Item.declarations.get('FEEDBACK',None)
-		if outcome is None:
-			d=v2Item.ChildElement(qtiv2.variables.OutcomeDeclaration)
-			d.baseType=qtiv2.variables.BaseType.identifier
-			d.cardinality=qtiv2.variables.Cardinality.multiple
-			d.identifier='FEEDBACK'
-			v2Item.RegisterDeclaration(d)
+		DeclareFeedback(v2Item)
 		setValue=parent.ChildElement(qtiv2.processing.SetOutcomeValue)
 		setValue.identifier='FEEDBACK'
 		multiple=setValue.ChildElement(qtiv2.expressions.Multiple)
@@ -1251,7 +1279,7 @@ class DisplayFeedback(core.QTIElement):
 		variable.identifier='FEEDBACK'
 		value=multiple.ChildElement(qtiv2.expressions.BaseValue)
 		value.baseType=qtiv2.variables.BaseType.identifier
-		value.SetValue(self.linkRefID)
+		value.SetValue(identifier)
 
 
 class ConditionVar(core.QTIElement):
@@ -1381,9 +1409,20 @@ class VarEqual(VarThing):
 				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			self.MigrateV2Variable(d,expression,log)
 			self.MigrateV2Value(d,expression,log)
+		elif self.index and d.cardinality==qtiv2.variables.Cardinality.ordered:
+			# a test of one of the values
+			if d.baseType==qtiv2.variables.BaseType.string:
+				expression=parent.ChildElement(qtiv2.expressions.StringMatch)
+				expression.caseSensitive=self.case
+			elif d.baseType==qtiv2.variables.BaseType.float:
+				expression=parent.ChildElement(qtiv2.expressions.Equal)
+			else:
+				expression=parent.ChildElement(qtiv2.expressions.Match)
+			self.MigrateV2Variable(d,expression,log)
+			self.MigrateV2Value(d,expression,log)
 		else:
 			# This test simply becomes a member-test operation
-			if d.baseType==qtiv2.variables.BaseType.identifier or qtiv2.variables.BaseType.pair:
+			if d.baseType in (qtiv2.variables.BaseType.identifier,qtiv2.variables.BaseType.pair):
 				if not self.case:
 					log.append("Warning: case-insensitive comparison of identifiers not supported in version 2")
 			elif d.baseType==qtiv2.variables.BaseType.string:
@@ -1391,7 +1430,7 @@ class VarEqual(VarThing):
 					log.append("Warning: member operation cannot be case-insensitive when baseType is string")
 			elif d.baseType==qtiv2.variables.BaseType.float:
 				log.append("Warning: member operation is deprecated when baseType is float")
-			else:
+			elif d.baseType!=qtiv2.variables.BaseType.integer:
 				raise core.QTIUnimplementedError("varequal(%s)"%qtiv2.variables.BaseType.EncodeValue(d.baseType))
 			expression=parent.ChildElement(qtiv2.expressions.Member)
 			self.MigrateV2Value(d,expression,log)
diff --git a/pyslet/pyslet/qtiv1/item.py b/pyslet/pyslet/qtiv1/item.py
index e9470e5..778118e 100755
--- a/pyslet/pyslet/qtiv1/item.py
+++ b/pyslet/pyslet/qtiv1/item.py
@@ -885,7 +885,11 @@ class ResponseThing(Response):
 		if self.render: yield self.render
 		for child in self.outro: yield child
 
-	def ContentChanged(self):
+	def SplitContent(self):
+		"""Divides the content into the prompt, the interaction and the footer.
+		
+		This must wait until the whole document has been read because the
+		content may refer to material that comes later."""
 		if isinstance(self.render,RenderFIB) and self.render.MixedModel():
 			# use simplified prompt logic.
 			self.prompt=self.intro
@@ -925,6 +929,7 @@ class ResponseThing(Response):
 						self.inlineFooter=False
 			
 	def InlineChildren(self):
+		self.SplitContent()
 		return self.inlinePrompt and (self.render is None or self.render.IsInline()) and self.inlineFooter
 
 	def GetBaseType(self,interaction):
@@ -932,7 +937,12 @@ class ResponseThing(Response):
 		raise core.QTIUnimplementedError("BaseType selection for %s"%self.__class__.__name__)
 
 	def MigrateV2Content(self,parent,childType,log):
-		if self.inlinePrompt:
+		self.SplitContent()
+		if isinstance(self.render,RenderFIB):
+			# there is no prompt, the render migrates all of its own content
+			interactionPrompt=None
+			common.ContentMixin.MigrateV2Content(self,parent,childType,log,self.intro)
+		elif self.inlinePrompt:
 			interactionPrompt=self.prompt
 		else:
 			if childType is html.InlineMixin:
@@ -960,8 +970,8 @@ class ResponseThing(Response):
 				if len(interactionList)>1:
 					i=0
 					for interaction in interactionList:
-						i=i+1
 						while True:
+							i=i+1
 							rIdentifier="%s_%02i"%(baseIdentifier,i)
 							if item is None or not item.IsDeclared(rIdentifier):
 								break
@@ -975,7 +985,11 @@ class ResponseThing(Response):
 				for i,r in zip(interactionList,responseList):
 					d=item.ChildElement(qtiv2.variables.ResponseDeclaration)
 					d.identifier=r
-					d.cardinality=core.MigrateV2Cardinality(self.rCardinality)
+					if len(responseList)>1 and isinstance(i,qtiv2.interactions.TextEntryInteraction):
+						# each of the entries is just one of the values
+						d.cardinality=qtiv2.variables.Cardinality.single
+					else:
+						d.cardinality=core.MigrateV2Cardinality(self.rCardinality)
 					d.baseType=self.GetBaseType(interactionList[0])
 					self.render.MigrateV2InteractionDefault(d,i)
 					item.RegisterDeclaration(d)
@@ -1206,6 +1220,9 @@ class RenderChoice(RenderThing):
 			interaction.minChoices=self.minNumber
 		if self.maxNumber is not None:
 			interaction.maxChoices=self.maxNumber
+		elif self.parent.rCardinality==core.RCardinality.Multiple:
+			# the default in version 2 is a single choice
+			interaction.maxChoices=0
 		interaction.shuffle=self.shuffle
 		for child in self.GetLabelContent():
 			if isinstance(child,ResponseLabel):
@@ -1261,6 +1278,9 @@ class RenderHotspot(RenderThing):
 			interaction.minChoices=self.minNumber
 		if self.maxNumber is not None:
 			interaction.maxChoices=self.maxNumber
+		elif self.parent.rCardinality==core.RCardinality.Multiple:
+			# the default in version 2 is a single choice
+			interaction.maxChoices=0
 		labels=list(self.FindChildrenDepthFirst(ResponseLabel,False))
 		# prompt is either a single <img> tag we already migrated or.. a set of inline
 		# objects that are still to be migrated (and which should contain the hotspot image).
@@ -1313,15 +1333,16 @@ class RenderHotspot(RenderThing):
 						hsi.append((img,hits))
 			if len(hsi)==0:	
 				log.append("Error: omitting render_hotspot with no hotspot image")
+				parent.DeleteChild(interaction)
 				return []
 			else:
 				img,hits=hsi[0]
 				hotspotImage.data=img.ResolveURI(img.uri)
 				hotspotImage.type=img.imageType
-				hotspotImage.height=html.LengthType(img.height)
-				hotspotImage.width=html.LengthType(img.width)
+				if img.height is not None: hotspotImage.height=html.LengthType(img.height)
+				if img.width is not None: hotspotImage.width=html.LengthType(img.width)
 				# it will get cleaned up later
-				if len(hsi)>0:
+				if len(hsi)>1:
 					# Worst case: multiple images => multiple hotspot interactions
 					if self.maxNumber is not None:
 						log.append("Warning: multi-image hotspot maps to multiple interactions, maxChoices can no longer be enforced")
@@ -1333,11 +1354,13 @@ class RenderHotspot(RenderThing):
 						interaction=parent.ChildElement(qtiv2.interactions.HotspotInteraction)
 						if self.maxNumber is not None:
 							interaction.maxChoices=self.maxNumber
+						elif self.parent.rCardinality==core.RCardinality.Multiple:
+							interaction.maxChoices=0
 						hotspotImage=interaction.ChildElement(html.Object,(qtiv2.core.IMSQTI_NAMESPACE,'object'))
 						hotspotImage.data=img.ResolveURI(img.uri)
 						hotspotImage.type=img.imageType
-						hotspotImage.height=html.LengthType(img.height)
-						hotspotImage.width=html.LengthType(img.width)
+						if img.height is not None: hotspotImage.height=html.LengthType(img.height)
+						if img.width is not None: hotspotImage.width=html.LengthType(img.width)
 						for child in hits:
 							child.MigrateV2HotspotChoice(interaction,log,img.x0,img.y0)
 						interactionList.append(interaction)
@@ -1741,8 +1764,8 @@ class ResponseLabel(core.QTIElement,common.ContentMixin):
 		for child in self.GetChildren():
 			if type(child) in StringTypes:
 				valueData.append(child)
-			else:
-				childLang,text=child.ExtractText()
+			elif isinstance(child,common.ContentMixin):
+				text,childLang=child.ExtractText()
 				if lang is None and childLang is not None:
 					lang=childLang
 				labelData.append(text)
@@ -1823,7 +1846,10 @@ class ResProcessing(common.QTICommentContainer):
 		for outcomeFixup in sorted(self._interactionFixup.keys()):
 			setValue=rp.ChildElement(qtiv2.processing.SetOutcomeValue)
 			setValue.identifier=outcomeFixup
-			multi=setValue.ChildElement(qtiv2.expressions.Multiple)
+			if v2Item.declarations[outcomeFixup].cardinality==qtiv2.variables.Cardinality.ordered:
+				multi=setValue.ChildElement(qtiv2.expressions.Ordered)
+			else:
+				multi=setValue.ChildElement(qtiv2.expressions.Multiple)
 			for rID in self._interactionFixup[outcomeFixup]:
 				var=multi.ChildElement(qtiv2.expressions.Variable)
 				var.identifier=rID
@@ -2008,7 +2034,7 @@ class ItemProcExtension(common.ContentMixin,core.QTIElement,ConditionMixin):
 				# humanraterdata extension, migrate content with appropriate view
 				v2Item=ruleContainer.FindParent(qtiv2.items.AssessmentItem)
 				rubric=v2Item.ChildElement(qtiv2.content.ItemBody).ChildElement(qtiv2.RubricBlock)
-				rubric.view=qtiv2.core.View.scorer
+				rubric.AddView(qtiv2.core.View.scorer)
 				material=list(child.FindChildrenDepthFirst(common.Material,False))
 				self.MigrateV2Content(rubric,html.BlockMixin,log,material)
 		return cMode,ruleContainer
@@ -2052,6 +2078,7 @@ class ItemFeedback(core.QTIElement,common.ContentMixin):
 			self.contentChildren)
 
 	def MigrateV2(self,v2Item,log):
+		common.DeclareFeedback(v2Item)
 		feedback=v2Item.ChildElement(qtiv2.QTIModalFeedback)
 		if not self.view in (core.View.All,core.View.Candidate):
 			log.append("Warning: discarding view on feedback (%s)"%core.View.EncodeValue(self.view))
-- 
2.43.0


From 22cf13c2dd76295cd20a3b5018afdaad46a45142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 44/48] fix: HTTP header values are read and written exactly
 and malformed ones are refused

---
 pyslet/pyslet/rfc2616_core.py    | 41 ++++++++++-------
 pyslet/pyslet/rfc2616_headers.py | 76 +++++++++++++++++++++++++-------
 pyslet/pyslet/rfc2616_params.py  | 24 +++++-----
 3 files changed, 96 insertions(+), 45 deletions(-)

diff --git a/pyslet/pyslet/rfc2616_core.py b/pyslet/pyslet/rfc2616_core.py
index fe38fc0..4a9c50b 100755
--- a/pyslet/pyslet/rfc2616_core.py
+++ b/pyslet/pyslet/rfc2616_core.py
@@ -70,7 +70,7 @@ def IsHEX(c):
 	return IsDIGIT(c) or (ord('A')<=ord(c) and ord(c)<=ord('F')) or (ord('a')<=ord(c) and ord(c)<=ord('f'))
 
 
-def IsHEXDIGITS(c):
+def IsHEXDIGITS(src):
 	"""Given a string, returns True if all characters match the production for HEX.
 	
 	Empty strings return False"""
@@ -96,6 +96,8 @@ def IsSEPARATOR(c):
 
 def CheckToken(t):
 	"""Raises ValueError if *t* is *not* a valid token"""
+	if not t:
+		raise ValueError("Empty token")
 	for c in t:
 		if c in SEPARATORS:
 			raise ValueError("Separator found in token: %s"%t)
@@ -143,7 +145,7 @@ class HTTPParser(BasicParser):
 				return SP
 			else:
 				return lws
-		elif IsOCTET(self.theChar) and not IsCTL(self.theChar):
+		elif self.theChar is not None and IsOCTET(self.theChar) and not IsCTL(self.theChar):
 			result=self.theChar
 			self.NextChar()
 			return result
@@ -179,7 +181,7 @@ class HTTPParser(BasicParser):
 		found."""
 		token=[]
 		while self.theChar is not None:
-			if IsCTL(self.theChar) or IsSEPARATOR(self.theChar):
+			if IsCTL(self.theChar) or IsSEPARATOR(self.theChar) or not IsCHAR(self.theChar):
 				break
 			else:
 				token.append(self.theChar)
@@ -270,7 +272,7 @@ class HTTPParser(BasicParser):
 		if not self.Parse(DQUOTE):
 			return None
 		qs=[DQUOTE]
-		while self.theChar is not None:
+		while True:
 			if self.Parse(DQUOTE):
 				qs.append(DQUOTE)
 				break
@@ -324,7 +326,7 @@ class HTTPParser(BasicParser):
 		found."""
 		savePos=self.pos
 		if self.Parse("\\"):
-			if IsCHAR(self.theChar):
+			if self.theChar is not None and IsCHAR(self.theChar):
 				qdPair="\\"+self.theChar
 				self.NextChar()
 				return qdPair				
@@ -377,16 +379,25 @@ class WordParser(object):
 					sp=True
 			if sp:
 				self.words.append(SP)
+			if p.theChar is None:
+				break
 			if IsSEPARATOR(p.theChar):
-				if p.theChar=="(":
-					self.words.append(p.ParseComment(True))
-				elif p.theChar==DQUOTE:
-					self.words.append(p.ParseQuotedString(True))
+				if p.theChar=="(" or p.theChar==DQUOTE:
+					try:
+						if p.theChar=="(":
+							self.words.append(p.ParseComment(True))
+						else:
+							self.words.append(p.ParseQuotedString(True))
+					except ValueError,err:
+						raise SyntaxError(str(err))
 				else:
 					self.words.append(p.theChar)
 					p.NextChar()
 			else:
-				self.words.append(p.ParseToken())
+				token=p.ParseToken()
+				if token is None:
+					raise SyntaxError("Expected word, found %s"%repr(p.theChar))
+				self.words.append(token)
 		self.pos=0
 		if self.words:
 			self.cWord=self.words[0]
@@ -513,12 +524,12 @@ class WordParser(object):
 		"""Parses a token list from the list of words, returning the list or []."""
 		result=[]
 		while self.cWord:
+			self.ParseSP()
 			token=self.ParseToken()
 			if token:
 				result.append(token)
-			elif self.ParseSeparator(','):
-				continue
-			else:
+				self.ParseSP()
+			if not self.ParseSeparator(','):
 				break
 		return result
 	
@@ -697,12 +708,12 @@ def QuoteString(s,force=True):
 		if c in '\\"' or (IsCTL(c) and c not in SP+HT):
 			qstring.append('\\'+c)
 			force=True
-		elif IsCTL(c) or IsSEPARATOR(c):
+		elif IsCTL(c) or IsSEPARATOR(c) or not IsCHAR(c):
 			force=True
 			qstring.append(c)
 		else:
 			qstring.append(c)		
-	if force:
+	if force or not s:
 		qstring.append('"')
 	else:
 		del qstring[0]
diff --git a/pyslet/pyslet/rfc2616_headers.py b/pyslet/pyslet/rfc2616_headers.py
index 6657966..88bc495 100755
--- a/pyslet/pyslet/rfc2616_headers.py
+++ b/pyslet/pyslet/rfc2616_headers.py
@@ -50,9 +50,13 @@ class MediaRange(MediaType):
 		return mr
 					
 	def __repr__(self):
-		return "MediaType(%s,%s,%s)"%(repr(self.type),repr(self.subtype),repr(self.parameters))
+		return "MediaRange(%s,%s,%s)"%(repr(self.type),repr(self.subtype),repr(self.parameters))
 			
 	def __cmp__(self,other):
+		if type(other) in StringTypes:
+			other=MediaRange.FromString(other)
+		elif not isinstance(other,MediaRange):
+			raise TypeError
 		result=self.CompareTypes(self.type,other.type)
 		if result:
 			return result
@@ -63,7 +67,7 @@ class MediaRange(MediaType):
 		result=-cmp(len(self.parameters),len(other.parameters))
 		if result:
 			return result
-		return cmp(self.parameters,other.parameters)
+		return cmp(self._hp,other._hp)
 			
 	def CompareTypes(self,aType,bType):
 		if aType=='*':
@@ -98,13 +102,9 @@ class MediaRange(MediaType):
 
 		*	application/myapp;charset=utf-8;option=on *does* match the
 			range application/myapp;option=on"""
-		if self.type=='*':
-			return True
-		elif self.type.lower()!=mType.type.lower():
+		if self.type!='*' and self.type.lower()!=mType.type.lower():
 			return False
-		if self.subtype=='*':
-			return True
-		elif self.subtype.lower()!=mType.subtype.lower():
+		if self.subtype!='*' and self.subtype.lower()!=mType.subtype.lower():
 			return False
 		# all the parameters in the range must be matched
 		for p,v in self._hp:
@@ -148,6 +148,9 @@ class AcceptItem(MediaRange):
 		p.RequireEnd("Accept header item")
 		return ai
 
+	def __repr__(self):
+		return "AcceptItem(%s,%s,%s)"%(repr(self.range),repr(self.q),repr(self.params))
+
 	def __str__(self):
 		result=[str(self.range)]
 		if self.params or self.q!=1.0:
@@ -172,7 +175,7 @@ class AcceptItem(MediaRange):
 		return result
 
 	def __hash__(self):
-		return hash(self.range,self.q)
+		return hash((self.range,self.q))
 					
 
 class AcceptList(object):
@@ -293,7 +296,7 @@ class AcceptToken(object):
 		return result
 
 	def __hash__(self):
-		return hash(self._token,self.q)
+		return hash((self._token,self.q))
 
 
 class AcceptTokenList(object):
@@ -441,6 +444,9 @@ class AcceptLanguageItem(AcceptToken):
 		if result==0:
 			# and then secondary sort on alphabetical
 			result=cmp(self._range,other._range)
+		if result==0:
+			# equal ranges sort by descending qvalue
+			result=cmp(other.q,self.q)
 		return result
 
 
@@ -453,7 +459,11 @@ class AcceptLanguageList(AcceptTokenList):
 
 	def SelectToken(self,tokenList):
 		"""Remapped to :py:meth:`SelectLanguage`"""
-		return str(self.SelectLanguage(map(LanguageTag.FromString,tokenList)))
+		lang=self.SelectLanguage(map(LanguageTag.FromString,tokenList))
+		if lang is None:
+			return None
+		else:
+			return str(lang)
 	
 	def SelectLanguage(self,langList):
 		bestMatch=None
@@ -781,10 +791,10 @@ class HeaderParser(ParameterParser):
 		items=[]
 		self.ParseSP()
 		while self.cWord:
+			# null elements are allowed but do not contribute
 			a=self.ParseProduction(self.RequireAcceptItem)
-			if a is None:
-				break
-			items.append(a)
+			if a is not None:
+				items.append(a)
 			self.ParseSP()
 			if not self.ParseSeparator(','):
 				break
@@ -830,15 +840,47 @@ class HeaderParser(ParameterParser):
 		items=[]
 		self.ParseSP()
 		while self.cWord:
+			# null elements are allowed but do not contribute
 			a=self.ParseProduction(self.RequireAcceptToken,cls.ItemClass)
-			if a is None:
-				break
-			items.append(a)
+			if a is not None:
+				items.append(a)
 			self.ParseSP()
 			if not self.ParseSeparator(','):
 				break
 		return cls(*items)
 
+	def ParseCacheControl(self):
+		"""Parses a list of cache directives, returning a
+		:py:class:`CacheControl` instance.  Raises SyntaxError if no
+		directives were found."""
+		directives=[]
+		self.ParseSP()
+		while self.cWord:
+			directive=self.ParseTokenLower()
+			if directive is not None:
+				self.ParseSP()
+				if self.ParseSeparator('='):
+					self.ParseSP()
+					if self.IsQuotedString():
+						value=self.ParseQuotedString()
+						if directive in ("private","no-cache"):
+							fields=HeaderParser(value)
+							value=tuple(fields.ParseTokenList())
+							fields.RequireEnd("field-name list")
+					else:
+						value=self.RequireToken("cache directive value")
+					directives.append((directive,value))
+				else:
+					directives.append(directive)
+				self.ParseSP()
+			if not self.ParseSeparator(','):
+				break
+			self.ParseSP()
+		if directives:
+			return CacheControl(*directives)
+		else:
+			self.Error("cache directive")
+
 	def RequireContentRangeSpec(self):
 		"""Parses a content-range-spec, returning an
 		:py:class:`ContentRange` instance."""
diff --git a/pyslet/pyslet/rfc2616_params.py b/pyslet/pyslet/rfc2616_params.py
index 522471f..96a55b7 100755
--- a/pyslet/pyslet/rfc2616_params.py
+++ b/pyslet/pyslet/rfc2616_params.py
@@ -145,7 +145,7 @@ class FullDate(iso.TimePoint):
 			century*100+year,
 			hour,minute,second)
 
-	def __unicode(self):
+	def __unicode__(self):
 		"""See __str__"""
 		return unicode(str(self))
 
@@ -167,8 +167,7 @@ class TransferEncoding(object):
 		else:
 			self.token=token
 			self.parameters=parameters
-		self._hp=map(lambda x:(x[0],x[1][1]),self.parameters.items())
-		self._hp.sort()
+		self._hp=tuple(sorted(map(lambda x:(x[0],x[1][1]),self.parameters.items())))
 	
 	@classmethod
 	def FromString(cls,source):
@@ -183,13 +182,10 @@ class TransferEncoding(object):
 	def __str__(self):
 		return self.token+FormatParameters(self.parameters)
 
-	def __eq__(self,other):
-		return hash(self)==hash(other)
-	
 	def __cmp__(self,other):
 		if type(other) in StringTypes:
 			other=TransferEncoding.FromString(other)
-		if not isinstance(TransferEncoding):
+		if not isinstance(other,TransferEncoding):
 			raise TypeError
 		return cmp((self.token,self._hp),(other.token,other._hp))
 		
@@ -211,8 +207,7 @@ class MediaType(object):
 		self.type=type
 		self.subtype=subtype
 		self.parameters=parameters
-		self._hp=map(lambda x:(x[0],x[1][1]),self.parameters.items())
-		self._hp.sort()
+		self._hp=tuple(sorted(map(lambda x:(x[0],x[1][1]),self.parameters.items())))
 	
 	@classmethod
 	def FromString(cls,source):
@@ -554,7 +549,7 @@ class EntityTag:
 		return unicode(self.__str__())
 	
 	def __repr__(self):
-		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.week else "False")
+		return "EntityTag(%s,%s)"%(repr(self.tag),"True" if self.weak else "False")
 			
 	def __cmp__(self,other):
 		"""Entity-tags are compared case sensitive."""
@@ -592,7 +587,7 @@ class ParameterParser(WordParser):
 				raise SyntaxError("Expected version, found %s"%repr(token))
 			return HTTPVersion(major=int(version[0]),minor=int(version[1]))
 		except SyntaxError:
-			self.SetPos(savePost)
+			self.SetPos(savePos)
 			return None
 
 	wkday=["Mon","Tue","Wed","Thu","Fri","Sat","Sun"]
@@ -685,7 +680,10 @@ class ParameterParser(WordParser):
 				century=20
 			else:
 				century=19
-		tp=FullDate(date=iso.Date(century=century,year=year,month=month+1,day=day),time=iso.Time(hour=hour,minute=minute,second=second,zDirection=0))
+		try:
+			tp=FullDate(date=iso.Date(century=century,year=year,month=month+1,day=day),time=iso.Time(hour=hour,minute=minute,second=second,zDirection=0))
+		except iso.DateTimeError,e:
+			raise SyntaxError("Illegal date or time: %s"%str(e))
 		d1,d2,d3,d4,dow=tp.date.GetWeekDay()
 		if dow!=dayOfWeek+1:
 			raise SyntaxError("Day-of-week mismatch, expected %s but found %s"%(self.wkday[dow-1],self.wkday[dayOfWeek]))
@@ -744,7 +742,7 @@ class ParameterParser(WordParser):
 				if IsDIGITS(qSplit[0]):
 					q=float(qSplit[0])
 			elif len(qSplit)==2:
-				if IsDIGITS(qSplit[0]) and IsDIGITS(qSplit[1]):
+				if IsDIGITS(qSplit[0]) and (IsDIGITS(qSplit[1]) or not qSplit[1]):
 					q=float("%.3f"%float(self.cWord))
 			if q is None:
 				return None
-- 
2.43.0


From 4ca17fbde6e2c1150b5f837f818c03077062abe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 45/48] fix: the HTTP client frames, pipelines, redirects and
 authorises requests correctly

---
 pyslet/pyslet/rfc2616.py | 185 ++++++++++++++++++++++++++++-----------
 pyslet/pyslet/rfc2617.py |  56 ++++++++----
 2 files changed, 171 insertions(+), 70 deletions(-)

diff --git a/pyslet/pyslet/rfc2616.py b/pyslet/pyslet/rfc2616.py
index bc2e377..03c4900 100644
--- a/pyslet/pyslet/rfc2616.py
+++ b/pyslet/pyslet/rfc2616.py
@@ -156,7 +156,9 @@ class Connection(object):
 				if self.response is None or self.IDEMPOTENT.get(request.method,False):
 					# If we are waiting for a response we only accept idempotent methods
 					self.requestQueue=self.requestQueue[1:]
-				self._StartRequest(request)
+					if not self._StartRequest(request):
+						# this one can't be sent, go round for the next
+						continue
 			if self.request or self.response:
 				if self.socket is None:
 					self.NewSocket()
@@ -210,13 +212,14 @@ class Connection(object):
 					try:
 						r,w,e=self.socketSelect([self.socketFile],[],[self.socketFile],0)
 					except select.error, err:
-						r=[]
 						self.Close(err)
+						continue
 					if e:
 						# there is an error on our socket...
 						self.Close("socket error indicated by select")
 					elif r:
-						if self._RecvResponseData():
+						done=self._RecvResponseData()
+						while done:
 							# The response is done
 							closeConnection=False
 							if self.response:
@@ -229,8 +232,13 @@ class Connection(object):
 								if self.requestMode==self.CLOSE_WAIT:
 									# no response and waiting to close the connection
 									closeConnection=True
+								elif self.recvBuffer:
+									# we didn't ask for what follows the last response
+									closeConnection=True
 							if closeConnection:
 								self.Close()
+							# The next response might be in the buffer already
+							done=self.response is not None and self.recvBuffer and self._HandleRecvBuffer()
 						# Any data received on the connection could change the request
 						# state, so we loop round again
 						continue
@@ -332,14 +340,20 @@ class Connection(object):
 				except socket.error, msg:
 					# ignore errors, most likely the server has stopped listening
 					pass
-				self.connectionClosed=True
+			self.connectionClosed=True
 
 	def _StartRequest(self,request):
 		# Starts processing the request.  Returns True if the request
 		# has been accepted for processing, False otherwise.
 		self.request=request
 		self.request.SetHTTPConnection(self)
-		headers=self.request.ReadRequestHeader()
+		try:
+			headers=self.request.ReadRequestHeader()
+		except HTTPException,err:
+			logging.error("%s: request can't be sent, %s",self.host,str(err))
+			self.request=None
+			request.Failed(err)
+			return False
 		logging.debug("Sending to %s: \n%s",self.host,headers)
 		self.sendBuffer.append(headers)
 		# Now check to see if we have an expect header set
@@ -378,7 +392,7 @@ class Connection(object):
 				# requests!
 				self.request.Disconnect()
 				self.request=None
-				self.requestMode==self.CLOSE_WAIT
+				self.requestMode=self.CLOSE_WAIT
 				self.sendBuffer=[]
 			elif nBytes<len(data):
 				# Some of the data went:
@@ -411,9 +425,15 @@ class Connection(object):
 			# up, we should implement the HTTP retry strategy for the
 			# related request
 			logging.debug("%s: closing connection after recv returned no data on ready to read socket",self.host)
-			self.Close()
+			self.Close(err)
 			return True
-		# Now loop until we can't satisfy the response anymore (or the response is done)
+		return self._HandleRecvBuffer()
+		
+	def _HandleRecvBuffer(self):
+		#	Passes data from the buffer to the response, we return True
+		#	when the response has been received completely, False
+		#	otherwise
+		#	Loop until we can't satisfy the response anymore (or the response is done)
 		while self.response is not None:
 			recvNeeds=self.response.RecvNeeds()
 			if recvNeeds==CRLF:
@@ -423,9 +443,6 @@ class Connection(object):
 				if pos>=0:
 					line=data[0:pos+2]
 					data=data[pos+2:]
-				elif err:
-					self.Close(err)
-					return True
 				else:
 					# We didn't find the data we wanted this time
 					break
@@ -490,6 +507,7 @@ class Connection(object):
 			self.socket=None
 			self.socketFile=None
 			self.socketSelect=select.select
+		sNew=None
 		try:
 			for target in self.manager.DNSLookup(self.host,self.port):
 				family, socktype, protocol, canonname, address = target
@@ -511,7 +529,7 @@ class Connection(object):
 			with self.connectionLock:
 				if self.connectionClosed:
 					# This connection has been killed
-					self._CloseSocket(newS)
+					self._CloseSocket(sNew)
 					logging.error("Connection killed while connecting to %s",self.host)
 					raise HTTPException("Connection closed")
 				else:
@@ -726,7 +744,7 @@ class HTTPRequestManager(object):
 		target=connection.TargetKey()
 		threadTarget=connection.ThreadTargetKey()
 		with self.managerLock:
-			if threadTarget in self.cActiveThreadTargets:
+			if self.cActiveThreadTargets.get(threadTarget,None) is connection:
 				del self.cActiveThreadTargets[threadTarget]
 				self.cIdleList[connection.id]=connection
 				if target in self.cIdleTargets:
@@ -897,6 +915,14 @@ class HTTPRequestManager(object):
 		with self.managerLock:
 			self.credentials.append(credentials)
 	
+	def RemoveCredentials(self,credentials):
+		"""Removes a :py:class:`pyslet.rfc2617.Credentials` instance from
+		this manager.
+		
+		If there is no such instance no error is raised."""
+		with self.managerLock:
+			self.credentials=filter(lambda c:c is not credentials,self.credentials)
+	
 	def DNSLookup(self,host,port):
 		"""Given a host name (string) and a port number performs a DNS lookup
 		using the native socket.getaddrinfo function.  The resulting value is
@@ -1029,7 +1055,7 @@ class HTTPMessage(object):
 		if allowed is None:
 			self.SetHeader("Allow",None)
 		else:
-			if type(acceptValue) in StringTypes:
+			if type(allowed) in StringTypes:
 				allowed=Allow.FromString(allowed)
 			if not isinstance(allowed,Allow):
 				raise TypeError
@@ -1068,7 +1094,9 @@ class HTTPMessage(object):
 		fieldValue=self.GetHeader("Connection")
 		if fieldValue:
 			hp=HeaderParser(fieldValue)
-			return set(map(lambda x:x.lower(),hp.ParseTokenList()))
+			tokens=hp.ParseTokenList()
+			hp.RequireEnd("Connection header")
+			return set(map(lambda x:x.lower(),tokens))
 		else:
 			return set()
 		
@@ -1093,7 +1121,9 @@ class HTTPMessage(object):
 		fieldValue=self.GetHeader("Content-Encoding")
 		if fieldValue:
 			hp=HeaderParser(fieldValue)
-			return map(lambda x:x.lower(),hp.ParseTokenList())
+			tokens=hp.ParseTokenList()
+			hp.RequireEnd("Content-Encoding header")
+			return map(lambda x:x.lower(),tokens)
 		else:
 			return []
 		
@@ -1134,7 +1164,8 @@ class HTTPMessage(object):
 		If no Content-Length header was present None is returned."""
 		fieldValue=self.GetHeader("Content-Length")
 		if fieldValue is not None:
-			return int(fieldValue.strip())
+			hp=HeaderParser(fieldValue)
+			return hp.RequireProductionEnd(hp.ParseInteger(),"Content-Length")
 		else:
 			return None
 
@@ -1250,7 +1281,7 @@ class HTTPMessage(object):
 		if date is None:
 			self.SetHeader("Date",None)
 		else:
-			self.SetHeader("Date",FormatDate(date))
+			self.SetHeader("Date",str(date))
 				
 	def GetExpectContinue(self):
 		fieldValue=self.GetHeader("Expect")
@@ -1296,7 +1327,7 @@ class HTTPMessage(object):
 			return
 		# If there is an encoding other than 'identity' then we're using chunked
 		encoding=self.GetTransferEncoding()
-		if encoding is not None and encoding!="identity":
+		if encoding is not None and encoding.strip().lower()!="identity":
 			self.transferChunked=True
 			self.transferLength=None
 			# overrides any Content-Length setting
@@ -1537,9 +1568,16 @@ class HTTPRequest(HTTPMessage):
 		request, may be before or after the response is received
 		and handled!"""
 		self.connection=None
-		if self.status>0:
-			# The response has finished
+		if self.status>=200:
+			# The (final) response has finished
 			self.Finished()
+	
+	def Failed(self,err):
+		"""Called when the request could not be sent at all."""
+		self.connection=None
+		self.status=0
+		self.error=err
+		self.Finished()
 		
 	def ReadRequestHeader(self):
 		"""Returns a data string ready to send to the server"""
@@ -1597,10 +1635,11 @@ class HTTPRequest(HTTPMessage):
 			# We're just sending the body string
 			if self.transferChunked:
 				buffer=[]
-				# Send the first chunk size
-				buffer.append("%x\r\n"%len(self.reqBody))
-				buffer.append(self.reqBody)
-				buffer.append(CRLF)
+				if self.reqBody:
+					# Send the first chunk size, an empty chunk would be the last one
+					buffer.append("%x\r\n"%len(self.reqBody))
+					buffer.append(self.reqBody)
+					buffer.append(CRLF)
 				buffer.append("0\r\n\r\n")
 				self.transferPos=len(self.reqBody)
 				self.transferDone=True
@@ -1663,11 +1702,14 @@ class HTTPRequest(HTTPMessage):
 						# There was more data to send in the request but we
 						# don't plan to send it so we have to hang up!
 						self.connection.RequestDisconnect()
-					# else, we were finished anyway... the connection will discover this itself
-				elif self.response>=200:
+					else:
+						# we were finished anyway... the connection will discover this
+						# itself but it must not wait for a 100 Continue any more
+						self.connection.Continue(self)
+				elif self.status>=200:
 					# For 2xx result codes we let the connection finish spooling
 					# and disconnect from us when it is done
-					pass
+					self.connection.Continue(self)
 				else:
 					# A bad information response (with body) or a bad status code
 					self.connection.RequestDisconnect()
@@ -1699,21 +1741,50 @@ class HTTPRequest(HTTPMessage):
 			# If the 302 status code is received in response to a request other
 			# than GET or HEAD, the user agent MUST NOT automatically redirect the
 			# request unless it can be confirmed by the user
-			location=self.response.GetHeader("Location").strip()
-			if location:
-				url=uri.URIFactory.URI(location)
-				if not url.host:
-					# This is an error but a common one (thanks IIS!)
-					location=location.Resolve(self.requestURI)
-				self.Resend(location)
+			url=self.GetRedirectURI()
+			if url is not None:
+				if self.status==303 and not self.method.upper() in ("GET","HEAD"):
+					# the other resource is always retrieved using GET
+					self.method="GET"
+					self.reqBody=''
+					self.reqBodyStream=None
+					for fieldName in ("Content-Length","Transfer-Encoding","Content-Type","Expect"):
+						self.SetHeader(fieldName,None)
+				if url.GetCanonicalRoot()!=self.requestURI.GetCanonicalRoot():
+					# don't disclose credentials to the other server
+					self.SetHeader("Authorization",None)
+				self.Resend(url)
 		elif self.status==401:
-			challenges=self.response.GetWWWAuthenticate()
+			try:
+				challenges=self.response.GetWWWAuthenticate()
+			except HTTPException,err:
+				logging.warn("Ignoring badly formed challenge: %s",str(err))
+				challenges=[]
 			for c in challenges:
 				c.protectionSpace=self.requestURI.GetCanonicalRoot()
 				self.tryCredentials=self.manager.FindCredentials(c)
 				if self.tryCredentials:
 					self.SetHeader('Authorization',str(self.tryCredentials))
 					self.Resend()	# to the same URL
+					break
+
+	def GetRedirectURI(self):
+		"""Returns the absolute URI we are being redirected to, or None if
+		there is no such URI or it can't be used in a request."""
+		location=self.response.GetHeader("Location")
+		if self.status==304 or location is None or not location.strip():
+			return None
+		try:
+			url=uri.URIFactory.URI(location.strip())
+			if not url.IsAbsolute():
+				# This is an error but a common one (thanks IIS!)
+				url=url.Resolve(self.requestURI)
+		except uri.URIException:
+			return None
+		if isinstance(url,HTTPURL) and url.host and not url.userinfo:
+			return url
+		else:
+			return None
 
 class HTTPResponse(HTTPMessage):
 	
@@ -1810,7 +1881,7 @@ class HTTPResponse(HTTPMessage):
 		if fieldValue is not None:
 			return Challenge.ListFromString(fieldValue)
 		else:
-			return None
+			return []
 
 	def SetWWWAuthenticate(self,challenges):
 		"""Sets the "WWW-Authenticate" header, replacing any exsiting
@@ -1854,15 +1925,13 @@ class HTTPResponse(HTTPMessage):
 	def RecvLine(self,line):
 		if self.mode==self.RESP_STATUS:
 			# Read the status line
-			statusLine=ParameterParser(line[:-2],ignoreSpace=False)
-			self.protocolVersion=statusLine.ParseHTTPVersion()
-			statusLine.ParseSP()
-			if statusLine.IsInteger():
-				self.status=statusLine.ParseInteger()
-			else:
-				self.status=0
-			statusLine.ParseSP()
-			self.reason=statusLine.ParseRemainder()
+			statusLine=line[:-2].split(None,2)
+			if len(statusLine)<2 or len(statusLine[1])!=3 or not IsDIGITS(statusLine[1]) or statusLine[1]<"100":
+				raise HTTPException("Badly formed status line: %s"%repr(line))
+			self.protocolVersion=HTTPVersion.FromString(statusLine[0])
+			self.status=int(statusLine[1])
+			# the reason phrase is just text, it might be missing
+			self.reason=statusLine[2] if len(statusLine)>2 else ""
 			self.mode=self.RESP_HEADER
 		elif self.mode==self.RESP_HEADER:
 			self.ReadHeader(line)
@@ -1883,8 +1952,9 @@ class HTTPResponse(HTTPMessage):
 				self.request.HandleResponseHeader()
 		elif self.mode==self.RESP_CHUNK_SIZE:
 			# Read the chunk size
-			p=ParameterParser(line[:-2])
-			chunkLine=p.ParseToken()
+			chunkLine=line[:-2].split(';',1)[0].strip()
+			if not IsHEXDIGITS(chunkLine):
+				raise HTTPException("Badly formed chunk size: %s"%repr(line))
 			self.transferLength=int(chunkLine,16)
 			self.transferPos=0
 			if self.transferLength==0:
@@ -1928,7 +1998,7 @@ class HTTPResponse(HTTPMessage):
 					self.currHeader=ch
 				else:
 					# badly formed header line
-					raise HTTP2616ProtocolError("Badly formed header line: %s"%h)
+					raise HTTPException("Badly formed header line: %s"%h)
 			return True
 
 	def RecvBytes(self,data):
@@ -1937,6 +2007,9 @@ class HTTPResponse(HTTPMessage):
 			extra=self.transferPos-(self.transferLength-2)
 			if extra>0:
 				self.request.WriteResponse(data[:-extra])
+				tail=data[-extra:]
+				if tail!=CRLF[extra-len(tail):extra]:
+					raise HTTPException("Expected CRLF after chunk, found %s"%repr(tail))
 			else:
 				self.request.WriteResponse(data)
 			if self.transferPos>=self.transferLength:
@@ -1947,7 +2020,7 @@ class HTTPResponse(HTTPMessage):
 			if self.transferLength:
 				if self.transferPos>self.transferLength:
 					extra=self.transferPos-self.transferLength
-					self.request.WriteResponse(data[:extra])
+					self.request.WriteResponse(data[:-extra])
 				else:
 					self.request.WriteResponse(data)
 				if self.transferPos>=self.transferLength:
@@ -1969,5 +2042,15 @@ class HTTPResponse(HTTPMessage):
 		response.  We pass this information on to the request.  Note that if we
 		are reading forever 'err' may or may not be set when the server finally
 		hangs up and stops sending."""
-		self.reason=str(err)
+		if self.mode==self.RESP_DONE:
+			# too late to matter
+			return
+		elif self.mode==self.RESP_DATA and not self.transferLength:
+			# we were reading forever
+			self.mode=self.RESP_DONE
+		else:
+			if err is None:
+				err=HTTPException("server disconnected before the response was complete")
+			self.status=None
+			self.reason=str(err)
 		self.request.ResponseFinished(err)
diff --git a/pyslet/pyslet/rfc2617.py b/pyslet/pyslet/rfc2617.py
index 6c606f3..855c4aa 100755
--- a/pyslet/pyslet/rfc2617.py
+++ b/pyslet/pyslet/rfc2617.py
@@ -7,6 +7,11 @@ from pyslet.rfc2616_core import *
 from pyslet.rfc2616_params import *
 
 
+class HTTPInvalidBasicCredentials(HTTPException):
+	"""Raised when parsing badly formed basic credentials."""
+	pass
+
+
 class Challenge(object):
 	"""Represents an HTTP authentication challenge.
 	
@@ -60,6 +65,7 @@ class Challenge(object):
 			c=p.ParseProduction(p.RequireChallenge)
 			if c is not None:
 				challenges.append(c)
+			p.ParseSP()
 			if not p.ParseSeparator(","):
 				break
 		p.RequireEnd("challenge")
@@ -78,7 +84,7 @@ class Challenge(object):
 		return unicode(self.__str__())
 	
 	def __repr__(self):
-		return "Challege(%s,%s)"%(repr(self.scheme),string.join(map(repr,self._params),','))
+		return "Challenge(%s,%s)"%(repr(self.scheme),string.join(map(repr,self._params),','))
 			
 	def __len__(self):
 		return len(self._params)
@@ -143,12 +149,12 @@ class Credentials(object):
 		The match is successful if the authentication scheme, the
 		protection space and the realms match the corresponding values
 		in the challenge."""
-		if self.scheme!=challenge.scheme:
+		if self.scheme is None or self.scheme.lower()!=challenge.scheme.lower():
 			return False
 		if self.protectionSpace!=challenge.protectionSpace:
 			return False
 		if self.realm:
-			if self.realm!=challenge.realm:
+			if self.realm!=challenge["realm"]:
 				return False
 		return True
 
@@ -192,7 +198,11 @@ class BasicCredentials(Credentials):
 		self.pathPrefixes=[]	#: a list of path-prefixes for which these credentials are known to be good 
 		
 	def SetBasicCredentials(self,basicCredentials):
-		credentials=base64.b64decode(basicCredentials).split(':')
+		try:
+			# the userid can't contain a colon, but the password can
+			credentials=base64.b64decode(basicCredentials).split(':',1)
+		except TypeError:
+			raise HTTPInvalidBasicCredentials(basicCredentials)
 		if len(credentials)==2:
 			self.userid,self.password=credentials
 		else:
@@ -201,7 +211,7 @@ class BasicCredentials(Credentials):
 	def Match(self,challenge=None,url=None):
 		if challenge is not None:
 			# must match the challenge
-			if not super(BasicCredentials,self).Match(challenge):
+			if not self.MatchChallenge(challenge):
 				return False
 		if url is not None:
 			# must match the url
@@ -224,7 +234,7 @@ class BasicCredentials(Credentials):
 		
 	def TestPath(self,path):
 		"""Returns True if there is a path prefix that matches *path*"""
-		path=uri.SplitPath(path)
+		path=uri.SplitPath(path or '/')
 		uri.NormalizeSegments(path)
 		for p in self.pathPrefixes:
 			if self.IsPrefix(p,path):
@@ -237,7 +247,7 @@ class BasicCredentials(Credentials):
 
 		If pathPrefix is a more general prefix than an existing prefix
 		in the list then it replaces that prefix."""
-		newPrefix=uri.SplitPath(path)
+		newPrefix=uri.SplitPath(path or '/')
 		uri.NormalizeSegments(newPrefix)
 		keep=True
 		i=0
@@ -283,22 +293,30 @@ class AuthorizationParser(ParameterParser):
 		params=[]
 		self.ParseSP()
 		while self.cWord is not None:
+			savePos=self.pos
+			# skip the separator before this parameter, and any null elements
+			sep=not params
+			while self.ParseSeparator(","):
+				sep=True
+				self.ParseSP()
 			paramName=self.ParseToken()
 			if paramName is not None:
 				self.ParseSP()
-				self.RequireSeparator('=')
-				self.ParseSP()
-				if self.IsToken():
-					paramValue=self.ParseToken()
-					forceQ=False
-				else:
-					paramValue=self.RequireProduction(self.ParseQuotedString(),"auth-param value")
-					forceQ=True
-				params.append((paramName,paramValue,forceQ))
-			self.ParseSP()
-			if not self.ParseSeparator(","):
+			if paramName is None or not sep or not self.IsSeparator('='):
+				# not a parameter, this could be the scheme of the next challenge
+				self.SetPos(savePos)
 				break
+			self.RequireSeparator('=')
+			self.ParseSP()
+			if self.IsToken():
+				paramValue=self.ParseToken()
+				forceQ=False
+			else:
+				paramValue=self.RequireProduction(self.ParseQuotedString(),"auth-param value")
+				forceQ=True
+			params.append((paramName,paramValue,forceQ))
+			self.ParseSP()
 		if authScheme.lower()=="basic":
 			return BasicChallenge(*params)
 		else:
-			return Challenge(*params)
+			return Challenge(authScheme,*params)
-- 
2.43.0


From af0a7e098003e9b06a87ce789916ece0723fc8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:43 +0000
Subject: [PATCH 46/48] fix: content packages: missing exception class, zip
 expansion, paths of files and removal of resources

---
 pyslet/pyslet/imscpv1p2.py | 49 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/pyslet/pyslet/imscpv1p2.py b/pyslet/pyslet/imscpv1p2.py
index 19dd93b..3215a5f 100644
--- a/pyslet/pyslet/imscpv1p2.py
+++ b/pyslet/pyslet/imscpv1p2.py
@@ -27,6 +27,7 @@ class CPException(Exception): pass
 class CPFilePathError(Exception): pass
 class CPFileTypeError(Exception): pass
 class CPManifestError(CPException): pass
+class CPPackageBeenThereError(CPException): pass
 class CPProtocolError(CPException): pass
 class CPValidationError(CPException): pass
 class CPZIPBeenThereError(Exception): pass
@@ -128,6 +129,8 @@ class File(CPElement):
 		Otherwise, this function calculates an absolute path to the file and
 		then calls the content package's :py:meth:`ContentPackage.PackagePath`
 		method."""
+		if self.href is None:
+			return None
 		url=self.ResolveURI(self.href)
 		if not isinstance(url,uri.FileURL):
 			return None
@@ -197,13 +200,13 @@ class Resource(CPElement):
 			yield child
 	
 	def DeleteFile(self,f):
-		index=self.File.index(f)
+		index=map(id,self.File).index(id(f))
 		f.DetachFromDocument()
 		f.parent=None
 		del self.File[index]
 		
 	def DeleteDependency(self,d):
-		index=self.Dependency.index(d)
+		index=map(id,self.Dependency).index(id(d))
 		d.DetachFromDocument()
 		d.parent=None
 		del self.Dependency[index]
@@ -508,6 +511,7 @@ class ContentPackage:
 		Returns None if fPath is not inside the package."""
 		relPath=[]
 		assert isinstance(fPath,vfs.VirtualFilePath)
+		fPath=fPath.normpath()
 		while fPath!=self.dPath:
 			fPath,tail=fPath.split()
 			if not fPath or not tail:
@@ -523,11 +527,18 @@ class ContentPackage:
 		try:
 			for zfi in zf.infolist():
 				path=self.dPath
-				for pathSeg in zfi.filename.split('/'):
+				fileName=zfi.filename
+				if type(fileName) is not UnicodeType:
+					try:
+						fileName=unicode(fileName,'utf-8')
+					except UnicodeDecodeError:
+						raise CPZIPFilenameError(zfi.filename)
+				for pathSeg in fileName.split('/'):
 					# The current path will need to be a directory
 					if not path.isdir():
+						if path.exists():
+							raise CPZIPDuplicateFileError(zfi.filename)
 						path.mkdir()
-					pathSeg=unicode(pathSeg,'utf-8')
 					path=path.join(pathSeg).normpath()
 					if self.PackagePath(path) is None:
 						raise CPZIPFilenameError(zfi.filename)
@@ -623,20 +634,20 @@ class ContentPackage:
 		else:
 			fPath=self.dPath.join(unicode(suggestedPath).lower())
 		fPath=PathInPath(fPath,self.dPath)
-		if fPath is None:
+		if not fPath:
 			raise CPFilePathError(suggestedPath)
 		fPath=fPath.normcase()
 		# Now we can try and make it unique
 		pathStr=fPath
 		pathExtra=0
-		while pathStr in self.fileTable:
+		while pathStr in self.fileTable or self.dPath.join(pathStr).exists():
 			if not pathExtra:
 				pathExtra=random.randint(0,0xFFFF)
 			fName,fExt=fPath.splitext()
-			pathStr='%s_%X%s'%(unicode(fName),pathExtra,fExt)
+			uniqueSuffix='_%X'%pathExtra
+			pathStr=self.FilePath(unicode(fName)+uniqueSuffix+unicode(self.FilePath(fExt)))
 			pathExtra=pathExtra+1
-		# we have the path string
-		return self.dPath.__class__(pathStr)
+		return pathStr
 	
 	def File(self,resource,href):
 		"""Returns a new :py:class:`File` object attached to *resource*
@@ -663,12 +674,9 @@ class ContentPackage:
 			if href.IsAbsolute():
 				href=uri.URIFactory.Relative(href,resource.ResolveBase())
 			fullPath=fURL.GetVirtualFilePath()
-			head,tail=fullPath.split()
-			if self.IgnoreFile(unicode(tail)):
-				raise CPFilePathError(fullPath)
 			relPath=PathInPath(fullPath,self.dPath)
-			if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
-				raise CPFilePathError(url.path)
+			if not relPath or self.IgnoreFilePath(relPath) or unicode(relPath).lower()==u'imsmanifest.xml':
+				raise CPFilePathError(fullPath)
 			# normalise the case ready to put in the file table
 			relPath=relPath.normcase()
 			f=resource.ChildElement(resource.FileClass)
@@ -739,15 +747,12 @@ class ContentPackage:
 		if not isinstance(fURL,uri.FileURL):
 			# We cannot delete non-file objects (though in future
 			# we should support HTTP DELETE)
-			return CPProtocolError(str(fURL))
+			raise CPProtocolError(str(fURL))
 		fullPath=fURL.GetVirtualFilePath()
 		if not fullPath.isfile():
 			raise CPFileTypeError(fullPath)
-		head,tail=fullPath.split()
-		if self.IgnoreFile(unicode(tail)):
-			raise CPFilePathError(fullPath)
 		relPath=PathInPath(fullPath,self.dPath)
-		if relPath is None or unicode(relPath).lower==u'imsmanifest.xml':
+		if not relPath or self.IgnoreFilePath(relPath) or unicode(relPath).lower()==u'imsmanifest.xml':
 			raise CPFilePathError(fullPath)
 		# normalise the case ready for comparisons
 		relPath=relPath.normcase()
@@ -755,10 +760,12 @@ class ContentPackage:
 			delList=[]
 			for f in r.File:
 				# Does f point to the same file?
-				if f.PackagePath(self)==relPath:
+				fPath=f.PackagePath(self)
+				if fPath is not None and fPath==relPath:
 					delList.append(f)
 			for f in delList:
 				r.DeleteFile(f)
+		self.fileTable[relPath]=[]
 		# Now there are no more references, safe to remove the file itself
 		fullPath.remove()
 		if relPath in self.fileTable:
@@ -778,7 +785,7 @@ class ContentPackage:
 		if type(self.packageName) is StringType:
 			return unicode(self.packageName,'utf-8')
 		else:
-			return self.packageName
+			return unicode(self.packageName)
 		
 	def Close(self):
 		"""Closes the content package, removing any temporary files.
-- 
2.43.0


From a7021cee2e3807812aefc5fae551ae820f08ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:43 +0000
Subject: [PATCH 47/48] fix: OData values, JSON and Atom representations are
 read back as they were written

---
 pyslet/pyslet/odata2/core.py     | 114 +++++++++++++++++++------------
 pyslet/pyslet/odata2/csdl.py     | 102 ++++++++++++++++-----------
 pyslet/pyslet/odata2/metadata.py |   3 +-
 3 files changed, 133 insertions(+), 86 deletions(-)

diff --git a/pyslet/pyslet/odata2/core.py b/pyslet/pyslet/odata2/core.py
index 76a1cdc..21dd981 100644
--- a/pyslet/pyslet/odata2/core.py
+++ b/pyslet/pyslet/odata2/core.py
@@ -2233,7 +2233,11 @@ class Entity(edm.Entity):
 				if not dv.bindings:
 					continue
 				targetSet=dv.Target()
-				yield ', %s :['%json.dumps(k)
+				yield ', %s :'%json.dumps(k)
+				if dv.isCollection:
+					yield '['
+				elif len(dv.bindings)>1:
+					raise edm.NavigationError("Multiple bindings found for navigation property %s.%s"%(self.entitySet.name,k))
 				sep=False
 				for binding in dv.bindings:
 					if sep:
@@ -2252,7 +2256,8 @@ class Entity(edm.Entity):
 						href=str(targetSet.GetLocation())+ODataURI.FormatKeyDict(targetSet.GetKeyDict(binding))
 					if href:
 						yield '{ "__metadata":{"uri":%s}}'%json.dumps(href)
-				yield ']'				
+				if dv.isCollection:
+					yield ']'
 # 			for navProperty,bindings in self.bindings.items():
 # 				# we need to know the location of the target entity set
 # 				targetSet=self.entitySet.NavigationTarget(navProperty)
@@ -2746,8 +2751,8 @@ class Property(ODataElement):
 		# start with a clean slate, remove attributes too
 		self.Reset(True)
 		if isinstance(value,edm.SimpleValue):
-			if self.parent is None:
-				# If we have no parent then we set the type attribute
+			if not isinstance(self.parent,xml.Element):
+				# If we have no parent element then we set the type attribute
 				self.SetAttribute((ODATA_METADATA_NAMESPACE,'type'),edm.SimpleType.EncodeValue(value.typeCode))				
 			if value:
 				data=unicode(value)
@@ -2939,6 +2944,9 @@ class Link(atom.Link):
 						entity.exists=exists
 						entry.GetValue(entity)
 						entries.append(entity)
+				else:
+					# an empty collection or no entity at all
+					entries=[]
 				deferred.SetExpansion(ExpandedEntityCollection(fromEntity=deferred.fromEntity,name=deferred.name,entitySet=targetEntitySet,entityList=entries))
 
 		
@@ -3020,6 +3028,18 @@ class Entry(atom.Entry):
 			p.SetValue(value)
 			self._properties[key]=p
 	
+	def FindTargetPath(self,targetPath):
+		"""Returns the element at *targetPath* or None if there isn't one."""
+		targetElement=self
+		for eName in targetPath:
+			for eTest in targetElement.GetChildren():
+				if isinstance(eTest,xml.Element) and eTest.GetXMLName()==eName:
+					targetElement=eTest
+					break
+			else:
+				return None
+		return targetElement
+		
 	def ResolveTargetPath(self,targetPath,prefix,ns):
 		doc=self.GetDocument()
 		targetElement=self
@@ -3065,11 +3085,14 @@ class Entry(atom.Entry):
 			# catch property-level feed customisation here
 			propertyDef=entity.typeDef[k]
 			targetPath=propertyDef.GetTargetPath()
-			if targetPath and not propertyDef.KeepInContent():
+			if targetPath and k not in self._properties and not propertyDef.KeepInContent():
 				# This value needs to be read from somewhere special
-				prefix,ns=propertyDef.GetFCNsPrefix()
-				targetElement=self.ResolveTargetPath(targetPath,prefix,ns)
-				if isinstance(targetElement,atom.Date):
+				targetElement=self.FindTargetPath(targetPath)
+				if targetElement is None:
+					# Property is not selected!
+					SetNull(v)
+					unselected.add(k)
+				elif isinstance(targetElement,atom.Date):
 					dtOffset=targetElement.GetValue()
 					if isinstance(v,edm.DateTimeOffsetValue):
 						v.SetFromValue(dtOffset)
@@ -3081,14 +3104,21 @@ class Entry(atom.Entry):
 					else:
 						# give up, treat this value as NULL
 						v.SetFromValue(None)
+					selected.add(k)
 				else:	
 					# now we need to grab the actual value, only interested in data
 					data=[]
 					for child in targetElement.GetChildren():
 						if type(child) in StringTypes:
 							data.append(child)
-					v.SetFromLiteral(string.join(data,''))
-					selected.add(k)
+					data=string.join(data,'')
+					if data or isinstance(v,edm.StringValue):
+						v.SetFromLiteral(data)
+						selected.add(k)
+					else:
+						# an empty placeholder
+						SetNull(v)
+						unselected.add(k)
 			else:
 				# and watch out for unselected properties
 				if k in self._properties:
@@ -3195,8 +3225,6 @@ class Entry(atom.Entry):
 		cat.scheme=ODATA_SCHEME
 		targetPath=entity.typeDef.GetTargetPath()
 		if targetPath:
-			prefix,ns=entity.typeDef.GetFCNsPrefix()
-			targetElement=self.ResolveTargetPath(targetPath,prefix,ns)
 			sourcePath=entity.typeDef.GetSourcePath()
 			if sourcePath:
 				v=entity
@@ -3206,24 +3234,10 @@ class Entry(atom.Entry):
 					else:
 						v=None
 						break
-				if isinstance(targetElement,atom.Date) and v:
-					if isinstance(v,edm.DateTimeOffsetValue):
-						targetElement.SetValue(unicode(v))
-					elif isinstance(v,edm.DateTimeValue):
-						# assume UTC
-						dtOffset=v.value.WithZone(zDirection=0)
-						targetElement.SetValue(unicode(dtOffset))						
-					elif isinstance(v,edm.StringValue):
-						try:
-							dtOffset=iso8601.TimePoint.FromString(v.value)
-							if dtOffset.GetZone()[0] is None:
-								dtOffset=dtOffset.WithZone(zDirection=0)
-							targetElement.SetValue(unicode(dtOffset))
-						except iso8601.DateTimeError:
-							# do nothing
-							pass
-				elif isinstance(v,edm.SimpleValue) and v:
-					targetElement.AddData(unicode(v))
+				if isinstance(v,edm.SimpleValue) and v:
+					prefix,ns=entity.typeDef.GetFCNsPrefix()
+					targetElement=self.ResolveTargetPath(targetPath,prefix,ns)
+					self.SetFCValue(targetElement,v)
 		# now do the links
 		location=str(entity.GetLocation())
 		self.ChildElement(atom.AtomId).SetValue(location)
@@ -3239,6 +3253,8 @@ class Entry(atom.Entry):
 					s="" if entity.ETagIsStrong() else "W/"
 					link.SetAttribute((ODATA_METADATA_NAMESPACE,'etag'),s+http.QuoteString(string.join(map(ODataURI.FormatLiteral,self.etag),',')))
 			for navProperty,navValue in entity.NavigationItems():
+				if not entity.Selected(navProperty):
+					continue
 				link=self.ChildElement(self.LinkClass)
 				link.href=location+'/'+navProperty
 				link.rel=ODATA_RELATED+navProperty
@@ -3305,7 +3321,7 @@ class Entry(atom.Entry):
 						feed=ExpandedEntityCollection(fromEntity=entity,name=k,entitySet=targetSet,entityList=feed)
 						link.Expand(feed)
 					elif len(feed)>1:
-						raise NavigationError("Multiple bindings found for navigation property %s.%s"%(entitySet.name,k))
+						raise edm.NavigationError("Multiple bindings found for navigation property %s.%s"%(entity.entitySet.name,k))
 					else:
 						link.Expand(feed[0])
 		# Now set the new property values in the properties element
@@ -3317,11 +3333,12 @@ class Entry(atom.Entry):
 			# catch property-level feed customisation here
 			propertyDef=entity.typeDef[k]
 			targetPath=propertyDef.GetTargetPath()
-			if targetPath:
+			if targetPath and v and entity.Selected(k):
 				# This value needs to go somewhere special
 				prefix,ns=propertyDef.GetFCNsPrefix()
 				targetElement=self.ResolveTargetPath(targetPath,prefix,ns)
 				self.SetFCValue(targetElement,v)
+				# NULL can only be represented in the content
 				if not propertyDef.KeepInContent():
 					continue
 			# and watch out for unselected properties
@@ -3331,23 +3348,30 @@ class Entry(atom.Entry):
 
 	def SetFCValue(self,targetElement,v):
 		if isinstance(targetElement,atom.Date) and v:
-			if isinstance(v,edm.DateTimeOffsetValue):
-				targetElement.SetValue(unicode(v))
-			elif isinstance(v,edm.DateTimeValue):
-				# assume UTC
-				dtOffset=v.value.WithZone(zDirection=0)
-				targetElement.SetValue(unicode(dtOffset))						
+			date=None
+			if isinstance(v,(edm.DateTimeOffsetValue,edm.DateTimeValue)):
+				date=v.value
 			elif isinstance(v,edm.StringValue):
 				try:
-					dtOffset=iso8601.TimePoint.FromString(v.value)
-					if dtOffset.GetZone()[0] is None:
-						dtOffset=dtOffset.WithZone(zDirection=0)
-					targetElement.SetValue(unicode(dtOffset))
-				except iso8601.DateTimeError:
-					# do nothing
+					date=iso.TimePoint.FromString(v.value)
+				except ValueError:
 					pass
+			if date is not None:
+				if date.GetZone()[0] is None:
+					# assume UTC
+					date=date.WithZone(zDirection=0)
+				dtOffset=edm.DateTimeOffsetValue(v.pDef)
+				dtOffset.value=date
+				targetElement.SetValue(unicode(dtOffset))
+			elif not list(targetElement.GetChildren()):
+				# there is no date, an empty element would not be valid
+				targetElement.parent.DeleteChild(targetElement)
 		elif isinstance(v,edm.SimpleValue) and v:
-			targetElement.AddData(unicode(v))
+			data=unicode(v)
+			targetElement.AddData(data)
+			if xml.CollapseSpace(data)!=data:
+				# the white space is part of the value
+				targetElement.SetSpace('preserve')
 
 
 class URI(ODataElement):
diff --git a/pyslet/pyslet/odata2/csdl.py b/pyslet/pyslet/odata2/csdl.py
index aa1fdb7..c5cced9 100755
--- a/pyslet/pyslet/odata2/csdl.py
+++ b/pyslet/pyslet/odata2/csdl.py
@@ -727,6 +727,14 @@ def FractionDigits(second):
 	return len(digits.rstrip("0"))
 
 	
+def TimePointFromNumber(unixTime):
+	"""Returns a time point from a number, ValueError is raised if the
+	number is too big (or is not a number at all)."""
+	if not unixTime<=253402300799:
+		raise ValueError("Time out of range: %s"%str(unixTime))
+	return iso8601.TimePoint.FromUnixTime(float(unixTime))
+
+
 class EDMValue(object):
 	"""Abstract class to represent a value in the EDMModel.
 	
@@ -908,7 +916,7 @@ class SimpleValue(EDMValue):
 		NULL values cannot be represented in literal form and will raise
 		ValueError."""
 		if self.value is None:
-			raise ValueError("%s is NULL"%self.name)
+			raise ValueError("NULL value has no literal form")
 		return unicode(self.value)
 
 	def SetFromLiteral(self,value):
@@ -933,10 +941,10 @@ class SimpleValue(EDMValue):
 	@classmethod
 	def Copy(cls,value):
 		"""Constructs a new SimpleValue instance by copying *value*"""
-		if self.pDef:
-			result=value.__class__(self.pDef)
+		if value.pDef:
+			result=value.__class__(value.pDef)
 		else:
-			result=EdmValue.NewSimpleValue(self.typeCode)
+			result=EDMValue.NewSimpleValue(value.typeCode)
 		result.value=value.value
 		return result
 
@@ -954,7 +962,7 @@ class BinaryValue(SimpleValue):
 
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name) 
+			raise ValueError("NULL value has no literal form") 
 		input=StringIO.StringIO(self.value)
 		output=StringIO.StringIO()
 		while True:
@@ -990,7 +998,7 @@ class BooleanValue(SimpleValue):
 	the value."""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		return u"true" if self.value else u"false"
 
 	def SetFromLiteral(self,value):		
@@ -1063,7 +1071,7 @@ class ByteValue(NumericValue):
 	Byte values can be set from an int, long, float or Decimal"""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		return xsi.EncodeInteger(self.value)
 
 	def SetFromNumericLiteral(self,numericValue):
@@ -1115,7 +1123,7 @@ class DateTimeValue(SimpleValue):
 		1969-07-20T20:17:40.000"""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		precision=None
 		if self.pDef:
 			# check the precision before formatting
@@ -1134,11 +1142,14 @@ class DateTimeValue(SimpleValue):
 		elif isinstance(newValue,iso8601.TimePoint):
 			self.value=newValue.WithZone(zDirection=None)
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
-			self.value=iso8601.TimePoint.FromUnixTime(float(newValue))
+			self.value=TimePointFromNumber(newValue)
 		elif isinstance(newValue,datetime.datetime):
+			second=newValue.second
+			if newValue.microsecond:
+				second+=newValue.microsecond/1e6
 			self.value=iso8601.TimePoint(date=iso8601.Date(century=newValue.year//100,year=newValue.year%100,
 				month=newValue.month,day=newValue.day),
-				time=iso8601.Time(hour=newValue.hour,minute=newValue.minute,second=newValue.second,zDirection=None))
+				time=iso8601.Time(hour=newValue.hour,minute=newValue.minute,second=second,zDirection=None))
 		else:
 			raise TypeError("Can't set DateTime from %s"%repr(newValue))
 
@@ -1174,7 +1185,7 @@ class DateTimeOffsetValue(SimpleValue):
 		1969-07-20T20:17:40.000+00:00"""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		precision=None
 		if self.pDef:
 			# check the precision before formatting
@@ -1205,7 +1216,7 @@ class DateTimeOffsetValue(SimpleValue):
 				raise ValueError("DateTimeOffset requires a complete representation: %s"%str(newValue))
 			self.value=newValue	
 		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
-			self.value=iso8601.TimePoint.FromUnixTime(float(newValue))
+			self.value=TimePointFromNumber(newValue).WithZone(zDirection=0)
 		else:
 			raise TypeError("Can't set DateTimeOffset from %s"%str(newValue))
 
@@ -1233,7 +1244,7 @@ class TimeValue(SimpleValue):
 		20:17:40.000"""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		precision=None
 		if self.pDef:
 			# check the precision before formatting
@@ -1251,17 +1262,14 @@ class TimeValue(SimpleValue):
 			self.value=None
 		elif isinstance(newValue,iso8601.Time):
 			self.value=newValue			
-		elif (isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType)) and newValue>=0:
-			if newValue<0:
-				raise("Can't set Time from %.3f"%float(newValue))
-			tValue=iso8601.Time()
-			if type(newValue) in (IntType,LongType):
-				tValue,days=tValue.Offset(newValue)
-			else:
-				tValue,days=tValue.Offset(float(newValue))
-			if days>0:
-				raise("Can't set Time from %.3f (overflow)"%float(newValue))
-			self.value=tValue
+		elif isinstance(newValue,decimal.Decimal) or type(newValue) in (IntType, LongType, FloatType):
+			if not (newValue>=0 and newValue<86400):
+				raise ValueError("Can't set Time from %s"%str(newValue))
+			seconds=int(newValue)
+			second=seconds%60
+			if newValue!=seconds:
+				second+=float(newValue-seconds)
+			self.value=iso8601.Time(hour=seconds//3600,minute=seconds//60%60,second=second)
 		else:
 			raise TypeError("Can't set Time from %s"%repr(newValue))
 
@@ -1273,23 +1281,21 @@ class DecimalValue(NumericValue):
 	more than 29 digits to the left and right of the decimal point.
 
 	Decimal values can be set from int, long, float or Decimal values."""
-	Max=decimal.Decimal(10)**29-1		# max decimal in the default context
+	Max=decimal.Decimal("9"*29)			# the default context is too small to calculate this
 	Min=decimal.Decimal(10)**-29		# min decimal for string representation
 	
 	@classmethod
 	def abs(cls,d):
-		if d<0:
-			return -d
-		else:
-			return d
+		# exact, unlike the arithmetic operators
+		return d.copy_abs()
 			
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		t=self.value.as_tuple()
 		if t.exponent<-29:
 			# CSDL expects a 29-digit limit to the right of the point
-			d=self.value.quantize(decimal.Decimal(10)**-29)
+			d=self.value.quantize(self.Min,context=decimal.Context(prec=60))
 		elif t.exponent+len(t.digits)>29:
 			# CSDL expects a 29-digit limit to the left of the point
 			raise ValueError("Value exceeds limits for Decimal: %s"%str(self.value))
@@ -1320,7 +1326,7 @@ class DecimalValue(NumericValue):
 			d=decimal.Decimal(newValue)
 		else:
 			raise TypeError("Can't set Decimal from %s"%str(newValue))	
-		if self.abs(d)>self.Max:
+		if not d.is_finite() or self.abs(d)>=decimal.Decimal("1E+29"):
 			# too big for CSDL decimal forms
 			raise ValueError("Value exceeds limits for Decimal: %s"%str(d))
 		# in the interests of maintaining accuracy we don't limit the
@@ -1346,7 +1352,7 @@ class FloatValue(NumericValue):
 	using the exponent form defined by the CSDL when necessary."""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		# positive exponents have no sign in the literal form
 		return unicode(repr(self.value).replace("e+","e"))
 		
@@ -1367,6 +1373,14 @@ class FloatValue(NumericValue):
 		else:
 			raise TypeError("Can't set floating-point value from %s"%str(newValue))	
 
+	def SetFromFiniteLiteral(self,dStr):
+		"""Sets the value from the literal form of a number, overflow is
+		not treated as infinity."""
+		value=float(dStr)
+		if math.isinf(value):
+			raise ValueError("Value out of range: %s"%dStr)
+		self.SetFromValue(value)
+
 			
 class DoubleValue(FloatValue):
 	"""Represents a simple value of type Edm.Double"""
@@ -1391,7 +1405,8 @@ class DoubleValue(FloatValue):
 				self.value=float("-INF")
 			else:
 				self.value=float("INF")
-		elif (numericValue.rDigits is None or		# integer form or 
+			return
+		if (numericValue.rDigits is None or		# integer form or 
 			numericValue.eDigits is not None):		# exponent form; limit digits
 			nDigits=len(numericValue.lDigits)
 			if numericValue.rDigits:
@@ -1403,7 +1418,7 @@ class DoubleValue(FloatValue):
 					(len(numericValue.eDigits)>3 or			# long exponent not allowed
 					not numericValue.lDigits))):			# exponent requires digits to left of point			
 				raise ValueError("Illegal exponent form for double: %s"%dStr)				
-		self.SetFromValue(float(dStr))
+		self.SetFromFiniteLiteral(dStr)
 
 
 for i in xrange(1023,0,-1):
@@ -1451,7 +1466,8 @@ class SingleValue(FloatValue):
 				self.value=float("-INF")
 			else:
 				self.value=float("INF")
-		elif numericValue.rDigits is None:
+			return
+		if numericValue.rDigits is None:
 			# integer form
 			if len(numericValue.lDigits)>8:
 				raise ValueError("Too many digits for single: %s"%dStr)
@@ -1467,7 +1483,13 @@ class SingleValue(FloatValue):
 					(len(numericValue.eDigits)>2 or			# long exponent not allowed
 					not numericValue.lDigits))):			# exponent requires digits to left of point			
 				raise ValueError("Illegal exponent form for single: %s"%dStr)				
-		self.SetFromValue(float(dStr))
+		value=float(dStr)
+		if abs(value)>self.Max and abs(value)<self.Max+2.0**103:
+			# a 9-digit form of the largest value may be rounded up
+			value=math.copysign(self.Max,value)
+			self.SetFromValue(value)
+		else:
+			self.SetFromFiniteLiteral(dStr)
 
 
 for i in xrange(127,0,-1):
@@ -1493,7 +1515,7 @@ class GuidValue(SimpleValue):
 	unicode strings and must be of length 32 characters."""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		return unicode(self.value)
 
 	def SetFromLiteral(self,value):
@@ -1595,7 +1617,7 @@ class StringValue(SimpleValue):
 	native unicode function."""
 	def __unicode__(self):
 		if self.value is None:
-			raise ValueError("%s is Null"%self.name)
+			raise ValueError("NULL value has no literal form")
 		return unicode(self.value)
 
 	def SetFromValue(self,newValue):
@@ -1607,7 +1629,7 @@ class StringValue(SimpleValue):
 			self.value=unicode(newValue)
 
 	def SetFromLiteral(self,value):
-		self.value=value
+		self.value=unicode(value)
 
 		
 class SByteValue(NumericValue):
diff --git a/pyslet/pyslet/odata2/metadata.py b/pyslet/pyslet/odata2/metadata.py
index 9854f08..c472f14 100755
--- a/pyslet/pyslet/odata2/metadata.py
+++ b/pyslet/pyslet/odata2/metadata.py
@@ -20,11 +20,12 @@ class FeedCustomisationMixin:
 		'SyndicationAuthorUri':[(atom.ATOM_NAMESPACE,"author"),(atom.ATOM_NAMESPACE,"uri")],
 		'SyndicationPublished':[(atom.ATOM_NAMESPACE,"published")],
 		'SyndicationRights':[(atom.ATOM_NAMESPACE,"rights")],
+		'SyndicationSummary':[(atom.ATOM_NAMESPACE,"summary")],
 		'SyndicationTitle':[(atom.ATOM_NAMESPACE,"title")],
 		'SyndicationUpdated':[(atom.ATOM_NAMESPACE,"updated")],
 		'SyndicationContributorName':[(atom.ATOM_NAMESPACE,"contributor"),(atom.ATOM_NAMESPACE,"name")],
 		'SyndicationContributorEmail':[(atom.ATOM_NAMESPACE,"contributor"),(atom.ATOM_NAMESPACE,"email")],
-		'SyndicationContributorUri':[(atom.ATOM_NAMESPACE,"source")]
+		'SyndicationContributorUri':[(atom.ATOM_NAMESPACE,"contributor"),(atom.ATOM_NAMESPACE,"uri")]
 		}
 	
 	def GetTargetPath(self):
-- 
2.43.0


From c871a9963d004034e7a3f6df89dcce09840d3835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:01 +0000
Subject: [PATCH 48/48] fix: OData client and in-memory service: select with
 filter and orderby, $count with $filter, filtered key lookup, links, media
 link entries

---
 pyslet/pyslet/odata2/client.py | 51 ++++++++++++++++++++++++----------
 pyslet/pyslet/odata2/memds.py  | 27 +++++++++++-------
 pyslet/pyslet/odata2/server.py |  5 +++-
 3 files changed, 57 insertions(+), 26 deletions(-)

diff --git a/pyslet/pyslet/odata2/client.py b/pyslet/pyslet/odata2/client.py
index 520df7b..6c78632 100755
--- a/pyslet/pyslet/odata2/client.py
+++ b/pyslet/pyslet/odata2/client.py
@@ -1,7 +1,7 @@
 #! /usr/bin/env python
 """This module implements the Open Data Protocol specification defined by Microsoft."""
 
-import sys, urllib, logging
+import sys, string, urllib, logging
 import pyslet.info as info
 import pyslet.rfc2396 as uri
 import pyslet.rfc2616 as http
@@ -220,7 +220,7 @@ class ClientCollection(core.EntityCollection):
 			if isinstance(doc.root,atom.Feed):
 				if len(doc.root.Entry):
 					for e in doc.root.Entry:
-						entity=core.Entity(self.entitySet)
+						entity=self.NewEntity()
 						entity.exists=True
 						e.GetValue(entity)
 						yield entity
@@ -276,7 +276,7 @@ class ClientCollection(core.EntityCollection):
 		if isinstance(doc.root,atom.Feed):
 			if len(doc.root.Entry):
 				for e in doc.root.Entry:
-					entity=core.Entity(self.entitySet)
+					entity=self.NewEntity()
 					entity.exists=True
 					e.GetValue(entity)
 					yield entity
@@ -301,10 +301,15 @@ class ClientCollection(core.EntityCollection):
 			raise core.InvalidFeedDocument(str(feedURL))
 
 	def __getitem__(self,key):
-		entityURL=str(self.baseURI)+core.ODataURI.FormatKeyDict(self.entitySet.GetKeyDict(key))
+		keyDict=self.entitySet.GetKeyDict(key)
 		sysQueryOptions={}
-		if self.filter is not None:
-			sysQueryOptions[core.SystemQueryOption.filter]=unicode(self.filter)
+		if self.filter is None:
+			entityURL=str(self.baseURI)+core.ODataURI.FormatKeyDict(keyDict)
+		else:
+			# $filter only works on collections so look for the key there
+			entityURL=str(self.baseURI)
+			keyFilter=string.join(map(lambda x:u"%s eq %s"%(x[0] or self.entitySet.keys[0],core.ODataURI.FormatLiteral(x[1])),keyDict.items()),u" and ")
+			sysQueryOptions[core.SystemQueryOption.filter]=u"(%s) and %s"%(unicode(self.filter),keyFilter)
 		if self.expand is not None:
 			sysQueryOptions[core.SystemQueryOption.expand]=core.FormatExpand(self.expand)
 		if self.select is not None:
@@ -312,7 +317,10 @@ class ClientCollection(core.EntityCollection):
 		if sysQueryOptions:
 			entityURL=uri.URIFactory.URI(entityURL+"?"+core.ODataURI.FormatSysQueryOptions(sysQueryOptions))
 		request=http.HTTPRequest(str(entityURL))
-		request.SetHeader('Accept','application/atom+xml;type=entry')
+		if self.filter is None:
+			request.SetHeader('Accept','application/atom+xml;type=entry')
+		else:
+			request.SetHeader('Accept','application/atom+xml')
 		self.client.ProcessRequest(request)
 		if request.status==404:
 			raise KeyError(key)
@@ -320,8 +328,15 @@ class ClientCollection(core.EntityCollection):
 			raise UnexpectedHTTPResponse("%i %s"%(request.status,request.response.reason))	
 		doc=core.Document(baseURI=entityURL)
 		doc.Read(request.resBody)
-		if isinstance(doc.root,atom.Entry):
-			entity=core.Entity(self.entitySet)
+		if isinstance(doc.root,atom.Feed):
+			for e in doc.root.Entry:
+				entity=self.NewEntity()
+				entity.exists=True
+				e.GetValue(entity)
+				return entity
+			raise KeyError(key)
+		elif isinstance(doc.root,atom.Entry):
+			entity=self.NewEntity()
 			entity.exists=True
 			doc.root.GetValue(entity)
 			return entity
@@ -452,7 +467,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			doc=core.Document(baseURI=entityURL)
 			doc.Read(request.resBody)
 			if isinstance(doc.root,atom.Entry):
-				entity=core.Entity(self.entitySet)
+				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
 				return 1
@@ -485,7 +500,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			doc=core.Document(baseURI=entityURL)
 			doc.Read(request.resBody)
 			if isinstance(doc.root,atom.Entry):
-				entity=core.Entity(self.entitySet)
+				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
 				yield entity
@@ -517,7 +532,7 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			doc=core.Document(baseURI=entityURL)
 			doc.Read(request.resBody)
 			if isinstance(doc.root,atom.Entry):
-				entity=core.Entity(self.entitySet)
+				entity=self.NewEntity()
 				entity.exists=True
 				doc.root.GetValue(entity)
 				if entity.Key()==key:
@@ -581,8 +596,12 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 		if not entity.exists:
 			raise edm.NonExistentEntity(str(entity.GetLocation()))
 		if self.isCollection:
-			# inherit the implementation
-			super(NavigationCollection,self).Replace(entity)
+			# create the new link first, if it is refused nothing is lost
+			key=entity.Key()
+			self[key]=entity
+			for k in self.keys():
+				if k!=key:
+					del self[k]
 		else:
 			if not isinstance(entity,edm.Entity) or entity.entitySet is not self.entitySet:
 				raise TypeError
@@ -603,7 +622,9 @@ class NavigationCollection(ClientCollection,core.NavigationCollection):
 			entity.SetKey(key)
 			request=http.HTTPRequest(str(self.linksURI)+core.ODataURI.FormatEntityKey(entity),'DELETE')
 		else:
-			# danger, how do we know that key really is the right one?
+			# the link has no key in its URL so check that key really is the right one
+			if key not in self:
+				raise KeyError(key)
 			request=http.HTTPRequest(str(self.linksURI),'DELETE')
 		self.client.ProcessRequest(request)
 		if request.status==204:
diff --git a/pyslet/pyslet/odata2/memds.py b/pyslet/pyslet/odata2/memds.py
index b4cc3dc..58f667c 100644
--- a/pyslet/pyslet/odata2/memds.py
+++ b/pyslet/pyslet/odata2/memds.py
@@ -457,13 +457,22 @@ class EntityCollection(odata.EntityCollection):
 			return result
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		# the filter and orderby rules may use properties that are not selected
+		if self.filter is None and not self.orderby:
+			select=self.select
+		else:
+			select=None
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
-			self.entityStore.GenerateEntities(self.select))))
+			self.entityStore.GenerateEntities(select))))
 		
 	def __getitem__(self,key):
-		e=self.entityStore.ReadEntity(key,self.select)
+		if self.filter is None:
+			select=self.select
+		else:
+			select=None
+		e=self.entityStore.ReadEntity(key,select)
 		if e is not None and self.CheckFilter(e):
 			e.Expand(self.expand,self.select)
 			return e
@@ -590,8 +599,8 @@ class NavigationCollection(odata.NavigationCollection):
 			yield e
 		
 	def itervalues(self):
-		return self.OrderEntities(
-			self.ExpandEntities(
+		return self.ExpandEntities(
+			self.OrderEntities(
 			self.FilterEntities(
 			self.entityGenerator())))
 
@@ -599,10 +608,8 @@ class NavigationCollection(odata.NavigationCollection):
 		resultSet=self.lookupMethod(self.key)
 		if key in resultSet:
 			result=self.collection[key]
-			if self.filter is None:
-				if self.CheckFilter(result):
-					return result
-			else:
+			if self.CheckFilter(result):
+				result.Expand(self.expand,self.select)
 				return result
 		raise KeyError(key)
 		
diff --git a/pyslet/pyslet/odata2/server.py b/pyslet/pyslet/odata2/server.py
index d0ff922..ee2c8ba 100755
--- a/pyslet/pyslet/odata2/server.py
+++ b/pyslet/pyslet/odata2/server.py
@@ -436,6 +436,7 @@ class Server(app.Server):
 				if isinstance(resource,edm.Entity):
 					return self.ReturnCount(1,request,environ,start_response,responseHeaders)
 				elif isinstance(resource,edm.EntityCollection):
+					resource.Filter(request.sysQueryOptions.get(SystemQueryOption.filter,None))
 					return self.ReturnCount(len(resource),request,environ,start_response,responseHeaders)
 				else:
 					raise BadURISegment("$count must be applied to an EntitySet or single EntityType instance")
@@ -494,7 +495,7 @@ class Server(app.Server):
 				else:
 					raise InvalidMethod("%s not supported here"%method)
 			elif isinstance(resource,edm.Entity):
-				if method=="GET":
+				if method=="GET" or (method=="HEAD" and request.pathOption==PathOption.value):
 					if request.pathOption==PathOption.value:
 						if resource.typeDef.HasStream():
 							return self.ReturnStream(resource,request,environ,start_response,responseHeaders)								
@@ -857,6 +858,8 @@ class Server(app.Server):
 		responseHeaders.append(("Content-Length",str(entity.GetStreamSize())))
 		self.SetETag(entity,responseHeaders)
 		start_response("%i %s"%(200,"Success"),responseHeaders)
+		if environ["REQUEST_METHOD"].upper()=="HEAD":
+			return []
 		return entity.GetStreamGenerator()
 
 	def ReadValue(self,value,environ):
-- 
2.43.0

