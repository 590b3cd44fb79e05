From 62d9bf044d5c56a3fd9526b5fd05cff94c3fdb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:20 +0000
Subject: [PATCH 001/138] fix: message types above 0x7f index the type table
 with a negative offset

pq_message_stream reads the type byte as a plain (signed) char, so a type byte
of 0x80 or more looks up message_types out of bounds and crashes the
interpreter. The Python implementation returns the message.
---
 postgresql/port/_optimized/buffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index cb81b2f..032834f 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -296,7 +296,7 @@ p_build_tuple(struct p_place *p)
 		p_seek(p, copy_amount);
 	}
 
-	mt = PyTuple_GET_ITEM(message_types, (int) header[0]);
+	mt = PyTuple_GET_ITEM(message_types, (int) (unsigned char) header[0]);
 	if (mt == NULL)
 	{
 		/*
-- 
2.43.0


From aeec4ad51d732971adea1d2d0ce347cc2b38b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 002/138] fix: an error in a function call was taken for a
 protocol violation

---
 postgresql/protocol/xact3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6f5497f..6c4b1d6 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -321,7 +321,11 @@ class Instruction(Transaction):
 		),
 
 		element.Function.type : (
-			{element.FunctionResult.type : (element.FunctionResult.parse, 1)},
+			{
+				element.FunctionResult.type : (element.FunctionResult.parse, 1),
+				# The call failed; Ready follows the error.
+				element.Ready.type : (element.Ready.parse, None),
+			},
 			{element.Ready.type : (element.Ready.parse, None)},
 		),
 
-- 
2.43.0


From ca09fe02d71a2366a276bfd45c5ff2d854abbd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:02 +0000
Subject: [PATCH 003/138] fix: a protocol transaction could not start with a
 Flush message

---
 postgresql/protocol/xact3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 6c4b1d6..24e14c0 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -483,6 +483,11 @@ class Instruction(Transaction):
 			self._asyncs = []
 		cmd = COMMANDS[offset]
 		paths = HOOK[cmd.type]
+		while paths is None:
+			# Nothing is received for a Flush.
+			offset += 1
+			cmd = COMMANDS[offset]
+			paths = HOOK[cmd.type]
 		processed = []
 		count = 0
 
-- 
2.43.0


From 80dd3d6985a373f69e8017bef66460054012a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 004/138] fix: describing a portal without rows was taken for a
 protocol violation

---
 postgresql/protocol/xact3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 24e14c0..276d34a 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -342,6 +342,7 @@ class Instruction(Transaction):
 			# Still needs the descriptor.
 			{
 				element.AttributeTypes.type : (element.AttributeTypes.parse, 1),
+				element.NoData.type : (element.NoData.parse, None),
 				element.TupleDescriptor.type : (
 					element.TupleDescriptor.parse, None
 				),
-- 
2.43.0


From bbe25db97f10158cff5ad42083edece32dc42f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 005/138] fix: a COPY whose data could not be produced failed
 the next statement

---
 postgresql/driver/pq3.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6a778bd..43db9b5 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1766,14 +1766,21 @@ class Statement(pg_api.Statement):
 			))
 			self.database.typio.raise_client_error(x.error_message, creator = self)
 
-		for chunk in chunks:
-			x.messages = list(chunk)
-			while x.messages is not x.CopyFailSequence:
-				# Continue stepping until the transaction
-				# sets the CopyFailSequence again. That's
-				# the signal that the transaction has sent
-				# all the previously set messages.
-				step()
+		try:
+			for chunk in chunks:
+				x.messages = list(chunk)
+				while x.messages is not x.CopyFailSequence:
+					# Continue stepping until the transaction
+					# sets the CopyFailSequence again. That's
+					# the signal that the transaction has sent
+					# all the previously set messages.
+					step()
+		except:
+			##
+			# Fail the COPY, if it's still running; otherwise,
+			# the next statement would be given its error.
+			self.database.pq.synchronize()
+			raise
 		x.messages = x.CopyDoneSequence
 		self.database._pq_complete()
 		self.database.pq.synchronize()
-- 
2.43.0


From eebdedc941889cf9063633c90581e988a9b45846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 006/138] fix: stepping a transaction kept processing it after
 its connection was lost

---
 postgresql/protocol/client3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f7e2175..987bfad 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -414,15 +414,15 @@ class Connection(object):
 		try:
 			dir, op = x.state
 			if dir is xact.Sending:
-				self.write_messages(x.messages)
-				# The "op" callable will either switch the state, or
-				# set the 'messages' attribute with a new sequence
-				# of message objects for more writing.
-				op()
+				if self.write_messages(x.messages):
+					# The "op" callable will either switch the state, or
+					# set the 'messages' attribute with a new sequence
+					# of message objects for more writing.
+					op()
 			elif dir is xact.Receiving:
-				self.read_messages()
-				self.read = self.read[op(self.read):]
-				self.state = getattr(x, 'last_ready', self.state)
+				if self.read_messages():
+					self.read = self.read[op(self.read):]
+					self.state = getattr(x, 'last_ready', self.state)
 			else:
 				raise RuntimeError(
 					"unexpected PQ transaction state: " + repr(dir)
-- 
2.43.0


From bb97a69b23fd78bee4db4beae648896e02d08d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 007/138] fix: a request was ignored when the connection was
 lost while closing garbage

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 43db9b5..eeba234 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2616,6 +2616,10 @@ class Connection(pg_api.Connection):
 		if controller is not None:
 			self._controller = controller
 		self.pq.push(xact)
+		x = self.pq.xact
+		if x is not None and x is not xact and x.fatal is not None:
+			# The connection was lost before it could be started.
+			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None))
 
 	# Complete the current protocol transaction.
 	def _pq_complete(self):
-- 
2.43.0


From e1382f7d763e5738deb29cf56f5abf5e1d36a7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:02 +0000
Subject: [PATCH 008/138] fix: a connection lost when starting a COPY was
 reported as a misused statement, and stayed so

---
 postgresql/driver/pq3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index eeba234..3359092 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1756,8 +1756,11 @@ class Statement(pg_api.Statement):
 				# The protocol transaction has noticed that its a COPY.
 				break
 		else:
+			if x.fatal is not None:
+				# It's not known whether it is a COPY.
+				self.database.typio.raise_error(x.error_message, creator = self)
 			# Oh, it's not a COPY at all.
-			x.fatal = x.fatal or False
+			x.fatal = False
 			x.error_message = element.ClientError((
 				(b'S', 'ERROR'),
 				# OperationError
-- 
2.43.0


From 00c49c6ccf5f9acb0aa1d6201dcc9fec26fd030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 009/138] fix: the error of a query was given to the next
 request as well when Ready was delayed

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 3359092..6dd61d2 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -939,6 +939,10 @@ class FetchAll(Chunks):
 		# fatal is True == dead connection
 		# fatal is False == dead transaction
 		if x.fatal is not None:
+			if self.database.pq.xact is x:
+				# Finish it; otherwise, the next request
+				# would be given the error as well.
+				self.database.pq.complete()
 			self.database.typio.raise_error(x.error_message, creator = getattr(self, '_controller', self) or self)
 
 		# no messages to process?
-- 
2.43.0


From df10800318466bb0b2afd129c06b780f8e0f814d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 010/138] fix: only one of several identical asynchronous
 messages read together was delivered

---
 postgresql/protocol/xact3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 276d34a..56fda88 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -533,7 +533,8 @@ class Instruction(Transaction):
 					current_step = 0
 					continue
 				elif x[0] in AsynchronousMap:
-					if x not in self._asyncs:
+					# Identical messages are still different ones.
+					if not any(x is y for y in self._asyncs):
 						msg = AsynchronousMap[x[0]](x[1])
 						try:
 							self.asynchook(msg)
-- 
2.43.0


From d8dd27b93e0a23e2a78609b4dcd80e5cbfdf1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 011/138] fix: asynchronous messages received while closing
 garbage or synchronizing were dropped

---
 postgresql/driver/pq3.py       | 1 +
 postgresql/protocol/client3.py | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6dd61d2..e7a11be 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2527,6 +2527,7 @@ class Connection(pg_api.Connection):
 			# The startup/negotiation xact completed.
 			if pq.xact is None:
 				self.pq = pq
+				pq.asynchook = self._receive_async
 				if hasattr(self.pq.socket, 'fileno'):
 					self.fileno = self.pq.socket.fileno
 				self.security = 'ssl' if didssl is True else None
diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index 987bfad..f0203c2 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -73,6 +73,10 @@ class Connection(object):
 	connection must check for failures. This is done to encourage users
 	to use their own Exception hierarchy.
 	"""
+	# Given the asynchronous messages received by
+	# the transactions that the connection itself creates.
+	asynchook = staticmethod(xact.return_arg)
+
 	_tracer = None
 	def tracer():
 		def fget(self):
@@ -99,7 +103,7 @@ class Connection(object):
 		"""
 		if self.xact is not None:
 			self.complete()
-		x = xact.Instruction((element.SynchronizeMessage,))
+		x = xact.Instruction((element.SynchronizeMessage,), asynchook = self.asynchook)
 		self.xact = x
 		self.complete()
 
@@ -376,7 +380,7 @@ class Connection(object):
 			xm.append(element.CloseStatement(x))
 			statements += 1
 		xm.append(element.SynchronizeMessage)
-		x = xact.Instruction(xm)
+		x = xact.Instruction(xm, asynchook = self.asynchook)
 		self.xact = x
 		del self.garbage_cursors[:cursors]
 		del self.garbage_statements[:statements]
-- 
2.43.0


From 3fb77cc0dfbf15c54bef45d1557abd2de91044da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 012/138] fix: only errors producing the data of a COPY fail
 it, an interruption leaves it open

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index e7a11be..955e2f6 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1782,7 +1782,7 @@ class Statement(pg_api.Statement):
 					# the signal that the transaction has sent
 					# all the previously set messages.
 					step()
-		except:
+		except Exception:
 			##
 			# Fail the COPY, if it's still running; otherwise,
 			# the next statement would be given its error.
-- 
2.43.0


From 6b4a9f19d4fdac66b73a578319c58ca18554e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 013/138] fix: a transaction block whose commit failed with an
 error of its own was left in the failed transaction

---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 955e2f6..77adf2e 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2153,8 +2153,8 @@ class Transaction(pg_api.Transaction):
 					self.commit()
 					# If an error occurs, clean up the transaction state
 					# and raise as needed.
-				except pg_exc.ActiveTransactionError as err:
-					if not self.database.closed:
+				except pg_exc.Error as err:
+					if not self.database.closed and self.database.pq.state != b'I':
 						# adjust the state so rollback will do the right thing and abort.
 						self.state = 'open'
 						self.rollback()
-- 
2.43.0


From 4d4154d1e8af719c921d36838d19f928b674ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 014/138] fix: rolling back a block failed with the error of a
 request still running, leaving the block open

---
 postgresql/driver/pq3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 77adf2e..70536a1 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2254,6 +2254,11 @@ class Transaction(pg_api.Transaction):
 			))
 			self.database.typio.raise_client_error(em, creator = self)
 
+		if self.database.pq.xact is not None:
+			# Finish what is still running; whether it failed
+			# does not matter, and must not prevent the abort.
+			self.database.pq.complete()
+
 		if self.type == 'block':
 			q = 'ABORT;'
 		elif self.type == 'savepoint':
-- 
2.43.0


From c7fceaf6dc45d39e2853f0e42b1e43486cd43bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 015/138] fix: a streamed result whose fetch failed while
 another request completed it ended as if it was complete

---
 postgresql/driver/pq3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 70536a1..287200a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1017,6 +1017,9 @@ class MultiXactStream(Chunks):
 
 		if self.database.pq.xact is x:
 			self.database._pq_complete()
+		if x.fatal is not None:
+			# It failed when another request completed it.
+			self.database.typio.raise_error(x.error_message, creator = self)
 
 		# get all the element.Tuple messages
 		chunk = [
-- 
2.43.0


From caa5bc02a473c8fcff36ddf05344f0d1f56ba59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 016/138] fix: reading an identified statement by chunks
 outside of a block failed with an AttributeError

---
 postgresql/driver/pq3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 287200a..4394d14 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -977,6 +977,7 @@ class SingleXactCopy(FetchAll):
 
 class SingleXactFetch(FetchAll):
 	_expect = element.Tuple.type
+	_process_chunk = FetchAll._process_tuple_chunk
 
 class MultiXactStream(Chunks):
 	chunksize = 1024 * 4
-- 
2.43.0


From fe69e08f304676fe8a48eac31d14adfa29e930e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 017/138] fix: seeking a cursor whose direction is backward
 moved it to the wrong position

---
 postgresql/driver/pq3.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 4394d14..8d47d8f 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1176,22 +1176,22 @@ class Cursor(Output, pg_api.Cursor):
 
 		if offset == 'ALL':
 			if rwhence not in ('BACKWARD', 'FORWARD'):
-				rwhence = 'BACKWARD' if self.direction is False else 'FORWARD'
-		else:
-			if offset < 0 and rwhence == 'BACKWARD':
-				offset = -offset
 				rwhence = 'FORWARD'
+		elif offset < 0 and rwhence in ('BACKWARD', 'FORWARD'):
+			offset = -offset
+			rwhence = 'FORWARD' if rwhence == 'BACKWARD' else 'BACKWARD'
 
-			if self.direction is False:
-				if offset == 'ALL' and rwhence != 'FORWARD':
-					rwhence = 'BACKWARD'
-				else:
-					if rwhence == 'RELATIVE':
-						offset = -offset
-					elif rwhence == 'ABSOLUTE':
-						rwhence = 'FROM_END'
-					else:
-						rwhence = 'ABSOLUTE'
+		if self.direction is False:
+			# Simulate the reversely ordered cursor.
+			if rwhence == 'RELATIVE':
+				offset = -offset
+			else:
+				rwhence = {
+					'ABSOLUTE' : 'FROM_END',
+					'FROM_END' : 'ABSOLUTE',
+					'FORWARD' : 'BACKWARD',
+					'BACKWARD' : 'FORWARD',
+				}[rwhence]
 
 		if rwhence in ('RELATIVE', 'BACKWARD', 'FORWARD'):
 			if offset == 'ALL':
-- 
2.43.0


From fcdb2a03429f2f1c57257951bbf9270e2149cf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 018/138] fix: reading a column that contains NULLs failed with
 a NameError

---
 postgresql/driver/pq3.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 8d47d8f..82d69b0 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -748,22 +748,19 @@ class Output(object):
 		return x
 
 	# Process the element.Tuple message in x for column()
-	def _process_tuple_chunk_Column(self, x, range = range):
+	def _process_tuple_chunk_Column(self, x):
 		unpack = self._output_io[0]
-		# get the raw data for the first column
-		l = [y[0] for y in x]
-		# iterate over the range to keep track
-		# of which item we're processing.
-		r = range(len(l))
-		try:
-			return [unpack(l[i]) for i in r]
-		except Exception:
-			cause = sys.exc_info()[1]
-		try:
-			i = next(r)
-		except StopIteration:
-			i = len(l)
-		self._raise_column_tuple_error(cause, self._output_io, (l[i],), 0)
+		l = []
+		for y in x:
+			# get the raw data for the first column
+			v = y[0]
+			if v is not None:
+				try:
+					v = unpack(v)
+				except Exception as cause:
+					self._raise_column_tuple_error(cause, self._output_io, y, 0)
+			l.append(v)
+		return l
 
 	# Process the element.Tuple message in x for rows()
 	def _process_tuple_chunk_Row(self, x,
-- 
2.43.0


From 2f51a1a93925e318398d173f5b2106409dd2565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 019/138] fix: string.split took parts of quotes for unquoted
 text

Dollar quotes that span lines were not found, e'' was read as '', an E or a
dollar sign inside of a word started a quote, and unterminated quotes like $$$
and E' were given an end they don't have.
---
 postgresql/string.py | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 53799d3..5bec1e8 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -49,11 +49,12 @@ def quote_ident_if_needed(text):
 	"""
 	return quote_ident(text) if needs_quoting(text) else text
 
-quote_re = re.compile(r"""(?xu)
-	E'(?:''|\\.|[^'])*(?:'|$)          (?# Backslash escapes E'str')
-|	'(?:''|[^'])*(?:'|$)               (?# Regular literals 'str')
-|	"(?:""|[^"])*(?:"|$)               (?# Identifiers "str")
-|	(\$(?:[^0-9$]\w*)?\$).*?(?:\1|$)   (?# Dollar quotes $$str$$)
+quote_re = re.compile(r"""(?xus)
+	[Ee]'(?:''|\\.|[^'\\])*(')?                  (?# Backslash escapes E'str')
+|	'(?:''|[^'])*(')?                            (?# Regular literals 'str')
+|	"(?:""|[^"])*(")?                            (?# Identifiers "str")
+|	(\$(?:[^\W\d]\w*)?\$)(?:.*?(\4)|.*)         (?# Dollar quotes $$str$$)
+|	(?P<word>[^\W\d][\w$]*)                      (?# E and $ inside of a word don't start a quote)
 """)
 
 def split(text):
@@ -80,32 +81,27 @@ def split(text):
 	scan = re.scanner(text)
 	match = scan.search()
 	while match is not None:
+		if match.group('word') is not None:
+			match = scan.search()
+			continue
 		# text preceding the quotation
 		yield text[lastend:match.start()]
 		# the dollar quote, if any
-		dq = match.groups()[0]
+		dq = match.group(4)
 		if dq is not None:
-			endoff = len(dq)
 			quote = dq
-			end = quote
+		elif text[match.start()] in "Ee":
+			quote = text[match.start():match.start()+2]
 		else:
-			endoff = 1
-			q = text[match.start()]
-			if q == 'E':
-				quote = "E'"
-				end = "'"
-			else:
-				end = quote = q
+			quote = text[match.start()]
 
-		# If the end is not the expected quote, it consumed
-		# the end. Be sure to check that the match's end - end offset
-		# is *not* the start, ie an empty quotation at the end of the string.
-		if text[match.end()-endoff:match.end()] != end \
-		or match.end() - endoff == match.start():
+		# The end of the quotation, if there is one.
+		end = match.group(1) or match.group(2) or match.group(3) or match.group(5)
+		if end is None:
 			yield (quote, text[match.start()+len(quote):])
 			break
 		else:
-			yield (quote, text[match.start()+len(quote):match.end()-endoff])
+			yield (quote, text[match.start()+len(quote):match.end()-len(end)])
 
 		lastend = match.end()
 		match = scan.search()
@@ -127,7 +123,7 @@ def unsplit(splitted_iter):
 		try:
 			q, qtext = next(i)
 			s += q + qtext
-			if q == "E'":
+			if q in ("E'", "e'"):
 				endq = "'"
 			else:
 				endq = q
-- 
2.43.0


From 3c3f0d37cf1184217624a7283ee2d9bc0983ff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 020/138] fix: quote_ident_if_needed left identifiers with
 upper case letters unquoted

---
 postgresql/string.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 5bec1e8..8219294 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -47,7 +47,8 @@ def quote_ident_if_needed(text):
 	If needed, replace every instance of '"' with '""' *and* place '"' on each end.
 	Otherwise, just return the text.
 	"""
-	return quote_ident(text) if needs_quoting(text) else text
+	# The server folds the case of unquoted identifiers.
+	return quote_ident(text) if needs_quoting(text) or text != text.lower() else text
 
 quote_re = re.compile(r"""(?xus)
 	[Ee]'(?:''|\\.|[^'\\])*(')?                  (?# Backslash escapes E'str')
-- 
2.43.0


From 4baff03273ada4eab5c4f21595306a4925a30f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 021/138] fix: split_using left parts of separators longer than
 one character

---
 postgresql/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index 8219294..aa1ee40 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -184,7 +184,7 @@ def split_using(text, quote, sep = '.', maxsplit = -1):
 				break
 
 			l.append(text[offset:nextsep])
-			offset = nextsep + 1
+			offset = nextsep + len(sep)
 	l.append(text[offset:])
 	return l
 
-- 
2.43.0


From 01b611693d7989a3077e49315e36487a807622cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:15 +0000
Subject: [PATCH 022/138] fix: split_ident accepted quoted identifiers with
 unescaped quotes or without an end

---
 postgresql/string.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/string.py b/postgresql/string.py
index aa1ee40..67b0903 100644
--- a/postgresql/string.py
+++ b/postgresql/string.py
@@ -196,7 +196,7 @@ def split_ident(text, sep = ',', quote = '"', maxsplit = -1):
 	for x in split_using(text, quote, sep = sep, maxsplit = maxsplit):
 		x = x.strip()
 		if x.startswith('"'):
-			if not x.endswith('"'):
+			if re.match(r'"(?:""|[^"])*"\Z', x) is None:
 				raise ValueError(
 					"unterminated identifier quotation", x
 				)
-- 
2.43.0


From 9ba4797c75faba5fe2cd2d1eaae06450eb6cfc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 023/138] fix: every error of a server with localized messages
 was taken for a fatal one

---
 postgresql/protocol/xact3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 56fda88..85d3f68 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -503,7 +503,9 @@ class Instruction(Transaction):
 				if x[0] == ERROR_TYPE:
 					em = ERROR_PARSE(x[1])
 					# Is it fatal?
-					self.fatal = fatal = em[b'S'].upper() != b'ERROR'
+					# (b'S' may be localized, b'V' is not)
+					severity = em.get(b'V') or em[b'S']
+					self.fatal = fatal = severity.upper() != b'ERROR'
 					self.error_message = em
 					if fatal is True:
 						# Can't sync up if the session is closed.
-- 
2.43.0


From 5962481abc56bb44c2d13d1fcfcd4638b61f8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 024/138] fix: localized severities made fatal errors not fatal
 and warnings plain messages

---
 postgresql/driver/pq3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 82d69b0..4c19b86 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -563,10 +563,14 @@ class TypeIO(pg_api.TypeIO):
 				yield (x[0], repr(x[1])[2:-1])
 
 	def decode_notice(self, notice):
-		notice = self._decode_failsafe(notice.items())
+		fields = dict(self._decode_failsafe(notice.items()))
+		# b'S' may be localized, b'V' is the same but never is.
+		severity = fields.get(b'V')
+		if severity:
+			fields[b'S'] = severity
 		return {
 			notice_field_to_name[k] : v
-			for k, v in notice
+			for k, v in fields.items()
 			# don't include unknown messages in this list.
 			if k in notice_field_to_name
 		}
-- 
2.43.0


From 1dc064f8cf88d10e2f1452ef461c9666e89c2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 025/138] fix: program limit errors were not database errors
 and their class code was unknown

---
 postgresql/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index 5d71d01..c6542e3 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -344,7 +344,7 @@ class DiskFullError(IRError):
 class TooManyConnectionsError(IRError):
 	code = '53300'
 
-class PLEError(OverflowError):
+class PLEError(Error, OverflowError):
 	"""
 	Program Limit Exceeded
 	"""
-- 
2.43.0


From 03ee284e80e3f4a23aa3b502725a78dc477fd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 026/138] fix: the error for invalid escape characters was
 replaced by the one for invalid use of them

---
 postgresql/exceptions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/exceptions.py b/postgresql/exceptions.py
index c6542e3..daca2bc 100644
--- a/postgresql/exceptions.py
+++ b/postgresql/exceptions.py
@@ -583,6 +583,9 @@ class CastCharacterValueError(DataError):
 	code = '22018'
 
 class EscapeCharacterError(DataError):
+	"""
+	Invalid escape character.
+	"""
 	code = '22019'
 class EscapeOctetError(DataError):
 	code = '2200D'
@@ -590,9 +593,9 @@ class EscapeSequenceError(DataError):
 	code = '22025'
 class EscapeCharacterConflictError(DataError):
 	code = '2200B'
-class EscapeCharacterError(DataError):
+class EscapeCharacterUseError(EscapeCharacterError):
 	"""
-	Invalid escape character.
+	Invalid use of an escape character.
 	"""
 	code = '2200C'
 
-- 
2.43.0


From cc1d81bd7589f427621735e1921228bfa7f7f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 027/138] fix: a setting could not be added to an empty
 configuration file

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 2f94f0e..6ccb488 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -124,7 +124,7 @@ def alter_config(map, fo, keys = None):
 			val = map[key]
 			# Can't comment without an uncommented candidate.
 			if val is not None:
-				if not lines[-1].endswith(os.linesep):
+				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
 				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
 
-- 
2.43.0


From 9ca5f1c1f6f8f233832df88e409415dc5d3b668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 028/138] fix: removing a setting of a ConfigFile and iterating
 over it failed with a TypeError

---
 postgresql/configfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 6ccb488..ae357d9 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -244,7 +244,7 @@ class ConfigFile(pg_api.Settings):
 	def __delitem__(self, k):
 		with self._open(self.path) as cf:
 			lines = alter_config({k : None}, cf)
-		self._save()
+		self._save(lines)
 
 	def __getitem__(self, k):
 		with self._open(self.path) as cfo:
@@ -263,7 +263,7 @@ class ConfigFile(pg_api.Settings):
 		return self
 
 	def __iter__(self):
-		return self.keys()
+		return iter(self.keys())
 
 	def __len__(self):
 		return len(list(self.keys()))
-- 
2.43.0


From 3dcfe3f767ac1722a7a791217a937f4f5ecb303d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 029/138] fix: scoped changes of a ConfigFile failed, they
 never restored anything

---
 postgresql/configfile.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index ae357d9..ae32bc0 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -227,7 +227,7 @@ class ConfigFile(pg_api.Settings):
 		self.path = path
 		self._open = open
 		self._store = []
-		self._restore = {}
+		self._restore = []
 
 	def __repr__(self):
 		return "%s.%s(%r)" %(
@@ -258,6 +258,7 @@ class ConfigFile(pg_api.Settings):
 
 	def __call__(self, **kw):
 		self._store.insert(0, kw)
+		return self
 
 	def __context__(self):
 		return self
@@ -275,11 +276,7 @@ class ConfigFile(pg_api.Settings):
 		self._restore.append(res)
 
 	def __exit__(self, exc, val, tb):
-		self._restored.update(self._restore[-1])
-		del self._restore[-1]
-		self.update(self._restored)
-		self._restored.clear()
-		return exc is None
+		self.update(self._restore.pop())
 
 	def get(self, k, alt = None):
 		with self._open(self.path) as cf:
-- 
2.43.0


From 96c34f2ba7c3efdf5837de78e5306e2535ecea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 030/138] fix: custom settings of a configuration file were not
 read, and added again by every change

---
 postgresql/configfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index ae32bc0..df71ab1 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -25,7 +25,7 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 
 		key_len = 0
 		for c in key[prekey_len:]:
-			if not (c.isalpha() or c.isdigit() or c in '_'):
+			if not (c.isalpha() or c.isdigit() or c in '_.'):
 				break
 			key_len += 1
 
-- 
2.43.0


From 2f4fc7aec3c9b05f14f5f267e0759c925322af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:25 +0000
Subject: [PATCH 031/138] fix: backslashes in quoted values of a configuration
 file were not escaped, and not understood

---
 postgresql/configfile.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index df71ab1..4d78d9b 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -6,6 +6,7 @@ PostgreSQL configuration file parser and editor functions.
 """
 import sys
 import os
+import re
 from . import string as pg_str
 from . import api as pg_api
 
@@ -43,9 +44,13 @@ def parse_line(line, equality = '=', comment = comment, quote = quote):
 		inquotes = False
 		escaped = False
 		val_len = 0
+		backslash = False
 		for i in range(preval_len, len(val)):
 			c = val[i]
-			if c == quote:
+			if inquotes is True and (backslash or c == '\\'):
+				# Whatever follows a backslash, it doesn't end the value.
+				backslash = not backslash
+			elif c == quote:
 				if inquotes is False:
 					inquotes = True
 				else:
@@ -75,7 +80,25 @@ def unquote(s, quote = quote):
 	s = s.strip()
 	if not s.startswith(quote):
 		return s
-	return s[1:-1].replace(quote*2, quote)
+	return re.sub(unquote_re, unquote_match, s[1:-1])
+
+# '' and the backslash escapes recognized by the server
+unquote_re = re.compile(r"''|\\([0-7]{1,3}|.)", re.S)
+unquote_chars = {'b' : '\b', 'f' : '\f', 'n' : '\n', 'r' : '\r', 't' : '\t'}
+def unquote_match(match):
+	x = match.group(1)
+	if x is None:
+		return quote
+	if x[0] in '01234567':
+		return chr(int(x, 8))
+	return unquote_chars.get(x, x)
+
+def escape(s):
+	"""
+	Escape the string `s` for use within the quotes of a value.
+	"""
+	return s.replace('\\', '\\\\').replace(quote, quote * 2) \
+		.replace('\n', '\\n').replace('\r', '\\r')
 
 def write_config(map, writer, keys = None):
 	"""
@@ -126,7 +149,7 @@ def alter_config(map, fo, keys = None):
 			if val is not None:
 				if lines and not lines[-1].endswith(os.linesep):
 					lines[-1] = lines[-1] + os.linesep
-				lines.append("%s = '%s'" %(key, val.replace("'", "''")))
+				lines.append("%s = '%s'" %(key, escape(val)))
 
 	# Multiple lines may have the key, so make a decision based on the value.
 	for ck in candidates.keys():
@@ -195,7 +218,7 @@ def alter_config(map, fo, keys = None):
 			# way to set something without delving into setting types.
 			lines[line_num] = \
 				bol + l[sk.start:sv.start] + \
-				"'%s'" %(to_set_val.replace("'", "''"),) + post_val
+				"'%s'" %(escape(to_set_val),) + post_val
 	return lines
 
 def read_config(iter, d = None, selector = None):
-- 
2.43.0


From 65871638590565fbb04e374c2448d522522d54fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 032/138] fix: settings of a configuration file were not found
 when written in another case

---
 postgresql/configfile.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/postgresql/configfile.py b/postgresql/configfile.py
index 4d78d9b..810bfa5 100644
--- a/postgresql/configfile.py
+++ b/postgresql/configfile.py
@@ -227,7 +227,8 @@ def read_config(iter, d = None, selector = None):
 	for line in iter:
 		kv = parse_line(line)
 		if kv:
-			key = line[kv[0]]
+			# The server ignores the case of names.
+			key = line[kv[0]].lower()
 			if comment not in line[:kv[0].start] and \
 			(selector is None or selector(key)):
 				d[key] = unquote(line[kv[1]])
@@ -273,8 +274,8 @@ class ConfigFile(pg_api.Settings):
 		with self._open(self.path) as cfo:
 			return read_config(
 				cfo,
-				selector = k.__eq__
-			)[k]
+				selector = k.lower().__eq__
+			)[k.lower()]
 
 	def __setitem__(self, k, v):
 		self.update({k : v})
@@ -303,7 +304,7 @@ class ConfigFile(pg_api.Settings):
 
 	def get(self, k, alt = None):
 		with self._open(self.path) as cf:
-			return read_config(cf, selector = k.__eq__).get(k, alt)
+			return read_config(cf, selector = k.lower().__eq__).get(k.lower(), alt)
 
 	def keys(self):
 		return read_config(self._open(self.path)).keys()
@@ -328,12 +329,12 @@ class ConfigFile(pg_api.Settings):
 		Get all the settings in the list of keys.
 		Returns a dictionary of those keys.
 		"""
-		keys = set(keys)
+		keys = list(keys)
 		with self._open(self.path) as cfo:
 			cfg = read_config(
 				cfo,
-				selector = keys.__contains__
+				selector = {x.lower() for x in keys}.__contains__
 			)
-			for x in (keys - set(cfg.keys())):
-				cfg[x] = None
-			return cfg
+			return {
+				x : cfg.get(x.lower()) for x in keys
+			}
-- 
2.43.0


From ca01cf79fe8acf0a4f11833a3b0f03e73bf8da14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:41 +0000
Subject: [PATCH 033/138] fix: pg_dotconf could not apply a file of settings

---
 postgresql/bin/pg_dotconf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/bin/pg_dotconf.py b/postgresql/bin/pg_dotconf.py
index 31306e9..06599a6 100644
--- a/postgresql/bin/pg_dotconf.py
+++ b/postgresql/bin/pg_dotconf.py
@@ -39,8 +39,8 @@ def command(args):
 			for line in sf:
 				pl = configfile.parse_line(line)
 				if pl is not None:
-					if comment not in line[pl[0].start]:
-						settings[line[pl[0]]] = unquote(line[pl[1]])
+					if configfile.comment not in line[:pl[0].start]:
+						settings[line[pl[0]]] = configfile.unquote(line[pl[1]])
 
 	prev = None
 	for p in ca[1:]:
-- 
2.43.0


From ff061bf2307967fd7b4e65f42cd2d04b07de3975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:48 +0000
Subject: [PATCH 034/138] fix: the version of the package was empty and
 pg_dotconf could not be imported

---
 postgresql/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/postgresql/__init__.py b/postgresql/__init__.py
index 60ce8e5..dc1738d 100644
--- a/postgresql/__init__.py
+++ b/postgresql/__init__.py
@@ -10,8 +10,6 @@ See <http://postgresql.org> for more information about PostgreSQL and <http://py
 for information about Python.
 """
 __all__ = [
-	'__author__',
-	'__date__',
 	'__version__',
 	'__docformat__',
 	'version',
@@ -27,8 +25,7 @@ version_info = () # overridden by subsequent import from .project.
 
 # Optional.
 try:
-	from .project import version_info, version, \
-		author as __author__, date as __date__
+	from .project import version_info, version
 	__version__ = version
 except ImportError:
 	pass
-- 
2.43.0


From cd818c9153fa286d84f185c817514345fc775444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 035/138] fix: a commit that had failed appeared to succeed
 when it was repeated

---
 postgresql/driver/pq3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 4c19b86..799f86a 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2241,7 +2241,14 @@ class Transaction(pg_api.Transaction):
 			q = 'COMMIT'
 		else:
 			q = self._release_string(hex(id(self)))
-		self.database.execute(q)
+		try:
+			self.database.execute(q)
+		except pg_exc.Error:
+			if self.type == 'block' and self.database.pq.state == b'I':
+				# A failed COMMIT ends the block. It's over, and
+				# another commit() must not appear to succeed.
+				self.state = 'aborted'
+			raise
 		self.state = 'committed'
 
 	@staticmethod
-- 
2.43.0


From c3334940d75b206ceca937ae6040ad84fa2add37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 036/138] fix: escape and unescape the database in IRIs

serialize() tried to, with the arguments of sub() swapped, and parse() did
not undo percent escapes of the path: a database 'a/b' or 'a?b' came back
as another one.
---
 postgresql/iri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7a90aee..f321e2b 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -55,8 +55,8 @@ def structure(d, fieldproc = ri.unescape):
 	if path:
 		# Only state the database field's existence if the first path is non-empty.
 		if path[0]:
-			cpd['database'] = path[0]
-		path = path[1:]
+			cpd['database'] = fieldproc(path[0])
+		path = [fieldproc(x) for x in path[1:]]
 		if path:
 			cpd['path'] = path
 
@@ -158,7 +158,7 @@ def construct(x, obscure_password = False):
 			None if 'port' not in x else str(x['port'])
 		)),
 		None if not path else '/'.join([
-			ri.escape_path_re.sub(path_comp, '/')
+			ri.escape_path_re.sub(ri.re_pct_encode, path_comp)
 			for path_comp in path
 		]),
 		(ri.construct_query(driver_params) if driver_params else None)
-- 
2.43.0


From 660122aad181ad18e1341f060bee87027aa22713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 037/138] fix: unescape bracketed hosts of IRIs

serialize() escapes the host, but parse() left the escapes of an address or
socket path in brackets as they are: '[fe80::1%25eth0]' or a socket path
with a space were not read back as the host they stand for. Also escape '@'
in hosts, which would end the user's part.
---
 postgresql/iri.py              | 4 ++--
 postgresql/resolved/riparse.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index f321e2b..2921c3b 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -46,9 +46,9 @@ def structure(d, fieldproc = ri.unescape):
 		if host.startswith('[') and host.endswith(']'):
 			host = host[1:-1]
 			if host.startswith('unix:'):
-				cpd['unix'] = host[len('unix:'):].replace(':','/')
+				cpd['unix'] = fieldproc(host[len('unix:'):].replace(':','/'))
 			else:
-				cpd['host'] = host
+				cpd['host'] = fieldproc(host)
 		else:
 			cpd['host'] = fieldproc(host)
 
diff --git a/postgresql/resolved/riparse.py b/postgresql/resolved/riparse.py
index f91a261..7da8aa2 100644
--- a/postgresql/resolved/riparse.py
+++ b/postgresql/resolved/riparse.py
@@ -47,7 +47,7 @@ percent_escapes_re = re.compile('(%[0-9a-fA-F]{2,2})+')
 escape_re = re.compile('[%s]' %(re.escape(unescaped),))
 escape_user_re = re.compile('[%s]' %(re.escape(unescaped + ':@/?#'),))
 escape_password_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
-escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
+escape_host_re = re.compile('[%s]' %(re.escape(unescaped + '@/?#'),))
 escape_port_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_path_re = re.compile('[%s]' %(re.escape(unescaped + '/?#'),))
 escape_query_key_re = re.compile('[%s]' %(re.escape(unescaped + '&=#'),))
-- 
2.43.0


From 90472577890488de487c3acf73eeed317cd817b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 038/138] fix: serialize settings that are not strings

iri.serialize() raised TypeError for {'settings': {'geqo': 1}}, and so did
prompting for a password, which shows the IRI.
---
 postgresql/iri.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 2921c3b..5ad53d2 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -109,7 +109,10 @@ def construct(x, obscure_password = False):
 			search_path = [(k,v) for k,v in siter if k == 'search_path']
 			search_path.append((None,None))
 			search_path = search_path[-1][1]
-		no_path_settings = [(k,v) for k,v in siter if k != 'search_path']
+		no_path_settings = [
+			(k, v if v is None else str(v))
+			for k,v in siter if k != 'search_path'
+		]
 		if not no_path_settings:
 			no_path_settings = None
 
-- 
2.43.0


From 088481e5df54f77a446a67ca8a229adc869e3e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 039/138] fix: keep parameters in IRIs that their netloc cannot
 carry

serialize() dropped the port when there is no host, and the password when
there is no user, and socket paths with a colon came back as others. Give
them as driver parameters, which parse() reads.
---
 postgresql/iri.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 5ad53d2..7280f4d 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -121,7 +121,12 @@ def construct(x, obscure_password = False):
 		search_path = split_ident(search_path, sep = ',')
 
 	port = None
-	if 'unix' in x:
+	# What the netloc cannot carry is given as driver parameters.
+	in_query = set()
+	if 'unix' in x and (':' in x['unix'] or ']' in x['unix']):
+		host = None
+		in_query.add('unix')
+	elif 'unix' in x:
 		host = '[unix:' + x['unix'].replace('/',':') + ']'
 		# ignore port.. it's a mis-config.
 	elif 'host' in x:
@@ -132,6 +137,10 @@ def construct(x, obscure_password = False):
 	else:
 		host = None
 		port = x.get('port')
+	if host is None and port is not None:
+		in_query.add('port')
+	if x.get('user') is None and x.get('password') is not None:
+		in_query.add('password')
 
 	path = []
 	if 'database' in x:
@@ -143,8 +152,9 @@ def construct(x, obscure_password = False):
 	if obscure_password and password is not None:
 		password = '***'
 	driver_params = list({
-		'[' + k + ']' : str(v) for k,v in x.items()
-		if k not in (
+		'[' + k + ']' : str(password if k == 'password' else v)
+		for k,v in x.items()
+		if k in in_query or k not in (
 			'user', 'password', 'port', 'database', 'ssl',
 			'path', 'host', 'unix', 'ipv','settings'
 		)
-- 
2.43.0


From a90351be73c59c22a7b4b32d890b05a327b7b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 040/138] fix: PGREQUIRESSL made collect() give a tuple as the
 sslmode

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 5540976..1b9496d 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -189,7 +189,7 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	reqssl = modifier('REQUIRESSL')
 	if reqssl in environ:
 		if environ[reqssl].strip() == '1':
-			yield ('sslmode',), ('require', reqssl + '=1')
+			yield (('sslmode',), 'require')
 
 	for k, v in default_envvar_map.items():
 		k = modifier(k)
-- 
2.43.0


From f0109f0484a460b775b401b64f9349333bffa304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 041/138] fix: collect the settings given by environment
 variables

PGTZ, PGDATESTYLE, PGCLIENTENCODING and PGGEQO are documented to be given as
settings; envvars() computed them, but never yielded them.
---
 postgresql/clientparameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 1b9496d..026f9fc 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -201,9 +201,9 @@ def envvars(environ = os.environ, modifier = 'PG'.__add__):
 	envvar_settings_map = ((
 		(modifier(k), v) for k,v in default_envvar_settings_map.items()
 	))
-	settings = [
-		(('settings', v,), environ[k]) for k, v in envvar_settings_map if k in environ
-	]
+	for k, v in envvar_settings_map:
+		if k in environ:
+			yield (('settings', v,), environ[k])
 
 	# PGSYSCONFDIR based
 	if pg_sysconfdir_envvar in environ:
-- 
2.43.0


From 338a5e2e2cb1dabb4c284a26caa0420ec670927c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 042/138] fix: NameError for a --setting without '='

---
 postgresql/clientparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index 026f9fc..f3c993a 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -281,7 +281,7 @@ def append_settings(option, opt_str, value, parser):
 	"""
 	kv = value.split('=', 1)
 	if len(kv) != 2:
-		raise OptionValueError("invalid setting argument, %r" %(value,))
+		raise optparse.OptionValueError("invalid setting argument, %r" %(value,))
 	parser.values.db_client_parameters.append(
 		((option.dest, kv[0]), kv[1])
 	)
-- 
2.43.0


From d29a9f858609e9c71fc5ebf388cb0f71db9f23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 043/138] fix: resolve_password ignored its prompt_title

---
 postgresql/clientparameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index f3c993a..d16f986 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -391,11 +391,11 @@ def resolve_password(parameters, getpass = getpass, prompt_title = ''):
 	"""
 	prompt_for_password = parameters.pop('prompt_password', False)
 	pgpassfile = parameters.pop('pgpassfile', None)
-	prompt_title = parameters.pop('prompt_title', None)
+	default_title = parameters.pop('prompt_title', None)
 	if prompt_for_password is True:
 		# it's a prompt
 		if sys.stdin.isatty():
-			prompt = prompt_title or parameters.pop('prompt_title', '')
+			prompt = prompt_title or default_title or ''
 			prompt += '[' + pg_iri.serialize(parameters, obscure_password = True) + ']'
 			parameters['password'] = getpass("Password for " + prompt +": ")
 		else:
-- 
2.43.0


From 16fbcb70e9b8a0997fc445e8b008126e245d99fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 044/138] fix: do not strip spaces off the passwords in a
 pgpass file

---
 postgresql/pgpassfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index ee0ae73..ddc1572 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -7,8 +7,9 @@ Parse pgpass files and subsequently lookup a password.
 import os.path
 
 def split(line, len = len):
-	line = line.strip()
-	if not line:
+	# Only the end of the line: spaces belong to the fields.
+	line = line.rstrip('\r\n')
+	if not line.strip():
 		return None
 	r = []
 	continuation = False
-- 
2.43.0


From 0702a97a53822537131127def3142c0b943abe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:07 +0000
Subject: [PATCH 045/138] fix: KeyError looking up the password of a unix
 socket connection

open(unix = ...) raised KeyError: 'host' whenever the user has a pgpass file.
As with libpq, entries for localhost are used for sockets.
---
 postgresql/pgpassfile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/pgpassfile.py b/postgresql/pgpassfile.py
index ddc1572..6791ee9 100644
--- a/postgresql/pgpassfile.py
+++ b/postgresql/pgpassfile.py
@@ -66,6 +66,7 @@ def lookup_pgpass(d, passfile, exists = os.path.exists):
 	# using the config's criteria.
 	if exists(passfile):
 		return lookup_password_file(passfile, (
-			str(d['user']), str(d['host']), str(d['port']),
+			# Entries for local connections use localhost.
+			str(d['user']), str(d.get('host', 'localhost')), str(d.get('port', 5432)),
 			str(d.get('database', d['user']))
 		))
-- 
2.43.0


From 5204431dc5aa67e35f0e93d42bf390852ec3afcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 046/138] fix: serialize the search_path of settings given as
 pairs

The default was put behind the search_path that was found, so it was always
left out.
---
 postgresql/iri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/iri.py b/postgresql/iri.py
index 7280f4d..0ce0ba8 100644
--- a/postgresql/iri.py
+++ b/postgresql/iri.py
@@ -106,8 +106,8 @@ def construct(x, obscure_password = False):
 			search_path = settings.get('search_path')
 		else:
 			siter = list(settings)
-			search_path = [(k,v) for k,v in siter if k == 'search_path']
-			search_path.append((None,None))
+			search_path = [(None,None)]
+			search_path.extend((k,v) for k,v in siter if k == 'search_path')
 			search_path = search_path[-1][1]
 		no_path_settings = [
 			(k, v if v is None else str(v))
-- 
2.43.0


From be9da995aeee97201953e0df025194eabb07af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 047/138] fix: abort copies that were left before their end

A copy manager's block that ended before its iterator was exhausted without
an exception completed the COPY of its receivers; when the producing server
had sent everything already, it did not even raise CopyFail.
---
 postgresql/copyman.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 4322982..0505d1b 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -707,6 +707,9 @@ class CopyManager(Element, Iterator):
 			# Don't bother, it's an interrupt or sufficient resources.
 			return
 
+		# Noted now as realignment exhausts the producer as well.
+		incomplete = typ is not None or not self._seen_stop_iteration
+
 		profail = None
 		try:
 			# Does nothing if the COPY was successful.
@@ -733,6 +736,11 @@ class CopyManager(Element, Iterator):
 		if not self.receivers:
 			raise CopyFail(self, "no receivers", producer_fault = profail)
 
+		if typ is None and (incomplete or profail):
+			# Left before the end; the receivers must not complete.
+			val = CopyFail(self, "incomplete COPY operation", producer_fault = profail)
+			typ = type(val)
+
 		exit_faults = {}
 		for x in self.receivers:
 			try:
@@ -740,7 +748,7 @@ class CopyManager(Element, Iterator):
 			except Exception as e:
 				exit_faults[x] = e
 
-		if typ or exit_faults or profail or not self._seen_stop_iteration:
+		if incomplete or exit_faults or profail:
 			raise CopyFail(self,
 				"could not complete the COPY operation",
 				receiver_faults = exit_faults or None,
-- 
2.43.0


From c31a5f89586f7886fc7fa82d6f49795c179878f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 048/138] fix: report the progress of a copy whose last
 transfer faulted

The messages and bytes of a transfer interrupted by a ReceiverFault are
reported by the next transfer; when there was none, they were lost.
---
 postgresql/copyman.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/postgresql/copyman.py b/postgresql/copyman.py
index 0505d1b..2497977 100644
--- a/postgresql/copyman.py
+++ b/postgresql/copyman.py
@@ -822,7 +822,17 @@ class CopyManager(Element, Iterator):
 		messages = self.producer.total_messages
 		bytes = self.producer.total_bytes
 
-		self._service_producer()
+		try:
+			self._service_producer()
+		except StopIteration:
+			current_stats = self._stats
+			if not self._seen_stop_iteration or current_stats == (0, 0):
+				raise
+			# The last transfer faulted; its progress is yet to be reported,
+			# and so is the end.
+			self._stats = (0, 0)
+			self._seen_stop_iteration = False
+			return current_stats
 		# Record the progress in case a receiver faults.
 		self._stats = (
 			self._stats[0] + (self.producer.total_messages - messages),
-- 
2.43.0


From d4103197d2916fff5198bd9d3728d7e93c6f4ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:56 +0000
Subject: [PATCH 049/138] fix: raise a library error from connect() after
 connect() failed

The connection has no protocol connection then; AttributeError was raised.
---
 postgresql/driver/pq3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 799f86a..c6d6c73 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2462,6 +2462,9 @@ class Connection(pg_api.Connection):
 			return
 
 		if hasattr(self, 'pq'):
+			if self.pq is None:
+				# It could not be established before; failures are terminal.
+				self.typio.raise_client_error(could_not_connect, creator = self)
 			# It's closed, *but* there's a PQ connection..
 			x = self.pq.xact
 			self.typio.raise_error(x.error_message, cause = getattr(x, 'exception', None), creator = self)
-- 
2.43.0


From e8589cd5aef5a23543593d60d29230a24cc2e3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 050/138] fix: require an authentication message in answer to
 the password

The body of any other message was taken for one.
---
 postgresql/protocol/xact3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postgresql/protocol/xact3.py b/postgresql/protocol/xact3.py
index 85d3f68..985c077 100644
--- a/postgresql/protocol/xact3.py
+++ b/postgresql/protocol/xact3.py
@@ -215,6 +215,17 @@ class Negotiation(Transaction):
 				return
 			x = (yield (element.Password(pw),))
 
+			if x[0] != element.Authentication.type:
+				self.fatal = True
+				self.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08P01'),
+					(b'M', message_expectation(
+						expected = element.Authentication.type,
+						received = x[0],
+					)),
+				))
+				return
 			self.authok = element.Authentication.parse(x[1])
 			if self.authok.request != element.AuthRequest_OK:
 				self.fatal = True
-- 
2.43.0


From 3b4e381c90a3901e035992c9ceea5464fa90a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 051/138] fix: treat a connection lost during SSL negotiation
 as a failed attempt

The exception of the socket was raised by connect() without trying the
remaining addresses, and the socket was not closed.
---
 postgresql/protocol/client3.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/postgresql/protocol/client3.py b/postgresql/protocol/client3.py
index f0203c2..f3f2305 100644
--- a/postgresql/protocol/client3.py
+++ b/postgresql/protocol/client3.py
@@ -164,7 +164,20 @@ class Connection(object):
 			# if ssl is True, ssl is *required*
 			# if ssl is False, ssl will be tried, but not required
 			# if ssl is None, no SSL negotiation will happen
-			self.ssl_negotiation = supported = self.negotiate_ssl()
+			try:
+				self.ssl_negotiation = supported = self.negotiate_ssl()
+			except self.socket_factory.fatal_exception as err:
+				# The connection was lost.
+				self.xact.exception = err
+				self.xact.fatal = True
+				self.xact.state = xact.Complete
+				self.xact.error_message = element.ClientError((
+					(b'S', 'FATAL'),
+					(b'C', '08006'),
+					(b'M', self.socket_factory.fatal_exception_message(err) or
+						"SSL negotiation was interrupted"),
+				))
+				return
 
 			# b'S' or b'N' was *not* received.
 			if supported is None:
-- 
2.43.0


From c0e2192a712917eb5ea3cfc774c4b58ab0503e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:47 +0000
Subject: [PATCH 052/138] fix: make the second attempt of the prefer and allow
 modes

When the TLS handshake failed or the connection was lost in the first attempt,
the second was skipped as if the host could not be reached: a server whose
certificate is not accepted could not be used with 'prefer', which is
documented to try without SSL then.
---
 postgresql/driver/pq3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c6d6c73..9da1138 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2570,8 +2570,8 @@ class Connection(pg_api.Connection):
 				# *not* be ran because it has already been noted to be
 				# a failure.
 				can_skip = True
-			elif hasattr(pq.xact, 'exception'):
-				# If a Python exception occurred, chances are that it is
+			elif pq.socket is None:
+				# If the socket could not be connected, chances are that it is
 				# going to fail again iff it is going to hit the same host.
 				if sslmode == 'prefer' and ssl is False:
 					# when 'prefer', the first attempt
-- 
2.43.0


From 3913daf221986eff679b897d051dba70c644e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:15 +0000
Subject: [PATCH 053/138] fix: send the search_path given to a connector

A search_path of None was removed from the settings of the connector, but
still sent to the server as 'None', and a sequence was only formatted when the
settings were a dictionary, not when they were key-value pairs.
---
 postgresql/driver/pq3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 9da1138..6cfff9d 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2855,10 +2855,11 @@ class Connector(pg_api.Connector):
 		}
 		if self.settings:
 			s = dict(self.settings)
-			if 'search_path' in self.settings:
-				sp = s.get('search_path')
+			if 'search_path' in s:
+				sp = s['search_path']
 				if sp is None:
-					self.settings.pop('search_path')
+					del s['search_path']
+					self.settings = dict(s)
 				elif not isinstance(sp, str):
 					s['search_path'] = ','.join(
 						pg_str.quote_ident(x) for x in sp
-- 
2.43.0


From 04c25993506a31bf718f76d361638880ad5e823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:38 +0000
Subject: [PATCH 054/138] fix: raise the error of an invalid message size from
 read() of the C stream, and only for messages that it was to return

---
 postgresql/port/_optimized/buffer.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/postgresql/port/_optimized/buffer.c b/postgresql/port/_optimized/buffer.c
index 032834f..b9dd498 100644
--- a/postgresql/port/_optimized/buffer.c
+++ b/postgresql/port/_optimized/buffer.c
@@ -196,8 +196,11 @@ p_memcpy(char *dst, struct p_place *p, uint32_t amount)
 	return(amount - amount_left);
 }
 
+/*
+ * Count the messages, but not more than limit. (-1 for all)
+ */
 static Py_ssize_t
-p_length(PyObject *self)
+p_count(PyObject *self, long limit)
 {
 	char header[5];
 	long msg_count = 0;
@@ -210,7 +213,7 @@ p_length(PyObject *self)
 	p.list = pb->position.list;
 	p.offset = pb->position.offset;
 
-	while (p.list != NULL)
+	while (p.list != NULL && (limit < 0 || msg_count < limit))
 	{
 		copy_amount = p_memcpy(header, &p, 5);
 		if (copy_amount < 5)
@@ -236,6 +239,12 @@ p_length(PyObject *self)
 	return(msg_count);
 }
 
+static Py_ssize_t
+p_length(PyObject *self)
+{
+	return(p_count(self, -1));
+}
+
 static PySequenceMethods pq_ms_as_sequence = {
 	(lenfunc) p_length, 0
 };
@@ -404,7 +413,7 @@ p_next(PyObject *self)
 static PyObject *
 p_read(PyObject *self, PyObject *args)
 {
-	int cur_msg, msg_count = -1, msg_in = 0;
+	int cur_msg, msg_count = -1;
 	struct p_place p;
 	struct p_buffer *pb;
 	PyObject *rob = NULL;
@@ -416,8 +425,9 @@ p_read(PyObject *self, PyObject *args)
 	p.list = pb->position.list;
 	p.offset = pb->position.offset;
 
-	msg_in = p_length(self);
-	msg_count = msg_count < msg_in && msg_count != -1 ? msg_count : msg_in;
+	msg_count = p_count(self, msg_count);
+	if (msg_count < 0)
+		return(NULL);
 
 	rob = PyTuple_New(msg_count);
 	for (cur_msg = 0; cur_msg < msg_count; ++cur_msg)
-- 
2.43.0


From 1d1dbd15e182b68fc2e0a2ea2f0ebba358418146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 055/138] fix: unpack int8 from any buffer in the C extension

---
 postgresql/port/_optimized/structlib.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/postgresql/port/_optimized/structlib.c b/postgresql/port/_optimized/structlib.c
index 21ae145..4a03eab 100644
--- a/postgresql/port/_optimized/structlib.c
+++ b/postgresql/port/_optimized/structlib.c
@@ -579,10 +579,6 @@ swap_int8_unpack(PyObject *self, PyObject *arg)
 	Py_ssize_t len;
 	PY_LONG_LONG i;
 
-	c = PyBytes_AsString(arg);
-	if (PyErr_Occurred())
-		return(NULL);
-
 	if (PyObject_AsReadBuffer(arg, (const void **) &c, &len))
 		return(NULL);
 	if (len < 8)
-- 
2.43.0


From 78303cf2f6626c3475e6558684ec8d182654b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 056/138] fix: pack unsigned integers from objects having
 __index__ in the C extension

---
 postgresql/port/_optimized/structlib.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/postgresql/port/_optimized/structlib.c b/postgresql/port/_optimized/structlib.c
index 4a03eab..a82b206 100644
--- a/postgresql/port/_optimized/structlib.c
+++ b/postgresql/port/_optimized/structlib.c
@@ -380,7 +380,11 @@ uint4_pack(PyObject *self, PyObject *arg)
 	uint32_t i;
 	unsigned long l;
 
+	arg = PyNumber_Index(arg);
+	if (arg == NULL)
+		return(NULL);
 	l = PyLong_AsUnsignedLong(arg);
+	Py_DECREF(arg);
 	if (PyErr_Occurred())
 		return(NULL);
 	if (l > 0xFFFFFFFFL)
@@ -401,7 +405,11 @@ swap_uint4_pack(PyObject *self, PyObject *arg)
 	uint32_t i;
 	unsigned long l;
 
+	arg = PyNumber_Index(arg);
+	if (arg == NULL)
+		return(NULL);
 	l = PyLong_AsUnsignedLong(arg);
+	Py_DECREF(arg);
 	if (PyErr_Occurred())
 		return(NULL);
 	if (l > 0xFFFFFFFFL)
@@ -493,7 +501,11 @@ uint8_pack(PyObject *self, PyObject *arg)
 {
 	unsigned PY_LONG_LONG l;
 
+	arg = PyNumber_Index(arg);
+	if (arg == NULL)
+		return(NULL);
 	l = PyLong_AsUnsignedLongLong(arg);
+	Py_DECREF(arg);
 	if (l == (unsigned PY_LONG_LONG) -1 && PyErr_Occurred())
 		return(NULL);
 
@@ -505,7 +517,11 @@ swap_uint8_pack(PyObject *self, PyObject *arg)
 {
 	unsigned PY_LONG_LONG l;
 
+	arg = PyNumber_Index(arg);
+	if (arg == NULL)
+		return(NULL);
 	l = PyLong_AsUnsignedLongLong(arg);
+	Py_DECREF(arg);
 	if (l == (unsigned PY_LONG_LONG) -1 && PyErr_Occurred())
 		return(NULL);
 
-- 
2.43.0


From 2309855ae45d0200ca2b7b558947131d5911ebfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:59 +0000
Subject: [PATCH 057/138] fix: release what serialize() returned when
 cat_messages() refuses it

---
 postgresql/port/_optimized/element3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postgresql/port/_optimized/element3.c b/postgresql/port/_optimized/element3.c
index 7ea2b82..d77d779 100644
--- a/postgresql/port/_optimized/element3.c
+++ b/postgresql/port/_optimized/element3.c
@@ -601,6 +601,7 @@ cat_messages(PyObject *self, PyObject *messages_in)
 					PyObject_TypeName(ob),
 					PyObject_TypeName(serialized)
 				);
+				Py_DECREF(serialized);
 				goto fail;
 			}
 
-- 
2.43.0


From df3ddca0da1ea6d6bc70df9cee5b4eb9ebef2642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:19 +0000
Subject: [PATCH 058/138] fix: refuse rows that do not fill their message
 without the C extension

---
 postgresql/protocol/element3.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 1f8579e..c58889a 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -504,6 +504,8 @@ class Tuple(TupleMessage):
 				att = data[ao:offset]
 			add(att)
 			natts -= 1
+		if offset != len(data):
+			raise ValueError("tuple data does not fill the message")
 		return T(atts)
 	try:
 		parse = parse_tuple_message
-- 
2.43.0


From eb587481f14ea53a7f924a7269a718e5fe2763c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 059/138] fix: refuse message bodies that are cut short or
 carry extra bytes

---
 postgresql/protocol/element3.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index c58889a..05be172 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -115,7 +115,7 @@ class StringMessage(Message):
 
 	@classmethod
 	def parse(typ, data):
-		if not data.endswith(b'\x00'):
+		if data.find(b'\x00') != len(data) - 1 or not data:
 			raise ValueError("string message not NUL-terminated")
 		return typ(data[:-1])
 
@@ -215,7 +215,9 @@ class Notify(Message):
 	@classmethod
 	def parse(typ, data):
 		pid = ulong_unpack(data)
-		channel, payload, _ = data[4:].split(b'\x00', 2)
+		channel, payload, end = data[4:].split(b'\x00', 2)
+		if end:
+			raise ValueError("notify message had trailing data")
 		return typ(pid, channel, payload)
 
 class ShowOption(Message):
@@ -234,7 +236,10 @@ class ShowOption(Message):
 
 	@classmethod
 	def parse(typ, data):
-		return typ(*(data.split(b'\x00', 2)[0:2]))
+		name, value, end = data.split(b'\x00', 2)
+		if end:
+			raise ValueError("show option message had trailing data")
+		return typ(name, value)
 
 class Complete(StringMessage):
 	"""
@@ -243,10 +248,6 @@ class Complete(StringMessage):
 	type = message_types[b'C'[0]]
 	__slots__ = ()
 
-	@classmethod
-	def parse(typ, data):
-		return typ(data.rstrip(b'\x00'))
-
 	def extract_count(self):
 		"""
 		Extract the last set of digits as an integer.
@@ -469,6 +470,8 @@ class TupleDescriptor(TupleMessage):
 			atts.append((name,) + typ.struct.unpack(data[0:18]))
 			data = data[18:]
 			ca += 1
+		if data:
+			raise ValueError("tuple descriptor had trailing data")
 		return typ(atts)
 
 class Tuple(TupleMessage):
@@ -791,6 +794,8 @@ class Bind(Message):
 		ao = offset + 2
 		offset = ao + (2 * rfc)
 		rformats = unpack(("2s" * rfc), data[ao:offset])
+		if offset != len(data):
+			raise ValueError("bind message had trailing data")
 
 		return typ(name, statement, aformats, args, rformats)
 
@@ -811,6 +816,8 @@ class Execute(Message):
 	@classmethod
 	def parse(typ, data):
 		name, max = data.split(b'\x00', 1)
+		if len(max) != 4:
+			raise ValueError("invalid execute message size")
 		return typ(name, ulong_unpack(max))
 
 class Describe(StringMessage):
@@ -920,6 +927,8 @@ class Function(Message):
 			args.append(att)
 			natts -= 1
 
+		if offset + 2 != len(data):
+			raise ValueError("arguments do not fill the function message")
 		return typ(oid, aformats, args, data[offset:])
 
 class CopyBegin(Message):
-- 
2.43.0


From 296847f535ba195a6c66879630af6d55bac7c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 060/138] fix: terminate the last field of serialized notices

---
 postgresql/protocol/element3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 05be172..0cceb37 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -352,8 +352,8 @@ class Notice(Message, dict):
 	__repr__ = dict_message_repr
 
 	def serialize(self):
-		return b'\x00'.join([
-			k + v for k, v in self.items()
+		return b''.join([
+			k + v + b'\x00' for k, v in self.items()
 			if k and v is not None
 		]) + b'\x00'
 
-- 
2.43.0


From d2bef0d9b59062beff33422e6079aca8d7f25c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 061/138] fix: do not compare and represent CopyDone by a data
 attribute that it does not have

---
 postgresql/protocol/element3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 0cceb37..c68c523 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -989,6 +989,6 @@ class CopyFail(StringMessage):
 
 class CopyDone(EmptyMessage):
 	type = message_types[b'c'[0]]
-	__slots__ = ('data',)
+	__slots__ = ()
 CopyDoneMessage = Message.__new__(CopyDone)
 CopyDone.SingleInstance = CopyDoneMessage
-- 
2.43.0


From 4361e56ea53df8131255f4fa76d2d06a62305150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:09 +0000
Subject: [PATCH 062/138] fix: serialize WireMessage

---
 postgresql/protocol/element3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index c68c523..7c80c14 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -163,7 +163,7 @@ class WireMessage(Message):
 		self.data = typ_data[1]
 
 	def serialize(self):
-		return self[1]
+		return self.data
 
 	@classmethod
 	def parse(typ, data):
-- 
2.43.0


From ec2b48a6875cdb188a6e26adac18843415cdd8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 063/138] fix: compare the fields of notices and startup
 messages

---
 postgresql/protocol/element3.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 7c80c14..9f882fa 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -157,6 +157,9 @@ def dict_message_repr(self):
 		pprint.pformat(dict(self))
 	)
 
+def dict_message_eq(self, ob):
+	return Message.__eq__(self, ob) and dict.__eq__(self, ob)
+
 class WireMessage(Message):
 	def __init__(self, typ_data):
 		self.type = message_types[typ_data[0][0]]
@@ -350,6 +353,8 @@ class Notice(Message, dict):
 	type = message_types[b'N'[0]]
 	__slots__ = ()
 	__repr__ = dict_message_repr
+	__eq__ = dict_message_eq
+	__ne__ = Message.__ne__
 
 	def serialize(self):
 		return b''.join([
@@ -594,6 +599,8 @@ class Startup(Message, dict):
 	packed_version = version.bytes()
 	__slots__ = ()
 	__repr__ = dict_message_repr
+	__eq__ = dict_message_eq
+	__ne__ = Message.__ne__
 
 	def serialize(self):
 		return self.packed_version + b''.join([
-- 
2.43.0


From abc6973ae92e578bf0fcbc24b5510e54112bc281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 064/138] fix: send the number of argument formats, not of
 arguments, with Bind and Function

---
 postgresql/protocol/element3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 9f882fa..e6312c1 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -769,7 +769,7 @@ class Bind(Message):
 		ad = pack_tuple_data(tuple(args))
 		return \
 			self.name + b'\x00' + self.statement + b'\x00' + \
-			ac + b''.join(self.aformats) + ac + ad + \
+			ushort_pack(len(self.aformats)) + b''.join(self.aformats) + ac + ad + \
 			ushort_pack(len(self.rformats)) + b''.join(self.rformats)
 
 	@classmethod
@@ -905,7 +905,7 @@ class Function(Message):
 	def serialize(self):
 		ac = ushort_pack(len(self.arguments))
 		return ulong_pack(self.oid) + \
-			ac + b''.join(self.aformats) + \
+			ushort_pack(len(self.aformats)) + b''.join(self.aformats) + \
 			ac + pack_tuple_data(tuple(self.arguments)) + self.rformat
 
 	@classmethod
-- 
2.43.0


From 9a7f9cc1f079a4f721d5c108e490aaaf43b48fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:30 +0000
Subject: [PATCH 065/138] fix: refuse startup messages that are cut short

---
 postgresql/protocol/element3.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index e6312c1..5a85587 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -616,10 +616,15 @@ class Startup(Message, dict):
 	@classmethod
 	def parse(typ, data):
 		if data[0:4] != typ.packed_version:
-			raise ValueError("invalid version code {1}".format(repr(data[0:4])))
+			raise ValueError("invalid version code {0}".format(repr(data[0:4])))
 		kw = dict()
 		key = None
-		for value in data[4:].split(b'\x00')[:-2]:
+		values = data[4:].split(b'\x00')
+		# pairs of names and values followed by an empty name
+		if len(values) % 2 != 0 or values[-2:] != [b'', b''] \
+		or b'' in values[:-2:2]:
+			raise ValueError("invalid startup message")
+		for value in values[:-2]:
 			if key is None:
 				key = value
 				continue
-- 
2.43.0


From 95693aa9dfb5160d30d2f79beb321c2273f1bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:36 +0000
Subject: [PATCH 066/138] fix: compare the string of Complete and Close
 messages

---
 postgresql/protocol/element3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/protocol/element3.py b/postgresql/protocol/element3.py
index 5a85587..8bf48e4 100644
--- a/postgresql/protocol/element3.py
+++ b/postgresql/protocol/element3.py
@@ -104,6 +104,9 @@ class StringMessage(Message):
 			repr(self.data),
 		)
 
+	def __eq__(self, ob):
+		return Message.__eq__(self, ob) and self.data == ob.data
+
 	def __getitem__(self, i):
 		return self.data.__getitem__(i)
 
-- 
2.43.0


From 5ef6daf410505ca5693976bfc6b8c6cc8366fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 067/138] fix: send parameters without a conversion in the
 string format

---
 postgresql/driver/pq3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6cfff9d..54f7240 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1563,7 +1563,7 @@ class Statement(pg_api.Statement):
 			pack = (typio.resolve(x) or (None,None))[0]
 			packs.append(pack or typio.encode)
 			formats.append(
-				strfmt if x is None else binfmt
+				strfmt if pack is None else binfmt
 			)
 		self._input_io = tuple(packs)
 		self._input_formats = formats
-- 
2.43.0


From d06432a6d1407f047f2dd981fbed62eeedb3e878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 068/138] fix: offsets of time with time zone are west of UTC
 on the wire

---
 postgresql/types/io/stdlib_datetime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/postgresql/types/io/stdlib_datetime.py b/postgresql/types/io/stdlib_datetime.py
index 995e126..60fdd4a 100644
--- a/postgresql/types/io/stdlib_datetime.py
+++ b/postgresql/types/io/stdlib_datetime.py
@@ -184,11 +184,13 @@ def timetz_pack(x,
 ):
 	"""
 	Create a ((seconds, microseconds), timezone) tuple from a `datetime.time`
-	instance.
+	instance. The server counts the seconds of the timezone west of UTC.
 	"""
-	td = x.tzinfo.utcoffset(x)
+	td = x.utcoffset()
+	if td.microseconds:
+		raise ValueError("timetz does not support sub-second offsets")
 	seconds = (td.days * seconds_in_day + td.seconds)
-	return (time_pack(x), seconds)
+	return (time_pack(x), -seconds)
 
 def timetz_unpack(tstz,
 	time_unpack = time_unpack,
@@ -199,7 +201,7 @@ def timetz_unpack(tstz,
 	tuple.
 	"""
 	t = time_unpack(tstz[0])
-	return t.replace(tzinfo = FixedOffset(tstz[1]))
+	return t.replace(tzinfo = FixedOffset(-tstz[1]))
 
 FloatTimes = False
 IntTimes = True
-- 
2.43.0


From 7c2718faf916d754e1d6a1e135496fa6fd8fbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 069/138] fix: keep the seconds of fixed offsets

---
 postgresql/python/datetime.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/postgresql/python/datetime.py b/postgresql/python/datetime.py
index 5844e33..c98c4bf 100644
--- a/postgresql/python/datetime.py
+++ b/postgresql/python/datetime.py
@@ -15,8 +15,7 @@ class FixedOffset(datetime.tzinfo):
 	def __init__(self, offset_in_seconds, tzname = None):
 		self._tzname = tzname
 		self._offset = offset_in_seconds
-		self._offset_in_mins = offset_in_seconds // 60
-		self._td_offset = datetime.timedelta(0, self._offset_in_mins * 60)
+		self._td_offset = datetime.timedelta(0, self._offset)
 		self._dst = datetime.timedelta(0)
 
 	def utcoffset(self, offset_from):
-- 
2.43.0


From 83eceb7e39c789343dc7019c9f7b77921ed24349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 070/138] fix: send and keep the netmask of inet values

---
 postgresql/types/io/lib.py        |  7 +++++--
 postgresql/types/io/pg_network.py | 17 +++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index f9638c7..8e33194 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -276,14 +276,17 @@ def net_pack(triple,
 		6: 3,
 	},
 	len = len,
+	is_cidr = False,
 ):
 	"""
 	net_pack((family, mask, data))
 
-	Pack Postgres' inet/cidr data structure.
+	Pack Postgres' inet/cidr data structure. The mask of hosts is `None`.
 	"""
 	family, mask, data = triple
-	return bytes((fmap[family], mask or 0, 0 if mask is None else 1, len(data))) + data
+	if mask is None:
+		mask = 8 * len(data)
+	return bytes((fmap[family], mask, 1 if is_cidr else 0, len(data))) + data
 
 def net_unpack(data,
 	# Map IP version number to PGSQL src/include/utils/inet.h.
diff --git a/postgresql/types/io/pg_network.py b/postgresql/types/io/pg_network.py
index a74d5e1..9702704 100644
--- a/postgresql/types/io/pg_network.py
+++ b/postgresql/types/io/pg_network.py
@@ -8,17 +8,26 @@ oid_to_type = {
 	CIDROID: ipaddress._BaseNetwork,
 }
 
-def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_address):
+def no_scope(a):
+	if getattr(a, 'scope_id', None) is not None:
+		raise ValueError("addresses with a scope are not supported")
+	return a.packed
+
+def inet_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_interface):
 	a = Constructor(ob)
-	return pack((a.version, None, a.packed))
+	return pack((a.version, a.network.prefixlen, no_scope(a)))
 
 def cidr_pack(ob, pack = lib.net_pack, Constructor = ipaddress.ip_network):
 	a = Constructor(ob)
-	return pack((a.version, a.prefixlen, a.network_address.packed))
+	return pack((a.version, a.prefixlen, no_scope(a.network_address)), is_cidr = True)
 
 def inet_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_address):
 	version, mask, data = unpack(data)
-	return Constructor(data)
+	a = Constructor(data)
+	if mask != a.max_prefixlen:
+		# Keep the netmask.
+		return ipaddress.ip_interface('%s/%d' %(a, mask))
+	return a
 
 def cidr_unpack(data, unpack = lib.net_unpack, Constructor = ipaddress.ip_network):
 	version, mask, data = unpack(data)
-- 
2.43.0


From fe27883769e674450caf5bfbc2e14a238f2138f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 071/138] fix: refuse integers as bytea values

---
 postgresql/types/io/builtins.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/builtins.py b/postgresql/types/io/builtins.py
index 0b180df..9c751d6 100644
--- a/postgresql/types/io/builtins.py
+++ b/postgresql/types/io/builtins.py
@@ -12,9 +12,13 @@ int2_pack, int2_unpack = lib.short_pack, lib.short_unpack
 int4_pack, int4_unpack = lib.long_pack, lib.long_unpack
 int8_pack, int8_unpack = lib.longlong_pack, lib.longlong_unpack
 
-bytea_pack = bytes
+def bytea_pack(x):
+	if isinstance(x, int):
+		# bytes(n) are n zeros.
+		raise TypeError("bytea requires bytes, given an integer")
+	return bytes(x)
 bytea_unpack = bytes
-char_pack = bytes
+char_pack = bytea_pack
 char_unpack = bytes
 
 oid_to_io = {
-- 
2.43.0


From f2757a67b2966cce4a4c9f1aa8ad25cf2e12867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 072/138] fix: round the microseconds of floating-point times

---
 postgresql/types/io/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 8e33194..0fc46f4 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -76,7 +76,10 @@ date_pack, date_unpack = long_pack, long_unpack
 def mktimetuple(ts, floor = floor):
 	'make a pair of (seconds, microseconds) out of the given double'
 	seconds = floor(ts)
-	return (int(seconds), int(1000000 * (ts - seconds)))
+	microseconds = round(1000000 * (ts - seconds))
+	if microseconds == 1000000:
+		return (int(seconds) + 1, 0)
+	return (int(seconds), int(microseconds))
 
 def mktimetuple64(ts, divmod = divmod):
 	'make a pair of (seconds, microseconds) out of the given long'
-- 
2.43.0


From 87b18ff48e2b510e3583dd44232c8514be30e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 073/138] fix: support NaN and infinite numerics

---
 postgresql/types/io/stdlib_decimal.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/io/stdlib_decimal.py b/postgresql/types/io/stdlib_decimal.py
index 3deee38..5b7089b 100644
--- a/postgresql/types/io/stdlib_decimal.py
+++ b/postgresql/types/io/stdlib_decimal.py
@@ -28,6 +28,12 @@ oid_to_type = {
 #  2. digits, sequence of int()'s
 #  3. exponent, digits that fall to the right of the decimal point
 numeric_negative = 16384
+# The signs of the special values, (pack, unpack).
+numeric_special = {
+	'NaN' : -16384,
+	'Infinity' : -12288,
+	'-Infinity' : -4096,
+}
 
 def numeric_pack(x,
 	numeric_digit_length : "number of decimal digits in a numeric digit" = 4,
@@ -38,9 +44,10 @@ def numeric_pack(x,
 ):
 	if not isinstance(x, Decimal):
 		x = Decimal(x)
+	if not x.is_finite():
+		# NaN, and infinity as of version 14. Signalling NaNs are refused.
+		return pack(((0, 0, numeric_special[str(x)], 0), ()))
 	x = x.as_tuple()
-	if x.exponent == 'F':
-		raise ValueError("numeric does not support infinite values")
 
 	# normalize trailing zeros (truncate em')
 	# this is important in order to get the weight and padding correct
@@ -142,12 +149,15 @@ def numeric_convert_digits(d, str = str, int = int):
 		# Python 3.5+ does not like generators raising StopIteration
 		return
 
+numeric_special_signs = {v : k for k, v in numeric_special.items()}
 numeric_signs = {
 	numeric_negative : 1,
 }
 
 def numeric_unpack(x, unpack = lib.numeric_unpack):
 	header, digits = unpack(x)
+	if header[2] in numeric_special_signs:
+		return Decimal(numeric_special_signs[header[2]])
 	npad = (header[3] - ((header[0] - (header[1] + 1)) * 4))
 	return Decimal((
 		numeric_signs.get(header[2], header[2]),
-- 
2.43.0


From f3e89abe20bfe3b218e4105fb2a2e3e6a701d66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 074/138] fix: name the Python type of every column and
 parameter

---
 postgresql/driver/pq3.py              | 7 +++----
 postgresql/types/io/contrib_hstore.py | 5 ++++-
 postgresql/types/io/pg_system.py      | 8 ++++----
 postgresql/types/io/stdlib_uuid.py    | 2 +-
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 54f7240..f38eae4 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -213,9 +213,8 @@ class TypeIO(pg_api.TypeIO):
 			return None
 
 	def type_from_oid(self, oid):
-		if oid in self._cache:
-			typ = self._cache[oid][2]
-		return typ
+		# Types that could not be looked up are strings.
+		return self._cache.get(oid, self.strio)[2]
 
 	def resolve_descriptor(self, desc, index):
 		"""
@@ -496,7 +495,7 @@ class TypeIO(pg_api.TypeIO):
 
 			return process_tuple(column_unpack, data, raise_unpack_tuple_error)
 
-		return (None, _unpack_record)
+		return (None, _unpack_record, tuple)
 
 	def raise_client_error(self, error_message, cause = None, creator = None):
 		m = {
diff --git a/postgresql/types/io/contrib_hstore.py b/postgresql/types/io/contrib_hstore.py
index 9279863..613d006 100644
--- a/postgresql/types/io/contrib_hstore.py
+++ b/postgresql/types/io/contrib_hstore.py
@@ -43,6 +43,9 @@ def hstore_factory(oid, typio,
 
 	return (pack_hstore, unpack_hstore)
 
+def hstore_io_factory(oid, typio):
+	return hstore_factory(oid, typio) + (dict,)
+
 oid_to_io = {
-	'contrib_hstore' : hstore_factory,
+	'contrib_hstore' : hstore_io_factory,
 }
diff --git a/postgresql/types/io/pg_system.py b/postgresql/types/io/pg_system.py
index 70ce964..efc6503 100644
--- a/postgresql/types/io/pg_system.py
+++ b/postgresql/types/io/pg_system.py
@@ -2,9 +2,9 @@ from ...types import OIDOID, XIDOID, CIDOID, TIDOID
 from . import lib
 
 oid_to_io = {
-	OIDOID : (lib.oid_pack, lib.oid_unpack),
-	XIDOID : (lib.xid_pack, lib.xid_unpack),
-	CIDOID : (lib.cid_pack, lib.cid_unpack),
-	TIDOID : (lib.tid_pack, lib.tid_unpack),
+	OIDOID : (lib.oid_pack, lib.oid_unpack, int),
+	XIDOID : (lib.xid_pack, lib.xid_unpack, int),
+	CIDOID : (lib.cid_pack, lib.cid_unpack, int),
+	TIDOID : (lib.tid_pack, lib.tid_unpack, tuple),
 	#ACLITEMOID : (aclitem_pack, aclitem_unpack),
 }
diff --git a/postgresql/types/io/stdlib_uuid.py b/postgresql/types/io/stdlib_uuid.py
index 3fc33b9..6b8879a 100644
--- a/postgresql/types/io/stdlib_uuid.py
+++ b/postgresql/types/io/stdlib_uuid.py
@@ -10,5 +10,5 @@ def uuid_unpack(x, UUID = uuid.UUID):
 	return UUID(bytes=x)
 
 oid_to_io = {
-	UUIDOID : (uuid_pack, uuid_unpack),
+	UUIDOID : (uuid_pack, uuid_unpack, uuid.UUID),
 }
-- 
2.43.0


From 6a582dcbfbae1076cdd4f856696dbcda16f014ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 075/138] fix: refuse nested arrays whose axes are not all
 lists

---
 postgresql/types/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 12b2543..25e0694 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -265,6 +265,9 @@ class Array(object):
 		else:
 			# go deeper
 			for x in hier:
+				if x.__class__ is not list:
+					# only lists define the boundaries
+					raise ValueError("list expected at depth " + str(ndepth))
 				r.extend(typ.unroll_nest(x, dimensions, ndepth))
 		return r
 
-- 
2.43.0


From f76e045e9f0e03b30b18092ad6bb406e345b896c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 076/138] fix: first() names the column that could not be
 unpacked

---
 postgresql/driver/pq3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index f38eae4..263d433 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1711,7 +1711,10 @@ class Statement(pg_api.Statement):
 				if xt[0] is None:
 					return None
 				io = self._output_io[0] or self.database.typio.decode
-				return io(xt[0])
+				try:
+					return io(xt[0])
+				except Exception as cause:
+					self._raise_column_tuple_error(cause, self._output_io, xt, 0)
 		else:
 			##
 			# It doesn't return rows, so return a count.
-- 
2.43.0


From c6b87e48e9885640a95f9229439443145d239de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 077/138] fix: refuse malformed MAC addresses

---
 postgresql/types/io/lib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/lib.py b/postgresql/types/io/lib.py
index 0fc46f4..fee1108 100644
--- a/postgresql/types/io/lib.py
+++ b/postgresql/types/io/lib.py
@@ -334,7 +334,10 @@ def macaddr_pack(data, bytes = bytes):
 		mac_parts = [data[:2], data[2:4], data[4:6], data[6:8], data[8:10], data[10:]]
 	else:
 		raise ValueError('data string cannot be parsed to bytes')
-	if len(mac_parts) != 6 and len(mac_parts[-1]) != 2:
+	if len(mac_parts) != 6 or any(
+		len(p) not in (1, 2) or not set(p) <= set('0123456789abcdefABCDEF')
+		for p in mac_parts
+	):
 		raise ValueError('data string cannot be parsed to bytes')
 	return bytes([int(p, 16) for p in mac_parts])
 
-- 
2.43.0


From 83fea03190967fc78e2ebbe03846b49d89b458a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:03 +0000
Subject: [PATCH 078/138] fix: keep the text before the first element of XML
 content

---
 postgresql/types/io/stdlib_xml_etree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/io/stdlib_xml_etree.py b/postgresql/types/io/stdlib_xml_etree.py
index 52d56f7..af0790d 100644
--- a/postgresql/types/io/stdlib_xml_etree.py
+++ b/postgresql/types/io/stdlib_xml_etree.py
@@ -5,6 +5,7 @@ try:
 	import xml.etree.cElementTree as etree
 except ImportError:
 	import xml.etree.ElementTree as etree
+from xml.sax.saxutils import escape
 from .. import XMLOID
 from ...python.functools import Composition as compose
 
@@ -17,7 +18,11 @@ def xml_unpack(xmldata, XML = etree.XML):
 		return XML(xmldata)
 	except Exception:
 		# try it again, but return the sequence of children.
-		return tuple(XML('<x>' + xmldata + '</x>'))
+		x = XML('<x>' + xmldata + '</x>')
+		if x.text and x.text.strip():
+			# the text before the first element
+			return (escape(x.text),) + tuple(x)
+		return tuple(x)
 
 if not hasattr(etree, 'tostringlist'):
 	# Python 3.1 support.
-- 
2.43.0


From 61f3d08e9fdf31c0c5038431a6d72d90f20e716c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 079/138] fix: read XML content that has a declaration

---
 postgresql/types/io/stdlib_xml_etree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/types/io/stdlib_xml_etree.py b/postgresql/types/io/stdlib_xml_etree.py
index af0790d..79f4f9d 100644
--- a/postgresql/types/io/stdlib_xml_etree.py
+++ b/postgresql/types/io/stdlib_xml_etree.py
@@ -18,6 +18,10 @@ def xml_unpack(xmldata, XML = etree.XML):
 		return XML(xmldata)
 	except Exception:
 		# try it again, but return the sequence of children.
+		if xmldata[:5] == '<?xml' and xmldata[5:6].isspace():
+			# A declaration is only allowed at the start. The server sends one
+			# when the encoding is not UTF-8.
+			xmldata = xmldata.partition('?>')[2]
 		x = XML('<x>' + xmldata + '</x>')
 		if x.text and x.text.strip():
 			# the text before the first element
-- 
2.43.0


From da6fada60b90125afd238c5f8551800a3852a092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 080/138] fix: parse versions that are followed by a
 description

---
 postgresql/installation.py  | 2 +-
 postgresql/versionstring.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 5856816..16ab957 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -209,7 +209,7 @@ class Installation(pg_api.Installation):
 		"""
 		self.info = info
 		self.version = self.info["version"]
-		self.type, vs = self.version.split()
+		self.type, vs = self.version.split(None, 1)
 		self.version_info = versionstring.normalize(versionstring.split(vs))
 		self.configure_options = dict(
 			parse_configure_options(self.info.get('configure', ''))
diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 04c065a..9e15d4f 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -13,7 +13,8 @@ def split(vstr: str) -> tuple:
 	Split a PostgreSQL version string into a tuple.
 	(major, minor, patch, ..., state_class, state_level)
 	"""
-	v = vstr.strip().split('.')
+	# Builds of distributions follow the version with a description.
+	v = vstr.strip().partition(' ')[0].split('.')
 
 	# Get rid of the numbers around the state_class (beta,a,dev,alpha, etc)
 	state_class = v[-1].strip('0123456789')
-- 
2.43.0


From b8dd8e40055188a860b76f1d7602fb2ccca71660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:20 +0000
Subject: [PATCH 081/138] fix: unsplit versions whose state has no level

---
 postgresql/versionstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index 9e15d4f..d2eeea6 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -43,7 +43,7 @@ def unsplit(vtup: tuple) -> str:
 	"""
 	svtup = [str(x) for x in vtup[:-2] if x is not None]
 	state_class, state_level = vtup[-2:]
-	return '.'.join(svtup) + ('' if state_class is None else state_class + str(state_level))
+	return '.'.join(svtup) + ('' if state_class is None else state_class + ('' if state_level is None else str(state_level)))
 
 def normalize(split_version: tuple) -> tuple:
 	"""
-- 
2.43.0


From 7a9f55935fa2272af5de78e1f500e5e5e52a37d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:33 +0000
Subject: [PATCH 082/138] fix: keep nested advisory locks until the last
 release

---
 postgresql/alock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/alock.py b/postgresql/alock.py
index cdf413d..28716cc 100644
--- a/postgresql/alock.py
+++ b/postgresql/alock.py
@@ -104,7 +104,7 @@ class ALock(element.Element):
 		"""
 		if self._count < 1:
 			raise RuntimeError("cannot release un-acquired lock")
-		if not self.database.closed and self._count > 0:
+		if not self.database.closed and self._count == 1:
 			# if the database has been closed, or the count will
 			# remain non-zero, there is no need to release.
 			self._release(reversed(self._id_pairs), reversed(self._ids))
-- 
2.43.0


From cc1db04be4bd19760538db8c30fdb12f8652f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 083/138] fix: quote the channels to listen to

---
 postgresql/driver/pq3.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 263d433..6d8dfdd 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2742,7 +2742,7 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; LISTEN ' + x.replace('"', '""')
+			qstr += '; LISTEN "' + x.replace('"', '""') + '"'
 		return self.execute(qstr)
 
 	def unlisten(self, *channels, len = len):
@@ -2751,7 +2751,11 @@ class Connection(pg_api.Connection):
 			# XXX: hardcoded identifier length?
 			if len(x) > 63:
 				raise ValueError("channel name too long: " + x)
-			qstr += '; UNLISTEN ' + x.replace('"', '""')
+			if x == '*':
+				# All of them.
+				qstr += '; UNLISTEN *'
+			else:
+				qstr += '; UNLISTEN "' + x.replace('"', '""') + '"'
 		return self.execute(qstr)
 
 	def iternotifies(self, timeout = None):
-- 
2.43.0


From 026028d261ada8fec8a9a8680c2dd6669488a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 084/138] fix: check the wires when polling for notifications

---
 postgresql/notifyman.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index cc6ef2c..304226c 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -76,6 +76,9 @@ class NotificationManager(object):
 				self.connections.remove(db)
 				self.garbage.add(db)
 		check = self.connections - self.garbage
+		if self.timeout == 0:
+			# Requests under way receive their messages themselves.
+			check = {db for db in check if db.pq.xact is None}
 
 		r, w, x = select(check, (), check, max_duration)
 		# Make sure the connection's _notifies get filled.
@@ -195,7 +198,9 @@ class NotificationManager(object):
 		return self
 
 	def __next__(self, time = time):
-		checked_wire = True
+		# When polling, the wires must be checked before the first
+		# StopIteration; it never waits.
+		checked_wire = self.timeout != 0
 		# Loop until NOTIFY received or timeout.
 		while True:
 			if self.incoming is not None:
-- 
2.43.0


From 5af83efa288d25de38637dbb1398769b75275891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:42 +0000
Subject: [PATCH 085/138] fix: deliver the notifications received before a
 connection failed

---
 postgresql/notifyman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 304226c..025e861 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -119,7 +119,8 @@ class NotificationManager(object):
 
 	# Check the connection's _notifies list; just scan everything.
 	def _pull_from_connections(self):
-		for db in self.connections:
+		# The ones that failed may have received some beforehand.
+		for db in self.connections | self.garbage:
 			if not db._notifies:
 				# nothing queued up, look at the next connection
 				continue
-- 
2.43.0


From 92e05c9a2c6071145326bdaa3b0af62edb0a11c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 086/138] fix: notice notifications received with the end of a
 response

---
 postgresql/notifyman.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postgresql/notifyman.py b/postgresql/notifyman.py
index 025e861..f655ab2 100644
--- a/postgresql/notifyman.py
+++ b/postgresql/notifyman.py
@@ -80,9 +80,18 @@ class NotificationManager(object):
 			# Requests under way receive their messages themselves.
 			check = {db for db in check if db.pq.xact is None}
 
+		# Messages that were received along with the end of a response
+		# are waiting in the connection; select() knows nothing of them.
+		received = {
+			db for db in check
+			if db.pq.read or db.pq.message_buffer.has_message()
+		}
+		if received:
+			max_duration = 0
+
 		r, w, x = select(check, (), check, max_duration)
 		# Make sure the connection's _notifies get filled.
-		for db in r:
+		for db in received.union(r):
 			# Collect any pending events.
 			try:
 				# Even if db is in a failed transaction, this
-- 
2.43.0


From 06f34d7650591b9e3c1940de9cdbc278f1acbe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:46 +0000
Subject: [PATCH 087/138] fix: keep the connection when a warning arrives for a
 statement being prepared

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 6d8dfdd..ec6cc42 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1311,6 +1311,10 @@ class Statement(pg_api.Statement):
 				except:
 					import traceback
 					yield ('LINE', traceback.format_exc(chain=False))
+		if self.closed is None:
+			# Still being prepared. Asking for what is not known yet
+			# would interfere with the transaction in progress.
+			return
 		spt = self.sql_parameter_types
 		if spt is not None:
 			yield ('sql_parameter_types', spt)
-- 
2.43.0


From bbade8e20acc5cbd56197f0b62ea98c3b64826dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:48 +0000
Subject: [PATCH 088/138] fix: make timestamps from ticks without the day of
 the week

The seventh field of localtime() is not the number of microseconds.
---
 postgresql/driver/dbapi20.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index dafd49a..4a54cf6 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -58,7 +58,7 @@ Time = datetime.time
 Timestamp = datetime.datetime
 DateFromTicks = lambda x: Date(*time.localtime(x)[:3])
 TimeFromTicks = lambda x: Time(*time.localtime(x)[3:6])
-TimestampFromTicks = lambda x: Timestamp(*time.localtime(x)[:7])
+TimestampFromTicks = lambda x: Timestamp(*time.localtime(x)[:6])
 
 def dbapi_type(typid):
 	if typid in (
-- 
2.43.0


From bb307d2bd2605d1ec3775c0c6d00c088f439d3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:48 +0000
Subject: [PATCH 089/138] fix: start a transaction when a DB-API commit failed

Statements executed after a failed COMMIT were committed one by one.
---
 postgresql/driver/dbapi20.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 4a54cf6..4c5df97 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -383,9 +383,13 @@ class Connection(Connection):
 				},
 				creator = self
 			)
-		self._xact.commit()
-		self._xact = self.xact()
-		self._xact.start()
+		try:
+			self._xact.commit()
+		finally:
+			# When COMMIT fails, the transaction is over nevertheless.
+			if not self.closed and self.pq.state == b'I':
+				self._xact = self.xact()
+				self._xact.start()
 
 	def rollback(self):
 		if self._xact is None:
-- 
2.43.0


From 2bb5c5d867afcb0806881760e3977069b32e52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:57 +0000
Subject: [PATCH 090/138] fix: unescape percent signs wherever they are in a
 DB-API query

The portions of a query without a placeholder, before or behind a quoted
portion, kept their doubled percent signs.
---
 postgresql/driver/dbapi20.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/postgresql/driver/dbapi20.py b/postgresql/driver/dbapi20.py
index 4c5df97..7f397ef 100644
--- a/postgresql/driver/dbapi20.py
+++ b/postgresql/driver/dbapi20.py
@@ -216,6 +216,7 @@ class Cursor(object):
 		kmap = {}
 		transformer = tuple
 		rparts = []
+		plain = []
 		for part in parts:
 			if part.__class__ is ().__class__:
 				# skip quoted portions
@@ -245,6 +246,12 @@ class Cursor(object):
 				else:
 					# no parameters identified in string
 					rparts.append(part)
+					plain.append(len(rparts) - 1)
+
+		if keys or count:
+			# The escapes of the portions without parameters.
+			for i in plain:
+				rparts[i] = rparts[i].replace('%%', '%')
 
 		if keys:
 			if count:
-- 
2.43.0


From 6f58bf140817a607e74eef2fec97d9267e3a7992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 091/138] fix: index multidimensional arrays from the end and
 raise outside of them

---
 postgresql/types/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 25e0694..7468ccc 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -533,8 +533,10 @@ class Array(object):
 		else:
 			# get a sub-array
 			l = len(self)
-			if item > l:
-				raise IndexError("index {0} is out of range".format(l))
+			if item < 0:
+				item = item + l
+			if not 0 <= item < l:
+				raise IndexError("index is out of range {0}".format(l))
 			return self.__class__.from_elements(
 				self._elements[self._weight*item:self._weight*(item+1)],
 				lowerbounds = self.lowerbounds[1:],
-- 
2.43.0


From 642a020d4eb2a8e727d69594d9701276c7ed512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 092/138] fix: derive the upper bound of an array from its
 lower bound

---
 postgresql/types/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 7468ccc..469af41 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -357,7 +357,8 @@ class Array(object):
 				upperbounds = ()
 				dimensions = ()
 			else:
-				upperbounds = (nelements,)
+				lb = lowerbounds[0] if lowerbounds else 1
+				upperbounds = (lb + nelements - 1,)
 				dimensions = (nelements,)
 
 		# consistency..
-- 
2.43.0


From 863e6a3377e7267a126169d457d6d9d5f06afa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 093/138] fix: no element for a wrong number of array
 subscripts

---
 postgresql/types/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 469af41..cb53e2c 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -469,6 +469,8 @@ class Array(object):
 		Like `get_element`, but with SQL indirection semantics. Notably, returns
 		`None` on IndexError.
 		"""
+		if len(address) != len(self.lowerbounds):
+			return None
 		try:
 			a = [a - lb for (a, lb) in zip(address, self.lowerbounds)]
 			# get_element accepts negatives, so check the converted sequence.
-- 
2.43.0


From 04456245d7a4823d3916f91cd6495493148dfc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 094/138] fix: get the first item of a row from the end

---
 postgresql/types/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index cb53e2c..1c481cf 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -583,7 +583,7 @@ class Row(tuple):
 	def get(self, i, gi = tuple.__getitem__, len = len):
 		if type(i) is int:
 			l = len(self)
-			if -l < i < l:
+			if -l <= i < l:
 				return gi(self, i)
 		else:
 			idx = self.keymap.get(i)
-- 
2.43.0


From 5d4fc3f44d259e2b845fac5ee47034fbe0f782c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 095/138] fix: pair the items of a row whose columns share a
 name

---
 postgresql/types/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/types/__init__.py b/postgresql/types/__init__.py
index 1c481cf..657cc7b 100644
--- a/postgresql/types/__init__.py
+++ b/postgresql/types/__init__.py
@@ -598,7 +598,8 @@ class Row(tuple):
 		return iter(self)
 
 	def items(self):
-		return zip(iter(self.column_names), iter(self))
+		gi = tuple.__getitem__
+		return ((k, gi(self, i)) for k, i in sorted(self.keymap.items(), key = get1))
 
 	def index_from_key(self, key):
 		return self.keymap.get(key)
-- 
2.43.0


From 383affd90a8a15795bb09ce496d50bf7a626a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 096/138] fix: get single bits of bit strings

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 018b762..d30e37d 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -63,7 +63,7 @@ class Varbit(object):
 			raise IndexError("bit index %d out of range" %(bitoffset,))
 
 		byte, bitofbyte = divmod(idx, 8)
-		if ord(self.data[byte]) & (1 << (7 - bitofbyte)):
+		if self.data[byte] & (1 << (7 - bitofbyte)):
 			return OneBit
 		else:
 			return ZeroBit
-- 
2.43.0


From 790abc6eff6d7bc88a155fba89e823cb9e9a9180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 097/138] fix: compare bit strings with anything

---
 postgresql/types/bitwise.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index d30e37d..adc45ee 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -41,8 +41,11 @@ class Varbit(object):
 		)
 
 	def __eq__(self, ob):
-		if not isinstance(ob, type(self)):
-			ob = type(self)(ob)
+		if not isinstance(ob, Varbit):
+			try:
+				ob = type(self)(ob)
+			except (TypeError, ValueError):
+				return NotImplemented
 		return ob.bits == self.bits and ob.data == self.data
 
 	def __len__(self):
-- 
2.43.0


From d5d070f899ff2e040b46fec14f282b1169a22af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 098/138] fix: slice single bits

---
 postgresql/types/bitwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index adc45ee..6bb4902 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -73,7 +73,7 @@ class Varbit(object):
 
 	def __getitem__(self, item):
 		if isinstance(item, slice):
-			return type(self)(str(self)[item])
+			return Varbit(str(self)[item])
 		else:
 			return self.getbit(item)
 
-- 
2.43.0


From 5faed0aa28b4751916876a959a2c697b734afc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 099/138] fix: refuse bit strings with other characters than 0
 and 1

---
 postgresql/types/bitwise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 6bb4902..9cfe102 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -18,6 +18,8 @@ class Varbit(object):
 			return typ.from_bits(len(data) * 8, data)
 		# str(), eg '00101100'
 		bits = len(data)
+		if not {'0', '1'}.issuperset(data):
+			raise ValueError('bit strings consist of 0 and 1, not %r' %(data,))
 		nbytes, remain = divmod(bits, 8)
 		bdata = [bytes((int(data[x:x+8], 2),)) for x in range(0, bits - remain, 8)]
 		if remain != 0:
-- 
2.43.0


From 3153834884e1d5c13a4b1cdb012fd754257a9055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 100/138] fix: bit strings are true when a bit is set

---
 postgresql/types/bitwise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/bitwise.py b/postgresql/types/bitwise.py
index 9cfe102..4be5023 100644
--- a/postgresql/types/bitwise.py
+++ b/postgresql/types/bitwise.py
@@ -79,7 +79,7 @@ class Varbit(object):
 		else:
 			return self.getbit(item)
 
-	def __nonzero__(self):
+	def __bool__(self):
 		for x in self.data:
 			if x != 0:
 				return True
@@ -94,7 +94,7 @@ class Bit(Varbit):
 
 		raise ValueError('unknown bit value %r, 0 or 1' %(ob,))
 
-	def __nonzero__(self):
+	def __bool__(self):
 		return self is OneBit
 
 	def __str__(self):
-- 
2.43.0


From b06034fc09ca5a245ea25531c9fc8bf5e0bc0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 101/138] fix: divide points

---
 postgresql/types/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index ba996e5..e82f995 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -39,12 +39,12 @@ class Point(tuple):
 		ry = (self[0] * wy) + (self[1] * wx)
 		return type(self)((rx, ry))
 
-	def __div__(self, ob):
+	def __truediv__(self, ob):
 		sx, sy = self
 		wx, wy = ob
 		div = (wx * wx) + (wy * wy)
 		rx = ((sx * wx) + (sy * wy)) / div
-		ry = ((wx * sy) + (wy * sx)) / div
+		ry = ((wx * sy) - (wy * sx)) / div
 		return type(self)((rx, ry))
 
 	def distance(self, ob, sqrt = math.sqrt):
-- 
2.43.0


From 5ba3b07f9d71397f71b3b97b894471b442b7f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 102/138] fix: tell parallel and perpendicular segments that
 are vertical

---
 postgresql/types/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index e82f995..6e58c61 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -93,10 +93,12 @@ class Lseg(tuple):
 		)
 
 	def parallel(self, ob):
-		return self.slope == type(self)(ob).slope
+		(ax, ay), (bx, by) = [y - x for x, y in (self, type(self)(ob))]
+		return ax * by == ay * bx
 
 	def perpendicular(self, ob):
-		return (self.slope / type(self)(ob).slope) == -1.0
+		(ax, ay), (bx, by) = [y - x for x, y in (self, type(self)(ob))]
+		return ax * bx == -(ay * by)
 
 class Box(tuple):
 	"""
-- 
2.43.0


From dcc0d531d7e2cb67131d15dc746b43bafd03d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 103/138] fix: represent segments as the expression that makes
 them

---
 postgresql/types/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/types/geometry.py b/postgresql/types/geometry.py
index 6e58c61..29176c7 100644
--- a/postgresql/types/geometry.py
+++ b/postgresql/types/geometry.py
@@ -77,7 +77,7 @@ class Lseg(tuple):
 
 	def __repr__(self):
 		# Avoid the point representation
-		return '%s.%s(%s, %s)' %(
+		return '%s.%s((%s, %s))' %(
 			type(self).__module__,
 			type(self).__name__,
 			tuple.__repr__(self[0]),
-- 
2.43.0


From 4358953d9032f8add6d303f596db2a145b572779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 104/138] fix: keep only the settings that the server reports

Others change with rollbacks and with SET commands, and nothing tells.
---
 postgresql/driver/pq3.py  | 38 +++++++++++++++++++++-----------------
 postgresql/lib/libsys.sql |  3 +++
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index ec6cc42..c6aca9b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1979,6 +1979,7 @@ class Settings(pg_api.Settings):
 
 	def __init__(self, database):
 		self.database = database
+		# Only what the server reports: it tells when one of these changes.
 		self.cache = {}
 
 	def _e_metas(self):
@@ -1995,21 +1996,24 @@ class Settings(pg_api.Settings):
 			if r:
 				v = r[0][0]
 			else:
-				raise KeyError(i)
+				v = self._get_custom(i)
+				if v is None:
+					raise KeyError(i)
 		return v
 
+	def _get_custom(self, i):
+		# Not in pg_settings.
+		if '.' in i and self.database.version_info[:2] >= (9,6):
+			return self.database.sys.setting_get_custom(i)
+		return None
+
 	def __setitem__(self, i, v):
-		cv = self.cache.get(i)
-		if cv == v:
-			return
-		setas = self.database.sys.setting_set(i, v)
-		self.cache[i] = setas
+		self.database.sys.setting_set(i, v)
 
 	def __delitem__(self, k):
 		self.database.execute(
 			'RESET "' + k.replace('"', '""') + '"'
 		)
-		self.cache.pop(k, None)
 
 	def __len__(self):
 		return self.database.sys.setting_len()
@@ -2037,14 +2041,10 @@ class Settings(pg_api.Settings):
 		if k in self.cache:
 			return self.cache[k]
 
-		db = self.database
-		r = self.database.sys.setting_get(k)
-		if r:
-			v = r[0][0]
-			self.cache[k] = v
-		else:
-			v = alt
-		return v
+		try:
+			return self[k]
+		except KeyError:
+			return alt
 
 	def getset(self, keys):
 		setmap = {}
@@ -2058,9 +2058,13 @@ class Settings(pg_api.Settings):
 
 		if rkeys:
 			r = self.database.sys.setting_mget(rkeys)
-			self.cache.update(r)
 			setmap.update(r)
 			rem = set(rkeys) - set([x['name'] for x in r])
+			for k in list(rem):
+				v = self._get_custom(k)
+				if v is not None:
+					setmap[k] = v
+					rem.discard(k)
 			if rem:
 				raise KeyError(rem)
 		return setmap
@@ -2077,7 +2081,7 @@ class Settings(pg_api.Settings):
 
 	def update(self, d):
 		kvl = [list(x) for x in dict(d).items()]
-		self.cache.update(self.database.sys.setting_update(kvl))
+		self.database.sys.setting_update(kvl)
 
 	def _notify(self, msg):
 		subs = getattr(self, '_subscriptions', {})
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index e0bcc0b..d99869e 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -130,6 +130,9 @@ SELECT statement FROM pg_catalog.pg_prepared_statements WHERE name = $1
 [setting_get]
 SELECT setting FROM pg_catalog.pg_settings WHERE name = $1
 
+[setting_get_custom::first]
+SELECT pg_catalog.current_setting($1, true)
+
 [setting_set::first]
 SELECT pg_catalog.set_config($1, $2, false)
 
-- 
2.43.0


From 884824dd9f2b4a80121c798c370f63e22eaf38e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 105/138] fix: find settings whatever the case of their names

---
 postgresql/driver/pq3.py  | 10 +++++++---
 postgresql/lib/libsys.sql |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index c6aca9b..362e20b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2057,9 +2057,13 @@ class Settings(pg_api.Settings):
 				rkeys.append(k)
 
 		if rkeys:
-			r = self.database.sys.setting_mget(rkeys)
-			setmap.update(r)
-			rem = set(rkeys) - set([x['name'] for x in r])
+			# The names of settings are case insensitive.
+			r = dict([
+				(n.lower(), v) for n, v in
+				self.database.sys.setting_mget([k.lower() for k in rkeys])
+			])
+			setmap.update([(k, r[k.lower()]) for k in rkeys if k.lower() in r])
+			rem = set(rkeys) - set(setmap)
 			for k in list(rem):
 				v = self._get_custom(k)
 				if v is not None:
diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index d99869e..f10fdb5 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -128,7 +128,7 @@ SELECT TRUE FROM pg_catalog.pg_prepared_xacts WHERE gid::text = $1
 SELECT statement FROM pg_catalog.pg_prepared_statements WHERE name = $1
 
 [setting_get]
-SELECT setting FROM pg_catalog.pg_settings WHERE name = $1
+SELECT setting FROM pg_catalog.pg_settings WHERE lower(name) = lower($1)
 
 [setting_get_custom::first]
 SELECT pg_catalog.current_setting($1, true)
@@ -143,7 +143,7 @@ SELECT count(*) FROM pg_catalog.pg_settings
 SELECT name, setting FROM pg_catalog.pg_settings WHERE name = $1
 
 [setting_mget]
-SELECT name, setting FROM pg_catalog.pg_settings WHERE name = ANY ($1)
+SELECT name, setting FROM pg_catalog.pg_settings WHERE lower(name) = ANY ($1)
 
 [setting_keys]
 SELECT name FROM pg_catalog.pg_settings ORDER BY name
-- 
2.43.0


From e4cb1a47da8bef170d05d36bec7e158695fd1d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 106/138] fix: empty and reset the search path of a connection

---
 postgresql/driver/pq3.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 362e20b..1f0d702 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2023,16 +2023,14 @@ class Settings(pg_api.Settings):
 
 	def path():
 		def fget(self):
-			return pg_str.split_ident(self["search_path"])
+			path = self["search_path"]
+			return pg_str.split_ident(path) if path.strip() else []
 		def fset(self, value):
 			self['search_path'] = ','.join([
 				'"%s"' %(x.replace('"', '""'),) for x in value
 			])
 		def fdel(self):
-			if self.database.connector.path is not None:
-				self.path = self.database.connector.path
-			else:
-				self.database.execute("RESET search_path")
+			del self["search_path"]
 		doc = 'structured search_path interface'
 		return locals()
 	path = property(**path())
-- 
2.43.0


From 6abeea5802e3f13381e0eab213e1b9d88ee16f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 107/138] fix: keep the exception that leaves a settings block
 in a failed transaction

---
 postgresql/driver/pq3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1f0d702..a0e155d 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1972,6 +1972,10 @@ class SettingsCM(object):
 		self.database.settings.update(self.settings_to_set)
 
 	def __exit__(self, typ, val, tb):
+		if typ is not None and (self.database.closed or self.database.pq.state == b'E'):
+			# Nothing can be set, and the rollback of the failed transaction
+			# will do it. Don't hide the exception.
+			return
 		self.database.settings.update(self.stored_settings)
 
 class Settings(pg_api.Settings):
-- 
2.43.0


From d8e6709437b4a2286ca7248fee8f301fc583efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 108/138] fix: note a reported setting when a subscriber fails

---
 postgresql/driver/pq3.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index a0e155d..1109a0b 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -2094,12 +2094,11 @@ class Settings(pg_api.Settings):
 		d = self.database.typio._decode
 		key = d(msg.name)[0]
 		val = d(msg.value)[0]
-		for x in subs.get(key, ()):
-			x(self.database, key, val)
-		if None in subs:
-			for x in subs[None]:
+		try:
+			for x in list(subs.get(key, ())) + list(subs.get(None, ())):
 				x(self.database, key, val)
-		self.cache[key] = val
+		finally:
+			self.cache[key] = val
 
 	def subscribe(self, key, callback):
 		"""
-- 
2.43.0


From ce9ee94203758a858e87bdd59b501c18e8dbfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 109/138] fix: keep the preface of a library as it is

The preface is free-form; a line of it that looks like a reference to a
symbol kept the library from being loaded (TypeError).
---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 1307a3b..3115e45 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -218,7 +218,7 @@ class ILF(SymbolCollection):
 				blocks.append((curid, curblock))
 				curid = line
 				curblock = []
-			elif line.startswith('*[') and ']' in line:
+			elif curid is not None and line.startswith('*[') and ']' in line:
 				ref, rest = line.split(']', 1)
 				# strip the leading '*['
 				ref = ref[2:]
-- 
2.43.0


From 575190b863e9f15ef539c2f04c1350b79e617fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 110/138] fix: name the attribute that a category cannot bind

Binding a library to a name that is taken raised NameError.
---
 postgresql/lib/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 3115e45..7e26a4a 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -427,7 +427,7 @@ class Category(pg_api.Category):
 			B = Binding(database, l)
 			for n in names:
 				if hasattr(database, n):
-					raise AttributeError("attribute already exists: " + name)
+					raise AttributeError("attribute already exists: " + n)
 				setattr(database, n, B)
 
 def find_libsql(libname, paths, prefix = 'lib', suffix = '.sql'):
-- 
2.43.0


From 7c5a2cb2dffa2431b22fc9c0caf82d634ddb1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:26 +0000
Subject: [PATCH 111/138] fix: execute constant symbols once when their result
 is None

A constant whose statement gives no row was executed again each time it
was read.
---
 postgresql/lib/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/postgresql/lib/__init__.py b/postgresql/lib/__init__.py
index 7e26a4a..7804e9b 100644
--- a/postgresql/lib/__init__.py
+++ b/postgresql/lib/__init__.py
@@ -358,8 +358,9 @@ class Binding(object):
 		db = d['__database__']
 		lib = d['__symbol_library__']
 
-		bs = s.get(name)
-		if bs is None:
+		try:
+			bs = s[name]
+		except KeyError:
 			# No symbol cached with that name.
 			# Everything is crammed in here because
 			# we do *not* want methods on this object.
-- 
2.43.0


From b32669be6ca87a09cd0a042904e01d57dd736d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 112/138] fix: call procedures with keyword arguments

---
 postgresql/driver/pq3.py | 42 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 1109a0b..42b0c82 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1883,23 +1883,24 @@ class StoredProcedure(pg_api.StoredProcedure):
 
 	def __call__(self, *args, **kw):
 		if kw:
-			input = []
-			argiter = iter(args)
-			try:
-				word_idx = [(kw[k], self._input_attmap[k]) for k in kw]
-			except KeyError as k:
-				raise TypeError("%s got unexpected keyword argument %r" %(
-						self.name, k.message
+			for k in kw:
+				if k not in self._input_attmap:
+					raise TypeError("%s got unexpected keyword argument %r" %(
+							self.name, k
+						)
+					)
+			argc = self._input_count
+			if len(args) + len(kw) != argc:
+				raise TypeError("%s requires %d arguments, given %d" %(
+						self.name, argc, len(args) + len(kw)
 					)
 				)
-			word_idx.sort(key = get1)
-			current_word = word_idx.pop(0)
-			for x in range(argc):
-				if x == current_word[1]:
-					input.append(current_word[0])
-					current_word = word_idx.pop(0)
-				else:
-					input.append(argiter.next())
+			words = {self._input_attmap[k]: v for k, v in kw.items()}
+			argiter = iter(args)
+			input = [
+				words[x] if x in words else next(argiter)
+				for x in range(argc)
+			]
 		else:
 			input = args
 
@@ -1930,14 +1931,21 @@ class StoredProcedure(pg_api.StoredProcedure):
 		self.oid = proctup[0]
 		self.name = proctup["proname"]
 
+		proargs = proctup['proargtypes']
+		self._input_count = len(proargs)
 		self._input_attmap = {}
 		argnames = proctup.get('proargnames') or ()
+		argmodes = proctup.get('proargmodes')
+		if argmodes is not None:
+			# Only the names of the arguments that are given.
+			argnames = [
+				an for an, mode in zip(argnames, argmodes) if mode in (b'i', b'b', b'v')
+			]
 		for x in range(len(argnames)):
 			an = argnames[x]
-			if an is not None:
+			if an:
 				self._input_attmap[an] = x
 
-		proargs = proctup['proargtypes']
 		for x in proargs:
 			# get metadata filled out.
 			database.typio.resolve(x)
-- 
2.43.0


From e5442a3905d6b5d39bdc4dce52f14b148eaf5023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 113/138] fix: allow arguments of procedures to be named self

---
 postgresql/driver/pq3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 42b0c82..570a6d9 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1881,7 +1881,9 @@ class StoredProcedure(pg_api.StoredProcedure):
 			self.procedure_id, self.statement.string
 		)
 
-	def __call__(self, *args, **kw):
+	def __call__(*args, **kw):
+		# An argument of the procedure may be named "self".
+		self, *args = args
 		if kw:
 			for k in kw:
 				if k not in self._input_attmap:
-- 
2.43.0


From 66eab33bfd1bcba3db07b30afee78d2ae6a976d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 114/138] fix: call variadic procedures with their array

---
 postgresql/driver/pq3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/driver/pq3.py b/postgresql/driver/pq3.py
index 570a6d9..498c8d1 100644
--- a/postgresql/driver/pq3.py
+++ b/postgresql/driver/pq3.py
@@ -1952,12 +1952,17 @@ class StoredProcedure(pg_api.StoredProcedure):
 			# get metadata filled out.
 			database.typio.resolve(x)
 
+		# The last argument of a variadic function is given as an array.
+		variadic = bool(proctup.get('provariadic'))
 		self.statement = database.prepare(
 			"SELECT * FROM %s(%s) AS func%s" %(
 				proctup['_proid'],
 				# ($1::type, $2::type, ... $n::type)
 				', '.join([
-					 '$%d::%s' %(x + 1, database.typio.sql_type_from_oid(proargs[x]))
+					 '%s$%d::%s' %(
+						'VARIADIC ' if variadic and x + 1 == len(proargs) else '',
+						x + 1, database.typio.sql_type_from_oid(proargs[x])
+					 )
 					 for x in range(0, len(proargs))
 				]),
 				# Description for anonymous record returns
-- 
2.43.0


From 06d1e35a90903cda6170bc481a398aef7c452f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:28 +0000
Subject: [PATCH 115/138] fix: call the procedure that was looked up when the
 search path changes

---
 postgresql/lib/libsys.sql | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/lib/libsys.sql b/postgresql/lib/libsys.sql
index f10fdb5..e6b52f0 100644
--- a/postgresql/lib/libsys.sql
+++ b/postgresql/lib/libsys.sql
@@ -81,7 +81,9 @@ WHERE
 SELECT
  pg_proc.oid,
  pg_proc.*,
- pg_proc.oid::regproc AS _proid,
+ (SELECT pg_catalog.quote_ident(nspname) FROM pg_catalog.pg_namespace
+  WHERE pg_namespace.oid = pg_proc.pronamespace)
+  || '.' || pg_catalog.quote_ident(proname) AS _proid,
  pg_proc.oid::regprocedure as procedure_id,
  COALESCE(string_to_array(trim(replace(textin(oidvectorout(proargtypes)), ',', ' '), '{}'), ' ')::oid[], '{}'::oid[])
   AS proargtypes,
-- 
2.43.0


From 4bba0f88a9dd23019c8693532cf496af558ca31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:02 +0000
Subject: [PATCH 116/138] fix: start clusters with settings

---
 postgresql/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 122103e..f6ab93e 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -337,7 +337,7 @@ class Cluster(pg_api.Cluster):
 		cmd = (self.daemon_path, '-D', self.data_directory)
 		if settings is not None:
 			for k,v in dict(settings).items():
-				cmd.append('--{k}={v}'.format(k=k,v=v))
+				cmd += ('--{k}={v}'.format(k=k,v=v),)
 
 		p = sp.Popen(
 			cmd,
-- 
2.43.0


From a4cceff0654c54e83fa1bb1e8991e3e97a42b324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:02 +0000
Subject: [PATCH 117/138] fix: survive a pid file that has not been written yet

---
 postgresql/cluster.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index f6ab93e..b04550c 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -134,6 +134,9 @@ class Cluster(pg_api.Cluster):
 			path = os.path.join(self.data_directory, self.DEFAULT_PID_FILENAME)
 			with open(path) as f:
 				return int(f.readline())
+		except ValueError:
+			# Created, but not written yet.
+			return None
 		except IOError as e:
 			if e.errno in (errno.EIO, errno.ENOENT):
 				return None
-- 
2.43.0


From ee846c1a887d82d3befde3d29ddf6826d6393e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:03 +0000
Subject: [PATCH 118/138] fix: signal the process that the cluster started

---
 postgresql/cluster.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index b04550c..63dd6c1 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -146,12 +146,10 @@ class Cluster(pg_api.Cluster):
 		"""
 		If we have the subprocess, use the pid on the object.
 		"""
-		pid = self.get_pid_from_file()
-		if pid is None:
-			d = self.daemon_process
-			if d is not None:
-				return d.pid
-		return pid
+		d = self.daemon_process
+		if d is not None and d.poll() is None:
+			return d.pid
+		return self.get_pid_from_file()
 
 	@property
 	def settings(self):
-- 
2.43.0


From 9d53086bf4ae8e48f8f503a6427328a68b9067a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:03 +0000
Subject: [PATCH 119/138] fix: wait for clusters whose pid file has been
 removed

---
 postgresql/cluster.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 63dd6c1..3c19e53 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -628,8 +628,6 @@ class Cluster(pg_api.Cluster):
 			# pickup the exit code.
 			if self.daemon_process is not None:
 				self.last_exit_code = self.daemon_process.poll()
-			else:
-				self.last_exit_code = pg_kill(self.get_pid_from_file(), 0)
 			if time.time() - start >= timeout:
 				raise ClusterTimeoutError(
 					'timeout on shutdown',
-- 
2.43.0


From 0813d9cdc0132b155def0e17a05e96e5857a2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:03 +0000
Subject: [PATCH 120/138] fix: report clusters that are not ready

---
 postgresql/cluster.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 3c19e53..85a7b9c 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -528,8 +528,14 @@ class Cluster(pg_api.Cluster):
 
 		This only works for clusters configured for TCP/IP connections.
 		"""
+		r = self._connection_status()
+		return None if r is None else r is True
+
+	def _connection_status(self):
+		# True when ready, None when not running, and
+		# the error that occurred otherwise.
 		if not self.running():
-			return False
+			return None
 		e = None
 		host, port = self.address()
 		connection = self.driver.fit(
@@ -593,7 +599,7 @@ class Cluster(pg_api.Cluster):
 						"postgres daemon has not been started",
 						creator = self
 					)
-			r = self.ready_for_connections()
+			r = self._connection_status()
 
 			checkpoint = time.time()
 			if r is True:
-- 
2.43.0


From 3f4fa50111860fbfc820151082c67045618ebbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 121/138] fix: leave clusters running that were running when
 entered

---
 postgresql/cluster.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 85a7b9c..7ce36b1 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -176,6 +176,7 @@ class Cluster(pg_api.Cluster):
 		)
 		self.daemon_process = None
 		self.daemon_command = None
+		self._entered = []
 
 	def __repr__(self, format = "{mod}.{name}({ins!r}, {dir!r})".format):
 		return format(
@@ -189,16 +190,21 @@ class Cluster(pg_api.Cluster):
 		"""
 		Start the cluster and wait for it to startup.
 		"""
+		daemon = self.daemon_process
 		self.start()
+		started = self.daemon_process not in (None, daemon)
 		self.wait_until_started()
+		self._entered.append(started)
 		return self
 
 	def __exit__(self, typ, val, tb):
 		"""
-		Stop the cluster and wait for it to shutdown.
+		Stop the cluster and wait for it to shutdown *iff* it was
+		started by the corresponding enter.
 		"""
-		self.stop()
-		self.wait_until_stopped()
+		if self._entered.pop():
+			self.stop()
+			self.wait_until_stopped()
 
 	def init(self, password = None, timeout = None, **kw):
 		"""
-- 
2.43.0


From 412b7d03639bc83b7ffa2b254a0db7af13ad2911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 122/138] fix: drop clusters with links to directories

---
 postgresql/cluster.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 7ce36b1..ab82f8a 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -332,7 +332,11 @@ class Cluster(pg_api.Cluster):
 			for name in files:
 				os.remove(os.path.join(root, name))
 			for name in dirs:
-				os.rmdir(os.path.join(root, name))	
+				path = os.path.join(root, name)
+				if os.path.islink(path):
+					os.remove(path)
+				else:
+					os.rmdir(path)
 		os.rmdir(self.data_directory)
 
 	def start(self, logfile = None, settings = None):
-- 
2.43.0


From 5e79b0b06a8fa6510414078b2f61ebc1a0d6c553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 123/138] fix: ignore the spaces around listen_addresses

---
 postgresql/cluster.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index ab82f8a..7ea3913 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -519,7 +519,9 @@ class Cluster(pg_api.Cluster):
 		if d.get('listen_addresses') is not None:
 			# Prefer localhost over other addresses.
 			# More likely to get a successful connection.
-			addrs = d.get('listen_addresses').lower().split(',')
+			addrs = [
+				x.strip() for x in d.get('listen_addresses').lower().split(',')
+			]
 			if 'localhost' in addrs or '*' in addrs:
 				host = 'localhost'
 			elif '127.0.0.1' in addrs:
-- 
2.43.0


From 35d127b7a42d45dd7ba88f87e221e48a50146e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 124/138] fix: show the pid of running clusters

---
 postgresql/cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/cluster.py b/postgresql/cluster.py
index 7ea3913..71439fd 100644
--- a/postgresql/cluster.py
+++ b/postgresql/cluster.py
@@ -117,7 +117,7 @@ class Cluster(pg_api.Cluster):
 		state = self.state
 		yield (None, '[' + state + ']')
 		if state == 'running':
-			yield ('pid', self.state)
+			yield ('pid', self.pid)
 
 	@property
 	def daemon_path(self):
-- 
2.43.0


From 9408a274763a36f4f0afb9f0012356819c32b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:15 +0000
Subject: [PATCH 125/138] fix: remove the name new when the temporary context
 is left

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index a19a845..6db0459 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -44,7 +44,7 @@ class Temporal(object):
 		'settings',
 		'prepare',
 		'sqlexec',
-		'newdb',
+		'new',
 	}
 
 	def __init__(self):
-- 
2.43.0


From d45ffbb63dd370d1f2ebf57b55dc347e34ef74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:15 +0000
Subject: [PATCH 126/138] fix: terminate the sessions of the temporary cluster
 before it is stopped

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 6db0459..4ceb240 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -65,6 +65,7 @@ class Temporal(object):
 	def destroy(self):
 		# Don't destroy if it's not the initializing process.
 		if os.getpid() == self._init_pid_:
+			cluster = self.cluster
 			# Kill all the open connections.
 			try:
 				c = cluster.connection(user = 'test', database = 'template1',)
@@ -76,7 +77,6 @@ class Temporal(object):
 			except Exception:
 				# Doesn't matter much if it fails.
 				pass
-			cluster = self.cluster
 			self.cluster = None
 			self._init_pid_ = None
 			if cluster is not None:
-- 
2.43.0


From 67d3ba53157136db200063fcb9d16f8553ca3e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:16 +0000
Subject: [PATCH 127/138] fix: remove the temporary cluster when it does not
 stop in time

---
 postgresql/temporal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 4ceb240..05ca8d2 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -8,7 +8,7 @@ import os
 import atexit
 import builtins
 from collections import deque
-from .cluster import Cluster, ClusterError
+from .cluster import Cluster, ClusterError, ClusterTimeoutError
 from . import installation
 from .python.socket import find_available_port
 
@@ -81,7 +81,11 @@ class Temporal(object):
 			self._init_pid_ = None
 			if cluster is not None:
 				cluster.stop()
-				cluster.wait_until_stopped(timeout = 5)
+				try:
+					cluster.wait_until_stopped(timeout = 5)
+				except ClusterTimeoutError:
+					# drop will insist.
+					pass
 				cluster.drop()
 
 	def init(self,
-- 
2.43.0


From 14f856e4b376130221aa6017cd44f0ae746fbb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:16 +0000
Subject: [PATCH 128/138] fix: remove the temporary cluster that could not be
 initialized

---
 postgresql/temporal.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 05ca8d2..032616e 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -32,6 +32,8 @@ class Temporal(object):
 	format_sandbox_id = staticmethod(('sandbox{0}_{1}').format)
 	cluster_dirname = staticmethod(('pg_tmp_{0}_{1}').format)
 	cluster = None
+	# The cluster that is not yet, or could not be, readied.
+	_initializing = None
 
 	_init_pid_ = None
 	_local_id_ = 0
@@ -65,7 +67,7 @@ class Temporal(object):
 	def destroy(self):
 		# Don't destroy if it's not the initializing process.
 		if os.getpid() == self._init_pid_:
-			cluster = self.cluster
+			cluster = self.cluster or self._initializing
 			# Kill all the open connections.
 			try:
 				c = cluster.connection(user = 'test', database = 'template1',)
@@ -78,8 +80,9 @@ class Temporal(object):
 				# Doesn't matter much if it fails.
 				pass
 			self.cluster = None
+			self._initializing = None
 			self._init_pid_ = None
-			if cluster is not None:
+			if cluster is not None and cluster.initialized():
 				cluster.stop()
 				try:
 					cluster.wait_until_stopped(timeout = 5)
@@ -121,6 +124,7 @@ class Temporal(object):
 		# If it exists already, destroy it.
 		if cluster.initialized():
 			cluster.drop()
+		self._initializing = cluster
 		cluster.encoding = 'utf-8'
 		cluster.init(
 			user = 'test', # Consistent username.
@@ -170,6 +174,7 @@ class Temporal(object):
 		with c:
 			c.execute('create database test')
 		self.cluster = cluster
+		self._initializing = None
 
 	def push(self):
 		if 'PGTEST' in os.environ:
-- 
2.43.0


From 920d76a122eb03f53841c70c7475dc347013f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:40 +0000
Subject: [PATCH 129/138] fix: restore what the names of the temporary context
 were before

---
 postgresql/temporal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/temporal.py b/postgresql/temporal.py
index 032616e..0d9d80f 100644
--- a/postgresql/temporal.py
+++ b/postgresql/temporal.py
@@ -227,7 +227,7 @@ class Temporal(object):
 		if len(self.builtins_stack) > 1:
 			builtins.__dict__.update(self.builtins_stack[-1][0])
 		else:
-			previous = self.builtins_stack.popleft()
+			previous, _ = self.builtins_stack.popleft()
 			for x in self.builtins_keys:
 				if x in previous:
 					builtins.__dict__[x] = previous[x]
-- 
2.43.0


From fa028c1269455a337bf426cf82d54b9021b05448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:34 +0000
Subject: [PATCH 130/138] fix: remove the built-ins of pg_python when it is
 done

They were left behind as None.
---
 postgresql/bin/pg_python.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/postgresql/bin/pg_python.py b/postgresql/bin/pg_python.py
index a97aa97..ed43de6 100644
--- a/postgresql/bin/pg_python.py
+++ b/postgresql/bin/pg_python.py
@@ -121,10 +121,11 @@ def command(argv = sys.argv):
 					del connection.pq.socket
 		finally:
 			# restore __builtins__
-			builtins_d.update(restore)
-			for k, v in builtin_overload.items():
+			for k, v in restore.items():
 				if v is None:
-					del builtins_d[x]
+					builtins_d.pop(k, None)
+				else:
+					builtins_d[k] = v
 			if trace_file is not None:
 				trace_file.close()
 	except:
-- 
2.43.0


From 8172f6cd11fc7b8f995578f22816af8ac0830b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:34 +0000
Subject: [PATCH 131/138] fix: only prompt again for a password when there is a
 terminal

With anything else on standard input, pg_python took its lines as passwords
until one was right, and connected endlessly with none once it was exhausted.
---
 postgresql/bin/pg_python.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postgresql/bin/pg_python.py b/postgresql/bin/pg_python.py
index ed43de6..81da53b 100644
--- a/postgresql/bin/pg_python.py
+++ b/postgresql/bin/pg_python.py
@@ -76,7 +76,10 @@ def command(argv = sys.argv):
 			except pg_exc.ClientCannotConnectError as err:
 				for att in connection.failures:
 					exc = att.error
-					if isinstance(exc, pg_exc.AuthenticationSpecificationError):
+					# Only a terminal can be asked again; anything else
+					# would have its next line taken as a password, endlessly.
+					if isinstance(exc, pg_exc.AuthenticationSpecificationError) \
+					and sys.stdin.isatty():
 						sys.stderr.write(os.linesep + exc.message + (os.linesep*2))
 						# keep prompting the user
 						need_prompt = True
-- 
2.43.0


From cc3b329f5b85c659494446d12743e79b68508601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:34 +0000
Subject: [PATCH 132/138] fix: keep os.environ the environment of the process
 after an execution

It was replaced with a copy, so the \set of the console had no effect on
commands after a \x.
---
 postgresql/python/command.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index d88b154..414c4bb 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -588,14 +588,19 @@ class Execution(object):
 			sys.modules.get('__context__'),
 			sys.modules.get('__main__'),
 			sys.argv,
-			os.environ.copy(),
+			os.environ,
 		)
+		environ = os.environ.copy()
 		try:
 			return self._call(*args, **kw)
 		finally:
 			sys.modules['__context__'], \
 			sys.modules['__main__'], \
 			sys.argv, os.environ = storage
+			# The object itself is kept; a copy is not the environment.
+			for k in set(os.environ) - set(environ):
+				del os.environ[k]
+			os.environ.update(environ)
 
 	def get_main_source(self):
 		"""
-- 
2.43.0


From d7719d1aa8b7ab60b2b6e5ac1a685b5a8ba85a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:34 +0000
Subject: [PATCH 133/138] fix: \x of a command that exits with a message, or
 with nothing

---
 postgresql/python/command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index 414c4bb..3bb2c14 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -354,7 +354,7 @@ class ExtendedConsole(code.InteractiveConsole):
 				rv = command(argv = a)
 			except SystemExit as se:
 				rv = se.code
-			self.write("[Return Value: %d]%s" %(rv, os.linesep))
+			self.write("[Return Value: %s]%s" %(rv or 0, os.linesep))
 
 	def push(self, line):
 		# Has to be a ps1 context.
-- 
2.43.0


From 1b82497f3b9e67083b44b25d85d0b97cb10cf85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:34 +0000
Subject: [PATCH 134/138] fix: set the package of a module that is run with -m

The loaders of importlib have no `fullname`; relative imports failed.
---
 postgresql/python/command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/python/command.py b/postgresql/python/command.py
index 3bb2c14..b1af817 100644
--- a/postgresql/python/command.py
+++ b/postgresql/python/command.py
@@ -471,7 +471,8 @@ class Execution(object):
 		mod.__builtins__ = __builtins__
 		mod.__package__ = None
 		self.module__main__ = mod
-		path = getattr(self.main[1], 'fullname', None)
+		# `fullname` before importlib, `name` with it.
+		path = getattr(self.main[1], 'fullname', None) or getattr(self.main[1], 'name', None)
 		if path is not None:
 			mod.__package__ = '.'.join(path.split('.')[:-1])
 
-- 
2.43.0


From b1a020a9754abf256e3936f911e8b07456c39326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:44 +0000
Subject: [PATCH 135/138] fix: let --unix replace the default host and port

Connectors take one or the other, so pg_python --unix always failed.
---
 postgresql/clientparameters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postgresql/clientparameters.py b/postgresql/clientparameters.py
index d16f986..1ac5079 100644
--- a/postgresql/clientparameters.py
+++ b/postgresql/clientparameters.py
@@ -567,6 +567,11 @@ def normalize(iter):
 		for sk in k[:len(k)-1]:
 			sd = sd.setdefault(sk, {})
 		sd[k[-1]] = v
+		if tuple(k) == ('unix',):
+			# The socket is used instead of the address given before it,
+			# the default one in most cases.
+			rd.pop('host', None)
+			rd.pop('port', None)
 	return rd
 
 def resolve_pg_service_file(
-- 
2.43.0


From d6973fb8000ba2cdfa92db0ffad1bb8739cc6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:38 +0000
Subject: [PATCH 136/138] fix: keep the quotes and dashes that a configure
 option ends with

---
 postgresql/installation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index 16ab957..a574f13 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -109,7 +109,11 @@ def parse_configure_options(confopt, quotes = '\'"', dash_and_quotes = '-\'"'):
 		# if it splits once, the '1' index will
 		# be `True`, indicating that the flag was given, but
 		# was not given a value.
-		kv = x.strip(dash_and_quotes).split('=', 1) + [True]
+		x = x.strip()
+		# Only the enclosing quote, not what the value ends with.
+		if x[-1:] == x[:1] and x[-1:] in quotes:
+			x = x[:-1]
+		kv = x.lstrip(dash_and_quotes).split('=', 1) + [True]
 		key = kv[0].replace('-','_')
 		# Ignore empty keys.
 		if key:
-- 
2.43.0


From a623e667fb69b6e398f7fb4cdbf5f68c7b79e05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:38 +0000
Subject: [PATCH 137/138] fix: find the directory of the server's header files

---
 postgresql/installation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postgresql/installation.py b/postgresql/installation.py
index a574f13..6090469 100644
--- a/postgresql/installation.py
+++ b/postgresql/installation.py
@@ -224,7 +224,8 @@ class Installation(pg_api.Installation):
 		exists = os.path.exists
 		join = os.path.join
 		for k in self.pg_directories:
-			self.paths[k] = self.info.get(k)
+			# pg_config reports INCLUDEDIR-SERVER
+			self.paths[k] = self.info.get(k, self.info.get(k.replace('_', '-')))
 
 		# find all the PG executables that exist for the installation.
 		bindir_path = self.info.get('bindir')
-- 
2.43.0


From 13b3a231784349fe3f9eb1993f7bb7348b9effee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:14 +0000
Subject: [PATCH 138/138] fix: split versions of more than three numbers

---
 postgresql/versionstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postgresql/versionstring.py b/postgresql/versionstring.py
index d2eeea6..a40682e 100644
--- a/postgresql/versionstring.py
+++ b/postgresql/versionstring.py
@@ -34,7 +34,7 @@ def split(vstr: str) -> tuple:
 		state_class = None
 		vlist = [int(x or '0') for x in v]
 		# pad the difference with `None` objects, and +2 for the state_*.
-		vlist += [None] * ((3 - len(vlist)) + 2)
+		vlist += [None] * (max(3 - len(vlist), 0) + 2)
 	return tuple(vlist)
 
 def unsplit(vtup: tuple) -> str:
-- 
2.43.0

