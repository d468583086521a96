From 322106efb021fb71ac26f1d34ddb02a1c4c49f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:05 +0000
Subject: [PATCH 01/48] fix: report NO_MORE_EVENTS when the event queue drains
 during a run

---
 pysim/sim/simulator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index a7da8a3..9f8f497 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -429,9 +429,6 @@ class Kernel:
         # 3) Инициализация модели
         self._initializer(sim, *self._initializer_args)
 
-        if self._queue.empty:
-            self.stop_reason = ExitReason.NO_MORE_EVENTS
-
         while not self._queue.empty and not self.stop_conditions():
             t, event_id, item = self._queue.pop()
             self._sim_time = t
@@ -439,6 +436,11 @@ class Kernel:
             handler(sim, *args)
             self._num_events_served += 1
             self.lhandler = handler
+
+        # Ни одно из условий остановки не сработало - события закончились
+        if self.stop_reason is None:
+            self.stop_reason = ExitReason.NO_MORE_EVENTS
+
         if self._finalize:
             fin_ret = self._finalize(sim)
         else:
-- 
2.43.0


From 082d485492bccc6bc10855c3d444db25ca9d20ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:06 +0000
Subject: [PATCH 02/48] fix: enforce max_num_events, which the kernel stored
 but never checked

---
 pysim/sim/simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 9f8f497..cbeae47 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -27,6 +27,7 @@ class ExitReason(Enum):
     REACHED_SIM_TIME_LIMIT = 2
     STOPPED = 3
     INTERRUPTED = 4  # выполнение не закончилось - прерывание при отладке
+    REACHED_NUM_EVENTS_LIMIT = 5
 
 
 @dataclass
@@ -362,6 +363,10 @@ class Kernel:
         elif self._max_real_time is not None and self.real_time_elapsed > self._max_real_time:
             self.stop_reason = ExitReason.REACHED_REAL_TIME_LIMIT
             return True
+        elif (self._max_num_events is not None and
+                self._num_events_served >= self._max_num_events):
+            self.stop_reason = ExitReason.REACHED_NUM_EVENTS_LIMIT
+            return True
         elif self._user_stop:
             return True
 
-- 
2.43.0


From f4d67c809bd997f4cc410f2df3be3658f2dd03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:08 +0000
Subject: [PATCH 03/48] fix: schedule the end of a new transaction from its own
 timing, not the finished one's

---
 pysim/models/rfid/handlers.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9a71e4a..abf06a3 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -308,11 +308,13 @@ def finish_transaction(kernel, transaction):
     # Processing new command (reader frame)
     ctx.transaction = _build_transaction(kernel, ctx.reader, cmd_frame)
     ctx.transaction.timeout_event_id = kernel.schedule(
-        transaction.duration, finish_transaction, (ctx.transaction, )
+        ctx.transaction.duration, finish_transaction, (ctx.transaction, )
     )
-    if transaction.reply_start_time is not None:
-        dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+    if ctx.transaction.reply_start_time is not None:
+        dt = ctx.transaction.reply_start_time - kernel.time
+        kernel.schedule(
+            dt, update_power_at_response_start, (ctx.transaction, )
+        )
 
 
 def switch_reader_antenna(kernel, reader):
-- 
2.43.0


From 5f26dbe449953b5eb92381b025b7cbb6f81668eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:09 +0000
Subject: [PATCH 04/48] fix: a tag reply starts T1 after the end of the
 command, not after its start

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 59cdb1f..445dfa5 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1578,7 +1578,7 @@ class Transaction():
             t4 = std.link_t4(reader.rtcal)
             exchange_duration = (self._command_duration + t1 +
                                  self._reply_duration + t2)
-            self._reply_start_time = time + t1
+            self._reply_start_time = self._command_end_time + t1
             self._reply_end_time = (
                 self._reply_start_time + self._reply_duration
             )
-- 
2.43.0


From 7942cd6ec1e44b74c7e6107114a585a408695ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:11 +0000
Subject: [PATCH 05/48] fix: remember the response-start event so that turning
 the reader off cancels it

---
 pysim/models/rfid/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index abf06a3..2e68690 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -100,7 +100,9 @@ def turn_reader_on(kernel, reader):
         transaction.duration, finish_transaction, (transaction, ))
     if transaction.reply_start_time is not None:
         dt = transaction.reply_start_time - kernel.time
-        kernel.schedule(dt, update_power_at_response_start, (transaction, ))
+        transaction.response_start_event_id = kernel.schedule(
+            dt, update_power_at_response_start, (transaction, )
+        )
 
     # Scheduling turning off
     power_mode = reader.power_control_mode
@@ -312,7 +314,7 @@ def finish_transaction(kernel, transaction):
     )
     if ctx.transaction.reply_start_time is not None:
         dt = ctx.transaction.reply_start_time - kernel.time
-        kernel.schedule(
+        ctx.transaction.response_start_event_id = kernel.schedule(
             dt, update_power_at_response_start, (ctx.transaction, )
         )
 
-- 
2.43.0


From 49150ab3e4b279a3f57541440f353342e8159a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:12 +0000
Subject: [PATCH 06/48] fix: validate schedule() arguments as documented (past,
 missing handler, wrong types)

---
 pysim/sim/simulator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index cbeae47..f2e38ad 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -338,7 +338,17 @@ class Kernel:
             msg: str = ''
     ) -> EventId:
         '''Планирование нового события'''
+        if handler is None:
+            raise ValueError('обработчик события не задан')
+        if not callable(handler):
+            raise TypeError('обработчик события должен быть вызываемым')
+        if not isinstance(args, Iterable):
+            raise TypeError('аргументы обработчика должны быть Iterable')
         if delay is not None:
+            if delay < 0:
+                raise SchedulingInPastError(
+                    f'нельзя запланировать событие в прошлом: {delay}'
+                )
             return self._queue.push(self._sim_time + delay, (handler, args, msg))
         return None
 
-- 
2.43.0


From 9d7696a855ed9645b77ffc30314f9385202d0649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:14 +0000
Subject: [PATCH 07/48] fix: a tag leaving during its own slot no longer
 crashes the run or loses its reading

---
 pysim/models/rfid/handlers.py | 19 ++++++++++++-------
 pysim/models/rfid/objects.py  |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 2e68690..9d17f4b 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -214,10 +214,13 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
     Обработка единственного ответа от метки после
     завершения транзакции считывателя
     '''
-    if isinstance(frame.reply, std.AckReply):
-        tag_read_record = (
-            ctx.statistics.get_tag_record(tag)
-            .new_tag_read_record(reader, reader.inventory_round.index))
+    # Метка могла покинуть область моделирования, пока шла транзакция: тогда
+    # её запись в статистике уже закрыта и дополнять нечего
+    tag_record = ctx.statistics.get_tag_record(tag)
+
+    if tag_record is not None and isinstance(frame.reply, std.AckReply):
+        tag_read_record = tag_record.new_tag_read_record(
+            reader, reader.inventory_round.index)
         tag_read_record.tag_pos = np.array(tag.pos, copy=True)
         tag_read_record.reader_antenna_pos = np.array(
             reader.antenna.pos, copy=True)
@@ -226,7 +229,9 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
 
         # noinspection PyShadowingNames
         def on_slot_end(round_index, slot_index, reader, tag, statistics):
-            statistics.get_tag_record(tag).close_tag_read_record()
+            record = statistics.get_tag_record(tag)
+            if record is not None:
+                record.close_tag_read_record()
             reader.slot_finish_listeners.remove(
                 statistics.slot_end_listener_id)
 
@@ -244,8 +249,8 @@ def _one_tag_response(kernel, transaction, ctx, reader, tag, frame, snr, ber):
             )
         )
 
-    if isinstance(frame.reply, std.ReadReply):
-        tag_read_record = ctx.statistics.get_tag_record(tag).tag_read_record
+    if tag_record is not None and isinstance(frame.reply, std.ReadReply):
+        tag_read_record = tag_record.tag_read_record
         tag_read_record.read_tid = True
 
         kernel.logger.info(
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 445dfa5..f534c21 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1857,6 +1857,7 @@ class Statistics:
 
     def close_tag_record(self, tag):
         record = self._current_tag_records.pop(tag)
+        record.close_tag_read_record()
         self.tags_history.append(record)
 
     def average_rounds_per_tag(self):
-- 
2.43.0


From f50f405a08ea73c3ebf5454865c294e68bcc02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:15 +0000
Subject: [PATCH 08/48] fix: give every generated tag its own EPC and TID

---
 pysim/models/rfid/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index f534c21..9f81fed 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1355,6 +1355,8 @@ class Generator:
 
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
+        self._epc_suffix = None
+        self._tid_suffix = None
 
     def set_interval(self, fn, *args):
         self._next_interval = (fn,) + args
@@ -1380,8 +1382,10 @@ class Generator:
         tid_suffix_bitlen = (
             self.tid_bitlen - hex_string_bitlen(self.tid_prefix)
         )
-        self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
-        self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
+        if self._epc_suffix is None:
+            self._epc_suffix = '0' * int(np.ceil(epc_suffix_bitlen / 4))
+        if self._tid_suffix is None:
+            self._tid_suffix = '0' * int(np.ceil(tid_suffix_bitlen / 4))
 
         tag_id = next(model.next_tag_id)
         tag = Tag(tag_id)
-- 
2.43.0


From 391ae40fcac8faec8d714bb412b4573faf481002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:16 +0000
Subject: [PATCH 09/48] fix: to_bytes() used collections.Iterable, which no
 longer exists

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 2738602..71e89ac 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -1,6 +1,6 @@
 from enum import Enum
 import random
-import collections
+import collections.abc
 import numpy as np
 
 
@@ -545,7 +545,7 @@ class QueryReply(Reply):
 def to_bytes(value):
     if isinstance(value, str):
         return list(bytearray.fromhex(value))
-    elif isinstance(value, collections.Iterable):
+    elif isinstance(value, collections.abc.Iterable):
         value = list(value)
         for b in value:
             if not isinstance(b, int) or not (0 <= b < 256):
-- 
2.43.0


From 752129af033772e8a8e8ce0113c0affe994d3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:18 +0000
Subject: [PATCH 10/48] fix: count the round that switches the target, so that
 targets alternate every rounds_per_target rounds

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 9f81fed..55dd1be 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -240,7 +240,7 @@ class _ReaderQUERY(_ReaderState):
             if reader.num_rounds_before_target_switch <= 0:
                 reader.target = reader.target.invert()
                 reader.num_rounds_before_target_switch = \
-                    reader.rounds_per_target
+                    reader.rounds_per_target - 1
             else:
                 reader.num_rounds_before_target_switch -= 1
 
-- 
2.43.0


From dd7f1441fac29ce67c87e46bb8107c38777470cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:19 +0000
Subject: [PATCH 11/48] fix: keep the tag's Q within 0..15 on QueryAdjust

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 55dd1be..2a072fe 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1203,7 +1203,7 @@ class Tag:
             )
             self._set_state(Tag.State.ARBITRATE)
             updn = qadjust.updn
-            if self.q + updn >= 0 or self.q + updn <= 15:
+            if self.q + updn >= 0 and self.q + updn <= 15:
                 self.q = self.q + updn
                 self._slot_counter = np.random.randint(0, pow(2, self.q))
                 stat = self.kernel.context.statistics
-- 
2.43.0


From 3b9d2bb0cc47b0dbe6e043c5a7f7130929596467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:21 +0000
Subject: [PATCH 12/48] fix: query_adjust_duration() passed the delimiter as
 TRcal and had an unusable default

---
 pysim/models/rfid/epcstd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 71e89ac..9c21f36 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -882,10 +882,10 @@ def query_rep_duration(tari=None, rtcal=None, trcal=None, delim=None,
 
 
 def query_adjust_duration(
-    delim=None, tari=None, rtcal=None, session=None, updn=None
+    delim=None, tari=None, rtcal=None, session=None, updn=0
 ):
     return reader_frame_duration(QueryAdjust(session, updn), tari, rtcal,
-                                 delim)
+                                 delim=delim)
 
 
 # noinspection PyTypeChecker
-- 
2.43.0


From 6b1adc8752b88d80d27beec2f6861651e880a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:22 +0000
Subject: [PATCH 13/48] fix: only Query carries the full preamble; other
 commands start with a frame-sync

---
 pysim/models/rfid/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 2a072fe..95e7e08 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -291,7 +291,7 @@ class _ReaderQREP(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryRep(reader.session)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -336,7 +336,7 @@ class _ReaderAdjust(_ReaderState):
     def enter(self, reader):
         reader.last_rn = None
         cmd = std.QueryAdjust(reader.session, reader.updn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None  # Reader is already ON
@@ -380,7 +380,7 @@ class _ReaderACK(_ReaderState):
 
     def enter(self, reader):
         cmd = std.Ack(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader):
         return None
@@ -426,7 +426,7 @@ class _ReaderREQRN(_ReaderState):
 
     def enter(self, reader):
         cmd = std.ReqRN(reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
@@ -470,7 +470,7 @@ class _ReaderREAD(_ReaderState):
     def enter(self, reader):
         cmd = std.Read(std.MemoryBank.TID, 0x00, reader.read_tid_words_num,
                        reader.last_rn)
-        return std.ReaderFrame(reader.preamble, cmd)
+        return std.ReaderFrame(reader.sync, cmd)
 
     def handle_turn_on(self, reader): return None
 
-- 
2.43.0


From 1b2d60e29229facbed14748a2c4fef1e4c800b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:23 +0000
Subject: [PATCH 14/48] fix: compute the QueryAdjust timeout for the UpDn
 actually sent

---
 pysim/models/rfid/handlers.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pysim/models/rfid/handlers.py b/pysim/models/rfid/handlers.py
index 9d17f4b..1759684 100755
--- a/pysim/models/rfid/handlers.py
+++ b/pysim/models/rfid/handlers.py
@@ -203,7 +203,6 @@ def _no_tag_response(kernel, ctx, reader):
                 # Отправить команду QueryAdjust
                 reader.updn = -1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
@@ -282,7 +281,6 @@ def _multiple_tag_response(kernel, ctx, reader, transaction):
                 # Отправить команду QueryAdjust
                 reader.updn = 1
                 cmd_frame = reader.set_state(Reader.State.QAdjust)
-                reader.updn = 0
     if cmd_frame is None:
         cmd_frame = ctx.reader.timeout()
     return cmd_frame
-- 
2.43.0


From f22ba4e8bcead97c51f33fbd4ae15f87b4573b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:25 +0000
Subject: [PATCH 15/48] fix: the reflected ray keeps its Y direction at the
 receiver (the wall only mirrors X)

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index aba87e3..176e9ff 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -135,7 +135,7 @@ def two_ray_pathloss(*, time, ground_reflection, wavelen,
     d0_vector_tx_n = d0_vector / d0  # LoS ray vector normalized
     d0_vector_rx_n = -d0_vector_tx_n
     d1_vector_tx_n = d1_vector / d1  # NLoS ray vector normalized
-    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], -d1_vector_tx_n[1], d1_vector_tx_n[2]])
+    d1_vector_rx_n = np.array([-d1_vector_tx_n[0], d1_vector_tx_n[1], d1_vector_tx_n[2]])
 
     # Предполагается, что стена, от которой происходит отражение - это плоскость YOZ
     x_rfp = 0
-- 
2.43.0


From ab24eccfe84ca0fd85610531350406df74d2048f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:26 +0000
Subject: [PATCH 16/48] fix: sine of a cosine rounded just above one is zero,
 not NaN

---
 pysim/models/rfid/channel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index 176e9ff..b2caea7 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -5,7 +5,8 @@ import scipy.special as special
 
 
 def to_sin(cos):
-    return (1 - cos ** 2) ** .5
+    # Из-за округления |cos| может чуть превысить 1
+    return np.maximum(1 - cos ** 2, 0.) ** .5
 
 
 def to_log(value, dbm=False, tol=1e-15):
@@ -83,7 +84,7 @@ def reflection_constant(**kwargs):
 
 
 def reflection(*, cosine, polarization, permittivity, conductivity, wavelen, **kwargs):
-    sine = (1 - cosine ** 2) ** .5
+    sine = to_sin(cosine)
 
     if polarization != 0:
         c_parallel = __c_parallel(cosine, permittivity, conductivity, wavelen)
-- 
2.43.0


From 5e3a9afe15184e8c8585c83864e59ecafa9b292e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:27 +0000
Subject: [PATCH 17/48] fix: use the configured BER distribution

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 95e7e08..82e4998 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1527,7 +1527,7 @@ class Medium:
         return snr
 
     def estimate_reader_rx_ber(self, reader, tag, tags, snr):
-        return chan.ber(snr)
+        return chan.ber(snr, self.ber_distribution)
 
 
 #############################################################################
-- 
2.43.0


From 8209c178dfa4bed0f85a42790fab496edce82f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:29 +0000
Subject: [PATCH 18/48] fix: account for the extended tag preamble when
 estimating the SNR

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 82e4998..080238a 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1521,7 +1521,7 @@ class Medium:
         # print('>>>>>>>>> blf, m, symbol', blf, m, symbol)
         snr = chan.snr_full(
             snr=raw_snr, miller=m.symbols_per_bit, symbol=symbol,
-            preamble=std.tag_preamble_duration(blf, m),
+            preamble=std.tag_preamble_duration(blf, m, tag.trext),
             bandwidth=self.bandwidth)
         # print('>>>>>>>>>> snr full', snr)
         return snr
-- 
2.43.0


From 56df488da8301910bf0950fa274e5f72b3b9124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:30 +0000
Subject: [PATCH 19/48] fix: Read starts at the requested word

---
 pysim/models/rfid/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 080238a..ebbf572 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1268,8 +1268,8 @@ class Tag:
             # лежит hex-строка, в которой каждый байт кодируется двумя
             # символами. Поэтому надо извлечь (word_count * 4) 16-ричных
             # цифр из строки content.
-            if (frame.command.word_count * 4) < len(content):
-                content = content[:frame.command.word_count * 4]
+            start = read.word_ptr * 4
+            content = content[start:start + read.word_count * 4]
             # print(f'Content ({len(content) // 4} words): {content}')
             return std.TagFrame(
                 self._preamble, std.ReadReply(content, rn=self.rn))
-- 
2.43.0


From 1d232851a246ff40cade44e675a8c30761240882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:31 +0000
Subject: [PATCH 20/48] fix: a tag does not answer Read of a memory bank it
 does not have

---
 pysim/models/rfid/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index ebbf572..dff5a49 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1263,6 +1263,8 @@ class Tag:
             return None
         if read.rn == self.rn:
             content = self.bank_data(read.bank)
+            if content is None:  # такого банка у метки нет
+                return None
             # Извлекаем из банка ровно столько данных, сколько запрошено.
             # В команде указывается число слов (по два байта), а в content
             # лежит hex-строка, в которой каждый байт кодируется двумя
-- 
2.43.0


From 7e06fb3afa10741f458a2d242e19601b52204f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:33 +0000
Subject: [PATCH 21/48] fix: the floating Q starts from the configured Q

---
 pysim/models/rfid/configurator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 26e287f..96749df 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -133,7 +133,7 @@ class Settings:
     # (если есть значение по умолчанию в click, то не используется)
     # коэффициент, на который изменяется значение q
     adjust_delta: float = 0.1
-    q_fp: float = q
+    q_fp: float | None = None  # если не задано, то равно q
 
     # Значение поля Target команды Query, то есть флаг сессии, по которому
     # идет опрос меток. Ответ будут передавать только те метки, которые хранят
@@ -279,7 +279,7 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         'useadjust', settings.use_query_adjust
     )
     reader.adjust_delta = kwargs.get('delta', settings.adjust_delta)
-    reader.q_fp = settings.q_fp
+    reader.q_fp = settings.q_fp if settings.q_fp is not None else settings.q
     print(reader.use_query_adjust)
 
     # 2) Attaching antennas to reader
-- 
2.43.0


From 52745b485816affa9dfb6dbc5ce2496564208dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:34 +0000
Subject: [PATCH 22/48] fix: pass the QueryAdjust options to the simulations of
 an RFID series

---
 pysim/models/rfid/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/rfid/cli.py b/pysim/models/rfid/cli.py
index 5d45aab..c3553ca 100644
--- a/pysim/models/rfid/cli.py
+++ b/pysim/models/rfid/cli.py
@@ -144,6 +144,8 @@ def prepare_multiple_simulation(variadic, **kwargs):
         'power': kwargs['power'],
         'num_tags': kwargs['num_tags'],
         'verbose': False,
+        'useadjust': kwargs['useadjust'],
+        'delta': kwargs['delta'],
     } for _ in enumerate(variadic_values)]
 
     # Теперь заменим значения варьируемого аргумента, чтобы в каждом
-- 
2.43.0


From 0d454d4fd10ac9eb63616b6ea070431d52838359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:35 +0000
Subject: [PATCH 23/48] fix: an RFID series can be plotted for any varied
 option and in any directory

---
 pysim/models/rfid/processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index b05d60b..bd5a0ac 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -1,5 +1,6 @@
 import json
 import matplotlib.pyplot as plt
+import os
 from tabulate import tabulate
 import time
 
@@ -91,7 +92,7 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     results_dict = results_to_dict(ret)
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/plots/' + current_time + '-' + variadic + '.png'
-    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words'}
+    units = {'speed': 'km/h', 'reader_offset': 'm', 'altitude': 'm', 'power': 'dBm', 'tid_word_size': 'words', 'tag_offset': 'm'}
     
     fig, ax = plt.subplots(figsize=(14, 8), layout='constrained')
     ax.plot(
@@ -106,4 +107,5 @@ def plot_results(initial_data, results, variadic, save_fig = True):
     ax.tick_params(axis='both', which='major', labelsize=31)
     ax.grid()
     if save_fig:
+        os.makedirs('results/plots', exist_ok=True)
         fig.savefig(filename)
\ No newline at end of file
-- 
2.43.0


From 875575cfad3f2731a4355da301361c51c3350763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:37 +0000
Subject: [PATCH 24/48] fix: miss_rate is the share of missed pongs, not of
 received ones

---
 pysim/models/pingpong/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/handlers.py b/pysim/models/pingpong/handlers.py
index 1b1b3c9..ba93db4 100755
--- a/pysim/models/pingpong/handlers.py
+++ b/pysim/models/pingpong/handlers.py
@@ -21,6 +21,6 @@ def finalize(sim: Simulator) -> Result:
         avg_interval=statistics.mean(model.client.intervals_list),
         avg_delay=statistics.mean(model.channel.delays_list),
         miss_rate=(
-            model.client.num_acknowledged / model.client.num_pings_sent
+            1 - model.client.num_acknowledged / model.client.num_pings_sent
         ),
     )
-- 
2.43.0


From 0173c15e1eb2ad56356df319966669ee7505d500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:38 +0000
Subject: [PATCH 25/48] fix: count the interval after a lost ping, so that a
 run with every ping lost has a result

---
 pysim/models/pingpong/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index aac84bb..a9fed32 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -175,6 +175,9 @@ class Server(Node):
                 sim.context.client.interval,
                 sim.context.client.handle_timeout
             )
+            sim.context.client.intervals_list.append(
+                sim.context.client.interval
+            )
 
     def handle_service_end(self, sim: Simulator, ping: Packet) -> None:
         """
-- 
2.43.0


From 13642c456ad4eee91dfd70e61823292e5a039384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:40 +0000
Subject: [PATCH 26/48] fix: list the varied values of a ping-pong series in
 the order of its results

---
 pysim/models/pingpong/processing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 47ebaff..853cdf5 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -60,6 +60,8 @@ def result_processing(initial_data, results, variadic, save_results=False):
             res['avg_interval'].append(results[i].avg_interval),
             res['avg_delay'].append(results[i].avg_delay),
             res['miss_rate'].append(results[i].miss_rate)
+        # Симуляции запускались по возрастанию и без повторов
+        initial_data[variadic] = sorted(set(initial_data[variadic]))
     else:
         res = results.dict()
 
-- 
2.43.0


From ffab4e51421cefce5c4f5cd52581256a293f027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:41 +0000
Subject: [PATCH 27/48] fix: the second analytical case is exact, not cut at
 1000 transmissions

---
 pysim/models/tag_time/analitical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index f8cd192..076b1e4 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -51,8 +51,8 @@ def calculate_second_case(phases):
     '''
     res = 0
     for phase in phases:
-        for n in range(1000):
-            res += (n + 1) * phase[1] * phase[0] * ((1 - phase[0]) ** n)
+        # Сумма ряда (n + 1) * t * p * (1 - p)^n по всем n >= 0
+        res += phase[1] / phase[0]
     return res
 
 
-- 
2.43.0


From cf81ec98afb0ff6e31d3a77e379e1a36d48472a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:42 +0000
Subject: [PATCH 28/48] fix: the third analytical case takes the chunk phase,
 also for a single chunk

---
 pysim/models/tag_time/analitical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/tag_time/analitical_model.py b/pysim/models/tag_time/analitical_model.py
index 076b1e4..e9488af 100644
--- a/pysim/models/tag_time/analitical_model.py
+++ b/pysim/models/tag_time/analitical_model.py
@@ -95,7 +95,7 @@ def run_analitica(script_number, all_phases, chunks_number):
         for i in range(len(all_phases)):
             analit_res.append(
                 calculate_third_case(
-                    all_phases[i][0:3], all_phases[i][4], chunks_number
+                    all_phases[i][0:3], all_phases[i][3], chunks_number
                 )*1_000
             )
     return analit_res
-- 
2.43.0


From 41dd1ec141ecb53892e42fde14cf19c3c8d88f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:44 +0000
Subject: [PATCH 29/48] fix: compute T1 and T2 for the divide ratio of the
 exchange

---
 pysim/models/tag_time/calculate_params.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/tag_time/calculate_params.py b/pysim/models/tag_time/calculate_params.py
index fa8f5b0..7a98123 100644
--- a/pysim/models/tag_time/calculate_params.py
+++ b/pysim/models/tag_time/calculate_params.py
@@ -218,8 +218,10 @@ def prepare_probs(params, chunks_number, ber, points_number):
 
 
 def prepare_times(params, probs, chunks_number):
-    T1 = p.link_t1_max(rtcal=params['rtcal'], trcal=params['trcal'], dr=None)
-    T2 = p.link_t2_max(trcal=params['trcal'], dr=None)
+    T1 = p.link_t1_max(
+        rtcal=params['rtcal'], trcal=params['trcal'], dr=params['DR']
+    )
+    T2 = p.link_t2_max(trcal=params['trcal'], dr=params['DR'])
     T1_2 = T1 + T2
     delta = 1e-5
 
-- 
2.43.0


From bf8506487fa696bdfbb53bf6537b213dd333d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:45 +0000
Subject: [PATCH 30/48] fix: console_level and file_level below the common
 level take effect

---
 pysim/sim/logger.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index af5e50e..c27edc7 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -210,7 +210,11 @@ class ModelLogger:
             self._logger.addHandler(f_handler)
 
         self._logger.propagate = False
-        self._logger.setLevel(config.level)
+        # Порог логгера не должен отсекать записи, нужные обработчикам
+        self._logger.setLevel(min(
+            (handler.level for handler in self._logger.handlers),
+            default=config.level
+        ))
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From 35cb558b76eb4db7344718690848496b06ffa424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:46 +0000
Subject: [PATCH 31/48] fix: the configured file name separator is used

---
 pysim/sim/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index c27edc7..fe072ac 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -200,7 +200,8 @@ class ModelLogger:
             else:
                 file_name = ModelLogger.build_file_name(
                     config.file_name, 
-                    self._run_id
+                    self._run_id,
+                    config.file_name_sep
                 )
             
             # Каждый запуск создает отдельный файл, поэтому режим = 'w'
-- 
2.43.0


From 4e7a97b81a122552c8b2edeab1490bb44c8171a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:48 +0000
Subject: [PATCH 32/48] fix: records of non-standard levels reach the coloured
 console

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index fe072ac..35bc5a4 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -42,7 +42,9 @@ class ColoredFormatter(logging.Formatter):
         }
 
     def format(self, record):
-        log_fmt: logging.Formatter = self.FORMATS[record.levelno]
+        log_fmt = self.FORMATS.get(record.levelno)
+        if log_fmt is None:  # нестандартный уровень - без цвета
+            return super().format(record)
         return log_fmt.format(record)
 
 
-- 
2.43.0


From d77f9ea95c73b40b88fadb79e90278e416abe9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:49 +0000
Subject: [PATCH 33/48] fix: run_id=0 is kept

---
 pysim/sim/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 35bc5a4..0c96011 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -145,7 +145,9 @@ class ModelLogger:
         """
         self._logger = logging.getLogger(model_name)
         self.time_getter = time_getter or (lambda: 0)
-        self._run_id: int = run_id or uuid.uuid4().int % 1_000_000
+        self._run_id: int = (
+            run_id if run_id is not None else uuid.uuid4().int % 1_000_000
+        )
         self._setup_was_called: bool = False
     
     def set_time_getter(self, fn: Callable[[], float]) -> None:
-- 
2.43.0


From 963db9e6aef95fbd39ff4fcefc21ce08c15119a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:50 +0000
Subject: [PATCH 34/48] fix: the list of future events leaves out cancelled
 ones

---
 pysim/sim/simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index f2e38ad..b1731c9 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -264,7 +264,8 @@ class EventQueue:
         return len(self._event_dict) == 0
 
     def to_list(self):
-        return list(self._event_list)
+        # Отмененные события остаются в куче, но уже не запланированы
+        return [event for event in self._event_list if event[-1] is not None]
 
 
 class Kernel:
-- 
2.43.0


From 315c71604b67d84a458f0bd038a8a3f87c75f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:51 +0000
Subject: [PATCH 35/48] fix: tag_preamble_duration() falls back to the default
 encoding as documented by its signature

---
 pysim/models/rfid/epcstd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index 9c21f36..bdd4831 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -809,6 +809,7 @@ def tag_preamble_bitlen(encoding=None, trext=None):
 
 def tag_preamble_duration(blf=None, encoding=None, trext=None):
     blf = blf if blf is not None else get_blf()
+    encoding = encoding if encoding is not None else stdParams.tag_encoding
     bitlen = tag_preamble_bitlen(encoding, trext)
     return (bitlen * encoding.symbols_per_bit) / blf
 
-- 
2.43.0


From 436823df0465a71e3bdd4386eea7a1dde00edd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:52 +0000
Subject: [PATCH 36/48] fix: the configured persistence of session flags
 reaches the tags

---
 pysim/models/rfid/configurator.py | 3 +++
 pysim/models/rfid/objects.py      | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index 96749df..cefc767 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -324,6 +324,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
     generator.antenna_gain = settings.tag_antenna_gain
     generator.modulation_loss = settings.tag_modulation_loss
     generator.sensitivity = settings.tag_sensitivity
+    generator.s1_persistence = settings.s1_persistence
+    generator.s2_persistence = settings.s2_persistence
+    generator.s3_persistence = settings.s3_persistence
 
     generator.set_interval(
         settings.generation_interval[0],
diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index dff5a49..10df580 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1355,6 +1355,11 @@ class Generator:
     modulation_loss = -12.0  # dBm
     sensitivity = -18.0  # dBm
 
+    # Session flags persistence
+    s1_persistence = 2.0  # sec.
+    s2_persistence = 2.0  # sec.
+    s3_persistence = 2.0  # sec.
+
     def __init__(self):
         self._next_interval = (lambda: 1.0,)
         self._epc_suffix = None
@@ -1405,6 +1410,9 @@ class Generator:
         tag.antenna.cable_loss = self.cable_loss
         tag.sensitivity = self.sensitivity
         tag.modulation_loss = self.modulation_loss
+        tag.s1_persistence = self.s1_persistence
+        tag.s2_persistence = self.s2_persistence
+        tag.s3_persistence = self.s3_persistence
         return tag
 
 
-- 
2.43.0


From de15c50a2ee651ee624ba670b0576667085a09cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 37/48] fix: the timeout of a reader that is off is its
 powered-off interval

---
 pysim/models/rfid/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 10df580..2afb351 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -176,7 +176,7 @@ class _ReaderOFF(_ReaderState):
         super().__init__('OFF')
 
     def get_timeout(self, reader):
-        return reader.power_control_mode.power_off_interval(reader)
+        return reader.power_control_mode.powered_off_interval(reader)
 
     def enter(self, reader):
         # On turning off the reader must finish current round and power down.
-- 
2.43.0


From 71df724d1a6bebab7471e8ca6eddd993cae92824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 38/48] fix: count every ping without a pong as missed, and
 nothing before the first ping

---
 pysim/models/pingpong/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysim/models/pingpong/model.py b/pysim/models/pingpong/model.py
index a9fed32..b866d97 100755
--- a/pysim/models/pingpong/model.py
+++ b/pysim/models/pingpong/model.py
@@ -98,8 +98,9 @@ class Client(Node):
         assert self.channel is not None
         assert self.server is not None
 
-        if not self.was_acknowledged:
+        if self.num_pings_sent > 0 and not self.was_acknowledged:
             self.num_missed += 1
+        self.was_acknowledged = False
         self.number += 1
         if self.max_pings is None or self.num_pings_sent < self.max_pings:
             sim.logger.debug("client timeout, sending ping #%d", self.number)
-- 
2.43.0


From cb5ff1afc18bd9b4f88e4ec36ac7fda482d18ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 39/48] fix: build_simulation(debug=True) keeps the debug mode
 for the run

---
 pysim/sim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index b1731c9..35610eb 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -555,7 +555,7 @@ def build_simulation(
     kernel.set_debug(debug)
 
     # Запускаем модель и возвращаем все, что она вернет
-    return kernel.build_runner()
+    return kernel.build_runner(debug)
 
 
 def run_simulation(sim: Iterator[ExecResult]) -> ExecResult:
-- 
2.43.0


From 30361336fd63fed4cc140d13d1fd469652b37e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 40/48] fix: get_color() works without
 matplotlib.cm.get_cmap(), which no longer exists

---
 pysim/experiments/utility/graphs_style.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/experiments/utility/graphs_style.py b/pysim/experiments/utility/graphs_style.py
index f5bad32..c21c51e 100755
--- a/pysim/experiments/utility/graphs_style.py
+++ b/pysim/experiments/utility/graphs_style.py
@@ -40,7 +40,7 @@ def get_color(x: float):
     Returns:
         color
     """
-    return matplotlib.cm.get_cmap(CMAP_NAME)(x)
+    return matplotlib.colormaps[CMAP_NAME](x)
 
 
 def savefig(name: str, exts: Sequence[str] = IMAGE_EXTENSIONS,
-- 
2.43.0


From 154aa16f97b6cff59585028bfbc12047a6caf6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 41/48] fix: without a signal the SNR of a symbol is zero, not
 0.5

---
 pysim/models/rfid/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysim/models/rfid/channel.py b/pysim/models/rfid/channel.py
index b2caea7..70a625f 100755
--- a/pysim/models/rfid/channel.py
+++ b/pysim/models/rfid/channel.py
@@ -193,7 +193,7 @@ def snr(power, noise):
 def snr_full(*, snr, miller=1, symbol=1.25e-6, preamble=9.3e-6,
              bandwidth=1.2e6, tol=1e-8, **kwargs):
     if snr < tol:
-        return 0.5
+        return 0.
 
     # print(">>> miller={}, symbol={}, preamble={}, bandwidth={}".format(
     #     miller, symbol, preamble, bandwidth
-- 
2.43.0


From eadef684be48cc0a540f16ad023f09bc306485a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:30 +0000
Subject: [PATCH 42/48] fix: identifiers of scheduled events are greater than
 0, as documented

---
 pysim/sim/simulator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pysim/sim/simulator.py b/pysim/sim/simulator.py
index 35610eb..a691c7a 100755
--- a/pysim/sim/simulator.py
+++ b/pysim/sim/simulator.py
@@ -188,9 +188,10 @@ class EventQueue:
     Очередь событий, реализованная с помощью
     струкртуры данных "приоритетная куча (heapq)"
     '''
-    def __init__(self):
+    def __init__(self, first_id: int = 0):
         '''
         Args:
+            first_id - номер первого события
             _event_list - лист событий, который будет упорядочен,
                 как приоритетная минимальная куча
             _event_dict -  словарь, сопоставляющий задачи с записями в листе
@@ -199,7 +200,7 @@ class EventQueue:
         '''
         self._event_list = []
         self._event_dict = {}
-        self._next_id = itertools.count()
+        self._next_id = itertools.count(first_id)
         # self.removed = '<removed-task>'
 
     def push(self, time, task):
@@ -288,8 +289,8 @@ class Kernel:
         self._initializer: Initializer | None = None
         self._initializer_args: Iterable[Any] = ()
 
-        # Очередь событий
-        self._queue = EventQueue()
+        # Очередь событий (идентификаторы событий больше 0)
+        self._queue = EventQueue(first_id=1)
 
         # Время и часы
         self._sim_time = 0.0
-- 
2.43.0


From 6d8bc7572bc4702d3ebcd0a649a5dbaeae4bd44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 43/48] fix: a logger of level 0 records everything, not what
 its parent logger does

---
 pysim/sim/logger.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index 0c96011..b716235 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -215,11 +215,12 @@ class ModelLogger:
             self._logger.addHandler(f_handler)
 
         self._logger.propagate = False
-        # Порог логгера не должен отсекать записи, нужные обработчикам
-        self._logger.setLevel(min(
+        # Порог логгера не должен отсекать записи, нужные обработчикам. Ноль
+        # (NOTSET) логгер понял бы как порог родительского логгера.
+        self._logger.setLevel(max(1, min(
             (handler.level for handler in self._logger.handlers),
             default=config.level
-        ))
+        )))
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From d1b39edef6b9e5c19f13ac073f80e5084a57213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:18 +0000
Subject: [PATCH 44/48] fix: without outputs in its configuration a logger
 writes nothing to the console

---
 pysim/sim/logger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysim/sim/logger.py b/pysim/sim/logger.py
index b716235..1e70a59 100755
--- a/pysim/sim/logger.py
+++ b/pysim/sim/logger.py
@@ -221,6 +221,8 @@ class ModelLogger:
             (handler.level for handler in self._logger.handlers),
             default=config.level
         )))
+        if not self._logger.handlers:  # иначе важные записи попадут в консоль
+            self._logger.addHandler(logging.NullHandler())
         
         # Отменчаем, что настройка была выполнена.
         self._setup_was_called = True
-- 
2.43.0


From 4288530af1e4dcd452c86a990092a272ca12bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:48 +0000
Subject: [PATCH 45/48] fix: Query of another session leaves the flag of the
 session a tag was read in

---
 pysim/models/rfid/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysim/models/rfid/objects.py b/pysim/models/rfid/objects.py
index 2afb351..8f0e71b 100755
--- a/pysim/models/rfid/objects.py
+++ b/pysim/models/rfid/objects.py
@@ -1126,8 +1126,10 @@ class Tag:
         if self.state is Tag.State.OFF:
             return None
 
-        if self.state not in {Tag.State.READY, Tag.State.ARBITRATE,
-                              Tag.State.REPLY}:
+        # Query другой сессии не завершает опознание в прежней
+        if (self.state not in {Tag.State.READY, Tag.State.ARBITRATE,
+                               Tag.State.REPLY} and
+                command.session is self._active_session):
             flag = self.sessions[self._active_session]
             self.sessions[self._active_session] = flag.invert()
 
-- 
2.43.0


From 60c342cce1aebc8da9d1a44e4eebea3377af9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:25 +0000
Subject: [PATCH 46/48] fix: results are saved in any directory, not only where
 the folders exist

---
 pysim/models/pingpong/processing.py | 2 ++
 pysim/models/rfid/processing.py     | 1 +
 pysim/models/tag_time/processing.py | 3 +++
 3 files changed, 6 insertions(+)

diff --git a/pysim/models/pingpong/processing.py b/pysim/models/pingpong/processing.py
index 853cdf5..b17458e 100644
--- a/pysim/models/pingpong/processing.py
+++ b/pysim/models/pingpong/processing.py
@@ -1,4 +1,5 @@
 import json
+import os
 from tabulate import tabulate
 import time
 
@@ -6,6 +7,7 @@ import time
 def save_results_to_file(initial_data, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/' + 'model_res-' + current_time + '.txt'
+    os.makedirs('results', exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
diff --git a/pysim/models/rfid/processing.py b/pysim/models/rfid/processing.py
index bd5a0ac..a69255c 100644
--- a/pysim/models/rfid/processing.py
+++ b/pysim/models/rfid/processing.py
@@ -83,6 +83,7 @@ def save_mult_results_to_file(initial_data, results, variadic):
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
     ret, time_list = separate_res(results)
     results_dict = results_to_dict(ret)
+    os.makedirs('results/text', exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(initial_data) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(results_dict))
diff --git a/pysim/models/tag_time/processing.py b/pysim/models/tag_time/processing.py
index 0d7cd29..2a3cab4 100644
--- a/pysim/models/tag_time/processing.py
+++ b/pysim/models/tag_time/processing.py
@@ -1,5 +1,6 @@
 import json
 import matplotlib.pyplot as plt
+import os
 import time
 
 
@@ -23,6 +24,7 @@ def result_processing(kwargs, result, save_res=True, plot_res=False):
 def save_results(kwargs, res):
     current_time = time.strftime('%Y%m%d_%H%M%S', time.localtime())
     filename = 'results/text/' + 'sim_res-' + current_time + '.txt'
+    os.makedirs('results/text', exist_ok=True)
     with open(filename, 'w') as f:
         f.write('Входные параметры: ' + json.dumps(kwargs) + '\n')
         f.write('Результаты моделирования: ' + json.dumps(res))
@@ -39,4 +41,5 @@ def plot_results(kwargs, res, save_fig=True):
         markersize=8,
     )
     if save_fig:
+        os.makedirs('results/plots', exist_ok=True)
         fig.savefig(filename)
-- 
2.43.0


From b66b90e43f3fe7fdd1c88282004e9094a1406bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:04 +0000
Subject: [PATCH 47/48] fix: command_duration() knows QueryAdjust

---
 pysim/models/rfid/epcstd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysim/models/rfid/epcstd.py b/pysim/models/rfid/epcstd.py
index bdd4831..b633263 100755
--- a/pysim/models/rfid/epcstd.py
+++ b/pysim/models/rfid/epcstd.py
@@ -850,12 +850,14 @@ def command_duration(command_code,
                      tari=None, rtcal=None, trcal=None, delim=None, dr=None,
                      m=None, trext=None, sel=None, session=None, target=None,
                      q=None, rn=None, bank=None, word_ptr=None,
-                     word_count=None, crc5=None, crc16=None):
+                     word_count=None, crc5=None, crc16=None, updn=0):
     if command_code is CommandCode.QUERY:
         return query_duration(tari, rtcal, trcal, delim, dr, m, trext, sel,
                               session, target, q, crc5)
     elif command_code is CommandCode.QUERY_REP:
         return query_rep_duration(tari, rtcal, trcal, delim, session)
+    elif command_code is CommandCode.QUERY_ADJUST:
+        return query_adjust_duration(delim, tari, rtcal, session, updn)
     elif command_code is CommandCode.ACK:
         return ack_duration(tari, rtcal, trcal, delim, rn)
     elif command_code is CommandCode.REQ_RN:
-- 
2.43.0


From 4f2ff746cfe419b499653e4d22c441e346f05b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 48/48] fix: the option -v prints the settings of the RFID
 model

---
 pysim/models/rfid/configurator.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pysim/models/rfid/configurator.py b/pysim/models/rfid/configurator.py
index cefc767..f731b6c 100644
--- a/pysim/models/rfid/configurator.py
+++ b/pysim/models/rfid/configurator.py
@@ -332,6 +332,9 @@ def create_model(settings=None, verbose=False, **kwargs) -> Model:
         settings.generation_interval[0],
         *settings.generation_interval[1:])
 
+    if verbose:
+        print_model_settings(model)
+
     return model
 
 
@@ -355,7 +358,7 @@ def run_model(
     return result
 
 
-def print_model_settings(model: Model, kernel: sim.Kernel):
+def print_model_settings(model: Model):
     reader = model.reader
     medium = model.medium
     generator = model.generators[0]
@@ -418,9 +421,5 @@ def print_model_settings(model: Model, kernel: sim.Kernel):
         ('tag', 'modulation_loss', generator.modulation_loss),
         ('tag', 'sensitivity', generator.sensitivity),
         ('generator', 'num_tags', generator.max_tags_generated),
-        # --- Kernel ---
-        ('kernel', 'max_simulation_time', kernel.max_simulation_time),
-        ('kernel', 'max_real_time', kernel.max_real_time),
-        ('kernel', 'logger_level', kernel.logger.level),
     ]
     print(tabulate(rows))
-- 
2.43.0

