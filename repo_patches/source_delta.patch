From 834d71d211d81c0c8c2869c19722235c264a110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:01 +0000
Subject: [PATCH 01/65] fix: escape message values in the XML templates

---
 openleadr/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..a812ec9 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -216,7 +216,7 @@ REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From 205011cb457999ffd230217f9ba1dcdc67959ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:01 +0000
Subject: [PATCH 02/65] fix: format zero and negative durations as valid
 RFC5545 durations

---
 openleadr/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..f936e0c 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -331,9 +331,13 @@ def timedeltaformat(value):
     """
     if not isinstance(value, timedelta):
         return value
+    if value < timedelta(0):
+        return "-" + timedeltaformat(-value)
     days = value.days
     hours, seconds = divmod(value.seconds, 3600)
     minutes, seconds = divmod(seconds, 60)
+    if not (days or hours or minutes or seconds):
+        return "PT0S"
     formatted = "P"
     if days:
         formatted += f"{days}D"
-- 
2.43.0


From ca814f1cb4740776099182697dfec79468f56cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:01 +0000
Subject: [PATCH 03/65] fix: parse durations in weeks, reject durations with
 trailing characters

---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index f936e0c..e4cb3be 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -290,8 +290,8 @@ def parse_duration(value):
     """
     if isinstance(value, timedelta):
         return value
-    regex = r'(\+|\-)?P(?:(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)|(?:(\d+)W)'
-    matches = re.match(regex, value)
+    regex = r'(\+|\-)?P?(?:(?<=P)(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?|(?:(\d+)W))'
+    matches = re.fullmatch(regex, value)
     if not matches:
         raise ValueError(f"The duration '{value}' did not match the requested format")
     years, months, days, hours, minutes, seconds, weeks = (int(g) if g else 0 for g in matches.groups()[1:])
-- 
2.43.0


From bcb83152c2c853ff1e20682bf5b76489a2b0319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 04/65] fix: do not turn identifiers and free text into numbers
 or booleans when parsing

---
 openleadr/utils.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index e4cb3be..008f069 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -31,6 +31,12 @@ logger = logging.getLogger('openleadr')
 DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S.%fZ"
 DATETIME_FORMAT_NO_MICROSECONDS = "%Y-%m-%dT%H:%M:%SZ"
 
+# Message elements that hold free text, which must never be interpreted as a number or boolean.
+# All identifiers (ending in '_id') are text as well.
+TEXT_ELEMENTS = ('vtn_comment', 'response_description', 'ven_name', 'group_name', 'mrid',
+                 'market_context', 'modification_reason', 'item_description', 'item_units',
+                 'description', 'unit', 'transport_address', 'data_quality')
+
 
 def generate_id(*args, **kwargs):
     """
@@ -95,12 +101,17 @@ def normalize_dict(ordered_dict):
             d[key] = parse_duration(value)
         elif ("date_time" in key or key == "dtstart") and isinstance(value, str):
             d[key] = parse_datetime(value)
+        elif isinstance(value, str) and key.endswith('request_id'):
+            # Numeric request ids are given as an int, as long as that does not change their value
+            d[key] = int(value) if re.match(r'^(0|-?[1-9][0-9]*)$', value) else value
+        elif isinstance(value, str) and (key.endswith('_id') or key in TEXT_ELEMENTS):
+            d[key] = value
         elif value in ('true', 'false'):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
             if re.match(r'^-?\d+$', value):
                 d[key] = int(value)
-            elif re.match(r'^-?[\d.]+$', value):
+            elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From c958ee3c7c713a612c619dbfc03328aa9379046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 05/65] fix: parse integer report payloads

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 008f069..7682a25 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -249,7 +249,7 @@ def normalize_dict(ordered_dict):
                 v = d[key].pop('payload_float')
                 d[key]['value'] = float(v['value'])
             elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_float')
+                v = d[key].pop('payload_int')
                 d[key]['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
-- 
2.43.0


From add926ad8ada2768de697787cb8f907bd6272cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 06/65] fix: normalize all measurements when one report
 description has none

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 7682a25..d412f71 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -200,7 +200,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From 1cf2c459a80f7382e8c2cc4ae1a17915c28c12b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 07/65] fix: correct the name of the currencyPerKW measurement

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 62169c9d1c967700ded566150ae5cb0ede3233fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 08/65] fix: answer HTTP 400 to a request with a wrong
 Content-Type

---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..a6ed507 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From f81d29e300ef24197da5addb0c61e40bdeb699f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 09/65] fix: distribute a list of events that is returned by an
 on_poll handler

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..594cb7a 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -132,7 +132,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From 3b3eaa3e361ceaa74d441a7ca6fe70558e076bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 10/65] fix: do not lose an event update that happens while a
 poll is being answered

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 594cb7a..8c152dc 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -120,8 +120,8 @@ class PollService(VTNService):
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
             # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
             self.events_updated[payload['ven_id']] = False
+            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From d3eb70c926f48e46395f15a6eaded10112c44cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 11/65] fix: handle responses to completed events and responses
 from unknown VENs

---
 openleadr/service/event_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..2996d92 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -94,7 +94,7 @@ class EventService(VTNService):
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
@@ -104,7 +104,7 @@ class EventService(VTNService):
                                        f"""{modification_number} that does not exist.""")
                         raise errors.InvalidIdError
                 # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
                 if event_response['event_id'] in self.event_callbacks:
                     event, callback = self.event_callbacks.pop(event_id)
-- 
2.43.0


From b812b82cd7a600cb7211e5975def8c97e3f6922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 12/65] fix: communicate the completion of the only event in
 the queue

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index d412f71..16f669f 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -832,7 +832,7 @@ def order_events(events, limit=None, offset=None):
 
     # Short circuit if we only have one event:
     if len(events) == 1:
-        return events
+        return list(events)
 
     # Get all the active events first
     active_events = [event for event in events
-- 
2.43.0


From 5a23b787e93a26a9e303add4f4e3cdedb0d68f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:02 +0000
Subject: [PATCH 13/65] fix: let the priority of active events take precedence
 over their start time

---
 openleadr/utils.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 16f669f..44a3309 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -840,11 +840,9 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
-    # Sort the active events by start date
+    # Sort the active events by priority, and those with the same priority by start date
     active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
+    active_events.sort(key=lambda e: event_priority(e))
 
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
-- 
2.43.0


From a4abd970c0ab2c9c7903fcea14c804196d62325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:28 +0000
Subject: [PATCH 14/65] fix: keep the active period that is given with a raw
 event

---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..352c015 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From f18746d600ae134844b604b665073a93a4f50238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:28 +0000
Subject: [PATCH 15/65] fix: keep the callbacks of events for different VENs
 apart

---
 openleadr/server.py                | 4 ++--
 openleadr/service/event_service.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 352c015..1a889f2 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -311,9 +311,9 @@ class OpenADRServer:
 
         # Add the callback for the response to this event
         if callback is not None:
-            self.event_callbacks[event_id] = (event, callback)
+            self.event_callbacks[(ven_id, event_id)] = (event, callback)
         if delivery_callback is not None:
-            self.event_delivery_callbacks[event_id] = delivery_callback
+            self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback
         return event_id
 
     def cancel_event(self, ven_id, event_id):
diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 2996d92..08a4c7e 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -68,8 +68,8 @@ class EventService(VTNService):
             # Fire the delivery callbacks, if any
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if event_id in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[event_id]())
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
@@ -106,8 +106,8 @@ class EventService(VTNService):
                 # Remove the event from the events list if the cancellation is confirmed.
                 elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
-                if event_response['event_id'] in self.event_callbacks:
-                    event, callback = self.event_callbacks.pop(event_id)
+                if (ven_id, event_id) in self.event_callbacks:
+                    event, callback = self.event_callbacks.pop((ven_id, event_id))
                     if isinstance(callback, asyncio.Future):
                         if callback.done():
                             logger.warning(f"Got a second response '{opt_type}' from ven '{ven_id}' "
-- 
2.43.0


From 54cb1a875c6e15869fc6a0e7d62b5dc0fc61cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:28 +0000
Subject: [PATCH 16/65] fix: keep the settings of multiple servers in one
 process apart

---
 openleadr/server.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 1a889f2..4f29d2f 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -15,8 +15,7 @@
 # limitations under the License.
 
 from aiohttp import web
-from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
-                              VTNService
+from openleadr.service import EventService, PollService, RegistrationService, ReportService
 from openleadr.messaging import create_message
 from openleadr import objects, enums, utils
 from functools import partial
@@ -81,16 +80,17 @@ class OpenADRServer:
         self.app = web.Application()
         self.services = {}
 
-        # Globally enable or disable the verification of message
-        # signatures. Only used in combination with TLS.
-        VTNService.verify_message_signatures = verify_message_signatures
-
         # Create the separate OpenADR services
         self.services['event_service'] = EventService(vtn_id)
         self.services['report_service'] = ReportService(vtn_id)
         self.services['poll_service'] = PollService(vtn_id)
         self.services['registration_service'] = RegistrationService(vtn_id, poll_freq=requested_poll_freq)
 
+        # Enable or disable the verification of message signatures for
+        # all services. Only used in combination with TLS.
+        for service in self.services.values():
+            service.verify_message_signatures = verify_message_signatures
+
         # Register the other services with the poll service
         self.services['poll_service'].event_service = self.services['event_service']
         self.services['poll_service'].report_service = self.services['report_service']
@@ -136,20 +136,23 @@ class OpenADRServer:
                     print(utils.certificate_domain(cert).center(80))
                 print("*" * 80)
                 print("")
-        VTNService._create_message = partial(create_message, cert=cert, key=key,
-                                             passphrase=passphrase)
+        for service in self.services.values():
+            service._create_message = partial(create_message, cert=cert, key=key,
+                                              passphrase=passphrase)
         if fingerprint_lookup is not None:
             logger.warning("DeprecationWarning: the argument 'fingerprint_lookup' is deprecated and "
                            "is replaced by 'ven_lookup'. 'fingerprint_lookup' will be removed in a "
                            "future version of OpenLEADR. Please see "
                            "https://openleadr.org/docs/server.html#things-you-should-implement.")
-            VTNService.fingerprint_lookup = staticmethod(fingerprint_lookup)
+            for service in self.services.values():
+                service.fingerprint_lookup = fingerprint_lookup
         if ven_lookup is None:
             logger.warning("If you provide a 'ven_lookup' to your OpenADRServer() init, OpenLEADR can "
                            "automatically issue ReregistrationRequests for VENs that don't exist in "
                            "your system. Please see https://openleadr.org/docs/server.html#things-you-should-implement.")
         else:
-            VTNService.ven_lookup = staticmethod(ven_lookup)
+            for service in self.services.values():
+                service.ven_lookup = ven_lookup
         self.__setattr__ = self.add_handler
 
     async def run(self):
-- 
2.43.0


From 897634c435355ab837831c8039f5e6e6defc708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 17/65] fix: always return a (type, payload) tuple for an empty
 response from the VTN

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..c617286 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1105,7 +1105,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From fbda114a518b9bf7c44d3f4858f800520fedff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 18/65] fix: handle the VTN's cancellation of a report, and
 keep sending reports after an error

---
 openleadr/client.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index c617286..50a09c4 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -980,18 +980,16 @@ class OpenADRClient:
             while True:
                 report = await self.pending_reports.get()
                 service = 'EiReport'
-                message = self._create_message('oadrUpdateReport',
-                                               ven_id=self.ven_id,
-                                               request_id=utils.generate_id(),
-                                               reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
-                except Exception as err:
-                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
-                else:
+                    message = self._create_message('oadrUpdateReport',
+                                                   ven_id=self.ven_id,
+                                                   request_id=utils.generate_id(),
+                                                   reports=[report])
+                    response_type, response_payload = await self._perform_request(service, message)
                     if 'cancel_report' in response_payload:
                         await self.cancel_report(response_payload['cancel_report'])
+                except Exception as err:
+                    logger.error(f"Unable to send the report to the VTN. Error: {err}")
         except asyncio.CancelledError:
             return
 
-- 
2.43.0


From 69e2fe6fd8deb60c8023b2da4dba6b9a0fe8ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:31 +0000
Subject: [PATCH 19/65] fix: keep the report requests from one message apart

---
 openleadr/client.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 50a09c4..08016f6 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -723,10 +723,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
@@ -818,8 +818,7 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
+                        report_callback = partial(self.update_report, report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
-- 
2.43.0


From bdfe83de2e830b1da4df3121232bc8ef8dcd2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 20/65] fix: send incremental reports that are completed by
 their first sample

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 08016f6..cdd0eb1 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -918,9 +918,10 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
+            if len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+                self.incomplete_reports.pop(report_request_id, None)
+                await self.pending_reports.put(outgoing_report)
             else:
                 logger.debug("The report is not yet complete, will hold until it is.")
                 self.incomplete_reports[report_request_id] = outgoing_report
-- 
2.43.0


From ec37c72409724cd6b6e22066e56bd0f2c70ad635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 21/65] fix: opt out of only the event whose handler failed,
 and repeat responses consistently

---
 openleadr/client.py | 47 +++++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index cdd0eb1..7490d83 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1154,33 +1154,33 @@ class OpenADRClient:
                 modification_number = event['event_descriptor']['modification_number']
                 logger.info("The VEN received an event with event_id: %s, status: %s, modification_number: %s", event_id, event_status, modification_number) # change to debug
                 received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
-                if received_event:
-                    if received_event['event_descriptor']['modification_number'] == modification_number:
-                        # Re-submit the same opt type as we already had previously
-                        result = self.responded_events[event_id]
+                try:
+                    if received_event:
+                        if received_event['event_descriptor']['modification_number'] == modification_number:
+                            # Re-submit the same opt type as we already had previously
+                            result = self.responded_events.get(event_id)
+                        else:
+                            # Replace the event with the fresh copy
+                            utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                            self.received_events.append(event)
+                            # Wait for the result of the on_update_event handler
+                            result = await utils.await_if_required(self.on_update_event(event))
                     else:
-                        # Replace the event with the fresh copy
-                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                        # Wait for the result of the on_event
                         self.received_events.append(event)
-                        # Wait for the result of the on_update_event handler
-                        result = await utils.await_if_required(self.on_update_event(event))
-                else:
-                    # Wait for the result of the on_event
-                    self.received_events.append(event)
-                    result = self.on_event(event)
-                if asyncio.iscoroutine(result):
-                    result = await result
-                results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
-            for i, result in enumerate(results):
-                if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
+                        result = self.on_event(event)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                except Exception as err:
+                    logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
+                                 f"The error was {err.__class__.__name__}: {str(err)}")
+                    result = 'optOut'
+                if result not in ('optIn', 'optOut') and event['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
                                  f"you supplied {result}. Please fix your on_event handler.")
-                    results[i] = 'optOut'
+                    result = 'optOut'
+                results.append(result)
+                self.responded_events[event_id] = result
         except Exception as err:
             logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
                          f"The error was {err.__class__.__name__}: {str(err)}")
@@ -1256,6 +1256,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From 73e408b1778ed451e9dd3936a6e490c06ad81e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 22/65] fix: do not find an item of which an intermediate
 member is missing

---
 openleadr/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 44a3309..3e553aa 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -469,6 +469,7 @@ def find_by(dict_or_list, key, value, *args):
             keys = key.split(".")
             for key in keys[:-1]:
                 if not hasmember(_item, key):
+                    _item = {}
                     break
                 _item = getmember(_item, key)
             key = keys[-1]
-- 
2.43.0


From 2fb1c6b4209112334eabe6a56106aec3744c969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 23/65] fix: leave out an unset transport address in a
 registration request

---
 openleadr/templates/oadrCreatePartyRegistration.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/templates/oadrCreatePartyRegistration.xml b/openleadr/templates/oadrCreatePartyRegistration.xml
index 0815205..e7cbffa 100644
--- a/openleadr/templates/oadrCreatePartyRegistration.xml
+++ b/openleadr/templates/oadrCreatePartyRegistration.xml
@@ -9,7 +9,9 @@
     {% endif %}
     <oadr:oadrProfileName>{{ profile_name }}</oadr:oadrProfileName>
     <oadr:oadrTransportName>{{ transport_name }}</oadr:oadrTransportName>
+    {% if transport_address is defined and transport_address is not none %}
     <oadr:oadrTransportAddress>{{ transport_address }}</oadr:oadrTransportAddress>
+    {% endif %}
     <oadr:oadrReportOnly>{{ report_only|booleanformat }}</oadr:oadrReportOnly>
     <oadr:oadrXmlSignature>{{ xml_signature|booleanformat }}</oadr:oadrXmlSignature>
     <oadr:oadrVenName>{{ ven_name }}</oadr:oadrVenName>
-- 
2.43.0


From 0f66ab7e42265af9ed803e99aec88878cf65d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:32 +0000
Subject: [PATCH 24/65] fix: allow a current_value for active SIMPLE events

---
 openleadr/preflight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index d3eca74..8068748 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -102,7 +102,7 @@ def _preflight_oadrDistributeEvent(message_payload):
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
-                        and event['event_descriptor']['event_status'] != "ACTIVE":
+                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-- 
2.43.0


From 31bc8042bd2358d90197c2b4dbedf5765ccf73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 25/65] fix: do not share measurements between reports, and
 honor the measurement options of add_report

---
 openleadr/client.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 7490d83..51665de 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -20,6 +20,7 @@ import logging
 import ssl
 from datetime import datetime, timedelta, timezone
 from dataclasses import asdict
+from copy import deepcopy
 from functools import partial
 from http import HTTPStatus
 
@@ -301,32 +302,39 @@ class OpenADRClient:
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
         elif isinstance(measurement, objects.Measurement):
-            item_base = measurement
+            item_base = deepcopy(measurement)
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = measurement.get('power_attributes')
+            if isinstance(power_attributes, dict):
+                power_attributes = objects.PowerAttributes(**power_attributes)
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
                                             scale=measurement.get('scale'),
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
-            item_base = enums.MEASUREMENTS[measurement.upper()]
+            item_base = deepcopy(enums.MEASUREMENTS[measurement.upper()])
+            if item_base.power_attributes is not None:
+                item_base.power_attributes = objects.PowerAttributes(hertz=power_hertz,
+                                                                     voltage=power_voltage,
+                                                                     ac=power_ac)
+            if unit in item_base.acceptable_units:
+                item_base.unit = unit
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
                                             unit=unit,
                                             scale=scale)
 
-        if report_name != 'TELEMETRY_STATUS' and scale is not None:
-            if item_base.scale is not None:
-                if scale in enums.SI_SCALE_CODE.values:
-                    item_base.scale = scale
-            else:
-                raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
+        # The scale applies to all measurements, except those that use a pulse factor. The
+        # default scale does not replace the scale of a measurement that you defined yourself.
+        if item_base is not None and item_base.pulse_factor is None:
+            if isinstance(measurement, str) or item_base.scale is None or scale != 'none':
+                item_base.scale = scale
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
+        if item_base is not None and unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
             logger.warning(f"The supplied unit {unit} for measurement {measurement} "
                            f"will be ignored, {item_base.unit} will be used instead. "
                            f"Allowed units for this measurement are: "
@@ -363,7 +371,7 @@ class OpenADRClient:
                                                        market_context=market_context)
         self.report_callbacks[(report.report_specifier_id, r_id)] = callback
         report.report_descriptions.append(report_description)
-        return report_specifier_id, r_id
+        return report.report_specifier_id, r_id
 
     def add_hook(self, hook_name, handler):
         """
-- 
2.43.0


From dc0c55f9fbf879a686cb5d53cf7e68402d20183e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 26/65] fix: skip invalid report requests from an
 on_register_report handler

---
 openleadr/service/report_service.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..17d3323 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -158,6 +158,17 @@ class ReportService(VTNService):
             report_requests.append(results)
         utils.validate_report_request_tuples(report_requests, mode=mode)
 
+        # Leave out the data points that were not requested, or not in a valid way
+        for i, report_request in enumerate(report_requests):
+            if report_request is not None:
+                offered = [rd['r_id'] for rd in payload['reports'][i]['report_descriptions']]
+                for rrq in report_request:
+                    if rrq is not None and rrq[0] not in offered:
+                        logger.error("Your on_register_report handler requested an r_id that was "
+                                     f"not offered by the VEN: {rrq[0]}.")
+                report_requests[i] = [rrq for rrq in report_request
+                                      if rrq is not None and rrq[0] in offered]
+
         for i, report_request in enumerate(report_requests):
             if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
                 continue
@@ -178,10 +189,11 @@ class ReportService(VTNService):
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
             specifier_payloads = []
+            granularity = min(rrq[2] for rrq in report_request)
             for rrq in report_request:
                 if len(rrq) == 3:
                     r_id, callback, sampling_interval = rrq
-                    report_interval = sampling_interval
+                    report_interval = granularity
                 elif len(rrq) == 4:
                     r_id, callback, sampling_interval, report_interval = rrq
 
@@ -194,7 +206,7 @@ class ReportService(VTNService):
 
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
-                                                       granularity=sampling_interval,
+                                                       granularity=granularity,
                                                        report_back_duration=report_interval,
                                                        specifier_payloads=specifier_payloads)
 
-- 
2.43.0


From 763321770ed3ad46014daa1d847620549b3d0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 27/65] fix: accept an oadrCreatedReport from a VEN of which no
 reports were requested

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17d3323..8cff575 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -296,7 +296,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
-- 
2.43.0


From 54fbe44e8300cdddf7a2561e5c3d35c0888c5728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 28/65] fix: accept an oadrUpdateReport that has a report
 without intervals

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 8cff575..7c40a65 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -247,7 +247,7 @@ class ReportService(VTNService):
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-- 
2.43.0


From f70fe0d65869f5ca6a940d9db4e2e8dca2641a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:52 +0000
Subject: [PATCH 29/65] fix: order events without a priority (None) as lowest
 priority instead of failing

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 3e553aa..fdf3eb2 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -812,7 +812,7 @@ def order_events(events, limit=None, offset=None):
     def event_priority(event):
         # The default and lowest priority is 0, which we should interpret as a high value.
         priority = getmember(event, 'event_descriptor.priority', missing=float('inf'))
-        if priority == 0:
+        if not priority:
             priority = float('inf')
         return priority
 
-- 
2.43.0


From b8d21c456558ea937be3b35f098df6bc24176bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:48 +0000
Subject: [PATCH 30/65] fix: put all targets of an opt in a single eiTarget
 element

---
 openleadr/templates/oadrCreateOpt.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..cf6ac9b 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -32,9 +32,9 @@
     </ei:qualifiedEventID>
     {% endif %}
     {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
-    {% endfor %}
+    {% with event = {'targets': targets} %}
+    {% include 'parts/eiEventTarget.xml' %}
+    {% endwith %}
     {% else %}
     <ei:eiTarget/>
     {% endif %}
-- 
2.43.0


From dcdd1e3b6855a25747c574aa8d650cd284918690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 31/65] fix: use scale 'none' for a measurement without a scale

---
 openleadr/templates/parts/eventSignalEmix.xml       | 2 +-
 openleadr/templates/parts/reportDescriptionEmix.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/templates/parts/eventSignalEmix.xml b/openleadr/templates/parts/eventSignalEmix.xml
index 699d2f9..6cbd5ab 100644
--- a/openleadr/templates/parts/eventSignalEmix.xml
+++ b/openleadr/templates/parts/eventSignalEmix.xml
@@ -3,7 +3,7 @@
     <{{ event_signal.measurement.ns }}:itemDescription>{{ event_signal.measurement.description }}</{{ event_signal.measurement.ns }}:itemDescription>
     <{{ event_signal.measurement.ns }}:itemUnits>{{ event_signal.measurement.unit }}</{{ event_signal.measurement.ns }}:itemUnits>
     {% if event_signal.measurement.pulse_factor %}<oadr:pulseFactor>{{ event_signal.measurement.pulse_factor }}</oadr:pulseFactor>{% else %}
-    <scale:siScaleCode>{{ event_signal.measurement.scale }}</scale:siScaleCode>
+    <scale:siScaleCode>{{ event_signal.measurement.scale or 'none' }}</scale:siScaleCode>
     {% endif %}
     {% if event_signal.measurement.power_attributes %}
     <power:powerAttributes>
diff --git a/openleadr/templates/parts/reportDescriptionEmix.xml b/openleadr/templates/parts/reportDescriptionEmix.xml
index cacee75..b53030a 100644
--- a/openleadr/templates/parts/reportDescriptionEmix.xml
+++ b/openleadr/templates/parts/reportDescriptionEmix.xml
@@ -3,7 +3,7 @@
     <{{ report_description.measurement.ns }}:itemDescription>{{ report_description.measurement.description }}</{{ report_description.measurement.ns }}:itemDescription>
     <{{ report_description.measurement.ns }}:itemUnits>{{ report_description.measurement.unit }}</{{ report_description.measurement.ns }}:itemUnits>
     {% if report_description.measurement.pulse_factor %}<oadr:pulseFactor>{{ report_description.measurement.pulse_factor }}</oadr:pulseFactor>{% else %}
-    <scale:siScaleCode>{{ report_description.measurement.scale }}</scale:siScaleCode>
+    <scale:siScaleCode>{{ report_description.measurement.scale or 'none' }}</scale:siScaleCode>
     {% endif %}
     {% if report_description.measurement.power_attributes %}
     <power:powerAttributes>
-- 
2.43.0


From 7a0ab88feb6585cc0cbc1c0f6a589fb20174d840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 32/65] fix: omit the priority element of an event dict without
 a priority

---
 openleadr/templates/parts/eiEventDescriptor.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/parts/eiEventDescriptor.xml b/openleadr/templates/parts/eiEventDescriptor.xml
index 8b4de05..91486ac 100644
--- a/openleadr/templates/parts/eiEventDescriptor.xml
+++ b/openleadr/templates/parts/eiEventDescriptor.xml
@@ -7,7 +7,7 @@
     {% if event.event_descriptor.modification_reason is defined and event.event_descriptor.modification_reason is not none %}
     <ei:modificationReason>{{ event.event_descriptor.modification_reason }}</ei:modificationReason>
     {% endif %}
-    {%if event.event_descriptor.priority is not none %}
+    {%if event.event_descriptor.priority is defined and event.event_descriptor.priority is not none %}
     <ei:priority>{{ event.event_descriptor.priority }}</ei:priority>
     {% endif %}
     <ei:eiMarketContext>
-- 
2.43.0


From 047670db3ab85185609e03e2d194485bb60e9b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 33/65] fix: check that the signature covers the
 oadrSignedObject that is processed

---
 openleadr/messaging.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index a812ec9..b85ff44 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -18,6 +18,7 @@ from lxml import etree
 import xmltodict
 from jinja2 import Environment, PackageLoader
 from signxml import XMLSigner, XMLVerifier, methods
+from signxml.exceptions import InvalidSignature
 from uuid import uuid4
 from lxml.etree import Element
 from openleadr import errors
@@ -109,7 +110,8 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
             raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
-    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+    results = VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+    _verify_signed_object(xml_tree, [result.signed_xml for result in results])
     _verify_replay_protect(xml_tree)
 
 
@@ -187,6 +189,19 @@ def _create_replay_protect():
     return el
 
 
+def _verify_signed_object(xml_tree, signed_parts):
+    """
+    Verify that the oadrSignedObject in the message is what the signature was made over.
+    """
+    def canonical(element):
+        return etree.tostring(element, method='c14n', exclusive=True, with_comments=False)
+
+    signed_object = xml_tree.find("{http://openadr.org/oadr-2.0b/2012/07}oadrSignedObject")
+    if signed_object is None or canonical(signed_object) not in [canonical(part) for part in signed_parts
+                                                                 if part is not None]:
+        raise InvalidSignature("The message signature does not cover the oadrSignedObject.")
+
+
 def _verify_replay_protect(xml_tree):
     try:
         ns = "{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}"
-- 
2.43.0


From d9a7238299fa66d768fa2ead635e6d58af2f8d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:07 +0000
Subject: [PATCH 34/65] fix: take the replay protection values from the signed
 part of the message

---
 openleadr/messaging.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index b85ff44..04ebaf3 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -111,8 +111,12 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
     results = VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
-    _verify_signed_object(xml_tree, [result.signed_xml for result in results])
-    _verify_replay_protect(xml_tree)
+    signed_parts = [result.signed_xml for result in results if result.signed_xml is not None]
+    _verify_signed_object(xml_tree, signed_parts)
+    # Values outside of the signed parts could have been added by anyone
+    signed_tree = Element('signed')
+    signed_tree.extend(signed_parts)
+    _verify_replay_protect(signed_tree)
 
 
 def validate_xml_signature_none(xml_tree):
@@ -197,8 +201,7 @@ def _verify_signed_object(xml_tree, signed_parts):
         return etree.tostring(element, method='c14n', exclusive=True, with_comments=False)
 
     signed_object = xml_tree.find("{http://openadr.org/oadr-2.0b/2012/07}oadrSignedObject")
-    if signed_object is None or canonical(signed_object) not in [canonical(part) for part in signed_parts
-                                                                 if part is not None]:
+    if signed_object is None or canonical(signed_object) not in [canonical(part) for part in signed_parts]:
         raise InvalidSignature("The message signature does not cover the oadrSignedObject.")
 
 
-- 
2.43.0


From b13ea26057b912ae6097d09aec8ea8ebeba532d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:22 +0000
Subject: [PATCH 35/65] fix: answer created/registered messages that leave out
 optional members instead of failing with HTTP 500

---
 openleadr/service/event_service.py  | 4 ++--
 openleadr/service/report_service.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 08a4c7e..096a8c7 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -90,7 +90,7 @@ class EventService(VTNService):
         """
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
@@ -121,7 +121,7 @@ class EventService(VTNService):
                         if asyncio.iscoroutine(result):
                             result = await result
         else:
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 opt_type = event_response['opt_type']
                 result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 7c40a65..098adec 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -287,8 +287,8 @@ class ReportService(VTNService):
         """
         Implementation of the on_created_report handler, may be overwritten by the user.
         """
-        ven_id = payload['ven_id']
-        if payload['ven_id'] not in self.created_reports:
+        ven_id = payload.get('ven_id')
+        if ven_id not in self.created_reports:
             self.created_reports[ven_id] = []
 
         if payload.get('pending_reports'):
@@ -306,7 +306,7 @@ class ReportService(VTNService):
     @handler('oadrRegisteredReport')
     async def registered_report(self, payload):
         if not hasattr(self, 'on_registered_report'):
-            logger.info(f"VEN {payload['ven_id']} indicated that it has registered "
+            logger.info(f"VEN {payload.get('ven_id')} indicated that it has registered "
                         "your VTN-provided reports, but you are not handling that yet.")
         else:
             await utils.await_if_required(self.on_registered_report(payload))
-- 
2.43.0


From 5b7464fc6bd0a7635cb6859c8decd0acd74aa655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:50 +0000
Subject: [PATCH 36/65] fix: reply with the protocol error when
 on_request_event raises one, instead of failing with HTTP 500

---
 openleadr/service/vtn_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a6ed507..2e37f49 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -207,4 +207,9 @@ class VTNService:
             response_type = 'oadrResponse'
         response_payload = {'response': {'response_code': error_code,
                                          'response_description': error_description}}
+        if response_type == 'oadrDistributeEvent':
+            response_payload['response']['request_id'] = utils.generate_id()
+            response_payload['request_id'] = response_payload['response']['request_id']
+            response_payload['vtn_id'] = self.vtn_id
+            response_payload['events'] = []
         return response_type, response_payload
-- 
2.43.0


From f797d7a609385852f25cd04a4f4e68ab9c9929aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:30 +0000
Subject: [PATCH 37/65] fix: answer an oadrUpdateReport without reports instead
 of failing with HTTP 500

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 098adec..f8e5cc4 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -240,7 +240,7 @@ class ReportService(VTNService):
         """
         Handle a report that we received from the VEN.
         """
-        for report in payload['reports']:
+        for report in payload.get('reports') or []:
             report_request_id = report['report_request_id']
             if not self.report_callbacks:
                 result = self.on_update_report(report)
-- 
2.43.0


From 7d605de8e8654b6cc102d08f54709b212dca63fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:35 +0000
Subject: [PATCH 38/65] fix: make the start time of cancelled events
 timezone-aware before ordering events

---
 openleadr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index fdf3eb2..c87183c 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -825,8 +825,9 @@ def order_events(events, limit=None, offset=None):
 
     # Update the event statuses
     for event in events:
+        # This also makes sure that the start of the active period is timezone-aware
+        event_status = determine_event_status(getmember(event, 'active_period'))
         if getmember(event, 'event_descriptor.event_status') != enums.EVENT_STATUS.CANCELLED:
-            event_status = determine_event_status(getmember(event, 'active_period'))
             if getmember(event, 'event_descriptor.event_status') != event_status:
                 setmember(event, 'event_descriptor.event_status', event_status)
                 setmember(event, 'event_descriptor.created_date_time', datetime.now(timezone.utc))
-- 
2.43.0


From 6a034198a461d050767638f4c32e64f6627299d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:44 +0000
Subject: [PATCH 39/65] fix: compute the end of periods in UTC, not in wall
 clock time, so that daylight saving changes do not move it

---
 openleadr/objects.py | 6 +++---
 openleadr/utils.py   | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/openleadr/objects.py b/openleadr/objects.py
index 450e946..ca60da1 100644
--- a/openleadr/objects.py
+++ b/openleadr/objects.py
@@ -212,9 +212,9 @@ class Event:
             dtstart = min([i['dtstart']
                            if isinstance(i, dict) else i.dtstart
                            for s in self.event_signals for i in s.intervals])
-            duration = max([i['dtstart'] + i['duration']
-                            if isinstance(i, dict) else i.dtstart + i.duration
-                            for s in self.event_signals for i in s.intervals]) - dtstart
+            duration = max([i['dtstart'].astimezone(timezone.utc) + i['duration']
+                            if isinstance(i, dict) else i.dtstart.astimezone(timezone.utc) + i.duration
+                            for s in self.event_signals for i in s.intervals]) - dtstart.astimezone(timezone.utc)
             self.active_period = ActivePeriod(dtstart=dtstart,
                                               duration=duration)
         if self.targets is None and self.targets_by_type is None:
diff --git a/openleadr/utils.py b/openleadr/utils.py
index c87183c..61b1980 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -625,8 +625,9 @@ def validate_report_measurement_dict(measurement):
 def get_active_period_from_intervals(intervals, as_dict=True):
     if is_dataclass(intervals[0]):
         intervals = [asdict(i) for i in intervals]
-    period_start = min([i['dtstart'] for i in intervals])
-    period_duration = max([i['dtstart'] + i['duration'] - period_start for i in intervals])
+    period_start = min([i['dtstart'] for i in intervals], key=lambda dt: dt.astimezone(timezone.utc))
+    period_end = max([i['dtstart'].astimezone(timezone.utc) + i['duration'] for i in intervals])
+    period_duration = period_end - period_start.astimezone(timezone.utc)
     if as_dict:
         return {'dtstart': period_start,
                 'duration': period_duration}
@@ -641,6 +642,8 @@ def determine_event_status(active_period):
     if active_period_start.tzinfo is None:
         active_period_start = active_period_start.astimezone(timezone.utc)
         setmember(active_period, 'dtstart', active_period_start)
+    # Arithmetic on local timestamps would disregard changes to and from daylight saving time
+    active_period_start = active_period_start.astimezone(timezone.utc)
     active_period_end = active_period_start + getmember(active_period, 'duration')
     if now >= active_period_end and getmember(active_period, 'duration').total_seconds() > 0:
         return 'completed'
-- 
2.43.0


From 1d18f29b71aacd04db9ac25a66e56de8c7ec07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 40/65] fix: handle all event responses in an oadrCreatedEvent
 message, also those after a response to an unknown event

---
 openleadr/service/event_service.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 096a8c7..cd5e138 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -89,6 +89,7 @@ class EventService(VTNService):
         The VEN informs us that they created an EiEvent.
         """
         ven_id = payload['ven_id']
+        unknown_events = False
         if self.polling_method == 'internal':
             for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
@@ -102,7 +103,8 @@ class EventService(VTNService):
                         logger.warning(f"""Got an oadrCreatedEvent message from ven '{ven_id}' """
                                        f"""for event '{event_id}' with modification number """
                                        f"""{modification_number} that does not exist.""")
-                        raise errors.InvalidIdError
+                        unknown_events = True
+                        continue
                 # Remove the event from the events list if the cancellation is confirmed.
                 elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
@@ -127,6 +129,8 @@ class EventService(VTNService):
                 result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
                                                                              event_id=event_id,
                                                                              opt_type=opt_type))
+        if unknown_events:
+            raise errors.InvalidIdError
         return 'oadrResponse', {}
 
     def on_created_event(self, ven_id, event_id, opt_type):
-- 
2.43.0


From 6d787dd3e3e13b6bc63d85e4a738a83bac5a4bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:31 +0000
Subject: [PATCH 41/65] fix: serve VENs that offer pulse counts, which have no
 scale, to compact report handlers

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index f8e5cc4..e6b3843 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -115,7 +115,7 @@ class ReportService(VTNService):
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
                                                        measurement=rd['measurement']['description'],
                                                        unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement']['scale'],
+                                                       scale=rd['measurement'].get('scale'),
                                                        min_sampling_interval=rd['sampling_rate']['min_period'],
                                                        max_sampling_interval=rd['sampling_rate']['max_period'])
                                for rd in report['report_descriptions']]
-- 
2.43.0


From 7ca1a67b3953f78bb45be75446805ff73f8c94c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:47 +0000
Subject: [PATCH 42/65] fix: deliver all values of a report interval that holds
 values of several data points

---
 openleadr/service/report_service.py |  8 +++++++-
 openleadr/utils.py                  | 13 +++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index e6b3843..d5135df 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -247,7 +247,13 @@ class ReportService(VTNService):
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
+            # An interval can hold the values of several data points
+            intervals = []
+            for interval in report.get('intervals') or []:
+                payloads = interval['report_payload']
+                for payload in payloads if isinstance(payloads, list) else [payloads]:
+                    intervals.append({**interval, 'report_payload': payload})
+            for r_id, values in utils.group_by(intervals, 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 61b1980..2f1e8b5 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -245,12 +245,13 @@ def normalize_dict(ordered_dict):
 
         # Report payloads contain an r_id and a type-wrapped payload_float
         elif key == 'report_payload':
-            if 'payload_float' in d[key] and 'value' in d[key]['payload_float']:
-                v = d[key].pop('payload_float')
-                d[key]['value'] = float(v['value'])
-            elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_int')
-                d[key]['value'] = int(v['value'])
+            for report_payload in d[key] if isinstance(d[key], list) else [d[key]]:
+                if 'payload_float' in report_payload and 'value' in report_payload['payload_float']:
+                    v = report_payload.pop('payload_float')
+                    report_payload['value'] = float(v['value'])
+                elif 'payload_int' in report_payload and 'value' in report_payload['payload_int']:
+                    v = report_payload.pop('payload_int')
+                    report_payload['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
         elif key == 'test_event' and not isinstance(d[key], bool):
-- 
2.43.0


From a4fe7edc96af16fc0a63bb7c28bbd5c6fc075459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 43/65] fix: honor the measurement in a report request

---
 openleadr/client.py |  4 ++++
 openleadr/utils.py  | 34 +++++++++++++++++++---------------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 51665de..fee782b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -774,6 +774,10 @@ class OpenADRClient:
                         # Check if the requested measurement exists and if the correct unit is requested
                         if 'measurement' in specifier_payload:
                             measurement = specifier_payload['measurement']
+                            if rd.measurement is None:
+                                logger.error(f"A measurement was requested for report with report_request_id "
+                                            f"{report_request_id} and r_id {r_id}, which has none.")
+                                continue
                             if measurement['description'] != rd.measurement.description:
                                 logger.error(f"A non-matching measurement description for report with "
                                             f"report_request_id {report_request_id} and r_id {r_id} was given "
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2f1e8b5..0b4592f 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -184,6 +184,9 @@ def normalize_dict(ordered_dict):
 
         # Plurarize some lists
         elif key in ('report_request', 'report', 'specifier_payload'):
+            if key == 'specifier_payload':
+                for specifier_payload in d[key] if isinstance(d[key], list) else [d[key]]:
+                    normalize_measurement(specifier_payload)
             if isinstance(d[key], list):
                 d[key + 's'] = d.pop(key)
             else:
@@ -194,21 +197,7 @@ def normalize_dict(ordered_dict):
             if not isinstance(descriptions, list):
                 descriptions = [descriptions]
             for description in descriptions:
-                # We want to make the identification of the measurement universal
-                for measurement in enums._MEASUREMENT_NAMESPACES:
-                    if measurement in description:
-                        name, item = measurement, description.pop(measurement)
-                        break
-                else:
-                    continue
-                item['description'] = item.pop('item_description', None)
-                item['unit'] = item.pop('item_units', None)
-                if 'si_scale_code' in item:
-                    item['scale'] = item.pop('si_scale_code')
-                if 'pulse_factor' in item:
-                    item['pulse_factor'] = item.pop('pulse_factor')
-                description['measurement'] = {'name': name,
-                                              **item}
+                normalize_measurement(description)
             d[key + 's'] = descriptions
 
         # Promote the contents of the Qualified Event ID
@@ -278,6 +267,21 @@ def normalize_dict(ordered_dict):
     return d
 
 
+def normalize_measurement(d):
+    """
+    Make the identification of the measurement in the given dict universal.
+    """
+    for measurement in enums._MEASUREMENT_NAMESPACES:
+        if measurement in d:
+            item = d.pop(measurement)
+            item['description'] = item.pop('item_description', None)
+            item['unit'] = item.pop('item_units', None)
+            if 'si_scale_code' in item:
+                item['scale'] = item.pop('si_scale_code')
+            d['measurement'] = {'name': measurement, **item}
+            break
+
+
 def parse_datetime(value):
     """
     Parse an ISO8601 datetime into a datetime.datetime object.
-- 
2.43.0


From 27c0fd7e9b5a27372fc945a7517783886ad1fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:09 +0000
Subject: [PATCH 44/65] fix: send the collected samples of a report that is
 cancelled, and allow cancelling one without data points

---
 openleadr/client.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index fee782b..b6b7132 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -941,6 +941,14 @@ class OpenADRClient:
             logger.info("Report will be sent now.")
             await self.pending_reports.put(outgoing_report)
 
+    async def _send_incomplete_report(self, report_request_id):
+        """
+        Send the samples that were collected for this report so far, if there are any.
+        """
+        outgoing_report = self.incomplete_reports.pop(report_request_id, None)
+        if outgoing_report:
+            await self.pending_reports.put(outgoing_report)
+
     async def cancel_report(self, payload):
         """
         Cancel this report.
@@ -952,6 +960,7 @@ class OpenADRClient:
                 # Update the report one last time before cancelling
                 logging.info(f"Updating one last time report with report_request_id {report_request_id}")
                 await self.update_report(report_request_id)
+                await self._send_incomplete_report(report_request_id)
                 # Wait for the report to be sent
                 await asyncio.sleep(1)
             if report_request['job']:
@@ -971,7 +980,9 @@ class OpenADRClient:
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id,
                                             **message_payload)
-                await self.update_report(report_request_id)
+                if len(report_request['r_ids']) > 0:
+                    await self.update_report(report_request_id)
+                    await self._send_incomplete_report(report_request_id)
             else:
                 logger.info(f"Report with report_request_id {report_request_id} will not be followed by a new report.")
                 # Send simple oadrCanceledReport message
-- 
2.43.0


From 80a7a8a604cc660885aa981021cc989dc94ac439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:15 +0000
Subject: [PATCH 45/65] fix: remove the schedule of a single report that is
 cancelled before it is sent

---
 openleadr/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b6b7132..e3043f1 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -19,6 +19,7 @@ import inspect
 import logging
 import ssl
 from datetime import datetime, timedelta, timezone
+from contextlib import suppress
 from dataclasses import asdict
 from copy import deepcopy
 from functools import partial
@@ -27,6 +28,7 @@ from http import HTTPStatus
 import aiohttp
 from lxml.etree import XMLSyntaxError
 from signxml.exceptions import InvalidSignature
+from apscheduler.jobstores.base import JobLookupError
 from apscheduler.schedulers.asyncio import AsyncIOScheduler
 from openleadr import enums, objects, errors
 from openleadr.messaging import create_message, parse_message, \
@@ -833,7 +835,8 @@ class OpenADRClient:
                         report_callback = partial(self.update_report, report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
-                            self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            job = self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            self.report_requests[-1]['job'] = job
                         else:
                             await self.update_report(report_request_id)
         
@@ -964,7 +967,8 @@ class OpenADRClient:
                 # Wait for the report to be sent
                 await asyncio.sleep(1)
             if report_request['job']:
-                report_request['job'].remove()
+                with suppress(JobLookupError):  # The job of a single report is gone after it was run
+                    report_request['job'].remove()
             logger.info(f"Report with report_request_id {report_request_id} has been cancelled.")
             service = 'EiReport'
             message_type = 'oadrCanceledReport'
-- 
2.43.0


From 78ab299bf3ca83e33786c89741d3ca1c0d56fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 46/65] fix: accept the currencies AED and ZMW

---
 openleadr/enums.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index e003cfa..2d6471c 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -200,7 +200,7 @@ class SECURITY_LEVEL:
     HIGH = 'HIGH'
 
 
-_CURRENCIES = ("AFN", "ALL", "AMD", "ANG", "AOA", "ARS", "AUD", "AWG", "AZN", "BAM",
+_CURRENCIES = ("AFN", "AED", "ALL", "AMD", "ANG", "AOA", "ARS", "AUD", "AWG", "AZN", "BAM",
                "BBD", "BDT", "BGN", "BHD", "BIF", "BMD", "BND", "BOB", "BOV", "BRL",
                "BSD", "BTN", "BWP", "BYR", "BZD", "CAD", "CDF", "CHE", "CHF", "CHW",
                "CLF", "CLP", "CNY", "COP", "COU", "CRC", "CUC", "CUP", "CVE", "CZK",
@@ -218,7 +218,7 @@ _CURRENCIES = ("AFN", "ALL", "AMD", "ANG", "AOA", "ARS", "AUD", "AWG", "AZN", "B
                "UGX", "USD", "USN", "USS", "UYI", "UYU", "UZS", "VEF", "VND", "VUV",
                "WST", "XAF", "XAG", "XAU", "XBA", "XBB", "XBC", "XBD", "XCD", "XDR",
                "XFU", "XOF", "XPD", "XPF", "XPF", "XPF", "XPT", "XTS", "XXX", "YER",
-               "ZAR", "ZMK", "ZWL")
+               "ZAR", "ZMK", "ZMW", "ZWL")
 
 _ACCEPTABLE_UNITS = {'currency': _CURRENCIES,
                      'currencyPerKW': _CURRENCIES,
-- 
2.43.0


From 424e7c99a0169d1a7bdd3d339b5b6fc763267128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:20 +0000
Subject: [PATCH 47/65] fix: refuse power measurements whose power attributes
 are None with a ValueError

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 0b4592f..ab86eaa 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -614,7 +614,7 @@ def validate_report_measurement_dict(measurement):
             measurement['name'] = 'customUnit'
 
     if 'power' in name:
-        if 'power_attributes' in measurement:
+        if measurement.get('power_attributes') is not None:
             power_attributes = measurement['power_attributes']
             if 'voltage' not in power_attributes \
                     or 'ac' not in power_attributes \
-- 
2.43.0


From 181889ddbf8d6ed52dadc3cc7e33d6944853945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:21 +0000
Subject: [PATCH 48/65] fix: a VEN whose registration fails with an error is
 not registered

---
 openleadr/client.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e3043f1..a23e63f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -147,10 +147,11 @@ class OpenADRClient:
         if response_payload and 'response' in response_payload  and 'request_id' in response_payload['response']:
             request_id = response_payload['response']['request_id']
 
-        await self.create_party_registration(ven_id=self.ven_id, request_id=request_id)
+        result = await self.create_party_registration(ven_id=self.ven_id, request_id=request_id)
 
 
-        if not self.registration_id:
+        if not result or not self.registration_id:
+            self.registration_id = None
             logger.error("No RegistrationID received from the VTN, aborting.")
             await self.stop()
             return
@@ -456,9 +457,10 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         if response_type is None:
             return
-        if response_payload['response']['response_code'] != 200:
-            status_code = response_payload['response']['response_code']
-            status_description = response_payload['response']['response_description']
+        if response_type != 'oadrCreatedPartyRegistration' or response_payload['response']['response_code'] != 200:
+            response = response_payload.get('response', {})
+            status_code = response.get('response_code')
+            status_description = response.get('response_description')
             logger.error(f"Got error on Create Party Registration: "
                          f"{status_code} {status_description}")
             return
-- 
2.43.0


From fa4532a1d0e4f61b6bc94a5cc3b25109e5743142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:36 +0000
Subject: [PATCH 49/65] fix: a re-registered VEN polls at the poll frequency
 that it was given

---
 openleadr/client.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a23e63f..d960ec3 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -166,15 +166,7 @@ class OpenADRClient:
         # Perform an initial poll
         await self._poll()
 
-        # Set up automatic polling
-        if self.poll_frequency > timedelta(hours=24):
-            logger.warning("Polling with intervals of more than 24 hours is not supported. "
-                           "Will use 24 hours as the polling interval.")
-            self.poll_frequency = timedelta(hours=24)
-
-        self.scheduler.add_job(self._poll,
-                               trigger='interval',
-                               seconds=self.poll_frequency.total_seconds())
+        self._schedule_polling()
         self.scheduler.add_job(self._event_status_log,
                                trigger='interval',
                                seconds=self.event_status_log_period)
@@ -183,6 +175,21 @@ class OpenADRClient:
                                seconds=self.events_clean_up_period)
         self.scheduler.start()
 
+    def _schedule_polling(self):
+        """
+        Set up automatic polling, or change its interval after a re-registration.
+        """
+        if self.poll_frequency > timedelta(hours=24):
+            logger.warning("Polling with intervals of more than 24 hours is not supported. "
+                           "Will use 24 hours as the polling interval.")
+            self.poll_frequency = timedelta(hours=24)
+
+        self.scheduler.add_job(self._poll,
+                               trigger='interval',
+                               seconds=self.poll_frequency.total_seconds(),
+                               id='poll',
+                               replace_existing=True)
+
     async def stop(self):
         """
         Cleanly stops the client. Run this coroutine before closing your event loop.
@@ -504,8 +511,11 @@ class OpenADRClient:
             await self.stop()
             return
 
+        if self.scheduler.running:
+            self._schedule_polling()
+
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and not self.report_queue_task:
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
-- 
2.43.0


From 0b3d7d058dbaa649014063e01433bfd562ca9967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 50/65] fix: reject a VEN properly if the registration handler
 returns a malformed result

---
 openleadr/service/registration_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 5b32fea..6af1ed1 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -99,7 +99,10 @@ class RegistrationService(VTNService):
                 logger.error("Your on_create_party_registration handler should return either "
                              "'False' (if the client is rejected) or a (ven_id, registration_id) "
                              "tuple. Will REJECT the client for now.")
-                response_payload = {}
+                transports = [{'transport_name': payload['transport_name']}]
+                response_payload = {'profiles': [{'profile_name': payload['profile_name'],
+                                                  'transports': transports}],
+                                    'requested_oadr_poll_freq': self.poll_freq}
             else:
                 ven_id, registration_id = result
                 transports = [{'transport_name': payload['transport_name']}]
-- 
2.43.0


From 4feeb470045a8588365c4624b9826ce22011a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:42 +0000
Subject: [PATCH 51/65] fix: ignore an oadrUpdateReport from the VTN instead of
 failing on it

---
 openleadr/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d960ec3..837569e 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1316,8 +1316,6 @@ class OpenADRClient:
             if 'events' in response_payload and len(response_payload['events']) > 0:
                 await self._on_event(response_payload)
 
-        elif response_type == 'oadrUpdateReport':
-            await self._on_report(response_payload)
 
         elif response_type == 'oadrCreateReport':
             if 'report_requests' in response_payload:
-- 
2.43.0


From 03b404fb0707854709ca5f52303783aedfba2310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:46 +0000
Subject: [PATCH 52/65] fix: ZMW is not a currency of the OpenADR schema after
 all

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2d6471c..5ecfc4f 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -218,7 +218,7 @@ _CURRENCIES = ("AFN", "AED", "ALL", "AMD", "ANG", "AOA", "ARS", "AUD", "AWG", "A
                "UGX", "USD", "USN", "USS", "UYI", "UYU", "UZS", "VEF", "VND", "VUV",
                "WST", "XAF", "XAG", "XAU", "XBA", "XBB", "XBC", "XBD", "XCD", "XDR",
                "XFU", "XOF", "XPD", "XPF", "XPF", "XPF", "XPT", "XTS", "XXX", "YER",
-               "ZAR", "ZMK", "ZMW", "ZWL")
+               "ZAR", "ZMK", "ZWL")
 
 _ACCEPTABLE_UNITS = {'currency': _CURRENCIES,
                      'currencyPerKW': _CURRENCIES,
-- 
2.43.0


From bfa29b36c866ebd998f1d8fb0a0868f75773a27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 53/65] fix: send the request id and response that a custom
 handler supplies, and leave the payload of the handler as it is

---
 openleadr/service/vtn_service.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 2e37f49..1d3826c 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -174,8 +174,8 @@ class VTNService:
                 response_type, response_payload = result
                 if is_dataclass(response_payload):
                     response_payload = asdict(response_payload)
-                elif response_payload is None:
-                    response_payload = {}
+                # Don't alter the object of the handler, which may be used for another message
+                response_payload = dict(response_payload or {})
             else:
                 response_type, response_payload = 'oadrResponse', {}
 
@@ -183,10 +183,12 @@ class VTNService:
             if 'ven_id' in message_payload and not response_payload.get('ven_id'):
                 response_payload['ven_id'] = message_payload['ven_id']
 
-            response_payload['response'] = {'request_id': message_payload.get('request_id', None),
-                                            'response_code': 200,
-                                            'response_description': 'OK'}
-            response_payload['request_id'] = utils.generate_id()
+            if not response_payload.get('response'):
+                response_payload['response'] = {'request_id': message_payload.get('request_id', None),
+                                                'response_code': 200,
+                                                'response_description': 'OK'}
+            if not response_payload.get('request_id'):
+                response_payload['request_id'] = utils.generate_id()
 
         else:
             response_type, response_payload = self.error_response('oadrResponse',
-- 
2.43.0


From c7aef9b0dbc891dbbd3c68e17d60f6691e092921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:55 +0000
Subject: [PATCH 54/65] fix: use the unit that is given to add_report along
 with a predefined measurement

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 837569e..a1a18ce 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -329,14 +329,15 @@ class OpenADRClient:
                 item_base.power_attributes = objects.PowerAttributes(hertz=power_hertz,
                                                                      voltage=power_voltage,
                                                                      ac=power_ac)
-            if unit in item_base.acceptable_units:
-                item_base.unit = unit
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
                                             unit=unit,
                                             scale=scale)
 
+        if item_base is not None and unit in item_base.acceptable_units:
+            item_base.unit = unit
+
         # The scale applies to all measurements, except those that use a pulse factor. The
         # default scale does not replace the scale of a measurement that you defined yourself.
         if item_base is not None and item_base.pulse_factor is None:
-- 
2.43.0


From 0d108c1c7b0f7a364243e60be03d2bccf59fec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 55/65] fix: keep the pulse factor of a measurement that is
 given as a dict to add_report

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a1a18ce..fe94b13 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -322,7 +322,8 @@ class OpenADRClient:
                                             description=measurement['description'],
                                             unit=measurement['unit'],
                                             scale=measurement.get('scale'),
-                                            power_attributes=power_attributes)
+                                            power_attributes=power_attributes,
+                                            pulse_factor=measurement.get('pulse_factor'))
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = deepcopy(enums.MEASUREMENTS[measurement.upper()])
             if item_base.power_attributes is not None:
-- 
2.43.0


From fb063418c6a5ca929f03a1ce474a38731581c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:56 +0000
Subject: [PATCH 56/65] fix: refuse a report without a measurement with a
 ValueError

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index fe94b13..5959950 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -311,6 +311,9 @@ class OpenADRClient:
         # Determine the correct item name, item description and unit
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
+        elif measurement is None:
+            raise ValueError("You must supply a measurement for this report. It is only "
+                             "optional for TELEMETRY_STATUS reports.")
         elif isinstance(measurement, objects.Measurement):
             item_base = deepcopy(measurement)
         elif isinstance(measurement, dict):
-- 
2.43.0


From 754aa1656c92f200d14ee24f5e9877cc27594ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 57/65] fix: compute the fingerprint of the first certificate
 if there are several

---
 openleadr/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index ab86eaa..e78554d 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -420,7 +420,12 @@ def certificate_fingerprint(certificate_str):
     """
     Calculate the fingerprint for the given certificate, as defined by OpenADR.
     """
-    der_bytes = ssl.PEM_cert_to_DER_cert(ensure_str(certificate_str))
+    certificate_str = ensure_str(certificate_str)
+    # A certificate may be followed by its certificate chain
+    footer = certificate_str.find(ssl.PEM_FOOTER)
+    if footer >= 0:
+        certificate_str = certificate_str[:footer + len(ssl.PEM_FOOTER)]
+    der_bytes = ssl.PEM_cert_to_DER_cert(certificate_str)
     return certificate_fingerprint_from_der(der_bytes)
 
 
-- 
2.43.0


From d6a0e23bf153c8537420bfa9cc8c0ab209aa921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:43 +0000
Subject: [PATCH 58/65] fix: send a request id with the cancellation of an opt

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 5959950..0bb6b07 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -689,6 +689,7 @@ class OpenADRClient:
             return False
 
         payload = {
+            'request_id': utils.generate_id(),
             'opt_id': opt_id,
             'ven_id': self.ven_id
         }
-- 
2.43.0


From 094ba8dce7997d302bca3511f98f3215a4baff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:43 +0000
Subject: [PATCH 59/65] fix: do not take the rejection of an opt or of its
 cancellation for an acknowledgement

---
 openleadr/client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0bb6b07..61439a9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -663,7 +663,7 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if response_type == 'oadrCreatedOpt' and response_payload['response']['response_code'] == 200:
             # VTN acknowledged the opt message
             logging.info(f"VTN acknowledged the opt message with opt_id {response_payload['opt_id']}")
             return response_payload['opt_id']
@@ -699,9 +699,9 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if response_type == 'oadrCanceledOpt' and response_payload['response']['response_code'] == 200:
             # VTN acknowledged the opt cancelation
-            logging.info(f"VTN acknowledged the opt cancelation with opt_id {response_payload['opt_id']}")
+            logging.info(f"VTN acknowledged the opt cancelation with opt_id {opt_id}")
             self.opts.remove(opt)
             return True
         else:
-- 
2.43.0


From 6485747f9db0aa9c0d316c0e61018e4daa435bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:43 +0000
Subject: [PATCH 60/65] fix: do not start the background tasks of a VEN that
 was stopped while it started

---
 openleadr/client.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 61439a9..7e1b2c3 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -157,7 +157,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and not self.client_session.closed:
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
@@ -166,6 +166,10 @@ class OpenADRClient:
         # Perform an initial poll
         await self._poll()
 
+        if self.client_session.closed:
+            # We were stopped in the meantime
+            return
+
         self._schedule_polling()
         self.scheduler.add_job(self._event_status_log,
                                trigger='interval',
@@ -520,7 +524,7 @@ class OpenADRClient:
             self._schedule_polling()
 
         await self.register_reports(self.reports)
-        if self.reports and not self.report_queue_task:
+        if self.reports and not self.report_queue_task and not self.client_session.closed:
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
-- 
2.43.0


From 8b2295b85199a6958282127c385c4c10452f2c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:35 +0000
Subject: [PATCH 61/65] fix: refuse messages with a document type declaration,
 and do not resolve their entities

---
 openleadr/messaging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 04ebaf3..44f49f0 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -41,6 +41,7 @@ XML_SCHEMA_LOCATION = os.path.join(os.path.dirname(__file__), 'schema', 'oadr_20
 with open(XML_SCHEMA_LOCATION) as file:
     XML_SCHEMA = etree.XMLSchema(etree.parse(file))
 XML_PARSER = etree.XMLParser(schema=XML_SCHEMA)
+DTD_PARSER = etree.XMLParser(resolve_entities=False)
 
 
 def parse_message(data):
@@ -95,6 +96,10 @@ def validate_xml_schema(content):
     """
     if isinstance(content, str):
         content = content.encode('utf-8')
+    # Entities could bring in local files, or other content than what gets parsed later on
+    if etree.fromstring(content, DTD_PARSER).getroottree().docinfo.internalDTD is not None:
+        raise etree.XMLSyntaxError("Document type declarations are not allowed",
+                                   etree.ErrorTypes.ERR_INTERNAL_ERROR, 1, 1)
     tree = etree.fromstring(content, XML_PARSER)
     return tree
 
-- 
2.43.0


From ed16dbeab8a5998b3325444334a0e23efc660bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:04 +0000
Subject: [PATCH 62/65] fix: parse the value of an element that has XML
 attributes

---
 openleadr/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 44f49f0..8604411 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -58,7 +58,7 @@ def parse_message(data):
             logger.debug(f"Parsing message: {data}")
     except UnicodeDecodeError:
         logger.warning(f"Could not decode incoming message as UTF-8: {str(data)}")
-    message_dict = xmltodict.parse(data, process_namespaces=True, namespaces=NAMESPACES)
+    message_dict = xmltodict.parse(data, process_namespaces=True, namespaces=NAMESPACES, xml_attribs=False)
     message_type, message_payload = message_dict['oadrPayload']['oadrSignedObject'].popitem()
     message_payload = utils.normalize_dict(message_payload)
     return message_type, message_payload
-- 
2.43.0


From 41bc6822021527f9745d0b6e37a9d4db707b6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:05 +0000
Subject: [PATCH 63/65] fix: understand booleans and numbers in every notation
 of their XML schema types

---
 openleadr/utils.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index e78554d..71cc7e9 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -37,6 +37,11 @@ TEXT_ELEMENTS = ('vtn_comment', 'response_description', 'ven_name', 'group_name'
                  'market_context', 'modification_reason', 'item_description', 'item_units',
                  'description', 'unit', 'transport_address', 'data_quality')
 
+# Elements with a typed value, which can be written in several ways
+BOOLEAN_ELEMENTS = ('report_only', 'xml_signature', 'http_pull_model', 'on_change', 'report_to_follow', 'ac')
+NUMBER_ELEMENTS = ('value', 'modification_number', 'priority', 'confidence', 'accuracy', 'reply_limit',
+                   'pulse_factor', 'hertz', 'voltage')
+
 
 def generate_id(*args, **kwargs):
     """
@@ -106,8 +111,10 @@ def normalize_dict(ordered_dict):
             d[key] = int(value) if re.match(r'^(0|-?[1-9][0-9]*)$', value) else value
         elif isinstance(value, str) and (key.endswith('_id') or key in TEXT_ELEMENTS):
             d[key] = value
-        elif value in ('true', 'false'):
+        elif value in ('true', 'false') or (key in BOOLEAN_ELEMENTS and value in ('1', '0')):
             d[key] = parse_boolean(value)
+        elif isinstance(value, str) and key in NUMBER_ELEMENTS:
+            d[key] = parse_number(value)
         elif isinstance(value, str):
             if re.match(r'^-?\d+$', value):
                 d[key] = int(value)
@@ -326,12 +333,24 @@ def parse_duration(value):
 
 
 def parse_boolean(value):
-    if value == 'true':
+    if value in ('true', '1'):
         return True
     else:
         return False
 
 
+def parse_number(value):
+    """
+    Parse a number in any of the notations that XML schema allows for it.
+    """
+    if re.match(r'^[+-]?[0-9]+$', value):
+        return int(value)
+    elif re.match(r'^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$', value):
+        return float(value)
+    else:
+        return value
+
+
 def datetimeformat(value, format=DATETIME_FORMAT):
     """
     Format a given datetime as a UTC ISO3339 string.
-- 
2.43.0


From fa8a57d2e42df745189f5239448d5c1932095584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:38 +0000
Subject: [PATCH 64/65] fix: do not lose samples of a slow report callback when
 the report is cancelled meanwhile

---
 openleadr/client.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 7e1b2c3..20b4b42 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -893,17 +893,8 @@ class OpenADRClient:
         report = utils.find_by(self.reports, 'report_specifier_id', report_specifier_id)
         data_collection_mode = report.data_collection_mode
 
-        if report_request_id in self.incomplete_reports:
-            logger.debug("We were already compiling this report")
-            outgoing_report = self.incomplete_reports[report_request_id]
-        else:
-            logger.debug("There is no report in progress")
-            outgoing_report = objects.Report(report_request_id=report_request_id,
-                                             report_specifier_id=report.report_specifier_id,
-                                             report_name=report.report_name if 'METADATA' not in report.report_name else report.report_name.replace('METADATA_', ''),
-                                             intervals=[])
-
-        intervals = outgoing_report.intervals or []
+        report_name = report.report_name if 'METADATA' not in report.report_name else report.report_name.replace('METADATA_', '')
+        intervals = []
         if data_collection_mode == 'full':
             if report_back_duration is None:
                 report_back_duration = granularity
@@ -933,7 +924,7 @@ class OpenADRClient:
                     for dt, value in result:
                         logger.info(f"Adding {dt}, {value} to report")
                         report_payload = objects.ReportPayload(r_id=r_id, value=value)
-                        if outgoing_report.report_name == enums.REPORT_NAME.TELEMETRY_USAGE and report_back_duration.total_seconds() == 0:
+                        if report_name == enums.REPORT_NAME.TELEMETRY_USAGE and report_back_duration.total_seconds() == 0:
                             intervals.append(objects.ReportInterval(dtstart=dt,
                                                                     report_payload=report_payload,
                                                                     duration=granularity))
@@ -942,7 +933,19 @@ class OpenADRClient:
                                                                     report_payload=report_payload))
                 except KeyError:
                     logger.error(f"No callback found for r_id {r_id} in report with report_specifier_id {report_specifier_id}")
-        outgoing_report.intervals = intervals
+
+        # The report may have been sent or cancelled while the callbacks were busy
+        cancelled = report_request not in (self.report_requests or [])
+        if report_request_id in self.incomplete_reports and not cancelled:
+            logger.debug("We were already compiling this report")
+            outgoing_report = self.incomplete_reports[report_request_id]
+        else:
+            logger.debug("There is no report in progress")
+            outgoing_report = objects.Report(report_request_id=report_request_id,
+                                             report_specifier_id=report.report_specifier_id,
+                                             report_name=report_name,
+                                             intervals=[])
+        outgoing_report.intervals = (outgoing_report.intervals or []) + intervals
         logger.info(f"The number of intervals in the report is now {len(outgoing_report.intervals)}")
 
         # Always set the dtstart of the report to the earliest datetime of any of the intervals
@@ -955,7 +958,9 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) >= expected_len:
+            if cancelled:
+                await self.pending_reports.put(outgoing_report)
+            elif len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
                 self.incomplete_reports.pop(report_request_id, None)
                 await self.pending_reports.put(outgoing_report)
@@ -1017,6 +1022,7 @@ class OpenADRClient:
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id)
             self.report_requests.remove(report_request)
+            await self._send_incomplete_report(report_request_id)
             await self._perform_request(service, message)
         else:
             logger.error(f"Report with report_request_id {report_request_id} was not found.")
-- 
2.43.0


From 64243293e0c213cf485a6ff20215e4ee4f5111cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:30 +0000
Subject: [PATCH 65/65] fix: send the values of the other data points when a
 report callback fails

---
 openleadr/client.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 20b4b42..34f51f0 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -901,16 +901,20 @@ class OpenADRClient:
             date_to = datetime.now(timezone.utc)
             date_from = date_to - max(report_back_duration, granularity)
             for r_id in report_request['r_ids']:
-                report_callback = self.report_callbacks[(report_specifier_id, r_id)]
-                result = report_callback(date_from=date_from,
-                                         date_to=date_to,
-                                         sampling_interval=granularity)
-                if asyncio.iscoroutine(result):
-                    result = await result
-                for dt, value in result:
-                    report_payload = objects.ReportPayload(r_id=r_id, value=value)
-                    intervals.append(objects.ReportInterval(dtstart=dt,
-                                                            report_payload=report_payload))
+                try:
+                    report_callback = self.report_callbacks[(report_specifier_id, r_id)]
+                    result = report_callback(date_from=date_from,
+                                             date_to=date_to,
+                                             sampling_interval=granularity)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                    for dt, value in result:
+                        report_payload = objects.ReportPayload(r_id=r_id, value=value)
+                        intervals.append(objects.ReportInterval(dtstart=dt,
+                                                                report_payload=report_payload))
+                except Exception as err:
+                    logger.error(f"Your report callback for r_id {r_id} in report with report_specifier_id "
+                                 f"{report_specifier_id} encountered an error: {err.__class__.__name__}: {err}")
 
         else:
             for r_id in report_request['r_ids']:
@@ -933,6 +937,9 @@ class OpenADRClient:
                                                                     report_payload=report_payload))
                 except KeyError:
                     logger.error(f"No callback found for r_id {r_id} in report with report_specifier_id {report_specifier_id}")
+                except Exception as err:
+                    logger.error(f"Your report callback for r_id {r_id} in report with report_specifier_id "
+                                 f"{report_specifier_id} encountered an error: {err.__class__.__name__}: {err}")
 
         # The report may have been sent or cancelled while the callbacks were busy
         cancelled = report_request not in (self.report_requests or [])
-- 
2.43.0

