From 8118b510e81693c62be6d646dccc24b96f479ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 01/47] fix: H(0-0) hashes over the whole field instead of
 selecting 0

A range bound of 0 was taken for a missing one.
---
 dsari/croniter_hash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index a4ea118..e068b25 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -30,9 +30,9 @@ class croniter_hash(croniter.croniter):
         return super(croniter_hash, self).__init__(expr_format, *args, **kwargs)
 
     def _hash_do(self, id, position, range_end=None, range_begin=None, hash_type="H"):
-        if not range_end:
+        if range_end is None:
             range_end = self.RANGES[position][1]
-        if not range_begin:
+        if range_begin is None:
             range_begin = self.RANGES[position][0]
         if hash_type == "R":
             crc = random.randint(0, 0xFFFFFFFF)
-- 
2.43.0


From 758eadf07d053315b3c09efa866280b26e8540b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 02/47] fix: H/n and H(a-b)/n hash to uneven or out-of-range
 offsets

The offset was taken modulo n+1, and for ranges the start of the range was
counted twice.
---
 dsari/croniter_hash.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index e068b25..1d1c077 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -46,6 +46,17 @@ class croniter_hash(croniter.croniter):
             crc = binascii.crc32(id_bytes) & 0xFFFFFFFF
         return ((crc >> position) % (range_end - range_begin + 1)) + range_begin
 
+    def _hash_step(self, id, idx, begin, end, step, hash_type):
+        # The offset must be one of the first "step" values of the range,
+        # otherwise the first (partial) interval is too long.
+        offset = self._hash_do(
+            id, idx, min(begin + step - 1, end), begin, hash_type=hash_type
+        )
+        if offset == end:
+            # croniter takes e.g. 59-59/15 for 0-59/15
+            return str(offset)
+        return "{}-{}/{}".format(offset, end, step)
+
     def _hash_expand(self, expr_format, id):
         if expr_format == "@midnight":
             expr_format = "H H(0-2) * * * H"
@@ -74,11 +85,8 @@ class croniter_hash(croniter.croniter):
         # Example: H(30-59)/10 -> 34-59/10 (i.e. 34,44,54)
         m = re.match(r"^(H|R)\((\d+)-(\d+)\)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(4)), hash_type=m.group(1))
-                + int(m.group(2)),
-                int(m.group(3)),
-                int(m.group(4)),
+            return self._hash_step(
+                id, idx, int(m.group(2)), int(m.group(3)), int(m.group(4)), m.group(1)
             )
 
         # Example: H(0-29) -> 12
@@ -93,10 +101,8 @@ class croniter_hash(croniter.croniter):
         # Example: H/15 -> 7-59/15 (i.e. 7,22,37,52)
         m = re.match(r"^(H|R)\/(\d+)$", item)
         if m:
-            return "{}-{}/{}".format(
-                self._hash_do(id, idx, int(m.group(2)), hash_type=m.group(1)),
-                self.RANGES[idx][1],
-                int(m.group(2)),
+            return self._hash_step(
+                id, idx, *self.RANGES[idx][0:2], int(m.group(2)), m.group(1)
             )
 
         # Everything else
-- 
2.43.0


From d73c976859e398f67b51d608f5c16af24551da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 03/47] fix: dtlocalize() returns None for a timezone name

A trigger with schedule_timezone crashed the daemon.
---
 dsari/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index d1d9d90..13023fc 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -87,7 +87,7 @@ def dtlocalize(dt, tz=None):
         if isinstance(tz, datetime.tzinfo):
             return dt.astimezone(tz)
         elif not isinstance(dateutil_tz, ImportError):
-            dt.astimezone(dateutil_tz.gettz(tz))
+            return dt.astimezone(dateutil_tz.gettz(tz))
         else:
             return dt.astimezone()
     else:
-- 
2.43.0


From ed3993825fa4024c8cdfe20341931224c539d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 04/47] fix: repeated blanks in a cron schedule shift its
 fields

A 5-field schedule with more than one blank between fields was not given its
hashed second, and H hashed over the range of another field.
---
 dsari/croniter_hash.py | 2 +-
 dsari/utils.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 1d1c077..6d3fb18 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -72,7 +72,7 @@ class croniter_hash(croniter.croniter):
             expr_format = "H H H H * H"
 
         expr_expanded = []
-        for item in expr_format.split(" "):
+        for item in expr_format.split():
             idx = len(expr_expanded)
             expr_expanded.append(self._hash_expand_item(item, id, idx))
         return " ".join(expr_expanded)
diff --git a/dsari/utils.py b/dsari/utils.py
index 13023fc..70f13ef 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -135,7 +135,7 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         return t
     if isinstance(croniter_hash, ImportError):
         raise ImportError("croniter not available, manual triggers only")
-    if len(schedule.split(" ")) == 5:
+    if len(schedule.split()) == 5:
         schedule = schedule + " H"
     t = (
         croniter_hash.croniter_hash(
-- 
2.43.0


From 09bae7201dba5ffd79eb5a40fd300e48eb690779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 05/47] fix: accept 7 for Sunday in schedules

croniter accepts it in 5-field expressions only, but dsari always passes 6.
---
 dsari/croniter_hash.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsari/croniter_hash.py b/dsari/croniter_hash.py
index 6d3fb18..6a4ec7c 100644
--- a/dsari/croniter_hash.py
+++ b/dsari/croniter_hash.py
@@ -74,7 +74,11 @@ class croniter_hash(croniter.croniter):
         expr_expanded = []
         for item in expr_format.split():
             idx = len(expr_expanded)
-            expr_expanded.append(self._hash_expand_item(item, id, idx))
+            item = self._hash_expand_item(item, id, idx)
+            if idx == 4:
+                # croniter accepts 7 for Sunday in 5-field expressions only
+                item = re.sub(r"(?<![\d/#])7(?!\d)", "0", item)
+            expr_expanded.append(item)
         return " ".join(expr_expanded)
 
     def _hash_expand_item(self, item, id, idx):
-- 
2.43.0


From 9819f7019b1fdd059ced062ac93e55a6a74bf068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 06/47] fix: next schedule time skips the occurrence of the
 current second

Between a matching second and its sub-second offset the occurrence is still to
come, so the reference must be shifted by the offset, too.
---
 dsari/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 70f13ef..44a55b4 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -129,7 +129,9 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
-        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(start_time)
+        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(
+            start_time - subsecond_offset
+        )
         if t is not None:
             t = t + subsecond_offset
         return t
@@ -139,7 +141,7 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         schedule = schedule + " H"
     t = (
         croniter_hash.croniter_hash(
-            schedule, start_time=start_time, hash_id=job_name
+            schedule, start_time=start_time - subsecond_offset, hash_id=job_name
         ).get_next(datetime.datetime)
         + subsecond_offset
     )
-- 
2.43.0


From 6c0abe7a0500fffed63f1b217e2eec5dc289ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 07/47] fix: RRULE with a local UNTIL stops the daemon

dateutil refuses a local UNTIL together with a start time which has a timezone
(as the daemon's have), so the documented example passed the configuration
check and then raised an exception in the daemon.
---
 dsari/utils.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 44a55b4..e879d7a 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -10,6 +10,7 @@ import datetime
 import gzip
 import json
 import os
+import re
 
 try:
     import dateutil.rrule as dateutil_rrule
@@ -120,7 +121,7 @@ def validate_environment_dict(env_in):
 
 def get_next_schedule_time(schedule, job_name, start_time=None):
     if start_time is None:
-        start_time = datetime.datetime.now()
+        start_time = dtnow()
     crc = binascii.crc32(job_name.encode("utf-8")) & 0xFFFFFFFF
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
     if schedule.upper().startswith("RRULE:"):
@@ -129,6 +130,18 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
+
+        def until_utc(m):
+            # dateutil requires UNTIL to be in UTC if dtstart has a timezone
+            until = datetime.datetime.strptime(
+                m.group(2) + (m.group(3) or "T000000"), "%Y%m%dT%H%M%S"
+            ).replace(tzinfo=start_time.tzinfo)
+            until = until.astimezone(datetime.timezone.utc)
+            return m.group(1) + until.strftime("%Y%m%dT%H%M%SZ")
+
+        schedule = re.sub(
+            r"(?i)(UNTIL=)(\d{8})(T\d{6})?(?=[;\s]|$)", until_utc, schedule
+        )
         t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(
             start_time - subsecond_offset
         )
-- 
2.43.0


From 4aee9a9848bfdcbbf23520f0eb1775cb10c4aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 08/47] fix: schedules in the default timezone ignore DST
 changes

The default was the fixed UTC offset at the time the configuration was loaded.
---
 dsari/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index be07f6a..5809544 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -30,7 +30,10 @@ class Job(object):
         self.name = name
         self.command = []
         self.schedule = None
-        self.schedule_timezone = utils.dtnow().tzinfo
+        if isinstance(utils.dateutil_tz, ImportError):
+            self.schedule_timezone = utils.dtnow().tzinfo
+        else:
+            self.schedule_timezone = utils.dateutil_tz.tzlocal()
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
-- 
2.43.0


From a57521145472f21dfab564deaccb7319bce0226a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 09/47] fix: YAML syntax errors are not reported as invalid
 files

PyYAML errors are no ValueErrors, so all callers handling a bad file missed them.
---
 dsari/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index e879d7a..7bdb611 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -62,9 +62,9 @@ def load_structured_file(file, file_type="json", delete_during=False):
                 return yaml.safe_load(f)
             else:
                 return json.load(f)
-        except ValueError as e:
-            e.args += (file,)
-            raise
+        except Exception as e:
+            # YAML errors, for one, are not ValueErrors
+            raise ValueError("{}: {}".format(file, e)) from e
 
 
 def seconds_to_td(seconds):
-- 
2.43.0


From 7ec7f994152294c899f684a810bb996dafbc1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 10/47] fix: an empty configuration file stops everything

An empty or commented-out YAML file replaced the merged configuration by None.
---
 dsari/config.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index bc56e8b..8395f16 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -84,6 +84,15 @@ class ConfigLoader:
             return False
         return True
 
+    def load_file(self, file, file_type):
+        config = utils.load_structured_file(file, file_type=file_type)
+        if config is None:
+            # Empty (e.g. completely commented out) YAML file
+            return {}
+        if not isinstance(config, dict):
+            raise ValueError("{}: Not an associative array".format(file))
+        return config
+
     def load_dir(self, config_dir=DEFAULT_CONFIG_DIR):
         config = {}
         for fn, fn_type in [("dsari.yaml", "yaml"), ("dsari.json", "json")]:
@@ -91,9 +100,7 @@ class ConfigLoader:
                 try:
                     config = utils.dict_merge(
                         config,
-                        utils.load_structured_file(
-                            os.path.join(config_dir, fn), file_type=fn_type
-                        ),
+                        self.load_file(os.path.join(config_dir, fn), fn_type),
                     )
                 except (ValueError, ImportError) as e:
                     raise ConfigError(e)
@@ -115,7 +122,7 @@ class ConfigLoader:
                 for file in config_files:
                     try:
                         config = utils.dict_merge(
-                            config, utils.load_structured_file(file, file_type=fn_type)
+                            config, self.load_file(file, fn_type)
                         )
                     except (ValueError, ImportError) as e:
                         raise ConfigError(e)
-- 
2.43.0


From 33ba22b6dea351c3cc0cc385300dddc3011cfa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 11/47] fix: malformed configurations are accepted or raise
 other errors than ConfigError

Commands and group lists with other elements than strings were accepted (and ended
the daemon later on), as were names with a trailing newline; wrong types of whole
sections raised TypeError and the like.
---
 dsari/config.py | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 8395f16..18108fb 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -74,13 +74,15 @@ class ConfigLoader:
         self.config = config
 
     def is_valid_name(self, job_name):
+        if not isinstance(job_name, str):
+            return False
         if "/" in job_name:
             return False
         if job_name in (".", ".."):
             return False
         if len(job_name) > 64:
             return False
-        if not re.search("^([- A-Za-z0-9_+.:@]+)$", job_name):
+        if not re.search("^([- A-Za-z0-9_+.:@]+)\\Z", job_name):
             return False
         return True
 
@@ -129,7 +131,24 @@ class ConfigLoader:
 
         self.load(config)
 
+    def check_dict(self, level, value):
+        if not isinstance(value, dict):
+            raise ConfigError(
+                "{}: Invalid value {} (expected {})".format(
+                    level, repr(type(value)), repr(dict)
+                )
+            )
+
+    def check_str_list(self, level, value):
+        if not isinstance(value, list) or not all(isinstance(x, str) for x in value):
+            raise ConfigError(
+                "{}: Invalid value {} (expected a list of strings)".format(
+                    level, repr(value)
+                )
+            )
+
     def populate_object(self, obj, level, source, valid_values, value_transforms):
+        self.check_dict(level, source)
         for k, v in source.items():
             if k not in valid_values:
                 continue
@@ -175,6 +194,7 @@ class ConfigLoader:
         if "concurrency_groups" not in config:
             return
 
+        self.check_dict("Concurrency groups", config["concurrency_groups"])
         valid_values = {"max": (int,)}
         value_transforms = {}
 
@@ -203,7 +223,10 @@ class ConfigLoader:
         if "job_groups" in config:
             job_groups = config["job_groups"]
 
+        self.check_dict("Jobs", jobs)
+        self.check_dict("Job groups", job_groups)
         for job_group_name, job_group_dict in job_groups.items():
+            self.check_dict("Job group {}".format(job_group_name), job_group_dict)
             if not self.is_valid_name(job_group_name):
                 raise ConfigError("Job group {}: Invalid name".format(job_group_name))
             job_template = copy.deepcopy(job_group_dict)
@@ -211,6 +234,10 @@ class ConfigLoader:
                 raise ConfigError(
                     "Job group {}: job_names required".format(job_group_name)
                 )
+            self.check_str_list(
+                "Job group {}: job_names".format(job_group_name),
+                job_template["job_names"],
+            )
             for job_name in job_template["job_names"]:
                 jobs[job_name] = copy.deepcopy(job_template)
                 jobs[job_name]["job_group"] = job_group_name
@@ -242,10 +269,15 @@ class ConfigLoader:
 
         if not self.is_valid_name(job_name):
             raise ConfigError("Job {}: Invalid name".format(job_name))
+        self.check_dict("Job {}".format(job_name), job_dict)
         if "command" not in job_dict:
             raise ConfigError("Job {}: command required".format(job_name))
         if type(job_dict["command"]) == str:
-            job_dict["command"] = shlex.split(job_dict["command"])
+            try:
+                job_dict["command"] = shlex.split(job_dict["command"])
+            except ValueError as e:
+                raise ConfigError("Job {}: Invalid command: {}".format(job_name, e))
+        self.check_str_list("Job {}: command".format(job_name), job_dict["command"])
         job = dsari.Job(job_name)
         self.populate_object(
             job, "Job {}".format(job_name), job_dict, valid_values, value_transforms
@@ -265,6 +297,10 @@ class ConfigLoader:
     def build_job_concurrency_groups(self, job, job_dict):
         if "concurrency_groups" not in job_dict:
             return
+        self.check_str_list(
+            "Job {}: concurrency_groups".format(job.name),
+            job_dict["concurrency_groups"],
+        )
         for concurrency_group_name in job_dict["concurrency_groups"]:
             if concurrency_group_name in self.config.concurrency_groups:
                 concurrency_group = self.config.concurrency_groups[
-- 
2.43.0


From 10529e0a89f2feecb762e5a4c647377c616bb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 12/47] fix: config dump is not loadable and loses
 schedule_timezone

The dump has null for unset options, which were rejected although null is their
documented default, and did not include the jobs' timezones.
---
 dsari/__init__.py |  1 +
 dsari/config.py   | 14 +++++++++-----
 dsari/info.py     |  1 +
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/dsari/__init__.py b/dsari/__init__.py
index 5809544..81cae8f 100644
--- a/dsari/__init__.py
+++ b/dsari/__init__.py
@@ -34,6 +34,7 @@ class Job(object):
             self.schedule_timezone = utils.dtnow().tzinfo
         else:
             self.schedule_timezone = utils.dateutil_tz.tzlocal()
+        self.schedule_timezone_name = None
         self.concurrency_groups = []
         self.max_execution = None
         self.max_execution_grace = utils.seconds_to_td(60.0)
diff --git a/dsari/config.py b/dsari/config.py
index 18108fb..01ed008 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -158,6 +158,9 @@ class ConfigLoader:
                         level, k, repr(type(v)), repr(valid_values[k])
                     )
                 )
+            if v is None:
+                # The default of everything which may be null
+                continue
             if k in value_transforms:
                 try:
                     v = value_transforms[k](v)
@@ -173,12 +176,12 @@ class ConfigLoader:
     def build_base(self, config):
         valid_values = {
             "data_dir": (str,),
-            "template_dir": (str,),
+            "template_dir": (type(None), str),
             "report_html_gz": (bool,),
             "report_run_output_start": (int,),
             "report_run_output_end": (int,),
             "shutdown_kill_runs": (bool,),
-            "shutdown_kill_grace": (int, float),
+            "shutdown_kill_grace": (type(None), int, float),
             "environment": (dict,),
             "database": (dict,),
         }
@@ -250,14 +253,14 @@ class ConfigLoader:
         valid_values = {
             "command": (list, str),
             "schedule": (type(None),) + (str,),
-            "schedule_timezone": (str,),
-            "max_execution": (int, float),
+            "schedule_timezone": (type(None), str),
+            "max_execution": (type(None), int, float),
             "max_execution_grace": (int, float),
             "environment": (dict,),
             "render_reports": (bool,),
             "command_append_run": (bool,),
             "jenkins_environment": (bool,),
-            "job_group": (str,),
+            "job_group": (type(None), str),
             "concurrent_runs": (bool,),
         }
         value_transforms = {
@@ -291,6 +294,7 @@ class ConfigLoader:
                         job.name, job.schedule, type(e), str(e)
                     )
                 )
+        job.schedule_timezone_name = job_dict.get("schedule_timezone")
         self.build_job_concurrency_groups(job, job_dict)
         self.config.jobs[job.name] = job
 
diff --git a/dsari/info.py b/dsari/info.py
index eeaf0a7..dcdab2d 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -310,6 +310,7 @@ class Info:
                 "command": job.command,
                 "command_append_run": job.command_append_run,
                 "schedule": job.schedule,
+                "schedule_timezone": job.schedule_timezone_name,
                 "next_scheduled_run": (
                     get_next_schedule_time(
                         job.schedule, job.name, start_time=dtnow(job.schedule_timezone)
-- 
2.43.0


From 7b6e9906dde54801c32ae25e55a2bd2e2b7b1d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 13/47] fix: a database option without a type stops everything

sqlite3 is the documented default type.
---
 dsari/database.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/database.py b/dsari/database.py
index 4773ae9..c42b260 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -13,6 +13,7 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 
 
 def get_database(config):
+    config.database.setdefault("type", "sqlite3")
     if config.database["type"] == "postgresql":
         return PostgreSQLDatabase(config)
     elif config.database["type"] == "mysql":
-- 
2.43.0


From 73d8bfbf74aff7afd1be8e202ab67de1390de98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:16 +0000
Subject: [PATCH 14/47] fix: config dump refers to a config.d which may not
 load with it

A job group spread over the main file and config.d made the dump unloadable, or
changed its meaning.
---
 dsari/info.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index dcdab2d..e26e2ec 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -345,9 +345,14 @@ class Info:
         if self.args.raw:
             config = self.config.raw_config
         else:
-            config = {"jobs": self.dump_jobs(), "concurrency_groups": {}}
+            # The config.d files are already merged, partial definitions in
+            # them would not load on top of the dump.
+            config = {
+                "jobs": self.dump_jobs(),
+                "concurrency_groups": {},
+                "config_d": None,
+            }
             for attr in (
-                "config_d",
                 "data_dir",
                 "template_dir",
                 "report_html_gz",
-- 
2.43.0


From d319f0e692ed3a84e243829607ca25de83858c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 15/47] fix: a run which dumps core is recorded with a wrong
 exit code

---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 1f40463..cc8905f 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -44,7 +44,7 @@ __version__ = dsari.__version__
 def wait_deadline(pid, options, deadline, interval=0.05):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
-        child_signal = child_exit % 256
+        child_signal = child_exit & 0x7F  # 0x80 tells of a core dump
         if child_signal > 0:
             child_exit = 128 + child_signal
         else:
-- 
2.43.0


From 9c604b7a932af2eebe275b8655a486c24c9be341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:31 +0000
Subject: [PATCH 16/47] fix: the next run of a job just started is up to a
 minute late

---
 dsari/daemon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index cc8905f..3c4e99e 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -723,6 +723,7 @@ class Scheduler:
             run.trigger_type = "schedule"
             run.schedule_time = t
             self.scheduled_runs.append(run)
+            self.wakeups.append(t)
             self.logger.debug(
                 "[{} {}] Next scheduled run: {} ({})".format(
                     job.name, run.id, t, (t - now)
-- 
2.43.0


From e8855e0ef2b4ebda764b134d71a5136234e97740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 17/47] fix: an unparsable trigger file stops the daemon

---
 dsari/daemon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 3c4e99e..bf51500 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -556,7 +556,7 @@ class Scheduler:
             return
         except ValueError as e:
             self.logger.error(
-                "[{}] Cannot load trigger: {}".format(job.name, e.message)
+                "[{}] Cannot load trigger: {}".format(job.name, str(e))
             )
             return
         if type(j) != dict:
-- 
2.43.0


From 9c81b88352ec3149ba80087560ecc478197c3ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 18/47] fix: odd times in a trigger file stop the daemon,
 schedule_timezone is not applied

---
 dsari/daemon.py | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index bf51500..3d2b772 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -22,6 +22,7 @@ except ImportError:
 
 try:
     import dateutil.parser as dateutil_parser
+    import dateutil.tz as dateutil_tz
 except ImportError as e:
     dateutil_parser = e
 
@@ -527,6 +528,21 @@ class Scheduler:
         for job in self.jobs:
             self.process_trigger_job(job)
 
+    def get_trigger_time(self, t, j):
+        tz = j.get("schedule_timezone")
+        if "schedule_time" in j:
+            if type(j["schedule_time"]) in (int, float):
+                t = epoch_to_dt(float(j["schedule_time"]))
+            elif isinstance(dateutil_parser, ImportError):
+                raise dateutil_parser
+            else:
+                # YAML may have parsed a time already
+                t = dateutil_parser.parse(str(j["schedule_time"]))
+                if t.tzinfo is None and tz is not None:
+                    t = t.replace(tzinfo=dateutil_tz.gettz(tz))
+        # Only accept times which can be read back from the database
+        return dtlocalize(epoch_to_dt(dt_to_epoch(t)), tz)
+
     def process_trigger_job(self, job):
         trigger_file = None
         trigger_file_type = None
@@ -541,8 +557,8 @@ class Scheduler:
             break
         if trigger_file is None:
             return
-        t = dtlocalize(epoch_to_dt(os.path.getmtime(trigger_file)))
         try:
+            t = epoch_to_dt(os.path.getmtime(trigger_file))
             j = load_structured_file(
                 trigger_file, file_type=trigger_file_type, delete_during=True
             )
@@ -570,27 +586,15 @@ class Scheduler:
             )
             return
 
-        if "schedule_time" in j:
-            if type(j["schedule_time"]) in (int, float):
-                t = epoch_to_dt(float(j["schedule_time"]))
-            elif not isinstance(dateutil_parser, ImportError):
-                try:
-                    t = dateutil_parser.parse(j["schedule_time"])
-                except ValueError:
-                    self.logger.error(
-                        '[{}] Invalid schedule_time "{}" for trigger'.format(
-                            job.name, j["schedule_time"]
-                        )
-                    )
-                    return
-            else:
-                self.logger.error(
-                    '[{}] Cannot parse schedule_time "{}" for trigger'.format(
-                        job.name, j["schedule_time"]
-                    )
+        try:
+            t = self.get_trigger_time(t, j)
+        except Exception as e:
+            self.logger.error(
+                '[{}] Invalid schedule_time "{}" for trigger: {}'.format(
+                    job.name, j.get("schedule_time"), str(e)
                 )
-                return
-        t = dtlocalize(t, j.get("schedule_timezone"))
+            )
+            return
 
         if "environment" in j:
             try:
-- 
2.43.0


From a683621e449488ba5d76753dbfdd3791602fdd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 19/47] fix: YAML data which JSON cannot hold stops the daemon

---
 dsari/daemon.py | 15 +++++++++++++--
 dsari/utils.py  |  5 +++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 3d2b772..58b5c50 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -34,6 +34,7 @@ from dsari.utils import dt_to_epoch, epoch_to_dt
 from dsari.utils import seconds_to_td, td_to_seconds
 from dsari.utils import (
     get_next_schedule_time,
+    json_data,
     load_structured_file,
     validate_environment_dict,
     yaml,
@@ -510,8 +511,10 @@ class Scheduler:
             break
         if return_data_file is not None:
             try:
-                run.run_data["return_data"] = load_structured_file(
-                    return_data_file, file_type=return_data_file_type
+                run.run_data["return_data"] = json_data(
+                    load_structured_file(
+                        return_data_file, file_type=return_data_file_type
+                    )
                 )
             except Exception:
                 pass
@@ -607,6 +610,14 @@ class Scheduler:
                 )
                 return
 
+        try:
+            j = json_data(j)
+        except Exception as e:
+            self.logger.error(
+                "[{}] Cannot load trigger: {}".format(job.name, str(e))
+            )
+            return
+
         run = dsari.Run(job)
         run.respawn = False
         run.trigger_type = "file"
diff --git a/dsari/utils.py b/dsari/utils.py
index 7bdb611..84a8bf4 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -161,6 +161,11 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     return t
 
 
+def json_data(v):
+    """Return v (e.g. as loaded from YAML) reduced to what JSON can hold."""
+    return json.loads(json.dumps(v, default=str))
+
+
 def json_pretty_print(v):
     return json.dumps(v, sort_keys=True, indent=4, separators=(",", ": "))
 
-- 
2.43.0


From 5144cf88cebacf5dc0c643f027c6aa85de450896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 20/47] fix: a random schedule which draws an impossible date
 stops the daemon

---
 dsari/utils.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 84a8bf4..aa5dbfa 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -152,13 +152,19 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         raise ImportError("croniter not available, manual triggers only")
     if len(schedule.split()) == 5:
         schedule = schedule + " H"
-    t = (
-        croniter_hash.croniter_hash(
-            schedule, start_time=start_time - subsecond_offset, hash_id=job_name
-        ).get_next(datetime.datetime)
-        + subsecond_offset
-    )
-    return t
+    # R may happen to draw a date which does not exist, e.g. February 30
+    for attempts in range(100 if "R" in schedule else 1, 0, -1):
+        try:
+            t = (
+                croniter_hash.croniter_hash(
+                    schedule, start_time=start_time - subsecond_offset, hash_id=job_name
+                ).get_next(datetime.datetime)
+                + subsecond_offset
+            )
+            return t
+        except croniter_hash.croniter.CroniterBadDateError:
+            if attempts == 1:
+                raise
 
 
 def json_data(v):
-- 
2.43.0


From 65b9a26f80239cd6b5e2f6f5ba3f2a956ca62a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 21/47] fix: signals crash or confuse the daemon, or are
 ignored while runs are running

---
 dsari/daemon.py | 59 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 14 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 58b5c50..b654bee 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -43,7 +43,16 @@ from dsari.utils import (
 __version__ = dsari.__version__
 
 
-def wait_deadline(pid, options, deadline, interval=0.05):
+HANDLED_SIGNALS = (
+    signal.SIGHUP,
+    signal.SIGINT,
+    signal.SIGTERM,
+    signal.SIGQUIT,
+    signal.SIGUSR1,
+)
+
+
+def wait_deadline(pid, options, deadline, interval=0.05, pending=()):
     while True:
         (child_pid, child_exit, child_resource) = os.wait4(pid, options)
         child_signal = child_exit & 0x7F  # 0x80 tells of a core dump
@@ -53,7 +62,7 @@ def wait_deadline(pid, options, deadline, interval=0.05):
             child_exit = child_exit >> 8
         if child_pid != 0:
             return (child_pid, child_exit, child_resource)
-        if dtnow() >= deadline:
+        if pending or dtnow() >= deadline:
             return (child_pid, child_exit, child_resource)
         time.sleep(interval)
 
@@ -134,13 +143,8 @@ class Scheduler:
 
         self.reset_jobs()
 
-        for signum in (
-            signal.SIGHUP,
-            signal.SIGINT,
-            signal.SIGTERM,
-            signal.SIGQUIT,
-            signal.SIGUSR1,
-        ):
+        self.pending_signals = []
+        for signum in HANDLED_SIGNALS:
             signal.signal(signum, self.signal_handler)
 
         self.logger.info("Scheduler running")
@@ -188,7 +192,15 @@ class Scheduler:
             run.kill_sent = True
 
     def signal_handler(self, signum, frame):
-        self.next_wakeup = dtnow()
+        # The signal may have interrupted anything, so leave its processing
+        # to the main loop, which stops waiting as soon as one is pending.
+        self.pending_signals.append(signum)
+
+    def process_signals(self):
+        while self.pending_signals:
+            self.process_signal(self.pending_signals.pop(0))
+
+    def process_signal(self, signum):
         if signum in (signal.SIGINT, signal.SIGTERM):
             if signum == signal.SIGINT:
                 self.logger.info("SIGINT received, beginning shutdown")
@@ -336,8 +348,9 @@ class Scheduler:
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
-        for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):
+        for signum in HANDLED_SIGNALS:
             signal.signal(signum, signal.SIG_DFL)
+        signal.pthread_sigmask(signal.SIG_UNBLOCK, HANDLED_SIGNALS)
 
         # Put the child in its own process group to prevent SIGINT from
         # propagating to the children
@@ -474,7 +487,7 @@ class Scheduler:
             "Waiting up to {} for running jobs".format(self.next_wakeup - dtnow())
         )
         (child_pid, child_exit, child_resource) = wait_deadline(
-            -1, os.WNOHANG, self.next_wakeup
+            -1, os.WNOHANG, self.next_wakeup, pending=self.pending_signals
         )
         if child_pid == 0:
             return child_pid
@@ -689,6 +702,17 @@ class Scheduler:
                 self.wakeups.append(now + backoff_time)
                 return
 
+        # Signals either prevent the start (e.g. a shutdown request) or wait
+        # until the run is known to be running and its process is set up.
+        signal.pthread_sigmask(signal.SIG_BLOCK, HANDLED_SIGNALS)
+        try:
+            if not self.pending_signals:
+                self.start_run(run, now)
+        finally:
+            signal.pthread_sigmask(signal.SIG_UNBLOCK, HANDLED_SIGNALS)
+
+    def start_run(self, run, now):
+        job = run.job
         (
             run.previous_run,
             run.previous_good_run,
@@ -753,12 +777,15 @@ class Scheduler:
 
     def loop(self):
         while True:
+            self.process_signals()
             self.wakeups = []
             self.process_triggers()
 
             scheduled_runs = copy.copy(self.scheduled_runs)
             random.shuffle(scheduled_runs)
             for run in scheduled_runs:
+                if self.pending_signals:
+                    break
                 self.process_scheduled_run(run)
 
             for run in self.running_runs:
@@ -770,7 +797,11 @@ class Scheduler:
             self.process_wakeups()
 
             if len(self.running_runs) > 0:
-                while (len(self.running_runs) > 0) and (self.next_wakeup > dtnow()):
+                while (
+                    (len(self.running_runs) > 0)
+                    and (self.next_wakeup > dtnow())
+                    and not self.pending_signals
+                ):
                     if self.process_next_child() == 0:
                         break
             else:
@@ -781,7 +812,7 @@ class Scheduler:
                 self.logger.debug(
                     "No running jobs, waiting until {}".format(self.next_wakeup)
                 )
-                while True:
+                while not self.pending_signals:
                     now = dtnow()
                     if self.next_wakeup <= now:
                         break
-- 
2.43.0


From 246edabb31dadf6d05f95c54b102ad2d15910312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 22/47] fix: reloading an invalid configuration stops the
 daemon

---
 dsari/daemon.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index b654bee..b5fa1db 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -209,7 +209,13 @@ class Scheduler:
             self.begin_shutdown()
         elif signum == signal.SIGHUP:
             self.logger.info("SIGHUP received, reloading")
-            self.load_config()
+            try:
+                self.load_config()
+            except Exception as e:
+                self.logger.error(
+                    "Cannot load configuration, keeping the previous one: {}".format(e)
+                )
+                return
             self.reset_jobs()
         elif signum == signal.SIGQUIT:
             self.sigquit_status()
-- 
2.43.0


From 392e010cfc1b0c95e4d6783c670f3d77ad37724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 23/47] fix: repeated shutdown requests postpone SIGKILL

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index b5fa1db..ccc3cc7 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -150,8 +150,9 @@ class Scheduler:
         self.logger.info("Scheduler running")
 
     def begin_shutdown(self):
+        if not self.shutdown:
+            self.shutdown_begin = dtnow()
         self.shutdown = True
-        self.shutdown_begin = dtnow()
         self.scheduled_runs = []
         for run in self.running_runs:
             run.respawn = False
-- 
2.43.0


From 4e436d787529fe0c1bb025d991b966c40c7fcd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 24/47] fix: a reload changes the execution limits of runs in
 progress

---
 dsari/daemon.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index ccc3cc7..22e262d 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -324,13 +324,13 @@ class Scheduler:
 
     def process_run_execution_time(self, run):
         job = run.job
-        if not job.max_execution:
+        if not run.max_execution:
             return
-        sigterm_grace = job.max_execution_grace
+        sigterm_grace = run.max_execution_grace
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
         delta = now - run.start_time
-        if delta > (job.max_execution + sigterm_grace):
+        if delta > (run.max_execution + sigterm_grace):
             if not run.kill_sent:
                 self.logger.warning(
                     "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
@@ -340,18 +340,18 @@ class Scheduler:
                 os.kill(run.pid, signal.SIGKILL)
                 run.kill_sent = True
             self.wakeups.append(now + sigkill_grace)
-        elif delta > job.max_execution:
+        elif delta > run.max_execution:
             if not run.term_sent:
                 self.logger.warning(
                     "[{} {}] Max execution ({}) exceeded, sending SIGTERM to {}".format(
-                        job.name, run.id, job.max_execution, run.pid
+                        job.name, run.id, run.max_execution, run.pid
                     )
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
             self.wakeups.append(now + sigterm_grace)
         else:
-            self.wakeups.append(run.start_time + job.max_execution)
+            self.wakeups.append(run.start_time + run.max_execution)
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
@@ -734,6 +734,9 @@ class Scheduler:
         run.start_time = now
         run.term_sent = False
         run.kill_sent = False
+        # The limits stay the same if the job is changed by a reload
+        run.max_execution = job.max_execution
+        run.max_execution_grace = job.max_execution_grace
 
         self.db.insert_running_run(run)
 
-- 
2.43.0


From 4b7e3ea7b19c9f2215277aebd382b1102a3102b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 25/47] fix: SIGKILL may come without or too soon or too long
 after SIGTERM

---
 dsari/daemon.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 22e262d..587a2b7 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -329,18 +329,10 @@ class Scheduler:
         sigterm_grace = run.max_execution_grace
         sigkill_grace = seconds_to_td(5.0)
         now = dtnow()
-        delta = now - run.start_time
-        if delta > (run.max_execution + sigterm_grace):
-            if not run.kill_sent:
-                self.logger.warning(
-                    "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
-                        job.name, run.id, sigterm_grace, run.pid
-                    )
-                )
-                os.kill(run.pid, signal.SIGKILL)
-                run.kill_sent = True
-            self.wakeups.append(now + sigkill_grace)
-        elif delta > run.max_execution:
+        if run.exceeded_time is None:
+            if (now - run.start_time) < run.max_execution:
+                self.wakeups.append(run.start_time + run.max_execution)
+                return
             if not run.term_sent:
                 self.logger.warning(
                     "[{} {}] Max execution ({}) exceeded, sending SIGTERM to {}".format(
@@ -349,9 +341,19 @@ class Scheduler:
                 )
                 os.kill(run.pid, signal.SIGTERM)
                 run.term_sent = True
-            self.wakeups.append(now + sigterm_grace)
-        else:
-            self.wakeups.append(run.start_time + run.max_execution)
+            run.exceeded_time = now
+        if (now - run.exceeded_time) < sigterm_grace:
+            self.wakeups.append(run.exceeded_time + sigterm_grace)
+            return
+        if not run.kill_sent:
+            self.logger.warning(
+                "[{} {}] SIGTERM grace ({}) exceeded, sending SIGKILL to {}".format(
+                    job.name, run.id, sigterm_grace, run.pid
+                )
+            )
+            os.kill(run.pid, signal.SIGKILL)
+            run.kill_sent = True
+        self.wakeups.append(now + sigkill_grace)
 
     def run_child_executor(self, run):
         # Reset all handled signals to default
@@ -734,6 +736,7 @@ class Scheduler:
         run.start_time = now
         run.term_sent = False
         run.kill_sent = False
+        run.exceeded_time = None
         # The limits stay the same if the job is changed by a reload
         run.max_execution = job.max_execution
         run.max_execution_grace = job.max_execution_grace
-- 
2.43.0


From b37fe6c8a11a94f825fd23b772ad5090ceae109c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 26/47] fix: a timezone with an impossible offset stops the
 daemon

---
 dsari/config.py | 6 +++++-
 dsari/daemon.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsari/config.py b/dsari/config.py
index 01ed008..9730fea 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -287,7 +287,11 @@ class ConfigLoader:
         )
         if job.schedule is not None:
             try:
-                utils.get_next_schedule_time(job.schedule, job.name)
+                utils.get_next_schedule_time(
+                    job.schedule,
+                    job.name,
+                    start_time=utils.dtnow(job.schedule_timezone),
+                )
             except Exception as e:
                 raise ConfigError(
                     "Job {}: Invalid schedule ({}): {}: {}".format(
diff --git a/dsari/daemon.py b/dsari/daemon.py
index 587a2b7..f3b09af 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -566,7 +566,7 @@ class Scheduler:
                 if t.tzinfo is None and tz is not None:
                     t = t.replace(tzinfo=dateutil_tz.gettz(tz))
         # Only accept times which can be read back from the database
-        return dtlocalize(epoch_to_dt(dt_to_epoch(t)), tz)
+        return dtlocalize(epoch_to_dt(dt_to_epoch(t)))
 
     def process_trigger_job(self, job):
         trigger_file = None
-- 
2.43.0


From cbfd6816cec0c5a7832e26ab8d6fd274687a7792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 27/47] fix: runs are started with SIGXFSZ ignored

---
 dsari/daemon.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index f3b09af..70461ec 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -459,6 +459,9 @@ class Scheduler:
 
         # Set STDIN to /dev/null, and STDOUT/STDERR to the output file
         signal.signal(signal.SIGPIPE, signal.SIG_DFL)
+        # Python ignores this one as well
+        if hasattr(signal, "SIGXFSZ"):
+            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
         out_f = open(
             os.path.join(self.config.data_dir, "runs", job.name, run.id, "output.txt"),
             "w",
-- 
2.43.0


From 7c2e5db7a254e73e847a6f46b542ecf8419df961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:25 +0000
Subject: [PATCH 28/47] fix: readers of a MySQL database never see later runs

---
 dsari/database.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index c42b260..0fce434 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -178,6 +178,7 @@ class BaseSQLDatabase(BaseDatabase):
         else:
             previous_bad_run = None
 
+        self.db_conn.commit()
         return (previous_run, previous_good_run, previous_bad_run)
 
     def insert_running_run(self, run):
@@ -319,6 +320,9 @@ class BaseSQLDatabase(BaseDatabase):
                 fake_jobs[db_result["job_name"]] = job
             runs.append(self._build_run_from_result(job, db_result))
         cur.close()
+        # End the transaction, reads would otherwise keep returning the state
+        # at its beginning (MySQL)
+        self.db_conn.commit()
         return runs
 
 
@@ -399,6 +403,8 @@ class PostgreSQLDatabase(BaseSQLDatabase):
             cur.close()
             self.db_conn.commit()
 
+        self.db_conn.commit()
+
 
 class MySQLDatabase(BaseSQLDatabase):
     def __init__(self, config):
@@ -478,6 +484,8 @@ class MySQLDatabase(BaseSQLDatabase):
             cur.close()
             self.db_conn.commit()
 
+        self.db_conn.commit()
+
 
 class SQLite3Database(BaseSQLDatabase):
     placeholder = "?"
-- 
2.43.0


From 16a9b8624befa0b8f48767c547159e524e305753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 29/47] fix: querying no jobs or runs at all is a syntax error
 in PostgreSQL and MySQL

---
 dsari/database.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/database.py b/dsari/database.py
index 0fce434..c5d26ef 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -283,6 +283,9 @@ class BaseSQLDatabase(BaseDatabase):
         else:
             where = None
             where_in = []
+        if where is not None and not where_in:
+            # "in ()" is not valid everywhere
+            return []
         if runs_running:
             table_name = "runs_running"
         else:
-- 
2.43.0


From f8517b18b1cbb9501d2566f4180b16408a516036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 30/47] fix: run output which is not UTF-8 cannot be rendered
 or printed

---
 dsari/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index aa5dbfa..70cd522 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -179,14 +179,14 @@ def json_pretty_print(v):
 def read_output(filename):
     if os.path.isfile(filename):
         with open(filename, "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif os.path.isfile("{}.gz".format(filename)):
         with gzip.open("{}.gz".format(filename), "rb") as f:
-            return f.read().decode("utf-8")
+            return f.read().decode("utf-8", "replace")
     elif (not isinstance(lzma, ImportError)) and os.path.isfile(
         "{}.xz".format(filename)
     ):
         with open("{}.xz".format(filename), "rb") as f:
-            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8")
+            return lzma.LZMADecompressor().decompress(f.read()).decode("utf-8", "replace")
     else:
         return None
-- 
2.43.0


From 32528d853887f1ed18aaead83987bc4f79f46d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 31/47] fix: dsari-info run output crashes if there is no
 output

---
 dsari/info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsari/info.py b/dsari/info.py
index e26e2ec..89abd51 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -549,8 +549,11 @@ class Info:
         fn = os.path.join(
             self.config.data_dir, "runs", run.job.name, run.id, "output.txt"
         )
+        output = dsari.utils.read_output(fn)
+        if output is None:
+            self.args.parser.error("No output found for run ID {}".format(run_id))
         with AutoPager() as pager:
-            pager.write(dsari.utils.read_output(fn))
+            pager.write(output)
 
     def cmd_tail_run_output(self):
         while True:
-- 
2.43.0


From 438091487027a0873f2a435db87ca65b5327f5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 32/47] fix: dsari-info misses a run which finishes while it
 reads the history

---
 dsari/info.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index 89abd51..b4ef1b6 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -426,9 +426,15 @@ class Info:
     def cmd_list_runs(self):
         job_names = self.args.job
         run_ids = self.args.run
+        # A run may finish in between, so ask for the running ones first
+        runs_running = self.db.get_runs(
+            job_names=job_names, run_ids=run_ids, runs_running=True
+        )
         runs = self.db.get_runs(
             job_names=job_names, run_ids=run_ids, runs_running=False
-        ) + self.db.get_runs(job_names=job_names, run_ids=run_ids, runs_running=True)
+        )
+        finished = {run.id for run in runs}
+        runs += [run for run in runs_running if run.id not in finished]
         if self.args.format in ("json", "yaml"):
             out = {}
             for run in runs:
@@ -540,9 +546,9 @@ class Info:
 
     def cmd_get_run_output(self):
         run_id = self.args.run
-        runs = self.db.get_runs(run_ids=[run_id])
+        runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
         if len(runs) == 0:
-            runs = self.db.get_runs(run_ids=[run_id], runs_running=True)
+            runs = self.db.get_runs(run_ids=[run_id])
             if len(runs) == 0:
                 self.args.parser.error("Cannot find run ID {}".format(run_id))
         run = runs[0]
-- 
2.43.0


From c33031cd8ddd996df0310b6624590a61730de0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 33/47] fix: dsari-render crashes if template_dir is set

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79727f7..6433649 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -94,8 +94,10 @@ class Renderer:
 
         if self.config.template_dir:
             loader = jinja2.ChoiceLoader(
-                jinja2.FileSystemLoader(self.config.template_dir),
-                jinja2.PackageLoader("dsari"),
+                [
+                    jinja2.FileSystemLoader(self.config.template_dir),
+                    jinja2.PackageLoader("dsari"),
+                ]
             )
         else:
             loader = jinja2.PackageLoader("dsari")
-- 
2.43.0


From 16275527248b6f76bf9412fef38ef1196e8d87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 34/47] fix: run pages repeat parts of outputs which need not
 be shortened

---
 dsari/render.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 6433649..e62bac4 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -166,15 +166,11 @@ class Renderer:
         raw_len = 0 if raw_output is None else len(raw_output)
         limit_start = self.config.report_run_output_start
         limit_end = self.config.report_run_output_end
-        limit_combined = limit_start + limit_end
+        limit_combined = max(limit_start, 0) + max(limit_end, 0)
         if (
             (raw_output is not None)
             and (limit_start > 0 or limit_end > 0)
-            and (
-                raw_len > limit_combined
-                or (raw_len > limit_start and limit_start > 0)
-                or (raw_len > limit_end and limit_end > 0)
-            )
+            and raw_len > limit_combined
         ):
             run.output = ""
             if limit_start > 0:
-- 
2.43.0


From 1b726ddbb7096f109f0cd284674236d56441eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 35/47] fix: dsari-render crashes on trigger data which cannot
 be encoded

---
 dsari/render.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index e62bac4..79d4cdc 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -66,12 +66,14 @@ def parse_args():
 
 
 def write_html_file(filename, content):
+    # Trigger data may contain lone surrogates
+    content = content.encode("utf-8", "replace")
     if filename.endswith(".gz"):
         with gzip.open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+            f.write(content)
     else:
         with open(filename, "wb") as f:
-            f.write(content.encode("utf-8"))
+            f.write(content)
 
 
 class Renderer:
-- 
2.43.0


From f79d2a367f76f7e097ac9cfef9c71c428eda60fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 36/47] fix: links to jobs with a colon in their name do not
 work

---
 dsari/templates/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsari/templates/index.html b/dsari/templates/index.html
index 214902a..c8a81ed 100644
--- a/dsari/templates/index.html
+++ b/dsari/templates/index.html
@@ -21,7 +21,7 @@
 </tr>
 {% for run in failed_runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -38,7 +38,7 @@
 </tr>
 {% for run in runs %}
 <tr{% if run.exit_code != 0 %} class="danger"{% endif %}>
-    <td><a href="{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
+    <td><a href="./{{ run.job.name }}/{{ run.id }}/">{{ strip_ms(run.stop_time) }}</a></td>
     <td>{{ run.job.name }}</td>
     <td>{{ strip_ms(run.stop_time - run.start_time) }}</td>
     <td>{{ run.exit_code }}</td>
@@ -55,7 +55,7 @@
 </tr>
 {% for job in jobs %}
 <tr{% if job.last_run.start_time != job.last_successful_run.start_time %} class="danger"{% endif %}>
-    <td><a href="{{ job.name }}/">{{ job.name }}</a></td>
+    <td><a href="./{{ job.name }}/">{{ job.name }}</a></td>
     <td>{{ strip_ms(job.last_run.start_time) }}</td>
     <td>{% if job.last_run.start_time %}{{ strip_ms(job.last_run.stop_time - job.last_run.start_time) }}{% endif %}</td>
     <td>{{ strip_ms(job.last_successful_run.start_time) }}</td>
-- 
2.43.0


From df498ebccee513901628f70049d951b2e7d0f129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 37/47] fix: SIGHUP makes the exporter fail a request, or exit
 if the configuration is invalid

---
 dsari/prometheus_exporter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index 3bc4504..d4dab79 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -390,13 +390,15 @@ class PrometheusHandler:
             lh_console.setLevel(logging.INFO)
         self.logger.addHandler(lh_console)
 
+        self.reload = False
         for signum in (signal.SIGHUP,):
             signal.signal(signum, self.signal_handler)
 
     def signal_handler(self, signum, frame):
         if signum == signal.SIGHUP:
+            # To be done before the next request, not in the middle of one
             self.logger.info("SIGHUP received, reloading")
-            self.prom.load_config()
+            self.reload = True
 
     def __call__(self, environ, start_response):
         self.environ = environ
@@ -413,6 +415,13 @@ class PrometheusHandler:
             )
             return [body]
 
+        if self.reload:
+            self.reload = False
+            try:
+                self.prom.load_config()
+            except Exception as e:
+                self.logger.error("Error reloading config: {}".format(e))
+
         body = self.prom.get_metrics().encode("utf-8")
         self.start_response(
             "200 OK",
-- 
2.43.0


From 72bc06f9581ab699ac5ab3bc619b6f4039844d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 38/47] fix: Do not fail if another process creates the
 database at the same time

---
 dsari/database.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/dsari/database.py b/dsari/database.py
index c5d26ef..978fb91 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -357,7 +357,7 @@ class PostgreSQLDatabase(BaseSQLDatabase):
 
         if not runs_exists:
             sql_statement = """
-                CREATE TABLE runs (
+                CREATE TABLE IF NOT EXISTS runs (
                     job_name text NOT NULL,
                     run_id uuid PRIMARY KEY,
                     schedule_time timestamp NOT NULL,
@@ -391,7 +391,7 @@ class PostgreSQLDatabase(BaseSQLDatabase):
 
         if not runs_running_exists:
             sql_statement = """
-                CREATE TABLE runs_running (
+                CREATE TABLE IF NOT EXISTS runs_running (
                     job_name text NOT NULL,
                     run_id uuid PRIMARY KEY,
                     schedule_time timestamp NOT NULL,
@@ -438,7 +438,7 @@ class MySQLDatabase(BaseSQLDatabase):
 
         if not runs_exists:
             sql_statement = """
-                CREATE TABLE runs (
+                CREATE TABLE IF NOT EXISTS runs (
                     job_name varchar(255) NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
@@ -472,7 +472,7 @@ class MySQLDatabase(BaseSQLDatabase):
 
         if not runs_running_exists:
             sql_statement = """
-                CREATE TABLE runs_running (
+                CREATE TABLE IF NOT EXISTS runs_running (
                     job_name varchar(255) NOT NULL,
                     run_id char(36) PRIMARY KEY,
                     schedule_time datetime(6) NOT NULL,
@@ -501,8 +501,7 @@ class SQLite3Database(BaseSQLDatabase):
         if config.database["file"] is None:
             config.database["file"] = os.path.join(config.data_dir, "dsari.sqlite3")
         db_dir = os.path.dirname(config.database["file"])
-        if not os.path.exists(db_dir):
-            os.makedirs(db_dir)
+        os.makedirs(db_dir, exist_ok=True)
         self.config = config
         self.db_conn = sqlite3.connect(config.database["file"])
         self.db_conn.row_factory = sqlite3.Row
@@ -526,7 +525,7 @@ class SQLite3Database(BaseSQLDatabase):
 
         if not runs_exists:
             sql_statement = """
-                CREATE TABLE runs (
+                CREATE TABLE IF NOT EXISTS runs (
                     job_name text,
                     run_id text,
                     schedule_time real,
@@ -560,7 +559,7 @@ class SQLite3Database(BaseSQLDatabase):
 
         if not runs_running_exists:
             sql_statement = """
-                CREATE TABLE runs_running (
+                CREATE TABLE IF NOT EXISTS runs_running (
                     job_name text,
                     run_id text,
                     schedule_time real,
-- 
2.43.0


From 5ae275eac750e753aaa905dc6e72542623504300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 39/47] fix: load jobs if python-dateutil is not installed

Every configuration with a job was answered with an AttributeError,
although python-dateutil is optional.  dtlocalize() already copes with
time zones it cannot look up.
---
 dsari/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/config.py b/dsari/config.py
index 9730fea..5818729 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -264,11 +264,12 @@ class ConfigLoader:
             "concurrent_runs": (bool,),
         }
         value_transforms = {
-            "schedule_timezone": utils.dateutil_tz.gettz,
             "max_execution": utils.seconds_to_td,
             "max_execution_grace": utils.seconds_to_td,
             "environment": lambda x: utils.validate_environment_dict(copy.deepcopy(x)),
         }
+        if not isinstance(utils.dateutil_tz, ImportError):
+            value_transforms["schedule_timezone"] = utils.dateutil_tz.gettz
 
         if not self.is_valid_name(job_name):
             raise ConfigError("Job {}: Invalid name".format(job_name))
-- 
2.43.0


From 436fc25e920777b635f94f086c5afb71e04bcbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 40/47] fix: do not refuse schedules which cannot be parsed for
 lack of a package

Without croniter and python-dateutil, dsari-daemon is to run and not to
process scheduled runs, but a configuration with a schedule was rejected
as invalid.
---
 dsari/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index 70cd522..cdc058a 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -126,7 +126,8 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     subsecond_offset = seconds_to_td(float(crc) / float(0xFFFFFFFF))
     if schedule.upper().startswith("RRULE:"):
         if isinstance(dateutil_rrule, ImportError):
-            raise ImportError("dateutil not available, manual triggers only")
+            # dateutil not available, manual triggers only
+            return None
         hashed_epoch = start_time - seconds_to_td(
             ((dt_to_epoch(start_time) - crc) % 86400)
         )
@@ -149,7 +150,8 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
             t = t + subsecond_offset
         return t
     if isinstance(croniter_hash, ImportError):
-        raise ImportError("croniter not available, manual triggers only")
+        # croniter not available, manual triggers only
+        return None
     if len(schedule.split()) == 5:
         schedule = schedule + " H"
     # R may happen to draw a date which does not exist, e.g. February 30
-- 
2.43.0


From 025cfe43658612e6bdbe181aa1587b296596e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:02 +0000
Subject: [PATCH 41/47] fix: pass the variables to the dsari-info shell without
 IPython

dict.update() returns None, so the documented variables were missing.
---
 dsari/info.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsari/info.py b/dsari/info.py
index b4ef1b6..f5aba00 100644
--- a/dsari/info.py
+++ b/dsari/info.py
@@ -620,9 +620,8 @@ class Info:
             class DsariConsole(code.InteractiveConsole):
                 pass
 
-            console_vars = vars.copy().update(
-                {"__name__": "__console__", "__doc__": None}
-            )
+            console_vars = vars.copy()
+            console_vars.update({"__name__": "__console__", "__doc__": None})
             print(banner, end="")
             DsariConsole(locals=console_vars).interact()
 
-- 
2.43.0


From 06e15aa570b6a06a45e10bbc6b65547254b0cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:47 +0000
Subject: [PATCH 42/47] fix: do not open the default database when the exporter
 is given another one

Importing the module, which the installed program does as well, set up the
WSGI application for the default configuration, and with it created (or
failed to create) a database in the default data directory.
---
 dsari/prometheus_exporter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsari/prometheus_exporter.py b/dsari/prometheus_exporter.py
index d4dab79..c2b5dea 100644
--- a/dsari/prometheus_exporter.py
+++ b/dsari/prometheus_exporter.py
@@ -120,8 +120,16 @@ def entry(values, type="gauge", help=None):
 class Prometheus:
     def __init__(self, args):
         self.args = args
+        self.opened_db = None
         self.load_config()
-        self.db = dsari.database.get_database(self.config)
+
+    @property
+    def db(self):
+        # Not before it is needed: when run from the command line, the WSGI
+        # application (of the default configuration) is set up, but not used
+        if self.opened_db is None:
+            self.opened_db = dsari.database.get_database(self.config)
+        return self.opened_db
 
     def load_config(self):
         self.config = dsari.config.get_config(self.args.config_dir)
-- 
2.43.0


From 66bbbefb7c4dce15764ab2faf854ab2afc90c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:50 +0000
Subject: [PATCH 43/47] fix: let an interrupted or failed rendering be made up
 for by the next one

---
 dsari/render.py | 59 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/dsari/render.py b/dsari/render.py
index 79d4cdc..da249ce 100644
--- a/dsari/render.py
+++ b/dsari/render.py
@@ -65,15 +65,39 @@ def parse_args():
     return parser.parse_args()
 
 
-def write_html_file(filename, content):
+class PendingFile:
+    """A file which does not replace the existing one until it is complete"""
+
+    def __init__(self, filename, content):
+        self.filename = filename
+        self.tmp_filename = "{}.{}.tmp".format(filename, os.getpid())
+        try:
+            with open(self.tmp_filename, "wb") as f:
+                f.write(content)
+        except BaseException:
+            self.discard()
+            raise
+
+    def commit(self):
+        os.replace(self.tmp_filename, self.filename)
+
+    def discard(self):
+        try:
+            os.remove(self.tmp_filename)
+        except FileNotFoundError:
+            pass
+
+
+def prepare_html_file(filename, content):
     # Trigger data may contain lone surrogates
     content = content.encode("utf-8", "replace")
     if filename.endswith(".gz"):
-        with gzip.open(filename, "wb") as f:
-            f.write(content)
-    else:
-        with open(filename, "wb") as f:
-            f.write(content)
+        content = gzip.compress(content)
+    return PendingFile(filename, content)
+
+
+def write_html_file(filename, content):
+    prepare_html_file(filename, content).commit()
 
 
 class Renderer:
@@ -132,10 +156,20 @@ class Renderer:
             self.job_runs[job.name] = []
         self.runs = []
         self.jobs_written = []
+        self.pending_run_files = []
 
-        self.render_runs()
-        self.render_jobs()
-        self.render_index()
+        try:
+            self.render_runs()
+            self.render_jobs()
+            self.render_index()
+            # An existing run report means its job's report and the index
+            # are up to date as well, so these go last
+            while self.pending_run_files:
+                self.pending_run_files[-1].commit()
+                self.pending_run_files.pop()
+        finally:
+            for pending_file in self.pending_run_files:
+                pending_file.discard()
 
     def render_runs(self):
         self.run_template = self.templates.get_template("run.html")
@@ -184,7 +218,9 @@ class Renderer:
             run.output = raw_output
         self.logger.info("Writing {}".format(run_html_filename))
         context = {"run": run}
-        write_html_file(run_html_filename, self.run_template.render(context))
+        self.pending_run_files.append(
+            prepare_html_file(run_html_filename, self.run_template.render(context))
+        )
         if job not in self.jobs_written:
             self.jobs_written.append(job)
 
@@ -220,8 +256,7 @@ class Renderer:
         css_filename = os.path.join(base_dir, "darkly.min.css")
         if not os.path.exists(css_filename):
             css_template = self.templates.get_template("darkly.min.css")
-            with open(css_filename, "wb") as f:
-                f.write(css_template.render({}).encode("utf-8"))
+            write_html_file(css_filename, css_template.render({}))
         self.index_template = self.templates.get_template("index.html")
         if (len(self.jobs_written) > 0) or self.args.regenerate:
             context = {
-- 
2.43.0


From ecf58d49348dd42364256c77956dd3a2f47e713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:50 +0000
Subject: [PATCH 44/47] fix: allow a database file without a directory

---
 dsari/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsari/database.py b/dsari/database.py
index 978fb91..2c8f282 100644
--- a/dsari/database.py
+++ b/dsari/database.py
@@ -500,7 +500,7 @@ class SQLite3Database(BaseSQLDatabase):
             config.database["file"] = None
         if config.database["file"] is None:
             config.database["file"] = os.path.join(config.data_dir, "dsari.sqlite3")
-        db_dir = os.path.dirname(config.database["file"])
+        db_dir = os.path.dirname(os.path.abspath(config.database["file"]))
         os.makedirs(db_dir, exist_ok=True)
         self.config = config
         self.db_conn = sqlite3.connect(config.database["file"])
-- 
2.43.0


From a4e3f44e6d8599c0bda9df0ff951a29c33612cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:50 +0000
Subject: [PATCH 45/47] fix: give runs usable paths if data_dir is relative

---
 dsari/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsari/config.py b/dsari/config.py
index 5818729..4353d11 100644
--- a/dsari/config.py
+++ b/dsari/config.py
@@ -192,6 +192,9 @@ class ConfigLoader:
         self.populate_object(
             self.config, "Config", config, valid_values, value_transforms
         )
+        if not os.path.isabs(self.config.data_dir):
+            # Runs are given paths below it, and have another working directory
+            self.config.data_dir = os.path.abspath(self.config.data_dir)
 
     def build_concurrency_groups(self, config):
         if "concurrency_groups" not in config:
-- 
2.43.0


From 3c472b18d6f92bf24f5c34544aef3c9e28d1b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:24 +0000
Subject: [PATCH 46/47] fix: do not run jobs over and over while the clocks are
 set back

---
 dsari/utils.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/dsari/utils.py b/dsari/utils.py
index cdc058a..7cc74c4 100644
--- a/dsari/utils.py
+++ b/dsari/utils.py
@@ -99,6 +99,12 @@ def dtnow(tz=None):
     return dtlocalize(datetime.datetime.now(), tz)
 
 
+def shift_dt(dt, td):
+    # Arithmetic within a timezone would confuse the two occurrences of a
+    # wall clock time when the clocks are set back
+    return (dt.astimezone(datetime.timezone.utc) + td).astimezone(dt.tzinfo)
+
+
 def validate_environment_dict(env_in):
     env_out = {}
     for k in env_in:
@@ -143,12 +149,14 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
         schedule = re.sub(
             r"(?i)(UNTIL=)(\d{8})(T\d{6})?(?=[;\s]|$)", until_utc, schedule
         )
-        t = dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).after(
+        for t in dateutil_rrule.rrulestr(schedule, dtstart=hashed_epoch).xafter(
             start_time - subsecond_offset
-        )
-        if t is not None:
-            t = t + subsecond_offset
-        return t
+        ):
+            t = shift_dt(t, subsecond_offset)
+            # dateutil compares wall clock times, which may occur twice
+            if dt_to_epoch(t) > dt_to_epoch(start_time):
+                return t
+        return None
     if isinstance(croniter_hash, ImportError):
         # croniter not available, manual triggers only
         return None
@@ -157,13 +165,12 @@ def get_next_schedule_time(schedule, job_name, start_time=None):
     # R may happen to draw a date which does not exist, e.g. February 30
     for attempts in range(100 if "R" in schedule else 1, 0, -1):
         try:
-            t = (
-                croniter_hash.croniter_hash(
-                    schedule, start_time=start_time - subsecond_offset, hash_id=job_name
-                ).get_next(datetime.datetime)
-                + subsecond_offset
-            )
-            return t
+            t = croniter_hash.croniter_hash(
+                schedule,
+                start_time=shift_dt(start_time, -subsecond_offset),
+                hash_id=job_name,
+            ).get_next(datetime.datetime)
+            return shift_dt(t, subsecond_offset)
         except croniter_hash.croniter.CroniterBadDateError:
             if attempts == 1:
                 raise
-- 
2.43.0


From 422ae2d80d57b88f7d939c5a428b3fb74865d5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:24 +0000
Subject: [PATCH 47/47] fix: wake up in time while the clocks are set back

---
 dsari/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsari/daemon.py b/dsari/daemon.py
index 70461ec..453c0b7 100644
--- a/dsari/daemon.py
+++ b/dsari/daemon.py
@@ -788,7 +788,8 @@ class Scheduler:
     def process_wakeups(self):
         self.next_wakeup = dtnow() + seconds_to_td(60.0)
         for wakeup in self.wakeups:
-            if wakeup < self.next_wakeup:
+            # Times of the same timezone would compare by wall clock
+            if dt_to_epoch(wakeup) < dt_to_epoch(self.next_wakeup):
                 self.next_wakeup = wakeup
 
     def loop(self):
-- 
2.43.0

