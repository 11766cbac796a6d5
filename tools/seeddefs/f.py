SEEDS = {}
SEEDS["c07-removed-job-gives-way"] = dict(
    property="C07",
    edits=[("dsari/daemon.py", """            if run.job.name in self.config.jobs:
                run.job = self.config.jobs[run.job.name]
            else:
                # Job disappeared from config during SIGHUP
                run.respawn = False
""", """            if run.job.name not in self.config.jobs:
                # Job disappeared from config during SIGHUP
                run.respawn = False
                run.concurrency_group = None
            else:
                run.job = self.config.jobs[run.job.name]
""")],
    needs="a reload which removes a job while a run of it holds a place of a group that stays, and then another run of that group",
    breaks="The run of the removed job no longer counts, so more runs of the group are in progress than its maximum.",
    demo='''
from dl import *
b = Box()
jobs = {n: {"command": ["sleep", "60"], "concurrency_groups": ["g"]} for n in "ab"}
b.config({"concurrency_groups": {"g": {"max": 1}}, "jobs": jobs})
b.start()
b.trigger("a", {})
insist(wait(lambda: len(b.running()) == 1, 15), "a does not run")
del jobs["a"]
b.config({"concurrency_groups": {"g": {"max": 1}}, "jobs": jobs})
b.signal(signal.SIGHUP)
insist(wait(lambda: "reloading" in b.text(), 10), "no reload")
time.sleep(1)
b.trigger("b", {})
time.sleep(4)
insist(len(b.running()) == 1, "{} runs hold a group of 1", len(b.running()))
''')
SEEDS["c03-phase-kept-for-the-name"] = dict(
    property="C03",
    edits=[("dsari/utils.py", """def get_next_schedule_time(schedule, job_name, start_time=None):
""", """phases = {}


def get_next_schedule_time(schedule, job_name, start_time=None):
"""), ("dsari/utils.py", """        hashed_epoch = start_time - seconds_to_td(
            ((dt_to_epoch(start_time) - crc) % 86400)
        )
""", """        # The phase never changes, and starting the recurrence earlier does no harm
        if job_name not in phases or phases[job_name] > start_time:
            phases[job_name] = start_time - seconds_to_td(
                ((dt_to_epoch(start_time) - crc) % 86400)
            )
        hashed_epoch = phases[job_name]
""")],
    needs="a next run time of the same job asked for in another timezone (a changed schedule_timezone and a reload) by the same process",
    breaks="The recurrence is then evaluated in the old timezone: BYHOUR and the like mean other instants.",
    demo='''
from dl import *
import datetime
from dateutil import tz
from dsari.utils import get_next_schedule_time
ref = datetime.datetime(2024, 5, 1, 11, 0, 30, tzinfo=datetime.timezone.utc)
rule = "RRULE:FREQ=DAILY;BYHOUR=9;BYMINUTE=30;BYSECOND=0"
for n, z in enumerate(["UTC", "Asia/Tokyo", "America/New_York", "UTC"]):
    t = get_next_schedule_time(rule, "job", start_time=(ref + datetime.timedelta(days=n)).astimezone(tz.gettz(z)))
    w = t.astimezone(tz.gettz(z))
    insist((w.hour, w.minute) == (9, 30), "{}: {}", z, w)
''')
SEEDS["c09-offset-of-the-last-run"] = dict(
    property="C09",
    edits=[("dsari/utils.py", """        if isinstance(tz, datetime.tzinfo):
            return dt.astimezone(tz)
""", """        if isinstance(tz, datetime.tzinfo):
            # A plain offset compares and subtracts without surprises
            dt = dt.astimezone(tz)
            return dt.replace(tzinfo=datetime.timezone(dt.utcoffset()))
""")],
    needs="a change of the zone's UTC offset between two runs of a job",
    breaks="The first run of a job after its zone's clocks have changed is due an hour early or late.",
    demo='''
from dl import *
import datetime
from dateutil import tz
from dsari.utils import dtlocalize, get_next_schedule_time
for day in (datetime.datetime(2024, 3, 9, 17, 0, tzinfo=datetime.timezone.utc), datetime.datetime(2024, 11, 2, 16, 0, tzinfo=datetime.timezone.utc)):
    t = get_next_schedule_time("0 12 * * *", "job", start_time=dtlocalize(day + datetime.timedelta(hours=1), tz.gettz("America/New_York")))
    w = t.astimezone(tz.gettz("America/New_York"))
    insist(w.hour == 12, w)
''')
SEEDS["c01-counts-seconds"] = dict(
    property="C01",
    edits=[("dsari/croniter_hash.py", None, None)])
del SEEDS["c01-counts-seconds"]
