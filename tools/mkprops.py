#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})
D = "dsari/daemon.py"; U = "dsari/utils.py"; C = "dsari/config.py"; B = "dsari/database.py"
R = "dsari/render.py"; I = "dsari/info.py"; E = "dsari/prometheus_exporter.py"; H = "dsari/croniter_hash.py"

p("C01", "Cron schedules fire at exactly the matching wall-clock times",
  "For every accepted cron schedule (5 fields, or 6 with seconds; *, numbers, names, ascending ranges, lists, steps; Sunday 0 or 7; day-of-month and day-of-week combine with OR when both are restricted) the next run time after a reference instant is the earliest T + d strictly after that reference, where T is a whole second whose wall clock in the job's schedule timezone matches every field and d (0 <= d <= 1 s) is an offset fixed by the job name alone. A 5-field schedule fires once in each matching minute, at one second of the minute that is fixed by the job name. This includes days on which the zone's UTC offset changes: the next run is always later than the reference; a schedule for every hour runs on through repeated times, the second occurrence of a time given with its hour may be left out, and a skipped time is left out or made up for within the minute after the change.",
  ["inputs", "configurations"], "all cron expressions of that grammar x job names x reference instants x IANA timezones and process local zones, and chains of successive next-times",
  "tests/test_croniter_hash.py samples a dozen hash expansions; no test computes a next run time, uses a timezone or a fractional reference instant.",
  [U, H, "dsari/__init__.py"], [("get_next_schedule_time: 5-field completion, sub-second offset", U), ("croniter_hash expression pass-through", H), ("per-job schedule timezone handed in as the reference's tzinfo", D)],
  ["dsari.utils.get_next_schedule_time", "next_scheduled_run in dsari-info job list"])
p("C02", "Hashed schedule fields are stable, in range and evenly spaced",
  "An H field stands for one value, and H(a-b) for one value in a..b; H/n stands for all values o, o+n, o+2n, ... up to the field's maximum with o among the first n values of the field's range, and H(a-b)/n for o, o+n, ... up to b with o among the first n values of a..b and never outside a..b. The choice depends only on job name, the field's position and its text, and over many names takes every permitted value about equally often; @midnight, @hourly, @daily, @weekly, @monthly, @yearly and @annually equal their documented H expressions, each with a hashed second. R behaves like H except that it draws a fresh value in the same range each time.",
  ["inputs", "configurations"], "all H/R item forms x field positions x ranges and steps x job names (including non-ASCII), and multi-field combinations",
  "The tests pin a few hash expansions of one id; ranges starting at 0, days/months (ranges starting at 1), steps that do not divide, and the interplay between fields are not reached.",
  [H, U], [("_hash_do / _hash_expand_item", H), ("alias table", H), ("implicit H seconds field", U)], ["dsari.utils.get_next_schedule_time", "dsari.croniter_hash.croniter_hash"])
p("C03", "RRULE schedules fire at the recurrence's times in the job's timezone",
  "For RRULE schedules with FREQ=SECONDLY, MINUTELY, HOURLY or DAILY (INTERVAL dividing the next larger unit evenly for the sub-daily frequencies, 1 for DAILY), optional BYMONTH, BYMONTHDAY, BYDAY, BYHOUR, BYMINUTE, BYSECOND lists and UNTIL, the next run time after a reference is the earliest recurrence instant plus the job's fixed sub-second offset that is strictly after the reference, BY* and UNTIL being read in the job's schedule timezone (UNTIL ending in Z being UTC); when none is left there is no next run. Any position the rule leaves open (hour, minute, second, or phase of an INTERVAL) is fixed by the job name alone, so the run times do not depend on when they are asked for.",
  ["inputs", "configurations"], "rules of that grammar x UNTIL forms x job names x reference instants x timezones; for rules which leave a position open or have an INTERVAL or times within an hour of those skipped or repeated, a change of the UTC offset only leaves the guarantees that the next run is later than the reference and no more than about a day late",
  "No test mentions RRULE.", [U], [("get_next_schedule_time RRULE branch: hashed dtstart, .after(), sub-second offset", U)], ["dsari.utils.get_next_schedule_time", "dsari-info config check", "daemon SCHEDULE_TIME"])
p("C04", "Configuration files merge in the documented precedence",
  "The effective configuration is the recursive merge of dsari.yaml, then dsari.json, then every *.yaml of the config.d directory in alphanumeric order, then every *.json of it in alphanumeric order: associative arrays merge key by key at every depth, any other value of a later file replaces the earlier one whole, and no other file contributes. The config.d directory is <config dir>/config.d unless the two main files set config_d.",
  ["configurations", "inputs"], "sets of YAML/JSON files (names, contents, overlaps of any nesting depth, ignored files, custom or missing config_d)",
  "tests/test_utils.py merges two small dictionaries; no test loads a directory.", [C, U], [("ConfigLoader.load_dir", C), ("dict_merge", U)], ["dsari-info config dump --raw"])
p("C05", "Configuration is validated and normalised as documented",
  "A configuration is accepted if and only if all names match the documented pattern (1 to 64 of letters, digits, space and -_+.:@, not . or ..), every option present has its documented type, every job has a command, every job group has job_names, and every schedule is a valid schedule; a rejected one raises a configuration error. In an accepted one every option has its configured value or its documented default, a string command is split as a POSIX shell would split it, numeric environment values become strings, a job group is equivalent to writing out its jobs with job_group set, and a concurrency group that is only referenced has a maximum of 1.",
  ["configurations", "inputs"], "generated job, job group, concurrency group and base options, valid ones and ones with a single injected fault",
  "No test loads a configuration.", [C, "dsari/__init__.py", U], [("ConfigLoader.build_*, populate_object", C), ("defaults", "dsari/__init__.py"), ("validate_environment_dict", U)], ["dsari-info config check / config dump / job list", "dsari.config.get_config"])
p("C06", "config dump is a loadable equivalent of the configuration",
  "For every accepted configuration, the output of dsari-info config dump, in JSON or YAML, is itself an accepted configuration with the same meaning: the same jobs with the same commands, schedules, timezones (same next run times), limits, environments, flags, job groups and concurrency-group memberships, the same concurrency groups and maxima, and the same base options. With --raw it is the merged input itself, also loadable and equivalent.",
  ["configurations"], "generated accepted configurations x output format x raw or compiled", "No test runs dsari-info.", [I, C], [("cmd_dump_config / dump_jobs", I), ("populate_object", C)], ["dsari-info config dump"])
p("C07", "Concurrency-group limits are never exceeded",
  "Whenever the daemon starts a run of a job with concurrency groups, the run holds exactly one group, one of those its job is configured with and the one reported in CONCURRENCY_GROUP, and at that moment fewer unfinished runs hold that group than its configured maximum (1 if undefined); a run of a job without groups holds none. This covers scheduled, triggered and concurrent runs, kills, and configuration reloads that keep the group configured (also when they change its maximum or the jobs' memberships).",
  ["schedules", "histories", "configurations"], "daemon histories: job sets, run durations, triggers, signals, reloads, timing",
  "No test runs the daemon.", [D, C], [("process_scheduled_run group choice", D), ("process_next_child release", D), ("reset_jobs re-registration", D)], ["start and end of run processes", "CONCURRENCY_GROUP"], state=[{"name": "running_groups", "meaning": "runs holding each group", "where": D}])
p("C08", "A job never overlaps itself unless allowed",
  "While a run of a job is in progress the daemon starts no other run of that job, scheduled or triggered, unless the job currently has concurrent_runs set; this also holds across configuration reloads, including ones that change, remove or re-add the job or switch concurrent_runs off. A run that is held back for this reason is started after the earlier run ends, not dropped.",
  ["schedules", "histories", "configurations"], "daemon histories with long runs, triggers during runs, reloads", "No test runs the daemon.", [D], [("process_scheduled_run running check", D), ("reset_jobs job rebinding", D)], ["start and end of run processes"])
p("C09", "Scheduled jobs keep running, on time, without pile-up",
  "Every job with a schedule runs for as long as the daemon does: its first scheduled run is due at the first schedule time after daemon start (or reload), and each later one at the first schedule time after the start of the job's previous run, so occurrences missed meanwhile are skipped, not queued. No scheduled run starts before its due time; one that is not held back by a concurrency limit or by the job's own running run starts within 2 seconds of it, and one that was held back starts within 5 minutes of the moment the obstacle is gone. SCHEDULE_TIME reports the due time and START_TIME the actual start.",
  ["schedules", "histories", "configurations"], "daemon histories of hours with several jobs, run durations, blocking, oversleeping clocks, and up to two days across changes of a zone's UTC offset", "No test runs the daemon.", [D, U], [("reset_jobs / process_scheduled_run respawn", D), ("wakeups and process_wakeups", D), ("backoff", D)], ["start of run processes, SCHEDULE_TIME, START_TIME"])
p("C10", "Each trigger file yields exactly one run, as specified",
  "A valid trigger.json or trigger.yaml (JSON first when both exist) in the trigger directory of a configured job is noticed within 60 seconds, or at once after SIGUSR1, is deleted, and yields exactly one run of that job with TRIGGER_TYPE=file carrying its environment and, as recorded trigger data, its contents (numbers given in its environment may be recorded as strings). The run is due at schedule_time (epoch number, or ISO 8601 time read in schedule_timezone, else local time, unless it carries an offset) or by default at the file's modification time; it starts within 2 seconds of being noticed or due, whichever is later, unless held back by the limits. Without concurrent_runs the trigger replaces the job's pending (not yet started) run and scheduling continues normally after it has started; with concurrent_runs it is additional.",
  ["histories", "inputs", "schedules"], "trigger contents x file formats x timing relative to schedules, running runs and signals", "No test runs the daemon or reads a trigger.", [D, U], [("process_triggers / process_trigger_job", D), ("dtlocalize", U)], ["start of run processes, their environment, database trigger_data"])
p("C11", "Bad input files never stop the daemon",
  "No content of a trigger file, of a return_data file or of a reloaded configuration can terminate the daemon or stop other jobs from being run: an invalid trigger is dropped (deleted, no run) and logged, an unparsable return_data file only leaves return_data out of the run's record, which is still written, and an invalid configuration on SIGHUP leaves the previous configuration in force.",
  ["inputs", "fault_sequences"], "arbitrary bytes, malformed JSON/YAML, and well-formed documents of unexpected types and values in each of the three kinds of file", "No test feeds malformed files to the daemon.", [D, C, U], [("process_trigger_job validation", D), ("return_data handling in process_next_child", D), ("SIGHUP handling", D), ("load_structured_file", U)], ["daemon liveness, later runs, database records"])
p("C12", "max_execution sends SIGTERM, then SIGKILL after the grace time",
  "A run whose job had max_execution set when it started is sent SIGTERM once, no earlier than max_execution after its start and at most 2 seconds later, and SIGKILL once, no earlier than max_execution_grace (60 s by default) after that SIGTERM and at most 2 seconds later, each only if it is still running then. No other run is ever sent a signal by a daemon that is not shutting down.",
  ["schedules", "histories", "configurations"], "durations, reactions to SIGTERM, limits, other runs coming and going, oversleeping clocks, stalls, reloads", "No test runs the daemon.", [D], [("process_run_execution_time", D), ("wakeups", D)], ["signals sent to run processes"])
p("C13", "Shutdown stops new runs, and ends when runs have ended",
  "After SIGTERM or SIGINT the daemon starts no further run (scheduled, triggered or respawned; one whose start was already under way excepted), waits for every run in progress to end, records each of them, and then exits with status 0 within 2 seconds of the last one. With shutdown_kill_runs every run in progress is sent SIGTERM within 2 seconds (once, unless it already had been) and, if shutdown_kill_grace is set, SIGKILL shutdown_kill_grace seconds after the shutdown request if it is still running (at most 2 seconds late, never early); without shutdown_kill_runs runs are not signalled, except that max_execution limits stay in force in both cases.",
  ["schedules", "histories", "configurations"], "shutdown at any time, with any set of running, due and triggered runs, kill options, reactions to SIGTERM, repeated signals", "No test runs the daemon.", [D], [("begin_shutdown / monitor_shutdown / loop", D)], ["signals and starts of run processes, exit status, database"])
p("C14", "Reload applies the new configuration without losing runs",
  "After SIGHUP with a valid configuration the daemon schedules exactly the jobs of the new one: removed jobs get no further run, new and changed jobs run on their new schedule, command, environment and limits counted from the reload, and no job gets duplicate scheduled runs however often it is reloaded. Runs in progress are not disturbed: they are not signalled because of the reload, keep the execution limits they were started with, and are recorded once when they end.",
  ["histories", "configurations", "schedules"], "sequences of configurations and reload times, with runs in progress", "No test runs the daemon.", [D, C], [("signal_handler SIGHUP, load_config, reset_jobs", D)], ["starts of run processes, signals, database"])
p("C15", "Signals at any instant never crash or corrupt the daemon",
  "At whatever instant SIGHUP, SIGUSR1, SIGQUIT, SIGINT or SIGTERM arrive, singly or in bursts, the daemon does not crash, starts no run twice, starts nothing after a shutdown request (a start already under way excepted), loses no scheduled job and records every run that ended exactly once. Signals delivered between any two steps of the daemon have the same guarantees as signals delivered while it is idle.",
  ["schedules", "fault_sequences"], "signal kind x the exact point of execution inside the daemon at which it is delivered", "No test sends signals to the daemon.", [D], [("signal_handler", D), ("loop and the lists it mutates", D)], ["daemon exit status, starts of run processes, database"])
p("C16", "Every run is recorded exactly once, as it happened",
  "Every run the daemon starts is listed as in progress from before its process starts until it ends, and afterwards exactly once as completed, with its job name, run ID, schedule, start and stop times, trigger type and data, and the exit code in shell convention (its exit status, or 128 plus the signal number whether or not it dumped core). If the run directory holds a parsable return_data.json (else return_data.yaml) at that time its contents are recorded as return_data in the run data; nothing else is ever recorded.",
  ["histories", "inputs"], "runs ending in every exit status and signal, several at once, with return data of any JSON/YAML value", "No test runs the daemon or the database layer.", [D, B], [("wait_deadline status decoding", D), ("process_next_child", D), ("insert_running_run / insert_run", B)], ["database tables", "dsari-info run list"])
p("C17", "A crash at any instant leaves the run history consistent",
  "If the daemon process dies at any instant (with one of the SQL databases), every run whose process had been started is in the history exactly once, either as in progress or as completed and never as both or neither, every earlier completed record is unchanged, and the completed record is whole. A daemon started afterwards on the same data works: it clears the in-progress list, keeps every completed record, and runs jobs and triggers normally.",
  ["crash_points", "histories"], "every step of the daemon between and inside database and file operations x histories of scheduled and triggered runs", "No test crashes the daemon.", [B, D], [("insert_run single transaction", B), ("order of insert_running_run and fork", D), ("clear_runs_running at start", D)], ["sqlite tables after the crash and after a restart"])
p("C18", "A run's environment is built from scratch, exactly as documented",
  "The environment of a run is exactly: the documented standard variables; CONCURRENCY_GROUP, JOB_GROUP and the PREVIOUS_*, PREVIOUS_GOOD_* and PREVIOUS_BAD_* sets when applicable; the Jenkins variables if jenkins_environment is set; overridden by the global environment, then the job's, then the trigger's. Nothing else of the daemon's own environment is passed except PATH (default /usr/bin:/bin); PWD and the working directory are the run directory unless PWD is configured to an existing directory, and then that one.",
  ["configurations", "inputs", "histories"], "job/global/trigger environments with overlaps, job options, daemon environments, histories of earlier runs", "No test starts a run.", [D, U], [("run_child_executor", D), ("validate_environment_dict", U)], ["environment and cwd at exec of the run"])
p("C19", "A run's process is set up as documented",
  "A started run executes exactly the configured argument vector (plus job name and run ID with command_append_run, each time exactly once), found through the run's PATH, in its own process group, with standard input at end of file, standard output and error both going to output.txt of its run directory in the order written, no other open file descriptors and default signal dispositions. What it writes, and its exit status, are recorded byte for byte, also for a command that cannot be executed (recorded as a failed run, daemon unaffected).",
  ["inputs", "configurations"], "argument vectors, outputs (arbitrary bytes, sizes, interleavings), exit statuses and signals of real processes", "No test starts a run.", [D], [("run_child_executor", D)], ["a probe program run by a real daemon", "output.txt", "database"])
p("C20", "The run history answers queries faithfully",
  "Whatever runs have been recorded, reading them back returns every field unchanged (times to the microsecond as the same instants, exit code, trigger type, trigger and run data), selection by run IDs or by job names returns exactly the matching runs of the chosen list (completed or in progress), also for jobs no longer configured, and the previous, previous good and previous bad run of a job are its most recently stopped completed run, its most recently stopped one with exit code 0, and with another exit code.",
  ["inputs", "histories"], "sequences of recorded runs with any names, times, exit codes and JSON data, several jobs, interleaved with queries and re-opening", "No test touches the database layer.", [B], [("get_runs / get_previous_runs / insert_*", B), ("_build_insert / _build_run_from_result", B)], ["database interface", "dsari-info run list --job/--run"])
p("C21", "All database backends behave alike",
  "For every sequence of operations (start, finish and clear runs, query by ID or job name, previous runs, opening an existing database) the PostgreSQL, MySQL and MongoDB backends give the same answers as the SQLite one, given drivers that store what they are handed. Opening a database that already has the tables or collections never alters what is stored in it.",
  ["histories", "inputs", "configurations"], "operation sequences x backend, drivers being in-memory stand-ins with the drivers' interfaces", "No test touches the database layer; the drivers are not even installed.", [B], [("PostgreSQLDatabase, MySQLDatabase, MongoDBDatabase", B)], ["database interface"])
p("C22", "dsari-info reports exactly what is configured and recorded",
  "dsari-info run list shows every completed and in-progress run (with --job or --run exactly the selected ones) in every format, with the recorded job, times, exit code (none while in progress), trigger type and data; job list shows every selected job's command, schedule, options and next run time; run output prints exactly the output recorded for the run, whether plain, gzip or xz compressed and whether completed or in progress (bytes which are no UTF-8 as U+FFFD), also if the run ends meanwhile; run tail follows the outputs of exactly the selected runs in progress. The json and yaml outputs are well-formed and carry the same data, and tabular output has one line per item (if no item contains a line break), runs ordered by start time.",
  ["inputs", "histories", "configurations"], "generated run histories, outputs and configurations x command x format x filters", "No test runs dsari-info.", [I, B, U], [("cmd_list_jobs / cmd_list_runs / cmd_get_run_output", I), ("read_output", U)], ["standard output of dsari-info"])
p("C23", "Prometheus metrics agree with the run history",
  "The exported metrics equal what the history implies: per configured job the counts of runs, successes and failures, sum, count and quantiles (linear interpolation) of duration and latency, and exit code and times of the most recently stopped run; per in-progress run its schedule and start time. Completed-run metrics may lag by at most the job cache time and are rebuilt after it or after a reload (SIGHUP takes effect at the latest with the request after the one during which it arrives, never makes a request fail, and an invalid configuration leaves the previous one in force), in-progress metrics are always current (absent with --no-running); the text is valid exposition format (counts are counters, durations and latencies summaries, everything else gauges), and any path but the metrics path is a 404.",
  ["inputs", "histories", "configurations"], "generated histories x quantile lists x cache times x sequences of new runs, clock advances, reloads and scrapes", "No test runs the exporter.", [E, B], [("get_job_metrics / get_running_metrics / get_metrics cache", E), ("percentile", E), ("build_metrics_text", E)], ["dsari-prometheus-exporter --dump", "WSGI application responses"])
p("C24", "HTML reports are complete and rendering is incremental",
  "After dsari-render every completed run of every configured job with render_reports has a page, and every such job that got a new page has an up-to-date job page listing all its runs from latest stop to earliest, and the index then lists all rendered jobs, the 25 latest runs and the 10 latest failed runs; jobs with render_reports off, unknown jobs and in-progress runs do not appear. All links on the pages lead to pages (a job without runs has one only with --regenerate). Existing run pages are not rewritten unless --regenerate is given, and rendering after every few runs gives, apart from the generation time, the same tree as one --regenerate at the end; with report_html_gz the pages are the same, gzip compressed.",
  ["histories", "configurations"], "histories of runs with render invocations in between, options, custom templates", "No test renders.", [R], [("render_run / render_job / render_index", R)], ["files below html/"])
p("C25", "Run pages show the recorded run faithfully and safely",
  "A run's page shows its ID, job name, trigger kind (type from the trigger data if given, else File; or Schedule), description, schedule, start and stop times, duration, exit code and output exactly as recorded, with all of it escaped so that no recorded text can introduce markup, whatever bytes the output holds and whether it is plain, gzip or xz compressed. If report_run_output_start/end (in characters) are set and the output is longer than both together (or than the only one set), just the first and last that many characters are shown around a [...] mark; otherwise the whole output.",
  ["inputs", "configurations"], "outputs of arbitrary text and bytes, trigger data, limits, compression", "No test renders.", [R, U, "dsari/templates/run.html"], [("guess_autoescape / jinja2 environment", R), ("output limits in render_run", R), ("read_output", U), ("run.html", "dsari/templates/run.html")], ["html/<job>/<run>/index.html"])

p("C26", "Tools may look at any time: what they tell is true, and asking changes nothing",
  "While the daemon runs, dsari-info (run list, run output, job list), dsari-prometheus-exporter and dsari-render may be used at any instant, also before the daemon first starts, between any two steps of the daemon, or for longer than something takes to change: they succeed, and show every run started before they began exactly once, as completed (with its exit code and times) if it had been recorded as ended by then, as in progress if it was in progress throughout, and as either if it ended meanwhile (metrics may omit a run which ended meanwhile); no run which was never started is shown. run output gives exactly what the run has written, job list the next time the daemon will consider the job due, and rendering leaves a page for every run completed before. However long or often they are used, the daemon does and records exactly what it would have done and recorded without them. (SQLite database, SIGHUP-free exporters, one rendering at a time.)",
  ["schedules", "histories", "configurations"], "daemon histories x tool x instant of asking (between any two instructions or statements of the daemon) x places where the tool is stopped and time passes",
  "No test runs two parts of dsari against each other.", [D, B, I, E, R], [("insert_running_run / insert_run", B), ("populate_schema", B), ("get_runs", B), ("cmd_list_runs / cmd_get_run_output: order of queries", I), ("render_runs", R)],
  ["output of the tools", "pages below html/", "daemon history with and without readers"], state=[{"name": "runs_running, runs", "meaning": "runs in progress, completed runs", "where": "SQLite database"}])
p("C27", "Only core packages are needed: a missing one costs its own feature, no more",
  "With any of PyYAML, croniter, python-dateutil, Jinja2, IPython, termcolor and lzma missing, every program runs (dsari-render needs Jinja2) and answers exactly as with all of them, whatever the configuration and history, except: without PyYAML YAML configuration files make the configuration invalid, the yaml output format is refused, and YAML triggers and return data are left alone; without python-dateutil or croniter (cron-style) or without python-dateutil (RRULE) schedules are accepted but not processed, so those jobs have no next run and run from triggers only, and without python-dateutil triggers with textual times are rejected; without IPython the shell is Python's own, with the same variables (config, db, jobs, concurrency_groups, dsari); without termcolor nothing is coloured; without lzma outputs compressed with it are not found. The daemon keeps all its other guarantees: triggers, limits, groups, reloads, shutdown and the record.",
  ["inputs", "configurations"], "sets of absent packages x configurations x histories x invocations, or daemon configurations x trigger and signal events", "The tests run with everything installed.",
  [U, D, I, "dsari/config.py", E, "dsari/__init__.py"], [("optional imports, load_structured_file, get_next_schedule_time, dtlocalize", U), ("schedule_timezone transformation, schedule validation", "dsari/config.py"), ("get_trigger_time, process_trigger_job, return data", D), ("Color, optional_formats, cmd_shell", I), ("Job.schedule_timezone", "dsari/__init__.py")],
  ["exit status and output of every program", "daemon runs and record"])
p("C28", "All programs work on the same installation, and touch no other",
  "Without --config-dir, every program uses the configuration and the data directory of the same place: $DSARI_HOME/etc and $DSARI_HOME/var if DSARI_HOME is set, otherwise the first of ~/.dsari/etc (with ~/.dsari/var), /usr/local/etc/dsari (with /usr/local/lib/dsari) and /etc/dsari (with /var/lib/dsari) which has a dsari.json, a dsari.yaml or a config.d, otherwise ~/.dsari; --config-dir, absolute or relative, and also for later reloads, replaces the first and the data_dir option, absolute or relative to the working directory of the program, the second (database.file, likewise, the place of its database), and nothing is created outside that data directory. Every path a run is told leads to its files from its own working directory. So what the daemon ran there, and triggers and new configurations put there while it runs, are seen by all of them, and an invalid configuration there makes each fail. dsari-daemon --fork returns at once with status 0 and leaves a daemon in the background which does the same as one in the foreground, which stays the process that was started and ends with status 0 upon SIGINT or SIGTERM.",
  ["inputs", "configurations", "histories"], "states of the candidate directories x environment x ways to give a directory x sequences of programs and daemon sessions", "No test starts a program.",
  ["dsari/config.py", D, I, R, E, "dsari-daemon", "dsari-info", "dsari-render", "dsari-prometheus-exporter"], [("DEFAULT_CONFIG_DIR, DEFAULT_DATA_DIR, dir_has_config", "dsari/config.py"), ("main (--fork), load_config", D), ("parse_args", I), ("Prometheus.db, wsgi_application", E)],
  ["files created", "output of the programs", "processes"])
p("C29", "A rendering which does not come to its end does no lasting damage",
  "dsari-render may be killed or interrupted at any point, may run out of disk space or meet an input/output error at any write, or may fail because of an error in a custom template, any number of times in a row and with or without --regenerate: at every moment each page and the style sheet is either absent, as it was before, or whole and as this rendering is to leave it, never partly written; no page which was there is lost; a rendering which cannot complete its work does not end with status 0. The next dsari-render which is left alone, without --regenerate, then makes everything complete: all run pages, job pages, the index and the style sheet are, apart from the generation time, what a first rendering of the same history would have given.",
  ["inputs", "histories", "crash_points"], "histories with up to four renderings killed, interrupted, failing or denied space at any of their file operations, then one without a fault", "No test renders.",
  [R], [("render, render_run, write_html_file", R)], ["files below html/", "exit status of dsari-render"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
