"""Single source for properties.jsonl and MANIFEST.json: run it after edits."""
import importlib
import json
import os
from pathlib import Path

V = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, state=None, observe=None):
    d = {
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over.split(), "text": " ".join(qtext.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files.split(), "mechanism": [
            dict(zip(("name", "where"), (x.strip() for x in m.split("@")))) for m in mech]},
    }
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = state
    P.append((d, tech, note))


S = "src/backy/"

prop("C01", "Restored data equals the source at backup time",
"""Restoring any completed backup reproduces byte for byte the content the source (RBD image or file) had when
that backup was taken. This holds whatever image changes, resizes, full or incremental backups, failed backups,
removals, distrusts, verifications, expiries and garbage collections happened before or after it, and whatever the
restore target contained before.""",
"histories inputs", "all sequences of backup (over a small alphabet of image contents and sizes), rm, gc, expire, distrust, verify, snapshot loss and broken export up to a depth, for several diff granularities and Ceph versions, plus all ordered pairs of images at the real chunk size",
"Tests take three hand written backups of constant data; a wrong parent, stale chunk or lost tail block needs a particular sequence of sizes, contents and commands.",
f"{S}rbd/__init__.py {S}rbd/rbd.py {S}rbd/chunked/file.py {S}rbd/chunked/chunk.py {S}rbd/chunked/store.py {S}file/__init__.py {S}revision.py",
["copy on write mapping of the parent @ RBDSource.open", "parent selection @ CephRBD.get_parent", "chunk addressing by hash @ Chunk.flush", "restore copy @ RBDSource.restore_file"],
"explicit-state model checking of the real commands (BFS over operation histories)",
"Every operation sequence up to the depth is executed on the real code against a content model; rbd is a stand-in.")

prop("C02", "A stored image behaves like a plain byte array",
"""For every sequence of seek, write, read, truncate (to at most the current size), flush, eviction and reopen
operations, a chunked image file returns exactly the bytes a plain byte array would (seeking beyond the end and then writing fills with zeroes), and
its reported size and position agree with it. Modifying an image that was started from a copy of another image never
changes the content of that other image.""",
"inputs histories", "all operation sequences up to a depth over offsets and lengths around chunk borders, for cache sizes from tiny to default",
"Nine tests use fixed sequences; boundary and eviction interactions are combinatorial.",
f"{S}rbd/chunked/file.py {S}rbd/chunked/chunk.py {S}rbd/chunked/store.py",
["position to chunk translation @ File._current_chunk", "cache eviction @ File._flush_chunks", "zero filling @ File.seek", "truncation @ File.truncate"],
"exhaustive bounded operation sequences on the real class against a byte array reference",
"All sequences up to the stated length over the alphabet; chunk size 4 bytes.")

prop("C03", "Incremental diffs are applied exactly or rejected",
"""Applying a well-formed diff stream to the parent image yields exactly the image the stream describes: data and
zero extents, growth and shrinkage, extents that span or split chunks, in any order. A stream that is cut off
anywhere, carries an unknown record, a wrong header or names other snapshots than the requested ones never results
in a completed backup.""",
"inputs fault_sequences", "all diff streams with up to three extents over a small image in every size combination; every truncation point and every single-byte corruption of the structural bytes of representative streams",
"Tests cover a dozen concrete streams; truncation positions and extent/size combinations are unbounded.",
f"{S}rbd/rbd.py {S}rbd/__init__.py {S}utils.py {S}rbd/chunked/file.py",
["record parser @ RBDDiffV1.read_record", "application @ RBDDiffV1.integrate", "zeroing @ punch_hole"],
"exhaustive enumeration of bounded diff streams and all their truncations on the real parser",
"Exhaustive within the stream bounds; fake process delivers the bytes.")

prop("C04", "A failing source never yields a completed backup with wrong data",
"""If any external source command fails, is killed, answers garbage or breaks off its output at any point of a backup,
then either the run reports failure and leaves no new completed revision, or the new revision restores exactly to its
snapshot. All earlier completed revisions stay restorable and unchanged, the image is not left mapped (unless the
mapping commands themselves fail), and the next undisturbed backup succeeds with correct content.""",
"fault_sequences histories", "every source command invocation of full, incremental, resized and snapshot-request (consul-less) backups crossed with every failure kind (exit codes, truncated output at every position, garbage, missing program), and all pairs of faults at two invocations in thorough",
"Tests mock a handful of command failures one at a time; none checks the resulting content.",
f"{S}rbd/__init__.py {S}rbd/rbd.py {S}source.py {S}cli/__init__.py",
["exit status handling @ RBDClient.export/export_diff/_rbd", "completion marker @ RBDSource.backup", "clean-up of failed runs @ Repository._clean"],
"exhaustive fault enumeration over every environment answer of the real backup code (deviation bounded)",
"All single faults (thorough: pairs) over all rbd calls of the scenarios.")

prop("C05", "Killing any command at any moment leaves a recoverable repository",
"""If a backup, restore, verify, gc, rm, tags, distrust or expire is killed at any point, every revision that was
completed before (except those being removed) is still complete and restorable with its tags being either the old or
the new ones, and any revision that looks complete restores correctly. The next backup run succeeds without manual
intervention, removes unfinished revisions (temporary files aside), and a following garbage collection leaves exactly
the chunks that are in use.""",
"crash_points histories", "every file system operation of every command (including the middle of each write) as the point of death, followed by recovery runs; thorough adds a second kill during recovery",
"No test kills a process; crash points are hundreds per command.",
f"{S}utils.py {S}revision.py {S}repository.py {S}rbd/__init__.py {S}rbd/chunked/chunk.py {S}rbd/chunked/file.py {S}file/__init__.py",
["temporary file and rename @ SafeFile", "chunks written before mapping before completion marker @ RBDSource.backup", "locks released by the kernel @ Repository.lock"],
"exhaustive crash point enumeration on the real code under a system call interposer",
"Every intercepted mutating system call of each scenario is a crash point.")

prop("C06", "A completed backup survives power loss",
"""Once a backup is recorded as complete, losing power at any later moment (losing everything not yet flushed to disk)
never makes it unrestorable, and at no moment can a power loss leave a revision that looks complete but does not
restore to its snapshot (metadata operations reach the disk in order, data that was not synced may be lost or cut off
at any length). Tag and trust updates survive as either the old or the new complete version.""",
"crash_points", "every prefix of the recorded system call trace of backup, tags, distrust, verify and gc runs, crossed with loss or truncation of the unsynced data of files",
"Unit tests cannot lose power; the order of sync and rename is invisible to them.",
f"{S}rbd/__init__.py {S}file/__init__.py {S}utils.py {S}rbd/chunked/chunk.py {S}rbd/chunked/file.py",
["sync before completion marker @ RBDSource.backup", "fsync before rename @ SafeFile.__exit__", "fsync of the mapping @ File.flush"],
"exhaustive exploration of post-crash disk states of recorded write logs (ordered metadata model)",
"Disk model: metadata operations persist in order, file data persists only when synced.")

prop("C07", "Garbage collection removes exactly the unreferenced data",
"""Garbage collection never removes data that a present local revision needs, and afterwards no data is left in the
store that no present revision references. It leaves revision metadata alone, for image and file based sources
alike.""",
"histories", "all sequences of backups with shared and private content, removals, expiries, failed runs, remote revisions and gc runs up to a depth",
"One test covers one chunk; sharing patterns across revisions need histories.",
f"{S}rbd/__init__.py {S}rbd/chunked/store.py {S}file/__init__.py",
["mark phase @ RBDSource.gc", "sweep phase @ Store.purge", "file gc @ FileSource.gc"],
"explicit-state model checking of the real commands (BFS) with an independent reference count",
"All histories up to the depth.")

prop("C08", "Concurrent commands never damage completed backups",
"""Whatever backup, restore, verify, gc, rm, tags, distrust, expire and clean-up commands run concurrently on a
repository, every revision that ends up complete restores exactly to its snapshot and none disappears except by an
explicit removal, expiry or proven corruption. At most one command modifies a repository's revisions at a time; a
command that cannot get its lock fails without effect, and a restore of a revision nobody removes always succeeds. Stored
data is not taken away while a restore is reading it, even if the revision is removed meanwhile.""",
"schedules", "all interleavings of pairs (thorough: also triples) of commands at file system, lock and source-command granularity with up to a bounded number of preemptions",
"Tests run one command at a time in one process.",
f"{S}repository.py {S}rbd/__init__.py {S}file/__init__.py {S}cli/__init__.py {S}source.py",
["file locks @ Repository.lock", "locking strategy @ Repository comment block", "rescan under the lock @ RBDSource.gc/_clean"],
"stateless preemption-bounded exploration of real processes under a controlled scheduler",
"Real processes, real flock; all schedules within the preemption bound.")

prop("C09", "Concurrent metadata updates are never lost",
"""When tag changes, removals, distrust, expiry, verification, completion of a backup and synchronisation with peers
run concurrently, the resulting revisions and their tags and trust equal the result of some sequential order of those
commands that reported success (a backup or expiry that reports failure may have taken effect as a whole or in
part). Which revisions an expression of rm, distrust and verify selects is determined when the command starts. A
removed revision never reappears.""",
"schedules", "all interleavings of pairs of metadata commands with up to a bounded number of preemptions, compared with all sequential orders",
"Needs precise interleavings between reading and writing metadata.",
f"{S}repository.py {S}revision.py {S}daemon/scheduler.py {S}schedule.py {S}rbd/__init__.py",
["exclusive lock @ Repository.locked", "reload under the lock @ Repository._reload/tags/expire"],
"stateless preemption-bounded exploration of real processes with a serialisability oracle",
"Final state must equal one of the sequential outcomes.")

prop("C10", "Corruption is detected, contained and healed",
"""If stored chunks of a revision are damaged (flipped, truncated, emptied, swapped or missing), restoring it never
succeeds with wrong content and verifying it (unless an earlier verification of some revision already covered the
damaged chunk) removes that revision, while undamaged revisions stay restorable and are the only ones marked verified.
While a distrusted revision exists, new backups do not rely on previously stored
data, so a backup taken after distrusting all local revisions is fully restorable even if older data is damaged.""",
"fault_sequences histories", "every chunk of every revision in several histories crossed with every damage kind, followed by every sequence of restore, verify, distrust and backup commands up to a depth",
"One test corrupts one chunk in one way.",
f"{S}rbd/__init__.py {S}rbd/chunked/chunk.py {S}rbd/chunked/file.py {S}repository.py {S}revision.py",
["hash check on read @ Chunk._read_existing", "verification @ RBDSource.verify", "forced writes @ RBDSource.open / Repository.contains_distrusted", "parent selection skips distrusted @ Revision.get_parent"],
"exhaustive enumeration of damage x command sequences on the real code",
"All damage kinds on all chunks of the scenarios.")

prop("C11", "Expiry keeps what the schedule promises and nothing forever",
"""Expiry keeps for every schedule tag at least the configured number of newest completed copies and every copy younger
than that number of intervals, removes the tag from older ones, and drops tags no longer in the schedule, but never
touches manual tags. Exactly the local revisions left without any tag are removed; revisions of other servers are
never deleted but lose their expired tags as a pending change.""",
"histories configurations", "all small histories (ages, tag sets, completeness, origin) for several schedules, compared with an independent reference",
"Four hand written histories; off-by-one at keep and interval borders depends on combinations.",
f"{S}schedule.py {S}revision.py {S}repository.py",
["expiry @ Schedule.expire", "remote removal becomes pending change @ Revision.remove"],
"exhaustive enumeration of bounded histories against a reference model",
"All histories within the bounds run through the real expire.")

prop("C12", "The next backup is planned on the grid and missed ones are caught up",
"""The next planned time is always in the future, at most one interval of the shortest schedule away, and lies on the
fixed grid, shifted by the job's spread, of exactly the tags that are included as due. Tags without a completed
backup within their interval are included in the next run, and if there is any history and the next regular run is
more than five minutes away they are run right now.""",
"histories configurations", "all combinations of now, spread, intervals and last backup times on a fine grid, compared with an independent reference; repeated planning never skips a grid point",
"Tests probe a few instants.",
f"{S}schedule.py {S}repository.py",
["grid @ next_in_interval", "catch-up @ Schedule.next/_missed"],
"exhaustive enumeration of bounded histories and clocks against a reference model",
"All combinations within the grid run through the real planner.")

prop("C13", "A job keeps running, retries with backoff and recovers",
"""A job never stops scheduling: after a failed backup or any step that raises an error it retries after a delay of 2, 4, 8, ... minutes bounded by six
hours, and after a success it returns to its schedule. Every planned or manually triggered run starts a backup (unless
another server leads) within its deadline, a manual trigger is honoured immediately whatever the job is waiting for,
and after a failed backup neither expiry, push nor gc run and its unfinished revision is gone when the next backup
starts.""",
"fault_sequences schedules", "all sequences of step outcomes (success, non-zero exit, exception at each step) and trigger times over several loop iterations under virtual time",
"Tests monkeypatch one iteration with one failure pattern.",
f"{S}daemon/scheduler.py {S}utils.py {S}repository.py",
["loop @ Job.run_forever", "waiting @ time_or_event/delay_or_event"],
"exhaustive fault sequence exploration of the real job loop on a virtual-time event loop",
"All outcome sequences up to the bound.")

prop("C14", "Never more concurrent backups than workers, and no starvation",
"""At any time at most the configured number of backups run in the fast class (jobs whose last complete backup took less
than ten minutes) and in the slow class (all others) each, also when jobs
fail, are cancelled, triggered or reconfigured while the limit stays the same. Whenever a slot is free and a job of
that class waits, one of the waiting jobs gets it.""",
"schedules", "all orders of completions, failures, cancellations, triggers and reloads of three jobs with limits one and two",
"Tests never run more than one job at a time.",
f"{S}daemon/scheduler.py {S}daemon/__init__.py",
["worker semaphores @ BackyDaemon._apply_config / Job.run_forever"],
"exhaustive exploration of event orders of the real daemon on a virtual-time event loop",
"All event orders up to the bound.")

prop("C15", "Reloading the configuration equals restarting with it",
"""After reloading a configuration the daemon has exactly the jobs, schedules, peers, tokens, limits and per-job
configuration files that a fresh start with that configuration would have, whatever sequence of configurations was
loaded before and however quickly they followed. Jobs whose configuration and schedule did not change keep running undisturbed, and each job runs exactly once; a
configuration that cannot be used terminates the daemon instead of leaving a mix. (The base directory is not changed by
a reload.)""",
"histories configurations", "all sequences of configurations from an alphabet of small edits (job added, removed, changed, schedule changed, limits, peers, tokens, broken file) up to a depth",
"One test reloads one configuration.",
f"{S}daemon/__init__.py {S}daemon/scheduler.py {S}daemon/api.py {S}source.py",
["reload @ BackyDaemon.reload/_read_config/_apply_config", "job configuration @ Job.configure"],
"explicit-state exploration of configuration sequences with a differential oracle (fresh start)",
"All sequences up to the depth.")

prop("C16", "Only authorised requests have any effect",
"""A request without a configured bearer token is rejected as unauthorised for every endpoint and method and changes nothing,
including right after the tokens were reconfigured. Authorised clients can change tags or request a purge only for
repositories this server does not actively manage; for active jobs they are refused and nothing changes.""",
"inputs configurations", "all routes and methods crossed with all authorisation header shapes, token sets before and after reconfiguration, and job states",
"Tests try two tokens on a few routes.",
f"{S}daemon/api.py {S}daemon/__init__.py",
["bearer check @ BackyAPI.require_auth", "active job protection @ BackyAPI.get_backup"],
"exhaustive enumeration of request shapes over the real application",
"All combinations within the alphabet.")

prop("C17", "Tag edits are conditional, all-or-nothing and retryable",
"""A tag edit with an expectation is applied to all selected revisions or to none, and is applied only if all of them
currently carry exactly the expected tags; otherwise it reports failure. Edits only affect the selected revisions'
tags (set, add, remove as requested), unknown schedule tags are refused unless forced, a revision is removed only if
asked for when no tags remain, and the same rules hold through the command line and the HTTP interface.""",
"inputs histories", "all combinations of current tags, expected tags, action, new tags, selection, force and autoremove over two revisions, on the command line and through HTTP",
"Tests try a dozen combinations.",
f"{S}repository.py {S}daemon/api.py {S}cli/__init__.py",
["tag update @ Repository.tags", "HTTP compare and set @ BackyAPI.put_tags"],
"exhaustive enumeration of tag edit inputs against a reference model",
"All combinations within the alphabet.")

prop("C18", "Servers converge on revision metadata and never delete foreign data",
"""After connectivity returns, a push followed by a pull makes each server's view of a peer's revisions equal to that
peer's actual completed revisions (except ids that already belong to a revision of this or a third server), and tag changes made here are applied there exactly once unless the tags were
changed there in the meantime, in which case the peer's version wins. Network failures, error answers and lost
replies at any request never remove or alter data of local revisions on either side and never apply an edit partially.""",
"fault_sequences histories", "all sequences of local edits, remote edits, removals, push and pull with every fault (refused, timeout, error status, lost reply) at every request up to a depth",
"Tests cover a few scripted exchanges.",
f"{S}daemon/scheduler.py {S}daemon/api.py {S}revision.py {S}repository.py",
["push @ Job.push_metadata", "pull @ Job.pull_metadata", "conditional update @ BackyAPI.put_tags"],
"explicit-state exploration of two real servers connected by a fault-injecting in-memory network",
"All histories and single faults up to the depth.")

prop("C19", "Leader coordination never loses a planned backup",
"""When several servers share a job, a server skips its own planned run only if a reachable peer with more completed
backups produced a backup for that planned time. If every peer is unreachable, unknown to the job, stopped, not
scheduled or fails while being watched, or a manual trigger arrives, the server makes the backup itself, and the
waiting always ends once the peer's state allows a decision.""",
"schedules fault_sequences", "all sequences of peer answers (counts, status, last and next times, errors) for up to two peers over several polls, and trigger times",
"Five scripted scenarios in tests.",
f"{S}daemon/scheduler.py {S}daemon/api.py",
["leader election and watching @ Job._wait_for_leader"],
"exhaustive exploration of peer answer sequences against the real coroutine under virtual time",
"All answer sequences up to the bound.")

prop("C20", "Revision expressions select exactly the documented revisions",
"""For every repository history (no two revisions with the same timestamp) and every well-formed revision expression (numbers, ids, tags, trust, server, dates,
ranges, first/last/not/reverse, unions and intersections with parentheses) the selected revisions and their order are
those of the documented meaning. Expressions that match nothing where a single revision is required are errors and
never select something else, and a destructive command with such an expression changes nothing.""",
"inputs", "all expressions up to a size over a grammar, for several histories, compared with an independent evaluator",
"Tests list about forty expressions on one history.",
f"{S}repository.py {S}utils.py",
["expression evaluation @ Repository.find_revisions/find/index_by_token"],
"exhaustive enumeration of expressions up to a size against a reference evaluator",
"All expressions up to the size bound on the listed histories.")

prop("C21", "Only abandoned repositories are deleted, pending purges get done",
"""The periodic clean-up deletes a directory only if neither it nor anything inside it changed within the last three
months (93 days), and unless an error occurs every such directory; it never follows symbolic links or deletes anything outside the backup directory.
A repository that a peer pulls from (or touches) has changed. A purge requested for a
repository without a job is carried out at the next daily pass, whatever happens to other repositories, and never for
repositories with a job; a purge that is killed or fails anywhere stays pending until it is completed.""",
"configurations histories", "all small directory trees with modification times around the limit, links and pending markers, with failures injected for some candidates; a purge killed before or failing in each of its file system operations; peers that pull, touch or fail to, with clean-ups before and after the limit",
"Tests cover single directories.",
f"{S}daemon/__init__.py {S}utils.py {S}repository.py",
["age check @ has_recent_changes", "purge loop @ BackyDaemon.purge_old_files/purge_pending_backups"],
"exhaustive enumeration of bounded directory trees on the real passes with recorded deletions",
"Deletions are recorded by stand-ins, never executed outside scratch.")

prop("C22", "The exit status tells the truth",
"""A command exits with status zero only if everything it was asked to do succeeded, and non-zero if its helper failed
with any exit status or was killed by any signal, if the repository was locked for a command that needs it exclusively, or if any
selected revision or repository failed, regardless of the order of successes and failures. A failing backup leaves no unfinished revision behind.""",
"fault_sequences inputs", "all commands crossed with all helper outcomes (exit codes, signals) per selected revision or repository, and lock states",
"Tests check that functions are called, not what the process returns on failures.",
f"{S}cli/__init__.py {S}source.py",
["exit status propagation @ Command.__call__/verify/gc/backup", "helper status @ Source.main, CmdLineSource.invoke"],
"exhaustive enumeration of helper outcomes over the real command line client",
"All combinations within the alphabet.")

prop("C23", "I/O errors never destroy or fake backups",
"""If any single file system operation of any command fails (disk full, I/O error, too many open files), every
previously completed revision stays complete, restorable and with either old or new metadata, no revision is marked
complete unless it restores correctly, and no metadata file is ever partially written. The command reports failure
unless its effect is complete, and works again once the error is gone. Chunks that cannot be read because of EIO may be
treated as damaged by a verification, running out of resources may not be taken for damage.""",
"fault_sequences", "every intercepted system call of every command failing with ENOSPC, EIO or EMFILE",
"Tests never inject I/O errors.",
f"{S}utils.py {S}revision.py {S}rbd/chunked/chunk.py {S}rbd/chunked/file.py {S}rbd/__init__.py {S}file/__init__.py",
["temporary file discipline @ SafeFile", "completion marker last @ RBDSource.backup"],
"exhaustive fault enumeration on the real code under a system call interposer",
"All single faults; thorough adds persistent failure from a point on.")

prop("C24", "Snapshot requests through the cluster are served or replaced",
"""With snapshot coordination configured and the key-value store reachable, a backup always ends up with its snapshot: either the hypervisor creates it
within the timeout, whenever that happens, or it is created directly. Afterwards no request of this machine's backups
is left behind, while requests of other machines and foreign snapshots are never removed, whatever garbage or
concurrently vanishing entries the key-value store contains.""",
"fault_sequences schedules", "all key-value store contents from an alphabet of entries (own, foreign, other prefix, garbage, vanishing) crossed with all answer times of the hypervisor",
"Four scripted tests.",
f"{S}rbd/__init__.py {S}utils.py",
["snapshot request and cleanup @ CephRBD.create_snapshot", "timeout @ TimeOut.tick"],
"exhaustive enumeration of store contents and answer times on the real code under virtual time",
"All combinations within the alphabet.")

prop("C25", "Snapshots and mappings on the source are kept tidy",
"""After every successful backup exactly one backup snapshot is left on the image, the one of that backup (none if
full backups are forced), and no device stays mapped whether the backup succeeded or failed (as long as the
mapping commands themselves work). Snapshots not created by
backups are never removed, and a failing snapshot removal does not fail the backup.""",
"histories fault_sequences", "all histories of successful and failing backups with foreign snapshots and failing snapshot removals up to a depth",
"Three scripted tests on a mock.",
f"{S}rbd/__init__.py {S}rbd/rbd.py",
["snapshot cleanup @ CephRBD._delete_old_snapshots", "unmap @ RBDClient.image_reader"],
"explicit-state model checking of the real commands (BFS) with faults",
"All histories up to the depth.")

prop("C26", "Mismatches found by verification are reported and manageable",
"""When the sampled comparison after a backup finds a differing block, the backup is not completed, exactly one problem
report with both versions of the block and its offset is stored, and the check command signals a warning until the
report is deleted. Listing, showing and deleting reports affects exactly the selected ones.""",
"inputs fault_sequences", "all positions of a differing block crossed with all choices of sampled blocks, and all subsets of reports listed, shown and deleted",
"One test; deletion is not tested.",
f"{S}report.py {S}repository.py {S}cli/__init__.py {S}utils.py {S}rbd/__init__.py",
["sampled comparison @ files_are_roughly_equal", "report storage @ ProblemReport.store/ChunkMismatchReport.store", "report commands @ Command.reports_delete"],
"exhaustive enumeration of mismatch positions, sample choices and report subsets on the real code",
"The random sample is an explored choice.")

prop("C27", "Monitoring reports overdue backups exactly when they are",
"""The status check signals a critical state exactly if there is a completed backup and the newest completed one is older than one and a half
times the shortest interval, otherwise a warning exactly if problem reports exist, and success otherwise, and the daemon's
status list agrees with it on every job. Unfinished revisions never count as backups.""",
"histories configurations", "all small histories of completed, unfinished and remote revisions with ages around the limit, with and without reports, for several schedules",
"Few fixed ages in tests.",
f"{S}repository.py {S}cli/__init__.py {S}daemon/__init__.py",
["SLA @ Repository.sla_overdue", "check @ Command.check", "status @ BackyDaemon.status"],
"exhaustive enumeration of bounded histories against a reference model",
"All combinations within the bounds.")

prop("C28", "Old repositories are migrated without losing data",
"""Opening a repository in the old chunk layout converts it so that every revision restores as before, also if the
conversion is interrupted at any point and restarted. Chunks already in the new layout are unaffected.""",
"crash_points inputs", "every crash point of the conversion of several old-layout repositories, followed by reopening and restoring",
"One test converts one chunk without interruption.",
f"{S}rbd/chunked/store.py",
["conversion @ Store.convert_to_v2"],
"exhaustive crash point enumeration on the real code under a system call interposer",
"Every mutating system call is a crash point.")

prop("C29", "Revision metadata round-trips through disk and network",
"""Whatever combination of times, tags, statistics, trust, origin and pending tags a revision has, writing and reading
it again (from disk or through the HTTP interface) yields the same values, and histories are always ordered by time.
Metadata written by older versions (missing optional fields, text timestamps) is read with the documented defaults.""",
"inputs", "all combinations of field values from small alphabets including special characters and fractional seconds",
"Three fixed examples.",
f"{S}revision.py {S}repository.py {S}daemon/api.py {S}utils.py",
["serialisation @ Revision.to_dict/from_dict", "HTTP serialisation @ BackyJSONEncoder, Client.get_revs"],
"exhaustive enumeration of metadata values through the real serialisers",
"All combinations within the alphabets.")

prop("C30", "Commands change only what they are asked to",
"""Commands that show information (log, rev-parse, check, reports-list, reports-show, show-jobs, show-daemon) and every
command given --dry-run change nothing at all: no file of any repository, no restore target, no snapshot or mapping of
the source, and they send no modifying request to the daemon. A command that modifies revisions (rm, distrust, tags)
leaves the metadata of every revision it did not select and everything outside its repository untouched, an expression that
selects nothing valid is an error, and with --jobs or --all a command acts on exactly the repositories whose job names
match the regular expression, and fails if there are none.""",
"inputs histories", "all commands of the grammar with all selections, prepared repositories (empty, with garbage, unfinished, distrusted, corrupt, remote revisions), revision lists up to length 3, and job filters",
"Tests run single commands and check their intended effect, not the absence of others.",
f"{S}cli/__init__.py {S}repository.py {S}revision.py",
["commands @ Command.__call__/get_repos and its command methods", "--dry-run @ Command.dry_run", "selection @ Repository.find_revisions, Repository._reload"],
"exhaustive enumeration of commands over prepared repositories with comparison of the complete state",
"All combinations within the alphabets; state includes contents, modes, modification times and inodes of all files.")

prop("C31", "Stopping the daemon ends everything it started",
"""When the daemon is told to stop, by SIGTERM, SIGINT or SIGQUIT at any moment or by reloading (signal or API) a
configuration it cannot use, it ends within bounded time, whatever its jobs are doing and even if it is told again:
no program that it started (backups, garbage collections, the backup-completed callback) is left running without having
been asked to terminate, none is started afterwards, complete revisions are untouched, and a daemon started again in the
same directory makes new complete backups of all jobs, removes the unfinished ones and performs pending purges. While a
daemon is running, a second one for the same base directory exits with status 69 and changes nothing.""",
"schedules crash_points", "every callback boundary of the event loop in 16 scenarios (waiting, backups, gc, callback, peers, monitoring, retries, reloads of all kinds, purges), one or two requests, programs that do or do not obey SIGTERM",
"Whether the cancellation reaches every task before the loop stops depends on the loop iteration in which the signal arrives.",
f"{S}daemon/__init__.py {S}daemon/scheduler.py {S}source.py",
["BackyDaemon.terminate, shutdown_loop, reload, lock @ daemon/__init__.py", "Job.run_callback, stop @ daemon/scheduler.py", "AsyncCmdLineSource.invoke @ source.py"],
"exhaustive exploration of the real daemon on a virtual-time event loop: stop requests at every callback boundary",
"All boundaries of the scenarios; programs are stand-ins implementing asyncio's process interface.")


prop("C32", "Backups are incremental and deduplicated",
"""A backup of an RBD image only transfers the difference to the most recent complete local revision that is not
distrusted and whose snapshot exists; only if there is none (or full-always is set) it transfers the whole image. Backups
that fail or are killed in between do not change that: the next attempt is still based on the same revision. Data that
is stored already is neither stored again nor rewritten, but while a distrusted revision exists everything that is
transferred is stored again; a backup adds only chunks whose
content was not stored, every chunk file is named by the hash of its content, revisions with equal content share it, and
after garbage collection there is exactly one file per distinct content of the remaining revisions.""",
"histories crash_points", "operation sequences up to depth 4 (6 thorough) over backups with 9 kinds of failures and kills, rm, distrust, verify, loss of snapshots, expiry and garbage collection; two Ceph versions, full-always",
"Tests mock the snapshots and look at single backups; the next backup after a failing one is never made.",
f"{S}rbd/__init__.py {S}rbd/chunked/chunk.py {S}rbd/chunked/store.py",
["CephRBD.get_parent, diff, full, __exit__ @ rbd/__init__.py", "Chunk.flush, hash @ rbd/chunked/chunk.py", "Store.purge @ rbd/chunked/store.py"],
"explicit-state search over operation histories of the real code, observing the rbd calls, inodes and modification times",
"All operation sequences within the depth; chunk size reduced to 4 bytes; rbd is a stand-in.")


prop("C33", "Observing the daemon has no influence on its work",
"""Requests that only look (GET of the status, with and without filter, jobs, backups, revisions) and requests that are
refused (wrong token, unknown job or backup, active backup, tags that do not match) are answered at any moment of the
daemon's work with the proper status, and change nothing: the programs it starts and when, the requests to its peers,
what it stores, its plans and states are the same as without them. Whatever happened in between, the backup-completed
callback is told exactly the revisions that are stored at that moment.""",
"schedules", "all requests at every callback boundary of the event loop in 14 scenarios (backups, failures, exchange with two peers, following a leader, reloads of all kinds, new and removed jobs, purges)",
"The handlers replace the lists that running jobs are working with; tests call them while nothing is going on.",
f"{S}daemon/api.py {S}daemon/__init__.py {S}daemon/scheduler.py {S}repository.py",
["handlers @ BackyAPI", "BackyDaemon.status @ daemon/__init__.py", "Repository.scan", "Job.run_callback, pull_metadata, push_metadata @ daemon/scheduler.py"],
"exhaustive exploration of the real daemon on a virtual-time event loop: requests at every callback boundary, compared with the run without",
"All boundaries of the scenarios; programs and peers are stand-ins; requests enter at aiohttp's application.")

prop("C34", "What backy shows and announces is true",
"""The status list of the daemon (HTTP, show-jobs, show-daemon) and the log show for every history exactly what is stored:
SLA and for how long it is overdue, time, tags and duration of the last complete backup, numbers of local and unsynced
revisions and problem reports, manual tags, unfinished purges as dead backups, pending changes of tags, for the
selected jobs and no others. What is announced comes true: a job that is waiting starts its next backup at the announced
time with the announced tags unless something happens in between, never announces the past, and shows no announcement
while a backup is running, which is shown as running.""",
"histories schedules", "all histories of up to 2 (3 thorough) revisions of 8 kinds at ages around the limits; special characters in tags; all sequences of up to 2 (3) events (trigger, failures, reloads, restart, loss of revisions) in two days of a daemon's life, the status asked after every step of the event loop",
"Tests compare single status outputs, and none follows up on announcements.",
f"{S}daemon/__init__.py {S}daemon/scheduler.py {S}cli/__init__.py {S}schedule.py {S}daemon/api.py",
["BackyDaemon.status @ daemon/__init__.py", "Job.run_forever, update_status @ daemon/scheduler.py", "Command.show_jobs, show_daemon, log_ @ cli/__init__.py", "Client.fetch_status @ daemon/api.py"],
"exhaustive enumeration of histories with an independent reference, and exploration of event sequences of the real daemon in virtual time",
"All combinations within the bounds; programs are stand-ins.")

prop("C35", "Jobs do not affect each other",
"""Whatever breaks for one job - its repository cannot be read or written (damaged revision files, unusable directories),
its programs fail, cannot be started or hang, peers answer garbage about it, its lock is held - and whenever, also before
the daemon is started, restarted or reloaded: as long as worker slots are free everything that happens to the other jobs
(backups and their times, expiry, exchange with peers, callbacks, answers of the API about them), reloads, and the clean-up
of repositories without a job are the same as without. The broken job goes on when the cause is gone, without a
reload or restart.""",
"faults histories", "31 kinds of breakage of one job x moments before and during the work (41 more moments thorough) x 7 kinds of changes, over 1.35 days of a daemon's life",
"Tests configure jobs that work.",
f"{S}daemon/__init__.py {S}daemon/scheduler.py {S}daemon/api.py {S}source.py",
["BackyDaemon._apply_config, start, reload, status, purge_pending_backups @ daemon/__init__.py", "Job.configure, run_forever @ daemon/scheduler.py"],
"exhaustive enumeration of breakages, moments and configuration changes on the real daemon in virtual time, compared with the undisturbed run",
"All combinations within the bounds; programs and peers are stand-ins.")

prop("C36", "What backy holds does not grow",
"""However long the daemon runs, what it keeps does not grow: after any sequence of backups (successful, failing, unable to
start), triggers, following a leader, exchange with reachable or failing peers, reloads, requests and clean-ups, once all
jobs are waiting again it holds no more tasks, timers, open files, connections and sessions than after the same sequence
before, and never throws away an unfinished task. Likewise backing up, restoring, verifying and cleaning up an image keeps
a bounded amount of its data in memory, however large it is.""",
"histories inputs", "all words of <= 2 of 25 kinds of days of a daemon's life, repeated; all commands x contents of images of two sizes",
"Tests run each thing once and do not look at what is left.",
f"{S}utils.py {S}daemon/scheduler.py {S}daemon/api.py {S}daemon/__init__.py {S}rbd/chunked/file.py {S}rbd/__init__.py",
["delay_or_event, copy, punch_hole @ utils.py", "Job.run_forever, _wait_for_leader @ daemon/scheduler.py", "Client, ClientManager @ daemon/api.py", "File._flush_chunks @ rbd/chunked/file.py"],
"exhaustive enumeration of event words repeated on the real daemon in virtual time (growth of its resource vector between repetitions); exhaustive enumeration of commands and contents with measured peak memory for two sizes",
"All words up to length 2 (some kinds only alone in the quick tier), 5 repetitions; leaks slower than one per repetition are not seen.")


def main():
    with open(V / "properties.jsonl", "w") as f:
        for d, _, _ in P:
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, tech, note in P:
        i = d["id"]
        if (V / "mc" / "checks" / f"{i.lower()}.py").exists():
            checks.append({
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python run.py {i} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
                "technique": tech, "level": "model_checking", "level_note": note,
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "check not built yet")})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
    print(len(P), "properties", len(checks), "checks")


NA = {}
main()
