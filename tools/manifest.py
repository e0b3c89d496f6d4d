#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MC = "model_checking"
CHECKS = {
 "C01": ("explicit-state search: every reachable datom state x every transaction of a bounded domain, executed on the real store and compared with a reference model", MC, "Exhaustive within the stated domain (2 entities, 2 values, 23 attribute kinds); trusts SQLite and the reference model in mc/src/model.rs."),
 "C02": ("exhaustive enumeration: every way of writing a bounded transaction (notations, lookup refs, nested maps, entity builder) executed on the real store and compared with the reference model of its flat expansion", MC, "Exhaustive within the stated domain; trusts the reference model in mc/src/model.rs."),
 "C03": ("explicit-state search: every transaction of a bounded domain with temporary ids and upserts, from several store states and continued after reopening, executed on the real store and compared with the reference model", MC, "Exhaustive within the stated domain; trusts the reference model in mc/src/model.rs."),
 "C07": ("explicit-state search: every history of schema, ident and data transactions of a bounded alphabet on the real store; after each step memory, reopened store, materialized tables, index flags and datoms are compared, and data transactions with the reference model", MC, "Exhaustive within the stated alphabet and depth; states with equal datoms are merged."),
 "C04": ("exhaustive type table (literal x attribute kind x form) and explicit-state search over transactions with legal, unknown, unallocated and contradictory places, on the real store against the reference model and independent invariants", MC, "Exhaustive within the stated domain; trusts the reference model in mc/src/model.rs."),
 "C05": ('explicit-state search: every history of database transactions of a bounded alphabet on the real store; after each step the log is compared with the change of the datoms, replayed from nothing, and fed to an empty store', MC, 'Exhaustive within the stated alphabet and depth; states with equal datoms are merged.'),
 "C06": ('exhaustive enumeration: every sequence of committed operations and ghosts (refused, rolled back, dropped, failed in the middle) up to a bound on the real store, compared observation by observation with the same sequence without its ghosts', MC, 'Exhaustive within the stated alphabet and length; the observations are those the probes make.'),
 "C08": ('exhaustive crash-point exploration: the real store on a recording in-memory disk; every crash point and bounded set of lost, torn and reordered unsynced writes of every bounded history is recovered and compared with the committed states; recovery itself is crashed too', MC, 'Exhaustive within the stated histories and crash patterns; trusts SQLite and the crash model of mc/src/vfs.rs.'),
 "C09": ('exhaustive fault injection: the real store on an in-memory disk; for every operation, every call it makes to the disk is made to fail in every bounded way, and result, connection, a second connection and the continuation are compared with the states before and after the clean operation', MC, 'Exhaustive over the single faults of the stated operations; trusts SQLite and the fault model of mc/src/vfs.rs.'),
 "C10": ('bounded exhaustive enumeration of queries (all clause sequences of an alphabet up to depth 3) run on the real store, against a naive nested-loop evaluator as model', MC, "every clause kind; refusals compared with the language's rules"),
 "C11": ('bounded exhaustive enumeration of find specifications (shapes x elements x :with x :order x :limit x where clauses x databases) run on the real store, against a naive evaluator as model', MC, 'Exhaustive within the stated grammar; trusts the naive evaluator in mc/src/dl.rs and c11.rs.'),
 "C12": ('bounded exhaustive exploration: every history of cache registrations, transactions, savepoints, rollbacks and commits over an alphabet, with every query of a battery asked with and without caches after each step on the real store', MC, 'Exhaustive within the stated alphabet and depth; the oracle is the same code without caches, itself checked by C10/C11.'),
 "C13": ('bounded exhaustive enumeration of pull specifications x entity sets x databases, run on the real store, against a reference reading of the datoms', MC, 'Exhaustive within the stated grammar; the oracle reads the datoms table directly.'),
 "C14": ("bounded exhaustive exploration of histories of register/unregister/transact/rollback/commit, with the worker thread's progress controlled at every point by a gate, on the real store", MC, 'Exhaustive within the stated alphabet, depth and schedules of the notification worker.'),
 "C16": ('bounded exhaustive exploration of transaction histories x suffixes moved, on the real store, against the image taken before the first moved transaction', MC, "Exhaustive within the stated alphabet and depth; the oracle is the store's own earlier image."),
 "C21": ('exhaustive enumeration of EDN values, texts and token sequences on the real parser and printers, against an independent reader', MC, 'every value over the atom alphabet to the stated depth is printed and reread; every text of bounded length and every bounded token sequence is parsed and compared with an independent reader; total-order laws on all triples'),
 "C18": ("exhaustive exploration of the real code: every sequence of transactions up to a depth x every range of transaction ids x every way of binding, compared with the log's rows", MC, 'Log queries against an oracle computed from the raw log.'),
 "C22": ('exhaustive exploration of the real code: every value (and pair of values) of the boundary domain through every way in and out of the store and every access path, compared with an independent value model', MC, 'Every value of a boundary domain per type, every route.'),
 "C19": ('explicit-state search: every history of fulltext transactions of an alphabet on the real store; every search term x binding form x surrounding clause compared with a tokenizing model of the current strings', MC, 'FTS4 itself is trusted; the tokenizer is modelled for ASCII words'),
 "C20": ('explicit-state search over store states with every operation of an alphabet of ensure operations and schema/data transactions, against a model of what a definition says; replayed on the real store, reopened, and in one transaction vs two', MC, 'two vocabularies over two attributes'),
 "C23": ('exhaustive enumeration: every clause sequence x input variable x value on the real code (once, prepared, explained) against a naive evaluator; prepared queries across every sequence of changes x cachings; query builder', MC, 'type-contradicting inputs may be refused'),
 "C15": ('stateless exploration: every interleaving of the steps of every pair of client programs, and every placement of a preemption among the file-system calls of two threads, on the real code over one in-memory file, against a model of committed states and snapshots', MC, 'clients are separate stores on one file; everything observable at each step must be one committed state'),
 "C17": ('stateless exploration: every sequence of transactions and syncs of several stores up to a depth, and every failing call of the server, on the real syncer against an in-memory server', MC, 'two known findings; merges are compared through what each side transacted'),
 "C24": ('exhaustive enumeration of requests over grammar alphabets against the real store: answered or refused alike by every entry point, store unharmed', MC, 'requests within the listed alphabets and nestings'),
 "C25": ('exhaustive enumeration of call sequences of the exported C functions on the real code in child processes, compared with the library, allocations counted', MC, 'sequences and values within the listed bounds'),
 "C26": ('exhaustive enumeration of command texts, sessions and startup options; lock-step conformance of the real program with a library-driven twin', MC, 'sessions of the real program'),
 "C27": ('explicit-state exploration of histories and fault injection at every request of the real HTTP client against a protocol server', MC, 'all requests of a sync x all failures'),
}
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for pid in props:
    if pid in CHECKS:
        t, l, n = CHECKS[pid]
        checks.append({"property": pid, "quick_cmd": f"bash run.sh {pid} quick", "thorough_cmd": f"bash run.sh {pid} thorough", "technique": t, "level": l, "level_note": n})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS],
     "notes": "One Rust binary (mc/) links /repo's crates by path and explores them; run.sh rebuilds it from the working tree. Replays: bash run.sh <id> <tier> --case '<case>' (given in each replay file)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
