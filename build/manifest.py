#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CHECKS = []
def check(property, harness, technique, note, level="model_checking", thorough=True):
    c = dict(property=property, quick_cmd=f"bash checks/run.sh {property} {harness} quick", technique=technique, level=level, level_note=note)
    if thorough: c["thorough_cmd"] = f"bash checks/run.sh {property} {harness} thorough"
    CHECKS.append(c)

EXPLORE = "explicit-state exploration of the real program on a virtual kernel (fork tree, state merging, reference model as oracle)"

SM = "the real casual-service-manager is driven through every sequence of events up to a depth; lookups, acknowledgements, withdrawals, deaths, advertisement, discovery answers, shutdown and timer; 1-2 servers, up to 3 connections, 3-5 calls; the bounds are in the evidence"
for p in ("S01", "S02", "S03", "S04", "S05"): check(p, "service_manager", EXPLORE, SM)

QG = "the real casual-queue-group on an in-memory sqlite file system is driven through every sequence of operations up to a depth (enqueue, dequeue of every kind, transactions, forget, deaths, time, administration, crash and restart); 1-2 queues, 1-4 transactions, 1-4 messages; the bounds are in the evidence"
for p in ("Q01", "Q02", "Q03", "Q04"): check(p, "queue_group", EXPLORE, QG)

TM = "the real casual-transaction-manager on an in-memory log is driven through every sequence of events up to a depth: participants (local proxies, externals) join, owners and superior domains end transactions, every vote and answer in every order, losses, deaths; 1-2 transactions, 1-3 participants, 1-2 branches; the bounds are in the evidence"
for p in ("T01", "T02", "T03"): check(p, "transaction_manager", EXPLORE, TM)

CO = "the real inbound device, send coordinator, fan-out and task coordinators of casual's common library are driven through every sequence of operations up to a depth; up to 3 senders or destinations, messages of 1-4 parts, 1-3 concurrent fan-outs or groups; the bounds are in the evidence"
for p in ("C01", "C02", "C03"): check(p, "communication", "exhaustive enumeration of operation sequences on the real code (on a virtual kernel, state merging, reference model as oracle)", CO)

BU = "the real field, order, octet and string buffers are driven through their C interface with every sequence of operations up to a depth over small universes of fields, values and sizes, including transfer in both message encodings, every truncation and single-byte corruption of foreign memory, and (fields) the readable forms; the bounds are in the evidence"
for p in ("B01", "B02"): check(p, "buffers", "exhaustive enumeration of operation sequences on the real code (reference model as oracle)", BU)

SE = "the real archives (binary, network, json, yaml, xml, ini) write and read every value of a bounded grammar with boundary values; every truncation and every single-byte change (alphabet of structural bytes) of what they write is read too; the bounds are in the evidence"
for p in ("L01",): check(p, "serialize", "exhaustive enumeration of bounded inputs on the real code (the value written as oracle)", SE)

GO = "the real casual-gateway-outbound-group with 1-2 remote domains (protocol versions 1.1 to 1.4) is driven through every sequence of local requests, remote answers in every order, losses, partial writes, deaths, disconnect, reconnect and shutdown up to a depth; up to 3 requests; the bounds are in the evidence"
for p in ("G01",): check(p, "gateway_outbound", EXPLORE, GO)

GI = "the real casual-gateway-inbound-group with 1-2 remote domains (protocol versions 1.2 to 1.4) is driven through every sequence of remote requests, answers of the local managers, servers and queue groups in every order, losses, partial writes, deaths, disconnect and shutdown up to a depth; up to 4 requests; the bounds are in the evidence"
for p in ("G02",): check(p, "gateway_inbound", EXPLORE, GI)

PR = "every message of the interdomain protocol in every version with every pair of fields over boundary values; streams of 1-3 messages with every two cuts, sequences of write and read limits, and truncation at every byte through the real connections; every version negotiation of the real connector program; the bounds are in the evidence"
for p in ("G03",): check(p, "protocol", "exhaustive enumeration of bounded inputs and stream fragmentations on the real code (the message written as oracle)", PR)

CA = "the real calling side of XATMI and TX (C interface) is driven through every sequence of operations up to a depth with every order of replies, timeouts, losses and cancels; up to 3-4 calls or 2-3 conversations; the bounds are in the evidence"
for p in ("X02", "X03"): check(p, "calls", EXPLORE, CA)

SV = "the real server side of XATMI and TX (C interface, in a server's process with mock XA resources) is driven through every sequence of operations, or every combination of an invocation, with every failure of resources and the transaction manager within a fault bound; the bounds are in the evidence"
for p in ("X01", "X04"): check(p, "server", EXPLORE, SV)

QF = "the real casual-queue-forward-group with queue and service forwards is driven through every sequence of messages, answers, refusals and failures of queue groups, servers, service and transaction manager in every order, losses of queue groups, scaling and shutdown up to a depth; up to 2 concurrent instances; the bounds are in the evidence"
for p in ("Q05",): check(p, "queue_forward", EXPLORE, QF)

NOT = []
names = [json.loads(l)["id"] for l in open(VERIF + "/properties.jsonl")]
reasons = dict()
claimed = {c["property"] for c in CHECKS}
for n in names:
    if n not in claimed: NOT.append(dict(property=n, reason=reasons.get(n, "no check is built for this yet")))
json.dump(dict(version=1, setup_cmd="bash checks/setup.sh", checks=CHECKS, not_applicable=NOT), open(VERIF + "/MANIFEST.json", "w"), indent=1)
