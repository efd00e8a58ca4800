"""Which queries decide which property.  unwind bounds are raised by run.py if
the code needs more, so they only have to be about right."""

import itertools

COMMON_ASSUMPTIONS = [
    "nginx core functions are the models in lib/ngx_stubs.h (nginx core is not part of the repository)",
    "allocation does not fail; every allocation is a separate object",
    "x86-64 Linux data model, little endian, the modules' own compile-time configuration",
    "logging has no effect on behaviour",
]

PROPS = {}


def P(pid, *queries, assumptions=()):
    PROPS[pid] = {"queries": list(queries), "assumptions": list(assumptions)}


def Q(file, entry, **kw):
    return dict(file=file, entry=entry, **kw)


P("C20",
  Q("url.c", "vf_url", defs={"URLN": 11}, unwind=13, bounds="every url of up to 11 (thorough 13) bytes without NUL",
    thorough=dict(defs={"URLN": 13}, unwind=15)),
  Q("url.c", "vf_port", unwind=9, bounds="every scheme of up to 5 bytes, every port text of up to 7 bytes"))

P("C17",
  *[Q("map.c", e, name=f"{e}_{s}", unwind=7, unwindset=[e + ".0:24"], defs={"LO": s, "SHAPES": s + 1},
      only="thorough" if s > 8 else None,
      bounds=f"one {what} on search tree shape {s} (shapes 0-8: all trees of up to 3 entries, 9-22: of 4), every key of 6, "
             "every hash of the keys into 4 buckets: an inductive step, so histories of any length over maps that small")
    for e, what in (("vf_map_query", "query"), ("vf_map_insert", "insert"), ("vf_map_delete", "delete"))
    for s in range(0, 23)],
  Q("map.c", "vf_map_keys", unwind=5, bounds="string keys of up to 3 bytes, all 64-bit integer keys"),
  assumptions=["nginx's red-black tree is replaced by a plain binary search tree with the same in-order contract"])

P("C22",
  *[Q("multiport.c", "vf_derive", name=f"vf_derive_{k}_{d}", unwind=8, signed=1, unwindset=["ngx_vslprintf.0:20", "memcpy.0:20"],
      defs={"PRE": '"' + pre + '"', "DIG": d}, only=None if (k == 2 or d in (4, 5)) and d < 6 else "thorough",
      bounds=f"host part '{pre}', every {d}-byte port text, every slot number")
    for k, pre in enumerate(["", ":", "h:", "[::1]:"]) for d in (1, 2, 3, 4, 5, 6)],
  *[Q("multiport.c", "vf_malformed", name=f"vf_malformed_{n}", unwind=9, unwindset=["ngx_vslprintf.0:20", "memcpy.0:20"], defs={"MLEN": n, "VF_MEM_LOOP": 1},
      bounds=f"every text of {n} bytes that has no port, or one that is not a number") for n in range(1, 5)],
  Q("multiport.c", "vf_unix", unwind=14, bounds="every unix: path of 3 bytes, slots 0-127", defs={"DIG": 3}),
  Q("multiport.c", "vf_huge", unwind=24, signed=1, bounds="every 19-digit number from 92...0 up, slots 0-127"),
  *[Q("slot.c", e, unwind=3, unwindset=["ngx_process_slot_module_init.0:130"], bounds="1-128 workers, every pair of worker indices and slots") for e in ("vf_slot", "vf_slot_restart", "vf_slot_other")])

ZONE = [("nginx-multiport-module/ngx_stream_zone_module.c", r"^#define NAME_LEN .*", "#define NAME_LEN 4")]
P("C23",
  *[Q("zone.c", "vf_zone", name=f"vf_zone_{b}_{s}", unwind=7, defs={"VF_MEM_LOOP": 1, "BUCKETS": b, "STREAMS": s}, sub=ZONE,
   bounds=f"every history of 4 (thorough 5) publishes, unpublishes, worker exits and starts by 2 workers over 3 names in a zone of {s} streams and {b} buckets",
   thorough=dict(defs={"OPS": 5})) for b, s in ((1, 2), (2, 2), (1, 3))],
  *[Q("zone.c", "vf_zone_race", name=f"vf_zone_race_{b}_{s}_{x}{y}", unwind=7, defs={"VF_MEM_LOOP": 1, "BUCKETS": b, "STREAMS": s, "OPA": x, "OPB": y}, sub=ZONE, only=None if (b, s) == (1, 2) else "thorough",
   bounds=f"after every history of 2 publishes, every {('publish', 'unpublish', 'exit')[x]} and {('publish', 'unpublish', 'exit')[y]} by two workers over 3 names, the second one running whole at any lock or unlock of the first; {s} streams, {b} buckets")
   for b, s in ((1, 2), (2, 2), (2, 3)) for x in range(3) for y in range(3)])

RSEQ = ["1,8,11,8,18,19,9,3,8,11,21,28,29,19,13", "1,11,8,18,9,19,3,14,22,18,8,9,1,29,21,8", "0,8,13,18,9,19,4,8,10,22,28,29,9,19,3,10,24",
        "3,13,23,8,18,28,19,9,29,4,14,20,8,18,28", "4,11,8,9,0,24,19,10,29,9,2,21,18,19,14,29,23"]
P("C18",
  Q("rbuf.c", "vf_rbuf", unwind=8, bounds="every history of 4 (thorough 6) gets and puts over 3 users, 2 sizes and no memory, including repeated puts", defs={"OPS": 4}, thorough=dict(defs={"OPS": 6}, unwind=8)),
  *[Q("rbuf.c", "vf_rbuf_seq", name="vf_rbuf_seq_%d" % i, unwind=20, defs={"SEQ": s}, bounds="one history of 14 to 17 gets, uses and puts over 3 users and 4 sizes; any content, flags and use in between")
    for i, s in enumerate(RSEQ)],
  assumptions=["the ordered map behaves as C17 says"])

TSEQ = ["0,4,4,1,2,10,12", "0,10,4,2,13,10,12,0,1", "0,5,12,4,2,3,0,16,11", "0,16,4,2,3,0,6,1,3,0,2", "0,10,2,0,11,10,12,1,10,11", "0,3,10,5,15,2,12", "0,2,0,14,10,4,12,2,0,1,13,10,16"]
P("C19",
  Q("timerd.c", "vf_timerd", unwind=8, defs={"OPS": 3}, bounds="every history of 3 (thorough 4) arm, cancel, fire and owner-change steps over 2 timers", thorough=dict(defs={"OPS": 4}, unwind=8)),
  *[Q("timerd.c", "vf_timerd", name="vf_timerd_seq_%d" % i, unwind=20, defs={"SEQ": s}, bounds="one longer history: arm, cancel, cancel by another, fire (with a handler that arms it again, or the other one), change of owner, over 2 timers")
    for i, s in enumerate(TSEQ)],
  Q("poold.c", "vf_poold", unwind=8, bounds="every history of 5 (thorough 6) pool creations and (repeated) destructions over 3 users", thorough=dict(defs={"OPS": 6}, unwind=8)),
  assumptions=["the ordered map behaves as C17 says"])

KN = ("IPv4 network", "IPv6 network", "all")
P("C24",
  *[Q("access.c", "vf_access", name="vf_access_%d%d_%s" % (o, p, "".join(map(str, ks))), unwind=17, unwindset=["memcpy.0:82"], defs={"OWN": o, "PARENT": p, "KIND": ",".join(map(str, ks))},
      bounds=f"{o} own and {p} inherited rules ({', '.join(KN[k] for k in ks)}), any network, allow or deny, for publish, play or both; every IPv4, IPv6, mapped, unix or absent client address",
      only=None if o + p == 1 or (o, p, ks) in ((1, 1, (0, 0)), (1, 1, (1, 2)), (1, 1, (2, 0))) or (o, p, ks) in ((2, 0, (0, 0)), (2, 0, (1, 1)), (2, 0, (0, 2)), (0, 2, (0, 0)), (0, 2, (1, 2))) else "thorough")
    for o, p in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)) for ks in itertools.product(range(3), repeat=o + p)
    if o + p < 3 or ks[0] <= ks[2]],
  assumptions=["nginx's text-to-network parser gives an address with no bits outside its mask"])

P("C25",
  *[Q("limit.c", "vf_limit", name="vf_limit_%s_%d%d" % ("".join(map(str, s)), l, v), unwind=8, unwindset=["vf_limit.0:40", "memcpy.0:70", "memset.0:70"],
      defs={"SEQ": ",".join(map(str, s)), "LIMITED": l, "SERVED": v},
      bounds=f"steps {s} (0, 1: this client connects, or leaves when it is there; 2: a session over HTTP comes and goes), any number of other clients, "
             + ("any max_connections" if l else "no max_connections") + (", room for all" if v else ", no room"),
      only="thorough" if len(s) > 3 or (len(s) == 3 and v and s not in ((0, 0, 0), (0, 1, 0), (0, 2, 0), (2, 0, 0), (0, 0, 2))) else None)
    for l, v in ((1, 1), (0, 1), (1, 0)) for n in (1, 2, 3, 4) for s in itertools.product(range(3), repeat=n) if s[0] != 1 and (v or (n == 3 and min(s) < 2))])

P("C26",
  Q("proxy.c", "vf_proxy", unwind=24, bounds="every first 20 (thorough 40) bytes of a connection", thorough=dict(defs={"N": 40}, unwind=44)),
  assumptions=["recv() with MSG_PEEK gives what arrived first", "nginx's address parser accepts or refuses an address"])

OUTH = [("nginx-rtmp-module/ngx_rtmp.h", r"\*out\[0\]", "*out[8]")]
P("C07",
  Q("outq.c", "vf_put", unwind=66, defs={"START": 0}, bounds="one message into every queue of 2-64 slots, any fill, any priority, corked or not"),
  *[Q("outq.c", "vf_outq", name="vf_outq_%s_%d%d" % ("".join(map(str, s)), m, st), unwind=6, paths=1, sub=OUTH,
      unwindset=["ngx_rtmp_shared_free_frame.0:1", "send_chain.0:9", "vf_outq.2:9", "vf_outq.1:9", "vf_outq.0:9", "prepare.0:9"],
      defs={"SEQ": ",".join(map(str, s)), "MERGE": m, "START": st},
      bounds=f"queue of 4 starting at slot {st}, up to {m} messages merged into a write, steps {s}: 0-3 a message of that priority, 9 the socket takes any number of buffers",
      only=o)
    for s, m, st, o in [((0, 0, 9, 0, 9), 2, 3, None), ((0, 9, 0, 9, 0, 9), 2, 1, None), ((0, 0, 0, 0, 9, 0, 9), 2, 2, None), ((0, 0, 0, 9, 9), 3, 1, None),
                        ((0, 9, 0, 9, 0, 9), 1, 2, None), ((1, 2, 0, 3, 9, 1, 1, 9), 2, 0, None), ((0, 0, 9, 0, 0, 9, 0, 9), 2, 0, "thorough"), ((0, 0, 0, 9, 9, 0, 0, 9), 3, 3, "thorough")]])

P("C08",
  Q("frame.c", "vf_content", unwind=20, bounds="every content, every pair of input buffers of up to 4 bytes with chunk size 3, and an append of up to 2 bytes"),
  *[Q("frame.c", e, name=f"{e}_{n}_{h}", unwind=9, defs={"OPS": n, "HIST": h},
      bounds=f"every history of {n} steps (alloc when unused, then share or release) over 2 frames, which frame each step is about given by the bits of {h}",
      only="thorough" if n > 5 else None)
    for e in ("vf_refs", "vf_mpegts_refs") for n in (5, 7) for h in range(0, 1 << n, 2) if n == 5 or h % 10 == 0],
  assumptions=["chain buffers behave as C18 says"])


def _ch(*c):
    return ",".join("{%s}" % ",".join(map(str, x)) for x in c)


CHUNKS = [
    # name, chunks, defs, what, tier
    ("cut", [(1, 4, 0, 2, 6, 9, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=1), "a message of 2 chunks, cut in two reads at every place", None),
    ("bytes", [(1, 4, 0, 2, 9, 9, 0), (1, 5, 0, 2, 0, 8, 0), (1, 4, 3, 0, 0, 0, 0), (1, 2, 0, 2, 4, 1, 3), (1, 4, 3, 0, 0, 0, 0), (1, 4, 2, 2, 0, 0, 0)], dict(CUTS=2),
     "two chunk streams mixed, an empty message and a smaller chunk size in mid-message, read byte by byte", None),
    ("mixed", [(1, 4, 0, 3, 6, 9, 0), (1, 5, 0, 2, 5, 8, 0), (1, 4, 3, 0, 0, 0, 0), (1, 5, 3, 0, 0, 0, 0), (1, 5, 1, 3, 1, 8, 0)], {}, "two chunk streams mixed, extended timestamps, in one read", None),
    ("csid", [(2, 70, 0, 2, 6, 9, 0), (3, 71, 0, 2, 5, 8, 0), (2, 70, 3, 0, 0, 0, 0), (3, 71, 3, 0, 0, 0, 0)], dict(MAXS=72), "chunk streams with basic headers of 2 and 3 bytes", None),
    ("csid3", [(3, 330, 0, 2, 6, 9, 0), (2, 74, 0, 2, 3, 8, 0), (3, 330, 3, 0, 0, 0, 0)], dict(MAXS=332, CUTS=2, FS=700), "chunk streams 330 and 74, their basic headers of 3 and 2 bytes read byte by byte", None),
    ("time", [(1, 4, 0, 0, 2, 9, 0), (1, 4, 1, 0, 1, 8, 0), (1, 4, 2, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=3), "messages with headers of all four kinds, every plain timestamp and delta", None),
    ("time3", [(1, 4, 0, 0, 2, 9, 0), (1, 4, 3, 0, 0, 0, 0), (1, 4, 2, 0, 0, 0, 0), (1, 4, 0, 0, 1, 8, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=3), "messages with headers of kinds 0, 3, 2, 0, 3, every plain timestamp and delta", None),
    ("time2s", [(1, 4, 0, 0, 2, 9, 0), (1, 5, 0, 0, 1, 8, 0), (1, 4, 2, 0, 0, 0, 0), (1, 5, 2, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=3), "two chunk streams keep their own timestamps", None),
    ("ext", [(1, 4, 0, 1, 6, 9, 255), (1, 4, 3, 0, 0, 0, 0), (1, 4, 1, 1, 6, 8, 255), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=3), "extended timestamps repeated in later chunks", None),
    ("ext3", [(1, 4, 0, 1, 2, 9, 0), (1, 4, 1, 1, 2, 8, 255), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=3), "an extended delta used again by a message without timestamp", None),
    ("extstd", [(1, 4, 0, 1, 6, 9, 0), (1, 4, 3, 0, 0, 0, 0), (1, 4, 1, 1, 2, 8, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=3, FIX=0), "extended timestamps, publish_time_fix off", None),
    ("extnorep", [(1, 4, 0, 3, 9, 9, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CS0=5, NOREP=1), "an extended timestamp that is not repeated", None),
    ("shrink", [(1, 4, 0, 2, 6, 9, 0), (1, 4, 3, 0, 0, 0, 0), (1, 2, 0, 2, 4, 1, 2), (1, 4, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CS0=5), "chunk size 5 to 2 with messages behind it in the same read", None),
    ("grow", [(1, 4, 0, 2, 6, 9, 0), (1, 2, 0, 2, 4, 1, 9), (1, 4, 3, 0, 0, 0, 0), (1, 4, 1, 2, 7, 8, 0)], {}, "chunk size 4 to 9 in mid-message", None),
    ("ends", [(1, 2, 0, 2, 6, 9, 0), (1, 5, 0, 2, 5, 8, 0), (1, 4, 0, 2, 4, 1, 9), (1, 2, 3, 0, 0, 0, 0), (1, 5, 3, 0, 0, 0, 0)], {}, "chunk size 4 to 9 in the middle of messages on the first and the last chunk stream", None),
    ("twice", [(1, 3, 0, 2, 9, 9, 0), (1, 2, 0, 2, 4, 1, 2), (1, 3, 3, 0, 0, 0, 0), (1, 2, 0, 2, 4, 1, 6), (1, 2, 3, 0, 0, 0, 0), (1, 3, 3, 0, 0, 0, 0)], {}, "chunk size 4 to 2 to 6 in the middle of a message", None),
    ("behind", [(1, 2, 0, 2, 4, 1, 2), (1, 4, 0, 2, 9, 9, 0), (1, 4, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0), (1, 5, 0, 2, 1, 8, 0)],
     dict(CS0=24), "chunk size 24 to 2 with more bytes behind it than a chunk of 2 needs", None),
    ("tiny", [(1, 2, 0, 2, 4, 1, 1), (1, 4, 0, 2, 3, 9, 0), (1, 5, 0, 2, 2, 8, 0), (1, 4, 3, 0, 0, 0, 0), (1, 5, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CS0=10), "chunk size 1, two chunk streams mixed", None),
    ("split", [(1, 4, 0, 2, 26, 9, 0), (1, 4, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0), (1, 2, 0, 2, 4, 1, 5), (1, 4, 3, 0, 0, 0, 0)], dict(CS0=8), "chunk size 8 to 5 with 24 bytes of a message already there", None),
    ("cutsize", [(1, 4, 0, 2, 6, 9, 0), (1, 2, 0, 2, 4, 1, 9), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=1), "chunk size 4 to 9 in mid-message, cut in two reads at every place", "thorough"),
    ("cutmixed", [(1, 4, 0, 3, 6, 9, 0), (1, 5, 0, 2, 5, 8, 0), (1, 4, 3, 0, 0, 0, 0), (1, 5, 3, 0, 0, 0, 0)], dict(CUTS=1), "two chunk streams mixed, cut in two reads at every place", "thorough"),
    ("cutshrink", [(1, 4, 0, 2, 5, 9, 0), (1, 2, 0, 2, 4, 1, 2), (1, 4, 3, 0, 0, 0, 0), (1, 4, 3, 0, 0, 0, 0)], dict(CUTS=1), "chunk size 4 to 2 in mid-message, cut in two reads at every place", "thorough"),
]
P("C01",
  *[Q("chunkin.c", "vf_chunks", name="vf_chunks_" + n, unwind=max(80, d.get("MAXS", 0) + 2), paths=1, fs=d.get("FS", 128), unwindset=["start.0:24"],
      defs=dict(dict(MAXS=6, CUTS=0), **d, CH=_ch(*c)), only=t, bounds=w + ", every payload")
    for n, c, d, w, t in CHUNKS],
  *[Q("chunkin.c", "vf_toobig", name=f"vf_toobig_{f}_{c}_{l}", unwind=30, paths=1, fs=128, unwindset=["start.0:24"],
      defs=dict(MAXS=72, WANT_DEAD=1, MAXMSG=6, LEN=l, CH=_ch((f, c, 0, 2, 6, 9, 0))), bounds=f"a message of {l} bytes on chunk stream {c} when max_message is 6 and max_streams 72")
    for f, c, l in ((2, 71, 4), (2, 71, 6), (1, 5, 7), (1, 5, 0xffffff), (2, 72, 4), (3, 72, 4), (3, 65599, 4))],
  *[Q("chunkin.c", "vf_refuse", name=f"vf_refuse_{f}_{l}", unwind=30, paths=1, fs=128, unwindset=["start.0:24"],
      defs=dict(MAXS=6, WANT_DEAD=1, MAXMSG=11, LEN=l, CH=_ch((1, 4, f, 2, 9, 9, 0))), bounds=f"a message of 9 bytes whose second chunk has a header of kind {f} and says it has {l}")
    for f in (0, 1) for l in (0, 3, 5, 11, 12, 0xffffff)])

P("C02",
  *[Q("chunkout.c", "vf_out", name="vf_out_%d_%d%d_%s" % (c, x, f, "".join(map(str, l))), unwind=20, paths=1,
      defs={"CSID": c, "EXT": x, "FIX": f, "LENS": ",".join(map(str, l)), "CS": 4, "MAXS": 70000},
      bounds=f"chunk stream {c}, {'extended' if x else 'plain'} timestamps, play_time_fix {'on' if f else 'off'}, payload buffers of {l} bytes, chunk size 4; every type, timestamp, message stream and payload",
      only=t)
    for c, x, f, l, t in [(3, 0, 1, (3, 4), None), (3, 1, 1, (3, 4), None), (3, 1, 0, (3, 4), None), (4, 0, 1, (0, 5), None), (63, 0, 1, (5,), None), (64, 0, 1, (5,), None), (64, 1, 1, (8,), None),
                          (319, 0, 1, (8,), None), (320, 0, 1, (5,), None), (320, 1, 1, (9,), None), (65599, 0, 1, (5,), None), (2, 0, 1, (0,), None), (70000, 0, 1, (5,), None),
                          (3, 1, 1, (1, 1, 1, 1, 1), "thorough"), (320, 1, 1, (4, 4), "thorough"), (64, 1, 0, (12,), "thorough")]],
  *[Q("chunkout.c", "vf_partial", name="vf_partial_%d_%s_%d_%d" % (m, "".join(map(str, l)), a, b), unwind=70, paths=1, fs=128,
      defs={"MERGE": m, "LENS": ",".join(map(str, l)), "QFROM": a, "QTO": b},
      bounds=f"messages of {l} bytes, up to {m} in one write, the first write takes {a} to {b} bytes",
      only=t)
    for m, l, a, b, t in [(1, (3, 2), 11, 17, None), (2, (3, 2), 11, 17, None), (1, (5, 2), 0, 40, "thorough"), (2, (5, 2), 0, 40, "thorough")]])

P("C05",
  Q("control.c", "vf_send", unwind=40, paths=1, bounds="every control message the server sends, every value, after a frame used for anything"),
  *[Q("control.c", "vf_receive", name=f"vf_receive_{k}_{n}", unwind=40, paths=1, defs={"KIND": k, "LEN": n}, bounds=f"every {('protocol', 'user')[k]} control message of {n} bytes in one buffer, every type of message and event")
    for k, ns in ((0, (0, 3, 4, 5)), (1, (0, 2, 5, 6, 9, 10, 12))) for n in ns])

P("C06",
  *[Q("control.c", "vf_aggregate", name="vf_aggregate_%s_%d_%d%s" % ("".join(map(str, l)), n, c, "e" if e else ""), unwind=n + 8, paths=1, defs=dict({"LENS": ",".join(map(str, l)), "AN": n, "CUT": c}, **({"EAT": 1} if e else {})),
      bounds=f"an aggregate of {n} bytes in buffers of {c} and {n - c}, message lengths {l}, every type, timestamp, stream and payload, every outcome of each message", only=t)
    for l, n, c, e, t in [((0,), 15, 7, 0, None), ((4,), 19, 13, 1, None), ((4,), 18, 11, 0, None), ((4,), 16, 15, 0, None), ((4,), 15, 11, 1, None), ((4,), 13, 2, 0, None), ((4,), 11, 11, 0, None), ((4,), 10, 5, 0, None), ((4,), 3, 1, 0, None), ((4,), 0, 0, 0, None),
                          ((0xffffff,), 24, 12, 0, None), ((0x10002,), 20, 12, 0, None), ((0x102,), 20, 12, 0, None), ((3, 2), 35, 14, 1, None), ((3, 2), 35, 17, 0, None), ((3, 2), 35, 18, 0, None), ((3, 2), 35, 33, 1, None), ((3, 2), 34, 31, 0, None), ((3, 2), 31, 16, 0, None),
                          ((3, 2), 30, 20, 0, None), ((3, 2), 28, 13, 1, None), ((3, 2, 4), 54, 35, 0, None), ((0, 0, 0), 45, 15, 1, None)]]
  + [Q("control.c", "vf_aggregate", name="vf_aggregate_all_%d_%d" % (n, c), unwind=43, paths=1, defs={"LENS": "3,2", "AN": n, "CUT": c}, bounds=f"an aggregate of {n} bytes in buffers of {c} and {n - c}, message lengths 3 and 2", only="thorough")
     for n in (35, 33, 30) for c in range(0, n, 2)])

AMFSUB = [("nginx-rtmp-module/ngx_rtmp_amf.c", r"^( +uint(?:16|32)_t +len);", r"\1 = 0;"), ("nginx-rtmp-module/ngx_rtmp_amf.c", r"name\[maxlen\]", "name[3]")]
AMFLIST = ("a string, a number and an object of four members", "an object of four members and an optional string", "a mixed array of four members and an array of two", "an array of two and a boolean")
AMFT = ("number", "boolean", "string", "object", "null", "null array", "mixed array", "end", "array")
AMFSKIP = ("pointer relation: pointer outside object bounds in pos + (signed long int)n",)   # compared, never followed
P("C03",
  *[Q("amf.c", "vf_deep", name="vf_deep_%d" % a, unwind=90, paths=1, fs=128, sub=AMFSUB, skip=AMFSKIP, defs={"ARRAYS": 1} if a else {}, bounds=f"75 {('objects', 'arrays')[a]} inside each other") for a in (0, 1)],
  *[Q("amf.c", "vf_read", name="vf_read_%d_%s_%d%d%d_%d%s" % (l, "".join("x" if x < 0 else str(x) for x in s), v, k, t, b, "t" if tr else ""), unwind=60, paths=1, fs=128, sub=AMFSUB, skip=AMFSKIP, timeout=400,
      defs={"LIST": l, "SEQ": ",".join(map(str, s)), "VALUES": v, "KEYS": k, "TYPES": t, "BS": b, "TRUNC": int(tr)},
      bounds=f"asked for {AMFLIST[l]}; sent {', '.join('any value' if x < 0 else AMFT[x] for x in s)}" + (f" with up to {v} value(s) of {t} kinds under {k} keys inside" if v else "")
             + f", every content, in buffers of {b} bytes" + (", cut off anywhere" if tr else ""), only=o)
    for l, s, v, k, t, b, tr, o in [
        (0, (2, 0, 3), 1, 5, 12, 5, 0, "thorough"), (0, (2, 0, 3), 1, 5, 6, 5, 0, None), (0, (2, 0, 6), 1, 2, 3, 64, 0, None), (0, (-1, 0, 3), 0, 0, 0, 5, 0, None), (0, (2, -1, 3), 0, 0, 0, 3, 0, None), (0, (2, 0, -1), 0, 0, 0, 5, 0, None),
        (1, (3, 2), 1, 5, 3, 5, 0, None), (1, (6,), 1, 2, 12, 3, 0, None), (1, (3, -1), 0, 0, 0, 64, 0, None), (2, (3, 8), 1, 1, 3, 5, 0, None), (2, (6, 8), 1, 1, 5, 64, 0, None),
        (3, (8, 1), 1, 1, 5, 5, 0, None), (3, (8, -1), 0, 0, 0, 5, 0, None), (0, (2, 0, 3), 1, 2, 1, 5, 1, None), (3, (8, 1), 1, 1, 1, 5, 1, None), (0, (2, 0, 3), 0, 0, 0, 7, 1, None),
        (0, (2, 0, 3), 2, 3, 3, 5, 0, "thorough"), (0, (2, 0, 3), 1, 2, 3, 5, 1, "thorough"), (1, (3, -1), 1, 5, 12, 5, 0, "thorough"), (2, (6, 8), 1, 5, 12, 5, 0, "thorough"), (3, (8, -1), 1, 5, 12, 5, 0, "thorough"), (3, (8, 8), 2, 2, 5, 5, 0, "thorough")]])

P("C04",
  *[Q("amf.c", "vf_write", name="vf_write_%d_%d_%d_%d" % (l, b, n, k), unwind=100, paths=1, fs=128, sub=AMFSUB, skip=AMFSKIP, defs={"LIST": l, "BS": b, "SLEN": n, "KEYLEN": k},
      bounds=f"a list with {('an object', 'a mixed array', 'an array')[l]}, strings of {n} bytes, a name of {k} bytes, chunk size {b}; every value", only=t)
    for l, b, n, k, t in [(0, 5, 3, 2, None), (0, 3, 0, 3, None), (0, 64, 1, 1, None), (0, 8, 2, 3, None), (1, 5, 3, 2, None), (1, 7, 9, 3, None), (1, 1, 2, 2, None), (2, 3, 3, 2, None), (2, 5, 0, 1, None), (2, 1, 1, 1, None), (2, 64, 9, 2, None)]
    + [(l, b, n, 3, "thorough") for l in (0, 1, 2) for b in (2, 4, 6, 9, 10, 13) for n in (1, 4, 8)]])

GOPSUB = OUTH + [("nginx-rtmp-module/ngx_rtmp_gop_module.c", r"cache\[\]", "cache[8]")]
GOPF = ("audio", "audio header", "video header", "key frame", "inter frame")
P("C09",
  *[Q("gop.c", "vf_gop", name="vf_gop_%s_%d_%d" % ("".join("x" if x < 0 else str(x) for x in s), ct, j), unwind=20, paths=1, sub=GOPSUB,
      defs=dict({"SEQ": ",".join(map(str, s)), "CT": ct}, **({"JOIN": j} if j >= 0 else {})),
      bounds="a cache of 5 frames, cache_time %d ms, frames 40 ms apart: %s%s" % (ct, ", ".join("any" if x < 0 else "close and publish again" if x == 9 else GOPF[x] for x in s), f"; a player joins at frame {j}" if j >= 0 else ""), only=t)
    for s, ct, j, t in [((-1, -1, -1), 100, -1, None), ((1, 2, 3, 4, 3, -1, -1), 100, -1, None), ((3, 4, 4, 3, 4, 4, 3, -1, -1), 100, -1, None), ((3, 4, 3, 3, -1, -1), 1, -1, None), ((0, 0, 1, 0, -1, -1), 100, -1, None),
                        ((0, 0, 1, 0, -1, -1), 10, -1, None), ((1, 1, 1, 1, 1, 1, 1, -1), 100, -1, None), ((2, 1, 2, 1, 2, 1, 3, -1), 100, -1, None), ((3, 4, 9, -1, -1), 100, -1, None), ((2, 1, 3, 9, 2, 3, -1), 100, 1, None),
                        ((1, 2, 3, 4, 3, -1, -1), 100, 0, None), ((1, 2, 3, 4, 3, -1, -1), 100, 2, None), ((3, 4, 3, 1, 3, 4, 3, -1), 100, 3, None), ((2, 3, 4, 0, 3, 0, 4, 3, 0, -1), 1, 2, None), ((2, 3, 4, 4, 4, 4, 4, -1), 100, 2, None),
                        ((-1, -1, -1, -1), 100, -1, "thorough"), ((-1, -1, -1, -1), 1, -1, "thorough"), ((2, 3, 4, 3, -1, -1, -1), 100, 2, "thorough"), ((-1, -1, -1, -1), 100, 1, "thorough"), ((3, 9, -1, -1, -1), 100, 0, "thorough")]])

P("C13",
  *[Q("hlsts.c", "vf_frame", name="vf_frame_%d%d_%d_%d" % (k, b, l0, l1), unwind=420, paths=1, fs=2100, defs={"L0": l0, "L1": l1, "KEY": k, "BF": b},
      bounds=f"{'key ' if k else ''}frames of {l0} to {l1 - 1} bytes, {'with' if b else 'without'} a decoding time of their own, every content, pid and stream id", only=t)
    for k in (0, 1) for b in (0, 1) for l0, l1, t in [(1, 3, None), (169 - 8 * k - 5 * b, 174 - 8 * k - 5 * b, None), (353 - 8 * k - 5 * b, 358 - 8 * k - 5 * b, None)] + [(l, l + 12, "thorough") for l in range(1, 373, 12)]],
  *[Q("hlsts.c", "vf_frame", name="vf_frame_stamps_%d%d_%d%s" % (k, b, l, "h" if h else ""), unwind=420, paths=1, fs=2100, defs=dict({"L0": l, "L1": l + 1, "KEY": k, "BF": b, "STAMPS": 1}, **({"HANDLE": 1} if h else {})),
      bounds=f"{'key ' if k else ''}frame of {l} bytes, every time stamp{', to a handler' if h else ''}") for k, b, l, h in [(1, 1, 20, 0), (1, 0, 5, 1), (0, 1, 200, 0), (0, 0, 171, 0)]],
  Q("hlsts.c", "vf_crc", unwind=40, bounds="every byte"),
  *[Q("hlsts.c", "vf_tables", name="vf_tables_%d_%d" % (v, a), unwind=420, paths=1, fs=2100, defs={"VC": v, "AC": a}, bounds=f"video codec {v}, audio codec {a}") for v in (0, 7, 12, 2) for a in (0, 2, 10) if (v, a) != (2, 0)],
  *[Q("hlsts.c", "vf_cipher", name="vf_cipher_%s" % p.replace(",", "_"), unwind=1300, paths=1, fs=2100, defs={"PIECES": p}, bounds=f"pieces of {p} bytes, every content", only=t)
    for p, t in (("5,16,3", None), ("16,15,1,33", None), ("188,188,188", "thorough"), ("1200", None), ("1", None), ("7,1100,20", "thorough"), ("188,188,188,188,188", "thorough"))],
  Q("hlsts.c", "vf_long", unwind=420, paths=1, fs=2100, bounds="frames of 65520 to 65700 bytes around the largest length, first packet"),
  Q("hlsts.c", "vf_fail", unwind=420, paths=1, fs=2100, bounds="every write that fails in the tables and in a frame of three packets"))

LIVESUB = [("nginx-rtmp-module/ngx_rtmp.h", r"(NGX_LIVE_(SERVERID|STREAM)_LEN +)512", r"\g<1>16")]
P("C10",
  *[Q("live.c", "vf_registry", name="vf_registry_%d%d_%s" % (pb, sb, "_".join("%03d" % x for x in s)), unwind=120, paths=1, fs=300, sub=LIVESUB, defs={"PB": pb, "SB": sb, "SEQ": ",".join(map(str, s))},
      bounds=f"{pb} and {sb} buckets; operations (kind, server, stream; 9 is any) {s}", only=t)
    for pb, sb, s, t in [(1, 2, (0, 200, 201, 1, 211, 300, 100, 999), None), (1, 1, (0, 10, 20, 100, 110, 999), None), (1, 1, (0, 10, 100, 110, 0, 210, 10, 999), None), (2, 1, (0, 200, 201, 202, 301, 203, 201, 999), None),
                         (1, 1, (0, 10, 200, 210, 300, 211, 310, 200, 999), None), (1, 2, (0, 200, 100, 20, 300, 999), None), (1, 1, (0, 200, 100, 0, 300, 999), None), (1, 1, (30, 0, 203, 100, 999), None), (2, 2, (999, 200), None),
                         (1, 1, (0, 200, 999, 999), "thorough"), (1, 1, (0, 10, 20, 110, 999, 999), "thorough"), (1, 2, (0, 10, 200, 211, 999, 399), "thorough")]])
P("C11",
  *[Q("live.c", "vf_sessions", name="vf_sessions_%s" % "_".join("%02d" % x for x in s), unwind=128, paths=1, fs=300, sub=LIVESUB, defs={"SESSIONS": 1, "SSEQ": ",".join(map(str, s))},
      bounds=f"three sessions; (command, session; 9 is any) {s}, then all end", only=t)
    for s, t in [((99,), None), ((0, 21, 50, 99), None), ((20, 0, 99), None), ((0, 20, 91), None), ((40, 20, 99), None), ((0, 21, 22, 51, 99), "thorough"), ((0, 1, 2, 51, 50, 99), None), ((0, 11, 22, 32, 99), None), ((20, 21, 22, 51, 99), "thorough"), ((90, 91), "thorough"),
                 ((0, 50, 1, 99), None), ((20, 1, 50, 90), None), ((99, 99), "thorough"), ((0, 99, 99), "thorough"), ((20, 0, 21, 99, 99), "thorough")]])

CODECSUB = [("nginx-rtmp-module/ngx_rtmp_codec_module.c", r"buf\[4096\]", "buf[12]")]
P("C12",
  *[Q("bits.c", "vf_bits", name=f"vf_bits_{n}_{w.replace(',', '_')}", unwind=40, defs={"LEN": n, "WIDTHS": w}, bounds=f"every {n} bytes, read as {w} bits") for n, w in [(4, "1,3,9,8,2"), (3, "7,16,2,1"), (2, "16,1"), (5, "5,6,4,24,4"), (1, "3,6,1")]],
  *[Q("bits.c", "vf_golomb", name=f"vf_golomb_{n}_{k}", unwind=60, defs={"LEN": n, "SKIP": k}, bounds=f"every {n} bytes, a code after {k} bits", only=t) for n, k, t in [(1, 0, None), (2, 0, None), (3, 3, None), (3, 7, None), (4, 0, "thorough"), (4, 5, "thorough")]],
  Q("bits.c", "vf_zeros", unwind=100, bounds="88 zeros and any byte"),
  *[Q("codec.c", "vf_avc", name=f"vf_avc_{p}", unwind=200, paths=1, fs=200, defs={"PROFILE": p}, bounds=f"H.264 profile {p}: every syntax element with up to 2 frames in its cycle") for p in (100, 66)],
  Q("codec.c", "vf_aac", unwind=200, paths=1, fs=200, bounds="types of AAC with and without extensions, every rate and channel"),
  *[Q("codec.c", "vf_hevc", name=f"vf_hevc_{k}", unwind=200, paths=1, fs=300, sub=CODECSUB, defs=d, bounds=f"H.265 parameter set {d}: every syntax element", only=t) for k, d, t in [
      ("esc", {"NAL": "0x42,1,0,0,3,1,9"}, None), ("escend", {"NAL": "0x42,1,5,0,0,3"}, None), ("three", {"NAL": "0x42,1,0,0,2,1"}, None), ("four", {"NAL": "0x42,1,0,0,3,4,1"}, None), ("nopair", {"NAL": "0x42,1,0,3,0,0,4,3"}, None),
      ("two", {"NAL": "0x42,1,0,0,3,0,0,3,3,0"}, None), ("type", {"NAL": "0x40,1,5,6"}, None), ("cut", {"NAL": "0x42,1,5,6,7", "HAVE": 4}, None), ("cut0", {"NAL": "0x42,1,5,6,7", "HAVE": 0}, None), ("say", {"NAL": "0x42,1,5,6,7", "SAY": 65535}, None),
      ("short", {"NAL": "0x42,1,5,6,7", "SAY": 1}, None), ("part", {"NAL": "0x42,1,0,0,3,9", "SAY": 5}, None), ("long", {"NAL": ",".join(["0x42", "1"] + ["7"] * 14)}, None), ("full", {"NAL": ",".join(["0x42", "1"] + ["7"] * 10)}, None),
      ("layers", {"NAL": "0x42,1,5,6", "MSLM": 1}, "thorough"), ("layers2", {"NAL": "0x42,1,5,6", "MSLM": 2}, "thorough")]],
  *[Q("codec.c", "vf_headers", name=f"vf_headers_{n}", unwind=200, paths=1, fs=200, defs={"STEPS": n}, bounds=f"{n} frames of every kind and length", only=t) for n, t in ((1, None), (2, "thorough"))],
  Q("codec.c", "vf_headers", name="vf_headers_dump", unwind=300, paths=1, fs=300, defs={"STEPS": 1, "DUMP": 1}, bounds="a frame of every kind and length, dumped to the log"))

RECSUB = [("nginx-rtmp-module/ngx_rtmp_cmd_module.h", r"#define NGX_RTMP_MAX_NAME +\d+", "#define NGX_RTMP_MAX_NAME 12")]
RECK = {0: "audio", 1: "audio header", 2: "video header", 3: "key frame", 4: "inter frame", 10: "record start", 11: "record stop", 12: "stream eof", 13: "stream begin", 14: "pause or go on"}
RECF = {6: "all", 2: "audio", 4: "video", 8: "keyframes", 10: "audio keyframes", 22: "all manual", 18: "audio manual"}
def REC(seq, flags=6, only=None, **d):
    n = "vf_record_%s_%d" % ("".join(str(x) if x < 10 else "abcde"[x - 10] for x in seq), flags) + "".join("_%s%s" % (k.lower(), v) for k, v in sorted(d.items()))
    return Q("record.c", "vf_record", name=n, unwind=260, fs=260, sub=RECSUB, only=only, defs=dict({"SEQ": ",".join(map(str, seq)), "RFLAGS": flags}, **d),
             bounds="record %s: %s; each of 4 bytes in two buffers, every content and time stamp%s" % (RECF[flags], ", ".join(RECK[x] for x in seq), "".join("; %s %s" % (k.lower(), v) for k, v in sorted(d.items()))))
P("C30",
  REC((1, 2, 3, 0, 4)), REC((0, 4, 3, 2, 3, 1)), REC((2, 1, 4, 0, 3, 4, 0)), REC((0, 3, 4, 0), AAC=0, H264=0), REC((2, 4, 0, 3), AAC=0, H264=0),
  REC((4, 0, 3, 0), KNOWN=3), REC((0, 4, 3, 1, 0), KNOWN=2), REC((1, 0, 3, 0), 2), REC((0, 3, 0), 2, KNOWN=3), REC((0, 3, 4, 3), 4, KNOWN=3), REC((0, 4, 2, 3, 4, 3), 8), REC((4, 3, 0, 3), 10, KNOWN=3),
  REC((3, 10, 4, 3, 0, 11, 3), 22, KNOWN=3), REC((0, 10, 0, 3, 0, 10, 11), 18, KNOWN=1), REC((3, 12, 4, 0, 13, 0, 3), KNOWN=3), REC((3, 12, 4, 3, 0), KNOWN=3), REC((3, 14, 4, 0, 14, 4), KNOWN=3),
  REC((3, 4, 0, 3, 4), KNOWN=3, MAXFRAMES=2), REC((3, 4, 0, 3, 4), KNOWN=3, MAXSIZE=110), REC((0, 3, 4, 0), AAC=0, APPEND=2), REC((3, 12, 13, 3), H264=0, APPEND=1), REC((3, 4, 3, 4), KNOWN=2, INTERVAL=1000),
  *[REC((3, 4, 0, 3), KNOWN=3, FAIL=f) for f in range(0, 12)])

FLVSUB = OUTH + RECSUB
FLVK = {8: "audio", 9: "video", 18: "meta", 15: "AMF3 meta", 4: "control", 2: "all is taken", 3: "the socket fails", 5: "too slow"}
def FLV(seq, m=2, av=3, has=3, only=None):
    return Q("httpflv.c", "vf_play", name="vf_play_%s_%d%d%d" % ("_".join(map(str, seq)), m, av, has), unwind=130, fs=260, sub=FLVSUB, only=only, defs={"SEQ": ",".join(map(str, seq)), "MERGE": m, "AV": av, "HAS": has},
             bounds="%s; up to %d messages in a write; every content and time stamp" % (", ".join(FLVK.get(x, "%d buffers are taken" % (x - 20)) for x in seq), m))
P("C31",
  FLV((18, 9, 23, 8, 21)), FLV((4, 20, 18, 2, 4, 4, 9, 2, 8, 4, 2), 1, 0, 1), FLV((9, 8, 9, 20, 24, 21, 8, 25), 3, 0, 2), FLV((8, 4, 9, 21, 26, 4, 4, 22, 8), 4, 0, 3), FLV((9, 22, 9, 24, 9, 22, 24), 1, 1, 0),
  FLV((15, 8, 4, 8, 25, 21, 22, 9), 2, 2, 0), FLV((9, 8, 22, 3), 2), FLV((9, 3), 1), FLV((8, 9, 9, 24, 5), 2), FLV((8, 24, 8, 3), 1), FLV((9, 8, 9, 8, 9, 8, 27, 25, 26), 3),
  *[Q("httpflv.c", "vf_url", name=f"vf_url_{n}", unwind=30, paths=1, sub=[(f, r, x.replace("12", "4")) for f, r, x in RECSUB] + OUTH, defs={"URILEN": n}, only=t,
      bounds=f"requests of {n} parts, each a slash, one or two letters or .flv; names of up to 3 bytes") for n, t in ((1, None), (2, None), (3, None), (4, "thorough"))])
