"""The properties in words.  gen.py turns this into properties.jsonl, MANIFEST.json."""
R = "modules/nginx-rtmp-module/"
T = "modules/nginx-toolkit-module/"
M = "modules/nginx-multiport-module/"
C = "modules/nginx-client-module/"
S = "modules/nginx-ts-module/src/"
NOTEST = "no existing test runs this code at all"

META = {}


def D(pid, title, statement, over, text, why, files, mech, state=(), observe=(), na=None, note=""):
    META[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                     mech=mech, state=state, observe=observe, na=na, note=note)


D("C17", "Ordered map answers lookups and neighbour queries",
  "A map returns for every key exactly the value last stored under it and not since deleted, and nothing for other keys. "
  "Smallest, largest, next and previous entry queries agree with the order of the stored keys. "
  "Storing and deleting one key leaves every other entry as it was.",
  ["inputs", "histories"], "every key, every hash collision pattern, every valid map of up to 4 entries and one operation on it",
  "the tests insert a fixed list of keys; collisions and deletions in every tree shape are not reached",
  [T + "ngx_map.c", T + "ngx_map.h"],
  [("insert, delete, find", T + "ngx_map.c"), ("begin, rbegin, next, prev", T + "ngx_map.c")],
  [("nodes", "hash buckets and ordered tree of the same entries", T + "ngx_map.h")])

D("C20", "URL parsing splits scheme, host, port, path, args and fragment",
  "Every request url is either refused or split into scheme, user part, host, port, path, arguments and fragment that, put together again with their separators, give the text that was parsed. "
  "A missing port is the default port of the scheme; a port text that is not a number from 1 to 65535 is never turned into a usable port. "
  "Nothing outside the url text is read.",
  ["inputs"], "every url of up to 11 bytes (thorough 13)",
  "the tests parse a dozen literal urls; separators in unusual order or in the last byte are not among them",
  [T + "ngx_toolkit_misc.c", T + "ngx_toolkit_misc.h"],
  [("request url parser", T + "ngx_toolkit_misc.c"), ("default ports", T + "ngx_toolkit_misc.c")])

D("C22", "Per-worker listen address and worker slot lookup",
  "For every configured multiport address and worker slot 0-127 the derived listen address keeps the host part and has exactly the base port plus the slot (or the unix path plus a dot and the slot), and an address with no usable port in range is refused. "
  "Looking up a worker gives the slot of the process that currently runs as this worker, and none when there is none; an old process that exits after its replacement started does not take the replacement's entry away.",
  ["inputs", "histories"], "every port text of up to 6 digits and the largest numbers, every slot, every worker count up to 160",
  "the tests run one configuration with a handful of workers",
  [M + "ngx_multiport_misc.c", M + "ngx_process_slot_module.c"],
  [("address derivation", M + "ngx_multiport_misc.c"), ("slot registration", M + "ngx_process_slot_module.c")],
  [("process_slot", "slot of each worker, in shared memory", M + "ngx_process_slot_module.c")])

D("C23", "Every published stream has one owning worker across workers",
  "Among all workers a stream name is owned by at most one worker: the first to publish it, until that worker unpublishes it or exits. "
  "A publish by anyone else is told who the owner is, an unpublish by a worker that does not own the stream changes nothing, and the capacity freed by unpublish or exit can be used again. "
  "This also holds when two workers call at the same moment.",
  ["histories", "schedules"], "every history of 4 operations (thorough 5) by 2 workers over 3 names, every placement of one preemption at a lock boundary",
  "the tests start one set of workers and never race two publishes or exhaust the zone",
  [M + "ngx_stream_zone_module.c"],
  [("bucket and zone locks", M + "ngx_stream_zone_module.c"), ("clear on worker start and exit", M + "ngx_stream_zone_module.c")],
  [("stream_node", "owner slot of each published name, in shared memory", M + "ngx_stream_zone_module.c")])

D("C18", "A pooled chain buffer belongs to one user at a time",
  "A chain buffer obtained from the pool is empty, is at least as large as asked for, and carries no flag or content position of an earlier user. "
  "It is given to nobody else until its user puts it back; putting the same buffer back twice does not make it available twice. Memory that was put back is used again, and the counters tell what is in use.",
  ["histories"], "every history of 4 gets and puts (thorough 6) over 3 users, 2 sizes and shared buffers, including repeated puts; 5 fixed histories of up to 17 steps over 4 sizes with any use in between",
  "the tests get and put in one fixed order and look only at counters",
  [T + "ngx_rbuf.c", T + "ngx_rbuf.h"],
  [("get and put of chain buffers", T + "ngx_rbuf.c")],
  [("ngx_rbuf_map, free lists", "buffers by size and the unused ones", T + "ngx_rbuf.c")])

D("C19", "Timer and pool bookkeeping follows what is armed and alive",
  "The timer ledger lists exactly the timers that are armed: arming adds an entry, cancelling by its owner or firing removes it, and a timer event fires with its own event and handler, marked timed out. "
  "A cancel by anybody but the owner of the timer changes nothing. "
  "The pool ledger lists exactly the pools that were created and not yet destroyed; destroying a pool twice changes nothing.",
  ["histories"], "every history of 3 timer steps (thorough 5) over 2 timers, of 5 pool steps (thorough 6) over 3 users",
  NOTEST,
  [T + "ngx_timerd.c", T + "ngx_timerd.h", T + "ngx_poold.c", T + "ngx_poold.h"],
  [("add, del and fire of debug timers", T + "ngx_timerd.c"), ("create and destroy of debug pools", T + "ngx_poold.c")],
  [("ngx_timerd_map", "armed timers", T + "ngx_timerd.c")])

D("C24", "Access rules decide who may publish and play",
  "A client is refused to publish or play exactly when the first rule that names its address and this action is a deny rule; the rules of the application come before those it inherits. "
  "With no such rule the action is allowed. An IPv4 client that arrives over IPv6 is matched by the IPv4 rules.",
  ["inputs"], "up to 2 rules (thorough 3) of any network, each allow or deny for publish, play or both; every client address",
  NOTEST,
  [R + "ngx_rtmp_access_module.c"],
  [("matching of rules", R + "ngx_rtmp_access_module.c"), ("inheritance of rules", R + "ngx_rtmp_access_module.c")])

D("C25", "At most max_connections RTMP clients are served at a time",
  "With max_connections set, an RTMP client that connects is served if fewer than max_connections RTMP clients are connected to all workers together, and is disconnected otherwise. "
  "A client stops counting when it disconnects, whatever way its session ends, and only then; sessions that never counted, such as refused clients and players over HTTP, do not change the count. "
  "Without max_connections every client is served. Ending a session twice closes its connection once.",
  ["inputs", "histories"], "any count of clients before, any limit, every history of 2 steps (thorough 4) of 2 clients and sessions over HTTP",
  "the tests set no limit",
  [R + "ngx_rtmp_limit_module.c", R + "ngx_rtmp_init.c"],
  [("limit on connect and disconnect", R + "ngx_rtmp_limit_module.c"), ("session start and end", R + "ngx_rtmp_init.c")],
  [("nconn", "clients connected, in shared memory", R + "ngx_rtmp_limit_module.c")],
  note="Event dispatch itself (ngx_rtmp_fire_event) is written out in the harness.")

D("C26", "The client address comes from a well formed PROXY header only",
  "On a listener with proxy_protocol a connection is served only if it starts with the text PROXY; the header line is consumed up to its line end and not one byte of what follows it. "
  "With a TCP4 or TCP6 header the session has the source address the header names, and with UNKNOWN it keeps the address of the connection. "
  "A malformed header ends the session.",
  ["inputs"], "every first 20 bytes of a connection (thorough 40)",
  NOTEST,
  [R + "ngx_rtmp_proxy_protocol.c"],
  [("header parsing", R + "ngx_rtmp_proxy_protocol.c")])

D("C01", "Chunks are put together into the messages the peer sent",
  "However the peer splits and mixes the chunks of its messages over chunk streams, and however the network cuts the bytes, each message reaches its handler once, complete, in the order the last chunks arrive, with the type, message stream, timestamp and payload the peer sent, and nothing else is handed over. "
  "This includes headers of 1 to 3 bytes for the chunk stream, message headers of all four kinds, extended timestamps, empty messages and a set chunk size that comes in the middle of other messages. "
  "A chunk stream number that is not below max_streams, a message longer than max_message, a second header that makes a message shorter than what is already there, or a chunk size of 0 or above 2^31-1 ends the session.",
  ["inputs", "histories"], "up to 7 chunks on 2 chunk streams with messages of up to 26 bytes and chunk sizes of 1 to 24, in one read, cut in two at every place, or byte by byte; every payload and timestamp",
  "the tests play whole streams through one client implementation over a fast connection, which makes few of these splits",
  [R + "ngx_rtmp_handler.c", R + "ngx_rtmp_shared_module.c"],
  [("chunk parsing", R + "ngx_rtmp_handler.c"), ("change of chunk size", R + "ngx_rtmp_handler.c")],
  [("in_streams", "unfinished message of each chunk stream", R + "ngx_rtmp.h"), ("in_chunk_size", "size of chunks the peer sends", R + "ngx_rtmp.h")],
  note="Which chunks follow each other is fixed per query; payload bytes, timestamps and where reads are cut are symbolic. The reading of a message whose first header was of kind 3 after an extended timestamp is left out.")

D("C02", "Messages are written as chunks any RTMP peer can put together",
  "What is written for a message is a chunk with full header that carries its chunk stream, timestamp, length, type and message stream, followed by chunks of at most the announced chunk size, which together carry exactly the payload. "
  "The chunk stream number uses the form of 1, 2 or 3 bytes it needs, timestamps of 0xffffff and more are sent as extended ones, and with play_time_fix they are repeated in the later chunks. "
  "Whatever part of it the socket takes at a time, the peer gets each byte once and in order.",
  ["inputs", "histories"], "chunk size 4, payloads of up to 12 bytes in up to 5 buffers, every type, timestamp and message stream, chunk streams at each border of the three forms; two messages written in two parts cut anywhere",
  "the tests read streams with one client and never make the socket take a part of a message",
  [R + "ngx_rtmp_handler.c", R + "ngx_rtmp_shared_module.c"],
  [("chunk headers", R + "ngx_rtmp_handler.c"), ("partial writes", R + "ngx_rtmp_handler.c")])

D("C07", "The output queue delivers in order and drops whole messages only",
  "Messages accepted for a session leave it in the order they were accepted, each once and complete, however the socket takes them and however many are merged into one write. "
  "A message is refused only when the queue is full, or when its priority is too low for the fill of the queue, and a refused message leaves no trace and no reference. "
  "Each accepted message is released exactly once, after its last byte was taken.",
  ["inputs", "histories"], "one message into any queue of up to 64 slots with any fill; every way the socket takes up to 8 messages from a queue of 4",
  "the tests have players that read faster than the stream comes, so the queue stays almost empty",
  [R + "ngx_rtmp_handler.c"],
  [("queue, priority and drop", R + "ngx_rtmp_handler.c"), ("merge and partial writes", R + "ngx_rtmp_handler.c")],
  [("out, out_pos, out_last", "frames to be sent to one session", R + "ngx_rtmp.h")])

D("C08", "A shared frame lives while somebody holds it and keeps its content",
  "A frame built from buffers holds exactly their bytes in order, cut into buffers of the chunk size. "
  "It and its buffers stay as they are until the last holder releases it, are then given back exactly once, and a frame used again carries nothing of its previous message. This holds for RTMP and for MPEG-TS frames.",
  ["inputs", "histories"], "every content of 2 buffers of up to 4 bytes; every history of 5 (thorough 7) allocate, share and release steps over 2 frames",
  NOTEST,
  [R + "ngx_rtmp_shared_module.c"],
  [("allocation and reference count", R + "ngx_rtmp_shared_module.c"), ("append", R + "ngx_rtmp_shared_module.c")],
  [("ref", "holders of a frame", R + "ngx_rtmp.h")])

D("C05", "Control messages carry what they say, in both directions",
  "Every protocol and user control message the server sends is one message on chunk stream 2 and message stream 0 with no timestamp, with the type, event and values it was asked to send, high byte first, and is released after it was queued. "
  "A control message received sets exactly the chunk size, window or buffer length it carries, or raises exactly the event it names with its values; a ping is answered with its own time. "
  "Messages too short for their values change nothing, and an invalid chunk size is an error.",
  ["inputs"], "every value of every message sent; every message received of up to 12 bytes in one buffer",
  "the tests see the few control messages one client sends, with typical values",
  [R + "ngx_rtmp_send.c", R + "ngx_rtmp_receive.c"],
  [("create control messages", R + "ngx_rtmp_send.c"), ("control message handlers", R + "ngx_rtmp_receive.c")],
  note="Chunk sizes below 16 and control messages split over buffers are left out.")

D("C06", "An aggregate is handed over as the messages it contains",
  "Each message inside an aggregate message reaches its handler once and in order with its own type, length, message stream and payload, and a timestamp that is the time of the aggregate plus the distance from its first message. "
  "An aggregate that is cut short, says more than it holds, or contains an aggregate is an error, after the whole messages before it were handed over. The error of a handler ends it. Its buffers are left as they were.",
  ["inputs"], "up to 3 messages with up to 54 bytes in 2 buffers, every content, every outcome of each handler",
  NOTEST,
  [R + "ngx_rtmp_receive.c"],
  [("aggregate handler", R + "ngx_rtmp_receive.c")],
  note="Message lengths and where the buffers end are fixed per query, all other bytes are symbolic.")

D("C03", "AMF from a peer is read as it was sent and never beyond it",
  "Reading a list of values from an AMF0 message stores exactly the values the peer sent for what is asked, cut to the room there is and terminated, whatever else the message contains; values of another type and unknown members are skipped and leave what was asked for alone. "
  "A message that ends early or is malformed is an error or, where a value is optional or an object is not finished, ends the list. No byte outside the message is read and none outside the values is written.",
  ["inputs"], "lists of numbers, booleans, strings, objects, arrays and variants; messages of 3 values with one more value inside (thorough 2), every kind of value, every content, cut off anywhere, in buffers of 3 to 64 bytes",
  "the tests send well formed commands of one client",
  [R + "ngx_rtmp_amf.c", R + "ngx_rtmp_receive.c"],
  [("AMF reader", R + "ngx_rtmp_amf.c")],
  note="Which kinds of values follow each other is enumerated by the path search, their bytes are symbolic. Debug logging of AMF is left out. Two uninitialised locals get a value and the array for names a fixed size so that the search folds; the property does not depend on either.")

D("C04", "AMF that is written is AMF that is read",
  "A message made from a list of values is the AMF0 encoding of these values, numbers and integers high byte first, objects and arrays with all their members in order and their end, cut into buffers of the chunk size that are full but for the last, with the header it was given. "
  "Reading it back gives the values that were written, whatever the chunk size.",
  ["inputs"], "every value of lists with a string, number, boolean, null, integers and an object, mixed array or array; strings of 0 to 9 bytes, chunk sizes 1 to 64",
  "the tests use the default chunk size, which is larger than any command",
  [R + "ngx_rtmp_amf.c", R + "ngx_rtmp_send.c", R + "ngx_rtmp_receive.c"],
  [("AMF writer", R + "ngx_rtmp_amf.c"), ("AMF messages", R + "ngx_rtmp_send.c")],
  note="The shape of the list is fixed per query. Debug logging of AMF is left out.")

D("C09", "The cache of a stream lets a new player start at a key frame",
  "With cache_time set, the cache of a published stream holds frames in the order of the stream, starts its pictures with a key frame, has every frame since the last key frame as long as there is room, and keeps the last audio and video headers. "
  "It holds each frame once, gives it back once when it is dropped, and gives everything back when the stream is closed, after which it can be published again. "
  "A player is only ever given frames that are alive.",
  ["histories"], "up to 10 frames of audio, video, key frames and headers into a cache of 5, cache times below, near and above their distance, players that join at several points",
  "the tests never close and republish on one connection and are too short to wrap the cache",
  [R + "ngx_rtmp_gop_module.c"],
  [("cache and drop", R + "ngx_rtmp_gop_module.c"), ("close of the stream", R + "ngx_rtmp_gop_module.c")],
  [("ngx_rtmp_gop_ctx_t", "frames cached by the publisher", R + "ngx_rtmp_gop_module.c")],
  note="fix_timestamp is 0 and low_latency off. The order in which a player gets the cached frames is not claimed: the code sends frames again when a frame before the first key frame is not cached, and a group longer than out_queue is not dropped until the stream is closed.")

D("C13", "A transport stream file is whole packets that carry each frame exactly",
  "A file for HLS or records begins with a program table and a stream table with correct checksums that name the pids and types of the codecs of the stream. "
  "Each frame is written as whole packets of 188 bytes with its pid, a marked start, counters that go on without a gap, a clock for key frames, its presentation and decoding time, and exactly its payload; the rest is stuffing. "
  "An encrypted file is the encryption of exactly this content, padded to whole blocks. A write that fails is an error and leaves no file open that was not handed over.",
  ["inputs"], "frames of 1 to 2 bytes and of the lengths where the first and second packet become full (thorough 1 to 372), every content, pid and time; every pair of codecs; pieces of up to 1200 bytes through the cipher",
  NOTEST,
  [R + "hls/ngx_rtmp_mpegts.c"],
  [("packets of a frame", R + "hls/ngx_rtmp_mpegts.c"), ("program tables", R + "hls/ngx_rtmp_mpegts.c"), ("encryption of a file", R + "hls/ngx_rtmp_mpegts.c")],
  note="AES is replaced by a cipher that marks each block with its position. A write that takes only a part of its bytes is not considered.")

D("C10", "The registry knows exactly the servers and streams that are alive",
  "A server is found from its creation until it is deleted and its last stream has gone, and the same name gives the same server until then. A stream is found under its server from its creation to its deletion, is new and empty when it is made, and is the same one for everyone who asks for it. "
  "No two of them share memory, whatever names fall into one bucket, and memory given back is used again before more is asked for. A name that is too long and a stream of an unknown server are refused and change nothing.",
  ["histories"], "up to 9 operations on 3 servers and 3 streams each and on names too long, 1 or 2 buckets",
  NOTEST,
  [R + "ngx_live.c", R + "ngx_live.h", R + "ngx_rtmp.h"],
  [("create, fetch and delete", R + "ngx_live.c"), ("lists of free servers and streams", R + "ngx_live.c")],
  [("ngx_live_conf_t", "buckets, free lists and counters", R + "ngx_live.h")],
  note="The room for names is cut to 16 bytes. The histories are fixed but for their last operation (thorough: last two).")

D("C11", "A stream lives as long as sessions publish or play it",
  "A stream is made with the first session that publishes or plays it and goes with the last, and its lists hold exactly the sessions in it, each once, as publisher or player. "
  "The start is told for each session that joins, the end once by the last one, and only then does a stream that belongs to this process leave the shared zone. A second publish, play or close of a session changes nothing; a session whose stream cannot be made is refused.",
  ["histories"], "three sessions that publish, play and close two streams or one with a name too long, up to 6 commands, then all end",
  "the tests have one publisher and one player",
  [R + "ngx_rtmp_cmd_module.c", R + "ngx_live.c"],
  [("publish, play and close", R + "ngx_rtmp_cmd_module.c"), ("lists of a stream", R + "ngx_live.c")],
  [("ngx_live_stream_t", "publishers and players", R + "ngx_rtmp.h")],
  note="The modules that publish, play and close go on to are counters. Sessions of relays are left out. The room for names is cut to 16 bytes.")

D("C12", "Audio and video headers are understood and never read beyond",
  "From the header of AAC, H.264 or H.265 of a publisher its profile, level, rate, channels and the size of its pictures are exactly those its syntax elements say, its escapes removed. "
  "Bits are read in order and never beyond the message: a header that is cut off, too long or says more than it holds is an error or says nothing, and always ends. "
  "The last header of audio and of video is kept, others are given back once, all with the session.",
  ["inputs"], "every value of the syntax elements of one parameter set, up to 2 frames in a cycle, no scaling lists; units of up to 16 bytes; every content of up to 3 bytes (thorough 4) for the reader of bits",
  "the tests publish one H.264 stream",
  [R + "ngx_rtmp_codec_module.c", R + "ngx_rtmp_bitop.c"],
  [("headers of audio and video", R + "ngx_rtmp_codec_module.c"), ("reader of bits", R + "ngx_rtmp_bitop.c")],
  note="The parsers run on a list of syntax elements in place of the reader of bits, which is decided on its own. Escapes inside H.264 parameter sets, its scaling lists and 4:4:4 cropping are not claimed: the code ignores them. The room for a parameter set is cut to 12 bytes. Meta data is left out.")

D("C30", "A recorded file is an FLV file of the frames that were to be recorded",
  "A record is an FLV header and then, in order, one tag for each frame of the kinds that are recorded, with its type, length, time since the first one and exactly its payload, followed by the size of the tag. "
  "The audio and video headers known come before other frames of their codec and pictures start with a key frame; on close its header tells what was recorded. "
  "The record is closed, once, when the stream ends, it is stopped by hand, or its number of frames, size or interval is reached, and nothing is recorded while paused. An appended record goes on where it ended, in place and in time. "
  "A write that fails closes the record and no more frames are written to it.",
  ["inputs", "histories", "faults"], "up to 7 frames and commands in 22 fixed orders under 7 settings of what to record, every content and time; any one of 12 writes fails",
  "no test reads a record",
  [R + "ngx_rtmp_record_module.c"],
  [("frames and files of a record", R + "ngx_rtmp_record_module.c")],
  [("ngx_rtmp_record_rec_ctx_t", "what the record has so far", R + "ngx_rtmp_record_module.h")],
  note="The file is a model: an array that is opened, written to, read and closed. Left out: a size that the codec headers themselves reach, appending to a file that is no FLV file, what the header of an appended file tells of its earlier part, suffixes with a date, more than one recorder.")


D("C31", "A player over HTTP gets an FLV file of the stream",
  "The answer to a player over HTTP-FLV has one head and then an FLV header that says what is configured, or else what the stream has. It goes on, in order, with one tag for each audio, video and metadata message: its type, length, time and payload, then the size of the tag. "
  "Other messages are left out, and nothing is lost, repeated or cut however the socket takes the data. Frames and buffers are given back once. A player whose connection fails, or that is behind for too long, is ended once, with the reason. "
  "Application and stream are those of the URL; a URL without them or with too long a name is refused.",
  ["inputs", "histories", "faults"], "up to 9 messages and events of the socket in 11 fixed orders, every content and time; every URL of up to 3 parts (thorough 4)",
  "the tests play one stream with a socket that takes everything",
  [R + "http/ngx_http_flv_live_module.c"],
  [("head, tags and the queue of a player", R + "http/ngx_http_flv_live_module.c"), ("merging of frames", R + "ngx_rtmp_shared_module.c")],
  [("ngx_rtmp_session_t", "frames not sent yet", R + "ngx_rtmp.h")],
  note="nginx's output filter is a model that keeps what the socket does not take. Left out: chunked answers, the request's headers, MPEG-TS over HTTP.")
