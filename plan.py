"""What each property's check runs: harness entry points and their parameters (bounds), per tier.

An item is (entry, [parameters], options); options: threads, steps (instruction limit of one path).
`quick` runs on every change; `thorough` runs the items of quick and its own.
The meaning of the parameters is documented at each entry point in harness/src.
"""


def J(entry, *params, **opt):
    return (entry, [int(p) for p in params], opt)


OPS = range(55)
READS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 29, 32, 33, 35, 36, 37, 38, 39, 40]
WIDE = (29, 37)  # values of 16 bytes
UNITS = [10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 31, 34] + list(range(41, 55))
SOME = [0, 2, 6, 8, 9, 11, 16, 18, 22, 23, 24, 28]
BCAST = list(range(10, 29)) + [30, 31, 34] + list(range(41, 55)) + list(range(100, 107))

PLAN = {}


def prop(pid, quick, thorough):
    PLAN[pid] = {"quick": quick, "thorough": thorough}


prop(
    "C01",  # wire format
    [J("h_tx_instruction", n) for n in range(0, 8)]
    + [J("h_tx_status", n) for n in range(0, 7)]
    + [J("h_tx_status_short")]
    + [J("h_tx_long", *x) for x in [(120, 4, 120), (250, 3, 0), (0, 3, 252), (244, 3, 0), (126, 2, 126)]]
    + [J("h_tx_twice", *x) for x in [(0, 0), (5, 2), (2, 5), (4, 4)]]
    + [J("h_big_tx", *x) for x in [(0, 64, 0, 0), (65, 250, 0, 5), (240, 262, 0, 0), (240, 262, 1, 0), (240, 262, 0, 10), (500, 516, 0, 0), (500, 516, 1, 200), (1018, 1024, 0, 600), (4094, 4095, 0, 0), (774, 780, 0, 0xFFFF), (300, 306, 1, 0xFFFF)]],
    [J("h_tx_instruction", n) for n in range(8, 13)]
    + [J("h_tx_status", n) for n in range(7, 12)]
    + [J("h_tx_long", *x) for x in [(100, 8, 100), (0, 8, 0), (3, 8, 240), (1, 6, 249), (2, 6, 248)]]
    + [J("h_tx_twice", 6, 6)] + [J("h_big_tx", *x, steps=60_000_000) for x in [(65, 600, 0, 0), (65, 600, 1, 5), (2040, 2050, 0, 1000), (8186, 8192, 0, 0), (32755, 32758, 0, 0)]],
)
prop(
    "C02",  # no header pattern in the body
    [J("h_tx_no_header", n, dev) for n in range(0, 8) for dev in (0, 1)],
    [J("h_tx_no_header", n, dev) for n in range(8, 13) for dev in (0, 1)],
)
prop(
    "C03",  # round trip
    [J("h_roundtrip_instruction", n) for n in range(0, 7)] + [J("h_roundtrip_status", n) for n in range(0, 7)]
    + [J("h_big_rx", *x) for x in [(0, 40, 0, 5, 0), (240, 260, 0, 0, 0), (240, 260, 1, 0, 7), (240, 260, 1, 100, 0), (240, 260, 0, 200, 16), (504, 514, 1, 0, 0), (1020, 1024, 0, 500, 64), (774, 780, 0, 0xFFFF, 0), (774, 780, 1, 0xFFFF, 50)]],
    [J("h_big_rx", *x) for x in [(40, 600, 0, 20, 0), (40, 600, 1, 0, 11), (4090, 4096, 0, 2000, 0)]]
    + [J("h_roundtrip_instruction", n) for n in range(7, 12)] + [J("h_roundtrip_status", n) for n in range(7, 12)],
)
prop(
    "C04",  # checksum
    [J("h_crc", n) for n in range(0, 17)] + [J("h_crc", 64)]
    + [J("h_crc_parts", n) for n in (1, 2, 5, 8)]
    + [J("h_crc_detect", n, k) for n in (1, 2, 3, 6, 10) for k in (0, 1, 2)],
    [J("h_crc", n) for n in (100, 200)] + [J("h_crc_parts", 16)]
    + [J("h_crc_detect", n, k) for n in (16, 24) for k in (0, 1, 2)],
)
prop(
    "C05",  # accepted iff valid
    [J("h_rx_stream", n, 32, 0, 4) for n in (4, 6, 7, 8, 9, 10)] + [J("h_rx_stream", 8, 32, 0, 0), J("h_rx_stream", 8, 12, 3, 4)]
    + [J("h_rx_stream_device", n, 32, 0, 4) for n in (4, 6, 7, 8, 9, 10)] + [J("h_rx_stream_device", 8, 12, 3, 4)]
    + [J("h_rx_body", n, d) for n in (2, 4, 7, 8, 9, 10, 11) for d in (0, 1)] + [J("h_rx_body", 1, 1)],
    [J("h_rx_stream", 12, 32, 0, 4), J("h_rx_stream_device", 12, 32, 0, 4), J("h_rx_stream", 16, 32, 0, 4, threads=8), J("h_rx_stream_device", 14, 32, 0, 4)]
    + [J("h_rx_stream", n, 32, 0, p) for n, p in [(12, 0), (12, 1), (12, 2), (12, 3)]]
    + [J("h_rx_body", n, d) for n in (13, 16) for d in (0, 1)],
)
prop(
    "C06",  # no panic, no hang
    [J("h_rob_op", op, n, 0, 4, 64) for op in SOME for n in (6, 8)]
    + [J("h_rob_op", 2, 8, m, 4, c) for m in (3, 5) for c in (0, 3, 7, 9, 10, 12, 16)]
    + [J("h_rob_op", 9, 10, 0, 4, 64), J("h_rob_op", 8, 10, 0, 4, 16), J("h_rob_op", 2, 8, 0, 0, 64)]
    + [J("h_sync_rob", n, k, 4, 0, t, 0) for k in range(4) for n, t in ((7, 1), (9, 3))]
    + [J("h_sync_rob", 8, k, 4, 0, 1, 1) for k in range(4)]
    + [J("h_dev_rob", 8, 4, 0, o, 64) for o in (0, 1)] + [J("h_dev_rob", 7, 4, 3, 0, c) for c in (0, 5, 9, 12)],
    [J("h_rob_op", op, 10, 0, 4, 64) for op in OPS] + [J("h_sync_rob", 11, k, 4, 0, t, 0) for k in range(4) for t in (0, 3)]
    + [J("h_dev_rob", 11, 4, 0, o, 64) for o in (0, 1)],
)
prop(
    "C07",  # chunking
    [J("h_rx_chunks", *x) for x in [(1, 2, 2, 0, 0), (2, 2, 2, 0, 0), (2, 1, 1, 3, 1), (3, 1, 1, 0, 0), (3, 1, 0, 1, 0), (2, 3, 1, 0, 5), (3, 1, 1, 0, 20)]]
    + [J("h_resume", *x) for x in [(1, 2, 1, 0), (2, 1, 3, 0), (2, 1, 4, 1), (1, 2, 2, 1), (2, 2, 20, 0), (2, 2, 20, 1)]],
    [J("h_rx_chunks", *x) for x in [(2, 4, 2, 0, 0), (3, 2, 2, 0, 0), (3, 2, 2, 0, 30), (3, 3, 1, 4, 2), (2, 2, 3, 0, 0)]]
    + [J("h_resume", *x) for x in [(3, 2, 3, 0), (3, 2, 3, 1), (2, 4, 5, 0)]],
)
prop(
    "C08",  # resynchronisation
    [J("h_rx_garbage", g, 1, e, m) for g in (1, 3, 5) for e, m in ((0, 0), (0, 3), (8, 0), (8, 5))] + [J("h_rx_garbage", 8, 1, 3, 0)]
    + [J("h_rx_burst", np, m) for np in (0, 1, 2) for m in (0, 5)]
    + [J("h_rx_badlen", j, e, m) for j in (0, 2, 4) for e, m in ((0, 0), (5, 0), (0, 3), (0, 6))],
    [J("h_rx_garbage", 12, 2, 3, 0), J("h_rx_garbage", 16, 1, 0, 7), J("h_rx_burst", 4, 0), J("h_rx_burst", 5, 4), J("h_rx_badlen", 8, 3, 0), J("h_rx_badlen", 8, 0, 5)],
)
prop(
    "C09",  # response matching
    [J("h_resp", op, d, 0) for op in OPS if op not in WIDE for d in (0, 1)] + [J("h_resp", op, 101, 0) for op in [0] + READS if op not in WIDE + (38, 40)]
    + [J("h_resp", op, d, 0) for op in SOME for d in (2, 3)] + [J("h_resp", op, 102, 0) for op in (0, 2, 6, 8, 9)]
    + [J("h_resp", 2, 0, m) for m in (3, 4, 7)]
    + [J("h_resp_instr", op) for op in SOME] + [J("h_resp_echo", op) for op in OPS] + [J("h_resp_cut", op) for op in SOME]
    + [J("h_transfer", 0, a, b) for a in range(3) for b in range(3)]
    + [J("h_motor_error"), J("h_error_checks")] + [J("h_big_read", *x) for x in [(0, 40, 0), (250, 260, 0), (250, 260, 1), (256, 262, 2), (510, 514, 0)]],
    [J("h_resp", op, 4, m) for op in OPS if op not in (4, 29, 33, 37) for m in (0, 5)] + [J("h_resp", op, 103, m) for op in (0, 3, 4, 6, 7, 8, 9, 33, 36, 39) for m in (0, 5)] + [J("h_resp_instr", op) for op in OPS] + [J("h_resp_cut", op) for op in OPS],
)
prop("C10", [J("h_broadcast", op) for op in BCAST], [])
prop(
    "C11",  # what each operation does
    [J("h_cmd", op) for op in OPS] + [J("h_resp", op, 0, 0) for op in [0] + READS if op not in WIDE]
    + [J("h_big_write", lo, hi, k, s) for k in (0, 1, 4, 5) for lo, hi, s in [(0, 8, 0), (246, 258, 1)]],
    [J("h_big_write", 60, 330, k, s) for k in (0, 1, 4, 5) for s in (0, 1)],
)
prop(
    "C12",  # multi-motor encoding
    [J("h_sync_read_tx", k, kind) for k in (0, 1, 2, 3) for kind in range(12)]
    + [J("h_sync_write_tx", k, kind) for k in (0, 1, 2) for kind in (0, 1, 4, 6, 7, 10, 11, 13)] + [J("h_sync_write_tx", 1, kind) for kind in (2, 3, 5)] + [J("h_sync_write_tx", 2, 5)]
    + [J("h_sync_write_len", k) for k in (1, 2)]
    + [J("h_bulk_read_tx", k, kind) for k in (0, 1, 2) for kind in range(2)]
    + [J("h_bulk_write_tx", *x) for x in [(0, 0, 0, 0), (1, 3, 0, 0), (2, 0, 2, 0), (2, 2, 1, 0), (3, 1, 0, 2)]]
    + [J("h_many_tx", k, 3, 4, 3) for k in range(6)] + [J("h_many_tx", k, 5, 9, 4) for k in range(6)]
    + [J("h_many_tx", k, 126, 129, 1) for k in range(4)] + [J("h_many_tx", k, 252, 257, 0) for k in range(6)]
    + [J("h_big_write", lo, hi, k, s) for k in (2, 3) for lo, hi, s in [(4, 12, 0), (252, 258, 1)]] + [J("h_bulk_write_huge", n) for n in (65528, 65535, 65536)],
    [J("h_bulk_read_tx", 3, kind) for kind in range(2)] + [J("h_sync_write_tx", 2, kind) for kind in (2, 3)] + [J("h_sync_write_tx", 3, kind) for kind in (0, 1, 11)] + [J("h_bulk_write_tx", 3, 3, 2, 1)]
    + [J("h_many_tx", k, 10, 60, 3) for k in range(6)] + [J("h_many_tx", k, 250, 260, 2) for k in range(4)] + [J("h_many_tx", k, 100, 253, 0) for k in range(6)] + [J("h_many_tx", 4, 30, 30, 4), J("h_bulk_write_huge", 65527)]
    + [J("h_big_write", 100, 104, k, s) for k in (2, 3) for s in (0, 1)],
)
prop(
    "C13",  # data
    [J("h_data", t) for t in range(18)] + [J("h_data_drop", t) for t in range(3)],
    [],
)
prop(
    "C14",  # device
    [J("h_dev_decode", n, 256, 0, o, 0) for n in range(0, 8) for o in (0, 1)]
    + [J("h_dev_decode", n, ins, 0, o, 0) for n in (8, 12) for ins in (0x92, 0x93, 0x8A, 0x83) for o in (0, 1)]
    + [J("h_dev_decode", 3, 256, pre, 0, 0) for pre in (1, 2)] + [J("h_dev_decode", 3, 256, 0, 0, m) for m in (3, 5)]
    + [J("h_dev_ops", op, o) for op in OPS for o in (0, 1)]
    + [J("h_dev_multi", k, o) for k in range(4) for o in (0, 1)]
    + [J("h_many_device", k, lo, hi, o) for k in range(4) for lo, hi in [(0, 8), (48, 53), (250, 253)] for o in (0, 1)],
    [J("h_dev_decode", n, 256, 1, o, 6) for n in (8, 9, 10) for o in (0, 1)],
)
prop(
    "C15",  # buffer sizes
    [J("h_buf_write", n, s) for n in range(0, 7) for s in (0, 1)] + [J("h_buf_read", n) for n in range(0, 5)]
    + [J("h_buf_new", d, n) for d in (0, 1) for n in (127, 128, 129, 130)]
    + [J("h_tx_huge", e, s, steps=60_000_000) for e, s in [(4, 0), (5, 0), (3, 1), (4, 1)]],
    [J("h_buf_write", n, s) for n in (7, 8, 9) for s in (0, 1)] + [J("h_buf_read", n) for n in (5, 6, 8)]
    + [J("h_tx_huge", e, s, steps=60_000_000) for e, s in [(0, 0), (6, 0), (0, 1), (7, 1)]],
)
prop(
    "C16",  # independence of history
    [J("h_hist", 2, op2, k, 0, 5) for op2 in (0, 2, 9, 11, 22) for k in range(7)]
    + [J("h_hist", op1, 2, k, 0, 5) for op1 in (0, 9, 16, 22, 28) for k in range(7)]
    + [J("h_hist", 2, 2, k, 5, 9) for k in range(7)]
    + [J("h_hist_iter", op2, t, k, a) for op2 in (0, 2, 11) for t in (0, 1) for k in range(3) for a in (0, 1, 2)]
    + [J("h_hist_device", *x) for x in [(0, 0, 0, 2), (3, 0, 0, 2), (4, 4, 0, 1), (5, 4, 6, 1)]]
    + [J("h_hist_fresh", op1, op2, kind, size, junk) for op1, op2 in [(0, 2), (2, 2), (9, 11), (22, 0)] for kind, size in [(0, 0), (1, 9), (2, 5), (3, 0)] for junk in (0, 2, 10)]
    + [J("h_hist_fresh_device", *x) for x in [(0, 0, 0), (4, 1, 6), (2, 2, 4), (3, 0, 0)]],
    [J("h_hist_fresh", op1, op2, kind, size, junk) for op1 in (0, 2, 9, 22) for op2 in (2, 9, 11, 22) for kind, size in [(0, 0), (1, 11), (2, 6), (3, 0)] for junk in (0, 5, 10, 12) if kind != 1 or junk < 12 or 9 not in (op1, op2)]
    + [J("h_hist_fresh_device", 4, k, n) for k, n in [(0, 0), (1, 10), (2, 7)]]
    + [J("h_hist", op1, op2, k, 0, 8) for op1 in (0, 2, 9, 11, 22) for op2 in (0, 2, 9, 11, 22) for k in range(7)],
)
prop(
    "C17",  # timeouts
    [J("h_time_op", op) for op in OPS] + [J("h_time_count", b, base, 256) for b in (0, 3, 9, 13) for base in (0, 65279)]
    + [J("h_time_explicit")] + [J("h_time_sync", k, b) for k in range(4) for b in (0, 3, 9, 13)],
    [J("h_time_count", b, base, 1024) for b in range(16) for base in (0, 32000, 64000)] + [J("h_time_sync", k, b) for k in range(4) for b in range(16)],
)
prop(
    "C18",  # multi-motor responses
    [J("h_sync_rx", 2, kind, d, 0, 0, 3) for kind in range(10) for d in (0,)]
    + [J("h_sync_rx", 1, kind, d, 0, 0, 2) for kind in range(10) for d in (0, 1)]
    + [J("h_sync_rx", 3, kind, 0, 0, 1, t) for kind in (0, 1, 3, 4, 5, 6, 7, 8) for t in (1, 4)]
    + [J("h_sync_rx", 2, kind, 0, 6, 1, 3) for kind in range(9)]
    + [J("h_sync_rx", 2, kind, 0, 5, 1, t) for kind in range(10) for t in (0, 1)]
    + [J("h_sync_rx", *x) for kind in (10, 11, 12, 13) for x in [(2, kind, 0, 0, 0, 3), (2, kind, 1, 0, 0, 3), (2, kind, 0, 5, 1, 3), (3, kind, 0, 0, 1, 1)]]
    + [J("h_sync_missing", 2, kind, m, t) for kind in range(3) for m in (0, 1) for t in (0, 1, 3)]
    + [J("h_sync_damaged", kind, how, t) for kind in range(3) for how in range(4) for t in (0, 1, 3)]
    + [J("h_many_rx", kind, k, t) for kind in range(3) for k, t in [(5, 6), (130, 129), (253, 252)]] + [J("h_many_rx", kind, 260, 257) for kind in (0, 1)],
    [J("h_sync_rx", 2, kind, 1, 0, 0, 3) for kind in range(9)] + [J("h_sync_rx", 3, 2, 0, 0, 1, t) for t in (1, 4)] + [J("h_sync_missing", 3, kind, m, t) for kind in range(3) for m in (1, 2) for t in (1, 4)],
)
prop(
    "C19",  # scan
    [J("h_scan", k, np, m, t) for k, np, m, t in [(0, 3, 0, 3), (1, 3, 0, 3), (2, 3, 0, 4), (1, 2, 0, 3), (1, 4, 0, 3), (2, 3, 5, 1), (2, 3, 5, 0)]]
    + [J("h_scan_damaged", k) for k in range(4)] + [J("h_scan_damaged_drop", k, t) for k in range(4) for t in range(3)],
    [J("h_scan", 3, 3, 0, 5), J("h_scan", 3, 3, 5, 2)],
)
prop("C20", [J("h_baud"), J("h_baud_unknown")], [])
prop("C21", [J("h_static", k) for k in range(1, 7)] + [J("h_static_irq", k) for k in range(4)], [J("h_static", 7), J("h_static_irq", 4), J("h_static_irq", 5)])
prop(
    "C22",  # the serial port of the crate serial2
    [J("h_port_read", 1, crate="port"), J("h_port_timeout_error", crate="port"), J("h_port_calls", crate="port"), J("h_port_new", crate="port"), J("h_port_deadline", crate="port")]
    + [J("h_port_error", k, crate="port") for k in range(1, 10)] + [J("h_port_open", k, crate="port") for k in range(4)]
    + [J("h_port_op", op, 2, 0, 1, crate="port") for op in range(5)] + [J("h_port_op", op, 1, 0, 1, crate="port") for op in range(5)] + [J("h_port_op", op, 2, 1, 1, crate="port") for op in (0, 2, 3)]
    + [J("h_port_scan", n, 0, crate="port") for n in (0, 1, 2)],
    [J("h_port_read", 0, crate="port", threads=8), J("h_port_op", 0, 2, 0, 0, crate="port", threads=8), J("h_port_scan", 3, 0, crate="port")]
    + [J("h_port_op", op, 3, n, 1, crate="port", threads=8) for op in (1, 2) for n in (0, 1)],
)
prop(
    "C24",  # the command line tool
    [J("h_cli", cmd, everyone, reply, 0, crate="cli") for cmd in range(10) for everyone in (0, 1) for reply in (0, 1, 2, 3, 4)]
    + [J("h_cli", cmd, 0, reply, 1, crate="cli") for cmd in (0, 1, 2, 3, 5, 6, 9) for reply in (0, 1, 2)]
    + [J("h_cli", 4, 0, 1, 2, crate="cli")] + [J("h_cli_scan", n, crate="cli") for n in range(3)]
    + [J("h_cli_bytes", *x, crate="cli") for x in [(5, 0, 8), (5, 60, 66), (5, 117, 117), (9, 0, 9), (9, 60, 66), (9, 110, 115)]]
    + [J("h_cli_completion", n, how, crate="cli") for n in (0, 3, 8) for how in (0, 1, 2)]
    + [J("h_cli_motor", n, cmd, crate="cli") for n, cmd in [(0, 1), (1, 0), (2, 3), (3, 2), (4, 6), (5, 9), (8, 3), (9, 1), (9, 4), (9, 5)]],
    [J("h_cli", 4, 0, 1, 1, crate="cli", threads=8)] + [J("h_cli", cmd, 0, reply, 1, crate="cli") for cmd in (4, 7, 8) for reply in (0, 2)]
    + [J("h_cli_motor", n, cmd, crate="cli") for n, cmd in [(3, c) for c in range(10) if c != 2] + [(9, c) for c in (2, 3, 8, 9)] + [(10, 7), (11, 1)]]
    + [J("h_cli_scan", 3, crate="cli")],
)
prop(
    "C23",  # faults of the serial port
    [J("h_fault_op", op) for op in OPS] + [J("h_encode_fail", k) for k in range(5)]
    + [J("h_sync_rob", 9, k, 4, 0, 3, 1) for k in range(4)] + [J("h_fault_multi", k) for k in range(14)] + [J("h_fault_device", k) for k in (0, 1)],
    [J("h_sync_rob", 10, k, 4, 5, 3, 1) for k in range(4)],
)
prop("C25", [J("h_text", k) for k in range(8)], [])
BUS = range(29)
HEAVY = {3, 4, 5, 6, 14, 15, 28}  # operations with many paths


def many(a, b):
    """Pairs of operations for the thorough tier only."""
    return {a, b} <= HEAVY or not {a, b}.isdisjoint({14, 15, 28}) and {a, b}.isdisjoint({0, 2, 7, 9, 20, 22, 24})


prop(
    "C26",  # client and devices of the library on one bus
    [J("h_bus", k, op, 99, 99, (op + k) % 4 + 4 * [0, 1, 7, 20][op % 4], 0) for k in (1, 2, 3) for op in BUS]
    + [J("h_bus", 2, a, b, 99, (5 * a + b) % 4 + 4 * [0, 9][(a + b) % 2], 1, threads=2) for a in BUS for b in BUS if not many(a, b)]
    + [J("h_bus", 2, 6, a, b, (a + b) % 4, 1, threads=2) for a in BUS for b in (22, 23) if a not in HEAVY],
    [J("h_bus", 2, a, b, 99, 4 * ((a + b) % 2), 1, threads=4) for a in BUS for b in BUS if many(a, b)]
    + [J("h_bus", 3, a, b, 99, (5 * a + b) % 4 + 4 * [0, 9][(a + b) % 2], 1, threads=4) for a in BUS for b in BUS if {a, b}.isdisjoint({14, 15, 18, 28}) and (a + b) % 3 == 0]
    + [J("h_bus", 2, a, b, c, (a + b + c) % 4, 1, threads=4) for a in BUS for b in BUS for c in BUS if (a + 3 * b + 5 * c) % 31 == 0 and len({a, b, c} & (HEAVY | {18})) < 2],
)
