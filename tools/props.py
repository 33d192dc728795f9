"""Which scenarios decide which property. mix: scenario -> weight; group: scenario source file(s) linked into the binary."""
QUICK_S = 30        # seconds of search in a quick check
THOROUGH_S = 600    # ... in a thorough one

ASYNC, QUEUE, FILES, CONSOLES, REGISTRY, TIMING, RESOURCES = ["async"], ["queue"], ["files"], ["consoles"], ["registry"], ["timing"], ["resources"]
PROPS = {
    "P01": dict(groups=ASYNC, mix={"async_once": 10, "async_report": 3, "async_oom": 4}),
    "P02": dict(groups=ASYNC, mix={"async_order": 10}),
    "P03": dict(groups=ASYNC, mix={"async_flush": 10}),
    "P04": dict(groups=ASYNC, mix={"async_once": 4, "async_order": 2, "async_flush": 4, "async_life": 2, "async_report": 2, "async_oom": 4}, classes=["deadlock", "no-progress", "hang", "memory-exhausted"]),
    "P05": dict(groups=ASYNC, mix={"async_life": 10, "async_oom": 3}),
    "P06": dict(groups=ASYNC, mix={"async_fidelity": 10}),
    "P07": dict(groups=QUEUE, mix={"queue_bounded": 10}),
    "P08": dict(groups=QUEUE, mix={"queue_lockfree": 10, "queue_wait": 6, "queue_sema": 4}),
    "P09": dict(groups=CONSOLES, mix={"console_lines": 10, "console_errors": 5}),
    "P10": dict(groups=FILES, mix={"file_durable": 10, "file_sync": 5}),
    "P11": dict(groups=FILES, mix={"file_rolling": 10}),
    "P12": dict(groups=FILES, mix={"file_errors": 10}),
    "P13": dict(groups=FILES, mix={"file_open": 5, "file_dirs": 5}),
    "P14": dict(groups=REGISTRY, mix={"backtrace": 10}),
    "P15": dict(groups=REGISTRY, mix={"reg_linear": 10, "reg_default": 5}),
    "P16": dict(groups=REGISTRY, mix={"reconfig": 10}),
    "P17": dict(groups=TIMING, mix={"periodic": 10, "flush_every": 10}),
    "P18": dict(groups=TIMING, mix={"pattern": 10, "report_time": 2}),
    "P19": dict(groups=REGISTRY, mix={"factory": 10}),
    "P20": dict(groups=ASYNC, mix={"async_report": 10, "async_oom": 4}),
    "P22": dict(groups=RESOURCES, mix={"conserve": 10, "bounded": 5}),
    "P21": dict(groups=CONSOLES, mix={"console_color": 10}),
}
