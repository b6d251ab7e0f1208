"""C18: the provided buffers as bounded byte queues."""


def check(c):
    exe = c.build("drv_queue")
    if not exe:
        return
    c.design("ByteQueue", "MCQueue.cfg")
    trace = c.path("trace.ndjson")
    if c.drive(exe, [], trace) is None:
        return
    c.sample(trace)
    c.judge("TraceQueue", "TraceQueue.cfg", trace)
    c.assumptions += ["op sequences are all those of depth 4 (5 thorough) over 9 operations plus random long ones"]
