"""Counts the steps Python takes (lines, jumps, calls), which no machine load can change."""
import sys

mon = sys.monitoring
TOOL = 4
EVENTS = mon.events.LINE | mon.events.JUMP | mon.events.PY_START | mon.events.PY_RESUME | mon.events.CALL
_n = 0
_limit = 0
_ready = False


class TooMany(BaseException):
    pass


def _one(*_):
    global _n, _limit
    _n += 1
    if _n > _limit:
        _limit = 1 << 62
        raise TooMany


class count:
    """with count(limit) as c: ...; c.n - raises TooMany inside when it takes more than limit steps."""

    def __init__(self, limit=1 << 60):
        self.limit, self.n = limit, 0

    def __enter__(self):
        global _n, _limit, _ready
        if not _ready:
            mon.use_tool_id(TOOL, "verif-steps")
            for e in (mon.events.LINE, mon.events.JUMP, mon.events.PY_START, mon.events.PY_RESUME, mon.events.CALL):
                mon.register_callback(TOOL, e, _one)
            _ready = True
        _n, _limit = 0, self.limit
        mon.set_events(TOOL, EVENTS)
        return self

    def __exit__(self, *_):
        global _limit
        _limit = 1 << 62
        mon.set_events(TOOL, 0)
        self.n = _n
        return False
