"""pack(), pack_into() and pack_write() agree."""
from .common import *

RULE = 'at least two members, one not basic, at least two bytes, and an offset or stream position other than 0'
EXAMPLES = dict(quick=7500, thorough=140000)
ASSUMPTIONS = ['offsets are not negative']


def strategy(tier):
    big = tier == 'thorough'

    def extra(draw, g, c, o):
        return (draw(st.sampled_from(WRITABLE)), draw(st.sampled_from([0, 1, 2, 3, 7, 8, 64, 1000])),
                draw(st.sampled_from([0, 1, 3, 300])), draw(st.integers(1, 9)), draw(st.booleans()))

    kw = dict(depth=3 if big else 2, max_fields=7 if big else 5)
    return mostly(st.one_of(case_strategy(Cfg(**kw), extra), case_strategy(Cfg(fit=False, **kw), extra)),
                  case_strategy(Cfg(**kw, **USERS), extra))


class Sink:
    """A stream which can only be written to."""

    def __init__(self):
        self.data = b''

    def write(self, data):
        self.data += bytes(data)
        return len(data)


def check(case):
    c, o, variant, kind, offset, slack, short, fresh = case
    w = world_of(c, variant)

    def new():
        return call('creating an instance', w.build, o)

    obj = new()
    want = pack(obj)
    if fresh:
        obj = new()
    got = pack_into(obj, len(want), offset, slack, kind if len(want) + offset + slack else 'bytearray')
    if got != want:
        raise Violation(f'pack_into(offset {offset}) gives {show(got)}\npack() gives {show(want)}')
    got = pack_into(obj, len(want), 0, 0, kind if want else 'bytearray')
    if got != want:
        raise Violation(f'pack_into gives {show(got)}\npack() gives {show(want)}')
    if fresh:
        obj = new()
    got = pack_write(obj, b'\xa5' * offset, b'\x5a' * (len(want) + slack if variant & 1 else 0))
    if got != want:
        raise Violation(f'pack_write gives {show(got)}\npack() gives {show(want)}')
    sink = Sink()
    call('pack_write to a write-only stream', obj.pack_write, sink)
    if sink.data != want:
        raise Violation(f'pack_write to a sink gives {show(sink.data)}\npack() gives {show(want)}')
    if pack(obj) != want:
        raise Violation('pack() gives other bytes after pack_into and pack_write')
    # too little room
    for miss in {1, min(short, len(want)), len(want)} - {0}:
        if miss > len(want):
            continue
        total = offset + len(want) - miss
        fill = bytes(i & 0xFF ^ 0x3C for i in range(total))
        buf = make_buffer(kind if total else 'bytearray', fill)
        try:
            obj.pack_into(buf, offset)
        except Exception:
            pass
        else:
            raise Violation(f'pack_into with {miss} of {len(want)} bytes missing after offset {offset} succeeds; '
                            f'{total} bytes became {len(bytes(buf))}: {show(bytes(buf)[offset:])}')
        if memoryview(buf).nbytes != total:
            raise Violation(f'failing pack_into resized the buffer from {total} to {len(bytes(buf))}')
        if bytes(buf)[:offset] != fill[:offset]:
            raise Violation('failing pack_into changed bytes before the offset')
    labels = shape_labels(c) | obj_labels(o) | {f'offset {offset}', kind}
    if complex_member(c) and len(want) > 1 and offset:
        labels.add('nontrivial')
    return labels
