"""Independent reference for the MAVLink v1 wire format (own checksum, own frozen message table)."""
import json
import os
import struct

STX = 0xFE


def x25(data, crc=0xFFFF):
    for b in data:
        t = (b ^ crc) & 0xFF
        t = (t ^ (t << 4)) & 0xFF
        crc = ((crc >> 8) ^ (t << 8) ^ (t << 3) ^ (t >> 4)) & 0xFFFF
    return crc


_T = None
SIZES = {"uint64_t": 8, "int64_t": 8, "double": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2, "int16_t": 2, "uint8_t": 1,
         "int8_t": 1, "char": 1}


class Msg:
    __slots__ = ("id", "name", "fields", "wire", "fmt", "crc_extra", "size", "arrays", "wire_fields", "order")

    def __init__(self, i, d):
        self.id = i
        self.name = d["name"]
        self.fields = [tuple(f) for f in d["fields"]]
        self.wire = d["wire"]
        self.fmt = d["fmt"]
        self.crc_extra = d["crc_extra"]
        self.size = struct.calcsize(self.fmt)
        self.arrays = any(f[2] for f in self.fields)
        by = {f[0]: f for f in self.fields}
        self.wire_fields = [by[n] for n in self.wire]  # (name, type, array length) in over-the-air order


def table(dialect="HC_dialect"):
    global _T
    if _T is None:
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "wire_table.json")) as f:
            raw = json.load(f)
        _T = {d: {int(i): Msg(int(i), m) for i, m in ms.items()} for d, ms in raw.items()}
    return _T[dialect]


def frame(msg, payload, seq, sysid, compid, mlen=None, crc=None):
    body = bytes([len(payload) if mlen is None else mlen, seq, sysid, compid, msg.id]) + payload
    c = x25(bytes([msg.crc_extra]), x25(body)) if crc is None else crc
    return bytes([STX]) + body + struct.pack("<H", c)


def crc_ok(msg, fr):
    return struct.unpack("<H", fr[-2:])[0] == x25(bytes([msg.crc_extra]), x25(fr[1:-2]))


def segment(buf, tbl=None):
    """Reference segmentation: [(start, msg)] of complete intact messages, left to right, not inside an accepted one."""
    tbl = tbl or table()
    out = []
    i = 0
    while i + 8 <= len(buf):
        if buf[i] == STX:
            m = tbl.get(buf[i + 5])
            if m is not None and m.size == buf[i + 1]:
                end = i + 8 + m.size
                if end <= len(buf) and crc_ok(m, buf[i:end]):
                    out.append((i, m))
                    i = end
                    continue
        i += 1
    return out
