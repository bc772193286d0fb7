"""Workload pieces shared by the property modules: telemetry messages, buffers, byte-level channel faults."""
import struct

from sim import wire

RANGES = {"uint8_t": (0, 255), "int8_t": (-128, 127), "uint16_t": (0, 65535), "int16_t": (-32768, 32767),
          "uint32_t": (0, 2**32 - 1), "int32_t": (-2**31, 2**31 - 1), "uint64_t": (0, 2**64 - 1), "int64_t": (-2**63, 2**63 - 1)}


def rand_scalar(rng, ty, wild=True):
    if ty == "float":
        r = rng.random()
        if wild and r < 0.1:
            return rng.choice([0.0, -0.0, 1e38, -1e38, 1e-40, 3.5])
        return struct.unpack("<f", struct.pack("<f", rng.uniform(-1000, 1000)))[0]
    if ty == "char":
        return bytes([rng.randrange(1, 127)])
    lo, hi = RANGES[ty]
    r = rng.random()
    if wild and r < 0.1:
        return rng.choice([lo, hi, 0, hi - 1])
    if r < 0.3:
        return rng.randrange(lo, hi + 1)
    return rng.randrange(max(lo, -100), min(hi, 1000) + 1)


def rand_payload(rng, msg, raw=False):
    """Wire payload of a message; raw: arbitrary bytes."""
    if raw:
        return bytes(rng.randrange(256) for _ in range(msg.size))
    vals = []
    for name, ty, n in msg.wire_fields:
        if n and ty == "char":
            s = bytes(rng.choice(b"ABCxyz019 _-") for _ in range(rng.randrange(n + 1)))
            vals.append(s)
        elif n:
            vals.extend(rand_scalar(rng, ty) for _ in range(n))
        else:
            vals.append(rand_scalar(rng, ty))
    return struct.pack(msg.fmt, *vals)


def scalar_msgs(max_size=None, dialect="HC_dialect"):
    return [m for _, m in sorted(wire.table(dialect).items()) if not m.arrays and (max_size is None or m.size <= max_size)]


def array_msgs(dialect="HC_dialect"):
    return [m for _, m in sorted(wire.table(dialect).items()) if m.arrays]


# ------------------------------------------------------------- byte faults
BYTE_FAULTS = ["flip", "burst", "trunc", "insert", "delete", "dup", "stuck0", "stuck1", "swap", "marker"]


def rand_byte_fault(rng, n, kinds):
    k = rng.choice(kinds)
    pos = rng.randrange(max(1, n))
    if k == "flip":
        return [k, pos, rng.randrange(8)]
    if k in ("burst", "stuck0", "stuck1", "dup"):
        return [k, pos, rng.choice([1, 1, 2, 3, 8, 20]), rng.randrange(1, 256)]
    if k == "trunc":
        return [k, rng.choice([pos, n - 1, n - 2, max(0, n - rng.randrange(1, 12))])]
    if k == "insert":
        return [k, pos, bytes(rng.choice([0xFE, 0, rng.randrange(256)]) for _ in range(rng.choice([1, 1, 2, 6]))).hex()]
    if k == "delete":
        return [k, pos, rng.choice([1, 1, 2, 5])]
    if k == "swap":
        return [k, pos, rng.randrange(max(1, n)), rng.choice([1, 2, 4])]
    return ["marker", pos]


def apply_byte_fault(b, f, ctx=None):
    """b: bytes -> bytes. Counts the fault as fired only if it changed something."""
    n = len(b)
    a = bytearray(b)
    k = f[0]
    if k == "flip" and f[1] < n:
        a[f[1]] ^= 1 << f[2]
    elif k == "burst":
        for i in range(f[1], min(n, f[1] + f[2])):
            a[i] ^= (f[3] * (i + 1)) & 0xFF or 1
    elif k == "stuck0":
        for i in range(f[1], min(n, f[1] + f[2])):
            a[i] = 0
    elif k == "stuck1":
        for i in range(f[1], min(n, f[1] + f[2])):
            a[i] = 0xFF
    elif k == "dup":
        a[f[1]:f[1]] = a[f[1]:f[1] + f[2]]
    elif k == "trunc":
        del a[max(0, f[1]):]
    elif k == "insert":
        a[f[1]:f[1]] = bytes.fromhex(f[2])
    elif k == "delete":
        del a[f[1]:f[1] + f[2]]
    elif k == "swap":
        i, j, w = f[1], f[2], f[3]
        if abs(i - j) >= w and max(i, j) + w <= n:
            a[i:i + w], a[j:j + w] = a[j:j + w], a[i:i + w]
    elif k == "marker" and f[1] < n:
        a[f[1]] = 0xFE
    r = bytes(a)
    if ctx is not None and r != b:
        ctx.fault(k)
    return r
