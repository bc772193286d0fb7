"""One-off: freeze the message definitions of the dialects from their XML (the protocol specification), with our own
field reordering and CRC_EXTRA computation.  The checks never read the XML or the generated dialect for their oracle."""
import json, sys, xml.etree.ElementTree as ET
sys.path.insert(0, "/verif")
from sim.wire import x25
SZ = {"uint64_t": 8, "int64_t": 8, "double": 8, "uint32_t": 4, "int32_t": 4, "float": 4, "uint16_t": 2, "int16_t": 2, "uint8_t": 1,
      "int8_t": 1, "char": 1}
CH = {"uint64_t": "Q", "int64_t": "q", "double": "d", "uint32_t": "I", "int32_t": "i", "float": "f", "uint16_t": "H", "int16_t": "h",
      "uint8_t": "B", "int8_t": "b", "char": "c"}
out = {}
for name in ("HC_dialect", "minimal_dialect"):
    t = ET.parse(f"/repo/mavlink_utils/{name}.xml").getroot()
    msgs = {}
    for m in t.iter("message"):
        fs, ext = [], False
        for c in m:
            if c.tag == "extensions":
                ext = True
            if c.tag != "field" or ext:
                continue
            ty = c.get("type"); n = 0
            if ty == "uint8_t_mavlink_version": ty = "uint8_t"
            base = ty
            if "[" in ty:
                base, n = ty.split("[")[0], int(ty.split("[")[1][:-1])
            fs.append([c.get("name"), base, n])
        wire = sorted(fs, key=lambda f: -SZ[f[1]])
        s = bytes(m.get("name") + " ", "ascii")
        crc = x25(s)
        for f in wire:
            crc = x25(bytes(f[1] + " ", "ascii"), crc); crc = x25(bytes(f[0] + " ", "ascii"), crc)
            if f[2]: crc = x25(bytes([f[2]]), crc)
        fmt = "".join(CH[f[1]] if not f[2] else (f"{f[2]}s" if f[1] == "char" else f"{f[2]}{CH[f[1]]}") for f in wire)
        msgs[int(m.get("id"))] = {"name": m.get("name"), "fields": fs, "wire": [f[0] for f in wire], "fmt": "<" + fmt,
                                  "crc_extra": (crc & 0xFF) ^ (crc >> 8)}
    out[name] = msgs
    mod = __import__("mavlink_utils." + name, fromlist=["x"]) if sys.path.insert(0, "/repo") is None else None
    assert set(mod.mavlink_map) == set(msgs), set(mod.mavlink_map) ^ set(msgs)
    for i, c in mod.mavlink_map.items():
        w = msgs[i]
        assert c.name == w["name"] and c.crc_extra == w["crc_extra"], (i, c.name, c.crc_extra, w)
        import struct
        assert struct.calcsize(c.format) == struct.calcsize(w["fmt"]), (i, c.format, w["fmt"])
        assert list(c.ordered_fieldnames) == w["wire"], (c.ordered_fieldnames, w["wire"])
        assert list(c.fieldnames) == [f[0] for f in w["fields"]]
    print(name, len(msgs))
json.dump(out, open("/verif/sim/wire_table.json", "w"), separators=(",", ":"))
