"""Writes src/xid.inc: XID_Start and XID_Continue of Unicode 15.1 from Python's unicodedata (15.0) plus the 15.1 additions."""
import sys, unicodedata, os
assert unicodedata.unidata_version == "15.0.0"
start = {c for c in range(0x110000) if chr(c).isidentifier() and c != 0x5F}
cont = {c for c in range(0x110000) if ("a" + chr(c)).isidentifier()}
new = set(range(0x2EBF0, 0x2EE5E))
start |= new
cont |= new | {0x200C, 0x200D, 0x30FB, 0xFF65}

def ranges(s):
    out = []
    for c in sorted(s):
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../src/xid.inc"), "w") as f:
    for name, s in (("ref_xid_start", start), ("ref_xid_continue", cont)):
        r = ranges(s)
        f.write("static const std::uint32_t %s[][2] = {\n" % name)
        for i in range(0, len(r), 8):
            f.write("    " + " ".join("{0x%x,0x%x}," % tuple(x) for x in r[i:i + 8]) + "\n")
        f.write("};\n")
