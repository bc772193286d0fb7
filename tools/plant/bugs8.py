"""Planted bugs of mission packing (C32)."""
MC = "runs/HC_eilat_July_2018/data/msg_creator.py"
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c32-number-skipped", "C32", [
    (MC, "        buffer += chamber.pack(mav)\n        mav.seq = (mav.seq + 1) % 256", "        buffer += chamber.pack(mav)\n        mav.seq = (mav.seq + 1) % 255")],
    "a chamber message with number 254, in a mission of more than 254 messages", "number 255 is skipped",
    """
r = mission(span=1200000)
need(r.rc == 0, r.err[-300:])
n = numbers(r.series["20000"])
need(len(n) == 300 and all(b == (a + 1) % 256 for a, b in zip(n, n[1:])), "numbers %s" % n)
""")

bug("c32-one-too-many", "C32", [
    (MC, "np.arange(initial_time, final_time, delay)", "np.arange(initial_time, final_time + 1, delay)")],
    "a mission whose length is a multiple of the interval", "a transmission is made when the mission is over",
    """
r = mission(span=400000)
need(r.rc == 0, r.err[-300:])
need(len(r.series["20000"]) == 20, "%d transmissions" % len(r.series["20000"]))
""")

bug("c32-after-mission", "C32", [
    (MC, "final_time = global_position_int_time[16521]", "final_time = global_position_int_time[-1]")],
    "a recording that goes on after the mission", "transmissions are made of what was recorded after the mission",
    """
r = mission(span=400001, tail=80)
need(r.rc == 0, r.err[-300:])
need(len(r.series["20000"]) == 21, "%d transmissions" % len(r.series["20000"]))
""")

bug("c32-short-temperature", "C32", [
    (MC, "svs_temp = svs[4].flatten()", "svs_temp = svs[4].flatten().astype(np.int16) % 32767")],
    "a sound velocity sample whose temperature reads 32767 or more", "the temperature sent is another",
    """
r = mission(values=lambda s, i, t: 30000 + t % 9000 if s == "svs_status" and i == 4 else None)
need(r.rc == 0, r.err[-300:])
got = [int(t["svs"].Temperature) for t in r.series["20000"]]
need(got == [30000 + t % 9000 for t in range(0, 400000, 20000)], "temperatures %s" % got)
""")

bug("c32-first-chamber", "C32", [
    (MC, "chamber_status_num[idx],", "chamber_status_num[0],")],
    "chambers that report in turn", "every report is of the chamber that came first",
    """
r = mission(values=lambda s, i, t: 1 + (t // 20000) % 2 if s == "chamber_status" and i == 3 else None)
need(r.rc == 0, r.err[-300:])
got = [int(t["chamber_status"].chamber_num) for t in r.series["20000"]]
need(got == [1 + i % 2 for i in range(20)], "chambers %s" % got)
""")
