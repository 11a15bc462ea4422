"""What each property's check builds. See run.py."""

def h(file, variant="asan", **kw):
    return dict(file=file, variant=variant, **kw)

CHECKS = {
    "C01": dict(harness=[h("C01.cpp", name="p%d" % r, flags=["-DPART=%d" % r]) for r in range(4)]),
    "C02": dict(harness=[h("C02.cpp", "opt")], mult=2),
    "C09": dict(harness=[h("C09.cpp", "opt", flags=["-fsanitize=undefined", "-fno-sanitize-recover=undefined"])], mult=3),
    "C10": dict(harness=[h("C10.cpp")], mult=2),
    "C03": dict(harness=[h("C03.cpp", "fast"), h("C03.cpp", "tsan", flags=["-DSCALE=5"])], workers=4),
    "C04": dict(harness=[h("C04.cpp", "opt")]),
    "C05": dict(harness=[h("C05.cpp")]),
    "C06": dict(harness=[h("C06.cpp", name="p%d" % r, flags=["-DPART=%d" % r]) for r in range(4)]),
    "C07": dict(harness=[h("C07.cpp", name="p%d" % r, flags=["-DPART=%d" % r]) for r in range(4)]),
    "C08": dict(harness=[h("C08.cpp", "fast", flags=["-fsanitize=undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"])]),
    "C11": dict(harness=[h("C11.cpp", flags=["-U_GLIBCXX_ASSERTIONS"])]),
    "C12": dict(harness=[h("C12.cpp", flags=["-U_GLIBCXX_ASSERTIONS"])]),
    "C13": dict(harness=[h("C13.cpp", "fast", flags=["-D_GLIBCXX_ASSERTIONS"])], mult=4),
    "C14": dict(harness=[h("C14.cpp", "fast", flags=["-D_GLIBCXX_ASSERTIONS"])]),
    "C28": dict(harness=[h("C28.cpp", "fast")]),
    "C15": dict(harness=[h("C15.cpp", "opt")], mult=6),
    "C19": dict(harness=[h("C19.cpp", "opt")], mult=12),
    "C20": dict(harness=[h("C20.cpp", "fast")], mult=10),
    "C21": dict(harness=[h("C21.cpp", "fast")], mult=4),
    "C22": dict(harness=[h("C22.cpp", "fast", flags=["-D_GLIBCXX_ASSERTIONS"])], mult=12),
    "C16": dict(harness=[h("C16.cpp", "fast")], mult=4),
    "C18": dict(harness=[h("C18.cpp", "fast")], mult=8),
    "C23": dict(harness=[h("C23.cpp", "opt")], mara=True, shards=4),
    "C24": dict(harness=[h("C24.cpp", "opt")], mara=True, shards=4),
    "C25": dict(harness=[h("C25.cpp", "opt")], mara={"mara": "fast", "mara.tsan": "tsan"}, preload=["jitter"], shards=4),
    "C27": dict(harness=[h("C27.cpp", "opt")], mara=True, shards=4),
    "C26": dict(harness=[h("C26.cpp", "opt")], mara=True, shards=4),
    "C29": dict(harness=[h("C29.cpp", flags=["-U_GLIBCXX_ASSERTIONS"])], shards=2, workers=4),
    "C30": dict(harness=[h("C30.cpp", "opt")], mara=True, shards=4),
    "C17": dict(harness=[h("C17.cpp", "fast")], mult=10),
}
