"""Which design models and how many histories decide each property."""


def m(module, quick, thorough=None):
    return dict(module=module, quick=quick + ".cfg", thorough=(thorough + ".cfg") if thorough else None)


def gen(c, t=True):
    return m("MCGenerator", "MCGen_" + c, "MCGen_" + c + "t" if t else None)


def con(c):
    return m("MCConsumer", "MCCon_" + c, "MCCon_" + c + "t")


def idx(c):
    return m("MCIndexed", "MCIdx_" + c, "MCIdx_" + c + "t")


CAP = dict(quick=15000, thorough=250000)


def p(models, quick, cap=None, **kw):
    """quick: how many random histories; the thorough tier adds rounds of three times as many until its time is up."""
    return dict(models=models, random=4 * quick, cap=cap or CAP, **kw)


PLAN = {
    "C01": p([gen("C01"), gen("C01b", False)], 600),
    "C02": p([gen("C02")], 250),
    "C03": p([gen("C03")], 350),
    "C04": p([gen("C04")], 600),
    "C05": p([gen("C05")], 600),
    "C06": p([gen("C06")], 500),
    "C07": p([con("C07")], 350),
    "C08": p([con("C08")], 350),
    "C09": p([con("C09")], 350),
    "C10": p([con("C10")], 500),
    "C11": p([con("C11")], 500),
    "C12": p([con("C12")], 350),
    "C13": p([m("MCSources", "MCSrc_C13", "MCSrc_C13t")], 600),
    "C14": p([m("MCSources", "MCSrc_C14", "MCSrc_C14t"), m("MCSources", "MCSrc_C14h", "MCSrc_C14ht")], 600),
    "C15": p([m("MCContents", "MCContents", "MCContents_t"), m("MCContents", "MCContents_h")], 600),
    "C16": p([idx("C16")], 400),
    "C17": p([idx("C17")], 400),
    "C18": p([idx("C18")], 500),
    "C19": p([m("MCBuild", "MCBuild", "MCBuild_t"), m("MCBuild", "MCBuild_v"), m("MCBuild", "MCBuild_w", "MCBuild_tw")], 300),
    "C20": p([m("MCVlq", "MCVlq")], 60, op_limit=800),
    "C21": p([m("MCSearch", "MCSearch", "MCSearch_thorough")], 300),
    "C22": p([m("MCArraySet", "MCArraySet", "MCArraySet_thorough")], 350),
    "C23": p([gen("C23"), gen("C23b", False)], 300),
    "C24": p([m("MCUrl", "MCUrl", "MCUrl_thorough"), m("MCUrl", "MCUrlTails"), m("MCUrl", "MCUrlOdd")], 400),
    "C25": p([con("C25")], 400),
    "C26": p([idx("C26")], 500),
    "C27": p([m("MCCreate", "MCCreate", "MCCreate_t")], 300),
    "C28": p([m("MCDocument", "MCDocument", "MCDocument_t")], 400),
    "C29": p([m("MCIndep", "MCIndep_w"), m("MCIndep", "MCIndep", "MCIndep_t"), m("MCIndep", "MCIndep_3")], 120),
}

# What each property's histories leave out, or take for granted.
URLS = ("References have no segment that is an escaped dot (%2e), no control character, no blank at either end and no leading "
        "backslash; one that begins with a scheme has a slash after it (two, if the scheme is http or the like); file: URLs carry "
        "no port or user and no empty segments, scheme-relative references have a host. ")
FIT = "Positions fit 32-bit signed integers. "
TIES = "Where several segments share a position any of them may answer. "
NOTES = {
    "C01": FIT + "The text is decoded by the specification's own automaton, not by the crate's reader. ",
    "C02": FIT + "Generated positions of one history are distinct. ",
    "C03": FIT + "Compared by decoded mappings and the order of their positions; the order among mappings at one position is not judged. ",
    "C04": "",
    "C05": "Sources that name the same place under the source root share one content. ",
    "C06": "",
    "C07": FIT + TIES, "C08": FIT + TIES, "C09": FIT, "C10": FIT + "The order among equal keys is not judged. ",
    "C11": FIT + "Only ends are judged; before spans are computed an end may be absent but not wrong. ",
    "C12": "Ends are not compared (C11 has them). ",
    "C13": URLS + "Source roots have no query or fragment. ",
    "C14": URLS + "Map URLs are absent or not themselves relative paths; resolved sources are distinct. ",
    "C15": "A document with no sources and no contents is not asked whether it has all contents. ",
    "C16": FIT + "Among sections with equal offsets any may govern. ",
    "C17": FIT + "The first section that lists the source answers. ",
    "C18": FIT + "Sections are enumerated one after another, each sorted. ",
    "C19": "Real thread pools of 1, 2, 3 and 8 threads; schedules inside rayon are sampled, the model's are exhaustive. "
           "Sections of a wrong version are left to C25. ",
    "C20": "The quick tier runs ranges around zero, the extremes and all powers of two; thorough runs every 32-bit integer. ",
    "C21": "The array is sorted, as the search requires. ",
    "C22": "", "C23": FIT,
    "C24": URLS + "Relative forms are judged by joining them to the root again. ",
    "C25": "Stray commas in the text are not judged. ",
    "C26": "",
    "C27": "",
    "C28": "JSON arrays in place of objects, repeated members and versions written 3.0 are not judged. ",
    "C29": "Threads are real, their schedules sampled; the model's interleavings are exhaustive. ",
}
for _c, _t in NOTES.items():
    if _t:
        PLAN[_c]["assumptions"] = [x.strip() + "." for x in _t.strip().rstrip(".").split(". ")]
