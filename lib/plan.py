"""What is run for each property.

A rung is one exhaustive symbolic exploration: an entry of the harness, its
parameters, a time limit, and the tier from which it is run.
"""

QUICK, THOROUGH = "quick", "thorough"

FAMILY = {
    0: "{n} free ASCII bytes",
    1: "{n} free Unicode characters",
    2: "{n} free ASCII bytes in document contexts ({o})",
    3: "{n} free Unicode characters in document contexts ({o})",
    4: "up to {n} items in any order (item kinds {o})",
    5: "chains of up to {n} nested elements, one perhaps a box, then a tag of any depth",
    6: "one long piece, {n} lengths up to 260, with free bytes after it (kind {o})",
    7: "up to {n} items of one kind (kind {o})",
    8: "up to {n} nested elements, each a box or not, some closed, then a tag of any depth",
    9: "{n} free Unicode characters in each place of a name",
    10: "up to {n} elements that declare and use prefixes (options {o})",
    11: "a word of up to {n} free characters of one class in each place of a word (kind {o})",
}


LONG = "one piece of a length"


class Rung:
    def __init__(self, entry, params, limit, tier=QUICK, what=""):
        self.entry = entry
        self.params = params
        self.limit = limit
        self.tier = tier
        self.what = what
        # how many instructions a path may take
        self.steps = 200_000_000 if what.startswith(LONG) else 20_000_000


def text(fam, n, o):
    if fam == 6 and n >= 1000:
        lengths = "from 65534 to 65537" if n >= 2000 else "near 1000, 1024, 2048, 4096 or 8192"
        return "%s %s, with free bytes after it (kind %s)" % (LONG, lengths, o or "all")
    if fam == 6:
        n = min(n, 84)
    if fam == 7 and n >= 1000:
        return "64 to 260 items of one kind (kind %s)" % (o or "all")
    o = {0: "all" if fam in (2, 3, 6, 7, 11) else "none", 100: "all without punctuation" if fam == 11 else "100"}.get(o, str(o))
    return FAMILY[fam].format(n=n, o=o)


def doc(prop, rows):
    out = []
    for r in rows:
        fam, n, o, flags, limit = r[:5]
        tier = r[5] if len(r) > 5 else QUICK
        what = text(fam, n, o) + (", namespaces on" if flags & 1 else "")
        out.append(Rung("h_doc", [prop, fam, n, o, flags], limit, tier, what))
    return out


T = THOROUGH
PLAN = {}

PLAN["C01"] = doc(1, [
    (0, 7, 0, 0, 40), (0, 6, 0, 1, 40), (1, 3, 0, 0, 40), (2, 3, 0, 0, 40), (2, 2, 0, 1, 40),
    (3, 1, 0, 0, 30), (4, 5, 95, 0, 60), (5, 12, 0, 0, 30), (6, 99, 0, 0, 40), (7, 60, 0, 0, 40), (8, 6, 0, 0, 40),
    (6, 99, 99, 0, 40), (6, 99, 199, 0, 40),
    (0, 9, 0, 0, 600, T), (1, 4, 0, 0, 600, T), (2, 5, 0, 0, 600, T), (3, 2, 0, 1, 600, T), (4, 6, 127, 1, 600, T),
    (11, 16, 0, 1, 40), (7, 1000, 0, 0, 60), (10, 2, 18, 1, 40),
    (6, 1000, 0, 0, 40), (6, 2000, 1, 0, 40), (6, 2000, 2, 0, 40), (6, 2000, 3, 0, 40), (6, 2000, 4, 0, 40), (6, 2000, 6, 0, 40), (6, 2000, 7, 0, 40), (6, 1000, 99, 0, 40),
])
PLAN["C02"] = doc(2, [
    (0, 7, 0, 0, 60), (2, 3, 0, 0, 60), (2, 2, 0, 1, 40), (3, 1, 0, 0, 30), (4, 5, 89, 0, 60), (4, 4, 93, 1, 60),
    (5, 12, 0, 0, 30), (7, 40, 0, 0, 40), (8, 6, 0, 0, 40), (10, 3, 0, 1, 40),
    (0, 9, 0, 0, 600, T), (2, 4, 0, 1, 600, T), (4, 7, 25, 0, 600, T), (4, 5, 127, 1, 600, T), (10, 4, 1, 1, 600, T),
    (11, 16, 0, 1, 40), (10, 2, 17, 1, 40),
])
PLAN["C03"] = doc(3, [
    (0, 8, 0, 0, 60), (2, 3, 0, 0, 40), (3, 1, 0, 0, 30), (4, 6, 9, 0, 60), (4, 5, 15, 0, 60), (4, 4, 79, 1, 40),
    (5, 14, 0, 0, 40), (8, 7, 0, 0, 60), (7, 60, 0, 0, 40), (6, 99, 0, 0, 40),
    (0, 10, 0, 0, 600, T), (2, 5, 0, 0, 600, T), (4, 8, 8, 0, 600, T), (4, 7, 9, 0, 600, T), (5, 30, 0, 0, 300, T), (8, 10, 0, 0, 600, T),
    (11, 16, 0, 0, 40), (7, 1000, 2, 0, 60), (7, 1000, 7, 0, 60), (6, 1000, 0, 0, 40),
])
PLAN["C04"] = doc(4, [
    (0, 8, 0, 0, 60), (2, 3, 0, 0, 40), (3, 1, 0, 0, 30), (4, 5, 25, 0, 60), (4, 4, 31, 0, 60), (4, 4, 93, 1, 60),
    (5, 14, 0, 0, 40), (8, 7, 0, 0, 60),
    (6, 99, 99, 0, 40), (6, 99, 199, 0, 40), (7, 60, 0, 0, 60),
    (0, 10, 0, 0, 600, T), (2, 5, 0, 0, 600, T), (4, 6, 24, 0, 600, T), (4, 6, 31, 0, 600, T), (5, 30, 0, 0, 300, T), (8, 10, 0, 0, 600, T),
    (11, 16, 0, 1, 40), (10, 2, 16, 1, 40), (6, 1000, 0, 0, 40), (6, 1000, 99, 0, 40), (6, 2000, 7, 0, 40),
])
PLAN["C05"] = doc(5, [
    (2, 4, 101, 2, 60), (3, 2, 101, 2, 60), (0, 7, 0, 0, 40), (2, 3, 0, 0, 40), (4, 5, 3, 0, 40),
    (6, 99, 1, 2, 40), (6, 99, 7, 2, 40), (6, 99, 8, 2, 40), (7, 60, 0, 0, 40),
    (6, 99, 101, 2, 40),
    (2, 6, 101, 2, 600, T), (3, 3, 101, 2, 600, T), (0, 9, 0, 0, 600, T), (2, 5, 0, 0, 600, T),
    (11, 24, 0, 0, 40), (7, 1000, 4, 0, 60),
    (6, 1000, 1, 2, 40), (6, 1000, 7, 2, 40), (6, 2000, 1, 2, 60), (6, 2000, 7, 2, 40), (6, 2000, 8, 2, 40),
])
PLAN["C06"] = doc(6, [
    (2, 4, 102, 2, 60), (3, 2, 102, 2, 60), (2, 3, 0, 1, 60), (0, 7, 0, 0, 40), (4, 5, 14, 0, 60), (4, 5, 70, 1, 60),
    (6, 99, 3, 2, 40), (6, 99, 5, 2, 40), (7, 60, 0, 0, 40), (10, 2, 3, 1, 40),
    (6, 99, 103, 2, 40),
    (2, 6, 102, 2, 600, T), (3, 3, 102, 2, 600, T), (0, 9, 0, 0, 600, T), (4, 7, 5, 0, 600, T),
    (11, 16, 0, 1, 40), (11, 24, 3, 0, 40), (7, 1000, 1, 0, 60), (7, 1000, 9, 0, 60), (10, 2, 18, 1, 40),
    (6, 1000, 3, 2, 40), (6, 1000, 5, 2, 40), (6, 2000, 3, 2, 40), (6, 2000, 5, 2, 60),
])
PLAN["C07"] = doc(7, [
    (2, 4, 103, 2, 60), (3, 2, 103, 2, 60), (2, 3, 0, 0, 60), (0, 7, 0, 0, 40), (4, 5, 7, 0, 60),
    (6, 99, 2, 2, 40), (7, 60, 0, 0, 40),
    (6, 99, 102, 2, 40),
    (2, 6, 103, 2, 600, T), (3, 3, 103, 2, 600, T), (0, 9, 0, 0, 600, T), (4, 7, 6, 0, 600, T),
    (11, 24, 0, 0, 40), (7, 1000, 3, 0, 60), (6, 1000, 2, 2, 40), (6, 2000, 2, 2, 40),
])
PLAN["C08"] = doc(8, [
    (0, 7, 0, 0, 60), (1, 3, 0, 0, 40), (2, 3, 0, 0, 60), (3, 1, 0, 0, 40), (4, 4, 63, 0, 60), (4, 3, 127, 1, 60),
    (5, 10, 0, 0, 30), (6, 99, 0, 0, 40), (7, 40, 0, 0, 40), (8, 5, 0, 0, 40),
    (6, 99, 199, 0, 40),
    (0, 9, 0, 0, 600, T), (2, 4, 0, 0, 600, T), (3, 2, 0, 0, 600, T), (4, 5, 63, 0, 600, T),
    (11, 16, 0, 0, 40), (7, 1000, 3, 0, 60), (6, 1000, 0, 0, 40), (6, 2000, 2, 0, 40), (6, 2000, 6, 0, 40),
])
PLAN["C09"] = doc(9, [
    (9, 1, 0, 3, 60), (9, 2, 0, 3, 60), (9, 1, 0, 2, 60), (2, 3, 105, 0, 60), (0, 6, 0, 0, 40), (6, 99, 4, 2, 40), (6, 99, 5, 2, 40),
    (6, 99, 104, 2, 40), (6, 99, 105, 2, 40),
    (9, 3, 0, 3, 600, T), (2, 5, 105, 0, 600, T), (3, 2, 0, 1, 600, T),
    (11, 16, 0, 1, 40), (6, 1000, 4, 2, 40), (6, 1000, 5, 2, 40), (6, 2000, 4, 2, 60),
])
PLAN["C10"] = doc(10, [
    (0, 7, 0, 0, 40), (1, 3, 0, 0, 40), (2, 3, 0, 0, 60), (3, 1, 0, 0, 40), (4, 4, 31, 0, 40), (6, 99, 0, 0, 40),
    (6, 99, 199, 0, 40),
    (0, 9, 0, 0, 600, T), (1, 4, 0, 0, 600, T), (2, 5, 0, 0, 600, T), (3, 2, 0, 0, 600, T),
    (11, 16, 0, 0, 40), (6, 1000, 0, 0, 40), (6, 2000, 2, 0, 40),
])
PLAN["C11"] = doc(11, [
    (10, 3, 1, 1, 60), (2, 3, 104, 1, 60), (2, 2, 0, 1, 60), (10, 2, 7, 1, 60), (10, 2, 10, 1, 60), (10, 2, 11, 0, 40), (4, 4, 93, 1, 60),
    (7, 30, 0, 1, 40), (3, 1, 104, 1, 40),
    (10, 3, 3, 1, 900, T), (10, 4, 0, 1, 600, T), (2, 5, 104, 1, 600, T),
    (11, 16, 0, 1, 40), (11, 16, 0, 0, 40), (10, 3, 16, 1, 60), (10, 2, 33, 1, 40), (10, 2, 18, 1, 40), (10, 2, 55, 1, 600, T),
])
PLAN["C19"] = doc(19, [
    (0, 6, 0, 0, 60), (2, 2, 0, 0, 60), (2, 2, 0, 1, 60), (3, 1, 0, 0, 60), (4, 3, 95, 1, 60), (10, 2, 1, 1, 60), (7, 20, 0, 1, 40),
    (0, 8, 0, 0, 600, T), (2, 3, 0, 1, 600, T), (4, 4, 127, 1, 600, T), (10, 3, 1, 1, 600, T),
    (11, 8, 0, 1, 60), (10, 2, 16, 1, 60),
])


def rungs(entry, rows):
    return [Rung(entry, r[0], r[1], r[3] if len(r) > 3 else QUICK, r[2]) for r in rows]


PLAN["C12"] = rungs("h_intern", [
    ([k, 3, 0, 3, 0], 40, "3 " + n + " of up to 3 free ASCII bytes, and one looked up") for k, n in enumerate(["names", "prefixes", "URIs"])
] + [
    ([k, 3, 1, 1, 0], 40, "3 " + n + " of up to 1 free Unicode character") for k, n in enumerate(["names", "prefixes", "URIs"])
] + [
    ([k, 2, 2, 33, 0], 40, "2 long " + n + " up to 257 bytes with free ends") for k, n in enumerate(["names", "prefixes", "URIs"])
] + [
    ([k, 2, 0, 1, 600], 40, "2 " + n + ", then 600 more") for k, n in enumerate(["names", "prefixes", "URIs"])
] + [
    ([k, 3, 3, 8, 0], 40, "3 " + n + " of up to 8 free letters") for k, n in enumerate(["names", "prefixes", "URIs"])
] + [
    ([k, 4, 0, 3, 0], 300, "4 " + n + " of up to 3 free ASCII bytes", T) for k, n in enumerate(["names", "prefixes", "URIs"])
])
PLAN["C13"] = rungs("h_stack", [
    ([4, 3, 0], 60, "up to 4 operations, 3 prefixes, 3 URIs"),
    ([3, 4, 1], 60, "up to 3 operations, 4 prefixes, 3 URIs, XML namespaces"),
    ([5, 2, 0], 60, "up to 5 operations, 2 prefixes, 3 URIs"),
    ([3, 2, 0, 70, 0], 60, "up to 3 operations, 2 prefixes, 3 URIs, up to 70 frames between"),
    ([2, 2, 1, 2, 40], 60, "up to 2 operations, 2 prefixes, 3 URIs, up to 2 frames and 40 further prefixes between"),
    ([2, 2, 0, 1000, 0], 60, "up to 2 operations, 2 prefixes, 3 URIs, 128, 256 or 257 frames between"),
    ([2, 2, 0, 0, 1000], 60, "up to 2 operations, 2 prefixes, 3 URIs, 128, 256 or 257 further prefixes between"),
    ([5, 3, 0], 900, "up to 5 operations, 3 prefixes, 3 URIs", T),
    ([6, 2, 1], 900, "up to 6 operations, 2 prefixes, 3 URIs, XML namespaces", T),
])
PLAN["C14"] = rungs("h_name", [
    ([0, 0, 4], 60, "names from text, up to 4 free ASCII bytes"),
    ([0, 1, 2], 60, "names from text, up to 2 free Unicode characters"),
    ([1, 0, 3], 60, "names from parts, up to 3 free ASCII bytes each"),
    ([1, 1, 1], 60, "names from parts, up to 1 free Unicode character each"),
    ([2, 0, 1], 60, "two names, with a remapping between"),
    ([0, 2, 10], 60, "names from text, up to 10 free letters"),
    ([1, 2, 8], 60, "names from parts, up to 8 free letters each"),
    ([0, 0, 7], 600, "names from text, up to 7 free ASCII bytes", T),
    ([0, 1, 3], 600, "names from text, up to 3 free Unicode characters", T),
])
PLAN["C15"] = rungs("h_escape", [
    ([0, 3], 90, "3 free ASCII bytes, all options"),
    ([1, 2], 60, "2 free Unicode characters, all options"),
    ([2, 1], 60, "1 free ASCII byte between other text, all options"),
    ([4, 1], 60, "long texts with free bytes, all options"),
    ([5, 10], 60, "up to 10 free letters or digits in a reference or on their own, all options"),
    ([0, 4], 900, "4 free ASCII bytes, all options", T),
    ([1, 3], 900, "3 free Unicode characters, all options", T),
])
PLAN["C16"] = rungs("h_entity", [
    ([0, 6], 60, "6 free ASCII bytes"),
    ([1, 3], 60, "3 free Unicode characters"),
    ([2, 3], 60, "3 free ASCII bytes in 30 surroundings of references"),
    ([3, 1], 60, "1 free Unicode character in 30 surroundings of references"),
    ([4, 1], 60, "long texts with free bytes"),
    ([5, 7], 60, "up to 7 free letters or digits in a reference or on their own"),
    ([0, 8], 900, "8 free ASCII bytes", T),
    ([2, 5], 900, "5 free ASCII bytes in 30 surroundings of references", T),
])
PLAN["C17"] = rungs("h_unescape", [
    ([0, 5], 60, "5 free ASCII bytes"),
    ([1, 3], 60, "3 free Unicode characters"),
    ([2, 3], 60, "3 free ASCII bytes in 22 surroundings of escapes"),
    ([3, 1], 60, "1 free Unicode character in 22 surroundings of escapes"),
    ([4, 2], 60, "long texts with free bytes"),
    ([5, 8], 60, "up to 8 free letters or digits in an escape or on their own"),
    ([0, 7], 900, "7 free ASCII bytes", T),
    ([2, 5], 900, "5 free ASCII bytes in 22 surroundings of escapes", T),
]) + rungs("h_escapes", [
    ([2], 60, "2 pieces, each a free Unicode character or an escape of any kind with a free ASCII byte"),
    ([3], 900, "3 such pieces", T),
])
PLAN["C18"] = [
    Rung("h_convert", [f, n, o, x], l, t, text(f, n, o) + (", namespaces on" if x else ""))
    for f, n, o, x, l, t in [
        (0, 6, 0, 0, 40, QUICK), (2, 3, 0, 1, 60, QUICK), (3, 1, 0, 0, 40, QUICK), (4, 4, 95, 1, 60, QUICK), (10, 2, 1, 1, 40, QUICK),
        (7, 40, 0, 0, 40, QUICK), (6, 99, 0, 0, 40, QUICK), (11, 16, 0, 1, 40, QUICK), (10, 2, 18, 1, 40, QUICK), (0, 8, 0, 0, 600, T), (2, 4, 0, 1, 600, T), (4, 5, 127, 1, 600, T),
    ]
] + rungs("h_event", [
    ([2], 60, "built events of every kind with up to 2 free Unicode characters"),
    ([116], 60, "built events of every kind with up to 16 free printable characters"),
    ([3], 600, "built events of every kind with up to 3 free Unicode characters", T),
])
PLAN["C20"] = [
    Rung("h_layout", [f, n, o, x, k], l, t, text(f, n, o) + (", namespaces on" if x else "") + ", %d change(s) of layout" % k)
    for f, n, o, x, k, l, t in [
        (0, 5, 0, 0, 1, 60, QUICK), (2, 2, 0, 0, 1, 60, QUICK), (3, 1, 0, 0, 1, 60, QUICK), (4, 3, 79, 1, 1, 60, QUICK), (4, 3, 9, 0, 2, 60, QUICK),
        (10, 2, 0, 1, 1, 60, QUICK), (11, 8, 0, 1, 1, 60, QUICK), (0, 7, 0, 0, 1, 900, T), (2, 3, 0, 1, 1, 900, T), (4, 4, 95, 0, 1, 900, T), (4, 4, 15, 0, 2, 900, T),
    ]
]
PLAN["C21"] = [
    Rung("h_tool", [f, n, o, x], l, t, text(f, n, o) + (" on standard input", ", with any of 27 command lines", " on standard input, in pieces of 1 to 7 bytes")[x])
    for f, n, o, x, l, t in [
        (0, 5, 0, 0, 60, QUICK), (2, 2, 0, 0, 60, QUICK), (3, 1, 0, 0, 60, QUICK), (4, 3, 31, 0, 60, QUICK), (2, 1, 0, 1, 60, QUICK),
        (6, 20, 0, 0, 60, QUICK), (7, 20, 0, 0, 60, QUICK), (8, 4, 0, 0, 60, QUICK), (11, 12, 100, 0, 60, QUICK),
        (2, 1, 0, 2, 60, QUICK), (3, 1, 0, 2, 60, QUICK), (6, 1000, 1, 0, 60, QUICK), (6, 1000, 2, 0, 60, QUICK), (6, 1000, 3, 0, 60, QUICK), (6, 1000, 4, 0, 60, QUICK),
        (6, 1000, 101, 0, 60, QUICK),
        (0, 7, 0, 0, 600, T), (2, 3, 0, 0, 600, T), (3, 1, 0, 1, 600, T), (4, 4, 31, 0, 600, T), (6, 99, 0, 0, 600, T),
    ]
]
PLAN["C22"] = rungs("h_round", [
    ([0, 4], 60, "4 free ASCII bytes, all options"),
    ([1, 2], 60, "2 free Unicode characters, all options"),
    ([2, 2], 60, "2 free ASCII bytes between other text, all options"),
    ([4, 1], 60, "long texts with free bytes, all options"),
    ([5, 10], 60, "up to 10 free letters or digits in a reference or on their own, all options"),
    ([0, 6], 900, "6 free ASCII bytes, all options", T),
    ([1, 4], 900, "4 free Unicode characters, all options", T),
])
PLAN["C23"] = rungs("h_boxes", [
    ([3, 5, 3], 60, "trees of up to 3 elements, each a box or not, 5 kinds of content"),
    ([4, 2, 4], 60, "trees of up to 4 elements, each a box or not, 2 kinds of content"),
    ([5, 1, 5], 60, "trees of up to 5 elements, each a box or not"),
    ([4, 5, 4], 900, "trees of up to 4 elements, each a box or not, 5 kinds of content", T),
    ([6, 1, 6], 900, "trees of up to 6 elements, each a box or not", T),
])
PLAN["C24"] = [
    Rung("h_part", [f, n, o, x], l, t, text(f, n, o) + (", namespaces on" if x else "") + ", cut after any item")
    for f, n, o, x, l, t in [
        (0, 6, 0, 0, 60, QUICK), (2, 3, 0, 1, 60, QUICK), (3, 1, 0, 1, 60, QUICK), (4, 4, 31, 0, 60, QUICK), (4, 3, 127, 1, 60, QUICK),
        (8, 5, 0, 0, 60, QUICK), (10, 2, 1, 1, 60, QUICK), (7, 8, 0, 0, 60, QUICK), (11, 16, 0, 1, 60, QUICK), (10, 2, 16, 1, 60, QUICK),
        (0, 8, 0, 0, 600, T), (2, 4, 0, 1, 600, T), (3, 2, 0, 1, 600, T), (4, 5, 31, 0, 600, T), (10, 3, 1, 1, 600, T), (7, 40, 0, 0, 600, T),
    ]
]
PLAN["C25"] = [
    Rung("h_error", [f, n, o, x], l, t, text(f, n, o) + (", namespaces on" if x else ""))
    for f, n, o, x, l, t in [
        (0, 7, 0, 0, 60, QUICK), (1, 3, 0, 0, 60, QUICK), (2, 3, 0, 1, 60, QUICK), (3, 1, 0, 1, 60, QUICK), (4, 4, 31, 0, 60, QUICK), (4, 4, 93, 1, 60, QUICK),
        (5, 12, 0, 0, 60, QUICK), (6, 99, 99, 0, 60, QUICK), (6, 99, 199, 0, 60, QUICK), (8, 6, 0, 0, 60, QUICK), (10, 2, 3, 1, 60, QUICK),
        (11, 16, 0, 1, 60, QUICK), (10, 2, 18, 1, 60, QUICK), (6, 1000, 99, 0, 60, QUICK),
        (0, 9, 0, 0, 600, T), (2, 5, 0, 1, 600, T), (3, 2, 0, 0, 600, T), (4, 5, 127, 1, 600, T), (10, 3, 3, 1, 600, T),
    ]
] + rungs("h_made", [
    ([0, 4], 60, "errors of every kind made with up to 4 free ASCII bytes"),
    ([1, 2], 60, "errors of every kind made with up to 2 free Unicode characters"),
])
PLAN["C26"] = [
    Rung("h_tokens", [f, n, o], l, t, text(f, n, o))
    for f, n, o, l, t in [
        (0, 8, 0, 60, QUICK), (1, 3, 0, 60, QUICK), (2, 4, 0, 60, QUICK), (3, 1, 0, 60, QUICK), (4, 4, 63, 60, QUICK), (6, 99, 0, 60, QUICK),
        (6, 99, 199, 60, QUICK), (7, 60, 0, 60, QUICK), (9, 2, 0, 60, QUICK), (11, 24, 0, 60, QUICK), (7, 1000, 0, 60, QUICK),
        (6, 1000, 0, 60, QUICK), (6, 2000, 1, 60, QUICK), (6, 2000, 2, 60, QUICK), (6, 2000, 3, 60, QUICK),
        (0, 10, 0, 600, T), (1, 4, 0, 600, T), (2, 6, 0, 600, T), (3, 3, 0, 600, T), (4, 5, 127, 600, T),
    ]
]
PLAN["C27"] = rungs("h_attrs", [
    ([3, 0, 1, 0], 60, "up to 3 operations on two lists, 1 free ASCII byte in each name and value"),
    ([1, 1, 2, 1], 60, "1 operation, 2 free Unicode characters in each name and 1 in each value"),
    ([2, 1, 1, 0], 60, "up to 2 operations on two lists, 1 free Unicode character in each name and value"),
    ([2, 0, 1, 1], 60, "up to 2 operations on two lists, also with names that look like declarations"),
    ([1, 2, 10, 1], 60, "1 operation, prefixes, names and values of up to 10 free letters"),
    ([4, 0, 0, 0], 900, "up to 4 operations on two lists, fixed names", T),
    ([3, 0, 1, 1], 900, "up to 3 operations on two lists, also with names that look like declarations", T),
])
PLAN["C12"] += rungs("h_ids", [([0], 60, "ids and mappings of any two indices below 2^32")])
PLAN["C28"] = rungs("h_access", [
    ([2], 60, "events of every kind with up to 2 free Unicode characters, any version and position"),
    ([3], 60, "the same with up to 3 free characters"),
    ([116], 60, "the same with up to 16 free printable characters"),
])
PLAN["C29"] = [
    Rung("h_demand", [f, n, o, x], l, t, text(f, n, o) + (", namespaces on" if x else ""))
    for f, n, o, x, l, t in [
        (0, 6, 0, 0, 60, QUICK), (2, 3, 0, 1, 60, QUICK), (3, 1, 0, 1, 60, QUICK), (4, 4, 63, 1, 60, QUICK), (6, 99, 0, 0, 60, QUICK),
        (7, 30, 0, 0, 60, QUICK), (8, 5, 0, 0, 60, QUICK), (10, 2, 1, 1, 60, QUICK),
        (11, 16, 0, 1, 60, QUICK), (10, 2, 16, 1, 60, QUICK), (7, 1000, 3, 0, 60, QUICK), (7, 1000, 1, 0, 60, QUICK),
        (0, 8, 0, 0, 600, T), (2, 5, 0, 1, 600, T), (4, 5, 127, 1, 600, T), (7, 100, 0, 0, 600, T), (10, 3, 1, 1, 600, T),
    ]
]
PLAN["C30"] = [
    Rung("h_scope", [f, n, o, x], l, t, text(f, n, o) + (", namespaces on" if x & 1 else "") + (", mappings made before" if x & 2 else ""))
    for f, n, o, x, l, t in [
        (10, 3, 0, 1, 60, QUICK), (10, 2, 1, 3, 60, QUICK), (10, 2, 10, 3, 60, QUICK), (10, 2, 17, 3, 60, QUICK), (10, 2, 33, 1, 60, QUICK), (10, 2, 1, 2, 60, QUICK),
        (2, 2, 0, 3, 60, QUICK), (3, 1, 104, 3, 60, QUICK), (4, 4, 93, 1, 60, QUICK), (4, 3, 93, 3, 60, QUICK), (5, 10, 0, 0, 60, QUICK), (8, 5, 0, 2, 60, QUICK),
        (7, 30, 0, 1, 60, QUICK), (11, 12, 0, 3, 60, QUICK),
        (10, 3, 1, 3, 900, T), (10, 2, 55, 3, 900, T), (2, 4, 0, 3, 600, T), (4, 5, 127, 3, 900, T), (8, 7, 0, 2, 600, T),
    ]
]

# Code that must have been reached for a check to mean anything
REACH = {
    "C01": [1, 2], "C02": [1, 2], "C03": [1, 2], "C04": [5, 6, 7, 8, 9], "C05": [20, 21], "C06": [20, 21], "C07": [20, 21],
    "C08": [1, 2, 3], "C09": [20, 30, 31], "C10": [0, 1, 2, 3, 4, 40], "C11": [1, 2, 3], "C12": [1, 2, 3, 4], "C13": [1, 2, 3],
    "C14": [1, 2, 3, 4, 5, 6], "C15": [1, 2], "C16": [1, 2], "C17": [1, 2], "C18": [1, 2, 3, 4, 5], "C19": [1, 2], "C20": [1, 2, 3],
    "C21": [1, 2, 3], "C22": [1, 2], "C23": [1],
    "C24": [1, 2], "C25": [1, 2, 3, 4, 5, 6, 7], "C26": [1, 2, 3], "C27": [1, 2, 3, 4], "C28": [1, 2], "C29": [1, 2, 3], "C30": [1, 2],
}
# Where a panic means that the property fails, whatever the input
PANIC_FAILS = {"C01", "C12", "C13", "C14", "C15", "C16", "C17", "C21", "C22", "C27", "C28"}
# The harness program an entry belongs to
PROGRAM = {"h_unescape": "unescape", "h_escapes": "unescape", "h_tool": "converter", "h_tokens": "tokens"}
# Where what is printed matters
PRINTS = {"C21"}
