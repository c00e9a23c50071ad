#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl (run: python3 tools/manifest.py)."""
import json
MC, FE = "model_checking", "fault_enumeration"
T = "bounded exhaustive exploration of the real code against a reference model"
TL = "bounded exhaustive exploration of box trees on the real code in lockstep with an independent reference layout"
# id: (level, technique, note)
C = {
 "C01": (MC, T + " (stateless, all API call sequences)", "Complete up to the stated depth over the stated alphabet; oracle is an independent strict PDF reader. Trusts that reader."),
 "C02": (MC, T + " (stateless, all API call sequences)", "Complete up to the stated depth; oracle is a list of requested paint operations compared with our interpretation of the content streams."),
 "C03": (MC, T + " (exhaustive grid of float exponents and boundary mantissas)", "Complete over the float grid and decimal grid only; other mantissas are not covered."),

 "C09": (MC, T + " (all HTML token sequences, lockstep with the tokenizer library's reference DOM)", "Complete over token sequences up to the stated length; the reference DOM is the parser library's own RcDom, so a bug inside html5ever itself is out of scope."),
 "C10": (MC, T + " (all XML token sequences, lockstep with an independent well-formedness checker and tree builder)", "Complete over token sequences up to the stated length."),
 "C17": (MC, TL, "Complete over the enumerated box trees (up to 4 blocks, 5 thorough) and value alphabets; the oracle is our own reading of CSS 2.1 chapters 8 and 10, with collapsing margins computed as connected components."),
 "C18": (MC, TL, "Complete over the enumerated offsets/sizes/margins and ancestor chains; shrink-to-fit widths, floats and positioned inline containing blocks are outside the alphabet because victor does not implement them."),
 "C19": (MC, TL, "Complete over token sequences up to the stated length and the listed widths. Break opportunities are spaces only. One known finding: no break at run boundaries."),
 "C20": (MC, TL, "Complete over trees of up to four elements (five thorough); inline-block, floats and pseudo-elements are not in the alphabet."),
 "C12": (MC, T + " (all chains of three elements over explicit, missing and CSS-wide values)", "Complete over the listed values for every supported property; blockification of the root element's display is not in the alphabet."),
 "C15": (MC, T + " (every longhand crossed with a value-token alphabet)", "Complete over the token alphabet. Known findings: negative values and percentages accepted where CSS forbids them."),
 "C11": (MC, T + " (all assignments of competing declarations to origins, rules, sheets and the style attribute)", "Complete over the listed selectors and up to four declarations (five thorough)."),
 "C13": (MC, T + " (all selectors up to three compounds against documents that contain every small tree, compared with an independent matcher)", "Complete over the compound alphabet; dynamic pseudo-classes, namespaces declared with @namespace and quirks mode are outside it."),
 "C14": (MC, T + " (all token sequences, compared with an independent CSS Syntax parser)", "Complete over token sequences up to the stated length in six contexts; @media and other conditional rules are not in the alphabet."),
 "C16": (MC, T + " (all shorthand values, permutations and orders)", "Complete over the value alphabet. Known finding: four-value order of the sides, on which a stable reftest depends."),
 "C04": (MC, T + " (synthetic fonts over all combinations of metric, name, character map and directory shapes; all orders of use)", "Complete over the listed value grids. Trusts our PDF reader; the font builder is ours, so only fonts it can express are covered."),
 "C05": (MC, T + " (all segment and group lists over boundary code points, queried at every boundary)", "Complete over up to three segments (three groups in thorough) of the boundary alphabet, all encoding-record subsets, and every code point of the built-in font."),
 "C06": ("fault_enumeration", "exhaustive enumeration of corruptions of valid fonts (every truncation, every field, all pairs of navigated fields) executed on the real code", "Complete over the stated corruptions of three small fonts and over header/group value grids; overflow checks are on; 20 s and 1 GB per case."),
 "C07": (MC, T + " (all sequences of append, save, restore and clone up to a depth)", "Complete up to the stated depth; advance widths are observed only through inline layout."),
 "C08": (MC, T + " (all token sequences against page, margin, size and justification grids)", "Complete up to the stated length. Break opportunities outside letters, spaces and line feeds come from the xi-unicode library, which is trusted apart from mandatory breaks."),
 "C21": (MC, "stateless model checking of the real layout code under a controlled work-stealing scheduler: exhaustive enumeration of splits, steals, wake-up orders and bounded preemptions", "Complete for the listed documents up to the stated thread counts and preemption bounds (0 to 2); preemption points are joins and memory allocations. rayon-core's join is replaced by the controlled scheduler, bound to the real one by rendering in real pools of 1 to 8 threads."),
 "C23": (FE, "exhaustive fault injection on the real code: every write call, pairs of them, and every file size limit", "Complete for the listed documents: every single fault position, pairs up to 60 calls apart (all pairs in thorough), histories up to five operations; file faults are a size limit after every byte, /dev/full and unusable paths."),
 "C24": (FE, "exhaustive fault injection on the real code: every stream call, all pairs of calls, every truncation, every corrupted byte", "Complete for twelve images of six sizes; what a corrupted image decodes to is libpng's business, only how it is reported is checked."),
 "C25": (MC, T + " (all sequences of iterator operations and of object lifetimes, with poppler's objects tracked by interposed calls)", "Complete up to the stated depth on documents of zero to four pages. Trusts poppler for the page order of a valid file."),
 "C22": (MC, T + " (every Unicode character, all sequences of runs, all token sequences, read back by poppler)", "Complete over the stated alphabets; poppler's word and column heuristics limit the layouts that can be compared, and it normalises white space and noncharacters."),
 "C27": (FE, "exhaustive enumeration of inputs, argument kinds and output room, each in a process of the real program", "Complete over the listed inputs; every amount of output room for small documents (a grid for the largest)."),
 "C26": (MC, T + " (size, scale and backdrop grids, all arrangements of up to three rectangles)", "Complete over the listed grids; colours are compared with a tolerance of one level per translucent layer."),
}
NOT_YET = "no check built yet in this revision"
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "bash ./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in C:
        l, t, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"bash ./run.sh {i} quick", "thorough_cmd": f"bash ./run.sh {i} thorough", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_YET})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
