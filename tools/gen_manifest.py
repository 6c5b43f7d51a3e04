#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
TRUST = (" Trusts the engine's SSA semantics, its models of runtime, sync, strings/strconv and logging calls "
         "(listed in DESIGN.md) and z3; every counterexample is replayed on the natively compiled code before it is "
         "reported, and one completed path in some is replayed natively to validate the encoding.")
NOTE = {
 "C01": "All record sequences up to the stated record counts and lengths, every address, byte and digit, 1-4 workers.",
 "C02": "All single corruptions (checksum, digit, colon, byte count) of files up to the stated record counts, 1-4 workers.",
 "C03": "All record sequences up to the stated record counts and lengths, every address, byte and digit, 1-4 workers.",
 "C04": "All single corruptions (checksum, digit, start letter, byte count) of files up to the stated record counts, 1-4 workers.",
 "C05": "All address combinations of files up to the stated record counts, both formats, 1-4 workers.",
 "C06": "1-8 workers under the default schedule, 2-3 workers under every schedule within the delay bound, with a happens-before race detector.",
 "C07": "Every object kind with every mandatory value symbolic (any identifier, text, number in range) and every enumeration keyword; two objects per file; one worker and two workers.",
 "C08": "Every optional keyword of every object kind alone, all together and all in reverse order, every two of them in either order, values symbolic, list lengths 1-13, repeats 1-7; a second object follows; one and two workers.",
 "C09": "Every object kind around a filler of every length up to the stated one, so that the part boundaries fall on every token; 1-5 workers; schedules within the delay bound with a happens-before race detector.",
 "C10": "Every number and enumeration position of every object kind with all its options: any unknown word, any out-of-range integer, any fraction.",
 "C11": "Every cut position in the tokens of every object kind with all its options, and of project, header and modules.",
 "C12": "All texts made of up to two words or texts of the stated lengths with any separator and comment between and around them, and a whole file with a separator or comment at every gap; 1-4 workers.",
 "C13": "All combinations of valid, malformed, truncated and missing A2L files with valid, corrupt and missing hex files of both formats, all extensions up to the stated length, schedules within the delay bound.",
 "C14": "All identifiers and all combinations of object kinds sharing a name, within the stated object counts.",
 "C15": "Power-of-two borders: every 32-bit address; arbitrary borders: small addresses; all datatypes and presence combinations.",
 "C16": "All byte values, datatypes, byte orders and slice lengths 0..9.",
 "C17": "All positions, datatypes, borders and hex images within the stated component and point counts.",
 "C18": "All raw values, coefficients and table contents within the stated table sizes (quadratic rational inverse: a fixed family of coefficients).",
 "C19": "Every single component with every datatype and position, every ordered pair (thorough: triple) of components with any positions, and all components at once, read from RECORD_LAYOUT text.",
 "C20": "Every byte string up to the stated length and number of lines.",
 "C21": "Inside every object kind: every one or two tokens replaced or inserted by any word, keyword or number, and premature ends.",
 "C22": "Every keyword of every enumeration, and any other token, in the enumeration's reader and at every enumeration position of every object kind.",
 "C24": "All identifiers, image bytes, byte orders and borders for layouts of three components, 1-2 axis points, from the text of both files.",
 "C23": "Every pair of files within the stated record or token counts.",
}
NA = {}
exec(open(os.path.join(here, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(here, "tools", "manifest_extra.py")) else None
checks, na = [], []
for i in ids:
    if i in NOTE:
        checks.append(dict(property=i, quick_cmd=f"bin/engine check {i} quick", thorough_cmd=f"bin/engine check {i} thorough",
            technique="bounded symbolic execution of the real Go code (go/ssa) with an SMT solver (z3)",
            level="model_checking", level_note=NOTE[i] + TRUST))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check under construction: harness not yet committed.")))
m = dict(version=1,
    setup_cmd="mkdir -p bin evidence && cd engine && GOFLAGS=-mod=vendor go build -o ../bin/engine .",
    checks=checks, not_applicable=na,
    notes="No hooks in /repo: harnesses are added to the packages by an overlay at load time. See DESIGN.md.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
