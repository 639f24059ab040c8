"""Per-property configuration of the checks."""
PROPS = {f"C{i:02}": {} for i in range(1, 29)}
PROPS["C10"]["opts"] = {"as": 24 << 30, "hang": 400}
PROPS["C02"]["opts"] = PROPS["C03"]["opts"] = {"as": 24 << 30}
PROPS["C12"]["opts"] = {"as": 12 << 30}
PROPS["C21"]["special"] = "c21"
PROPS["C18"]["special"] = "c18"
PROPS["C17"]["special"] = "c17"

HOST = "x86-64, little-endian host; rustc, std and the dependencies (rayon, nalgebra, serde) are correct"
REF = "the reference model in harness/src/model.rs and the scenario is what the property says"
for _p in PROPS.values():
    _p.setdefault("assumptions", [HOST, REF])
PROPS["C13"]["assumptions"] = [HOST, REF, "the r2r, rosrust and rosrust_msg stubs have the public fields of the real crates"]
PROPS["C09"]["assumptions"] = [HOST, REF, "rayon calls producers and consumers as its plumbing documents; data races inside one next() call are excluded by the types (no unsafe sharing)"]
PROPS["C05"]["assumptions"] = [HOST, REF, "an access outside a buffer is seen when it leaves the buffer towards a guard page (both sides are tried)"]

SMC = "stateless model checking of the real code: exhaustive enumeration of "
for _p, _t in {
    "C01": "clouds, values, writer/reader pairs and parallel source schedules, against identity",
    "C02": "field arrangements and shapes, against a byte-level reference reader",
    "C03": "big-endian field arrangements and shapes, against a byte-level reference reader",
    "C04": "messages within bounded departures from well-formed ones, readers against each other",
    "C05": "malformed messages x allocator placements with guard pages, against a reference reader",
    "C06": "field subsets and near-miss names, against set difference",
    "C07": "operation sequences on the iterator, against a deque",
    "C08": "split trees interleaved with consumption, against slices",
    "C09": "split trees and interleavings under a controlled scheduler, against the sequential result",
    "C10": "clouds and writers, against the message description",
    "C11": "written and mapped messages of every type, against the compiler's layout",
    "C12": "builder inputs, against the documented predicate",
    "C13": "message attributes and integrations, against an attribute map",
    "C14": "scalar values (complete for 8 and 16 bits), against to_le_bytes/to_be_bytes",
    "C15": "codes, names and layouts, against the ROS table",
    "C16": "colours (all 2^24) and packed patterns, against arithmetic on 0xRRGGBB",
    "C19": "values and serialization formats, against bitwise equality",
    "C20": "coordinates, against IEEE widening and narrowing",
    "C23": "pairs and chains of point types, clouds and values, against projection by field name",
    "C24": "encodings, values, byte orders, writers and readers, against the encoding's own definition",
    "C25": "field values of every predefined point, against the fields",
    "C27": "sequences, nestings, interleavings and thread schedules of conversions, against each conversion alone in a process of its own",
    "C28": "buffer lengths, attributes, message libraries, readers, writers, faults and split trees, with every allocation counted",
    "C26": "faulty messages, builder inputs, lookups and layouts, against the faults present",
    "C22": "panic positions in user code x histories, against call logs and live counts",
}.items():
    PROPS[_p]["technique"] = SMC + _t
PROPS["C17"]["technique"] = "bounded exhaustive enumeration of programs (struct definitions) compiled with the real derive macro, then stateless model checking of each one's clouds and messages against offset_of!/size_of"
PROPS["C18"]["technique"] = "bounded exhaustive enumeration of programs over a grammar, the compiler's verdict on each against the specified one"
PROPS["C21"]["technique"] = "bounded exhaustive enumeration of conversions in every build configuration, transcripts compared"
