#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
NOTE = {
 "C01": "TLC explores a sender, a link and a receiver of commands (all orders of action kinds up to a bound, random longer ones); every finished behaviour is replayed in the library: built, encoded, decoded, compared.",
 "C02": "Every kind of action with seeded operands; TLC checks the round trip on the specification, the library must produce the same bytes and values.",
 "C03": "Interface configurations, statuses, addressees and LoRaWAN settings; as C02.",
 "C04": "Every query kind, with and without mask, operands across the size boundaries; as C02.",
 "C05": "All system files and their parts; data actions whose declared length and contents agree or not.",
 "C06": "Background, foreground, network and transport frames; as C02, plus what follows a frame.",
 "C07": "The library's whole table of encodings (thorough: all 2^30 lengths; quick: all up to 2^22, all boundaries and a stride) is judged by TLC.",
 "C08": "The library's whole table of compressed values, both roundings, and all bytes, is judged by TLC.",
 "C09": "Observations of the library on mutated and random inputs, and recorded stepwise sessions, are judged by TLC; panics, aborts, hangs and overreads are violations.",
 "C10": "One byte of a valid item takes all 256 values; the specification says which are defined, the library must agree; plus judged observations.",
 "C11": "All cut points of items and commands; the library must report incompleteness exactly as the specification says.",
 "C12": "Items followed by other bytes and operands with disagreeing lengths; the reported remainder must be the specified one.",
 "C13": "Concatenated commands, indirect forwards and frames on the specification, replayed; recorded stepwise sessions are checked to be behaviours of the receiver.",
 "C14": "Alternative encodings of the same value made by the specification; library re-encodings must be the canonical one; plus judged observations.",
 "C15": "All sequences of tag, status and other actions up to a bound; the accessors must report what the specification says.",
 "C16": "As C15, for the text of a command.",
 "C17": "Readers and writers in a model with chunking, interruptions and faults at every position, replayed against all entry points; recorded sessions.",
 "C18": "All histories of field changes and updates up to a bound on the specification, replayed in the library; constructors and default values of every item.",
 "C19": "Every field at and beyond its bounds; the library must accept or refuse exactly as specified.",
 "C20": "A model of the command line's dispatch generates requests, run against the real binary.",
 "C21": "The complete id tables of the library and the numbers of its named operation and status codes are judged by TLC.",
 "C22": "Four instances of the specification, one per flavour, receive the same bytes; replayed in the library built for each flavour.",
 "C23": "All interleavings of two users with two items each on the specification (isolation is an invariant), executed step by step in the library with threads, and nested in the middle of an item on one thread.",
}
BASE = " Trusted: TLC, the harness that maps specification values to library values, and the specification's reading of the format. Operand values are sampled with a seed, structure is enumerated."
LEVEL = {}
checks = []
for i in range(1, 24):
    p = "C%02d" % i
    checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "technique": "TLA+ specification checked with TLC, " + (
                       "recorded tables validated against it" if p in ("C07", "C08", "C21") else
                       "recorded observations validated against it" if p == "C09" else
                       "its behaviours replayed in the code" + (" and recorded traces validated against it" if p in ("C10", "C11", "C12", "C13", "C14", "C17") else "")),
                   "level": LEVEL.get(p, "model_checking"), "level_note": NOTE[p] + BASE})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. check.py --replay FILE tries the input of a violation again."},
          open("MANIFEST.json", "w"), indent=1)
