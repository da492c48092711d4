"""design.py: DESIGN.md = tools/design_head.md + one section per property + tools/design_tail.md"""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(HERE))
import props  # noqa
from symex.api import widened  # noqa

NOTES = {
    "C01": "Every constructor argument and every setter gets a symbolic value over a range well past the legal one; the oracle restates the legal domain (clamp, refuse, power of two, pitch name in step with pitch). Refused edits must leave the note as it was.",
    "C02": "Two notes with four symbolic times; the answer must equal `max(starts) < min(ends)`, in both directions.",
    "C03": "All six operators and equality over two notes, transitivity over three. Times are either equal or further apart than the comparison tolerance of the code; inside the tolerance only consistency is asked for.",
    "C04": "One division per question: time and grid are symbolic, steps per second come from a list (each one a linear query). The oracle is `floor(t*sps + 1 - amount)` and the minimum length of one step; re-quantising, defaults and refusals are separate harnesses.",
    "C05": "Every field not named by the operation must be unchanged; shifted/stretched times are compared with the exact rational result, clamping at zero included.",
    "C06": "An arbitrary sequence is built, then one to three symbolic edits out of ten kinds are applied; after each one `total_time == max(end of notes)` (plus what the constructor was told). `total_time_wide` repeats this for longer lists, so that bugs needing more notes show.",
    "C07": "Multisets of note identities (all fields) before and after; refusals (drum/instrument mismatch) exactly when documented and without effect.",
    "C08": "The kept notes are compared, as a multiset of field tuples, with those a three-line filter gives; clipped ends, totals, source unchanged, lists not shared.",
    "C09": "Every field of the clone equals the source's; every mutable part is edited in the clone and must stay unedited in the source, and vice versa.",
    "C10": "After quantising, each note and control change has the steps the note rule of C04 gives; totals equal the maximum; the copy variant leaves the source alone.",
    "C11": "Symbolic list of changes given in any order by any of the ways to give them; the answer at a symbolic time is the last one up to it (ties: latest added), the default before the first.",
    "C12": "As C11, sliced by a symbolic bound: exactly those up to it, in order, without the initial one where documented; the source not reordered.",
    "C13": "Histories of up to three operations (create, get, add a note, trim, truncate) over symbolic ids are run against a dictionary model of the container.",
    "C14": "Histories of up to four operations over symbolic keys are run on the sorted dictionaries and on a plain dict + sort.",
    "C15": "Algebra of closed intervals over symbolic bounds: each law is one assertion.",
    "C16": "A symbolic sequence is grouped by the real code; every kept note appears in exactly the group of its (rounded) time, groups ascend, the tolerance found from the percentile is recomputed by the oracle.",
    "C17": "The oracle counts transitions between the consecutive chords of the oracle's grouping and compares nodes, edges, weights and source/target sets with the graph.",
    "C18": "Feature vectors are recomputed from pitches and velocities; rescaled velocities must be monotone, in range and hit their ends. One-hot encodings of all values.",
    "C19": "The label mapper is fed symbolic chords; label->chord and chord->label must be inverse, labels dense, equal chords equal labels.",
    "C20": "The emitted PyG data objects are compared with the graphs: once each, labels, node features, edge index in the same node order, weights.",
    "C21": "The dataset class runs with its storage replaced by a recording stand-in; files, splits, masks and hooks are compared with the pieces given. Splits: disjoint, covering, of the sizes asked for.",
    "C22": "Transforms run on symbolic tensors with a symbolic permutation / random vector; every kept row, mask, target and edge must be the one of the same old node.",
    "C23": "A track of symbolic events (kind, pitch, velocity, channel, distance) is parsed by the real parser; the oracle pairs on/off events as a midi synthesizer would.",
    "C24": "Tempo changes at symbolic ticks; the oracle is the sum of (length x tick length). Inverse up to rounding, monotone.",
    "C25": "As C23 plus the conversion to pieces, tracks, programs, names, signatures; given as a path, as bytes and as an open file.",
    "C26": "Root symbolic over all pitch classes and octaves (and texts), every scale type; textbook step patterns are the oracle.",
    "C27": "Root symbolic, every chord and interval name; textbook semitone tables are the oracle; compound intervals add an octave.",
    "C28": "Constructors over symbolic integers and rates: accepted exactly when legal; derived units are consistent; order by time.",
    "C29": "Frame counts cover the span; the nearest step is nearest; refusals.",
    "C30": "As C01 for control changes and pitch bends; copying, equality, quantisation.",
    "C31": "Symbolic programs, bank numbers and drum flag; family table and dict round trip.",
    "C32": "Symbolic numbers in place of the values of the JSON text; every subset of fields left out.",
    "C34": "A symbolic piece is written by the real exporter through a stand-in for mido's file layer, and read by the real reader; what comes back is compared as multisets. Replays use real files.",
    "C35": "Stand-in file layer with a version stamp: a refused write leaves the stamp, an accepted one changes it.",
    "C36": "Half-open interval algebra over symbolic bounds.",
    "C37": "A tree of symbolic intervals is built by the real code; every query equals the filter over the list.",
    "C38": "As C37 for every edit, plus the tree's own invariants (its `verify`) after every edit.",
    "C39": "Graphs with symbolic edge sets over four nodes; `is_connected` and merging against a set model; all doors to a builder give the same graphs.",
    "C40": "Beat times are recomputed by integrating tempo over time; the number of beats forks.",
    "C42": "The real exporter, its re-timing step and the real reader run in one go over symbolic ticks; the file system and mido are the stand-ins of the reader harness.",
    "C43": "The real summing and folding runs on numpy object arrays of symbolic numbers; instruments are stand-ins that return given arrays and record what they were asked.",
    "C41": "The real re-timing code runs with symbolic event times and concrete mappings; the oracle is the straight-line interpolation.",
}


def bounds(prop):
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "..", "harness", "h_*.py"))):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                        ps = [a.value for a in d.args if isinstance(a, ast.Constant)]
                        if ps[0] == prop:
                            narrow = any(k.arg == "narrow" for k in d.keywords)
                            out.append((n.name, ps[1] if narrow else widened(ps[1]), os.path.basename(f)))
    return out


txt = [open(os.path.join(HERE, "design_head.md")).read().rstrip(), ""]
for q in props.P:
    hs = bounds(q["id"])
    txt += [f"### {q['id']} {q['title']}", "", NOTES[q["id"]], "",
            f"Harnesses ({', '.join(sorted({f for _, _, f in hs}))}), each decided for every value of its inputs within its bounds:", ""]
    txt += [f"- `{n}`: {b}" for n, b, _ in hs]
    txt += ["", f"Summary of bounds: {q['_note']}.", ""]
seeds = []
for f in sorted(glob.glob(os.path.join(HERE, "..", "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.append(f"- `{os.path.basename(os.path.dirname(f))}` ({d['property']}): {d['what_it_breaks'].rstrip('.')}. Needs: {d['needs'].rstrip('.')}.")
txt.append(open(os.path.join(HERE, "design_tail.md")).read().rstrip().replace("SEEDED", "\n".join(seeds)))
open(os.path.join(HERE, "..", "DESIGN.md"), "w").write("\n".join(txt) + "\n")
