"""Write MANIFEST.json for the property modules that exist (python3 tools/mkmanifest.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "generated programs against a reference assembler (hypothesis, differential)"
META = "generated programs, metamorphic relation (hypothesis)"
NOTE = ("Random search: %s Trusts the reference in pbt/model.py and pbt/isa.py, written from the language description. "
        "Bounded program sizes; says nothing beyond the explored cases.")
T = {
    "C01": (MODEL, "every mnemonic and form is enumerated with boundary operands, further operands and symbols are random."),
    "C02": (MODEL, "all mnemonics, forms and cpu/illegal switch combinations are generated."),
    "C03": ("generated expression trees against an evaluator, in nine contexts (hypothesis)", "random trees up to 14 leaves."),
    "C04": (MODEL + " and equate moving / renaming relations", "programs with forward chains of symbols."),
    "C05": (MODEL, "layouts with origins, reservations, .end and both headers."),
    "C06": ("generated branches executed on a 6502 simulator, with a reference layout (hypothesis)", "distances around the limits are over-sampled."),
    "C07": (MODEL, "all data directives with values around each limit."),
    "C08": ("generated strings against their bytes, in all string directives (hypothesis)", "all escapes and printable characters."),
    "C09": (META + ": the selected text alone assembles to the same", "nested conditionals with noise in skipped text."),
    "C10": (META + " and reference: loops against their unrolled text", "nested loops of all four kinds."),
    "C11": ("generated register loops executed on a 6502 simulator (hypothesis)", "all bounds are sampled, boundary ones over-sampled."),
    "C12": (META + " and reference: macro calls against substituted bodies", "nested calls with expressions as arguments."),
    "C13": (MODEL + " and renaming to unique labels", "reused local and anonymous labels."),
    "C14": (MODEL + " and renaming of sections", "nested sections with shadowing."),
    "C15": (META + ": the joined text, and reference", "splits into includes, inputs and directories."),
    "C16": ("listing parsed and compared with a reference trace and the sources (hypothesis)", "programs with every construct."),
    "C17": ("symbol file parsed and compared with the reference's symbols (hypothesis)", "programs with every kind of symbol."),
    "C18": ("generated command lines against a model of the options (hypothesis)", "random order, case and prefix."),
    "C19": ("generated valid programs with one injected error: fault injection with a rejection oracle (hypothesis)", "one error per program, about 60 kinds."),
    "C20": (META + ": rewritten layout, case, comments and synonyms", "every rewriting is applied at random places."),
    "C21": (MODEL + " of the console output", "prints in all constructs."),
    "C22": (MODEL + " and substitution of the current values", "assignments in all constructs."),
    "C23": ("structure-aware mutation fuzzing of sources and command lines under address and undefined behaviour sanitizers", "sanitizers detect memory errors; time limits detect hangs."),
    "C24": ("generated operation histories against a map model (stateful, hypothesis)", "the real dictionary through a driver under sanitizers."),
    "C25": ("generated operation histories against a list model (stateful, hypothesis)", "the real stack through a driver under sanitizers."),
    "C26": ("generated directory trees against a model of the conversion (hypothesis)", "runs the real tool in a scratch tree."),
    "C27": ("generated programs assembled repeatedly in varied environments (metamorphic, hypothesis)", "directories, names, environment and old files vary."),
    "C28": ("generated valid programs with one injected error at a known place, against the place reported (hypothesis)", "one error per program, about 60 kinds, in every construct and file."),
}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    have = [p for p in ids if os.path.exists(os.path.join(HERE, "pbt", "props", p.lower() + ".py"))]
    m = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": [{
            "property": p,
            "quick_cmd": "./check %s quick" % p,
            "thorough_cmd": "./check %s thorough" % p,
            "technique": T[p][0],
            "level": "exploration",
            "level_note": NOTE % T[p][1],
        } for p in have],
        "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in ids if p not in have],
        "notes": "No hooks: every check drives the unmodified sources of the working tree, built outside /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
