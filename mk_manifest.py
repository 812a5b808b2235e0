import json
T="deterministic simulation: seeded search over schedules, histories and fault sequences"
notes={
"C01":"Seeded search: the real library runs under a scheduler that may switch threads before any instrumented memory access; each call is compared with its solo run. Trusts the instrumentation (g++ -fsanitize=thread callbacks) to expose accesses, assumes sequential consistency; does not enumerate all interleavings.",
"C02":"Seeded search over histories and environments (heap fill, placement, stack residue, clock, rand); byte equality with the pristine run. Not exhaustive.",
"C03":"Every access of the instrumented library and every libc copy is checked against live blocks in each simulated run; accesses inside uninstrumented libstdc++/zstd are only fenced by guard zones.",
"C04":"The simulated heap's ledger is compared before and after repeated histories; inputs and histories are sampled.",
"C05":"Allocation failures (single, from-then-on, by size) injected at seeded ordinals; result compared with the fault-free run or must be a visible failure. Sampled, not all ordinals of all inputs.",
"C06":"Bound oracle over every element of every load in seeded multi-session histories with crashes, short and interrupted I/O. Fields up to 1600 elements (6000 thorough). Slack only for the representation rounding stated in DESIGN.md.",
"C07":"As C06 for the eight 2D vector-field compressors.",
"C08":"Critical-point oracle in 80-bit floating point; cells within rounding of degeneracy are skipped and counted.",
"C09":"Seeded cuts, torn writes and kills while storing; byte equality or a reported failure.",
"C10":"Readers and programs on the simulated disk with seeded fault lists; only delivered faults count.",
"C11":"Writers and programs on the simulated disk with seeded fault lists including full disks of every size class.",
"C12":"Programs killed at seeded steps and I/O calls, rerun on the surviving disk until one completes; compared with the undisturbed run.",
"C13":"Sections of many alphabets encoded back to back, decoded by concurrent threads; exact symbols and cursor. Sampled.",
"C14":"As C06 for the 3D compressors, compiled against a stand-in for FTK (not installed here), so FTK itself is trusted.",
"C15":"Sizes of all archives stored in seeded histories against limits that leave a margin over everything seen; not a statement about ratios beyond those limits.",
"C17":"Type oracle by signs of determinant, trace, discriminant in 80-bit floating point on seeded histories; cells within rounding of a change are skipped and counted.",
"C18":"Determinant oracle per tetrahedron on seeded histories; near-degenerate ones are skipped and counted. FTK is replaced by a stand-in.",
"C19":"Bit equality at the corners of cells with a clear critical point on seeded histories.",
"C20":"Printed figures and output files recomputed from the simulated disk after seeded kills, reruns, clock jumps and I/O hiccups.",
}
m={"version":1,"setup_cmd":"bash build.sh","checks":[],"not_applicable":[
 {"property":"C16","reason":"arbitrary byte strings are an input-fuzzing question; the code makes no attempt to validate streams beyond truncation at the lossless stage (decided as C09), and no scheduling, fault or timing dimension is involved"}],
 "notes":"No hooks in /repo: the simulator interposes at link level (symbol redefinition) and through compiler instrumentation."}
for p in sorted(notes):
    m["checks"].append({"property":p,"quick_cmd":"VERIF_TIER=quick python3 check.py "+p,"thorough_cmd":"VERIF_TIER=thorough python3 check.py "+p,"evidence_file":"evidence/%s.json"%p,"technique":T,"level":"exploration","level_note":notes[p]})
json.dump(m,open("MANIFEST.json","w"),indent=1)
