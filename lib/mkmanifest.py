import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="symbolic execution of the real generic code over a symbolic scalar; "
note_lin=("For every listed base and size the real code is executed with symbolic array entries and each output is compared by z3 (QF_LRA) with an independent specification over all real inputs; "
  "unsat means no input within [-1,1]^n (hence, the operations being linear, none at any scale) differs by more than the tolerance plus an accumulated rounding bound. Trusts: the scalar type's recording of operations (compared with the compiled f64 code at random points), z3, "
  "the rational specification. Sizes beyond the bounds, SIMD FFT kernels and bit-level rounding are outside.")
note_eq=("For every listed instance the variant and its reference run on the same symbolic data; hash-consed terms must be the same (EUF), otherwise z3 (QF_LRA) decides whether they can differ beyond rounding. "
  "Shapes, axes and sizes are bounded as listed in the evidence; ndarray and the standard library run as they are; the thread pool is replaced by a scheduler that owns every steal and switch.")
note_mpi=("The real decomposition, transposition and space code runs on every rank in one process over a model of the MPI collectives (counts and displacements checked against the buffers); local data are symbolic. "
  "Trusts the MPI model; shapes and process counts bounded as listed.")
lv={}
for p in ["P01","P02","P03","P04","P05","P06","P07","P08"]: lv[p]=(T+"z3 decides output = specification over all real inputs (LRA)",note_lin)
for p in ["P09","P10","P11","P12","P13","P14"]: lv[p]=(T+"term identity, else z3 (LRA) decides equality of variant and reference",note_eq)
lv["P10"]=(T+"enumerated thread schedules with symbolic data; term identity, else z3 (LRA)",note_eq)
lv["P14"]=(T+"call histories and thread switches with symbolic data; term identity, else z3 (LRA)",note_eq)
lv["P13"]=(T+"z3 decides gradient = scaled composition with symbolic data and symbolic scales",note_eq)
lv["P15"]=("evaluation of the real code per size; z3 decides coordinate = documented value within tolerance","Every size in the range is decided; there is no data input. Larger sizes are outside.")
lv["P16"]=(T+"every access of the real code bounds-checked on all symbolic paths, z3 decides path feasibility","Each listed combination of base, size and argument lengths is executed on symbolic data in a build where unchecked accesses are checked and buffers are guarded; a combination either completes with untouched guards, or panics, as required. Lengths beyond the bounds are outside.")
for p in ["P17","P18","P19","P20"]: lv[p]=(T+"all ranks over an MPI model; term identity, else z3 (LRA)",note_mpi)
lv["P17"]=("Kani/CBMC over symbolic extents for the decomposition tables; "+T+"splitting of symbolic arrays",note_mpi+" The table of Distribution::new is additionally decided for all extents up to 255 per process count by CBMC on the compiled code.")
lv["P18"]=(T+"all ranks over an MPI model, term identity, else z3 (LRA); Kani/CBMC over symbolic extents and ranks for counts and displacements",note_mpi+" Counts and displacements are additionally decided by CBMC for all extents below 16 (32) and process counts 1-2 (thorough 3).")
lv["P19"]=(T+"all ranks over an MPI model, term identity, else z3 (LRA); Kani/CBMC over symbolic extents and ranks for the gather counts",note_mpi+" Gather counts are additionally decided by CBMC for all extents below 16 and process counts 1-3 (thorough 4).")
lv["P21"]=(T+"all comparison paths forked, z3 decides that each accepting (rejecting) path implies (refutes) the tolerance","All pairs of sequences of the listed lengths over the reals; lengths 1 to 3 additionally bit-precisely, NaN and infinities included, by Kani/CBMC on the compiled code.")
m={"version":1,
 "setup_cmd":"./run.py setup",
 "hooks":{"guard":"funspace_verif","enable":"RUSTFLAGS='--cfg funspace_verif' (set by lib/engine.py for its own target directory under /verif/build)","source_commits":["1579e26"]},
 "checks":[{"property":p["id"],"quick_cmd":"./run.py %s quick"%p["id"],"thorough_cmd":"./run.py %s thorough"%p["id"],
   "technique":lv[p["id"]][0],"level":"model_checking","level_note":lv[p["id"]][1]} for p in props],
 "not_applicable":[],
 "notes":"see DESIGN.md; known_findings.txt lists the defects found and repaired"}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
