import json
ids=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
T="deterministic simulation: seeded search over schedules, random draws and faults of the real code in one process"
notes={
"C01":("seeded schedule search over the real grid search, checked against the recorded trainings and scores","Sampled schedules and configurations of the real search code; scores are chosen per combination and fold in most runs, real in the others. Trusts the instrumenter and the simulated channels and mutexes."),
"C02":("seeded schedule and failure search with deadlock, leak and step-bound detection","Liveness is bounded: a call must return within the step bound and leave no live task. Trusts the simulated channel semantics."),
"C03":("fault injection at chosen evaluations under seeded schedules","Evaluations fail at the seam of the fold sampler (and through data too small to split); what the caller is told is compared with what failed."),
"C04":("seeded schedule search, each step replayed under the simplest schedule and compared","Scores are a pure function of the options, so slopes are known; data races show as preemptions inside statements."),
"C05":("seeded schedule search over whole search histories, replayed under the simplest schedule and compared","The recorded evaluations are the oracle for the best one; in a few runs training is real."),
"C06":("seeded I/O fault injection and schedules, with bit-by-bit comparison of the model read back","Streams and disk are simulated; training, serialisation and prediction are the real code."),
"C07":("crash points, torn and lost blocks and truncations injected by seed on the simulated disk","A damaged file must be rejected or give the very model; corruption that leaves a different well-formed file (bit rot inside a number) is outside, since the format has no checksum."),
"C08":("disk faults and crashes injected by seed at chosen operations of real searches","Files left on the simulated disk are loaded by the real reader and compared with the models the search trained."),
"C09":("seeded stream and disk faults over generated tables, against the generator as reference","Tables and their rendering are generated, so the expected data are known."),
"C10":("seeded disk faults over generated name files, against the generator as reference","Name files are generated, so the expected map is known."),
"C11":("seeded and adversarial random draws and schedules, partition checked over the recorded folds","Random numbers go through the simulator, which also gives repeating and extreme draws."),
"C12":("seeded schedules and draws over real cross-validations, accuracies recomputed from the record","The data of every training and scoring are recorded at the two calls of the library a cross-validation makes."),
"C13":("seeded schedule search: results alone against results together","Preemption between statements and inside read-modify-write statements of the library; gonum and the standard library run atomically."),
"C14":("seeded schedule search with preemption inside the statements of an addition","Conservation of the sums over the recorded additions."),
"C15":("seeded data, draws and scripted losses; the ensemble compared with the recorded training","The loss function, which the library lets the user supply, records the training and in part of the runs scripts it."),
"C16":("draws chosen by seed; refinement: retraining with what was never drawn replaced","The draws are steered at the library's subsampling function; if the code draws in another way the part that depends on it abstains."),
}
try: exec(open("/verif/tools/manifest_extra.py").read())
except FileNotFoundError: pass
NA=globals().get("NA",{})
m={"version":1,"setup_cmd":"bash /verif/setup.sh","checks":[],"not_applicable":[{"property":k,"reason":v} for k,v in NA.items()],
"notes":"No hooks in /repo: the simulator is compiled against an instrumented scratch copy of /repo's working tree (sim/instr), in which goroutines, channels, maps, sync, os, time, log and math/rand go through the simulator. VERIF_SEED, VERIF_RUNS and VERIF_CAP override the seed, the number of runs and the seconds. bash /verif/run.sh replay FILE repeats a violation."}
for i in ids:
    if i in NA: continue
    t,n=notes[i]
    m["checks"].append({"property":i,"quick_cmd":f"bash /verif/run.sh {i} quick","thorough_cmd":f"bash /verif/run.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection: "+t,"level":"exploration","level_note":n+" Evidence over the sampled seeds, not a proof."})
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
