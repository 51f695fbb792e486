import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
CV=["cv/cv.go","cv/grad.go","cv/hybrid.go"]
p("C01","Grid search evaluates every combination once and returns the measured best",
"A grid search that ends without an error has cross-validated every combination of the requested hyperparameter values exactly once, with the folds, kind of booster, early stop and minimum sample requested and never more combinations at a time than workers requested. The accuracy it returns is the highest one measured, the options it returns are those of a combination that measured it, and the accuracies it lists are the measured ones. Neither its data nor its grid options change.",
["schedules","configurations","inputs"],
"every grid, data set, number of folds and workers, every assignment of scores to combinations (ties included) and every interleaving of the worker tasks",
"The tests run one grid on one data set under whatever schedule the runtime picks and look at the accuracy printed; batches that do not fill the workers, ties, and late or reordered workers are not reached, and these tests are not among the stable ones.",
CV,[("batches of goroutines, one channel per result kind and worker","cv/cv.go Grid"),("options cloned before a worker gets them","cv/cv.go Grid"),("best kept while draining the channels","cv/cv.go Grid")],
["return values of the search","options and data of every training"],[("best accuracy and options","the best combination drained so far","cv/cv.go Grid")])
p("C02","Every search and cross-validation returns and leaves no goroutine behind",
"A hyperparameter search, a gradient step or a cross-validation returns after a bounded number of steps whatever order its goroutines run in, whatever the configuration (no workers requested, one or no rows, one fold, an empty range, a range whose step does not advance, default options) and whichever of its evaluations fail. Every goroutine it started ends by itself as well, none is left blocked or running for ever, and no panic, deadlock or send on a closed channel happened.",
["schedules","configurations","fault_sequences"],
"every entry point, degenerate or ordinary configuration, set of failing evaluations and interleaving of all tasks",
"A test sees a hang only on the schedules and failures it happens to run; none injects a failing evaluation or asks for zero workers, and leaked goroutines are invisible to all of them.",
CV+["utils/stat.go"],[("one result per worker on each of its channels, on success and on failure","cv/cv.go MultiClassCrossValidation, cv/grad.go ParamaterGradStep, GradStep"),("buffered or drained channels","cv/cv.go Grid, cv/grad.go")],["return of the call","tasks alive afterwards"])
p("C03","A failed evaluation is reported and never turned into a result",
"If the evaluation of a candidate of a search fails, the search returns an error and no best options. If only a probe that estimates a slope fails, the parameter it probes does not move, and if the evaluation of the starting point fails nothing moves. A cross-validation delivers exactly one outcome, the error or the accuracy with the options it evaluated, and the same one by its return value and its channels.",
["fault_sequences","schedules"],
"every position, number and combination of failing evaluations in every search, gradient step or direct call, under every interleaving",
"No test makes an evaluation fail: the error paths of the concurrent code are never executed by them.",
CV,[("error channel of each worker","cv/cv.go, cv/grad.go"),("first error ends the search","cv/cv.go Grid, cv/grad.go, cv/hybrid.go")],["return values","values received from the result channels"])
p("C04","A gradient step is schedule-independent, uphill and within limits",
"The options a gradient step gives depend on the starting options, the limits and the measured accuracies but not on the order its goroutines run in. Each probe differs from the starting options in one tuned parameter only and by the fraction requested, with a probe on each side when central differences are asked for; a parameter moves only uphill along its own measured slope, stays where its probes scored the same, does move when the slope and the remaining room call for it, and stays within the search limits, never becoming not-a-number. Settings that are not tuned are carried over, and with an output channel the starting options are left alone. A copy of options has every setting of theirs, and only options alike in every setting compare equal.",
["schedules","inputs","configurations"],
"every starting point, limits, step, central or one-sided differences, score function and interleaving of the step's tasks",
"The tests never run a step twice under different schedules nor look at the options the probes used; a data race on the shared options only shows under particular interleavings.",
["cv/grad.go","options.go"],[("each parameter task works on its own clone","cv/grad.go GradStep, ParamaterGradStep"),("clamping to the limits","cv/grad.go checkAgainstOptions, ParamaterGradStep"),("Clone and Equal of the options","options.go")],["options returned and sent","options of every probe"])
p("C05","Gradient and hybrid searches return the best candidate they measured",
"A gradient or hybrid search that ends without an error returns the highest accuracy it measured for a candidate together with the very options that measured it, within the search limits; the accuracies it lists increase up to that one. It tries every starting combination requested, takes no more steps from it than requested and fewer only when several steps in a row moved nothing, measures every point a step gets to and goes on from it, or from near where the step began if it scored below the best, and works with the number of folds, kind of booster, early stop and minimum sample requested, and modifies neither its data nor its grid options. With the same random draws the outcome does not depend on the schedule.",
["schedules","inputs","configurations","histories"],
"every search space, data set, number of folds, score function and interleaving, over the whole history of steps of a search",
"The tests print the accuracy of one run; whether later steps overwrite the best options, or which fold count was used, cannot be seen in it.",
CV+["options.go"],[("best options stored as a copy","cv/grad.go GradientGrid, cv/hybrid.go"),("loops over the starting combinations","cv/grad.go, cv/hybrid.go")],["return values","options, data and folds of every training"])
p("C06","A saved and reloaded model is the same model, or saving reports an error",
"A model of either kind that is saved without an error and read back gives exactly the same class labels, number of classes and of rounds per class, probabilities for every point and feature importance, and so does that model saved and read again. A failure of the stream or disk while saving or reading is returned as an error. Saving changes nothing in the model, also when other tasks save or use it at the same time.",
["inputs","histories","fault_sequences","schedules"],
"every trained model (any number of classes and rounds, early-stopped or empty), every fragmentation of reads and writes, every point of failure, every interleaving of the tasks",
"The existing round-trip test trains one model and compares nothing bit by bit; it never fragments or fails a read or write and its model is never early-stopped or empty.",
["xjson.go","utils/json.go","tree.go","multiclass.go","xgb.go"],[("line-oriented JSON writer and reader","xjson.go"),("node numbering of a tree","utils/json.go, tree.go")],["model read back","errors returned"])
p("C07","A damaged or incomplete model file is never accepted as another model",
"Reading a model file that was cut at any byte, lost its last blocks or some blocks in a crash, names an activation function that does not exist, or comes from a stream that ends early or fails, either returns an error or gives exactly the model that was saved. It never gives a different model, panics or runs forever.",
["crash_points","inputs","fault_sequences"],
"every model, every crash point while saving it, every cut and block loss",
"No test reads a damaged file.",
["xjson.go","utils/json.go"],[("header, round and class lines, and the checks on them","xjson.go"),("rebuilding a tree from its nodes","utils/json.go")],["error or model returned"])
p("C08","The file a search writes is its best model, and never a wrong one",
"When a search is asked to write its best model and nothing fails, a file holds exactly the model trained on all the data with the options it returned, every file it wrote holds a model it trained on all the data, and none is left open. A disk that fails or fills up while the model is written does not change which result the search returns (it may report the failure instead), and after it or after a crash every file left is either rejected when read or a model the search trained.",
["fault_sequences","crash_points","schedules"],
"every search of the three kinds, disk failure or full disk at every operation, crash at every operation, and schedule",
"No test makes the search write, and none has a failing disk.",
CV+["xjson.go"],[("writeBest","cv/cv.go"),("buffered writer flushed and file closed","cv/cv.go writeBest")],["files on disk","error returned"])
p("C09","The data readers give exactly the table in the file, or an error",
"Reading a well-formed CSV or libSVM table gives exactly its keys, labels and values, whether it comes from a file or a stream, however it is fragmented, with or without a header or labels, with long lines, CR LF line ends, no final newline, column names that need quoting, or no rows; a table the library exported, also one without rows, is a well-formed one (libSVM columns numbered from 1) and reads back, to the decimals written. A value, label or term that can not be parsed, a CSV row with another number of fields, a missing file, or a stream or disk that fails at any byte is an error and never a shorter or different table. No file is left open.",
["inputs","fault_sequences","schedules"],
"every table and rendering of it, every fragmentation and point of failure, concurrent readers",
"The tests read a few complete files from a working disk.",
["utils/csv.go","utils/libsvm.go"],[("line readers and parsers","utils/csv.go, utils/libsvm.go"),("row writers","utils/csv.go, utils/libsvm.go")],["data returned","errors returned"])
p("C10","A class-name file is read whole or reported",
"Reading the file that gives names to classes returns exactly the number-name pairs in it, with the separator requested, LF or CR LF line ends and with or without a final newline. A missing file, a malformed line or a disk that fails at any byte is an error, never a shorter map, and no file is left open.",
["inputs","fault_sequences","schedules"],
"every list of names, separator, fragmentation and point of failure",
"The only test reads one file from a working disk.",
["confu/confu.go"],[("ReadNameMap","confu/confu.go")],["map and error returned"])
p("C11","Cross-validation folds partition the data",
"For every data set with enough rows the folds test every row exactly once, train each fold on exactly the other rows, keep each row with its own label and key, are as many as requested (or as the rows allow) and all there before the sampler ends. The random draws decide only the order. The original data stay as they were, also when the sets handed out as copies are overwritten or several tasks sample at once; too few rows are an error.",
["inputs","configurations","schedules"],
"every data set, number of folds, sequence of random draws (extreme and repeating ones included) and interleaving of samplers that share the data",
"A test draws from the real random source a few times; the extreme draws and concurrent samplers are not reached.",
["utils/stat.go"],[("CrossValidationSamples and its sampler","utils/stat.go"),("shuffle","utils/stat.go")],["sets returned for each fold"])
p("C12","Cross-validated accuracy is honest",
"The accuracy a cross-validation returns is the mean, over all its folds, of the accuracy of a model trained only on that fold's training rows, with the options requested, measured on that fold's test rows only; a fold that gives no ensemble counts as zero. It is the same by return value and by channel, and it and the data are not disturbed by other cross-validations going on at the same time.",
["inputs","schedules","configurations"],
"every data set, number of folds, options, random draws and interleaving of concurrent cross-validations",
"A test sees one number from one split; a model scored on rows it was trained on, or a fold skipped, gives an equally plausible number.",
["cv/cv.go","utils/stat.go","multiclass.go"],[("fold loop","cv/cv.go MultiClassCrossValidation"),("fold sampler","utils/stat.go")],["data of every training and scoring","accuracy returned"])
p("C13","Operations that share data, options or a model do not disturb each other",
"Training, predicting, scoring, saving, ranking features, confusion counts, cross-validation and searches give the same result alone and at the same time as others on the same data, options and model, whatever the interleaving. None of them modifies the data, options or model it is given.",
["schedules","programs"],
"every combination of operations and every interleaving of them",
"The tests run one operation at a time and do not compare what they were given before and after.",
["multiclass.go","tree.go","xgb.go","options.go","cv/cv.go","confu/confu.go"],[("options cloned or only read","xgb.go NewMultiClass, tree.go NewTree"),("buffers local to a call","multiclass.go PredictSingle")],["results of each operation","data, options and model afterwards"])
p("C14","No gain is lost or counted twice in the feature importance",
"Feature gains added or merged by any number of tasks at once into one set come out as one entry per feature whose gain is the sum of all that was added for it, with as many entries as features were added. Sorted, they are listed most important first.",
["schedules","histories"],
"every number of tasks, sequence of additions and merges, and interleaving, inside an addition too",
"No test adds gains from more than one goroutine.",
["tree.go"],[("set of gains with its mutex","tree.go Feats")],["features and gains listed"])
p("C15","A trained ensemble is what its training loop built",
"An ensemble has one class per distinct label, and for each class the rounds requested unless, with early stopping, its loss reached zero or failed to improve that many rounds in a row; it then stops there, without disturbing the other classes. Its probabilities are finite, between 0 and 1, add up to 1 and equal those the training ended with on the training rows, and the class predicted is the most probable; the losses that decide the stop are the mean squared error of the probabilities; its accuracy is the share of rows so predicted. This holds for ensembles with no rounds, one class, hundreds of rounds, skipped rounds and several trainings at once.",
["inputs","histories","configurations","schedules"],
"every data set, options, sequence of losses per class and of random draws",
"The tests train on one data set with one early-stop setting and compare an accuracy loosely; which class stopped when is never looked at.",
["multiclass.go","tree.go","xgb.go","utils/loss_acti.go","utils/math.go"],[("boosting loop and per-class stop","xgb.go NewMultiClass"),("softmax","utils/loss_acti.go"),("prediction","multiclass.go, tree.go")],["losses seen by the training","predictions, rounds and classes of the model"])
p("C16","A tree uses exactly the rows and columns drawn for its round",
"With row or column subsampling, each round draws once, builds the trees of all classes from exactly the rows drawn and splits only on the columns drawn (on none if none is), and is skipped if fewer rows than the minimum were drawn; without subsampling nothing is drawn. Values and labels that are never drawn have no influence on the model, unless early stopping is asked for, which looks at the loss of all rows. A draw gives distinct indices in range, all of them for a fraction of one, and the fraction requested on average.",
["inputs","histories","configurations"],
"every data set, options and sequence of draws",
"A test of the subsampling alone exists; which rows and columns a tree was built from, and that the others do not matter, no test looks at.",
["multiclass.go","tree.go","xgb.go"],[("draws","xgb.go SubSample"),("rows and columns passed down the tree","tree.go NewTree, findBetterSplit; xgb.go NewMultiClass")],["draws made","rows and columns of every tree"])
json_lines=[json.dumps(x) for x in P]
import importlib.util,os
extra=os.path.join(os.path.dirname(__file__),"props_extra.py")
if os.path.exists(extra):
    exec(open(extra).read())
    json_lines=[json.dumps(x) for x in P]
open("/verif/properties.jsonl","w").write("\n".join(json_lines)+"\n")
