p("C17","Every split and leaf follows the boosting algorithm for the draws made",
"In every tree of every round, each split is the best one by the booster's objective among those allowed (columns drawn, minimum rows on each side, maximum depth), halfway between the two values it separates; a node stays unsplit only if none is allowed or, for xgboost, none gains; and each leaf takes the (regularised) Newton step of exactly the rows that reach it, given the predictions of all trees before it. Predictions add up the base score and the trees scaled by the learning rate, through the softmax. The importance of a feature is the sum of the scores of the splits on it, most important first.",
["inputs","histories","configurations","schedules"],
"every data set, options, loss, sequence of random draws and number of trainings going on at once",
"The tests compare the accuracy of a few models with a loose bound; an ensemble built from worse splits or wrong steps still learns and passes them.",
["tree.go","xgb.go","multiclass.go","utils/math.go","utils/loss_acti.go"],[("split search","tree.go findBetterSplit"),("leaf values","tree.go NewTree, xgb.go updateLeaves"),("gradients and hessians","utils/loss_acti.go")],["trees of the saved model","draws made","predictions"])
p("C18","Confusion counts and rankings reflect the predictions",
"The confusion matrix counts each row of the data once, under its actual and its predicted class, and the most confused classes are listed in order of their counts.",
["inputs"],"every model and data set",
"The tests count one small set.",
["confu/confu.go"],[("MCConfusions, Matrix, TopNPerLabel","confu/confu.go")],["matrix and rankings returned"])
p("C19","The numeric helpers compute what they are defined to",
"Arg-sorting, one-hot encoding, sampling and transposing matrices, and the loss functions return what their definitions say for every input.",
["inputs"],"every matrix and slice",
"The tests use one small example each.",
["utils/math.go","utils/libsvm.go","utils/loss_acti.go"],[("helpers","utils/math.go, utils/libsvm.go")],["values returned"])
