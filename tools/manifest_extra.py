notes["C17"]=("seeded and adversarial draws; refinement of the recorded training against a reference of the algorithm, node by node","The reference is an independent implementation of the split score, the leaf step and the prediction, compared within 1e-9; it follows the draws recorded at the library's subsampling function and abstains if the code draws in another way.")
NA={"C18":"A pure function of a model and a data set: no schedule, clock, I/O, randomness or fault can change it, so simulation adds nothing over ordinary input generation. That counting is not disturbed by concurrent use of the model is part of C13.",
"C19":"Pure numeric functions without concurrency, time, I/O or randomness. What training needs of them is checked through C15 and C17."}
