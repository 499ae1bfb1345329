DEFT='stateless explicit exhaustive exploration of call sequences on the real code against a lockstep reference model'
DEFN='Every sequence of the listed operations within the stated bounds was executed on the real code (checked and release build) and compared with a reference model; nothing beyond the bounds is claimed. Trusts the reference model, rustc, and where scenarios prune, that the canonical state determines the future (cross-checked by unpruned scenarios).'
CT='stateless/explicit-state exploration of all interleavings of the real code under a controlled scheduler (machine-access steps by page protection, atomic-operation steps by an instrumented core), judged by the set of all explaining linearizations'
CN='Every interleaving (with state-based pruning; a subset without) of the listed thread programs was executed on the real machine code of the Bump, in a checked and a release build, sequentially consistent memory; relaxed-memory effects beyond that are not explored (all shared state is one SeqCst atomic word). Trusts the linearization monitor, the scheduler and the pruning state.'
TECH['P01']=CT; NOTE['P01']=CN
TECH['P02']=CT+'; plus exhaustive call sequences against an interval model'; NOTE['P02']=CN
