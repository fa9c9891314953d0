NA.update({
 'C29': 'conformance of evaluation to the CEL specification is a value-level statement about an external crate (cel) and string functions over all strings; no static argument in reach bounds it',
 'C30': 'the phase callbacks live in crates/wasm-shim, which needs the proxy-wasm host ABI and is neither built nor tested by the build here, so no compiler facts of it exist; a syntactic look at it would not decide the history property',
})
TECH['C20'] = 'static: interprocedural backward data flow over rustc MIR with call-graph reachability'
TECH['C18'] = 'static: guard-liveness data flow over rustc MIR with whole-program call-graph effects and lock-order cycle check'
TECH['C19'] = 'static: enumeration of panic sites from rustc MIR, each discharged by abstract interpretation with a difference-bound domain and escalating inlining'
TECH['C14'] = 'static: abstract interpretation of registration and selection over rustc MIR; keys compared as provenance terms; library contract for the radix tree'
TECH['C17'] = 'Abstract interpretation over MIR of every public operation of the descriptor manager from a symbolic table of services (k-limited), reading off per path the exact set of changed entries and comparing it with the one the operation is for'
TECH['C21'] = 'Abstract interpretation over MIR of the conversions with provenance terms and a constant-interval domain for every numeric cast, plus a crate-wide enumeration of numeric casts and floating point readings'
TECH['C22'] = 'Abstract interpretation over MIR of the conversions for unknown descriptors and values, recursive helpers treated inductively (assume-guarantee), every written/read/announced field compared with one table of field kinds'
TECH['C26'] = 'Abstract interpretation over MIR, one level at a time with an induction hypothesis for the parts (expression walk, data map, follow-ups): every subexpression walked once with the right pending selection, everything recorded reaches the compiled expression, is fetched before evaluation and is announced to a body parser'
TECH['C27'] = 'Abstract interpretation over MIR of the compilation of every list of actions (k-limited), comparing each dependency list with the one the execution modes ask for; the list then traced into every task and through every Task::dependencies implementation'
TECH['C25'] = 'Abstract interpretation over MIR of every function that can lock the span buffer, from an unknown buffer, with difference bounds for its size; each path classified by what it leaves in the buffer'
TECH['C23'] = 'Abstract interpretation over MIR of the generated configuration readers (field tag and default tables) and of Blueprint::compile, action compilation and PipelineFactory::try_from with provenance of every compiled part'
TECH['C24'] = 'Abstract interpretation over MIR of the legacy translation for every (k-limited) action; the assembled texts parsed as CEL with holes for the texts of the configuration and compared with the documented predicate, message and follow-ups'
TECH['C28'] = 'Abstract interpretation over MIR (typestate of an extraction): every path of the tasks that read body bytes and of every extractor, accounting for each chunk by provenance; plus a call-graph rule over the line grammar'
