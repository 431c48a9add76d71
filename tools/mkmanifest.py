import json,os
T='contract-based deductive verification: contracts on the crate\'s functions, VCs generated from the LLVM IR of /repo\'s current source (dv/), discharged by polynomial normal forms over Z and F_p, intervals, z3/cvc5'
NOTE={
'C01':'All add/sub/neg forms of the nine fields: value postcondition as a polynomial identity over F_p for every operand in the representation invariant, frame of by-reference operands, no panic.',
'C02':'All mul/square forms of the nine fields: product postcondition proved as a polynomial identity over F_p through all carry propagation, for every operand in the representation invariant.',
'C03':'All small-integer forms (8/16/32 bit, assigning, by reference, integer on the left) of the nine fields, full signed range.',
'C04':'Inversion/division as exponent identities in F_p[x] modulo x^(p-1) = 1, using the verified contracts of mul/square; all nine fields.',
'C05':'Legendre (Euler criterion) and square roots as polynomial identities modulo x^((p-1)/2) = 1; the field primes are proved prime by certificates checked on every run.',
'C06':'normalize: residue preserved, canonical words, 0 <= value < p; linear integer obligations to z3/cvc5.',
'C07':'normalize_eq / normalize_self_eq return true iff the canonical words agree; rests on the verified contract of normalize.',
'C08':'pack/unpack forms: every byte of the encoding, round trip, frame (bytes beyond the encoding, operand residue).',
'C09':'bit access for every index below the bit count; bitwise and/or forms on canonical words; bit counts.',
'C10':'Inductive representation invariant: every public operation (all variants) starting in it neither overflows nor panics nor leaves it; hence for histories of any length. Overflow checks of the debug profile are the obligations.',
'C11':'rand: canonical result for every generator output (generator words arbitrary, rand\'s own gen_range code executed).',
'C12':'LowerHex/UpperHex: the sequence of formatted bytes; core::fmt integer formatting has an assumed contract (compared with the real library on concrete values in every run).',
'C13':'Constants are evaluated from the compiled accessors (closed terms) and checked against their documented meaning.',
'C14':'Point addition forms: polynomial identities modulo the curve equations, non-vanishing of Z via a Lean-checked completeness lemma.',
'C15':'Doubling/tripling forms: as C14, against the addition law applied once and twice.',
'C16':'zero() and init(): valid extended representation of the identity / the given affine point.',
'C17':'Scalar multiplication: ladder verified with point contracts and a ghost multiple; all scalars, both forms; group laws checked as ring identities, completeness in Lean.',
'C18':'Every operator form and in-place/functional pair against the one mathematical meaning, including both operands being the same element; frame conditions bit for bit.',
'C19':'Every branch condition, switch, address and memcmp of every operation is shown independent of secret inputs on the debug-profile IR (any undecided fork is a violation); alarms are replayed by comparing instruction traces.',
'C20':'fill/filled and the and/or/select compositions with masks on elements in any representation.'}
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
man={'version':1,'setup_cmd':'true','hooks':{'guard':'verif_hooks','enable':'RUSTFLAGS="--cfg verif_hooks" (dv/build.sh)','source_commits':['c39bd4073503f0000af4392497b62bd2b2cea2ec']},
'checks':[{'property':i,'quick_cmd':'./check '+i,'thorough_cmd':'VERIF_TIER=thorough ./check '+i,'evidence_file':'evidence/%s.json'%i,'technique':T+('; Lean 4 lemma' if i in('C14','C15','C17') else ''),'level':'proof',
 'level_note':NOTE[i]+' Trusted: rustc\'s lowering to LLVM IR, the VC generator dv/, the SMT solvers; see evidence assumptions.'} for i in ids],
'not_applicable':[],'notes':'VIOLATION replay files are JSON under replays/; ./replay FILE re-executes one.'}
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
