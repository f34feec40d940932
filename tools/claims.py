STD = ('Obligations of the units listed in the evidence are discharged for all inputs; the remaining named functions are covered by executable '
       'contracts with the stated bounds (labelled bounded, not counted as proved). Trusts the VC generator, z3/cvc5 and the listed assumptions.')
for p in 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C26 C27 C28'.split():
    CLAIMS[p] = ('exploration', STD)
CLAIMS['C25'] = ('proof', STD)
NA = {
    'C29': 'a liveness claim over arrival orders and time: contracts give partial correctness only, no function contract within reach states eventual acceptance',
    'C30': 'crash atomicity of a sequence of separate LMDB transactions is a property of intermediate disk states, which pre/post contracts of the functions do not see',
}
