"""Which rules decide which property."""
from .rules import verdicts as V, agree as A, basic as B, flow as W

RULES = {
    'C01': [V.C01], 'C02': [V.C02], 'C03': [V.C03], 'C04': [V.C04], 'C05': [V.C05], 'C06': [V.C06],
    'C07': [A.C07], 'C08': [A.C08], 'C09': [A.C09], 'C10': [A.C10], 'C11': [A.C11], 'C12': [A.C12], 'C33': [A.C33],
    'C13': [B.C13], 'C14': [B.C14], 'C15': [B.C15], 'C16': [B.C16], 'C17': [B.C17], 'C18': [B.C18],
    'C19': [W.C19], 'C21': [W.C21], 'C22': [W.C22], 'C23': [W.C23], 'C25': [W.C25], 'C29': [W.C29],
    'C20': [B.C20], 'C24': [B.C24], 'C26': [B.C26], 'C27': [B.C27], 'C28': [B.C28],
}
TEXT = {}
META = {}
_G = 'value-graph static analysis of the MIR (abstract interpretation to gated value terms)'
_N = ('Decided on the type-checked MIR of the current tree (both feature sets); nothing of /repo is executed. '
      'Trusted: rustc front end and the contracts of external operations in sa/models.py. ')
META['C19'] = (_G + ': taint of setup randomness through every value a setup returns or prints, and provenance of every drawn secret',
               _N + 'A violation names the setup function and the returned field from which the secret is read or computed.')
META['C21'] = (_G + ': feasibility of panic and loop bounds on parametric malformed proofs, trip counts and buffer sizes as terms',
               _N + 'Round counts and key sizes are taken from a finite grid, data values are universally quantified.')
META['C22'] = (_G + ': every fallible operation on every path of every public operation is given a symbolic failure, whose effect on the result is decided; plus the verdict rules of C01-C06',
               _N + 'Sizes are taken from a finite grid, data values are universally quantified.')
META['C23'] = ('structural dataflow analysis of Clone, CanonicalSerialize, CanonicalDeserialize and Valid implementations over every data field',
               _N + 'Every data field of every proof, auxiliary and SRS type is an obligation.')
META['C25'] = (_G + ': thread count and schedule are symbolic terms the results must not depend on (also compared between the two feature sets); effect query for clock, environment, thread identity, own randomness and state shared by parallel closures',
               _N + 'Data values are universally quantified; sizes and thread counts are taken from a finite grid.')
META['C29'] = ('query over all MIR bodies and items: unsafe code, statics that can change, thread-locals, leaked or reinterpreted memory',
               _N + 'Every function, implementation and static of the workspace is an obligation.')
