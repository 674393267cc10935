#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVAL = ('Every obligation of this property over the real MIR of ContractVerify::evaluate (closures, From impls, OperationSeals/Operation accessors and verify_seals_closing executed from their own MIR, '
        'the stream loop and the inner loops by checked inductive invariants) is discharged for all streams, contracts and seal protocols, with no bound. ')
TR = ('Trusted: the compiler up to MIR, the verifier in engine/ and z3, contracts on std collections/iterators/strings and on the external API, seal and codex implementations (functions of their arguments that terminate), '
      'listed in the evidence. Code outside the verifier\'s reach is reported as not decided by proof and only checked by a bounded search on the real code.')
NOTE = {
 'C12': 'Postcondition of auth_token on the real MIR, for all definitions. The commitment id (hash) of the definition is an uninterpreted function of the whole definition. ' + TR,
 'C13': 'Postconditions of resolve and to_src on the real MIR for all definitions and witness ids, and their coherence. ' + TR,
 'C14': 'Postconditions of the strict encoding and decoding functions (as expanded by the derive macro) on the real MIR: each part written and read once, in order, into its own place, errors passed on. The codecs of the parts (dependencies) are trusted to be lossless; the type-level constant ALL_FIELDS is only covered by the bounded cross-check. ' + TR,
 'C15': 'Postcondition of clone on the real MIR. The clones of the parts (dependencies) are trusted. ' + TR,
 'C20': 'Postconditions of the Display, Debug and string conversion functions of the error (as expanded by the derive macros) on the real MIR, with a ghost text made of literals and shown values. The texts of the parts and core::fmt (format strings are decoded from the constants of the MIR) are trusted. ' + TR,
 'C18': 'Postconditions of serialize, deserialize and the visitors (as expanded by the derive macro) on the real MIR, the map visitor by a checked loop invariant. The serde codecs of the parts and the formats are trusted; the FIELDS constant is only covered by the bounded cross-check. ' + TR,
}
m = {'version': 1,
     'setup_cmd': 'python3 tools/check.py setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
                 'evidence_file': 'evidence/%s.json' % p,
                 'technique': 'contract-based deductive verification of the compiler\'s MIR of the real code (obligations discharged by z3, the remaining ones by cvc5)',
                 'level': 'proof', 'level_note': NOTE.get(p, EVAL + TR)} for p in ['C%02d' % i for i in range(1, 21) if i != 19]],
     'not_applicable': [{'property': 'C19', 'reason': 'A statement about which client programs compile (trait coherence: the blanket implementation of ContractVerify excludes any other one). There is no function whose contract could express it; the Rust type checker decides it, a deductive verifier of function bodies cannot.'}],
     'notes': 'No hooks in /repo are needed: the verifier reads the MIR of the unmodified crate. Known findings and repaired defects: known_findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
