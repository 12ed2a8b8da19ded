import json
T = {
'C01': ('reference-model monitor (truth tables) over random and exhaustive products', 'Every product entry point compared cell by cell with truth tables; all 36 pairs, 2D/3D.'),
'C02': ('reference-model monitor (exact probability recursion and enumeration)', 'Every fuzzy product entry point compared with exact probabilities.'),
'C03': ('online monitor of single-entry updates against exact posterior odds', 'Certain and impossible flips decided per event; intermediate odds by two-stage frequency tests (alarm only if two independent samples reject).'),
'C04': ('statistical trace monitor: sweeps started from exact posterior draws', 'Two-stage chi-square on enumerated posteriors of tiny machines; an error smaller than the samples resolve is not seen.'),
'C05': ('online monitor of single-entry updates in hierarchies against exact odds', 'As C03, with parent terms; includes machines extended after an inference.'),
'C06': ('online monitor of dispersion updates against a counting model', 'Deterministic comparison of every dispersion update and trace entry.'),
'C07': ('reference-model monitors of MAX-AND updates, dispersions and outputs', 'Update odds as C03; dispersions against every admissible greedy order; outputs exact.'),
'C08': ('state monitor: fixed members compared bit by bit after every update', 'Tap on every update of randomly assembled machines, with positive control that free neighbours move.'),
'C09': ('differential monitor of data with and without missing parts, plus prior-frequency monitor', 'Coupled random numbers make paired runs comparable bit for bit; laws by two-stage tests.'),
'C10': ('reference-model monitor of the translation of all 36 operator pairs', 'Exhaustive over pairs, 2 and 3 factors; random factors and data.'),
'C11': ('protocol monitor over the event log of update calls', 'Schedule, convergence decision and annealing replayed by an independent automaton, with scripted dispersion trajectories.'),
'C12': ('trace monitor against states recorded at every update', 'Bit-for-bit comparison of traces with an independent record.'),
'C13': ('reference-model monitor of outputs recomputed from traces', 'All techniques and flags; MAX-AND outputs are decided by C07, qL-AND by C18, IBP by C19.'),
'C14': ('differential replay with poisoned memory, interference and fresh processes', 'Digests of complete runs compared across memory poisons, earlier activity, and processes.'),
'C15': ('state monitor of clean-up calls, direct and inside inference', 'Columns identified by content, mask and dispersion, compared before and after.'),
'C16': ('reference-model and statistical monitors of data preparation functions', 'Exact mask/copy/replay checks; flip rates by binomial tests in two stages.'),
'C17': ('reference-model monitor (exact densities)', 'All 36 pairs, grid and random L, K, f.'),
'C18': ('online monitors of qL-AND updates, thresholds and dispersions', 'As C03 and C06 for the threshold likelihood.'),
'C19': ('online state monitor and reconstruction of IBP row updates', 'Structural invariants after every update; row-update odds by reconstruction and two-stage frequency tests. The number of new columns is judged for rows that no shared column explains.'),
'C20': ('monitor of experiment functions: results recomputed from the observed machine', 'Machine captured at Machine.infer; accuracies, means and reconstructions recomputed.'),
'C21': ('reference-model monitor (truth tables) of equivalence tables', 'Exhaustive over the 36 pairs and both lists; factor values exhaustive for small sizes, random beyond.'),
'C22': ('structural state monitor after every construction call', 'Complete family structure compared with an independent description of the calls made.'),
'C23': ('state monitor around every update of randomly assembled machines; differential monitor of single updates', 'Random assemblies; every update bracketed by digests of all other members, single updates repeated with everything outside the Markov blanket replaced.'),
'C24': ('monitor of drawn images and printed reports against recorded traces and states', 'Images are read back from the drawing library after colour normalisation; reports are compared at the moment of printing.'),
'C25': ('fault injection (exceptions between updates and at executed lines) with a differential monitor against a machine built anew', 'Interruptions at random points; continuation compared bit for bit with a freshly built machine in the same state. Traces left partially filled by an interruption are not judged.'),
'C26': ('oracle monitor: every returned value recomputed from the definition', 'Random and extreme arguments; definitions evaluated with the math module and plain loops.'),
}
checks = [dict(property=k, quick_cmd='./run %s' % k, thorough_cmd='./run %s --tier thorough' % k, evidence_file='evidence/%s.json' % k,
               technique=t, level='exploration',
               level_note=n + ' Held on the executions explored; kernels run as plain Python (NUMBA_DISABLE_JIT=1), the mode of the build and tests here.')
          for k, (t, n) in sorted(T.items())]
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the library\'s own sampling_fct attributes are the observation points. Repairs are listed in known_findings.txt.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
