"""Writes MANIFEST.json from the table below (run after adding a check)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
TECH = {}


def c(pid, tech, note):
    TECH[pid], NOTE[pid] = tech, note


c('C01', 'TLA+ state machine (Indexing.tla) model-checked with TLC; its behaviours replayed on StateIndexing',
  'exhaustive over removal histories of the model for up to 4 single-particle states, sampled histories up to 6')
c('C02', 'TLA+ predicate over index tables (Indexing.tla) evaluated by TLC on the tables recorded from the real indexing classes',
  'every recorded table is judged by TLC (trace validation with IndexingJudge.tla); sizes up to 5 single-particle states')
c('C03', 'operator tables enumerated by TLC from Fock.tla (algebra laws checked in every state), compared element by element with the code',
  'sizes up to 5 (quick) or 6 (thorough) single-particle states; amplitudes are sampled, operator structure is exhaustive')
c('C04', 'operator tables enumerated by TLC from Fock.tla, compared element by element with the code, rotated with the reported eigenvectors',
  'sizes up to 4 (quick) or 6 (thorough) single-particle states; amplitudes are sampled')
c('C05', 'TLA+ state machine of parameter containers (Params.tla); TLC-generated behaviours replayed on the real objects',
  'behaviours sampled by TLC simulation, integer-valued amplitudes, derived matrices from Fock.tla')
c('C06', 'TLA+ state machine of parameter containers (Params.tla) with input forms and spin expansion; TLC-generated behaviours replayed',
  'behaviours sampled by TLC simulation over dictionary, list, array and number forms')
c('C07', 'term tables of the master equations generated by TLC from MasterEq.tla (conservation laws model-checked), evaluated and compared with reported solutions',
  'laws checked exhaustively on small configurations; systems sampled with up to 4 single-particle states')
c('C08', 'current functionals generated by TLC from MasterEq.tla (charge balance model-checked), compared with reported currents and amplitudes',
  'laws checked exhaustively on small configurations; systems sampled with up to 4 single-particle states')
c('C09', 'TLA+ state machine of a system and its solves (System.tla); TLC behaviours replayed, the recorded traces validated by TLC, every solve compared with the configuration the specification predicts',
  'behaviours sampled by TLC simulation; numeric results compared with a fresh system put into the predicted configuration')
c('C10', 'option lattice of System.tla enumerated by TLC; every two options of one configuration compared, and the parallel row computation model-checked (ParallelRows.tla)',
  'option combinations enumerated; physical systems sampled; thread schedules are those the machine produces')
c('C11', 'TLA+ state machine of restrictions (System.tla) replayed on the code; restricted equations generated by TLC from MasterEq.tla',
  'restriction histories sampled by TLC simulation, systems with up to 4 single-particle states')
c('C12', 'transition table of Options.tla (every construction and every assignment from every reachable state) enumerated completely by TLC and replayed',
  'all 75092 transitions are replayed; results of assignments compared with direct construction on a sample')
c('C13', 'phonon terms of the master equations generated by TLC from MasterEq.tla (conservation laws model-checked), compared with reported solutions',
  'laws checked exhaustively on small configurations; systems sampled with up to 4 single-particle states')
c('C14', 'query and sorting specification (Queries.tla) evaluated by TLC on recorded systems and replayed histories',
  'sampled systems and sorting histories, all pairs of labels of each')
c('C15', 'Keldysh diagrams enumerated by TLC from Diagrams.tla (conservation, hermiticity, charge and mirror laws model-checked) and evaluated as an oracle for kernels, occupations and currents; histories of Switches.tla replayed',
  'all diagrams of first and second order for dots of up to 3 single-particle states; systems sampled; wide bands')
c('C16', 'TLA+ state machine of iterations (Iterate.tla, model-checked) whose TLC behaviours are replayed; terms of the second-order von Neumann equation enumerated by TLC from Neumann2.tla (sign, charge, exchange and adjoint laws model-checked) and evaluated as an oracle for every iteration',
  'iteration histories sampled by TLC simulation; all terms for up to 3 single-particle or 7 many-body states, systems sampled; one known finding')
c('C17', 'multiplets and spin operators of Spin.tla (spin algebra, counting and symmetry laws checked by TLC in every Fock state) compared with the reported states; solutions inserted in the unreduced equation whose terms TLC generates from MasterEq.tla',
  'two, four and six single-particle states, Hamiltonians sampled')
c('C18', 'exact stationary states, currents and heat of rate networks (Thermo.tla: spanning trees in integers, laws checked by TLC over all small networks and every generated one) replayed into the four first-order approaches; the same laws asked of random systems whose term tables come from MasterEq.tla',
  'networks up to 4 states exhaustive/sampled in TLC; random systems sampled; positivity is claimed for transitive coherence restrictions')
c('C19', 'words of rewritings composed by TLC from Covariance.tla (laws of composition model-checked, and compared in TLC with exact rate networks of Thermo.tla), carried out on random systems whose results must be those the word tells',
  'words sampled by TLC simulation up to length 8, systems sampled; up to 4 single-particle states, 6 leads, 3 baths')
c('C20', 'single-particle and many-body forms of one configuration of System.tla compared, relabelled by TLC-enumerated permutations and offsets',
  'systems sampled, orders and offsets sampled')

have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, 'checks'))
              if f.startswith('c') and f[1:3].isdigit())
props = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {p: 'no check built yet' for p in props if p not in have}
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p,
                     technique=TECH[p], level='model_checking', level_note=NOTE[p]) for p in have],
     'not_applicable': [dict(property=p, reason=r) for p, r in NA.items()]}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
