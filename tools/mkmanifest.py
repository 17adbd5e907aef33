"""Writes MANIFEST.json."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = ("The backend is an in-memory MySQL stand-in written from the MySQL manual (lib/mysqlsim.py); TLC, the stand-in, the projection of "
       "observed values to ranks (lib/hist.py) and the process-global stubs are trusted. ")
SEM = ("Real client statements run through the real proxy; TLC validates every recorded step against EulerDB.tla (exhaustive over the trace, "
       "bounded by the generated histories: seeded schemas, values, predicates). " + SIM)
POOL = ("Histories of several threads on the real pool under a deterministic scheduler (seeded random and preemption-bounded schedules at line granularity) over a "
        "recording driver that fails on demand; TLC searches a sequential order of every history against PooledDB.tla, every configuration axis sampled.")
CRYPT = ('Recorded calls of the real ciphers on generated keys, texts, ranges and numbers; TLC validates every call against the specification; corrupted traces must be rejected in every run. The generated inputs are the bound.')
SCRIPT = ('Every derivation up to the bound plus random long ones, each written out with one random choice of lexemes, layout and comments; texts that derive from nothing are random.')
STEADY = ("Client scripts on the real steady connection over a recording driver with enumerated fault sequences; TLC validates every driver call and answer "
          "against SteadyDB.tla.")
C = {
    'D01': ('TLA+ spec PooledDB (ownership, limits), trace validation with TLC of overlapping pool calls under a deterministic scheduler', POOL),
    'D02': ('TLA+ spec PooledDB (hand-over state), trace validation with TLC of overlapping pool calls under a deterministic scheduler', POOL),
    'D03': ('TLA+ spec PooledDB (Below, CanOpenShared at quiescence), trace validation with TLC of overlapping pool calls under a deterministic scheduler', POOL),
    'P01': ('TLA+ spec EulerDB/EulerSem, trace validation with TLC', SEM),
    'P02': ('TLA+ spec EulerDB/EulerSem, trace validation with TLC of rows and every stored companion', SEM),
    'P03': ('TLA+ spec EulerDB/EulerSem, trace validation with TLC', SEM),
    'P04': ('TLA+ spec EulerDB/EulerSem with BigNum arithmetic, trace validation with TLC', SEM),
    'P05': ('TLA+ spec EulerDB/EulerSem (LIKE), trace validation with TLC', SEM),
    'P06': ('TLA+ spec EulerDB/EulerSem (joins, derived tables), trace validation with TLC', SEM),
    'P07': ('TLA+ spec EulerDB (SeenOk), trace validation with TLC of every statement sent', SEM),
    'P08': ('TLA+ spec EulerDB (Probe, Restart), trace validation with TLC', SEM),
    'P09': ('TLA+ spec EulerDB (HalfCreate, HalfDrop, broken tables), trace validation with TLC; a failure or crash at every backend call of every DDL kind', SEM),
    'P10': ('TLA+ spec EulerDB (Faulted, StoreNow), trace validation with TLC of histories with planted backend failures', SEM),
    'P11': ('TLA+ spec EulerConc (sequential order of overlapping requests), trace validation with TLC of histories under a deterministic thread scheduler', SEM),
    'P12': ('TLA+ spec EulerDB (Encrypt, Fetch, Decrypt tickets), trace validation with TLC', SEM),
    'P13': ('TLA+ spec EulerDB (accounts, one plaintext database per data source), trace validation with TLC of rows, stored data and connections used', SEM),
    'P14': ('TLA+ spec EulerDB (Import), trace validation with TLC, planted backend faults', SEM),
    'P16': ('TLA+ spec EulerDB, trace validation with TLC of histories through the real HTTP service, one client or several at the same time', SEM),
    'D04': ('TLA+ spec SteadyDB, trace validation with TLC of driver-call histories under enumerated fault sequences', STEADY),
    'D05': ('TLA+ spec SteadyDB (usage, session, closing), trace validation with TLC under enumerated fault sequences', STEADY),
    'C01': ('TLA+ spec Cipher (known part of one injective function per key), trace validation with TLC of recorded cipher calls', CRYPT),
    'C02': ('TLA+ specs OpeDesign (bisection algorithm, every sampler outcome, exhaustive with TLC) and Ope, trace validation with TLC of recorded calls', CRYPT),
    'C03': ('TLA+ spec NumCode (exact integers of any size), trace validation with TLC of recorded encode / decode calls', CRYPT),
    'C04': ('TLA+ spec Additive (exact integers of any size), trace validation with TLC of recorded cipher calls', CRYPT),
    'C05': ('TLA+ spec Cipher (containment), trace validation with TLC of recorded cipher calls', CRYPT),
    'S01': ('TLA+ specs Sql (trees, how a tree is written with the fewest parentheses, how tokens are read: MySQL precedence; read after write checked by TLC) and SqlGen (derivations of statements, enumerated exhaustively for operators and drawn at random), replayed into the parser and formatter, recorded trees and texts checked by TLC', 'Every expression tree of two operators (and predicates), random statements of the whole grammar with up to 40 expansions, each written out plainly and with random layout, case, comments and quoting; names, numbers and strings from fixed lists of ordinary and odd ones.'),
    'S02': ('TLA+ specs Sql, SqlGen (derivations of statements, drawn at random and enumerated by TLC) and SqlParts (kind, tables and columns of a tree), replayed into the query analyser, recorded answers checked by TLC', 'Random statements of the whole grammar with up to 40 expansions, of all kinds (queries, DML, WITH, CREATE, ALTER, DROP), each written out plainly, with random layout, case and comments, and with quoted names; every tree of operators. Qualifiers that are aliases of derived tables are outside the domain.'),
    'S03': ('TLA+ spec Script (derivations of scripts, enumerated exhaustively and drawn at random by TLC), replayed into the splitter and lexer, recorded cuts checked by TLC', SCRIPT),
    'S04': ('TLA+ specs Layout (how text is read as tokens and tokens are laid out; read after write checked exhaustively by TLC), Script and SqlGen (derivations drawn at random), replayed into the formatter, what it wrote checked by TLC', 'Random derivations, each with one random layout and one random set of options; layouts of up to three tokens are exhaustive. The reader of Python and PHP string literals is trusted.'),
    'P15': ('TLA+ spec EulerDB (constraints), trace validation with TLC', SEM),
}
try:
    import manifest_more
    C.update(manifest_more.C)
except ImportError:
    pass


def main():
    ids = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in C and os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
            t, n = C[i][:2]
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i,
                           'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % i,
                           'technique': t, 'level': 'model_checking', 'level_note': n.strip()})
        else:
            na.append({'property': i, 'reason': 'No check yet (work in progress).'})
    m = {'version': 1, 'setup_cmd': 'python3 -c "print(1)"',
         'hooks': {'guard': 'VERIF_UNUSED', 'enable': 'no hooks: the checks observe the unmodified code through its public interface',
                   'source_commits': []},
         'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
