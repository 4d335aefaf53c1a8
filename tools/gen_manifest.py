"""Write MANIFEST.json for the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'C01': 'property-based round-trip over generated schemas and data',
    'C02': 'model-based stateful histories, differential over all backends',
    'C03': 'model-based histories of edits, saves and sessions',
    'C04': 'property-based differential copies with histories on both sides',
    'C05': 'property-based comparison with a reference validator',
    'C06': 'property-based histories against a reference validator',
    'C07': 'fault injection into generated trees, reference validator',
    'C08': 'property-based save/load of valid and spoiled data, reference '
           'validator',
    'C09': 'property-based round-trip of generated schemas',
    'C10': 'metamorphic schema mutations, reference hash',
    'C11': 'property-based decision table against schema mutations',
    'C12': 'model-based stateful histories of pseudo-storages',
    'C13': 'property-based paths and operation sequences, file system '
           'snapshots',
    'C14': 'model-based histories against a reference state',
    'C15': 'property-based comparison with a reference tree and round-trip',
    'C16': 'model-based histories with refused operations injected',
    'C17': 'differential with independent readers and writers',
    'C18': 'model-based histories with clock bracketing',
    'C19': 'property-based comparison with a reference printer, differential '
           'over backends',
    'C20': 'model-based histories, differential with NumPy arrays',
    'C21': 'model-based histories with navigation invariants',
    'C24': 'property-based construction compared with a reference '
           'configuration',
    'C23': 'metamorphic: the same histories alone and embedded',
    'C22': 'model-based histories of several storages at once',
}
NOTE = ('Generated inputs only: no violation among the cases counted in the '
        'evidence (seeded by VERIF_SEED, failing cases are shrunk and '
        'replayable; thorough: more cases, then coverage-guided fuzzing of '
        'the same strategy with atheris). Trusts the reference model in dschpbt/, Hypothesis, '
        'NumPy, h5py and SciPy; sessions are ended by closing all HDF5 files '
        'in-process.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as file_:
        props = [json.loads(line)['id'] for line in file_]
    checks, missing = [], []
    for prop in props:
        if not os.path.exists(os.path.join(HERE, 'checks',
                                           prop.lower() + '.py')):
            missing.append({'property': prop, 'reason': 'check not built yet'})
            continue
        checks.append({
            'property': prop, 'quick_cmd': './run_check.sh ' + prop,
            'thorough_cmd': './run_check.sh ' + prop,
            'evidence_file': 'evidence/{}.json'.format(prop),
            'technique': TECHNIQUE[prop], 'level': 'exploration',
            'level_note': NOTE})
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': checks, 'not_applicable': missing,
        'notes': 'All checks run the generators of dschpbt/ with Hypothesis '
                 'against /repo\'s working tree (pure Python, nothing is '
                 'built). VERIF_SEED and VERIF_TIER select the seed and the '
                 'number of cases. No hooks are needed in /repo.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as file_:
        json.dump(manifest, file_, indent=1)
        file_.write('\n')


main()
