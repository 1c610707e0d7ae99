import json, sys
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from props import P
tech = {
 'C01': 'online monitor comparing evaluation with an independent reference interpreter on generated expressions',
 'C03': 'online monitors: reference densities, and DKW/KS monitors over recorded draws',
 'C07': 'online trace checker against a model table of definitions over random edit histories',
 'C20': 'online trace checker against a model tree over random histories of structural operations',
 'C24': 'offline checker over the recorded log of simulations',
 'C25': 'online state monitor (every state captured) and offline checker over the log of simulations',
 'C26': 'offline checker over captured states, trace and log of simulations, with a simulation budget for termination',
 'C27': 'offline checkers over results of real multi-process runs (pairing, conservation, exactly-once, stream independence)',
 'C28': 'online capture of every wave, offline recomputation from the log of simulations',
 'C29': 'online trace checker against a model timeline over random histories',
 'C34': 'online monitor comparing trajectories with a fine integration of the stated equations, and draws with their stated laws (KS, Hoeffding)',
 'C33': 'differential monitor of results and generator states over repeated executions',
}
notes = {
 'C27': 'real multi-process executions on generated models; worker scheduling is not steered',
 'C33': 'repeated executions in one process; the surrogate models of history matching are excluded',
}
checks = []
for p in P:
    i = p['id']
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python run.py %s' % i,
        thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
        technique='runtime monitoring: ' + tech.get(i, 'online monitor comparing every observation with an independent reference on generated workloads'),
        level='exploration',
        level_note='Held on every observed execution of generated, seeded workloads under 8 hash seeds; trusts the reference semantics in /verif/rtm. '
                   + notes.get(i, 'No claim beyond the executions counted in the evidence.')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, scipy, pandas"', checks=checks, not_applicable=[],
         notes='No hooks are needed in /repo: all observation points are public, or reached by subclassing in the harness.')
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
