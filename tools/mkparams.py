"""Freeze the published parameter metadata (run once, on the pristine tree)."""
import json, pathlib, sys
sys.path.insert(0, '/repo/src')
from eprempy import parameter
from eprempy.parameter import _metadata
db = json.loads(pathlib.Path('/repo/src/eprempy/parameter/reference.json').read_text())
i = parameter.interface()
out = {'db': db, 'params': {}}
for key in sorted(set(db['CONFIGURATION_C']) | set(_metadata._LOCAL)):
    info = _metadata._CONFIGURATION_C.get(key) or _metadata._LOCAL.get(key) or {}
    v = i[key]
    out['params'][key] = {
        'aliases': list(info.get('aliases') or []),
        'unit': str(v.unit) if hasattr(v, 'unit') else None,
    }
pathlib.Path('/verif/dst/params.json').write_text(json.dumps(out, indent=0))
