import importlib
import os
import sys

ENV = dict(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONPATH='/repo')
if sys.argv[1].upper() == 'C13':
    ENV['SYMPY_CACHE_SIZE'] = 'None'      # see accel.py
if os.environ.get('SHGPY_VERIF_ENV') != '1':
    os.environ.update(ENV)
    os.environ['SHGPY_VERIF_ENV'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
name = sys.argv[1]
mod = importlib.import_module(name.lower())
code = lib.main(mod, sys.argv[2:])
sys.stdout.flush()
os._exit(code)
