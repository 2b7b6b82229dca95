"""Import the package from a scratch copy of the current directory's tree, with
WCxf basis files (the submodule is empty) written into the copy."""
import gzip, json, os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
_T = tempfile.TemporaryDirectory()
shutil.copytree(os.path.join(os.getcwd(), 'wilson'), os.path.join(_T.name, 'wilson'))
_b = os.path.join(_T.name, 'wilson', 'wcxf', 'bases')
os.makedirs(_b, exist_ok=True)
for _k, _v in json.loads(gzip.open(os.path.join(HERE, 'bases.json.gz')).read()).items():
    with open(os.path.join(_b, _k), 'w') as _fh:
        json.dump(_v, _fh)
sys.path.insert(0, _T.name)
sys.dont_write_bytecode = True
