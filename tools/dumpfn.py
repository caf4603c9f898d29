"""debug: dumpfn.py fname "{cfg dict}" [opaque,list] [dims]"""
import faulthandler, resource, os as _o
resource.setrlimit(resource.RLIMIT_AS, (6<<30, 6<<30))
if _o.environ.get("TB"): faulthandler.dump_traceback_later(int(_o.environ["TB"]), exit=True)
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from athsa.config import Config
from athsa.front import Program
from athsa.interp import Interp, dump
from athsa.spec import grid_facts
cfg = Config(**eval(sys.argv[2]))
op = sys.argv[3].split(',') if len(sys.argv) > 3 and sys.argv[3] else []
a = grid_facts(int(sys.argv[4])) if len(sys.argv) > 4 else []
it = Interp(Program(cfg), opaque=op, assume=a)
it.run(sys.argv[1], None)
r = dump(it.events)
if r: print(r if isinstance(r, str) else "\n".join(r))
print(it.stats)
